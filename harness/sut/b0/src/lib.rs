//! Buffered queues: geometry x RAM size x cache.
use hcore::buf_combo;
use hcore::bufsut::BufCombo;

pub fn combos() -> Vec<BufCombo> {
    vec![
        buf_combo!(4, 4, 64, 16, CU),
        buf_combo!(4, 4, 64, 33, CHeapAll),
        buf_combo!(1, 1, 64, 7, CU),
        buf_combo!(1, 1, 32, 64, CHeapAll),
        buf_combo!(4, 4, 64, 100, CU),
        buf_combo!(1, 1, 64, 3, CHeapAll),
        buf_combo!(1, 1, 64, 2, CU),
        buf_combo!(1, 1, 64, 1, CU),
        buf_combo!(4, 4, 1024, 700, CU),
        // More than the length prefix can express.
        buf_combo!(4, 4, 64, 140000, CU),
    ]
}
