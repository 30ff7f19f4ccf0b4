//! Small pages, to be used by the hundred; keys by the hundred.
use hcore::sut::{MapCombo, QueueCombo};
use hcore::{map_combo, queue_combo};

pub fn maps() -> Vec<MapCombo> {
    vec![
        map_combo!(1, 1, 32, u16, CU, 0),
        map_combo!(1, 1, 32, u16, CCalc, 1),
        map_combo!(1, 1, 32, u16, CHeapK, 4),
        map_combo!(1, 1, 32, u16, CHeapAll, 5),
        map_combo!(1, 1, 32, u16, CCalcAll, 6),
        map_combo!(4, 8, 64, u16, CU, 0),
        map_combo!(4, 8, 64, u16, CArrWide, 9),
        map_combo!(4, 8, 64, u16, CCalcAll, 6),
    ]
}

pub fn queues() -> Vec<QueueCombo> {
    vec![
        queue_combo!(1, 1, 32, CU, 0),
        queue_combo!(1, 1, 32, CCalc, 1),
        queue_combo!(1, 1, 32, CHeapP, 3),
        queue_combo!(1, 1, 32, CHeapAll, 5),
        queue_combo!(1, 1, 32, CCalcAll, 6),
        queue_combo!(4, 8, 64, CU, 0),
        queue_combo!(4, 8, 64, CArrWide, 9),
        queue_combo!(4, 8, 64, CCalcAll, 6),
    ]
}
