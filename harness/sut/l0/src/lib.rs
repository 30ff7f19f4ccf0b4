//! Pages so large that the 16 bits of the length field, not the page, limit an item.
use hcore::sut::{MapCombo, QueueCombo};
use hcore::{map_combo, queue_combo};

pub fn maps() -> Vec<MapCombo> {
    vec![
        map_combo!(4, 4, 66048, u8, CU, 0),
        map_combo!(4, 4, 66048, u8, CHeapAll, 5),
        map_combo!(1, 1, 131072, u8, CU, 0),
        map_combo!(32, 32, 65536, u8, CCalcAll, 6),
    ]
}

pub fn queues() -> Vec<QueueCombo> {
    vec![
        queue_combo!(4, 4, 66048, CU, 0),
        queue_combo!(4, 4, 66048, CHeapAll, 5),
        queue_combo!(1, 1, 131072, CU, 0),
        queue_combo!(32, 32, 65536, CCalcAll, 6),
        queue_combo!(8, 8, 65560, CU, 0),
    ]
}
