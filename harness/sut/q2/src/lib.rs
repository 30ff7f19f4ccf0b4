//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::QueueCombo;
use hcore::queue_combo;

pub fn combos() -> Vec<QueueCombo> {
    let mut v = vec![];
    v.push(queue_combo!(8, 8, 128, CU, 0));
    v.push(queue_combo!(8, 8, 128, CHeapAll, 5));
    v.push(queue_combo!(1, 8, 96, CU, 0));
    v.push(queue_combo!(1, 8, 96, CHeapAll, 5));
    v.push(queue_combo!(2, 2, 48, CU, 0));
    v.push(queue_combo!(2, 2, 48, CHeapAll, 5));
    v.push(queue_combo!(16, 16, 256, CU, 0));
    v.push(queue_combo!(16, 16, 256, CHeapAll, 5));
    v.push(queue_combo!(32, 32, 256, CU, 0));
    v.push(queue_combo!(32, 32, 256, CHeapAll, 5));
    v.push(queue_combo!(1, 1, 11, CHeapAll, 5));
    v.push(queue_combo!(4, 4, 20, CCalcAll, 6));
    v.push(queue_combo!(32, 4, 128, CArr, 7));
    v.push(queue_combo!(4, 4, 1024, CU, 0));
    v.push(queue_combo!(4, 4, 1024, CHeapAll, 5));
    v
}
