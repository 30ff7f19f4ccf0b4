//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::QueueCombo;
use hcore::queue_combo;

pub fn combos() -> Vec<QueueCombo> {
    let mut v = vec![];
    v.push(queue_combo!(1, 1, 32, CHeapAll, 5));
    v.push(queue_combo!(1, 1, 32, CCalcAll, 6));
    v.push(queue_combo!(1, 1, 32, CArr, 7));
    v.push(queue_combo!(1, 1, 64, CU, 0));
    v.push(queue_combo!(1, 1, 64, CHeapAll, 5));
    v.push(queue_combo!(4, 4, 128, CU, 0));
    v.push(queue_combo!(4, 4, 128, CHeapAll, 5));
    v.push(queue_combo!(1, 4, 64, CU, 0));
    v.push(queue_combo!(1, 4, 64, CHeapAll, 5));
    v.push(queue_combo!(4, 1, 64, CU, 0));
    v.push(queue_combo!(4, 1, 64, CHeapAll, 5));
    v.push(queue_combo!(1, 32, 192, CHeapAll, 5));
    v.push(queue_combo!(1, 32, 192, CU, 0));
    v
}
