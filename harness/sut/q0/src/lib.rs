//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::QueueCombo;
use hcore::queue_combo;

pub fn combos() -> Vec<QueueCombo> {
    let mut v = vec![];
    v.push(queue_combo!(4, 4, 64, CU, 0));
    v.push(queue_combo!(4, 4, 64, CCalc, 1));
    v.push(queue_combo!(4, 4, 64, CHeapS, 2));
    v.push(queue_combo!(4, 4, 64, CHeapP, 3));
    v.push(queue_combo!(4, 4, 64, CHeapAll, 5));
    v.push(queue_combo!(4, 4, 64, CCalcAll, 6));
    v.push(queue_combo!(4, 4, 64, CArr, 7));
    v.push(queue_combo!(1, 1, 32, CU, 0));
    v.push(queue_combo!(1, 1, 32, CCalc, 1));
    v.push(queue_combo!(1, 1, 32, CHeapS, 2));
    v.push(queue_combo!(1, 1, 32, CHeapP, 3));
    v
}
