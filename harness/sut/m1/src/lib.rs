//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::MapCombo;
use hcore::map_combo;

pub fn combos() -> Vec<MapCombo> {
    let mut v = vec![];
    v.push(map_combo!(1, 1, 64, u8, CU, 0));
    v.push(map_combo!(1, 1, 64, u8, CCalc, 1));
    v.push(map_combo!(1, 1, 64, u8, CHeapS, 2));
    v.push(map_combo!(1, 1, 64, u8, CHeapP, 3));
    v.push(map_combo!(1, 1, 64, u8, CHeapK, 4));
    v.push(map_combo!(1, 1, 64, u8, CHeapAll, 5));
    v.push(map_combo!(1, 1, 64, u8, CCalcAll, 6));
    v.push(map_combo!(1, 1, 64, u8, CArr, 7));
    v.push(map_combo!(1, 1, 64, u8, CCalcP, 8));
    v
}
