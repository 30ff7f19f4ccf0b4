//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::MapCombo;
use hcore::map_combo;

pub fn combos() -> Vec<MapCombo> {
    let mut v = vec![];
    v.push(map_combo!(32, 32, 256, u8, CU, 0));
    v.push(map_combo!(32, 32, 256, u8, CHeapAll, 5));
    v.push(map_combo!(1, 1, 11, u8, CHeapAll, 5));
    v.push(map_combo!(4, 4, 20, u8, CCalcAll, 6));
    v.push(map_combo!(32, 4, 128, u8, CArr, 7));
    v.push(map_combo!(4, 4, 128, u16, CHeapAll, 5));
    v.push(map_combo!(4, 4, 128, u64, CCalcAll, 6));
    v
}
