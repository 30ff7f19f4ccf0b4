//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::MapCombo;
use hcore::map_combo;

pub fn combos() -> Vec<MapCombo> {
    let mut v = vec![];
    v.push(map_combo!(1, 1, 32, u8, CU, 0));
    v.push(map_combo!(1, 1, 32, u8, CHeapAll, 5));
    v.push(map_combo!(4, 4, 128, u8, CU, 0));
    v.push(map_combo!(4, 4, 128, u8, CHeapAll, 5));
    v.push(map_combo!(1, 4, 64, u8, CU, 0));
    v.push(map_combo!(1, 4, 64, u8, CHeapAll, 5));
    v.push(map_combo!(4, 1, 64, u8, CU, 0));
    v.push(map_combo!(4, 1, 64, u8, CHeapAll, 5));
    v
}
