//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::MapCombo;
use hcore::map_combo;

pub fn combos() -> Vec<MapCombo> {
    let mut v = vec![];
    v.push(map_combo!(8, 8, 128, u8, CU, 0));
    v.push(map_combo!(8, 8, 128, u8, CHeapAll, 5));
    v.push(map_combo!(1, 8, 96, u8, CU, 0));
    v.push(map_combo!(1, 8, 96, u8, CHeapAll, 5));
    v.push(map_combo!(2, 2, 48, u8, CU, 0));
    v.push(map_combo!(2, 2, 48, u8, CHeapAll, 5));
    v.push(map_combo!(16, 16, 256, u8, CU, 0));
    v.push(map_combo!(16, 16, 256, u8, CHeapAll, 5));
    v
}
