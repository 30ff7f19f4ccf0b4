//! One share of the instantiated configurations (several small crates, so they compile in parallel).
use hcore::sut::MapCombo;
use hcore::map_combo;
use arrayvec::ArrayString;

pub fn combos() -> Vec<MapCombo> {
    let mut v = vec![];
    v.push(map_combo!(1, 1, 64, [u8; 3], CHeapK, 4));
    v.push(map_combo!(4, 4, 128, ArrayString<16>, CU, 0));
    v.push(map_combo!(4, 4, 128, ArrayString<16>, CHeapAll, 5));
    v.push(map_combo!(1, 1, 64, ArrayString<16>, CArr, 7));
    v.push(map_combo!(4, 4, 64, (), CHeapAll, 5));
    v.push(map_combo!(1, 1, 32, (), CU, 0));
    v.push(map_combo!(1, 32, 192, u8, CHeapAll, 5));
    v.push(map_combo!(1, 32, 192, u8, CU, 0));
    v
}
