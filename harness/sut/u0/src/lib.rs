//! A key and a value type of the user's, of which any call can be made to fail.
use hcore::map_combo;
use hcore::sut::MapCombo;
use hcore::user::UKey;

pub fn combos() -> Vec<MapCombo> {
    vec![
        map_combo!(4, 4, 64, UKey, CU, 0),
        map_combo!(4, 4, 64, UKey, CHeapK, 4),
        map_combo!(4, 4, 64, UKey, CHeapAll, 5),
        map_combo!(1, 1, 48, UKey, CU, 0),
        map_combo!(1, 1, 48, UKey, CCalcAll, 6),
        map_combo!(1, 1, 48, UKey, CArr, 7),
        map_combo!(8, 8, 128, UKey, CHeapAll, 5),
        map_combo!(1, 4, 64, UKey, CHeapAll, 5),
    ]
}
