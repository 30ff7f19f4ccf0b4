//! All instantiated geometry x key x cache configurations.
use hcore::sut::{MapCombo, QueueCombo};
use std::sync::OnceLock;

pub fn map() -> &'static [MapCombo] {
    static C: OnceLock<Vec<MapCombo>> = OnceLock::new();
    C.get_or_init(|| {
        [m0::combos(), m1::combos(), m2::combos(), m3::combos(), m4::combos(), m5::combos()].concat()
    })
}
pub fn queue() -> &'static [QueueCombo] {
    static C: OnceLock<Vec<QueueCombo>> = OnceLock::new();
    C.get_or_init(|| [q0::combos(), q1::combos(), q2::combos()].concat())
}
pub fn buffered() -> &'static [hcore::bufsut::BufCombo] {
    static C: OnceLock<Vec<hcore::bufsut::BufCombo>> = OnceLock::new();
    C.get_or_init(b0::combos)
}
/// With a key and a value type of the user's.
pub fn user() -> &'static [MapCombo] {
    static C: OnceLock<Vec<MapCombo>> = OnceLock::new();
    C.get_or_init(u0::combos)
}
/// Storages of hundreds of pages.
pub fn wide_map() -> &'static [MapCombo] {
    static C: OnceLock<Vec<MapCombo>> = OnceLock::new();
    C.get_or_init(w0::maps)
}
pub fn wide_queue() -> &'static [QueueCombo] {
    static C: OnceLock<Vec<QueueCombo>> = OnceLock::new();
    C.get_or_init(w0::queues)
}
/// Pages longer than an item can be.
pub fn large_map() -> &'static [MapCombo] {
    static C: OnceLock<Vec<MapCombo>> = OnceLock::new();
    C.get_or_init(l0::maps)
}
pub fn large_queue() -> &'static [QueueCombo] {
    static C: OnceLock<Vec<QueueCombo>> = OnceLock::new();
    C.get_or_init(l0::queues)
}
