//! Configuration validation over many geometries, and storages of extreme ones.
use hcore::sim::SimFlash;
use hcore::sut::{Geo, MapCombo, QueueCombo};
use hcore::{map_combo, queue_combo};
use sequential_storage::map::{MapConfig, MapConfigError};
use sequential_storage::queue::{QueueConfig, QueueConfigError};
use std::ops::Range;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Rule {
    Start,
    End,
    Range,
    Pages,
    Word,
}

pub type TryNew = fn(Range<u32>) -> Result<(), Rule>;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub geo: Geo,
    pub map: TryNew,
    pub queue: TryNew,
    pub map_new: fn(Range<u32>),
    pub queue_new: fn(Range<u32>),
}

fn map<const R: usize, const W: usize, const E: usize>(r: Range<u32>) -> Result<(), Rule> {
    match MapConfig::<SimFlash<R, W, E>>::try_new(r) {
        Ok(_) => Ok(()),
        Err(e) => Err(match e {
            MapConfigError::StartRangeNotAtPageBoundary => Rule::Start,
            MapConfigError::EndRangeNotAtPageBoundary => Rule::End,
            MapConfigError::RangeTooSmall => Rule::Range,
            MapConfigError::PagesTooSmall => Rule::Pages,
            MapConfigError::WordSizeTooLarge => Rule::Word,
        }),
    }
}
fn queue<const R: usize, const W: usize, const E: usize>(r: Range<u32>) -> Result<(), Rule> {
    match QueueConfig::<SimFlash<R, W, E>>::try_new(r) {
        Ok(_) => Ok(()),
        Err(e) => Err(match e {
            QueueConfigError::StartRangeNotAtPageBoundary => Rule::Start,
            QueueConfigError::EndRangeNotAtPageBoundary => Rule::End,
            QueueConfigError::RangeTooSmall => Rule::Range,
            QueueConfigError::PagesTooSmall => Rule::Pages,
            QueueConfigError::WordSizeTooLarge => Rule::Word,
        }),
    }
}
fn map_new<const R: usize, const W: usize, const E: usize>(r: Range<u32>) {
    let _ = MapConfig::<SimFlash<R, W, E>>::new(r);
}
fn queue_new<const R: usize, const W: usize, const E: usize>(r: Range<u32>) {
    let _ = QueueConfig::<SimFlash<R, W, E>>::new(r);
}

macro_rules! geos {
    ($(($r:literal, $w:literal, $e:literal)),* $(,)?) => {
        pub fn cfgs() -> Vec<Cfg> {
            vec![$(Cfg {
                geo: Geo { r: $r, w: $w, e: $e },
                map: map::<$r, $w, $e>,
                queue: queue::<$r, $w, $e>,
                map_new: map_new::<$r, $w, $e>,
                queue_new: queue_new::<$r, $w, $e>,
            }),*]
        }
    };
}
// For each word size the smallest page that works and the largest that does not.
geos![
    (1, 1, 11), (1, 1, 10), (2, 2, 14), (2, 2, 12), (1, 2, 14), (2, 1, 14), (2, 1, 12),
    (4, 4, 20), (4, 4, 16), (1, 4, 20), (4, 1, 20), (4, 1, 16), (1, 4, 16),
    (8, 8, 32), (8, 8, 24), (1, 8, 32), (8, 1, 24), (8, 4, 32),
    (16, 16, 64), (16, 16, 48), (4, 16, 64), (16, 4, 48),
    (32, 32, 128), (32, 32, 96), (1, 32, 128), (32, 1, 96), (32, 4, 128),
    (64, 64, 1024), (1, 64, 1024), (64, 1, 1024), (64, 64, 64), (128, 4, 4096), (33, 1, 4096), (1, 33, 3300),
    (4, 4, 4096), (1, 1, 1), (4, 4, 4), (1, 1, 256), (4, 8, 0x10000), (1, 1, 0x40000000), (4, 4, 0x80000000),
];

pub fn maps() -> Vec<MapCombo> {
    vec![
        map_combo!(1, 1, 11, u8, CU, 0),
        map_combo!(2, 2, 14, u8, CU, 0),
        map_combo!(4, 4, 20, u8, CHeapAll, 5),
        map_combo!(8, 8, 32, u8, CU, 0),
        map_combo!(1, 8, 32, u8, CHeapAll, 5),
        map_combo!(16, 16, 64, u8, CU, 0),
        map_combo!(32, 32, 128, u8, CHeapAll, 5),
        map_combo!(32, 4, 128, u8, CU, 0),
    ]
}
/// Pages that hold more than the length field can express, or exactly that much.
pub fn big_maps() -> Vec<MapCombo> {
    vec![
        map_combo!(4, 4, 0x20000, u8, CU, 0),
        map_combo!(1, 1, 65545, u8, CHeapAll, 5),
        map_combo!(1, 1, 65546, u8, CU, 0),
        map_combo!(32, 32, 65664, u8, CHeapAll, 5),
    ]
}
pub fn queues() -> Vec<QueueCombo> {
    vec![
        queue_combo!(1, 1, 11, CU, 0),
        queue_combo!(2, 2, 14, CU, 0),
        queue_combo!(4, 4, 20, CHeapAll, 5),
        queue_combo!(8, 8, 32, CU, 0),
        queue_combo!(1, 8, 32, CHeapAll, 5),
        queue_combo!(16, 16, 64, CU, 0),
        queue_combo!(32, 32, 128, CHeapAll, 5),
        queue_combo!(32, 4, 128, CU, 0),
    ]
}
pub fn big_queues() -> Vec<QueueCombo> {
    vec![
        queue_combo!(4, 4, 0x20000, CU, 0),
        queue_combo!(1, 1, 65545, CHeapAll, 5),
        queue_combo!(1, 1, 65546, CU, 0),
        queue_combo!(32, 32, 65664, CHeapAll, 5),
    ]
}
