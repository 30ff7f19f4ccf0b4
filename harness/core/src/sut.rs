//! Type-erased handles onto the real `MapStorage` / `QueueStorage`, driven through the public API only.

use crate::user::UVal;
use crate::sim::{ABuf, Er, Out, Sim, SimError, SimFlash, drive};
use sequential_storage::cache::key_pointers::{ArrayKeyPointers, HeapKeyPointers};
use sequential_storage::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use sequential_storage::cache::page_states::{
    ArrayPageStates, CalculatedPageStates, HeapPageStates,
};
use sequential_storage::cache::{Cache, CacheImpl, Uncached};
use sequential_storage::map::{Key, MapConfig, MapStorage};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::ops::Range;

// ---------------------------------------------------------------- caches

pub trait CacheKind<K> {
    type C: CacheImpl<K>;
    fn make(pages: usize, keys: usize) -> Self::C;
}

macro_rules! cache_kind {
    ($name:ident, |$p:ident, $k:ident| $ty:ty = $e:expr) => {
        pub struct $name;
        impl<K: Key> CacheKind<K> for $name {
            type C = $ty;
            fn make($p: usize, $k: usize) -> Self::C {
                let _ = ($p, $k);
                $e
            }
        }
        impl QCacheKind for $name {
            type C = <$name as CacheKind<()>>::C;
            fn make(p: usize) -> Self::C {
                <$name as CacheKind<()>>::make(p, 0)
            }
        }
    };
}
pub trait QCacheKind {
    type C: CacheImpl<()>;
    fn make(pages: usize) -> Self::C;
}

cache_kind!(CU, |p, k| Cache<Uncached, Uncached, Uncached, K> = Cache::new_uncached());
cache_kind!(CCalc, |p, k| Cache<CalculatedPageStates, Uncached, Uncached, K> =
    Cache::new(CalculatedPageStates::new(p), Uncached, Uncached));
cache_kind!(CHeapS, |p, k| Cache<HeapPageStates, Uncached, Uncached, K> =
    Cache::new(HeapPageStates::new(p), Uncached, Uncached));
cache_kind!(CHeapP, |p, k| Cache<Uncached, HeapPagePointers, Uncached, K> =
    Cache::new(Uncached, HeapPagePointers::new(p), Uncached));
cache_kind!(CHeapK, |p, k| Cache<Uncached, Uncached, HeapKeyPointers<K>, K> =
    Cache::new(Uncached, Uncached, HeapKeyPointers::new(k)));
cache_kind!(CHeapAll, |p, k| Cache<HeapPageStates, HeapPagePointers, HeapKeyPointers<K>, K> =
    Cache::new(HeapPageStates::new(p), HeapPagePointers::new(p), HeapKeyPointers::new(k)));
cache_kind!(CCalcAll, |p, k| Cache<CalculatedPageStates, HeapPagePointers, HeapKeyPointers<K>, K> =
    Cache::new(CalculatedPageStates::new(p), HeapPagePointers::new(p), HeapKeyPointers::new(k)));
cache_kind!(CArr, |p, k| Cache<ArrayPageStates<16>, ArrayPagePointers<16>, ArrayKeyPointers<K, 4>, K> =
    Cache::new(ArrayPageStates::new(), ArrayPagePointers::new(), ArrayKeyPointers::new()));
cache_kind!(CCalcP, |p, k| Cache<CalculatedPageStates, ArrayPagePointers<16>, ArrayKeyPointers<K, 0>, K> =
    Cache::new(CalculatedPageStates::new(p), ArrayPagePointers::new(), ArrayKeyPointers::new()));

cache_kind!(CArrWide, |p, k| Cache<ArrayPageStates<640>, ArrayPagePointers<640>, ArrayKeyPointers<K, 300>, K> =
    Cache::new(ArrayPageStates::new(), ArrayPagePointers::new(), ArrayKeyPointers::new()));

pub const CACHE_NAMES: [&str; 10] = [
    "uncached", "calc-states", "heap-states", "heap-pointers", "heap-keys", "heap-all", "calc-all",
    "array-all-4keys", "calc-pointers-0keys", "array-all-wide",
];

// ---------------------------------------------------------------- keys

/// A key type with a bijection from small indices.
pub trait TestKey: Key + 'static {
    /// How many of them there are.
    const COUNT: u8 = 16;
    /// Values go through `UVal`.
    const USER: bool = false;
    fn mk(i: u8) -> Self;
    fn idx(&self) -> Option<u8>;
    fn len(i: u8) -> usize;
    /// Serialized form, computed independently of the library.
    fn bytes(i: u8) -> Vec<u8>;
}

impl TestKey for u8 {
    fn mk(i: u8) -> u8 {
        // 0x00 and 0xFF are the interesting ones: equal to marker and blank bytes.
        match i {
            1 => 0xFF,
            0 => 0,
            i => i.wrapping_mul(29),
        }
    }
    fn idx(&self) -> Option<u8> {
        (0..=16).find(|i| u8::mk(*i) == *self)
    }
    fn len(_: u8) -> usize {
        1
    }
    fn bytes(i: u8) -> Vec<u8> {
        vec![u8::mk(i)]
    }
}
impl TestKey for u16 {
    const COUNT: u8 = 250;
    fn mk(i: u8) -> u16 {
        match i {
            1 => 0xFFFF,
            0 => 0,
            i => (i as u16).wrapping_mul(0x0101),
        }
    }
    fn idx(&self) -> Option<u8> {
        (0..=254).find(|i| u16::mk(*i) == *self)
    }
    fn len(_: u8) -> usize {
        2
    }
    fn bytes(i: u8) -> Vec<u8> {
        let v = Self::mk(i);
        vec![v as u8, (v >> 8) as u8]
    }
}
impl TestKey for u64 {
    fn mk(i: u8) -> u64 {
        match i {
            1 => u64::MAX,
            0 => 0,
            i => (i as u64) << ((i as u64 * 5) % 56),
        }
    }
    fn idx(&self) -> Option<u8> {
        (0..=16).find(|i| u64::mk(*i) == *self)
    }
    fn len(_: u8) -> usize {
        8
    }
    fn bytes(i: u8) -> Vec<u8> {
        let v = Self::mk(i);
        (0..8).map(|b| (v >> (8 * b)) as u8).collect()
    }
}
impl TestKey for [u8; 3] {
    fn mk(i: u8) -> [u8; 3] {
        match i {
            0 => [0; 3],
            1 => [0xFF; 3],
            i => [i, 0, 0xFF],
        }
    }
    fn idx(&self) -> Option<u8> {
        (0..=16).find(|i| <[u8; 3]>::mk(*i) == *self)
    }
    fn len(_: u8) -> usize {
        3
    }
    fn bytes(i: u8) -> Vec<u8> {
        Self::mk(i).to_vec()
    }
}
fn str_of(i: u8) -> String {
    match i {
        0 => String::new(),
        1 => "a".into(),
        2 => "ab".into(),
        3 => "abc".into(),
        4 => "b".into(),
        i => "k".repeat((i - 3) as usize),
    }
}
impl TestKey for arrayvec::ArrayString<16> {
    fn mk(i: u8) -> Self {
        Self::from(&str_of(i)).unwrap()
    }
    fn idx(&self) -> Option<u8> {
        (0..=16).find(|i| str_of(*i) == self.as_str())
    }
    fn len(i: u8) -> usize {
        2 + str_of(i).len()
    }
    fn bytes(i: u8) -> Vec<u8> {
        let s = str_of(i);
        let mut v = vec![s.len() as u8, 0];
        v.extend_from_slice(s.as_bytes());
        v
    }
}
impl TestKey for () {
    const COUNT: u8 = 1;
    fn mk(_: u8) {}
    fn idx(&self) -> Option<u8> {
        Some(0)
    }
    fn len(_: u8) -> usize {
        0
    }
    fn bytes(_: u8) -> Vec<u8> {
        vec![]
    }
}

// ---------------------------------------------------------------- geometry

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Geo {
    pub r: usize,
    pub w: usize,
    pub e: usize,
}
impl Geo {
    pub fn word(&self) -> usize {
        self.r.max(self.w)
    }
    pub fn hdr(&self) -> usize {
        8usize.next_multiple_of(self.word())
    }
    /// Bytes of a page usable for items.
    pub fn cap(&self) -> usize {
        self.e - 2 * self.word()
    }
    pub fn max_data(&self) -> usize {
        (self.cap() - self.hdr()).min(u16::MAX as usize)
    }
    pub fn item(&self, data: usize) -> usize {
        self.hdr() + data.next_multiple_of(self.word())
    }
}

// ---------------------------------------------------------------- map

pub trait MapSut {
    fn fetch(&mut self, k: u8, buf: &mut [u8]) -> Out<Option<Vec<u8>>>;
    fn store(&mut self, k: u8, v: &[u8], buf: &mut [u8], generic: bool) -> Out<()>;
    fn remove(&mut self, k: u8, buf: &mut [u8]) -> Out<()>;
    fn remove_all(&mut self, buf: &mut [u8]) -> Out<()>;
    /// All entries, oldest first; key `None` if it is not one of the test keys. Stops at the first failure.
    fn iter(&mut self, buf: &mut [u8]) -> (Vec<(Option<u8>, Vec<u8>)>, Out<()>);
    /// Keeps calling `next` on the same iterator after a failed or cancelled call, and with a larger
    /// buffer after a refused one. Also gives the refusals.
    fn iter_resume(&mut self, buf: &mut [u8]) -> (Vec<(Option<u8>, Vec<u8>)>, Vec<Er>, Out<()>);
    fn erase_all(&mut self) -> Out<()>;
    fn print(&mut self) -> Out<String>;
    /// Destroy the instance and build a new one around the same flash, with a new cache or the same one.
    fn reopen(&mut self, same_cache: bool);
    fn overhead(&self) -> u32;
    fn key_len(&self, k: u8) -> usize;
    fn key_bytes(&self, k: u8) -> Vec<u8>;
    fn key_count(&self) -> u8;
}

pub struct MapS<const R: usize, const W: usize, const E: usize, K: Key, CK: CacheKind<K>> {
    sim: Sim,
    s: Option<MapStorage<K, SimFlash<R, W, E>, CK::C>>,
    range: Range<u32>,
    pages: usize,
    cache_keys: usize,
}

impl<const R: usize, const W: usize, const E: usize, K: TestKey, CK: CacheKind<K>>
    MapS<R, W, E, K, CK>
{
    pub fn new(sim: Sim, range: Range<u32>, cache_keys: usize) -> Self {
        let pages = range.len() / E;
        let s = MapStorage::new(
            SimFlash(sim.clone()),
            MapConfig::new(range.clone()),
            CK::make(pages, cache_keys),
        );
        Self { sim, s: Some(s), range, pages, cache_keys }
    }
    fn st(&mut self) -> &mut MapStorage<K, SimFlash<R, W, E>, CK::C> {
        self.s.as_mut().unwrap()
    }
}

impl<const R: usize, const W: usize, const E: usize, K: TestKey, CK: CacheKind<K>> MapSut
    for MapS<R, W, E, K, CK>
{
    fn fetch(&mut self, k: u8, buf: &mut [u8]) -> Out<Option<Vec<u8>>> {
        let sim = self.sim.clone();
        let st = self.st();
        drive(&sim, async {
            if K::USER {
                let v: Option<UVal> = st.fetch_item(buf, &K::mk(k)).await?;
                return Ok(v.map(|v| v.0.to_vec()));
            }
            let v: Option<&[u8]> = st.fetch_item(buf, &K::mk(k)).await?;
            Ok(v.map(<[u8]>::to_vec))
        })
    }
    fn store(&mut self, k: u8, v: &[u8], buf: &mut [u8], generic: bool) -> Out<()> {
        let sim = self.sim.clone();
        let st = self.st();
        if K::USER {
            let v = UVal(v);
            return if generic {
                drive(&sim, st.store_item_generic::<UVal>(buf, &K::mk(k), &v))
            } else {
                drive(&sim, st.store_item::<UVal>(buf, &K::mk(k), &v))
            };
        }
        if generic {
            drive(&sim, st.store_item_generic::<&[u8]>(buf, &K::mk(k), &v))
        } else {
            drive(&sim, st.store_item::<&[u8]>(buf, &K::mk(k), &v))
        }
    }
    fn remove(&mut self, k: u8, buf: &mut [u8]) -> Out<()> {
        let sim = self.sim.clone();
        drive(&sim, self.st().remove_item(buf, &K::mk(k)))
    }
    fn remove_all(&mut self, buf: &mut [u8]) -> Out<()> {
        let sim = self.sim.clone();
        drive(&sim, self.st().remove_all_items(buf))
    }
    fn iter(&mut self, buf: &mut [u8]) -> (Vec<(Option<u8>, Vec<u8>)>, Out<()>) {
        let sim = self.sim.clone();
        let st = self.st();
        let mut out = vec![];
        // One operation as far as the access budget goes, but every `next` is driven by itself.
        let res = drive(&sim, async {
            let mut it = st.fetch_all_items(buf).await?;
            loop {
                let e = if K::USER {
                    it.next::<UVal>(buf).await?.map(|(k, v)| (k.idx(), v.0.to_vec()))
                } else {
                    it.next::<&[u8]>(buf).await?.map(|(k, v)| (k.idx(), v.to_vec()))
                };
                let Some(e) = e else { break };
                out.push(e);
                if out.len() > 1_000_000 {
                    panic!("map iterator does not terminate");
                }
            }
            Ok(())
        });
        (out, res)
    }
    fn iter_resume(&mut self, buf: &mut [u8]) -> (Vec<(Option<u8>, Vec<u8>)>, Vec<Er>, Out<()>) {
        let sim = self.sim.clone();
        let st = self.st();
        let (mut out, mut refused, mut fails) = (vec![], vec![], 0);
        let mut big = ABuf::new(E.max(64));
        let mut it = match drive(&sim, st.fetch_all_items(buf)) {
            Out::Ok(it) => it,
            o => return (out, refused, o.map(|_| ())),
        };
        let mut again = false;
        loop {
            let b: &mut [u8] = if again { big.m() } else { &mut *buf };
            let r = drive(&sim, async { Ok(it.next::<&[u8]>(b).await?.map(|(k, v)| (k.idx(), v.to_vec()))) });
            match r {
                Out::Ok(Some(e)) => {
                    out.push(e);
                    again = false;
                }
                Out::Ok(None) => return (out, refused, Out::Ok(())),
                Out::Err(e) if e.is_buffer() && !again => {
                    refused.push(e);
                    again = true;
                }
                o if is_injected(&o) && fails < 3 => fails += 1,
                o => return (out, refused, o.map(|_| ())),
            }
            assert!(out.len() < 1_000_000, "map iterator does not terminate");
        }
    }
    fn erase_all(&mut self) -> Out<()> {
        let sim = self.sim.clone();
        drive(&sim, self.st().erase_all())
    }
    fn print(&mut self) -> Out<String> {
        let sim = self.sim.clone();
        let st = self.st();
        drive(&sim, async { Ok(st.print_items().await) })
    }
    fn reopen(&mut self, same_cache: bool) {
        let (flash, cache) = self.s.take().unwrap().destroy();
        let cache = if same_cache { cache } else { CK::make(self.pages, self.cache_keys) };
        self.s = Some(MapStorage::new(flash, MapConfig::new(self.range.clone()), cache));
    }
    fn overhead(&self) -> u32 {
        MapStorage::<K, SimFlash<R, W, E>, CK::C>::item_overhead_size()
    }
    fn key_len(&self, k: u8) -> usize {
        K::len(k)
    }
    fn key_bytes(&self, k: u8) -> Vec<u8> {
        K::bytes(k)
    }
    fn key_count(&self) -> u8 {
        K::COUNT
    }
}

pub type MapMaker = fn(Sim, Range<u32>, usize) -> Box<dyn MapSut>;

#[derive(Clone, Copy)]
pub struct MapCombo {
    pub geo: Geo,
    pub cache: usize,
    pub key: &'static str,
    pub make: MapMaker,
}

pub fn mk_map<const R: usize, const W: usize, const E: usize, K: TestKey, CK: CacheKind<K> + 'static>(
    sim: Sim,
    range: Range<u32>,
    cache_keys: usize,
) -> Box<dyn MapSut> {
    Box::new(MapS::<R, W, E, K, CK>::new(sim, range, cache_keys))
}

#[macro_export]
macro_rules! map_combo {
    ($r:literal, $w:literal, $e:literal, $k:ty, $ck:ident, $ci:literal) => {
        $crate::sut::MapCombo {
            geo: $crate::sut::Geo { r: $r, w: $w, e: $e },
            cache: $ci,
            key: stringify!($k),
            make: $crate::sut::mk_map::<$r, $w, $e, $k, $crate::sut::$ck>,
        }
    };
}

/// One geometry and key type under all cache configurations.
#[macro_export]
macro_rules! map_all_caches {
    ($r:literal, $w:literal, $e:literal, $k:ty) => {
        [
            $crate::map_combo!($r, $w, $e, $k, CU, 0),
            $crate::map_combo!($r, $w, $e, $k, CCalc, 1),
            $crate::map_combo!($r, $w, $e, $k, CHeapS, 2),
            $crate::map_combo!($r, $w, $e, $k, CHeapP, 3),
            $crate::map_combo!($r, $w, $e, $k, CHeapK, 4),
            $crate::map_combo!($r, $w, $e, $k, CHeapAll, 5),
            $crate::map_combo!($r, $w, $e, $k, CCalcAll, 6),
            $crate::map_combo!($r, $w, $e, $k, CArr, 7),
            $crate::map_combo!($r, $w, $e, $k, CCalcP, 8),
        ]
    };
}

// ---------------------------------------------------------------- queue

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Item(Vec<u8>),
    /// The entry was popped; the returned bytes equalled the entry's or not.
    Popped(bool),
    PopFail(Out<()>),
    NextFail(Out<()>),
    NewFail(Out<()>),
    End,
}

/// What to do with the n-th entry of an iteration.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct IterPlan {
    /// Bit n: pop the n-th entry.
    pub mask: u64,
    /// Stop (drop the iterator) after this many entries.
    pub stop: u8,
    /// Keep calling `next` after a failed or cancelled call.
    pub resume: bool,
}

pub trait QueueSut {
    fn push(&mut self, data: &[u8], overwrite: bool) -> Out<()>;
    fn pop(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>>;
    fn peek(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>>;
    fn iter(&mut self, plan: IterPlan, buf: &mut [u8]) -> Vec<Ev>;
    fn max_fit(&mut self) -> Out<Option<u32>>;
    fn space_left(&mut self) -> Out<u32>;
    fn erase_all(&mut self) -> Out<()>;
    fn print(&mut self) -> Out<String>;
    fn reopen(&mut self, same_cache: bool);
    fn overhead(&self) -> u32;
}

pub struct QueueS<const R: usize, const W: usize, const E: usize, CK: QCacheKind> {
    sim: Sim,
    s: Option<QueueStorage<SimFlash<R, W, E>, CK::C>>,
    range: Range<u32>,
    pages: usize,
}

impl<const R: usize, const W: usize, const E: usize, CK: QCacheKind> QueueS<R, W, E, CK> {
    pub fn new(sim: Sim, range: Range<u32>) -> Self {
        let pages = range.len() / E;
        let s = QueueStorage::new(
            SimFlash(sim.clone()),
            QueueConfig::new(range.clone()),
            CK::make(pages),
        );
        Self { sim, s: Some(s), range, pages }
    }
    fn st(&mut self) -> &mut QueueStorage<SimFlash<R, W, E>, CK::C> {
        self.s.as_mut().unwrap()
    }
}

fn is_injected<T>(o: &Out<T>) -> bool {
    matches!(o, Out::Cut(crate::sim::FaultKind::Cancel) | Out::Err(crate::sim::Er::Storage(SimError::Injected)))
}

impl<const R: usize, const W: usize, const E: usize, CK: QCacheKind> QueueSut
    for QueueS<R, W, E, CK>
{
    fn push(&mut self, data: &[u8], overwrite: bool) -> Out<()> {
        let sim = self.sim.clone();
        let mut b = ABuf::from(data);
        drive(&sim, self.st().push(b.m(), overwrite))
    }
    fn pop(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>> {
        let sim = self.sim.clone();
        let st = self.st();
        drive(&sim, async { Ok(st.pop(buf).await?.map(|b| b.to_vec())) })
    }
    fn peek(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>> {
        let sim = self.sim.clone();
        let st = self.st();
        drive(&sim, async { Ok(st.peek(buf).await?.map(|b| b.to_vec())) })
    }
    fn iter(&mut self, plan: IterPlan, buf: &mut [u8]) -> Vec<Ev> {
        let sim = self.sim.clone();
        let st = self.st();
        let mut evs = vec![];
        let mut it = match drive(&sim, st.iter()) {
            Out::Ok(it) => it,
            o => {
                evs.push(Ev::NewFail(o.map(|_| ())));
                return evs;
            }
        };
        let mut n = 0u32;
        let mut fails = 0;
        let mut big = ABuf::new(E.max(64));
        let mut grow = false;
        while n < plan.stop as u32 || plan.stop == 255 {
            let b: &mut [u8] = if std::mem::take(&mut grow) { big.m() } else { &mut *buf };
            let entry = match drive(&sim, it.next(b)) {
                Out::Ok(Some(e)) => e,
                Out::Ok(None) => {
                    evs.push(Ev::End);
                    break;
                }
                o => {
                    let o = o.map(|_| ());
                    grow = plan.resume && matches!(&o, Out::Err(e) if e.is_buffer()) && b.len() < E.max(64);
                    let again = grow || plan.resume && is_injected(&o) && fails < 3;
                    fails += !grow as u32;
                    evs.push(Ev::NextFail(o));
                    if again {
                        continue;
                    }
                    break;
                }
            };
            let data = entry.to_vec();
            evs.push(Ev::Item(data.clone()));
            if plan.mask >> (n % 64) & 1 == 1 {
                match drive(&sim, entry.pop()) {
                    Out::Ok(d) => evs.push(Ev::Popped(d == &data[..])),
                    o => {
                        let o = o.map(|_| ());
                        let again = plan.resume && is_injected(&o) && fails < 3;
                        fails += 1;
                        evs.push(Ev::PopFail(o));
                        if !again {
                            break;
                        }
                    }
                }
            } else if n % 3 == 1 {
                let d = entry.into_buf();
                assert!(d == &data[..], "into_buf differs from the entry's contents");
            }
            n += 1;
        }
        evs
    }
    fn max_fit(&mut self) -> Out<Option<u32>> {
        let sim = self.sim.clone();
        drive(&sim, self.st().find_max_fit())
    }
    fn space_left(&mut self) -> Out<u32> {
        let sim = self.sim.clone();
        drive(&sim, self.st().space_left())
    }
    fn erase_all(&mut self) -> Out<()> {
        let sim = self.sim.clone();
        drive(&sim, self.st().erase_all())
    }
    fn print(&mut self) -> Out<String> {
        let sim = self.sim.clone();
        let st = self.st();
        drive(&sim, async { Ok(st.print_items().await) })
    }
    fn reopen(&mut self, same_cache: bool) {
        let (flash, cache) = self.s.take().unwrap().destroy();
        let cache = if same_cache { cache } else { CK::make(self.pages) };
        self.s = Some(QueueStorage::new(flash, QueueConfig::new(self.range.clone()), cache));
    }
    fn overhead(&self) -> u32 {
        QueueStorage::<SimFlash<R, W, E>, CK::C>::item_overhead_size()
    }
}

pub type QueueMaker = fn(Sim, Range<u32>) -> Box<dyn QueueSut>;

#[derive(Clone, Copy)]
pub struct QueueCombo {
    pub geo: Geo,
    pub cache: usize,
    pub make: QueueMaker,
}

pub fn mk_queue<const R: usize, const W: usize, const E: usize, CK: QCacheKind + 'static>(
    sim: Sim,
    range: Range<u32>,
) -> Box<dyn QueueSut> {
    Box::new(QueueS::<R, W, E, CK>::new(sim, range))
}

#[macro_export]
macro_rules! queue_combo {
    ($r:literal, $w:literal, $e:literal, $ck:ident, $ci:literal) => {
        $crate::sut::QueueCombo {
            geo: $crate::sut::Geo { r: $r, w: $w, e: $e },
            cache: $ci,
            make: $crate::sut::mk_queue::<$r, $w, $e, $crate::sut::$ck>,
        }
    };
}

#[macro_export]
macro_rules! queue_all_caches {
    ($r:literal, $w:literal, $e:literal) => {
        [
            $crate::queue_combo!($r, $w, $e, CU, 0),
            $crate::queue_combo!($r, $w, $e, CCalc, 1),
            $crate::queue_combo!($r, $w, $e, CHeapS, 2),
            $crate::queue_combo!($r, $w, $e, CHeapP, 3),
            $crate::queue_combo!($r, $w, $e, CHeapAll, 5),
            $crate::queue_combo!($r, $w, $e, CCalcAll, 6),
            $crate::queue_combo!($r, $w, $e, CArr, 7),
        ]
    };
}
