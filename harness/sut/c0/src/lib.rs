//! Every provided key and value type, on its own and through a real map.
use arrayvec::{ArrayString, ArrayVec};
use hcore::sim::{ABuf, Er, Out, Sim, SimFlash, drive};
use sequential_storage::cache::Cache;
use sequential_storage::map::{Key, MapConfig, MapStorage, PostcardValue, SerializationError, Value};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Bytes to build values from; zeros once exhausted.
pub struct Src<'a>(pub &'a [u8]);
impl Src<'_> {
    fn b(&mut self) -> u8 {
        let Some((f, r)) = self.0.split_first() else { return 0 };
        self.0 = r;
        *f
    }
    fn arr<const N: usize>(&mut self) -> [u8; N] {
        std::array::from_fn(|_| self.b())
    }
    fn len(&mut self, max: usize) -> usize {
        let f = self.b() as usize;
        // The maximum often, anything below it otherwise.
        if f >= 200 { max } else { f % (max + 1) }
    }
    fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        (0..n).map(|_| self.b()).collect()
    }
    fn string(&mut self, max: usize) -> String {
        let n = self.len(max);
        let mut s = String::new();
        while s.len() < n {
            let c = match self.b() {
                b @ 0..=0x7F => b as char,
                b @ 0x80..=0xBF => ['é', 'ß', '\u{7FF}', '\u{80}'][b as usize % 4],
                b @ 0xC0..=0xDF => ['€', '\u{FFFF}', '\u{800}', '\u{FEFF}'][b as usize % 4],
                _ => '🦀',
            };
            if s.len() + c.len_utf8() > n {
                s.push('x');
            } else {
                s.push(c);
            }
        }
        s
    }
}

/// A key type: a value and its expected encoding.
pub trait KSample: Key {
    fn sample(s: &mut Src) -> (Self, Vec<u8>);
}
/// A value type.
pub trait VSample: for<'a> Value<'a> + Debug + Sized + 'static {
    /// Takes all that is left of the buffer.
    const GREEDY: bool = false;
    /// The encoding is a matter of another crate.
    const FOREIGN: bool = false;
    fn sample(s: &mut Src) -> (Self, Vec<u8>);
    fn same(&self, o: &Self) -> bool;
}

macro_rules! nums {
    ($($t:ty),*) => {$(
        impl VSample for $t {
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let b = s.arr::<{ size_of::<$t>() }>();
                (<$t>::from_le_bytes(b), b.to_vec())
            }
            fn same(&self, o: &Self) -> bool {
                self.to_le_bytes() == o.to_le_bytes()
            }
        }
        impl<const N: usize> VSample for [$t; N] {
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let mut e = vec![];
                let v = std::array::from_fn(|_| {
                    let (v, b) = <$t as VSample>::sample(s);
                    e.extend(b);
                    v
                });
                (v, e)
            }
            fn same(&self, o: &Self) -> bool {
                self.iter().zip(o).all(|(a, b)| a.same(b))
            }
        }
    )*};
}
nums!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
macro_rules! key_nums {
    ($($t:ty),*) => {$(
        impl KSample for $t {
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let b = s.arr::<{ size_of::<$t>() }>();
                (<$t>::from_le_bytes(b), b.to_vec())
            }
        }
    )*};
}
key_nums!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl<const N: usize> KSample for [u8; N] {
    fn sample(s: &mut Src) -> (Self, Vec<u8>) {
        let b = s.arr::<N>();
        (b, b.to_vec())
    }
}
impl KSample for () {
    fn sample(_: &mut Src) -> (Self, Vec<u8>) {
        ((), vec![])
    }
}

fn prefixed(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8, (b.len() >> 8) as u8];
    v.extend(b);
    v
}

macro_rules! blobs {
    ($(($t:ty, $cap:expr, |$b:ident| $mk:expr)),* $(,)?) => {$(
        impl KSample for $t {
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let $b = s.bytes($cap);
                ($mk, prefixed(&$b))
            }
        }
    )*};
}
macro_rules! strings {
    ($(($t:ty, $cap:expr, |$b:ident| $mk:expr)),* $(,)?) => {$(
        impl KSample for $t {
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let $b = s.string($cap);
                ($mk, prefixed($b.as_bytes()))
            }
        }
    )*};
}
macro_rules! vblobs {
    ($(($t:ty, $cap:expr, |$b:ident| $mk:expr)),* $(,)?) => {$(
        impl VSample for $t {
            const GREEDY: bool = true;
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let $b = s.bytes($cap);
                ($mk, $b.to_vec())
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
macro_rules! vstrings {
    ($(($t:ty, $cap:expr, |$b:ident| $mk:expr)),* $(,)?) => {$(
        impl VSample for $t {
            const GREEDY: bool = true;
            fn sample(s: &mut Src) -> (Self, Vec<u8>) {
                let $b = s.string($cap);
                ($mk, $b.as_bytes().to_vec())
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
type H8V<const N: usize> = heapless::Vec<u8, N>;
type H8S<const N: usize> = heapless::String<N>;
type H9V<const N: usize> = heapless_09::Vec<u8, N>;
type H9Vu8<const N: usize> = heapless_09::Vec<u8, N, u8>;
type H9S<const N: usize> = heapless_09::String<N>;
type H9Su8<const N: usize> = heapless_09::String<N, u8>;
blobs![
    (Vec<u8>, 300, |b| b.clone()),
    (ArrayVec<u8, 8>, 8, |b| b.iter().copied().collect()),
    (ArrayVec<u8, 300>, 300, |b| b.iter().copied().collect()),
    (H8V<8>, 8, |b| H8V::from_slice(&b).unwrap()),
    (H8V<300>, 300, |b| H8V::from_slice(&b).unwrap()),
    (H9V<8>, 8, |b| H9V::from_slice(&b).unwrap()),
    (H9V<300>, 300, |b| H9V::from_slice(&b).unwrap()),
    (H9Vu8<8>, 8, |b| H9Vu8::from_slice(&b).unwrap()),
];
strings![
    (String, 300, |b| b.clone()),
    (ArrayString<8>, 8, |b| ArrayString::from(&b).unwrap()),
    (ArrayString<300>, 300, |b| ArrayString::from(&b).unwrap()),
    (H8S<8>, 8, |b| b.as_str().try_into().unwrap()),
    (H8S<300>, 300, |b| b.as_str().try_into().unwrap()),
    (H9S<8>, 8, |b| b.as_str().try_into().unwrap()),
    (H9S<300>, 300, |b| b.as_str().try_into().unwrap()),
    (H9Su8<8>, 8, |b| b.as_str().try_into().unwrap()),
];
vblobs![
    (Vec<u8>, 80, |b| b.clone()),
    (H8V<8>, 8, |b| H8V::from_slice(&b).unwrap()),
    (H8V<80>, 80, |b| H8V::from_slice(&b).unwrap()),
    (H9V<8>, 8, |b| H9V::from_slice(&b).unwrap()),
    (H9Vu8<80>, 80, |b| H9Vu8::from_slice(&b).unwrap()),
];
vstrings![
    (String, 80, |b| b.clone()),
    (H8S<8>, 8, |b| b.as_str().try_into().unwrap()),
    (H8S<80>, 80, |b| b.as_str().try_into().unwrap()),
    (H9S<8>, 8, |b| b.as_str().try_into().unwrap()),
    (H9Su8<80>, 80, |b| b.as_str().try_into().unwrap()),
];

impl VSample for bool {
    fn sample(s: &mut Src) -> (Self, Vec<u8>) {
        let v = s.b() & 1 == 1;
        (v, vec![v as u8])
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<T: VSample> VSample for Option<T> {
    const GREEDY: bool = T::GREEDY;
    const FOREIGN: bool = T::FOREIGN;
    fn sample(s: &mut Src) -> (Self, Vec<u8>) {
        if s.b() % 4 == 0 {
            return (None, vec![0]);
        }
        let (v, b) = T::sample(s);
        let mut e = vec![1];
        e.extend(b);
        (Some(v), e)
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    a: u32,
    b: Option<i64>,
    c: String,
    d: Vec<u16>,
    e: Kind,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Unit,
    Tuple(bool, char),
    Struct { x: f32 },
}
impl PostcardValue<'_> for Rec {}
impl PostcardValue<'_> for Kind {}
impl VSample for Kind {
    const GREEDY: bool = true;
    const FOREIGN: bool = true;
    fn sample(s: &mut Src) -> (Self, Vec<u8>) {
        let v = match s.b() % 3 {
            0 => Kind::Unit,
            1 => Kind::Tuple(s.b() & 1 == 1, s.string(4).chars().next().unwrap_or('z')),
            _ => Kind::Struct { x: s.b() as f32 / 3.0 },
        };
        (v, vec![])
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl VSample for Rec {
    const GREEDY: bool = true;
    const FOREIGN: bool = true;
    fn sample(s: &mut Src) -> (Self, Vec<u8>) {
        let a = u32::from_le_bytes(s.arr());
        let b = (s.b() & 1 == 1).then(|| i64::from_le_bytes(s.arr()));
        let c = s.string(20);
        let d = (0..s.len(6)).map(|_| u16::from_le_bytes(s.arr())).collect();
        let e = Kind::sample(s).0;
        (Rec { a, b, c, d, e }, vec![])
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// What to look at.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Aspect {
    /// Round trip, lengths, buffers.
    Codec,
    /// The exact bytes.
    Wire,
}

type SerRes = Result<usize, SerializationError>;

fn serialize(len: Option<usize>, f: &dyn Fn(&mut [u8]) -> SerRes) -> Result<Vec<u8>, String> {
    let cap = len.unwrap_or(2000);
    let mut big = vec![0x5A; cap + 13];
    let n = f(&mut big).map_err(|e| format!("serializing into {} bytes gave {e:?}", cap + 13))?;
    if n > big.len() {
        return Err(format!("serializing reported {n} bytes used of {}", big.len()));
    }
    if len.is_some_and(|l| l != n) {
        return Err(format!("serializing reported {n} bytes, should be {len:?}"));
    }
    big.truncate(n);
    // An exactly fitting buffer does as well, and gives the same.
    let mut exact = vec![0xA5; n];
    match f(&mut exact) {
        Ok(m) if m == n && exact == big => {}
        r => return Err(format!("serializing into a buffer of exactly {n} bytes gave {r:?} {exact:02x?}, in a larger one {big:02x?}")),
    }
    // A smaller one is reported as such.
    let step = (n / 64).max(1);
    for k in (0..n).step_by(step).chain(n.checked_sub(1)) {
        let mut small = vec![0; k];
        let r = f(&mut small);
        if r != Err(SerializationError::BufferTooSmall) {
            return Err(format!("serializing {n} bytes into {k} gave {r:?}"));
        }
    }
    Ok(big)
}

pub fn check_key<K: KSample>(asp: Aspect, raw: &[u8], tail: &[u8], junk: &[u8]) -> Result<bool, String> {
    let (v, wire) = K::sample(&mut Src(raw));
    let ser = serialize(Some(wire.len()), &|b| v.serialize_into(b))?;
    if asp == Aspect::Wire {
        if ser != wire {
            return Err(format!("{v:?} is stored as {ser:02x?}, used to be {wire:02x?}"));
        }
        return match K::deserialize_from(&wire) {
            Ok((b, n)) if b == v && n == wire.len() => Ok(true),
            r => Err(format!("{wire:02x?} used to be {v:?}, is read as {r:?}")),
        };
    }
    for t in [&[][..], tail] {
        let mut b = ser.clone();
        b.extend(t);
        match K::deserialize_from(&b) {
            Ok((w, n)) if w == v && n == ser.len() => {}
            r => return Err(format!("{v:?} serialized to {ser:02x?}, followed by {t:02x?} is deserialized as {r:?}")),
        }
        match K::get_len(&b) {
            Ok(n) if n == ser.len() => {}
            r => return Err(format!("{v:?} serialized to {ser:02x?}, followed by {t:02x?} has quick length {r:?}")),
        }
    }
    let step = (ser.len() / 64).max(1);
    for k in (0..ser.len()).step_by(step) {
        if let Ok(r) = K::deserialize_from(&ser[..k]) {
            return Err(format!("the first {k} bytes of {ser:02x?} are deserialized as {r:?}"));
        }
        let _ = K::get_len(&ser[..k]);
    }
    // Arbitrary bytes.
    let _ = K::get_len(junk);
    if let Ok((w, n)) = K::deserialize_from(junk) {
        if n > junk.len() {
            return Err(format!("deserializing {junk:02x?} used {n} bytes"));
        }
        if K::get_len(junk) != Ok(n) {
            return Err(format!("deserializing {junk:02x?} used {n} bytes, the quick length is {:?}", K::get_len(junk)));
        }
        let mut b = vec![0; n];
        let r = w.serialize_into(&mut b);
        if r != Ok(n) || b != junk[..n] {
            return Err(format!("{junk:02x?} is deserialized as {w:?} which serializes to {r:?} {b:02x?}"));
        }
        return Ok(true);
    }
    Ok(!ser.is_empty())
}

pub fn check_value<V: VSample>(asp: Aspect, raw: &[u8], tail: &[u8], junk: &[u8]) -> Result<bool, String> {
    let (v, wire) = V::sample(&mut Src(raw));
    let foreign = V::FOREIGN;
    let ser = serialize((!foreign).then_some(wire.len()), &|b| v.serialize_into(b))?;
    if asp == Aspect::Wire {
        if foreign {
            return Ok(false);
        }
        if ser != wire {
            return Err(format!("{v:?} is stored as {ser:02x?}, used to be {wire:02x?}"));
        }
        return match V::deserialize_from(&wire) {
            Ok((b, n)) if b.same(&v) && n == wire.len() => Ok(true),
            r => Err(format!("{wire:02x?} used to be {v:?}, is read as {r:?}")),
        };
    }
    for t in [&[][..], tail] {
        if V::GREEDY && !t.is_empty() {
            continue;
        }
        let mut b = ser.clone();
        b.extend(t);
        match V::deserialize_from(&b) {
            Ok((w, n)) if w.same(&v) && (n == ser.len() || V::GREEDY) => {}
            r => return Err(format!("{v:?} serialized to {ser:02x?}, followed by {t:02x?} is deserialized as {r:?}")),
        }
    }
    let step = (ser.len() / 64).max(1);
    for k in (0..ser.len()).step_by(step) {
        match V::deserialize_from(&ser[..k]) {
            Ok(r) if !V::GREEDY => return Err(format!("the first {k} bytes of {ser:02x?} are deserialized as {r:?}")),
            _ => {}
        }
    }
    if let Ok((w, n)) = V::deserialize_from(junk) {
        if n > junk.len() {
            return Err(format!("deserializing {junk:02x?} used {n} bytes"));
        }
        let b = serialize(None, &|b| w.serialize_into(b))?;
        if !foreign && b.len() != n {
            return Err(format!("{junk:02x?} is deserialized as {w:?} from {n} bytes, which takes {} to serialize", b.len()));
        }
        match V::deserialize_from(&b) {
            Ok((x, _)) if x.same(&w) || w.to_nan() => {}
            r => return Err(format!("{junk:02x?} is deserialized as {w:?}, which serializes to {b:02x?} and then becomes {r:?}")),
        }
        return Ok(true);
    }
    Ok(!ser.is_empty())
}

/// (`Kind::Struct` may hold a NaN, which is equal to nothing.)
trait Nan {
    fn to_nan(&self) -> bool;
}
impl<T: Debug> Nan for T {
    fn to_nan(&self) -> bool {
        format!("{self:?}").contains("NaN")
    }
}

type Flash = SimFlash<4, 4, 512>;

fn flash() -> (Sim, std::ops::Range<u32>) {
    let range = 0..7 * 512;
    (Sim::new(4, 4, 512, 8, vec![range.clone()]), range)
}

/// Store values of this type under a few keys and fetch and iterate them again.
pub fn map_value<V: VSample>(items: &[(u8, Vec<u8>)]) -> Result<bool, String> {
    let (sim, range) = flash();
    let mut st = MapStorage::<u8, Flash, _>::new(SimFlash(sim.clone()), MapConfig::new(range), Cache::new_uncached());
    let mut buf = ABuf::new(512);
    let mut model: BTreeMap<u8, usize> = BTreeMap::new();
    let vals: Vec<V> = items.iter().map(|(_, r)| V::sample(&mut Src(r)).0).collect();
    for (i, (k, _)) in items.iter().enumerate() {
        let k = k % 4;
        let o = drive(&sim, st.store_item(buf.m(), &k, &vals[i]));
        if o != Out::Ok(()) {
            return Err(format!("storing {:?} under {k} gave {o:?}", vals[i]));
        }
        model.insert(k, i);
        for k in 0..4u8 {
            let o = drive(&sim, st.fetch_item::<V>(buf.m(), &k));
            let ok = match (&o, model.get(&k)) {
                (Out::Ok(None), None) => true,
                (Out::Ok(Some(v)), Some(i)) => v.same(&vals[*i]),
                _ => false,
            };
            if !ok {
                return Err(format!("fetching {k} gave {o:?}, should be {:?}", model.get(&k).map(|i| &vals[*i])));
            }
        }
    }
    let mut seen: BTreeMap<u8, V> = BTreeMap::new();
    let o = drive(&sim, async {
        let mut it = st.fetch_all_items(buf.m()).await?;
        let mut b = [0u8; 512];
        while let Some((k, v)) = it.next::<V>(&mut b).await? {
            seen.insert(k, v);
        }
        Ok(())
    });
    if o != Out::Ok(()) {
        return Err(format!("iterating gave {o:?}"));
    }
    if seen.len() != model.len() || !model.iter().all(|(k, i)| seen.get(k).is_some_and(|v| v.same(&vals[*i]))) {
        return Err(format!("iterating gave {seen:?} in the end"));
    }
    Ok(!items.is_empty())
}

/// Store byte values under keys of this type.
pub fn map_key<K: KSample>(items: &[(u8, Vec<u8>)]) -> Result<bool, String> {
    let (sim, range) = flash();
    let mut st = MapStorage::<K, Flash, _>::new(SimFlash(sim.clone()), MapConfig::new(range), Cache::new_uncached());
    let mut buf = ABuf::new(512);
    // At most three different keys, so that they always fit.
    let mut keys: Vec<(K, Option<Vec<u8>>)> = vec![];
    for (n, (what, raw)) in items.iter().enumerate() {
        let k = K::sample(&mut Src(raw)).0;
        let pos = match keys.iter().position(|x| x.0 == k) {
            Some(p) => p,
            None if keys.len() < 3 => {
                keys.push((k, None));
                keys.len() - 1
            }
            None => *what as usize % 3,
        };
        let k = keys[pos].0.clone();
        if what % 8 == 7 {
            let o = drive(&sim, st.remove_item(buf.m(), &k));
            if o != Out::Ok(()) {
                return Err(format!("removing {k:?} gave {o:?}"));
            }
            keys[pos].1 = None;
        } else {
            let v = vec![n as u8; *what as usize % 20];
            let o = drive(&sim, st.store_item(buf.m(), &k, &v.as_slice()));
            if matches!(o, Out::Err(Er::Full)) {
                return Err(format!("storing under {k:?} gave {o:?}"));
            }
            if o != Out::Ok(()) {
                return Err(format!("storing under {k:?} gave {o:?}"));
            }
            keys[pos].1 = Some(v);
        }
        for (k, v) in &keys {
            let o = drive(&sim, st.fetch_item::<Vec<u8>>(buf.m(), k));
            if o != Out::Ok(v.clone()) {
                return Err(format!("fetching {k:?} gave {o:?}, should be {v:?}"));
            }
        }
    }
    Ok(!items.is_empty())
}

/// Key lengths at the limit of the length prefix.
pub fn long_key(len: usize, string: bool) -> Result<(), String> {
    let mut buf = vec![0u8; 70_010];
    let check = |r: SerRes, back: &dyn Fn(usize) -> bool| -> Result<(), String> {
        if len > 65535 {
            return match r {
                Err(_) => Ok(()),
                Ok(n) => Err(format!("a key of {len} bytes was serialized to {n}")),
            };
        }
        match r {
            Ok(n) if n == len + 2 && back(n) => Ok(()),
            r => Err(format!("a key of {len} bytes was serialized to {r:?} or does not come back")),
        }
    };
    if string {
        let k = "y".repeat(len);
        let r = Key::serialize_into(&k, &mut buf);
        check(r, &|n| String::get_len(&buf) == Ok(n) && <String as Key>::deserialize_from(&buf) == Ok((k.clone(), n)))
    } else {
        let k = vec![7u8; len];
        let r = Key::serialize_into(&k, &mut buf);
        check(r, &|n| Vec::<u8>::get_len(&buf) == Ok(n) && <Vec<u8> as Key>::deserialize_from(&buf) == Ok((k.clone(), n)))
    }
}

pub type Codec = fn(Aspect, &[u8], &[u8], &[u8]) -> Result<bool, String>;
pub type Stored = fn(&[(u8, Vec<u8>)]) -> Result<bool, String>;

#[derive(Clone, Copy)]
pub struct Ty {
    pub name: &'static str,
    pub codec: Codec,
    pub stored: Stored,
}

macro_rules! keys {
    ($($t:ty),* $(,)?) => {
        pub fn keys() -> Vec<Ty> {
            vec![$(Ty { name: stringify!($t), codec: check_key::<$t>, stored: map_key::<$t> }),*]
        }
    };
}
macro_rules! values {
    ($($t:ty),* $(,)?) => {
        pub fn values() -> Vec<Ty> {
            vec![$(Ty { name: stringify!($t), codec: check_value::<$t>, stored: map_value::<$t> }),*]
        }
    };
}
fn no_map(_: &[(u8, Vec<u8>)]) -> Result<bool, String> {
    Ok(false)
}
keys![
    u32, u128, i8, i64, [u8; 32], Vec<u8>, String, ArrayVec<u8, 8>, ArrayString<8>, H8V<8>, H8S<8>, H9V<8>, H9S<8>,
];
macro_rules! more_keys {
    ($($t:ty),* $(,)?) => {
        /// Without a map of their own (for build time).
        pub fn more_keys() -> Vec<Ty> {
            vec![$(Ty { name: stringify!($t), codec: check_key::<$t>, stored: no_map }),*]
        }
    };
}
more_keys![
    u8, u16, u64, i16, i32, i128, (), [u8; 0], [u8; 1], [u8; 5],
    ArrayVec<u8, 300>, ArrayString<300>, H8V<300>, H8S<300>, H9V<300>, H9Vu8<8>, H9S<300>, H9Su8<8>,
];
values![
    bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64,
    [u8; 0], [u8; 7], [u16; 3], [u32; 5], [u64; 2], [u128; 2], [i8; 3], [i16; 1], [i32; 4], [i64; 3], [i128; 1], [f32; 3], [f64; 2],
    Option<u8>, Option<u32>, Option<bool>, Option<[i16; 3]>, Option<Option<u16>>, Option<f64>,
    Option<Vec<u8>>, Option<String>, Option<H8V<8>>, Option<Option<String>>, Option<Rec>,
    Vec<u8>, String, H8V<8>, H8V<80>, H8S<8>, H8S<80>, H9V<8>, H9Vu8<80>, H9S<8>, H9Su8<80>,
    Rec, Kind,
];

/// `&[u8]` borrows from the buffer, so it gets its own.
pub fn slice(asp: Aspect, raw: &[u8]) -> Result<bool, String> {
    let v: &[u8] = raw;
    let ser = serialize(Some(v.len()), &|b| v.serialize_into(b))?;
    if ser != raw {
        return Err(format!("{raw:02x?} is stored as {ser:02x?}"));
    }
    let _ = asp;
    let (w, n) = <&[u8]>::deserialize_from(&ser).map_err(|e| format!("{e:?}"))?;
    if w != v || n != v.len() {
        return Err(format!("{raw:02x?} comes back as {w:02x?} with length {n}"));
    }
    let o: Option<&[u8]> = Some(v);
    let ser = serialize(Some(v.len() + 1), &|b| o.serialize_into(b))?;
    match Option::<&[u8]>::deserialize_from(&ser) {
        Ok((w, n)) if w == o && n == ser.len() => Ok(!raw.is_empty()),
        r => Err(format!("{o:02x?} serialized to {ser:02x?} comes back as {r:?}")),
    }
}
