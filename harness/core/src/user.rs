//! Key and value types whose methods can be made to fail, as a user's own types may.

use crate::sut::TestKey;
use sequential_storage::map::{Key, SerializationError, Value};
use serde::{Deserialize, Serialize};
use std::cell::Cell;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Call {
    KeySer,
    KeyDe,
    ValSer,
    ValDe,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct UserArm {
    /// `None`: any call.
    pub call: Option<Call>,
    /// Matching calls that still succeed.
    pub skip: u16,
    pub err: u8,
    /// Fail from then on, not just once.
    pub sticky: bool,
}

thread_local! {
    static ARM: Cell<Option<UserArm>> = const { Cell::new(None) };
    static FIRED: Cell<Option<(Call, UserArm)>> = const { Cell::new(None) };
}

pub fn arm(a: Option<UserArm>) {
    ARM.set(a);
    FIRED.set(None);
}

/// The first call that failed since `arm`.
pub fn fired() -> Option<(Call, SerializationError)> {
    FIRED.get().map(|(c, a)| (c, error(a.err)))
}

pub fn error(e: u8) -> SerializationError {
    match e % 5 {
        0 => SerializationError::BufferTooSmall,
        1 => SerializationError::InvalidData,
        2 => SerializationError::InvalidFormat,
        _ => SerializationError::Custom((e as i32 - 128) * 0x0101_0101),
    }
}

fn call(c: Call) -> Result<(), SerializationError> {
    let Some(mut a) = ARM.get() else { return Ok(()) };
    if a.call.is_some_and(|x| x != c) {
        return Ok(());
    }
    if a.skip > 0 {
        a.skip -= 1;
        ARM.set(Some(a));
        return Ok(());
    }
    if FIRED.get().is_none() {
        FIRED.set(Some((c, a)));
    }
    if !a.sticky {
        ARM.set(None);
    }
    Err(error(a.err))
}

/// One byte that says how long the key is, then that many bytes.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct UKey(u8);

fn enc(i: u8) -> Vec<u8> {
    let mut v = vec![i % 4];
    v.extend((0..i % 4).map(|_| i.wrapping_mul(37)));
    v.push(i);
    v
}

impl Key for UKey {
    fn serialize_into(&self, buffer: &mut [u8]) -> Result<usize, SerializationError> {
        call(Call::KeySer)?;
        let v = enc(self.0);
        buffer.get_mut(..v.len()).ok_or(SerializationError::BufferTooSmall)?.copy_from_slice(&v);
        Ok(v.len())
    }
    fn deserialize_from(buffer: &[u8]) -> Result<(Self, usize), SerializationError> {
        call(Call::KeyDe)?;
        let n = *buffer.first().ok_or(SerializationError::BufferTooSmall)? as usize + 2;
        let b = buffer.get(..n).ok_or(SerializationError::BufferTooSmall)?;
        if enc(b[n - 1]) != b {
            return Err(SerializationError::InvalidFormat);
        }
        Ok((UKey(b[n - 1]), n))
    }
}

impl TestKey for UKey {
    const USER: bool = true;
    fn mk(i: u8) -> Self {
        UKey(i)
    }
    fn idx(&self) -> Option<u8> {
        Some(self.0)
    }
    fn len(i: u8) -> usize {
        enc(i).len()
    }
    fn bytes(i: u8) -> Vec<u8> {
        enc(i)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct UVal<'a>(pub &'a [u8]);

impl<'a> Value<'a> for UVal<'a> {
    fn serialize_into(&self, buffer: &mut [u8]) -> Result<usize, SerializationError> {
        // A user's type may well have written something before it fails.
        if let Err(e) = call(Call::ValSer) {
            buffer.fill(0xEE);
            return Err(e);
        }
        buffer.get_mut(..self.0.len()).ok_or(SerializationError::BufferTooSmall)?.copy_from_slice(self.0);
        Ok(self.0.len())
    }
    fn deserialize_from(buffer: &'a [u8]) -> Result<(Self, usize), SerializationError> {
        call(Call::ValDe)?;
        Ok((UVal(buffer), buffer.len()))
    }
}
