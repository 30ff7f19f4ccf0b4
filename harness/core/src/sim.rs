//! Simulated NOR flash with fault injection and access-discipline monitoring.
//!
//! One `Sim` is one flash chip. `SimFlash<R, W, E>` is a driver handle onto it; several handles may
//! share one chip (two storages on disjoint ranges, or a second instance after a restart).

use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};
use serde::{Deserialize, Serialize};
use std::cell::{RefCell, RefMut};
use std::future::Future;
use std::ops::Range;
use std::pin::{Pin, pin};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum FaultKind {
    /// The device loses power: nothing of RAM survives.
    PowerLoss,
    /// The future of the running operation is dropped; RAM (instance and cache) survives.
    Cancel,
    /// The driver returns an error, possibly after part of the write or erase took effect.
    IoError,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum FaultOn {
    Mutation,
    Read,
    Any,
}

/// A fault that fires at the `skip`-th matching flash access from when it is armed.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Arm {
    pub kind: FaultKind,
    pub on: FaultOn,
    pub skip: u16,
    /// How much of the interrupted write or erase takes effect: `tear % (len + 1)` bytes.
    pub tear: u16,
    /// What happens to the bits at the place where it was interrupted. 0: nothing. Odd: some bits of
    /// the first byte not reached take effect. Even: bits of the rest of that write unit do.
    #[serde(default)]
    pub bits: u16,
}

impl Arm {
    /// Bits of the `i`th byte after the interruption that take effect nevertheless.
    fn partial(&self, i: usize) -> u8 {
        if self.bits == 0 || (self.bits % 2 == 1 && i > 0) {
            return 0;
        }
        (self.bits as u32).wrapping_mul(0x9E37_79B1).wrapping_add((i as u32).wrapping_mul(0x85EB_CA6B)).rotate_left(13).to_le_bytes()[2]
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Access {
    Read { addr: u32, len: u32 },
    Write { addr: u32, len: u32 },
    Erase { from: u32, to: u32 },
}

#[derive(Debug, Clone, Copy)]
pub struct Fired {
    pub kind: FaultKind,
    pub access: Access,
    pub applied: u32,
}

/// Wrong bits returned by the next read that covers `addr`; the cell itself is intact.
#[derive(Debug, Clone, Copy)]
pub struct Glitch {
    pub bits: [(u32, u8); 3],
    pub n: usize,
    pub done: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SimError {
    Injected,
    NotAligned,
    OutOfBounds,
}

impl NorFlashError for SimError {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            SimError::Injected => NorFlashErrorKind::Other,
            SimError::NotAligned => NorFlashErrorKind::NotAligned,
            SimError::OutOfBounds => NorFlashErrorKind::OutOfBounds,
        }
    }
}

pub struct Inner {
    pub mem: Vec<u8>,
    pub r: usize,
    pub w: usize,
    pub e: usize,
    /// max(r, w)
    pub word: usize,
    /// The ranges storages were configured with; anything outside is guarded.
    pub ranges: Vec<Range<u32>>,
    /// Writes per write-unit since its page was last erased.
    pub writes: Vec<u8>,
    /// Write-unit was (possibly) hit by an interrupted write or erase: write-count rule suspended.
    pub torn: Vec<bool>,
    pub erase_count: Vec<u32>,
    pub erase_log: Vec<u32>,
    /// Erased although every byte was already blank.
    pub blank_erases: u32,
    pub violations: Vec<String>,
    /// Writes to units already written since their erase (and not torn): address, bytes, page before.
    pub rewrites: Vec<(u32, Vec<u8>, Vec<u8>)>,
    pub log_rewrites: bool,
    pub check_ptr_align: bool,
    pub n_reads: u64,
    pub n_writes: u64,
    pub n_erases: u64,
    pub budget: u64,
    pub budget_left: u64,
    pub arm: Option<Arm>,
    pub fired: Option<Fired>,
    pub interrupted: bool,
    pub power_losses: u32,
    pub glitch: Option<Glitch>,
    pub record: Option<Vec<Access>>,
    /// Suspend every n-th access once (0: never), so other tasks can run in between.
    pub yield_every: u32,
    yield_ctr: u32,
    /// Address of the first byte, as the library sees it. (Everything here counts from that.)
    pub origin: u32,
}

#[derive(Clone)]
pub struct Sim(pub Rc<RefCell<Inner>>);

impl Sim {
    pub fn new(r: usize, w: usize, e: usize, total_pages: usize, ranges: Vec<Range<u32>>) -> Self {
        let size = total_pages * e;
        Sim(Rc::new(RefCell::new(Inner {
            mem: vec![0xFF; size],
            r,
            w,
            e,
            word: r.max(w),
            ranges,
            writes: vec![0; size / w + 1],
            torn: vec![false; size / w + 1],
            erase_count: vec![0; total_pages],
            erase_log: vec![],
            blank_erases: 0,
            violations: vec![],
            rewrites: vec![],
            log_rewrites: false,
            check_ptr_align: true,
            n_reads: 0,
            n_writes: 0,
            n_erases: 0,
            budget: 3_000_000,
            budget_left: 3_000_000,
            arm: None,
            fired: None,
            interrupted: false,
            power_losses: 0,
            glitch: None,
            record: None,
            yield_every: 0,
            yield_ctr: 0,
            origin: 0,
        })))
    }
    /// Where the flash is in the address space: `which` selects one of a few interesting places.
    pub fn place(&self, which: u8) {
        let mut s = self.b();
        let (e, len) = (s.e as u64, s.mem.len() as u64);
        let at: u64 = match which {
            0 => 0,
            1 => 0x1_0000u64.saturating_sub(len / 2),
            2 => 0x0800_0000,
            3 => 0x8000_0000 - len / 2,
            4 => 0x0100_0000u64.saturating_sub(len / 2),
            _ => u32::MAX as u64 - len,
        };
        s.origin = (at.min(u32::MAX as u64) / e * e) as u32;
    }
    /// A range as the library sees it.
    pub fn seen(&self, r: &Range<u32>) -> Range<u32> {
        let o = self.b().origin;
        r.start + o..r.end + o
    }
    pub fn b(&self) -> RefMut<'_, Inner> {
        self.0.borrow_mut()
    }
    pub fn mem(&self) -> Vec<u8> {
        self.0.borrow().mem.clone()
    }
    /// Replace the contents from outside (a raw image or flipped bits); write counts no longer known.
    pub fn poke(&self, f: impl FnOnce(&mut Vec<u8>)) {
        let mut b = self.b();
        f(&mut b.mem);
        b.torn.iter_mut().for_each(|t| *t = true);
    }
    /// Writes, erases.
    pub fn counts(&self) -> (u64, u64) {
        let s = self.b();
        (s.n_writes, s.n_erases)
    }
    pub fn violation(&self) -> Option<String> {
        self.b().violations.first().cloned()
    }
}

impl Inner {
    fn spend(&mut self) {
        self.budget_left = self.budget_left.saturating_sub(1);
        if self.budget_left == 0 {
            panic!(
                "operation does not terminate: more than {} flash accesses in one operation",
                self.budget
            );
        }
    }
    fn in_range(&self, from: u32, to: u32) -> bool {
        self.ranges.iter().any(|r| from >= r.start && to <= r.end)
    }
    fn bad(&mut self, s: String) {
        if self.violations.len() < 8 {
            self.violations.push(s);
        }
    }
    fn take_fault(&mut self, is_read: bool) -> Option<Arm> {
        let arm = self.arm.as_mut()?;
        let m = match arm.on {
            FaultOn::Mutation => !is_read,
            FaultOn::Read => is_read,
            FaultOn::Any => true,
        };
        if !m {
            return None;
        }
        if arm.skip > 0 {
            arm.skip -= 1;
            return None;
        }
        let arm = self.arm.take();
        if arm.is_some_and(|a| a.kind == FaultKind::PowerLoss) {
            self.power_losses += 1;
        }
        arm
    }
    fn yield_now(&mut self) -> bool {
        if self.yield_every == 0 {
            return false;
        }
        self.yield_ctr += 1;
        if self.yield_ctr >= self.yield_every {
            self.yield_ctr = 0;
            return true;
        }
        false
    }
    fn apply_write(&mut self, addr: usize, bytes: &[u8]) {
        for (i, b) in bytes.iter().enumerate() {
            self.mem[addr + i] &= b;
        }
    }
}

struct Forever;
impl Future for Forever {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}
struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        Poll::Pending
    }
}

pub struct SimFlash<const R: usize, const W: usize, const E: usize>(pub Sim);

impl<const R: usize, const W: usize, const E: usize> ErrorType for SimFlash<R, W, E> {
    type Error = SimError;
}

enum Next {
    Go,
    Err(SimError),
    Halt,
}

impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for SimFlash<R, W, E> {
    const READ_SIZE: usize = R;

    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), SimError> {
        if self.0.b().yield_now() {
            YieldOnce(false).await;
        }
        let next = {
            let s = &mut *self.0.b();
            s.spend();
            s.n_reads += 1;
            let offset = offset.wrapping_sub(s.origin);
            let len = bytes.len() as u32;
            let end = offset as u64 + len as u64;
            if let Some(r) = s.record.as_mut() {
                r.push(Access::Read { addr: offset, len });
            }
            if len == 0 {
                s.bad(format!("zero-length read at {offset:#x}"));
            }
            if offset as usize % R != 0 || len as usize % R != 0 {
                s.bad(format!("unaligned read at {offset:#x} len {len} (read size {R})"));
                return Err(SimError::NotAligned);
            }
            if end > u32::MAX as u64 || !s.in_range(offset, end as u32) {
                s.bad(format!("read outside the configured range: {offset:#x}..{end:#x}"));
            }
            if end > s.mem.len() as u64 {
                return Err(SimError::OutOfBounds);
            }
            match s.take_fault(true) {
                None => {
                    bytes.copy_from_slice(&s.mem[offset as usize..end as usize]);
                    if let Some(g) = s.glitch.as_mut().filter(|g| !g.done) {
                        let hit = g.bits[..g.n]
                            .iter()
                            .any(|(a, _)| *a >= offset && (*a as u64) < end);
                        if hit {
                            g.done = true;
                            for (a, m) in &g.bits[..g.n] {
                                if *a >= offset && (*a as u64) < end {
                                    bytes[(*a - offset) as usize] ^= m;
                                }
                            }
                        }
                    }
                    Next::Go
                }
                Some(arm) => {
                    // A read that failed may have filled any part of the buffer with anything.
                    if arm.bits != 0 {
                        let n = arm.tear as usize % (len as usize + 1);
                        bytes[..n].copy_from_slice(&s.mem[offset as usize..offset as usize + n]);
                        for (i, b) in bytes.iter_mut().enumerate().skip(if arm.bits & 4 == 0 { n } else { 0 }) {
                            if arm.bits & 2 == 0 {
                                *b ^= arm.partial(i);
                            }
                        }
                    }
                    s.fired = Some(Fired {
                        kind: arm.kind,
                        access: Access::Read { addr: offset, len },
                        applied: 0,
                    });
                    if arm.kind == FaultKind::IoError {
                        Next::Err(SimError::Injected)
                    } else {
                        s.interrupted = true;
                        Next::Halt
                    }
                }
            }
        };
        match next {
            Next::Go => Ok(()),
            Next::Err(e) => Err(e),
            Next::Halt => {
                Forever.await;
                unreachable!()
            }
        }
    }

    fn capacity(&self) -> usize {
        self.0.b().mem.len()
    }
}

impl<const R: usize, const W: usize, const E: usize> NorFlash for SimFlash<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;

    async fn erase(&mut self, from: u32, to: u32) -> Result<(), SimError> {
        if self.0.b().yield_now() {
            YieldOnce(false).await;
        }
        let next = {
            let s = &mut *self.0.b();
            s.spend();
            s.n_erases += 1;
            let (from, to) = (from.wrapping_sub(s.origin), to.wrapping_sub(s.origin));
            if let Some(r) = s.record.as_mut() {
                r.push(Access::Erase { from, to });
            }
            if to <= from {
                s.bad(format!("empty erase {from:#x}..{to:#x}"));
                return Err(SimError::OutOfBounds);
            }
            if from as usize % E != 0 || to as usize % E != 0 {
                s.bad(format!("unaligned erase {from:#x}..{to:#x} (erase size {E})"));
                return Err(SimError::NotAligned);
            }
            if !s.in_range(from, to) {
                s.bad(format!("erase outside the configured range: {from:#x}..{to:#x}"));
            }
            if to as usize > s.mem.len() {
                return Err(SimError::OutOfBounds);
            }
            let len = (to - from) as usize;
            let (a, fault) = match s.take_fault(false) {
                None => (len, None),
                Some(arm) => (arm.tear as usize % (len + 1), Some(arm)),
            };
            for p in (from as usize / E)..(to as usize / E) {
                if fault.is_none() {
                    s.erase_count[p] += 1;
                    s.erase_log.push(p as u32);
                    if s.mem[p * E..(p + 1) * E].iter().all(|b| *b == 0xFF) {
                        s.blank_erases += 1;
                    }
                }
                for u in (p * E / W)..((p + 1) * E / W) {
                    s.writes[u] = 0;
                    s.torn[u] = a < len;
                }
            }
            s.mem[from as usize..from as usize + a].fill(0xFF);
            if let Some(arm) = fault.filter(|_| a < len) {
                s.mem[from as usize + a] |= arm.partial(0);
            }
            match fault {
                None => Next::Go,
                Some(arm) => {
                    s.fired = Some(Fired {
                        kind: arm.kind,
                        access: Access::Erase { from, to },
                        applied: a as u32,
                    });
                    if arm.kind == FaultKind::IoError {
                        Next::Err(SimError::Injected)
                    } else {
                        s.interrupted = true;
                        Next::Halt
                    }
                }
            }
        };
        match next {
            Next::Go => Ok(()),
            Next::Err(e) => Err(e),
            Next::Halt => {
                Forever.await;
                unreachable!()
            }
        }
    }

    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), SimError> {
        if self.0.b().yield_now() {
            YieldOnce(false).await;
        }
        let next = {
            let s = &mut *self.0.b();
            s.spend();
            s.n_writes += 1;
            let offset = offset.wrapping_sub(s.origin);
            let len = bytes.len();
            let end = offset as u64 + len as u64;
            if let Some(r) = s.record.as_mut() {
                r.push(Access::Write { addr: offset, len: len as u32 });
            }
            if len == 0 {
                s.bad(format!("zero-length write at {offset:#x}"));
            }
            if offset as usize % W != 0 || len % W != 0 {
                s.bad(format!("unaligned write at {offset:#x} len {len} (write size {W})"));
                return Err(SimError::NotAligned);
            }
            if s.check_ptr_align && len != 0 && bytes.as_ptr() as usize % 4 != 0 {
                s.bad(format!("write at {offset:#x} from a buffer not aligned to 4 bytes"));
            }
            if end > u32::MAX as u64 || !s.in_range(offset, end as u32) {
                s.bad(format!("write outside the configured range: {offset:#x}..{end:#x}"));
            }
            if end > s.mem.len() as u64 {
                return Err(SimError::OutOfBounds);
            }
            let (a, fault) = match s.take_fault(false) {
                None => (len, None),
                Some(arm) => (arm.tear as usize % (len + 1), Some(arm)),
            };
            let (u0, u1) = (offset as usize / W, (offset as usize + len) / W);
            if s.log_rewrites && fault.is_none() && (u0..u1).any(|u| s.writes[u] > 0 && !s.torn[u]) {
                let page = offset as usize / E * E;
                let before = s.mem[page..page + E].to_vec();
                s.rewrites.push((offset, bytes.to_vec(), before));
            }
            for u in u0..u1 {
                if fault.is_some() {
                    s.torn[u] = true;
                    continue;
                }
                s.writes[u] = s.writes[u].saturating_add(1);
                if s.torn[u] {
                    continue;
                }
                let o = u * W - offset as usize;
                let new = &bytes[o..o + W];
                let old = &s.mem[u * W..(u + 1) * W];
                let n = s.writes[u];
                if n > 1 && new.iter().zip(old).any(|(n, o)| *n & !*o != 0) {
                    let m = format!(
                        "second write to {:#x} tries to set cleared bits: {old:02x?} <- {new:02x?}",
                        u * W
                    );
                    s.bad(m);
                }
                if n > 2 {
                    s.bad(format!("write unit {:#x} written {n} times since its erase", u * W));
                }
            }
            s.apply_write(offset as usize, &bytes[..a]);
            if let Some(arm) = fault {
                for i in a..(a + 1).next_multiple_of(W).min(len) {
                    s.mem[offset as usize + i] &= bytes[i] | !arm.partial(i - a);
                }
            }
            match fault {
                None => Next::Go,
                Some(arm) => {
                    s.fired = Some(Fired {
                        kind: arm.kind,
                        access: Access::Write { addr: offset, len: len as u32 },
                        applied: a as u32,
                    });
                    if arm.kind == FaultKind::IoError {
                        Next::Err(SimError::Injected)
                    } else {
                        s.interrupted = true;
                        Next::Halt
                    }
                }
            }
        };
        match next {
            Next::Go => Ok(()),
            Next::Err(e) => Err(e),
            Next::Halt => {
                Forever.await;
                unreachable!()
            }
        }
    }
}

impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for SimFlash<R, W, E> {}

/// Result of driving one library operation.
#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(Er),
    /// The armed fault suspended the operation and its future was dropped.
    Cut(FaultKind),
}

impl<T> Out<T> {
    pub fn is_cut(&self) -> bool {
        matches!(self, Out::Cut(_))
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(t) => Out::Ok(f(t)),
            Out::Err(e) => Out::Err(e),
            Out::Cut(k) => Out::Cut(k),
        }
    }
}

/// Library error, comparable and independent of the storage type.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Er {
    Storage(SimError),
    Full,
    Corrupted,
    LogicBug,
    TooBig,
    TooSmall(usize),
    SerTooSmall,
    SerTooBig,
    SerData,
    SerFormat,
    SerCustom(i32),
    ItemTooBig,
    Other(String),
}

impl Er {
    pub fn is_buffer(&self) -> bool {
        matches!(self, Er::TooSmall(_) | Er::SerTooSmall)
    }
    pub fn from_ser(s: sequential_storage::map::SerializationError) -> Er {
        use sequential_storage::map::SerializationError as S;
        match s {
            S::BufferTooSmall => Er::SerTooSmall,
            S::InvalidData => Er::SerData,
            S::InvalidFormat => Er::SerFormat,
            S::Custom(i) => Er::SerCustom(i),
            o => Er::Other(format!("{o:?}")),
        }
    }
}

impl From<sequential_storage::Error<SimError>> for Er {
    fn from(e: sequential_storage::Error<SimError>) -> Er {
        use sequential_storage::Error as X;
        match e {
            X::Storage { value, .. } => Er::Storage(value),
            X::FullStorage => Er::Full,
            X::Corrupted { .. } => Er::Corrupted,
            X::LogicBug { .. } => Er::LogicBug,
            X::BufferTooBig => Er::TooBig,
            X::BufferTooSmall(n) => Er::TooSmall(n),
            X::SerializationError(s) => Er::from_ser(s),
            X::ItemTooBig => Er::ItemTooBig,
            o => Er::Other(format!("{o:?}")),
        }
    }
}

/// Poll a library future to completion, or until the armed fault suspends it.
/// `between` runs at every voluntary suspension (see `yield_every`); returning `true` drops the future.
pub fn drive_with<T>(
    sim: &Sim,
    fut: impl Future<Output = Result<T, sequential_storage::Error<SimError>>>,
    mut between: impl FnMut() -> bool,
) -> Out<T> {
    {
        let mut s = sim.b();
        s.interrupted = false;
        s.budget_left = s.budget;
    }
    let mut fut = pin!(fut);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(Ok(t)) => return Out::Ok(t),
            Poll::Ready(Err(e)) => return Out::Err(e.into()),
            Poll::Pending => {
                if sim.b().interrupted {
                    let k = sim.b().fired.map(|f| f.kind).unwrap_or(FaultKind::Cancel);
                    return Out::Cut(k);
                }
                if between() {
                    return Out::Cut(FaultKind::Cancel);
                }
            }
        }
    }
}

pub fn drive<T>(
    sim: &Sim,
    fut: impl Future<Output = Result<T, sequential_storage::Error<SimError>>>,
) -> Out<T> {
    drive_with(sim, fut, || false)
}

/// A byte buffer whose start is aligned to 16 bytes.
pub struct ABuf {
    v: Vec<u128>,
    len: usize,
}
impl ABuf {
    /// Show only the first `len` bytes.
    pub fn set_len(&mut self, len: usize) {
        assert!(len <= self.v.len() * 16);
        self.len = len;
    }
    pub fn new(len: usize) -> Self {
        ABuf { v: vec![0xA5A5A5A5_A5A5A5A5_A5A5A5A5_A5A5A5A5; len.div_ceil(16).max(1)], len }
    }
    pub fn from(data: &[u8]) -> Self {
        let mut s = Self::new(data.len());
        s.m().copy_from_slice(data);
        s
    }
    pub fn m(&mut self) -> &mut [u8] {
        let len = self.len;
        // SAFETY: u128 storage of at least `len` initialised bytes.
        unsafe { std::slice::from_raw_parts_mut(self.v.as_mut_ptr().cast::<u8>(), len) }
    }
}
