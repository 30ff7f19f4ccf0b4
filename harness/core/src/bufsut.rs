//! Type-erased handles onto the real `BufferedQueue` and `SharedRamRing`.

use crate::sim::{Out, Sim, SimFlash, drive, drive_with};
use crate::sut::{Geo, QCacheKind};
use sequential_storage::queue::buffered::{BufferedQueue, OverflowPolicy, SharedRamRing};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::cell::Cell;
use std::future::Future;
use std::ops::Range;
use std::pin::pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Wake, Waker};

fn policy(discard: bool) -> OverflowPolicy {
    if discard { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Counters {
    pub cap: usize,
    pub free: usize,
    pub pending: usize,
    pub used: usize,
}

pub trait BufSut {
    fn enqueue(&mut self, data: &[u8], discard: bool) -> bool;
    fn drain_one(&mut self, buf: &mut [u8], ow: bool) -> Out<bool>;
    fn drain_all(&mut self, buf: &mut [u8], ow: bool) -> Out<()>;
    fn pop(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>>;
    fn peek(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>>;
    fn counters(&self) -> Counters;
    /// Take the storage out (which drops what is in RAM) and wrap it again.
    fn rewrap(&mut self);
}

pub struct BufS<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind> {
    sim: Sim,
    q: Option<BufferedQueue<SimFlash<R, W, E>, CK::C, N>>,
}

impl<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind> BufS<R, W, E, N, CK> {
    fn q(&mut self) -> &mut BufferedQueue<SimFlash<R, W, E>, CK::C, N> {
        self.q.as_mut().unwrap()
    }
}

impl<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind> BufSut
    for BufS<R, W, E, N, CK>
{
    fn enqueue(&mut self, data: &[u8], discard: bool) -> bool {
        self.q().enqueue(data, policy(discard)).is_ok()
    }
    fn drain_one(&mut self, buf: &mut [u8], ow: bool) -> Out<bool> {
        let sim = self.sim.clone();
        drive(&sim, self.q().drain_one(buf, ow))
    }
    fn drain_all(&mut self, buf: &mut [u8], ow: bool) -> Out<()> {
        let sim = self.sim.clone();
        drive(&sim, self.q().drain_all(buf, ow))
    }
    fn pop(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>> {
        let sim = self.sim.clone();
        let q = self.q();
        drive(&sim, async { Ok(q.pop(buf).await?.map(|b| b.to_vec())) })
    }
    fn peek(&mut self, buf: &mut [u8]) -> Out<Option<Vec<u8>>> {
        let sim = self.sim.clone();
        let q = self.q();
        drive(&sim, async { Ok(q.peek(buf).await?.map(|b| b.to_vec())) })
    }
    fn counters(&self) -> Counters {
        let q = self.q.as_ref().unwrap();
        Counters {
            cap: BufferedQueue::<SimFlash<R, W, E>, CK::C, N>::ram_capacity_bytes(),
            free: q.ram_free_bytes(),
            pending: q.ram_pending_count(),
            used: q.ram_bytes_used(),
        }
    }
    fn rewrap(&mut self) {
        let s = self.q.take().unwrap().into_storage();
        self.q = Some(BufferedQueue::new(s));
    }
}

// ---------------------------------------------------------------- shared ring

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Task {
    DrainOne,
    DrainAll,
    WaitDrainAll,
    Pop,
    Peek,
}

#[derive(Debug, Clone, PartialEq)]
pub enum TaskOut {
    Drained(bool),
    Done,
    Item(Option<Vec<u8>>),
}

/// What producers and observers can do at any time.
pub trait RingView {
    fn enqueue(&self, data: &[u8], discard: bool) -> bool;
    /// Capacity, free bytes, pending items, length of the oldest.
    fn look(&self) -> (usize, usize, usize, Option<usize>);
    /// Poll `wait` once, run `then`, poll it again: (ready at first, woken by `then`, ready afterwards).
    fn wait_probe(&self, then: &mut dyn FnMut()) -> (bool, bool, bool);
}

pub trait RingSut {
    fn view(&self) -> &dyn RingView;
    /// `between` runs at every suspension point and may end the task; `isr` runs whenever the task leaves a
    /// critical section.
    fn run(
        &mut self,
        t: Task,
        buf: &mut [u8],
        ow: bool,
        between: &mut dyn FnMut(&dyn RingView) -> bool,
        isr: &mut dyn FnMut(&dyn RingView),
    ) -> Out<TaskOut>;
}

/// Critical sections: every case lives on one thread, so there is nothing to lock, but leaving the outermost one
/// is where a pending interrupt would run.
struct Cs;
critical_section::set_impl!(Cs);

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static ISR: Cell<Option<*mut (dyn FnMut() + 'static)>> = const { Cell::new(None) };
}

// SAFETY: rings are never shared between threads here.
unsafe impl critical_section::Impl for Cs {
    unsafe fn acquire() -> critical_section::RawRestoreState {
        DEPTH.set(DEPTH.get() + 1);
    }
    unsafe fn release(_: critical_section::RawRestoreState) {
        DEPTH.set(DEPTH.get() - 1);
        if DEPTH.get() == 0 {
            no_isr(|f| {
                if let Some(f) = f {
                    // SAFETY: set by `with_isr`, which clears it before the closure goes away.
                    unsafe { (*f)() }
                }
            })
        }
    }
}

/// Run with interrupts off.
fn no_isr<T>(f: impl FnOnce(Option<*mut dyn FnMut()>) -> T) -> T {
    let old = ISR.take();
    let r = f(old);
    ISR.set(old);
    r
}

struct IsrGuard;
impl Drop for IsrGuard {
    fn drop(&mut self) {
        ISR.set(None);
        DEPTH.set(0);
    }
}

fn with_isr<T>(isr: &mut dyn FnMut(), f: impl FnOnce() -> T) -> T {
    let _g = IsrGuard;
    let p: *mut (dyn FnMut() + '_) = isr;
    // SAFETY: only the lifetime changes; the guard removes the pointer before `isr` ends.
    ISR.set(Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) }));
    f()
}

struct CountWake(AtomicUsize);
impl Wake for CountWake {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

impl<const N: usize> RingView for SharedRamRing<N> {
    fn enqueue(&self, data: &[u8], discard: bool) -> bool {
        SharedRamRing::enqueue(self, data, policy(discard)).is_ok()
    }
    fn look(&self) -> (usize, usize, usize, Option<usize>) {
        (Self::ram_capacity_bytes(), self.ram_free_bytes(), self.ram_pending_count(), self.oldest_ram_item_len())
    }
    fn wait_probe(&self, then: &mut dyn FnMut()) -> (bool, bool, bool) {
        let cw = Arc::new(CountWake(AtomicUsize::new(0)));
        let waker: Waker = cw.clone().into();
        let mut cx = Context::from_waker(&waker);
        let mut f = pin!(self.wait());
        if f.as_mut().poll(&mut cx).is_ready() {
            return (true, false, false);
        }
        let n = cw.0.load(Ordering::SeqCst);
        then();
        let woken = cw.0.load(Ordering::SeqCst) > n;
        (false, woken, matches!(f.as_mut().poll(&mut cx), Poll::Ready(())))
    }
}

pub struct RingS<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind> {
    sim: Sim,
    ring: SharedRamRing<N>,
    st: QueueStorage<SimFlash<R, W, E>, CK::C>,
}

impl<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind> RingSut
    for RingS<R, W, E, N, CK>
{
    fn view(&self) -> &dyn RingView {
        &self.ring
    }
    fn run(
        &mut self,
        t: Task,
        buf: &mut [u8],
        ow: bool,
        between: &mut dyn FnMut(&dyn RingView) -> bool,
        isr: &mut dyn FnMut(&dyn RingView),
    ) -> Out<TaskOut> {
        let Self { sim, ring, st } = self;
        let ring = &*ring;
        let fut = async {
            Ok(match t {
                Task::DrainOne => TaskOut::Drained(ring.drain_one(st, buf, ow).await?),
                Task::DrainAll => {
                    ring.drain_all(st, buf, ow).await?;
                    TaskOut::Done
                }
                Task::WaitDrainAll => {
                    ring.wait_and_drain_all(st, buf, ow).await?;
                    TaskOut::Done
                }
                Task::Pop => TaskOut::Item(ring.pop(st, buf, ow).await?.map(|b| b.to_vec())),
                Task::Peek => TaskOut::Item(ring.peek(st, buf, ow).await?.map(|b| b.to_vec())),
            })
        };
        with_isr(&mut || isr(ring), || drive_with(sim, fut, || no_isr(|_| between(ring))))
    }
}

// ---------------------------------------------------------------- instances

pub type BufMaker = fn(Sim, Range<u32>) -> Box<dyn BufSut>;
pub type RingMaker = fn(Sim, Range<u32>) -> Box<dyn RingSut>;

#[derive(Clone, Copy)]
pub struct BufCombo {
    pub geo: Geo,
    pub n: usize,
    pub buf: BufMaker,
    pub ring: RingMaker,
}

pub fn mk_buf<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind + 'static>(
    sim: Sim,
    range: Range<u32>,
) -> Box<dyn BufSut> {
    let pages = range.len() / E;
    let st = QueueStorage::new(SimFlash(sim.clone()), QueueConfig::new(range), CK::make(pages));
    Box::new(BufS::<R, W, E, N, CK> { sim, q: Some(BufferedQueue::new(st)) })
}

pub fn mk_ring<const R: usize, const W: usize, const E: usize, const N: usize, CK: QCacheKind + 'static>(
    sim: Sim,
    range: Range<u32>,
) -> Box<dyn RingSut> {
    let pages = range.len() / E;
    let st = QueueStorage::new(SimFlash(sim.clone()), QueueConfig::new(range), CK::make(pages));
    Box::new(RingS::<R, W, E, N, CK> { sim, ring: SharedRamRing::new(), st })
}

#[macro_export]
macro_rules! buf_combo {
    ($r:literal, $w:literal, $e:literal, $n:literal, $ck:ident) => {
        $crate::bufsut::BufCombo {
            geo: $crate::sut::Geo { r: $r, w: $w, e: $e },
            n: $n,
            buf: $crate::bufsut::mk_buf::<$r, $w, $e, $n, $crate::sut::$ck>,
            ring: $crate::bufsut::mk_ring::<$r, $w, $e, $n, $crate::sut::$ck>,
        }
    };
}
