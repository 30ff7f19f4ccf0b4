//! P16 RAM-buffered queue, P17 shared RAM ring under interleaving.

use crate::bufsut::{BufCombo, BufSut, RingSut, RingView, Task, TaskOut};
use crate::combos;
use crate::format;
use crate::mapx::{Len, arm_strat, value};
use crate::queuex::{Plan, plan_push, show_i};
use crate::runner::{Check, Stats, phase};
use crate::sim::{ABuf, Arm, Er, FaultKind, FaultOn, Out, Sim, SimError};
use crate::sut::{Ev, Geo, IterPlan};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::ops::Range;

fn flash_for(g: Geo, base: usize, pages: usize) -> (Sim, Range<u32>) {
    let range = (base * g.e) as u32..((base + pages) * g.e) as u32;
    let sim = Sim::new(g.r, g.w, g.e, base + pages + 1, vec![range.clone()]);
    (sim, range)
}

/// What a fresh, uncached instance finds on a copy of the flash.
fn flash_contents(sim: &Sim, g: Geo, range: &Range<u32>) -> Result<Vec<Vec<u8>>, String> {
    let combo = combos::queue()
        .iter()
        .find(|c| c.geo == g && c.cache == 0)
        .expect("an uncached queue of this geometry");
    let copy = Sim::new(g.r, g.w, g.e, sim.b().mem.len() / g.e, vec![range.clone()]);
    copy.poke(|m| *m = sim.mem());
    let mut q = (combo.make)(copy, range.clone());
    let mut buf = ABuf::new(g.e);
    let evs = q.iter(IterPlan { mask: 0, stop: 255, resume: false }, buf.m());
    let mut out = vec![];
    for e in evs {
        match e {
            Ev::Item(d) => out.push(d),
            Ev::End => return Ok(out),
            e => return Err(format!("reading the flash back with a new instance gave {e:?}")),
        }
    }
    Err("more than 255 items on flash".into())
}

fn injected<T>(o: &Out<T>) -> bool {
    matches!(o, Out::Cut(_) | Out::Err(Er::Storage(SimError::Injected)))
}

// ------------------------------------------------------------------ P16

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum BOp {
    /// Length relative to what the RAM buffer can take.
    Enq { len: Len, pat: u8, discard: bool },
    DrainOne { ow: bool },
    DrainAll { ow: bool },
    Pop,
    Peek,
    Fault { arm: Arm },
    /// The next operation gets a buffer of only this many bytes.
    Small { n: u16 },
    Rewrap,
    /// Many tiny items.
    Burst { n: u16, discard: bool },
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct BCase {
    pub combo: u8,
    pub pages: u8,
    pub base: u8,
    pub ops: Vec<BOp>,
}

struct BRun {
    combo: BufCombo,
    g: Geo,
    range: Range<u32>,
    sim: Sim,
    sut: Box<dyn BufSut>,
    flash: Vec<Vec<u8>>,
    ram: VecDeque<Vec<u8>>,
    buf: ABuf,
    uniq: u32,
}

fn show_l<'a>(l: impl IntoIterator<Item = &'a Vec<u8>>) -> String {
    format!("[{}]", l.into_iter().map(|i| show_i(i)).collect::<Vec<_>>().join(", "))
}

impl BRun {
    fn used(&self) -> usize {
        self.ram.iter().map(|i| i.len() + 2).sum()
    }
    fn counters(&self) -> Result<(), String> {
        let c = self.sut.counters();
        let e = (self.combo.n, self.combo.n - self.used(), self.ram.len(), self.used());
        if (c.cap, c.free, c.pending, c.used) != e {
            return Err(format!(
                "RAM counters are {c:?}, but (capacity, free, pending, used) should be {e:?} with {} in RAM",
                show_l(&self.ram)
            ));
        }
        Ok(())
    }
    fn plan(&self, len: usize) -> Plan {
        let m = self.sim.mem();
        plan_push(self.g, &format::parse(self.g, &m[self.range.start as usize..self.range.end as usize]), len)
    }

    fn step(&mut self, op: BOp, small: Option<usize>, st: &mut Stats) -> Result<(), String> {
        self.sim.b().fired = None;
        let full = self.buf.m().len();
        self.buf.m().fill(0x77);
        if let Some(n) = small {
            self.buf.set_len(n.min(full));
        }
        let blen = self.buf.m().len();
        let res = self.step_inner(op, blen, st);
        self.buf.set_len(full);
        res?;
        self.counters()
    }

    fn step_inner(&mut self, op: BOp, blen: usize, st: &mut Stats) -> Result<(), String> {
        match op {
            BOp::Enq { len, pat, discard } => {
                self.uniq += 1;
                let n = self.combo.n;
                let v = value(pat, len.get(n.saturating_sub(2)), self.uniq);
                let accesses = |s: &Sim| {
                    let reads = s.b().n_reads;
                    (reads, s.counts())
                };
                let counts = accesses(&self.sim);
                let ok = self.sut.enqueue(&v, discard);
                if counts != accesses(&self.sim) {
                    return Err("enqueue accessed the flash".into());
                }
                let need = v.len() + 2;
                let should = v.len() <= 0xFFFF && if discard { need <= n } else { self.used() + need <= n };
                if ok != should {
                    return Err(format!(
                        "enqueue of {} bytes (discarding {discard}) into {n} bytes of RAM with {} used was {}",
                        v.len(),
                        self.used(),
                        if ok { "accepted" } else { "refused" }
                    ));
                }
                if ok {
                    while self.used() + need > n {
                        self.ram.pop_front();
                        st.hit("discarded_oldest");
                    }
                    self.ram.push_back(v);
                    st.hit("enqueued");
                } else {
                    st.hit("enqueue_refused");
                }
            }
            BOp::Burst { n, discard } => {
                for i in 0..n {
                    self.step_inner(BOp::Enq { len: Len::Small((i % 3) as u8), pat: 0, discard }, blen, st)?;
                    self.counters()?;
                }
                if self.ram.len() > 255 {
                    st.hit("many_in_ram");
                }
            }
            BOp::DrainOne { ow } => {
                let plan = self.ram.front().map(|i| self.plan(i.len()));
                let o = self.sut.drain_one(self.buf.m(), ow);
                let max_drop = match plan {
                    Some(Plan::Overwrite(d)) if ow => d,
                    _ => 0,
                };
                if let Out::Ok(b) = o {
                    if b == self.ram.is_empty() {
                        return Err(format!("drain_one gave {b} with {} in RAM", show_l(&self.ram)));
                    }
                }
                self.judge_drain(o.map(|_| ()), 1, ow, Some(max_drop), blen, st)?;
            }
            BOp::DrainAll { ow } => {
                let o = self.sut.drain_all(self.buf.m(), ow);
                if o == Out::Ok(()) && self.sut.counters().pending != 0 {
                    return Err("drain_all succeeded but items are still pending in RAM".into());
                }
                self.judge_drain(o, usize::MAX, ow, None, blen, st)?;
            }
            BOp::Pop | BOp::Peek => {
                let is_pop = op == BOp::Pop;
                let name = if is_pop { "pop" } else { "peek" };
                let o = if is_pop { self.sut.pop(self.buf.m()) } else { self.sut.peek(self.buf.m()) };
                let fired = self.sim.b().fired.is_some();
                let now = flash_contents(&self.sim, self.g, &self.range)?;
                let from_flash = !self.flash.is_empty();
                let want = self.flash.first().or(self.ram.front()).cloned();
                match &o {
                    Out::Ok(got) => {
                        if *got != want {
                            return Err(format!(
                                "{name} gave {:02x?} with {} on flash and {} in RAM",
                                got,
                                show_l(&self.flash),
                                show_l(&self.ram)
                            ));
                        }
                        if is_pop && got.is_some() {
                            if from_flash {
                                self.flash.remove(0);
                                st.hit("popped_from_flash");
                            } else {
                                self.ram.pop_front();
                                st.hit("popped_from_ram");
                            }
                        }
                        if now != self.flash {
                            return Err(format!("{name} left {} on flash, expected {}", show_l(&now), show_l(&self.flash)));
                        }
                    }
                    Out::Err(Er::TooSmall(n)) => {
                        let len = want.as_ref().map(|w| w.len());
                        let need = len.map(|l| if from_flash { l.next_multiple_of(self.g.word()) } else { l });
                        // A damaged item left by an interrupted drain has to be read as well to be told from a good one.
                        let damaged = {
                            let m = self.sim.mem();
                            format::parse(self.g, &m[self.range.start as usize..self.range.end as usize])
                                .iter()
                                .flat_map(|p| &p.items)
                                .filter(|i| i.state == format::IState::Bad)
                                .map(|i| i.len.next_multiple_of(self.g.word()))
                                .max()
                        };
                        if need.max(damaged).is_none_or(|l| l <= blen) || *n <= blen {
                            return Err(format!("{name} with {blen} bytes of buffer gave {o:?}, the oldest item has {len:?} bytes"));
                        }
                        if now != self.flash {
                            return Err(format!("refused {name} changed the flash to {}", show_l(&now)));
                        }
                        st.hit("buffer_too_small");
                    }
                    o if fired && injected(o) => {
                        let popped = is_pop && from_flash && now == self.flash[1..];
                        if now != self.flash && !popped {
                            return Err(format!("interrupted {name} left {} on flash, had {}", show_l(&now), show_l(&self.flash)));
                        }
                        self.flash = now;
                        st.hit("interrupted_pop");
                    }
                    o => return Err(format!("{name} gave {o:?}")),
                }
            }
            BOp::Fault { arm } => self.sim.b().arm = Some(arm),
            BOp::Rewrap => {
                self.sut.rewrap();
                self.ram.clear();
                st.hit("rewrapped");
            }
            BOp::Small { .. } => {}
        }
        Ok(())
    }

    fn judge_drain(
        &mut self,
        o: Out<()>,
        most: usize,
        ow: bool,
        max_drop: Option<usize>,
        blen: usize,
        st: &mut Stats,
    ) -> Result<(), String> {
        let fired = self.sim.b().fired.is_some();
        let cut = fired && injected(&o);
        let left = self.sut.counters().pending;
        let ctx = |me: &Self, s: &str, now: &[Vec<u8>]| {
            format!(
                "draining (overwrite {ow}) gave {o:?} {s}: before {} on flash and {} in RAM, after {} on flash and {left} in RAM",
                show_l(&me.flash),
                show_l(&me.ram),
                show_l(now)
            )
        };
        let now = flash_contents(&self.sim, self.g, &self.range)?;
        if left > self.ram.len() || self.ram.len() - left > most {
            return Err(ctx(self, "and the number of items in RAM is wrong", &now));
        }
        let j = self.ram.len() - left;
        // The flash holds what it held, less the oldest if that was allowed, then what was drained, and
        // after an interruption possibly also the item that is still in RAM.
        let mut all: Vec<Vec<u8>> = self.flash.clone();
        all.extend(self.ram.iter().take(j).cloned());
        let with_dup: Option<Vec<Vec<u8>>> = (cut && left > 0).then(|| {
            let mut a = all.clone();
            a.push(self.ram[j].clone());
            a
        });
        let most_dropped = if ow { max_drop.unwrap_or(usize::MAX) } else { 0 };
        let mut dropped = None;
        for a in [Some(&all), with_dup.as_ref()].into_iter().flatten() {
            if a.ends_with(&now) {
                let d = a.len() - now.len();
                if d <= most_dropped {
                    dropped = Some(d);
                }
            }
        }
        let Some(d) = dropped else {
            return Err(ctx(self, "and lost, reordered or invented items", &now));
        };
        match &o {
            Out::Ok(()) => {
                if max_drop.is_some_and(|m| d != m) {
                    return Err(ctx(self, "and dropped another number of old items than needed", &now));
                }
            }
            Out::Err(Er::Full) => {
                if ow || left == 0 {
                    return Err(ctx(self, "although that cannot be", &now));
                }
                if !matches!(self.plan(self.ram[j].len()), Plan::Overwrite(_)) {
                    return Err(ctx(self, "although the next item fits", &now));
                }
                st.hit("drain_full");
            }
            Out::Err(Er::ItemTooBig) => {
                if left == 0 || self.ram[j].len() <= self.g.max_data() {
                    return Err(ctx(self, "although the next item is not too big", &now));
                }
                st.hit("drain_too_big");
            }
            Out::Err(Er::TooSmall(n)) => {
                if left == 0 || self.ram[j].len() <= blen || *n <= blen {
                    return Err(ctx(self, &format!("although the buffer has {blen} bytes"), &now));
                }
                st.hit("buffer_too_small");
            }
            _ if cut => st.hit("interrupted_drain"),
            _ => return Err(ctx(self, "", &now)),
        }
        if j > 0 {
            st.hit("drained");
        }
        if d > 0 {
            st.hit("drain_overwrote");
        }
        self.ram.drain(..j);
        self.flash = now;
        Ok(())
    }
}

fn buffered(c: &BCase, st: &mut Stats) -> Result<(), String> {
    let cs = combos::buffered();
    let combo = cs[c.combo as usize % cs.len()];
    let g = combo.geo;
    let (sim, range) = flash_for(g, c.base as usize, c.pages as usize);
    let sut = (combo.buf)(sim.clone(), range.clone());
    let mut b = BRun {
        combo, g, range, sim, sut,
        flash: vec![],
        ram: VecDeque::new(),
        buf: ABuf::new(g.e.max(combo.n).max(64)),
        uniq: 0,
    };
    let mut small = None;
    for (i, op) in c.ops.iter().enumerate() {
        let s = small.take();
        if let BOp::Small { n } = op {
            small = Some(*n as usize);
        }
        b.step(*op, s, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        if crate::runner::trace() {
            eprintln!("{op:?} -> flash {} ram {}", show_l(&b.flash), show_l(&b.ram));
        }
    }
    b.sim.b().arm = None;
    st.nontrivial = st.get("enqueued") > 0 && st.get("drained") > 0;
    // Everything comes out in the end.
    while !b.flash.is_empty() || !b.ram.is_empty() {
        b.step(BOp::Peek, None, st).map_err(|e| format!("at the end: {e}"))?;
        b.step(BOp::Pop, None, st).map_err(|e| format!("at the end: {e}"))?;
    }
    b.step(BOp::Pop, None, st).map_err(|e| format!("at the end: {e}"))
}

fn ram_len() -> impl Strategy<Value = Len> {
    prop_oneof![
        1 => (65530u16..=65535).prop_map(Len::Exact),
        40 => (0u8..14).prop_map(Len::Small),
        16 => (0u16..=u16::MAX).prop_map(Len::Frac),
        8 => (-3i8..=2).prop_map(Len::Top),
    ]
}

fn bop_strat(faults: bool) -> BoxedStrategy<BOp> {
    let enq = (ram_len(), any::<u8>(), prop::bool::weighted(0.4)).prop_map(|(len, pat, discard)| BOp::Enq { len, pat, discard });
    let base = prop_oneof![
        20 => enq,
        6 => any::<bool>().prop_map(|ow| BOp::DrainOne { ow }),
        3 => any::<bool>().prop_map(|ow| BOp::DrainAll { ow }),
        8 => Just(BOp::Pop),
        3 => Just(BOp::Peek),
        3 => prop_oneof![0u16..16, 0u16..70].prop_map(|n| BOp::Small { n }),
        1 => prop::bool::weighted(0.2).prop_map(|b| if b { BOp::Rewrap } else { BOp::Peek }),
    ];
    if faults {
        prop_oneof![
            15 => base,
            2 => arm_strat(vec![FaultKind::Cancel, FaultKind::IoError], vec![FaultOn::Mutation, FaultOn::Any])
                .prop_map(|arm| BOp::Fault { arm }),
        ]
        .boxed()
    } else {
        base.boxed()
    }
}

pub fn p16() -> Check {
    let strat = |faults: bool| {
        (
            prop_oneof![19 => 0u8..9, 1 => 0u8..combos::buffered().len() as u8],
            prop_oneof![1 => Just(1u8), 4 => 1u8..=5],
            0u8..2,
            proptest::collection::vec(bop_strat(faults), 1..60),
        )
            .prop_map(|(combo, pages, base, ops)| BCase { combo, pages, base, ops })
    };
    Check {
        id: "P16",
        level: "exploration",
        rule: "a history counts when something was enqueued and something was drained to flash; the contents of both parts are compared after every operation and everything is popped at the end",
        assumptions: &[
            "flash contents after a drain are read with a fresh uncached instance on a copy of the flash (that queue is decided by P05 and P07)",
            "an interrupted drain may leave the item both on flash and in RAM",
        ],
        must_hit: &["drained", "discarded_oldest", "enqueue_refused", "popped_from_flash", "popped_from_ram", "drain_full", "drain_overwrote", "buffer_too_small", "interrupted_drain", "many_in_ram"],
        phases: vec![
            phase("plain", 60_000, move || strat(false), buffered),
            phase("faults", 60_000, move || strat(true), buffered),
            phase("hundreds of items", 120, || {
                let op = prop_oneof![
                    3 => (0u16..330, any::<bool>()).prop_map(|(n, discard)| BOp::Burst { n, discard }),
                    8 => bop_strat(true),
                ];
                (8u8..10, 1u8..=4, 0u8..2, proptest::collection::vec(op, 1..20))
                    .prop_map(|(combo, pages, base, ops)| BCase { combo, pages, base, ops })
            }, buffered),
        ],
    }
}

// ------------------------------------------------------------------ P17

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum ROp {
    Enq { len: Len, discard: bool },
    Task { t: u8, ow: bool, small: Option<u8> },
    /// Poll the waiter, enqueue, poll again.
    Probe { len: Len, discard: bool },
    Fault { arm: Arm },
}

/// What happens at a suspension point of the running task.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    Nothing,
    Enq { len: Len, discard: bool },
    Cancel,
}

/// An interrupt that enqueues when the running task leaves a critical section.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Isr {
    /// Critical sections to let pass first.
    pub gap: u8,
    pub len: Len,
    pub discard: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct RCase {
    pub combo: u8,
    pub pages: u8,
    /// Suspend at every n-th flash access.
    pub yield_every: u8,
    pub ops: Vec<ROp>,
    /// Consumed one per suspension point, over the whole history.
    pub acts: Vec<Act>,
    pub isrs: Vec<Isr>,
}

/// Producers' side of the model: what was accepted and what is in the ring.
struct Ring {
    n: usize,
    items: Vec<Vec<u8>>,
    evicted: Vec<bool>,
    /// Left the ring other than by being evicted.
    consumed: Vec<usize>,
    ring: VecDeque<usize>,
    signalled: bool,
    uniq: u32,
    err: Option<String>,
    evictions: u64,
}

impl Ring {
    fn used(&self) -> usize {
        self.ring.iter().map(|i| self.items[*i].len() + 2).sum()
    }
    fn fail(&mut self, s: String) {
        self.err.get_or_insert(s);
    }
    /// Account for what the consumer took since the last look, and compare the counters.
    fn sync(&mut self, v: &dyn RingView) {
        let (cap, free, pending, oldest) = v.look();
        if pending > self.ring.len() {
            return self.fail(format!("{pending} items are pending, at most {} can be", self.ring.len()));
        }
        while self.ring.len() > pending {
            let i = self.ring.pop_front().unwrap();
            self.consumed.push(i);
        }
        let want = (self.n, self.n - self.used(), self.ring.front().map(|i| self.items[*i].len()));
        if (cap, free, oldest) != want {
            self.fail(format!(
                "(capacity, free, oldest length) are {:?}, should be {want:?} with {pending} pending",
                (cap, free, oldest)
            ));
        }
    }
    /// Whether it was accepted.
    fn enq(&mut self, v: &dyn RingView, len: Len, discard: bool) -> bool {
        self.sync(v);
        self.uniq += 1;
        // Unique contents, so that every item can be told from every other.
        let mut d = (self.uniq as u16).to_le_bytes().to_vec();
        d.resize(len.get(self.n.saturating_sub(2)).max(2), 0xC3);
        let ok = v.enqueue(&d, discard);
        let need = d.len() + 2;
        let should = d.len() <= 0xFFFF && if discard { need <= self.n } else { self.used() + need <= self.n };
        if ok != should {
            self.fail(format!(
                "enqueue of {} bytes (discarding {discard}) with {} of {} bytes used was {}",
                d.len(),
                self.used(),
                self.n,
                if ok { "accepted" } else { "refused" }
            ));
            return ok;
        }
        if ok {
            while self.used() + need > self.n {
                let i = self.ring.pop_front().unwrap();
                self.evicted[i] = true;
                self.evictions += 1;
            }
            self.items.push(d);
            self.evicted.push(false);
            self.ring.push_back(self.items.len() - 1);
            self.signalled = true;
        }
        self.sync(v);
        ok
    }
}

/// Everything that ever reached the flash, oldest first; what is still there starts at `head`.
#[derive(Default)]
struct Log {
    ids: Vec<usize>,
    head: usize,
    /// An interrupted drain left this item both on flash and in RAM.
    again: Option<usize>,
}

impl Log {
    /// Number of old items missing if `seq` is what is left of the flash plus newly drained items.
    fn explain(&self, seq: &[usize]) -> Option<usize> {
        (self.head..=self.ids.len()).find_map(|h| {
            let fresh = seq.strip_prefix(&self.ids[h..])?;
            let mut prev = self.ids.last().copied();
            for f in fresh {
                let ok = prev.is_none_or(|p| *f > p || (*f == p && self.again == Some(p)));
                if !ok {
                    return None;
                }
                prev = Some(*f);
            }
            Some(h - self.head)
        })
    }
    fn accept(&mut self, seq: &[usize], dropped: usize) {
        let old = self.ids.len() - self.head - dropped;
        self.head += dropped;
        self.ids.extend(&seq[old..]);
    }
}

fn shared(c: &RCase, st: &mut Stats) -> Result<(), String> {
    let cs = combos::buffered();
    let combo = cs[c.combo as usize % cs.len()];
    let g = combo.geo;
    let (sim, range) = flash_for(g, 0, c.pages as usize);
    let mut sut: Box<dyn RingSut> = (combo.ring)(sim.clone(), range.clone());
    sim.b().yield_every = c.yield_every as u32;
    let mut buf = ABuf::new(g.e.max(combo.n).max(64));
    let full = buf.m().len();
    let ring = RefCell::new(Ring {
        n: combo.n,
        items: vec![],
        evicted: vec![],
        consumed: vec![],
        ring: VecDeque::new(),
        signalled: false,
        uniq: 0,
        err: None,
        evictions: 0,
    });
    let mut log = Log::default();
    let mut acts = c.acts.iter();
    let mut isrs = c.isrs.iter().peekable();
    let mut gap = 0u8;
    let mut ops: Vec<ROp> = c.ops.clone();
    // In the end everything is drained without overwriting, as far as it fits.
    ops.push(ROp::Task { t: 1, ow: false, small: None });
    let last = ops.len() - 1;
    let mut any_inside = 0u64;
    for (n, op) in ops.iter().enumerate() {
        let ctx = |e: String| format!("operation {n} {op:?}: {e}");
        if n == last {
            sim.b().arm = None;
        }
        match *op {
            ROp::Enq { len, discard } => {
                ring.borrow_mut().enq(sut.view(), len, discard);
            }
            ROp::Fault { arm } => sim.b().arm = Some(arm),
            ROp::Probe { len, discard } => {
                let v = sut.view();
                let before = ring.borrow().signalled;
                let mut accepted = false;
                let (first, woken, after) =
                    v.wait_probe(&mut || accepted = ring.borrow_mut().enq(v, len, discard));
                let bad = if before { !first } else { first || woken != accepted || after != accepted };
                if bad {
                    return Err(ctx(format!(
                        "waiter: signalled before {before}, ready at first {first}, enqueue accepted {accepted}, woken {woken}, ready afterwards {after}"
                    )));
                }
                st.hit(if before { "waiter_ready_at_once" } else if woken { "waiter_woken" } else { "waiter_kept_waiting" });
                ring.borrow_mut().signalled = false;
            }
            ROp::Task { t, ow, small } => {
                let task = [Task::DrainOne, Task::DrainAll, Task::WaitDrainAll, Task::Pop, Task::Peek][t as usize % 5];
                sim.b().fired = None;
                if let Some(s) = small {
                    buf.set_len((s as usize).min(full));
                }
                let blen = buf.m().len();
                let (plan, start_front, start_evictions) = {
                    let mut r = ring.borrow_mut();
                    r.sync(sut.view());
                    let plan = r.ring.front().map(|i| {
                        let m = sim.mem();
                        plan_push(g, &format::parse(g, &m[range.start as usize..range.end as usize]), r.items[*i].len())
                    });
                    (plan, r.ring.front().copied(), r.evictions)
                };
                let waiting = {
                    let mut r = ring.borrow_mut();
                    let s = std::mem::take(&mut r.signalled);
                    if task != Task::WaitDrainAll {
                        r.signalled = s;
                    }
                    Cell::new(task == Task::WaitDrainAll && !s)
                };
                if waiting.get() {
                    st.hit("had_to_wait");
                }
                let inside = Cell::new(0u64);
                let isr_inside = Cell::new(0u64);
                let at_start = ring.borrow().items.len();
                // Items that exist when the task last started running.
                let poll_start = Cell::new(ring.borrow().items.len());
                let mut idle = 0u64;
                let mut between = |v: &dyn RingView| {
                    let mut r = ring.borrow_mut();
                    r.sync(v);
                    let stop = match acts.next() {
                        // Nobody is left to wake it up.
                        None if waiting.get() && !r.signalled => true,
                        None => {
                            idle += 1;
                            if idle > 1_000_000 {
                                r.fail("the task never finishes".into());
                            }
                            idle > 1_000_000
                        }
                        Some(Act::Nothing) => false,
                        Some(Act::Enq { len, discard }) => {
                            r.enq(v, *len, *discard);
                            inside.set(inside.get() + 1);
                            false
                        }
                        Some(Act::Cancel) => n != last,
                    };
                    poll_start.set(r.items.len());
                    if !stop && waiting.get() && r.signalled {
                        // It gets to see the signal now.
                        waiting.set(false);
                        r.signalled = false;
                    }
                    stop
                };
                let mut isr = |v: &dyn RingView| {
                    let Some(i) = isrs.peek() else { return };
                    if gap < i.gap {
                        gap += 1;
                        return;
                    }
                    gap = 0;
                    let i = isrs.next().unwrap();
                    ring.borrow_mut().enq(v, i.len, i.discard);
                    isr_inside.set(isr_inside.get() + 1);
                };
                let out = sut.run(task, buf.m(), ow, &mut between, &mut isr);
                buf.set_len(full);
                let (inside, isr_inside, poll_start) = (inside.get(), isr_inside.get(), poll_start.get());
                let mut r = ring.borrow_mut();
                r.sync(sut.view());
                if let Some(e) = r.err.take() {
                    return Err(ctx(e));
                }
                let fired = sim.b().fired.is_some();
                let cut = matches!(out, Out::Cut(_)) || (fired && injected(&out));
                if waiting.get() && !matches!(out, Out::Cut(_)) {
                    return Err(ctx(format!("gave {out:?} without waiting for an item to be enqueued")));
                }
                let now = flash_contents(&sim, g, &range).map_err(ctx)?;
                let Some(ids) = now
                    .iter()
                    .map(|d| r.items.iter().position(|i| i == d))
                    .collect::<Option<Vec<usize>>>()
                else {
                    return Err(ctx(format!("the flash holds {}, some of it never enqueued", show_l(&now))));
                };
                let had: Vec<usize> = log.ids[log.head..].to_vec();
                let consumed = std::mem::take(&mut r.consumed);
                let ctx = |e: String| {
                    ctx(format!(
                        "gave {out:?} and {e}: flash held items {had:?} and now {ids:?}, {consumed:?} left RAM, {:?} still there",
                        r.ring
                    ))
                };
                // A popped item was on flash right before.
                let mut seq = ids.clone();
                let mut popped = None;
                if let Out::Ok(TaskOut::Item(i)) = &out {
                    match i {
                        Some(i) => {
                            let Some(id) = r.items.iter().position(|x| x == i) else {
                                return Err(ctx("returned something never enqueued".into()));
                            };
                            if task == Task::Pop {
                                seq.insert(0, id);
                                popped = Some(id);
                            } else if ids.first() != Some(&id) {
                                return Err(ctx("peeked at something else than the oldest item".into()));
                            }
                        }
                        None if !ids.is_empty() || r.ring.iter().any(|i| *i < at_start) => {
                            return Err(ctx("found nothing".into()));
                        }
                        None => {}
                    }
                }
                let mut why = log.explain(&seq).map(|d| (d, seq.clone()));
                let unexplained = why.as_ref().is_none_or(|w| w.0 > 0) || consumed.iter().any(|i| !seq.contains(i));
                if task == Task::Pop && cut && !ow && unexplained {
                    // Interrupted right after the oldest item was taken out.
                    if let Some(x) = had.first().or(consumed.first()) {
                        let mut s2 = ids.clone();
                        s2.insert(0, *x);
                        if let Some(d) = log.explain(&s2) {
                            if why.as_ref().is_none_or(|w| d <= w.0) {
                                why = Some((d, s2));
                                popped = Some(*x);
                            }
                        }
                    }
                }
                let Some((dropped, seq)) = why else {
                    return Err(ctx("items were reordered, duplicated or resurrected".into()));
                };
                if !ow && dropped > 0 {
                    return Err(ctx(format!("lost {dropped} items from flash")));
                }
                if task == Task::DrainOne && out == Out::Ok(TaskOut::Drained(true)) && inside + isr_inside == 0 && log.again.is_none() {
                    let need = match plan {
                        Some(Plan::Overwrite(d)) => d,
                        _ => 0,
                    };
                    if dropped != need {
                        return Err(ctx(format!("dropped {dropped} old items, {need} had to go")));
                    }
                }
                log.accept(&seq, dropped);
                if popped.is_some() {
                    log.head += 1;
                    st.hit("popped");
                }
                // Nothing leaves the ring without reaching the flash.
                for i in &consumed {
                    // (If allowed, it may have been overwritten by a later one already.)
                    let gone = ow && (seq.first().is_some_and(|s| i < s) || (ids.is_empty() && cut));
                    if !log.ids.contains(i) && !gone {
                        return Err(ctx(format!("item {i} was neither written nor discarded")));
                    }
                }
                match &out {
                    Out::Ok(TaskOut::Drained(b)) => {
                        if *b != start_front.is_some() {
                            return Err(ctx("started with the opposite".into()));
                        }
                        if let (true, Some(f)) = (*b, start_front) {
                            if !log.ids.contains(&f) && inside + isr_inside == 0 && log.again.is_none() {
                                return Err(ctx(format!("item {f} did not reach the flash")));
                            }
                        }
                    }
                    Out::Ok(TaskOut::Done) => {
                        if r.ring.iter().any(|i| *i < poll_start) {
                            return Err(ctx("items are left in RAM".into()));
                        }
                    }
                    Out::Ok(_) | Out::Cut(_) => {}
                    Out::Err(Er::Full) if !ow && !r.ring.is_empty() => st.hit("drain_full"),
                    Out::Err(Er::ItemTooBig) if r.items.iter().any(|i| i.len() > g.max_data()) => {
                        st.hit("drain_too_big");
                    }
                    Out::Err(Er::TooSmall(k)) if *k > blen => st.hit("buffer_too_small"),
                    _ if cut => {}
                    _ => return Err(ctx("that is not expected".into())),
                }
                log.again = match (log.ids.last(), r.ring.front()) {
                    (Some(a), Some(b)) if a == b => {
                        if !cut && log.again != Some(*a) {
                            return Err(ctx(format!("item {a} is both on flash and in RAM")));
                        }
                        Some(*a)
                    }
                    _ => None,
                };
                any_inside += inside + isr_inside;
                if inside > 0 {
                    st.hit("enqueued_while_suspended");
                }
                if isr_inside > 0 {
                    st.hit("enqueued_by_interrupt");
                }
                if r.evictions > start_evictions {
                    st.hit("discarded_during_task");
                }
                if start_front.is_some_and(|f| r.evicted[f] && log.ids.contains(&f)) {
                    st.hit("discarded_while_being_drained");
                }
                if cut {
                    st.hit("task_interrupted");
                }
                if log.again.is_some() {
                    st.hit("on_flash_and_in_ram");
                }
                if dropped > 0 {
                    st.hit("overwrote");
                }
                if crate::runner::trace() {
                    eprintln!("{op:?} -> {out:?} flash {ids:?} ring {:?} (enqueued meanwhile {inside}+{isr_inside})", r.ring);
                }
            }
        }
        let mut r = ring.borrow_mut();
        r.sync(sut.view());
        if let Some(e) = r.err.take() {
            return Err(ctx(e));
        }
    }
    st.nontrivial = any_inside > 0 && !log.ids.is_empty();
    Ok(())
}

pub fn p17() -> Check {
    let enq = || (ram_len(), prop::bool::weighted(0.5));
    let strat = move |faults: bool| {
        let rop = prop_oneof![
            10 => enq().prop_map(|(len, discard)| ROp::Enq { len, discard }),
            9 => (0u8..5, prop::bool::weighted(0.3), prop::option::weighted(0.06, 0u8..40))
                .prop_map(|(t, ow, small)| ROp::Task { t, ow, small }),
            1 => enq().prop_map(|(len, discard)| ROp::Probe { len, discard }),
        ];
        let rop = if faults {
            prop_oneof![
                15 => rop,
                2 => arm_strat(vec![FaultKind::Cancel, FaultKind::IoError], vec![FaultOn::Mutation, FaultOn::Any])
                    .prop_map(|arm| ROp::Fault { arm }),
            ]
            .boxed()
        } else {
            rop.boxed()
        };
        let act = prop_oneof![
            8 => Just(Act::Nothing),
            8 => enq().prop_map(|(len, discard)| Act::Enq { len, discard }),
            1 => Just(if faults { Act::Cancel } else { Act::Nothing }),
        ];
        let isr = (0u8..12, ram_len(), any::<bool>()).prop_map(|(gap, len, discard)| Isr { gap, len, discard });
        (
            prop_oneof![9 => 0u8..5, 1 => 0u8..combos::buffered().len() as u8],
            prop_oneof![1 => Just(1u8), 4 => 1u8..=5],
            prop_oneof![Just(1u8), 1u8..6, 3u8..30],
            proptest::collection::vec(rop, 1..30),
            proptest::collection::vec(act, 0..40),
            proptest::collection::vec(isr, 0..12),
        )
            .prop_map(|(combo, pages, yield_every, ops, acts, isrs)| RCase { combo, pages, yield_every, ops, acts, isrs })
    };
    Check {
        id: "P17",
        level: "exploration",
        rule: "a history counts when something was enqueued while a task was suspended or interrupted and something reached the flash; after every task every item ever enqueued is accounted for",
        assumptions: &[
            "producers run at suspension points of the consuming task and when it leaves a critical section; between two of those they cannot be told apart",
            "flash contents are read with a fresh uncached instance on a copy of the flash (that queue is decided by P05 and P07)",
            "an interrupted drain may leave the item both on flash and in RAM",
        ],
        must_hit: &[
            "enqueued_while_suspended", "enqueued_by_interrupt", "discarded_during_task", "discarded_while_being_drained",
            "had_to_wait", "waiter_woken", "popped", "drain_full", "overwrote", "task_interrupted", "on_flash_and_in_ram",
        ],
        phases: vec![
            phase("plain", 60_000, move || strat(false), shared),
            phase("faults", 60_000, move || strat(true), shared),
        ],
    }
}
