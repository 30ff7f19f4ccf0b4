//! Queue: operation model, oracle and runner shared by all queue properties.

use crate::format::{self, PState};
use crate::mapx::{Len, arm_strat, base_strat, len_strat, pages_strat, value};
use crate::runner::Stats;
use crate::sim::{ABuf, Access, Arm, Er, FaultKind, FaultOn, Out, Sim, SimError};
use crate::sut::{Ev, Geo, IterPlan, QueueCombo, QueueSut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum QOp {
    Push { len: Len, pat: u8, ow: bool },
    /// Push what `find_max_fit` just reported, plus `d`.
    PushFit { d: u8, pat: u8 },
    Pop,
    /// Pop until nothing is left (at most `n` times).
    PopN { n: u8 },
    Peek,
    Iter { plan: IterPlan },
    MaxFit,
    SpaceLeft,
    Reopen { same_cache: bool },
    EraseAll,
    Fault { arm: Arm },
    Check,
    /// The next operation gets a data buffer of only this many bytes.
    SmallBuf { n: u16 },
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct QCase {
    pub combo: u8,
    pub pages: u16,
    /// Pages before the storage, plus four times the place of the flash in the address space.
    pub base: u8,
    pub ops: Vec<QOp>,
}

#[derive(Clone, Copy)]
pub struct QWeights {
    pub push: u32,
    pub push_ow: u32,
    pub push_fit: u32,
    pub pop: u32,
    pub popn: u32,
    pub peek: u32,
    pub iter: u32,
    pub query: u32,
    pub reopen: u32,
    pub erase_all: u32,
    pub check: u32,
}
pub const QW_FULL: QWeights = QWeights {
    push: 22, push_ow: 12, push_fit: 3, pop: 18, popn: 1, peek: 4, iter: 4, query: 2, reopen: 2, erase_all: 1, check: 1,
};

pub fn plan_strat() -> impl Strategy<Value = IterPlan> {
    (
        prop_oneof![2 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 1 => (0u32..12).prop_map(|n| (1u64 << n) - 1)],
        prop_oneof![3 => Just(255u8), 2 => 0u8..12],
        any::<bool>(),
    )
        .prop_map(|(mask, stop, resume)| IterPlan { mask, stop, resume })
}

pub fn qop_strat(w: QWeights, faults: Option<(u32, Vec<FaultKind>, Vec<FaultOn>)>) -> BoxedStrategy<QOp> {
    let mut v: Vec<(u32, BoxedStrategy<QOp>)> = vec![
        (w.push, (len_strat(), any::<u8>()).prop_map(|(len, pat)| QOp::Push { len, pat, ow: false }).boxed()),
        (w.push_ow, (len_strat(), any::<u8>()).prop_map(|(len, pat)| QOp::Push { len, pat, ow: true }).boxed()),
        (w.push_fit, (0u8..=1, any::<u8>()).prop_map(|(d, pat)| QOp::PushFit { d, pat }).boxed()),
        (w.pop, Just(QOp::Pop).boxed()),
        (w.popn, (0u8..40).prop_map(|n| QOp::PopN { n }).boxed()),
        (w.peek, Just(QOp::Peek).boxed()),
        (w.iter, plan_strat().prop_map(|plan| QOp::Iter { plan }).boxed()),
        (w.query, Just(QOp::MaxFit).boxed()),
        (w.query, Just(QOp::SpaceLeft).boxed()),
        (w.reopen, any::<bool>().prop_map(|same_cache| QOp::Reopen { same_cache }).boxed()),
        (w.erase_all, Just(QOp::EraseAll).boxed()),
        (w.check, Just(QOp::Check).boxed()),
    ];
    if let Some((fw, kinds, on)) = faults {
        v.push((fw, arm_strat(kinds, on).prop_map(|arm| QOp::Fault { arm }).boxed()));
    }
    v.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn qcase_strat(combos: usize, ops: BoxedStrategy<QOp>, max_ops: usize) -> impl Strategy<Value = QCase> {
    (0u8..combos as u8, pages_strat(1), base_strat(), proptest::collection::vec(ops, 1..=max_ops))
        .prop_map(|(combo, pages, base, ops)| QCase { combo, pages: pages.into(), base, ops })
}

pub type World = VecDeque<Vec<u8>>;

/// What the documented rules say about a push, given what is on flash.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Plan {
    TooBig,
    /// Goes on without losing anything.
    Fits,
    /// Only with permission; drops this many of the oldest items.
    Overwrite(usize),
}

#[derive(Debug, Clone, PartialEq)]
pub enum QRes {
    Unit(Out<()>),
    Item(Out<Option<Vec<u8>>>),
    Evs(Vec<Ev>),
    Fit(Out<Option<u32>>),
    Space(Out<u32>),
    Skip,
}

pub struct QRun {
    pub g: Geo,
    pub pages: usize,
    pub start: u32,
    pub sim: Sim,
    pub sut: Box<dyn QueueSut>,
    /// Contents the queue may have (more than one only after an interrupted operation).
    pub worlds: Vec<World>,
    pub buf: ABuf,
    pub combo: QueueCombo,
    pub uniq: u32,
    pub faults_seen: bool,
    pub small: Option<usize>,
    /// Buffer-too-small errors of the last operation.
    pub refused: Vec<Er>,
}

fn show_w(w: &World) -> String {
    let v: Vec<String> = w.iter().map(|i| show_i(i)).collect();
    format!("[{}]", v.join(", "))
}
pub fn show_i(i: &[u8]) -> String {
    if i.len() <= 8 { format!("{i:02x?}") } else { format!("{:02x?}..({} B)", &i[..6], i.len()) }
}

fn injected<T>(o: &Out<T>) -> bool {
    matches!(o, Out::Cut(_) | Out::Err(Er::Storage(SimError::Injected)))
}

impl QRun {
    pub fn new(c: &QCase, combos: &[QueueCombo]) -> Self {
        let combo = combos[c.combo as usize % combos.len()];
        let g = combo.geo;
        let pages = c.pages as usize;
        let base = c.base as usize % 4;
        let start = (base * g.e) as u32;
        let range = start..start + (pages * g.e) as u32;
        let sim = Sim::new(g.r, g.w, g.e, base + pages + 1, vec![range.clone()]);
        sim.place(c.base / 4);
        sim.b().mem[..base * g.e].fill(0x5A);
        sim.b().mem[(base + pages) * g.e..].fill(0x5A);
        Self::on(sim, combo, range)
    }

    /// On (a range of) an existing flash.
    pub fn on(sim: Sim, combo: QueueCombo, range: std::ops::Range<u32>) -> Self {
        let g = combo.geo;
        let start = range.start;
        let pages = range.len() / g.e;
        let sut = (combo.make)(sim.clone(), sim.seen(&range));
        QRun {
            g, pages, start, sim, sut,
            worlds: vec![VecDeque::new()],
            buf: ABuf::new(g.e.max(64)),
            combo,
            uniq: 0,
            faults_seen: false,
            small: None,
            refused: vec![],
        }
    }
    pub fn range(&self) -> std::ops::Range<u32> {
        self.start..self.start + (self.pages * self.g.e) as u32
    }
    pub fn image(&self) -> Vec<u8> {
        let r = self.range();
        self.sim.b().mem[r.start as usize..r.end as usize].to_vec()
    }
    pub fn restart(&mut self) {
        self.sut = (self.combo.make)(self.sim.clone(), self.sim.seen(&self.range()));
    }
    pub fn fork_restarted(&self) -> QRun {
        let range = self.range();
        let sim = Sim::new(self.g.r, self.g.w, self.g.e, self.sim.b().mem.len() / self.g.e, vec![range.clone()]);
        {
            let s = self.sim.b();
            let mut n = sim.b();
            n.mem = s.mem.clone();
            n.origin = s.origin;
            n.torn = s.torn.clone();
            n.writes = s.writes.clone();
        }
        let sut = (self.combo.make)(sim.clone(), sim.seen(&range));
        QRun {
            g: self.g, pages: self.pages, start: self.start, sim, sut,
            worlds: self.worlds.clone(),
            buf: ABuf::new(self.g.e.max(64)),
            combo: self.combo,
            uniq: self.uniq,
            faults_seen: self.faults_seen,
            small: None,
            refused: vec![],
        }
    }
    pub fn parsed(&self) -> Vec<format::Page> {
        format::parse(self.g, &self.image())
    }

    pub fn plan(&self, len: usize) -> Plan {
        plan_push(self.g, &self.parsed(), len)
    }

    pub fn value_for(&self, len: Len, pat: u8) -> Vec<u8> {
        value(pat, len.get(self.g.max_data()), self.uniq)
    }

    fn filter(&mut self, f: impl FnMut(&World) -> Vec<World>, what: impl Fn() -> String) -> Result<(), String> {
        let next: Vec<World> = self.worlds.iter().flat_map(f).collect();
        if next.is_empty() {
            return Err(format!(
                "{}; the queue should hold {}",
                what(),
                self.worlds.iter().take(4).map(show_w).collect::<Vec<_>>().join(" or ")
            ));
        }
        let mut out: Vec<World> = vec![];
        for w in next {
            if !out.contains(&w) {
                out.push(w);
            }
        }
        self.worlds = out;
        Ok(())
    }

    pub fn exec(&mut self, op: &QOp) -> QRes {
        self.sim.b().fired = None;
        self.refused.clear();
        let full = self.buf.m().len();
        if let Some(n) = self.small.take_if(|_| !matches!(op, QOp::SmallBuf { .. })) {
            self.buf.m().fill(0x77);
            self.buf.set_len(n.min(full));
        }
        let r = self.exec_inner(op);
        self.buf.set_len(full);
        r
    }

    fn exec_inner(&mut self, op: &QOp) -> QRes {
        match *op {
            QOp::Push { len, pat, ow } => {
                self.uniq += 1;
                let v = self.value_for(len, pat);
                QRes::Unit(self.sut.push(&v, ow))
            }
            QOp::PushFit { .. } | QOp::PopN { .. } | QOp::Check => QRes::Skip,
            QOp::Pop => QRes::Item(self.sut.pop(self.buf.m())),
            QOp::Peek => QRes::Item(self.sut.peek(self.buf.m())),
            QOp::Iter { plan } => QRes::Evs(self.sut.iter(plan, self.buf.m())),
            QOp::MaxFit => QRes::Fit(self.sut.max_fit()),
            QOp::SpaceLeft => QRes::Space(self.sut.space_left()),
            QOp::Reopen { same_cache } => {
                self.sut.reopen(same_cache);
                QRes::Skip
            }
            QOp::EraseAll => {
                self.sim.b().arm = None;
                QRes::Unit(self.sut.erase_all())
            }
            QOp::Fault { arm } => {
                self.sim.b().arm = Some(arm);
                QRes::Skip
            }
            QOp::SmallBuf { n } => {
                self.small = Some(n as usize);
                QRes::Skip
            }
        }
    }

    pub fn step(&mut self, op: &QOp, st: &mut Stats) -> Result<(), String> {
        match *op {
            QOp::Check => {
                self.small = None;
                return self.check_all(st);
            }
            QOp::PopN { n } => {
                for _ in 0..n {
                    let before = self.worlds.iter().all(|w| w.is_empty());
                    self.step(&QOp::Pop, st)?;
                    if before {
                        break;
                    }
                }
                return Ok(());
            }
            QOp::PushFit { d, pat } => {
                let o = self.exec(&QOp::MaxFit);
                if self.after_fault(st) && matches!(&o, QRes::Fit(f) if injected(f)) {
                    return Ok(());
                }
                if let QRes::Fit(Out::Ok(m)) = &o {
                    let m = *m;
                    self.judge(&QOp::MaxFit, o, Plan::Fits, st)?;
                    let (len, must) = match (m, d) {
                        (Some(m), 0) => (m as usize, true),
                        (Some(m), _) => (m as usize + 1, false),
                        (None, _) => (0, false),
                    };
                    self.uniq += 1;
                    let v = value(pat, len, self.uniq);
                    let r = self.sut.push(&v, false);
                    if crate::runner::trace() {
                        let f = self.sim.b().fired;
                        crate::runner::trace_pages("queue", &format!("push {len}"), &format!("{r:02x?} fault {f:?}"), &self.parsed());
                    }
                    let fired = self.after_fault(st);
                    match (&r, must) {
                        (Out::Ok(()), true) => {
                            st.hit("push_max_fit_ok");
                            self.filter(|w| { let mut w = w.clone(); w.push_back(v.clone()); vec![w] }, || unreachable!())?;
                        }
                        (Out::Err(Er::Full | Er::ItemTooBig), false) => st.hit("push_above_max_fit_refused"),
                        (o, _) if injected(o) && fired => {
                            let keep = |w: &World| { let mut x = w.clone(); x.push_back(v.clone()); vec![w.clone(), x] };
                            self.filter(keep, || unreachable!())?;
                        }
                        _ => {
                            return Err(format!(
                                "find_max_fit reported {m:?}, but pushing {len} bytes without overwrite gave {r:?}"
                            ));
                        }
                    }
                    return Ok(());
                }
                return self.judge(&QOp::MaxFit, o, Plan::Fits, st);
            }
            QOp::Reopen { .. } => st.hit("reopen"),
            _ => {}
        }
        let plan = match *op {
            QOp::Push { len, .. } => self.plan(len.get(self.g.max_data())),
            _ => Plan::Fits,
        };
        let e0 = self.sim.b().n_erases;
        let space_before = matches!(op, QOp::SpaceLeft).then(|| self.expect_space());
        let small = self.small.filter(|_| !matches!(op, QOp::SmallBuf { .. }));
        let mut res = self.exec(op);
        if crate::runner::trace() {
            let f = self.sim.b().fired;
            crate::runner::trace_pages("queue", &format!("{op:?}"), &format!("{res:02x?} fault {f:?}"), &self.parsed());
        }
        // The driver's error is the caller's to know about.
        let f = self.sim.b().fired;
        if f.is_some_and(|f| f.kind == FaultKind::IoError)
            && !match &res {
                QRes::Unit(o) => injected(o),
                QRes::Item(o) => injected(o),
                QRes::Fit(o) => injected(o),
                QRes::Space(o) => injected(o),
                QRes::Evs(e) => e.iter().any(|e| match e {
                    Ev::PopFail(o) | Ev::NextFail(o) | Ev::NewFail(o) => injected(o),
                    _ => false,
                }),
                QRes::Skip => true,
            }
        {
            return Err(format!("a flash error was not reported: {f:?}, result {res:02x?}"));
        }
        if small.is_some() {
            match &mut res {
                // A refused call must not have done anything.
                QRes::Item(Out::Err(e)) if e.is_buffer() => {
                    st.hit("refused_small_buffer");
                    self.refused.push(e.clone());
                    self.after_fault(st);
                    return Ok(());
                }
                QRes::Evs(evs) => {
                    let refused = &mut self.refused;
                    evs.retain(|e| match e {
                        Ev::NextFail(Out::Err(e)) if e.is_buffer() => {
                            refused.push(e.clone());
                            false
                        }
                        _ => true,
                    });
                    if !self.refused.is_empty() {
                        st.hit("refused_small_buffer");
                    }
                }
                QRes::Item(_) => st.hit("small_buffer_accepted"),
                _ => {}
            }
        }
        if self.sim.b().n_erases > e0 && !matches!(op, QOp::EraseAll) {
            st.hit("op_with_erase");
        }
        if let (QRes::Space(Out::Ok(n)), Some(e)) = (&res, space_before) {
            // A single closed page is about to be erased by the repair of an interrupted push.
            let pages = self.parsed();
            let limbo = pages.len() == 1 && matches!(pages[0].state, PState::Closed);
            if *n as usize != e && !(limbo && *n as usize == self.g.cap()) {
                return Err(format!("space_left gave {n}, but {e} bytes are unwritten or reclaimable"));
            }
            st.hit("space_left_ok");
        }
        self.judge(op, res, plan, st)?;
        Ok(())
    }

    /// Bytes that are unwritten, or on pages whose items are all removed.
    pub fn expect_space(&self) -> usize {
        let pages = self.parsed();
        pages
            .iter()
            .map(|p| {
                let empty = p.valid().next().is_none();
                match p.state {
                    PState::Open | PState::Broken => self.g.cap(),
                    PState::Closed => if empty { self.g.cap() } else { 0 },
                    PState::Partial => {
                        if p.room(self.g).is_none() && empty { self.g.cap() } else { self.g.e - self.g.word() - p.free }
                    }
                }
            })
            .sum()
    }

    /// Bookkeeping after an operation in which a fault may have fired.
    fn after_fault(&mut self, st: &mut Stats) -> bool {
        let fired = self.sim.b().fired.take();
        if let Some(f) = fired {
            self.faults_seen = true;
            st.hit("fault_fired");
            st.hit(match f.access {
                Access::Read { .. } => "fault_in_read",
                Access::Write { .. } => "fault_in_write",
                Access::Erase { .. } => "fault_in_erase",
            });
            if f.kind == FaultKind::PowerLoss {
                self.restart();
            }
            self.sim.b().interrupted = false;
        }
        fired.is_some()
    }

    fn judge(&mut self, op: &QOp, res: QRes, plan: Plan, st: &mut Stats) -> Result<(), String> {
        let fired = self.after_fault(st);
        match (*op, res) {
            (QOp::Push { len, pat, ow }, QRes::Unit(o)) => {
                let v = self.value_for(len, pat);
                let d = if let Plan::Overwrite(d) = plan { d } else { 0 };
                match (o, plan) {
                    (Out::Ok(()), Plan::TooBig) => {
                        return Err(format!("push of {} bytes succeeded although no page can hold it", v.len()));
                    }
                    (Out::Ok(()), Plan::Overwrite(_)) if !ow => {
                        return Err(format!("push of {} bytes without overwrite succeeded on a full queue", v.len()));
                    }
                    (Out::Ok(()), _) => {
                        st.hit(if d > 0 { "push_overwrote" } else { "push_ok" });
                        self.filter(
                            |w| {
                                if w.len() < d {
                                    return vec![];
                                }
                                let mut w: World = w.iter().skip(d).cloned().collect();
                                w.push_back(v.clone());
                                vec![w]
                            },
                            || format!("push overwrote {d} items"),
                        )?;
                    }
                    (Out::Err(Er::ItemTooBig), Plan::TooBig) => st.hit("push_too_big"),
                    (Out::Err(Er::Full), Plan::Overwrite(_)) if !ow => st.hit("push_full"),
                    (o, _) if injected(&o) && fired => {
                        let dmax = if ow { d } else { 0 };
                        let pushable = plan != Plan::TooBig;
                        self.filter(
                            |w| {
                                let mut out = vec![];
                                for n in 0..=dmax.min(w.len()) {
                                    let mut x: World = w.iter().skip(n).cloned().collect();
                                    out.push(x.clone());
                                    if n == dmax && pushable {
                                        x.push_back(v.clone());
                                        out.push(x);
                                    }
                                }
                                out
                            },
                            || unreachable!(),
                        )?;
                    }
                    (o, p) => {
                        return Err(format!(
                            "push of {} bytes (overwrite {ow}) gave {o:?}; by what is on flash it should be {p:?}",
                            v.len()
                        ));
                    }
                }
            }
            (QOp::Pop | QOp::Peek, QRes::Item(o)) => {
                let is_pop = matches!(op, QOp::Pop);
                let name = if is_pop { "pop" } else { "peek" };
                match o {
                    Out::Ok(Some(i)) => {
                        st.hit(if is_pop { "pop_some" } else { "peek_some" });
                        self.filter(
                            |w| {
                                if w.front() != Some(&i) {
                                    return vec![];
                                }
                                let mut w = w.clone();
                                if is_pop {
                                    w.pop_front();
                                }
                                vec![w]
                            },
                            || format!("{name} returned {}", show_i(&i)),
                        )?;
                    }
                    Out::Ok(None) => {
                        st.hit("queue_empty");
                        self.filter(
                            |w| if w.is_empty() { vec![w.clone()] } else { vec![] },
                            || format!("{name} found nothing"),
                        )?;
                    }
                    o if injected(&o) && fired => {
                        if is_pop {
                            self.filter(
                                |w| {
                                    let mut x = w.clone();
                                    x.pop_front();
                                    vec![w.clone(), x]
                                },
                                || unreachable!(),
                            )?;
                        }
                    }
                    o => return Err(format!("{name} failed with {o:?}")),
                }
            }
            (QOp::Iter { plan }, QRes::Evs(evs)) => {
                st.hit("iter");
                self.judge_iter(plan, &evs, fired, st)?;
            }
            (QOp::MaxFit, QRes::Fit(o)) => match o {
                Out::Ok(m) => {
                    st.hit("max_fit_ok");
                    let ok = |l: usize| matches!(self.plan(l), Plan::Fits);
                    let bad = match m {
                        Some(m) => !ok(m as usize) || ok(m as usize + 1),
                        None => ok(0),
                    };
                    if bad {
                        return Err(format!(
                            "find_max_fit gave {m:?}; by what is on flash that size would be {:?} and one more {:?}",
                            self.plan(m.unwrap_or(0) as usize),
                            self.plan(m.map_or(0, |m| m as usize + 1)),
                        ));
                    }
                }
                o if injected(&o) && fired => {}
                o => return Err(format!("find_max_fit failed with {o:?}")),
            },
            (QOp::SpaceLeft, QRes::Space(o)) => match o {
                Out::Ok(_) => {}
                o if injected(&o) && fired => {}
                o => return Err(format!("space_left failed with {o:?}")),
            },
            (QOp::EraseAll, QRes::Unit(o)) => match o {
                Out::Ok(()) => {
                    st.hit("erase_all");
                    self.worlds = vec![VecDeque::new()];
                }
                o => return Err(format!("erase_all gave {o:?}")),
            },
            (QOp::Reopen { .. } | QOp::Fault { .. } | QOp::SmallBuf { .. }, QRes::Skip) => {}
            (op, r) => panic!("harness: {op:?} {r:?}"),
        }
        Ok(())
    }

    pub fn judge_iter(&mut self, plan: IterPlan, evs: &[Ev], fired: bool, st: &mut Stats) -> Result<(), String> {
        // (contents, position of the next entry to be yielded, position of the entry just yielded)
        let mut cur: Vec<(World, usize)> = self.worlds.iter().map(|w| (w.clone(), 0)).collect();
        for (n, ev) in evs.iter().enumerate() {
            let mut next: Vec<(World, usize)> = vec![];
            for (w, p) in &cur {
                match ev {
                    Ev::Item(d) => {
                        if w.get(*p) == Some(d) {
                            next.push((w.clone(), p + 1));
                        }
                    }
                    Ev::Popped(same) => {
                        if !same {
                            return Err("popping an iterator entry returned other bytes than the entry".into());
                        }
                        st.hit("iter_pop");
                        let mut w = w.clone();
                        w.remove(p - 1);
                        next.push((w, p - 1));
                    }
                    Ev::PopFail(o) if fired && injected(o) => {
                        let mut x = w.clone();
                        x.remove(p - 1);
                        next.push((w.clone(), *p));
                        next.push((x, p - 1));
                    }
                    Ev::NextFail(o) | Ev::NewFail(o) if fired && injected(o) => next.push((w.clone(), *p)),
                    Ev::End => {
                        if *p == w.len() {
                            next.push((w.clone(), *p));
                        }
                    }
                    Ev::PopFail(o) | Ev::NextFail(o) | Ev::NewFail(o) => {
                        return Err(format!("iteration step {n} failed with {o:?}"));
                    }
                }
            }
            if next.is_empty() {
                return Err(format!(
                    "iteration (plan {plan:?}) step {n} gave {}; the queue should hold {} with position {}",
                    match ev {
                        Ev::Item(d) => show_i(d),
                        e => format!("{e:?}"),
                    },
                    show_w(&cur[0].0),
                    cur[0].1
                ));
            }
            next.dedup();
            cur = next;
        }
        let mut out: Vec<World> = vec![];
        for (w, _) in cur {
            if !out.contains(&w) {
                out.push(w);
            }
        }
        self.worlds = out;
        Ok(())
    }

    /// Undisturbed observation of everything.
    pub fn check_all(&mut self, st: &mut Stats) -> Result<(), String> {
        self.sim.b().arm = None;
        self.step(&QOp::Peek, st)?;
        self.step(&QOp::Iter { plan: IterPlan { mask: 0, stop: 255, resume: false } }, st)?;
        self.step(&QOp::MaxFit, st)?;
        self.step(&QOp::SpaceLeft, st)?;
        if self.worlds.len() > 1 {
            return Err("harness: ambiguity left after a full observation".into());
        }
        Ok(())
    }
}

/// The documented placement rule, applied to a decoded image.
pub fn plan_push(g: Geo, pages: &[format::Page], len: usize) -> Plan {
    if len > g.max_data() {
        return Plan::TooBig;
    }
    let mut pages = pages.to_vec();
    for p in &mut pages {
        if p.state == PState::Broken {
            // Will be erased by the repair.
            p.state = PState::Open;
            p.items.clear();
            p.free = g.word();
        }
    }
    let n = pages.len();
    let Some(y) = format::youngest(&pages) else { return Plan::Fits };
    let cur = &pages[y];
    let room = if cur.state == PState::Open && cur.blank { Some(g.max_data()) } else { cur.room(g) };
    if room.is_some_and(|r| r >= len) {
        return Plan::Fits;
    }
    let nx = &pages[(y + 1) % n];
    if nx.state == PState::Open {
        return Plan::Fits;
    }
    let valid = nx.valid().count();
    if valid == 0 {
        Plan::Fits
    } else {
        Plan::Overwrite(valid)
    }
}
