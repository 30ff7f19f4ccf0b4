//! Map: operation model, oracle and runner shared by all map properties.

use crate::format;
use crate::runner::Stats;
use crate::sim::{ABuf, Arm, Er, FaultKind, FaultOn, Out, Sim};
use hcore::user::Call;
use crate::sut::{Geo, MapCombo, MapSut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Len {
    Small(u8),
    /// Fraction of the maximum.
    Frac(u16),
    /// Maximum plus the (small, signed) offset.
    Top(i8),
    Exact(u16),
}
impl Len {
    pub fn get(self, max: usize) -> usize {
        match self {
            Len::Small(n) => (n as usize).min(max),
            Len::Frac(f) => (f as usize * max) / 65535,
            Len::Top(d) => (max as i64 + d as i64).max(0) as usize,
            Len::Exact(n) => n as usize,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum MOp {
    Store { k: u8, len: Len, pat: u8, generic: bool },
    Fetch { k: u8 },
    Remove { k: u8 },
    RemoveAll,
    Iter,
    /// Goes on with the same iterator after a failed, cancelled or refused step.
    IterResume,
    Reopen { same_cache: bool },
    EraseAll,
    /// Arm a fault; it fires in whatever operation reaches it.
    Fault { arm: Arm },
    /// Fetch every key and iterate.
    Check { rot: u8 },
    /// Store the longest value the capacity rule guarantees to fit, plus `over`.
    StoreFit { k: u8, pat: u8, over: u8 },
    /// The next operation gets a data buffer of only this many bytes.
    SmallBuf { n: u16 },
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MapCase {
    pub combo: u8,
    pub pages: u16,
    /// Pages before the storage, plus four times the place of the flash in the address space.
    pub base: u8,
    pub ckeys: u8,
    pub nkeys: u8,
    pub ops: Vec<MOp>,
}

/// Contents of a stored value: mostly unique per (pattern, length), sometimes marker-like or blank-like.
pub fn value(pat: u8, len: usize, uniq: u32) -> Vec<u8> {
    value_after(&[], pat, len, uniq)
}

/// The bytes of a record without its first part `prefix` (the key), which some patterns depend on.
pub fn value_after(prefix: &[u8], pat: u8, len: usize, uniq: u32) -> Vec<u8> {
    if pat % 16 == 4 && len >= 4 {
        // A checksum that is an exception, or close to one.
        let mut v = value(5, len, uniq);
        let want = match pat / 16 {
            0 => 0,
            1 => 1,
            2 => 0xFFFF_FFFF,
            3 => 0xFFFF_FFFE,
            4 => 0xFF,
            5 => 0xFE,
            6 => 0xFFFF_FF00,
            7 => 0xFFFF_FF01,
            8 => 0x0100_0000,
            9 => 0x80,
            n => (uniq << 8) | if n % 2 == 0 { 0 } else { 0xFF },
        };
        crate::format::forge_crc(prefix, &mut v, want);
        return v;
    }
    match pat % 16 {
        0 => vec![0; len],
        1 => vec![0xFF; len],
        2 => (0..len).map(|i| if i % 2 == 0 { 0 } else { 0xFF }).collect(),
        3 => {
            let mut v = vec![0xFF; len];
            if len > 0 {
                v[0] = pat;
            }
            v
        }
        _ => {
            let mut x = (pat as u32).wrapping_mul(0x9E37_79B9) ^ uniq.wrapping_mul(0x85EB_CA6B) ^ 0x5bd1;
            (0..len)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 17;
                    x ^= x << 5;
                    x as u8
                })
                .collect()
        }
    }
}

pub fn base_strat() -> impl Strategy<Value = u8> {
    prop_oneof![2 => 0u8..3, 1 => (0u8..3, 1u8..6).prop_map(|(b, o)| b + 4 * o)]
}

pub fn len_strat() -> impl Strategy<Value = Len> {
    prop_oneof![
        4 => (0u8..24).prop_map(Len::Small),
        3 => (0u16..=u16::MAX).prop_map(Len::Frac),
        1 => (-4i8..=2).prop_map(Len::Top),
    ]
}

pub fn arm_strat(kinds: Vec<FaultKind>, on: Vec<FaultOn>) -> impl Strategy<Value = Arm> {
    (
        proptest::sample::select(kinds),
        proptest::sample::select(on),
        prop_oneof![3 => 0u16..8, 2 => 0u16..40, 1 => 0u16..300],
        prop_oneof![2 => 0u16..4, 2 => 0u16..=u16::MAX],
        prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
    )
        .prop_map(|(kind, on, skip, tear, bits)| Arm { kind, on, skip, tear, bits })
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub store: u32,
    pub fetch: u32,
    pub remove: u32,
    pub remove_all: u32,
    pub iter: u32,
    pub reopen: u32,
    pub erase_all: u32,
    pub check: u32,
}
pub const W_FULL: Weights = Weights {
    store: 30, fetch: 8, remove: 5, remove_all: 1, iter: 2, reopen: 2, erase_all: 1, check: 1,
};
pub const W_NOERASE: Weights = Weights { erase_all: 0, ..W_FULL };

pub fn mop_strat(w: Weights, faults: Option<(u32, Vec<FaultKind>, Vec<FaultOn>)>) -> BoxedStrategy<MOp> {
    let mut v: Vec<(u32, BoxedStrategy<MOp>)> = vec![
        (
            w.store,
            (0u8..16, len_strat(), any::<u8>(), any::<bool>())
                .prop_map(|(k, len, pat, generic)| MOp::Store { k, len, pat, generic })
                .boxed(),
        ),
        (w.fetch, (0u8..16).prop_map(|k| MOp::Fetch { k }).boxed()),
        (w.remove, (0u8..16).prop_map(|k| MOp::Remove { k }).boxed()),
        (w.remove_all, Just(MOp::RemoveAll).boxed()),
        (w.iter, prop_oneof![Just(MOp::Iter), Just(MOp::IterResume)].boxed()),
        (w.reopen, any::<bool>().prop_map(|same_cache| MOp::Reopen { same_cache }).boxed()),
        (w.erase_all, Just(MOp::EraseAll).boxed()),
        (w.check, (0u8..16).prop_map(|rot| MOp::Check { rot }).boxed()),
    ];
    if let Some((fw, kinds, on)) = faults {
        v.push((fw, arm_strat(kinds, on).prop_map(|arm| MOp::Fault { arm }).boxed()));
    }
    v.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn pages_strat(min: u8) -> impl Strategy<Value = u8> {
    prop_oneof![4 => min..=4u8, 2 => min..=8u8, 1 => Just(min)]
}

pub fn case_strat(
    combos: usize,
    ops: BoxedStrategy<MOp>,
    max_ops: usize,
    max_keys: u8,
) -> impl Strategy<Value = MapCase> {
    (
        0u8..combos as u8,
        pages_strat(2),
        base_strat(),
        prop_oneof![Just(0u8), Just(1), Just(2), 3u8..=16],
        1u8..=max_keys,
        proptest::collection::vec(ops, 1..=max_ops),
    )
        .prop_map(|(combo, pages, base, ckeys, nkeys, ops)| MapCase { combo, pages: pages.into(), base, ckeys, nkeys, ops })
}

#[derive(Clone, Debug)]
pub struct KeyM {
    /// States this key may be in (more than one only after an interrupted operation).
    pub cands: Vec<Option<Vec<u8>>>,
    /// Every value ever handed to `store` for this key since the last erase.
    pub hist: Vec<Vec<u8>>,
}

#[derive(Clone)]
pub struct MapModel {
    pub keys: Vec<KeyM>,
}

impl MapModel {
    pub fn new(n: usize) -> Self {
        MapModel { keys: vec![KeyM { cands: vec![None], hist: vec![] }; n] }
    }
    pub fn observe(&mut self, k: u8, got: &Option<Vec<u8>>, how: &str) -> Result<(), String> {
        let m = &mut self.keys[k as usize];
        if !m.cands.contains(got) {
            return Err(format!(
                "{how} of key #{k} gave {}, expected {}",
                show(got),
                m.cands.iter().map(show).collect::<Vec<_>>().join(" or ")
            ));
        }
        m.cands = vec![got.clone()];
        Ok(())
    }
    fn maybe(&mut self, k: u8, v: Option<Vec<u8>>) {
        let m = &mut self.keys[k as usize];
        if !m.cands.contains(&v) {
            m.cands.push(v);
        }
    }
}

pub fn show(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "nothing".into(),
        Some(v) if v.len() <= 12 => format!("{v:02x?}"),
        Some(v) => format!("{:02x?}..({} bytes)", &v[..10], v.len()),
    }
}

pub struct MapRun {
    pub g: Geo,
    pub pages: usize,
    pub start: u32,
    pub nkeys: u8,
    pub sim: Sim,
    pub sut: Box<dyn MapSut>,
    pub model: MapModel,
    pub buf: ABuf,
    pub combo: MapCombo,
    pub ckeys: usize,
    pub uniq: u32,
    pub faults_seen: bool,
    pub small: Option<usize>,
    /// Buffer-too-small errors of the last operation.
    pub refused: Vec<Er>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Unit(Out<()>),
    Val(Out<Option<Vec<u8>>>),
    List(Vec<(Option<u8>, Vec<u8>)>, Out<()>),
    Skip,
}

impl MapRun {
    pub fn new(c: &MapCase, combos: &[MapCombo]) -> Self {
        let combo = combos[c.combo as usize % combos.len()];
        let g = combo.geo;
        let pages = c.pages as usize;
        let base = c.base as usize % 4;
        let start = (base * g.e) as u32;
        let range = start..start + (pages * g.e) as u32;
        let sim = Sim::new(g.r, g.w, g.e, base + pages + 1, vec![range.clone()]);
        // Guard bytes outside the range: must stay as they are.
        sim.place(c.base / 4);
        sim.b().mem[..base * g.e].fill(0x5A);
        sim.b().mem[(base + pages) * g.e..].fill(0x5A);
        Self::on(sim, combo, range, c)
    }

    /// On (a range of) an existing flash.
    pub fn on(sim: Sim, combo: MapCombo, range: std::ops::Range<u32>, c: &MapCase) -> Self {
        let g = combo.geo;
        let start = range.start;
        let pages = range.len() / g.e;
        let sut = (combo.make)(sim.clone(), sim.seen(&range), c.ckeys as usize);
        let nkeys = c.nkeys.max(1).min(sut.key_count());
        MapRun {
            g, pages, start, nkeys, sim, sut,
            model: MapModel::new(nkeys.max(16) as usize),
            buf: ABuf::new(g.e.max(64)),
            combo,
            ckeys: c.ckeys as usize,
            uniq: 0,
            faults_seen: false,
            small: None,
            refused: vec![],
        }
    }

    /// A second run on a copy of the flash, with a fresh instance and cache, as after a restart.
    pub fn fork_restarted(&self) -> MapRun {
        let range = self.range();
        let sim = Sim::new(self.g.r, self.g.w, self.g.e, self.sim.b().mem.len() / self.g.e, vec![range.clone()]);
        {
            let s = self.sim.b();
            let mut n = sim.b();
            n.mem = s.mem.clone();
            n.origin = s.origin;
            n.torn = s.torn.clone();
            n.writes = s.writes.clone();
            n.budget = s.budget;
        }
        let sut = (self.combo.make)(sim.clone(), sim.seen(&range), self.ckeys);
        MapRun {
            g: self.g, pages: self.pages, start: self.start, nkeys: self.nkeys, sim, sut,
            model: self.model.clone(),
            buf: ABuf::new(self.g.e.max(64)),
            combo: self.combo,
            ckeys: self.ckeys,
            uniq: self.uniq,
            faults_seen: self.faults_seen,
            small: None,
            refused: vec![],
        }
    }

    pub fn range(&self) -> std::ops::Range<u32> {
        self.start..self.start + (self.pages * self.g.e) as u32
    }
    pub fn image(&self) -> Vec<u8> {
        let r = self.range();
        self.sim.b().mem[r.start as usize..r.end as usize].to_vec()
    }
    pub fn restart(&mut self) {
        self.sut = (self.combo.make)(self.sim.clone(), self.sim.seen(&self.range()), self.ckeys);
    }
    pub fn max_val(&self, k: u8) -> usize {
        self.g.max_data().saturating_sub(self.sut.key_len(k))
    }

    /// Total size of live items counting, per key, the biggest state it may be in.
    pub fn live_bytes(&self) -> usize {
        (0..self.nkeys)
            .map(|k| {
                let kl = self.sut.key_len(k);
                self.model.keys[k as usize]
                    .cands
                    .iter()
                    .flatten()
                    .map(|v| self.g.item(kl + v.len()))
                    .max()
                    .unwrap_or(0)
            })
            .sum()
    }
    /// The documented capacity rule: this store may not be refused.
    pub fn must_fit(&self, k: u8, len: usize) -> bool {
        let d = self.sut.key_len(k) + len;
        if d > self.g.max_data() {
            return false;
        }
        let s = self.g.item(d);
        self.live_bytes() <= (self.pages - 1) * (self.g.cap() - s)
    }

    pub fn key(&self, k: u8) -> u8 {
        k % self.nkeys
    }

    /// The value a store operation will use.
    pub fn value_for(&self, k: u8, len: Len, pat: u8) -> Vec<u8> {
        let k = self.key(k);
        value_after(&self.sut.key_bytes(k), pat, len.get(self.max_val(k)), self.uniq)
    }

    /// Resolve an adaptive operation into a plain one.
    pub fn concrete(&self, op: &MOp) -> MOp {
        let MOp::StoreFit { k, pat, over } = *op else { return *op };
        let kk = self.key(k);
        let (mut lo, mut hi) = (0usize, self.max_val(kk));
        while lo < hi {
            let mid = (lo + hi).div_ceil(2);
            if self.must_fit(kk, mid) { lo = mid } else { hi = mid - 1 }
        }
        MOp::Store { k, len: Len::Exact((lo + over as usize).min(u16::MAX as usize) as u16), pat, generic: pat % 2 == 0 }
    }

    /// Execute without judging. Returns the raw result.
    pub fn exec(&mut self, op: &MOp) -> Res {
        self.sim.b().fired = None;
        self.refused.clear();
        let full = self.buf.m().len();
        if let Some(n) = self.small.take_if(|_| !matches!(op, MOp::SmallBuf { .. })) {
            let b = self.buf.m();
            b.fill(0x77);
            self.buf.set_len(n.min(full));
        }
        let r = self.exec_inner(op);
        self.buf.set_len(full);
        r
    }

    fn exec_inner(&mut self, op: &MOp) -> Res {
        match *op {
            MOp::Store { k, len, pat, generic } => {
                let k = self.key(k);
                self.uniq += 1;
                let v = self.value_for(k, len, pat);
                Res::Unit(self.sut.store(k, &v, self.buf.m(), generic))
            }
            MOp::Fetch { k } => {
                let k = self.key(k);
                Res::Val(self.sut.fetch(k, self.buf.m()))
            }
            MOp::Remove { k } => {
                let k = self.key(k);
                Res::Unit(self.sut.remove(k, self.buf.m()))
            }
            MOp::RemoveAll => Res::Unit(self.sut.remove_all(self.buf.m())),
            MOp::Iter => {
                let (l, r) = self.sut.iter(self.buf.m());
                Res::List(l, r)
            }
            MOp::IterResume => {
                let (l, refused, r) = self.sut.iter_resume(self.buf.m());
                self.refused.extend(refused);
                Res::List(l, r)
            }
            MOp::Reopen { same_cache } => {
                self.sut.reopen(same_cache);
                Res::Skip
            }
            MOp::EraseAll => {
                self.sim.b().arm = None;
                Res::Unit(self.sut.erase_all())
            }
            MOp::Fault { arm } => {
                self.sim.b().arm = Some(arm);
                Res::Skip
            }
            MOp::SmallBuf { n } => {
                self.small = Some(n as usize);
                Res::Skip
            }
            MOp::Check { .. } | MOp::StoreFit { .. } => Res::Skip,
        }
    }

    /// Execute and judge against the model.
    pub fn step(&mut self, op: &MOp, st: &mut Stats) -> Result<(), String> {
        if let MOp::Check { rot } = *op {
            self.small = None;
            return self.check_all(rot, st);
        }
        let c = self.concrete(op);
        let op = &c;
        let small = self.small;
        if let MOp::Reopen { .. } = *op {
            // Handing over a cache is only allowed after an undisturbed operation; after a failed one it
            // still carries its dirty mark, which is fine.
            st.hit("reopen");
        }
        let (fits, too_big, v) = match *op {
            MOp::Store { k, len, pat, .. } => {
                self.uniq += 1;
                let kk = self.key(k);
                let v = self.value_for(k, len, pat);
                self.uniq -= 1;
                (
                    self.must_fit(kk, v.len()),
                    self.sut.key_len(kk) + v.len() > self.g.max_data(),
                    v,
                )
            }
            _ => (false, false, vec![]),
        };
        if fits && self.live_bytes() * 2 >= (self.pages - 1) * self.g.cap() {
            st.hit("store_near_capacity");
        }
        let e0 = self.sim.b().n_erases;
        let res = self.exec(op);
        if matches!(op, MOp::Store { .. }) && self.sim.b().n_erases > e0 {
            st.hit("store_with_erase");
        }
        if crate::runner::trace() {
            let f = self.sim.b().fired;
            crate::runner::trace_pages("map", &format!("{op:?}"), &format!("{res:02x?} fault {f:?}"), &self.parsed());
        }
        let fired = self.sim.b().fired;
        if let Some(f) = fired {
            self.faults_seen = true;
            st.hit("fault_fired");
            st.hit(match f.access {
                crate::sim::Access::Read { .. } => "fault_in_read",
                crate::sim::Access::Write { .. } => "fault_in_write",
                crate::sim::Access::Erase { .. } => "fault_in_erase",
            });
            if f.kind == FaultKind::PowerLoss {
                self.restart();
            }
        }
        // The driver's error is the caller's to know about. (A resumed iterator reported it on the way.)
        if fired.is_some_and(|f| f.kind == FaultKind::IoError)
            && let Res::Unit(Out::Ok(())) | Res::Val(Out::Ok(_)) | Res::List(_, Out::Ok(())) = &res
            && !matches!(op, MOp::IterResume)
        {
            return Err(format!("a flash error was not reported: {fired:?}, result {res:02x?}"));
        }
        let small = small.filter(|_| !matches!(op, MOp::SmallBuf { .. }));
        if let Some((call, e)) = hcore::user::fired()
            && self.user_error(op, &res, call, Er::from_ser(e), st)?
        {
            return Ok(());
        }
        self.judge(op, res, fits, too_big, v, fired.is_some(), small, st)?;
        if let Some(f) = fired {
            if f.kind == FaultKind::PowerLoss && self.sim.b().interrupted {
                self.sim.b().interrupted = false;
            }
        }
        Ok(())
    }

    /// The key or value type failed. Whether that explains the result.
    fn user_error(&mut self, op: &MOp, res: &Res, call: Call, e: Er, st: &mut Stats) -> Result<bool, String> {
        st.hit(match call {
            Call::KeySer => "key_serialize_failed",
            Call::KeyDe => "key_deserialize_failed",
            Call::ValSer => "value_serialize_failed",
            Call::ValDe => "value_deserialize_failed",
        });
        let got = match res {
            Res::Unit(Out::Err(x)) | Res::Val(Out::Err(x)) | Res::List(_, Out::Err(x)) => Some(x),
            _ => None,
        };
        if got != Some(&e) {
            // What the call was to produce is part of the result. A failed comparison of keys can be repeated elsewhere.
            let needed = match *op {
                MOp::Store { .. } => matches!(call, Call::KeySer | Call::ValSer),
                MOp::Fetch { .. } | MOp::Iter => call == Call::ValDe,
                _ => false,
            };
            let done = matches!(res, Res::Unit(Out::Ok(_)) | Res::Val(Out::Ok(_)) | Res::List(_, Out::Ok(_)));
            if needed && done {
                return Err(format!("{op:?}: the error of {call:?}, {e:?}, was not reported, but {res:02x?}"));
            }
            return Ok(false);
        }
        st.hit("user_error_reported");
        match *op {
            MOp::Remove { k } => {
                let k = self.key(k);
                self.model.maybe(k, None);
            }
            MOp::RemoveAll => (0..self.nkeys).for_each(|k| self.model.maybe(k, None)),
            MOp::Iter => {
                let Res::List(l, _) = res else { unreachable!() };
                self.judge_iter(l, &Out::Cut(FaultKind::Cancel), false)?;
            }
            _ => {}
        }
        Ok(true)
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(
        &mut self,
        op: &MOp,
        res: Res,
        fits: bool,
        too_big: bool,
        v: Vec<u8>,
        fired: bool,
        small: Option<usize>,
        st: &mut Stats,
    ) -> Result<(), String> {
        if small.is_some() {
            let o = match &res {
                Res::Unit(Out::Err(e)) | Res::Val(Out::Err(e)) | Res::List(_, Out::Err(e)) => Some(e),
                _ => None,
            };
            if let Some(e) = o.filter(|e| e.is_buffer()) {
                st.hit("refused_small_buffer");
                self.refused.push(e.clone());
                match (*op, &res) {
                    (MOp::Remove { k }, _) => self.model.maybe(self.key(k), None),
                    (MOp::RemoveAll, _) => (0..self.nkeys).for_each(|k| self.model.maybe(k, None)),
                    (MOp::Iter | MOp::IterResume, Res::List(l, _)) => self.judge_iter(l, &Out::Cut(FaultKind::Cancel), fired)?,
                    _ => {}
                }
                return Ok(());
            }
            st.hit("small_buffer_accepted");
        }
        match (*op, res) {
            (MOp::Store { k, .. }, Res::Unit(o)) => {
                let k = self.key(k);
                match o {
                    Out::Ok(()) => {
                        if too_big {
                            return Err(format!(
                                "store of key #{k} with {} value bytes succeeded although no page can hold it",
                                v.len()
                            ));
                        }
                        st.hit("store_ok");
                        let m = &mut self.model.keys[k as usize];
                        m.hist.push(v.clone());
                        m.cands = vec![Some(v)];
                    }
                    Out::Cut(_) => {
                        self.model.keys[k as usize].hist.push(v.clone());
                        self.model.maybe(k, Some(v));
                    }
                    Out::Err(Er::Storage(crate::sim::SimError::Injected)) if fired => {
                        self.model.keys[k as usize].hist.push(v.clone());
                        self.model.maybe(k, Some(v));
                    }
                    Out::Err(Er::ItemTooBig) if too_big => st.hit("store_too_big"),
                    Out::Err(Er::Full) if !fits && !too_big => st.hit("store_full"),
                    // A value longer than the scratch buffer cannot even be serialized.
                    Out::Err(Er::SerTooSmall)
                        if self.sut.key_len(k) + v.len() > self.g.e.max(64) =>
                    {
                        st.hit("store_too_big")
                    }
                    Out::Err(e) => {
                        return Err(format!(
                            "store of key #{k} ({} value bytes, live {} B in {} pages of {} B) failed with {e:?}{}",
                            v.len(),
                            self.live_bytes(),
                            self.pages,
                            self.g.cap(),
                            if fits { " although it fits" } else { "" },
                        ));
                    }
                }
            }
            (MOp::Fetch { k }, Res::Val(o)) => {
                let k = self.key(k);
                match o {
                    Out::Ok(got) => {
                        st.hit(if got.is_some() { "fetch_some" } else { "fetch_none" });
                        self.model.observe(k, &got, "fetch")?;
                    }
                    Out::Cut(_) => {}
                    Out::Err(Er::Storage(crate::sim::SimError::Injected)) if fired => {}
                    Out::Err(e) => return Err(format!("fetch of key #{k} failed with {e:?}")),
                }
            }
            (MOp::Remove { k }, Res::Unit(o)) => {
                let k = self.key(k);
                match o {
                    Out::Ok(()) => {
                        st.hit("remove_ok");
                        self.model.keys[k as usize].cands = vec![None];
                    }
                    Out::Cut(_) => self.model.maybe(k, None),
                    Out::Err(Er::Storage(crate::sim::SimError::Injected)) if fired => {
                        self.model.maybe(k, None)
                    }
                    Out::Err(e) => return Err(format!("remove of key #{k} failed with {e:?}")),
                }
            }
            (MOp::RemoveAll, Res::Unit(o)) => match o {
                Out::Ok(()) => {
                    st.hit("remove_all_ok");
                    for m in &mut self.model.keys {
                        m.cands = vec![None];
                    }
                }
                Out::Cut(_) => (0..self.nkeys).for_each(|k| self.model.maybe(k, None)),
                Out::Err(Er::Storage(crate::sim::SimError::Injected)) if fired => {
                    (0..self.nkeys).for_each(|k| self.model.maybe(k, None))
                }
                Out::Err(e) => return Err(format!("remove_all failed with {e:?}")),
            },
            (MOp::Iter | MOp::IterResume, Res::List(l, o)) => {
                st.hit("iter");
                if matches!(op, MOp::IterResume) && matches!(o, Out::Ok(())) && (fired || !self.refused.is_empty()) {
                    st.hit("iter_resumed");
                }
                self.judge_iter(&l, &o, fired)?;
            }
            (MOp::EraseAll, Res::Unit(o)) => match o {
                Out::Ok(()) => {
                    st.hit("erase_all");
                    self.model = MapModel::new(self.model.keys.len());
                }
                o => return Err(format!("erase_all gave {o:?}")),
            },
            (MOp::Reopen { .. } | MOp::Fault { .. } | MOp::SmallBuf { .. }, Res::Skip) => {}
            (op, r) => panic!("harness: {op:?} {r:?}"),
        }
        Ok(())
    }

    pub fn judge_iter(
        &mut self,
        l: &[(Option<u8>, Vec<u8>)],
        o: &Out<()>,
        fired: bool,
    ) -> Result<(), String> {
        for (k, v) in l {
            let Some(k) = k else {
                return Err(format!("iterator yielded a key that was never stored (value {v:02x?})"));
            };
            if !self.model.keys[*k as usize].hist.contains(v) {
                return Err(format!(
                    "iterator yielded {} for key #{k}, which was never stored under it",
                    show(&Some(v.clone()))
                ));
            }
        }
        match o {
            Out::Ok(()) => {
                for k in 0..self.nkeys {
                    let last = l.iter().rev().find(|(x, _)| *x == Some(k)).map(|(_, v)| v.clone());
                    self.model.observe(k, &last, "last iterator entry")?;
                }
                Ok(())
            }
            Out::Cut(_) => Ok(()),
            Out::Err(Er::Storage(crate::sim::SimError::Injected)) if fired => Ok(()),
            Out::Err(e) => Err(format!("iteration failed with {e:?}")),
        }
    }

    /// Undisturbed observation of everything.
    pub fn check_all(&mut self, rot: u8, st: &mut Stats) -> Result<(), String> {
        self.sim.b().arm = None;
        hcore::user::arm(None);
        let iter_first = rot % 4 == 3;
        if iter_first {
            self.step(&MOp::Iter, st)?;
        }
        for i in 0..self.nkeys {
            let k = ((i as usize + rot as usize) % self.nkeys as usize) as u8;
            self.step(&MOp::Fetch { k }, st)?;
        }
        if !iter_first {
            self.step(&MOp::Iter, st)?;
        }
        Ok(())
    }

    pub fn parsed(&self) -> Vec<format::Page> {
        format::parse(self.g, &self.image())
    }
}
