//! P22 caches save flash reads.

use crate::mapx::*;
use crate::p_flash::{group_strat, map_groups, queue_groups};
use crate::queuex::*;
use crate::runner::{Check, Stats, phase};
use crate::sim::{Access, Out, Sim};
use crate::sut::{CACHE_NAMES, Ev, Geo};
use proptest::prelude::*;
use std::collections::{HashMap, HashSet};

#[derive(Debug, Clone, Copy, Default, PartialEq)]
struct Cost {
    reads: usize,
    bytes: usize,
}

/// Half-open byte ranges.
struct Log {
    reads: Vec<(u32, u32)>,
    writes: Vec<(u32, u32)>,
    erased: bool,
}

impl Log {
    fn start(sim: &Sim) {
        sim.b().record = Some(vec![]);
    }
    fn take(sim: &Sim) -> Log {
        let mut l = Log { reads: vec![], writes: vec![], erased: false };
        for a in sim.b().record.take().unwrap() {
            match a {
                Access::Read { addr, len } => l.reads.push((addr, addr + len)),
                Access::Write { addr, len } => l.writes.push((addr, addr + len)),
                Access::Erase { .. } => l.erased = true,
            }
        }
        l
    }
    fn cost(&self) -> Cost {
        Cost { reads: self.reads.len(), bytes: self.reads.iter().map(|r| (r.1 - r.0) as usize).sum() }
    }
}

/// The page whose marker the access touches, if it does.
fn marker(g: Geo, a: (u32, u32)) -> Option<u32> {
    let (e, w) = (g.e as u32, g.word() as u32);
    let (page, at) = (a.0 / e, a.0 % e);
    (at < w || at >= e - w).then_some(page)
}

/// What the cache of one instance has to know by now.
#[derive(Default)]
struct Known {
    /// Addresses of markers it has read.
    markers: HashSet<u32>,
    /// Keys that were put in the cache, with the others touched since.
    keys: HashMap<u8, HashSet<u8>>,
    /// Where the next item goes at the earliest: the end of the last one.
    end: Option<u32>,
    /// Where the oldest item is at the earliest: the end of the last popped one.
    popped: HashMap<u32, u32>,
    /// Something was refused, which may make a later operation repair the flash first.
    tainted: bool,
    /// It has written something.
    stored: bool,
}

impl Known {
    fn has_key(&self, k: u8, slots: usize) -> bool {
        self.keys.get(&k).is_some_and(|others| others.len() < slots)
    }
    fn touch(&mut self, k: u8, put: bool) {
        for (other, since) in &mut self.keys {
            if *other != k {
                since.insert(k);
            }
        }
        if put {
            self.keys.insert(k, HashSet::new());
        }
    }
}

fn states(cache: usize) -> bool {
    matches!(cache, 2 | 5 | 7)
}
fn calculated(cache: usize) -> bool {
    matches!(cache, 1 | 6 | 8)
}
fn pointers(cache: usize) -> bool {
    matches!(cache, 3 | 5 | 6 | 7 | 8)
}
fn keys(cache: usize, ckeys: usize) -> usize {
    match cache {
        4..=6 => ckeys,
        7 => 4,
        _ => 0,
    }
}

fn states_rule(known: &mut Known, g: Geo, log: &Log) -> Result<(), String> {
    for r in &log.reads {
        if marker(g, *r).is_some() && !known.markers.insert(r.0) {
            return Err(format!("the page marker at {:#x} is read again although page states are cached", r.0));
        }
    }
    Ok(())
}

fn maps(c: &MapCase, st: &mut Stats) -> Result<(), String> {
    let groups = map_groups();
    let group = &groups[c.combo as usize % groups.len()];
    let mut runs: Vec<(MapRun, Known)> = group
        .iter()
        .map(|combo| {
            let e = combo.geo.e;
            let range = e as u32..((1 + c.pages as usize) * e) as u32;
            let sim = Sim::new(combo.geo.r, combo.geo.w, e, c.pages as usize + 2, vec![range.clone()]);
            let mut r = MapRun::on(sim, *combo, range, c);
            r.nkeys = c.nkeys.max(1).min(r.sut.key_count());
            (r, Known::default())
        })
        .collect();
    st.sub_evals += group.len() as u64 - 1;
    for (i, op) in c.ops.iter().enumerate() {
        let ops: Vec<MOp> = match *op {
            MOp::Check { rot } => {
                let n = runs[0].0.nkeys;
                (0..n).map(|k| MOp::Fetch { k: ((k as u16 + rot as u16) % n as u16) as u8 }).chain([MOp::Iter]).collect()
            }
            op => vec![op],
        };
        for op in ops {
            let mut first = Cost::default();
            for (j, (r, known)) in runs.iter_mut().enumerate() {
                let cache = r.combo.cache;
                let name = CACHE_NAMES[cache];
                let op = r.concrete(&op);
                Log::start(&r.sim);
                let res = r.exec(&op);
                let log = Log::take(&r.sim);
                let now = log.cost();
                let bad = |e: String| Err(format!("operation {i} {op:?} with cache {name}: {e}"));
                if j == 0 {
                    first = now;
                } else {
                    if now.reads > first.reads || now.bytes > first.bytes {
                        return bad(format!("{now:?} but {first:?} without"));
                    }
                    if now != first {
                        st.hit("saved");
                    }
                }
                if calculated(cache) && known.stored && matches!(op, MOp::Fetch { .. } | MOp::Iter) {
                    Log::start(&r.sim);
                    r.exec(&op);
                    let again = Log::take(&r.sim);
                    st.hit("repeated");
                    if let Some(a) = again.reads.iter().find(|a| marker(r.g, **a).is_some()) {
                        return bad(format!("the page marker at {:#x} is read when that is repeated", a.0));
                    }
                }
                let ok = matches!(&res, Res::Unit(Out::Ok(())) | Res::Val(Out::Ok(_)) | Res::List(_, Out::Ok(())));
                if op == MOp::RemoveAll {
                    known.markers.clear();
                }
                if states(cache) && ok && !known.tainted {
                    if let Err(e) = states_rule(known, r.g, &log) {
                        return bad(e);
                    }
                }
                let mut searched = false;
                if let (MOp::Fetch { k }, Res::Val(Out::Ok(Some(v)))) = (&op, &res) {
                    let k = r.key(*k);
                    let at: Vec<_> = log.reads.iter().filter(|a| marker(r.g, **a).is_none()).collect();
                    let from = at.iter().map(|a| a.0).min().unwrap_or(0);
                    let to = at.iter().map(|a| a.1).max().unwrap_or(0);
                    searched = (to - from) as usize > r.g.item(r.sut.key_len(k) + v.len());
                    if known.has_key(k, keys(cache, r.ckeys)) {
                        st.hit("known_key");
                        if searched {
                            return bad(format!("{from:#x}..{to:#x} is read for an item whose key is cached"));
                        }
                    }
                }
                match (&op, ok) {
                    (MOp::Reopen { same_cache: true } | MOp::Iter | MOp::IterResume, _) if !matches!(res, Res::List(_, Out::Err(_))) => {}
                    (MOp::Store { k, .. }, true) => {
                        known.stored = true;
                        if log.erased {
                            // Other keys' items may have been moved.
                            known.keys.clear();
                        }
                        known.touch(r.key(*k), true);
                    }
                    (MOp::Fetch { k }, true) => {
                        // What had to be searched for, is put in the cache now.
                        known.touch(r.key(*k), searched);
                    }
                    (MOp::Remove { k }, true) => {
                        known.keys.remove(&r.key(*k));
                    }
                    (MOp::RemoveAll, true) => {
                        known.keys.clear();
                        known.stored = false;
                    }
                    (MOp::Reopen { .. }, _) => *known = Known { tainted: known.tainted, ..Known::default() },
                    (MOp::EraseAll, true) => *known = Known::default(),
                    _ => *known = Known { tainted: true, ..Known::default() },
                }
            }
        }
    }
    st.nontrivial = st.get("saved") > 0;
    Ok(())
}

fn queues(c: &QCase, st: &mut Stats) -> Result<(), String> {
    let groups = queue_groups();
    let group = &groups[c.combo as usize % groups.len()];
    let mut runs: Vec<(QRun, Known)> = group
        .iter()
        .map(|combo| {
            let e = combo.geo.e;
            let range = e as u32..((1 + c.pages as usize) * e) as u32;
            let sim = Sim::new(combo.geo.r, combo.geo.w, e, c.pages as usize + 2, vec![range.clone()]);
            (QRun::on(sim, *combo, range), Known::default())
        })
        .collect();
    st.sub_evals += group.len() as u64 - 1;
    for (i, op) in c.ops.iter().enumerate() {
        let ops: Vec<QOp> = match *op {
            QOp::Check => vec![
                QOp::Peek,
                QOp::MaxFit,
                QOp::SpaceLeft,
                QOp::Iter { plan: crate::sut::IterPlan { mask: 0, stop: 255, resume: false } },
            ],
            QOp::PopN { n } => vec![QOp::Pop; n as usize],
            QOp::PushFit { .. } => vec![QOp::MaxFit],
            op => vec![op],
        };
        for op in ops {
            let mut first = Cost::default();
            for (j, (r, known)) in runs.iter_mut().enumerate() {
                let cache = r.combo.cache;
                let name = CACHE_NAMES[cache];
                Log::start(&r.sim);
                let res = r.exec(&op);
                let log = Log::take(&r.sim);
                let now = log.cost();
                let bad = |e: String| Err(format!("operation {i} {op:?} with cache {name}: {e}"));
                if j == 0 {
                    first = now;
                } else {
                    if now.reads > first.reads || now.bytes > first.bytes {
                        return bad(format!("{now:?} but {first:?} without"));
                    }
                    if now != first {
                        st.hit("saved");
                    }
                }
                let ok = match &res {
                    QRes::Unit(o) => matches!(o, Out::Ok(())),
                    QRes::Item(o) => matches!(o, Out::Ok(_)),
                    QRes::Fit(o) => matches!(o, Out::Ok(_)),
                    QRes::Space(o) => matches!(o, Out::Ok(_)),
                    QRes::Evs(v) => !v.iter().any(|e| matches!(e, Ev::PopFail(_) | Ev::NextFail(_) | Ev::NewFail(_))),
                    QRes::Skip => matches!(op, QOp::Reopen { same_cache: true }),
                };
                if states(cache) && ok && !known.tainted {
                    if let Err(e) = states_rule(known, r.g, &log) {
                        return bad(e);
                    }
                }
                if !ok || matches!(op, QOp::EraseAll) {
                    let tainted = match op {
                        QOp::EraseAll => false,
                        QOp::Reopen { .. } => known.tainted,
                        _ => true,
                    };
                    *known = Known { tainted, ..Known::default() };
                    continue;
                }
                if !pointers(cache) {
                    continue;
                }
                let e = r.g.e as u32;
                let items: Vec<_> = log.reads.iter().filter(|a| marker(r.g, **a).is_none()).collect();
                if matches!(op, QOp::Push { .. }) {
                    if let Some(end) = known.end {
                        st.hit("known_end");
                        if !log.erased && let Some(a) = items.iter().find(|a| a.0 / e == end / e && a.0 < end) {
                            return bad(format!("{a:#x?} is read although the end of the items {end:#x} is cached"));
                        }
                    }
                }
                if log.erased {
                    known.popped.clear();
                }
                if matches!(op, QOp::Pop | QOp::Peek) {
                    for a in &items {
                        if let Some(end) = known.popped.get(&(a.0 / e)) {
                            st.hit("known_popped");
                            if a.0 < *end {
                                return bad(format!("{a:#x?} is read although everything up to {end:#x} is known to be popped"));
                            }
                        }
                    }
                }
                if let (QOp::Pop, QRes::Item(Out::Ok(Some(v))), Some(last)) = (op, &res, items.last()) {
                    // Counts when everything before is known to be popped, too.
                    let page = last.0 / e;
                    let at = items.iter().filter(|a| a.0 / e == page).map(|a| a.0).min();
                    let so_far = *known.popped.get(&page).unwrap_or(&(page * e + r.g.word() as u32));
                    if at == Some(so_far) && (last.1 - so_far) as usize <= r.g.item(v.len()) {
                        known.popped.insert(page, last.1);
                    }
                }
                if matches!(op, QOp::Push { .. }) {
                    known.end = log.writes.iter().filter(|a| marker(r.g, **a).is_none()).map(|a| a.1).max();
                }
            }
        }
    }
    st.nontrivial = st.get("saved") > 0;
    Ok(())
}

pub fn p22() -> Check {
    Check {
        id: "P22",
        level: "exploration",
        rule: "a history counts when a cache saved at least one read",
        assumptions: &[
            "after a refused operation a later one may repair the flash first, and read everything again",
            "removing all items drops the cache",
        ],
        must_hit: &["saved", "known_key", "known_end", "known_popped", "repeated"],
        phases: vec![
            phase("map", 30_000, || {
                (group_strat(map_groups().len()), case_strat(1, mop_strat(W_FULL, None), 60, 8))
                    .prop_map(|(combo, c)| MapCase { combo, ..c })
            }, maps),
            phase("queue", 30_000, || {
                (group_strat(queue_groups().len()), qcase_strat(1, qop_strat(QW_FULL, None), 70))
                    .prop_map(|(combo, c)| QCase { combo, ..c })
            }, queues),
        ],
    }
}
