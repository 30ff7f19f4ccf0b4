//! P18 configuration validation, and storages at the limits of what is accepted.

use crate::mapx::{Len, value};
use crate::runner::{Check, Stats, phase};
use crate::sim::{ABuf, Er, Out, Sim};
use crate::sut::{Ev, Geo, IterPlan, MapCombo, QueueCombo};
use g0::Rule;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ops::Range;
use std::panic::catch_unwind;
use std::sync::OnceLock;

fn cfgs() -> &'static [g0::Cfg] {
    static T: OnceLock<Vec<g0::Cfg>> = OnceLock::new();
    T.get_or_init(g0::cfgs)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Addr {
    Raw(u32),
    /// Pages plus bytes, from the bottom.
    Low(u16, i16),
    /// The same from the top.
    High(u16, i16),
}
impl Addr {
    fn get(self, e: usize) -> u32 {
        let e = e as u64;
        let v = match self {
            Addr::Raw(v) => v as i64,
            Addr::Low(p, d) => (p as u64 * e) as i64 + d as i64,
            Addr::High(p, d) => ((u32::MAX as u64 / e).saturating_sub(p as u64) * e) as i64 + d as i64,
        };
        v.clamp(0, u32::MAX as i64) as u32
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct VCase {
    pub geo: u8,
    pub start: Addr,
    pub end: Addr,
}

fn violated(g: Geo, r: &Range<u32>, min: u64) -> Vec<Rule> {
    let e = g.e as u64;
    let mut v = vec![];
    if r.start as u64 % e != 0 {
        v.push(Rule::Start);
    }
    if r.end as u64 % e != 0 {
        v.push(Rule::End);
    }
    if (r.end as u64) < r.start as u64 + min * e {
        v.push(Rule::Range);
    }
    if g.e < 3 * g.word() + g.hdr() {
        v.push(Rule::Pages);
    }
    if g.word() > 32 {
        v.push(Rule::Word);
    }
    v
}

fn validate(c: &VCase, st: &mut Stats) -> Result<(), String> {
    let cfg = cfgs()[c.geo as usize % cfgs().len()];
    let g = cfg.geo;
    let r = c.start.get(g.e)..c.end.get(g.e);
    for (name, f, new, min) in [("map", cfg.map, cfg.map_new, 2), ("queue", cfg.queue, cfg.queue_new, 1)] {
        let bad = violated(g, &r, min);
        let got = f(r.clone());
        let ok = match got {
            Ok(()) => bad.is_empty(),
            Err(e) => bad.contains(&e),
        };
        if !ok {
            return Err(format!("{name} configuration of {r:?} with {g:?} gave {got:?}, violated rules are {bad:?}"));
        }
        let panicked = catch_unwind(|| new(r.clone())).is_err();
        if panicked == bad.is_empty() {
            return Err(format!("the panicking {name} constructor for {r:?} with {g:?} did the opposite"));
        }
        st.hit(if bad.is_empty() { "accepted" } else { "rejected" });
        for b in bad {
            st.hit(match b {
                Rule::Start => "start",
                Rule::End => "end",
                Rule::Range => "range",
                Rule::Pages => "pages",
                Rule::Word => "word",
            });
        }
    }
    if r.end < r.start {
        st.hit("reversed");
    }
    st.nontrivial = true;
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FCase {
    pub big: bool,
    pub queue: bool,
    pub combo: u8,
    pub pages: u8,
    /// At the top of the address space.
    pub high: bool,
    pub items: Vec<(u8, Len, u8)>,
}

fn place(g: Geo, pages: usize, high: bool, base: usize) -> (Sim, Range<u32>) {
    let local = (base * g.e) as u32..((base + pages) * g.e) as u32;
    let sim = Sim::new(g.r, g.w, g.e, base + pages + usize::from(!high), vec![local.clone()]);
    let mut range = local;
    if high {
        // The range ends at the last page boundary that can be expressed.
        let origin = (u32::MAX as usize / g.e * g.e - (base + pages) * g.e) as u32;
        sim.b().origin = origin;
        range = range.start + origin..range.end + origin;
    }
    (sim, range)
}

fn works(c: &FCase, st: &mut Stats) -> Result<(), String> {
    static M: OnceLock<(Vec<MapCombo>, Vec<MapCombo>, Vec<QueueCombo>, Vec<QueueCombo>)> = OnceLock::new();
    let (m, bm, q, bq) = M.get_or_init(|| (g0::maps(), g0::big_maps(), g0::queues(), g0::big_queues()));
    st.nontrivial = !c.items.is_empty();
    if c.high {
        st.hit("top_of_address_space");
    }
    if c.queue {
        let l = if c.big { bq } else { q };
        fill_queue(c, l[c.combo as usize % l.len()], st)
    } else {
        let l = if c.big { bm } else { m };
        fill_map(c, l[c.combo as usize % l.len()], st)
    }
    .map_err(|e| format!("with items {:?}: {e}", c.items))
}

fn fill_queue(c: &FCase, combo: QueueCombo, st: &mut Stats) -> Result<(), String> {
    let g = combo.geo;
    let pages = c.pages.max(1) as usize;
    let (sim, range) = place(g, pages, c.high, 1);
    let mut q = (combo.make)(sim.clone(), range);
    let mut buf = ABuf::new(g.max_data().next_multiple_of(g.word()) + 64);
    let max = g.max_data();
    let mut model: Vec<Vec<u8>> = vec![];
    let mut u = 0;
    // As many of the largest items as there are pages always fit.
    let n0 = pages;
    let plan = (0..n0).map(|_| (0u8, Len::Top(0), 1u8)).chain(c.items.iter().copied());
    for (i, (what, len, pat)) in plan.enumerate() {
        if i == n0 {
            // Start over.
            while !model.is_empty() {
                pop(&mut *q, &mut model, &mut buf)?;
            }
        }
        u += 1;
        let v = value(pat, len.get(max), u);
        let fit = q.max_fit();
        let Out::Ok(fit) = fit else { return Err(format!("find_max_fit gave {fit:?}")) };
        if fit.is_some_and(|f| f as usize > max) {
            return Err(format!("find_max_fit says {fit:?}, but no item may have more than {max} bytes"));
        }
        let o = q.push(&v, what % 4 == 1);
        match &o {
            Out::Ok(()) if v.len() <= max => {
                let fits = fit.is_some_and(|f| f as usize >= v.len());
                if !fits && what % 4 != 1 {
                    return Err(format!("push of {} bytes succeeded, the largest fit was {fit:?}", v.len()));
                }
                model.push(v);
                if !fits {
                    // Some of the oldest made room.
                    let left = contents(&mut *q, &mut buf)?;
                    if !model.ends_with(&left) || left.is_empty() {
                        return Err("overwriting left something else than the newest items".into());
                    }
                    model = left;
                }
            }
            Out::Err(Er::ItemTooBig) if v.len() > max => st.hit("too_big"),
            Out::Err(Er::Full) if i >= n0 && v.len() <= max && what % 4 != 1 && fit.is_none_or(|f| (f as usize) < v.len()) => {
                st.hit("full")
            }
            o => return Err(format!("push of {} bytes ({i}) gave {o:?}, the limit is {max}, the largest fit {fit:?}", v.len())),
        }
        if what % 4 == 3 && !model.is_empty() {
            pop(&mut *q, &mut model, &mut buf)?;
        }
        if model.iter().any(|v| v.len() > 65_000) {
            st.hit("longest_items");
        }
        let got = contents(&mut *q, &mut buf)?;
        if got != model {
            return Err(format!(
                "the queue holds items of lengths {:?}, should be {:?}",
                got.iter().map(Vec::len).collect::<Vec<_>>(),
                model.iter().map(Vec::len).collect::<Vec<_>>()
            ));
        }
    }
    finish(&sim)?;
    st.hit("queue_filled");
    Ok(())
}

fn pop(q: &mut dyn crate::sut::QueueSut, model: &mut Vec<Vec<u8>>, buf: &mut ABuf) -> Result<(), String> {
    let o = q.pop(buf.m());
    if o != Out::Ok(Some(model[0].clone())) {
        return Err(format!("pop did not give the oldest item of {} bytes", model[0].len()));
    }
    model.remove(0);
    Ok(())
}

fn contents(q: &mut dyn crate::sut::QueueSut, buf: &mut ABuf) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    for e in q.iter(IterPlan { mask: 0, stop: 255, resume: false }, buf.m()) {
        match e {
            Ev::Item(d) => out.push(d),
            Ev::End => return Ok(out),
            e => return Err(format!("iterating gave {e:?}")),
        }
    }
    Err("too many items".into())
}

fn finish(sim: &Sim) -> Result<(), String> {
    sim.violation().map_or(Ok(()), Err)
}

fn fill_map(c: &FCase, combo: MapCombo, st: &mut Stats) -> Result<(), String> {
    let g = combo.geo;
    let pages = c.pages.max(2) as usize;
    let (sim, range) = place(g, pages, c.high, 1);
    let mut m = (combo.make)(sim.clone(), range, 4);
    let mut buf = ABuf::new(g.max_data().next_multiple_of(g.word()) + 64);
    let max = g.max_data() - 1;
    let mut model: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    let mut u = 0;
    // One item of the largest size in all but one of the pages always fits.
    let n0 = pages - 1;
    let plan = (0..n0).map(|i| (4 * (i % 10) as u8, Len::Top(0), 1u8)).chain(c.items.iter().copied());
    for (i, (what, len, pat)) in plan.enumerate() {
        let k = what / 4 % 12;
        if what % 4 == 3 {
            let o = m.remove(k, buf.m());
            if o != Out::Ok(()) {
                return Err(format!("remove gave {o:?}"));
            }
            model.remove(&k);
        } else {
            u += 1;
            let v = value(pat, len.get(max), u);
            let mut with = model.clone();
            with.insert(k, v.clone());
            let o = m.store(k, &v, buf.m(), false);
            // The old value of the key counts as well, it stays until the new one is written.
            let fits = model.len() + 1 < pages;
            match &o {
                Out::Ok(()) if v.len() <= max => model = with,
                Out::Err(Er::ItemTooBig) if v.len() > max => st.hit("too_big"),
                Out::Err(Er::Full) if i >= n0 && v.len() <= max && !fits => st.hit("full"),
                o => {
                    return Err(format!(
                        "storing {} bytes ({i}) gave {o:?}, the limit is {max}, stored are {:?} in {pages} pages",
                        v.len(),
                        model.values().map(Vec::len).collect::<Vec<_>>()
                    ));
                }
            }
        }
        if model.values().any(|v| v.len() > 65_000) {
            st.hit("longest_items");
        }
        for k in 0..12 {
            let o = m.fetch(k, buf.m());
            if o != Out::Ok(model.get(&k).cloned()) {
                return Err(format!("key {k} is wrong after {} operations", i + 1));
            }
        }
    }
    finish(&sim)?;
    st.hit("map_filled");
    Ok(())
}

pub fn p18() -> Check {
    let addr = || {
        prop_oneof![
            6 => (0u16..12, prop_oneof![8 => Just(0i16), 1 => -40i16..40]).prop_map(|(p, d)| Addr::Low(p, d)),
            2 => (0u16..6, prop_oneof![6 => Just(0i16), 1 => -40i16..40]).prop_map(|(p, d)| Addr::High(p, d)),
            1 => any::<u32>().prop_map(Addr::Raw),
            1 => prop::sample::select(vec![0u32, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]).prop_map(Addr::Raw),
        ]
    };
    let fill = |big: bool| {
        let len = prop_oneof![
            3 => (-3i8..=3).prop_map(Len::Top),
            1 => any::<u16>().prop_map(Len::Frac),
            2 => (0u8..20).prop_map(Len::Small),
        ];
        (
            any::<bool>(),
            any::<u8>(),
            1u8..6,
            prop::bool::weighted(0.4),
            proptest::collection::vec((any::<u8>(), len, any::<u8>()), 0..if big { 8 } else { 30 }),
        )
            .prop_map(move |(queue, combo, pages, high, items)| FCase { big, queue, combo, pages, high, items })
    };
    Check {
        id: "P18",
        level: "exploration",
        rule: "validation: every generated range counts; use: a history that stored something beyond the initial fill counts",
        assumptions: &[
            "when several rules are violated any of them may be reported",
            "geometries are the instantiated ones: for each word size the smallest workable page and the largest unworkable one, and page sizes around the limit of the length field",
        ],
        must_hit: &[
            "accepted", "rejected", "start", "end", "range", "pages", "word", "reversed", "too_big", "full", "longest_items",
            "top_of_address_space", "queue_filled", "map_filled",
        ],
        phases: vec![
            phase(
                "validation",
                300_000,
                move || (any::<u8>(), addr(), addr()).prop_map(|(geo, start, end)| VCase { geo, start, end }),
                validate,
            ),
            phase("smallest pages", 60_000, move || fill(false), works),
            phase("largest items", 300, move || fill(true), works),
        ],
    }
}
