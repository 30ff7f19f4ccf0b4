//! P09 cache transparency, P10 access discipline and isolation, P11 wear.

use crate::combos;
use crate::format;
use crate::mapx::*;
use crate::queuex::*;
use crate::wide;
use crate::runner::{Check, Stats, phase};
use crate::sim::{Arm, FaultKind, FaultOn, Sim};
use crate::sut::{MapCombo, QueueCombo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

// ------------------------------------------------------------------ P09

/// Same geometry and key type under several cache configurations; uncached first.
pub fn map_groups() -> &'static Vec<Vec<MapCombo>> {
    static G: OnceLock<Vec<Vec<MapCombo>>> = OnceLock::new();
    G.get_or_init(|| map_groups_of(combos::map()))
}
fn map_groups_of(combos: &[MapCombo]) -> Vec<Vec<MapCombo>> {
    let mut out: Vec<Vec<MapCombo>> = vec![];
    for c in combos {
        match out.iter_mut().find(|g| g[0].geo == c.geo && g[0].key == c.key) {
            Some(g) => g.push(*c),
            None => out.push(vec![*c]),
        }
    }
    out.retain(|g| g.len() > 1 && g[0].cache == 0);
    out.sort_by_key(|g| std::cmp::Reverse(g.len()));
    out
}
pub fn queue_groups() -> &'static Vec<Vec<QueueCombo>> {
    static G: OnceLock<Vec<Vec<QueueCombo>>> = OnceLock::new();
    G.get_or_init(|| queue_groups_of(combos::queue()))
}
fn queue_groups_of(combos: &[QueueCombo]) -> Vec<Vec<QueueCombo>> {
    let mut out: Vec<Vec<QueueCombo>> = vec![];
    for c in combos {
        match out.iter_mut().find(|g| g[0].geo == c.geo) {
            Some(g) => g.push(*c),
            None => out.push(vec![*c]),
        }
    }
    out.retain(|g| g.len() > 1 && g[0].cache == 0);
    out.sort_by_key(|g| std::cmp::Reverse(g.len()));
    out
}
pub fn group_strat(n: usize) -> impl Strategy<Value = u8> {
    // The first two groups have all cache configurations.
    prop_oneof![3 => 0u8..2, 1 => 0u8..n as u8]
}

fn diff_image(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at offset {i:#x}: {:02x} against {:02x}", a[i], b[i]),
        None => "lengths differ".into(),
    }
}

fn map_diff(c: &MapCase, st: &mut Stats) -> Result<(), String> {
    map_diff_in(c, map_groups(), st)
}

fn map_diff_wide(c: &MapCase, st: &mut Stats) -> Result<(), String> {
    map_diff_in(c, &map_groups_of(combos::wide_map()), st)
}

fn map_diff_in(c: &MapCase, groups: &[Vec<MapCombo>], st: &mut Stats) -> Result<(), String> {
    let group = &groups[c.combo as usize % groups.len()];
    let mut runs: Vec<MapRun> = vec![];
    for combo in group {
        let base = c.base as usize % 4;
        let g = combo.geo;
        let start = (base * g.e) as u32;
        let range = start..start + (c.pages as usize * g.e) as u32;
        let sim = Sim::new(g.r, g.w, g.e, base + c.pages as usize + 1, vec![range.clone()]);
        sim.place(c.base / 4);
        let mut r = MapRun::on(sim, *combo, range, c);
        r.nkeys = c.nkeys.max(1).min(r.sut.key_count());
        runs.push(r);
    }
    st.sub_evals += group.len() as u64 - 1;
    for (i, op) in c.ops.iter().enumerate() {
        let ops: Vec<MOp> = match *op {
            MOp::Check { rot } => {
                let n = runs[0].nkeys;
                (0..n).map(|k| MOp::Fetch { k: ((k as u16 + rot as u16) % n as u16) as u8 }).chain([MOp::Iter]).collect()
            }
            op => vec![op],
        };
        for op in ops {
            let mut first: Option<(Res, Vec<u8>)> = None;
            for (j, r) in runs.iter_mut().enumerate() {
                let op = r.concrete(&op);
                let losses = r.sim.b().power_losses;
                let e0 = r.sim.b().n_erases;
                let res = r.exec(&op);
                if r.sim.b().power_losses > losses {
                    r.restart();
                }
                if j == 0 {
                    if r.sim.b().fired.is_some() {
                        st.hit("fault_fired");
                    }
                    if r.sim.b().n_erases > e0 {
                        st.hit("erases");
                    }
                }
                let img = r.image();
                match &first {
                    None => first = Some((res, img)),
                    Some((r0, i0)) => {
                        let name = crate::sut::CACHE_NAMES[r.combo.cache];
                        if *r0 != res {
                            return Err(format!(
                                "operation {i} {op:?}: {r0:02x?} without cache, {res:02x?} with cache {name}"
                            ));
                        }
                        if *i0 != img {
                            return Err(format!(
                                "operation {i} {op:?}: flash contents differ between no cache and {name}: {}",
                                diff_image(i0, &img)
                            ));
                        }
                    }
                }
            }
            match first.unwrap().0 {
                Res::Val(crate::sim::Out::Ok(Some(_))) => st.hit("fetch_some"),
                Res::Unit(crate::sim::Out::Ok(())) => st.hit("unit_ok"),
                _ => {}
            }
        }
    }
    st.nontrivial = st.get("erases") > 0 && st.get("fetch_some") > 0;
    Ok(())
}

fn queue_diff(c: &QCase, st: &mut Stats) -> Result<(), String> {
    queue_diff_in(c, queue_groups(), st)
}

fn queue_diff_wide(c: &QCase, st: &mut Stats) -> Result<(), String> {
    queue_diff_in(c, &queue_groups_of(combos::wide_queue()), st)
}

fn queue_diff_in(c: &QCase, groups: &[Vec<QueueCombo>], st: &mut Stats) -> Result<(), String> {
    let group = &groups[c.combo as usize % groups.len()];
    let mut runs: Vec<QRun> = vec![];
    for combo in group {
        let base = c.base as usize % 4;
        let g = combo.geo;
        let start = (base * g.e) as u32;
        let range = start..start + (c.pages as usize * g.e) as u32;
        let sim = Sim::new(g.r, g.w, g.e, base + c.pages as usize + 1, vec![range.clone()]);
        sim.place(c.base / 4);
        runs.push(QRun::on(sim, *combo, range));
    }
    st.sub_evals += group.len() as u64 - 1;
    for (i, op) in c.ops.iter().enumerate() {
        let ops: Vec<QOp> = match *op {
            QOp::Check => vec![
                QOp::Peek,
                QOp::MaxFit,
                QOp::SpaceLeft,
                QOp::Iter { plan: crate::sut::IterPlan { mask: 0, stop: 255, resume: false } },
            ],
            QOp::PopN { n } => vec![QOp::Pop; n as usize],
            QOp::PushFit { d, pat } => {
                // Resolved with an undisturbed query on the uncached run.
                let arm = runs[0].sim.b().arm.take();
                let fit = runs[0].sut.max_fit();
                runs[0].sim.b().arm = arm;
                for r in &mut runs[1..] {
                    let arm = r.sim.b().arm.take();
                    let o = r.sut.max_fit();
                    r.sim.b().arm = arm;
                    if o != fit {
                        return Err(format!(
                            "operation {i}: find_max_fit gives {fit:?} without cache, {o:?} with cache {}",
                            crate::sut::CACHE_NAMES[r.combo.cache]
                        ));
                    }
                }
                match fit {
                    crate::sim::Out::Ok(Some(m)) => {
                        vec![QOp::Push { len: Len::Exact((m as u16).saturating_add(d as u16)), pat, ow: false }]
                    }
                    _ => vec![],
                }
            }
            op => vec![op],
        };
        for op in ops {
            let mut first: Option<(QRes, Vec<u8>)> = None;
            for (j, r) in runs.iter_mut().enumerate() {
                let losses = r.sim.b().power_losses;
                let e0 = r.sim.b().n_erases;
                let res = r.exec(&op);
                if r.sim.b().power_losses > losses {
                    r.restart();
                }
                if j == 0 {
                    if r.sim.b().fired.is_some() {
                        st.hit("fault_fired");
                    }
                    if r.sim.b().n_erases > e0 {
                        st.hit("erases");
                    }
                }
                let img = r.image();
                match &first {
                    None => first = Some((res, img)),
                    Some((r0, i0)) => {
                        let name = crate::sut::CACHE_NAMES[r.combo.cache];
                        if *r0 != res {
                            return Err(format!(
                                "operation {i} {op:?}: {r0:02x?} without cache, {res:02x?} with cache {name}"
                            ));
                        }
                        if *i0 != img {
                            return Err(format!(
                                "operation {i} {op:?}: flash contents differ between no cache and {name}: {}",
                                diff_image(i0, &img)
                            ));
                        }
                    }
                }
            }
            if matches!(first.unwrap().0, QRes::Item(crate::sim::Out::Ok(Some(_)))) {
                st.hit("item");
            }
        }
    }
    st.nontrivial = st.get("erases") > 0 && st.get("item") > 0;
    Ok(())
}

pub fn p09() -> Check {
    // Read counts differ between caches, so faults are placed by counting writes and erases.
    let faults = || Some((3u32, vec![FaultKind::Cancel, FaultKind::IoError, FaultKind::PowerLoss], vec![FaultOn::Mutation]));
    Check {
        id: "P09",
        level: "exploration",
        rule: "a history counts when it recycled a page and found a value or item; every history runs once per cache configuration of its geometry (up to 9) and all results and flash images are compared after every operation",
        assumptions: &["the uncached instance is the reference"],
        must_hit: &["erases", "fetch_some", "item", "fault_fired", "unit_ok"],
        phases: vec![
            phase("map", 30_000, || {
                (
                    group_strat(map_groups().len()),
                    case_strat(1, mop_strat(W_FULL, None), 60, 8),
                )
                    .prop_map(|(combo, c)| MapCase { combo, ..c })
            }, map_diff),
            phase("map-interrupted", 15_000, move || {
                (
                    group_strat(map_groups().len()),
                    case_strat(1, mop_strat(W_FULL, faults()), 60, 6),
                )
                    .prop_map(|(combo, c)| MapCase { combo, ..c })
            }, map_diff),
            phase("queue", 30_000, || {
                (
                    group_strat(queue_groups().len()),
                    qcase_strat(1, qop_strat(QW_FULL, None), 70),
                )
                    .prop_map(|(combo, c)| QCase { combo, ..c })
            }, queue_diff),
            phase("queue-interrupted", 15_000, move || {
                (
                    group_strat(queue_groups().len()),
                    qcase_strat(1, qop_strat(QW_FULL, faults()), 70),
                )
                    .prop_map(|(combo, c)| QCase { combo, ..c })
            }, queue_diff),
            phase("map, many pages", 14, || wide::map_case(W_FULL, None), map_diff_wide),
            phase("queue, many pages", 60, || wide::queue_case(QW_FULL, None), queue_diff_wide),
        ],
    }
}

// ------------------------------------------------------------------ P10

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Two {
    M(MOp),
    Q(QOp),
    Fault(Arm),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct PairCase {
    pub map: MapCase,
    pub qpages: u8,
    pub qcombo: u8,
    /// Pages between the two ranges.
    pub gap: u8,
    pub queue_first: bool,
    pub ops: Vec<Two>,
}

fn pair(c: &PairCase, st: &mut Stats) -> Result<(), String> {
    let mc = combos::map()[c.map.combo as usize % combos::map().len()];
    let qs: Vec<&QueueCombo> = combos::queue().iter().filter(|q| q.geo == mc.geo).collect();
    let qc = *qs[c.qcombo as usize % qs.len()];
    let g = mc.geo;
    let (mp, qp) = (c.map.pages as usize, c.qpages as usize);
    let base = c.map.base as usize % 4;
    let second = base + if c.queue_first { qp } else { mp } + c.gap as usize;
    let (m0, q0) = if c.queue_first { (second, base) } else { (base, second) };
    let total = base + mp + qp + c.gap as usize + 1;
    let mr = (m0 * g.e) as u32..((m0 + mp) * g.e) as u32;
    let qr = (q0 * g.e) as u32..((q0 + qp) * g.e) as u32;
    let sim = Sim::new(g.r, g.w, g.e, total, vec![mr.clone(), qr.clone()]);
    sim.place(c.map.base / 4);
    sim.b().log_rewrites = true;
    let outside: Vec<usize> =
        (0..total * g.e).filter(|a| !mr.contains(&(*a as u32)) && !qr.contains(&(*a as u32))).collect();
    for a in &outside {
        sim.b().mem[*a] = 0x5A;
    }
    let mut m = MapRun::on(sim.clone(), mc, mr.clone(), &c.map);
    let mut q = QRun::on(sim.clone(), qc, qr.clone());
    let mut ok = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let (mi, qi) = (m.image(), q.image());
        let losses = sim.b().power_losses;
        let ctx = |e: String| format!("operation {i} {op:?}: {e}");
        // While one storage works, the other's range is off limits.
        match op {
            Two::M(o) => {
                sim.b().ranges = vec![mr.clone()];
                let o = m.concrete(o);
                if let Res::Unit(crate::sim::Out::Ok(())) = m.exec(&o) {
                    ok += 1;
                }
                if q.image() != qi {
                    return Err(ctx("the map changed the queue's range".into()));
                }
            }
            Two::Q(o) => {
                sim.b().ranges = vec![qr.clone()];
                match *o {
                    QOp::PopN { n } => (0..n).for_each(|_| {
                        q.exec(&QOp::Pop);
                    }),
                    QOp::PushFit { d, pat } => {
                        if let crate::sim::Out::Ok(Some(f)) = q.sut.max_fit() {
                            q.exec(&QOp::Push { len: Len::Exact(f as u16 + d as u16), pat, ow: d == 0 });
                        }
                    }
                    o => {
                        if let QRes::Unit(crate::sim::Out::Ok(())) = q.exec(&o) {
                            ok += 1;
                        }
                    }
                }
                if m.image() != mi {
                    return Err(ctx("the queue changed the map's range".into()));
                }
            }
            Two::Fault(arm) => sim.b().arm = Some(*arm),
        }
        if sim.b().power_losses > losses {
            st.hit("power_loss");
            m.restart();
            q.restart();
        }
        if sim.b().fired.take().is_some() {
            st.hit("fault_fired");
        }
        if let Some(v) = sim.violation() {
            return Err(ctx(v));
        }
        if outside.iter().any(|a| sim.b().mem[*a] != 0x5A) {
            return Err(ctx("bytes outside both ranges changed".into()));
        }
        // Anything written twice must be an item header that was cleared.
        let re = std::mem::take(&mut sim.b().rewrites);
        for (addr, bytes, before) in re {
            st.hit("second_write");
            let off = addr as usize % g.e;
            let p = format::parse_page(g, &before);
            let header = p.items.iter().any(|i| i.off == off);
            if !header || bytes.len() != g.hdr() || bytes[..4] != [0; 4] {
                return Err(ctx(format!(
                    "a written word was written again at {addr:#x} ({} bytes) and it is no removal of an item",
                    bytes.len()
                )));
            }
        }
    }
    let (w, e) = sim.counts();
    st.add("erases", e);
    st.add("writes", w);
    st.nontrivial = e > 0 && ok > 2;
    Ok(())
}

fn pair_strat(faults: bool) -> impl Strategy<Value = PairCase> {
    let w = W_FULL;
    let mut arms: Vec<(u32, BoxedStrategy<Two>)> = vec![
        (10, mop_strat(w, None).prop_map(Two::M).boxed()),
        (2, (0u8..16, any::<u8>(), 0u8..3).prop_map(|(k, pat, over)| Two::M(MOp::StoreFit { k, pat, over })).boxed()),
        (1, (0u16..70).prop_map(|n| Two::M(MOp::SmallBuf { n })).boxed()),
        (10, qop_strat(QW_FULL, None).prop_map(Two::Q).boxed()),
        (1, (0u16..70).prop_map(|n| Two::Q(QOp::SmallBuf { n })).boxed()),
    ];
    if faults {
        arms.push((
            4,
            arm_strat(
                vec![FaultKind::Cancel, FaultKind::IoError, FaultKind::PowerLoss],
                vec![FaultOn::Mutation, FaultOn::Any, FaultOn::Read],
            )
            .prop_map(Two::Fault)
            .boxed(),
        ));
    }
    (
        case_strat(combos::map().len(), Just(MOp::Iter).boxed(), 1, 8),
        pages_strat(1),
        any::<u8>(),
        0u8..2,
        any::<bool>(),
        proptest::collection::vec(proptest::strategy::Union::new_weighted(arms), 1..110),
    )
        .prop_map(|(map, qpages, qcombo, gap, queue_first, ops)| PairCase { map, qpages, qcombo, gap, queue_first, ops })
}

pub fn p10() -> Check {
    Check {
        id: "P10",
        level: "exploration",
        rule: "a history counts when at least one page was erased and at least three operations changed flash, with every access judged",
        assumptions: &["after a write or erase is interrupted the write-count rule is suspended for the words it covered until they are erased"],
        must_hit: &["erases", "writes", "second_write", "fault_fired", "power_loss"],
        phases: vec![
            phase("undisturbed", 80_000, || pair_strat(false), pair),
            phase("interrupted", 80_000, || pair_strat(true), pair),
        ],
    }
}

// ------------------------------------------------------------------ P11

fn cyclic(log: &[u32], base: u32, pages: u32, what: &str) -> Result<(), String> {
    for (i, p) in log.iter().enumerate() {
        let expect = base + i as u32 % pages;
        if *p != expect {
            return Err(format!("{what}: erase number {i} was of page {}, the cyclic order says page {}", p - base, expect - base));
        }
    }
    Ok(())
}

fn wear(sim: &Sim, base: u32, pages: u32) -> Result<(), String> {
    let s = sim.b();
    cyclic(&s.erase_log, base, pages, "wear")?;
    let c = &s.erase_count[base as usize..(base + pages) as usize];
    let (lo, hi) = (c.iter().min().unwrap(), c.iter().max().unwrap());
    if hi - lo > 1 {
        return Err(format!("uneven wear: pages were erased {c:?} times"));
    }
    if s.blank_erases > 0 {
        return Err("a page that was blank already was erased".into());
    }
    Ok(())
}

fn map_wear(c: &MapCase, st: &mut Stats) -> Result<(), String> {
    map_wear_on(c, combos::map(), st)
}

fn map_wear_on(c: &MapCase, combos: &[MapCombo], st: &mut Stats) -> Result<(), String> {
    let mut m = MapRun::new(c, combos);
    let base = m.start / m.g.e as u32;
    for (i, op) in c.ops.iter().enumerate() {
        let ctx = |e: String| format!("operation {i} {op:?}: {e}");
        let ops: Vec<MOp> = match *op {
            MOp::Check { rot } => (0..m.nkeys).map(|k| MOp::Fetch { k: ((k as u16 + rot as u16) % m.nkeys as u16) as u8 }).chain([MOp::Iter]).collect(),
            op => vec![op],
        };
        for o in ops {
            let o = m.concrete(&o);
            let (w0, e0) = m.sim.counts();
            m.exec(&o);
            let (w1, e1) = m.sim.counts();
            if matches!(o, MOp::Fetch { .. } | MOp::Iter | MOp::IterResume | MOp::Reopen { .. }) {
                st.hit("read_only_op");
                if (w0, e0) != (w1, e1) {
                    return Err(ctx(format!("a read-only operation wrote {} and erased {} times", w1 - w0, e1 - e0)));
                }
            }
            if matches!(o, MOp::Remove { .. } | MOp::RemoveAll) && e0 != e1 {
                return Err(ctx("a removal erased a page".into()));
            }
            wear(&m.sim, base, m.pages as u32).map_err(ctx)?;
        }
    }
    let n = m.sim.b().erase_log.len();
    st.add("erases", n as u64);
    if n > m.pages {
        st.hit("full_round");
    }
    st.nontrivial = n > m.pages;
    Ok(())
}

fn queue_wear(c: &QCase, st: &mut Stats) -> Result<(), String> {
    queue_wear_on(c, combos::queue(), st)
}

fn queue_wear_on(c: &QCase, combos: &[QueueCombo], st: &mut Stats) -> Result<(), String> {
    let mut q = QRun::new(c, combos);
    let base = q.start / q.g.e as u32;
    for (i, op) in c.ops.iter().enumerate() {
        let ctx = |e: String| format!("operation {i} {op:?}: {e}");
        let ops: Vec<QOp> = match *op {
            QOp::Check => vec![
                QOp::Peek,
                QOp::MaxFit,
                QOp::SpaceLeft,
                QOp::Iter { plan: crate::sut::IterPlan { mask: 0, stop: 255, resume: false } },
            ],
            QOp::PopN { n } => vec![QOp::Pop; n as usize],
            QOp::PushFit { pat, .. } => match q.sut.max_fit() {
                crate::sim::Out::Ok(Some(f)) => vec![QOp::Push { len: Len::Exact(f as u16), pat, ow: false }],
                _ => vec![],
            },
            op => vec![op],
        };
        for o in ops {
            let before = q.parsed();
            let w0 = q.sim.counts().0;
            let l0 = q.sim.b().erase_log.len();
            q.exec(&o);
            let w1 = q.sim.b().n_writes;
            let log = q.sim.b().erase_log[l0..].to_vec();
            let reader = match o {
                QOp::Peek | QOp::MaxFit | QOp::SpaceLeft | QOp::Reopen { .. } => true,
                QOp::Iter { plan } => plan.mask == 0,
                _ => false,
            };
            if reader {
                st.hit("read_only_op");
                if w1 != w0 {
                    return Err(ctx(format!("a read-only operation wrote {} times", w1 - w0)));
                }
            }
            if !matches!(o, QOp::Push { ow: true, .. }) {
                for p in &log {
                    st.hit("erase_of_emptied_page");
                    let bp = &before[(p - base) as usize];
                    let left = bp.valid().count();
                    // The operation itself may have popped what was still there.
                    let popping = matches!(o, QOp::Pop | QOp::Iter { .. });
                    if left > 0 && !popping {
                        return Err(ctx(format!("page {} was erased while it held {left} items", p - base)));
                    }
                }
            }
            wear(&q.sim, base, q.pages as u32).map_err(ctx)?;
        }
    }
    let n = q.sim.b().erase_log.len();
    st.add("erases", n as u64);
    if n > q.pages {
        st.hit("full_round");
    }
    st.nontrivial = n > q.pages;
    Ok(())
}

pub fn p11() -> Check {
    let w = Weights { erase_all: 0, ..W_FULL };
    let qw = QWeights { erase_all: 0, ..QW_FULL };
    Check {
        id: "P11",
        level: "exploration",
        rule: "a history counts when every page was erased at least once and one of them twice",
        assumptions: &["uninterrupted use without erase_all, starting from blank flash"],
        must_hit: &["erases", "full_round", "read_only_op", "erase_of_emptied_page"],
        phases: vec![
            phase("map", 40_000, move || case_strat(combos::map().len(), mop_strat(w, None), 120, 8), map_wear),
            phase("map-long", 2_000, move || case_strat(combos::map().len(), mop_strat(w, None), 900, 8), map_wear),
            phase("queue", 60_000, move || qcase_strat(combos::queue().len(), qop_strat(qw, None), 150), queue_wear),
            phase("queue-long", 3_000, move || qcase_strat(combos::queue().len(), qop_strat(qw, None), 900), queue_wear),
            phase("map, many pages", 20, move || wide::map_case(w, None), |c, st| map_wear_on(c, combos::wide_map(), st)),
            phase("queue, many pages", 150, move || wide::queue_case(qw, None), |c, st| queue_wear_on(c, combos::wide_queue(), st)),
        ],
    }
}
