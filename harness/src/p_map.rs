//! P01..P04: the map as a dictionary, its capacity, power failure, cancellation and flash errors.

use crate::combos;
use crate::mapx::*;
use crate::p_format::ODD_LENGTHS;
use crate::wide;
use crate::runner::{Check, Stats, phase};
use crate::sut::MapCombo;
use crate::sim::{Access, Arm, FaultKind, FaultOn};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn run_ops(c: &MapCase, combos: &[MapCombo], st: &mut Stats) -> Result<MapRun, String> {
    let mut run = MapRun::new(c, combos);
    for (i, op) in c.ops.iter().enumerate() {
        run.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
    }
    Ok(run)
}

fn history(c: &MapCase, st: &mut Stats) -> Result<(), String> {
    history_on(c, combos::map(), st)
}

fn history_on(c: &MapCase, combos: &[MapCombo], st: &mut Stats) -> Result<(), String> {
    let mut run = run_ops(c, combos, st)?;
    run.check_all(c.nkeys, st).map_err(|e| format!("at the end: {e}"))?;
    // And once more through a new instance.
    run.restart();
    run.check_all(c.nkeys + 1, st).map_err(|e| format!("after re-opening: {e}"))?;
    Ok(())
}

pub fn p01() -> Check {
    Check {
        id: "P01",
        level: "exploration",
        rule: "a history counts when at least one store recycled a page (erased it) and at least one fetch found a value",
        assumptions: &["the reference dictionary in mapx.rs (about 100 lines) is the specification"],
        must_hit: &["store_with_erase", "remove_ok", "remove_all_ok", "iter", "reopen", "erase_all", "fetch_none"],
        phases: vec![phase(
            "history",
            108000,
            || prop_oneof![
                3 => case_strat(combos::map().len(), mop_strat(W_FULL, None), 60, 6),
                1 => case_strat(combos::map().len(), mop_strat(W_FULL, None), 150, 16),
            ],
            |c: &MapCase, st| {
                history(c, st)?;
                st.nontrivial = st.get("store_with_erase") > 0 && st.get("fetch_some") > 0;
                Ok(())
            },
        ),
        phase(
            "long-lived",
            3000,
            || case_strat(
                combos::map().len(),
                mop_strat(Weights { erase_all: 0, remove_all: 0, ..W_FULL }, None),
                700,
                8,
            ),
            |c: &MapCase, st| {
                history(c, st)?;
                st.nontrivial = st.get("store_with_erase") > 4 && st.get("fetch_some") > 0;
                Ok(())
            },
        ),
        phase(
            "large pages",
            300,
            || large_pages(mop_strat(W_FULL, None)),
            |c: &MapCase, st| {
                history_on(c, combos::large_map(), st)?;
                st.nontrivial = st.get("store_ok") > 2 && st.get("fetch_some") > 0;
                Ok(())
            },
        ),
        phase(
            "many pages",
            70,
            || wide::map_case(W_FULL, None),
            |c: &MapCase, st| {
                history_on(c, combos::wide_map(), st)?;
                st.nontrivial = st.get("store_with_erase") > 0 && st.get("fetch_some") > 0;
                Ok(())
            },
        )],
    }
}

/// Pages longer than an item can be, and lengths at the limits of the length field.
fn large_pages(ops: BoxedStrategy<MOp>) -> BoxedStrategy<MapCase> {
    case_strat(combos::large_map().len(), ops, 14, 4)
        .prop_map(|mut c| {
            c.pages = c.pages.min(3);
            for op in &mut c.ops {
                if let MOp::Store { len, pat, .. } = op
                    && *pat % 8 == 7
                {
                    *len = Len::Exact(ODD_LENGTHS[*pat as usize % ODD_LENGTHS.len()].saturating_sub(1));
                }
            }
            c
        })
        .boxed()
}

fn cap_ops(tight: bool) -> BoxedStrategy<MOp> {
    let w = Weights { store: if tight { 4 } else { 25 }, fetch: 3, remove: 4, remove_all: 1, iter: 1, reopen: 1, erase_all: 0, check: 2 };
    prop_oneof![
        20 => mop_strat(w, None),
        20 => (0u8..16, any::<u8>(), prop_oneof![5 => Just(0u8), 2 => 1u8..12, 1 => any::<u8>()])
            .prop_map(|(k, pat, over)| MOp::StoreFit { k, pat, over }),
        1 => (0u16..80).prop_map(|n| MOp::SmallBuf { n }),
    ]
    .boxed()
}

pub fn p02() -> Check {
    Check {
        id: "P02",
        level: "exploration",
        rule: "a history counts when a store that the capacity rule guarantees was made with the map at least half full, or a store was refused as full or too big and the contents were compared afterwards",
        assumptions: &[
            "capacity rule: live item bytes (counting the old value of the same key) <= (pages - 1) * (page capacity - size of the new item)",
        ],
        must_hit: &["store_near_capacity", "store_full", "store_too_big", "store_ok", "refused_small_buffer"],
        phases: vec![
            phase(
                "tight",
                84000,
                || case_strat(combos::map().len(), cap_ops(true), 60, 16),
                |c: &MapCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("store_near_capacity") + st.get("store_full") + st.get("store_too_big") > 0;
                    Ok(())
                },
            ),
            phase(
                "large pages",
                300,
                || large_pages(cap_ops(true)),
                |c: &MapCase, st| {
                    history_on(c, combos::large_map(), st)?;
                    st.nontrivial = st.get("store_near_capacity") + st.get("store_full") + st.get("store_too_big") > 0;
                    Ok(())
                },
            ),
            phase(
                "overshoot",
                60000,
                || case_strat(combos::map().len(), cap_ops(false), 80, 16),
                |c: &MapCase, st| {
                    // After every refusal the whole contents are compared.
                    let mut run = MapRun::new(c, combos::map());
                    for (i, op) in c.ops.iter().enumerate() {
                        let before = st.get("store_full") + st.get("store_too_big") + st.get("refused_small_buffer");
                        run.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
                        if st.get("store_full") + st.get("store_too_big") + st.get("refused_small_buffer") > before {
                            run.check_all(i as u8, st)
                                .map_err(|e| format!("after the refused operation {i} {op:?}: {e}"))?;
                        }
                    }
                    run.check_all(c.nkeys, st).map_err(|e| format!("at the end: {e}"))?;
                    st.nontrivial = st.get("store_full") + st.get("store_too_big") > 0;
                    Ok(())
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ P03

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct CrashCase {
    pub setup: MapCase,
    pub last: MOp,
    /// Varies what is done after each crash.
    pub salt: u16,
}

/// Byte counts of an interrupted access worth trying.
pub fn tears(len: u32, word: usize, exhaustive: bool) -> Vec<u16> {
    let mut v: Vec<u32> = if exhaustive || len <= 16 {
        (0..=len).collect()
    } else {
        let w = word as u32;
        vec![0, 1, 2, 3, 4, 5, 6, 7, 8, w, w + 1, len / 2, len.saturating_sub(w), len.saturating_sub(w + 1), len - 2, len - 1, len]
    };
    v.retain(|t| *t <= len);
    v.sort();
    v.dedup();
    v.into_iter().map(|t| t as u16).collect()
}

/// Half of the interruptions are exactly between two bytes.
pub fn bits(salt: u16) -> u16 {
    if salt & 0x40 == 0 { 0 } else { salt.wrapping_mul(0x6255) }
}

pub fn mutations(rec: &[Access]) -> Vec<(u16, u32)> {
    rec.iter()
        .filter_map(|a| match a {
            Access::Read { .. } => None,
            Access::Write { len, .. } => Some(*len),
            Access::Erase { from, to } => Some(to - from),
        })
        .enumerate()
        .map(|(i, l)| (i as u16, l))
        .collect()
}

/// Operations a fresh instance must be able to do after a crash, chosen by `salt`.
fn aftermath(run: &mut MapRun, salt: u16, st: &mut Stats) -> Result<(), String> {
    let s = salt as u8;
    match salt % 6 {
        0 => {}
        5 => run.step(&MOp::RemoveAll, st)?,
        1 => run.step(&MOp::Fetch { k: s / 5 }, st)?,
        2 => run.step(&MOp::StoreFit { k: s / 5, pat: s, over: 0 }, st)?,
        3 => run.step(&MOp::Remove { k: s / 5 }, st)?,
        _ => run.step(&MOp::Iter, st)?,
    }
    run.check_all(s, st)?;
    for i in 0..4u8 {
        let k = s.wrapping_add(i.wrapping_mul(7));
        let op = match (salt >> 3).wrapping_add(i as u16) % 4 {
            0 => MOp::StoreFit { k, pat: k, over: 0 },
            1 => MOp::Remove { k },
            _ => MOp::Store { k, len: Len::Frac(20_000), pat: k, generic: false },
        };
        run.step(&op, st)?;
    }
    run.check_all(s / 3, st)?;
    Ok(())
}

fn crash_points(c: &CrashCase, st: &mut Stats) -> Result<(), String> {
    let mut run = run_ops(&c.setup, combos::map(), st)?;
    run.sim.b().arm = None;
    // Let the model know exactly what is there.
    run.check_all(0, st)?;
    let last = run.concrete(&c.last);
    let mut probe = run.fork_restarted();
    probe.sim.b().record = Some(vec![]);
    probe.step(&last, st).map_err(|e| format!("uninterrupted {last:?}: {e}"))?;
    let rec = probe.sim.b().record.take().unwrap();
    let muts = mutations(&rec);
    st.nontrivial = !muts.is_empty();
    let mut n = 0u16;
    for (skip, len) in muts {
        for tear in tears(len, run.g.word(), false) {
            n = n.wrapping_add(1);
            let salt = c.salt.wrapping_add(n.wrapping_mul(0x9E37));
            let mut f = run.fork_restarted();
            f.sim.b().arm = Some(Arm { kind: FaultKind::PowerLoss, on: FaultOn::Mutation, skip, tear, bits: bits(salt) });
            let ctx = |e: String| format!("power lost in {last:?} at mutation {skip} after {tear} of {len} bytes: {e}");
            f.step(&last, st).map_err(ctx)?;
            st.sub_evals += 1;
            st.sub_nontrivial += 1;
            // A second failure while recovering.
            if salt % 3 == 0 {
                let arm = Arm { kind: FaultKind::PowerLoss, on: FaultOn::Mutation, skip: (salt >> 8) % 6, tear: salt >> 5, bits: bits(salt >> 4) };
                f.sim.b().arm = Some(arm);
                let op = match (salt / 3) % 4 {
                    0 => MOp::Fetch { k: salt as u8 },
                    1 => MOp::Iter,
                    2 => MOp::Remove { k: salt as u8 },
                    _ => MOp::StoreFit { k: salt as u8, pat: salt as u8, over: 0 },
                };
                f.step(&op, st).map_err(|e| format!("power lost in {last:?} at mutation {skip} after {tear} of {len} bytes, then {op:?} with {arm:?}: {e}"))?;
                if f.sim.b().arm.take().is_none() {
                    st.hit("crash_during_recovery");
                }
            }
            aftermath(&mut f, salt, st)
                .map_err(|e| format!("power lost in {last:?} at mutation {skip} after {tear} of {len} bytes (salt {salt}): {e}"))?;
        }
    }
    Ok(())
}

/// Where in an operation power is lost: not at all, or in which of its writes and erases and after how much of it.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cut {
    pub at: u16,
    pub tear: u16,
    pub bits: u16,
}

impl Cut {
    pub fn arm(&self, mutations: usize) -> Option<Arm> {
        (self.at % 4 != 0 && mutations > 0).then(|| Arm {
            kind: FaultKind::PowerLoss,
            on: FaultOn::Mutation,
            // Repairs and changes of pages come first.
            skip: if self.at / 4 % 2 == 0 { self.at / 8 % mutations.min(2) as u16 } else { self.at / 8 % mutations as u16 },
            tear: self.tear,
            bits: self.bits,
        })
    }
}

pub fn cut_strat() -> impl Strategy<Value = Cut> {
    (any::<u16>(), prop_oneof![2 => 0u16..4, 2 => any::<u16>()], prop_oneof![2 => Just(0u16), 1 => any::<u16>()])
        .prop_map(|(at, tear, bits)| Cut { at, tear, bits })
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ChainCase {
    pub setup: MapCase,
    pub chain: Vec<(MOp, Cut)>,
}

/// One power failure after the other, each in the middle of what the last one left behind. What an undisturbed
/// restart would find is looked at in between, in a copy.
fn chained(c: &ChainCase, st: &mut Stats) -> Result<(), String> {
    let setup = run_ops(&c.setup, combos::map(), st)?;
    setup.sim.b().arm = None;
    let mut run = setup.fork_restarted();
    let mut cuts = 0;
    for (i, (op, cut)) in c.chain.iter().enumerate() {
        let op = run.concrete(op);
        let mut probe = run.fork_restarted();
        probe.sim.b().record = Some(vec![]);
        let what = |e: String| format!("link {i} of the chain, {op:?} {cut:?}: {e}");
        probe.step(&op, st).map_err(what)?;
        let n = mutations(&probe.sim.b().record.take().unwrap()).len();
        let arm = cut.arm(n);
        run.sim.b().arm = arm;
        run.step(&op, st).map_err(what)?;
        if arm.is_some() && run.sim.b().arm.take().is_none() {
            cuts += 1;
        }
        run.sim.b().arm = None;
        run.fork_restarted().check_all(cut.at as u8, st).map_err(|e| what(format!("afterwards {e}")))?;
    }
    if cuts >= 2 {
        st.hit("crash_after_crash");
    }
    st.nontrivial = cuts > 0;
    run.check_all(0, st)
}

fn last_op() -> impl Strategy<Value = MOp> {
    prop_oneof![
        8 => (0u8..16, len_strat(), any::<u8>()).prop_map(|(k, len, pat)| MOp::Store { k, len, pat, generic: false }),
        4 => (0u8..16, any::<u8>()).prop_map(|(k, pat)| MOp::StoreFit { k, pat, over: 0 }),
        2 => (0u8..16).prop_map(|k| MOp::Remove { k }),
        1 => Just(MOp::RemoveAll),
    ]
}

pub fn p03() -> Check {
    Check {
        id: "P03",
        level: "fault_enumeration",
        rule: "a crash point counts when power was really cut inside a write or erase of the last operation; a random history counts when at least one power loss fired and its effect was observed",
        assumptions: &[
            "an interrupted write or erase applies a byte prefix of its range (write order ascending)",
        ],
        must_hit: &["fault_fired", "fault_in_write", "fault_in_erase", "crash_during_recovery", "crash_after_crash", "store_with_erase"],
        phases: vec![
            phase(
                "every-crash-point",
                8400,
                || (
                    case_strat(combos::map().len(), mop_strat(W_NOERASE, None), 40, 5),
                    last_op(),
                    any::<u16>(),
                )
                    .prop_map(|(setup, last, salt)| CrashCase { setup, last, salt }),
                crash_points,
            ),
            phase(
                "random-crashes",
                108000,
                || case_strat(
                    combos::map().len(),
                    mop_strat(W_NOERASE, Some((14, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation, FaultOn::Mutation, FaultOn::Any]))),
                    60,
                    6,
                ),
                |c: &MapCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
            phase(
                "chained-crashes",
                120000,
                || (
                    case_strat(combos::map().len(), mop_strat(W_NOERASE, None), 30, 3),
                    proptest::collection::vec(
                        (
                            prop_oneof![
                                4 => last_op(),
                                2 => (0u8..16, any::<u8>()).prop_map(|(k, pat)| MOp::StoreFit { k, pat, over: 0 }),
                                4 => (0u8..16).prop_map(|k| MOp::Remove { k }),
                                1 => (0u8..16).prop_map(|k| MOp::Fetch { k }),
                                1 => Just(MOp::Iter),
                            ],
                            cut_strat(),
                        ),
                        3..=10,
                    ),
                )
                    .prop_map(|(setup, chain)| ChainCase { setup, chain }),
                chained,
            ),
            phase(
                "many pages",
                35,
                || wide::map_case(W_NOERASE, Some((20, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation]))),
                |c: &MapCase, st| {
                    history_on(c, combos::wide_map(), st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ P04

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct FaultCase {
    pub setup: MapCase,
    pub last: MOp,
    pub kind: FaultKind,
    pub salt: u16,
}

fn fault_points(c: &FaultCase, st: &mut Stats) -> Result<(), String> {
    // The same instance must survive, so every point replays the history.
    let mut run = run_ops(&c.setup, combos::map(), st)?;
    run.sim.b().arm = None;
    run.sim.b().record = Some(vec![]);
    let last = run.concrete(&c.last);
    run.step(&last, st).map_err(|e| format!("uninterrupted {last:?}: {e}"))?;
    let n = run.sim.b().record.take().unwrap().len() as u16;
    st.nontrivial = n > 0;
    let stride = (n / 48).max(1);
    let mut i = c.salt % stride;
    while i < n {
        let mut quiet = Stats::default();
        let mut f = run_ops(&c.setup, combos::map(), &mut quiet)?;
        let salt = c.salt.wrapping_add(i.wrapping_mul(0x9E37));
        let arm = Arm { kind: c.kind, on: FaultOn::Any, skip: i, tear: salt >> 3, bits: bits(salt) };
        f.sim.b().arm = Some(arm);
        let ctx = |e: String| format!("{last:?} with {arm:?} (salt {salt}): {e}");
        f.step(&last, st).map_err(ctx)?;
        f.sim.b().arm = None;
        st.sub_evals += 1;
        st.sub_nontrivial += 1;
        if salt % 4 == 0 {
            let arm2 = Arm { kind: c.kind, on: FaultOn::Any, skip: (salt >> 8) % 24, tear: salt >> 5, bits: bits(salt >> 4) };
            f.sim.b().arm = Some(arm2);
            let op = match (salt / 4) % 5 {
                0 => MOp::Fetch { k: salt as u8 },
                1 => MOp::Iter,
                2 => MOp::Remove { k: salt as u8 },
                3 => MOp::RemoveAll,
                _ => MOp::StoreFit { k: salt as u8, pat: salt as u8, over: 0 },
            };
            f.step(&op, st).map_err(|e| format!("{last:?} with {arm:?}, then {op:?} with {arm2:?}: {e}"))?;
            f.sim.b().arm = None;
            st.hit("second_fault_armed");
        }
        aftermath(&mut f, salt, st).map_err(ctx)?;
        i += stride;
    }
    Ok(())
}

pub fn p04() -> Check {
    let kinds = || vec![FaultKind::Cancel, FaultKind::IoError];
    Check {
        id: "P04",
        level: "fault_enumeration",
        rule: "an execution counts when a future was dropped or a flash access failed inside the last operation; a random history counts when at least one such fault fired",
        assumptions: &["an interrupted write or erase applies a byte prefix of its range", "awaits only happen at flash accesses (true of the library: it awaits nothing else)"],
        must_hit: &["fault_fired", "fault_in_read", "fault_in_write", "fault_in_erase", "second_fault_armed"],
        phases: vec![
            phase(
                "every-access",
                14400,
                move || (
                    case_strat(combos::map().len(), mop_strat(W_NOERASE, None), 30, 5),
                    prop_oneof![5 => last_op(), 1 => (0u8..16).prop_map(|k| MOp::Fetch { k }), 1 => Just(MOp::Iter)],
                    proptest::sample::select(kinds()),
                    any::<u16>(),
                )
                    .prop_map(|(setup, last, kind, salt)| FaultCase { setup, last, kind, salt }),
                fault_points,
            ),
            phase(
                "random-faults",
                108000,
                move || case_strat(
                    combos::map().len(),
                    mop_strat(
                        W_NOERASE,
                        Some((14, vec![FaultKind::Cancel, FaultKind::IoError], vec![FaultOn::Mutation, FaultOn::Any, FaultOn::Read])),
                    ),
                    60,
                    6,
                ),
                |c: &MapCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
            phase(
                "faults and power failures",
                60000,
                move || case_strat(
                    combos::map().len(),
                    mop_strat(
                        W_NOERASE,
                        Some((18, vec![FaultKind::Cancel, FaultKind::IoError, FaultKind::PowerLoss], vec![FaultOn::Mutation, FaultOn::Any])),
                    ),
                    60,
                    6,
                ),
                |c: &MapCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
        ],
    }
}
