//! P05..P08: the queue as a FIFO, its capacity answers, power failure, cancellation and flash errors.

use crate::combos;
use crate::mapx::{Len, len_strat};
use crate::p_map::{Cut, bits, cut_strat, mutations, tears};
use crate::queuex::*;
use crate::wide;
use crate::runner::{Check, Stats, phase};
use crate::sim::{Arm, FaultKind, FaultOn};
use crate::p_format::ODD_LENGTHS;
use crate::sut::{IterPlan, QueueCombo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn run_ops(c: &QCase, combos: &[QueueCombo], st: &mut Stats) -> Result<QRun, String> {
    let mut run = QRun::new(c, combos);
    for (i, op) in c.ops.iter().enumerate() {
        run.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
    }
    Ok(run)
}

/// Everything left comes out, in order, and the emptied queue takes a full-size item again.
fn drain(run: &mut QRun, st: &mut Stats) -> Result<(), String> {
    run.sim.b().arm = None;
    let n = run.worlds.iter().map(|w| w.len()).max().unwrap_or(0);
    for _ in 0..=n {
        run.step(&QOp::Pop, st)?;
    }
    Ok(())
}

/// Pages longer than an item can be, and lengths at the limits of the length field.
fn large_pages(ops: BoxedStrategy<QOp>) -> BoxedStrategy<QCase> {
    qcase_strat(combos::large_queue().len(), ops, 14)
        .prop_map(|mut c| {
            c.pages = c.pages.min(3);
            for op in &mut c.ops {
                if let QOp::Push { len, pat, .. } = op
                    && *pat % 8 == 7
                {
                    *len = Len::Exact(ODD_LENGTHS[*pat as usize % ODD_LENGTHS.len()]);
                }
            }
            c
        })
        .boxed()
}

fn history(c: &QCase, st: &mut Stats) -> Result<(), String> {
    history_on(c, combos::queue(), st)
}

fn history_on(c: &QCase, combos: &[QueueCombo], st: &mut Stats) -> Result<(), String> {
    let mut run = run_ops(c, combos, st)?;
    run.check_all(st).map_err(|e| format!("at the end: {e}"))?;
    run.restart();
    run.check_all(st).map_err(|e| format!("after re-opening: {e}"))?;
    drain(&mut run, st).map_err(|e| format!("draining: {e}"))?;
    run.step(&QOp::Push { len: Len::Top(0), pat: 9, ow: false }, st)
        .map_err(|e| format!("full-size push into the emptied queue: {e}"))?;
    run.check_all(st).map_err(|e| format!("after the final push: {e}"))?;
    Ok(())
}

pub fn p05() -> Check {
    Check {
        id: "P05",
        level: "exploration",
        rule: "a history counts when items were popped, a page was recycled (erased) and at least three items passed through",
        assumptions: &["the reference FIFO in queuex.rs is the specification; which items an overwriting push drops is taken from decoding the flash with the independent decoder"],
        must_hit: &["op_with_erase", "pop_some", "peek_some", "iter", "iter_pop", "reopen", "queue_empty", "push_overwrote"],
        phases: vec![
            phase(
                "history",
                108000,
                || qcase_strat(combos::queue().len(), qop_strat(QW_FULL, None), 70),
                |c: &QCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("op_with_erase") > 0 && st.get("pop_some") + st.get("iter_pop") > 0
                        && st.get("push_ok") >= 3;
                    Ok(())
                },
            ),
            phase(
                "long-lived",
                3600,
                || qcase_strat(combos::queue().len(), qop_strat(QWeights { erase_all: 0, ..QW_FULL }, None), 600),
                |c: &QCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("op_with_erase") > 4 && st.get("pop_some") > 0;
                    Ok(())
                },
            ),
            phase(
                "many pages",
                200,
                || wide::queue_case(QW_FULL, None),
                |c: &QCase, st| {
                    history_on(c, combos::wide_queue(), st)?;
                    st.nontrivial = st.get("op_with_erase") > 4 && st.get("pop_some") > 0;
                    Ok(())
                },
            ),
        ],
    }
}

pub fn p06() -> Check {
    let w = QWeights { push: 20, push_ow: 12, push_fit: 12, pop: 14, popn: 2, peek: 1, iter: 3, query: 6, reopen: 2, erase_all: 1, check: 1 };
    Check {
        id: "P06",
        level: "exploration",
        rule: "a history counts when a push was refused as full, or exactly the reported largest size was pushed, or an overwriting push dropped items",
        assumptions: &["the independent decoder of the flash image says what is unwritten and what an overwriting push may drop"],
        must_hit: &["push_full", "push_max_fit_ok", "push_above_max_fit_refused", "push_overwrote", "push_too_big", "max_fit_ok", "space_left_ok"],
        phases: vec![phase(
            "capacity",
            168000,
            move || qcase_strat(combos::queue().len(), qop_strat(w, None), 60),
            |c: &QCase, st| {
                history(c, st)?;
                st.nontrivial = st.get("push_full") + st.get("push_max_fit_ok") + st.get("push_overwrote") > 0;
                Ok(())
            },
        ),
        phase(
            "large pages",
            300,
            move || large_pages(qop_strat(w, None)),
            |c: &QCase, st| {
                history_on(c, combos::large_queue(), st)?;
                st.nontrivial = st.get("push_full") + st.get("push_max_fit_ok") + st.get("push_overwrote") > 0;
                Ok(())
            },
        )],
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct QCrashCase {
    pub setup: QCase,
    pub last: QOp,
    pub kind: FaultKind,
    pub salt: u16,
}

fn last_op() -> impl Strategy<Value = QOp> {
    prop_oneof![
        5 => (len_strat(), any::<u8>(), any::<bool>()).prop_map(|(len, pat, ow)| QOp::Push { len, pat, ow }),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(pat, ow)| QOp::Push { len: Len::Top(-1), pat, ow }),
        2 => Just(QOp::Pop),
        3 => plan_strat().prop_map(|plan| QOp::Iter { plan }),
    ]
}

fn aftermath(run: &mut QRun, salt: u16, st: &mut Stats) -> Result<(), String> {
    let plan = IterPlan { mask: salt as u64 * 0x1_0001_0001, stop: 255, resume: false };
    match salt % 5 {
        0 => {}
        1 => run.step(&QOp::Pop, st)?,
        2 => run.step(&QOp::Push { len: Len::Small(5), pat: 77, ow: false }, st)?,
        3 => run.step(&QOp::Push { len: Len::Top(0), pat: 78, ow: true }, st)?,
        _ => run.step(&QOp::Iter { plan }, st)?,
    }
    run.check_all(st)?;
    for i in 0..5u16 {
        let op = match (salt >> 3).wrapping_add(i * 5) % 6 {
            0 => QOp::Pop,
            1 => QOp::Push { len: Len::Small(salt as u8), pat: i as u8 + 40, ow: false },
            2 => QOp::Push { len: Len::Frac(salt), pat: i as u8 + 50, ow: true },
            3 => QOp::Iter { plan },
            4 => QOp::PushFit { d: (i % 2) as u8, pat: 99 },
            _ => QOp::Peek,
        };
        run.step(&op, st)?;
    }
    run.check_all(st)?;
    if salt % 2 == 0 {
        drain(run, st)?;
        run.check_all(st)?;
    }
    Ok(())
}

fn crash_points(c: &QCrashCase, st: &mut Stats) -> Result<(), String> {
    let mut run = run_ops(&c.setup, combos::queue(), st)?;
    run.sim.b().arm = None;
    run.check_all(st)?;
    let last = c.last;
    let mut probe = run.fork_restarted();
    probe.sim.b().record = Some(vec![]);
    probe.step(&last, st).map_err(|e| format!("uninterrupted {last:?}: {e}"))?;
    let rec = probe.sim.b().record.take().unwrap();
    let muts = mutations(&rec);
    st.nontrivial = !muts.is_empty();
    let mut n = 0u16;
    for (skip, len) in muts {
        for tear in tears(len, run.g.word(), false) {
            n = n.wrapping_add(1);
            let salt = c.salt.wrapping_add(n.wrapping_mul(0x9E37));
            let ctx = |e: String| format!("power lost in {last:?} at mutation {skip} after {tear} of {len} bytes (salt {salt}): {e}");
            let mut f = run.fork_restarted();
            f.sim.b().arm = Some(Arm { kind: FaultKind::PowerLoss, on: FaultOn::Mutation, skip, tear, bits: bits(salt) });
            f.step(&last, st).map_err(ctx)?;
            st.sub_evals += 1;
            st.sub_nontrivial += 1;
            if salt % 3 == 0 {
                let arm = Arm { kind: FaultKind::PowerLoss, on: FaultOn::Mutation, skip: (salt >> 8) % 5, tear: salt >> 5, bits: bits(salt >> 4) };
                f.sim.b().arm = Some(arm);
                let op = match (salt / 3) % 4 {
                    0 => QOp::Pop,
                    1 => QOp::Push { len: Len::Frac(salt), pat: 66, ow: true },
                    2 => QOp::Push { len: Len::Small(9), pat: 67, ow: false },
                    _ => QOp::Iter { plan: IterPlan { mask: salt as u64, stop: 255, resume: false } },
                };
                f.step(&op, st).map_err(|e| ctx(format!("then {op:?} with {arm:?}: {e}")))?;
                if f.sim.b().arm.take().is_none() {
                    st.hit("crash_during_recovery");
                }
            }
            aftermath(&mut f, salt, st).map_err(ctx)?;
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct QChainCase {
    pub setup: QCase,
    pub chain: Vec<(QOp, Cut)>,
}

/// See the one for maps.
fn chained(c: &QChainCase, st: &mut Stats) -> Result<(), String> {
    let setup = run_ops(&c.setup, combos::queue(), st)?;
    setup.sim.b().arm = None;
    let mut run = setup.fork_restarted();
    let mut cuts = 0;
    for (i, (op, cut)) in c.chain.iter().enumerate() {
        let mut probe = run.fork_restarted();
        probe.sim.b().record = Some(vec![]);
        let what = |e: String| format!("link {i} of the chain, {op:?} {cut:?}: {e}");
        probe.step(op, st).map_err(what)?;
        let n = mutations(&probe.sim.b().record.take().unwrap()).len();
        let arm = cut.arm(n);
        run.sim.b().arm = arm;
        run.step(op, st).map_err(what)?;
        if arm.is_some() && run.sim.b().arm.take().is_none() {
            cuts += 1;
        }
        run.sim.b().arm = None;
        run.fork_restarted().check_all(st).map_err(|e| what(format!("afterwards {e}")))?;
    }
    if cuts >= 2 {
        st.hit("crash_after_crash");
    }
    st.nontrivial = cuts > 0;
    run.check_all(st)?;
    drain(&mut run, st)
}

pub fn p07() -> Check {
    let w = QWeights { erase_all: 0, ..QW_FULL };
    Check {
        id: "P07",
        level: "fault_enumeration",
        rule: "a crash point counts when power was really cut inside a write or erase of the last operation; a random history counts when at least one power loss fired",
        assumptions: &[
            "an interrupted write or erase applies a byte prefix of its range (write order ascending)",
        ],
        must_hit: &["fault_fired", "fault_in_write", "fault_in_erase", "crash_during_recovery", "crash_after_crash", "push_overwrote", "pop_some"],
        phases: vec![
            phase(
                "every-crash-point",
                12000,
                move || (
                    qcase_strat(combos::queue().len(), qop_strat(w, None), 40),
                    last_op(),
                    any::<u16>(),
                )
                    .prop_map(|(setup, last, salt)| QCrashCase { setup, last, kind: FaultKind::PowerLoss, salt }),
                crash_points,
            ),
            phase(
                "chained-crashes",
                120000,
                move || (
                    qcase_strat(combos::queue().len(), qop_strat(w, None), 40),
                    proptest::collection::vec((last_op(), cut_strat()), 2..=7),
                )
                    .prop_map(|(setup, chain)| QChainCase { setup, chain }),
                chained,
            ),
            phase(
                "random-crashes",
                108000,
                move || qcase_strat(
                    combos::queue().len(),
                    qop_strat(w, Some((12, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation, FaultOn::Mutation, FaultOn::Any]))),
                    60,
                ),
                |c: &QCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
            phase(
                "many pages",
                200,
                move || wide::queue_case(w, Some((20, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation]))),
                |c: &QCase, st| {
                    history_on(c, combos::wide_queue(), st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
        ],
    }
}

fn fault_points(c: &QCrashCase, st: &mut Stats) -> Result<(), String> {
    let mut run = run_ops(&c.setup, combos::queue(), st)?;
    run.sim.b().arm = None;
    run.sim.b().record = Some(vec![]);
    let last = c.last;
    run.step(&last, st).map_err(|e| format!("uninterrupted {last:?}: {e}"))?;
    let n = run.sim.b().record.take().unwrap().len() as u16;
    st.nontrivial = n > 0;
    let stride = (n / 48).max(1);
    let mut i = c.salt % stride;
    while i < n {
        let mut quiet = Stats::default();
        let mut f = run_ops(&c.setup, combos::queue(), &mut quiet)?;
        let salt = c.salt.wrapping_add(i.wrapping_mul(0x9E37));
        let arm = Arm { kind: c.kind, on: FaultOn::Any, skip: i, tear: salt >> 3, bits: bits(salt) };
        f.sim.b().arm = Some(arm);
        let ctx = |e: String| format!("{last:?} with {arm:?} (salt {salt}): {e}");
        f.step(&last, st).map_err(ctx)?;
        f.sim.b().arm = None;
        st.sub_evals += 1;
        st.sub_nontrivial += 1;
        if salt % 4 == 0 {
            let arm2 = Arm { kind: c.kind, on: FaultOn::Any, skip: (salt >> 8) % 24, tear: salt >> 5, bits: bits(salt >> 4) };
            f.sim.b().arm = Some(arm2);
            let op = match (salt / 4) % 6 {
                0 => QOp::Pop,
                1 => QOp::Push { len: Len::Frac(salt), pat: 66, ow: true },
                2 => QOp::Push { len: Len::Small(9), pat: 67, ow: false },
                3 => QOp::MaxFit,
                4 => QOp::SpaceLeft,
                _ => QOp::Iter { plan: IterPlan { mask: salt as u64, stop: 255, resume: true } },
            };
            f.step(&op, st).map_err(|e| ctx(format!("then {op:?} with {arm2:?}: {e}")))?;
            f.sim.b().arm = None;
            st.hit("second_fault_armed");
        }
        aftermath(&mut f, salt, st).map_err(ctx)?;
        i += stride;
    }
    Ok(())
}

pub fn p08() -> Check {
    let w = QWeights { erase_all: 0, ..QW_FULL };
    Check {
        id: "P08",
        level: "fault_enumeration",
        rule: "an execution counts when a future was dropped or a flash access failed inside the last operation; a random history counts when at least one such fault fired",
        assumptions: &["an interrupted write or erase applies a byte prefix of its range", "awaits only happen at flash accesses"],
        must_hit: &["fault_fired", "fault_in_read", "fault_in_write", "fault_in_erase", "second_fault_armed"],
        phases: vec![
            phase(
                "every-access",
                18000,
                move || (
                    qcase_strat(combos::queue().len(), qop_strat(w, None), 30),
                    prop_oneof![8 => last_op(), 1 => Just(QOp::MaxFit), 1 => Just(QOp::SpaceLeft), 1 => Just(QOp::Peek)],
                    proptest::sample::select(vec![FaultKind::Cancel, FaultKind::IoError]),
                    any::<u16>(),
                )
                    .prop_map(|(setup, last, kind, salt)| QCrashCase { setup, last, kind, salt }),
                fault_points,
            ),
            phase(
                "random-faults",
                108000,
                move || qcase_strat(
                    combos::queue().len(),
                    qop_strat(
                        w,
                        Some((12, vec![FaultKind::Cancel, FaultKind::IoError], vec![FaultOn::Mutation, FaultOn::Any, FaultOn::Read])),
                    ),
                    60,
                ),
                |c: &QCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
            phase(
                "faults and power failures",
                60000,
                move || qcase_strat(
                    combos::queue().len(),
                    qop_strat(
                        w,
                        Some((18, vec![FaultKind::Cancel, FaultKind::IoError, FaultKind::PowerLoss], vec![FaultOn::Mutation, FaultOn::Any])),
                    ),
                    60,
                ),
                |c: &QCase, st| {
                    history(c, st)?;
                    st.nontrivial = st.get("fault_fired") > 0;
                    Ok(())
                },
            ),
        ],
    }
}
