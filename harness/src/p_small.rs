//! P20 caller buffers that are too small.

use crate::combos;
use crate::format::IState;
use crate::mapx::*;
use crate::queuex::*;
use crate::runner::{Check, Stats, phase};
use crate::sim::{Er, FaultKind, FaultOn};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Buffer for one operation.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Buf {
    Full,
    Abs(u16),
    /// Size of the n-th stored item (rounded up to a word), plus the offset.
    Item(u8, i8),
    /// Size of the longest item involved, plus the offset.
    Need(i8),
}

fn buf_strat() -> impl Strategy<Value = Buf> {
    prop_oneof![
        3 => Just(Buf::Full),
        2 => (0u16..80).prop_map(Buf::Abs),
        2 => (any::<u8>(), -9i8..3).prop_map(|(i, d)| Buf::Item(i, d)),
        2 => (-9i8..2).prop_map(Buf::Need),
    ]
}

/// Lengths of everything on flash that has to be read, rounded up as documented.
fn lens(pages: &[crate::format::Page], word: usize) -> Vec<usize> {
    pages
        .iter()
        .flat_map(|p| &p.items)
        .filter(|i| i.state != IState::Erased)
        .map(|i| i.len.next_multiple_of(word))
        .collect()
}

impl Buf {
    fn get(self, lens: &[usize], extra: usize) -> Option<usize> {
        let off = |n: usize, d: i8| Some((n as i64 + d as i64).max(0) as usize);
        match self {
            Buf::Full => None,
            Buf::Abs(n) => Some(n as usize),
            Buf::Item(i, d) if !lens.is_empty() => off(lens[i as usize % lens.len()], d),
            Buf::Item(_, d) => off(extra, d),
            Buf::Need(d) => off(lens.iter().copied().max().unwrap_or(0).max(extra), d),
        }
    }
}

fn refusals(refused: &[Er], n: usize, need: usize, clean: bool) -> Result<(), String> {
    for e in refused {
        if let Er::TooSmall(m) = e {
            if *m <= n {
                return Err(format!("a buffer of {n} bytes was refused although only {m} are said to be needed"));
            }
            if clean && *m > need {
                return Err(format!("a buffer of {m} bytes is said to be needed, but {need} are enough for every item"));
            }
        }
        if clean && n >= need {
            return Err(format!("a buffer of {n} bytes was refused, but {need} are enough for every item"));
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct MSmall {
    pub c: MapCase,
    pub bufs: Vec<Buf>,
}

fn map_small(c: &MSmall, st: &mut Stats) -> Result<(), String> {
    let mut r = MapRun::new(&c.c, combos::map());
    let full = r.g.e.max(64);
    for (i, op) in c.c.ops.iter().enumerate() {
        let op = &r.concrete(op);
        let buf = c.bufs[i % c.bufs.len()];
        let ls = lens(&r.parsed(), r.g.word());
        let extra = match *op {
            MOp::Store { k, len, .. } => {
                let kk = r.key(k);
                (r.sut.key_len(kk) + len.get(r.max_val(kk))).next_multiple_of(r.g.word())
            }
            _ => 0,
        };
        let need = ls.iter().copied().max().unwrap_or(0).max(extra);
        let n = buf.get(&ls, extra).map(|n| n.min(full));
        if !matches!(op, MOp::Fault { .. } | MOp::Check { .. } | MOp::Reopen { .. } | MOp::EraseAll) {
            r.small = n;
        }
        let had = r.small;
        r.step(op, st).map_err(|e| format!("operation {i} {op:?} with buffer {n:?}: {e}"))?;
        let Some(mut n) = had else { continue };
        let clean = !r.faults_seen;
        refusals(&r.refused, n, need, clean).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        if !r.refused.is_empty() {
            st.hit(match op {
                MOp::Store { .. } => "store_refused",
                MOp::Fetch { .. } => "fetch_refused",
                MOp::Remove { .. } | MOp::RemoveAll => "remove_refused",
                MOp::Iter | MOp::IterResume => "iter_refused",
                _ => "other_refused",
            });
            match i % 3 {
                // Grow the buffer by what the errors say until it is accepted.
                0 => {
                    let mut rounds = 0;
                    while let Some(e) = r.refused.last().cloned() {
                        n = match e {
                            Er::TooSmall(m) => m,
                            _ => n + 1,
                        };
                        rounds += 1;
                        if rounds > 2000 {
                            return Err(format!("operation {i} {op:?}: still refused with a buffer of {n} bytes"));
                        }
                        r.small = Some(n);
                        r.step(op, st).map_err(|e| format!("operation {i} {op:?} with its buffer grown to {n}: {e}"))?;
                        refusals(&r.refused, n, need, clean).map_err(|e| format!("operation {i} {op:?} again: {e}"))?;
                        if matches!(op, MOp::IterResume) {
                            break;
                        }
                    }
                    st.hit("grown_until_accepted");
                }
                1 => r.check_all(i as u8, st).map_err(|e| format!("after refused operation {i} {op:?}: {e}"))?,
                _ => {}
            }
        }
        if st.get("refused_small_buffer") > 0 {
            st.nontrivial = true;
        }
    }
    r.check_all(1, st).map_err(|e| format!("at the end: {e}"))?;
    r.restart();
    r.check_all(0, st).map_err(|e| format!("after re-opening: {e}"))
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct QSmall {
    pub c: QCase,
    pub bufs: Vec<Buf>,
}

fn queue_small(c: &QSmall, st: &mut Stats) -> Result<(), String> {
    let mut r = QRun::new(&c.c, combos::queue());
    let full = r.g.e.max(64);
    for (i, op) in c.c.ops.iter().enumerate() {
        let buf = c.bufs[i % c.bufs.len()];
        let ls = lens(&r.parsed(), r.g.word());
        let need = ls.iter().copied().max().unwrap_or(0);
        let n = buf.get(&ls, 0).map(|n| n.min(full));
        if matches!(op, QOp::Pop | QOp::Peek | QOp::Iter { .. }) {
            r.small = n;
        }
        let had = r.small;
        let before = r.image();
        r.step(op, st).map_err(|e| format!("operation {i} {op:?} with buffer {n:?}: {e}"))?;
        let Some(n) = had else { continue };
        let clean = !r.faults_seen;
        refusals(&r.refused, n, need, clean).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        if let Some(e) = r.refused.last().cloned() {
            st.nontrivial = true;
            st.hit(match op {
                QOp::Pop => "pop_refused",
                QOp::Peek => "peek_refused",
                _ => "queue_iter_refused",
            });
            let single = matches!(op, QOp::Pop | QOp::Peek);
            if clean && single {
                let after = r.image();
                let lost = crate::format::queue_contents(&crate::format::parse(r.g, &after))
                    != crate::format::queue_contents(&crate::format::parse(r.g, &before));
                if lost {
                    return Err(format!("operation {i} {op:?} was refused with {e:?} but changed the contents"));
                }
            }
            match i % 3 {
                0 if single && clean => {
                    // The reported size is what the next item takes.
                    let Er::TooSmall(m) = e else { return Err(format!("operation {i} {op:?}: refused with {e:?}")) };
                    r.small = Some(m);
                    r.step(op, st).map_err(|e| format!("operation {i} {op:?} with the reported size {m}: {e}"))?;
                    if !r.refused.is_empty() {
                        return Err(format!("operation {i} {op:?}: refused again with the size it had asked for, {m}"));
                    }
                    st.hit("grown_until_accepted");
                }
                1 => r.check_all(st).map_err(|e| format!("after refused operation {i} {op:?}: {e}"))?,
                _ => {}
            }
        }
    }
    r.check_all(st).map_err(|e| format!("at the end: {e}"))?;
    r.restart();
    r.check_all(st).map_err(|e| format!("after re-opening: {e}"))?;
    while !r.worlds[0].is_empty() {
        r.step(&QOp::Pop, st).map_err(|e| format!("popping at the end: {e}"))?;
    }
    Ok(())
}

fn faults() -> Option<(u32, Vec<FaultKind>, Vec<FaultOn>)> {
    Some((
        8,
        vec![FaultKind::PowerLoss, FaultKind::PowerLoss, FaultKind::IoError, FaultKind::Cancel],
        vec![FaultOn::Mutation, FaultOn::Mutation, FaultOn::Any],
    ))
}

fn map_strat(f: bool) -> impl Strategy<Value = MSmall> {
    let w = Weights { store: 20, fetch: 8, remove: 6, remove_all: 1, iter: 5, reopen: 1, erase_all: 0, check: 1 };
    (
        case_strat(combos::map().len(), mop_strat(w, f.then(faults).flatten()), 60, 6),
        proptest::collection::vec(buf_strat(), 1..20),
    )
        .prop_map(|(c, bufs)| MSmall { c, bufs })
}
fn queue_strat(f: bool) -> impl Strategy<Value = QSmall> {
    let w = QWeights { push: 22, push_ow: 8, push_fit: 1, pop: 16, popn: 0, peek: 8, iter: 8, query: 1, reopen: 1, erase_all: 0, check: 1 };
    (
        qcase_strat(combos::queue().len(), qop_strat(w, f.then(faults).flatten()), 60),
        proptest::collection::vec(buf_strat(), 1..20),
    )
        .prop_map(|(c, bufs)| QSmall { c, bufs })
}

pub fn p20() -> Check {
    Check {
        id: "P20",
        level: "exploration",
        rule: "a history counts when at least one operation was refused because of its buffer",
        assumptions: &[
            "a buffer is enough when it holds the longest item on flash, and for a store also the new item, rounded up to a word (documented)",
            "a removal that is refused on the way may already have taken effect",
            "after an injected fault a torn item may also ask for its length",
        ],
        must_hit: &[
            "store_refused", "fetch_refused", "remove_refused", "iter_refused", "pop_refused", "peek_refused",
            "queue_iter_refused", "grown_until_accepted", "small_buffer_accepted", "iter_resumed", "fault_fired",
        ],
        phases: vec![
            phase("map", 60_000, || map_strat(false), map_small),
            phase("queue", 60_000, || queue_strat(false), queue_small),
            phase("map with faults", 30_000, || map_strat(true), map_small),
            phase("queue with faults", 30_000, || queue_strat(true), queue_small),
        ],
    }
}

