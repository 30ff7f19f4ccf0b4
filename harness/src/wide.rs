//! Storages of hundreds of pages and histories long enough to go round them.

use crate::combos;
use crate::mapx::*;
use crate::queuex::*;
use proptest::prelude::*;

fn wide_pages() -> impl Strategy<Value = u16> {
    prop_oneof![
        2 => 17u16..=40,
        1 => 60u16..=70,
        3 => 250u16..=262,
        1 => 510u16..=516,
        1 => 17u16..=600,
    ]
}

#[derive(Debug, Clone)]
enum MBurst {
    One(MOp),
    /// Stores of `n` keys, starting at `k`, in steps of `dk`.
    Stores { n: u16, k: u8, dk: u8, len: Len, pat: u8, generic: bool },
    Removes { n: u8, k: u8, dk: u8 },
}

/// Few large operations, expanded; shrinking makes the bursts shorter.
pub fn map_case(w: Weights, faults: Option<(u32, Vec<crate::sim::FaultKind>, Vec<crate::sim::FaultOn>)>) -> BoxedStrategy<MapCase> {
    let burst = prop_oneof![
        6 => (1u16..=900, any::<u8>(), any::<u8>(), len_strat(), any::<u8>(), any::<bool>())
            .prop_map(|(n, k, dk, len, pat, generic)| MBurst::Stores { n, k, dk, len, pat, generic }),
        1 => (1u8..60, any::<u8>(), any::<u8>()).prop_map(|(n, k, dk)| MBurst::Removes { n, k, dk }),
        8 => mop_strat(w, faults).prop_map(MBurst::One),
    ];
    (
        0u8..combos::wide_map().len() as u8,
        wide_pages(),
        base_strat(),
        prop_oneof![Just(0u8), Just(1), Just(20), Just(250), any::<u8>()],
        prop_oneof![1u8..20, 1u8..=250, Just(250u8)],
        proptest::collection::vec(burst, 1..=10),
    )
        .prop_map(|(combo, pages, base, ckeys, nkeys, bursts)| {
            let mut ops = vec![];
            for b in bursts {
                match b {
                    MBurst::One(o) => ops.push(o),
                    MBurst::Stores { n, k, dk, len, pat, generic } => ops.extend((0..n).map(|i| MOp::Store {
                        k: k.wrapping_add((i as u8).wrapping_mul(dk)),
                        len,
                        pat: pat.wrapping_add(i as u8),
                        generic,
                    })),
                    MBurst::Removes { n, k, dk } => {
                        ops.extend((0..n).map(|i| MOp::Remove { k: k.wrapping_add(i.wrapping_mul(dk)) }))
                    }
                }
            }
            MapCase { combo, pages, base, ckeys, nkeys, ops }
        })
        .boxed()
}

#[derive(Debug, Clone)]
enum QBurst {
    One(QOp),
    Pushes { n: u16, len: Len, pat: u8, ow: bool },
    /// Push one and pop one, so that the contents travel round.
    Through { n: u16, len: Len, pat: u8 },
    Pops { n: u16 },
}

pub fn queue_case(w: QWeights, faults: Option<(u32, Vec<crate::sim::FaultKind>, Vec<crate::sim::FaultOn>)>) -> BoxedStrategy<QCase> {
    let burst = prop_oneof![
        4 => (1u16..=900, len_strat(), any::<u8>(), any::<bool>())
            .prop_map(|(n, len, pat, ow)| QBurst::Pushes { n, len, pat, ow }),
        2 => (1u16..=700, len_strat(), any::<u8>()).prop_map(|(n, len, pat)| QBurst::Through { n, len, pat }),
        2 => (1u16..=700).prop_map(|n| QBurst::Pops { n }),
        8 => qop_strat(w, faults).prop_map(QBurst::One),
    ];
    (
        0u8..combos::wide_queue().len() as u8,
        wide_pages(),
        base_strat(),
        proptest::collection::vec(burst, 1..=10),
    )
        .prop_map(|(combo, pages, base, bursts)| {
            let mut ops = vec![];
            for b in bursts {
                match b {
                    QBurst::One(o) => ops.push(o),
                    QBurst::Pushes { n, len, pat, ow } => {
                        ops.extend((0..n).map(|i| QOp::Push { len, pat: pat.wrapping_add(i as u8), ow }))
                    }
                    QBurst::Through { n, len, pat } => ops.extend(
                        (0..n).flat_map(|i| [QOp::Push { len, pat: pat.wrapping_add(i as u8), ow: i % 2 == 0 }, QOp::Pop]),
                    ),
                    QBurst::Pops { n } => ops.extend((0..n).map(|_| QOp::Pop)),
                }
            }
            QCase { combo, pages, base, ops }
        })
        .boxed()
}
