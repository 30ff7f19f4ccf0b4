//! P21 errors of the user's own key and value types.

use crate::combos;
use crate::mapx::*;
use crate::runner::{Check, Stats, phase};
use crate::sim::{FaultKind, FaultOn};
use hcore::user::{self, Call, UserArm};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct UserCase {
    pub c: MapCase,
    /// For the operations in turn.
    pub arms: Vec<Option<UserArm>>,
}

fn arm_strat() -> impl Strategy<Value = Option<UserArm>> {
    prop_oneof![
        2 => Just(None),
        3 => (
            proptest::sample::select(vec![None, Some(Call::KeySer), Some(Call::KeyDe), Some(Call::KeyDe), Some(Call::ValSer), Some(Call::ValDe)]),
            prop_oneof![2 => 0u16..3, 2 => 0u16..30],
            any::<u8>(),
            any::<bool>(),
        )
            .prop_map(|(call, skip, err, sticky)| Some(UserArm { call, skip, err, sticky })),
    ]
}

fn case(w: Weights, fault: u32) -> BoxedStrategy<UserCase> {
    let f = (fault > 0).then(|| {
        (
            fault,
            vec![FaultKind::Cancel, FaultKind::IoError, FaultKind::PowerLoss],
            vec![FaultOn::Mutation, FaultOn::Any],
        )
    });
    (
        case_strat(combos::user().len(), mop_strat(w, f), 60, 8),
        proptest::collection::vec(arm_strat(), 1..40),
    )
        .prop_map(|(c, arms)| UserCase { c, arms })
        .boxed()
}

fn history(c: &UserCase, st: &mut Stats) -> Result<(), String> {
    let mut run = MapRun::new(&c.c, combos::user());
    user::arm(None);
    for (i, op) in c.c.ops.iter().enumerate() {
        // Resuming an iterator after such an error may or may not skip the entry.
        let op = if matches!(op, MOp::IterResume) { &MOp::Iter } else { op };
        let arm = c.arms[i % c.arms.len()];
        user::arm(arm);
        let r = run.step(op, st);
        let fired = user::fired().is_some();
        user::arm(None);
        r.map_err(|e| format!("operation {i} {op:?} with {arm:?}: {e}"))?;
        if fired {
            st.nontrivial = true;
            // The same instance goes on; every other time everything is looked at straight away.
            if i % 2 == 0 {
                run.check_all(i as u8, st).map_err(|e| format!("after operation {i} {op:?} with {arm:?}: {e}"))?;
            }
        }
    }
    run.check_all(c.c.nkeys, st).map_err(|e| format!("at the end: {e}"))?;
    run.restart();
    run.check_all(c.c.nkeys + 1, st).map_err(|e| format!("after re-opening: {e}"))?;
    Ok(())
}

pub fn p21() -> Check {
    Check {
        id: "P21",
        level: "exploration",
        rule: "a history counts when at least one call of the key or value type failed",
        assumptions: &[
            "a key that cannot be read while keys are compared may be tried again by other means, so its error need not be the result",
            "a removal that fails half-way may already have taken effect",
        ],
        must_hit: &[
            "key_serialize_failed", "key_deserialize_failed", "value_serialize_failed", "value_deserialize_failed",
            "user_error_reported", "fault_fired", "store_with_erase",
        ],
        phases: vec![
            phase("plain", 60_000, || case(W_FULL, 0), history),
            phase("flash faults", 40_000, || case(W_NOERASE, 8), history),
        ],
    }
}
