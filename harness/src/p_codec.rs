//! P15 key and value serialization.

use crate::runner::{Check, Stats, phase};
use c0::{Aspect, Ty};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

fn types() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(|| [c0::keys(), c0::more_keys(), c0::values()].concat())
}

fn stored_types() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(|| [c0::keys(), c0::values()].concat())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CCase {
    pub ty: String,
    pub raw: Vec<u8>,
    pub tail: Vec<u8>,
    pub junk: Vec<u8>,
}

fn codec(asp: Aspect, c: &CCase, st: &mut Stats) -> Result<(), String> {
    if c.ty == "&[u8]" {
        st.nontrivial = c0::slice(asp, &c.raw).map_err(|e| format!("&[u8]: {e}"))?;
        return Ok(());
    }
    let t = types().iter().find(|t| t.name == c.ty).ok_or("no such type")?;
    st.nontrivial = (t.codec)(asp, &c.raw, &c.tail, &c.junk).map_err(|e| format!("{}: {e}", t.name))?;
    Ok(())
}

fn byte() -> impl Strategy<Value = u8> {
    prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(0xFF), 2 => 0u8..12, 1 => 200u8..=255]
}

pub fn case_strat() -> impl Strategy<Value = CCase> {
    let mut names: Vec<String> = types().iter().map(|t| t.name.to_string()).collect();
    names.push("&[u8]".into());
    let junk = prop_oneof![
        2 => proptest::collection::vec(byte(), 0..40),
        // A plausible length prefix.
        2 => (0u8..12, proptest::collection::vec(prop_oneof![3 => 0x20u8..0x7F, 1 => any::<u8>()], 0..16)).prop_map(|(n, b)| {
            let mut v = vec![n, 0];
            v.extend(b);
            v
        }),
        // A plausible tag.
        1 => (0u8..3, proptest::collection::vec(byte(), 0..20)).prop_map(|(t, b)| {
            let mut v = vec![t];
            v.extend(b);
            v
        }),
    ];
    (
        prop::sample::select(names),
        prop_oneof![6 => proptest::collection::vec(byte(), 0..40), 1 => proptest::collection::vec(byte(), 0..320)],
        proptest::collection::vec(any::<u8>(), 0..6),
        junk,
    )
        .prop_map(|(ty, raw, tail, junk)| CCase { ty, raw, tail, junk })
}

pub fn wire(c: &CCase, st: &mut Stats) -> Result<(), String> {
    codec(Aspect::Wire, c, st)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SCase {
    pub ty: String,
    pub items: Vec<(u8, Vec<u8>)>,
}

fn stored(c: &SCase, st: &mut Stats) -> Result<(), String> {
    let t = stored_types().iter().find(|t| t.name == c.ty).ok_or("no such type")?;
    st.nontrivial = (t.stored)(&c.items).map_err(|e| format!("{} in a map: {e}", t.name))?;
    st.hit("stored_and_fetched");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LCase {
    pub len: u32,
    pub string: bool,
}

pub fn p15() -> Check {
    Check {
        id: "P15",
        level: "exploration",
        rule: "a case counts when the serialized value is not empty or arbitrary bytes were accepted by the deserializer; each case tries one value with an ample, an exact and every smaller buffer, with and without trailing bytes, every truncation, and one arbitrary byte string",
        assumptions: &[
            "byte slices, strings, vectors and postcard values are stored without a length of their own and take the whole buffer they are given",
            "a deserializer may report too little or malformed data by any of its errors",
        ],
        must_hit: &["stored_and_fetched", "key_too_long", "key_long"],
        phases: vec![
            phase("codec", 600_000, case_strat, |c: &CCase, st: &mut Stats| codec(Aspect::Codec, c, st)),
            phase(
                "stored",
                60_000,
                || {
                    let names: Vec<String> = stored_types().iter().map(|t| t.name.to_string()).collect();
                    (
                        prop::sample::select(names),
                        proptest::collection::vec((any::<u8>(), proptest::collection::vec(byte(), 0..40)), 1..16),
                    )
                        .prop_map(|(ty, items)| SCase { ty, items })
                },
                stored,
            ),
            phase(
                "long keys",
                400,
                || {
                    (prop_oneof![65_500u32..65_536, 65_536u32..65_560, 250u32..260, 0u32..70_000], any::<bool>())
                        .prop_map(|(len, string)| LCase { len, string })
                },
                |c: &LCase, st: &mut Stats| {
                    st.nontrivial = c.len > 255;
                    st.hit(if c.len > 65_535 { "key_too_long" } else { "key_long" });
                    c0::long_key(c.len as usize, c.string)
                },
            ),
        ],
    }
}
