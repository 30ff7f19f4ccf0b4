//! P14 the on-flash format.

use crate::combos;
use crate::format::{self, IState, PState};
use crate::mapx::*;
use crate::p_codec;
use crate::queuex::*;
use crate::runner::{Check, Stats, phase};
use crate::sut::Geo;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One item of a foreign image.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct FItem {
    pub k: u8,
    pub len: Len,
    pub pat: u8,
    pub erased: bool,
}

/// Page layout of a foreign image: closed pages, then maybe a partial-open one, the rest open.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Layout {
    pub rot: u8,
    pub closed: u8,
    pub partial: bool,
    pub items: Vec<Vec<FItem>>,
}

fn layout_strat(max_items: usize) -> impl Strategy<Value = Layout> {
    let item = (0u8..16, len_strat(), any::<u8>(), prop_oneof![3 => Just(false), 1 => Just(true)])
        .prop_map(|(k, len, pat, erased)| FItem { k, len, pat, erased });
    (
        0u8..8,
        0u8..8,
        prop_oneof![4 => Just(true), 1 => Just(false)],
        proptest::collection::vec(proptest::collection::vec(item, 0..max_items), 1..8),
    )
        .prop_map(|(rot, closed, partial, items)| Layout { rot, closed, partial, items })
}

/// Encode a foreign image; `data` makes the bytes of an item, a map keeps one page open.
/// Returns the image and the records with their erased flag, oldest first.
fn encode(
    g: Geo,
    pages: usize,
    l: &Layout,
    map: bool,
    mut data: impl FnMut(&FItem, u32) -> Vec<u8>,
) -> (Vec<u8>, Vec<(FItem, Vec<u8>)>) {
    let max_pages = if map { pages - 1 } else { pages };
    let partial = l.partial && max_pages > 0;
    let closed = (l.closed as usize).min(max_pages - partial as usize);
    // Before the first wrap-around a map fills its pages from the start.
    let rot = if closed == 0 && !partial || map && !partial && closed < pages - 1 { 0 } else { l.rot as usize % pages };
    let mut image = vec![0xFF; pages * g.e];
    let mut all = vec![];
    let mut uniq = 0;
    for i in 0..closed + partial as usize {
        let mut left = g.cap();
        let mut items = vec![];
        for it in &l.items[i % l.items.len()] {
            uniq += 1;
            let d = data(it, uniq);
            if d.len() > g.max_data() || g.item(d.len()) > left {
                continue;
            }
            left -= g.item(d.len());
            items.push((d.clone(), it.erased));
            all.push((*it, d));
        }
        let state = if i < closed { PState::Closed } else { PState::Partial };
        let p = (rot + i) % pages;
        image[p * g.e..(p + 1) * g.e].copy_from_slice(&format::enc_page(g, state, &items));
    }
    (image, all)
}

/// What holds for every page the library wrote without being disturbed.
fn well_formed(g: Geo, image: &[u8], pages: &[format::Page]) -> Result<(), String> {
    for (n, (p, bytes)) in pages.iter().zip(image.chunks(g.e)).enumerate() {
        let w = g.word();
        let (first, last) = (&bytes[..w], &bytes[g.e - w..]);
        for (name, m) in [("first", first), ("last", last)] {
            if !(m.iter().all(|b| *b == 0) || m.iter().all(|b| *b == 0xFF)) {
                return Err(format!("page {n}: its {name} word is neither blank nor the marker: {m:02x?}"));
            }
        }
        match p.state {
            PState::Broken => return Err(format!("page {n} has an end marker but no start marker")),
            PState::Open if !p.blank => return Err(format!("page {n} is open but not blank")),
            _ => {}
        }
        if p.skipped > 0 {
            return Err(format!("page {n} has {} words that are no item header", p.skipped));
        }
        if let Some(i) = p.items.iter().find(|i| i.state == IState::Bad) {
            return Err(format!("page {n}: the checksum of the item at offset {} does not match its data", i.off));
        }
        for i in &p.items {
            if i.len > g.max_data() {
                return Err(format!("page {n}: item at offset {} is longer than an item can be", i.off));
            }
        }
        // Nothing is written behind the last item.
        if let Some(at) = bytes[p.free..g.e - w].iter().position(|b| *b != 0xFF) {
            return Err(format!("page {n}: offset {} behind the last item is written", p.free + at));
        }
    }
    Ok(())
}

fn decode_map(r: &MapRun, pages: &[format::Page]) -> Result<Vec<Option<Vec<u8>>>, String> {
    let mut out = vec![None; r.nkeys as usize];
    for rec in format::map_records(pages) {
        let k = (0..r.nkeys).find(|k| rec.starts_with(&r.sut.key_bytes(*k)));
        match k {
            Some(k) => out[k as usize] = Some(rec[r.sut.key_len(k)..].to_vec()),
            None => return Err(format!("a record starts with no known key: {rec:02x?}")),
        }
    }
    Ok(out)
}

fn check_map(r: &MapRun) -> Result<(), String> {
    let image = r.image();
    let pages = format::parse(r.g, &image);
    well_formed(r.g, &image, &pages)?;
    for (k, got) in decode_map(r, &pages)?.into_iter().enumerate() {
        let want = &r.model.keys[k].cands;
        if !want.contains(&got) {
            return Err(format!(
                "the flash decodes to {} for key #{k}, stored was {}",
                show(&got),
                want.iter().map(show).collect::<Vec<_>>().join(" or ")
            ));
        }
    }
    Ok(())
}

fn check_queue(r: &QRun) -> Result<(), String> {
    let image = r.image();
    let pages = format::parse(r.g, &image);
    well_formed(r.g, &image, &pages)?;
    let got: World = format::queue_contents(&pages).into();
    if !r.worlds.contains(&got) {
        return Err(format!(
            "the flash decodes to {} items {:?}, the queue holds {}",
            got.len(),
            got.iter().map(|i| show_i(i)).collect::<Vec<_>>(),
            r.worlds[0].len()
        ));
    }
    Ok(())
}

fn map_written(c: &MapCase, st: &mut Stats) -> Result<(), String> {
    let mut r = MapRun::new(c, combos::map());
    for (i, op) in c.ops.iter().enumerate() {
        r.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        check_map(&r).map_err(|e| format!("after operation {i} {op:?}: {e}"))?;
    }
    st.nontrivial = st.get("store_ok") > 1;
    Ok(())
}

fn queue_written(c: &QCase, st: &mut Stats) -> Result<(), String> {
    let mut r = QRun::new(c, combos::queue());
    for (i, op) in c.ops.iter().enumerate() {
        r.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        check_queue(&r).map_err(|e| format!("after operation {i} {op:?}: {e}"))?;
    }
    st.nontrivial = st.get("push_ok") > 1;
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct MForeign {
    pub c: MapCase,
    pub l: Layout,
}

fn map_foreign(f: &MForeign, st: &mut Stats) -> Result<(), String> {
    let mut r = MapRun::new(&f.c, combos::map());
    let (g, nk) = (r.g, r.nkeys);
    let keys: Vec<Vec<u8>> = (0..nk).map(|k| r.sut.key_bytes(k)).collect();
    let (image, records) = encode(g, r.pages, &f.l, true, |it, uniq| {
        let key = &keys[(it.k % nk) as usize];
        let max = g.max_data().saturating_sub(key.len());
        [key.clone(), value_after(key, it.pat, it.len.get(max), uniq + 1_000_000)].concat()
    });
    for (it, d) in &records {
        if !it.erased {
            let k = (it.k % nk) as usize;
            let v = d[keys[k].len()..].to_vec();
            r.model.keys[k].hist.push(v.clone());
            r.model.keys[k].cands = vec![Some(v)];
        } else {
            st.hit("erased_item_in_image");
        }
    }
    st.nontrivial = records.iter().filter(|(it, _)| !it.erased).count() > 1;
    if f.l.closed > 0 {
        st.hit("closed_page_in_image");
    }
    let at = r.start as usize;
    r.sim.b().mem[at..at + image.len()].copy_from_slice(&image);
    r.restart();
    r.check_all(f.l.rot, st).map_err(|e| format!("reading the encoded image: {e}"))?;
    for (i, op) in f.c.ops.iter().enumerate() {
        r.step(op, st).map_err(|e| format!("operation {i} {op:?} on the encoded image: {e}"))?;
        check_map(&r).map_err(|e| format!("after operation {i} {op:?} on the encoded image: {e}"))?;
    }
    r.restart();
    r.check_all(f.l.rot, st).map_err(|e| format!("at the end: {e}"))
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct QForeign {
    pub c: QCase,
    pub l: Layout,
}

fn queue_foreign(f: &QForeign, st: &mut Stats) -> Result<(), String> {
    let mut r = QRun::new(&f.c, combos::queue());
    let g = r.g;
    let (image, records) = encode(g, r.pages, &f.l, false, |it, uniq| {
        value(it.pat, it.len.get(g.max_data()), uniq + 1_000_000)
    });
    let w: World = records.iter().filter(|(it, _)| !it.erased).map(|(_, d)| d.clone()).collect();
    st.nontrivial = w.len() > 1;
    if records.iter().any(|(it, _)| it.erased) {
        st.hit("erased_item_in_image");
    }
    if f.l.closed > 0 {
        st.hit("closed_page_in_image");
    }
    let pages = format::parse(g, &image);
    if !pages.iter().any(|p| matches!(p.state, PState::Partial | PState::Open)) {
        // All closed: the youngest page is not known from the format alone.
        return Ok(());
    }
    r.worlds = vec![w];
    let at = r.start as usize;
    r.sim.b().mem[at..at + image.len()].copy_from_slice(&image);
    r.restart();
    r.check_all(st).map_err(|e| format!("reading the encoded image: {e}"))?;
    for (i, op) in f.c.ops.iter().enumerate() {
        r.step(op, st).map_err(|e| format!("operation {i} {op:?} on the encoded image: {e}"))?;
        check_queue(&r).map_err(|e| format!("after operation {i} {op:?} on the encoded image: {e}"))?;
    }
    r.restart();
    r.check_all(st).map_err(|e| format!("at the end: {e}"))
}

/// Lengths whose checksum is all ones (and stored differently), or what that is stored as.
pub const ODD_LENGTHS: [u16; 18] = [
    6870, 11915, 17969, 29292, 38725, 41752, 52130, 65535, 496, 13741, 23831, 26954, 35939, 47166, 53380, 58585, 255, 256,
];

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct LenCase {
    pub combo: u8,
    pub len: u16,
    pub pat: u8,
    pub erased: bool,
}

fn len_case() -> impl Strategy<Value = LenCase> {
    (
        0u8..combos::large_queue().len() as u8,
        prop_oneof![8 => any::<u16>(), 1 => proptest::sample::select(ODD_LENGTHS.to_vec()), 1 => 0u16..300],
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(combo, len, pat, erased)| LenCase { combo, len, pat, erased })
}

/// One item of any length, read from an encoded image and written by the library.
fn any_length(c: &LenCase, st: &mut Stats) -> Result<(), String> {
    let mk = || QRun::new(&QCase { combo: c.combo, pages: 2, base: 0, ops: vec![] }, combos::large_queue());
    let mut r = mk();
    let g = r.g;
    let len = (c.len as usize).min(g.max_data());
    let data = value(c.pat, len, c.len as u32);
    let tail = vec![c.pat, 0x5C, 0xA3];
    let mut items = vec![(data.clone(), c.erased)];
    if g.item(len) + g.item(3) <= g.cap() {
        items.push((tail, false));
    }
    r.sim.b().mem[..g.e].copy_from_slice(&format::enc_page(g, PState::Partial, &items));
    r.restart();
    r.worlds = vec![items.iter().filter(|(_, e)| !e).map(|(d, _)| d.clone()).collect()];
    if c.erased {
        st.hit("erased_item_in_image");
    }
    for _ in 0..=items.len() {
        r.step(&QOp::Pop, st).map_err(|e| format!("an item of {len} bytes in the encoded image: {e}"))?;
    }
    st.nontrivial = len > 0;
    // The other way round.
    let mut r = mk();
    let p = format::parse(g, &r.image());
    well_formed(g, &r.image(), &p)?;
    r.step(&QOp::Push { len: Len::Exact(len as u16), pat: c.pat, ow: false }, st)?;
    let image = r.image();
    let at = g.word();
    let want = format::enc_item(g, &r.worlds[0][0], false);
    if image[at..at + g.hdr()] != want[..g.hdr()] {
        return Err(format!(
            "the header of an item of {len} bytes is {:02x?}, the format says {:02x?}",
            &image[at..at + 8],
            &want[..8]
        ));
    }
    check_queue(&r)?;
    r.step(&QOp::Pop, st)?;
    check_queue(&r)
}

pub fn p14() -> Check {
    Check {
        id: "P14",
        level: "exploration",
        rule: "a case counts when at least two records were written by the library and decoded, or encoded independently and read; for single encodings when the value is not empty",
        assumptions: &[
            "the format as documented in README and item.rs; the parameters of the two checksums are those of the pinned release, re-implemented bit by bit",
            "the values of padding bytes are not part of the format",
        ],
        must_hit: &["store_with_erase", "op_with_erase", "erased_item_in_image", "closed_page_in_image", "remove_ok", "push_overwrote"],
        phases: vec![
            phase(
                "map written",
                30_000,
                || case_strat(combos::map().len(), mop_strat(W_FULL, None), 60, 6),
                map_written,
            ),
            phase("queue written", 30_000, || qcase_strat(combos::queue().len(), qop_strat(QW_FULL, None), 60), queue_written),
            phase(
                "map read",
                60_000,
                || {
                    (case_strat(combos::map().len(), mop_strat(W_FULL, None), 20, 6), layout_strat(8))
                        .prop_map(|(c, l)| MForeign { c, l })
                },
                map_foreign,
            ),
            phase(
                "queue read",
                60_000,
                || {
                    (qcase_strat(combos::queue().len(), qop_strat(QW_FULL, None), 20), layout_strat(8))
                        .prop_map(|(c, l)| QForeign { c, l })
                },
                queue_foreign,
            ),
            phase("lengths", 6_000, len_case, any_length),
            phase("encodings", 200_000, p_codec::case_strat, p_codec::wire),
        ],
    }
}
