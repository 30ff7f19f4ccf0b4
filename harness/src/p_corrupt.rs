//! P12 bit flips, P13 arbitrary contents, P19 transient read errors.

use crate::combos;
use crate::format::{self, IState, PState};
use crate::mapx::*;
use crate::queuex::*;
use crate::runner::{Check, Stats, phase};
use crate::sim::{Access, FaultKind, FaultOn, Glitch, Out};
use crate::sut::{Geo, IterPlan};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ P12

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Target {
    /// The record at this position (modulo their number).
    Record(u16),
    /// Both markers of every page selected by the mask.
    Markers(u16),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Flip {
    pub target: Target,
    /// Bit positions within the target (modulo its size).
    pub bits: Vec<u16>,
    /// Flip only header fields / only data, to hit small fields often.
    pub part: u8,
    pub restart: bool,
}

pub fn flip_strat() -> impl Strategy<Value = Flip> {
    (
        prop_oneof![3 => any::<u16>().prop_map(Target::Record), 1 => any::<u16>().prop_map(Target::Markers)],
        proptest::collection::vec(any::<u16>(), 1..=3),
        0u8..4,
        any::<bool>(),
    )
        .prop_map(|(target, bits, part, restart)| Flip { target, bits, part, restart })
}

/// Whether a marker was written completely or not at all: one that a tear left halfway has no margin for errors.
fn whole(marker: &[u8]) -> bool {
    marker.iter().all(|b| *b == 0) || marker.iter().all(|b| *b == 0xFF)
}

/// The flips as (offset in the range, mask), applied to `img`. `None`: nothing to flip.
/// The second part is (page, item index) of the record hit.
fn place(g: Geo, img: &[u8], f: &Flip) -> Option<(Vec<(usize, u8)>, Option<(usize, usize)>)> {
    let pages = format::parse(g, img);
    let mut out: Vec<(usize, u8)> = vec![];
    let mut add = |off: usize, bit: usize| {
        let (o, m) = (off + bit / 8, 1u8 << (bit % 8));
        match out.iter_mut().find(|(x, _)| *x == o) {
            // The same bit twice would be no flip at all.
            Some((_, y)) => *y |= m,
            None => out.push((o, m)),
        }
    };
    match f.target {
        Target::Markers(mask) => {
            let n = pages.len();
            let mut any = false;
            for p in 0..n {
                if mask >> (p % 16) & 1 == 0 {
                    continue;
                }
                let (first, last) = (p * g.e, (p + 1) * g.e - g.r);
                for (i, b) in f.bits.iter().enumerate() {
                    // At most three flips per marker; bytes beyond the read size carry no meaning.
                    if whole(&img[first..first + g.r]) {
                        any = true;
                        add(first, (*b as usize).wrapping_add(i * 7) % (g.r * 8));
                    }
                    if whole(&img[last..last + g.r]) {
                        any = true;
                        add(last, (*b as usize).wrapping_mul(3).wrapping_add(i) % (g.r * 8));
                    }
                }
            }
            any.then_some((out, None))
        }
        Target::Record(n) => {
            let recs: Vec<(usize, usize)> = pages
                .iter()
                .enumerate()
                .filter(|(_, p)| matches!(p.state, PState::Partial | PState::Closed))
                .flat_map(|(p, pg)| (0..pg.items.len()).map(move |i| (p, i)))
                .collect();
            if recs.is_empty() {
                return None;
            }
            let (p, i) = recs[n as usize % recs.len()];
            let it = &pages[p].items[i];
            let at = p * g.e + it.off;
            for b in &f.bits {
                let b = *b as usize;
                match f.part {
                    // Any header byte; length and its checksum only; data (or header if there is none); anything.
                    0 => add(at, b % 64),
                    1 => add(at + 4, b % 32),
                    2 if it.len > 0 => add(at + g.hdr(), b % (it.len * 8)),
                    _ => add(at, b % (g.item(it.len) * 8)),
                }
            }
            Some((out, Some((p, i))))
        }
    }
}

/// Whether the record's own payload can be mistaken for blank flash or for records once its header is unreadable,
/// or the flips happen to satisfy a checksum: the format cannot tell, and the property excludes it.
fn aliased(g: Geo, before: &[u8], after: &[u8], page: usize, item: usize) -> bool {
    let b = format::parse_page(g, &before[page * g.e..(page + 1) * g.e]);
    let a = format::parse_page(g, &after[page * g.e..(page + 1) * g.e]);
    let target = &b.items[item];
    // Everything else decodes as before.
    let others_b: Vec<_> = b.items.iter().filter(|i| i.off != target.off).collect();
    let others_a: Vec<_> = a.items.iter().filter(|i| i.off != target.off).collect();
    if others_a != others_b {
        return true;
    }
    // The record itself decodes as what it was, or not at all, or as bad.
    if let Some(t) = a.items.iter().find(|i| i.off == target.off) {
        let same = *t == *target;
        if !same && t.state != IState::Bad {
            return true;
        }
    }
    // What follows the last record is blank.
    let end = g.e - g.word();
    after[page * g.e + a.free.min(end)..page * g.e + end].iter().any(|x| *x != 0xFF)
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MFlipCase {
    pub setup: MapCase,
    pub flip: Flip,
    pub after: Vec<MOp>,
}

fn newest_of(g: Geo, img: &[u8], key: &[u8]) -> Option<Vec<u8>> {
    let recs = format::map_records(&format::parse(g, img));
    recs.iter().rev().find(|r| r.starts_with(key)).map(|r| r[key.len()..].to_vec())
}

/// If a migration was interrupted: the contents without the page it was going to.
fn migrated_anew(g: Geo, img: &[u8]) -> Option<Vec<u8>> {
    let pages = format::parse(g, img);
    let p = pages.iter().position(|p| p.state == PState::Partial)?;
    if pages[(p + 1) % pages.len()].state == PState::Open {
        return None;
    }
    let mut img = img.to_vec();
    img[p * g.e..(p + 1) * g.e].fill(0xFF);
    Some(img)
}

fn map_flips(c: &MFlipCase, st: &mut Stats) -> Result<(), String> {
    let mut m = MapRun::new(&c.setup, combos::map());
    for (i, op) in c.setup.ops.iter().enumerate() {
        m.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
    }
    let before = m.image();
    let g = m.g;
    let Some((flips, rec)) = place(g, &before, &c.flip) else {
        st.hit("nothing_to_flip");
        return Ok(());
    };
    let mut after = before.clone();
    for (o, x) in &flips {
        after[*o] ^= x;
    }
    let mut restart = c.flip.restart;
    if let Some((p, i)) = rec {
        if aliased(g, &before, &after, p, i) {
            st.hit("aliased");
            return Ok(());
        }
        let free = |img: &[u8]| format::parse_page(g, &img[p * g.e..(p + 1) * g.e]).free;
        if free(&before) != free(&after) {
            // Only an instance that never saw the page can be expected to agree with the decoder.
            restart = true;
        }
        let again = migrated_anew(g, &after);
        for k in 0..m.nkeys {
            let key = m.sut.key_bytes(k);
            let (b, a) = (newest_of(g, &before, &key), newest_of(g, &after, &key));
            if a != b {
                st.hit("newest_record_hit");
            }
            // The next repair does an interrupted migration over, from what's left of its source. What was copied
            // already is one record with its copy.
            if again.as_ref().is_some_and(|again| newest_of(g, again, &key) != a) {
                st.hit("half_migrated");
                return Ok(());
            }
            let cands = &mut m.model.keys[k as usize].cands;
            if a != b && !cands.contains(&a) {
                cands.push(a);
            }
        }
        st.hit("record_flipped");
    } else {
        st.hit("markers_flipped");
    }
    let start = m.start as usize;
    m.sim.poke(|mem| {
        for (o, x) in &flips {
            mem[start + o] ^= x;
        }
    });
    if restart {
        m.restart();
    }
    st.nontrivial = true;
    for (i, op) in c.after.iter().enumerate() {
        m.step(op, st).map_err(|e| format!("{} flips, then operation {i} {op:?}: {e}", flips.len()))?;
    }
    m.check_all(c.setup.nkeys, st).map_err(|e| format!("after {} flips: {e}", flips.len()))?;
    m.restart();
    m.check_all(c.setup.nkeys + 1, st).map_err(|e| format!("after {} flips and re-opening: {e}", flips.len()))
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct QFlipCase {
    pub setup: QCase,
    pub flip: Flip,
    pub after: Vec<QOp>,
}

fn queue_flips(c: &QFlipCase, st: &mut Stats) -> Result<(), String> {
    let mut q = QRun::new(&c.setup, combos::queue());
    for (i, op) in c.setup.ops.iter().enumerate() {
        q.step(op, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
    }
    let before = q.image();
    let g = q.g;
    let Some((flips, rec)) = place(g, &before, &c.flip) else {
        st.hit("nothing_to_flip");
        return Ok(());
    };
    let mut after = before.clone();
    for (o, x) in &flips {
        after[*o] ^= x;
    }
    let mut restart = c.flip.restart;
    if let Some((p, i)) = rec {
        if aliased(g, &before, &after, p, i) {
            st.hit("aliased");
            return Ok(());
        }
        let free = |img: &[u8]| format::parse_page(g, &img[p * g.e..(p + 1) * g.e]).free;
        if free(&before) != free(&after) {
            restart = true;
        }
        let left: World = format::queue_contents(&format::parse(g, &after)).into();
        if !q.worlds.contains(&left) {
            st.hit("live_item_hit");
            q.worlds.push(left);
        }
        st.hit("record_flipped");
    } else {
        st.hit("markers_flipped");
    }
    let start = q.start as usize;
    q.sim.poke(|mem| {
        for (o, x) in &flips {
            mem[start + o] ^= x;
        }
    });
    if restart {
        q.restart();
    }
    st.nontrivial = true;
    for (i, op) in c.after.iter().enumerate() {
        q.step(op, st).map_err(|e| format!("{} flips, then operation {i} {op:?}: {e}", flips.len()))?;
    }
    q.check_all(st).map_err(|e| format!("after {} flips: {e}", flips.len()))?;
    q.restart();
    q.check_all(st).map_err(|e| format!("after {} flips and re-opening: {e}", flips.len()))?;
    let n = q.worlds.iter().map(|w| w.len()).max().unwrap_or(0);
    for _ in 0..=n {
        q.step(&QOp::Pop, st).map_err(|e| format!("after {} flips, draining: {e}", flips.len()))?;
    }
    Ok(())
}

pub fn p12() -> Check {
    Check {
        id: "P12",
        level: "exploration",
        rule: "a history counts when at least one stored bit was flipped and the contents were observed afterwards",
        assumptions: &[
            "at most three flips, all in one record, or at most three in each page marker",
            "excluded (decided by the independent decoder): flips that satisfy a checksum by coincidence, and flips in a header whose own payload then reads as blank flash or as records",
        ],
        must_hit: &["record_flipped", "markers_flipped", "newest_record_hit", "live_item_hit"],
        phases: vec![
            phase("map", 100_000, || {
                (
                    case_strat(combos::map().len(), mop_strat(W_FULL, None), 40, 6),
                    flip_strat(),
                    prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(mop_strat(W_NOERASE, None), 0..25)],
                )
                    .prop_map(|(setup, flip, after)| MFlipCase { setup, flip, after })
            }, map_flips),
            phase("queue", 100_000, || {
                (
                    qcase_strat(combos::queue().len(), qop_strat(QW_FULL, None), 40),
                    flip_strat(),
                    prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(qop_strat(QW_FULL, None), 0..25)],
                )
                    .prop_map(|(setup, flip, after)| QFlipCase { setup, flip, after })
            }, queue_flips),
            phase("map with power failures", 50_000, || {
                let op = || mop_strat(W_NOERASE, Some((10, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation])));
                (
                    case_strat(combos::map().len(), op(), 40, 6),
                    flip_strat(),
                    proptest::collection::vec(op(), 0..25),
                )
                    .prop_map(|(setup, flip, after)| MFlipCase { setup, flip, after })
            }, map_flips),
            phase("queue with power failures", 50_000, || {
                let op = || qop_strat(QWeights { erase_all: 0, ..QW_FULL }, Some((10, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation])));
                (
                    qcase_strat(combos::queue().len(), op(), 40),
                    flip_strat(),
                    proptest::collection::vec(op(), 0..25),
                )
                    .prop_map(|(setup, flip, after)| QFlipCase { setup, flip, after })
            }, queue_flips),
        ],
    }
}

// ------------------------------------------------------------------ P13

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum ItemGen {
    /// A well-formed item with this data checksum: 0 right, 1 zero (removed), 2 wrong, 3 right but data blank afterwards.
    Item { len: Len, pat: u8, key: u8, crc: u8 },
    /// A header with a valid length checksum that claims this length, followed by nothing.
    Claim { len: u16, crc: u32 },
    /// Raw bytes.
    Raw(Vec<u8>),
    /// Blank words.
    Gap(u8),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct PageGen {
    /// Start and end marker: 0 blank, 1 set, else random by this value.
    pub start: u8,
    pub end: u8,
    /// The rest of the page before the items: 0 blank, 1 zero, else random by this value.
    pub fill: u8,
    pub items: Vec<ItemGen>,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stuff {
    Pages(Vec<PageGen>),
    /// What a history leaves, with these (position, xor or value) changes.
    Mutated { muts: Vec<(u32, u8, bool)>, swap: Option<(u8, u8)>, cut: Option<u16> },
}

pub fn fill_noise(b: &mut [u8], seed: u8) {
    let mut x = 0x1234_5678u32 ^ (seed as u32).wrapping_mul(0x9E37_79B9);
    for v in b {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        *v = (x >> 8) as u8;
    }
}

pub fn render(g: Geo, p: &PageGen) -> Vec<u8> {
    let mut b = vec![0xFF; g.e];
    match p.fill {
        0 => {}
        1 => b.fill(0),
        s => fill_noise(&mut b, s),
    }
    let w = g.word();
    for (m, r) in [(p.start, 0..w), (p.end, g.e - w..g.e)] {
        match m {
            0 => b[r].fill(0xFF),
            1 => b[r].fill(0),
            s => fill_noise(&mut b[r], s),
        }
    }
    let mut at = w;
    let end = g.e - w;
    for (n, i) in p.items.iter().enumerate() {
        let bytes = match i {
            ItemGen::Item { len, pat, key, crc } => {
                let mut d = value(*pat, len.get(g.max_data()), n as u32);
                if let Some(f) = d.first_mut() {
                    // A key the map tests use (u8 keys); other key types see other keys.
                    *f = <u8 as crate::sut::TestKey>::mk(*key % 8);
                }
                let mut e = format::enc_item(g, &d, *crc == 1);
                match crc {
                    2 => e[0] ^= 0x55,
                    3 => e[g.hdr()..].fill(0xFF),
                    _ => {}
                }
                e
            }
            ItemGen::Claim { len, crc } => {
                let mut e = crc.to_le_bytes().to_vec();
                e.extend_from_slice(&len.to_le_bytes());
                e.extend_from_slice(&format::len_crc(*len).to_le_bytes());
                e.resize(g.hdr(), 0xFF);
                e
            }
            ItemGen::Raw(v) => {
                let mut v = v.clone();
                v.resize(v.len().next_multiple_of(w), 0);
                v
            }
            ItemGen::Gap(n) => vec![0xFF; *n as usize * w],
        };
        let n = bytes.len().min(end - at);
        b[at..at + n].copy_from_slice(&bytes[..n]);
        at += n;
        if at >= end {
            break;
        }
    }
    b
}

fn page_gen() -> impl Strategy<Value = PageGen> {
    let marker = || prop_oneof![4 => 0u8..2, 1 => any::<u8>()];
    let item = prop_oneof![
        6 => (len_strat(), any::<u8>(), any::<u8>(), prop_oneof![4 => Just(0u8), 2 => 1u8..4])
            .prop_map(|(len, pat, key, crc)| ItemGen::Item { len, pat, key, crc }),
        2 => (prop_oneof![any::<u16>(), 0u16..80], prop_oneof![Just(0u32), any::<u32>()])
            .prop_map(|(len, crc)| ItemGen::Claim { len, crc }),
        1 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(ItemGen::Raw),
        1 => (0u8..4).prop_map(ItemGen::Gap),
    ];
    (
        marker(),
        marker(),
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => any::<u8>()],
        proptest::collection::vec(item, 0..9),
    )
        .prop_map(|(start, end, fill, items)| PageGen { start, end, fill, items })
}

fn stuff_strat() -> impl Strategy<Value = Stuff> {
    prop_oneof![
        2 => proptest::collection::vec(page_gen(), 1..=6).prop_map(Stuff::Pages),
        1 => (
            proptest::collection::vec((any::<u32>(), any::<u8>(), any::<bool>()), 0..12),
            proptest::option::of((any::<u8>(), any::<u8>())),
            proptest::option::of(any::<u16>()),
        )
            .prop_map(|(muts, swap, cut)| Stuff::Mutated { muts, swap, cut }),
    ]
}

fn spoil(g: Geo, img: &mut [u8], s: &Stuff) {
    let n = img.len() / g.e;
    match s {
        Stuff::Pages(p) => {
            for (i, c) in img.chunks_mut(g.e).enumerate() {
                c.copy_from_slice(&render(g, &p[i % p.len()]));
            }
        }
        Stuff::Mutated { muts, swap, cut } => {
            if let Some((a, b)) = swap {
                let (a, b) = (*a as usize % n, *b as usize % n);
                for i in 0..g.e {
                    img.swap(a * g.e + i, b * g.e + i);
                }
            }
            if let Some(c) = cut {
                let at = *c as usize % img.len();
                let e = (at / g.e + 1) * g.e;
                img[at..e].fill(0xFF);
            }
            for (p, v, x) in muts {
                let p = *p as usize % img.len();
                if *x { img[p] ^= v } else { img[p] = *v }
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MStuffCase {
    pub setup: MapCase,
    pub stuff: Stuff,
    pub restart: bool,
    pub after: Vec<MOp>,
    pub print: bool,
}

fn count_result(o: &Out<()>, st: &mut Stats) -> Result<(), String> {
    match o {
        Out::Ok(()) => st.hit("ok"),
        Out::Err(crate::sim::Er::Corrupted) => st.hit("reported_corrupted"),
        Out::Err(crate::sim::Er::Storage(e)) => return Err(format!("flash access refused: {e:?}")),
        Out::Err(_) => st.hit("other_error"),
        Out::Cut(_) => return Err("suspended although flash never suspends".into()),
    }
    Ok(())
}

fn map_stuff(c: &MStuffCase, st: &mut Stats) -> Result<(), String> {
    let mut m = MapRun::new(&c.setup, combos::map());
    m.sim.b().budget = 400_000;
    for op in &c.setup.ops {
        let op = m.concrete(op);
        m.exec(&op);
    }
    let (g, r) = (m.g, m.range());
    m.sim.poke(|mem| spoil(g, &mut mem[r.start as usize..r.end as usize], &c.stuff));
    if c.restart {
        m.restart();
    }
    for (i, op) in c.after.iter().enumerate() {
        let ops: Vec<MOp> = match *op {
            MOp::Check { .. } => (0..m.nkeys).map(|k| MOp::Fetch { k }).chain([MOp::Iter]).collect(),
            // Nothing is known to be live here, so this is simply a big store.
            MOp::StoreFit { k, pat, .. } => vec![MOp::Store { k, len: Len::Frac(40_000), pat, generic: false }],
            op => vec![op],
        };
        for op in ops {
            let o = match m.exec(&op) {
                Res::Unit(o) => o,
                Res::Val(o) => o.map(|_| ()),
                Res::List(_, o) => o,
                Res::Skip => continue,
            };
            count_result(&o, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        }
        if c.print && i % 4 == 0 {
            st.hit("printed");
            if let Out::Err(e) = m.sut.print() {
                return Err(format!("print_items after operation {i}: {e:?}"));
            }
        }
    }
    st.nontrivial = true;
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct QStuffCase {
    pub setup: QCase,
    pub stuff: Stuff,
    pub restart: bool,
    pub after: Vec<QOp>,
    pub print: bool,
}

fn queue_stuff(c: &QStuffCase, st: &mut Stats) -> Result<(), String> {
    let mut q = QRun::new(&c.setup, combos::queue());
    q.sim.b().budget = 400_000;
    for op in &c.setup.ops {
        q.exec(op);
    }
    let (g, r) = (q.g, q.range());
    q.sim.poke(|mem| spoil(g, &mut mem[r.start as usize..r.end as usize], &c.stuff));
    if c.restart {
        q.restart();
    }
    for (i, op) in c.after.iter().enumerate() {
        let ops: Vec<QOp> = match *op {
            QOp::Check => vec![
                QOp::Peek,
                QOp::MaxFit,
                QOp::SpaceLeft,
                QOp::Iter { plan: IterPlan { mask: 0, stop: 255, resume: false } },
            ],
            QOp::PopN { n } => vec![QOp::Pop; n as usize % 8],
            QOp::PushFit { pat, .. } => vec![QOp::Push { len: Len::Top(0), pat, ow: true }],
            op => vec![op],
        };
        for op in ops {
            let o = match q.exec(&op) {
                QRes::Unit(o) => o,
                QRes::Item(o) => o.map(|_| ()),
                QRes::Fit(o) => o.map(|_| ()),
                QRes::Space(o) => o.map(|_| ()),
                QRes::Evs(e) => match e.last() {
                    Some(crate::sut::Ev::PopFail(o) | crate::sut::Ev::NextFail(o) | crate::sut::Ev::NewFail(o)) => o.clone(),
                    _ => Out::Ok(()),
                },
                QRes::Skip => continue,
            };
            count_result(&o, st).map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        }
        if c.print && i % 4 == 0 {
            st.hit("printed");
            if let Out::Err(e) = q.sut.print() {
                return Err(format!("print_items after operation {i}: {e:?}"));
            }
        }
    }
    st.nontrivial = true;
    Ok(())
}

pub fn p13() -> Check {
    Check {
        id: "P13",
        level: "exploration",
        rule: "every case counts: the whole range was replaced by generated contents (distinct by construction of the case) before the operations ran",
        assumptions: &[
            "an operation that needs more than 400,000 flash accesses counts as not terminating (the ranges have at most 8 pages of 256 bytes)",
            "every caller buffer is at least one page long",
        ],
        must_hit: &["ok", "reported_corrupted", "printed"],
        phases: vec![
            phase("map", 120_000, || {
                (
                    case_strat(combos::map().len(), mop_strat(W_FULL, None), 12, 6),
                    stuff_strat(),
                    any::<bool>(),
                    proptest::collection::vec(mop_strat(W_FULL, None), 1..16),
                    any::<bool>(),
                )
                    .prop_map(|(setup, stuff, restart, after, print)| MStuffCase { setup, stuff, restart, after, print })
            }, map_stuff),
            phase("queue", 120_000, || {
                (
                    qcase_strat(combos::queue().len(), qop_strat(QW_FULL, None), 12),
                    stuff_strat(),
                    any::<bool>(),
                    proptest::collection::vec(qop_strat(QW_FULL, None), 1..16),
                    any::<bool>(),
                )
                    .prop_map(|(setup, stuff, restart, after, print)| QStuffCase { setup, stuff, restart, after, print })
            }, queue_stuff),
        ],
    }
}

// ------------------------------------------------------------------ P19

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct GlitchSpec {
    /// Which of the glitchable reads of the operation.
    pub nth: u16,
    /// Bits within the chosen field.
    pub bits: Vec<u16>,
    /// Restart before the operation, so that no cache hides the read.
    pub restart: bool,
    pub follow: u8,
}

fn glitch_strat() -> impl Strategy<Value = GlitchSpec> {
    (any::<u16>(), proptest::collection::vec(any::<u16>(), 1..=3), any::<bool>(), any::<u8>())
        .prop_map(|(nth, bits, restart, follow)| GlitchSpec { nth, bits, restart, follow })
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Field {
    Marker,
    Length,
    Data,
    Blank,
}

/// Fields of `img` that the read `addr..addr+len` (range-relative) covers entirely or starts in, and that re-reading protects.
fn fields(g: Geo, img: &[u8], addr: usize, len: usize) -> Vec<(Field, usize, usize)> {
    let page = addr / g.e;
    let base = page * g.e;
    let p = format::parse_page(g, &img[base..base + g.e]);
    let mut out = vec![];
    let hit = |a: usize, b: usize| {
        let (lo, hi) = (a.max(addr), b.min(addr + len));
        (lo < hi).then(|| (lo, hi - lo))
    };
    for (a, b) in [(base, base + g.r), (base + g.e - g.r, base + g.e)] {
        if let Some((o, l)) = hit(a, b).filter(|_| whole(&img[a..b])) {
            out.push((Field::Marker, o, l));
        }
    }
    for i in &p.items {
        let h = base + i.off;
        if let Some((o, l)) = hit(h + 4, h + 8) {
            out.push((Field::Length, o, l));
        }
        if i.state == IState::Valid {
            if let Some((o, l)) = hit(h + g.hdr(), h + g.hdr() + i.len) {
                out.push((Field::Data, o, l));
            }
        }
    }
    if let Some((o, l)) = hit(base + p.free, base + g.e - g.word()) {
        out.push((Field::Blank, o, l));
    }
    out
}

fn choose(g: Geo, start: u32, img: &[u8], rec: &[Access], s: &GlitchSpec) -> Option<(Field, Glitch)> {
    // Up to the first mutation the image is what the reads see.
    let mut cands = vec![];
    for a in rec {
        match a {
            Access::Read { addr, len } => {
                for f in fields(g, img, (addr - start) as usize, *len as usize) {
                    // The glitch hits the first read of a byte.
                    if !cands.contains(&f) {
                        cands.push(f);
                    }
                }
            }
            _ => break,
        }
    }
    if cands.is_empty() {
        return None;
    }
    let (f, o, l) = cands[s.nth as usize % cands.len()];
    let mut bits: Vec<(u32, u8)> = vec![];
    // Two wrong bits are always caught by the length checksum, three by the data checksum and markers.
    let max = if f == Field::Length { 2 } else { 3 };
    for b in s.bits.iter().take(max) {
        let b = *b as usize % (l * 8);
        let (a, m) = (start + (o + b / 8) as u32, 1u8 << (b % 8));
        match bits.iter_mut().find(|(x, _)| *x == a) {
            Some((_, y)) => *y |= m,
            None => bits.push((a, m)),
        }
    }
    let n = bits.len();
    bits.resize(3, (0, 0));
    Some((f, Glitch { bits: [bits[0], bits[1], bits[2]], n, done: false }))
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MGlitchCase {
    pub setup: MapCase,
    pub last: MOp,
    pub spec: GlitchSpec,
}

fn hit_field(f: Field, st: &mut Stats) {
    st.hit(match f {
        Field::Marker => "glitch_in_marker",
        Field::Length => "glitch_in_length",
        Field::Data => "glitch_in_data",
        Field::Blank => "glitch_in_blank",
    });
}

fn map_glitch(c: &MGlitchCase, st: &mut Stats) -> Result<(), String> {
    let build = || -> MapRun {
        let mut m = MapRun::new(&c.setup, combos::map());
        for op in &c.setup.ops {
            let op = m.concrete(op);
            m.exec(&op);
        }
        if c.spec.restart {
            m.restart();
        }
        m
    };
    let mut a = build();
    let before = a.image();
    let last = a.concrete(&c.last);
    a.sim.b().record = Some(vec![]);
    let ra = a.exec(&last);
    let rec = a.sim.b().record.take().unwrap();
    let Some((field, gl)) = choose(a.g, a.start, &before, &rec, &c.spec) else {
        return Ok(());
    };
    let mut b = build();
    b.sim.b().glitch = Some(gl);
    let rb = b.exec(&last);
    if !b.sim.b().glitch.take().unwrap().done {
        return Ok(());
    }
    hit_field(field, st);
    st.nontrivial = true;
    let ctx = |s: String| format!("{last:?} with glitch {:02x?} in {field:?}: {s}", &gl.bits[..gl.n]);
    if ra != rb {
        return Err(ctx(format!("gave {rb:02x?}, without the glitch {ra:02x?}")));
    }
    if a.image() != b.image() {
        return Err(ctx("left other flash contents than without the glitch".into()));
    }
    // The instance is not affected either.
    let f = c.spec.follow;
    let mut ops: Vec<MOp> = (0..a.nkeys).map(|k| MOp::Fetch { k }).collect();
    ops.push(MOp::Iter);
    ops.push(MOp::Store { k: f, len: Len::Frac(f as u16 * 200), pat: f, generic: false });
    ops.push(MOp::Remove { k: f / 3 });
    ops.extend((0..a.nkeys).map(|k| MOp::Fetch { k }));
    for op in ops {
        let (x, y) = (a.exec(&op), b.exec(&op));
        if x != y {
            return Err(ctx(format!("afterwards {op:?} gave {y:02x?}, without the glitch {x:02x?}")));
        }
        if a.image() != b.image() {
            return Err(ctx(format!("afterwards {op:?} left other flash contents than without the glitch")));
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct QGlitchCase {
    pub setup: QCase,
    pub last: QOp,
    pub spec: GlitchSpec,
}

fn queue_glitch(c: &QGlitchCase, st: &mut Stats) -> Result<(), String> {
    let build = || -> QRun {
        let mut m = QRun::new(&c.setup, combos::queue());
        for op in &c.setup.ops {
            match *op {
                QOp::PopN { n } => (0..n).for_each(|_| {
                    m.exec(&QOp::Pop);
                }),
                op => {
                    m.exec(&op);
                }
            }
        }
        if c.spec.restart {
            m.restart();
        }
        m
    };
    let mut a = build();
    let before = a.image();
    a.sim.b().record = Some(vec![]);
    let ra = a.exec(&c.last);
    let rec = a.sim.b().record.take().unwrap();
    let Some((field, gl)) = choose(a.g, a.start, &before, &rec, &c.spec) else {
        return Ok(());
    };
    let mut b = build();
    b.sim.b().glitch = Some(gl);
    let rb = b.exec(&c.last);
    if !b.sim.b().glitch.take().unwrap().done {
        return Ok(());
    }
    hit_field(field, st);
    st.nontrivial = true;
    let ctx = |s: String| format!("{:?} with glitch {:02x?} in {field:?}: {s}", c.last, &gl.bits[..gl.n]);
    if ra != rb {
        return Err(ctx(format!("gave {rb:02x?}, without the glitch {ra:02x?}")));
    }
    if a.image() != b.image() {
        return Err(ctx("left other flash contents than without the glitch".into()));
    }
    let f = c.spec.follow;
    let all = IterPlan { mask: 0, stop: 255, resume: false };
    let ops = [
        QOp::Iter { plan: all },
        QOp::MaxFit,
        QOp::SpaceLeft,
        QOp::Push { len: Len::Frac(f as u16 * 250), pat: f, ow: f % 2 == 0 },
        QOp::Pop,
        QOp::Iter { plan: IterPlan { mask: f as u64 * 3, ..all } },
        QOp::Iter { plan: all },
    ];
    for op in ops {
        let (x, y) = (a.exec(&op), b.exec(&op));
        if x != y {
            return Err(ctx(format!("afterwards {op:?} gave {y:02x?}, without the glitch {x:02x?}")));
        }
        if a.image() != b.image() {
            return Err(ctx(format!("afterwards {op:?} left other flash contents than without the glitch")));
        }
    }
    Ok(())
}

pub fn p19() -> Check {
    let mf = || Some((2u32, vec![FaultKind::PowerLoss], vec![FaultOn::Mutation]));
    Check {
        id: "P19",
        level: "exploration",
        rule: "a history counts when wrong bits were really returned by a read of its last operation",
        assumptions: &[
            "one glitch per operation, at most three wrong bits (two in the length fields), in data, length fields, blank space or a page marker",
            "wrong bits in the stored data checksum are excluded: the header is read once and nothing else covers it",
        ],
        must_hit: &["glitch_in_marker", "glitch_in_length", "glitch_in_data", "glitch_in_blank"],
        phases: vec![
            phase("map", 100_000, move || {
                (
                    prop_oneof![
                        3 => case_strat(combos::map().len(), mop_strat(W_FULL, None), 40, 6),
                        1 => case_strat(combos::map().len(), mop_strat(W_FULL, mf()), 40, 6),
                    ],
                    mop_strat(Weights { check: 0, reopen: 0, erase_all: 0, ..W_FULL }, None),
                    glitch_strat(),
                )
                    .prop_map(|(setup, last, spec)| MGlitchCase { setup, last, spec })
            }, map_glitch),
            phase("queue", 100_000, move || {
                (
                    prop_oneof![
                        3 => qcase_strat(combos::queue().len(), qop_strat(QW_FULL, None), 40),
                        1 => qcase_strat(combos::queue().len(), qop_strat(QW_FULL, mf()), 40),
                    ],
                    qop_strat(QWeights { check: 0, reopen: 0, erase_all: 0, push_fit: 0, popn: 0, ..QW_FULL }, None),
                    glitch_strat(),
                )
                    .prop_map(|(setup, last, spec)| QGlitchCase { setup, last, spec })
            }, queue_glitch),
        ],
    }
}
