//! Independent implementation of the documented on-flash format (README "Inner workings", item docs).
//! Written from the documentation, shares no code with the library.

use crate::sut::Geo;

/// CRC-16F/4.2 reflected, initial 0xFFFF, final xor 0xFFFF; 0xFFFF is replaced by 0xFFFE.
pub fn len_crc(len: u16) -> u16 {
    let mut c: u16 = 0xFFFF;
    for i in 0..16 {
        let bit = (len >> i) & 1;
        let fb = (c ^ bit) & 1;
        c >>= 1;
        if fb == 1 {
            c ^= 0x1A2E;
        }
    }
    c = !c;
    if c == 0xFFFF { 0xFFFE } else { c }
}

/// CRC-32C reflected, initial 0xEEEEEEEE, final inversion; never 0, low byte never 0x00 or 0xFF.
pub fn data_crc(data: &[u8]) -> u32 {
    let mut c: u32 = 0xEEEE_EEEE;
    for b in data {
        for i in 0..8 {
            let fb = (c ^ (*b as u32 >> i)) & 1;
            c >>= 1;
            if fb == 1 {
                c ^= 0x82F6_3B78;
            }
        }
    }
    c = !c;
    if c & 0xFF == 0 || c & 0xFF == 0xFF { c ^ 1 } else { c }
}

/// Change the last four bytes of `data` such that `prefix` and `data` together have this checksum
/// before the exceptions for 0 and for the low byte are applied.
pub fn forge_crc(prefix: &[u8], data: &mut [u8], want: u32) {
    let Some(head) = data.len().checked_sub(4) else { return };
    let mut c: u32 = 0xEEEE_EEEE;
    for b in prefix.iter().chain(&data[..head]) {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
        }
    }
    let mut back = !want;
    for _ in 0..32 {
        back = if back >> 31 == 1 { (back ^ 0x82F6_3B78) << 1 | 1 } else { back << 1 };
    }
    data[head..].copy_from_slice(&(back ^ c).to_le_bytes());
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum PState {
    Open,
    Partial,
    Closed,
    /// End marked but start not: an interrupted erase.
    Broken,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IState {
    Valid,
    Erased,
    Bad,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PItem {
    /// Offset of the header from the start of the page.
    pub off: usize,
    pub len: usize,
    pub state: IState,
    pub data: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Page {
    pub state: PState,
    pub items: Vec<PItem>,
    /// Offset from page start where the next item would go.
    pub free: usize,
    /// Words skipped because no header decoded there.
    pub skipped: usize,
    pub blank: bool,
}

impl Page {
    pub fn valid(&self) -> impl DoubleEndedIterator<Item = &PItem> {
        self.items.iter().filter(|i| i.state == IState::Valid)
    }
    /// Free data bytes for one more item, `None` if not even a header fits.
    pub fn room(&self, g: Geo) -> Option<usize> {
        (g.e - g.word()).checked_sub(self.free + g.hdr())
    }
}

fn marked(b: &[u8]) -> bool {
    b.iter().map(|b| b.count_zeros()).sum::<u32>() >= 4
}

pub fn parse_page(g: Geo, page: &[u8]) -> Page {
    assert_eq!(page.len(), g.e);
    let state = match (marked(&page[..g.r]), marked(&page[g.e - g.r..])) {
        (true, true) => PState::Closed,
        (true, false) => PState::Partial,
        (false, true) => PState::Broken,
        (false, false) => PState::Open,
    };
    let end = g.e - g.word();
    let mut at = g.word();
    let mut items = vec![];
    let mut skipped = 0;
    // Where the undecodable words that directly precede the free space begin.
    let mut debris: Option<usize> = None;
    while at + g.hdr() <= end {
        let h = &page[at..at + g.hdr()];
        if h.iter().all(|b| *b == 0xFF) {
            break;
        }
        let crc = u32::from_le_bytes(h[0..4].try_into().unwrap());
        let len = u16::from_le_bytes(h[4..6].try_into().unwrap());
        let lcrc = u16::from_le_bytes(h[6..8].try_into().unwrap());
        let next = at + g.item(len as usize);
        if len_crc(len) != lcrc || next > end {
            debris = debris.or(Some(at));
            at += g.word();
            skipped += 1;
            continue;
        }
        debris = None;
        let data = page[at + g.hdr()..at + g.hdr() + len as usize].to_vec();
        let state = if crc == 0 {
            IState::Erased
        } else if data_crc(&data) == crc {
            IState::Valid
        } else {
            IState::Bad
        };
        items.push(PItem { off: at, len: len as usize, state, data });
        at = next;
    }
    let free = match debris {
        Some(d) => end.min(d + (at - d).next_multiple_of(g.hdr())),
        None => at,
    };
    Page { state, items, free, skipped, blank: page.iter().all(|b| *b == 0xFF) }
}

pub fn parse(g: Geo, image: &[u8]) -> Vec<Page> {
    image.chunks(g.e).map(|p| parse_page(g, p)).collect()
}

/// Encode one item (header, padding, data, padding).
pub fn enc_item(g: Geo, data: &[u8], erased: bool) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&if erased { 0 } else { data_crc(data) }.to_le_bytes());
    v.extend_from_slice(&(data.len() as u16).to_le_bytes());
    v.extend_from_slice(&len_crc(data.len() as u16).to_le_bytes());
    v.resize(g.hdr(), 0xFF);
    v.extend_from_slice(data);
    v.resize(g.item(data.len()), 0);
    v
}

/// Encode a page from items laid out back to back.
pub fn enc_page(g: Geo, state: PState, items: &[(Vec<u8>, bool)]) -> Vec<u8> {
    let mut p = vec![0xFF; g.e];
    let w = g.word();
    if matches!(state, PState::Partial | PState::Closed) {
        p[..w].fill(0);
    }
    if matches!(state, PState::Closed | PState::Broken) {
        p[g.e - w..].fill(0);
    }
    let mut at = w;
    for (d, erased) in items {
        let b = enc_item(g, d, *erased);
        assert!(at + b.len() <= g.e - w, "encoder: page overflow");
        p[at..at + b.len()].copy_from_slice(&b);
        at += b.len();
    }
    p
}

/// Index of the page writes currently go to, per the documentation: the partial-open page, else the
/// first open page after a run of closed pages, else page 0.
pub fn youngest(pages: &[Page]) -> Option<usize> {
    let n = pages.len();
    if let Some(i) = pages.iter().position(|p| p.state == PState::Partial) {
        return Some(i);
    }
    match pages.iter().position(|p| p.state == PState::Closed) {
        None => Some(0),
        Some(a) => (0..n).map(|i| (a + i) % n).find(|i| pages[*i].state == PState::Open),
    }
}

/// Page order from oldest to youngest.
pub fn age_order(pages: &[Page]) -> Vec<usize> {
    let n = pages.len();
    let y = youngest(pages).unwrap_or(n - 1);
    (1..=n).map(|i| (y + i) % n).collect()
}

/// Queue contents, oldest first, as the documentation defines them.
pub fn queue_contents(pages: &[Page]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for i in age_order(pages) {
        if pages[i].state != PState::Open && pages[i].state != PState::Broken {
            out.extend(pages[i].valid().map(|i| i.data.clone()));
        }
    }
    out
}

/// Raw map records, oldest first.
pub fn map_records(pages: &[Page]) -> Vec<Vec<u8>> {
    queue_contents(pages)
}

#[cfg(test)]
mod tests {
    #[test]
    fn forge() {
        for want in [0u32, 1, 0xFFFF_FFFF, 0x1234_5678] {
            let mut d = vec![7; 9];
            super::forge_crc(&[1, 2], &mut d, want);
            let all = [&[1, 2][..], &d].concat();
            let mut w = want;
            if w & 0xFF == 0 || w & 0xFF == 0xFF { w ^= 1 }
            assert_eq!(super::data_crc(&all), w);
        }
    }
}
