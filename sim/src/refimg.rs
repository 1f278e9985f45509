//! An independent reader of raw images: directory, chains, ownership, consistency.

use crate::geo::{Geo, Loc, PAD};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scheme {
    Linear,
    Rel,
    Seq,
    Vlir,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Location,
    Link,
    Loop,
    Relative,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct SlotPos {
    pub loc: Loc,
    pub off: usize,
    pub border: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    pub pos: SlotPos,
    pub attr: u8,
    pub first: Loc,
    pub name: Vec<u8>,
    pub extra: [u8; 9],
    pub size: u16,
    pub scheme: Scheme,
}

pub fn trim_pad(name: &[u8]) -> Vec<u8> {
    let mut end = name.len();
    while end > 0 && name[end - 1] == PAD {
        end -= 1;
    }
    name[..end].to_vec()
}

fn scheme_of(attr: u8, extra: &[u8]) -> Scheme {
    if attr & 0x0F == 4 {
        Scheme::Rel
    } else if attr & 7 < 4 && (extra[2] != 0 || extra[3] != 0) && extra[2] <= 1 {
        if extra[2] == 1 {
            Scheme::Vlir
        } else {
            Scheme::Seq
        }
    } else {
        Scheme::Linear
    }
}

pub fn parse_entry(raw: &[u8], pos: SlotPos) -> Entry {
    let mut extra = [0u8; 9];
    extra.copy_from_slice(&raw[0x15..0x1E]);
    Entry {
        pos,
        attr: raw[2],
        first: (raw[3], raw[4]),
        name: trim_pad(&raw[5..21]),
        extra,
        size: u16::from_le_bytes([raw[0x1E], raw[0x1F]]),
        scheme: scheme_of(raw[2], &extra),
    }
}

/// Follow a chain: the sectors with the number of bytes used in each (2..=256).
pub fn chain(geo: &Geo, img: &[u8], start: Loc) -> Result<Vec<(Loc, usize)>, Bad> {
    let (v, bad) = chain_prefix(geo, img, start);
    match bad {
        Some(b) => Err(b),
        None => Ok(v),
    }
}

pub fn chain_prefix(geo: &Geo, img: &[u8], start: Loc) -> (Vec<(Loc, usize)>, Option<Bad>) {
    let mut out = vec![];
    let mut seen = vec![false; geo.total_sectors()];
    let mut loc = start;
    loop {
        if !geo.valid(loc) {
            return (out, Some(Bad::Location));
        }
        let i = geo.index(loc);
        if seen[i] {
            return (out, Some(Bad::Loop));
        }
        seen[i] = true;
        let b = geo.sector(img, loc);
        if b[0] == 0 {
            if b[1] == 0 {
                return (out, Some(Bad::Link));
            }
            out.push((loc, b[1] as usize + 1));
            return (out, None);
        }
        out.push((loc, 256));
        loc = (b[0], b[1]);
    }
}

pub fn chain_bytes(geo: &Geo, img: &[u8], start: Loc) -> Result<Vec<u8>, Bad> {
    let mut v = vec![];
    for (l, used) in chain(geo, img, start)? {
        v.extend_from_slice(&geo.sector(img, l)[2..used]);
    }
    Ok(v)
}

pub struct Rel {
    pub side: Vec<Loc>,
    pub data: Vec<Loc>,
    pub record_len: usize,
    pub records: usize,
}

pub fn rel(geo: &Geo, img: &[u8], e: &Entry) -> Result<Rel, Bad> {
    let record_len = e.extra[2] as usize;
    if record_len == 0 {
        return Err(Bad::Relative);
    }
    let sides = chain(geo, img, (e.extra[0], e.extra[1]))?;
    let side: Vec<Loc> = sides.iter().map(|s| s.0).collect();
    if side.len() > 6 {
        return Err(Bad::Relative);
    }
    let mut data = vec![];
    for (l, used) in &sides {
        let b = geo.sector(img, *l);
        if *used < 16 || used % 2 == 1 {
            return Err(Bad::Relative);
        }
        let list: Vec<Loc> =
            b[4..16].chunks(2).map(|c| (c[0], c[1])).filter(|l| l.0 != 0).collect();
        if list != side {
            return Err(Bad::Relative);
        }
        data.extend(b[16..*used].chunks(2).map(|c| (c[0], c[1])));
    }
    let mut bytes = 0;
    if let Some(last) = data.last() {
        if !geo.valid(*last) {
            return Err(Bad::Location);
        }
        let b = geo.sector(img, *last);
        if b[0] != 0 {
            return Err(Bad::Relative);
        }
        if b[1] == 0 {
            return Err(Bad::Link);
        }
        bytes = (data.len() - 1) * 254 + b[1] as usize - 1;
    }
    if bytes % record_len != 0 {
        return Err(Bad::Relative);
    }
    Ok(Rel { side, data, record_len, records: bytes / record_len })
}

/// The record starts of a VLIR index block.
pub fn vlir(geo: &Geo, img: &[u8], first: Loc) -> Result<Vec<Option<Loc>>, Bad> {
    if !geo.valid(first) {
        return Err(Bad::Location);
    }
    let b = geo.sector(img, first);
    Ok(b[2..]
        .chunks(2)
        .take_while(|c| c[0] != 0 || c[1] != 0)
        .map(|c| if c[0] == 0 && c[1] == 0xFF { None } else { Some((c[0], c[1])) })
        .collect())
}

pub fn info_loc(e: &Entry) -> Option<Loc> {
    match e.scheme {
        Scheme::Seq | Scheme::Vlir if e.extra[0] != 0 || e.extra[1] != 0 => {
            Some((e.extra[0], e.extra[1]))
        }
        _ => None,
    }
}

/// All sectors a file occupies, sorted.
pub fn owned(geo: &Geo, img: &[u8], e: &Entry) -> Result<Vec<Loc>, Bad> {
    let mut v: Vec<Loc>;
    match e.scheme {
        Scheme::Linear => {
            v = chain(geo, img, e.first)?.into_iter().map(|c| c.0).collect();
        }
        Scheme::Rel => {
            let r = rel(geo, img, e)?;
            v = r.data;
            v.extend(r.side);
        }
        Scheme::Seq | Scheme::Vlir => {
            v = chain(geo, img, e.first)?.into_iter().map(|c| c.0).collect();
            if let Some(i) = info_loc(e) {
                v.push(i);
            }
            if e.scheme == Scheme::Vlir {
                for r in vlir(geo, img, e.first)?.into_iter().flatten() {
                    v.extend(chain(geo, img, r)?.into_iter().map(|c| c.0));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    Ok(v)
}

/// The sectors of a file that can still be reached if its structure is damaged.
pub fn reachable(geo: &Geo, img: &[u8], e: &Entry) -> Vec<Loc> {
    let mut v: Vec<Loc> = chain_prefix(geo, img, e.first).0.into_iter().map(|c| c.0).collect();
    if e.scheme != Scheme::Linear {
        let l = (e.extra[0], e.extra[1]);
        if geo.valid(l) {
            v.extend(chain_prefix(geo, img, l).0.into_iter().map(|c| c.0));
            for s in chain_prefix(geo, img, l).0 {
                v.extend(geo.sector(img, s.0)[4..].chunks(2).map(|c| (c[0], c[1])));
            }
            v.push(l);
        }
        if let Ok(rs) = vlir(geo, img, e.first) {
            for r in rs.into_iter().flatten() {
                v.extend(chain_prefix(geo, img, r).0.into_iter().map(|c| c.0));
            }
        }
    }
    v.retain(|l| geo.valid(*l));
    v.sort();
    v.dedup();
    v
}

#[derive(Clone, Debug)]
pub struct PFile {
    pub e: Entry,
    pub owned: Result<Vec<Loc>, Bad>,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub formatted: bool,
    pub geos: bool,
    pub border: Option<Loc>,
    /// The directory sectors in chain order.
    pub dir: Vec<Loc>,
    pub dir_bad: Option<Bad>,
    /// Listed files in slot order (border last).
    pub files: Vec<PFile>,
    /// Free (scratched) slots of the directory proper.
    pub free_slots: Vec<SlotPos>,
}

pub fn parse(geo: &Geo, img: &[u8]) -> Parsed {
    let formatted = geo.formatted(img);
    let (dir_chain, dir_bad) = chain_prefix(geo, img, geo.first_dir());
    let mut files = vec![];
    let mut free_slots = vec![];
    let border = geo.border(img);
    let mut blocks: Vec<(Loc, usize, bool)> =
        dir_chain.iter().map(|(l, used)| (*l, *used, false)).collect();
    if dir_bad.is_none() {
        if let Some(b) = border {
            if geo.valid(b) {
                blocks.push((b, 256, true));
            }
        }
    }
    for (l, used, is_border) in blocks {
        let b = geo.sector(img, l);
        for i in 0..used / 32 {
            let raw = &b[i * 32..i * 32 + 32];
            let pos = SlotPos { loc: l, off: i * 32, border: is_border };
            // Scratched: type DEL and not closed.
            if raw[2] & 0x8F == 0 {
                if !is_border {
                    free_slots.push(pos);
                }
                continue;
            }
            let e = parse_entry(raw, pos);
            let owned = owned(geo, img, &e);
            files.push(PFile { e, owned });
        }
    }
    Parsed {
        formatted,
        geos: geo.is_geos(img),
        border,
        dir: dir_chain.into_iter().map(|c| c.0).collect(),
        dir_bad,
        files,
        free_slots,
    }
}

impl Parsed {
    pub fn find(&self, name: &[u8]) -> Option<&PFile> {
        self.files.iter().find(|f| f.e.name == name)
    }
    pub fn at(&self, pos: &SlotPos) -> Option<&PFile> {
        self.files.iter().find(|f| f.e.pos == *pos)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Issue {
    /// Allocated but owned by nobody.
    Leak(Loc),
    /// A system sector marked free.
    SystemFree(Loc),
    /// A sector of the directory, the border or a file marked free.
    OwnedFree(Loc),
    /// Claimed by more than one owner.
    Double(Loc),
    /// The file's structure cannot be scanned.
    BadFile(Vec<u8>),
    /// Free count differs from the bitmap.
    Count(u8),
    DirBroken,
    Unformatted,
}

/// Everything inconsistent about an image.
pub fn fsck(geo: &Geo, img: &[u8], p: &Parsed) -> Vec<Issue> {
    let mut issues = vec![];
    if !p.formatted {
        return vec![Issue::Unformatted];
    }
    if p.dir_bad.is_some() {
        issues.push(Issue::DirBroken);
    }
    let mut owners = vec![0u8; geo.total_sectors()];
    let system = geo.system_locs();
    for l in &system {
        owners[geo.index(*l)] = 1;
    }
    for l in p.dir.iter().chain(p.border.iter()) {
        if geo.valid(*l) {
            owners[geo.index(*l)] = 1;
        }
    }
    for f in &p.files {
        match &f.owned {
            Ok(v) => {
                for l in v {
                    if !geo.valid(*l) {
                        continue;
                    }
                    let o = &mut owners[geo.index(*l)];
                    if *o > 0 {
                        issues.push(Issue::Double(*l));
                    }
                    *o = 1;
                }
            }
            Err(_) => issues.push(Issue::BadFile(f.e.name.clone())),
        }
    }
    for l in geo.std_locs() {
        let owned = owners[geo.index(l)] > 0;
        let free = geo.is_free(img, l);
        if owned && free {
            if system.contains(&l) {
                issues.push(Issue::SystemFree(l));
            } else {
                issues.push(Issue::OwnedFree(l));
            }
        } else if !owned && !free {
            issues.push(Issue::Leak(l));
        }
    }
    for t in 1..=geo.last_std() {
        if img[geo.count_off(t)] != geo.count_bits(img, t) {
            issues.push(Issue::Count(t));
        }
    }
    issues.sort();
    issues.dedup();
    issues
}

/// Problems that put listed data at risk (lost sectors and stale counts are not).
pub fn dangerous(issues: &[Issue]) -> Vec<Issue> {
    issues
        .iter()
        .filter(|i| !matches!(i, Issue::Leak(_) | Issue::Count(_)))
        .cloned()
        .collect()
}
