//! Build the initial image of a run from scratch, independently of the library.

use crate::content;
use crate::geo::{drive_alloc, Geo, Kind, Loc, PAD};
use crate::refimg::{Scheme, SlotPos};
use crate::rng::{hash2, Rng};
use crate::scenario::{Cfg, Pre};

/// A file which is part of the initial image.
#[derive(Clone, Debug)]
pub struct Built {
    pub uid: u32,
    pub name: Vec<u8>,
    pub attr: u8,
    pub extra: [u8; 9],
    pub size: u16,
    pub scheme: Scheme,
    pub pos: SlotPos,
    /// Linear (and GEOS sequential) content length.
    pub len: usize,
    /// Records of REL and VLIR files.
    pub records: Vec<Option<Vec<u8>>>,
    pub info: Option<Vec<u8>>,
    pub owned: Vec<Loc>,
    pub export: Option<Vec<u8>>,
    /// A record has more blocks than a Convert stream can describe; `export` ends where that shows.
    pub too_long: bool,
}

pub const PRE_KINDS: u32 = 12;

struct Builder<'a> {
    geo: &'a Geo,
    img: Vec<u8>,
    geos: bool,
    rng: Option<Rng>,
    dir: Vec<Loc>,
    next_slot: usize,
    border: Option<Loc>,
    next_border: usize,
    out: Vec<Built>,
    uid: u32,
}

impl<'a> Builder<'a> {
    fn free_data(&self) -> usize {
        self.geo.free_data(&self.img)
    }

    fn alloc(&mut self) -> Option<Loc> {
        let geo = *self.geo;
        let l = match self.rng {
            None => {
                let img = &self.img;
                drive_alloc(&geo, self.geos, &|l| geo.is_free(img, l), None)
            }
            Some(ref mut rng) => {
                let mut l = None;
                for _ in 0..64 {
                    let c = geo.loc_of(rng.below(geo.total_sectors() as u64) as usize);
                    if geo.is_data_track(c.0) && geo.is_free(&self.img, c) {
                        l = Some(c);
                        break;
                    }
                }
                let img = &self.img;
                l.or_else(|| {
                    geo.std_locs().into_iter().find(|l| geo.is_data_track(l.0) && geo.is_free(img, *l))
                })
            }
        }?;
        self.geo.set_free(&mut self.img, l, false);
        Some(l)
    }

    /// Store bytes as a chain; the caller has checked that there is room.
    fn store(&mut self, data: &[u8]) -> Vec<Loc> {
        let chunks: Vec<&[u8]> = if data.is_empty() { vec![&[][..]] } else { data.chunks(254).collect() };
        let locs: Vec<Loc> = chunks.iter().map(|_| self.alloc().expect("room")).collect();
        for (i, c) in chunks.iter().enumerate() {
            let next = locs.get(i + 1).copied();
            let b = self.geo.sector_mut(&mut self.img, locs[i]);
            // Bytes beyond the used part hold something recognisable.
            for (j, x) in b.iter_mut().enumerate() {
                *x = 0xE0 ^ (j as u8);
            }
            b[2..2 + c.len()].copy_from_slice(c);
            match next {
                Some(n) => {
                    b[0] = n.0;
                    b[1] = n.1;
                }
                None => {
                    b[0] = 0;
                    b[1] = (c.len() + 1) as u8;
                }
            }
        }
        locs
    }

    fn slot(&mut self, border: bool) -> Option<SlotPos> {
        if border {
            let b = self.border?;
            if self.next_border >= 8 {
                return None;
            }
            self.next_border += 1;
            return Some(SlotPos { loc: b, off: (self.next_border - 1) * 32, border: true });
        }
        if self.next_slot / 8 >= self.dir.len() {
            let last = *self.dir.last().unwrap();
            let geo = *self.geo;
            let img = &self.img;
            let l = drive_alloc(&geo, self.geos, &|l| geo.is_free(img, l), Some(last))?;
            self.geo.set_free(&mut self.img, l, false);
            let b = self.geo.sector_mut(&mut self.img, last);
            b[0] = l.0;
            b[1] = l.1;
            let b = self.geo.sector_mut(&mut self.img, l);
            b.fill(0);
            b[1] = 0xFF;
            self.dir.push(l);
        }
        let pos = SlotPos {
            loc: self.dir[self.next_slot / 8],
            off: (self.next_slot % 8) * 32,
            border: false,
        };
        self.next_slot += 1;
        Some(pos)
    }

    fn entry(&mut self, pos: SlotPos, attr: u8, first: Loc, name: &[u8], extra: [u8; 9], size: u16) {
        let o = self.geo.off(pos.loc) + pos.off;
        let b = &mut self.img[o..o + 32];
        b[2] = attr;
        b[3] = first.0;
        b[4] = first.1;
        for i in 0..16 {
            b[5 + i] = *name.get(i).unwrap_or(&PAD);
        }
        b[0x15..0x1E].copy_from_slice(&extra);
        b[0x1E..0x20].copy_from_slice(&size.to_le_bytes());
    }

    fn has_slot(&self, border: bool) -> bool {
        if border {
            self.border.is_some() && self.next_border < 8
        } else {
            self.next_slot / 8 < self.dir.len()
                || (0..self.geo.sectors(self.geo.dir_track()))
                    .any(|s| self.geo.is_free(&self.img, (self.geo.dir_track(), s)))
        }
    }

    fn add(&mut self, p: &Pre, name: Vec<u8>) {
        let x = p.x;
        let uid = self.uid;
        self.uid += 1;
        let kind = p.kind % PRE_KINDS;
        let border = kind == 8 && self.border.is_some();
        if !self.has_slot(border) {
            return;
        }
        let mut extra = [0u8; 9];
        let mut rng = Rng::new(hash2(x as u64, uid as u64));
        match kind {
            // Linear files of several types and flags.
            0 | 1 | 2 | 6 | 7 | 10 => {
                let mut len = p.size as usize;
                if len >= 100_000 {
                    len = len.min(254 * self.free_data().saturating_sub(1 + x as usize % 20));
                }
                if self.free_data() < len / 254 + 1 {
                    return;
                }
                let attr = match kind {
                    0 => 0x82,
                    1 => 0x81,
                    2 => 0x83,
                    6 => 0xC2,
                    7 => 0x02,
                    _ => 0x80,
                };
                // Flags and types nobody should have set, but that are kept all the same.
                let attr = match x / 24 % 12 {
                    1 => attr | 0x10,
                    2 => attr | 0x20,
                    3 => attr | 0x70,
                    4 if kind != 10 => (attr | 0x30) & 0x7F,
                    5 if kind == 10 => 0x85 + (x / 500 % 11) as u8,
                    _ => attr,
                };
                let locs = self.store(&content::bytes(uid, 0, len));
                let pos = self.slot(false).unwrap();
                // What the directory says need not be true.
                let size = match x % 24 {
                    7 => 0,
                    8 => locs.len() as u16 + 9,
                    9 if kind == 10 => 65535,
                    _ => locs.len() as u16,
                };
                self.entry(pos, attr, locs[0], &name, extra, size);
                let mut owned = locs;
                owned.sort();
                self.out.push(Built {
                    uid, name, attr, extra, size, scheme: Scheme::Linear, pos, len,
                    records: vec![], info: None, owned, export: None, too_long: false,
                });
            }
            // Relative files.
            3 => {
                let rl = 1 + (x as usize % 254);
                // Sizes of exactly so many full side sectors come with a record length that fits.
                let rl = if p.size as usize % (120 * 254) == 0 && p.size > 0 { [254, 127, 2, 127][rl % 4] } else { rl };
                let n = (p.size as usize / rl).max(1);
                let data = content::bytes(uid, 0, n * rl);
                let blocks = (data.len() + 253) / 254;
                let sides = (blocks + 119) / 120;
                if sides > 6 || self.free_data() < blocks + sides {
                    return;
                }
                let locs = self.store(&data);
                let side: Vec<Loc> = (0..sides).map(|_| self.alloc().unwrap()).collect();
                for i in 0..sides {
                    let part: Vec<Loc> = locs.iter().skip(i * 120).take(120).copied().collect();
                    let b = self.geo.sector_mut(&mut self.img, side[i]);
                    b.fill(0);
                    match side.get(i + 1) {
                        Some(n) => {
                            b[0] = n.0;
                            b[1] = n.1;
                        }
                        None => b[1] = (16 + part.len() * 2 - 1) as u8,
                    }
                    b[2] = i as u8;
                    b[3] = rl as u8;
                    for (j, s) in side.iter().enumerate() {
                        b[4 + 2 * j] = s.0;
                        b[5 + 2 * j] = s.1;
                    }
                    for (j, s) in part.iter().enumerate() {
                        b[16 + 2 * j] = s.0;
                        b[17 + 2 * j] = s.1;
                    }
                }
                extra[0] = side[0].0;
                extra[1] = side[0].1;
                extra[2] = rl as u8;
                for e in extra.iter_mut().skip(3) {
                    *e = rng.next() as u8;
                }
                let pos = self.slot(false).unwrap();
                let size = (blocks + sides) as u16;
                let attr = [0x84, 0x84, 0x84, 0xC4, 0x04, 0x94, 0xA4, 0x34][x as usize / 300 % 8];
                self.entry(pos, attr, locs[0], &name, extra, size);
                let mut owned = locs;
                owned.extend(side);
                owned.sort();
                self.out.push(Built {
                    uid, name, attr, extra, size, scheme: Scheme::Rel, pos, len: 0,
                    records: data.chunks(rl).map(|c| Some(c.to_vec())).collect(),
                    info: None, owned, export: None, too_long: false,
                });
            }
            // GEOS sequential and VLIR files, possibly on the border.
            4 | 5 | 8 => {
                let is_vlir = kind == 5 || (kind == 8 && x & 1 == 1);
                let mut recs: Vec<Option<Vec<u8>>> = vec![];
                let need;
                if is_vlir {
                    let long = p.size >= 60_000;
                    let n = match x % 7 {
                        _ if long => 1 + rng.below(3) as usize,
                        0 => 127,
                        1 => 0,
                        2 => 126,
                        _ => 1 + rng.below(12) as usize,
                    };
                    // Sometimes every place of the index is taken.
                    let full = n > 20 && x / 7 % 3 == 0;
                    let mut total = 0;
                    let mut base = 0;
                    for k in 0..n {
                        if long && k == x as usize % n {
                            let len = match x % 5 {
                                0 => 255 * 254,
                                1 => 255 * 254 + 1,
                                2 => 256 * 254,
                                3 => 257 * 254 - 1,
                                _ => (p.size as usize).min(128_000),
                            };
                            total += len.div_ceil(254);
                            recs.push(Some(content::bytes(uid, base, len)));
                            base += len;
                        } else if long {
                            let len = rng.below(600) as usize;
                            total += len.max(1).div_ceil(254);
                            recs.push(Some(content::bytes(uid, base, len)));
                            base += len;
                        } else if !full && (rng.chance(1, 3) || (n > 20 && rng.chance(2, 3))) {
                            recs.push(None);
                        } else {
                            let len = match rng.below(6) {
                                _ if full => 1 + rng.below(300) as usize,
                                0 => 0,
                                1 => 254,
                                2 => 508,
                                3 => 255,
                                _ => rng.skewed((p.size as u64).max(1)) as usize,
                            };
                            total += len.max(1).div_ceil(254);
                            recs.push(Some(content::bytes(uid, base, len)));
                            base += len;
                        }
                    }
                    need = total + 2;
                } else {
                    need = (p.size as usize).max(1).div_ceil(254) + 1;
                }
                if self.free_data() < need {
                    return;
                }
                let no_info = x % 11 == 3;
                let info_loc = if no_info { (0, 0) } else { self.alloc().unwrap() };
                let mut info = vec![0u8; 256];
                for b in info.iter_mut() {
                    *b = rng.next() as u8;
                }
                info[0] = 0;
                info[1] = 0xFF;
                info[0x46] = is_vlir as u8;
                if !no_info {
                    self.geo.sector_mut(&mut self.img, info_loc).copy_from_slice(&info);
                }
                extra[0] = info_loc.0;
                extra[1] = info_loc.1;
                extra[2] = is_vlir as u8;
                extra[3] = 1 + (x % 14) as u8;
                for e in extra.iter_mut().skip(4) {
                    *e = rng.next() as u8;
                }
                let attr = [0x83u8, 0x82, 0x81, 0xC3, 0x93, 0xB3][(x as usize / 7) % 6];
                let first;
                let len;
                let mut owned = vec![];
                if !no_info {
                    owned.push(info_loc);
                }
                let mut index = vec![0u8; 254];
                if is_vlir {
                    first = self.alloc().unwrap();
                    owned.push(first);
                    let mut block = vec![0u8; 256];
                    block[1] = 0xFF;
                    for (i, r) in recs.iter().enumerate() {
                        match r {
                            None => {
                                block[3 + 2 * i] = 0xFF;
                                index[1 + 2 * i] = 0xFF;
                            }
                            Some(d) => {
                                let locs = self.store(d);
                                block[2 + 2 * i] = locs[0].0;
                                block[3 + 2 * i] = locs[0].1;
                                index[2 * i] = locs.len() as u8;
                                index[1 + 2 * i] =
                                    if d.is_empty() { 1 } else { ((d.len() - 1) % 254 + 2) as u8 };
                                owned.extend(locs);
                            }
                        }
                    }
                    // What comes after the end mark of the index means nothing.
                    if recs.len() < 120 && x / 3 % 4 == 0 {
                        for b in block.iter_mut().skip(2 + 2 * (recs.len() + 1)) {
                            *b = rng.next() as u8 % 40;
                        }
                    }
                    self.geo.sector_mut(&mut self.img, first).copy_from_slice(&block);
                    len = 0;
                } else {
                    len = p.size as usize;
                    let data = content::bytes(uid, 0, len);
                    let locs = self.store(&data);
                    first = locs[0];
                    owned.extend(locs);
                    recs = vec![Some(data)];
                }
                let pos = self.slot(border).unwrap();
                let size = owned.len() as u16;
                self.entry(pos, attr, first, &name, extra, size);
                owned.sort();
                let too_long = is_vlir && recs.iter().flatten().any(|r| r.len() > 255 * 254);
                let export = if no_info {
                    None
                } else {
                    let mut s = vec![0u8; 254];
                    let o = self.geo.off(pos.loc) + pos.off;
                    s[..30].copy_from_slice(&self.img[o + 2..o + 32]);
                    let sig: &[u8] = if is_vlir {
                        b"PRG formatted GEOS file V1.0"
                    } else {
                        b"SEQ formatted GEOS file V1.0"
                    };
                    s[30..30 + sig.len()].copy_from_slice(sig);
                    s.extend_from_slice(&info[2..]);
                    if is_vlir && !too_long {
                        s.extend_from_slice(&index);
                    }
                    let avail: Vec<&Vec<u8>> = if too_long { vec![] } else { recs.iter().flatten().collect() };
                    for (i, r) in avail.iter().enumerate() {
                        s.extend_from_slice(r);
                        if i + 1 < avail.len() {
                            let rem = r.len() % 254;
                            if rem > 0 {
                                s.resize(s.len() + 254 - rem, 0);
                            }
                        }
                    }
                    Some(s)
                };
                self.out.push(Built {
                    uid, name, attr, extra, size,
                    scheme: if is_vlir { Scheme::Vlir } else { Scheme::Seq },
                    pos, len, records: recs, info: if no_info { None } else { Some(info) }, owned, export, too_long,
                });
            }
            // A slot whose file was scratched, with leftovers of every kind.
            _ => {
                for e in extra.iter_mut() {
                    *e = rng.next() as u8;
                }
                extra[2] = (x & 1) as u8;
                extra[3] = 1 + (x % 14) as u8;
                let attr = if kind == 9 { 0x00 } else { 0x40 };
                let pos = self.slot(false).unwrap();
                self.entry(pos, attr, (17, 3), &name, extra, 77);
            }
        }
    }
}

pub fn pre_name(i: usize, x: u32) -> Vec<u8> {
    match x % 9 {
        0 => format!("PRE{:02}XXXXXXXXXXX", i).into_bytes(),
        1 => {
            let mut v = format!("P{:02}", i).into_bytes();
            v.push(0xA0);
            v.push(b'Z');
            v
        }
        _ => format!("PRE{:02}", i).into_bytes(),
    }
}

/// Build the image and describe its files in slot order (border last).
pub fn build(geo: &Geo, cfg: &Cfg, pre: &[Pre], seed: u64) -> (Vec<u8>, Vec<Built>) {
    if cfg.start == 1 {
        return (vec![0; geo.size()], vec![]);
    }
    if cfg.start == 2 {
        let mut rng = Rng::new(hash2(seed, 77));
        let img = (0..geo.size()).map(|_| rng.next() as u8).collect();
        return (img, vec![]);
    }
    let mut img = geo.fresh(b"SIMULATED DISK", *b"S1");
    if geo.errors {
        let mut rng = Rng::new(hash2(seed, 78));
        let n = geo.data_size();
        for b in img[n..].iter_mut() {
            *b = 1 + rng.below(15) as u8;
        }
    }
    // Tracks beyond the standard ones hold foreign data.
    for t in geo.last_std() + 1..=geo.tracks {
        for s in 0..geo.sectors(t) {
            let fill = (t as u8).wrapping_mul(7) ^ s;
            geo.sector_mut(&mut img, (t, s)).fill(fill);
        }
    }
    let mut border = None;
    if cfg.geos != 0 {
        let b: Loc = match geo.kind {
            Kind::D64 => (19, 8),
            Kind::D71 => (19, 6),
            Kind::D81 => (40, 19),
        };
        let h = geo.sector_mut(&mut img, geo.header());
        h[0xAB] = b.0;
        h[0xAC] = b.1;
        h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        let s = geo.sector_mut(&mut img, b);
        s.fill(0);
        s[1] = 0xFF;
        geo.set_free(&mut img, b, false);
        border = Some(b);
    }
    let h = hash2(seed, 80);
    if h % 3 == 0 {
        // A header as other tools write it.
        let mut rng = Rng::new(h);
        let spare = geo.spare_header(cfg.geos != 0);
        let o = geo.off(geo.header());
        if h & 0x100 != 0 {
            let v = rng.next() as u8;
            for p in geo.kind.pads() {
                img[o + p] = if h & 0x200 != 0 { 0 } else { v };
            }
        }
        if h & 0x400 != 0 {
            for p in spare {
                img[o + p] = rng.next() as u8;
            }
        }
        if h & 0x800 != 0 {
            // The DOS version and format type.
            img[o + 2] = rng.next() as u8;
            let p = if geo.kind == Kind::D81 { 0x19 } else { 0xA5 };
            img[o + p] = rng.next() as u8;
            img[o + p + 1] = rng.next() as u8;
        }
        if h & 0x3000 == 0 {
            // "Do not trust this field": where the directory starts.
            img[o] = rng.next() as u8;
            img[o + 1] = rng.next() as u8;
        }
        if h & 0x4000 != 0 && geo.kind == Kind::D81 {
            for s in [1, 2] {
                let o = geo.off((40, s));
                for p in 2..16 {
                    img[o + p] = rng.next() as u8;
                }
            }
        }
        if h & 0x4000 != 0 && geo.kind == Kind::D71 {
            let o = geo.off((53, 0));
            for p in 105..256 {
                img[o + p] = rng.next() as u8;
            }
        }
        if h & 0x8000 != 0 {
            // The unused first two bytes of directory slots.
            let o = geo.off(geo.first_dir());
            for k in 1..8 {
                img[o + 32 * k] = rng.next() as u8;
                img[o + 32 * k + 1] = rng.next() as u8;
            }
        }
    }
    if cfg.frag != 0 {
        // Leftover bytes in free sectors.
        let mut rng = Rng::new(hash2(seed, 79));
        for l in geo.std_locs() {
            if geo.is_free(&img, l) && geo.is_data_track(l.0) && rng.chance(1, 4) {
                let v = rng.next() as u8;
                let s = geo.sector_mut(&mut img, l);
                s.fill(v);
                s[0] = (v % 35) as u8;
            }
        }
    }
    if hash2(seed, 81) % 2 == 0 {
        // Leftover entries in free sectors of the directory track.
        let mut rng = Rng::new(hash2(seed, 82));
        let (t, _) = geo.first_dir();
        for s in 0..geo.sectors(t) {
            if !geo.is_free(&img, (t, s)) {
                continue;
            }
            let b = geo.sector_mut(&mut img, (t, s));
            b[0] = 0;
            b[1] = 0xFF;
            for k in 0..8 {
                let e = &mut b[32 * k + 2..32 * k + 32];
                if rng.chance(1, 4) {
                    continue;
                }
                e[0] = *rng.pick(&[0x82u8, 0x81, 0x83, 0x02, 0x00, 0xC2]);
                e[1] = 1;
                e[2] = rng.below(10) as u8;
                e[3..19].fill(PAD);
                let name = format!("OLD{}{}", s, k);
                e[3..3 + name.len()].copy_from_slice(name.as_bytes());
                e[19..].fill(0);
                e[28] = 3;
            }
        }
    }
    let mut b = Builder {
        geo,
        img,
        geos: cfg.geos != 0,
        rng: if cfg.frag == 0 { None } else { Some(Rng::new(hash2(cfg.frag as u64, 5))) },
        dir: vec![geo.first_dir()],
        next_slot: 0,
        border,
        next_border: 0,
        out: vec![],
        uid: 1000,
    };
    for (i, p) in pre.iter().enumerate() {
        let name = pre_name(i, p.x);
        b.add(p, name);
    }
    for i in 0..cfg.dirfill {
        let name = format!("D{:03}", i).into_bytes();
        b.add(&Pre { kind: 1, size: 5 + i % 40, x: 0 }, name);
    }
    if cfg.fill > 0 {
        let keep = cfg.fill as usize - 1;
        let mut n = 0;
        while b.free_data() > keep && b.has_slot(false) && n < 40 {
            let blocks = (b.free_data() - keep).min(if n == 0 { 60 } else { 700 });
            let name = format!("FILL{:02}", n).into_bytes();
            b.add(&Pre { kind: 0, size: (blocks * 254 - 1) as u32, x: 0 }, name);
            n += 1;
        }
    }
    geo.update_counts(&mut b.img);
    let mut out = b.out;
    let order = b.dir.clone();
    out.sort_by_key(|f| {
        (f.pos.border, order.iter().position(|l| *l == f.pos.loc).unwrap_or(0), f.pos.off)
    });
    (b.img, out)
}
