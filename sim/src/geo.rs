//! An independent description of the supported disk layouts, written from the published format
//! documents and working on raw image bytes only.

pub type Loc = (u8, u8);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    D64,
    D71,
    D81,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Geo {
    pub kind: Kind,
    pub tracks: u8,
    pub errors: bool,
}

pub const GEOS: [Geo; 8] = [
    Geo { kind: Kind::D64, tracks: 35, errors: false },
    Geo { kind: Kind::D64, tracks: 35, errors: true },
    Geo { kind: Kind::D64, tracks: 40, errors: false },
    Geo { kind: Kind::D64, tracks: 40, errors: true },
    Geo { kind: Kind::D71, tracks: 70, errors: false },
    Geo { kind: Kind::D71, tracks: 70, errors: true },
    Geo { kind: Kind::D81, tracks: 80, errors: false },
    Geo { kind: Kind::D81, tracks: 80, errors: true },
];

pub const PAD: u8 = 0xA0;

impl Kind {
    /// Offsets in the header sector of the bytes that are normally padding.
    pub fn pads(self) -> &'static [usize] {
        if self == Kind::D81 {
            &[0x14, 0x15, 0x18, 0x1B, 0x1C]
        } else {
            &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]
        }
    }
}

impl Geo {
    pub fn name(&self) -> String {
        format!("{:?}/{}{}", self.kind, self.tracks, if self.errors { "+errors" } else { "" })
    }
    pub fn ext(&self) -> &'static str {
        match self.kind {
            Kind::D64 => "d64",
            Kind::D71 => "d71",
            Kind::D81 => "d81",
        }
    }
    /// Sectors on a track (0 if there is no such track).
    pub fn sectors(&self, track: u8) -> u8 {
        if track < 1 || track > self.tracks {
            return 0;
        }
        let zone = |t: u8| match t {
            1..=17 => 21,
            18..=24 => 19,
            25..=30 => 18,
            _ => 17,
        };
        match self.kind {
            Kind::D64 => zone(track),
            Kind::D71 if track > 35 => zone(track - 35),
            Kind::D71 => zone(track),
            Kind::D81 => 40,
        }
    }
    pub fn total_sectors(&self) -> usize {
        (1..=self.tracks).map(|t| self.sectors(t) as usize).sum()
    }
    pub fn data_size(&self) -> usize {
        self.total_sectors() * 256
    }
    pub fn size(&self) -> usize {
        self.data_size() + if self.errors { self.total_sectors() } else { 0 }
    }
    pub fn valid(&self, l: Loc) -> bool {
        l.1 < self.sectors(l.0)
    }
    /// Linear sector number.
    pub fn index(&self, l: Loc) -> usize {
        let (t, s) = (l.0 as usize, l.1 as usize);
        match self.kind {
            Kind::D81 => (t - 1) * 40 + s,
            _ => {
                let (side, t) = if self.kind == Kind::D71 && t > 35 { (683, t - 35) } else { (0, t) };
                let before = match t {
                    1..=17 => (t - 1) * 21,
                    18..=24 => 357 + (t - 18) * 19,
                    25..=30 => 490 + (t - 25) * 18,
                    _ => 598 + (t - 31) * 17,
                };
                side + before + s
            }
        }
    }
    pub fn loc_of(&self, mut index: usize) -> Loc {
        for t in 1..=self.tracks {
            let n = self.sectors(t) as usize;
            if index < n {
                return (t, index as u8);
            }
            index -= n;
        }
        (0, 0)
    }
    pub fn off(&self, l: Loc) -> usize {
        self.index(l) * 256
    }
    pub fn sector<'a>(&self, img: &'a [u8], l: Loc) -> &'a [u8] {
        let o = self.off(l);
        &img[o..o + 256]
    }
    pub fn sector_mut<'a>(&self, img: &'a mut [u8], l: Loc) -> &'a mut [u8] {
        let o = self.off(l);
        &mut img[o..o + 256]
    }
    /// Last track managed by the free map.
    pub fn last_std(&self) -> u8 {
        match self.kind {
            Kind::D64 => 35,
            Kind::D71 => 70,
            Kind::D81 => 80,
        }
    }
    pub fn std_locs(&self) -> Vec<Loc> {
        let mut v = vec![];
        for t in 1..=self.last_std() {
            for s in 0..self.sectors(t) {
                v.push((t, s));
            }
        }
        v
    }
    pub fn dir_track(&self) -> u8 {
        if self.kind == Kind::D81 {
            40
        } else {
            18
        }
    }
    pub fn reserved_track(&self) -> u8 {
        if self.kind == Kind::D71 {
            53
        } else {
            0
        }
    }
    pub fn header(&self) -> Loc {
        (self.dir_track(), 0)
    }
    pub fn first_dir(&self) -> Loc {
        if self.kind == Kind::D81 {
            (40, 3)
        } else {
            (18, 1)
        }
    }
    pub fn is_data_track(&self, t: u8) -> bool {
        t >= 1 && t <= self.last_std() && t != self.dir_track() && t != self.reserved_track()
    }
    pub fn system_locs(&self) -> Vec<Loc> {
        match self.kind {
            Kind::D64 => vec![(18, 0), (18, 1)],
            Kind::D71 => {
                let mut v = vec![(18, 0), (18, 1)];
                v.extend((0..19).map(|s| (53, s)));
                v
            }
            Kind::D81 => vec![(40, 0), (40, 1), (40, 2), (40, 3)],
        }
    }
    pub fn name_off(&self) -> usize {
        self.off(self.header()) + if self.kind == Kind::D81 { 0x04 } else { 0x90 }
    }
    pub fn id_off(&self) -> usize {
        self.off(self.header()) + if self.kind == Kind::D81 { 0x16 } else { 0xA2 }
    }
    /// Where the header keeps the format type, the version shown and the type shown.
    pub fn type_offs(&self) -> [usize; 3] {
        let h = self.off(self.header());
        if self.kind == Kind::D81 {
            [h + 0x02, h + 0x19, h + 0x1A]
        } else {
            [h + 0x02, h + 0xA5, h + 0xA6]
        }
    }
    pub fn max_entries(&self) -> usize {
        if self.kind == Kind::D81 {
            296
        } else {
            144
        }
    }

    // ---- free map ----

    /// Byte offset in the image of the free count of a track.
    pub fn count_off(&self, t: u8) -> usize {
        let i = t as usize;
        match self.kind {
            Kind::D64 => self.off((18, 0)) + 4 * i,
            Kind::D71 if t <= 35 => self.off((18, 0)) + 4 * i,
            Kind::D71 => self.off((18, 0)) + 0xDD + (i - 36),
            Kind::D81 if t <= 40 => self.off((40, 1)) + 0x10 + 6 * (i - 1),
            Kind::D81 => self.off((40, 2)) + 0x10 + 6 * (i - 41),
        }
    }
    /// Byte offset in the image of the bitmap of a track, and its length.
    pub fn bitmap_off(&self, t: u8) -> (usize, usize) {
        let i = t as usize;
        match self.kind {
            Kind::D64 => (self.off((18, 0)) + 4 * i + 1, 3),
            Kind::D71 if t <= 35 => (self.off((18, 0)) + 4 * i + 1, 3),
            Kind::D71 => (self.off((53, 0)) + 3 * (i - 36), 3),
            Kind::D81 => (self.count_off(t) + 1, 5),
        }
    }
    pub fn is_free(&self, img: &[u8], l: Loc) -> bool {
        let (o, _) = self.bitmap_off(l.0);
        img[o + l.1 as usize / 8] >> (l.1 % 8) & 1 == 1
    }
    pub fn set_free(&self, img: &mut [u8], l: Loc, free: bool) {
        let (o, _) = self.bitmap_off(l.0);
        let bit = 1u8 << (l.1 % 8);
        let b = &mut img[o + l.1 as usize / 8];
        if free {
            *b |= bit;
        } else {
            *b &= !bit;
        }
    }
    pub fn count_bits(&self, img: &[u8], t: u8) -> u8 {
        (0..self.sectors(t)).filter(|s| self.is_free(img, (t, *s))).count() as u8
    }
    pub fn update_counts(&self, img: &mut [u8]) {
        for t in 1..=self.last_std() {
            let n = self.count_bits(img, t);
            img[self.count_off(t)] = n;
        }
    }
    /// Number of data sectors the bitmap shows as free.
    pub fn free_data(&self, img: &[u8]) -> usize {
        (1..=self.last_std())
            .filter(|t| self.is_data_track(*t))
            .map(|t| self.count_bits(img, t) as usize)
            .sum()
    }
    /// All byte ranges of the image which make up the free map.
    pub fn bam_ranges(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for t in 1..=self.last_std() {
            v.push((self.count_off(t), 1));
            v.push(self.bitmap_off(t));
        }
        v
    }

    // ---- header ----

    pub fn is_geos(&self, img: &[u8]) -> bool {
        &self.sector(img, self.header())[0xAD..0xAD + 11] == b"GEOS format"
    }
    pub fn border(&self, img: &[u8]) -> Option<Loc> {
        if self.is_geos(img) {
            let h = self.sector(img, self.header());
            Some((h[0xAB], h[0xAC]))
        } else {
            None
        }
    }
    pub fn formatted(&self, img: &[u8]) -> bool {
        self.kind != Kind::D71 || self.sector(img, self.header())[3] == 0x80
    }

    /// Bytes of the header sector which nothing depends on, apart from the padding.
    pub fn spare_header(&self, geos: bool) -> Vec<usize> {
        match self.kind {
            Kind::D64 => (if geos { 0xBE } else { 0xAB }..0x100).collect(),
            Kind::D71 => (if geos { 0xBE } else { 0xAB }..0xDD).collect(),
            Kind::D81 => (if geos { 0xBE } else { 0x1D }..0x100).collect(),
        }
    }

    /// A freshly formatted image (bytes the format documents prescribe; unused bytes zero).
    pub fn fresh(&self, name: &[u8], id: [u8; 2]) -> Vec<u8> {
        let mut img = vec![0u8; self.size()];
        let d = self.first_dir();
        self.sector_mut(&mut img, d)[1] = 0xFF;
        let is81 = self.kind == Kind::D81;
        {
            let kind = self.kind;
            let h = self.sector_mut(&mut img, self.header());
            h[0] = d.0;
            h[1] = d.1;
            h[2] = if is81 { b'D' } else { b'A' };
            let base = if is81 { 0x04 } else { 0x90 };
            for i in 0..16 {
                h[base + i] = *name.get(i).unwrap_or(&PAD);
            }
            for p in kind.pads() {
                h[*p] = PAD;
            }
            if is81 {
                h[0x16] = id[0];
                h[0x17] = id[1];
                h[0x19] = b'3';
                h[0x1A] = b'D';
            } else {
                h[0xA2] = id[0];
                h[0xA3] = id[1];
                h[0xA5] = b'2';
                h[0xA6] = b'A';
            }
            if kind == Kind::D71 {
                h[3] = 0x80;
            }
        }
        for l in self.std_locs() {
            self.set_free(&mut img, l, true);
        }
        for l in self.system_locs() {
            self.set_free(&mut img, l, false);
        }
        self.update_counts(&mut img);
        img
    }
}

/// The rule by which the drive picks the next sector.  `free` answers whether a sector is free;
/// `prev` is the sector to continue from (the last directory sector for directory growth) and `None`
/// for file data.
pub fn drive_alloc(geo: &Geo, geos: bool, free: &dyn Fn(Loc) -> bool, prev: Option<Loc>) -> Option<Loc> {
    let avail = |t: u8| (0..geo.sectors(t)).any(|s| free((t, s)));
    let scan = |t: u8, start: u8| {
        let n = geo.sectors(t) as u32;
        (0..n).map(|i| ((start as u32 + i) % n) as u8).find(|s| free((t, *s))).map(|s| (t, s))
    };
    let (skip, dir_skip) = match geo.kind {
        Kind::D64 => (10u32, 3u32),
        Kind::D71 => (6, 3),
        Kind::D81 => (1, 1),
    };
    match prev {
        None if !geos => {
            // Nearest track to the directory track, lower side first, lowest sector.
            let d = geo.dir_track();
            for dist in 1..=geo.last_std() {
                if d > dist && avail(d - dist) {
                    return scan(d - dist, 0);
                }
                if d as u32 + dist as u32 <= geo.last_std() as u32 && avail(d + dist) {
                    return scan(d + dist, 0);
                }
            }
            None
        }
        None => {
            // GEOS: from track 1 upwards, with skew.
            for t in 1..=geo.last_std() {
                if !geo.is_data_track(t) || !avail(t) {
                    continue;
                }
                let mut s = if t == 1 {
                    skip
                } else {
                    (t as u32 - 1) * 2 + 4 + skip
                };
                let n = geo.sectors(t) as u32;
                while s >= n {
                    s -= n;
                }
                return scan(t, s as u8);
            }
            None
        }
        Some(p) => {
            let d = geo.dir_track();
            let last = geo.last_std();
            // The order in which tracks are looked at, and from where on the sector starts over.
            let mut order: Vec<(u8, bool)> = vec![];
            let mut push = |ts: &mut dyn Iterator<Item = u8>, over: bool| {
                order.extend(ts.filter(|t| *t == p.0 || geo.is_data_track(*t)).map(|t| (t, over)))
            };
            if p.0 == d {
                push(&mut (d..=d), false);
            } else if geos {
                push(&mut (p.0..=last), false);
                push(&mut (1..=last), true);
            } else if p.0 < d {
                push(&mut (1..=p.0).rev(), false);
                push(&mut (d + 1..=last), true);
                push(&mut (1..d).rev(), true);
            } else {
                push(&mut (p.0..=last), false);
                push(&mut (1..d).rev(), true);
                push(&mut (d + 1..=last), true);
            }
            let (t, over) = order.into_iter().find(|(t, _)| avail(*t))?;
            let step = if t == d { dir_skip } else { skip };
            let mut s = if over {
                0
            } else if geos && t != p.0 {
                (t - p.0) as u32 * 2 + 4 + step
            } else {
                p.1 as u32 + step - (geos && t >= 25) as u32
            };
            let n = geo.sectors(t) as u32;
            while s >= n {
                s -= n;
                if s > 0 && !geos {
                    s -= 1;
                }
            }
            scan(t, s as u8)
        }
    }
}
