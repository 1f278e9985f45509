//! C10: images holding arbitrary bytes, and bytes changing under open handles.  There is no model:
//! every call must return, without a panic, after a bounded number of sector accesses.

use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;

use cbm::disk::directory::{DirectoryEntry, DirectoryIterator};
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::Id;
use cbm::Petscii;

use crate::base::Sim;
use crate::content;
use crate::dev::{self, err_text, guard, D};
use crate::geo::{Geo, Loc};
use crate::loc;
use crate::prefill;
use crate::refimg::{chain_prefix, info_loc, parse, reachable, Scheme};
use crate::rng::{hash2, hash_bytes, Rng};
use crate::run::Outcome;
use crate::scenario::{Op, Scn, K};
use crate::world::{file_type, R};

struct Cx {
    s: Sim,
    disk: Option<D>,
    path: Option<PathBuf>,
    handles: Vec<File>,
    readers: Vec<(Box<dyn Read>, u64)>,
    writers: Vec<Box<dyn Write>>,
    iters: Vec<(DirectoryIterator, usize)>,
    entries: Vec<DirectoryEntry>,
    worst_call: u64,
    worst_validate: u64,
}

/// Where damage matters: (offset of a byte in the image, is it the first byte of a link).
fn target(geo: &Geo, img: &[u8], class: u32, pick: u32, off: u32) -> (usize, bool) {
    let p = parse(geo, img);
    let at = |l: Loc, o: usize| geo.off(l) + o;
    let dir: Vec<Loc> = {
        let (v, _) = chain_prefix(geo, img, geo.first_dir());
        v.into_iter().map(|x| x.0).collect()
    };
    let n = |len: usize| pick as usize % len.max(1);
    match class % 12 {
        0 => (at(geo.header(), off as usize % 256), false),
        1 => {
            let r = geo.bam_ranges();
            let (o, len) = r[n(r.len())];
            (o + off as usize % len.max(1), false)
        }
        // The header's and other system sectors' links.
        2 => {
            let s = geo.system_locs();
            (at(s[n(s.len())], 0), true)
        }
        3 if !dir.is_empty() => (at(dir[n(dir.len())], 0), true),
        // A directory entry: its type, first sector, side sector or info block, record length, size.
        4 | 5 | 6 if !p.files.is_empty() => {
            let e = &p.files[n(p.files.len())].e;
            let o = at(e.pos.loc, e.pos.off);
            match off % 10 {
                0 | 1 => (o + 3, true),
                2 | 3 => (o + 21, true),
                4 => (o + 23, false),
                5 => (o + 2, false),
                6 => (o + 24, false),
                7 => (o + 30, true),
                8 => (o + 2 + (off / 10) as usize % 30, false),
                _ => (o + 22, false),
            }
        }
        // A sector of a file: its link, a side sector's head, an index.
        7 | 8 | 9 if !p.files.is_empty() => {
            let e = &p.files[n(p.files.len())].e;
            let own = reachable(geo, img, e);
            let mut heads: Vec<Loc> = vec![];
            if geo.valid(e.first) {
                heads.push(e.first);
            }
            if e.scheme == Scheme::Rel {
                let l = (e.extra[0], e.extra[1]);
                if geo.valid(l) {
                    heads.extend(chain_prefix(geo, img, l).0.into_iter().map(|x| x.0));
                }
            }
            if let Some(l) = info_loc(e) {
                if geo.valid(l) {
                    heads.push(l);
                }
            }
            if off % 3 == 0 && !heads.is_empty() {
                let l = heads[(off / 3) as usize % heads.len()];
                let o = (off / 64) as usize % 40;
                return (at(l, o), o % 2 == 0);
            }
            if own.is_empty() {
                return (at(geo.header(), 0), true);
            }
            let l = own[(off / 3) as usize % own.len()];
            (at(l, 0), true)
        }
        10 => (at(geo.loc_of(n(geo.total_sectors())), 0), true),
        _ => (at(geo.loc_of(n(geo.total_sectors())), off as usize % 256), false),
    }
}

/// What to put there.
fn value(geo: &Geo, img: &[u8], v: u32) -> (u8, u8) {
    let r = v / 16;
    match v % 16 {
        0 => (0, 0),
        1 => (0, 255),
        2 => (0, 1),
        3 => (0, (r % 256) as u8),
        4 => (255, 255),
        5 => (geo.dir_track(), (r % 256) as u8 % 40),
        6 => geo.first_dir(),
        7 => geo.header(),
        8 => ((r % 90) as u8, (r / 90 % 45) as u8),
        9 | 10 => geo.loc_of(r as usize % geo.total_sectors()),
        // Somewhere a file already is.
        11 | 12 | 13 => {
            let p = parse(geo, img);
            if p.files.is_empty() {
                return geo.loc_of(r as usize % geo.total_sectors());
            }
            let own = reachable(geo, img, &p.files[r as usize % p.files.len()].e);
            if own.is_empty() {
                return (1, 0);
            }
            own[(r / 32) as usize % own.len()]
        }
        _ => ((r % 256) as u8, (r / 256 % 256) as u8),
    }
}

pub fn damage(geo: &Geo, img: &mut [u8], a: [u32; 4]) {
    let (at, link) = target(geo, img, a[0], a[1], a[2]);
    let (x, y) = value(geo, img, a[3]);
    img[at] = x;
    if link && at + 1 < img.len() {
        img[at + 1] = y;
    }
}

pub fn build_image(geo: &Geo, scn: &Scn) -> Vec<u8> {
    let (mut img, _) = prefill::build(geo, &scn.cfg, &scn.pre, scn.seed);
    let mut rng = Rng::new(hash2(scn.seed, 0xC0));
    match scn.cfg.start {
        1 => img.iter_mut().for_each(|b| *b = 0),
        2 => img.iter_mut().for_each(|b| *b = rng.next() as u8),
        3 => {
            // Random bytes around a plausible header and directory.
            let keep = img.clone();
            img.iter_mut().for_each(|b| *b = rng.next() as u8);
            for l in geo.system_locs() {
                let o = geo.off(l);
                img[o..o + 256].copy_from_slice(&keep[o..o + 256]);
            }
            let o = geo.off(geo.first_dir());
            img[o] = keep[o];
            img[o + 1] = keep[o + 1];
            for i in 0..8 {
                img[o + i * 32 + 2] = 0x80 | (rng.below(5) as u8);
                let l = geo.loc_of(rng.below(geo.total_sectors() as u64) as usize);
                img[o + i * 32 + 3] = l.0;
                img[o + i * 32 + 4] = l.1;
                if rng.chance(1, 2) {
                    let l = geo.loc_of(rng.below(geo.total_sectors() as u64) as usize);
                    img[o + i * 32 + 21] = l.0;
                    img[o + i * 32 + 22] = l.1;
                    img[o + i * 32 + 23] = rng.below(3) as u8;
                }
            }
        }
        4 => {
            // All links within the disk: long chains, cycles, shared tails.
            for i in 0..geo.total_sectors() {
                let o = geo.off(geo.loc_of(i));
                if rng.chance(7, 8) {
                    let l = geo.loc_of(rng.below(geo.total_sectors() as u64) as usize);
                    let l = if rng.chance(3, 4) { geo.loc_of((i + 1) % geo.total_sectors()) } else { l };
                    img[o] = l.0;
                    img[o + 1] = l.1;
                }
            }
        }
        _ => {}
    }
    for _ in 0..scn.cfg.flags & 15 {
        let a = [rng.next() as u32 >> 4, rng.next() as u32 >> 4, rng.next() as u32 >> 4, rng.next() as u32 >> 4];
        damage(geo, &mut img, a);
    }
    img
}

impl Cx {
    fn sectors(&self) -> u64 {
        self.s.geo.total_sectors() as u64
    }

    fn call<T>(&mut self, f: impl FnOnce(&mut D) -> T) -> R<T> {
        let budget = self.sectors() * 600 + 20_000;
        self.bounded(budget, f)
    }

    fn bounded<T>(&mut self, budget: u64, f: impl FnOnce(&mut D) -> T) -> R<T> {
        self.s.arm(budget);
        let d = self.disk.as_mut().unwrap();
        let r = guard(|| f(d));
        self.s.disarm();
        let n = self.s.seam.borrow().accesses;
        self.worst_call = self.worst_call.max(n);
        self.s.stats.hit("calls");
        self.s.caught(r)
    }

    fn image(&self) -> Vec<u8> {
        match self.path {
            Some(ref p) => fs::read(p).expect("scratch image"),
            None => guard(|| dev::dump(&self.s.geo, self.disk.as_ref().unwrap()))
                .ok()
                .and_then(|r| r.ok())
                .unwrap_or_else(|| vec![0; self.s.geo.size()]),
        }
    }

    fn store(&mut self, at: usize, b: u8) {
        if at >= self.s.geo.data_size() {
            return;
        }
        match self.path {
            Some(ref p) => {
                let f = fs::OpenOptions::new().write(true).open(p).expect("scratch image");
                f.write_all_at(&[b], at as u64).expect("scratch image");
            }
            None => {
                let l = loc!(self.disk.as_ref().unwrap(), self.s.geo.loc_of(at / 256));
                let d = self.disk.as_mut().unwrap();
                let _ = guard(|| {
                    if let Ok(mut v) = d.read_sector(l) {
                        v[at % 256] = b;
                        let _ = d.write_sector(l, &v);
                    }
                });
            }
        }
    }

    fn entry(&mut self, i: u32) -> R<Option<DirectoryEntry>> {
        let max = self.sectors() as usize * 8 + 16;
        let v = self.call(|d| {
            let mut v = vec![];
            let mut n = 0;
            for e in d.iter() {
                n += 1;
                if n > max {
                    return None;
                }
                if let Ok(e) = e {
                    v.push(e);
                }
            }
            Some(v)
        })?;
        match v {
            None => self.s.fail("endless", "the directory listing does not end".into()),
            Some(v) if v.is_empty() => Ok(None),
            Some(v) => Ok(Some(v[i as usize % v.len()].clone())),
        }
    }

    fn file(&mut self, i: u32, kept: bool) -> R<Option<File>> {
        if kept && !self.handles.is_empty() {
            let i = i as usize % self.handles.len();
            return Ok(Some(self.handles.remove(i)));
        }
        let e = if i % 5 == 0 && !self.entries.is_empty() {
            let i = i as usize / 5 % self.entries.len();
            Some(self.entries[i].clone())
        } else {
            self.entry(i)?
        };
        match e {
            Some(e) => Ok(self.call(|d| d.open_file_from_entry(&e))?.ok()),
            None => Ok(None),
        }
    }

    /// A reader may return at most so many bytes.
    fn most(&self) -> u64 {
        self.s.geo.size() as u64 * 140 + 4096
    }

    fn look(&mut self, f: &File, level: u32) -> R<()> {
        let n = self.call(|_| f.record_count())?;
        if let Ok(n) = n {
            for i in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, 119, 120, 719, 720, 65_535] {
                let _ = self.call(|_| f.record(i))?;
            }
        }
        let _ = self.call(|_| f.occupied_sectors())?;
        let _ = self.call(|_| f.geos_info().map(|i| i.map(|i| format!("{}", i).len())))?;
        let big = self.sectors() * 20_000;
        let _ = self.bounded(big, |_| f.details(&mut std::io::sink(), level as usize % 4))?;
        let _ = self.call(|_| f.dump(&mut std::io::sink()))?;
        Ok(())
    }

    fn drain(&mut self, mut r: Box<dyn Read>, chunk: usize) -> R<()> {
        let mut total = 0u64;
        let mut buf = vec![0; chunk.max(1)];
        loop {
            match self.call(|_| r.read(&mut buf))? {
                Ok(0) | Err(_) => return Ok(()),
                Ok(n) => total += n as u64,
            }
            if total > self.most() {
                return self.s.fail("endless", format!("a reader returned {} bytes without ending", total));
            }
        }
    }

    fn step(&mut self, op: &Op) -> R<()> {
        let a = op.a;
        let name = Petscii::from_bytes(&content::name(a[0]));
        match op.k {
            K::Corrupt => {
                let mut img = self.image();
                let before = img.clone();
                damage(&self.s.geo, &mut img, a);
                for i in 0..img.len() {
                    if img[i] != before[i] {
                        self.store(i, img[i]);
                        self.s.stats.hit("fault: stored byte changed between operations");
                    }
                }
                return Ok(());
            }
            K::CorruptAt => {
                if self.path.is_some() {
                    let img = self.image();
                    let (at, _) = target(&self.s.geo, &img, a[0], a[1], a[2]);
                    let (x, _) = value(&self.s.geo, &img, a[3]);
                    self.s.seam.borrow_mut().corrupt_at = Some(((a[3] / 7) as u64 % 60, at, x));
                }
                return Ok(());
            }
            K::Create => {
                let (ty, _) = file_type(a[1]);
                if let Ok(f) = self.call(|d| d.create_file(&name, ty, LScheme::Linear))? {
                    if a[2] & 2 != 0 {
                        if let Ok(w) = self.call(|_| f.writer())? {
                            self.writers.push(w);
                        }
                    }
                    self.handles.push(f);
                }
            }
            K::OpenFile => {
                if let Some(f) = self.file(a[0], false)? {
                    self.handles.push(f);
                }
            }
            K::DropHandle => {
                if !self.handles.is_empty() {
                    let i = a[0] as usize % self.handles.len();
                    self.handles.remove(i);
                }
            }
            K::OpenWriter => {
                if let Some(f) = self.file(a[0], a[1] == 1)? {
                    if let Ok(w) = self.call(|_| f.writer())? {
                        self.writers.push(w);
                    }
                    self.handles.push(f);
                }
            }
            K::Write => {
                if !self.writers.is_empty() {
                    let i = a[0] as usize % self.writers.len();
                    let mut w = self.writers.remove(i);
                    let data = content::bytes(3, 0, a[1] as usize);
                    let step = if a[2] == 0 { data.len().max(1) } else { a[2] as usize };
                    for c in data.chunks(step) {
                        if self.call(|_| w.write(c))?.is_err() {
                            break;
                        }
                    }
                    self.writers.push(w);
                }
            }
            K::Flush => {
                if !self.writers.is_empty() {
                    let i = a[0] as usize % self.writers.len();
                    let mut w = self.writers.remove(i);
                    let _ = self.call(|_| w.flush())?;
                    self.writers.push(w);
                }
            }
            K::Close => {
                if !self.writers.is_empty() {
                    let i = a[0] as usize % self.writers.len();
                    let w = self.writers.remove(i);
                    self.call(|_| drop(w))?;
                }
            }
            K::OpenReader | K::OpenExport => {
                if let Some(f) = self.file(a[0], a[1] == 1)? {
                    let export = op.k == K::OpenExport;
                    let r = self.call(|_| match &f {
                        File::GEOSSequential(g) | File::GEOSVLIR(g) if export => {
                            g.reader().map(|r| Box::new(r) as Box<dyn Read>)
                        }
                        f => f.reader(),
                    })?;
                    if let Ok(r) = r {
                        self.readers.push((r, 0));
                    }
                    self.handles.push(f);
                }
            }
            K::Read | K::Export => {
                if !self.readers.is_empty() {
                    let i = a[0] as usize % self.readers.len();
                    let (mut r, mut total) = self.readers.remove(i);
                    let mut buf = vec![0; a[1].min(60_000) as usize];
                    let n = self.call(|_| r.read(&mut buf))?;
                    total += n.unwrap_or(0) as u64;
                    if total > self.most() {
                        return self.s.fail("endless", format!("a reader returned {} bytes without ending", total));
                    }
                    self.readers.push((r, total));
                }
            }
            K::ReadAll => {
                if let Some(f) = self.file(a[0], a[1] & 1 == 1)? {
                    if let Ok(r) = self.call(|_| f.reader())? {
                        self.drain(r, if a[1] == 0 || a[1] > 60_000 { 60_000 } else { a[1] as usize })?;
                    }
                    if let File::GEOSSequential(g) | File::GEOSVLIR(g) = &f {
                        if let Ok(r) = self.call(|_| g.reader())? {
                            self.drain(Box::new(r), if a[1] == 0 || a[1] > 60_000 { 60_000 } else { a[1] as usize * 7 })?;
                        }
                    }
                }
            }
            K::Record | K::Info => {
                if let Some(f) = self.file(a[0], a[1] & 1 == 1)? {
                    self.look(&f, a[1])?;
                    self.handles.push(f);
                }
            }
            K::Rename => {
                if let Some(e) = self.entry(a[0])? {
                    let to = Petscii::from_bytes(&content::name(a[1]));
                    let _ = self.call(|d| d.rename(&e.filename, &to))?;
                }
            }
            K::Delete => {
                if let Some(mut f) = self.file(a[0], a[1] == 1)? {
                    let _ = self.call(|_| f.delete())?;
                    if a[0] % 4 == 0 {
                        self.handles.push(f);
                    }
                }
            }
            K::Dir => match a[0] % 4 {
                0 => {
                    let it = self.call(|d| d.iter())?;
                    self.iters.push((it, 0));
                }
                1 if !self.iters.is_empty() => {
                    let i = a[1] as usize % self.iters.len();
                    let (mut it, mut n) = self.iters.remove(i);
                    for _ in 0..3 {
                        let e = self.call(|_| it.next())?;
                        n += 1;
                        match e {
                            None => break,
                            Some(Ok(e)) => self.entries.push(e),
                            Some(Err(_)) => {}
                        }
                    }
                    if n > self.sectors() as usize * 8 + 64 {
                        return self.s.fail("endless", "a directory iterator does not end".into());
                    }
                    self.iters.push((it, n));
                }
                _ => {
                    let _ = self.call(|d| {
                        let d = &**d;
                        let mut s = format!("{} {:?}", d, d).len();
                        if let Ok(b) = d.bam() {
                            s += format!("{:?}", b.borrow()).len();
                            let _ = b.borrow().free_sectors();
                            let _ = b.borrow().allocated_sectors();
                        }
                        if let Ok(h) = d.header() {
                            s += format!("{:?}", h).len();
                        }
                        let _ = d.blocks_free();
                        let _ = d.directory();
                        s
                    })?;
                    if let Some(e) = self.entry(a[1])? {
                        let _ = self.call(|d| {
                            let _ = d.find_directory_entry(&e.filename);
                            let _ = d.check_filename_availability(&e.filename);
                            let mut raw = [0u8; 32];
                            e.to_bytes(&mut raw);
                            format!("{} {:?}", e, e).len()
                        })?;
                        if a[1] % 3 == 0 {
                            let _ = self.call(|d| d.write_directory_entry(&e))?;
                        }
                        self.entries.push(e);
                    }
                }
            },
            K::Validate => {
                let budget = self.sectors() * 20_000 + 100_000;
                let r = self.bounded(budget, |d| {
                    d.validate().map(|v| {
                        v.iter().map(|e| format!("{} {:?}", e, e).len()).sum::<usize>()
                    })
                })?;
                let n = self.s.seam.borrow().accesses;
                self.worst_validate = self.worst_validate.max(n);
                if r.is_ok() {
                    self.s.stats.hit("validations that returned");
                }
            }
            K::Format => {
                let _ = self.call(|d| d.write_format(&name, &Id::from_bytes(b"ID")))?;
            }
            K::SetName => {
                let _ = self.call(|d| {
                    if let Ok(h) = d.header_mut() {
                        h.disk_name = name;
                    }
                    d.flush_header()
                })?;
            }
            K::Reinit => self.call(|d| d.initialize())?,
            K::RawRead => {
                let l = loc!(self.disk.as_ref().unwrap(), self.s.geo.loc_of(a[0] as usize % self.s.geo.total_sectors()));
                let _ = self.call(|d| d.read_sector(l))?;
                let _ = self.call(|d| {
                    let b = d.bam()?;
                    let b = b.borrow();
                    let _ = b.next_free_block(None);
                    b.next_free_block(Some(l))
                })?;
            }
            K::FlipBam => {
                let l = loc!(self.disk.as_ref().unwrap(), self.s.geo.loc_of(a[0] as usize % self.s.geo.total_sectors()));
                let _ = self.call(|d| -> std::io::Result<()> {
                    let b = d.bam()?;
                    let mut b = b.borrow_mut();
                    if a[1] & 1 == 0 {
                        b.allocate(l)?
                    } else {
                        b.free(l)?
                    }
                    b.flush()
                })?;
            }
            K::Reopen => {
                self.readers.clear();
                self.handles.clear();
                self.iters.clear();
                let ws = std::mem::take(&mut self.writers);
                self.call(|_| drop(ws))?;
                let img = self.image();
                self.open(&img, a[0] & 1 == 1, a[0] & 6 != 6)?;
            }
            _ => {}
        }
        while self.handles.len() > 8 {
            self.handles.remove(0);
        }
        while self.readers.len() > 8 {
            self.readers.remove(0);
        }
        while self.iters.len() > 4 {
            self.iters.remove(0);
        }
        while self.entries.len() > 16 {
            self.entries.remove(0);
        }
        while self.writers.len() > 5 {
            let w = self.writers.remove(0);
            self.call(|_| drop(w))?;
        }
        let n = self.s.seam.borrow().accesses;
        self.s.trace(op, n);
        self.s.stats.hit("ops");
        self.s.stats.hit("work");
        Ok(())
    }

    fn open(&mut self, img: &[u8], mapped: bool, writable: bool) -> R<()> {
        self.disk = None;
        let geo = self.s.geo;
        self.s.arm(self.sectors() * 50 + 20_000);
        let r = if mapped {
            self.s.disarm();
            let p = self.s.path(&format!("-x.{}", geo.ext()));
            fs::write(&p, img).expect("scratch image");
            let f = fs::OpenOptions::new().write(true).open(&p).expect("scratch image");
            {
                let mut m = self.s.seam.borrow_mut();
                m.file = Some(f);
                m.mapped = true;
            }
            self.path = Some(p.clone());
            self.s.arm(self.sectors() * 50 + 20_000);
            guard(|| cbm::disk::open(&p, writable))
        } else {
            self.s.disarm();
            {
                let mut m = self.s.seam.borrow_mut();
                m.file = None;
                m.mapped = false;
                m.reset_image(img);
            }
            self.path = None;
            guard(|| dev::mem_disk(&geo, img))
        };
        self.s.disarm();
        match self.s.caught(r)? {
            Ok(d) => {
                self.disk = Some(d);
                Ok(())
            }
            Err(e) => {
                // An image of the right size can always be opened, formatted or not.
                self.s.fail("open", format!("an image of a supported size cannot be opened: {}", err_text(&e)))
            }
        }
    }
}

pub fn execute(scn: &Scn, worker: usize, trace: bool) -> Outcome {
    let s = Sim::new(scn, worker, trace);
    let img = build_image(&s.geo, scn);
    let _ = fs::create_dir_all(dev::scratch());
    s.seam.borrow_mut().reset_image(&img);
    let mut w = Cx {
        s,
        disk: None,
        path: None,
        handles: vec![],
        readers: vec![],
        writers: vec![],
        iters: vec![],
        entries: vec![],
        worst_call: 0,
        worst_validate: 0,
    };
    let r = (|| -> R<()> {
        w.open(&img, scn.cfg.backend != 0, true)?;
        for (i, op) in scn.ops.iter().enumerate() {
            w.s.step_no = i;
            w.s.note(|| format!("{:3} {} {:?}", i, op.k.name(), op.a));
            w.step(op)?;
            if i % 8 == 0 {
                let h = hash_bytes(&w.s.seam.borrow().shadow);
                w.s.stats.states.insert(h);
            }
        }
        let ws = std::mem::take(&mut w.writers);
        w.call(|_| drop(ws))
    })();
    let _ = guard(|| {
        w.readers.clear();
        w.handles.clear();
        w.writers.clear();
        w.disk = None;
    });
    let n = w.s.seam.borrow().corrupt_fired;
    w.s.stats.add("fault: stored byte changed within an operation", n);
    let per = w.worst_call / w.sectors();
    w.s.stats.max("max accesses of one call / sectors", per);
    let per = w.worst_validate / w.sectors();
    w.s.stats.max("max accesses of one validate / sectors", per);
    let (stats, log) = w.s.done();
    Outcome { stop: r.err(), stats, log }
}
