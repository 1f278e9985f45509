//! The simulated world: one disk driven through the library's public interface, a model of what it
//! must contain, and the handles that are open on it.

use std::io::{self, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;

use cbm::disk::directory::FileType;
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::Id;
use cbm::Petscii;

use crate::content;
use crate::dev::{self, diff, err_text, guard, is_full, listed, show, view, Caught, D};
use crate::geo::{Geo, Loc, GEOS, PAD};
use crate::loc;
use crate::prefill::{self, Built};
use crate::refimg::{self, chain_bytes, fsck, parse, trim_pad, Issue, Parsed, Scheme, SlotPos};
use crate::rng::{hash2, hash_bytes, Rng};
use crate::scenario::{Op, Scn, K};
use crate::seam::{self, Delta, Fault, Seam, SeamRef};
use crate::stats::Stats;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    /// The property under test does not hold.
    Violation { class: String, msg: String },
    /// Something another property is responsible for went wrong; this run ends here.
    Diverged(String),
}

pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct MFile {
    pub uid: u32,
    pub name: Vec<u8>,
    pub attr: u8,
    /// Attributes it had before.
    pub attrs: Vec<u8>,
    pub extra: [u8; 9],
    pub scheme: Scheme,
    /// Bytes the writers accepted.
    pub accepted: usize,
    /// Bytes which must be on the image (closed, or reported as flushed).
    pub flushed: usize,
    /// Bytes which must be on the medium, and the names the file had since.
    pub dur: Option<usize>,
    pub dur_names: Vec<Vec<u8>>,
    /// Created through the library in this run.
    pub created: bool,
    /// The recorded size may be off (after an injected fault).
    pub size_off: bool,
    pub built: Option<Rc<Built>>,
}

pub struct Wr {
    pub uid: u32,
    pub w: Box<dyn Write>,
    /// It has taken bytes since it was last flushed.
    pub wrote: bool,
}

pub struct Rd {
    pub uid: u32,
    pub r: Box<dyn Read>,
    pub pos: usize,
    pub min: usize,
    pub eof: bool,
}

pub struct Ex {
    pub uid: u32,
    pub r: Box<dyn Read>,
    pub pos: usize,
    pub want: Vec<u8>,
    pub eof: bool,
    /// The export cannot be completed and has to fail after `want`.
    pub refuse: bool,
}

pub struct Hd {
    pub uid: u32,
    pub f: File,
}

/// A listing under way.
pub struct It {
    pub it: Box<dyn Iterator<Item = io::Result<cbm::disk::directory::DirectoryEntry>>>,
    /// Files that have been there ever since, and where.
    pub there: Vec<(u32, SlotPos)>,
    /// All names there were since.
    pub names: Vec<Vec<u8>>,
    pub got: Vec<(Loc, usize)>,
}

/// What an operation set out to change.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Nothing,
    File(u32),
    Create(u32),
    Delete(u32),
    Rename(u32),
    Raw(Loc),
    Header,
    Everything,
}

pub enum Failed {
    Create { name: Vec<u8>, ty: u32 },
    Rename { uid: u32, name: Vec<u8> },
    Edit { uid: u32, attr: u8 },
    Delete { uid: u32, f: Option<File> },
    Write { uid: u32, len: usize },
    Flush { uid: u32 },
    OpenWriter { uid: u32 },
}

pub struct World {
    pub prop: String,
    pub geo: Geo,
    pub scn_seed: u64,
    pub seam: SeamRef,
    pub disk: Option<D>,
    pub path: Option<PathBuf>,
    pub ext: String,
    pub img: Rc<Vec<u8>>,
    pub parsed: Rc<Parsed>,
    pub files: Vec<MFile>,
    /// Deleted files, which may come back with a crash.
    pub graveyard: Vec<MFile>,
    pub free_before: Option<Vec<Loc>>,
    /// Damage to be done to the copy which is validated next.
    pub damage: Vec<Op>,
    pub writers: Vec<Wr>,
    pub readers: Vec<Rd>,
    pub exports: Vec<Ex>,
    /// An operation failed twice, so undoing it may have failed.
    pub mem_loose: bool,
    pub handles: Vec<Hd>,
    pub iters: Vec<It>,
    pub next_uid: u32,
    /// Lost sectors and stale counts are not the library's fault any more.
    pub leaky: bool,
    pub stale_counts: bool,
    pub named: Option<(Vec<u8>, Option<[u8; 2]>, Option<[u8; 3]>)>,
    /// Faults have been injected in this run.
    pub faulty: bool,
    pub kill: Option<(u32, bool)>,
    pub failed: Option<Failed>,
    pub failing: Option<Failed>,
    pub poisoned: bool,
    pub stats: Stats,
    pub step_no: usize,
    pub act: Act,
    pub worker: usize,
    pub log: Option<Vec<String>>,
}

/// The chunk size that stands for reading a file as a record.
pub const AS_RECORD: usize = 1_000_001;

pub const READ_OWNERS: &[&str] = &["C01", "C03", "C05", "C06", "C07", "C08"];

fn petscii(n: &[u8]) -> Petscii {
    Petscii::from_bytes(n)
}

impl MFile {
    /// Now, or before it was changed.
    pub fn had(&self, attr: u8) -> bool {
        self.attr == attr || self.attrs.contains(&attr)
    }
}

pub fn file_type(x: u32) -> (FileType, u8) {
    match x % 8 {
        0 | 1 | 2 => (FileType::PRG, 0x82),
        3 | 4 => (FileType::SEQ, 0x81),
        5 | 6 => (FileType::USR, 0x83),
        _ => (FileType::DEL, 0x80),
    }
}

impl World {
    pub fn new(scn: &Scn, worker: usize, trace: bool) -> R<World> {
        let geo = GEOS[scn.cfg.geo as usize % GEOS.len()];
        let (img, built) = prefill::build(&geo, &scn.cfg, &scn.pre, scn.seed);
        let parsed = parse(&geo, &img);
        let mut seam = Seam::default();
        seam.reset_image(&img);
        let seam: SeamRef = Rc::new(std::cell::RefCell::new(seam));
        seam::install(&seam);
        let mut w = World {
            prop: scn.prop.clone(),
            geo,
            scn_seed: scn.seed,
            seam,
            disk: None,
            path: None,
            ext: geo.ext().to_string(),
            img: Rc::new(img),
            parsed: Rc::new(parsed),
            files: vec![],
            graveyard: vec![],
            free_before: None,
            damage: vec![],
            writers: vec![],
            readers: vec![],
            exports: vec![],
            mem_loose: false,
            handles: vec![],
            iters: vec![],
            next_uid: 1,
            leaky: false,
            stale_counts: false,
            named: None,
            faulty: false,
            kill: None,
            failed: None,
            failing: None,
            poisoned: false,
            stats: Stats::default(),
            step_no: 0,
            act: Act::Nothing,
            worker,
            log: if trace { Some(vec![]) } else { None },
        };
        for b in built {
            w.files.push(MFile {
                uid: b.uid,
                name: b.name.clone(),
                attr: b.attr,
                attrs: vec![],
                extra: b.extra,
                scheme: b.scheme,
                accepted: b.len,
                flushed: b.len,
                dur: if b.scheme == Scheme::Linear { Some(b.len) } else { None },
                dur_names: vec![b.name.clone()],
                created: false,
                size_off: false,
                built: if b.scheme == Scheme::Linear { None } else { Some(Rc::new(b)) },
            });
        }
        w.open_fresh(scn.cfg.backend != 0)?;
        Ok(w)
    }

    pub fn is(&self, p: &str) -> bool {
        self.prop == p
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(ref mut l) = self.log {
            l.push(f());
        }
    }

    pub fn fail<T>(&self, owners: &[&str], class: &str, msg: String) -> R<T> {
        let msg = format!("step {}: {}", self.step_no, msg);
        if owners.iter().any(|o| *o == self.prop) {
            Err(Stop::Violation { class: class.to_string(), msg })
        } else {
            Err(Stop::Diverged(format!("{}: {}", class, msg)))
        }
    }

    /// A panic or runaway operation is a violation of whatever is being tested.
    pub fn caught<T>(&mut self, r: Result<T, Caught>) -> R<T> {
        match r {
            Ok(v) => Ok(v),
            Err(c) => {
                self.poisoned = true;
                self.seam.borrow_mut().armed = false;
                let (class, msg) = match c {
                    Caught::Panic(m) => ("panic", format!("step {}: panic: {}", self.step_no, m)),
                    Caught::Budget => (
                        "endless",
                        format!("step {}: operation does not end: too many sector accesses", self.step_no),
                    ),
                };
                Err(Stop::Violation { class: class.to_string(), msg })
            }
        }
    }

    // ---- opening ----

    fn image_path(&self) -> PathBuf {
        dev::scratch().join(format!("w{}.{}", self.worker, self.ext))
    }

    /// Build the disk object over the current image bytes.
    pub fn open_fresh(&mut self, mapped: bool) -> R<()> {
        self.seam.borrow_mut().armed = false;
        let img = self.img.clone();
        let geo = self.geo;
        self.seam.borrow_mut().mapped = mapped;
        self.seam.borrow_mut().reset_image(&img);
        let r = if mapped {
            let p = self.image_path();
            let _ = std::fs::create_dir_all(dev::scratch());
            std::fs::write(&p, &img[..]).expect("scratch image");
            self.path = Some(p.clone());
            guard(|| cbm::disk::open(&p, true))
        } else {
            self.path = None;
            guard(|| dev::mem_disk(&geo, &img))
        };
        match self.caught(r)? {
            Ok(d) => {
                self.disk = Some(d);
                Ok(())
            }
            Err(e) => self.fail(
                &["C01", "C04", "C05", "C06", "C07", "C14"],
                "open",
                format!("opening the image failed: {}", err_text(&e)),
            ),
        }
    }

    pub fn d(&self) -> &D {
        self.disk.as_ref().unwrap()
    }

    pub fn find(&self, uid: u32) -> Option<&MFile> {
        self.files.iter().find(|f| f.uid == uid)
    }

    pub fn find_mut(&mut self, uid: u32) -> Option<&mut MFile> {
        self.files.iter_mut().find(|f| f.uid == uid)
    }

    pub fn has_writer(&self, uid: u32) -> bool {
        self.writers.iter().any(|w| w.uid == uid)
    }

    fn choose(&self, index: u32, pred: impl Fn(&MFile) -> bool) -> Option<MFile> {
        let v: Vec<&MFile> = self.files.iter().filter(|f| pred(f)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[index as usize % v.len()].clone())
        }
    }

    pub fn free_name(&self, index: u32) -> Option<Vec<u8>> {
        (0..64)
            .map(|i| content::name(index + i))
            .find(|n| !self.files.iter().any(|f| f.name == *n))
    }

    // ---- looking at the image ----

    /// Take in what the image now contains.
    pub fn capture(&mut self) -> R<bool> {
        if self.disk.is_none() {
            return Ok(false);
        }
        {
            let mut s = self.seam.borrow_mut();
            s.armed = false;
            s.seen = false;
            s.capture = true;
        }
        let geo = self.geo;
        let l = loc!(self.d(), geo.header());
        let r = guard(|| self.d().read_sector(l));
        let _ = self.caught(r)?;
        let seen = self.seam.borrow().seen;
        self.seam.borrow_mut().capture = false;
        if !seen {
            let r = guard(|| dev::dump(&geo, self.d()));
            if let Ok(img) = self.caught(r)? {
                self.seam.borrow_mut().settle_all(&img);
            }
        }
        let changed = {
            let s = self.seam.borrow();
            s.shadow[..] != self.img[..]
        };
        if changed {
            self.img = Rc::new(self.seam.borrow().shadow.clone());
            self.parsed = Rc::new(parse(&self.geo, &self.img));
        }
        Ok(changed)
    }

    /// Number of data sectors that are free beyond doubt, and that may be free.
    pub fn free_space(&self) -> (usize, usize) {
        let bitmap = self.geo.free_data(&self.img);
        let mut used = vec![false; self.geo.total_sectors()];
        for f in &self.parsed.files {
            if let Ok(ref v) = f.owned {
                for l in v {
                    if self.geo.valid(*l) {
                        used[self.geo.index(*l)] = true;
                    }
                }
            }
        }
        if let Some(b) = self.parsed.border {
            if self.geo.valid(b) {
                used[self.geo.index(b)] = true;
            }
        }
        let owned = self
            .geo
            .std_locs()
            .into_iter()
            .filter(|l| self.geo.is_data_track(l.0) && !used[self.geo.index(*l)])
            .count();
        (bitmap.min(owned), bitmap.max(owned))
    }

    /// Can the directory take one more entry?
    pub fn dir_room(&self) -> bool {
        !self.parsed.free_slots.is_empty()
            || (0..self.geo.sectors(self.geo.dir_track()))
                .any(|s| self.geo.is_free(&self.img, (self.geo.dir_track(), s)))
    }

    // ---- running ----

    pub fn step(&mut self, op: &Op) -> R<()> {
        let before_img = self.img.clone();
        let before_parsed = self.parsed.clone();
        let track = matches!(&self.prop[..], "C05");
        let before_files = if track { self.files.clone() } else { vec![] };
        self.act = Act::Nothing;
        self.failing = None;
        if self.is("C16") {
            self.free_before = self.memory_free()?;
        }
        let fired_before = self.seam.borrow().fired_total;
        {
            let mut s = self.seam.borrow_mut();
            s.op_deltas.clear();
            s.accesses = 0;
            s.fired = 0;
            s.budget = 3_000_000;
            s.armed = true;
        }
        let r = self.exec(op);
        self.seam.borrow_mut().armed = false;
        r?;
        let fired = self.seam.borrow().fired;
        if fired > 0 {
            self.faulty = true;
            self.leaky = true;
            self.stats.hit("ops hit by a fault");
        }
        let total = self.seam.borrow().fired_total;
        self.stats.add("fault: read error", total[0] - fired_before[0]);
        self.stats.add("fault: write error", total[1] - fired_before[1]);
        self.stats.add("fault: sync error", total[2] - fired_before[2]);
        let changed = self.capture()?;
        let deltas: Vec<Delta> = std::mem::take(&mut self.seam.borrow_mut().op_deltas);
        if changed {
            self.stats.states.insert(hash_bytes(&self.img));
            self.stats.add("sector writes", deltas.len() as u64);
        }
        self.stats.trace = hash2(
            self.stats.trace,
            hash2(op.k as u64, deltas.len() as u64 * 4 + (fired > 0) as u64),
        );
        self.after(op, &before_img, &before_parsed, &before_files, &deltas, fired)?;
        self.follow_iters();
        self.stats.hit("ops");
        Ok(())
    }

    /// Run the whole scenario, and the final checks.
    pub fn run(&mut self, ops: &[Op]) -> R<()> {
        for (i, op) in ops.iter().enumerate() {
            self.step_no = i;
            self.note(|| format!("{:3} {} {:?}", i, op.k.name(), op.a));
            self.step(op)?;
        }
        self.step_no = ops.len();
        self.finish()
    }

    fn drop_uses(&mut self, uid: u32) {
        self.readers.retain(|r| r.uid != uid);
        self.exports.retain(|r| r.uid != uid);
        self.handles.retain(|r| r.uid != uid);
    }

    /// Was the error of the current operation caused by an injected fault?
    fn fired(&self) -> bool {
        self.seam.borrow().fired > 0
    }

    fn owners<'a>(&self, base: &[&'a str]) -> Vec<&'a str> {
        let mut v = base.to_vec();
        if self.faulty || self.is("C07") {
            v.push("C07");
        }
        // After a kill and restart the remaining history belongs to C05.
        if self.leaky {
            v.push("C05");
        }
        v
    }

    /// A fresh handle on a file, or a kept one.
    fn get_handle(&mut self, uid: u32, kept: bool) -> R<Result<File, io::Error>> {
        if kept {
            if let Some(i) = self.handles.iter().position(|h| h.uid == uid) {
                return Ok(Ok(self.handles.remove(i).f));
            }
        }
        let name = petscii(&self.find(uid).unwrap().name);
        let r = guard(|| self.d().open_file(&name));
        self.caught(r)
    }

    pub fn unexpected<T>(&self, base: &[&str], what: &str, e: &io::Error) -> R<T> {
        let o = self.owners(base);
        self.fail(&o, what, format!("{} failed: {}", what, err_text(e)))
    }

    fn check_read(&self, uid: u32, from: usize, data: &[u8], what: &str) -> R<()> {
        if let Some(at) = content::mismatch(uid, from, data) {
            let f = self.find(uid).unwrap();
            return self.fail(
                READ_OWNERS,
                "content",
                format!(
                    "{} of {} (accepted {} flushed {}) returned a wrong byte at {}",
                    what, show(&f.name), f.accepted, f.flushed, at
                ),
            );
        }
        Ok(())
    }

    pub fn exec(&mut self, op: &Op) -> R<()> {
        let a = op.a;
        match op.k {
            K::Create => {
                let name = match self.free_name(a[0]) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                self.create(name, a[1], a[2])
            }
            K::OpenFile => {
                let f = match self.choose(a[0], |_| true) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                if self.handles.len() > 6 {
                    self.handles.remove(0);
                }
                match self.get_handle(f.uid, false)? {
                    Ok(h) => {
                        self.handles.push(Hd { uid: f.uid, f: h });
                        Ok(())
                    }
                    Err(_) if self.fired() => Ok(()),
                    Err(e) => self.unexpected(&["C01", "C03", "C12", "C14"], "open file", &e),
                }
            }
            K::OpenWriter => {
                let f = match self.choose(a[0], |f| f.scheme == Scheme::Linear && !self.has_writer(f.uid)) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                self.act = Act::File(f.uid);
                self.open_writer(f.uid, a[1] == 1)
            }
            K::Write => {
                if self.writers.is_empty() {
                    return Ok(());
                }
                let i = a[0] as usize % self.writers.len();
                let uid = self.writers[i].uid;
                self.act = Act::File(uid);
                self.write(i, a[1] as usize, a[2] as usize)
            }
            K::Flush => {
                if self.writers.is_empty() {
                    return Ok(());
                }
                let i = a[0] as usize % self.writers.len();
                self.act = Act::File(self.writers[i].uid);
                self.flush(i).map(|_| ())
            }
            K::Close => {
                if self.writers.is_empty() {
                    return Ok(());
                }
                let i = a[0] as usize % self.writers.len();
                self.act = Act::File(self.writers[i].uid);
                self.close(i)
            }
            K::OpenReader => {
                let f = match self.choose(a[0], |f| matches!(f.scheme, Scheme::Linear | Scheme::Seq)) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                if self.readers.len() > 6 {
                    self.readers.remove(0);
                }
                let h = match self.get_handle(f.uid, a[1] == 1)? {
                    Ok(h) => h,
                    Err(_) if self.fired() => return Ok(()),
                    Err(e) => return self.unexpected(&["C01", "C03", "C14"], "open file", &e),
                };
                let r = guard(|| h.reader());
                match self.caught(r)? {
                    Ok(r) => {
                        self.readers.push(Rd { uid: f.uid, r, pos: 0, min: f.flushed, eof: false });
                        Ok(())
                    }
                    Err(_) if self.fired() => Ok(()),
                    Err(e) => self.unexpected(&["C01", "C03"], "open reader", &e),
                }
            }
            K::Read => {
                if self.readers.is_empty() {
                    return Ok(());
                }
                let i = a[0] as usize % self.readers.len();
                self.read_some(i, a[1] as usize)
            }
            K::ReadAll => {
                let f = match self.choose(a[0], |f| matches!(f.scheme, Scheme::Linear | Scheme::Seq)) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                self.read_all(f.uid, a[1] as usize, a[2] == 1)
            }
            K::Rename => {
                let f = match self.choose(a[0], |_| true) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                let name = match self.free_name(a[1]) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                self.rename(f.uid, name, a[2])
            }
            K::Delete => {
                let f = match self.choose(a[0], |f| !self.has_writer(f.uid)) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                let h = match self.get_handle(f.uid, a[1] == 1)? {
                    Ok(h) => h,
                    Err(_) if self.fired() => return Ok(()),
                    Err(e) => return self.unexpected(&["C02", "C03", "C14"], "open file", &e),
                };
                self.drop_uses(f.uid);
                self.delete(f.uid, h)
            }
            K::DropHandle => {
                if !self.handles.is_empty() {
                    let i = a[0] as usize % self.handles.len();
                    self.handles.remove(i);
                }
                Ok(())
            }
            K::SetEntry => {
                let special = self.is("C14") || self.is("C18");
                let f = match self.choose(a[0], |f| f.scheme == Scheme::Linear || special) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                let mut attr = f.attr;
                match a[1] % 4 {
                    0 => {}
                    1 => attr ^= 0x40,
                    2 if f.scheme == Scheme::Linear && attr & 0x8F != 0x80 => attr = attr & 0xF0 | [1, 2, 3][a[1] as usize / 4 % 3],
                    3 if f.scheme == Scheme::Linear && attr & 0x0F != 0 => attr ^= 0x80,
                    _ => {}
                }
                self.edit(f.uid, attr)
            }
            K::IterOpen => {
                if self.iters.len() > 2 {
                    self.iters.remove(0);
                }
                let r = guard(|| self.d().iter());
                let it = self.caught(r)?;
                if self.fired() {
                    // The error is reported with the first entry.
                    return Ok(());
                }
                let there: Vec<(u32, SlotPos)> =
                    self
                    .files
                    .iter()
                    .filter(|f| self.files.iter().filter(|g| g.name == f.name).count() == 1)
                    .filter_map(|f| self.parsed.find(&f.name).map(|p| (f.uid, p.e.pos)))
                    .collect();
                let names = self.files.iter().map(|f| f.name.clone()).collect();
                self.iters.push(It { it: Box::new(it), there, names, got: vec![] });
                Ok(())
            }
            K::IterNext => {
                if self.iters.is_empty() {
                    return Ok(());
                }
                let i = a[0] as usize % self.iters.len();
                self.iterate(i, a[1] as usize)
            }
            K::Record => {
                let f = match self.choose(a[0], |f| f.built.is_some()) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                self.record(&f, a[1], a[2] == 1)
            }
            K::Info => {
                let f = match self.choose(a[0], |f| f.built.is_some()) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                self.check_special(&f, false)
            }
            K::OpenExport => {
                let f = match self.choose(a[0], |f| matches!(f.scheme, Scheme::Seq | Scheme::Vlir)) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                self.open_export(&f, a[1] == 1)
            }
            K::Export => {
                if self.exports.is_empty() {
                    return Ok(());
                }
                let i = a[0] as usize % self.exports.len();
                self.export_some(i, a[1] as usize)
            }
            K::Dir => self.check_listing(),
            K::FlipBam | K::CrossLink | K::BreakChain => {
                self.damage.push(*op);
                Ok(())
            }
            K::Validate => {
                if self.is("C11") {
                    self.validate_damaged()?;
                }
                let r = guard(|| self.d().validate());
                match self.caught(r)? {
                    Ok(v) => {
                        if self.fired() {
                            // Whatever was skipped must not have changed the answer.
                            self.seam.borrow_mut().armed = false;
                            let r = guard(|| self.d().validate());
                            let again = self.caught(r)?;
                            self.seam.borrow_mut().armed = true;
                            let set = |v: &Vec<cbm::disk::ValidationError>| {
                                let mut t: Vec<String> = v.iter().map(|e| format!("{:?}", e)).collect();
                                t.sort();
                                t
                            };
                            match again {
                                Ok(ref w) if set(w) == set(&v) => {}
                                Ok(w) => {
                                    let n = w.len();
                                    return self.fail(
                                        &["C07"],
                                        "validate under faults",
                                        format!("validation met an I/O error and reported success with {} problems ({:?}); repeated, it reports {}", v.len(), v.first(), n),
                                    );
                                }
                                Err(e) => return self.unexpected(&["C07", "C02", "C11"], "validate", &e),
                            }
                        }
                        if self.writers.is_empty() && !self.leaky && !v.is_empty() {
                            return self.fail(
                                &["C02", "C11"],
                                "validate",
                                format!("validation reports {:?}", &v[..v.len().min(3)]),
                            );
                        }
                        Ok(())
                    }
                    Err(_) if self.fired() => Ok(()),
                    Err(e) => self.unexpected(&["C02", "C11"], "validate", &e),
                }
            }
            K::Format => {
                if !self.writers.is_empty() || (self.is("C04") && !self.seam.borrow().faults.is_empty()) {
                    return Ok(());
                }
                self.act = Act::Everything;
                self.readers.clear();
                self.exports.clear();
                self.handles.clear();
                self.iters.clear();
                let name = content::name(a[0]);
                let id = [b'0' + (a[1] % 40) as u8, b'A'];
                let n = petscii(&name);
                let r = guard(|| self.disk.as_mut().unwrap().write_format(&n, &Id::from_bytes(&id)));
                match self.caught(r)? {
                    Ok(()) => {
                        self.files.clear();
                        self.graveyard.clear();
                        self.leaky = false;
                        self.stale_counts = false;
                        self.stats.hit("formats");
                        if self.is("C04") {
                            self.check_synced_format(&name)?;
                        }
                        Ok(())
                    }
                    Err(_) if self.fired() => Err(Stop::Diverged("format failed".into())),
                    Err(e) => self.unexpected(&["C15", "C14"], "format", &e),
                }
            }
            K::SetName => {
                self.act = Act::Header;
                let name = content::name(a[0]);
                let n = petscii(&name);
                let id = if a[1] & 1 == 1 { Some([b'A' + (a[1] >> 1 & 15) as u8, b'9']) } else { None };
                // Now and then also the type bytes, which the library stores as they are.
                let types = if a[1] >> 5 & 3 == 3 {
                    Some([(a[1] >> 7) as u8 & 0x7f, (a[1] >> 14) as u8 & 0x7f, (a[1] >> 21) as u8 & 0x7f])
                } else {
                    None
                };
                let r = guard(|| -> io::Result<()> {
                    let d = self.disk.as_mut().unwrap();
                    let h = d.header_mut()?;
                    h.disk_name = n;
                    if let Some(id) = id {
                        h.disk_id = Id::from_bytes(&id);
                    }
                    if let Some(t) = types {
                        h.disk_format_type = t[0];
                        h.directory_dos_version = t[1];
                        h.directory_format_type = t[2];
                    }
                    d.flush_header()
                });
                match self.caught(r)? {
                    Ok(()) => {
                        if self.fired() {
                            return Ok(());
                        }
                        self.named = Some((trim_pad(&name), id, types));
                        self.stats.hit("headers written");
                        Ok(())
                    }
                    Err(_) if self.fired() => {
                        // Once the errors stop, the same header can be written.
                        self.seam.borrow_mut().faults.clear();
                        let r = guard(|| self.disk.as_mut().unwrap().flush_header());
                        match self.caught(r)? {
                            Ok(()) => Ok(()),
                            Err(e) => self.unexpected(&["C07"], "write the header again", &e),
                        }?;
                        let r = guard(|| {
                            let d = self.disk.as_ref().unwrap();
                            d.name().map(|n| trim_pad(n.as_bytes()))
                        });
                        if self.caught(r)? != Some(trim_pad(&name)) {
                            return self.fail(&["C07"], "set name", "the disk has another name after retrying".into());
                        }
                        self.look()?;
                        let o = self.geo.name_off();
                        if trim_pad(&self.img[o..o + 16]) != trim_pad(&name) {
                            return self.fail(&["C07"], "set name", format!("the disk name {} was not stored when retried", show(&name)));
                        }
                        self.stats.hit("headers retried");
                        Ok(())
                    }
                    Err(e) => self.unexpected(&["C18", "C06"], "set name", &e),
                }
            }
            K::Reinit => self.reinit(a[0]),
            K::Reopen => self.reopen(a[0]),
            K::DropDisk => self.drop_disk(a[0]),
            K::RawWrite => {
                let free: Vec<Loc> = self
                    .geo
                    .std_locs()
                    .into_iter()
                    .filter(|l| self.geo.is_data_track(l.0) && self.geo.is_free(&self.img, *l))
                    .collect();
                if free.is_empty() || !self.writers.is_empty() {
                    return Ok(());
                }
                let l = free[a[0] as usize % free.len()];
                self.act = Act::Raw(l);
                let data: Vec<u8> = (0..256).map(|i| (a[1] as u8) ^ (i as u8)).collect();
                let ll = loc!(self.d(), l);
                let r = guard(|| self.disk.as_mut().unwrap().write_sector(ll, &data));
                match self.caught(r)? {
                    Ok(()) => {
                        let r = guard(|| self.d().read_sector(ll));
                        match self.caught(r)? {
                            Ok(d) if d == data => Ok(()),
                            Ok(_) => self.fail(&["C18"], "raw", format!("sector {:?} reads back differently", l)),
                            Err(_) if self.fired() => Ok(()),
                            Err(e) => self.unexpected(&["C18"], "read sector", &e),
                        }
                    }
                    Err(_) if self.fired() => Ok(()),
                    Err(e) => self.unexpected(&["C18"], "write sector", &e),
                }
            }
            K::RawRead => {
                let l = self.geo.loc_of(a[0] as usize % self.geo.total_sectors());
                let ll = loc!(self.d(), l);
                let r = guard(|| self.d().read_sector(ll));
                match self.caught(r)? {
                    Ok(d) => {
                        let s = self.seam.borrow();
                        let ok = d == self.geo.sector(&s.shadow, l);
                        drop(s);
                        if !ok {
                            return self.fail(&["C18"], "raw", format!("sector {:?} reads wrongly", l));
                        }
                        Ok(())
                    }
                    Err(_) if self.fired() => Ok(()),
                    Err(e) => self.unexpected(&["C18"], "read sector", &e),
                }
            }
            K::BadName | K::BadKind | K::BadRecord | K::BadSector | K::BadFormat | K::BadImage | K::Unformatted => {
                self.refused(op)
            }
            K::Fault => {
                self.seam.borrow_mut().faults.push(Fault {
                    mask: if a[0] & 7 == 0 { 7 } else { a[0] & 7 },
                    after: a[1],
                    burst: a[2].max(1),
                });
                Ok(())
            }
            K::Heal => {
                self.seam.borrow_mut().faults.clear();
                Ok(())
            }
            K::Retry => self.retry(),
            K::Kill => {
                self.kill = Some((a[0], a[1] == 1));
                Ok(())
            }
            K::Power => self.power(a[0], a[1] == 1),
            _ => Ok(()),
        }
    }

    // ---- single operations ----

    pub fn create(&mut self, name: Vec<u8>, ty: u32, flags: u32) -> R<()> {
        let (ft, attr) = file_type(ty);
        let mut given = name.clone();
        if flags & 1 != 0 {
            while given.len() < 16 {
                given.push(PAD);
            }
        }
        let (sure, maybe) = self.free_space();
        let room = self.dir_room();
        let uid = self.next_uid;
        self.act = Act::Create(uid);
        let n = petscii(&given);
        let r = guard(|| self.disk.as_mut().unwrap().create_file(&n, ft, LScheme::Linear));
        match self.caught(r)? {
            Ok(f) => {
                if (maybe == 0 || !room) && !self.leaky {
                    return self.fail(
                        &["C02", "C03", "C16"],
                        "overcommit",
                        format!("created {} although there is no room", show(&name)),
                    );
                }
                self.next_uid += 1;
                self.stats.hit("creates");
                if !room {
                    self.stats.hit("creates without room");
                }
                self.files.push(MFile {
                    uid,
                    name: name.clone(),
                    attr,
                    attrs: vec![],
                    extra: [0; 9],
                    scheme: Scheme::Linear,
                    accepted: 0,
                    flushed: 0,
                    dur: None,
                    dur_names: vec![],
                    created: true,
                    size_off: false,
                    built: None,
                });
                // The entry the new handle carries is the one of a new, plain, empty file.
                let l = listed(f.entry());
                if (&l.name, l.attr, l.size, l.extra) != (&trim_pad(&name), attr, 1, [0; 9]) {
                    return self.fail(&["C14", "C01"], "handle", format!("the new file's handle says {:?}", l));
                }
                let again = guard(|| self.d().open_file_from_entry(f.entry()));
                match self.caught(again)? {
                    Ok(File::Linear(_)) => {}
                    Err(_) if self.fired() => {}
                    Ok(_) => return self.fail(&["C14", "C01"], "handle", "the new file's entry opens as another kind of file".into()),
                    Err(e) => return self.unexpected(&["C01", "C14"], "open from entry", &e),
                }
                if flags & 2 != 0 {
                    let r = guard(|| f.writer());
                    match self.caught(r)? {
                        Ok(w) => self.writers.push(Wr { uid, w, wrote: false }),
                        Err(_) if self.fired() => {}
                        Err(e) => return self.unexpected(&["C01", "C03"], "open writer", &e),
                    }
                }
                if flags & 4 != 0 {
                    self.handles.push(Hd { uid, f });
                }
                Ok(())
            }
            Err(_) if self.fired() => {
                self.failing = Some(Failed::Create { name, ty });
                self.act = Act::Create(uid);
                Ok(())
            }
            Err(ref e) if is_full(e) => {
                self.stats.hit("disk full: create");
                if self.stale_counts {
                    return Ok(());
                }
                if sure > 0 && room {
                    let mut o = vec!["C03"];
                    o.push("C14");
                    let o = self.owners(&o);
                    return self.fail(
                        &o,
                        "false disk full",
                        format!("creating {} reports a full disk with {} data sectors free and room in the directory", show(&name), sure),
                    );
                }
                Ok(())
            }
            Err(_) if self.stale_counts => Ok(()),
            Err(e) => self.unexpected(&["C01", "C03", "C14"], "create", &e),
        }
    }

    fn open_writer(&mut self, uid: u32, kept: bool) -> R<()> {
        if self.writers.len() > 5 {
            return Ok(());
        }
        let h = match self.get_handle(uid, kept)? {
            Ok(h) => h,
            Err(_) if self.fired() => {
                self.failing = Some(Failed::OpenWriter { uid });
                return Ok(());
            }
            Err(e) => return self.unexpected(&["C01", "C03", "C14"], "open file", &e),
        };
        let r = guard(|| h.writer());
        match self.caught(r)? {
            Ok(w) => {
                self.writers.push(Wr { uid, w, wrote: false });
                Ok(())
            }
            Err(_) if self.fired() => {
                self.failing = Some(Failed::OpenWriter { uid });
                Ok(())
            }
            Err(e) => self.unexpected(&["C01", "C03"], "open writer", &e),
        }
    }

    fn write(&mut self, i: usize, len: usize, chunk: usize) -> R<()> {
        let uid = self.writers[i].uid;
        let mut left = len;
        while left > 0 {
            let (accepted, name) = {
                let f = self.find(uid).unwrap();
                (f.accepted, f.name.clone())
            };
            let n = if chunk == 0 { left } else { chunk.min(left) };
            let data = content::bytes(uid, accepted, n);
            let fired0 = self.seam.borrow().fired;
            let r = guard(|| self.writers[i].w.write(&data));
            match self.caught(r)? {
                Ok(0) => {
                    let o = self.owners(&["C01", "C03"]);
                    return self.fail(&o, "write zero", format!("write to {} accepted nothing without an error", show(&name)));
                }
                Ok(k) if k > n => {
                    return self.fail(&["C01", "C03"], "write count", format!("write of {} bytes claims {}", n, k));
                }
                Ok(k) => {
                    self.find_mut(uid).unwrap().accepted += k;
                    self.writers[i].wrote = true;
                    left -= k;
                    self.stats.add("bytes written", k as u64);
                    if k < n {
                        self.stats.hit("partial writes");
                    }
                }
                Err(_) if self.seam.borrow().fired > fired0 => {
                    self.failing = Some(Failed::Write { uid, len: left });
                    self.sizes_off(uid);
                    return Ok(());
                }
                Err(ref e) if is_full(e) => {
                    self.stats.hit("disk full: write");
                    self.capture()?;
                    self.seam.borrow_mut().armed = true;
                    if self.stale_counts {
                        return Ok(());
                    }
                    let (sure, _) = self.free_space();
                    let tail = accepted == 0 || accepted % 254 != 0;
                    if sure > 0 || tail {
                        let o = self.owners(&["C03"]);
                        return self.fail(
                            &o,
                            "false disk full",
                            format!(
                                "writing to {} (length {}) reports a full disk with {} data sectors free{}",
                                show(&name),
                                accepted,
                                sure,
                                if tail { " and room in its last sector" } else { "" }
                            ),
                        );
                    }
                    return Ok(());
                }
                Err(_) if self.stale_counts => return Ok(()),
                Err(e) => return self.unexpected(&["C01", "C03"], "write", &e),
            }
        }
        self.sizes_off(uid);
        Ok(())
    }

    /// After two failures in one operation the recorded size may be off: the first is undone by a
    /// write that the second may have hit.
    fn sizes_off(&mut self, uid: u32) {
        if self.seam.borrow().fired > 1 {
            self.find_mut(uid).unwrap().size_off = true;
        }
    }

    /// True if the flush succeeded.
    fn flush(&mut self, i: usize) -> R<bool> {
        let uid = self.writers[i].uid;
        let r = guard(|| self.writers[i].w.flush());
        match self.caught(r)? {
            Ok(()) => {
                let f = self.find_mut(uid).unwrap();
                f.flushed = f.accepted;
                f.dur = Some(f.accepted);
                f.dur_names.push(f.name.clone());
                self.stats.hit("flushes");
                if self.is("C04") || self.is("C07") {
                    self.check_synced(uid)?;
                }
                let wrote = std::mem::replace(&mut self.writers[i].wrote, false);
                if wrote && self.is("C07") {
                    self.check_map_recorded(uid)?;
                }
                Ok(true)
            }
            Err(_) if self.fired() => {
                self.failing = Some(Failed::Flush { uid });
                Ok(false)
            }
            Err(e) => self.unexpected(&["C01", "C03", "C04"], "flush", &e),
        }
    }

    fn close(&mut self, i: usize) -> R<()> {
        let uid = self.writers[i].uid;
        if self.is("C07") || self.is("C04") || !self.seam.borrow().faults.is_empty() {
            // A writer that may fail is flushed explicitly, and kept if that fails.
            if !self.flush(i)? {
                return Ok(());
            }
        }
        let w = self.writers.remove(i);
        let r = guard(move || drop(w));
        self.caught(r)?;
        let f = self.find_mut(uid).unwrap();
        f.flushed = f.accepted;
        self.stats.hit("closes");
        Ok(())
    }

    fn read_some(&mut self, i: usize, len: usize) -> R<()> {
        let uid = self.readers[i].uid;
        let pos = self.readers[i].pos;
        let mut buf = vec![0x5Au8; len];
        let r = guard(|| self.readers[i].r.read(&mut buf));
        match self.caught(r)? {
            Ok(n) if n > len => self.fail(READ_OWNERS, "read count", format!("read of {} claims {}", len, n)),
            Ok(n) => {
                self.check_read(uid, pos, &buf[..n], "read")?;
                let (accepted, name) = {
                    let f = self.find(uid).unwrap();
                    (f.accepted, f.name.clone())
                };
                if pos + n > accepted {
                    return self.fail(
                        READ_OWNERS,
                        "too long",
                        format!("{} has {} bytes but a reader got {}", show(&name), accepted, pos + n),
                    );
                }
                if self.readers[i].eof && n > 0 {
                    return self.fail(READ_OWNERS, "after end", format!("reader of {} continued after its end", show(&name)));
                }
                self.readers[i].pos += n;
                self.stats.add("bytes read", n as u64);
                if n == 0 && len > 0 {
                    self.readers[i].eof = true;
                    let min = self.readers[i].min;
                    if pos < min {
                        return self.fail(
                            READ_OWNERS,
                            "too short",
                            format!("reader of {} ended at {} of at least {}", show(&name), pos, min),
                        );
                    }
                    self.stats.hit("reads to the end");
                }
                Ok(())
            }
            Err(_) if self.fired() => {
                self.readers.remove(i);
                Ok(())
            }
            Err(e) => {
                let name = self.find(uid).unwrap().name.clone();
                self.fail(READ_OWNERS, "read error", format!("reading {} failed: {}", show(&name), err_text(&e)))
            }
        }
    }

    /// Read a whole file and compare it.  A file may also be read as its only record, and through a
    /// handle that was opened long ago.
    pub fn read_all(&mut self, uid: u32, chunk: usize, kept: bool) -> R<()> {
        let f = self.find(uid).unwrap().clone();
        let h = match self.get_handle(uid, kept)? {
            Ok(h) => h,
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C01", "C03", "C05", "C08", "C14"], "open file", &e),
        };
        let ceiling = f.accepted;
        let r = guard(|| -> io::Result<Vec<u8>> {
            if chunk == AS_RECORD {
                return h.record(0);
            }
            let mut r = h.reader()?;
            let mut out = vec![];
            if chunk == 0 {
                r.read_to_end(&mut out)?;
            } else {
                let mut buf = vec![0u8; chunk];
                while out.len() <= ceiling + 100_000 {
                    let n = r.read(&mut buf)?;
                    if n == 0 {
                        break;
                    }
                    out.extend_from_slice(&buf[..n]);
                }
            }
            Ok(out)
        });
        if kept && f.scheme == Scheme::Linear && !self.fired() {
            let n = guard(|| h.record_count());
            let n = self.caught(n)?;
            let o = guard(|| h.occupied_sectors());
            let o = self.caught(o)?;
            if !self.fired() {
                if n.as_ref().ok() != Some(&1) {
                    return self.fail(&self.owners(&["C01"]), "record count", format!("{} reports {:?} records", show(&f.name), n.ok()));
                }
                let e = self.parsed.files.iter().filter(|p| p.e.name == f.name).collect::<Vec<_>>();
                if let ([p], Ok(got)) = (&e[..], o) {
                    let mut want = p.owned.clone().unwrap_or_default();
                    want.sort();
                    let mut got: Vec<Loc> = got.iter().map(|l| (l.0, l.1)).collect();
                    got.sort();
                    if got != want {
                        return self.fail(&self.owners(&["C01", "C02"]), "sectors", format!("{} reports {} occupied sectors, not the {} stored", show(&f.name), got.len(), want.len()));
                    }
                }
            }
            self.handles.push(Hd { uid, f: h });
        }
        match self.caught(r)? {
            Ok(data) => {
                self.check_read(uid, 0, &data[..data.len().min(f.accepted)], "read")?;
                if data.len() > f.accepted {
                    return self.fail(READ_OWNERS, "too long", format!("{} has {} bytes but reads {}", show(&f.name), f.accepted, data.len()));
                }
                if data.len() < f.flushed {
                    return self.fail(
                        READ_OWNERS,
                        "too short",
                        format!("{} has {} bytes ({} flushed) but reads {}", show(&f.name), f.accepted, f.flushed, data.len()),
                    );
                }
                self.stats.hit("files read back");
                self.stats.add("bytes read", data.len() as u64);
                Ok(())
            }
            Err(_) if self.fired() => Ok(()),
            Err(e) => self.fail(READ_OWNERS, "read error", format!("reading {} failed: {}", show(&f.name), err_text(&e))),
        }
    }

    fn rename(&mut self, uid: u32, name: Vec<u8>, flags: u32) -> R<()> {
        self.act = Act::Rename(uid);
        let old = self.find(uid).unwrap().name.clone();
        let mut from = old.clone();
        let mut to = name.clone();
        if flags & 1 != 0 {
            while from.len() < 16 {
                from.push(PAD);
            }
        }
        if flags & 2 != 0 {
            while to.len() < 16 {
                to.push(PAD);
            }
        }
        let (from, to) = (petscii(&from), petscii(&to));
        let r = guard(|| self.disk.as_mut().unwrap().rename(&from, &to));
        match self.caught(r)? {
            Ok(()) => {
                let f = self.find_mut(uid).unwrap();
                f.name = name.clone();
                f.dur_names.push(name);
                f.dur_names.push(old);
                self.stats.hit("renames");
                Ok(())
            }
            Err(_) if self.fired() => {
                self.failing = Some(Failed::Rename { uid, name });
                Ok(())
            }
            Err(e) => self.unexpected(&["C08", "C14", "C03"], "rename", &e),
        }
    }

    /// Write back a file's entry with other attributes.
    fn edit(&mut self, uid: u32, attr: u8) -> R<()> {
        self.act = Act::Rename(uid);
        let name = petscii(&self.find(uid).unwrap().name);
        let kind = match attr & 0x0F {
            1 => Some(FileType::SEQ),
            2 => Some(FileType::PRG),
            3 => Some(FileType::USR),
            _ => None,
        };
        let r = guard(|| -> io::Result<()> {
            let d = self.disk.as_mut().unwrap();
            let mut e = d.find_directory_entry(&name)?;
            e.file_attributes.locked_flag = attr & 0x40 != 0;
            e.file_attributes.closed_flag = attr & 0x80 != 0;
            if let Some(k) = kind {
                e.file_attributes.file_type = k;
            }
            d.write_directory_entry(&e)
        });
        match self.caught(r)? {
            Ok(()) => {
                let f = self.find_mut(uid).unwrap();
                if f.attr != attr {
                    f.attrs.push(f.attr);
                    f.attr = attr;
                }
                self.stats.hit("entries edited");
                Ok(())
            }
            Err(_) if self.fired() => {
                self.failing = Some(Failed::Edit { uid, attr });
                Ok(())
            }
            Err(e) => self.unexpected(&["C14", "C18"], "write entry", &e),
        }
    }

    // ---- listings under way ----

    /// What happened to the files since a listing was started.
    fn follow_iters(&mut self) {
        let files = &self.files;
        for it in &mut self.iters {
            it.there.retain(|t| files.iter().any(|f| f.uid == t.0));
            for f in files {
                if !it.names.contains(&f.name) {
                    it.names.push(f.name.clone());
                }
            }
        }
    }

    fn iterate(&mut self, i: usize, count: usize) -> R<()> {
        let mut it = self.iters.remove(i);
        let owners = self.owners(&["C14", "C06"]);
        for _ in 0..count {
            let r = guard(|| it.it.next());
            match self.caught(r)? {
                Some(Ok(e)) => {
                    let l = listed(&e);
                    if !it.names.contains(&l.name) {
                        return self.fail(&owners, "listing under way", format!("a listing under way shows {}, which never was there", show(&l.name)));
                    }
                    if it.got.contains(&l.at) {
                        return self.fail(&owners, "listing under way", format!("a listing under way shows {} at {:?} twice", show(&l.name), l.at));
                    }
                    it.got.push(l.at);
                }
                Some(Err(_)) if self.fired() => return Ok(()),
                Some(Err(e)) => return self.unexpected(&["C14", "C06"], "listing under way", &e),
                None => {
                    for (uid, pos) in &it.there {
                        if !it.got.contains(&(pos.loc, pos.off)) {
                            let name = self.find(*uid).map(|f| show(&f.name)).unwrap_or_default();
                            return self.fail(&owners, "listing under way", format!("a listing under way left out {}, which was there all the time", name));
                        }
                    }
                    self.stats.hit("listings finished across changes");
                    return Ok(());
                }
            }
        }
        self.iters.push(it);
        Ok(())
    }

    fn delete(&mut self, uid: u32, mut h: File) -> R<()> {
        self.act = Act::Delete(uid);
        let r = guard(|| h.delete());
        match self.caught(r)? {
            Ok(()) => {
                let special = self.find(uid).map(|f| f.built.is_some()).unwrap_or(false);
                self.bury(uid);
                self.stats.hit("deletes");
                if special {
                    self.stats.hit("deletes of REL/GEOS files");
                }
                Ok(())
            }
            Err(_) if self.fired() => {
                self.failing = Some(Failed::Delete { uid, f: Some(h) });
                Ok(())
            }
            Err(e) => self.unexpected(&["C02", "C03", "C14"], "delete", &e),
        }
    }

    /// Faults stop; what failed last is tried again with the same handles and must now work.
    fn retry(&mut self) -> R<()> {
        self.seam.borrow_mut().faults.clear();
        let failed = match self.failed.take() {
            Some(f) => f,
            None => return Ok(()),
        };
        self.stats.hit("retries");
        match failed {
            Failed::Create { name, ty } => {
                if self.files.iter().any(|f| f.name == name) {
                    return Ok(());
                }
                self.create(name, ty, 2)
            }
            Failed::Rename { uid, name } => {
                if self.find(uid).map(|f| f.name == name).unwrap_or(true)
                    || self.files.iter().any(|f| f.name == name)
                {
                    return Ok(());
                }
                self.rename(uid, name, 0)
            }
            Failed::Edit { uid, attr } => {
                if self.find(uid).is_none() {
                    return Ok(());
                }
                self.edit(uid, attr)
            }
            Failed::Delete { uid, f } => {
                if self.find(uid).is_none() || self.has_writer(uid) {
                    return Ok(());
                }
                match f {
                    Some(f) => {
                        self.drop_uses(uid);
                        self.delete(uid, f)
                    }
                    None => Ok(()),
                }
            }
            Failed::Write { uid, len } => match self.writers.iter().position(|w| w.uid == uid) {
                Some(i) => {
                    self.act = Act::File(uid);
                    self.write(i, len, 0)?;
                    self.flush(i).map(|_| ())
                }
                None => Ok(()),
            },
            Failed::Flush { uid } => match self.writers.iter().position(|w| w.uid == uid) {
                Some(i) => {
                    self.act = Act::File(uid);
                    self.flush(i).map(|_| ())
                }
                None => Ok(()),
            },
            Failed::OpenWriter { uid } => {
                if self.find(uid).is_none() || self.has_writer(uid) {
                    return Ok(());
                }
                self.act = Act::File(uid);
                self.open_writer(uid, false)
            }
        }
    }

    // ---- special files ----

    fn record(&mut self, f: &MFile, index: u32, kept: bool) -> R<()> {
        let b = f.built.clone().unwrap();
        let n = b.records.len();
        let h = match self.get_handle(f.uid, kept)? {
            Ok(h) => h,
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C12"], "open file", &e),
        };
        let i = if n == 0 { 0 } else { index as usize % (n + 1) };
        let r = guard(|| h.record(i));
        let r = self.caught(r)?;
        self.stats.hit("records read");
        match (r, b.records.get(i)) {
            (Ok(d), Some(want)) => {
                let empty = vec![];
                let want = want.as_ref().unwrap_or(&empty);
                if d != *want {
                    return self.fail(&self.owners(&["C12"]),
                        "record",
                        format!("record {} of {} ({:?}) has {} bytes instead of {} or differs", i, show(&f.name), b.scheme, d.len(), want.len()),
                    );
                }
            }
            (Ok(_), None) => {
                return self.fail(&self.owners(&["C12", "C08"]), "record range", format!("record {} of {} returned although there are {}", i, show(&f.name), n));
            }
            (Err(_), Some(_)) if self.fired() => {}
            (Err(e), Some(_)) => return self.unexpected(&["C12"], "record", &e),
            (Err(_), None) => {}
        }
        if kept {
            self.handles.push(Hd { uid: f.uid, f: h });
        }
        Ok(())
    }

    pub fn check_special(&mut self, f: &MFile, all: bool) -> R<()> {
        let b = f.built.clone().unwrap();
        let h = match self.get_handle(f.uid, false)? {
            Ok(h) => h,
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C12"], "open file", &e),
        };
        let what = format!("{} ({:?})", show(&f.name), b.scheme);
        let r = guard(|| h.record_count());
        match self.caught(r)? {
            Ok(n) if n == b.records.len() => {}
            Ok(n) => return self.fail(&self.owners(&["C12"]), "record count", format!("{} reports {} records instead of {}", what, n, b.records.len())),
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C12"], "record count", &e),
        }
        let r = guard(|| h.occupied_sectors());
        match self.caught(r)? {
            Ok(v) => {
                let mut v: Vec<Loc> = v.iter().map(|l| (l.0, l.1)).collect();
                v.sort();
                v.dedup();
                if v != b.owned {
                    return self.fail(&self.owners(&["C12"]), "sectors", format!("{} reports {} occupied sectors, not the {} stored", what, v.len(), b.owned.len()));
                }
            }
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C12"], "occupied sectors", &e),
        }
        let r = guard(|| h.geos_info());
        match self.caught(r)? {
            Ok(info) => match (info, &b.info) {
                (None, None) => {}
                (Some(i), Some(want)) => {
                    let r = guard(|| {
                        let mut v = vec![0u8; 256];
                        i.icon.to_bytes(&mut v[5..5 + 63]);
                        v[0x44] = i.file_attributes.to_byte();
                        v[0x46] = i.structure.to_byte();
                        v[0x47..0x49].copy_from_slice(&i.program_load_address.to_le_bytes());
                        v[0x49..0x4B].copy_from_slice(&i.program_end_address.to_le_bytes());
                        v[0x4B..0x4D].copy_from_slice(&i.program_start_address.to_le_bytes());
                        i.class.to_bytes(&mut v[0x4D..0x61]);
                        i.author.to_bytes(&mut v[0x61..0x75]);
                        i.application.to_bytes(&mut v[0x75..0x89]);
                        v[0x89..0xA0].copy_from_slice(&i.reserved);
                        i.description.to_bytes(&mut v[0xA0..0x100]);
                        v
                    });
                    let v = self.caught(r)?;
                    for p in (5..256).filter(|p| *p != 0x45) {
                        if v[p] != want[p] {
                            return self.fail(&self.owners(&["C12"]), "info", format!("info block of {} differs at {:#x}", what, p));
                        }
                    }
                }
                (a, _) => {
                    return self.fail(&self.owners(&["C12"]), "info", format!("info block of {} {}", what, if a.is_some() { "invented" } else { "missing" }));
                }
            },
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C12"], "info", &e),
        }
        // Such files refuse writers.
        let r = guard(|| h.writer().map(|w| drop(w)));
        if let Ok(()) = self.caught(r)? {
            return self.fail(&self.owners(&["C12", "C08"]), "writer", format!("{} gave out a writer", what));
        }
        if all {
            for i in 0..b.records.len() {
                self.record(f, i as u32, false)?;
            }
            if let Ok(_) = self.caught(guard(|| h.record(b.records.len())))? {
                return self.fail(&self.owners(&["C12", "C08"]), "record range", format!("{} returned record {} of {}", what, b.records.len(), b.records.len()));
            }
        }
        self.stats.hit("special files checked");
        Ok(())
    }

    pub fn expected_export(&self, f: &MFile) -> Option<Vec<u8>> {
        let b = f.built.clone()?;
        let mut v = b.export.clone()?;
        for i in 0..16 {
            v[3 + i] = *f.name.get(i).unwrap_or(&PAD);
        }
        Some(v)
    }

    fn open_export(&mut self, f: &MFile, kept: bool) -> R<()> {
        if self.exports.len() > 4 {
            self.exports.remove(0);
        }
        let _ = kept;
        let h = match self.get_handle(f.uid, false)? {
            Ok(h) => h,
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C12", "C13"], "open file", &e),
        };
        let want = self.expected_export(f);
        let refuse = f.built.as_ref().map_or(false, |b| b.too_long);
        let r = guard(|| match h {
            File::GEOSSequential(ref g) | File::GEOSVLIR(ref g) => Some(g.reader()),
            _ => None,
        });
        match self.caught(r)? {
            None => self.fail(&self.owners(&["C12", "C13"]), "kind", format!("{} is not opened as a GEOS file", show(&f.name))),
            Some(Ok(r)) => {
                let want = match want {
                    Some(w) => w,
                    None => return Ok(()),
                };
                self.exports.push(Ex { uid: f.uid, r: Box::new(r), pos: 0, want, eof: false, refuse });
                Ok(())
            }
            Some(Err(_)) if self.fired() || want.is_none() || refuse => Ok(()),
            Some(Err(e)) => self.unexpected(&["C13"], "export", &e),
        }
    }

    fn export_some(&mut self, i: usize, len: usize) -> R<()> {
        let mut buf = vec![0xA5u8; len];
        let r = guard(|| self.exports[i].r.read(&mut buf));
        let name = self.find(self.exports[i].uid).map(|f| show(&f.name)).unwrap_or_default();
        match self.caught(r)? {
            Ok(n) => {
                let (pos, total) = (self.exports[i].pos, self.exports[i].want.len());
                if n > len || pos + n > total {
                    return self.fail(&self.owners(&["C13"]),
                        "export length",
                        format!("export of {} yields {} bytes at {} of {}", name, n, pos, total),
                    );
                }
                if buf[..n] != self.exports[i].want[pos..pos + n] {
                    let at = (0..n).find(|k| buf[*k] != self.exports[i].want[pos + k]).unwrap_or(0);
                    return self.fail(&self.owners(&["C13"]), "export bytes", format!("export of {} differs at {} of {}", name, pos + at, total));
                }
                if n == 0 && len > 0 && self.exports[i].refuse {
                    return self.fail(&self.owners(&["C13"]), "export unrefused", format!("export of {} ends quietly before a record that cannot be exported", name));
                }
                if n == 0 && len > 0 && pos < total {
                    return self.fail(&self.owners(&["C13"]), "export short", format!("export of {} ends at {} of {}", name, pos, total));
                }
                self.exports[i].pos += n;
                self.stats.add("bytes exported", n as u64);
                if n == 0 && len > 0 && !self.exports[i].eof {
                    self.exports[i].eof = true;
                    self.stats.hit("exports completed");
                }
                Ok(())
            }
            Err(_) if self.fired() => {
                self.exports.remove(i);
                Ok(())
            }
            Err(_) if self.exports[i].refuse && self.exports[i].pos + len > self.exports[i].want.len() => {
                self.exports.remove(i);
                self.stats.hit("exports refused");
                Ok(())
            }
            Err(e) => self.unexpected(&["C13"], "export", &e),
        }
    }

    // ---- listing ----

    pub fn check_listing(&mut self) -> R<()> {
        let r = guard(|| self.d().directory());
        let list = match self.caught(r)? {
            Ok(l) => l,
            Err(_) if self.fired() => return Ok(()),
            Err(e) => return self.unexpected(&["C14", "C08", "C03"], "directory", &e),
        };
        let got: Vec<dev::Listed> = list.iter().map(listed).collect();
        // Slot order and metadata as stored.
        let want: Vec<&refimg::Entry> = self.parsed.files.iter().map(|f| &f.e).collect();
        let o = self.owners(&["C14"]);
        if got.len() != want.len() {
            return self.fail(&o, "listing", format!("listing has {} entries, the directory {}", got.len(), want.len()));
        }
        for (i, (g, e)) in got.iter().zip(&want).enumerate() {
            if g.name != e.name || g.attr != e.attr || g.size != e.size || g.first != e.first || g.extra != e.extra
                || g.at != (e.pos.loc, e.pos.off)
            {
                return self.fail(&o, "listing", format!("listed {:?} stored {:?}", g, e));
            }
            if list[i].is_geos_border() != e.pos.border {
                return self.fail(&o, "border", format!("{} is stored {:?}, but listed otherwise", show(&e.name), e.pos));
            }
        }
        self.check_names(&got.iter().map(|g| (g.name.clone(), g.attr, g.extra)).collect::<Vec<_>>())?;
        // Looking up by name.
        let mut rng = Rng::new(hash2(self.scn_seed, self.step_no as u64));
        for _ in 0..2 {
            if self.files.is_empty() {
                break;
            }
            let f = rng.pick(&self.files).clone();
            let n = petscii(&f.name);
            let r = guard(|| self.d().find_directory_entry(&n));
            match self.caught(r)? {
                Ok(e) => {
                    let l = listed(&e);
                    if l.name != f.name || l.attr != f.attr || l.extra != f.extra {
                        return self.fail(&["C14"], "lookup", format!("looking up {} finds {}", show(&f.name), show(&l.name)));
                    }
                }
                Err(_) if self.fired() => {}
                Err(e) => return self.unexpected(&["C14"], "lookup", &e),
            }
        }
        if let Some(free) = self.free_name(rng.below(64) as u32) {
            let n = petscii(&free);
            let r = guard(|| self.d().find_directory_entry(&n));
            if let Ok(_) = self.caught(r)? {
                return self.fail(&["C14"], "lookup", format!("looking up {} finds a file that does not exist", show(&free)));
            }
        }
        self.stats.hit("listings checked");
        Ok(())
    }

    /// Compare entries (in any order) with the model.
    pub fn check_names(&self, got: &[(Vec<u8>, u8, [u8; 9])]) -> R<()> {
        let mut a: Vec<(Vec<u8>, u8, [u8; 9])> = got.to_vec();
        let mut b: Vec<(Vec<u8>, u8, [u8; 9])> =
            self.files.iter().map(|f| (f.name.clone(), f.attr, f.extra)).collect();
        a.sort();
        b.sort();
        if a != b {
            let miss = b.iter().find(|x| !a.contains(x));
            let more = a.iter().find(|x| !b.contains(x));
            let f = |x: Option<&(Vec<u8>, u8, [u8; 9])>| {
                x.map(|x| format!("{} attr {:02x} extra {:02x?}", show(&x.0), x.1, x.2)).unwrap_or("-".into())
            };
            let o = self.owners(&["C14"]);
            return self.fail(&o, "listing", format!("missing: {}; unexpected: {}", f(miss), f(more)));
        }
        Ok(())
    }

    // ---- reopening ----

    pub fn view(&mut self) -> R<Vec<String>> {
        let was = self.seam.borrow().armed;
        self.seam.borrow_mut().armed = false;
        let r = guard(|| view(self.d(), true));
        let v = self.caught(r)?;
        self.seam.borrow_mut().armed = was;
        Ok(v)
    }

    fn same_view(&self, a: &[String], b: &[String], what: &str) -> R<()> {
        if let Some(d) = diff(a, b) {
            return self.fail(&["C06"], "view", format!("after {}: {}", what, d));
        }
        Ok(())
    }

    fn is_formatted(&mut self) -> R<bool> {
        let r = guard(|| {
            let d = self.d();
            d.disk_format().is_ok() && d.header().is_ok() && d.bam().is_ok()
        });
        self.caught(r)
    }

    /// Right after the disk was initialised its free map is the one on the image.
    fn check_fresh_map(&mut self, what: &str) -> R<()> {
        if let Some(mut v) = self.memory_free()? {
            v.sort();
            let geo = self.geo;
            let img = self.img.clone();
            let want: Vec<Loc> = geo.std_locs().into_iter().filter(|l| geo.is_free(&img, *l)).collect();
            if v != want {
                return self.fail(
                    &["C06", "C07"],
                    "free map",
                    format!("after {}: {} sectors free in memory, {} on the image", what, v.len(), want.len()),
                );
            }
        }
        Ok(())
    }

    fn reinit(&mut self, arg: u32) -> R<()> {
        if self.is("C07") {
            return self.reinit_under_faults(arg);
        }
        if !self.seam.borrow().faults.is_empty() || self.faulty {
            return Ok(());
        }
        let view_too = self.is("C06") && self.writers.is_empty();
        let a = if view_too { self.view()? } else { vec![] };
        let r = guard(|| self.disk.as_mut().unwrap().initialize());
        self.caught(r)?;
        self.stats.hit("re-initialisations");
        if !self.is_formatted()? {
            return self.fail(&["C06", "C01"], "unformatted", "re-initialising lost the format".into());
        }
        if self.is("C06") {
            self.check_fresh_map("re-initialising")?;
        }
        if view_too {
            let b = self.view()?;
            self.same_view(&a, &b, "re-initialising")?;
        } else {
            self.stats.hit("re-initialisations with writers open");
        }
        Ok(())
    }

    /// Re-initialise while the medium may fail.  A disk that could not be read counts as unformatted
    /// until it is initialised again; what is still open from before must do no harm then.
    fn reinit_under_faults(&mut self, arg: u32) -> R<()> {
        let r = guard(|| self.disk.as_mut().unwrap().initialize());
        self.caught(r)?;
        self.stats.hit("re-initialisations");
        if self.is_formatted()? {
            self.seam.borrow_mut().armed = false;
            self.failed = None;
            self.check_fresh_map("re-initialising")?;
            self.loosen();
            return Ok(());
        }
        if !self.fired() {
            return self.fail(&["C07"], "unformatted", "re-initialising lost the format without an I/O error".into());
        }
        self.stats.hit("re-initialisations that failed");
        // The medium works from here to the end of this step.
        let (faults, fired) = {
            let mut s = self.seam.borrow_mut();
            (std::mem::take(&mut s.faults), std::mem::replace(&mut s.fired, 0))
        };
        let r = self.old_writers(arg);
        let mut s = self.seam.borrow_mut();
        s.faults = faults;
        s.fired = fired;
        r
    }

    fn old_writers(&mut self, arg: u32) -> R<()> {
        // Nothing can be allocated now, and nothing panics.
        let name = match self.free_name(arg) {
            Some(n) => n,
            None => content::name(arg),
        };
        let n = petscii(&name);
        let r = guard(|| self.disk.as_mut().unwrap().create_file(&n, FileType::PRG, LScheme::Linear).is_ok());
        if self.caught(r)? {
            return self.fail(&["C07"], "unformatted", "a file was created on a disk that could not be initialised".into());
        }
        let r = guard(|| {
            let d = self.d();
            let _ = d.validate();
            let _ = d.blocks_free();
            let _ = d.directory();
            let _ = d.name();
        });
        self.caught(r)?;
        let mut zombies = std::mem::take(&mut self.writers);
        let (before, during): (Vec<u32>, u32) = (zombies.iter().map(|w| w.uid).collect(), arg >> 8 & 1);
        if during == 1 {
            for w in zombies.iter_mut() {
                self.zombie_writes(w, 700)?;
            }
        }
        self.readers.clear();
        self.exports.clear();
        self.handles.clear();
        self.iters.clear();
        self.failed = None;
        let r = guard(|| self.disk.as_mut().unwrap().initialize());
        self.caught(r)?;
        if !self.is_formatted()? {
            return self.fail(&["C07"], "unformatted", "the disk cannot be initialised although the I/O errors have stopped".into());
        }
        self.look()?;
        self.check_fresh_map("initialising again")?;
        self.loosen();
        // Somebody else uses the disk again, before and after the old writers come back to life.
        self.create(name, arg, 2)?;
        self.look()?;
        if !self.writers.is_empty() {
            self.write(0, 600, 0)?;
            self.look()?;
        }
        for mut w in zombies {
            self.zombie_writes(&mut w, 600)?;
            let r = guard(move || drop(w));
            self.caught(r)?;
        }
        self.look()?;
        if !self.writers.is_empty() {
            self.write(0, 300, 0)?;
            self.look()?;
            self.close(0)?;
            self.look()?;
        }
        for uid in before {
            let (name, accepted, flushed) = match self.find(uid) {
                Some(f) => (f.name.clone(), f.accepted, f.flushed),
                None => continue,
            };
            let first = match self.parsed.find(&name) {
                Some(p) => p.e.first,
                None => return self.fail(&["C07"], "lost file", format!("{} is not listed any more", show(&name))),
            };
            let len = match chain_bytes(&self.geo, &self.img, first) {
                Ok(b) => b.len(),
                Err(e) => return self.fail(&["C07"], "chain", format!("{} cannot be read: {:?}", show(&name), e)),
            };
            if len < flushed || len > accepted {
                return self.fail(
                    &["C07"],
                    "length",
                    format!("{} has {} bytes; flushed {}, accepted {}", show(&name), len, flushed, accepted),
                );
            }
            let f = self.find_mut(uid).unwrap();
            f.accepted = len;
            f.flushed = len;
            f.dur = f.dur.map(|d| d.min(len));
            f.size_off = true;
            self.stats.hit("writers from before a failed initialisation");
        }
        self.act = Act::Everything;
        self.loosen();
        Ok(())
    }

    fn look(&mut self) -> R<()> {
        self.capture()?;
        self.seam.borrow_mut().armed = true;
        Ok(())
    }

    /// A writer from before a failed initialisation writes; it may fail but must not do harm.
    fn zombie_writes(&mut self, w: &mut Wr, len: usize) -> R<()> {
        let accepted = self.find(w.uid).unwrap().accepted;
        let data = content::bytes(w.uid, accepted, len);
        let r = guard(|| {
            let n = w.w.write(&data).unwrap_or(0);
            let _ = w.w.flush();
            n
        });
        let n = self.caught(r)?;
        if n > len {
            return self.fail(&["C07"], "write count", format!("write of {} bytes claims {}", len, n));
        }
        self.find_mut(w.uid).unwrap().accepted += n;
        Ok(())
    }

    /// Sectors that were lost to an I/O error stay lost once the free map is read from the image.
    fn loosen(&mut self) {
        let issues = fsck(&self.geo, &self.img, &self.parsed);
        if !issues.is_empty() {
            self.mem_loose = true;
        }
        // Counts of a map that was only half written before are taken over as they are.
        if issues.iter().any(|i| matches!(i, Issue::Count(_))) {
            self.stale_counts = true;
        }
    }

    fn reopen(&mut self, how: u32) -> R<()> {
        if !self.writers.is_empty() || self.path.is_none() || self.faulty {
            return Ok(());
        }
        let check = self.is("C06");
        let a = if check { self.view()? } else { vec![] };
        self.readers.clear();
        self.exports.clear();
        self.handles.clear();
        self.iters.clear();
        let d = self.disk.take();
        let r = guard(move || drop(d));
        self.caught(r)?;
        self.open_again(how, if check { Some(a) } else { None })
    }

    fn open_again(&mut self, how: u32, view_before: Option<Vec<String>>) -> R<()> {
        let old = self.path.clone().unwrap();
        self.ext = match how & 3 {
            0 => self.geo.ext().to_string(),
            1 => self.geo.ext().to_uppercase(),
            _ => String::from("img"),
        };
        let new = self.image_path();
        if new != old {
            std::fs::rename(&old, &new).expect("rename image");
        }
        self.path = Some(new.clone());
        let on_disk = std::fs::read(&new).expect("read image");
        if on_disk[..] != self.seam.borrow().shadow[..] {
            return self.fail(&["C06"], "file", "the image file does not contain what the disk showed".into());
        }
        if how & 4 != 0 {
            self.seam.borrow_mut().armed = false;
            let r = guard(|| cbm::disk::open(&new, false));
            match self.caught(r)? {
                Ok(d) => {
                    if let Some(ref a) = view_before {
                        let r = guard(|| view(&d, true));
                        let b = self.caught(r)?;
                        self.same_view(a, &b, "opening read-only")?;
                    }
                    let r = guard(move || drop(d));
                    self.caught(r)?;
                }
                Err(e) => return self.unexpected(&["C06", "C09"], "open read-only", &e),
            }
        }
        let r = guard(|| cbm::disk::open(&new, true));
        match self.caught(r)? {
            Ok(d) => self.disk = Some(d),
            Err(e) => return self.unexpected(&["C06"], "reopen", &e),
        }
        self.stats.hit("reopens");
        if let Some(a) = view_before {
            let b = self.view()?;
            self.same_view(&a, &b, "reopening")?;
        }
        Ok(())
    }

    fn drop_disk(&mut self, how: u32) -> R<()> {
        if self.path.is_none() || self.faulty {
            return Ok(());
        }
        self.readers.clear();
        self.exports.clear();
        self.handles.clear();
        self.iters.clear();
        self.act = Act::Everything;
        // The disk goes first, then the writers in some order.
        let d = self.disk.take();
        let r = guard(move || drop(d));
        self.caught(r)?;
        while !self.writers.is_empty() {
            let i = (how as usize / 8) % self.writers.len();
            let w = self.writers.remove(i);
            let uid = w.uid;
            let r = guard(move || drop(w));
            self.caught(r)?;
            let f = self.find_mut(uid).unwrap();
            f.flushed = f.accepted;
            self.stats.hit("writers closed after their disk");
        }
        let img = std::fs::read(self.path.as_ref().unwrap()).expect("read image");
        self.seam.borrow_mut().settle_all(&img);
        self.open_again(how, None)
    }

    // ---- requests that must be refused ----

    fn refused(&mut self, op: &Op) -> R<()> {
        let a = op.a;
        self.capture()?;
        let before = self.img.clone();
        let seen = self.view_small()?;
        self.seam.borrow_mut().armed = true;
        let taken = self.choose(a[1], |_| true);
        let d = self.disk.as_mut().unwrap();
        let what: String;
        let result: Result<Option<io::Result<()>>, Caught> = match op.k {
            K::BadName => {
                let long = petscii(b"SEVENTEEN LETTERS");
                let huge = petscii(&[b'X'; 300]);
                let padded = petscii(&[b'L', PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, PAD, b'R']);
                let (ft, _) = file_type(a[2]);
                match (a[0] % 14, taken) {
                    (0, _) => {
                        what = "creating a file with a long name".into();
                        guard(|| Some(d.create_file(&long, ft, LScheme::Linear).map(|_| ())))
                    }
                    (1, Some(f)) => {
                        what = format!("creating {} again", show(&f.name));
                        guard(|| Some(d.create_file(&petscii(&f.name), ft, LScheme::Linear).map(|_| ())))
                    }
                    (2, Some(f)) if f.name.len() < 16 => {
                        let mut n = f.name.clone();
                        n.push(PAD);
                        what = format!("creating {} again with padding", show(&f.name));
                        guard(|| Some(d.create_file(&petscii(&n), ft, LScheme::Linear).map(|_| ())))
                    }
                    (3, Some(f)) => {
                        what = "renaming to a long name".into();
                        guard(|| Some(d.rename(&petscii(&f.name), &long)))
                    }
                    (4, Some(f)) => {
                        let other = self.files[a[3] as usize % self.files.len()].name.clone();
                        what = format!("renaming {} to {}", show(&f.name), show(&other));
                        guard(|| Some(d.rename(&petscii(&f.name), &petscii(&other))))
                    }
                    (5, Some(f)) => {
                        let mut other = self.files[a[3] as usize % self.files.len()].name.clone();
                        while other.len() < 16 {
                            other.push(PAD);
                        }
                        what = format!("renaming {} to {}", show(&f.name), show(&other));
                        guard(|| Some(d.rename(&petscii(&f.name), &petscii(&other))))
                    }
                    (6, _) => {
                        what = "renaming an unknown file".into();
                        guard(|| Some(d.rename(&petscii(b"NO SUCH FILE"), &petscii(b"NEW"))))
                    }
                    (7, _) => {
                        what = "opening an unknown file".into();
                        guard(|| Some(d.open_file(&petscii(b"NO SUCH FILE")).map(|_| ())))
                    }
                    (8, _) => {
                        what = "opening a file by a long name".into();
                        guard(|| Some(d.open_file(&huge).map(|_| ())))
                    }
                    (9, _) => {
                        what = "creating a file with a very long name".into();
                        guard(|| Some(d.create_file(&huge, ft, LScheme::Linear).map(|_| ())))
                    }
                    (10, Some(f)) => {
                        what = format!("renaming {} to a name too long before its padding", show(&f.name));
                        guard(|| Some(d.rename(&petscii(&f.name), &padded)))
                    }
                    (11, Some(f)) => {
                        what = format!("renaming {} to itself", show(&f.name));
                        guard(|| Some(d.rename(&petscii(&f.name), &petscii(&f.name))))
                    }
                    (12, Some(f)) => {
                        let mut n = f.name.clone();
                        while n.len() < 20 {
                            n.push(PAD);
                        }
                        what = format!("creating {} with padding beyond 16", show(&f.name));
                        guard(|| Some(d.create_file(&petscii(&n), ft, LScheme::Linear).map(|_| ())))
                    }
                    _ => {
                        what = "looking up an unknown file".into();
                        guard(|| Some(d.find_directory_entry(&petscii(b"NO SUCH FILE")).map(|_| ())))
                    }
                }
            }
            K::BadKind => {
                let f = match self.files.iter().filter(|f| f.built.is_some()).nth(
                    a[0] as usize % self.files.iter().filter(|f| f.built.is_some()).count().max(1),
                ) {
                    Some(f) => f.clone(),
                    None => return Ok(()),
                };
                let reader = a[1] % 2 == 0 && f.scheme != Scheme::Seq;
                what = format!("opening a {} on {} ({:?})", if reader { "reader" } else { "writer" }, show(&f.name), f.scheme);
                guard(|| match d.open_file(&petscii(&f.name)) {
                    Ok(h) => Some(if reader { h.reader().map(|_| ()) } else { h.writer().map(|_| ()) }),
                    Err(_) => None,
                })
            }
            K::BadRecord => {
                let f = match taken {
                    Some(f) => f,
                    None => return Ok(()),
                };
                let n = f.built.as_ref().map(|b| b.records.len()).unwrap_or(1);
                let i = match a[2] % 4 {
                    0 => n,
                    1 => n + 1,
                    2 => n + 1000,
                    _ => usize::MAX / 512,
                };
                what = format!("reading record {} of {} of {}", i, n, show(&f.name));
                guard(|| match d.open_file(&petscii(&f.name)) {
                    Ok(h) => Some(h.record(i).map(|_| ())),
                    Err(_) => None,
                })
            }
            K::BadSector => {
                let g = self.geo;
                let l: Loc = match a[1] % 6 {
                    0 => (0, 0),
                    1 => (g.tracks + 1, 0),
                    2 => (1 + (a[2] % g.tracks as u32) as u8, g.sectors(1 + (a[2] % g.tracks as u32) as u8)),
                    3 => (255, 255),
                    4 => (1, 255),
                    _ => (g.tracks, g.sectors(g.tracks)),
                };
                let good: Loc = g.loc_of(a[2] as usize % g.total_sectors());
                let (bad, fine) = (loc!(d, l), loc!(d, good));
                match a[0] % 4 {
                    0 => {
                        what = format!("reading sector {:?}", l);
                        guard(|| Some(d.read_sector(bad).map(|_| ())))
                    }
                    1 => {
                        what = format!("writing sector {:?}", l);
                        guard(|| Some(d.write_sector(bad, &[0x77; 256])))
                    }
                    _ => {
                        let n = [0usize, 1, 255, 257, 512][a[3] as usize % 5];
                        what = format!("writing {} bytes to sector {:?}", n, good);
                        guard(|| Some(d.write_sector(fine, &vec![0x77; n])))
                    }
                }
            }
            K::BadFormat => {
                let n = vec![b'N'; 17 + (a[0] % 3) as usize * 7];
                match (a[1] % 5, taken) {
                    (0, _) => {
                        what = format!("giving the disk a name of {} characters", n.len());
                        guard(|| {
                            let old = match d.header_mut() {
                                Ok(h) => std::mem::replace(&mut h.disk_name, petscii(&n)),
                                Err(_) => return None,
                            };
                            let r = d.flush_header();
                            if let Ok(h) = d.header_mut() {
                                h.disk_name = old;
                            }
                            Some(r)
                        })
                    }
                    (1, Some(f)) => {
                        what = format!("writing an entry with a name of {} characters", n.len());
                        guard(|| match d.find_directory_entry(&petscii(&f.name)) {
                            Ok(mut e) => {
                                e.filename = petscii(&n);
                                e.file_attributes.locked_flag ^= true;
                                Some(d.write_directory_entry(&e))
                            }
                            Err(_) => None,
                        })
                    }
                    (2, Some(f)) => {
                        what = "writing an entry without a place".into();
                        guard(|| match d.find_directory_entry(&petscii(&f.name)) {
                            Ok(mut e) => {
                                e.position = None;
                                e.file_attributes.locked_flag ^= true;
                                Some(d.write_directory_entry(&e))
                            }
                            Err(_) => None,
                        })
                    }
                    _ => {
                        what = format!("formatting with a name of {} characters", n.len());
                        guard(|| Some(d.write_format(&petscii(&n), &Id::from_bytes(b"XX"))))
                    }
                }
            }
            K::BadImage => {
                what = "opening an image of impossible size".into();
                let p = dev::scratch().join(format!("bad{}.{}", self.worker, ["d64", "d71", "d81", "img"][a[0] as usize % 4]));
                let sizes = [
                    1usize, 255, 174_847, 174_849, 175_532, 196_609, 349_695, 349_697, 351_063, 819_199, 819_201, 822_399,
                    174_848 * 2 + 1, 100_000,
                ];
                let size = sizes[a[1] as usize % sizes.len()];
                let data: Vec<u8> = (0..size).map(|i| (i * 7) as u8).collect();
                let _ = std::fs::create_dir_all(dev::scratch());
                std::fs::write(&p, &data).expect("scratch");
                let writable = a[2] & 1 == 1;
                let r = guard(|| Some(cbm::disk::open(&p, writable).map(|_| ())));
                let after = std::fs::read(&p).expect("scratch");
                let _ = std::fs::remove_file(&p);
                if after != data {
                    return self.fail(&["C08"], "refused", format!("opening a {} byte file changed it", size));
                }
                r
            }
            K::Unformatted => {
                what = "using an unformatted disk".into();
                let geo = self.geo;
                let r = guard(|| -> io::Result<Vec<(&'static str, bool)>> {
                    let mut d = dev::blank_memory(&GEOS[4 + (geo.errors as usize)])?;
                    let mut v = vec![];
                    v.push(("create", d.create_file(&petscii(b"A"), FileType::PRG, LScheme::Linear).is_ok()));
                    v.push(("open", d.open_file(&petscii(b"A")).is_ok()));
                    v.push(("rename", d.rename(&petscii(b"A"), &petscii(b"B")).is_ok()));
                    v.push(("directory", d.directory().is_ok()));
                    v.push(("validate", d.validate().is_ok()));
                    v.push(("blocks_free", d.blocks_free().is_ok()));
                    v.push(("header", d.header().is_ok()));
                    v.push(("flush_header", d.flush_header().is_ok()));
                    let img = dev::dump(&GEOS[4 + (geo.errors as usize)], &d)?;
                    v.push(("leaving it blank", img.iter().any(|b| *b != 0)));
                    Ok(v)
                });
                match r {
                    Ok(Ok(v)) => {
                        if let Some((n, _)) = v.iter().find(|x| x.1) {
                            return self.fail(&["C08"], "unformatted", format!("unformatted disk: {} was not refused", n));
                        }
                        Ok(None)
                    }
                    Ok(Err(_)) => Ok(None),
                    Err(c) => Err(c),
                }
            }
            _ => return Ok(()),
        };
        let result = self.caught(result)?;
        let doubled = op.k == K::BadName && (what.ends_with("again") || what.ends_with("with padding") || what.contains(" to \""));
        match result {
            None => return Ok(()),
            Some(Ok(())) => {
                // (With a name that is taken the listing has gone wrong as well.)
                let o: &[&str] = if doubled { &["C08", "C07", "C14"] } else { &["C08", "C07"] };
                return self.fail(o, "accepted", format!("{} was not refused", what));
            }
            Some(Err(_)) => {}
        }
        self.stats.hit("refusals");
        self.capture()?;
        if self.img[..] != before[..] {
            let at = (0..before.len()).find(|i| self.img[*i] != before[*i]).unwrap_or(0);
            let l = if at < self.geo.data_size() { self.geo.loc_of(at / 256) } else { (0, 0) };
            return self.fail(
                &["C08", "C07"],
                "refused",
                format!("{} was refused but changed byte {:#x} of sector {:?}", what, at % 256, l),
            );
        }
        let now = self.view_small()?;
        if let Some(d) = diff(&seen, &now) {
            return self.fail(&["C08", "C07"], "refused", format!("{} was refused but the disk changed: {}", what, d));
        }
        Ok(())
    }

    fn view_small(&mut self) -> R<Vec<String>> {
        self.seam.borrow_mut().armed = false;
        let r = guard(|| view(self.d(), false));
        self.caught(r)
    }

    // ---- the end ----

    /// Faults have stopped: everything must come to rest in the right state.
    pub fn finish(&mut self) -> R<()> {
        self.seam.borrow_mut().faults.clear();
        self.seam.borrow_mut().corrupt_at = None;
        self.kill = None;
        if self.disk.is_none() {
            return Ok(());
        }
        let mut rounds = self.writers.len() + 2;
        while !self.writers.is_empty() {
            self.step(&Op::new(K::Flush, 0, 0, 0, 0))?;
            self.step(&Op::new(K::Close, 0, 0, 0, 0))?;
            rounds -= 1;
            if rounds == 0 && !self.writers.is_empty() {
                return self.fail(&["C07", "C01"], "close", "a writer cannot be flushed and closed after the faults stopped".into());
            }
        }
        self.capture()?;
        self.check_listing()?;
        let mut rng = Rng::new(hash2(self.scn_seed, 4242));
        // Streams left open are read to their end.
        for i in (0..self.exports.len()).rev() {
            for _ in 0..2000 {
                let open = self.exports.len();
                self.export_some(i, 300 + rng.below(6000) as usize)?;
                if self.exports.len() < open || self.exports[i].eof {
                    break;
                }
            }
        }
        for i in (0..self.readers.len()).rev() {
            for _ in 0..1000 {
                let open = self.readers.len();
                self.read_some(i, 300 + rng.below(6000) as usize)?;
                if self.readers.len() < open || self.readers[i].eof {
                    break;
                }
            }
        }
        for f in self.files.clone() {
            match f.scheme {
                Scheme::Linear | Scheme::Seq => {
                    let chunk = *rng.pick(&[0usize, 1, 7, 253, 254, 255, 256, 1000, 4096]);
                    let chunk = if f.accepted > 20_000 && chunk < 100 { 0 } else { chunk };
                    self.read_all(f.uid, chunk, false)?;
                }
                _ => {}
            }
            if f.built.is_some() {
                self.check_special(&f, self.is("C12"))?;
            }
        }
        if self.is("C07") {
            // Still fully usable: a new file can be created, written and read.
            let (sure, _) = self.free_space();
            if sure > 3 && self.dir_room() && !self.stale_counts {
                self.step(&Op::new(K::Create, 20, 0, 2, 0))?;
                self.step(&Op::new(K::Write, self.writers.len().max(1) as u32 - 1, 300, 0, 0))?;
                self.step(&Op::new(K::Close, 0, 0, 0, 0))?;
                let uid = self.files.last().unwrap().uid;
                self.read_all(uid, 0, false)?;
            }
        }
        Ok(())
    }
}

impl World {
    /// Put the world on a different image, as after a crash and restart.  The model is cut down to
    /// what the image lists.
    pub fn restart(&mut self, img: Vec<u8>) -> R<()> {
        self.readers.clear();
        self.exports.clear();
        self.handles.clear();
        self.iters.clear();
        self.failed = None;
        self.seam.borrow_mut().faults.clear();
        self.seam.borrow_mut().armed = false;
        // The old process is gone: nothing its writers would still do matters.
        let ws = std::mem::take(&mut self.writers);
        let d = self.disk.take();
        let r = guard(move || {
            drop(ws);
            drop(d);
        });
        self.caught(r)?;
        self.img = Rc::new(img);
        self.parsed = Rc::new(parse(&self.geo, &self.img));
        let parsed = self.parsed.clone();
        let img = self.img.clone();
        let geo = self.geo;
        let mut pool = std::mem::take(&mut self.files);
        pool.append(&mut self.graveyard);
        let mut files = vec![];
        for p in &parsed.files {
            let stored = chain_bytes(&geo, &img, p.e.first);
            let fits = |f: &MFile, exact: bool| {
                (p.e.name == f.name || (!exact && f.dur_names.contains(&p.e.name)))
                    && f.had(p.e.attr)
                    && p.e.extra == f.extra
                    && (f.scheme != Scheme::Linear
                        || stored.as_ref().map(|b| b.len() <= f.accepted && content::mismatch(f.uid, 0, b).is_none()) == Ok(true))
            };
            let i = pool.iter().position(|f| fits(f, true)).or_else(|| pool.iter().position(|f| fits(f, false)));
            let mut f = match i {
                Some(i) => pool.remove(i),
                None => return Err(Stop::Diverged(format!("{} is not what any file could be after the crash", show(&p.e.name)))),
            };
            f.name = p.e.name.clone();
            f.attr = p.e.attr;
            f.attrs.clear();
            if let (Scheme::Linear, Ok(b)) = (f.scheme, stored) {
                f.accepted = b.len();
                f.flushed = b.len();
                f.dur = Some(b.len());
            }
            f.dur_names = vec![f.name.clone()];
            f.size_off = true;
            files.push(f);
        }
        self.files = files;
        let issues = fsck(&self.geo, &self.img, &self.parsed);
        if issues.iter().any(|i| matches!(i, Issue::Count(_))) {
            self.stale_counts = true;
        }
        if !issues.is_empty() {
            self.leaky = true;
        }
        self.stats.hit("restarts");
        let mapped = self.path.is_some();
        self.open_fresh(mapped)
    }

    pub fn slot_of(&self, parsed: &Parsed, name: &[u8]) -> Option<SlotPos> {
        parsed.find(name).map(|f| f.e.pos)
    }
}

impl Drop for World {
    fn drop(&mut self) {
        {
            let mut s = self.seam.borrow_mut();
            s.armed = false;
            s.faults.clear();
            s.corrupt_at = None;
        }
        if self.poisoned {
            for w in self.writers.drain(..) {
                std::mem::forget(w);
            }
            for r in self.readers.drain(..) {
                std::mem::forget(r);
            }
            for r in self.exports.drain(..) {
                std::mem::forget(r);
            }
            for r in self.handles.drain(..) {
                std::mem::forget(r);
            }
            std::mem::forget(self.disk.take());
        } else {
            let ws = std::mem::take(&mut self.writers);
            let _ = guard(move || drop(ws));
        }
        seam::uninstall();
        if let Some(ref p) = self.path {
            let _ = std::fs::remove_file(p);
        }
    }
}
