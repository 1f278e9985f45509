//! C09: an image opened read-only next to a writable copy of the same bytes in memory.  Whatever is
//! asked of the read-only disk, the file keeps its bytes, modification is refused, and reading
//! gives what the writable copy gives.

use std::fs;
use std::io::{self, Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::Id;
use cbm::Petscii;

use crate::base::Sim;
use crate::content;
use crate::dev::{self, diff, err_text, file_line, guard, show, view, D};
use crate::loc;
use crate::prefill;
use crate::refimg::trim_pad;
use crate::rng::{hash_bytes, Rng};
use crate::run::Outcome;
use crate::scenario::{Op, Scn, K};
use crate::seam::Fault;
use crate::world::{file_type, R};

struct Pair<T> {
    ro: T,
    rw: T,
}

struct Wr {
    w: Box<dyn Write>,
    /// Bytes were accepted and no error has told the caller otherwise.
    unreported: bool,
}

struct Ro {
    s: Sim,
    img: Vec<u8>,
    path: PathBuf,
    ro: Option<D>,
    rw: D,
    readers: Vec<Pair<Box<dyn Read>>>,
    handles: Vec<Pair<File>>,
    writers: Vec<Wr>,
    names: Vec<Vec<u8>>,
    initial: Vec<String>,
    renamed: bool,
}

const ENDS: [&str; 3] = ["lower", "UPPER", "none"];

fn build_image(geo: &crate::geo::Geo, scn: &Scn) -> Vec<u8> {
    let (mut img, _) = prefill::build(geo, &scn.cfg, &scn.pre, scn.seed);
    match scn.cfg.start {
        1 => img.iter_mut().for_each(|b| *b = 0),
        2 => {
            let mut rng = Rng::new(scn.seed ^ 0xDA);
            for _ in 0..4 {
                let l = geo.loc_of(rng.below(geo.total_sectors() as u64) as usize);
                let o = geo.off(l) + rng.below(4) as usize;
                img[o] = rng.next() as u8;
            }
        }
        _ => {}
    }
    img
}

impl Ro {
    fn open(&mut self, way: u32) -> R<()> {
        // A mapped file must be gone before it is renamed or written.
        let ext = match ENDS[way as usize % 3] {
            "lower" => format!(".{}", self.s.geo.ext()),
            "UPPER" => format!(".{}", self.s.geo.ext().to_uppercase()),
            _ => String::from("-image"),
        };
        let path = self.s.path(&format!("-ro{}", ext));
        if path != self.path {
            let _ = fs::rename(&self.path, &path);
            self.path = path.clone();
        }
        let plain = way & 4 != 0;
        let r = if plain {
            guard(|| cbm::disk::open(&path, false))
        } else {
            // The process may not write the file.
            let _ = fs::set_permissions(&path, fs::Permissions::from_mode(0o444));
            unsafe {
                libc::setfsuid(65534);
            }
            let denied = fs::OpenOptions::new().write(true).open(&path).is_err();
            let readable = fs::File::open(&path).is_ok();
            if denied && readable {
                self.s.stats.hit("opened without write permission");
                let r = guard(|| cbm::disk::open(&path, false));
                unsafe {
                    libc::setfsuid(0);
                }
                r
            } else {
                unsafe {
                    libc::setfsuid(0);
                }
                guard(|| cbm::disk::open(&path, false))
            }
        };
        match self.s.caught(r)? {
            Ok(d) => self.ro = Some(d),
            Err(e) => return self.s.fail("open", format!("read-only open failed: {}", err_text(&e))),
        }
        Ok(())
    }

    fn d(&self) -> &D {
        self.ro.as_ref().unwrap()
    }

    fn fired(&self) -> bool {
        self.s.seam.borrow().fired > 0
    }

    /// Run on the read-only disk with the device watched.
    fn on<T>(&mut self, f: impl FnOnce(&mut D) -> T) -> R<T> {
        self.s.arm(5_000_000);
        let d = self.ro.as_mut().unwrap();
        let r = guard(|| f(d));
        self.s.disarm();
        self.s.caught(r)
    }

    fn same<T: PartialEq + std::fmt::Debug>(&self, what: &str, a: T, b: T) -> R<()> {
        if a != b && !self.fired() {
            let (a, b) = (format!("{:?}", a), format!("{:?}", b));
            return self.s.fail(
                "reading",
                format!("{} differs: read-only {:.200} writable {:.200}", what, a, b),
            );
        }
        Ok(())
    }

    fn must_refuse<T>(&mut self, what: &str, r: io::Result<T>) -> R<()> {
        self.s.stats.hit("work");
        self.s.stats.hit("modifications attempted");
        match r {
            Ok(_) => self.s.fail("not refused", format!("{} succeeded on a read-only image", what)),
            Err(_) => Ok(()),
        }
    }

    fn name(&self, i: u32) -> Option<Vec<u8>> {
        if self.names.is_empty() {
            None
        } else {
            Some(self.names[i as usize % self.names.len()].clone())
        }
    }

    fn open_pair(&mut self, i: u32) -> R<Option<Pair<File>>> {
        let n = match self.name(i) {
            Some(n) => Petscii::from_bytes(&n),
            None => return Ok(None),
        };
        let a = self.on(|d| d.open_file(&n))?;
        let b = self.s.caught(guard(|| self.rw.open_file(&n)))?;
        match (a, b) {
            (Ok(a), Ok(b)) => Ok(Some(Pair { ro: a, rw: b })),
            (a, b) => {
                self.same("opening a file", a.err().map(|e| err_text(&e)), b.err().map(|e| err_text(&e)))?;
                Ok(None)
            }
        }
    }

    fn check_file(&mut self) -> R<()> {
        let now = fs::read(&self.path).expect("scratch image");
        if now != self.img {
            let at = now.iter().zip(&self.img).position(|(a, b)| a != b);
            return self.s.fail(
                "modified",
                format!("the read-only file changed (length {}, first difference {:?})", now.len(), at),
            );
        }
        Ok(())
    }

    fn check_view(&mut self) -> R<()> {
        if !self.writers.is_empty() || self.renamed {
            return Ok(());
        }
        let faults = std::mem::take(&mut self.s.seam.borrow_mut().faults);
        let v = self.s.caught(guard(|| view(self.ro.as_ref().unwrap(), true)))?;
        self.s.seam.borrow_mut().faults = faults;
        if let Some(m) = diff(&self.initial, &v) {
            return self.s.fail("view", format!("the read-only disk looks different: {}", m));
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R<()> {
        let a = op.a;
        let mut modifies = false;
        match op.k {
            K::Create => {
                let n = Petscii::from_bytes(&content::name(a[0]));
                let (ty, _) = file_type(a[1]);
                let r = self.on(|d| d.create_file(&n, ty, LScheme::Linear).map(|_| ()))?;
                self.must_refuse("creating a file", r)?;
                modifies = true;
            }
            K::Rename => {
                if let Some(n) = self.name(a[0]) {
                    let (n, m) = (Petscii::from_bytes(&n), Petscii::from_bytes(&content::name(a[1])));
                    let r = self.on(|d| d.rename(&n, &m))?;
                    self.must_refuse("renaming", r)?;
                    modifies = true;
                }
            }
            K::Delete => {
                let f = if a[1] == 1 && !self.handles.is_empty() {
                    let i = a[0] as usize % self.handles.len();
                    Some(self.handles.remove(i).ro)
                } else {
                    self.open_pair(a[0])?.map(|p| p.ro)
                };
                if let Some(mut f) = f {
                    let r = self.on(|_| f.delete())?;
                    self.must_refuse("deleting", r)?;
                    modifies = true;
                }
            }
            K::Format => {
                let n = Petscii::from_bytes(&content::name(a[0]));
                let r = self.on(|d| d.write_format(&n, &Id::from_bytes(b"ID")))?;
                self.must_refuse("formatting", r)?;
                modifies = true;
            }
            K::SetName => {
                let n = Petscii::from_bytes(&content::name(a[0]));
                let r = self.on(|d| -> Option<io::Result<()>> {
                    match d.header_mut() {
                        Ok(h) => h.disk_name = n,
                        Err(_) => return None,
                    }
                    Some(d.flush_header())
                })?;
                if let Some(r) = r {
                    self.must_refuse("changing the disk name", r)?;
                    self.renamed = true;
                    modifies = true;
                }
            }
            K::RawWrite => {
                let l = self.s.geo.loc_of(a[0] as usize % self.s.geo.total_sectors());
                let ll = loc!(self.d(), l);
                let r = self.on(|d| d.write_sector(ll, &[a[1] as u8; 256]))?;
                self.must_refuse("writing a sector", r)?;
                if self.s.geo.errors {
                    let r = self.on(|d| d.blocks_ref_mut().error_table_mut().map(|_| ()))?;
                    self.must_refuse("changing the error table", r)?;
                }
                modifies = true;
            }
            K::FlipBam => {
                // Allocating in memory is possible; writing it back is not.
                let l = self.s.geo.loc_of(a[0] as usize % self.s.geo.total_sectors());
                let ll = loc!(self.d(), l);
                let r = self.on(|d| -> Option<io::Result<()>> {
                    let bam = d.bam().ok()?;
                    let mut bam = bam.borrow_mut();
                    let ok = if a[1] & 1 == 0 { bam.allocate(ll) } else { bam.free(ll) };
                    ok.ok()?;
                    Some(bam.flush())
                })?;
                if let Some(r) = r {
                    self.must_refuse("writing the free map", r)?;
                    modifies = true;
                    self.renamed = true;
                }
            }
            K::BadName => {
                // Writing back an entry.
                if let Some(n) = self.name(a[0]) {
                    let n = Petscii::from_bytes(&n);
                    let r = self.on(|d| match d.find_directory_entry(&n) {
                        Ok(mut e) => {
                            e.file_size ^= 5;
                            Some(d.write_directory_entry(&e))
                        }
                        Err(_) => None,
                    })?;
                    if let Some(r) = r {
                        self.must_refuse("writing a directory entry", r)?;
                        modifies = true;
                    }
                }
            }
            K::OpenWriter => {
                let f = if a[1] == 1 && !self.handles.is_empty() {
                    let i = a[0] as usize % self.handles.len();
                    Some(self.handles.remove(i).ro)
                } else {
                    self.open_pair(a[0])?.map(|p| p.ro)
                };
                if let Some(f) = f {
                    let r = self.on(|_| f.writer())?;
                    if let Ok(w) = r {
                        self.writers.push(Wr { w, unreported: false });
                    }
                    modifies = true;
                }
            }
            K::Write => {
                if !self.writers.is_empty() {
                    let i = a[0] as usize % self.writers.len();
                    let mut w = self.writers.remove(i);
                    let data = content::bytes(7, 0, a[1] as usize);
                    let step = if a[2] == 0 { data.len().max(1) } else { a[2] as usize };
                    for c in data.chunks(step) {
                        let r = self.on(|_| w.w.write(c))?;
                        match r {
                            Ok(n) => w.unreported |= n > 0,
                            Err(_) => {
                                w.unreported = false;
                                break;
                            }
                        }
                    }
                    self.writers.push(w);
                    self.s.stats.hit("work");
                    modifies = true;
                }
            }
            K::Flush => {
                if !self.writers.is_empty() {
                    let i = a[0] as usize % self.writers.len();
                    let mut w = self.writers.remove(i);
                    let r = self.on(|_| w.w.flush())?;
                    if w.unreported {
                        self.must_refuse("flushing accepted bytes", r)?;
                        w.unreported = false;
                    }
                    self.writers.push(w);
                    modifies = true;
                }
            }
            K::Close => {
                if !self.writers.is_empty() {
                    let i = a[0] as usize % self.writers.len();
                    let w = self.writers.remove(i);
                    self.on(|_| drop(w))?;
                    modifies = true;
                }
            }
            K::OpenFile => {
                if let Some(p) = self.open_pair(a[0])? {
                    self.handles.push(p);
                    if self.handles.len() > 6 {
                        self.handles.remove(0);
                    }
                }
            }
            K::DropHandle => {
                if !self.handles.is_empty() {
                    let i = a[0] as usize % self.handles.len();
                    self.handles.remove(i);
                }
            }
            K::OpenReader | K::OpenExport => {
                if let Some(p) = self.open_pair(a[0])? {
                    let export = op.k == K::OpenExport;
                    let get = move |f: &File| -> io::Result<Box<dyn Read>> {
                        match f {
                            File::GEOSSequential(g) | File::GEOSVLIR(g) if export => {
                                Ok(Box::new(g.reader()?) as Box<dyn Read>)
                            }
                            f => f.reader(),
                        }
                    };
                    let x = self.on(|_| get(&p.ro))?;
                    let y = self.s.caught(guard(|| get(&p.rw)))?;
                    match (x, y) {
                        (Ok(x), Ok(y)) => {
                            self.readers.push(Pair { ro: x, rw: y });
                            if self.readers.len() > 6 {
                                self.readers.remove(0);
                            }
                        }
                        (x, y) => self.same(
                            "opening a reader",
                            x.err().map(|e| err_text(&e)),
                            y.err().map(|e| err_text(&e)),
                        )?,
                    }
                }
            }
            K::Read | K::Export => {
                if !self.readers.is_empty() {
                    let i = a[0] as usize % self.readers.len();
                    let mut p = self.readers.remove(i);
                    let mut x = vec![0; a[1].min(60_000) as usize];
                    let mut y = x.clone();
                    let rx = self.on(|_| p.ro.read(&mut x))?;
                    if self.fired() {
                        return Ok(());
                    }
                    let ry = self.s.caught(guard(|| p.rw.read(&mut y)))?;
                    match (rx, ry) {
                        (Ok(n), Ok(m)) => {
                            self.same("read", &x[..n], &y[..m])?;
                            self.s.stats.add("bytes compared", n as u64);
                            self.s.stats.hit("work");
                            self.readers.push(p);
                        }
                        (rx, ry) => self.same(
                            "read",
                            rx.map_err(|e| err_text(&e)).map_err(|e| e.to_string()),
                            ry.map_err(|e| err_text(&e)).map_err(|e| e.to_string()),
                        )?,
                    }
                }
            }
            K::ReadAll | K::Record | K::Info => {
                if let Some(p) = self.open_pair(a[0])? {
                    let x = self.on(|_| file_line(&p.ro))?;
                    let y = self.s.caught(guard(|| file_line(&p.rw)))?;
                    self.same("file contents", x, y)?;
                    let text = |f: &File| {
                        let mut v = vec![];
                        let r = f.details(&mut v, 2).map_err(|e| err_text(&e));
                        let g = f.geos_info().map(|i| i.map(|i| format!("{}", i))).map_err(|e| err_text(&e));
                        (r, hash_bytes(&v), g)
                    };
                    let x = self.on(|_| text(&p.ro))?;
                    let y = self.s.caught(guard(|| text(&p.rw)))?;
                    self.same("file details", x, y)?;
                    self.s.stats.hit("work");
                }
            }
            K::Dir | K::Validate => {
                if self.writers.is_empty() && !self.renamed {
                    let x = self.on(|d| view(d, op.k == K::Validate))?;
                    let y = self.s.caught(guard(|| view(&self.rw, op.k == K::Validate)))?;
                    if !self.fired() {
                        if let Some(m) = diff(&y, &x) {
                            return self.s.fail("reading", format!("read-only disk differs: {}", m));
                        }
                    }
                    self.s.stats.hit("work");
                }
            }
            K::RawRead => {
                let l = self.s.geo.loc_of(a[0] as usize % self.s.geo.total_sectors());
                let ll = loc!(self.d(), l);
                let x = self.on(|d| d.read_sector(ll).map_err(|e| err_text(&e)))?;
                let y = self.rw.read_sector(ll).map_err(|e| err_text(&e));
                self.same("sector", x, y)?;
            }
            K::Reinit => {
                self.on(|d| d.initialize())?;
                if self.fired() {
                    // The disk may now count as unformatted.
                    self.s.seam.borrow_mut().faults.clear();
                    self.on(|d| d.initialize())?;
                }
                self.renamed = false;
                self.check_view()?;
            }
            K::Reopen => {
                self.readers.clear();
                self.handles.clear();
                let ws = std::mem::take(&mut self.writers);
                self.on(|_| drop(ws))?;
                self.ro = None;
                self.check_file()?;
                self.s.seam.borrow_mut().faults.clear();
                self.open(a[0])?;
                self.renamed = false;
                self.check_view()?;
            }
            K::Fault => {
                self.s.seam.borrow_mut().faults.push(Fault { mask: 1, after: a[1], burst: a[2].max(1) });
            }
            K::Heal => self.s.seam.borrow_mut().faults.clear(),
            _ => {}
        }
        let fired = self.fired();
        let n = self.s.seam.borrow().accesses;
        self.s.trace(op, n * 2 + fired as u64);
        if modifies {
            if self.renamed && self.writers.is_empty() {
                let faults = std::mem::take(&mut self.s.seam.borrow_mut().faults);
                self.on(|d| d.initialize())?;
                self.s.seam.borrow_mut().faults = faults;
                self.renamed = false;
            }
            self.check_file()?;
            self.check_view()?;
        }
        self.s.stats.hit("ops");
        Ok(())
    }

    fn finish(&mut self) -> R<()> {
        self.s.seam.borrow_mut().faults.clear();
        let ws = std::mem::take(&mut self.writers);
        self.on(|_| drop(ws))?;
        if self.renamed {
            self.on(|d| d.initialize())?;
            self.renamed = false;
        }
        self.check_file()?;
        self.check_view()
    }
}

pub fn execute(scn: &Scn, worker: usize, trace: bool) -> Outcome {
    let s = Sim::new(scn, worker, trace);
    let img = build_image(&s.geo, scn);
    let _ = fs::create_dir_all(dev::scratch());
    let _ = fs::set_permissions(dev::scratch(), fs::Permissions::from_mode(0o755));
    let path = s.path("-ro-first");
    for e in ["first", "image"] {
        let _ = fs::remove_file(s.path(&format!("-ro-{}", e)));
    }
    fs::write(&path, &img).expect("scratch image");
    {
        let mut m = s.seam.borrow_mut();
        m.reset_image(&img);
        m.mapped = true;
    }
    let rw = match guard(|| dev::mem_disk(&s.geo, &img)) {
        Ok(Ok(d)) => d,
        _ => {
            let (stats, log) = s.done();
            return Outcome { stop: Some(crate::world::Stop::Diverged("memory image".into())), stats, log };
        }
    };
    let mut w = Ro {
        s,
        img,
        path,
        ro: None,
        rw,
        readers: vec![],
        handles: vec![],
        writers: vec![],
        names: vec![],
        initial: vec![],
        renamed: false,
    };
    let r = (|| -> R<()> {
        w.open(scn.cfg.flags)?;
        w.initial = w.s.caught(guard(|| view(&w.rw, true)))?;
        w.names = w
            .rw
            .iter()
            .take(400)
            .filter_map(|e| e.ok())
            .map(|e| trim_pad(e.filename.as_bytes()))
            .collect();
        w.check_view()?;
        for (i, op) in scn.ops.iter().enumerate() {
            w.s.step_no = i;
            w.s.note(|| format!("{:3} {} {:?}", i, op.k.name(), op.a));
            w.step(op)?;
        }
        w.s.step_no = scn.ops.len();
        w.finish()
    })();
    let _ = guard(|| {
        w.readers.clear();
        w.handles.clear();
        w.writers.clear();
        w.ro = None;
    });
    let _ = fs::remove_file(&w.path);
    let _ = show;
    let (stats, log) = w.s.done();
    Outcome { stop: r.err(), stats, log }
}
