//! C15: formatting whatever an image holds, and creating image files.

use std::fs;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};

use cbm::disk::file::{FileOps, Scheme as LScheme};
use cbm::disk::{Id, D64, D71, D81};
use cbm::Petscii;

use crate::base::Sim;
use crate::content;
use crate::corrupt;
use crate::dev::{self, diff, err_text, guard, show, view, D};
use crate::geo::{drive_alloc, Geo, Kind, GEOS};
use crate::loc;
use crate::refimg::{fsck, parse, trim_pad};
use crate::rng::hash_bytes;
use crate::run::Outcome;
use crate::scenario::{Op, Scn, K};
use crate::seam::{self, Fault};
use crate::world::{file_type, R};

struct Fx {
    s: Sim,
    disk: Option<D>,
    path: Option<PathBuf>,
}

fn create_image(geo: &Geo, path: &Path, new: bool) -> io::Result<D> {
    Ok(match geo.kind {
        Kind::D64 if geo.tracks == 40 => Box::new(D64::create(path, D64::geometry_40_tracks(geo.errors), new)?),
        Kind::D64 => Box::new(D64::create(path, D64::geometry(geo.errors), new)?),
        Kind::D71 => Box::new(D71::create(path, D71::geometry(geo.errors), new)?),
        Kind::D81 => Box::new(D81::create(path, D81::geometry(geo.errors), new)?),
    })
}

fn disk_name(i: u32) -> Vec<u8> {
    match i % 70 {
        64 => vec![],
        65 => vec![0xA0, b'X'],
        _ => content::name(i),
    }
}

impl Fx {
    fn call<T>(&mut self, f: impl FnOnce(&mut D) -> T) -> R<T> {
        self.s.arm(3_000_000);
        let d = self.disk.as_mut().unwrap();
        let r = guard(|| f(d));
        self.s.disarm();
        let n = self.s.seam.borrow().op_deltas.len();
        self.s.stats.add("sector writes", n as u64);
        self.s.caught(r)
    }

    fn fired(&self) -> bool {
        self.s.seam.borrow().fired > 0
    }

    fn image(&mut self) -> R<Vec<u8>> {
        match self.path {
            Some(ref p) => Ok(fs::read(p).expect("scratch image")),
            None => {
                let r = guard(|| dev::dump(&self.s.geo, self.disk.as_ref().unwrap()));
                match self.s.caught(r)? {
                    Ok(v) => Ok(v),
                    Err(e) => self.s.fail("dump", format!("cannot read the image: {}", err_text(&e))),
                }
            }
        }
    }

    fn open(&mut self, img: &[u8], mapped: bool) -> R<()> {
        self.disk = None;
        let geo = self.s.geo;
        {
            let mut m = self.s.seam.borrow_mut();
            m.mapped = mapped;
            m.reset_image(img);
        }
        let r = if mapped {
            let p = self.s.path(&format!("-f.{}", geo.ext()));
            fs::write(&p, img).expect("scratch image");
            self.path = Some(p.clone());
            guard(|| cbm::disk::open(&p, true))
        } else {
            self.path = None;
            guard(|| dev::mem_disk(&geo, img))
        };
        match self.s.caught(r)? {
            Ok(d) => {
                self.disk = Some(d);
                Ok(())
            }
            Err(e) => self.s.fail("open", format!("opening failed: {}", err_text(&e))),
        }
    }

    /// Everything that must hold of the disk just formatted.
    fn check(&mut self, name: &[u8], id: [u8; 2]) -> R<()> {
        let geo = self.s.geo;
        let img = self.image()?;
        self.s.stats.hit("formats checked");
        // What a power loss would leave.
        let durable = self.s.seam.borrow().durable.clone();
        if durable[..geo.data_size()] != img[..geo.data_size()] {
            let at = durable.iter().zip(&img).position(|(a, b)| a != b).unwrap_or(0);
            return self.s.fail(
                "not durable",
                format!("formatting reported success but byte {} in sector {:?} would not survive a power loss", at, geo.loc_of(at / 256)),
            );
        }
        // The same as formatting a blank disk.
        let (n, i) = (Petscii::from_bytes(name), Id::from_bytes(&id));
        let r = guard(|| -> io::Result<(Vec<u8>, Vec<String>)> {
            let mut blank = dev::blank_memory(&geo)?;
            blank.write_format(&n, &i)?;
            Ok((dev::dump(&geo, &blank)?, view(&blank, true)))
        });
        let (fresh, fresh_view) = match self.s.caught(r)? {
            Ok(x) => x,
            Err(e) => return self.s.fail("format", format!("formatting a blank image failed: {}", err_text(&e))),
        };
        if let Some(at) = (0..geo.data_size()).find(|i| img[*i] != fresh[*i]) {
            return self.s.fail(
                "left over",
                format!(
                    "byte {} of sector {:?} is {:02x}, on a formatted blank image {:02x}",
                    at % 256,
                    geo.loc_of(at / 256),
                    img[at],
                    fresh[at]
                ),
            );
        }
        let now = self.s.caught(guard(|| view(self.disk.as_ref().unwrap(), true)))?;
        if let Some(m) = diff(&fresh_view, &now) {
            return self.s.fail("view", format!("the formatted disk looks different from a fresh one: {}", m));
        }
        // And what a formatted disk is.
        let p = parse(&geo, &img);
        let issues = fsck(&geo, &img, &p);
        if !issues.is_empty() {
            return self.s.fail("inconsistent", format!("the formatted image has {:?}", &issues[..issues.len().min(4)]));
        }
        if !p.files.is_empty() || p.dir.len() != 1 || p.geos {
            return self.s.fail("not empty", format!("the formatted image lists {} files", p.files.len()));
        }
        if geo.sector(&img, geo.first_dir())[2..].iter().any(|b| *b != 0) {
            return self.s.fail("left over", "the first directory sector is not empty".into());
        }
        // Every byte the format prescribes.
        let reference = geo.fresh(name, id);
        if let Some(at) = (0..geo.data_size()).find(|i| reference[*i] != 0 && img[*i] != reference[*i]) {
            return self.s.fail(
                "layout",
                format!("byte {:#x} of sector {:?} is {:02x} after formatting, the drive's format has {:02x}", at % 256, geo.loc_of(at / 256), img[at], reference[at]),
            );
        }
        let total: usize = geo.std_locs().iter().filter(|l| geo.is_data_track(l.0)).count();
        let (no, io_) = (geo.name_off(), geo.id_off());
        if trim_pad(&img[no..no + 16]) != trim_pad(name) || img[io_..io_ + 2] != id {
            return self.s.fail("name", format!("name {} or id {:02x?} is not on the image", show(name), id));
        }
        let r = guard(|| -> io::Result<(Vec<u8>, [u8; 2], usize, usize, usize)> {
            let d = self.disk.as_ref().unwrap();
            let h = d.header()?;
            Ok((
                trim_pad(h.disk_name.as_bytes()),
                [h.disk_id[0], h.disk_id[1]],
                d.blocks_free()?,
                d.directory()?.len(),
                d.validate()?.len(),
            ))
        });
        match self.s.caught(r)? {
            Ok(got) => {
                let want = (trim_pad(name), id, total, 0, 0);
                if got != want {
                    return self.s.fail(
                        "report",
                        format!("after formatting: (name, id, free, files, errors) = {:?}, expected {:?}", got, want),
                    );
                }
            }
            Err(e) => return self.s.fail("report", format!("the formatted disk is not usable: {}", err_text(&e))),
        }
        // What the library tells about the format it has just laid out.
        let r = guard(|| -> io::Result<(usize, usize, Vec<(u8, u8)>)> {
            let d = self.disk.as_ref().unwrap();
            let f = d.disk_format()?;
            // (Bounded: an iterator that never ends is as wrong as one that ends early.)
            let all = f.location_iter().take(2 * geo.total_sectors()).map(|l| (l.0, l.1)).collect();
            Ok((f.total_data_blocks(), f.max_directory_entries(), all))
        });
        match self.s.caught(r)? {
            Ok((blocks, entries, all)) => {
                if blocks != total || entries != geo.max_entries() || all != geo.std_locs() {
                    return self.s.fail(
                        "report",
                        format!(
                            "the format claims {} blocks, {} entries and {} sectors, not {}, {} and {}",
                            blocks,
                            entries,
                            all.len(),
                            total,
                            geo.max_entries(),
                            geo.std_locs().len()
                        ),
                    );
                }
            }
            Err(e) => return self.s.fail("report", format!("the formatted disk has no format: {}", err_text(&e))),
        }
        // Whatever it was before, it is a plain disk now, and the drive's rule applies.
        let r = guard(|| self.disk.as_ref().unwrap().bam()?.borrow().next_free_block(None).map(|l| (l.0, l.1)));
        let got = self.s.caught(r)?.ok();
        let want = drive_alloc(&geo, false, &|l| geo.is_free(&img, l), None);
        if got != want {
            return self.s.fail("placement", format!("the first file would go to {:?}, the drive would take {:?}", got, want));
        }
        // The surviving image, opened anew.
        let r = guard(|| dev::mem_disk(&geo, &durable).map(|d| view(&d, true)));
        match self.s.caught(r)? {
            Ok(v) => {
                if let Some(m) = diff(&now, &v) {
                    return self.s.fail("view", format!("reopened after formatting: {}", m));
                }
            }
            Err(e) => return self.s.fail("open", format!("the formatted image cannot be opened: {}", err_text(&e))),
        }
        Ok(())
    }

    fn format(&mut self, name: &[u8], id: [u8; 2]) -> R<()> {
        let (n, i) = (Petscii::from_bytes(name), Id::from_bytes(&id));
        let r = self.call(|d| d.write_format(&n, &i))?;
        match r {
            Ok(()) => self.check(name, id),
            Err(_) if self.fired() => {
                self.s.stats.hit("formats that failed with a fault");
                Ok(())
            }
            Err(e) => self.s.fail("format", format!("formatting failed: {}", err_text(&e))),
        }
    }

    /// The formatted disk takes a file.
    fn use_it(&mut self, uid: u32, len: usize) -> R<()> {
        let name = Petscii::from_bytes(format!("USE{}", uid).as_bytes());
        let r = self.call(|d| -> io::Result<Vec<u8>> {
            let f = d.create_file(&name, file_type(uid).0, LScheme::Linear)?;
            let mut w = f.writer()?;
            w.write_all(&content::bytes(uid, 0, len))?;
            w.flush()?;
            drop(w);
            let mut v = vec![];
            d.open_file(&name)?.reader()?.read_to_end(&mut v)?;
            Ok(v)
        })?;
        match r {
            Ok(v) if v == content::bytes(uid, 0, len) => Ok(()),
            Ok(v) => self.s.fail("use", format!("a file on the formatted disk reads back wrongly ({} of {} bytes)", v.len(), len)),
            Err(_) if self.fired() => Ok(()),
            Err(e) => self.s.fail("use", format!("the formatted disk does not take a file: {}", err_text(&e))),
        }
    }

    fn create(&mut self, a: [u32; 4]) -> R<()> {
        let geo = GEOS[a[0] as usize % GEOS.len()];
        let new = a[1] & 1 == 1;
        let path = self.s.path(&format!("-c.{}", geo.ext()));
        let _ = fs::remove_file(&path);
        let existing: Option<Vec<u8>> = match a[2] % 5 {
            0 => None,
            1 => Some(vec![]),
            2 => Some(content::bytes(a[3], 0, geo.size())),
            3 => Some(content::bytes(a[3], 0, geo.size() + 1 + a[3] as usize % 100_000)),
            _ => Some(content::bytes(a[3], 0, a[3] as usize % geo.size())),
        };
        if let Some(ref e) = existing {
            fs::write(&path, e).expect("scratch file");
        }
        let fault = if a[1] & 14 == 14 { 1 + (a[1] >> 4) % 2 } else { 0 };
        seam::set_syscall_fault(fault);
        let r = guard(|| create_image(&geo, &path, new));
        let hit = seam::take_syscall_fault();
        match hit {
            1 => self.s.stats.hit("fault: file extension error"),
            2 => self.s.stats.hit("fault: mapping error"),
            _ => {}
        }
        let r = self.s.caught(r)?;
        self.s.stats.hit("image creations");
        self.s.stats.hit("work");
        match (r, new && existing.is_some()) {
            (Ok(_), true) => self.s.fail("create", "an existing file was accepted although a new one was required".into()),
            (Err(_), true) => {
                if fs::read(&path).ok() != existing {
                    return self.s.fail("create", "the existing file was touched although a new one was required".into());
                }
                Ok(())
            }
            (Err(_), false) if hit != 0 => Ok(()),
            (Err(e), false) => self.s.fail("create", format!("creating an image file failed: {}", err_text(&e))),
            (Ok(_), false) if hit != 0 => {
                // It claims to have worked all the same.
                let now = fs::read(&path).expect("scratch image");
                if now != vec![0; geo.size()] {
                    return self.s.fail("create", "success reported after a failed system call, but no blank image".into());
                }
                Ok(())
            }
            (Ok(mut d), false) => {
                let now = fs::read(&path).expect("scratch image");
                if now.len() != geo.size() || now.iter().any(|b| *b != 0) {
                    return self.s.fail(
                        "create",
                        format!("the new image has {} bytes ({} wanted), {} not zero", now.len(), geo.size(), now.iter().filter(|b| **b != 0).count()),
                    );
                }
                // And it is the image that is then worked on.
                let n = Petscii::from_bytes(&disk_name(a[3]));
                let r = guard(|| d.write_format(&n, &Id::from_bytes(b"CI")));
                if let Err(e) = self.s.caught(r)? {
                    return self.s.fail("format", format!("formatting the new image failed: {}", err_text(&e)));
                }
                let v = self.s.caught(guard(|| view(&d, true)))?;
                drop(d);
                let r = guard(|| cbm::disk::open(&path, a[3] & 1 == 0).map(|d| view(&d, true)));
                match self.s.caught(r)? {
                    Ok(w) => {
                        if let Some(m) = diff(&v, &w) {
                            return self.s.fail("create", format!("reopening the new image: {}", m));
                        }
                    }
                    Err(e) => return self.s.fail("create", format!("reopening the new image failed: {}", err_text(&e))),
                }
                let mut img = fs::read(&path).expect("scratch image");
                img.truncate(geo.data_size());
                let p = parse(&geo, &img);
                let issues = fsck(&geo, &img, &p);
                if !issues.is_empty() || !p.files.is_empty() {
                    return self.s.fail("inconsistent", format!("the new image, formatted, has {:?}", issues.first()));
                }
                Ok(())
            }
        }
    }

    fn step(&mut self, op: &Op) -> R<()> {
        let a = op.a;
        let name = Petscii::from_bytes(&content::name(a[0]));
        match op.k {
            K::Format => {
                let id = [b'0' + (a[1] % 40) as u8, [b'A', 0xA0, b' ', 0][(a[1] / 40) as usize % 4]];
                self.format(&disk_name(a[0]), id)?;
                if !self.fired() && a[1] % 3 == 0 {
                    self.use_it(a[1], a[1] as usize * 7)?;
                }
            }
            K::CreateImage => {
                // Its own device: not part of the watched disk.
                self.create(a)?;
            }
            K::Create => {
                let (ty, _) = file_type(a[1]);
                let _ = self.call(|d| -> io::Result<()> {
                    let f = d.create_file(&name, ty, LScheme::Linear)?;
                    let mut w = f.writer()?;
                    w.write_all(&content::bytes(a[0], 0, a[1] as usize * 30))
                })?;
            }
            K::Delete => {
                let _ = self.call(|d| -> io::Result<()> {
                    let e = d.iter().nth(a[0] as usize % 8).unwrap_or_else(|| Err(io::Error::from(io::ErrorKind::NotFound)))?;
                    d.open_file_from_entry(&e)?.delete()
                })?;
            }
            K::Rename => {
                let _ = self.call(|d| -> io::Result<()> {
                    let e = d.iter().next().unwrap_or_else(|| Err(io::Error::from(io::ErrorKind::NotFound)))?;
                    d.rename(&e.filename, &name)
                })?;
            }
            K::SetName => {
                let _ = self.call(|d| -> io::Result<()> {
                    d.header_mut()?.disk_name = name;
                    d.flush_header()
                })?;
            }
            K::Corrupt => {
                let mut img = self.image()?;
                let before = img.clone();
                corrupt::damage(&self.s.geo, &mut img, a);
                for i in 0..self.s.geo.total_sectors() {
                    if img[i * 256..i * 256 + 256] != before[i * 256..i * 256 + 256] {
                        let l = loc!(self.disk.as_ref().unwrap(), self.s.geo.loc_of(i));
                        let data = img[i * 256..i * 256 + 256].to_vec();
                        let _ = self.call(|d| d.write_sector(l, &data))?;
                        self.s.stats.hit("fault: stored bytes damaged");
                    }
                }
            }
            K::RawWrite => {
                let l = loc!(self.disk.as_ref().unwrap(), self.s.geo.loc_of(a[0] as usize % self.s.geo.total_sectors()));
                let data: Vec<u8> = content::bytes(a[1], 0, 256);
                let _ = self.call(|d| d.write_sector(l, &data))?;
            }
            K::Reinit => self.call(|d| d.initialize())?,
            K::Reopen => {
                let img = self.image()?;
                self.open(&img, a[0] & 1 == 1)?;
            }
            K::Fault => {
                let mut m = self.s.seam.borrow_mut();
                m.faults.clear();
                m.faults.push(Fault { mask: a[0] & 7, after: a[1], burst: a[2].max(1) });
            }
            K::Heal => self.s.seam.borrow_mut().faults.clear(),
            _ => {}
        }
        let n = self.s.seam.borrow().op_deltas.len() as u64;
        let fired = self.fired();
        self.s.trace(op, n * 2 + fired as u64);
        self.s.stats.hit("ops");
        Ok(())
    }
}

pub fn execute(scn: &Scn, worker: usize, trace: bool) -> Outcome {
    let s = Sim::new(scn, worker, trace);
    let img = corrupt::build_image(&s.geo, scn);
    let _ = fs::create_dir_all(dev::scratch());
    let mut w = Fx { s, disk: None, path: None };
    let r = (|| -> R<()> {
        w.open(&img, scn.cfg.backend != 0)?;
        for (i, op) in scn.ops.iter().enumerate() {
            w.s.step_no = i;
            w.s.note(|| format!("{:3} {} {:?}", i, op.k.name(), op.a));
            w.step(op)?;
            let h = hash_bytes(&w.s.seam.borrow().shadow);
            w.s.stats.states.insert(h);
        }
        // Whatever happened, it can be formatted.
        w.s.step_no = scn.ops.len();
        w.s.seam.borrow_mut().faults.clear();
        w.format(b"LAST", *b"ZZ")
    })();
    let _ = guard(|| w.disk = None);
    let (stats, log) = w.s.done();
    Outcome { stop: r.err(), stats, log }
}
