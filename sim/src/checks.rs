//! What is checked after every operation, at every point a process could have been killed, and
//! after every simulated power loss.

use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::rc::Rc;

use cbm::disk::file::FileOps;

use crate::content;
use crate::dev::{self, err_text, guard, listed, show};
use crate::geo::{drive_alloc, Loc};
use crate::refimg::{self, chain, chain_bytes, dangerous, fsck, parse, Issue, Parsed, Scheme};
use crate::rng::{hash2, Rng};
use crate::scenario::{Op, K};
use crate::seam::Delta;
use crate::world::{file_type, Act, Failed, MFile, World, R};

const KILL_POINTS: usize = 24;

fn apply(img: &mut [u8], d: &Delta) {
    img[d.off..d.off + d.data.len()].copy_from_slice(&d.data);
}

/// Could the listed entry be this file of the model (under one of these names)?
fn is_file(p: &refimg::PFile, f: &MFile, names: &[&[u8]]) -> bool {
    f.had(p.e.attr) && p.e.extra == f.extra && names.iter().any(|n| p.e.name == *n)
}

impl World {
    /// What the free map in memory shows as free.
    pub fn memory_free(&mut self) -> R<Option<Vec<Loc>>> {
        if self.disk.is_none() {
            return Ok(None);
        }
        let was = self.seam.borrow().armed;
        self.seam.borrow_mut().armed = false;
        let r = guard(|| {
            self.d()
                .bam()
                .ok()
                .and_then(|b| b.borrow().free_sectors().ok())
                .map(|v| v.iter().map(|l| (l.0, l.1)).collect::<Vec<Loc>>())
        });
        self.seam.borrow_mut().armed = was;
        self.caught(r)
    }

    /// Find out whether an operation that reported an injected error happened.
    fn resolve(&mut self) {
        let failing = match self.failing.take() {
            Some(f) => f,
            None => return,
        };
        let parsed = self.parsed.clone();
        match &failing {
            Failed::Create { name, ty } => {
                let attr = file_type(*ty).1;
                if let Some(p) = parsed.find(name) {
                    if p.e.attr == attr {
                        self.stats.hit("failed creates that happened");
                        let uid = self.next_uid;
                        self.next_uid += 1;
                        self.files.push(MFile {
                            uid,
                            name: name.clone(),
                            attr,
                            attrs: vec![],
                            extra: [0; 9],
                            scheme: Scheme::Linear,
                            accepted: 0,
                            flushed: 0,
                            dur: None,
                            dur_names: vec![],
                            created: true,
                            size_off: true,
                            built: None,
                        });
                    }
                }
            }
            Failed::Rename { uid, name } => {
                let happened = parsed.find(name).is_some();
                if let Some(f) = self.find_mut(*uid) {
                    f.dur_names.push(name.clone());
                    if happened {
                        f.name = name.clone();
                    }
                }
                if happened {
                    self.stats.hit("failed renames that happened");
                }
            }
            Failed::Edit { uid, .. } => {
                let name = self.find(*uid).map(|f| f.name.clone()).unwrap_or_default();
                if let (Some(p), Some(f)) = (parsed.find(&name), self.find_mut(*uid)) {
                    f.attrs.push(f.attr);
                    f.attr = p.e.attr;
                }
            }
            Failed::Delete { uid, .. } => {
                let name = self.find(*uid).map(|f| f.name.clone());
                if let Some(name) = name {
                    if parsed.find(&name).is_none() {
                        self.stats.hit("failed deletes that happened");
                        self.bury(*uid);
                    } else if let Some(f) = self.find_mut(*uid) {
                        f.dur = None;
                    }
                }
            }
            _ => {}
        }
        self.failed = Some(failing);
    }

    pub fn bury(&mut self, uid: u32) {
        if let Some(i) = self.files.iter().position(|f| f.uid == uid) {
            let f = self.files.remove(i);
            self.graveyard.push(f);
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn after(
        &mut self,
        op: &Op,
        before_img: &Rc<Vec<u8>>,
        before: &Rc<Parsed>,
        before_files: &[MFile],
        deltas: &[Delta],
        fired: u32,
    ) -> R<()> {
        if self.disk.is_none() {
            return Ok(());
        }
        self.resolve();
        let changed = !Rc::ptr_eq(before_img, &self.img);
        let parsed = self.parsed.clone();
        if matches!(op.k, K::Kill | K::Power | K::Fault | K::Heal) {
            return Ok(());
        }

        if changed {
            let got: Vec<_> = parsed.files.iter().map(|f| (f.e.name.clone(), f.e.attr, f.e.extra)).collect();
            self.check_names(&got)?;
        }
        if fired == 0 && changed {
            self.check_slots(before, &parsed)?;
        }
        if self.is("C02") || self.is("C03") {
            self.check_ownership(before_img, before, changed, fired)?;
        }
        if self.is("C07") && changed {
            let issues = dangerous(&fsck(&self.geo, &self.img, &parsed));
            if !issues.is_empty() {
                return self.fail(&["C07"], "consistency", format!("after {}: {:?}", op.k.name(), &issues[..issues.len().min(3)]));
            }
            let img = self.img.clone();
            self.check_image_files("C07", &img, &parsed, before_img, &self.files.clone(), None)?;
        }
        if fired > 1 {
            self.mem_loose = true;
        }
        if self.is("C07") && self.faulty && !self.mem_loose && (changed || fired > 0) {
            self.check_nothing_lost(op, &parsed)?;
        }
        if self.is("C16") && fired == 0 {
            self.check_placement(before_img, before)?;
            self.check_successor(op)?;
        }
        if let Some((name, id, types)) = self.named.take() {
            let t = self.geo.type_offs();
            let types = types.unwrap_or(t.map(|o| before_img[o]));
            if fired == 0 && t.map(|o| self.img[o]) != types {
                let m = format!("the header has type bytes {:02x?} instead of {:02x?}", t.map(|o| self.img[o]), types);
                return self.fail(&["C18", "C06"], "set name", m);
            }
            let (o, i) = (self.geo.name_off(), self.geo.id_off());
            let id = id.unwrap_or([before_img[i], before_img[i + 1]]);
            if fired == 0 && (refimg::trim_pad(&self.img[o..o + 16]) != name || self.img[i..i + 2] != id) {
                return self.fail(&["C18", "C06"], "set name", format!("the disk name {} was not stored", show(&name)));
            }
        }
        if self.is("C18") && fired == 0 {
            self.check_footprint(before_img, before, op)?;
        }
        if self.is("C11") && changed && self.act == Act::Nothing {
            return self.fail(&["C11"], "validation writes", format!("{} changed the image", op.k.name()));
        }
        if self.is("C05") {
            self.kill_points(op, before_img, before_files, deltas)?;
        }
        Ok(())
    }

    // ---- C07 ----

    /// As long as no operation met a second failure while undoing the first, the free map in memory
    /// is exactly right, and so are the sizes.
    fn check_nothing_lost(&mut self, op: &Op, parsed: &Parsed) -> R<()> {
        if parsed.dir_bad.is_some() || !parsed.formatted {
            return Ok(());
        }
        self.seam.borrow_mut().armed = false;
        let geo = self.geo;
        let r = guard(|| -> std::io::Result<Vec<Loc>> {
            let bam = self.d().bam()?;
            let bam = bam.borrow();
            Ok(bam.free_sectors()?.iter().map(|l| (l.0, l.1)).collect())
        });
        let free = match self.caught(r)? {
            Ok(v) => v,
            Err(e) => return self.unexpected(&["C07"], "free map", &e),
        };
        let mut img = self.img.to_vec();
        for l in geo.std_locs() {
            geo.set_free(&mut img, l, false);
        }
        for l in free {
            geo.set_free(&mut img, l, true);
        }
        geo.update_counts(&mut img);
        let issues = fsck(&geo, &img, parsed);
        if !issues.is_empty() {
            return self.fail(&["C07"], "space after an error", format!("after {} the free map in memory is wrong: {:?} and {} more", op.k.name(), issues[0], issues.len() - 1));
        }
        for f in self.files.iter().filter(|f| f.created && !f.size_off) {
            if let Some(p) = parsed.find(&f.name) {
                let n = p.owned.as_ref().map(|v| v.len()).unwrap_or(0);
                if p.e.size as usize != n {
                    return self.fail(&["C07"], "size after an error", format!("after {} {} records {} blocks and occupies {}", op.k.name(), show(&f.name), p.e.size, n));
                }
            }
        }
        self.stats.hit("free maps checked after errors");
        Ok(())
    }

    /// Whatever went wrong before, a flush of written data that succeeds leaves the free map as the
    /// disk knows it on the medium.
    pub fn check_map_recorded(&mut self, uid: u32) -> R<()> {
        let free: BTreeSet<Loc> = match self.memory_free()? {
            Some(v) => v.into_iter().collect(),
            None => return Ok(()),
        };
        let geo = self.geo;
        let durable = self.seam.borrow().durable.clone();
        let wrong = geo.std_locs().into_iter().find(|l| geo.is_free(&durable, *l) != free.contains(l));
        if let Some(l) = wrong {
            let name = self.find(uid).map(|f| show(&f.name)).unwrap_or_default();
            return self.fail(&["C07"], "map after a flush", format!("flushing {} succeeded, but {:?} is not marked on the medium as the disk has it", name, l));
        }
        self.stats.hit("flushed free maps checked");
        Ok(())
    }

    // ---- C14 ----

    fn check_slots(&mut self, before: &Parsed, parsed: &Parsed) -> R<()> {
        match self.act {
            Act::Everything => return Ok(()),
            Act::Create(_) if parsed.files.len() == before.files.len() + 1 => {
                let f = self.files.last().unwrap();
                let pos = match parsed.find(&f.name) {
                    Some(p) => p.e.pos,
                    None => return Ok(()),
                };
                let name = show(&f.name);
                if !before.free_slots.is_empty() {
                    if !before.free_slots.contains(&pos) {
                        return self.fail(
                            &["C14"],
                            "slot",
                            format!("creating {} did not use one of the {} free directory slots", name, before.free_slots.len()),
                        );
                    }
                    self.stats.hit("slots reused");
                } else {
                    self.stats.hit("directory growth");
                    if parsed.dir.len() != before.dir.len() + 1 || parsed.dir.last() != Some(&pos.loc) {
                        return self.fail(&["C14"], "growth", format!("creating {} did not add a directory sector", name));
                    }
                    return Ok(());
                }
            }
            // A creation refused for want of a data sector may have added the (empty) sector.
            Act::Create(_) if before.free_slots.is_empty() => return Ok(()),
            _ => {}
        }
        if before.dir != parsed.dir && before.dir_bad.is_none() {
            return self.fail(&["C14", "C18"], "growth", "the directory changed its sectors without need".into());
        }
        // Nobody moves.
        for b in &before.files {
            if let Some(p) = parsed.find(&b.e.name) {
                if p.e.pos != b.e.pos && !matches!(self.act, Act::Create(_) | Act::Rename(_)) {
                    return self.fail(&["C14"], "order", format!("{} moved to another slot", show(&b.e.name)));
                }
            }
        }
        Ok(())
    }

    // ---- C02 ----

    fn check_ownership(&mut self, before_img: &Rc<Vec<u8>>, before: &Parsed, changed: bool, fired: u32) -> R<()> {
        if fired > 0 || self.leaky || !self.parsed.formatted {
            return Ok(());
        }
        let geo = self.geo;
        let img = self.img.clone();
        let parsed = self.parsed.clone();
        if let Act::Delete(uid) = self.act {
            // Gives back exactly what the file owned.
            if self.find(uid).is_none() {
                let gone = before.files.iter().find(|b| parsed.at(&b.e.pos).is_none());
                if let Some(g) = gone {
                    if let Ok(ref v) = g.owned {
                        for l in geo.std_locs() {
                            let (was, now) = (geo.is_free(before_img, l), geo.is_free(&img, l));
                            if v.contains(&l) && !now {
                                return self.fail(&["C02", "C03"], "not freed", format!("deleting {} did not free {:?}", show(&g.e.name), l));
                            }
                            if !v.contains(&l) && !was && now {
                                return self.fail(&["C02", "C03"], "freed", format!("deleting {} freed {:?}, which it did not own", show(&g.e.name), l));
                            }
                        }
                        self.stats.hit("deletions accounted for");
                    }
                }
            }
        }
        if !self.writers.is_empty() || !(changed || matches!(self.act, Act::File(_))) {
            return Ok(());
        }
        let issues = fsck(&geo, &img, &parsed);
        if !issues.is_empty() {
            return self.fail(&["C02", "C03"], "consistency", format!("{:?} and {} more", issues[0], issues.len() - 1));
        }
        for f in self.files.iter().filter(|f| f.created && !f.size_off) {
            if let Some(p) = parsed.find(&f.name) {
                let n = p.owned.as_ref().map(|v| v.len()).unwrap_or(0);
                if p.e.size as usize != n {
                    return self.fail(&["C02"], "size", format!("{} records {} blocks and occupies {}", show(&f.name), p.e.size, n));
                }
                let need = (f.accepted + 253) / 254;
                if n != need.max(1) {
                    return self.fail(&["C02"], "extent", format!("{} has {} bytes and occupies {} sectors", show(&f.name), f.accepted, n));
                }
            }
        }
        let counts: usize = (1..=geo.last_std())
            .filter(|t| *t != geo.dir_track())
            .map(|t| img[geo.count_off(t)] as usize)
            .sum();
        self.seam.borrow_mut().armed = false;
        let r = guard(|| self.d().blocks_free());
        match self.caught(r)? {
            Ok(n) if n == counts => {}
            Ok(n) => return self.fail(&["C02"], "blocks free", format!("{} blocks free reported, {} recorded", n, counts)),
            Err(e) => return self.fail(&["C02"], "blocks free", format!("blocks free failed: {}", err_text(&e))),
        }
        if let Some(mut v) = self.memory_free()? {
            v.sort();
            let want: Vec<Loc> = geo.std_locs().into_iter().filter(|l| geo.is_free(&img, *l)).collect();
            if v != want {
                return self.fail(&["C02", "C03"], "free map", format!("{} sectors free in memory, {} on the image", v.len(), want.len()));
            }
        }
        self.stats.hit("consistency checks");
        Ok(())
    }

    // ---- C16 ----

    fn check_placement(&mut self, before_img: &Rc<Vec<u8>>, before: &Parsed) -> R<()> {
        let free0 = match self.free_before.take() {
            Some(v) => v,
            None => return Ok(()),
        };
        if self.leaky || !self.parsed.formatted || !before.formatted {
            return Ok(());
        }
        let uid = match self.act {
            Act::File(u) | Act::Create(u) => u,
            _ => return Ok(()),
        };
        let free1: BTreeSet<Loc> = match self.memory_free()? {
            Some(v) => v.into_iter().collect(),
            None => return Ok(()),
        };
        let geo = self.geo;
        let mut free: BTreeSet<Loc> = free0.iter().copied().collect();
        if free1.iter().any(|l| !free.contains(l)) {
            return self.fail(&["C16"], "freed", "a sector became free while writing".into());
        }
        let taken: BTreeSet<Loc> = free.difference(&free1).copied().collect();
        let parsed = self.parsed.clone();
        let geos = parsed.geos;
        // Directory growth.
        let new_dir: Vec<Loc> = parsed.dir.iter().filter(|l| !before.dir.contains(l)).copied().collect();
        let mut want: BTreeSet<Loc> = BTreeSet::new();
        let mut prev = before.dir.last().copied();
        for l in &new_dir {
            let fs = free.clone();
            let e = drive_alloc(&geo, geos, &|l| fs.contains(&l), prev);
            if e != Some(*l) {
                return self.fail(&["C16"], "directory placement", format!("directory sector placed at {:?} instead of {:?} (after {:?})", l, e, prev));
            }
            free.remove(l);
            want.insert(*l);
            prev = Some(*l);
            self.stats.hit("directory sectors placed");
        }
        // File data.
        let n = taken.len().saturating_sub(want.len());
        let mut seq = vec![];
        for _ in 0..n {
            let fs = &free;
            match drive_alloc(&geo, geos, &|l| fs.contains(&l), None) {
                Some(l) => {
                    free.remove(&l);
                    want.insert(l);
                    seq.push(l);
                }
                None => break,
            }
        }
        if want != taken {
            let odd = taken.difference(&want).next();
            let miss = want.difference(&taken).next();
            return self.fail(
                &["C16"],
                "placement",
                format!("allocated {:?} where the drive would take {:?} ({} sectors in this operation)", odd, miss, n),
            );
        }
        if let Some(l) = seq.iter().find(|l| !geo.is_data_track(l.0)) {
            return self.fail(&["C16"], "data track", format!("file data placed at {:?}", l));
        }
        // The chain uses them in that order.
        if let Some(f) = self.find(uid) {
            if f.scheme == Scheme::Linear {
                let name = f.name.clone();
                let path = |p: &Parsed, img: &[u8]| -> Option<Vec<Loc>> {
                    let e = p.find(&name)?;
                    chain(&geo, img, e.e.first).ok().map(|v| v.into_iter().map(|c| c.0).collect())
                };
                let old = path(before, before_img).unwrap_or_default();
                if let Some(new) = path(&parsed, &self.img) {
                    if new.len() >= old.len() && new[..old.len()] == old[..] {
                        let grown = &new[old.len()..];
                        if grown.iter().copied().collect::<BTreeSet<_>>() == seq.iter().copied().collect() && grown != &seq[..] {
                            return self.fail(&["C16"], "chain order", format!("{} continues {:?} instead of {:?}", show(&name), &grown[..grown.len().min(4)], &seq[..seq.len().min(4)]));
                        }
                        if let Some(l) = grown.iter().find(|l| !geo.is_data_track(l.0)) {
                            return self.fail(&["C16"], "data track", format!("data of {} placed at {:?}", show(&name), l));
                        }
                    }
                }
            }
        }
        self.stats.add("data sectors placed", seq.len() as u64);
        if !geos && seq.iter().any(|l| l.0 > geo.dir_track()) {
            self.stats.hit("placements above the directory track");
        }
        Ok(())
    }

    /// Ask which sector would follow some given ones.
    fn check_successor(&mut self, op: &Op) -> R<()> {
        if self.leaky || self.stale_counts || !self.parsed.formatted {
            return Ok(());
        }
        let free: BTreeSet<Loc> = match self.memory_free()? {
            Some(v) => v.into_iter().collect(),
            None => return Ok(()),
        };
        let geo = self.geo;
        let geos = self.parsed.geos;
        let mut h = hash2(op.a[0] as u64 ^ (op.a[3] as u64) << 32, self.step_no as u64);
        for _ in 0..6 {
            h = hash2(h, 1);
            let mut prev = geo.loc_of((h % geo.total_sectors() as u64) as usize);
            if h >> 40 & 3 == 0 {
                prev = (geo.dir_track(), prev.1 % geo.sectors(geo.dir_track()));
            }
            if !(geo.is_data_track(prev.0) || prev.0 == geo.dir_track()) {
                continue;
            }
            let want = drive_alloc(&geo, geos, &|l| free.contains(&l), Some(prev));
            self.seam.borrow_mut().armed = false;
            let r = guard(|| {
                let d = self.d();
                let l = crate::loc!(d, prev);
                let b = d.bam()?;
                let b = b.borrow();
                b.next_free_block(Some(l)).map(|l| (l.0, l.1))
            });
            let got = self.caught(r)?;
            let same = match (&got, want) {
                (Ok(g), Some(w)) => *g == w,
                (Err(e), None) => dev::is_full(e),
                _ => false,
            };
            if !same {
                return self.fail(
                    &["C16"],
                    "successor",
                    format!("the sector after {:?} is {:?}, the drive would take {:?}", prev, got.map_err(|e| err_text(&e)), want),
                );
            }
            self.stats.hit("successors asked for");
            if want.map(|w| w.0) != Some(prev.0) {
                self.stats.hit("successors on another track");
            }
        }
        Ok(())
    }

    // ---- C18 ----

    fn check_footprint(&mut self, before_img: &Rc<Vec<u8>>, before: &Parsed, op: &Op) -> R<()> {
        if Rc::ptr_eq(before_img, &self.img) || self.act == Act::Everything {
            return Ok(());
        }
        let geo = self.geo;
        let img = self.img.clone();
        let parsed = self.parsed.clone();
        let mut ok = vec![false; img.len()];
        let mut allow = |o: usize, n: usize| {
            for b in &mut ok[o..o + n] {
                *b = true;
            }
        };
        let uid = match self.act {
            Act::File(u) | Act::Create(u) | Act::Rename(u) | Act::Delete(u) => Some(u),
            _ => None,
        };
        match self.act {
            Act::Raw(l) => allow(geo.off(l), 256),
            Act::Header => {
                // The name, the id, and the padding (which may be brought in order).
                allow(geo.name_off(), 16);
                allow(geo.id_off(), 2);
                for o in geo.type_offs() {
                    allow(o, 1);
                }
                for p in geo.kind.pads() {
                    allow(geo.off(geo.header()) + p, 1);
                }
            }
            _ => {}
        }
        if let Some(uid) = uid {
            for (o, n) in geo.bam_ranges() {
                allow(o, n);
            }
            // Its entry, before and after.
            let name = self
                .files
                .iter()
                .chain(self.graveyard.iter())
                .find(|f| f.uid == uid)
                .map(|f| f.name.clone())
                .unwrap_or_default();
            let mut pos = vec![];
            match self.act {
                Act::Rename(_) => {
                    // The slot whose name changed to the new one.
                    pos.extend(parsed.find(&name).map(|p| p.e.pos));
                }
                _ => {
                    pos.extend(before.find(&name).map(|p| p.e.pos));
                    pos.extend(parsed.find(&name).map(|p| p.e.pos));
                }
            }
            for p in pos {
                let from = if p.off == 0 { 2 } else { 0 };
                allow(geo.off(p.loc) + p.off + from, 32 - from);
            }
            if !matches!(self.act, Act::Rename(_)) {
                for p in [before, &parsed] {
                    if let Some(f) = p.find(&name) {
                        for l in f.owned.iter().flatten().filter(|l| geo.valid(**l)) {
                            if geo.is_data_track(l.0) && before.find(&name).map(|b| b.owned.as_ref().map(|o| o.contains(l)).unwrap_or(false)).unwrap_or(false) {
                                allow(geo.off(*l), 256);
                            }
                        }
                    }
                }
                for l in geo.std_locs() {
                    if geo.is_data_track(l.0) && geo.is_free(before_img, l) {
                        allow(geo.off(l), 256);
                    }
                }
            }
            if matches!(self.act, Act::Create(_)) && before.free_slots.is_empty() {
                if let Some(l) = before.dir.last() {
                    allow(geo.off(*l), 2);
                }
                for l in parsed.dir.iter().filter(|l| !before.dir.contains(l) && geo.is_free(before_img, **l)) {
                    allow(geo.off(*l), 256);
                }
            }
        }
        if let Some(at) = (0..img.len()).find(|i| img[*i] != before_img[*i] && !ok[*i]) {
            let place = if at < geo.data_size() {
                format!("byte {:#x} of sector {:?}", at % 256, geo.loc_of(at / 256))
            } else {
                format!("byte {} of the error table", at - geo.data_size())
            };
            return self.fail(&["C18"], "footprint", format!("{} ({:?}) changed {}", op.k.name(), self.act, place));
        }
        self.stats.hit("footprints checked");
        Ok(())
    }

    // ---- C05, C07: files on an image ----

    /// Every file of the model is on this image as it must be.  `inflight` is what was under way.
    fn check_image_files(
        &self,
        owner: &str,
        img: &[u8],
        parsed: &Parsed,
        before_img: &[u8],
        files: &[MFile],
        inflight: Option<&Act>,
    ) -> R<()> {
        let geo = self.geo;
        let mut used = vec![false; parsed.files.len()];
        for f in files {
            let now = self.files.iter().find(|n| n.uid == f.uid);
            let mut names: Vec<&[u8]> = vec![&f.name];
            let mut f = f.clone();
            if let (Some(Act::Rename(u)), Some(n)) = (inflight, now) {
                if *u == f.uid {
                    names.push(&n.name);
                    f.attrs.push(n.attr);
                }
            }
            let f = &f;
            let i = match (0..parsed.files.len()).find(|i| !used[*i] && is_file(&parsed.files[*i], f, &names)) {
                Some(i) => i,
                None => {
                    if inflight == Some(&Act::Delete(f.uid)) {
                        continue;
                    }
                    return self.fail(&[owner], "lost file", format!("{} is not listed any more", show(&f.name)));
                }
            };
            used[i] = true;
            let p = &parsed.files[i];
            match f.scheme {
                Scheme::Linear => {
                    let accepted = now.map(|n| n.accepted).unwrap_or(f.accepted).max(f.accepted);
                    match chain_bytes(&geo, img, p.e.first) {
                        Ok(b) => {
                            if let Some(at) = content::mismatch(f.uid, 0, &b[..b.len().min(accepted)]) {
                                return self.fail(&[owner], "content", format!("{} (flushed {}, accepted {}) has a wrong byte at {}", show(&f.name), f.flushed, accepted, at));
                            }
                            if b.len() < f.flushed || b.len() > accepted {
                                return self.fail(&[owner], "length", format!("{} has {} bytes; flushed {}, accepted {}", show(&f.name), b.len(), f.flushed, accepted));
                            }
                        }
                        Err(e) => return self.fail(&[owner], "chain", format!("{} cannot be read: {:?}", show(&f.name), e)),
                    }
                }
                _ => {
                    let b = f.built.as_ref().unwrap();
                    if p.owned.as_ref().ok() != Some(&b.owned) {
                        return self.fail(&[owner], "special", format!("{} ({:?}) lost its sectors", show(&f.name), f.scheme));
                    }
                    for l in &b.owned {
                        if geo.sector(img, *l) != geo.sector(before_img, *l) {
                            return self.fail(&[owner], "special", format!("sector {:?} of {} changed", l, show(&f.name)));
                        }
                    }
                }
            }
        }
        for (i, p) in parsed.files.iter().enumerate() {
            if used[i] {
                continue;
            }
            // Only the file being created may be there in addition.
            let created = match inflight {
                Some(Act::Create(u)) => self.files.iter().find(|f| f.uid == *u),
                _ => None,
            };
            match created {
                Some(c) if is_file(p, c, &[&c.name]) => {
                    let b = chain_bytes(&geo, img, p.e.first).unwrap_or(vec![0; 100_000]);
                    if b.len() > c.accepted || content::mismatch(c.uid, 0, &b).is_some() {
                        return self.fail(&[owner], "new file", format!("{} is there with wrong contents", show(&c.name)));
                    }
                }
                _ => return self.fail(&[owner], "extra file", format!("{} is listed", show(&p.e.name))),
            }
        }
        Ok(())
    }

    // ---- C05 ----

    fn kill_points(&mut self, op: &Op, before_img: &Rc<Vec<u8>>, before_files: &[MFile], deltas: &[Delta]) -> R<()> {
        if self.act == Act::Everything || deltas.is_empty() || matches!(op.k, K::Format) {
            return Ok(());
        }
        let n = deltas.len();
        let mut rng = Rng::new(hash2(self.scn_seed ^ 0xC05, self.step_no as u64));
        let points: BTreeSet<usize> = if n <= KILL_POINTS {
            (1..=n).collect()
        } else {
            let mut s: BTreeSet<usize> = (1..=8).collect();
            s.extend(n - 7..=n);
            while s.len() < KILL_POINTS {
                s.insert(rng.range(1, n as u64) as usize);
            }
            s
        };
        let deep = if rng.chance(1, 3) { rng.below(points.len() as u64) as usize } else { usize::MAX };
        let mut img = before_img.to_vec();
        let act = self.act.clone();
        let mut done = 0;
        for (pi, k) in points.iter().enumerate() {
            while done < *k {
                apply(&mut img, &deltas[done]);
                done += 1;
            }
            let parsed = parse(&self.geo, &img);
            let issues = dangerous(&fsck(&self.geo, &img, &parsed));
            if !issues.is_empty() {
                return self.fail(
                    &["C05"],
                    "kill: consistency",
                    format!("killed after write {} of {} of {}: {:?}", k, n, op.k.name(), &issues[..issues.len().min(3)]),
                );
            }
            if let Err(crate::world::Stop::Violation { class, msg }) =
                self.check_image_files("C05", &img, &parsed, before_img, before_files, Some(&act))
            {
                return self.fail(
                    &["C05"],
                    &format!("kill: {}", class),
                    format!("killed after write {} of {} of {}: {}", k, n, op.k.name(), msg),
                );
            }
            self.stats.hit("kill points checked");
            if pi == deep {
                self.reads_with_library(&img, &parsed, &format!("killed after write {} of {} of {}", k, n, op.k.name()))?;
            }
        }
        if let Some((at, cont)) = self.kill {
            self.kill = None;
            self.stats.hit("fault: kill");
            if cont {
                let k = at as usize % (n + 1);
                let mut img = before_img.to_vec();
                for d in &deltas[..k] {
                    apply(&mut img, d);
                }
                if let Act::Rename(uid) = act {
                    let old = before_files.iter().find(|f| f.uid == uid).map(|f| f.name.clone());
                    if let (Some(f), Some(o)) = (self.find_mut(uid), old) {
                        f.dur_names.push(o);
                    }
                }
                self.note(|| format!("    killed after sector write {} of {}, restarted", k, n));
                self.leaky = true;
                self.restart(img)?;
            }
        }
        Ok(())
    }

    /// The library itself opens the image and reads what is there.
    fn reads_with_library(&mut self, img: &[u8], parsed: &Parsed, when: &str) -> R<()> {
        let geo = self.geo;
        self.seam.borrow_mut().armed = false;
        let r = guard(|| -> Result<(), String> {
            let d = dev::mem_disk(&geo, img).map_err(|e| format!("does not open: {}", err_text(&e)))?;
            let list = d.directory().map_err(|e| format!("directory: {}", err_text(&e)))?;
            if list.len() != parsed.files.len() {
                return Err(format!("lists {} files, not {}", list.len(), parsed.files.len()));
            }
            for (e, p) in list.iter().zip(&parsed.files) {
                let l = listed(e);
                if l.name != p.e.name || l.attr != p.e.attr {
                    return Err(format!("lists {}", show(&l.name)));
                }
                if p.e.scheme == Scheme::Linear {
                    let f = d.open_file_from_entry(e).map_err(|e| err_text(&e))?;
                    let mut buf = vec![];
                    f.reader().and_then(|mut r| r.read_to_end(&mut buf)).map_err(|e| format!("reading {}: {}", show(&l.name), err_text(&e)))?;
                    if Some(buf) != chain_bytes(&geo, img, p.e.first).ok() {
                        return Err(format!("reads {} wrongly", show(&l.name)));
                    }
                }
            }
            Ok(())
        });
        match self.caught(r)? {
            Ok(()) => {
                self.stats.hit("crash images opened with the library");
                Ok(())
            }
            Err(m) => self.fail(&["C05"], "kill: open", format!("{}: {}", when, m)),
        }
    }

    // ---- C04 ----

    /// Right after a flush reported success.
    pub fn check_synced(&mut self, uid: u32) -> R<()> {
        let geo = self.geo;
        let durable = self.seam.borrow().durable.clone();
        let parsed = parse(&geo, &durable);
        let f = self.find(uid).unwrap().clone();
        let found: Vec<_> = parsed.files.iter().filter(|p| {
            (p.e.name == f.name || f.dur_names.contains(&p.e.name))
                && f.had(p.e.attr)
                && chain_bytes(&geo, &durable, p.e.first)
                    .map(|b| b.len() == f.accepted && content::mismatch(uid, 0, &b).is_none())
                    .unwrap_or(false)
        }).collect();
        // A flush with nothing to write does not make an earlier renaming durable.
        let renamed = found.iter().any(|p| p.e.name != f.name);
        let settled = self.seam.borrow().unsynced.is_empty();
        if !renamed && settled {
            self.find_mut(uid).unwrap().dur_names = vec![f.name.clone()];
        }
        let found = !found.is_empty();
        if !found {
            return self.fail(&["C04", "C07"], "not durable", format!("{} was flushed but its {} bytes are not on the medium", show(&f.name), f.accepted));
        }
        if self.is("C04") {
            let mut issues = fsck(&geo, &durable, &parsed);
            if self.leaky {
                issues = dangerous(&issues);
            }
            if !issues.is_empty() {
                return self.fail(&["C04"], "inconsistent when synced", format!("the medium after flushing {}: {:?}", show(&f.name), &issues[..issues.len().min(3)]));
            }
            self.stats.hit("synced images checked");
        }
        Ok(())
    }

    /// Right after a format reported success.
    pub fn check_synced_format(&mut self, name: &[u8]) -> R<()> {
        let geo = self.geo;
        let durable = self.seam.borrow().durable.clone();
        let parsed = parse(&geo, &durable);
        let issues = fsck(&geo, &durable, &parsed);
        if !parsed.files.is_empty() || !issues.is_empty() {
            return self.fail(
                &["C04"],
                "format not durable",
                format!("the medium after formatting the disk as {}: {} files, {:?}", show(name), parsed.files.len(), &issues[..issues.len().min(3)]),
            );
        }
        self.stats.hit("synced formats checked");
        Ok(())
    }

    /// Power loss now: each sector written since the last synchronisation is old, new, torn, or
    /// at some version in between.
    pub fn power(&mut self, seed: u32, cont: bool) -> R<()> {
        if self.disk.is_none() {
            return Ok(());
        }
        self.seam.borrow_mut().armed = false;
        let mut rng = Rng::new(hash2(seed as u64, self.scn_seed));
        let (durable, unsynced) = {
            let s = self.seam.borrow();
            (s.durable.clone(), s.unsynced.clone())
        };
        let mut by_off: BTreeMap<usize, Vec<&Delta>> = BTreeMap::new();
        for d in &unsynced {
            by_off.entry(d.off).or_default().push(d);
        }
        for round in 0..6 {
            let mut img = durable.clone();
            let bias = rng.below(4);
            for (off, versions) in &by_off {
                let mode = match bias {
                    0 => rng.below(4),
                    1 => 0,
                    2 => if rng.chance(1, 4) { 0 } else { 1 },
                    _ => if rng.chance(1, 4) { 1 } else { 0 },
                };
                match mode {
                    0 => {}
                    1 => apply(&mut img, versions[versions.len() - 1]),
                    2 => {
                        let v = versions[rng.below(versions.len() as u64) as usize];
                        apply(&mut img, v);
                    }
                    _ => {
                        // Torn: some 32-byte units of the new version, the rest of an older one.
                        let i = rng.below(versions.len() as u64) as usize;
                        if i > 0 && rng.chance(1, 2) {
                            apply(&mut img, versions[i - 1]);
                        }
                        let v = versions[i];
                        let mut at = 0;
                        while at < v.data.len() {
                            let end = (at + 32).min(v.data.len());
                            if rng.chance(1, 2) {
                                img[off + at..off + end].copy_from_slice(&v.data[at..end]);
                            }
                            at = end;
                        }
                        self.stats.hit("fault: torn sector write");
                    }
                }
                if mode == 0 {
                    self.stats.hit("fault: lost sector write");
                }
            }
            self.stats.hit("fault: power loss");
            self.check_power(&img, round)?;
        }
        if cont {
            self.note(|| "    power lost, restarted".to_string());
            self.restart(durable)?;
        }
        Ok(())
    }

    fn check_power(&mut self, img: &[u8], round: usize) -> R<()> {
        let geo = self.geo;
        let files: Vec<MFile> = self.files.iter().filter(|f| f.dur.is_some()).cloned().collect();
        let r = guard(|| -> Result<u64, String> {
            let d = dev::mem_disk(&geo, img).map_err(|e| format!("the image does not open: {}", err_text(&e)))?;
            let mut entries = vec![];
            for e in d.iter() {
                match e {
                    Ok(e) => entries.push(e),
                    Err(_) => break,
                }
                if entries.len() > 4000 {
                    break;
                }
            }
            let mut checked = 0;
            for f in &files {
                let dur = f.dur.unwrap();
                let mut why = String::from("not listed");
                let mut good = false;
                for e in &entries {
                    let l = listed(e);
                    if !f.had(l.attr) || !(f.dur_names.contains(&l.name) || f.name == l.name) {
                        continue;
                    }
                    let mut got = vec![0u8; dur];
                    let res = d.open_file_from_entry(e).and_then(|h| h.reader()).and_then(|mut r| r.read_exact(&mut got));
                    match res {
                        Ok(()) => match content::mismatch(f.uid, 0, &got) {
                            None => {
                                good = true;
                                break;
                            }
                            Some(at) => why = format!("wrong byte at {}", at),
                        },
                        Err(e) => why = format!("unreadable: {}", err_text(&e)),
                    }
                }
                if !good {
                    return Err(format!("{} with {} flushed bytes: {}", show(&f.name), dur, why));
                }
                checked += 1;
            }
            Ok(checked)
        });
        match self.caught(r)? {
            Ok(n) => {
                self.stats.add("durable files read back", n);
                Ok(())
            }
            Err(m) => self.fail(&["C04"], "lost flushed data", format!("after power loss (variant {}): {}", round, m)),
        }
    }

    pub fn issues(&self) -> Vec<Issue> {
        fsck(&self.geo, &self.img, &self.parsed)
    }
}
