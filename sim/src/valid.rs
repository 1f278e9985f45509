//! C11: validation against an independent consistency checker, on images with injected damage.

use std::collections::BTreeSet;

use crate::dev::{self, diff, err_text, guard, show};
use crate::geo::{Geo, Loc};
use crate::refimg::{self, chain_prefix, fsck, parse, trim_pad, Issue, Parsed, Scheme};
use crate::scenario::{Op, K};
use crate::world::{World, R};

fn all_locs(geo: &Geo, p: &Parsed, i: usize) -> Vec<Loc> {
    p.files.get(i).and_then(|f| f.owned.as_ref().ok()).cloned().unwrap_or_default().into_iter().filter(|l| geo.valid(*l)).collect()
}

fn entry_off(geo: &Geo, p: &Parsed, i: usize) -> usize {
    geo.off(p.files[i].e.pos.loc) + p.files[i].e.pos.off
}

/// Change the stored bytes the way a decayed or badly written disk could.
pub fn damage(geo: &Geo, img: &mut [u8], op: &Op) -> Option<&'static str> {
    let p = parse(geo, img);
    let a = op.a;
    let nfiles = p.files.len();
    let pick_file = |n: u32| if nfiles == 0 { None } else { Some(n as usize % nfiles) };
    match op.k {
        K::FlipBam => {
            let pool: Vec<Loc> = match a[1] % 4 {
                0 => geo.std_locs(),
                1 => (0..nfiles).flat_map(|i| all_locs(geo, &p, i)).filter(|l| l.0 <= geo.last_std()).collect(),
                2 => geo.system_locs().into_iter().chain(p.dir.iter().copied()).chain(p.border).filter(|l| geo.valid(*l) && l.0 <= geo.last_std()).collect(),
                _ => geo.std_locs().into_iter().filter(|l| geo.is_free(img, *l)).collect(),
            };
            if pool.is_empty() {
                return None;
            }
            let l = pool[a[0] as usize % pool.len()];
            let f = geo.is_free(img, l);
            geo.set_free(img, l, !f);
            if a[2] & 1 == 0 {
                geo.update_counts(img);
            }
            Some("damage: free map bit flipped")
        }
        K::CrossLink => {
            let i = pick_file(a[0])?;
            let j = pick_file(a[2])?;
            let (c, _) = chain_prefix(geo, img, p.files[i].e.first);
            if c.is_empty() || matches!(p.files[i].e.scheme, Scheme::Rel | Scheme::Vlir) {
                return None;
            }
            let from = c[a[1] as usize % c.len()].0;
            let to = match a[3] % 8 {
                0 => geo.header(),
                1 => *p.dir.last()?,
                2 => geo.loc_of(a[2] as usize % geo.total_sectors()),
                3 => p.border.filter(|l| geo.valid(*l)).unwrap_or(geo.header()),
                _ => {
                    let v = all_locs(geo, &p, j);
                    if v.is_empty() {
                        return None;
                    }
                    v[a[3] as usize / 8 % v.len()]
                }
            };
            let s = geo.sector_mut(img, from);
            s[0] = to.0;
            s[1] = to.1;
            Some("damage: chain cross-linked")
        }
        K::BreakChain => {
            let mut i = pick_file(a[0])?;
            // Damage that only some kind of file can have.
            let only: Option<Scheme> = match a[2] % 10 {
                6 => Some(Scheme::Rel),
                7 => Some(Scheme::Vlir),
                _ => None,
            };
            if let Some(k) = only {
                let of: Vec<usize> = (0..nfiles).filter(|n| p.files[*n].e.scheme == k).collect();
                if !of.is_empty() {
                    i = of[a[0] as usize % of.len()];
                }
            }
            let e = p.files[i].e.clone();
            let o = entry_off(geo, &p, i);
            let (c, _) = chain_prefix(geo, img, e.first);
            match a[2] % 10 {
                0 | 1 | 2 | 3 => {
                    if c.is_empty() {
                        return None;
                    }
                    let at = c[a[1] as usize % c.len()].0;
                    let back = c[a[3] as usize % c.len()].0;
                    let s = geo.sector_mut(img, at);
                    let v: (u8, u8) = match a[2] % 10 {
                        0 => (geo.tracks + 1 + (a[3] % 40) as u8, 0),
                        1 => (1 + (a[3] % 35) as u8, 60),
                        2 => back,
                        _ => (0, 0),
                    };
                    s[0] = v.0;
                    s[1] = v.1;
                    Some("damage: chain broken")
                }
                4 => {
                    img[o + 3] = if a[3] & 1 == 0 { 0 } else { 200 };
                    Some("damage: entry points nowhere")
                }
                5 => {
                    let j = pick_file(a[3])?;
                    let f = p.files[j].e.first;
                    img[o + 3] = f.0;
                    img[o + 4] = f.1;
                    Some("damage: entries share a chain")
                }
                6 if e.scheme == Scheme::Rel => {
                    // Any of its side sectors: its link, number, list or entries.
                    let (side, _) = chain_prefix(geo, img, (e.extra[0], e.extra[1]));
                    let l = side.get(a[0] as usize / 7 % side.len().max(1))?.0;
                    let s = geo.sector_mut(img, l);
                    s[a[1] as usize % 24] ^= 1 << (a[3] % 8);
                    Some("damage: side sector")
                }
                7 if e.scheme == Scheme::Vlir => {
                    if !geo.valid(e.first) {
                        return None;
                    }
                    let n = 2 + a[1] as usize % 24;
                    geo.sector_mut(img, e.first)[n] = a[3] as u8;
                    Some("damage: record index")
                }
                8 => {
                    // The file disappears from the directory without giving back its sectors.
                    img[o + 2] = 0;
                    Some("damage: entry scratched")
                }
                9 => {
                    // Two entries of one name, perhaps for the same sectors.
                    let j = pick_file(a[3])?;
                    let n = entry_off(geo, &p, j);
                    img.copy_within(n + 5..n + 21, o + 5);
                    if a[1] & 1 == 1 {
                        img.copy_within(n + 3..n + 5, o + 3);
                    }
                    Some("damage: entries share a name")
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// Sectors one file claims more than once; what validation says about those is not specified.
fn self_overlaps(geo: &Geo, img: &[u8], p: &Parsed) -> BTreeSet<Loc> {
    let mut out = BTreeSet::new();
    for f in &p.files {
        let mut v: Vec<Loc> = vec![];
        match f.e.scheme {
            Scheme::Rel => {
                if let Ok(r) = refimg::rel(geo, img, &f.e) {
                    v.extend(r.data);
                    v.extend(r.side);
                }
            }
            Scheme::Seq | Scheme::Vlir => {
                v.extend(chain_prefix(geo, img, f.e.first).0.into_iter().map(|c| c.0));
                v.extend(refimg::info_loc(&f.e));
                if f.e.scheme == Scheme::Vlir {
                    for r in refimg::vlir(geo, img, f.e.first).unwrap_or_default().into_iter().flatten() {
                        v.extend(chain_prefix(geo, img, r).0.into_iter().map(|c| c.0));
                    }
                }
            }
            Scheme::Linear => {}
        }
        v.sort();
        for w in v.windows(2) {
            if w[0] == w[1] {
                out.insert(w[0]);
            }
        }
    }
    out
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
enum Kind {
    Leak,
    SystemFree,
    OwnedFree,
    Double,
}

impl World {
    /// Apply the pending damage to a copy of the image, validate that, and compare.
    pub fn validate_damaged(&mut self) -> R<()> {
        let ops = std::mem::take(&mut self.damage);
        if !self.writers.is_empty() || self.leaky || !self.parsed.formatted {
            return Ok(());
        }
        let geo = self.geo;
        let mut img = self.img.to_vec();
        let mut any = false;
        for op in &ops {
            if let Some(what) = damage(&geo, &mut img, op) {
                self.stats.hit(what);
                any = true;
            }
        }
        let p = parse(&geo, &img);
        if p.dir_bad.is_some() || !p.formatted {
            return Ok(());
        }
        self.seam.borrow_mut().armed = false;
        let r = guard(|| -> Result<_, String> {
            let d = dev::mem_disk(&geo, &img).map_err(|e| err_text(&e))?;
            let before = dev::view(&d, false);
            let v = d.validate().map_err(|e| format!("validation failed: {}", err_text(&e)))?;
            if let Some(x) = diff(&before, &dev::view(&d, false)) {
                return Err(format!("validation changed the disk: {}", x));
            }
            if dev::dump(&geo, &d).ok().as_ref() != Some(&img) {
                return Err("validation changed the image".into());
            }
            Ok(v.iter().map(|e| format!("{:?}", e)).zip(v.clone()).collect::<Vec<_>>())
        });
        let list = match self.caught(r)? {
            Ok(l) => l,
            Err(m) => return self.fail(&["C11"], "validation", m),
        };
        use cbm::disk::ValidationError as V;
        let mut got: BTreeSet<(Kind, Loc)> = BTreeSet::new();
        let mut bad: Vec<Vec<u8>> = vec![];
        let mut named: Vec<(Loc, Vec<u8>)> = vec![];
        for (_, e) in &list {
            match e {
                V::SystemSectorNotAllocated(l) => {
                    got.insert((Kind::SystemFree, (l.0, l.1)));
                }
                V::SectorMisallocated(l) => {
                    got.insert((Kind::Leak, (l.0, l.1)));
                }
                V::SectorMisoccupied(l, n) => {
                    named.push(((l.0, l.1), trim_pad(n.as_bytes())));
                    got.insert((Kind::OwnedFree, (l.0, l.1)));
                }
                V::SectorOveroccupied(l, n, m) => {
                    named.push(((l.0, l.1), trim_pad(n.as_bytes())));
                    named.push(((l.0, l.1), trim_pad(m.as_bytes())));
                    got.insert((Kind::Double, (l.0, l.1)));
                }
                V::FileScanError(_, n) => bad.push(trim_pad(n.as_bytes())),
                V::Unknown => return self.fail(&["C11"], "unknown", "validation reports an unknown problem".into()),
            }
        }
        bad.sort();
        let issues = fsck(&geo, &img, &p);
        let mut want: BTreeSet<(Kind, Loc)> = BTreeSet::new();
        for i in &issues {
            match i {
                Issue::Leak(l) => {
                    want.insert((Kind::Leak, *l));
                }
                Issue::SystemFree(l) => {
                    want.insert((Kind::SystemFree, *l));
                }
                Issue::OwnedFree(l) => {
                    want.insert((Kind::OwnedFree, *l));
                }
                Issue::Double(l) => {
                    want.insert((Kind::Double, *l));
                }
                _ => {}
            }
        }
        let mut want_bad: Vec<Vec<u8>> = p.files.iter().filter(|f| f.owned.is_err()).map(|f| f.e.name.clone()).collect();
        want_bad.sort();
        if bad != want_bad {
            return self.fail(
                &["C11"],
                "unscannable files",
                format!("reports {:?} instead of {:?}", bad.iter().map(|n| show(n)).collect::<Vec<_>>(), want_bad.iter().map(|n| show(n)).collect::<Vec<_>>()),
            );
        }
        // What is left of an unscannable file may count as owned or not; overlaps within one file
        // may be reported or not.
        let mut loose: BTreeSet<(Kind, Loc)> = self_overlaps(&geo, &img, &p).into_iter().map(|l| (Kind::Double, l)).collect();
        for f in p.files.iter().filter(|f| f.owned.is_err()) {
            loose.extend(refimg::reachable(&geo, &img, &f.e).into_iter().map(|l| (Kind::Leak, l)));
        }
        let d1: Vec<_> = want.difference(&got).filter(|x| !loose.contains(x)).cloned().collect();
        let d2: Vec<_> = got.difference(&want).filter(|x| !loose.contains(x)).cloned().collect();
        if !d1.is_empty() || !d2.is_empty() {
            return self.fail(
                &["C11"],
                "report",
                format!("not reported: {:?}; wrongly reported: {:?}", &d1[..d1.len().min(3)], &d2[..d2.len().min(3)]),
            );
        }
        // The owners named are owners.
        let system: Vec<Loc> = geo.system_locs().into_iter().chain(p.dir.iter().copied()).chain(p.border).collect();
        for (l, n) in &named {
            let file = p.files.iter().any(|f| f.e.name == *n && f.owned.as_ref().map_or(false, |o| o.contains(l)));
            let sys = system.contains(l);
            if !file && !sys {
                return self.fail(&["C11"], "owner", format!("names {} as an owner of {:?}", show(n), l));
            }
        }
        self.stats.hit(if any { "damaged images validated" } else { "sound images validated" });
        self.stats.hit("work");
        for (k, _) in &want {
            self.stats.hit(match k {
                Kind::Leak => "expected: lost sector",
                Kind::SystemFree => "expected: system sector free",
                Kind::OwnedFree => "expected: owned sector free",
                Kind::Double => "expected: sector claimed twice",
            });
        }
        self.stats.add("expected: unscannable file", want_bad.len() as u64);
        Ok(())
    }
}
