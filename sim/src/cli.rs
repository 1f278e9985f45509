//! C17: sessions of cdisk commands.  Every command is a process of its own running the real cdisk
//! code (this same program, started with CBMSIM_CDISK set) on an image file; what it leaves and
//! prints is compared with a model.  The process can be killed between any two sector writes, and
//! its sector accesses can fail.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

use crate::base::Sim;
use crate::content;
use crate::dev::{self, show};
use crate::geo::{Geo, Kind, Loc, GEOS, PAD};
use crate::prefill::{self, Built};
use crate::refimg::{chain, chain_bytes, dangerous, fsck, parse, trim_pad, Issue, PFile, Parsed, Scheme};
use crate::rng::{hash2, hash_bytes};
use crate::run::Outcome;
use crate::scenario::{Op, Scn, K};
use crate::world::R;

#[cfg(feature = "cdisk")]
#[allow(dead_code)]
mod cdisk {
    include!(concat!(env!("OUT_DIR"), "/cdisk.rs"));
    /// Whatever main returns is reported the way the runtime would.
    pub fn run() -> std::process::ExitCode {
        std::process::Termination::report(main())
    }
}

#[cfg(not(feature = "cdisk"))]
mod cdisk {
    pub fn run() -> std::process::ExitCode {
        std::process::ExitCode::from(2)
    }
}

// ---- the child: one cdisk command ----

fn numbers(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.parse().ok()).collect()
}

fn mark(name: &'static [u8]) {
    unsafe {
        let fd = libc::open(name.as_ptr() as *const libc::c_char, libc::O_CREAT | libc::O_WRONLY, 0o644);
        if fd >= 0 {
            libc::close(fd);
        }
    }
}

/// If this process is meant to be a cdisk command, be one and return its exit code.
pub fn maybe_child() -> Option<std::process::ExitCode> {
    let plan = std::env::var("CBMSIM_CDISK").ok()?;
    let limit = |what, n: u64| unsafe {
        let r = libc::rlimit { rlim_cur: n, rlim_max: n };
        libc::setrlimit(what, &r);
    };
    limit(libc::RLIMIT_CPU, 20);
    limit(libc::RLIMIT_CORE, 0);
    limit(libc::RLIMIT_FSIZE, 64 << 20);
    limit(libc::RLIMIT_AS, 4 << 30);
    let p = numbers(&plan);
    if p.len() == 4 {
        use cbm::disk::sim::{set_hook, Access};
        let (kill, mask) = (p[0], p[1]);
        let (mut after, mut burst) = (p[2], p[3]);
        let mut writes = 0u64;
        set_hook(Some(Box::new(move |a, _, _, _| {
            let bit = match a {
                Access::Read => 1,
                Access::Write => 2,
                Access::Sync => 4,
            };
            if a == Access::Write {
                writes += 1;
                if writes == kill {
                    mark(b"killed\0");
                    unsafe { libc::_exit(137) };
                }
            }
            if mask & bit != 0 && burst > 0 {
                if after > 0 {
                    after -= 1;
                } else {
                    burst -= 1;
                    mark(b"fired\0");
                    return Err(io::Error::from_raw_os_error(libc::EIO));
                }
            }
            Ok(())
        })));
    }
    if std::env::var("CBMSIM_RO").is_ok() {
        // Somebody else's file, which may only be read.
        unsafe {
            libc::setfsuid(65534);
        }
    }
    Some(cdisk::run())
}

// ---- the session ----

/// All "(track,sector" pairs of a text.
fn pairs(text: &str) -> Vec<Loc> {
    let mut v = vec![];
    for part in text.split('(').skip(1) {
        let end = part.find(|c: char| !(c.is_ascii_digit() || c == ',')).unwrap_or(part.len());
        if let Some((a, b)) = part[..end].split_once(',') {
            if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                v.push((a, b));
            }
        }
    }
    v
}

fn digits(text: &str) -> Vec<u64> {
    text.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
}

/// What a verbose listing says about one file.
fn verbose(geo: &Geo, img: &[u8], f: &PFile, level: usize, head: &str, details: &[&str], unique: bool) -> Result<(), String> {
    let e = &f.e;
    match e.scheme {
        Scheme::Rel => {
            let side = (e.extra[0], e.extra[1]);
            if pairs(head).first() != Some(&side) || digits(head).last() != Some(&(e.extra[2] as u64)) {
                return Err(format!("{:?} shows neither side sector {:?} nor record length {}", head, side, e.extra[2]));
            }
        }
        Scheme::Seq | Scheme::Vlir => {
            let want: Vec<u64> = (4..9).map(|i| e.extra[i] as u64 + if i == 4 { 1900 } else { 0 }).collect();
            let got = digits(head);
            if !got.windows(5).any(|w| w == &want[..]) {
                return Err(format!("{:?} does not show the date {:?}", head, want));
            }
        }
        Scheme::Linear => {}
    }
    if level < 2 || !unique {
        return Ok(());
    }
    let owned = match f.owned {
        Ok(ref v) => v,
        Err(_) => return Ok(()),
    };
    let starts = |p: &str| details.iter().filter(|l| l.starts_with(p)).cloned().collect::<Vec<&str>>();
    let index = geo.sector(img, e.first);
    let all = (0..127).find(|i| index[2 + i * 2] == 0 && index[3 + i * 2] == 0).unwrap_or(127);
    let available = (0..all).rev().find(|i| index[2 + i * 2] != 0).map(|i| i + 1).unwrap_or(all);
    if level == 2 {
        if e.scheme == Scheme::Vlir {
            let l = starts("VLIR records");
            if l.len() != 1 || digits(l[0]) != vec![available as u64] {
                return Err(format!("{:?} instead of {} records", l, available));
            }
        }
    } else {
        let pos = starts("Directory position");
        if pos.len() != 1 || pairs(pos[0]) != vec![e.pos.loc] {
            return Err(format!("{:?} instead of {:?}", pos, e.pos.loc));
        }
        let info = (e.extra[0], e.extra[1]);
        let has_info = matches!(e.scheme, Scheme::Seq | Scheme::Vlir);
        let mut got = vec![];
        for p in &["Occupied sectors", "Data sectors", "Side sectors", "VLIR record sector", "Record "] {
            for l in starts(p) {
                got.extend(pairs(l));
            }
        }
        let mut want: Vec<Loc> = owned.iter().filter(|l| !(has_info && **l == info)).cloned().collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("lists {} sectors, the file has {}; details {:?}", got.len(), want.len(), &details[..details.len().min(4)]));
        }
        if e.scheme == Scheme::Linear && starts("Occupied sectors").first().and_then(|l| pairs(l).first().cloned()) != Some(e.first) {
            return Err("the sectors are not listed from the first on".into());
        }
        if e.scheme == Scheme::Vlir {
            let l = starts("Record ");
            for (i, l) in l.iter().enumerate() {
                let mut record: Vec<Loc> = vec![];
                if index[2 + i * 2] != 0 {
                    if let Ok(c) = chain(geo, img, (index[2 + i * 2], index[3 + i * 2])) {
                        record = c.iter().map(|x| x.0).collect();
                    }
                }
                if digits(l).first() != Some(&(i as u64)) || pairs(l) != record {
                    return Err(format!("{:?} but record {} has {} sectors", l, i, record.len()));
                }
            }
            if l.len() != available {
                return Err(format!("lists {} records of {}", l.len(), available));
            }
        }
    }
    if matches!(e.scheme, Scheme::Seq | Scheme::Vlir) && e.extra[0] != 0 {
        let b = geo.sector(img, (e.extra[0], e.extra[1]));
        let w = |i: usize| format!("0x{:04x}", u16::from_le_bytes([b[i], b[i + 1]]));
        let want = [w(0x47), w(0x49), w(0x4B)];
        let text = details.join(" ");
        let mut rest = &text[..];
        for x in &want {
            match rest.find(&x[..]) {
                Some(i) => rest = &rest[i + 6..],
                None => return Err(format!("the info block's addresses {:?} are not shown", want)),
            }
        }
    }
    Ok(())
}

/// A hex dump: sections, each started by a line with its numbers, of rows of an offset, up to 16
/// bytes and the same as text.
fn dumped(text: &str, want: &[(Vec<u64>, Vec<u8>)]) -> Result<(), String> {
    let mut got: Vec<(Vec<u64>, Vec<u8>)> = vec![];
    for l in text.lines() {
        if l.starts_with("Error table:") {
            break;
        }
        if l.starts_with("Record") || l.starts_with("track ") {
            got.push((digits(l), vec![]));
            continue;
        }
        let (head, row) = match l.split_once(": ") {
            Some(x) => x,
            None => continue,
        };
        let off = match usize::from_str_radix(head, 16) {
            Ok(n) if head.len() >= 4 => n,
            _ => continue,
        };
        let data = match got.last_mut() {
            Some(x) => &mut x.1,
            None => return Err(format!("row {:?} outside of any section", l)),
        };
        if row.is_empty() && off == 0 {
            continue;
        }
        if off != data.len() {
            return Err(format!("row {:?} after {} bytes", l, data.len()));
        }
        let from = data.len();
        for x in row.get(..48.min(row.len())).unwrap_or("").split(' ').take(16) {
            match u8::from_str_radix(x, 16) {
                Ok(b) if x.len() == 2 => data.push(b),
                _ => break,
            }
        }
        let chars: String = data[from..].iter().map(|b| if (0x20..0x7F).contains(b) { *b as char } else { '.' }).collect();
        if row.get(48..) != Some(&chars[..]) {
            return Err(format!("row {:?} does not end with {:?}", l, chars));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} sections instead of {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        if g.0 != w.0 {
            return Err(format!("section {:?} where {:?} belongs", g.0, w.0));
        }
        if g.1 != w.1 {
            return Err(format!("section {:?} shows {} bytes, {} expected (or different ones)", g.0, g.1.len(), w.1.len()));
        }
    }
    Ok(())
}

#[derive(Clone)]
struct F {
    name: Vec<u8>,
    attr: u8,
    /// Contents, if the file is a plain chain (or GEOS sequential).
    data: Option<Vec<u8>>,
    /// For other files: their sectors as they must stay.
    fixed: Vec<(Loc, Vec<u8>)>,
    built: Option<Built>,
}

struct Out {
    code: Option<i32>,
    killed: bool,
    fired: bool,
    out: Vec<u8>,
    err: String,
}

impl Out {
    fn error(&self) -> bool {
        self.err.contains("Error:") || self.err.contains("error:")
    }
}

#[derive(Clone, Copy, Default)]
struct Plan {
    kill: u32,
    mask: u32,
    after: u32,
    burst: u32,
}

struct Session {
    s: Sim,
    dir: PathBuf,
    image: String,
    img: Vec<u8>,
    files: Vec<F>,
    formatted: bool,
    /// Sectors may be lost and counts and entry sizes stale, after a kill or an error.
    leaky: bool,
    /// Sectors allocated by hand.
    held: BTreeSet<Loc>,
    plan: Plan,
    uid: u32,
    /// The next command may not write the image.
    locked: bool,
}

/// Names as typed, and their meaning on the disk.
fn text_name(i: u32) -> String {
    match i % 40 {
        0 => "a".into(),
        1 => "sixteencharnames".into(),
        2 => "sixteencharnamet".into(),
        3 => "with space".into(),
        4 => "1.2-3+4".into(),
        5 => "Mixed".into(),
        6 => "mixed".into(),
        7 => "dir".into(),
        n => format!("file{:02}", n),
    }
}

fn petscii(text: &str) -> Vec<u8> {
    cbm::Petscii::from(text).as_bytes().to_vec()
}

/// The text for a name made of plain characters.
fn typeable(name: &[u8]) -> Option<String> {
    let mut s = String::new();
    for b in name {
        s.push(match *b {
            b'A'..=b'Z' => (b | 0x20) as char,
            b'0'..=b'9' | b' ' | b'.' | b'+' | b'-' => *b as char,
            _ => return None,
        });
    }
    if s.is_empty() || s.starts_with('-') || s.trim() != s {
        None
    } else {
        Some(s)
    }
}

fn letter(attr: u8) -> &'static str {
    match attr & 0x0F {
        0 => "del",
        1 => "seq",
        2 => "prg",
        3 => "usr",
        4 => "rel",
        _ => "unk",
    }
}

impl Session {
    fn geo(&self) -> Geo {
        self.s.geo
    }

    fn run(&mut self, args: &[&str], stdin: Option<&str>) -> R<Out> {
        let plan = std::mem::take(&mut self.plan);
        self.run_with(args, stdin, plan)
    }

    fn run_with(&mut self, args: &[&str], stdin: Option<&str>, plan: Plan) -> R<Out> {
        let file = |n: &str| self.dir.join(n);
        for n in ["killed", "fired"] {
            let _ = fs::remove_file(file(n));
        }
        let stdin = match stdin {
            Some(n) => Stdio::from(fs::File::open(file(n)).expect("source")),
            None => Stdio::null(),
        };
        let exe = std::env::current_exe().expect("own program");
        let image = file(&self.image);
        let locked = std::mem::take(&mut self.locked) && image.exists();
        let mode = |m| {
            let _ = fs::set_permissions(&image, fs::Permissions::from_mode(m));
        };
        if locked {
            mode(0o444);
            self.s.stats.hit("commands without write permission");
        }
        let mut command = Command::new(exe);
        if locked {
            command.env("CBMSIM_RO", "1");
        }
        let status = command
            .args(args)
            .current_dir(&self.dir)
            .env("CBMSIM_CDISK", format!("{},{},{},{}", plan.kill, plan.mask, plan.after, plan.burst))
            .env("RUST_BACKTRACE", "0")
            .stdin(stdin)
            .stdout(fs::File::create(file("out")).expect("scratch"))
            .stderr(fs::File::create(file("err")).expect("scratch"))
            .status();
        if locked {
            mode(0o644);
        }
        let status = match status {
            Ok(s) => s,
            Err(e) => panic!("cannot start a command: {}", e),
        };
        let o = Out {
            code: status.code(),
            killed: file("killed").exists(),
            fired: file("fired").exists(),
            out: fs::read(file("out")).expect("scratch"),
            err: String::from_utf8_lossy(&fs::read(file("err")).expect("scratch")).into_owned(),
        };
        self.s.stats.hit("commands");
        if o.killed {
            self.s.stats.hit("fault: process killed between sector writes");
        }
        if o.fired {
            self.s.stats.hit("fault: device error inside a command");
        }
        let line = args.join(" ");
        let (code, err) = (o.code, o.err.trim().to_string());
        self.s.note(|| format!("    cdisk {} -> {:?} {}", line, code, err));
        if let Some(sig) = status.signal() {
            return self.s.fail("endless", format!("cdisk {}: ended by signal {} (running too long or out of bounds)", line, sig));
        }
        if o.code == Some(101) || o.err.contains("panicked") {
            return self.s.fail("panic", format!("cdisk {}: {}", line, o.err.trim()));
        }
        Ok(o)
    }

    /// Free sectors for files.
    fn free(&self, img: &[u8]) -> usize {
        self.geo().free_data(img)
    }

    /// A kill between the two sectors of a map left counts that belong to another bitmap; the
    /// allocator may then stop early.
    fn stale(&self, img: &[u8]) -> bool {
        let geo = self.geo();
        self.leaky && (1..=geo.last_std()).any(|t| img[geo.count_off(t)] != geo.count_bits(img, t))
    }

    fn now(&self) -> Vec<u8> {
        fs::read(self.dir.join(&self.image)).unwrap_or_default()
    }

    fn put(&mut self, name: &str, data: &[u8]) {
        fs::write(self.dir.join(name), data).expect("scratch file");
    }

    fn pick(&self, i: u32) -> Option<(usize, String)> {
        let v: Vec<(usize, String)> = self
            .files
            .iter()
            .enumerate()
            .filter_map(|(k, f)| typeable(&f.name).map(|t| (k, t)))
            // The first of two equal names is the one that is found.
            .filter(|(k, _)| !self.files[..*k].iter().any(|g| g.name == self.files[*k].name))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[i as usize % v.len()].clone())
        }
    }

    fn model(&mut self, built: Vec<Built>) {
        let geo = self.geo();
        self.files = built
            .into_iter()
            .map(|b| F {
                name: trim_pad(&b.name),
                attr: b.attr,
                data: match b.scheme {
                    Scheme::Linear | Scheme::Seq => Some(content::bytes(b.uid, 0, b.len)),
                    _ => None,
                },
                fixed: match b.scheme {
                    Scheme::Linear => vec![],
                    _ => b.owned.iter().map(|l| (*l, geo.sector(&self.img, *l).to_vec())).collect(),
                },
                built: Some(b),
            })
            .collect();
    }

    fn missing(&self, p: &Parsed, img: &[u8], f: &F) -> Option<String> {
        let geo = self.geo();
        // Several entries may carry the same name.
        let mut why = format!("{} is gone", show(&f.name));
        for g in p.files.iter().filter(|g| g.e.name == f.name) {
            if g.e.attr != f.attr {
                why = format!("{} has attributes {:02x}, not {:02x}", show(&f.name), g.e.attr, f.attr);
                continue;
            }
            if let Some(ref d) = f.data {
                match chain_bytes(&geo, img, g.e.first) {
                    Ok(ref b) if b == d => {}
                    Ok(b) => {
                        let at = b.iter().zip(d).position(|(x, y)| x != y).unwrap_or(b.len().min(d.len()));
                        why = format!("{} has {} bytes, {} expected, first difference at {}", show(&f.name), b.len(), d.len(), at);
                        continue;
                    }
                    Err(e) => {
                        why = format!("{} cannot be followed: {:?}", show(&f.name), e);
                        continue;
                    }
                }
            }
            if let Some((l, _)) = f.fixed.iter().find(|(l, d)| geo.sector(img, *l) != &d[..]) {
                why = format!("sector {:?} of {} changed", l, show(&f.name));
                continue;
            }
            return None;
        }
        Some(why)
    }

    fn issues(&self, p: &Parsed, img: &[u8]) -> Vec<Issue> {
        let v = fsck(&self.geo(), img, p);
        if self.leaky {
            return dangerous(&v);
        }
        v.into_iter().filter(|i| !matches!(i, Issue::Leak(l) if self.held.contains(l))).collect()
    }

    /// The image holds exactly the model's files and is consistent.
    fn check(&mut self, what: &str) -> R<()> {
        let img = self.now();
        if img.len() != self.geo().size() {
            return self.s.fail("size", format!("after {}: the image has {} bytes", what, img.len()));
        }
        if self.formatted {
            let p = parse(&self.geo(), &img);
            for f in &self.files {
                if let Some(m) = self.missing(&p, &img, f) {
                    return self.s.fail("content", format!("after {}: {}", what, m));
                }
            }
            if p.files.len() != self.files.len() {
                let mut names: Vec<String> = p.files.iter().map(|f| show(&f.e.name)).collect();
                for f in &self.files {
                    if let Some(i) = names.iter().position(|n| *n == show(&f.name)) {
                        names.remove(i);
                    }
                }
                return self.s.fail("content", format!("after {}: {} files listed, {} expected; surplus {:?}", what, p.files.len(), self.files.len(), names));
            }
            let issues = self.issues(&p, &img);
            if !issues.is_empty() {
                return self.s.fail("inconsistent", format!("after {}: {:?}", what, &issues[..issues.len().min(3)]));
            }
            // What is not under the file system's control stays.
            let (geo, n) = (self.geo(), self.geo().data_size());
            let last: Loc = (geo.last_std() + 1, 0);
            let from = if geo.valid(last) { geo.off(last) } else { n };
            if img[from..] != self.img[from..] {
                return self.s.fail("content", format!("after {}: bytes beyond the standard tracks changed", what));
            }
        }
        self.s.stats.states.insert(hash_bytes(&img));
        self.img = img;
        Ok(())
    }

    fn unchanged(&mut self, what: &str) -> R<()> {
        let img = self.now();
        if img != self.img {
            let at = img.iter().zip(&self.img).position(|(a, b)| a != b);
            return self.s.fail("modified", format!("{} changed the image (length {}, first difference {:?})", what, img.len(), at));
        }
        Ok(())
    }

    fn refused(&mut self, what: &str, o: &Out) -> R<()> {
        if o.killed {
            return self.unchanged(what);
        }
        if !o.error() {
            return self.s.fail("not refused", format!("{} reported no error", what));
        }
        self.s.stats.hit("refused commands");
        self.unchanged(what)
    }

    /// A command did not finish: whichever of the candidate outcomes is there becomes the model.
    fn settle(&mut self, what: &str, name: &[u8], candidates: &dyn Fn(&[u8]) -> bool, attr: Option<u8>) -> R<()> {
        self.leaky = true;
        let img = self.now();
        let geo = self.geo();
        let p = parse(&geo, &img);
        self.files.retain(|f| f.name != name || f.data.is_none());
        let found = p.files.iter().find(|f| f.e.name == name && f.e.scheme == Scheme::Linear);
        if let Some(f) = found {
            match chain_bytes(&geo, &img, f.e.first) {
                Ok(b) => {
                    if !candidates(&b) {
                        return self.s.fail("content", format!("after {}: {} holds {} bytes that are neither the old nor the new contents", what, show(name), b.len()));
                    }
                    let attr = match attr {
                        // A file being written may not be closed yet.
                        Some(a) if f.e.attr & 0x7F == a & 0x7F => f.e.attr,
                        Some(a) => return self.s.fail("content", format!("after {}: attributes {:02x}, not {:02x}", what, f.e.attr, a)),
                        None => f.e.attr,
                    };
                    self.files.push(F { name: name.to_vec(), attr, data: Some(b), fixed: vec![], built: None });
                }
                Err(e) => return self.s.fail("content", format!("after {}: {} cannot be followed: {:?}", what, show(name), e)),
            }
        }
        self.check(what)
    }

    /// An equal name elsewhere would make the outcome ambiguous.
    fn has(&self, name: &[u8]) -> bool {
        self.files.iter().any(|f| f.name == name)
    }

    fn create(&mut self, a: [u32; 4], len: usize) -> R<()> {
        self.uid += 1;
        let uid = self.uid;
        let text = text_name(a[0]);
        let name = petscii(&text);
        let data = content::bytes(uid, 0, len);
        let (flag, attr) = [("prg", 0x82u8), ("seq", 0x81), ("usr", 0x83), ("", 0x81)][a[1] as usize % 4];
        let image = self.image.clone();
        let mut args = vec![&image[..], "write"];
        if !flag.is_empty() {
            args.push(if a[1] & 4 == 0 { "-t" } else { "--type" });
            args.push(flag);
        }
        let mut stdin = None;
        let src = match a[2] % 3 {
            0 => "src".to_string(),
            1 => {
                stdin = Some("src");
                "-".to_string()
            }
            _ => text.clone(),
        };
        self.put(stdin.unwrap_or(&src[..]), &data);
        args.push(&src);
        if src != text {
            args.push(&text);
        }
        let what = format!("write {} ({} bytes)", text, len);
        let before_free = self.free(&self.img);
        let existed = self.has(&name);
        let o = self.run(&args, stdin)?;
        if src == text {
            let _ = fs::remove_file(self.dir.join(&src));
        }
        if !self.formatted || existed {
            return if o.fired { self.unchanged(&what) } else { self.refused(&what, &o) };
        }
        if o.killed || (o.fired && o.error()) {
            return self.settle(&what, &name, &|b| data.starts_with(b), Some(attr));
        }
        if o.error() {
            // Only for want of space.
            let img = self.now();
            let p = parse(&self.geo(), &img);
            let free = self.free(&img);
            match p.find(&name) {
                Some(f) => {
                    let b = chain_bytes(&self.geo(), &img, f.e.first).unwrap_or_default();
                    if !data.starts_with(&b) || b.len() >= data.len() {
                        return self.s.fail("content", format!("{} failed, leaving {} bytes that are not a prefix of the source", what, b.len()));
                    }
                    if free > 0 && !self.stale(&img) {
                        return self.s.fail("space", format!("{} failed ({}) with {} blocks free", what, o.err.trim(), free));
                    }
                    self.s.stats.hit("disk full");
                    self.files.push(F { name, attr: f.e.attr, data: Some(b), fixed: vec![], built: None });
                }
                None => {
                    let slots = p.free_slots.len();
                    if free > 0 && slots > 0 && !self.stale(&img) {
                        return self.s.fail("space", format!("{} failed ({}) with {} blocks and {} slots free", what, o.err.trim(), free, slots));
                    }
                    // The directory may have grown, but only on its own track.
                    if free != before_free {
                        return self.s.fail("space", format!("{} was refused but took {} blocks", what, before_free as i64 - free as i64));
                    }
                    let geo = self.geo();
                    let room = (0..geo.sectors(geo.dir_track())).any(|s| geo.is_free(&img, (geo.dir_track(), s)));
                    if free > 0 && room && !self.stale(&img) {
                        return self.s.fail("space", format!("{} failed ({}) although the directory can grow", what, o.err.trim()));
                    }
                }
            }
            return self.check(&what);
        }
        let blocks = (len.max(1) + 253) / 254;
        self.files.push(F { name: name.clone(), attr, data: Some(data), fixed: vec![], built: None });
        self.check(&what)?;
        self.s.stats.hit("work");
        let p = parse(&self.geo(), &self.img);
        let e = &p.find(&name).unwrap().e;
        if e.size as usize != blocks && !o.fired {
            return self.s.fail("listing", format!("{}: listed with {} blocks instead of {}", what, e.size, blocks));
        }
        Ok(())
    }

    fn append(&mut self, a: [u32; 4], len: usize) -> R<()> {
        self.uid += 1;
        let (k, text) = match self.pick(a[0]) {
            Some(x) => x,
            None => return Ok(()),
        };
        let f = self.files[k].clone();
        let more = content::bytes(self.uid, 0, len);
        let image = self.image.clone();
        let what = format!("append {} bytes to {}", len, text);
        self.put("src", &more);
        let o = if a[2] % 2 == 0 {
            self.run(&[&image, "append", "src", &text], None)?
        } else {
            self.run(&[&image, "append", "-", &text], Some("src"))?
        };
        let linear = f.data.is_some() && f.fixed.is_empty();
        if !linear {
            // Not something that can be appended to.
            return if o.fired { self.check(&what) } else { self.refused(&what, &o) };
        }
        let old = f.data.clone().unwrap();
        let mut all = old.clone();
        all.extend_from_slice(&more);
        if o.killed || (o.fired && o.error()) {
            return self.settle(&what, &f.name, &|b| b.len() >= old.len() && all.starts_with(b), Some(f.attr));
        }
        if o.error() {
            let img = self.now();
            let free = self.free(&img);
            let p = parse(&self.geo(), &img);
            let b = p.find(&f.name).and_then(|f| chain_bytes(&self.geo(), &img, f.e.first).ok()).unwrap_or_default();
            if b.len() < old.len() || !all.starts_with(&b) || b.len() >= all.len() {
                return self.s.fail("content", format!("{} failed, leaving {} of {} bytes", what, b.len(), old.len()));
            }
            if free > 0 && !self.stale(&img) {
                return self.s.fail("space", format!("{} failed ({}) with {} blocks free", what, o.err.trim(), free));
            }
            self.s.stats.hit("disk full");
            self.files[k].data = Some(b);
            return self.check(&what);
        }
        self.files[k].data = Some(all);
        self.check(&what)?;
        self.s.stats.hit("work");
        Ok(())
    }

    fn read(&mut self, a: [u32; 4]) -> R<()> {
        let (k, text) = match self.pick(a[0]) {
            Some(x) => x,
            None => return Ok(()),
        };
        let f = self.files[k].clone();
        let image = self.image.clone();
        let what = format!("read {}", text);
        let dest = self.dir.join("dest");
        let _ = fs::remove_file(&dest);
        self.locked = a[2] % 4 == 3;
        if a[1] & 2 == 2 && !self.locked {
            // Something longer is there already.
            self.put("dest", &vec![7; 100_000]);
        }
        let own = self.dir.join(&text);
        let (o, got) = match a[1] % 5 {
            0 => {
                let o = self.run(&[&image, "read", &text, "-"], None)?;
                let b = o.out.clone();
                (o, Some(b))
            }
            1 if !own.exists() => {
                let o = self.run(&[&image, "read", &text], None)?;
                let b = fs::read(&own).ok();
                let _ = fs::remove_file(&own);
                (o, b)
            }
            _ => {
                let o = self.run(&[&image, "read", &text, "dest"], None)?;
                (o, fs::read(&dest).ok())
            }
        };
        self.unchanged(&what)?;
        if let Some(ref want) = f.data {
            if o.error() && o.fired {
                return Ok(());
            }
            if o.error() {
                return self.s.fail("read", format!("{}: {}", what, o.err.trim()));
            }
            if got.as_ref() != Some(want) {
                let n = got.map(|g| g.len());
                return self.s.fail("read", format!("{} gave {:?} bytes, {} expected (or different ones)", what, n, want.len()));
            }
            self.s.stats.hit("files read back");
            self.s.stats.hit("work");
        }
        Ok(())
    }

    fn geosread(&mut self, a: [u32; 4]) -> R<()> {
        let v: Vec<(usize, String)> = (0..self.files.len())
            .filter(|k| self.files[*k].built.as_ref().and_then(|b| b.export.as_ref().filter(|_| !b.too_long)).is_some())
            .filter_map(|k| typeable(&self.files[k].name).map(|t| (k, t)))
            .filter(|(k, _)| !self.files[..*k].iter().any(|g| g.name == self.files[*k].name))
            .collect();
        if v.is_empty() {
            return Ok(());
        }
        let (k, text) = v[a[0] as usize % v.len()].clone();
        let f = self.files[k].clone();
        let mut want = f.built.as_ref().and_then(|b| b.export.clone()).unwrap();
        for i in 0..16 {
            want[3 + i] = *f.name.get(i).unwrap_or(&PAD);
        }
        let image = self.image.clone();
        let _ = fs::remove_file(self.dir.join("dest"));
        self.locked = a[2] % 4 == 3;
        let o = if a[1] & 1 == 0 {
            self.run(&[&image, "geosread", &text, "dest"], None)?
        } else {
            self.run(&[&image, "geosread", &text, "-"], None)?
        };
        let what = format!("geosread {}", text);
        self.unchanged(&what)?;
        if o.error() && o.fired {
            return Ok(());
        }
        if o.error() {
            return self.s.fail("read", format!("{}: {}", what, o.err.trim()));
        }
        let got = if a[1] & 1 == 0 { fs::read(self.dir.join("dest")).unwrap_or_default() } else { o.out };
        if got != want {
            let at = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            return self.s.fail("export", format!("{} gave {} bytes, {} expected, first difference at {}", what, got.len(), want.len(), at));
        }
        self.s.stats.hit("exports");
        self.s.stats.hit("work");
        Ok(())
    }

    fn rename(&mut self, a: [u32; 4]) -> R<()> {
        let (k, text) = match self.pick(a[0]) {
            Some(x) => x,
            None => return Ok(()),
        };
        let to = text_name(a[1]);
        let name = petscii(&to);
        let image = self.image.clone();
        let what = format!("rename {} {}", text, to);
        let exists = self.has(&name);
        let o = self.run(&[&image, "rename", &text, &to], None)?;
        if exists {
            if name == self.files[k].name {
                // To itself: either answer is fine.
                return self.unchanged(&what);
            }
            return if o.fired { self.unchanged(&what) } else { self.refused(&what, &o) };
        }
        if o.killed || (o.fired && o.error()) {
            self.leaky = true;
            let img = self.now();
            if parse(&self.geo(), &img).find(&name).is_some() {
                self.files[k].name = name;
            }
            return self.check(&what);
        }
        if o.error() {
            return self.s.fail("refused", format!("{}: {}", what, o.err.trim()));
        }
        self.files[k].name = name;
        self.s.stats.hit("work");
        self.check(&what)
    }

    fn delete(&mut self, a: [u32; 4]) -> R<()> {
        let (k, text) = match self.pick(a[0]) {
            Some(x) => x,
            None => return Ok(()),
        };
        let image = self.image.clone();
        let what = format!("delete {}", text);
        let before = self.free(&self.img);
        let o = self.run(&[&image, "delete", &text], None)?;
        let mut f = self.files.remove(k);
        if o.killed || (o.fired && o.error()) {
            self.leaky = true;
            let img = self.now();
            let p = parse(&self.geo(), &img);
            let same = self.files.iter().filter(|g| g.name == f.name).count();
            if p.files.iter().filter(|g| g.e.name == f.name).count() > same {
                // Not deleted, or only half.
                f.attr = p.find(&f.name).unwrap().e.attr;
                self.files.insert(k, f);
            }
            return self.check(&what);
        }
        if o.error() {
            return self.s.fail("refused", format!("{}: {}", what, o.err.trim()));
        }
        self.s.stats.hit("work");
        self.check(&what)?;
        if !self.leaky && self.free(&self.img) <= before && f.attr & 0x0F != 0 {
            let own = f.built.as_ref().map(|b| b.owned.len()).unwrap_or(1);
            if own > 0 {
                return self.s.fail("space", format!("{} gave back no space", what));
            }
        }
        Ok(())
    }

    /// The listing line of a file, as (size, name, type and flags).
    fn listing(&mut self, a: [u32; 4]) -> R<()> {
        let image = self.image.clone();
        let flag = ["", "-v", "-vv", "-vvv"][[0usize, 0, 0, 1, 2, 3][a[0] as usize % 6]];
        let mut args = vec![&image[..], "dir"];
        if !flag.is_empty() {
            args.push(flag);
        }
        self.locked = a[2] % 4 == 3;
        let o = self.run(&args, None)?;
        let what = format!("dir {}", flag);
        self.unchanged(&what)?;
        if !self.formatted || (o.fired && o.error()) {
            return Ok(());
        }
        if o.error() {
            return self.s.fail("listing", format!("{}: {}", what, o.err.trim()));
        }
        let geo = self.geo();
        let text = String::from_utf8_lossy(&o.out).into_owned();
        let lines: Vec<&str> = text.lines().collect();
        let p = parse(&geo, &self.img);
        let lib = |n: &[u8]| cbm::Petscii::from_bytes(n).to_string();
        let no = geo.name_off();
        let disk = lib(&trim_pad(&self.img[no..no + 16]));
        if !lines.first().map(|l| l.contains(&disk)).unwrap_or(false) {
            return self.s.fail("listing", format!("the first line of {} does not show the disk name {}: {:?}", what, disk, lines.first()));
        }
        if !o.fired {
            let free = geo.free_data(&self.img);
            let want = format!("{} blocks free.", free);
            if lines.last() != Some(&&want[..]) && !self.leaky {
                return self.s.fail("listing", format!("{} ends with {:?}, expected {}", what, lines.last(), want));
            }
        }
        if !flag.is_empty() || o.fired {
            // Every file is mentioned, in order, followed by what was asked for in addition.
            let mut at = 0;
            let mut heads = vec![];
            for f in &p.files {
                let n = format!("\"{}\"", lib(&f.e.name));
                let size = f.e.size.to_string();
                match lines[at..].iter().position(|l| l.contains(&n) && (o.fired || l.split_whitespace().next() == Some(&size[..]))) {
                    Some(i) => {
                        heads.push(at + i);
                        at += i + 1;
                    }
                    None => return self.s.fail("listing", format!("{} does not mention {}", what, n)),
                }
            }
            if !flag.is_empty() && !o.fired {
                for (k, f) in p.files.iter().enumerate() {
                    let end = heads.get(k + 1).cloned().unwrap_or(lines.len() - 1);
                    let name = lib(&f.e.name);
                    let head = lines[heads[k]].rsplit_once(&format!("{}\"", name)).map(|x| x.1).unwrap_or("");
                    let details = &lines[heads[k] + 1..end.max(heads[k] + 1)];
                    if let Err(m) = verbose(&geo, &self.img, f, flag.len() - 1, head, details, p.files.iter().filter(|g| g.e.name == f.e.name).count() == 1) {
                        return self.s.fail("listing", format!("{} for {}: {}", what, show(&f.e.name), m));
                    }
                }
                self.s.stats.hit("verbose listings compared");
            }
            return Ok(());
        }
        let shown = &lines[1..lines.len().saturating_sub(1).max(1)];
        if shown.len() != p.files.len() {
            return self.s.fail("listing", format!("{} shows {} files, there are {}", what, shown.len(), p.files.len()));
        }
        for (l, f) in shown.iter().zip(&p.files) {
            let n = lib(&f.e.name);
            let want = (f.e.size.to_string(), n.clone(), f.e.attr);
            let got = l.split_once('"').and_then(|(size, rest)| {
                let (name, rest) = rest.split_at(rest.find(&format!("{}\"", n))?);
                let rest = &rest[n.len() + 1..];
                Some((size.trim().to_string(), name.to_string(), rest.to_string()))
            });
            let ok = match got {
                Some((ref size, ref lead, ref rest)) => {
                    let t = rest.trim();
                    *size == want.0
                        && lead.is_empty()
                        && t.contains(letter(f.e.attr))
                        && t.contains('*') == (f.e.attr & 0x80 == 0)
                        && t.contains('<') == (f.e.attr & 0x40 != 0)
                        && rest.contains("border") == f.e.pos.border
                }
                None => false,
            };
            if !ok {
                return self.s.fail("listing", format!("{} shows {:?} for {:?}", what, l, want));
            }
        }
        self.s.stats.hit("listings compared");
        Ok(())
    }

    fn validate(&mut self, a: [u32; 4]) -> R<()> {
        let image = self.image.clone();
        self.locked = a[2] % 4 == 3;
        let o = self.run(&[&image, "validate"], None)?;
        self.unchanged("validate")?;
        if !self.formatted || (o.fired && o.error()) {
            return Ok(());
        }
        let ok = String::from_utf8_lossy(&o.out).contains("validates successfully");
        let p = parse(&self.geo(), &self.img);
        let clean = fsck(&self.geo(), &self.img, &p).is_empty();
        if clean && (!ok || o.error()) {
            return self.s.fail("validate", format!("validate complains about a sound image: {} {}", String::from_utf8_lossy(&o.out).trim(), o.err.trim()));
        }
        let leaks = fsck(&self.geo(), &self.img, &p).iter().any(|i| matches!(i, Issue::Leak(_)));
        if leaks && (ok || !o.error()) {
            return self.s.fail("validate", "validate finds nothing although sectors are lost".into());
        }
        let issues = fsck(&self.geo(), &self.img, &p);
        let text = String::from_utf8_lossy(&o.out).into_owned();
        let mut got: Vec<Loc> = text.lines().filter(|l| l.starts_with("Sector misallocated")).flat_map(pairs).collect();
        got.sort();
        let mut lost: Vec<Loc> = issues.iter().filter_map(|i| if let Issue::Leak(l) = i { Some(*l) } else { None }).collect();
        lost.sort();
        if issues.iter().all(|i| matches!(i, Issue::Leak(_))) && got != lost {
            return self.s.fail("validate", format!("validate names {:?} instead of the lost sectors {:?}", got, lost));
        }
        self.s.stats.hit("validations");
        Ok(())
    }

    fn bam_show(&mut self, a: [u32; 4]) -> R<()> {
        let image = self.image.clone();
        self.locked = a[2] % 4 == 3;
        let o = self.run(&[&image, "bam", "show"], None)?;
        self.unchanged("bam show")?;
        if !self.formatted || (o.fired && o.error()) {
            return Ok(());
        }
        let text = String::from_utf8_lossy(&o.out).into_owned();
        let geo = self.geo();
        let mut lines = text.lines();
        for t in 1..=geo.last_std() {
            let map: String = (0..geo.sectors(t)).map(|s| if geo.is_free(&self.img, (t, s)) { '.' } else { 'x' }).collect();
            let l = lines.next().unwrap_or("");
            if !l.ends_with(&map) || !l.contains(&format!("{:02}", t)) {
                return self.s.fail("listing", format!("bam show prints {:?} for track {} ({})", l, t, map));
            }
        }
        let want = format!("{} blocks free.", geo.free_data(&self.img));
        if lines.next() != Some(&want) && !self.leaky {
            return self.s.fail("listing", format!("bam show does not end with {}", want));
        }
        self.s.stats.hit("work");
        Ok(())
    }

    fn bam_edit(&mut self, a: [u32; 4]) -> R<()> {
        if !self.formatted {
            return Ok(());
        }
        let geo = self.geo();
        let allocate = a[0] & 1 == 0;
        let all_t = a[0] % 29 == 3;
        let all_s = a[0] % 13 == 4;
        let t = 1 + (a[1] % 40) as u8;
        let s = (a[2] % 21) as u8;
        let image = self.image.clone();
        let ts = if all_t { "all".to_string() } else { t.to_string() };
        let ss = if all_s { "all".to_string() } else { s.to_string() };
        let cmd = if allocate { "allocate" } else { "free" };
        let what = format!("bam {} {} {}", cmd, ts, ss);
        let inside = t <= geo.last_std() && (all_s || s < geo.sectors(t));
        let before = self.img.clone();
        let o = self.run(&[&image, "bam", cmd, &ts, &ss], None)?;
        if o.killed || o.fired {
            self.put(&image, &before);
            return Ok(());
        }
        if !all_t && !inside {
            return self.refused(&what, &o);
        }
        {
            {
                if o.error() {
                    return self.s.fail("refused", format!("{}: {}", what, o.err.trim()));
                }
                let mut want = before.clone();
                let (lo, hi) = if all_t { (1, geo.last_std()) } else { (t, t) };
                for t in lo..=hi {
                    for q in 0..geo.sectors(t) {
                        if all_s || q == s {
                            geo.set_free(&mut want, (t, q), !allocate);
                        }
                    }
                }
                geo.update_counts(&mut want);
                let img = self.now();
                // "all" has only ever meant the first 35 tracks.
                for t in lo..=hi {
                    // (With the bits of sectors that do not exist, which stay as they are.)
                    let bits = |i: &[u8]| -> Vec<bool> { (0..geo.sectors(t).max(24)).map(|s| geo.is_free(i, (t, s))).collect() };
                    if all_t && t > 35 && bits(&img) == bits(&before) {
                        continue;
                    }
                    if bits(&img) != bits(&want) {
                        return self.s.fail("bam", format!("{}: track {} is not marked as asked", what, t));
                    }
                }
                let maps: BTreeMap<usize, usize> = geo.bam_ranges().into_iter().collect();
                let outside = (0..img.len()).find(|i| {
                    img[*i] != before[*i] && !maps.range(..=*i).next_back().map(|(o, n)| i - o < *n).unwrap_or(false)
                });
                if let Some(i) = outside {
                    return self.s.fail("bam", format!("{} changed byte {} outside the map", what, i));
                }
                if !all_t && !self.leaky && img != want {
                    return self.s.fail("bam", format!("{}: the map or its counts are not as they should be", what));
                }
                self.s.stats.hit("map edits");
            }
        }
        // Sectors taken by hand stay taken; anything else would break the disk, and is undone.
        let single = !all_t && !all_s && inside;
        let l: Loc = (t, s);
        if single && allocate && geo.is_free(&before, l) && geo.is_data_track(t) && a[3] & 1 == 0 {
            self.held.insert(l);
            return self.check(&what);
        }
        if single && !allocate && self.held.remove(&l) {
            return self.check(&what);
        }
        self.put(&image, &before);
        Ok(())
    }

    fn dump(&mut self, a: [u32; 4]) -> R<()> {
        let image = self.image.clone();
        let pick = if a[1] & 3 == 0 || !self.formatted { None } else { self.pick(a[0]) };
        let geo = self.geo();
        self.locked = a[2] % 4 == 3;
        let (what, o, want) = match pick {
            None => {
                let o = self.run(&[&image, "dump"], None)?;
                let want: Vec<(Vec<u64>, Vec<u8>)> = (1..=geo.tracks)
                    .flat_map(|t| (0..geo.sectors(t)).map(move |s| (t, s)))
                    .map(|l| (vec![l.0 as u64, l.1 as u64], geo.sector(&self.img, l).to_vec()))
                    .collect();
                ("dump".to_string(), o, want)
            }
            Some((k, text)) => {
                let o = self.run(&[&image, "dump", &text], None)?;
                let f = self.files[k].clone();
                let records = match (f.data, f.built) {
                    (Some(d), _) => vec![d],
                    (None, Some(b)) => b.records.into_iter().map(|r| r.unwrap_or_default()).collect(),
                    _ => vec![],
                };
                let want = records.into_iter().enumerate().map(|(i, r)| (vec![i as u64], r)).collect();
                (format!("dump {}", text), o, want)
            }
        };
        self.unchanged(&what)?;
        if o.error() {
            if o.fired {
                return Ok(());
            }
            return self.s.fail("dump", format!("{}: {}", what, o.err.trim()));
        }
        if let Err(e) = dumped(&String::from_utf8_lossy(&o.out), &want) {
            return self.s.fail("dump", format!("{}: {}", what, e));
        }
        if what == "dump" && geo.errors {
            // The error codes follow, a line for each track.
            let text = String::from_utf8_lossy(&o.out).into_owned();
            let codes: Vec<u8> = text
                .rsplit("Error table:")
                .next()
                .unwrap_or("")
                .lines()
                .filter_map(|l| l.strip_prefix("track ").and_then(|l| l.split_once(':')))
                .flat_map(|(_, l)| l.split_whitespace().filter_map(|x| u8::from_str_radix(x, 16).ok()).collect::<Vec<u8>>())
                .collect();
            if codes[..] != self.img[geo.data_size()..] {
                return self.s.fail("dump", format!("dump shows {} error codes, or different ones", codes.len()));
            }
        }
        self.s.stats.hit("dumps compared");
        Ok(())
    }

    fn format(&mut self, a: [u32; 4]) -> R<()> {
        let image = self.image.clone();
        let name = text_name(a[0]);
        let id = format!("{}{}", (b'0' + (a[1] % 10) as u8) as char, (b'a' + (a[1] / 10 % 26) as u8) as char);
        let what = format!("format {} {}", name, id);
        self.plan.kill = 0;
        if self.plan.mask & 2 != 0 {
            // What a half-finished format leaves is not this property's business.
            self.plan.mask = 0;
        }
        let mask = self.plan.mask;
        let o = self.run(&[&image, "format", &name, &id], None)?;
        if o.error() {
            if o.fired && mask & 4 != 0 {
                // All but the synchronisation happened, possibly.
                let p = self.plan;
                self.plan = Plan::default();
                let o = self.run(&[&image, "format", &name, &id], None)?;
                self.plan = p;
                if o.error() {
                    return self.s.fail("format", format!("{} again: {}", what, o.err.trim()));
                }
            } else if o.fired {
                return self.format_retry(&name, &id);
            } else {
                return self.s.fail("format", format!("{}: {}", what, o.err.trim()));
            }
        }
        self.formatted_as(&what, &name, &id)
    }

    fn format_retry(&mut self, name: &str, id: &str) -> R<()> {
        let image = self.image.clone();
        let o = self.run_with(&[&image, "format", name, id], None, Plan::default())?;
        if o.error() {
            return self.s.fail("format", format!("format after an error: {}", o.err.trim()));
        }
        self.formatted_as("format after an error", name, id)
    }

    fn formatted_as(&mut self, what: &str, name: &str, id: &str) -> R<()> {
        self.files.clear();
        self.held.clear();
        self.leaky = false;
        self.formatted = true;
        let geo = self.geo();
        let img = self.now();
        if img.len() != geo.size() {
            return self.s.fail("size", format!("after {}: the image has {} bytes", what, img.len()));
        }
        self.img = img;
        self.check(what)?;
        let (n, i) = (geo.name_off(), geo.id_off());
        if trim_pad(&self.img[n..n + 16]) != petscii(name) || self.img[i..i + 2] != petscii(id)[..] {
            return self.s.fail("format", format!("{}: the header does not carry the name and id", what));
        }
        let total = geo.std_locs().iter().filter(|l| geo.is_data_track(l.0)).count();
        if geo.free_data(&self.img) != total {
            return self.s.fail("format", format!("{}: {} of {} blocks free", what, geo.free_data(&self.img), total));
        }
        self.s.stats.hit("formats");
        Ok(())
    }

    /// Commands that have to be turned down.
    fn bad(&mut self, a: [u32; 4]) -> R<()> {
        let image = self.image.clone();
        self.put("src", b"data");
        let absent = "notthere";
        let long = "seventeenlettersx";
        let picked = self.pick(a[1]);
        let linear = picked.as_ref().map(|x| self.files[x.0].built.is_none()).unwrap_or(false);
        let existing = picked.map(|x| x.1);
        let args: Vec<&str> = match (a[0] % 26, existing.as_deref()) {
            (0, _) => vec![&image, "read", absent, "dest9"],
            (1, _) => vec![&image, "delete", absent],
            (2, _) => vec![&image, "rename", absent, "other"],
            (3, _) => vec![&image, "append", "src", absent],
            (4, _) => vec![&image, "write", "src", long],
            (5, Some(e)) => vec![&image, "rename", e, long],
            (6, Some(e)) => vec![&image, "write", "no-such-source", e],
            (7, _) => vec![&image, "create"],
            (9, _) => vec![&image, "write", "no-such-source", absent],
            (10, Some(e)) => vec![&image, "append", "no-such-source", e],
            (11, Some(e)) => vec![&image, "read", e, "no-such-dir/dest9"],
            (12, _) => vec![&image, "geosread", absent, "dest9"],
            (13, Some(e)) if linear => vec![&image, "geosread", e, "dest9"],
            (8, _) => vec![&image, "format", long, "x1"],
            // Requests that would be fine if the image could be written.
            (14, _) => vec![&image, "write", "src", absent],
            (15, Some(e)) => vec![&image, "append", "src", e],
            (16, Some(e)) => vec![&image, "rename", e, absent],
            (17, Some(e)) => vec![&image, "delete", e],
            (18, _) => vec![&image, "format", "new", "x1"],
            (19, _) => vec![&image, "bam", if a[2] & 1 == 0 { "free" } else { "allocate" }, "5", "all"],
            // Sectors that are not on the disk, and commands that do not exist.
            (20, _) => vec![&image, "bam", if a[2] & 1 == 0 { "free" } else { "allocate" }, ["0", "36", "41", "81", "255", "256", "x"][a[3] as usize % 7], "1"],
            (21, _) => vec![&image, "bam", if a[2] & 1 == 0 { "free" } else { "allocate" }, "1", ["21", "40", "64", "255", "256", "-1", "x"][a[3] as usize % 7]],
            (22, _) => vec![&image, ["scratch", "Delete", "wipe"][a[3] as usize % 3], absent],
            (23, Some(e)) => vec![&image, "delete", e, "and", "more"],
            (24, _) => vec![&image, "write", "src", absent, "-t", ["xyz", "", "PRGX"][a[3] as usize % 3]],
            (25, _) => vec![&image, "format", "name"],
            _ => return Ok(()),
        };
        if a[0] % 26 == 20 && matches!(args[3], "36" | "41") && self.geo().last_std() >= args[3].parse::<u8>().unwrap_or(0) {
            return Ok(());
        }
        if a[0] % 26 == 21 && args[4].parse::<u8>().map_or(false, |n| n < self.geo().sectors(1)) {
            return Ok(());
        }
        let what = args[1..].join(" ");
        self.plan.kill = 0;
        self.plan.mask = 0;
        self.locked = (14..20).contains(&(a[0] % 26));
        let o = self.run(&args, None)?;
        if self.dir.join("dest9").exists() {
            return self.s.fail("read", "reading a file that does not exist left an output file".into());
        }
        self.refused(&what, &o)
    }

    fn step(&mut self, op: &Op) -> R<()> {
        let a = op.a;
        if !self.formatted {
            return Ok(());
        }
        match op.k {
            K::Kill => {
                self.plan = Plan { kill: 1 + a[0] % 24, ..Default::default() };
                return Ok(());
            }
            K::Fault => {
                self.plan = Plan { kill: 0, mask: a[0] & 7, after: a[1] % 60, burst: a[2].max(1) };
                return Ok(());
            }
            K::Create => self.create(a, a[3] as usize)?,
            K::Write => self.append(a, a[1] as usize)?,
            K::ReadAll => self.read(a)?,
            K::OpenExport => self.geosread(a)?,
            K::Rename => self.rename(a)?,
            K::Delete => self.delete(a)?,
            K::Dir => self.listing(a)?,
            K::Validate => self.validate(a)?,
            K::Info => self.bam_show(a)?,
            K::FlipBam => self.bam_edit(a)?,
            K::RawRead => self.dump(a)?,
            K::Format => self.format(a)?,
            K::BadName => self.bad(a)?,
            _ => return Ok(()),
        }
        self.plan = Plan::default();
        self.s.stats.hit("ops");
        let h = hash2(self.files.len() as u64, self.free(&self.img) as u64);
        self.s.trace(op, h);
        Ok(())
    }

    /// A session from nothing: create, look at the blank image, format.
    fn begin(&mut self) -> R<()> {
        let image = self.image.clone();
        let geo = self.geo();
        let o = self.run(&[&image, "create"], None)?;
        if o.error() {
            return self.s.fail("create", format!("create: {}", o.err.trim()));
        }
        let img = self.now();
        if img.len() != geo.size() || img.iter().any(|b| *b != 0) {
            return self.s.fail("create", format!("create made {} bytes, {} wanted (or not blank)", img.len(), geo.size()));
        }
        self.img = img;
        let o = self.run(&[&image, "create"], None)?;
        self.refused("create over an image", &o)?;
        for args in [&["dir"][..], &["validate"], &["bam", "show"], &["read", "x", "-"], &["delete", "x"], &["rename", "x", "y"], &["dump"]] {
            let mut v = vec![&image[..]];
            v.extend_from_slice(args);
            self.run(&v, None)?;
            self.unchanged(&args.join(" "))?;
        }
        self.put("src", b"data");
        let o = self.run(&[&image, "write", "src", "x"], None)?;
        self.refused("write to an unformatted image", &o)?;
        self.format([11, 3, 0, 0])
    }
}

pub fn execute(scn: &Scn, worker: usize, trace: bool) -> Outcome {
    let mut s = Sim::new(scn, worker, trace);
    // This process only looks at files.
    crate::seam::uninstall();
    let blank = scn.cfg.start == 1;
    if blank {
        s.geo = GEOS[match s.geo.kind {
            Kind::D64 => 0,
            Kind::D71 => 4,
            Kind::D81 => 6,
        }];
    }
    let image = match scn.cfg.flags % 4 {
        0 => format!("DISK.{}", s.geo.ext().to_uppercase()),
        1 if !blank || s.geo.kind == Kind::D64 => "image".to_string(),
        _ => format!("disk.{}", s.geo.ext()),
    };
    let dir = dev::scratch().join(format!("cli{}", worker));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let _ = fs::set_permissions(&dir, fs::Permissions::from_mode(0o777));
    let (img, built) = if blank { (vec![], vec![]) } else { prefill::build(&s.geo, &scn.cfg, &scn.pre, scn.seed) };
    let mut w = Session {
        s,
        dir: dir.clone(),
        image,
        img,
        files: vec![],
        formatted: !blank,
        leaky: false,
        held: BTreeSet::new(),
        plan: Plan::default(),
        uid: 1,
        locked: false,
    };
    let r = (|| -> R<()> {
        if blank {
            w.begin()?;
        } else {
            let (i, name) = (w.img.clone(), w.image.clone());
            w.put(&name, &i);
            w.model(built);
            w.check("nothing")?;
        }
        for (i, op) in scn.ops.iter().enumerate() {
            w.s.step_no = i;
            w.s.note(|| format!("{:3} {} {:?}", i, op.k.name(), op.a));
            w.step(op)?;
        }
        w.s.step_no = scn.ops.len();
        w.plan = Plan::default();
        // Nothing left behind by the faults keeps the disk from being used.
        w.listing([0; 4])?;
        w.validate([0; 4])?;
        w.check("the session")
    })();
    let _ = fs::remove_dir_all(&dir);
    let (stats, log) = w.s.done();
    Outcome { stop: r.err(), stats, log }
}
