//! Small helpers around the library under test.

use std::any::Any;
use std::cell::RefCell;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

use cbm::disk::directory::{DirectoryEntry, Extra};
use cbm::disk::file::{File, FileOps};
use cbm::disk::{Disk, DiskError, D64, D71, D81};

use crate::geo::{Geo, Kind, Loc};
use crate::refimg::trim_pad;
use crate::rng::hash_bytes;
use crate::seam::BudgetExceeded;

pub type D = Box<dyn Disk>;

/// The library's location type cannot be named from outside, but one can be had and changed.
#[macro_export]
macro_rules! loc {
    ($disk:expr, $l:expr) => {{
        let mut x = $disk.native_disk_format().first_directory_location();
        x.0 = $l.0;
        x.1 = $l.1;
        x
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let at = info.location().map(|l| {
            let f = l.file();
            let f = f.find("src/").map(|i| &f[i..]).unwrap_or(f);
            format!("{}:{}", f, l.line())
        });
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = format!("{} at {}", msg, at.unwrap_or_default());
        });
    }));
}

pub enum Caught {
    Panic(String),
    Budget,
}

fn describe(e: Box<dyn Any + Send>) -> Caught {
    if e.downcast_ref::<BudgetExceeded>().is_some() {
        Caught::Budget
    } else {
        Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
    }
}

/// Call into the library; a panic becomes a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    catch_unwind(AssertUnwindSafe(f)).map_err(describe)
}

pub fn blank_memory(geo: &Geo) -> io::Result<D> {
    Ok(match geo.kind {
        Kind::D64 if geo.tracks == 40 => Box::new(D64::open_memory(D64::geometry_40_tracks(geo.errors))?),
        Kind::D64 => Box::new(D64::open_memory(D64::geometry(geo.errors))?),
        Kind::D71 => Box::new(D71::open_memory(D71::geometry(geo.errors))?),
        Kind::D81 => Box::new(D81::open_memory(D81::geometry(geo.errors))?),
    })
}

pub fn load(geo: &Geo, disk: &mut D, img: &[u8]) -> io::Result<()> {
    for i in 0..geo.total_sectors() {
        let l = loc!(disk, geo.loc_of(i));
        disk.write_sector(l, &img[i * 256..i * 256 + 256])?;
    }
    if geo.errors {
        let mut blocks = disk.blocks_ref_mut();
        if let Some(t) = blocks.error_table_mut()? {
            t.copy_from_slice(&img[geo.data_size()..]);
        }
    }
    Ok(())
}

pub fn mem_disk(geo: &Geo, img: &[u8]) -> io::Result<D> {
    let mut disk = blank_memory(geo)?;
    load(geo, &mut disk, img)?;
    disk.initialize();
    Ok(disk)
}

/// Read the image sector by sector, for when the hook is not called.
pub fn dump(geo: &Geo, disk: &D) -> io::Result<Vec<u8>> {
    let mut v = Vec::with_capacity(geo.size());
    for i in 0..geo.total_sectors() {
        let l = loc!(disk, geo.loc_of(i));
        v.extend_from_slice(&disk.read_sector(l)?);
    }
    if geo.errors {
        if let Some(t) = disk.blocks_ref().error_table()? {
            v.extend_from_slice(t);
        }
    }
    Ok(v)
}

pub fn scratch() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let base = if shm.is_dir() { shm } else { std::env::temp_dir() };
    base.join(format!("cbm-sim-{}", std::process::id()))
}

pub fn extra_bytes(e: &Extra) -> [u8; 9] {
    let mut b = [0u8; 9];
    e.to_bytes(&mut b);
    if let Extra::Relative(r) = e {
        b[2] = r.record_length;
    }
    b
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Listed {
    pub name: Vec<u8>,
    pub attr: u8,
    pub extra: [u8; 9],
    pub size: u16,
    pub first: Loc,
    pub at: (Loc, usize),
}

pub fn listed(e: &DirectoryEntry) -> Listed {
    Listed {
        name: trim_pad(e.filename.as_bytes()),
        attr: e.file_attributes.to_byte(),
        extra: extra_bytes(&e.extra),
        size: e.file_size,
        first: (e.first_sector.0, e.first_sector.1),
        at: match e.position {
            Some(p) => ((p.location.0, p.location.1), p.offset as usize),
            None => ((0, 0), 0),
        },
    }
}

pub fn err_text(e: &io::Error) -> String {
    match DiskError::from_io_error(e) {
        Some(d) => format!("{:?}", d),
        None => format!("io:{:?}/{:?}", e.kind(), e.raw_os_error()),
    }
}

pub fn is_full(e: &io::Error) -> bool {
    DiskError::from_io_error(e) == Some(DiskError::DiskFull)
}

pub fn show(name: &[u8]) -> String {
    let mut s = String::from("\"");
    for b in name {
        if (0x20..0x7F).contains(b) {
            s.push(*b as char);
        } else {
            s += &format!("\\x{:02x}", b);
        }
    }
    s.push('"');
    s
}

/// Everything a file offers, as one line.
pub fn file_line(f: &File) -> String {
    let mut s = String::new();
    match f.record_count() {
        Ok(n) => {
            s += &format!("records={} ", n);
            for i in 0..n {
                match f.record(i) {
                    Ok(r) => s += &format!("{}:{:x} ", r.len(), hash_bytes(&r)),
                    Err(e) => s += &format!("{} ", err_text(&e)),
                }
            }
        }
        Err(e) => s += &err_text(&e),
    }
    match f.occupied_sectors() {
        Ok(v) => {
            let b: Vec<u8> = v.iter().flat_map(|l| [l.0, l.1]).collect();
            s += &format!("sectors={}:{:x} ", v.len(), hash_bytes(&b));
        }
        Err(e) => s += &err_text(&e),
    }
    let mut buf = vec![];
    match f.reader() {
        Ok(mut r) => match r.read_to_end(&mut buf) {
            Ok(n) => s += &format!("data={}:{:x} ", n, hash_bytes(&buf)),
            Err(e) => s += &err_text(&e),
        },
        Err(e) => s += &err_text(&e),
    }
    let export = match f {
        File::GEOSSequential(g) | File::GEOSVLIR(g) => Some(g.reader()),
        _ => None,
    };
    match export {
        Some(Ok(mut r)) => {
            let mut buf = vec![];
            match r.read_to_end(&mut buf) {
                Ok(n) => s += &format!("export={}:{:x} ", n, hash_bytes(&buf)),
                Err(e) => s += &err_text(&e),
            }
        }
        Some(Err(e)) => s += &err_text(&e),
        None => {}
    }
    s
}

/// Everything the library reports about a disk, as comparable lines.
pub fn view(disk: &D, contents: bool) -> Vec<String> {
    let mut v = vec![];
    match disk.header() {
        Ok(h) => v.push(format!(
            "header {} {:02x?} {:02x} {:02x} {:02x} geos={}",
            show(&trim_pad(h.disk_name.as_bytes())),
            [h.disk_id[0], h.disk_id[1]],
            h.disk_format_type,
            h.directory_dos_version,
            h.directory_format_type,
            h.geos.is_some()
        )),
        Err(e) => v.push(format!("header {}", err_text(&e))),
    }
    match disk.blocks_free() {
        Ok(n) => v.push(format!("blocks free {}", n)),
        Err(e) => v.push(format!("blocks free {}", err_text(&e))),
    }
    match disk.bam() {
        Ok(b) => match b.borrow().free_sectors() {
            Ok(f) => {
                let b: Vec<u8> = f.iter().flat_map(|l| [l.0, l.1]).collect();
                v.push(format!("free sectors {} {:x}", f.len(), hash_bytes(&b)));
            }
            Err(e) => v.push(format!("free sectors {}", err_text(&e))),
        },
        Err(e) => v.push(format!("free sectors {}", err_text(&e))),
    }
    let mut n = 0;
    for e in disk.iter() {
        n += 1;
        if n > 4000 {
            break;
        }
        match e {
            Ok(e) => {
                let l = listed(&e);
                let mut line = format!(
                    "entry {} attr={:02x} extra={:02x?} size={} first={:?} at={:?}",
                    show(&l.name),
                    l.attr,
                    l.extra,
                    l.size,
                    l.first,
                    l.at
                );
                if contents {
                    line += &match disk.open_file_from_entry(&e) {
                        Ok(f) => format!(" {}", file_line(&f)),
                        Err(e) => format!(" {}", err_text(&e)),
                    };
                }
                v.push(line);
            }
            Err(e) => {
                v.push(format!("entry {}", err_text(&e)));
                break;
            }
        }
    }
    if contents {
        match disk.validate() {
            Ok(errs) => {
                // Who of several claimants is named, and in which order, is not specified.
                let mut lines: Vec<String> = errs.iter().map(|e| format!("valid {:?}", e)).collect();
                lines.sort();
                v.extend(lines);
            }
            Err(e) => v.push(format!("validate {}", err_text(&e))),
        }
    }
    v
}

pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let none = String::from("(nothing)");
            return Some(format!("was [{}] now [{}]", x.unwrap_or(&none), y.unwrap_or(&none)));
        }
    }
    None
}
