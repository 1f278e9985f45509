//! The simulated device: everything the library does to an image passes through here.

use std::cell::RefCell;
use std::io;
use std::os::unix::fs::FileExt;
use std::rc::Rc;

use cbm::disk::sim::{self, Access};

/// A change of image bytes by one sector write.
#[derive(Clone, Debug)]
pub struct Delta {
    pub off: usize,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// 1 = reads, 2 = writes, 4 = syncs.
    pub mask: u32,
    pub after: u32,
    pub burst: u32,
}

/// Panic payload used to stop an operation which makes too many accesses.
pub struct BudgetExceeded;

#[derive(Default)]
pub struct Seam {
    /// An operation of the workload is in progress: record, count and inject.
    pub armed: bool,
    pub mapped: bool,
    pub shadow: Vec<u8>,
    pending: Option<(usize, usize)>,
    /// Changes made by the current operation, in order.
    pub op_deltas: Vec<Delta>,
    /// Changes since the last synchronisation, in order.
    pub unsynced: Vec<Delta>,
    pub durable: Vec<u8>,
    pub faults: Vec<Fault>,
    /// Faults fired in the current operation / in the run, by kind.
    pub fired: u32,
    pub fired_total: [u64; 3],
    pub accesses: u64,
    pub total_accesses: u64,
    pub writes: u64,
    pub syncs: u64,
    pub budget: u64,
    /// Change a stored byte of the mapped file at the n-th access: (n, offset, value).
    pub corrupt_at: Option<(u64, usize, u8)>,
    pub corrupt_fired: u64,
    pub file: Option<std::fs::File>,
    base: usize,
    pub seen: bool,
    /// The next access is made by the harness to look at the image.
    pub capture: bool,
}

impl Seam {
    pub fn reset_image(&mut self, img: &[u8]) {
        self.shadow = img.to_vec();
        self.durable = img.to_vec();
        self.pending = None;
        self.op_deltas.clear();
        self.unsynced.clear();
        self.faults.clear();
    }

    fn push(&mut self, off: usize, data: &[u8]) {
        let d = Delta { off, data: data.to_vec() };
        self.op_deltas.push(d.clone());
        self.unsynced.push(d);
    }

    /// Record what the last write changed.
    fn settle(&mut self, img: &[u8]) {
        if let Some((off, len)) = self.pending.take() {
            if off + len <= img.len()
                && img.len() == self.shadow.len()
                && img[off..off + len] != self.shadow[off..off + len]
            {
                self.shadow[off..off + len].copy_from_slice(&img[off..off + len]);
                let data = img[off..off + len].to_vec();
                self.push(off, &data);
            }
        }
    }

    /// Record every remaining difference.
    pub fn settle_all(&mut self, img: &[u8]) {
        self.settle(img);
        if img.len() != self.shadow.len() {
            self.shadow = img.to_vec();
            return;
        }
        if img == &self.shadow[..] {
            return;
        }
        let mut off = 0;
        while off < img.len() {
            let end = (off + 256).min(img.len());
            if img[off..end] != self.shadow[off..end] {
                self.shadow[off..end].copy_from_slice(&img[off..end]);
                let data = img[off..end].to_vec();
                self.push(off, &data);
            }
            off = end;
        }
    }

    fn inject(&mut self, bit: u32) -> bool {
        for i in 0..self.faults.len() {
            let f = &mut self.faults[i];
            if f.mask & bit == 0 {
                continue;
            }
            if f.after > 0 {
                f.after -= 1;
                continue;
            }
            if f.burst > 1 {
                f.burst -= 1;
            } else {
                self.faults.remove(i);
            }
            self.fired += 1;
            self.fired_total[bit.trailing_zeros() as usize] += 1;
            return true;
        }
        false
    }

    fn on_access(&mut self, access: Access, img: &[u8], off: usize, len: usize) -> io::Result<()> {
        self.seen = true;
        self.base = img.as_ptr() as usize;
        if self.capture {
            self.capture = false;
            self.settle_all(img);
            return Ok(());
        }
        if !self.armed {
            return Ok(());
        }
        self.settle(img);
        self.accesses += 1;
        self.total_accesses += 1;
        if self.budget > 0 && self.accesses > self.budget {
            self.budget = 0;
            std::panic::panic_any(BudgetExceeded);
        }
        if let Some((n, coff, value)) = self.corrupt_at {
            if self.accesses > n {
                self.corrupt_at = None;
                if let Some(ref f) = self.file {
                    self.corrupt_fired += 1;
                    let _ = f.write_at(&[value], coff as u64);
                }
            }
        }
        let bit = match access {
            Access::Read => 1,
            Access::Write => 2,
            Access::Sync => 4,
        };
        if access == Access::Sync && self.mapped {
            // Decided by the msync below.
            return Ok(());
        }
        if self.inject(bit) {
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        match access {
            Access::Read => {}
            Access::Write => {
                self.writes += 1;
                self.pending = Some((off, len));
            }
            Access::Sync => {
                self.syncs += 1;
                self.durable = self.shadow.clone();
                self.unsynced.clear();
            }
        }
        Ok(())
    }

    fn on_msync(&mut self, addr: usize, len: usize, flags: i32) -> bool {
        if !self.armed || !self.mapped {
            return true;
        }
        if self.inject(4) {
            return false;
        }
        if flags & libc::MS_SYNC == 0 || addr < self.base {
            return true;
        }
        self.syncs += 1;
        let size = self.shadow.len();
        let from = (addr - self.base).min(size);
        let to = (from + len).min(size);
        let img = unsafe { std::slice::from_raw_parts(self.base as *const u8, size) };
        self.settle(img);
        self.durable[from..to].copy_from_slice(&img[from..to]);
        self.unsynced.retain(|d| d.off < from || d.off + d.data.len() > to);
        true
    }
}

pub type SeamRef = Rc<RefCell<Seam>>;

thread_local! {
    static CURRENT: RefCell<Option<SeamRef>> = RefCell::new(None);
}

pub fn install(seam: &SeamRef) {
    CURRENT.with(|c| *c.borrow_mut() = Some(seam.clone()));
    let s = seam.clone();
    sim::set_hook(Some(Box::new(move |access, img, off, len| {
        s.borrow_mut().on_access(access, img, off, len)
    })));
}

pub fn uninstall() {
    sim::set_hook(None);
    CURRENT.with(|c| *c.borrow_mut() = None);
}

thread_local! {
    static SYSCALL_FAULT: std::cell::Cell<u32> = std::cell::Cell::new(0);
    static SYSCALL_HIT: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

/// Make the next ftruncate (1) or mmap of a file (2) by this thread fail.
pub fn set_syscall_fault(kind: u32) {
    SYSCALL_FAULT.with(|c| c.set(kind));
    SYSCALL_HIT.with(|c| c.set(0));
}

/// Disarm, and tell which kind fired.
pub fn take_syscall_fault() -> u32 {
    SYSCALL_FAULT.with(|c| c.set(0));
    SYSCALL_HIT.with(|c| c.replace(0))
}

fn syscall_fails(kind: u32) -> bool {
    let hit = SYSCALL_FAULT.try_with(|c| c.get()).unwrap_or(0) == kind;
    if hit {
        SYSCALL_FAULT.with(|c| c.set(0));
        SYSCALL_HIT.with(|c| c.set(kind));
    }
    hit
}

/// Interposed so that extending a new image file can fail as on a full file system.
///
/// # Safety
/// As ftruncate64.
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, len: i64) -> libc::c_int {
    if syscall_fails(1) {
        *libc::__errno_location() = libc::ENOSPC;
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as libc::c_int
}

/// Interposed so that mapping a file can fail.
///
/// # Safety
/// As mmap.
#[no_mangle]
pub unsafe extern "C" fn mmap(
    addr: *mut libc::c_void,
    len: libc::size_t,
    prot: libc::c_int,
    flags: libc::c_int,
    fd: libc::c_int,
    off: libc::off_t,
) -> *mut libc::c_void {
    if fd >= 0 && syscall_fails(2) {
        *libc::__errno_location() = libc::ENOMEM;
        return libc::MAP_FAILED;
    }
    libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as *mut libc::c_void
}

/// Interposes the C library's msync for the whole harness: this is where mapped images meet their
/// (simulated) medium.
///
/// # Safety
/// As msync.
#[no_mangle]
pub unsafe extern "C" fn msync(addr: *mut libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::c_int {
    let seam = CURRENT.with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
    if let Some(seam) = seam {
        let ok = match seam.try_borrow_mut() {
            Ok(mut s) => s.on_msync(addr as usize, len, flags),
            Err(_) => true,
        };
        if !ok {
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
    }
    libc::syscall(libc::SYS_msync, addr, len, flags) as libc::c_int
}
