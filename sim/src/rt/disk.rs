//! Fault injecting file layer. Faults hit only regular files, and only while a plan is armed.
use super::clock::Shared;
use super::{raw, sched};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// One injected fault. Operations of each kind are counted from the moment the plan is armed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// The `op`-th open fails with this errno.
    Open { op: u64, errno: i32 },
    /// The `op`-th write fails once with this errno (EIO, ENOSPC, EDQUOT, EFBIG...).
    Write { op: u64, errno: i32 },
    /// The `op`-th write and all later ones fail with this errno.
    WriteFrom { op: u64, errno: i32 },
    /// Only `bytes` fit on the disk: then ENOSPC (a partial write first, like a real kernel).
    DiskFull { bytes: u64 },
    /// The `op`-th write is interrupted by a signal before any byte moved (EINTR).
    WriteIntr { op: u64 },
    /// The `op`-th write accepts at most `max` bytes.
    ShortWrite { op: u64, max: u64 },
    /// Every write accepts at most `max` bytes.
    ShortWrites { max: u64 },
    /// The machine stops after `bytes` written bytes: nothing after them reaches the disk.
    Crash { bytes: u64 },
    /// The `op`-th fsync fails.
    Sync { op: u64, errno: i32 },
    /// The `op`-th read fails with this errno (and, if sticky, all later ones).
    Read { op: u64, errno: i32, sticky: bool },
    /// The `op`-th read is interrupted (EINTR).
    ReadIntr { op: u64 },
    /// The `op`-th read returns at most `max` bytes.
    ShortRead { op: u64, max: u64 },
    /// Every read returns at most `max` bytes.
    ShortReads { max: u64 },
}

#[derive(Default)]
pub struct Disk {
    pub active: bool,
    pub faults: Vec<Fault>,
    pub opens: u64,
    pub reads: u64,
    pub writes: u64,
    pub syncs: u64,
    pub bytes: u64,
    pub bytes_read: u64,
    pub fired: BTreeMap<&'static str, u64>,
    /// A fault fired after which a correct caller cannot have a complete result.
    pub hard: bool,
}
static D: Shared<Option<Disk>> = Shared::new(None);

pub fn active() -> bool {
    sched::is_sim_thread() && D.get().as_ref().is_some_and(|d| d.active)
}

/// Arms the plan: counters restart at zero.
pub fn arm(faults: &[Fault]) {
    *D.get() = Some(Disk { active: true, faults: faults.to_vec(), ..Default::default() });
}
/// Disarms and returns what happened.
pub fn disarm() -> Disk {
    let mut d = D.get().take().unwrap_or_default();
    d.active = false;
    d
}

fn is_reg(fd: i32) -> bool {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { raw::sys(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) };
    r == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFREG
}

impl Disk {
    fn fire(&mut self, k: &'static str, hard: bool) {
        *self.fired.entry(k).or_default() += 1;
        self.hard |= hard;
    }
}

pub fn on_open(path: *const libc::c_char, _flags: i32) -> Option<i32> {
    // Runs name their files relative to their scratch folder: absolute paths are the system's own.
    if !active() || path.is_null() || unsafe { *path } == b'/' as libc::c_char {
        return None;
    }
    sched::point();
    let d = D.get().as_mut().unwrap();
    let op = d.opens;
    d.opens += 1;
    for i in 0..d.faults.len() {
        if let Fault::Open { op: o, errno } = d.faults[i]
            && o == op
        {
            d.fire("open_error", true);
            return Some(errno);
        }
    }
    None
}

pub fn on_sync(fd: i32) -> Option<i32> {
    if !active() || !is_reg(fd) {
        return None;
    }
    let d = D.get().as_mut().unwrap();
    let op = d.syncs;
    d.syncs += 1;
    for i in 0..d.faults.len() {
        if let Fault::Sync { op: o, errno } = d.faults[i]
            && o == op
        {
            d.fire("fsync_error", true);
            return Some(errno);
        }
    }
    None
}

unsafe fn raw_read(fd: i32, buf: *mut u8, n: usize, off: Option<i64>) -> isize {
    unsafe {
        match off {
            None => raw::sys(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0),
            Some(o) => raw::sys(libc::SYS_pread64, fd as usize, buf as usize, n, o as usize, 0, 0),
        }
    }
}
unsafe fn raw_write(fd: i32, buf: *const u8, n: usize, off: Option<i64>) -> isize {
    unsafe {
        match off {
            None => raw::sys(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0),
            Some(o) => raw::sys(libc::SYS_pwrite64, fd as usize, buf as usize, n, o as usize, 0, 0),
        }
    }
}

pub unsafe fn read(fd: i32, buf: *mut u8, n: usize, off: Option<i64>) -> isize {
    if !active() || !is_reg(fd) {
        return unsafe { raw::ret(raw_read(fd, buf, n, off)) };
    }
    sched::point();
    let d = D.get().as_mut().unwrap();
    let op = d.reads;
    d.reads += 1;
    let mut lim = n;
    for i in 0..d.faults.len() {
        match d.faults[i] {
            Fault::Read { op: o, errno, sticky } if o == op || (sticky && op > o) => {
                d.fire("read_error", true);
                return raw::fail(errno);
            }
            Fault::ReadIntr { op: o } if o == op => {
                d.fire("read_eintr", false);
                return raw::fail(libc::EINTR);
            }
            Fault::ShortRead { op: o, max } if o == op => {
                if n > max.max(1) as usize {
                    d.fire("short_read", false);
                }
                lim = lim.min(max.max(1) as usize);
            }
            Fault::ShortReads { max } => {
                if n > max.max(1) as usize {
                    d.fire("short_read", false);
                }
                lim = lim.min(max.max(1) as usize);
            }
            _ => {}
        }
    }
    let r = unsafe { raw::ret(raw_read(fd, buf, lim.min(n), off)) };
    if r > 0 {
        d.bytes_read += r as u64;
    }
    r
}

pub unsafe fn write(fd: i32, buf: *const u8, n: usize, off: Option<i64>) -> isize {
    if !active() || !is_reg(fd) {
        return unsafe { raw::ret(raw_write(fd, buf, n, off)) };
    }
    sched::point();
    let d = D.get().as_mut().unwrap();
    let op = d.writes;
    d.writes += 1;
    let mut lim = n;
    for i in 0..d.faults.len() {
        match d.faults[i] {
            Fault::Write { op: o, errno } if o == op => {
                d.fire("write_error", true);
                return raw::fail(errno);
            }
            Fault::WriteFrom { op: o, errno } if op >= o => {
                d.fire("write_error_sticky", true);
                return raw::fail(errno);
            }
            Fault::DiskFull { bytes } => {
                if d.bytes >= bytes {
                    d.fire("disk_full", true);
                    return raw::fail(libc::ENOSPC);
                }
                lim = lim.min((bytes - d.bytes) as usize);
            }
            Fault::WriteIntr { op: o } if o == op => {
                d.fire("write_eintr", false);
                return raw::fail(libc::EINTR);
            }
            Fault::ShortWrite { op: o, max } if o == op => {
                if n > max.max(1) as usize {
                    d.fire("short_write", false);
                }
                lim = lim.min(max.max(1) as usize);
            }
            Fault::ShortWrites { max } => {
                if n > max.max(1) as usize {
                    d.fire("short_write", false);
                }
                lim = lim.min(max.max(1) as usize);
            }
            Fault::Crash { bytes } => {
                if d.bytes + n as u64 > bytes {
                    // The bytes up to the crash point reach the disk, the rest never does, and the
                    // program's own continuation no longer matters.
                    let keep = bytes.saturating_sub(d.bytes) as usize;
                    if keep > 0 {
                        unsafe { raw_write(fd, buf, keep, off) };
                    }
                    d.bytes += n as u64;
                    d.fire("crash_torn_write", true);
                    return n as isize;
                }
            }
            _ => {}
        }
    }
    let r = unsafe { raw::ret(raw_write(fd, buf, lim.min(n), off)) };
    if r > 0 {
        d.bytes += r as u64;
    }
    r
}
