//! The libc symbols this binary defines itself: the Rust standard library, rayon, anise, parquet and
//! nyx all call these instead of libc's. Outside a simulated run each passes straight to the kernel.
use super::{clock, disk, entropy, raw, sched};
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, pthread_attr_t, pthread_t, size_t, ssize_t, timespec};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::point();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sched::point();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sched::point();
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

fn ts_ns(ts: &timespec) -> u64 {
    (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    unsafe {
        if n == libc::SYS_futex && sched::is_sim_thread() {
            let op = b as i32;
            let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match cmd {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let deadline = if d == 0 {
                        u64::MAX
                    } else {
                        let t = ts_ns(&*(d as *const timespec));
                        if cmd == libc::FUTEX_WAIT { clock::now_mono().saturating_add(t) } else { t }
                    };
                    let mask = if cmd == libc::FUTEX_WAIT { u32::MAX } else { f as u32 };
                    let r = sched::futex_wait(a as *const u32, c as u32, mask, deadline);
                    if r == 0 {
                        return 0;
                    }
                    return raw::fail(r) as c_long;
                }
                libc::FUTEX_WAKE => return sched::futex_wake(a as *const u32, c as u32, u32::MAX) as c_long,
                libc::FUTEX_WAKE_BITSET => return sched::futex_wake(a as *const u32, c as u32, f as u32) as c_long,
                _ => {}
            }
        }
        if n == libc::SYS_getrandom && entropy::fill(a as *mut u8, b) {
            return b as c_long;
        }
        raw::ret(raw::sys(n, a, b, c, d, e, f)) as c_long
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::is_sim_thread() {
        sched::sync_point(true);
        return 0;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if entropy::fill(buf as *mut u8, len) {
        return len as ssize_t;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if let Some((s, n)) = clock::read(clk) {
        unsafe {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
        }
        sched::point();
        return 0;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::is_sim_thread() {
        sched::sleep_until(clock::now_mono().saturating_add(ts_ns(unsafe { &*req })));
        return 0;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::is_sim_thread() {
        let t = ts_ns(unsafe { &*req });
        let d = if flags & libc::TIMER_ABSTIME != 0 { t } else { clock::now_mono().saturating_add(t) };
        sched::sleep_until(d);
        return 0;
    }
    -(unsafe { raw::sys(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) } as c_int)
}

// ---- threads -----------------------------------------------------------------------------------
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type PthreadCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int;
type PthreadJoin = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;

struct Boot {
    slot: usize,
    f: Start,
    arg: *mut c_void,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let (slot, f, arg) = unsafe {
        let b = &*(p as *const Boot);
        (b.slot, b.f, b.arg)
    };
    unsafe { libc::free(p) };
    sched::enter(slot);
    let r = f(arg);
    sched::leave();
    r
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    unsafe {
        let real: PthreadCreate = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
        if !sched::is_sim_thread() {
            return real(t, attr, f, arg);
        }
        let slot = sched::new_slot();
        let b = libc::malloc(std::mem::size_of::<Boot>()) as *mut Boot;
        b.write(Boot { slot, f, arg });
        let r = real(t, attr, trampoline, b as *mut c_void);
        if r == 0 {
            sched::set_pthread(slot, *t);
            sched::sync_point(false);
        }
        r
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    unsafe {
        let real: PthreadJoin = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
        if sched::is_sim_thread() {
            sched::join(t);
        }
        real(t, ret)
    }
}

// ---- files -------------------------------------------------------------------------------------
unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(e) = disk::on_open(path, flags) {
        return raw::fail(e) as c_int;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_openat, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(dir, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(dir, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    unsafe { disk::read(fd, buf as *mut u8, n, None) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    unsafe { disk::read(fd, buf as *mut u8, n, Some(off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    // Served as a read into the first non-empty buffer: a legal short read.
    unsafe {
        if disk::active() {
            for i in 0..cnt as usize {
                let v = &*iov.add(i);
                if v.iov_len > 0 {
                    return disk::read(fd, v.iov_base as *mut u8, v.iov_len, None);
                }
            }
        }
        raw::ret(raw::sys(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    unsafe { disk::write(fd, buf as *const u8, n, None) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    unsafe { disk::write(fd, buf as *const u8, n, Some(off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    unsafe {
        if disk::active() {
            for i in 0..cnt as usize {
                let v = &*iov.add(i);
                if v.iov_len > 0 {
                    return disk::write(fd, v.iov_base as *const u8, v.iov_len, None);
                }
            }
        }
        raw::ret(raw::sys(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Some(e) = disk::on_sync(fd) {
        return raw::fail(e) as c_int;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if let Some(e) = disk::on_sync(fd) {
        return raw::fail(e) as c_int;
    }
    unsafe { raw::ret(raw::sys(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int }
}
