//! Raw system calls, so that the interposed symbols never recurse into themselves.
use core::arch::asm;

#[inline]
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    ret
}

/// Sets errno and returns -1 when `r` is a kernel error, else `r`.
#[inline]
pub unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = (-r) as i32 };
        -1
    } else {
        r
    }
}

#[inline]
pub fn fail(errno: i32) -> isize {
    unsafe { *libc::__errno_location() = errno };
    -1
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        sys(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
    }
}
pub fn futex_wake(addr: *const u32) {
    unsafe {
        sys(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}
