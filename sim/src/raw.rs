//! Raw system calls (never interposed) and errno handling.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn write_all(fd: i32, mut p: *const u8, mut n: usize) -> bool {
    while n > 0 {
        let r = sys6(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0);
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return false;
        }
        p = p.add(r as usize);
        n -= r as usize;
    }
    true
}
pub unsafe fn read_exact(fd: i32, mut p: *mut u8, mut n: usize) -> bool {
    while n > 0 {
        let r = sys6(libc::SYS_read, fd as i64, p as i64, n as i64, 0, 0, 0);
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return false;
        }
        p = p.add(r as usize);
        n -= r as usize;
    }
    true
}
pub fn eprint(s: &str) {
    unsafe {
        write_all(2, s.as_ptr(), s.len());
    }
}
pub unsafe fn exit_group(code: i32) -> ! {
    loop {
        sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
}
pub unsafe fn futex_wait(a: *const u32, v: u32) {
    sys6(libc::SYS_futex, a as i64, 128 /* WAIT|PRIVATE */, v as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(a: *const u32, n: i32) {
    sys6(libc::SYS_futex, a as i64, 129 /* WAKE|PRIVATE */, n as i64, 0, 0, 0);
}
pub fn real_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        sys6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}
