//! Preemption at any instruction of the library: for short windows the processor's trap flag makes every
//! instruction of a selected function (bsp-server, bsp-types, crossbeam, std's synchronisation) trap; after a
//! seeded number of them the thread is preempted. Calls into other code run at full speed up to a breakpoint
//! at their return address, found by frame pointers (.cargo/config.toml; std has them).
use crate::core::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// One byte for every 16 bytes of text: is it part of a selected function?
static mut MAP: *mut u8 = std::ptr::null_mut();
static mut LO: usize = 0;
static mut HI: usize = 0;
/// A window is open (its thread may be inside the simulator at the moment).
pub static ARMED: AtomicBool = AtomicBool::new(false);
static mut LEFT: u64 = 0;
static mut BP: usize = 0;
static mut BP_OLD: u8 = 0;
static mut USED: u64 = 0;
/// The instruction of a selected function that was stepped over last.
static mut PREV: usize = 0;
thread_local! {
    static IN_TRAP: Cell<bool> = const { Cell::new(false) };
}
const TF: i64 = 0x100;
/// Instructions stepped over in one run: bounds its cost.
const MAX_USED: u64 = 4000;
/// ... if only atomic instructions count.
const MAX_SYNC: u64 = 12_000;

extern "C" {
    static __ehdr_start: u8;
}
fn wanted(name: &[u8]) -> bool {
    let has = |n: &[u8]| name.windows(n.len()).any(|w| w == n);
    (has(b"bsp_server") || has(b"bsp_types") || has(b"crossbeam_") || has(b"4core4sync6atomic") || has(b"3std4sync") || has(b"3std3sys4sync") || has(b"std6thread") || has(b"std..sync"))
        && !has(b"bspsim")
        && !has(b"panic")
}
/// Find the selected functions in the symbol table of this program, and make them writable for breakpoints.
pub fn init() {
    if std::env::var_os("BSPSIM_NOSTEP").is_some() {
        return;
    }
    let Ok(b) = std::fs::read("/proc/self/exe") else { return };
    let _ = init_from(&b);
}
fn init_from(b: &[u8]) -> Option<()> {
    let u16_ = |o: usize| Some(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?));
    let u32_ = |o: usize| Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?));
    let u64_ = |o: usize| Some(u64::from_le_bytes(b.get(o..o + 8)?.try_into().ok()?) as usize);
    if b.get(..5)? != b"\x7fELF\x02" || u16_(18)? != 62 {
        return None;
    }
    let base = if u16_(16)? == 3 { unsafe { &__ehdr_start as *const u8 as usize } } else { 0 };
    let (shoff, shn) = (u64_(40)?, u16_(60)? as usize);
    let mut fs: Vec<(usize, usize)> = vec![];
    for i in 0..shn {
        let sh = shoff + i * 64;
        if u32_(sh + 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u64_(sh + 24)?, u64_(sh + 32)?, u32_(sh + 40)? as usize);
        let stro = u64_(shoff + link * 64 + 24)?;
        for k in 0..size / 24 {
            let y = off + k * 24;
            if b.get(y + 4)? & 15 != 2 {
                continue;
            }
            let (v, z) = (u64_(y + 8)?, u64_(y + 16)?);
            let n = stro + u32_(y)? as usize;
            let e = b.get(n..)?.iter().position(|c| *c == 0)?;
            if z > 0 && v > 0 && wanted(&b[n..n + e]) {
                fs.push((base + v, z));
            }
        }
    }
    if fs.is_empty() {
        return None;
    }
    let lo = fs.iter().map(|f| f.0).min()? & !4095;
    let hi = (fs.iter().map(|f| f.0 + f.1).max()? + 4095) & !4095;
    let mut m = vec![0u8; (hi - lo) / 16 + 2].into_boxed_slice();
    for (a, z) in fs {
        // the last block may belong to the next function too
        for k in (a - lo) / 16..(a + z - lo).div_ceil(16) {
            m[k] = 1;
        }
    }
    unsafe {
        if libc::mprotect(lo as *mut libc::c_void, hi - lo, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) != 0 {
            return None;
        }
        MAP = Box::leak(m).as_mut_ptr();
        LO = lo;
        HI = hi;
    }
    Some(())
}
#[inline]
fn selected(pc: usize) -> bool {
    unsafe { pc >= LO && pc < HI && *MAP.add((pc - LO) / 16) != 0 }
}
/// In the process of one run, before it starts.
pub fn enable() {
    unsafe {
        if MAP.is_null() {
            return;
        }
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
}
pub fn possible() -> bool {
    unsafe { !MAP.is_null() && USED < if s().env.step_sync { MAX_SYNC } else { MAX_USED } }
}
pub fn open(n: u64) {
    unsafe {
        LEFT = n;
        PREV = 0;
    }
    ARMED.store(true, Relaxed);
}
pub fn close() {
    ARMED.store(false, Relaxed);
    unsafe { unplant() }
}
unsafe fn unplant() {
    if BP != 0 {
        *(BP as *mut u8) = BP_OLD;
        BP = 0;
    }
}
/// The thread leaves the simulator while a window is open.
#[cold]
pub fn arm() {
    unsafe {
        if BP == 0 && !IN_TRAP.with(|t| t.get()) && !HARNESS.with(|h| h.get()) && on() && s().cur == tid() {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }
}
/// Is this the address behind a call instruction of a selected function?
unsafe fn return_address(a: usize) -> bool {
    if !selected(a) || !selected(a.wrapping_sub(7)) {
        return false;
    }
    let p = a as *const u8;
    let at = |k: usize| *p.sub(k);
    // call rel32; call through a register or memory
    at(5) == 0xe8 || (2..=7).any(|k| at(k) == 0xff && at(k - 1) & 0x38 == 0x10)
}
/// Where the innermost selected function goes on: `prev` led out of it (or is 0: far outside).
unsafe fn callsite(prev: usize, sp: usize, bp: usize) -> usize {
    if prev != 0 && !matches!(*(prev as *const u8), 0xc3 | 0xc2) {
        // a call, or a jump at the end of a function: the return address is on top of the stack
        let v = *(sp as *const usize);
        if return_address(v) {
            return v;
        }
    }
    let (mut f, mut lo) = (bp, sp);
    while f >= lo && f - lo < 1 << 16 && f % 8 == 0 {
        let v = *((f + 8) as *const usize);
        if return_address(v) {
            return v;
        }
        lo = f + 16;
        f = *(f as *const usize);
    }
    0
}
/// Is this an atomic read-modify-write instruction?
unsafe fn atomic(pc: usize) -> bool {
    let mut p = pc as *const u8;
    for _ in 0..4 {
        match *p {
            0xf0 => return true,
            0x66 | 0x40..=0x4f => p = p.add(1),
            0x86 | 0x87 => return *p.add(1) & 0xc0 != 0xc0,
            _ => return false,
        }
    }
    false
}
extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    unsafe {
        let e = *libc::__errno_location();
        let g = &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
        g[libc::REG_EFL as usize] &= !TF;
        let mut pc = g[libc::REG_RIP as usize] as usize;
        if BP != 0 && pc == BP + 1 {
            unplant();
            pc -= 1;
            g[libc::REG_RIP as usize] = pc as i64;
        }
        if !ARMED.load(Relaxed) || HARNESS.with(|h| h.get()) || !on() || s().cur != tid() {
            return; // armed again when the thread leaves the simulator
        }
        let prev = std::mem::replace(&mut *std::ptr::addr_of_mut!(PREV), 0);
        if selected(pc) {
            if !s().env.step_sync || atomic(pc) {
                LEFT -= 1;
            }
            USED += 1;
            if LEFT > 0 && !possible() {
                ARMED.store(false, Relaxed);
                *libc::__errno_location() = e;
                return;
            }
            if LEFT > 0 {
                PREV = pc;
                g[libc::REG_EFL as usize] |= TF;
                return;
            }
            ARMED.store(false, Relaxed);
            // SIGTRAP is blocked in here: the trap flag stays off
            IN_TRAP.with(|t| t.set(true));
            preempt_instr();
            IN_TRAP.with(|t| t.set(false));
            if ARMED.load(Relaxed) && BP == 0 {
                g[libc::REG_EFL as usize] |= TF;
            }
        } else {
            // outside: go on at full speed until the innermost selected function runs again
            let v = callsite(prev, g[libc::REG_RSP as usize] as usize, g[libc::REG_RBP as usize] as usize);
            if v != 0 {
                BP = v;
                BP_OLD = *(v as *const u8);
                *(v as *mut u8) = 0xcc;
            }
            if BP == 0 {
                ARMED.store(false, Relaxed);
            }
        }
        *libc::__errno_location() = e;
    }
}
