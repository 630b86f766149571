//! The simulator core: threads, scheduler, clock, decisions, byte pipes and sockets.
//!
//! Exactly one simulated thread runs at a time (the holder of the token). All state below is only
//! touched by the token holder, which is what makes the `static mut` sound.
use crate::raw::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::*};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn permille(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(17));
    r.next()
}

// ---------------------------------------------------------------- decisions
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(u8)]
pub enum K {
    Sched = 0,
    Quant,
    ReadShort,
    ReadEintr,
    WriteShort,
    WriteEintr,
    Lat,
    Spur,
    Stall,
    Wake,
    Chunk,
    Rand,
    Misc,
    Step,
}
pub const KN: usize = 14;
pub const KNAMES: [&str; KN] = [
    "sched", "quantum", "short_read", "eintr_read", "short_write", "eintr_write", "latency",
    "spurious_wakeup", "thread_stall", "futex_wake_order", "peer_chunk", "random_bytes", "misc", "instruction_window",
];
pub type DecList = Vec<(u8, u32, u64)>;

/// Swarm-style environment of one run: which kinds of nondeterminism are on, and how strongly.
#[derive(Clone, Serialize, Deserialize, Debug)]
#[serde(default)]
pub struct Env {
    pub policy: u64,    // 0 run-to-block, 1 random, 2 priorities, 3 starve one thread
    pub pswitch: u64,   // permille
    pub quantum_p: u64, // permille of slices that get a finite quantum
    pub quantum_max: u64,
    pub victim: u64,
    pub eintr: u64,  // permille
    pub sread: u64,  // permille
    pub swrite: u64, // permille
    pub one: bool,   // short transfers are one byte
    pub lat: u64,    // max latency, us
    pub spur: u64,   // permille spurious futex wakeups
    pub stall: u64,  // permille of I/O calls
    pub stall_us: u64,
    pub icap: u64,
    pub ocap: u64,
    pub chunk: u64,
    pub jump: u64, // permille: wall clock jumps
    pub step_p: u64, // permille of slices with a window of instruction-level preemption
    pub step_max: u64,
    pub step_sync: bool, // only in front of atomic read-modify-write instructions
    pub trace: bool,     // the application has a tracing subscriber, which formats everything
}
impl Default for Env {
    fn default() -> Env {
        Env::quiet()
    }
}
impl Env {
    pub fn quiet() -> Env {
        Env {
            policy: 0, pswitch: 0, quantum_p: 0, quantum_max: 0, victim: 0, eintr: 0, sread: 0, swrite: 0,
            one: false, lat: 0, spur: 0, stall: 0, stall_us: 0, icap: 65536, ocap: 1 << 30, chunk: 0, jump: 0, step_p: 0, step_max: 0, step_sync: false, trace: false,
        }
    }
    pub fn gen(r: &mut Rng) -> Env {
        let mut e = Env::quiet();
        e.policy = *r.pick(&[0, 1, 1, 1, 2, 2, 3]);
        e.pswitch = *r.pick(&[20, 100, 300, 600]);
        if r.permille(500) {
            e.quantum_p = *r.pick(&[30, 150, 500]);
            e.quantum_max = *r.pick(&[4, 20, 100, 400]);
        }
        e.victim = r.below(8);
        if r.permille(400) {
            e.eintr = *r.pick(&[30, 200, 500]);
        }
        if r.permille(500) {
            e.sread = *r.pick(&[50, 300, 900]);
        }
        if r.permille(500) {
            e.swrite = *r.pick(&[50, 300, 900]);
        }
        e.one = r.permille(200);
        if r.permille(500) {
            e.lat = *r.pick(&[10, 500, 20_000, 400_000]);
        }
        if r.permille(250) {
            e.spur = *r.pick(&[20, 150]);
        }
        e.icap = *r.pick(&[65536, 65536, 4096, 8192, 512, 100_000]);
        e.chunk = r.below(7);
        if r.permille(200) {
            e.jump = 100;
        }
        if r.permille(300) {
            e.step_p = *r.pick(&[20, 100, 400]);
            e.step_max = *r.pick(&[30, 200, 1000, 3000]);
            if r.permille(400) {
                e.step_sync = true;
                e.step_max = *r.pick(&[5, 15, 40]);
            }
        }
        e.trace = r.permille(60);
        e
    }
}

// ---------------------------------------------------------------- threads
pub enum Wait {
    None,
    Futex(usize, u32),
    Readable(usize),
    Writable(usize),
    Accept(usize),
    Join(usize),
    Sleep,
    Poll(Vec<(i32, i16)>),
    Cond(Box<dyn Fn() -> bool>),
    Done,
}
pub struct Thr {
    pub go: AtomicU32,
    pub wait: Wait,
    pub deadline: Option<u64>,
    pub woken: bool,
    pub intr: bool,
    pub stall_until: u64,
    pub prio: u64,
    pub pthread: u64,
    pub joined: bool,
    pub detached: bool,
    pub eintr_run: u32,
    pub harness: bool,
    pub role: &'static str,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Woke {
    Ready,
    Timeout,
    Intr,
}

// ---------------------------------------------------------------- pipes and sockets
#[derive(Default)]
pub struct Pipe {
    pub buf: Vec<u8>,               // every byte ever written
    pub segs: VecDeque<(u64, usize)>, // (arrival time, end offset)
    pub avail: usize,               // bytes that have arrived
    pub rd: usize,                  // bytes consumed by the reading side
    pub cap: usize,
    pub eof: Option<u64>,          // writer closed; time at which the reader sees it
    pub rclosed: bool,             // reading side is gone
    pub rerr: Option<(usize, i32)>, // reading fails with errno once rd reaches the offset
    pub rerr_sticky: bool,
    pub rerr_hit: bool,
    pub werr: Option<(usize, i32)>, // writing fails with errno once the offset is reached
    pub werr_hit: bool,
    pub werr_sticky: bool,
    pub bytes_after_err: usize,
    pub werr_time: u64,
    pub last_arrival: u64,
    pub sut_in: bool,                // read by the code under test
    pub writes: Vec<(u64, usize)>,   // (time, end offset) of each write
    pub lat_on: bool,
    pub discard: bool, // sink: bytes count as consumed immediately
    pub rdshut: bool,  // reading side shut down locally
    pub rd_total_calls: u64,
    pub by_lib: bool, // written through the system call interface
}
pub enum SockKind {
    Fresh,
    Listener { port: u16, backlog: VecDeque<usize>, max: usize },
    Stream { rx: usize, tx: usize },
}
pub struct Sock {
    pub kind: SockKind,
    pub refs: u32,
    pub rcvto: u64,
    pub sndto: u64,
    pub nonblock: bool,
    pub port: u16,
    pub peer_port: u16,
    pub ip: u8, // see addr_bytes; 0: any
    pub peer_ip: u8,
    pub sut: bool,
    pub reuse: bool,
}

// ---------------------------------------------------------------- outcome
#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct Outcome {
    pub status: String, // ok | violation | harness
    pub class: String,
    pub msg: String,
    pub hash: u64,
    pub ihash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub stats: BTreeMap<String, u64>,
    pub plan: Option<serde_json::Value>,
    pub decs: Option<DecList>,
    pub log: Option<Vec<String>>,
    pub nontrivial: bool,
    pub known: Vec<String>,
    pub sample: Option<String>,
}

pub struct Sim {
    pub now: u64,
    pub steps: u64,
    pub ticks: u64,
    pub step_cap: u64,
    pub switches: u64,
    pub cur: usize,
    pub thr: Vec<Box<Thr>>,
    pub pipes: Vec<Pipe>,
    pub socks: Vec<Sock>,
    pub fds: Vec<Option<usize>>, // index fd-FD0
    pub stdin: Option<usize>,
    pub stdout: Option<usize>,
    pub stderr: Vec<u8>,
    pub env: Env,
    pub rng: Rng,
    pub replay: Option<BTreeMap<(u8, u32), u64>>,
    pub dec_n: [u32; KN],
    pub decs: DecList,
    pub fired: [u64; KN],
    pub stats: BTreeMap<String, u64>,
    pub hash: u64,
    pub ihash: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub plan: serde_json::Value,
    pub want_trace: bool,
    pub rt_skew: i64,
    pub fd_limit: usize,
    pub dup_fail: Vec<(u32, i32)>, // nth dup call -> errno
    pub dup_n: u32,
    pub accept_fail: Vec<(u32, i32)>,
    pub accept_n: u32,
    pub connect_fail: Vec<(u32, i32)>,
    pub connect_n: u32,
    pub socket_fail: Vec<(u32, i32)>,
    pub socket_n: u32,
    pub bind_fail: Vec<(u32, i32)>,
    pub bind_n: u32,
    pub next_port: u16,
    pub panics: Vec<Panic>,
    pub nontrivial: bool,
    pub known: Vec<String>,
    pub sample: Option<String>,
    pub quantum: u64,
    pub step: u64,
    pub mem_limit: i64,
    pub client_from: u8, // where the next peer connects from
    pub os_errs: Vec<i32>, // errors of socket calls so far, EINTR excepted
    pub listen_fail: Vec<(u32, i32)>,
    pub listen_n: u32,
    pub listening: Vec<usize>, // sockets the code under test has listened on
    pub frames_only: bool, // ... nor is anything but what is written
    pub panic_only: bool, // violations other than panics and the like are not this run's business
}
#[derive(Clone, Debug)]
pub struct Panic {
    pub role: &'static str,
    pub loc: String,
    pub msg: String,
}
pub const FD0: i32 = 1000;

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static mut SIM: *mut Sim = std::ptr::null_mut();
thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static INSIM: Cell<u32> = const { Cell::new(0) };
    pub static HARNESS: Cell<bool> = const { Cell::new(false) };
}
#[inline(always)]
pub fn s() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
/// Is the calling thread running under the simulator (and not inside it)?
#[inline(always)]
pub fn on() -> bool {
    ACTIVE.load(Relaxed) && TID.with(|t| t.get()) >= 0 && INSIM.with(|t| t.get()) == 0
}
/// Simulated thread, possibly inside simulator code.
pub fn on_or_in() -> bool {
    ACTIVE.load(Relaxed) && TID.with(|t| t.get()) >= 0
}
pub struct Guard;
impl Guard {
    pub fn new() -> Guard {
        INSIM.with(|t| t.set(t.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        INSIM.with(|t| {
            t.set(t.get() - 1);
            if t.get() == 0 && crate::step::ARMED.load(Relaxed) {
                crate::step::arm();
            }
        });
    }
}
pub fn tid() -> usize {
    TID.with(|t| t.get()) as usize
}

impl Sim {
    pub fn new(env: Env, seed: u64, replay: Option<DecList>) -> Sim {
        Sim {
            now: 1_000_000_000, steps: 0, ticks: 0, step_cap: 3_000_000, switches: 0, cur: 0, thr: Vec::with_capacity(4096), pipes: vec![],
            socks: vec![], fds: vec![], stdin: None, stdout: None, stderr: vec![], env, rng: Rng(mix(seed, 0x5eed)),
            replay: replay.map(|l| l.into_iter().map(|(k, n, v)| ((k, n), v)).collect()),
            dec_n: [0; KN], decs: vec![], fired: [0; KN], stats: BTreeMap::new(), hash: 0xcbf29ce484222325,
            ihash: 0xcbf29ce484222325, verbose: false, log: vec![], plan: serde_json::Value::Null,
            want_trace: false, rt_skew: 0, fd_limit: usize::MAX, dup_fail: vec![], dup_n: 0,
            accept_fail: vec![], accept_n: 0, connect_fail: vec![], connect_n: 0, socket_fail: vec![], socket_n: 0,
            bind_fail: vec![], bind_n: 0, next_port: 40000, panics: vec![], nontrivial: false, known: vec![],
            sample: None, quantum: 0, step: 0, mem_limit: 512 << 20, client_from: 1, os_errs: vec![], listen_fail: vec![], listen_n: 0, listening: vec![],
            panic_only: false,
            frames_only: false,
        }
    }
    /// One decision. 0 is always the quiet default; only other values are recorded.
    pub fn dec(&mut self, k: K, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let n = self.dec_n[k as usize];
        self.dec_n[k as usize] += 1;
        let v = match &self.replay {
            Some(m) => m.get(&(k as u8, n)).copied().unwrap_or(0),
            None => gen(&mut self.rng),
        };
        if v != 0 {
            self.decs.push((k as u8, n, v));
            self.fired[k as usize] += 1;
            crash_log(self.decs.len(), k as u8, n, v);
        }
        v
    }
    pub fn stat(&mut self, k: &str) {
        let _g = Guard::new();
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn hmix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    pub fn imix(&mut self, v: u64) {
        self.ihash = (self.ihash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    pub fn ev(&mut self, tag: &'static str, a: u64, b: u64) {
        let _g = Guard::new();
        let mut h = 0u64;
        for c in tag.bytes() {
            h = h.wrapping_mul(131).wrapping_add(c as u64);
        }
        self.hmix(h);
        self.hmix(a);
        self.hmix(b);
        self.hmix(self.now);
        self.hmix(self.cur as u64);
        if self.verbose {
            let l = format!("{:>12}us #{:<6} T{} {:<8} {} {} {}", self.now / 1000, self.steps, self.cur,
                self.thr[self.cur].role, tag, a, b);
            self.log.push(l);
        }
    }
    fn refresh(&mut self, p: usize) {
        let now = self.now;
        let p = &mut self.pipes[p];
        while let Some(&(t, e)) = p.segs.front() {
            if t > now {
                break;
            }
            p.avail = e;
            p.segs.pop_front();
        }
    }
    pub fn readable(&mut self, p: usize) -> bool {
        self.refresh(p);
        let q = &self.pipes[p];
        q.avail > q.rd
            || q.rdshut
            || q.rerr.map_or(false, |(o, _)| q.rd >= o && (!q.rerr_hit || q.rerr_sticky))
            || (q.eof.map_or(false, |t| t <= self.now) && q.segs.is_empty())
    }
    pub fn writable(&mut self, p: usize) -> bool {
        let q = &self.pipes[p];
        q.rclosed || q.eof.is_some() || (q.werr_hit && q.werr_sticky) || q.werr.map_or(false, |(o, _)| !q.werr_hit && q.buf.len() >= o) || q.buf.len() - q.rd < q.cap
    }
    fn next_event(&mut self) -> Option<u64> {
        let mut t: Option<u64> = None;
        let now = self.now;
        let mut up = |x: u64| {
            if x > now {
                t = Some(t.map_or(x, |y: u64| y.min(x)))
            }
        };
        for p in &self.pipes {
            if let Some(&(x, _)) = p.segs.front() {
                up(x);
            }
            if let Some(x) = p.eof {
                up(x);
            }
        }
        for th in &self.thr {
            if matches!(th.wait, Wait::Done) {
                continue;
            }
            if let Some(d) = th.deadline {
                up(d);
            }
            up(th.stall_until);
        }
        t
    }
    fn wait_ok(&mut self, i: usize) -> bool {
        // take the wait out to appease the borrow checker
        let w = std::mem::replace(&mut self.thr[i].wait, Wait::None);
        let r = match &w {
            Wait::None => true,
            Wait::Futex(..) => self.thr[i].woken,
            Wait::Readable(p) => self.readable(*p),
            Wait::Writable(p) => self.writable(*p),
            Wait::Accept(sk) => match &self.socks[*sk].kind {
                SockKind::Listener { backlog, .. } => !backlog.is_empty(),
                _ => true,
            },
            Wait::Join(t) => matches!(self.thr[*t].wait, Wait::Done),
            Wait::Sleep => false,
            Wait::Poll(l) => l.iter().any(|&(fd, e)| self.poll1(fd, e) != 0),
            Wait::Cond(f) => f(),
            Wait::Done => false,
        };
        self.thr[i].wait = w;
        r
    }
    pub fn poll1(&mut self, fd: i32, ev: i16) -> i16 {
        let mut r = 0i16;
        let (rx, tx) = match self.stream_of(fd) {
            Some(x) => x,
            None => {
                if let Some(sk) = self.sock(fd) {
                    if let SockKind::Listener { backlog, .. } = &self.socks[sk].kind {
                        if !backlog.is_empty() {
                            return ev & libc::POLLIN;
                        }
                    }
                    return 0;
                }
                return libc::POLLNVAL;
            }
        };
        if let Some(rx) = rx {
            if ev & libc::POLLIN != 0 && self.readable(rx) {
                r |= libc::POLLIN;
            }
        }
        if let Some(tx) = tx {
            if ev & libc::POLLOUT != 0 && self.writable(tx) {
                r |= libc::POLLOUT;
            }
        }
        r
    }
    pub fn sock(&self, fd: i32) -> Option<usize> {
        if fd < FD0 {
            return None;
        }
        self.fds.get((fd - FD0) as usize).copied().flatten()
    }
    /// (read pipe, write pipe) behind a descriptor
    pub fn stream_of(&self, fd: i32) -> Option<(Option<usize>, Option<usize>)> {
        if fd == 0 && self.stdin.is_some() {
            return Some((self.stdin, None));
        }
        if fd == 1 && self.stdout.is_some() {
            return Some((None, self.stdout));
        }
        let k = self.sock(fd)?;
        match self.socks[k].kind {
            SockKind::Stream { rx, tx } => Some((Some(rx), Some(tx))),
            _ => None,
        }
    }
    /// Some simulated thread is ready? Picks the next one. None: nothing can ever run again.
    fn pick(&mut self, yielded: bool, preempt: bool) -> Option<usize> {
        loop {
            let n = self.thr.len();
            let mut list: Vec<usize> = Vec::with_capacity(n);
            let cur = self.cur;
            for k in 0..n {
                let i = (cur + k) % n;
                if matches!(self.thr[i].wait, Wait::Done) || self.thr[i].stall_until > self.now {
                    continue;
                }
                let ok = self.wait_ok(i)
                    || self.thr[i].deadline.map_or(false, |d| d <= self.now)
                    || self.thr[i].intr;
                if ok {
                    list.push(i);
                }
            }
            if list.is_empty() {
                match self.next_event() {
                    Some(t) => {
                        self.now = t;
                        continue;
                    }
                    None => return None,
                }
            }
            if (yielded || preempt) && list.len() > 1 && list[0] == cur {
                list.rotate_left(1);
            }
            let mut ix = 0usize;
            if list.len() > 1 {
                let len = list.len() as u64;
                let env = (self.env.policy, self.env.pswitch, self.env.victim);
                let cur_first = list[0] == cur;
                let prios: Vec<u64> = list.iter().map(|&i| self.thr[i].prio).collect();
                let mut newprio = None;
                let lst = list.clone();
                ix = self.dec(K::Sched, |r| match env.0 {
                    1 => {
                        if !cur_first || r.permille(env.1) {
                            r.below(len)
                        } else {
                            0
                        }
                    }
                    2 => {
                        let mut pr = prios.clone();
                        if yielded || preempt || r.permille(env.1 / 10) {
                            // change point: the current thread drops to the bottom
                            if let Some(p) = lst.iter().position(|&i| i == cur) {
                                // a thread that spins gets below everybody sooner or later
                                let low = pr.iter().enumerate().filter(|(k, _)| *k != p).map(|(_, v)| *v).min().unwrap_or(PRIO);
                                let v = if yielded && r.permille(200) { low.saturating_sub(1) } else { PRIO + r.below(1000) };
                                pr[p] = v;
                                newprio = Some(v);
                            }
                        }
                        let mut b = 0;
                        for k in 1..pr.len() {
                            if pr[k] > pr[b] {
                                b = k;
                            }
                        }
                        b as u64
                    }
                    3 => {
                        let v = (env.2 as usize) % n;
                        if !cur_first || r.permille(env.1) {
                            let mut k = r.below(len);
                            if lst[k as usize] == v && !r.permille(15) {
                                k = (k + 1) % len;
                            }
                            k
                        } else {
                            0
                        }
                    }
                    _ => 0,
                }) as usize;
                if ix >= list.len() {
                    ix = list.len() - 1;
                }
                if let Some(v) = newprio {
                    self.thr[cur].prio = v;
                }
            }
            let nx = list[ix];
            if self.env.quantum_p > 0 {
                let (p, m) = (self.env.quantum_p, self.env.quantum_max);
                self.quantum = self.dec(K::Quant, |r| if r.permille(p) { r.range(1, m.max(1)) } else { 0 });
            }
            self.step = 0;
            if self.env.step_p > 0 && !self.thr[nx].harness && !self.thr[nx].role.starts_with("peer") && crate::step::possible() {
                let (p, m, sync) = (self.env.step_p, self.env.step_max.clamp(1, 100_000), self.env.step_sync);
                self.step = self.dec(K::Step, |r| if r.permille(p) { let k = if sync { 0 } else { r.below(8) }; r.range(1, (m >> k).max(1)) } else { 0 });
            }
            crate::step::close();
            if self.step > 0 && self.quantum == 0 {
                crate::step::open(self.step);
            }
            return Some(nx);
        }
    }
}

fn park(g: *const AtomicU32) {
    unsafe {
        while (*g).swap(0, Acquire) == 0 {
            futex_wait(g as *const u32, 0);
        }
    }
}
fn hand_over(nx: usize) {
    let sm = s();
    sm.cur = nx;
    sm.switches += 1;
    let t = &sm.thr[nx];
    let p = &t.go as *const AtomicU32;
    t.go.store(1, Release);
    unsafe { futex_wake(p as *const u32, 1) };
}

const PRIO: u64 = 1 << 40;
/// Give up the processor (the current thread's `wait` says whether it is blocked).
fn resched(yielded: bool, preempt: bool) {
    let sm = s();
    let me = tid();
    debug_assert_eq!(sm.cur, me);
    sm.steps += 1;
    sm.now = sm.now.saturating_add(1000);
    if sm.steps > sm.step_cap {
        let m = format!("no end after {} scheduling steps", sm.steps);
        finish("violation", "step-cap", &m);
    }
    match sm.pick(yielded, preempt) {
        None => {
            let w: Vec<String> = sm.thr.iter().enumerate().map(|(i, t)| format!("T{i} {} {}", t.role, wname(&t.wait))).collect();
            finish("harness", "stuck", &format!("nothing can run: {}", w.join("; ")));
        }
        Some(nx) => {
            if nx != me {
                sm.imix(nx as u64 + 1);
                sm.ev("->", nx as u64, 0);
                let g: *const AtomicU32 = &sm.thr[me].go; // the table is another thread's once it runs
                hand_over(nx);
                park(g);
            }
        }
    }
}
pub fn wname(w: &Wait) -> &'static str {
    match w {
        Wait::None => "runnable",
        Wait::Futex(..) => "blocked on a lock or channel",
        Wait::Readable(_) => "blocked reading",
        Wait::Writable(_) => "blocked writing",
        Wait::Accept(_) => "blocked in accept",
        Wait::Join(_) => "blocked joining",
        Wait::Sleep => "sleeping",
        Wait::Poll(_) => "polling",
        Wait::Cond(_) => "waiting (harness)",
        Wait::Done => "ended",
    }
}

/// A scheduling point of a runnable thread.
pub fn point() {
    let _g = Guard::new();
    resched(false, false);
}
pub fn yield_now() {
    let _g = Guard::new();
    s().ev("yield", 0, 0);
    resched(true, false);
}
pub fn preempt() {
    let _g = Guard::new();
    s().stat("preemptions_in_code");
    resched(false, true);
}
pub fn preempt_instr() {
    let _g = Guard::new();
    s().stat("preemptions_at_instructions");
    resched(false, true);
}
/// Block the current thread until the wait condition holds, the deadline passes or it is interrupted.
pub fn block(w: Wait, deadline: Option<u64>) -> Woke {
    let _g = Guard::new();
    let me = tid();
    let sm = s();
    sm.thr[me].wait = w;
    sm.thr[me].deadline = deadline;
    sm.thr[me].woken = false;
    resched(false, false);
    let sm = s();
    let ok = sm.wait_ok(me);
    let t = &mut sm.thr[me];
    t.wait = Wait::None;
    t.deadline = None;
    t.woken = false;
    let intr = std::mem::replace(&mut t.intr, false);
    if ok {
        Woke::Ready
    } else if intr {
        Woke::Intr
    } else {
        Woke::Timeout
    }
}
pub fn sleep_until(t: u64) {
    while s().now < t {
        block(Wait::Sleep, Some(t));
    }
}
pub fn sleep_us(us: u64) {
    let t = s().now.saturating_add(us.saturating_mul(1000));
    sleep_until(t);
}
pub fn now_us() -> u64 {
    s().now / 1000
}
/// Wait (harness threads) until the condition holds; false if the time limit passed first.
pub fn wait_for(limit_us: u64, f: impl Fn() -> bool + 'static) -> bool {
    if f() {
        return true;
    }
    let dl = s().now.saturating_add(limit_us.saturating_mul(1000));
    block(Wait::Cond(Box::new(f)), Some(dl)) == Woke::Ready
}
pub fn new_thread(role: &'static str) -> usize {
    let sm = s();
    let id = sm.thr.len();
    if id == sm.thr.capacity() {
        finish("violation", "threads", "more threads than any run needs");
    }
    let prio = if sm.env.policy == 2 { PRIO + 1000 + sm.dec(K::Misc, |r| r.below(1000)) } else { 0 };
    sm.thr.push(Box::new(Thr {
        go: AtomicU32::new(0), wait: Wait::None, deadline: None, woken: false, intr: false, stall_until: 0, prio,
        pthread: 0, joined: false, detached: false, eintr_run: 0, harness: false, role,
    }));
    id
}
pub fn thread_begin(id: usize) {
    TID.with(|t| t.set(id as i32));
    let _g = Guard::new();
    // another thread may be adding to the table, which never moves (see new_thread)
    let g: *const AtomicU32 = unsafe { &(**(*SIM).thr.as_ptr().add(id)).go };
    park(g);
}
pub unsafe extern "C" fn thread_end(p: *mut u8) {
    let id = p as usize;
    if !ACTIVE.load(Relaxed) {
        return;
    }
    INSIM.with(|t| t.set(1));
    let sm = s();
    sm.ev("exit", id as u64, 0);
    sm.thr[id].wait = Wait::Done;
    sm.steps += 1;
    match sm.pick(false, false) {
        None => finish("harness", "stuck", "nothing can run after a thread ended"),
        Some(nx) => {
            sm.imix(nx as u64 + 1);
            TID.with(|t| t.set(-1));
            hand_over(nx);
        }
    }
}

// ---------------------------------------------------------------- I/O used by interposers and peers
pub fn maybe_stall() {
    let sm = s();
    if sm.env.stall > 0 {
        let (p, m) = (sm.env.stall, sm.env.stall_us);
        let d = sm.dec(K::Stall, |r| if r.permille(p) { r.range(1, m.max(1)) } else { 0 });
        if d > 0 {
            let me = tid();
            sm.ev("stall", d, 0);
            let t = sm.now + d * 1000;
            sm.thr[me].stall_until = t;
            point();
        }
    }
}
fn eintr(k: K) -> bool {
    let sm = s();
    if sm.env.eintr == 0 {
        return false;
    }
    let me = tid();
    if sm.thr[me].eintr_run >= 3 {
        sm.thr[me].eintr_run = 0;
        return false;
    }
    let p = sm.env.eintr;
    let r = sm.dec(k, |r| r.permille(p) as u64) != 0;
    if r {
        sm.thr[me].eintr_run += 1;
    }
    r
}
pub enum IoR {
    N(usize),
    Err(i32),
}
/// read by the code under test
pub fn sut_read(p: usize, dst: &mut [u8], nonblock: bool, timeout: u64, peek: bool) -> IoR {
    let _g = Guard::new();
    maybe_stall();
    point();
    if eintr(K::ReadEintr) {
        s().ev("read EINTR", p as u64, 0);
        return IoR::Err(libc::EINTR);
    }
    if dst.is_empty() {
        return IoR::N(0);
    }
    let dl = if timeout > 0 { Some(s().now + timeout) } else { None };
    loop {
        let sm = s();
        if sm.readable(p) {
            break;
        }
        if nonblock {
            return IoR::Err(libc::EAGAIN);
        }
        match block(Wait::Readable(p), dl) {
            Woke::Ready => {}
            Woke::Timeout => return IoR::Err(libc::EAGAIN),
            Woke::Intr => return IoR::Err(libc::EINTR),
        }
    }
    let sm = s();
    let q = &mut sm.pipes[p];
    q.rd_total_calls += 1;
    let mut have = if q.rdshut { 0 } else { q.avail - q.rd };
    if let Some((o, e)) = q.rerr {
        if q.rd >= o && (!q.rerr_hit || q.rerr_sticky) {
            q.rerr_hit = true;
            sm.stat("fault:read_error");
            sm.ev("read ERR", p as u64, e as u64);
            return IoR::Err(e);
        }
        if !q.rerr_hit {
            have = have.min(o.saturating_sub(q.rd));
        }
    }
    if have == 0 {
        sm.stat("fault:eof");
        sm.ev("read EOF", p as u64, 0);
        return IoR::N(0);
    }
    let full = have.min(dst.len());
    let mut n = full;
    if sm.env.sread > 0 && full > 1 {
        let (pr, one) = (sm.env.sread, sm.env.one);
        let floor = (full / 60).max(1) as u64;
        let v = sm.dec(K::ReadShort, |r| {
            if !r.permille(pr) {
                0
            } else if one && full < 300 {
                1
            } else {
                r.range(floor, full as u64 - 1)
            }
        }) as usize;
        if v > 0 {
            n = v.min(full);
        }
    }
    let q = &mut sm.pipes[p];
    dst[..n].copy_from_slice(&q.buf[q.rd..q.rd + n]);
    if !peek {
        q.rd += n;
    }
    sm.imix(0x1000 + n as u64);
    sm.ev("read", p as u64, n as u64);
    IoR::N(n)
}
/// write by the code under test
pub fn sut_write(p: usize, src: &[u8], nonblock: bool, timeout: u64) -> IoR {
    let _g = Guard::new();
    maybe_stall();
    point();
    if eintr(K::WriteEintr) {
        s().ev("write EINTR", p as u64, 0);
        return IoR::Err(libc::EINTR);
    }
    let dl = if timeout > 0 { Some(s().now + timeout) } else { None };
    if src.is_empty() {
        return IoR::N(0);
    }
    loop {
        let sm = s();
        if sm.writable(p) {
            break;
        }
        if nonblock {
            return IoR::Err(libc::EAGAIN);
        }
        sm.stat("fault:write_blocked");
        match block(Wait::Writable(p), dl) {
            Woke::Ready => {}
            Woke::Timeout => return IoR::Err(libc::EAGAIN),
            Woke::Intr => return IoR::Err(libc::EINTR),
        }
    }
    let sm = s();
    let now = sm.now;
    let q = &mut sm.pipes[p];
    let mut n = src.len();
    if let Some((o, e)) = q.werr {
        if (q.werr_hit && q.werr_sticky) || (!q.werr_hit && q.buf.len() >= o) {
            if !q.werr_hit {
                q.werr_time = now;
            }
            q.werr_hit = true;
            sm.stat("fault:write_error");
            sm.ev("write ERR", p as u64, e as u64);
            return IoR::Err(e);
        }
        if !q.werr_hit {
            n = n.min(o - q.buf.len());
        }
    }
    if q.rclosed || q.eof.is_some() {
        let first = !q.werr_hit;
        q.werr_hit = true;
        if first {
            q.werr_time = now;
        }
        sm.stat("fault:write_epipe");
        sm.ev("write EPIPE", p as u64, 0);
        return IoR::Err(libc::EPIPE);
    }
    n = n.min(q.cap - (q.buf.len() - q.rd));
    if sm.env.swrite > 0 && n > 1 {
        let (pr, one) = (sm.env.swrite, sm.env.one);
        let floor = (n / 60).max(1) as u64;
        let v = sm.dec(K::WriteShort, |r| {
            if !r.permille(pr) {
                0
            } else if one && n < 300 {
                1
            } else {
                r.range(floor, n as u64 - 1)
            }
        }) as usize;
        if v > 0 {
            n = v.min(n);
        }
    }
    if sm.pipes[p].werr_hit {
        sm.pipes[p].bytes_after_err += n;
    }
    sm.pipes[p].by_lib = true;
    push(p, &src[..n]);
    let sm = s();
    sm.imix(0x2000000 + n as u64);
    sm.ev("write", p as u64, n as u64);
    IoR::N(n)
}
/// put bytes into a pipe (with latency when the pipe has any)
pub fn push(p: usize, b: &[u8]) {
    let _g = Guard::new();
    let sm = s();
    let lat = if sm.pipes[p].lat_on && sm.env.lat > 0 {
        let m = sm.env.lat;
        sm.dec(K::Lat, |r| r.below(m + 1)) * 1000
    } else {
        0
    };
    let now = sm.now;
    let q = &mut sm.pipes[p];
    q.buf.extend_from_slice(b);
    let at = (now + lat).max(q.last_arrival);
    q.last_arrival = at;
    let e = q.buf.len();
    q.segs.push_back((at, e));
    q.writes.push((now, e));
    if q.discard {
        q.rd = e;
    }
}
impl Sim {
    pub fn add_pipe(&mut self, cap: usize, sut_in: bool) -> usize {
        self.pipes.push(Pipe { cap: cap.max(1), sut_in, lat_on: true, ..Default::default() });
        self.pipes.len() - 1
    }
    pub fn close_write(&mut self, p: usize) {
        let now = self.now;
        let q = &mut self.pipes[p];
        if q.eof.is_none() {
            let t = now.max(q.last_arrival);
            q.eof = Some(t);
            self.ev("close-write", p as u64, 0);
        }
    }
    pub fn close_read(&mut self, p: usize) {
        if !self.pipes[p].rclosed {
            self.pipes[p].rclosed = true;
            self.ev("close-read", p as u64, 0);
        }
    }
    pub fn new_fd(&mut self, sk: usize) -> Option<i32> {
        let open = self.fds.iter().filter(|f| f.is_some()).count();
        if open >= self.fd_limit {
            return None;
        }
        self.socks[sk].refs += 1;
        let i = match self.fds.iter().position(|f| f.is_none()) {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[i] = Some(sk);
        Some(FD0 + i as i32)
    }
    pub fn new_sock(&mut self, kind: SockKind, sut: bool) -> usize {
        self.socks.push(Sock { kind, refs: 0, rcvto: 0, sndto: 0, nonblock: false, port: 0, peer_port: 0, ip: 1, peer_ip: 1, sut, reuse: false });
        self.socks.len() - 1
    }
    pub fn close_fd(&mut self, fd: i32) -> bool {
        let Some(k) = self.sock(fd) else { return false };
        self.fds[(fd - FD0) as usize] = None;
        self.socks[k].refs -= 1;
        if self.socks[k].refs == 0 {
            self.ev("sock closed", k as u64, 0);
            let kind = std::mem::replace(&mut self.socks[k].kind, SockKind::Fresh);
            match kind {
                SockKind::Stream { rx, tx } => self.drop_stream(rx, tx),
                SockKind::Listener { backlog, .. } => {
                    // pending connections are reset
                    for b in backlog {
                        let kk = std::mem::replace(&mut self.socks[b].kind, SockKind::Fresh);
                        if let SockKind::Stream { rx, tx } = kk {
                            self.pipes[tx].rerr = Some((self.pipes[tx].buf.len(), libc::ECONNRESET));
                            self.close_write(tx);
                            self.close_read(rx);
                        }
                    }
                }
                SockKind::Fresh => {}
            }
        }
        true
    }
    pub fn drop_stream(&mut self, rx: usize, tx: usize) {
        self.refresh(rx);
        let unread = self.pipes[rx].avail > self.pipes[rx].rd;
        if unread {
            // Linux answers unread data with a reset: the peer reads what had arrived, then ECONNRESET
            let l = self.pipes[tx].buf.len();
            if self.pipes[tx].rerr.is_none() {
                self.pipes[tx].rerr = Some((l, libc::ECONNRESET));
            }
        }
        self.close_write(tx);
        self.close_read(rx);
    }
    /// Descriptors the code under test has open.
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|f| f.is_some()).count()
    }
    pub fn find_listener(&self, port: u16, ip: u8) -> Option<usize> {
        self.socks.iter().position(|k| {
            k.refs > 0 && (k.ip == ip || k.ip == 0 || ip == 0) && matches!(&k.kind, SockKind::Listener { port: p, .. } if *p == port)
        })
    }
    /// Connect to a listening port; returns the client's stream pipes (rx, tx).
    pub fn tcp_connect(&mut self, port: u16, ip: u8, client_sut: bool) -> Result<(usize, usize, u16), i32> {
        let Some(l) = self.find_listener(port, ip) else { return Err(libc::ECONNREFUSED) };
        let full = match &self.socks[l].kind {
            SockKind::Listener { backlog, max, .. } => backlog.len() >= *max,
            _ => true,
        };
        if full {
            return Err(libc::ECONNREFUSED);
        }
        let server_sut = self.socks[l].sut;
        let (ic, oc) = (self.env.icap as usize, self.env.ocap as usize);
        // client -> server
        let a = self.add_pipe(if server_sut { ic } else { oc }, server_sut);
        // server -> client
        let b = self.add_pipe(if client_sut { ic } else { oc }, client_sut);
        let cport = self.next_port;
        self.next_port += 1;
        let sv = self.new_sock(SockKind::Stream { rx: a, tx: b }, server_sut);
        self.socks[sv].port = port;
        self.socks[sv].peer_port = cport;
        self.socks[sv].ip = ip;
        self.socks[sv].peer_ip = if client_sut { ip } else { (self.client_from & 127).max(1) | (ip & 128) };
        if let SockKind::Listener { backlog, .. } = &mut self.socks[l].kind {
            backlog.push_back(sv);
        }
        self.ev("tcp connect", port as u64, l as u64);
        Ok((b, a, cport))
    }
}

// ---------------------------------------------------------------- what survives a crash of the run
const CRASH_PLAN: usize = 200 << 20;
const CRASH_DECS: usize = 216 << 20;
fn crash_log(n: usize, k: u8, i: u32, v: u64) {
    unsafe {
        let off = CRASH_DECS + 8 + n * 16;
        if SHM.is_null() || off + 16 > SHM_SIZE {
            return;
        }
        *(SHM.add(CRASH_DECS) as *mut u64) = n as u64;
        *(SHM.add(off - 16) as *mut u64) = (k as u64) << 32 | i as u64;
        *(SHM.add(off - 8) as *mut u64) = v;
    }
}
pub fn crash_plan(p: &serde_json::Value) {
    unsafe {
        let v = serde_json::to_vec(p).unwrap_or_default();
        if SHM.is_null() || v.len() + 8 > CRASH_DECS - CRASH_PLAN {
            return;
        }
        *(SHM.add(CRASH_DECS) as *mut u64) = 0;
        *(SHM.add(CRASH_PLAN) as *mut u64) = v.len() as u64;
        std::ptr::copy_nonoverlapping(v.as_ptr(), SHM.add(CRASH_PLAN + 8), v.len());
    }
}
pub unsafe fn crash_read(shm: *const u8) -> (Option<serde_json::Value>, Option<DecList>) {
    let n = *(shm.add(CRASH_PLAN) as *const u64) as usize;
    let p = serde_json::from_slice(std::slice::from_raw_parts(shm.add(CRASH_PLAN + 8), n)).ok();
    let c = *(shm.add(CRASH_DECS) as *const u64) as usize;
    let d = (0..c)
        .map(|i| {
            let a = *(shm.add(CRASH_DECS + 8 + i * 16) as *const u64);
            let v = *(shm.add(CRASH_DECS + 16 + i * 16) as *const u64);
            ((a >> 32) as u8, a as u32, v)
        })
        .collect();
    (p, Some(d))
}

// ---------------------------------------------------------------- ending a run
pub static mut SHM: *mut u8 = std::ptr::null_mut();
pub const SHM_SIZE: usize = 320 << 20;

pub fn finish(status: &str, class: &str, msg: &str) -> ! {
    let _g = Guard::new();
    ACTIVE.store(false, SeqCst);
    unsafe {
        let sm = s();
        let mut stats = std::mem::take(&mut sm.stats);
        for k in 0..KN {
            if sm.fired[k] > 0 {
                stats.insert(format!("dec:{}", KNAMES[k]), sm.fired[k]);
            }
        }
        let viol = status != "ok";
        let o = Outcome {
            status: status.into(), class: class.into(), msg: msg.chars().take(4000).collect(), hash: sm.hash, ihash: sm.ihash,
            steps: sm.steps, switches: sm.switches, sim_ns: sm.now - 1_000_000_000, stats,
            plan: if viol || sm.want_trace { Some(sm.plan.clone()) } else { None },
            decs: if viol || sm.want_trace { Some(sm.decs.clone()) } else { None },
            log: if sm.verbose { Some(std::mem::take(&mut sm.log)) } else { None },
            nontrivial: sm.nontrivial, known: sm.known.clone(), sample: sm.sample.clone(),
        };
        let v = serde_json::to_vec(&o).unwrap_or_default();
        if !SHM.is_null() && v.len() + 16 < CRASH_PLAN {
            std::ptr::copy_nonoverlapping(v.as_ptr(), SHM.add(16), v.len());
            *(SHM as *mut u64).add(1) = v.len() as u64;
            *(SHM as *mut u64) = 0x600D;
        }
        exit_group(0)
    }
}
/// Report a violation of the property this run is about.
pub fn violate(class: &str, msg: String) -> ! {
    let _g = Guard::new();
    let sm = s();
    if sm.frames_only {
        only_frames();
        finish("ok", "", "");
    }
    if sm.panic_only && !matches!(class, "process-exit" | "abort" | "panicked") {
        // a panic is why it went wrong, or it is another property's business
        only_panics();
        finish("ok", "", "");
    }
    let mut m = msg;
    if !sm.panics.is_empty() {
        m.push_str(&format!(" [panics: {:?}]", sm.panics));
    }
    finish("violation", class, &m)
}
/// Whatever was written so far must be frames, the last of which may be incomplete.
pub fn only_frames() {
    let _g = Guard::new();
    for p in s().pipes.iter().filter(|p| p.by_lib) {
        if let Err(e) = crate::frames::messages(&p.buf) {
            finish("violation", "not-frames", &format!("what was written is not a sequence of frames: {e}"));
        }
    }
}
/// Did any thread panic?
pub fn only_panics() {
    let _g = Guard::new();
    let sm = s();
    if let Some(p) = sm.panics.first() {
        let m = format!("a {} thread panicked: {:?} at {}{}", p.role, p.msg, p.loc, if sm.panics.len() > 1 { format!(" (and {} more)", sm.panics.len() - 1) } else { String::new() });
        finish("violation", "panicked", &m);
    }
}
pub fn harness_error(msg: String) -> ! {
    finish("harness", "harness", &msg)
}

// ---------------------------------------------------------------- allocator: memory limit and preemption points
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static BIGGEST: AtomicI64 = AtomicI64::new(0);
/// Every block carries a header saying whether it is counted: who frees it does not matter.
pub struct Alloc;
fn head(l: &std::alloc::Layout) -> (usize, std::alloc::Layout) {
    let h = l.align().max(16);
    (h, unsafe { std::alloc::Layout::from_size_align_unchecked(l.size().saturating_add(h).min(isize::MAX as usize - 4096), l.align().max(16)) })
}
unsafe fn with_head(l: &std::alloc::Layout, f: unsafe fn(std::alloc::Layout) -> *mut u8) -> *mut u8 {
    let mut tag = 0u64;
    if ACTIVE.load(Relaxed) {
        match pre(l.size()) {
            None => return std::ptr::null_mut(),
            Some(c) => tag = c as u64,
        }
    }
    let (h, hl) = head(l);
    let p = f(hl);
    if p.is_null() {
        return p;
    }
    let p = p.add(h);
    *(p as *mut u64).sub(1) = tag;
    p
}
unsafe fn sys(l: std::alloc::Layout) -> *mut u8 {
    std::alloc::GlobalAlloc::alloc(&std::alloc::System, l)
}
unsafe fn sys0(l: std::alloc::Layout) -> *mut u8 {
    std::alloc::GlobalAlloc::alloc_zeroed(&std::alloc::System, l)
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        with_head(&l, sys)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let (h, hl) = head(&l);
        if *(p as *mut u64).sub(1) != 0 {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        std::alloc::System.dealloc(p.sub(h), hl)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        with_head(&l, sys0)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let was = *(p as *mut u64).sub(1) != 0;
        let mut tag = was;
        if ACTIVE.load(Relaxed) {
            match pre(n) {
                None => return std::ptr::null_mut(),
                Some(c) => {
                    if was && !c {
                        LIVE.fetch_add(n as i64, Relaxed);
                    }
                    tag = was || c;
                }
            }
        } else if was {
            LIVE.fetch_add(n as i64, Relaxed);
        }
        if was {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        let (h, hl) = head(&l);
        let q = std::alloc::System.realloc(p.sub(h), hl, n + h);
        if q.is_null() {
            return q;
        }
        let q = q.add(h);
        *(q as *mut u64).sub(1) = tag as u64;
        q
    }
}
#[inline]
/// None: refused; otherwise whether the block is counted.
fn pre(size: usize) -> Option<bool> {
    if INSIM.with(|t| t.get()) != 0 {
        return Some(false);
    }
    if HARNESS.with(|h| h.get()) {
        return Some(false);
    }
    let size = size.min(1 << 60);
    let live = LIVE.fetch_add(size as i64, Relaxed);
    if TID.with(|t| t.get()) < 0 {
        return Some(true);
    }
    let sm = s();
    PEAK.fetch_max(live + size as i64, Relaxed);
    BIGGEST.fetch_max(size.min(i64::MAX as usize) as i64, Relaxed);
    if live + size as i64 > sm.mem_limit || size as i64 > sm.mem_limit {
        LIVE.fetch_sub(size as i64, Relaxed);
        let _g = Guard::new();
        sm.stat("fault:alloc_refused");
        sm.ev("alloc refused", size as u64, 0);
        return None;
    }
    if sm.quantum > 0 {
        sm.quantum -= 1;
        if sm.quantum == 0 {
            if sm.step > 0 {
                crate::step::open(sm.step);
                crate::step::arm();
            } else {
                preempt();
            }
        }
    }
    Some(true)
}
