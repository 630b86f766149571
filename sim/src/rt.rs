//! What scenarios are made of: harness threads, shared records, peers, connections.
use crate::core::*;
use crate::interpose::NEXT_ROLE;
use bsp_server::{Connection, IoThreads};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// Generous upper bound for "eventually", in simulated microseconds.
pub const EVENTUALLY: u64 = 400_000_000_000;

/// Data shared between harness threads; accessed without any scheduling point inside.
pub struct Sh<T>(Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    pub fn new(t: T) -> Sh<T> {
        let _g = Guard::new();
        Sh(Arc::new(UnsafeCell::new(t)))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _g = Guard::new();
        f(unsafe { &mut *self.0.get() })
    }
}
pub fn set_harness(v: bool) -> bool {
    HARNESS.with(|h| h.replace(v))
}
pub type JH = std::thread::JoinHandle<()>;
/// A thread of the simulated environment (peers).
pub fn spawn_peer(role: &'static str, f: impl FnOnce() + Send + 'static) -> JH {
    let h = set_harness(true);
    unsafe { NEXT_ROLE = Some(role) };
    let j = std::thread::spawn(move || {
        set_harness(true);
        f()
    });
    set_harness(h);
    j
}
/// A thread of the application that uses the library; panics inside are contained and recorded.
pub fn spawn_app(role: &'static str, f: impl FnOnce() + Send + 'static) -> JH {
    let h = set_harness(true);
    unsafe { NEXT_ROLE = Some(role) };
    let j = std::thread::spawn(move || {
        let _ = catch_unwind(AssertUnwindSafe(f));
    });
    set_harness(h);
    j
}
/// Call the code under test from the director.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let h = set_harness(false);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_harness(h);
    r.map_err(|_| last_panic())
}
pub fn last_panic() -> String {
    s().panics.last().map(|p| format!("{} ({})", p.msg, p.loc)).unwrap_or_else(|| "panic".into())
}
/// Panics of the library's own threads or raised inside library code on application threads.
pub fn lib_panics() -> Vec<Panic> {
    s().panics.clone()
}
pub fn states() -> String {
    let v: Vec<String> = s()
        .thr
        .iter()
        .enumerate()
        .filter(|(i, t)| *i > 0 && !matches!(t.wait, Wait::Done))
        .map(|(i, t)| format!("T{i} {}: {}", t.role, wname(&t.wait)))
        .collect();
    v.join("; ")
}
pub fn lib_threads_alive() -> usize {
    s().thr.iter().filter(|t| t.role == "lib" && !matches!(t.wait, Wait::Done)).count()
}
pub fn no_deadlock_wait(f: impl Fn() -> bool + 'static) -> bool {
    wait_for(EVENTUALLY, f)
}
fn activity() -> (usize, usize) {
    let sm = s();
    (sm.pipes.iter().map(|p| p.buf.len() + p.rd).sum(), sm.thr.iter().filter(|t| matches!(t.wait, Wait::Done)).count())
}
fn under_way() -> bool {
    let sm = s();
    sm.thr.iter().any(|t| !matches!(t.wait, Wait::Done) && (t.stall_until > sm.now || t.role == "peer-reader" && matches!(t.wait, Wait::Sleep)))
}
/// Let everything that can happen happen: this much simulated time passes in which nothing does.
pub fn settle(us: u64) {
    for _ in 0..4000 {
        let a = activity();
        sleep_us(us);
        if activity() == a && !under_way() {
            return;
        }
    }
}

// ---------------------------------------------------------------- peers
#[derive(Clone, Copy, Debug)]
pub struct Wire {
    pub inp: usize, // peer -> code under test
    pub out: usize, // code under test -> peer
}
pub enum Act {
    Bytes(Vec<u8>),
    Sleep(u64),
    Close,
    /// the code under test's next read beyond what was sent fails
    Fail(i32),
    /// both directions end at once
    Gone(bool), // true: reset
}
/// Write bytes as the peer, in pieces.
pub fn peer_bytes(p: usize, b: &[u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        if s().pipes[p].rclosed || s().pipes[p].eof.is_some() {
            return false;
        }
        let left = b.len() - at;
        let sm = s();
        let mode = sm.env.chunk;
        let v = sm.dec(K::Chunk, |r| {
            if left <= 1 {
                return 0;
            }
            let l = left as u64;
            match mode {
                1 => {
                    // split at a line end
                    match b[at..].windows(2).position(|w| w == b"\r\n") {
                        Some(i) if r.permille(700) => (i as u64 + r.range(0, 2)).min(l - 1),
                        _ => 0,
                    }
                }
                2 => {
                    if r.permille(700) {
                        r.range(1, l - 1)
                    } else {
                        0
                    }
                }
                3 => {
                    if l < 600 {
                        1
                    } else {
                        r.range(1, l - 1)
                    }
                }
                4 => {
                    // split inside a multi-byte character
                    match b[at + 1..].iter().position(|c| (c & 0xC0) == 0x80) {
                        Some(i) if r.permille(500) => (i as u64 + 1).min(l - 1),
                        _ => 0,
                    }
                }
                5 => {
                    // everything but the last byte(s)
                    if r.permille(600) {
                        l - r.range(1, l.min(3)).min(l - 1)
                    } else {
                        0
                    }
                }
                6 => {
                    let sz = *r.pick(&[7u64, 64, 1024, 4096, 8192]);
                    if l > sz && l / sz < 400 {
                        sz
                    } else {
                        0
                    }
                }
                _ => 0,
            }
        }) as usize;
        let n = if v > 0 { v.min(left) } else { left };
        let mut sent = 0;
        while sent < n {
            if !matches!(block(Wait::Writable(p), None), Woke::Ready) {
                continue;
            }
            let q = &s().pipes[p];
            if q.rclosed || q.eof.is_some() {
                return false;
            }
            let room = q.cap.saturating_sub(q.buf.len() - q.rd);
            let k = room.min(n - sent);
            push(p, &b[at + sent..at + sent + k]);
            sent += k;
            point();
        }
        s().ev("peer", p as u64, n as u64);
        at += n;
    }
    true
}
pub fn peer_gone(w: Wire, reset: bool) {
    let _g = Guard::new();
    let sm = s();
    if reset {
        let l = sm.pipes[w.inp].buf.len();
        sm.pipes[w.inp].rerr = Some((l, libc::ECONNRESET));
        sm.pipes[w.inp].rerr_sticky = false;
        if sm.pipes[w.out].werr.is_none() {
            sm.pipes[w.out].werr = Some((0, libc::ECONNRESET));
            sm.pipes[w.out].werr_sticky = true;
        }
        sm.stat("fault:peer_reset");
    } else {
        sm.stat("fault:peer_gone");
    }
    sm.close_write(w.inp);
    sm.close_read(w.out);
}
pub fn peer_script(w: Wire, acts: Vec<Act>) {
    for a in acts {
        match a {
            Act::Bytes(b) => {
                if !peer_bytes(w.inp, &b) {
                    return;
                }
            }
            Act::Sleep(us) => sleep_us(us),
            Act::Close => {
                let _g = Guard::new();
                s().close_write(w.inp);
            }
            Act::Fail(e) => {
                let _g = Guard::new();
                let l = s().pipes[w.inp].buf.len();
                s().pipes[w.inp].rerr = Some((l, e));
                s().pipes[w.inp].rerr_sticky = false;
                let now = s().now;
                let _ = now;
                s().close_write(w.inp); // after the error the input is over
            }
            Act::Gone(r) => peer_gone(w, r),
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Drain {
    pub mode: u64,               // 0: takes everything at once; 1: at the pace below
    pub chunk: u64,              // bytes taken at a time
    pub pace: u64,               // us between takes
    pub stalls: Vec<(u64, u64)>, // (after so many bytes, us)
    pub cap: u64,                // kernel buffer
    pub hold: Option<u64>,       // stops taking at this offset until told to go on
}
/// Take output as the peer. `go`: set when a held drain may go on.
pub fn drainer(p: usize, d: Drain, go: Sh<bool>) {
    let mut st = d.stalls.clone();
    st.sort();
    let mut i = 0;
    loop {
        let hold = d.hold.map(|h| h as usize);
        let g = go.clone();
        let lim = move || if g.with(|x| *x) { usize::MAX } else { hold.unwrap_or(usize::MAX) };
        let l2 = lim.clone();
        block(
            Wait::Cond(Box::new(move || {
                let q = &s().pipes[p];
                (q.buf.len() > q.rd && q.rd < l2()) || (q.eof.is_some() && q.rd == q.buf.len()) || q.rclosed
            })),
            None,
        );
        let q = &mut s().pipes[p];
        if q.rclosed || (q.eof.is_some() && q.rd == q.buf.len()) {
            return;
        }
        let mut n = (q.buf.len() - q.rd).min(d.chunk.max(1) as usize);
        n = n.min(lim().saturating_sub(q.rd));
        if i < st.len() {
            let at = st[i].0 as usize;
            if q.rd >= at {
                let us = st[i].1;
                i += 1;
                s().stat("fault:peer_not_reading");
                sleep_us(us);
                continue;
            }
            n = n.min(at - q.rd);
        }
        q.rd += n;
        s().ev("drain", p as u64, n as u64);
        if d.pace > 0 {
            sleep_us(d.pace);
        } else {
            point();
        }
    }
}
pub fn start_drain(p: usize, d: &Drain, go: &Sh<bool>) {
    if d.mode == 0 {
        s().pipes[p].discard = true;
        return;
    }
    let (d, go) = (d.clone(), go.clone());
    s().pipes[p].cap = d.cap.max(1) as usize;
    spawn_peer("peer-reader", move || drainer(p, d, go));
}

// ---------------------------------------------------------------- connections
pub const STDIO: u8 = 0;
pub const LISTEN: u8 = 1;
pub const CONNECT: u8 = 2;
pub struct Est {
    pub conn: Connection,
    pub io: IoThreads,
    pub w: Wire,
}
/// Open a connection with nothing going wrong.
pub fn establish(tr: u8, port: u16) -> Est {
    let addr = ("127.0.0.1", port);
    match tr {
        STDIO => {
            let sm = s();
            let (ic, oc) = (sm.env.icap as usize, sm.env.ocap as usize);
            let a = sm.add_pipe(ic, true);
            let b = sm.add_pipe(oc, false);
            sm.stdin = Some(a);
            sm.stdout = Some(b);
            match lib(Connection::stdio) {
                Ok((conn, io)) => Est { conn, io, w: Wire { inp: a, out: b } },
                Err(e) => violate("establish", format!("Connection::stdio panicked: {e}")),
            }
        }
        LISTEN => {
            let got: Sh<Option<Wire>> = Sh::new(None);
            let g = got.clone();
            spawn_peer("peer-connect", move || {
                if wait_for(EVENTUALLY, move || s().find_listener(port, 1).is_some()) {
                    if let Ok((rx, tx, _)) = s().tcp_connect(port, 1, false) {
                        // rx: what the server writes, tx: what the client writes
                        g.with(|x| *x = Some(Wire { inp: tx, out: rx }));
                    }
                }
            });
            match lib(|| Connection::listen(addr)) {
                Ok(Ok((conn, io))) => match got.with(|x| *x) {
                    Some(w) => Est { conn, io, w },
                    None => violate("establish", "listen returned a connection although no peer connected".into()),
                },
                Ok(Err(e)) => violate("establish", format!("Connection::listen failed: {e}")),
                Err(e) => violate("establish", format!("Connection::listen panicked: {e}")),
            }
        }
        _ => {
            let sm = s();
            let l = sm.new_sock(SockKind::Listener { port, backlog: Default::default(), max: 128 }, false);
            sm.socks[l].refs = 1;
            sm.socks[l].port = port;
            match lib(|| Connection::connect(addr)) {
                Ok(Ok((conn, io))) => {
                    let k = match &mut s().socks[l].kind {
                        SockKind::Listener { backlog, .. } => backlog.pop_front(),
                        _ => None,
                    };
                    let Some(k) = k else { violate("establish", "connect returned without having connected".into()) };
                    // stop listening
                    s().socks[l].refs = 0;
                    let SockKind::Stream { rx, tx } = s().socks[k].kind else { harness_error("no stream".into()) };
                    Est { conn, io, w: Wire { inp: tx, out: rx } }
                }
                Ok(Err(e)) => violate("establish", format!("Connection::connect failed: {e}")),
                Err(e) => violate("establish", format!("Connection::connect panicked: {e}")),
            }
        }
    }
}
/// Wait for the I/O threads; Err: a panic came out, Ok(Err): an I/O error.
pub fn join(io: IoThreads) -> Result<Result<(), String>, String> {
    lib(move || io.join().map_err(|e| format!("{:?}: {e}", e.kind())))
}
