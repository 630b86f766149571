//! Connections with scripted peers and application threads, and the checks over what was recorded.
use crate::core::*;
use crate::frames;
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use bsp_server::{Connection, IoThreads, Message};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct InItem {
    pub m: Option<MsgSpec>,
    pub cut: Option<u64>, // only this many bytes of the frame, then nothing more
    pub dmg: Option<Dmg>, // a damaged frame made from `m`
    pub sleep: u64,
    pub junk: u64, // that many arbitrary bytes (only after an exit or a damaged frame)
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Dmg {
    pub kind: u64,
    pub v: u64,
}
pub const NDMG: u64 = 15;
/// A frame that is damaged for certain.
pub fn damaged(m: &MsgSpec, d: &Dmg) -> Vec<u8> {
    let body = m.body_text();
    let f = |len: String, b: &[u8]| {
        let mut v = format!("Content-Length: {len}\r\n\r\n").into_bytes();
        v.extend_from_slice(b);
        v
    };
    match d.kind % NDMG {
        0 => {
            let n = body.len();
            let h = match d.v % 5 {
                0 => format!("Length: {n}"),
                1 => format!("X-Content-Length: {n}"),
                2 => format!("Content-Lengths: {n}"),
                _ => "Content-Type: application/vscode-jsonrpc; charset=utf-8".to_string(),
            };
            let mut v = format!("{h}\r\n\r\n").into_bytes();
            v.extend_from_slice(body.as_bytes());
            v
        }
        1 => {
            let l = ["abc", "", "-5", "12x", "1e3", "0x10", "99999999999999999999999999", "1 2", "٣"];
            let n = body.len();
            let right = match d.v % 17 {
                9 => format!("{n}x"),
                10 => format!("{n}.0"),
                11 => format!("-{n}"),
                12 => format!("{n},{n}"),
                13 => format!("{n};"),
                14 => format!("0x{n:x}"),
                15 => format!("{n}e0"),
                16 => format!("={n}"),
                k => l[k as usize].to_string(),
            };
            f(right, body.as_bytes())
        }
        2 => {
            // a string with a byte sequence that is not UTF-8
            let bad: [&[u8]; 6] = [b"\xff", b"\xc3", b"\xe6\x97", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf"];
            let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"x/u\",\"params\":{\"s\":\"".to_vec();
            b.extend_from_slice(bad[(d.v % 6) as usize]);
            b.extend_from_slice(b"\"}}");
            f(b.len().to_string(), &b)
        }
        3 => {
            // the last brace is missing
            let t = body.trim_end();
            let b = &t.as_bytes()[..t.len() - 1];
            f(b.len().to_string(), b)
        }
        4 => {
            let l = [
                "[]", "5", "{}", "\"x\"", "{\"jsonrpc\":\"2.0\"}", "null", "{\"result\":5}", "true",
                "{\"jsonrpc\":\"2.0\",\"params\":{}}", "{\"jsonrpc\":\"2.0\",\"error\":{\"code\":1,\"message\":\"m\"}}",
                "{\"jsonrpc\":\"2.0\",\"method\":5}", "[{}]",
            ];
            let b = l[(d.v % 12) as usize];
            f(b.len().to_string(), b.as_bytes())
        }
        5 => {
            let l = ["Content-Length 5", "GET / HTTP/1.1", "Content-Length", "{\"jsonrpc\":\"2.0\"}"];
            let h = match d.v % 6 {
                4 => format!("Content-Length {}", body.len()),
                5 => format!("Content-Length={}", body.len()),
                k => l[k as usize].to_string(),
            };
            let mut v = format!("{h}\r\n\r\n").into_bytes();
            v.extend_from_slice(body.as_bytes());
            v
        }
        6 => f((body.trim_end().len() - 1).to_string(), body.trim_end().as_bytes()),
        7 => {
            let b = format!("{body}x");
            f(b.len().to_string(), b.as_bytes())
        }
        8 => f("0".into(), b""),
        9 => {
            let b = format!("{body}{body}");
            f(b.len().to_string(), b.as_bytes())
        }
        10 => {
            let b = ["not json", "{'jsonrpc':'2.0'}", "{\"jsonrpc\":\"2.0\",}", "\u{feff}{}", "nul", "{\"method\":\"x\""][(d.v % 6) as usize];
            f(b.len().to_string(), b.as_bytes())
        }
        12 => {
            // params that do not fit the method
            let m = [
                "build/initialize", "buildTarget/dependencyModules", "debugSession/start", "buildTarget/sources", "textDocument/inverseSources",
                "buildTarget/dependencySources", "buildTarget/resources", "buildTarget/run", "buildTarget/compile", "buildTarget/test",
                "buildTarget/cleanCache", "build/showMessage", "build/logMessage", "build/publishDiagnostics", "build/taskStart",
                "build/taskFinish", "build/taskProgressing", "buildTarget/didChange",
            ][(d.v % 18) as usize];
            let p = ["5", "\"x\"", "true", "{}", "{\"target\":5,\"targets\":7,\"message\":[],\"textDocument\":1}", "null"]
                [(d.v / 18 % if matches!(d.v % 18, 2 | 14..=16) { 3 } else { 6 }) as usize];
            let id = if d.v % 18 >= 11 { "" } else { ["\"id\":7,", "\"id\":\"build/exit\","][(d.v % 2) as usize] };
            let b = format!("{{\"jsonrpc\":\"2.0\",{id}\"method\":\"{m}\",\"params\":{p}}}");
            f(b.len().to_string(), b.as_bytes())
        }
        13 => {
            // an id that is neither a 32-bit number nor a string
            let id = ["3000000000", "-2147483649", "1.5", "true", "{}", "[1]", "18446744073709551615", "1e300"][(d.v % 8) as usize];
            let rest = [
                "\"method\":\"x/big\",\"params\":{\"a\":1}", "\"method\":\"build/exit\"", "\"method\":\"workspace/reload\"", "\"result\":1",
                "\"method\":\"build/initialized\"", "\"method\":\"build/logMessage\",\"params\":{\"type\":1,\"message\":\"m\"}",
            ][(d.v / 8 % 6) as usize];
            let b = format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},{rest}}}");
            f(b.len().to_string(), b.as_bytes())
        }
        14 => {
            // an array instead of an object
            let b = [
                "[1,null,null]", "[\"a\",{\"x\":1},null]", "[1,null,{\"code\":1,\"message\":\"m\"}]", "[\"build/exit\",null]",
                "[7,\"x/m\",{}]", "[{\"jsonrpc\":\"2.0\",\"method\":\"x\",\"params\":{}}]", "[null,\"build/exit\"]", "[\"build/exit\"]",
            ][(d.v % 8) as usize];
            f(b.len().to_string(), b.as_bytes())
        }
        _ => {
            // the length of the body in characters, not bytes: body has a multi-byte character
            let b = "{\"jsonrpc\":\"2.0\",\"method\":\"x/c\",\"params\":{\"s\":\"日本\"}}";
            f(b.chars().count().to_string(), b.as_bytes())
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct RecvPlan {
    pub how: u64,
    pub n: u64, // stop after so many messages (0: when disconnected)
    pub start: u64,
    pub pauses: Vec<(u64, u64)>, // (after so many, us)
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct SendOp {
    pub m: MsgSpec,
    pub how: u64, // 0 send, 1 try_send, 2 send_timeout, 3 send_deadline
    pub t: u64,   // us
    pub pause: u64,
    pub via: Option<u64>, // made with the library's conversions
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct SendPlan {
    pub start: u64,
    pub after_disc: bool, // only starts once the input has ended
    pub ops: Vec<SendOp>,
}
/// How the peer's side of the input ends after its script.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct EndPlan {
    pub kind: u64, // 0 stays open, 1 closes, 2 read error, 3 gone, 4 reset
    pub errno: i32,
    pub after: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct ConnPlan {
    pub tr: u8,
    pub inb: Vec<InItem>,
    pub one: bool, // everything between pauses goes out in one piece
    pub end: EndPlan,
    pub recv: Vec<RecvPlan>,
    pub send: Vec<SendPlan>,
    pub drain: Drain,
    pub werr: Option<(u64, i32)>,
    pub wsticky: bool,
    pub join: bool, // afterwards everything is ended in order
    pub hold_conn: bool, // the director keeps the connection until all threads are done
}
impl ConnPlan {
    pub fn items(&self) -> Vec<&InItem> {
        let mut v = vec![];
        for i in &self.inb {
            v.push(i);
            if i.cut.is_some() && i.m.is_some() {
                break;
            }
        }
        v
    }
    /// bytes of each item
    pub fn item_bytes(i: &InItem, after_end: bool) -> Vec<u8> {
        let mut b = vec![];
        if let Some(m) = &i.m {
            match &i.dmg {
                Some(d) => b = damaged(m, d),
                None => b = m.wire(),
            }
            if let Some(c) = i.cut {
                let n = (c as usize).min(b.len().saturating_sub(1));
                b.truncate(n);
            }
        }
        if i.junk > 0 && after_end {
            let mut r = Rng::new(i.junk);
            for _ in 0..i.junk {
                b.push(r.below(256) as u8);
            }
        }
        b
    }
    pub fn acts(&self) -> Vec<Act> {
        let mut a: Vec<Act> = vec![];
        let mut buf: Vec<u8> = vec![];
        let mut ended = false;
        for i in self.items() {
            if i.sleep > 0 {
                if !buf.is_empty() {
                    a.push(Act::Bytes(std::mem::take(&mut buf)));
                }
                a.push(Act::Sleep(i.sleep));
            }
            let b = ConnPlan::item_bytes(i, ended);
            if i.dmg.is_some() && i.m.is_some() || i.m.as_ref().map_or(false, |m| m.is_exit()) {
                ended = true;
            }
            if self.one {
                buf.extend_from_slice(&b);
            } else if !b.is_empty() {
                a.push(Act::Bytes(b));
            }
        }
        if !buf.is_empty() {
            a.push(Act::Bytes(buf));
        }
        if self.end.after > 0 {
            a.push(Act::Sleep(self.end.after));
        }
        match self.end.kind {
            1 => a.push(Act::Close),
            2 => a.push(Act::Fail(if self.end.errno > 0 { self.end.errno } else { libc::EIO })),
            3 => a.push(Act::Gone(false)),
            4 => a.push(Act::Gone(true)),
            _ => {}
        }
        a
    }
    /// What is to be delivered, and how the input ends.
    pub fn expected(&self) -> (Vec<Value>, InEnd) {
        let mut v = vec![];
        for i in self.items() {
            let Some(m) = &i.m else { continue };
            if i.cut.is_some() {
                let b = ConnPlan::item_bytes(i, false);
                if b.is_empty() {
                    break; // cut exactly between two frames
                }
                return (v, if matches!(self.end.kind, 0) { InEnd::Open } else { InEnd::Damaged });
            }
            if i.dmg.is_some() {
                return (v, InEnd::Damaged);
            }
            v.push(m.expect());
            if m.is_exit() {
                return (v, InEnd::Exit);
            }
        }
        (v, match self.end.kind {
            0 => InEnd::Open,
            1 | 3 => InEnd::Clean,
            _ => InEnd::Damaged,
        })
    }
    /// end offset in the byte stream of each message to be delivered
    pub fn offsets(&self) -> Vec<usize> {
        let mut at = 0;
        let mut v = vec![];
        for i in self.items() {
            if i.m.is_none() {
                continue;
            }
            if i.cut.is_some() || i.dmg.is_some() {
                break;
            }
            at += ConnPlan::item_bytes(i, false).len();
            v.push(at);
            if i.m.as_ref().unwrap().is_exit() {
                break;
            }
        }
        v
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum InEnd {
    Open,
    Clean,
    Exit,
    Damaged,
}

// ---------------------------------------------------------------- recording
#[derive(Clone, Debug)]
pub struct Rx {
    pub th: usize,
    pub at: u64,
    pub v: Value,
    pub from: u64, // when the receive was begun, and when it had returned
    pub to: u64,
}
/// A clock that ticks with every reading.
pub fn tick() -> u64 {
    let sm = s();
    sm.ticks += 1;
    sm.ticks
}
#[derive(Clone, Debug)]
pub struct SendRec {
    pub th: usize,
    pub ix: usize,
    pub start: u64,
    pub end: u64,
    pub ok: bool,
    pub err: &'static str, // "", "full", "timeout", "disconnected", "panic"
    pub ret: Option<Value>,
    pub from: u64,
    pub to: u64,
    pub steps: u64, // scheduling steps meanwhile, of one microsecond each
}
#[derive(Default)]
pub struct Hist {
    pub rx: Vec<Rx>,
    pub disc: Vec<(usize, u64)>,
    pub sends: Vec<SendRec>,
    pub pending: Vec<(usize, usize, u64)>, // sends that have not returned
    pub rdone: usize,
    pub sdone: usize,
}
pub struct Link {
    pub plan: ConnPlan,
    pub w: Wire,
    pub h: Sh<Hist>,
    pub go: Sh<bool>,
    pub io: Option<IoThreads>,
    pub conn: Option<Arc<Connection>>,
    pub threads: std::ops::Range<usize>, // slots of the library's threads
}
pub fn lib_slots_from(n: usize) -> std::ops::Range<usize> {
    n..s().thr.len()
}

fn receiver(c: Arc<Connection>, p: RecvPlan, th: usize, h: Sh<Hist>) {
    if p.start > 0 {
        sleep_us(p.start);
    }
    let mut n = 0u64;
    let mut idle = 1000u64;
    loop {
        if p.n > 0 && n >= p.n {
            break;
        }
        for &(k, us) in &p.pauses {
            if k == n && us > 0 {
                s().stat("fault:app_not_receiving");
                sleep_us(us);
            }
        }
        use crossbeam_channel::{RecvTimeoutError, TryRecvError};
        let from = tick();
        let r: Result<Message, bool> = match p.how % 4 {
            1 => match c.receiver.try_recv() {
                Ok(m) => Ok(m),
                Err(TryRecvError::Empty) => {
                    sleep_us(idle);
                    idle = (idle * 2).min(100_000_000);
                    continue;
                }
                Err(TryRecvError::Disconnected) => Err(true),
            },
            2 => match c.receiver.recv_timeout(Duration::from_micros(idle)) {
                Ok(m) => Ok(m),
                Err(RecvTimeoutError::Timeout) => {
                    idle = (idle * 2).min(100_000_000);
                    continue;
                }
                Err(RecvTimeoutError::Disconnected) => Err(true),
            },
            3 => c.receiver.iter().next().ok_or(true),
            _ => c.receiver.recv().map_err(|_| true),
        };
        match r {
            Ok(m) => {
                idle = 1000;
                n += 1;
                h.with(|h| {
                    let v = view(&m);
                    s().ev("recv", n, 0);
                    h.rx.push(Rx { th, at: s().now, v, from, to: tick() })
                });
                drop(m);
            }
            Err(_) => {
                h.with(|h| h.disc.push((th, s().now)));
                s().ev("disconnected", n, 0);
                break;
            }
        }
    }
}
/// Limits of timed sends: the largest stand for no limit at all.
pub fn limit(us: u64) -> Duration {
    match us {
        u64::MAX => Duration::MAX,
        x if x == u64::MAX - 1 => Duration::from_secs(u64::MAX / 4),
        _ => Duration::from_micros(us),
    }
}
pub fn deadline(us: u64) -> Instant {
    let now = Instant::now();
    now.checked_add(limit(us)).unwrap_or_else(|| now + Duration::from_secs(1 << 40))
}
fn sender(c: Arc<Connection>, p: SendPlan, th: usize, h: Sh<Hist>) {
    if p.start > 0 {
        sleep_us(p.start);
    }
    if p.after_disc {
        let h2 = h.clone();
        wait_for(EVENTUALLY, move || h2.with(|h| !h.disc.is_empty()));
    }
    for (ix, o) in p.ops.iter().enumerate() {
        if o.pause > 0 {
            sleep_us(o.pause);
        }
        let Some(m) = o.via.and_then(|v| build_via(&o.m, v)).or_else(|| build(&o.m)) else { continue };
        let (start, step0, from) = (s().now, s().steps, tick());
        h.with(|h| h.pending.push((th, ix, start)));
        s().ev("send>", th as u64, ix as u64);
        use crossbeam_channel::{SendTimeoutError, TrySendError};
        let (ok, err, ret): (bool, &'static str, Option<Message>) = match o.how % 4 {
            1 => match c.try_send(m) {
                Ok(()) => (true, "", None),
                Err(TrySendError::Full(m)) => (false, "full", Some(m)),
                Err(TrySendError::Disconnected(m)) => (false, "disconnected", Some(m)),
            },
            k @ (2 | 3) => {
                let r = if k == 2 { c.send_timeout(m, limit(o.t)) } else { c.send_deadline(m, deadline(o.t)) };
                match r {
                    Ok(()) => (true, "", None),
                    Err(SendTimeoutError::Timeout(m)) => (false, "timeout", Some(m)),
                    Err(SendTimeoutError::Disconnected(m)) => (false, "disconnected", Some(m)),
                }
            }
            _ => match c.send(m) {
                Ok(()) => (true, "", None),
                Err(e) => (false, "disconnected", Some(e.0)),
            },
        };
        let (end, steps) = (s().now, s().steps - step0);
        h.with(|h| {
            h.pending.retain(|x| !(x.0 == th && x.1 == ix));
            h.sends.push(SendRec { th, ix, start, end, ok, err, ret: ret.as_ref().map(view), steps, from, to: tick() });
        });
        s().ev("send<", th as u64, ok as u64);
        drop(ret);
    }
}

/// Open the connection and start everybody.
pub fn start(plan: &ConnPlan, port: u16) -> Link {
    let l = open(plan, port);
    start_peer(&l);
    start_app(l)
}
pub fn open(plan: &ConnPlan, port: u16) -> Link {
    let n0 = s().thr.len();
    let e = establish(plan.tr, port);
    let threads: Vec<usize> = (n0..s().thr.len()).filter(|&i| s().thr[i].role == "lib").collect();
    let go = Sh::new(false);
    if let Some((o, er)) = plan.werr {
        let q = &mut s().pipes[e.w.out];
        q.werr = Some((o as usize, if er > 0 { er } else { libc::EPIPE }));
        q.werr_sticky = plan.wsticky;
    }
    start_drain(e.w.out, &plan.drain, &go);
    let lo = threads.first().copied().unwrap_or(n0);
    let hi = threads.last().map(|x| x + 1).unwrap_or(n0);
    Link { plan: plan.clone(), w: e.w, h: Sh::new(Hist::default()), go, io: Some(e.io), conn: Some(Arc::new(e.conn)), threads: lo..hi }
}
pub fn start_peer(l: &Link) {
    let (w, acts) = (l.w, l.plan.acts());
    spawn_peer("peer-writer", move || peer_script(w, acts));
}
pub fn start_app(mut l: Link) -> Link {
    let conn = l.conn.take().unwrap();
    for (th, p) in l.plan.recv.iter().enumerate() {
        let (c, p, h) = (conn.clone(), p.clone(), l.h.clone());
        spawn_app("app-recv", move || {
            let h2 = h.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || receiver(c, p, th, h)));
            h2.with(|h| h.rdone += 1);
            drop(r);
        });
    }
    for (th, p) in l.plan.send.iter().enumerate() {
        let (c, p, h) = (conn.clone(), p.clone(), l.h.clone());
        spawn_app("app-send", move || {
            let h2 = h.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || sender(c, p, th, h)));
            h2.with(|h| h.sdone += 1);
            drop(r);
        });
    }
    if l.plan.hold_conn {
        l.conn = Some(conn);
    } else {
        let _ = lib(move || drop(conn));
    }
    l
}
impl Link {
    pub fn receivers_done(&self) -> bool {
        self.h.with(|h| h.rdone) >= self.plan.recv.len()
    }
    pub fn senders_done(&self) -> bool {
        self.h.with(|h| h.sdone) >= self.plan.send.len()
    }
    pub fn wait_receivers(&self, us: u64) -> bool {
        let (h, n) = (self.h.clone(), self.plan.recv.len());
        wait_for(us, move || h.with(|h| h.rdone) >= n)
    }
    pub fn wait_senders(&self, us: u64) -> bool {
        let (h, n) = (self.h.clone(), self.plan.send.len());
        wait_for(us, move || h.with(|h| h.sdone) >= n)
    }
    pub fn wait_received(&self, n: usize, us: u64) -> bool {
        let h = self.h.clone();
        wait_for(us, move || h.with(|h| h.rx.len()) >= n)
    }
    pub fn received(&self) -> usize {
        self.h.with(|h| h.rx.len())
    }
    pub fn drop_conn(&mut self) {
        if let Some(c) = self.conn.take() {
            let _ = lib(move || drop(c));
        }
    }
    pub fn out(&self) -> &'static [u8] {
        &s().pipes[self.w.out].buf
    }
    pub fn threads_alive(&self) -> Vec<usize> {
        self.threads.clone().filter(|&i| s().thr[i].role == "lib" && !matches!(s().thr[i].wait, Wait::Done)).collect()
    }
    /// Join on a separate thread, so that a join that never returns is seen.
    pub fn join_async(&mut self) -> Sh<Option<JoinRec>> {
        let out: Sh<Option<JoinRec>> = Sh::new(None);
        if let Some(io) = self.io.take() {
            let (o, w, th) = (out.clone(), self.w, self.threads.clone());
            spawn_app("app-join", move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || io.join().map_err(|e| format!("{:?}: {e}", e.kind()))));
                let r = r.map_err(|_| last_panic());
                o.with(|o| {
                    *o = Some(JoinRec {
                        at: s().now,
                        res: r,
                        out_len: s().pipes[w.out].buf.len(),
                        fds: s().open_fds(),
                        alive: th.filter(|&i| s().thr[i].role == "lib" && !matches!(s().thr[i].wait, Wait::Done)).count(),
                    })
                });
            });
        }
        out
    }
    pub fn join(&mut self, us: u64) -> Option<JoinRec> {
        let o = self.join_async();
        let o2 = o.clone();
        wait_for(us, move || o2.with(|x| x.is_some()));
        o.with(|x| x.clone())
    }
}
#[derive(Clone, Debug)]
pub struct JoinRec {
    pub at: u64,
    pub res: Result<Result<(), String>, String>,
    pub out_len: usize,
    pub alive: usize,
    pub fds: usize,
}

// ---------------------------------------------------------------- checks
pub type Check = Result<(), (&'static str, String)>;
pub fn must(c: Check) {
    if let Err((k, m)) = c {
        violate(k, m);
    }
}
/// Delivered messages: exactly once, in order, unaltered; `all`: and nothing missing.
pub fn check_in(l: &Link, exp: &[Value], all: bool) -> Check {
    let rx: Vec<Rx> = l.h.with(|h| h.rx.clone());
    check_rx(&rx, exp, all, l.plan.recv.len())
}
/// Pairs of which one was over before the other began: (from, to) on the sending side, (from, to) on the receiving side.
/// Returns two indices that were received the wrong way round.
pub fn overtaken(v: &[((u64, u64), (u64, u64))]) -> Option<(usize, usize)> {
    if v.len() > 700 {
        return None;
    }
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            if a.0 .1 < b.0 .0 && b.1 .1 < a.1 .0 {
                return Some((i, j));
            }
        }
    }
    None
}
pub fn check_rx(rx: &[Rx], exp: &[Value], all: bool, nthreads: usize) -> Check {
    if nthreads <= 1 {
        for (i, r) in rx.iter().enumerate() {
            if i >= exp.len() {
                return Err(("extra-message", format!("message #{i} was delivered but the peer sent only {}: {}", exp.len(), frames::brief(&r.v))));
            }
            if r.v != exp[i] {
                let c = classify(&r.v, exp, i);
                return Err((c, format!("message #{i}: sent {} but the application got {}", frames::brief(&exp[i]), frames::brief(&r.v))));
            }
        }
    } else {
        let mut used = vec![false; exp.len()];
        let dups = (0..exp.len()).any(|i| exp[..i].contains(&exp[i]));
        let mut last: Vec<i64> = vec![-1; nthreads];
        let mut seen = vec![];
        for r in rx {
            let Some(k) = (0..exp.len()).find(|&k| !used[k] && exp[k] == r.v) else {
                let c = if exp.contains(&r.v) { "duplicate" } else { "altered" };
                return Err((c, format!("the application got {} which the peer did not send (again)", frames::brief(&r.v))));
            };
            used[k] = true;
            seen.push(((k as u64, k as u64), (r.from, r.to)));
            if !dups {
                if (k as i64) < last[r.th] {
                    return Err(("order", format!("thread {} got message #{k} after #{}", r.th, last[r.th])));
                }
                last[r.th] = k as i64;
            }
        }
        if !dups {
            if let Some((a, b)) = overtaken(&seen) {
                return Err(("order", format!("message #{} was delivered by a receive that had returned before the one that delivered message #{} began", seen[b].0.0, seen[a].0.0)));
            }
            // a gap that is never filled
            if let Some(first) = used.iter().position(|u| !u) {
                if used[first..].iter().any(|u| *u) && (all || rx.len() == exp.len()) {
                    return Err(("lost", format!("message #{first} was lost: {}", frames::brief(&exp[first]))));
                }
            }
        }
    }
    if all && rx.len() < exp.len() {
        return Err(("lost", format!("only {} of {} messages were delivered; first missing: {}; {}", rx.len(), exp.len(), frames::brief(&exp[rx.len()]), states())));
    }
    Ok(())
}
fn classify(v: &Value, exp: &[Value], i: usize) -> &'static str {
    if exp[..i].contains(v) {
        "duplicate"
    } else if exp[i..].contains(v) {
        "skipped"
    } else if v["k"] != exp[i]["k"] {
        "kind-changed"
    } else {
        "altered"
    }
}
pub struct OutView {
    pub msgs: Vec<Value>,
    pub ends: Vec<usize>,
    pub rest: usize,
}
pub fn parse_out(b: &[u8]) -> Result<OutView, (&'static str, String)> {
    let p = frames::parse(b);
    if let Some(e) = p.err {
        return Err(("not-frames", e));
    }
    let mut v = OutView { msgs: vec![], ends: vec![], rest: p.rest };
    for f in &p.frames {
        v.msgs.push(frames::sem(&f.body).map_err(|e| ("bad-frame", format!("{e}: {}", frames::brief(&f.body))))?);
        v.ends.push(f.end);
    }
    Ok(v)
}
/// Written frames against what was sent. `all`: every accepted message is there and nothing is torn.
/// Returns how many accepted messages are not (completely) written.
pub fn check_out(l: &Link, b: &[u8], all: bool) -> Result<usize, (&'static str, String)> {
    let o = parse_out(b)?;
    let (sends, pending) = l.h.with(|h| (h.sends.clone(), h.pending.clone()));
    // candidate messages: accepted ones, and those whose send has not returned yet
    let mut cand: Vec<(usize, usize, Value, bool)> = vec![];
    let mut times: Vec<(u64, u64)> = vec![];
    let spec = |th: usize, ix: usize| l.plan.send[th].ops[ix].m.expect();
    for r in &sends {
        if r.ok {
            cand.push((r.th, r.ix, spec(r.th, r.ix), true));
            times.push((r.from, r.to));
        }
    }
    for p in &pending {
        cand.push((p.0, p.1, spec(p.0, p.1), false));
        times.push((0, u64::MAX));
    }
    let failed: Vec<Value> = sends.iter().filter(|r| !r.ok).map(|r| spec(r.th, r.ix)).collect();
    let mut used = vec![false; cand.len()];
    let dups = (0..cand.len()).any(|i| cand[..i].iter().any(|c| c.2 == cand[i].2));
    let mut last: Vec<i64> = vec![-1; l.plan.send.len()];
    let mut seen = vec![];
    for (n, m) in o.msgs.iter().enumerate() {
        let hit = (0..cand.len()).filter(|&k| !used[k] && cand[k].2 == *m).min_by_key(|&k| cand[k].1);
        let Some(k) = hit else {
            let c = if cand.iter().any(|c| c.2 == *m) {
                "frame-repeated"
            } else if failed.contains(m) {
                "refused-but-written"
            } else {
                "frame-altered"
            };
            return Err((c, format!("frame #{n} on the transport carries {} which is not (or no longer) to be written", frames::brief(m))));
        };
        used[k] = true;
        seen.push((times[k], (n as u64, n as u64)));
        let (th, ix) = (cand[k].0, cand[k].1 as i64);
        if !dups || l.plan.send.len() == 1 {
            if ix < last[th] {
                return Err(("frame-order", format!("messages #{} and #{ix} of sending thread {th} were written in the wrong order", last[th])));
            }
            last[th] = ix;
        }
    }
    if !dups {
        if let Some((a, b)) = overtaken(&seen) {
            return Err(("frame-order", format!("frame #{b} was written before frame #{a}, whose send had returned before the other's began")));
        }
    }
    let missing: Vec<usize> = (0..cand.len()).filter(|&k| !used[k] && cand[k].3).collect();
    if all {
        if let Some(&k) = missing.first() {
            return Err(("frame-lost", format!("{} accepted message(s) are not on the transport, e.g. {}; {} bytes beyond the last complete frame; {}",
                missing.len(), frames::brief(&cand[k].2), b.len() - o.rest, states())));
        }
        if o.rest != b.len() && pending.is_empty() {
            return Err(("frame-torn", format!("{} bytes of an incomplete frame at the end of the output", b.len() - o.rest)));
        }
    }
    Ok(missing.len())
}
/// Refused sends gave back what they were given.
pub fn check_returned(l: &Link) -> Check {
    let sends = l.h.with(|h| h.sends.clone());
    for r in &sends {
        if !r.ok {
            let e = l.plan.send[r.th].ops[r.ix].m.expect();
            if r.ret.as_ref() != Some(&e) {
                return Err(("returned-altered", format!("a refused send returned {:?} instead of {}", r.ret.as_ref().map(frames::brief), frames::brief(&e))));
            }
        }
    }
    Ok(())
}
