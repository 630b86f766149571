//! C04, C05, C06: the handshake and shutdown handling.
use super::inout::*;
use super::probe;
use crate::core::*;
use crate::flow::*;
use crate::frames::{self, brief};
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use bsp_server::{Connection, IoThreads, Message, Request};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

/// Transport 3: an in-memory pair, whose other end is the peer.
pub const MEMORY: u8 = 3;
/// The peer's end of an in-memory pair.
#[derive(Clone)]
pub struct MemEnd {
    pub tx: Sh<Option<crossbeam_channel::Sender<Message>>>,
    pub stop: Sh<bool>,
}
pub enum Wire2 {
    Bytes(Wire),
    Mem(MemEnd),
}
pub struct Side {
    pub conn: Arc<Connection>,
    pub io: Option<IoThreads>,
    pub w: Wire2,
    pub got: Sh<Vec<Value>>, // memory: what the peer received (bodies)
    pub th: std::ops::Range<usize>,
}
pub fn open_side(tr: u8, drain: &Drain) -> Side {
    open_side_go(tr, drain, &Sh::new(false))
}
pub fn open_side_go(tr: u8, drain: &Drain, go: &Sh<bool>) -> Side {
    open_side_at(tr, 7000, drain, go)
}
pub fn open_side_at(tr: u8, port: u16, drain: &Drain, go: &Sh<bool>) -> Side {
    if tr >= MEMORY {
        let Ok((a, b)) = lib(Connection::memory) else { violate("establish", "memory() panicked".into()) };
        let Connection { sender, receiver } = b;
        let (b, stop) = (Sh::new(Some(sender)), Sh::new(false));
        let got = Sh::new(vec![]);
        let (s2, g2) = (stop.clone(), got.clone());
        spawn_peer("peer-reader", move || loop {
            let (r3, s3) = (receiver.clone(), s2.clone());
            wait_for(EVENTUALLY, move || !r3.is_empty() || s3.with(|x| *x));
            if s2.with(|x| *x) {
                return; // and with it the receiver goes
            }
            let Ok(m) = receiver.try_recv() else { continue };
            g2.with(|g| {
                g.push(serde_json::to_value(&m).map(|mut v| {
                    if let Some(o) = v.as_object_mut() {
                        o.insert("jsonrpc".into(), json!("2.0"));
                    }
                    v
                }).unwrap_or(Value::Null))
            });
        });
        let b = MemEnd { tx: b, stop };
        let n = s().thr.len();
        return Side { conn: Arc::new(a), io: None, w: Wire2::Mem(b), got, th: n..n };
    }
    let n0 = s().thr.len();
    let e = establish(tr, port);
    start_drain(e.w.out, drain, go);
    let v: Vec<usize> = (n0..s().thr.len()).filter(|&i| s().thr[i].role == "lib").collect();
    let th = v.first().copied().unwrap_or(0)..v.last().map_or(0, |x| x + 1);
    Side { conn: Arc::new(e.conn), io: Some(e.io), w: Wire2::Bytes(e.w), got: Sh::new(vec![]), th }
}
impl Side {
    /// Everything the peer has got so far, as bodies; None while a frame is incomplete.
    pub fn peer_got(&self) -> Result<Vec<Value>, (&'static str, String)> {
        match &self.w {
            Wire2::Mem(_) => Ok(self.got.with(|g| g.clone())),
            Wire2::Bytes(w) => {
                let p = frames::parse(&s().pipes[w.out].buf);
                if let Some(e) = p.err {
                    return Err(("not-frames", e));
                }
                Ok(p.frames.into_iter().map(|f| f.body).collect())
            }
        }
    }
    pub fn got_count(&self) -> Box<dyn Fn() -> usize> {
        match &self.w {
            Wire2::Mem(_) => {
                let g = self.got.clone();
                Box::new(move || g.with(|g| g.len()))
            }
            Wire2::Bytes(w) => {
                let out = w.out;
                let memo: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
                Box::new(move || {
                    let b = &s().pipes[out].buf;
                    let (l, n) = memo.get();
                    if l == b.len() {
                        return n;
                    }
                    let n = frames::parse(b).frames.len();
                    memo.set((b.len(), n));
                    n
                })
            }
        }
    }
    pub fn feeder(&self) -> Feeder {
        match &self.w {
            Wire2::Mem(b) => Feeder::Mem(Some(b.clone())),
            Wire2::Bytes(w) => Feeder::Bytes(*w),
        }
    }
}
/// The peer's sending side, usable from its own thread.
pub enum Feeder {
    Bytes(Wire),
    Mem(Option<MemEnd>),
}
impl Feeder {
    pub fn msg(&mut self, m: &MsgSpec) {
        match self {
            Feeder::Bytes(w) => {
                peer_bytes(w.inp, &m.wire());
            }
            Feeder::Mem(Some(c)) => {
                if let (Some(x), Some(tx)) = (build(m), c.tx.with(|t| t.clone())) {
                    let _ = tx.send(x);
                }
            }
            _ => {}
        }
    }
    pub fn raw(&mut self, b: &[u8]) {
        if let Feeder::Bytes(w) = self {
            peer_bytes(w.inp, b);
        }
    }
    pub fn end(&mut self, kind: u64, errno: i32) {
        match self {
            Feeder::Bytes(w) => match kind {
                1 => peer_script(*w, vec![Act::Close]),
                2 => peer_script(*w, vec![Act::Fail(if errno > 0 { errno } else { libc::EIO })]),
                3 => peer_gone(*w, false),
                4 => peer_gone(*w, true),
                _ => {}
            },
            Feeder::Mem(Some(c)) => {
                if kind > 0 {
                    let t = c.tx.with(|t| t.take());
                    drop(t);
                }
                if kind >= 3 {
                    c.stop.with(|x| *x = true);
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- handshake
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct HandPlan {
    pub tr: u8,
    pub pre: Vec<MsgSpec>,   // before the initialize request
    pub init: Option<MsgSpec>,
    pub result: Value,
    pub fin: Option<MsgSpec>, // what comes after the initialize request; normally initialized
    pub post: Vec<MsgSpec>,
    pub react: bool,          // the peer waits for the initialize result before it goes on
    pub eager: u64,           // everything up to this many messages goes out in one piece
    pub sleeps: Vec<u64>,     // us before each message
    pub cut_at: Option<u64>,  // the peer stops after so many messages
    pub dmg: Option<Dmg>,     // ... with a damaged frame
    pub part: Option<u64>,    // ... with part of a frame
    pub end: EndPlan,
    pub drain: Drain,
    pub werr: Option<(u64, i32)>,
    pub start: u64,           // the application begins so late
}
impl HandPlan {
    fn script(&self) -> Vec<&MsgSpec> {
        let mut v: Vec<&MsgSpec> = self.pre.iter().collect();
        v.extend(self.init.iter());
        v.extend(self.fin.iter());
        v.extend(self.post.iter());
        if let Some(c) = self.cut_at {
            v.truncate(c as usize);
        }
        v
    }
}
fn init_req(r: &mut Rng) -> MsgSpec {
    let mut m = MsgSpec::req(id(r), "build/initialize", init_params(r));
    if r.permille(500) {
        m.style = r.next() >> 20 | 1;
    }
    m
}
/// Requests other than initialize, notifications other than exit.
fn early(r: &mut Rng, n: u64) -> Vec<MsgSpec> {
    let mut v = vec![];
    while (v.len() as u64) < n {
        let m = any_msg(r, true, false);
        if m.k == RESP || (m.k == REQ && m.m == "build/initialize") {
            continue;
        }
        let mut m = m;
        if m.k == NOTIF && r.permille(200) {
            m = MsgSpec::initialized();
        }
        if m.k == REQ && r.permille(200) {
            m = MsgSpec::req(m.id.clone(), "build/shutdown", Value::Null);
        }
        v.push(m);
    }
    v
}
fn result_value(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({"displayName": "S", "version": "1", "bspVersion": "2.0", "capabilities": {}}),
        1 => Value::Null,
        2 => value(r, 3),
        _ => obj(r, 2),
    }
}
fn sleeps_for(r: &mut Rng, n: usize) -> Vec<u64> {
    let on = r.permille(500);
    if n > 0 && r.permille(30) {
        // one very long silence
        let at = r.below(n as u64) as usize;
        return (0..n).map(|i| if i == at { *r.pick(&[130_000_000, 700_000_000, 4_000_000_000, 8_000_000_000]) } else { 0 }).collect();
    }
    (0..n).map(|_| if on && r.permille(300) { *r.pick(&[1, 1000, 200_000, 40_000_000]) } else { 0 }).collect()
}
pub const C04_RULE: &str = "each run: requests and notifications before the initialize request, the handshake with a generated result, messages after it, any transport (also in-memory), and a schedule; non-trivial: the handshake was carried out and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c04(r: &mut Rng, env: &mut Env, _t: u64) -> HandPlan {
    let mut p = HandPlan { tr: r.below(4) as u8, init: Some(init_req(r)), result: result_value(r), fin: Some(MsgSpec::initialized()), react: r.permille(400), ..Default::default() };
    let n = match r.below(60) {
        0 => r.range(7, 40),
        1 if r.permille(100) => r.range(100, 700),
        _ => *r.pick(&[0, 0, 1, 2, 3, 6]),
    };
    p.pre = early(r, n);
    let n = r.below(5);
    p.post = distinct_msgs(r, n, true, true);
    if r.permille(200) {
        p.post.push(MsgSpec::exit());
    }
    if r.permille(300) {
        p.fin.as_mut().unwrap().style = r.next() >> 20 | 1;
    }
    p.sleeps = sleeps_for(r, p.script().len());
    p.eager = if r.permille(400) { 100 } else { 0 };
    p.drain = drain_plan(r, 3000);
    p.start = if r.permille(300) { r.below(4_000_000) } else { 0 };
    stalls(r, env);
    p
}
pub struct Hand {
    pub ret: Option<(u64, Result<Result<Value, String>, String>)>,
    pub calls: Vec<Value>,
    pub sent_fin: Option<u64>, // when the peer sent the last byte of the initialized notification
    pub script_done: bool,
    pub post: Vec<Value>,
    pub app_done: bool,
}
pub fn run_hand(p: &HandPlan) -> (Side, Sh<Hand>) {
    let side = open_side(p.tr, &p.drain);
    if let (Some((o, e)), Wire2::Bytes(w)) = (p.werr, &side.w) {
        let q = &mut s().pipes[w.out];
        q.werr = Some((o as usize, if e > 0 { e } else { libc::EPIPE }));
        q.werr_sticky = true;
    }
    let h: Sh<Hand> = Sh::new(Hand { ret: None, calls: vec![], sent_fin: None, script_done: false, post: vec![], app_done: false });
    // the peer
    let mut f = side.feeder();
    let cnt = side.got_count();
    let (hp, pp) = (h.clone(), p.clone());
    let struct_send = SendBox((f_take(&mut f), cnt));
    let mem = matches!(side.w, Wire2::Mem(_));
    spawn_peer("peer-writer", move || {
        let SendBox((mut f, cnt)) = { struct_send };
        let script = pp.script();
        let ninit = pp.pre.len() + 1;
        let answers = pp.pre.iter().filter(|m| m.k == REQ).count() + 1;
        if pp.eager > 0 && !mem && !pp.react {
            let mut b = vec![];
            for m in &script {
                b.extend_from_slice(&m.wire());
            }
            if script.len() > ninit {
                hp.with(|h| h.sent_fin = Some(0));
            }
            f.raw(&b);
        } else {
            for (i, m) in script.iter().enumerate() {
                if let Some(us) = pp.sleeps.get(i) {
                    if *us > 0 {
                        sleep_us(*us);
                    }
                }
                if i == ninit && pp.react {
                    let c: Box<dyn Fn() -> usize> = cnt_clone(&cnt);
                    if !wait_for(EVENTUALLY, move || c() >= answers) {
                        return; // the director reports it
                    }
                }
                if i == ninit {
                    hp.with(|h| h.sent_fin = Some(s().now));
                }
                f.msg(m);
            }
        }
        if let (Some(d), false) = (&pp.dmg, mem) {
            f.raw(&damaged(&numbered(3, REQ), d));
        } else if let (Some(n), false) = (pp.part, mem) {
            let b = MsgSpec::initialized().wire();
            f.raw(&b[..(n as usize).min(b.len() - 1)]);
        }
        if pp.end.after > 0 {
            sleep_us(pp.end.after);
        }
        f.end(pp.end.kind, pp.end.errno);
        hp.with(|h| h.script_done = true);
    });
    // the application
    let (ha, pa, conn) = (h.clone(), p.clone(), side.conn.clone());
    spawn_app("app", move || {
        if pa.start > 0 {
            sleep_us(pa.start);
        }
        let h2 = ha.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            conn.initialize(|params| {
                h2.with(|h| h.calls.push(serde_json::to_value(params).unwrap_or(Value::Null)));
                pa.result.clone()
            })
        }));
        let r = match r {
            Ok(Ok(v)) => Ok(Ok(serde_json::to_value(&v).unwrap_or(Value::Null))),
            Ok(Err(e)) => Ok(Err(e.to_string())),
            Err(_) => Err(last_panic()),
        };
        let good = matches!(r, Ok(Ok(_)));
        ha.with(|h| h.ret = Some((s().now, r)));
        s().ev("init<", good as u64, 0);
        if good {
            for _ in 0..pa.post.len() {
                match conn.receiver.recv() {
                    Ok(m) => ha.with(|h| h.post.push(view(&m))),
                    Err(_) => break,
                }
            }
        }
        drop(conn);
        ha.with(|h| h.app_done = true);
    });
    (side, h)
}
struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}
fn f_take(f: &mut Feeder) -> Feeder {
    std::mem::replace(f, Feeder::Mem(None))
}
fn cnt_clone(c: &Box<dyn Fn() -> usize>) -> Box<dyn Fn() -> usize> {
    // the box outlives every wait of the peer's script
    let p: *const (dyn Fn() -> usize) = &**c;
    let p: &'static (dyn Fn() -> usize) = unsafe { std::mem::transmute(p) };
    Box::new(move || p())
}
fn early_answers(p: &HandPlan, upto: usize) -> Vec<Value> {
    p.script().iter().take(upto.min(p.pre.len())).filter(|m| m.k == REQ).map(|m| m.id.clone()).collect()
}
/// The peer's view: -32002 for every early request in order, then the result, exactly once.
fn check_answers(got: &[Value], early: &[Value], init: Option<(&Value, &Value)>, complete: bool) -> Check {
    for (i, b) in got.iter().enumerate() {
        let sem = frames::sem(b).map_err(|e| ("bad-frame", format!("{e}: {}", brief(b))))?;
        if i < early.len() {
            if sem["k"] != "resp" || sem["id"] != early[i] || sem["e"]["code"] != json!(-32002) {
                return Err(("early-answer", format!("early request #{i} (id {}) was answered with {}", early[i], brief(b))));
            }
        } else if let (Some((id, res)), true) = (init, i == early.len()) {
            if sem["k"] != "resp" || sem["id"] != *id || !sem["e"].is_null() {
                return Err(("init-answer", format!("the initialize request (id {id}) was answered with {}", brief(b))));
            }
            let got = b.get("result").cloned();
            if got.as_ref() != Some(res) {
                return Err(("init-result", format!("the handler returned {} but the client got {}", brief(res), brief(b))));
            }
        } else {
            return Err(("extra-answer", format!("unexpected message to the client during the handshake: {}", brief(b))));
        }
    }
    let want = early.len() + init.is_some() as usize;
    if complete && got.len() < want {
        return Err(("answer-missing", format!("only {} of {want} answers reached the client", got.len())));
    }
    Ok(())
}
pub fn run_c04(p: HandPlan) {
    let (Some(init), Some(fin)) = (&p.init, &p.fin) else { return };
    if init.k != REQ || init.m != "build/initialize" || build(init).is_none() || fin.k != NOTIF || fin.m != "build/initialized" {
        return;
    }
    if p.cut_at.is_some() || p.dmg.is_some() || p.part.is_some() || p.werr.is_some() || p.drain.hold.is_some() || p.end.kind != 0 {
        return;
    }
    if p.pre.iter().any(|m| m.is_exit() || m.k == RESP || (m.k == REQ && m.m == "build/initialize")) {
        return;
    }
    let (side, h) = run_hand(&p);
    let h2 = h.clone();
    let ok = wait_for(EVENTUALLY, move || h2.with(|h| h.app_done));
    let early = early_answers(&p, usize::MAX);
    let got = match side.peer_got() {
        Ok(g) => g,
        Err((k, m)) => violate(k, m),
    };
    must(check_answers(&got, &early, Some((&init.id, &p.result)), false));
    let (ret, calls, post, sent) = h.with(|h| (h.ret.clone(), h.calls.clone(), h.post.clone(), h.sent_fin));
    let Some((at, ret)) = ret else {
        violate("handshake-stuck", format!("the handshake does not complete; {} of {} answers were sent; {}", got.len(), early.len() + 1, states()));
    };
    let params = norm(&init.p, true);
    match ret {
        Ok(Ok(v)) => {
            if norm(&v, true) != params {
                violate("params", format!("initialize returned {} for {}", brief(&v), brief(&params)));
            }
        }
        Ok(Err(e)) => violate("handshake-failed", format!("a complete handshake failed: {e}")),
        Err(e) => violate("handshake-panicked", e),
    }
    if calls.len() != 1 || norm(&calls[0], true) != params {
        violate("handler", format!("the handler was called {} times: {:?}", calls.len(), calls.iter().map(|c| brief(c)).collect::<Vec<_>>()));
    }
    match sent {
        Some(t) if t <= at => {}
        _ => violate("too-early", "initialize reported success before the client had sent initialized".into()),
    }
    if !ok {
        violate("post-lost", format!("{} of {} messages after the handshake were delivered; {}", post.len(), p.post.len(), states()));
    }
    let want: Vec<Value> = p.post.iter().map(|m| m.expect()).collect();
    if post != want {
        violate("post-altered", format!("messages after the handshake: {:?} instead of {:?}", post.iter().map(|v| brief(v)).collect::<Vec<_>>(), want.iter().map(|v| brief(v)).collect::<Vec<_>>()));
    }
    // all answers reach the client completely, exactly once
    let (c, n) = (side.got_count(), early.len() + 1);
    wait_for(EVENTUALLY, move || c() >= n);
    settle(100_000_000);
    match side.peer_got() {
        Ok(g) => must(check_answers(&g, &early, Some((&init.id, &p.result)), true)),
        Err((k, m)) => violate(k, m),
    }
    nontrivial();
    if !early.is_empty() {
        probe("early_requests");
    }
    if p.pre.iter().any(|m| m.k == NOTIF) {
        probe("early_notifications");
    }
    if p.react {
        probe("client_waits_for_result");
    }
    s().sample = Some(format!("{} early messages, result {}, {} later messages over transport {}", p.pre.len(), brief(&p.result), p.post.len(), p.tr));
}

// ---------------------------------------------------------------- C05
pub const C05_RULE: &str = "each run: a handshake that is cut off, disturbed by an exit, damaged, answered into a failing transport, or followed by the wrong message; non-trivial: the disturbance took place and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c05(r: &mut Rng, env: &mut Env, t: u64) -> HandPlan {
    let mut p = gen_c04(r, env, t);
    p.tr = r.below(4) as u8;
    p.eager = if r.permille(400) { 100 } else { 0 };
    let n = p.script().len() as u64;
    let ninit = p.pre.len() as u64 + 1;
    match r.below(8) {
        0 | 1 => {
            // ends early
            p.cut_at = Some(r.below(ninit + 1));
            p.end = EndPlan { kind: r.range(1, 4), errno: *r.pick(&[libc::EIO, libc::ECONNRESET]), after: r.below(5_000_000) };
        }
        2 => {
            // inside a frame, or damage
            p.cut_at = Some(r.below(ninit + 1));
            if r.permille(500) {
                p.dmg = Some(Dmg { kind: r.below(NDMG), v: r.below(100) });
                p.end = EndPlan { kind: r.below(5), errno: libc::EIO, after: r.below(5_000_000) };
            } else {
                p.part = Some(r.below(60));
                p.end = EndPlan { kind: r.range(1, 4), errno: libc::EIO, after: r.below(5_000_000) };
            }
        }
        3 => {
            // exit before initialize
            let at = r.below(p.pre.len() as u64 + 1) as usize;
            p.pre.insert(at, MsgSpec::exit());
            p.end.kind = r.below(2);
        }
        4 | 5 => {
            // something else instead of initialized
            let m = match r.below(6) {
                0 => MsgSpec::exit(),
                1 => MsgSpec::req(json!(9), "build/initialize", init_params(r)),
                2 => MsgSpec::req(json!(9), "build/shutdown", Value::Null),
                3 => MsgSpec::notif("build/initialize", Value::Null),
                4 => MsgSpec::resp(p.init.as_ref().unwrap().id.clone(), json!({})),
                _ => loop {
                    let m = any_msg(r, true, false);
                    if !(m.k == NOTIF && m.m == "build/initialized") {
                        break m;
                    }
                },
            };
            p.post.insert(0, MsgSpec::initialized());
            p.fin = Some(m);
        }
        6 => {
            p.werr = Some((if r.permille(300) { 0 } else { r.below(600) }, *r.pick(&[libc::EPIPE, libc::ECONNRESET, libc::EIO])));
            p.react = false;
            if r.permille(600) {
                p.cut_at = Some(r.below(n + 1));
            }
            p.end = EndPlan { kind: r.range(1, 4), errno: libc::EIO, after: r.below(5_000_000) };
        }
        _ => {}
    }
    if p.tr >= MEMORY && (p.dmg.is_some() || p.part.is_some() || p.werr.is_some()) {
        p.tr = r.below(3) as u8;
    }
    let k = p.script().len();
    p.sleeps = sleeps_for(r, k);
    p
}
pub fn run_c05(p: HandPlan) {
    if p.drain.hold.is_some() || p.pre.iter().chain(p.post.iter()).chain(p.fin.iter()).any(|m| m.k == REQ && m.m == "build/initialize" && build(m).is_none()) {
        return;
    }
    if p.werr.is_some() && p.react {
        return;
    }
    if p.tr >= MEMORY && (p.dmg.is_some() || p.part.is_some() || p.werr.is_some() || p.script().iter().any(|m| build(m).is_none())) {
        return;
    }
    // what the library can see, in order
    #[derive(PartialEq, Debug)]
    enum V {
        Complete,
        CannotComplete,
        Open,
    }
    let mut st = 0; // 0: before initialize, 1: after
    let mut v = None;
    for m in p.script() {
        if st == 0 {
            if m.k == REQ && m.m == "build/initialize" {
                st = 1;
            } else if m.is_exit() {
                v = Some(V::CannotComplete);
            } else if m.k == RESP {
                return; // unspecified
            }
        } else {
            v = Some(if m.k == NOTIF && m.m == "build/initialized" { V::Complete } else { V::CannotComplete });
        }
        if v.is_some() {
            break;
        }
    }
    let v = match v {
        Some(v) => v,
        None => {
            if p.dmg.is_some() || p.end.kind != 0 {
                V::CannotComplete
            } else {
                V::Open
            }
        }
    };
    if v == V::Open {
        return;
    }
    let gone = matches!(p.end.kind, 3 | 4);
    let (side, h) = run_hand(&p);
    let h2 = h.clone();
    wait_for(EVENTUALLY, move || h2.with(|h| h.ret.is_some()));
    let ret = h.with(|h| h.ret.clone());
    let hit = match &side.w {
        Wire2::Bytes(w) => s().pipes[w.out].werr_hit,
        _ => false,
    };
    match ret {
        None => {
            if p.werr.is_some() && v == V::Complete && p.end.kind == 0 {
                return;
            }
            violate("handshake-stuck", format!("the handshake {} but initialize does not return; write failure hit: {hit}; {}", if v == V::Complete { "is complete" } else { "cannot complete" }, states()))
        }
        Some((_, Err(e))) => violate("handshake-panicked", format!("initialize panicked: {e}")),
        Some((_, Ok(Ok(_)))) => {
            if v == V::CannotComplete {
                violate("false-success", "initialize reports success although the client did not complete the handshake".into());
            }
            probe("completed");
        }
        Some((_, Ok(Err(e)))) => {
            if v == V::Complete && p.werr.is_none() && !gone {
                violate("handshake-failed", format!("a complete handshake failed: {e}"));
            }
            nontrivial();
            probe(if hit { "failed_write_error" } else if st == 0 { "failed_before_initialize" } else { "failed_after_initialize" });
        }
    }
    s().sample = Some(format!("{v:?}: initialize returned {:?}", h.with(|h| h.ret.as_ref().map(|r| format!("{:?}", r.1).chars().take(120).collect::<String>()))));
    let Side { conn, .. } = side;
    let _ = lib(move || drop(conn));
}

// ---------------------------------------------------------------- C14: handshakes and shutdowns side by side
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct HCase {
    pub tr: u8,
    // 0: goes all the way; the others stop: 1 before initialize, 2 before initialized, 3 with no exit after
    // shutdown, 4 in the handler, 5 when the answers are not taken
    pub kind: u64,
    pub init: MsgSpec,
    pub result: Value,
    pub pre: Vec<MsgSpec>,
    pub reqs: Vec<Value>, // ids
    pub start: u64,       // us
    pub gap: u64,         // us between the peer's messages
    pub bye: Value,       // id of the shutdown request
}
pub fn gen_hands(r: &mut Rng, env: &mut Env) -> Vec<HCase> {
    env.lat = env.lat.min(20_000);
    env.stall = 0;
    let n = r.range(2, 4);
    let std = r.below(n + 1);
    let same = r.permille(400);
    let mut v: Vec<HCase> = vec![];
    for i in 0..n {
        let tr = if i == std { STDIO } else { r.range(1, 3) as u8 };
        let mut c = HCase { tr, kind: if r.permille(500) { 0 } else { r.range(1, if tr >= MEMORY { 4 } else { 5 }) }, ..Default::default() };
        c.init = init_req(r);
        c.result = json!({ "displayName": format!("server {i}"), "n": i });
        let k = *r.pick(&[0, 0, 1, 3]);
        c.pre = early(r, k);
        c.pre.retain(|m| m.k == REQ && build(m).is_some());
        for j in 0..r.below(4) {
            c.reqs.push(json!(j));
        }
        c.bye = if r.permille(300) { json!("bye") } else { json!(format!("bye{i}")) };
        if !same {
            c.start = *r.pick(&[0, 0, 1000, 100_000, 3_000_000]);
            c.gap = *r.pick(&[0, 0, 100, 50_000]);
        }
        v.push(c);
    }
    v[r.clone().below(n) as usize].kind = 0;
    if same {
        if r.permille(500) {
            for c in v.iter_mut() {
                (c.kind, c.pre) = (0, vec![]);
                c.reqs.truncate(1);
            }
        }
        env.lat = 0;
        env.step_p = *r.pick(&[0, 100, 400, 800]);
        env.step_sync = r.permille(700);
        env.step_max = if env.step_sync { *r.pick(&[5, 15, 40]) } else { *r.pick(&[100, 300, 1000]) };
    }
    v
}
/// As long as a connection that nothing holds up may take for one step.
const PROMPT: u64 = 10_000_000;
pub fn run_hands(p: Vec<HCase>) {
    if s().env.stall > 0 || s().env.lat > 20_000 || p.len() > 6 || p.iter().filter(|c| c.tr == STDIO).count() > 1 {
        return;
    }
    for c in &p {
        if c.init.k != REQ || c.init.m != "build/initialize" || build(&c.init).is_none() || c.pre.iter().any(|m| m.k != REQ || build(m).is_none() || m.m == "build/initialize") || c.gap > 1_000_000 || (c.kind == 5 && c.tr >= MEMORY) || c.kind > 5 {
            return;
        }
    }
    nontrivial();
    #[derive(Default)]
    struct At {
        peer: &'static str, // what the peer waits for
        over: bool,
        app: Option<String>, // how the application ended
    }
    let mut all: Vec<(Sh<At>, Side)> = vec![];
    for (i, c) in p.iter().enumerate() {
        let d = if c.kind == 5 { Drain { mode: 1, chunk: 10, cap: 5, hold: Some(30), ..Default::default() } } else { Drain::default() };
        all.push((Sh::new(At::default()), open_side_at(c.tr, 7000 + i as u16, &d, &Sh::new(false))));
    }
    for (i, c) in p.iter().enumerate() {
        let (h, side) = &all[i];
        // the application
        let (ha, conn, c2) = (h.clone(), side.conn.clone(), c.clone());
        spawn_app("app", move || {
            let hx = ha.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> Result<(), String> {
                conn.initialize(|_| {
                    if c2.kind == 4 {
                        sleep_us(100_000_000);
                    }
                    c2.result.clone()
                })
                .map_err(|e| format!("the handshake failed: {e}"))?;
                loop {
                    let Ok(m) = conn.receiver.recv() else { return Err("the receiver was disconnected".into()) };
                    let Message::Request(q) = m else { continue };
                    if matches!(q, Request::Shutdown(_)) {
                        return match conn.handle_shutdown(&q) {
                            Ok(true) => Ok(()),
                            x => Err(format!("handling shutdown gave {x:?}")),
                        };
                    }
                    let id = q.id().clone();
                    let params = { let _g = Guard::new(); view(&Message::Request(q)) };
                    let a = bsp_server::Response { id, result: Some(json!({ "conn": i, "of": params["p"] })), error: None };
                    if conn.sender.send(a.into()).is_err() {
                        return Err("sending an answer failed".into());
                    }
                }
            }));
            let r = match r {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(e)) => e,
                Err(_) => last_panic(),
            };
            hx.with(|h| h.app = Some(r));
        });
        // the peer
        let sb = SendBox((side.feeder(), side.got_count()));
        let (hp, c) = (h.clone(), c.clone());
        spawn_peer("peer-writer", move || {
            let SendBox((mut f, cnt)) = { sb };
            let cnt = std::mem::ManuallyDrop::new(cnt);
            let mut want = 0;
            let wait = |what: &'static str, n: usize| {
                hp.with(|h| h.peer = what);
                let w = cnt_clone(&cnt);
                let ok = wait_for(PROMPT, move || w() >= n);
                if !ok && c.kind == 0 {
                    violate("held-up", format!("connection {i} (transport {}) gets no answer to {what} within 10 s although everything it needs is there; {}", c.tr, states()));
                }
                ok
            };
            let stop = |f: &mut Feeder| {
                sleep_us(120_000_000);
                f.end(1, 0);
            };
            if c.start > 0 {
                sleep_us(c.start);
            }
            for m in &c.pre {
                sleep_us(c.gap);
                f.msg(m);
                want += 1;
                if !wait("an early request", want) {
                    return stop(&mut f);
                }
            }
            if c.kind == 1 {
                return stop(&mut f);
            }
            sleep_us(c.gap);
            f.msg(&c.init);
            want += 1;
            if c.kind == 4 {
                return stop(&mut f);
            }
            if !wait("initialize", want) || c.kind == 2 {
                return stop(&mut f);
            }
            sleep_us(c.gap);
            f.msg(&MsgSpec::initialized());
            for id in &c.reqs {
                sleep_us(c.gap);
                f.msg(&MsgSpec::req(id.clone(), "x/r", json!({ "c": i, "id": id })));
                want += 1;
                if !wait("a request", want) {
                    return stop(&mut f);
                }
            }
            sleep_us(c.gap);
            f.msg(&MsgSpec::req(c.bye.clone(), "build/shutdown", Value::Null));
            want += 1;
            if !wait("shutdown", want) || c.kind == 3 {
                return stop(&mut f);
            }
            sleep_us(c.gap);
            f.msg(&MsgSpec::exit());
            hp.with(|h| h.peer = "the end");
            let h2 = hp.clone();
            if !wait_for(PROMPT, move || h2.with(|h| h.app.is_some())) && c.kind == 0 {
                violate("held-up", format!("connection {i} (transport {}): 10 s after the exit, handling shutdown has not returned; {}", c.tr, states()));
            }
            hp.with(|h| h.over = true);
            std::mem::forget(f);
        });
    }
    for (i, c) in p.iter().enumerate() {
        let (h, side) = &all[i];
        let who = |m: String| format!("connection {i} (transport {}): {m}", c.tr);
        if c.kind == 0 {
            let h2 = h.clone();
            if !wait_for(EVENTUALLY, move || h2.with(|h| h.over)) {
                violate("held-up", who(format!("its peer waits for {}; {}", h.with(|h| h.peer), states())));
            }
            match h.with(|h| h.app.clone()) {
                Some(x) if x == "ok" => {}
                x => violate("failed", who(format!("{x:?}"))),
            }
            probe("side_by_side_session");
        } else {
            probe("side_by_side_stuck");
        }
        let _ = side;
    }
    settle(50_000_000);
    for (i, c) in p.iter().enumerate() {
        let side = &all[i].1;
        let who = |(k, m): (&'static str, String)| -> (&'static str, String) { (k, format!("connection {i} (transport {}): {m}", c.tr)) };
        let got = match side.peer_got() {
            Ok(g) => g,
            Err(_) if c.kind == 5 => continue,
            Err(e) => {
                must(Err(who(e)));
                continue;
            }
        };
        let early: Vec<Value> = c.pre.iter().map(|m| m.id.clone()).collect();
        let n = (early.len() + 1).min(got.len());
        must(check_answers(&got[..n], &early, Some((&c.init.id, &c.result)), c.kind == 0).map_err(who));
        let mut want: Vec<Value> = c.reqs.iter().map(|id| json!({ "id": id, "result": { "conn": i, "of": { "c": i, "id": id } } })).collect();
        want.push(json!({ "id": c.bye, "result": null }));
        for (j, b) in got[n..].iter().enumerate() {
            let ok = want.get(j).map_or(false, |w| b["id"] == w["id"] && b.get("result") == w.get("result") && b.get("error").map_or(true, |e| e.is_null()) && b.get("method").is_none());
            if !ok {
                must(Err(who(("answers", format!("answer #{j} after the handshake is {}, expected {}", brief(b), want.get(j).map_or("nothing".into(), |w| brief(w)))))));
            }
        }
        if c.kind == 0 && got.len() != n + want.len() {
            must(Err(who(("answers", format!("{} answers instead of {}", got.len(), n + want.len())))));
        }
    }
    s().sample = Some(format!("sessions side by side: (transport, kind) {:?}", p.iter().map(|c| (c.tr, c.kind)).collect::<Vec<_>>()));
    for (_, side) in all {
        let Side { conn, .. } = side;
        let _ = lib(move || drop(conn));
    }
}

// ---------------------------------------------------------------- C06
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct ShutPlan {
    pub tr: u8,
    pub req: MsgSpec,
    pub t: u64, // ms after the call at which the next thing happens
    pub what: u64, // 0 exit, 1 other message, 2 end of input, 3 read error, 4 nothing, 5 peer gone, 6 damaged frame
    pub msg: MsgSpec,
    pub errno: i32,
    pub early: bool, // the next message is already waiting when shutdown is handled
    pub more: Vec<MsgSpec>,
    pub drain: Drain,
    pub dmg: Dmg,
    pub busy: u64, // ms the output is held up by an earlier message when shutdown is handled
}
pub const C06_RULE: &str = "each run: a request is handled as shutdown, and an exit, another message, the end or a failure of the input, or nothing follows at a chosen time around 0 to 40 s; non-trivial: the request was a shutdown and at least one decision differed from the default or simulated time was waited; counted by distinct hash of thread switches and I/O results";
pub fn gen_c06(r: &mut Rng, env: &mut Env, _t: u64) -> ShutPlan {
    let mut p = ShutPlan { tr: r.below(4) as u8, ..Default::default() };
    env.lat = env.lat.min(20_000);
    env.stall = 0;
    p.req = if r.permille(850) { MsgSpec::req(id(r), "build/shutdown", Value::Null) } else {
        loop {
            let m = any_msg(r, true, false);
            if m.k == REQ && m.m != "build/shutdown" {
                break m;
            }
        }
    };
    p.req.style = if r.permille(500) { r.next() >> 20 | 1 } else { 0 };
    p.t = *r.pick(&[0, 0, 1, 100, 1000, 5000, 15_000, 25_000, 28_500, 31_500, 33_000, 40_000]);
    p.what = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6]);
    p.errno = libc::EIO;
    p.early = p.t == 0 && r.permille(500);
    p.msg = loop {
        let m = any_msg(r, true, false);
        if !m.is_exit() {
            break m;
        }
    };
    if r.permille(300) {
        p.msg = match r.below(4) {
            0 => MsgSpec::req(json!(5), "build/exit", json!({})),
            1 => MsgSpec::req(json!(5), "build/shutdown", Value::Null),
            2 => MsgSpec::initialized(),
            _ => MsgSpec::notif("x/late", json!({})),
        };
    }
    let n = r.below(3);
    p.more = distinct_msgs(r, n, true, false);
    p.dmg = Dmg { kind: r.below(NDMG), v: r.below(100) };
    p.drain = drain_plan(r, 200);
    p.drain.stalls.clear();
    if p.drain.mode == 1 && (p.drain.chunk < 3 || p.drain.cap < 3) {
        p.drain.pace = 0;
    }
    if p.tr < MEMORY && !p.early && r.permille(150) {
        p.busy = *r.pick(&[50, 2000, 9000, 20_000, 29_000, 45_000]);
        p.drain = Drain { mode: 1, chunk: 500, cap: *r.pick(&[1, 7, 40]), hold: Some(r.below(10)), ..Default::default() };
    }
    p
}
pub fn run_c06(p: ShutPlan) {
    if p.busy > 0 && (p.early || p.tr >= MEMORY || p.drain.mode != 1 || p.drain.hold.map_or(true, |h| h > 20) || p.drain.cap > 50 || p.drain.chunk < 100 || p.req.m != "build/shutdown" || p.busy > 100_000) {
        return;
    }
    let busy = p.busy > 0;
    if p.req.k != REQ || build(&p.req).is_none() || s().env.stall > 0 || s().env.lat > 20_000 || (p.drain.hold.is_some() && !busy) || !p.drain.stalls.is_empty() || p.drain.pace > 1000 || (p.drain.mode == 1 && p.drain.chunk == 0) {
        return;
    }
    if p.tr >= MEMORY && (p.what == 6 || build(&p.req).is_none() || p.more.iter().any(|m| build(m).is_none())) {
        return;
    }
    if (p.t > 29_000 && p.t < 31_000) || (p.what == 1 && (p.msg.is_exit() || (p.tr >= MEMORY && build(&p.msg).is_none()))) {
        return;
    }
    let go = Sh::new(false);
    let side = open_side_go(p.tr, &p.drain, &go);
    let mut f = side.feeder();
    // the request itself comes in first
    f.msg(&p.req);
    let conn = side.conn.clone();
    let c2 = conn.clone();
    let Ok(Ok(Message::Request(req))) = lib(move || c2.receiver.recv()) else {
        return; // C01
    };
    let shutdown = matches!(req, Request::Shutdown(_));
    if shutdown != (p.req.m == "build/shutdown") {
        return;
    }
    let what = p.what;
    let (pp, t0s): (ShutPlan, Sh<Option<u64>>) = (p.clone(), Sh::new(None));
    let fired: Sh<Option<u64>> = Sh::new(None);
    let act = {
        let fired = fired.clone();
        move |f: &mut Feeder| {
            fired.with(|x| *x = Some(s().now));
            match what {
                0 => f.msg(&MsgSpec::exit()),
                1 => f.msg(&pp.msg),
                2 => f.end(1, 0),
                3 => f.end(2, pp.errno),
                5 => f.end(3, 0),
                6 => {
                    f.raw(&damaged(&numbered(3, REQ), &pp.dmg));
                    f.end(1, 0); // some damage only shows at the end of the input
                }
                _ => {}
            }
            if matches!(what, 0 | 1) {
                for m in &pp.more {
                    f.msg(m);
                }
            }
        }
    };
    let ret: Sh<Option<(u64, Result<Result<bool, String>, String>)>> = Sh::new(None);
    let dirs = SendBox((f, act));
    let (t, early) = (p.t, p.early);
    let (t0p, r0) = (t0s.clone(), ret.clone());
    let done: Sh<bool> = Sh::new(false);
    let d2 = done.clone();
    spawn_peer("peer-writer", move || {
        let SendBox((mut f, act)) = { dirs };
        if !early {
            let t2 = t0p.clone();
            wait_for(EVENTUALLY, move || t2.with(|t| t.is_some()));
            sleep_us(t * 1000);
        }
        act(&mut f);
        d2.with(|d| *d = true);
        let _ = r0;
        // a memory peer stays
        std::mem::forget(f);
    });
    if early {
        settle(3_000_000);
    }
    let mut before = 0;
    if busy {
        // an earlier message fills the output, and the answer has to wait for it
        let (c5, m) = (conn.clone(), build(&numbered(9, NOTIF)));
        let Some(m) = m else { return };
        if !matches!(lib(move || c5.sender.send(m).is_ok()), Ok(true)) {
            return; // C02
        }
        before = 1;
        let (g2, ms, cnt, t2) = (go.clone(), p.busy, side.got_count(), t0s.clone());
        let sb = SendBox(cnt);
        spawn_peer("peer-busy", move || {
            let SendBox(cnt) = { sb };
            let cnt = std::mem::ManuallyDrop::new(cnt);
            sleep_us(ms * 1000);
            g2.with(|g| *g = true);
            let c = cnt_clone(&cnt);
            if wait_for(EVENTUALLY, move || c() >= 2) {
                t2.with(|t| *t = Some(s().now));
                s().ev("answer<", 0, 0);
            }
        });
    }
    let (c3, r2, t2) = (conn.clone(), ret.clone(), t0s.clone());
    let rq = SendBox(req);
    spawn_app("app", move || {
        let rq = { rq };
        let SendBox(req) = rq;
        if !busy {
            t2.with(|t| *t = Some(s().now));
        }
        s().ev("shutdown>", 0, 0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c3.handle_shutdown(&req).map_err(|e| e.to_string())));
        let r = r.map_err(|_| last_panic());
        s().ev("shutdown<", 0, 0);
        r2.with(|x| *x = Some((s().now, r)));
    });
    let r3 = ret.clone();
    wait_for(EVENTUALLY, move || r3.with(|x| x.is_some()));
    let t0 = t0s.with(|t| *t).unwrap_or(0);
    let Some((at, res)) = ret.with(|x| x.clone()) else {
        violate("shutdown-stuck", format!("handling {} does not return; {}", if shutdown { "shutdown" } else { "another request" }, states()));
    };
    if busy && t0 == 0 {
        violate("shutdown-early", format!("handling shutdown returned {res:?} before its answer was sent"));
    }
    let el = at.saturating_sub(t0) / 1_000_000; // ms
    let tev = if early { 0 } else { p.t };
    let res = match res {
        Ok(r) => r,
        Err(e) => violate("shutdown-panicked", e),
    };
    if !shutdown {
        if res != Ok(false) {
            violate("other-request", format!("handling {} as shutdown gave {res:?}", p.req.m));
        }
        if el > 1000 {
            violate("other-request-waited", format!("handling {} as shutdown took {el} ms", p.req.m));
        }
    } else {
        nontrivial();
        s().nontrivial = true;
        let in_time = tev <= 29_000;
        match (what, in_time, &res) {
            (0, true, Ok(true)) => {
                if el + 1 < tev {
                    violate("shutdown-too-early", format!("success was reported after {el} ms, the exit came after {tev} ms"));
                }
                if el > tev + 2000 {
                    violate("shutdown-late", format!("the exit came after {tev} ms, handling returned after {el} ms"));
                }
                probe("exit_in_time");
            }
            (0, true, r) => violate("exit-missed", format!("the exit came after {tev} ms, handling gave {r:?} after {el} ms")),
            (4, _, Err(_)) | (_, false, Err(_)) => {
                if el < 29_500 {
                    violate("gave-up-early", format!("nothing came, but handling gave up after {el} ms"));
                }
                if el > 32_000 {
                    violate("waited-too-long", format!("nothing came, and handling gave up only after {el} ms"));
                }
                probe("timed_out");
            }
            (5 | 6 | 2 | 3 | 1, true, Err(_)) => {
                if el > tev + 2000 {
                    violate("waited-too-long", format!("after {tev} ms it was clear that no exit comes, but handling returned after {el} ms"));
                }
                probe(match what {
                    1 => "other_message",
                    2 => "input_ended",
                    6 => "damaged",
                    _ => "failed",
                });
            }
            (_, _, r) => violate("false-success", format!("no exit came within 30 s, handling gave {r:?} after {el} ms")),
        }
    }
    // the answer
    let d3 = done.clone();
    wait_for(EVENTUALLY, move || d3.with(|d| *d));
    settle(20_000_000);
    let got = match side.peer_got() {
        Ok(g) => g,
        Err((k, m)) => violate(k, m),
    };
    if shutdown && !matches!(what, 5) {
        if got.len() != 1 + before {
            violate("answers", format!("the shutdown request was answered {} times: {:?}", got.len(), got.iter().map(|b| brief(b)).collect::<Vec<_>>()));
        }
        let b = &got[before];
        let has_null = b.get("result").map_or(false, |r| r.is_null());
        if b["id"] != p.req.id || !has_null || b.get("error").map_or(false, |e| !e.is_null()) || b.get("method").is_some() {
            violate("answer", format!("the shutdown request with id {} was answered with {}", p.req.id, brief(b)));
        }
    } else if !shutdown && !got.is_empty() {
        violate("other-request-answered", format!("handling {} as shutdown sent {}", p.req.m, brief(&got[0])));
    }
    // nothing but the next message was taken
    let mut rest: Vec<Value> = vec![];
    let c4 = conn.clone();
    loop {
        let c = c4.clone();
        match lib(move || c.receiver.try_recv().ok()) {
            Ok(Some(m)) => {
                let _g = Guard::new();
                rest.push(view(&m));
            }
            _ => break,
        }
        settle(1_000_000);
    }
    let mut want: Vec<Value> = match what {
        0 => vec![MsgSpec::exit().expect()],
        1 => vec![p.msg.expect()],
        _ => vec![],
    };
    if matches!(what, 0 | 1) && (what == 1 || p.tr >= MEMORY) {
        want.extend(p.more.iter().map(|m| m.expect()));
    }
    if shutdown && tev <= 29_000 && !want.is_empty() {
        want.remove(0);
    }
    if rest != want {
        violate("took-too-much", format!("after handling, the application receives {:?} instead of {:?}", rest.iter().map(|v| brief(v)).collect::<Vec<_>>(), want.iter().map(|v| brief(v)).collect::<Vec<_>>()));
    }
    s().sample = Some(format!("{} followed by event {what} after {tev} ms: {res:?} after {el} ms over transport {}", p.req.m, p.tr));
    let _ = lib(move || drop(conn));
    let _ = lib(move || drop(c4));
}
