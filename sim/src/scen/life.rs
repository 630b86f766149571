//! C18, C19, C21: no panics, nothing blocked for good, no growth.
use super::hand::*;
use super::inout::*;
use super::probe;
use crate::core::*;
use crate::flow::*;
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use bsp_server::{Connection, Message, Request};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- C18
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct RawSeg {
    pub kind: u64, // 0 message, 1 mutated message, 2 huge announced length, 3 deep nesting, 4 bytes, 5 header lines
    pub m: MsgSpec,
    pub muts: Vec<(u64, u64, u64)>, // what, where, value
    pub len: String,
    pub n: u64,
    pub sleep: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct RawPlan {
    pub tr: u8,
    pub segs: Vec<RawSeg>,
    pub end: EndPlan,
    pub recv: RecvPlan,
    pub send: Vec<SendPlan>,
    pub drain: Drain,
    pub werr: Option<(u64, i32)>,
    pub gone: u64, // 1 the peer goes away, 2 is reset, in the middle of everything
    pub gone_at: u64,
    pub drop_tx: Option<u64>, // the application's sender is dropped so early, us
    pub drop_rx: Option<u64>,
    pub drop_io: bool, // nobody waits for the I/O threads
    pub mem: u64,      // memory that can be had, MB (0: plenty)
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct PanicPlan {
    pub of: String, // the workload of another property
    pub x: Value,
    pub raw: Option<RawPlan>,
}
fn wide(r: &mut Rng) -> String {
    let n = *r.pick(&[3u64, 20, 70, 150, 300, 600, 1200, 5000]);
    let set: &[&str] = *r.pick(&[&["x", "é"][..], &["日"], &["x", "é", "日", "😀", " ", "\""], &["😀"]]);
    (0..r.range(n / 2, n)).map(|_| *r.pick(set)).collect()
}
pub fn seg_bytes(g: &RawSeg) -> Vec<u8> {
    let f = |len: String, b: &[u8]| {
        let mut v = format!("Content-Length: {len}\r\n\r\n").into_bytes();
        v.extend_from_slice(b);
        v
    };
    match g.kind % 8 {
        0 => g.m.wire(),
        1 => {
            let mut b = g.m.wire();
            for &(w, at, v) in &g.muts {
                if b.is_empty() {
                    break;
                }
                let at = at as usize % b.len();
                match w % 6 {
                    0 => b[at] = v as u8,
                    1 => b[at] ^= 1 << (v % 8),
                    2 => b.insert(at, v as u8),
                    3 => {
                        b.remove(at);
                    }
                    4 => b.truncate(at),
                    _ => {
                        let k = (v as usize % 40 + 1).min(b.len() - at);
                        let c = b[at..at + k].to_vec();
                        b.splice(at..at, c);
                    }
                }
            }
            b
        }
        2 => f(g.len.clone(), &vec![b'x'; (g.n as usize).min(200_000)]),
        3 => {
            let n = (g.n as usize).min(300_000);
            let (o, c) = if g.len == "{" { ("{\"a\":", "}") } else { ("[", "]") };
            let b = match g.muts.len() % 4 {
                0 => o.repeat(n),
                1 => format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"x/n\",\"params\":{}1{}}}", o.repeat(n), c.repeat(n)),
                2 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"x/n\",\"params\":{}1{}}}", o.repeat(n), c.repeat(n)),
                _ => format!("{{\"jsonrpc\":\"2.0\",\"id\":{}1{},\"result\":{}1{}}}", o.repeat(n), c.repeat(n), o.repeat(n), c.repeat(n)),
            };
            f(b.len().to_string(), b.as_bytes())
        }
        4 => {
            let mut r = Rng::new(g.n + 1);
            let n = r.below(3000);
            (0..n).map(|_| if r.permille(300) { *r.pick(&[b'\r', b'\n', b':', b' ', b'{', b'"']) } else { r.below(256) as u8 }).collect()
        }
        6 => {
            // header lines of any length made of characters of any width
            let mut r = Rng::new(g.n + 1);
            let mut t = String::new();
            for _ in 0..r.range(1, 4) {
                if r.permille(300) {
                    t.push_str(*r.pick(&["Content-Length: ", "Content-Type: ", "X: "]));
                }
                t.push_str(&wide(&mut r));
                t.push_str(*r.pick(&["\r\n", "\n", ": \r\n", "\r", ""]));
            }
            t.into_bytes()
        }
        7 => {
            // a body that is text, but not a message
            let mut r = Rng::new(g.n + 1);
            let t = wide(&mut r);
            let t = match r.below(6) {
                0 => serde_json::json!({"jsonrpc": "2.0", "method": 5, "params": t}).to_string(),
                1 => serde_json::json!({"jsonrpc": "2.0", "id": {t.clone(): 1}, "method": "x/w", "params": t}).to_string(),
                2 => serde_json::json!({"jsonrpc": "2.0", "id": t, "method": "buildTarget/run", "params": {"target": t}}).to_string(),
                3 => serde_json::json!([t]).to_string(),
                _ => t,
            };
            f(t.len().to_string(), t.as_bytes())
        }
        _ => {
            let mut r = Rng::new(g.n + 1);
            let mut b = vec![];
            for _ in 0..r.below(200) {
                let k = *r.pick(&["Content-Length", "content-length", "Content-Type", "X", "", ":", " ", "Content-Length "]);
                let v = *r.pick(&["5", "0", "-1", "x", "", " 7", "7 ", "4294967296", "a: b", "\u{e9}"]);
                let sep = *r.pick(&[": ", ": ", ":", "", " : ", ":  "]);
                let nl = *r.pick(&["\r\n", "\r\n", "\r\n", "\n", "\r", "\r\r\n"]);
                b.extend_from_slice(format!("{k}{sep}{v}{nl}").as_bytes());
            }
            if r.permille(700) {
                b.extend_from_slice(b"\r\n");
            }
            b
        }
    }
}
const OF: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C16", "C17", "C19", "C20"];
pub const C18_RULE: &str = "each run: either the workload and faults of another property's run, or a byte stream of valid, mutated, random, deeply nested and huge-length frames with a peer that closes, resets or stalls, failing writes, little memory and an application that drops its sender, receiver and I/O threads at any time; only panics, aborts, exits, crashes and memory taken for announced lengths count; non-trivial: at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c18(r: &mut Rng, env: &mut Env, tier: u64) -> PanicPlan {
    if r.permille(450) {
        let of = *r.pick(OF);
        let seed = r.next();
        return PanicPlan { of: of.into(), x: super::gen(of, r, env, tier, seed), raw: None };
    }
    let mut p = RawPlan { tr: tr3(r), ..Default::default() };
    let mild = r.permille(400);
    for _ in 0..r.range(1, 5) {
        let mut g = RawSeg { kind: r.below(8), m: any_msg(r, true, false), n: r.next() >> 40, ..Default::default() };
        if mild {
            g.kind = 0;
        }
        match g.kind {
            1 => {
                for _ in 0..r.range(1, 4) {
                    g.muts.push((r.below(6), r.next() >> 40, r.below(256)));
                }
                if r.permille(500) {
                    // near the header
                    for m in g.muts.iter_mut() {
                        m.1 %= 24;
                    }
                }
            }
            2 => {
                let l = ["20000000", "100000000", "400000000", "1000000000", "2147483647", "2147483648", "4294967295", "4294967296", "1099511627776", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "70000000"];
                g.len = l[r.below(14) as usize].into();
                g.n = *r.pick(&[0, 1, 100, 9000, 150_000]);
                if r.permille(500) {
                    p.mem = 16;
                    env.trace = false;
                }
            }
            3 => {
                g.n = *r.pick(&[10, 126, 127, 128, 129, 1000, 30_000, 300_000]);
                g.len = r.pick(&["[", "{"]).to_string();
                for _ in 0..r.below(4) {
                    g.muts.push((0, 0, 0));
                }
            }
            _ => {}
        }
        if r.permille(200) {
            g.sleep = *r.pick(&[1, 1000, 1_000_000]);
        }
        p.segs.push(g);
    }
    p.end = EndPlan { kind: r.below(5), errno: *r.pick(&[libc::EIO, libc::ECONNRESET, libc::ETIMEDOUT]), after: *r.pick(&[0, 0, 1000, 3_000_000]) };
    p.recv = recv_plan(r);
    if r.permille(300) {
        p.recv.n = r.range(1, 3);
    }
    let th = r.below(3);
    if th > 0 {
        p.send = send_plans(r, th, 5, true, r.clone().permille(200));
    }
    p.drain = drain_plan(r, out_size(&p.send));
    if r.permille(250) {
        p.werr = Some((r.below(500), *r.pick(&[libc::EIO, libc::EPIPE, libc::ECONNRESET, libc::ENOSPC])));
    }
    if r.permille(400) {
        p.gone = r.range(1, 2);
        p.gone_at = *r.pick(&[0, 10, 100, 1000, 50_000, 2_000_000]);
    }
    if r.permille(400) {
        p.drop_tx = Some(*r.pick(&[0, 10, 1000, 50_000, 2_000_000]));
    }
    if r.permille(500) {
        p.drop_rx = Some(*r.pick(&[0, 10, 1000, 50_000, 2_000_000]));
    }
    p.drop_io = r.permille(300);
    stalls(r, env);
    PanicPlan { raw: Some(p), ..Default::default() }
}
pub fn run_c18(p: PanicPlan) {
    let Some(p) = p.raw else {
        if !OF.contains(&&p.of[..]) {
            return;
        }
        s().panic_only = true;
        probe(&format!("workload_of_{}", p.of));
        super::run(&p.of, p.x);
        settle(1_000_000);
        only_panics();
        return;
    };
    let l0 = LIVE.load(Relaxed);
    if p.mem > 0 {
        s().mem_limit = l0 + (p.mem.max(12) as i64) * (1 << 20);
    }
    let e = establish(p.tr, 7000);
    let w = e.w;
    if let Some((o, er)) = p.werr {
        let q = &mut s().pipes[w.out];
        q.werr = Some((o as usize, if er > 0 { er } else { libc::EPIPE }));
        q.werr_sticky = true;
    }
    start_drain(w.out, &Drain { hold: None, ..p.drain.clone() }, &Sh::new(false));
    let Connection { sender, receiver } = e.conn;
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    BIGGEST.store(0, Relaxed);
    let mut acts = vec![];
    let mut total = 0usize;
    for g in &p.segs {
        if g.sleep > 0 {
            acts.push(Act::Sleep(g.sleep));
        }
        let b = seg_bytes(g);
        total += b.len();
        acts.push(Act::Bytes(b));
    }
    if p.end.after > 0 {
        acts.push(Act::Sleep(p.end.after));
    }
    match p.end.kind {
        1 => acts.push(Act::Close),
        2 => acts.push(Act::Fail(if p.end.errno > 0 { p.end.errno } else { libc::EIO })),
        3 => acts.push(Act::Gone(false)),
        4 => acts.push(Act::Gone(true)),
        _ => {}
    }
    spawn_peer("peer-writer", move || peer_script(w, acts));
    if p.gone > 0 {
        let (at, k) = (p.gone_at, p.gone);
        spawn_peer("peer-goes", move || {
            if at > 0 {
                sleep_us(at);
            }
            peer_gone(w, k == 2);
        });
    }
    nontrivial();
    let (n, us) = (p.recv.n, p.drop_rx);
    let start = p.recv.start;
    let rx2 = receiver;
    spawn_app("app-recv", move || {
        let until = s().now + us.unwrap_or(0) * 1000;
        if start > 0 && us.is_none() {
            sleep_us(start);
        }
        let mut k = 0;
        loop {
            if n > 0 && k >= n {
                if us.is_none() {
                    sleep_us(50_000_000);
                }
                break;
            }
            let r = if us.is_some() {
                let now = s().now;
                if now >= until {
                    break;
                }
                rx2.recv_timeout(Duration::from_nanos(until - now)).map_err(|_| ())
            } else {
                rx2.recv().map_err(|_| ())
            };
            if r.is_err() {
                break;
            }
            k += 1;
        }
        drop(rx2);
    });
    for sp in &p.send {
        let (tx, sp, us) = (sender.clone(), sp.clone(), p.drop_tx);
        spawn_app("app-send", move || {
            let until = us.map(|u| s().now + u * 1000);
            if sp.start > 0 {
                sleep_us(sp.start.min(us.unwrap_or(u64::MAX)));
            }
            for o in &sp.ops {
                if until.map_or(false, |u| s().now >= u) {
                    break;
                }
                let Some(m) = build(&o.m) else { continue };
                let _ = match o.how % 4 {
                    1 => tx.try_send(m).is_ok(),
                    2 => tx.send_timeout(m, limit(o.t)).is_ok(),
                    3 => tx.send_deadline(m, deadline(o.t)).is_ok(),
                    _ => tx.send(m).is_ok(),
                };
            }
            drop(tx);
        });
    }
    let us = p.drop_tx.unwrap_or(60_000_000);
    let tx = sender;
    spawn_app("app-hold", move || {
        sleep_us(us);
        drop(tx);
    });
    let io = e.io;
    let joined: Sh<Option<Result<(), String>>> = Sh::new(None);
    if p.drop_io {
        let _ = lib(move || drop(io));
    } else {
        let j2 = joined.clone();
        spawn_app("app-join", move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _ = io.join();
            }));
            let r = r.map_err(|_| last_panic());
            j2.with(|j| *j = Some(r));
        });
    }
    settle(200_000_000);
    peer_gone(w, false);
    settle(100_000_000);
    if let Some(Err(e)) = joined.with(|j| j.clone()) {
        only_panics();
        violate("panicked", format!("waiting for the I/O threads panicked: {e}"));
    }
    only_panics();
    let grown = PEAK.load(Relaxed) - l0;
    let sent: usize = p.send.iter().flat_map(|s| s.ops.iter()).map(|o| o.m.pad as usize + o.m.p.to_string().len() + 300).sum();
    let bound = (4 << 20) + 40 * total as i64 + 40 * sent as i64;
    if grown > bound || BIGGEST.load(Relaxed) > bound {
        violate("memory", format!("the library took {grown} bytes of memory (largest single allocation {}) although the peer sent only {total} bytes", BIGGEST.load(Relaxed)));
    }
    probe("raw_bytes");
    if p.segs.iter().any(|g| g.kind == 2) {
        probe("huge_announced_length");
    }
    s().sample = Some(format!("{total} bytes over transport {}, at most {grown} bytes of memory taken", p.tr));
}

// ---------------------------------------------------------------- C19
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct GonePlan {
    pub c: ConnPlan,
    pub hand: Option<HandPlan>,
    pub shut: bool,   // a thread handles a shutdown request (its own, not from the peer)
    pub reset: bool,
    pub gone_at: u64, // us
    pub via: u64,     // 0 both at once; 1 input first, output later; 2 output first
    pub gap: u64,
    pub join_early: bool,
    pub late: u64,    // sends tried afterwards
    pub late_how: u64,
}
pub const C19_RULE: &str = "each run: threads that receive, send (into output that may be stuck), perform the handshake or handle a shutdown over stdio or TCP, when the peer closes or resets both directions at some moment; non-trivial: the peer went and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c19(r: &mut Rng, env: &mut Env, t: u64) -> GonePlan {
    let mut p = GonePlan { reset: r.permille(500), gone_at: *r.pick(&[0, 10, 100, 1000, 30_000, 1_000_000, 10_000_000, 70_000_000]), ..Default::default() };
    p.via = *r.pick(&[0, 0, 1, 2]);
    p.gap = *r.pick(&[0, 1000, 2_000_000, 40_000_000]);
    p.join_early = r.permille(300);
    p.late = r.range(2, 6);
    p.late_how = r.below(4);
    if r.permille(250) {
        let mut h = if r.permille(500) { gen_c04(r, env, t) } else { gen_c05(r, env, t) };
        h.tr %= 3;
        h.end = EndPlan { kind: if p.reset { 4 } else { 3 }, after: r.below(3_000_000), ..Default::default() };
        p.hand = Some(h);
        return p;
    }
    let n = r.below(6);
    let v = distinct_msgs(r, n, true, false);
    let mut c = ConnPlan { tr: tr3(r), inb: items(v), one: r.permille(300), hold_conn: true, ..Default::default() };
    sleeps(r, &mut c.inb);
    match r.below(8) {
        0 => c.inb.push(InItem { m: Some(numbered(5, REQ)), cut: Some(r.range(1, 30)), ..Default::default() }),
        1 => c.inb.push(InItem { m: Some(numbered(3, REQ)), dmg: Some(Dmg { kind: r.below(NDMG), v: r.below(100) }), ..Default::default() }),
        2 => c.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() }),
        _ => {}
    }
    for _ in 0..r.range(1, 3) {
        let mut q = recv_plan(r);
        if r.permille(200) {
            q.n = r.range(1, 3);
        }
        c.recv.push(q);
    }
    let th = r.below(4);
    if th > 0 {
        c.send = send_plans(r, th, 5, true, r.clone().permille(300));
        for q in c.send.iter_mut() {
            if r.permille(300) {
                q.start = *r.pick(&[1_000_000, 60_000_000, 200_000_000]);
            }
        }
    }
    if r.permille(500) {
        c.drain = Drain { mode: 1, chunk: r.range(1, 200), cap: r.range(1, 100), hold: Some(r.below(200)), ..Default::default() };
    } else {
        c.drain = drain_plan(r, out_size(&c.send));
    }
    p.shut = r.permille(250);
    p.c = c;
    stalls(r, env);
    p
}
fn part_gone(w: Wire, input: bool, reset: bool) {
    let _g = Guard::new();
    let sm = s();
    if input {
        if reset {
            let l = sm.pipes[w.inp].buf.len();
            sm.pipes[w.inp].rerr = Some((l, libc::ECONNRESET));
            sm.pipes[w.inp].rerr_sticky = false;
        }
        sm.close_write(w.inp);
    } else {
        if reset && sm.pipes[w.out].werr.is_none() {
            sm.pipes[w.out].werr = Some((0, libc::ECONNRESET));
            sm.pipes[w.out].werr_sticky = true;
        }
        sm.close_read(w.out);
    }
}
fn both_end(l: &mut Link, late: bool) {
    if late {
        probe("joined_after_drop");
    }
    match l.join(EVENTUALLY) {
        None => violate("join-stuck", format!("the peer is gone and the connection dropped, but waiting for the I/O threads does not return; {}", states())),
        Some(j) => {
            if j.alive > 0 {
                violate("thread-left", format!("the peer is gone and join returned {:?}, but {} I/O thread(s) still run; {}", j.res, j.alive, states()));
            }
        }
    }
}
pub fn run_c19(p: GonePlan) {
    if let Some(mut h) = p.hand.clone() {
        if h.tr >= MEMORY || !matches!(h.end.kind, 3 | 4) {
            return;
        }
        h.drain.hold = None;
        let (side, hd) = run_hand(&h);
        let h2 = hd.clone();
        wait_for(3 * EVENTUALLY, move || h2.with(|h| h.script_done));
        if !hd.with(|h| h.script_done) {
            // the script waits for answers: the peer goes all the same
            if let Wire2::Bytes(w) = side.w {
                peer_gone(w, p.reset);
            }
        }
        nontrivial();
        let h2 = hd.clone();
        if !wait_for(EVENTUALLY, move || h2.with(|h| h.app_done)) {
            let ret = hd.with(|h| h.ret.is_some());
            violate(if ret { "receive-stuck" } else { "handshake-stuck" }, format!("the peer is gone, but {} does not return; {}", if ret { "a receive after the handshake" } else { "the handshake" }, states()));
        }
        probe("handshake");
        let Side { conn, io, w: Wire2::Bytes(w), th, .. } = side else { return };
        let _ = lib(move || drop(conn));
        let mut l = Link { plan: ConnPlan::default(), w, h: Sh::new(Hist::default()), go: Sh::new(true), io, conn: None, threads: th };
        both_end(&mut l, false);
        s().sample = Some("the peer went away during or after the handshake".into());
        return;
    }
    let mut c = p.c.clone();
    if c.recv.is_empty() || matches!(c.end.kind, 3 | 4) || c.werr.is_some() {
        return;
    }
    if c.send.iter().any(|s| s.after_disc) {
        return;
    }
    c.hold_conn = true;
    c.end = EndPlan::default();
    let mut l = start(&c, 7000);
    let conn = l.conn.clone().unwrap();
    let shut: Sh<Option<Result<Result<bool, String>, String>>> = Sh::new(None);
    if p.shut {
        let (c2, s2, at) = (conn.clone(), shut.clone(), p.gone_at / 2);
        spawn_app("app-shutdown", move || {
            if at > 0 {
                sleep_us(at);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c2.handle_shutdown(&Request::Shutdown(5.into())).map_err(|e| e.to_string())));
            let r = r.map_err(|_| last_panic());
            drop(c2);
            s2.with(|s| *s = Some(r));
        });
    }
    let mut jr = None;
    if p.join_early {
        jr = Some(l.join_async());
    }
    sleep_us(p.gone_at);
    let blocked = l.h.with(|h| h.pending.len());
    match p.via % 3 {
        0 => peer_gone(l.w, p.reset),
        v => {
            let first_in = v == 1;
            part_gone(l.w, first_in, p.reset);
            sleep_us(p.gap.min(100_000_000));
            part_gone(l.w, !first_in, p.reset);
        }
    }
    s().ev("peer gone", 0, 0);
    nontrivial();
    if blocked > 0 {
        probe("send_was_blocked");
    }
    if !l.wait_receivers(EVENTUALLY) {
        violate("receive-stuck", format!("the peer is gone, but a receive does not return; {}", states()));
    }
    if !l.wait_senders(EVENTUALLY) {
        violate("send-stuck", format!("the peer is gone, but a send does not return; {}", states()));
    }
    // what had been sent and delivered was all right
    let (exp, _) = c.expected();
    // handling shutdown takes a message of its own
    let rx = l.h.with(|h| h.rx.clone());
    must(check_rx(&rx, &exp, false, if p.shut { c.recv.len().max(2) } else { c.recv.len() }));
    must(check_returned(&l));
    if p.shut {
        let s2 = shut.clone();
        if !wait_for(EVENTUALLY, move || s2.with(|s| s.is_some())) {
            violate("shutdown-stuck", format!("the peer is gone, but handling shutdown does not return; {}", states()));
        }
        match shut.with(|s| s.clone()).unwrap() {
            Err(e) => violate("shutdown-panicked", e),
            Ok(Ok(true)) if !exp.iter().any(|v| v["k"] == "notif" && v["m"] == "build/exit") => violate("shutdown-result", "handling shutdown reported success although the peer never sent exit".into()),
            _ => probe("shutdown_handling"),
        }
    }
    // later calls
    let done: Sh<Vec<(bool, bool)>> = Sh::new(vec![]);
    let (c2, d2, n, how) = (conn.clone(), done.clone(), p.late.clamp(2, 10), p.late_how);
    spawn_app("app-late", move || {
        for i in 0..n + 8 {
            let Some(m) = build(&numbered(7000 + i as usize, NOTIF)) else { return };
            let plain = how % 4 == 0 || i + 8 >= n;
            let ok = match if plain { 0 } else { how % 4 } {
                1 => c2.try_send(m).is_ok(),
                2 => c2.send_timeout(m, Duration::from_millis(50)).is_ok(),
                3 => c2.send_deadline(m, Instant::now() + Duration::from_millis(50)).is_ok(),
                _ => c2.send(m).is_ok(),
            };
            d2.with(|d| d.push((ok, plain)));
        }
        drop(c2);
    });
    let (d2, n) = (done.clone(), n as usize + 8);
    if !wait_for(EVENTUALLY, move || d2.with(|d| d.len()) >= n) {
        violate("send-stuck", format!("the peer is gone, but a send started later does not return; {}", states()));
    }
    let d = done.with(|d| d.clone());
    if d.iter().filter(|x| x.0).count() > 1 {
        violate("no-error", format!("the peer is gone, but {} later sends reported success", d.iter().filter(|x| x.0).count()));
    }
    let c3 = conn.clone();
    let got: Sh<Option<bool>> = Sh::new(None);
    let (g2, mx) = (got.clone(), exp.len());
    spawn_app("app-late", move || {
        let mut k = 0;
        loop {
            match c3.receiver.recv() {
                Ok(m) => {
                    drop(m);
                    k += 1;
                    if k > mx {
                        g2.with(|g| *g = Some(false));
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        drop(c3);
        g2.with(|g| *g = Some(true));
    });
    let g2 = got.clone();
    if !wait_for(EVENTUALLY, move || g2.with(|g| g.is_some())) {
        violate("receive-stuck", format!("the peer is gone, but a receive started later does not return; {}", states()));
    }
    if got.with(|g| *g) == Some(false) {
        violate("extra-message", "messages keep coming although the peer is gone".into());
    }
    let _ = lib(move || drop(conn));
    l.drop_conn();
    match jr {
        None => both_end(&mut l, true),
        Some(j) => {
            let j2 = j.clone();
            if !wait_for(EVENTUALLY, move || j2.with(|x| x.is_some())) {
                violate("join-stuck", format!("the peer is gone and the connection dropped, but waiting for the I/O threads does not return; {}", states()));
            }
            probe("joined_early");
        }
    }
    s().sample = Some(format!("the peer went after {} us ({}), {blocked} sends were blocked, transport {}", p.gone_at, if p.reset { "reset" } else { "closed" }, c.tr));
}

// ---------------------------------------------------------------- C21
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Traffic {
    pub kind: u64, // 0 peer sends m; 1 the application sends m; 2 the peer sends m, the application answers; 3 refused timed sends of m
    pub m: MsgSpec,
    pub burst: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct GrowPlan {
    pub tr: u8, // 3: in-memory
    pub mix: Vec<Traffic>,
    pub rounds: u64, // rounds in each phase
    pub phases: u64,
    pub recv: u64, // how the application receives
    pub drain: Drain,
    pub early: bool, // requests before the handshake, refused with -32002
}
pub const C21_RULE: &str = "each run: a fixed mix of traffic (messages in, out, requests answered, sends refused by a full or timed-out channel) repeated over several phases of equal length; heap memory held by non-harness code is compared at the quiescent end of each phase; non-trivial: at least 3 phases ran and one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c21(r: &mut Rng, env: &mut Env, tier: u64) -> GrowPlan {
    env.trace = false;
    let mut p = GrowPlan { tr: r.below(4) as u8, recv: r.below(3), ..Default::default() };
    for _ in 0..r.range(1, 3) {
        let mut m = any_msg(r, true, false);
        while m.is_exit() || m.pad > 5000 {
            m = any_msg(r, true, false);
        }
        p.mix.push(Traffic { kind: *r.pick(&[0, 0, 1, 1, 2, 3]), m, burst: r.range(1, 4) });
    }
    p.rounds = if tier == 1 { 31 * r.range(1, 6) } else { 31 };
    p.phases = r.range(4, 5);
    if r.permille(300) {
        p.drain = Drain { mode: 1, chunk: r.range(500, 5000), cap: r.range(500, 5000), ..Default::default() };
    }
    p.early = r.permille(250);
    // long runs: keep the environment's noise affordable
    env.stall = 0;
    env.quantum_p = env.quantum_p.min(30);
    if env.chunk == 3 {
        env.chunk = 2;
    }
    env.lat = env.lat.min(500);
    env.pswitch = env.pswitch.min(30);
    env.eintr = env.eintr.min(20);
    p
}
/// Custom method names are leaked on purpose (K3); how many bytes of them a message carries.
fn custom_name(m: &MsgSpec) -> usize {
    if (m.k == REQ && !is_typed_req(&m.m)) || (m.k == NOTIF && !is_typed_notif(&m.m)) {
        m.m.len()
    } else {
        0
    }
}
pub fn run_c21(p: GrowPlan) {
    if p.mix.is_empty() || p.rounds == 0 || p.phases < 3 || p.rounds * p.phases > 20_000 || p.mix.iter().any(|t| t.m.is_exit() || t.burst > 10) {
        return;
    }
    if p.mix.iter().any(|t| build(&t.m).is_none() && (t.kind % 4 != 0 || p.tr >= MEMORY)) {
        return;
    }
    let mut mix = p.mix.clone();
    if p.early {
        // all of it is answered by the library itself
        mix.retain(|t| t.m.k == REQ && t.m.m != "build/initialize" && t.kind % 4 == 0);
        if mix.is_empty() {
            return;
        }
    }
    s().step_cap = 30_000_000;
    let side = open_side(p.tr, &Drain { hold: None, stalls: vec![], ..p.drain.clone() });
    let conn = side.conn.clone();
    let mut f = side.feeder();
    // the receiving thread of the application answers what is to be answered
    let n: Sh<(u64, u64)> = Sh::new((0, 0)); // received, answers not accepted
    let (c2, n2, how, early) = (conn.clone(), n.clone(), p.recv, p.early);
    let answer: Vec<Value> = mix.iter().filter(|t| t.kind % 4 == 2 && t.m.k == REQ).map(|t| t.m.id.clone()).collect();
    let names: Vec<String> = mix.iter().filter(|t| t.kind % 4 == 2 && t.m.k == REQ).map(|t| t.m.m.clone()).collect();
    let _ = names;
    spawn_app("app", move || {
        if early {
            let _ = c2.initialize(|_| ());
            return;
        }
        loop {
            let m = match how % 3 {
                1 => match c2.receiver.recv_timeout(Duration::from_secs(3)) {
                    Ok(m) => m,
                    Err(crossbeam_channel::RecvTimeoutError::Timeout) => continue,
                    Err(_) => return,
                },
                2 => match c2.receiver.iter().next() {
                    Some(m) => m,
                    None => return,
                },
                _ => match c2.receiver.recv() {
                    Ok(m) => m,
                    Err(_) => return,
                },
            };
            n2.with(|n| n.0 += 1);
            if let Message::Request(r) = &m {
                let yes = {
                    let _g = Guard::new();
                    answer.contains(&serde_json::to_value(r.id()).unwrap_or(Value::Null))
                };
                if yes && c2.send(bsp_server::Response::ok(r.id().clone(), json!({"ok": true}))).is_err() {
                    n2.with(|n| n.1 += 1);
                }
            }
            drop(m);
        }
    });
    // sends from the application
    let jobs: Sh<(u64, u64)> = Sh::new((0, 0)); // rounds to do, rounds done
    let (c2, j2, mix2, early) = (conn.clone(), jobs.clone(), mix.clone(), p.early);
    spawn_app("app-send", move || {
        let mut done = 0;
        loop {
            let j3 = j2.clone();
            wait_for(1 << 50, move || j3.with(|j| j.0 > done));
            if !early {
                for t in &mix2 {
                    for _ in 0..t.burst {
                        match t.kind % 4 {
                            1 => {
                                let m = {
                                    let _g = Guard::new();
                                    t.m.clone()
                                };
                                if let Some(x) = build(&m) {
                                    let _ = c2.send(x);
                                }
                                let _g = Guard::new();
                                drop(m);
                            }
                            3 => {
                                // too short a time, or none: mostly refused
                                let Some(x) = build(&t.m) else { continue };
                                let _ = c2.send_timeout(x, Duration::from_nanos(0)).is_ok();
                                let Some(x) = build(&t.m) else { continue };
                                let _ = c2.try_send(x).is_ok();
                            }
                            _ => {}
                        }
                    }
                }
            }
            done += 1;
            j2.with(|j| j.1 = done);
        }
    });
    let per_round: u64 = mix.iter().filter(|t| matches!(t.kind % 4, 0 | 2)).map(|t| t.burst).sum();
    let names: usize = mix.iter().filter(|t| matches!(t.kind % 4, 0 | 2)).map(|t| custom_name(&t.m) * t.burst as usize).sum();
    let mem = p.tr >= MEMORY;
    let mut sent = 0u64;
    let mut live: Vec<i64> = vec![];
    for ph in 0..p.phases {
        for k in 0..p.rounds {
            for t in &mix {
                if matches!(t.kind % 4, 0 | 2) {
                    for _ in 0..t.burst {
                        if mem {
                            // the peer's end is used like the application's
                            let (f2, m) = (&mut f, &t.m);
                            let _ = lib(|| f2.msg(m));
                        } else {
                            f.msg(&t.m);
                        }
                    }
                }
            }
            sent += per_round;
            jobs.with(|j| j.0 += 1);
            if k % 8 == 7 {
                sleep_us(10_000);
            }
        }
        let (j2, n2, want, want_n, early) = (jobs.clone(), n.clone(), (ph + 1) * p.rounds, sent, p.early);
        let cnt = side.got_count();
        if !wait_for(EVENTUALLY, move || j2.with(|j| j.1 >= want) && if early { cnt() as u64 >= want_n } else { n2.with(|n| n.0 >= want_n) }) {
            return; // other properties' business
        }
        settle(400_000_000);
        live.push(LIVE.load(Relaxed));
    }
    nontrivial();
    // the first phases may set up things that stay
    let per_phase = p.rounds as usize * names;
    let base = live[1];
    let slack = 512;
    for (i, x) in live.iter().enumerate().skip(2) {
        let d = x - base;
        let leak = ((i - 1) * per_phase) as i64;
        if d > leak + slack {
            violate("growth", format!("after {} further rounds of the same traffic, {d} more bytes are held ({} per round; {} of them in names of custom methods); phases: {live:?}", (i as u64 - 1) * p.rounds, d / ((i as i64 - 1) * p.rounds as i64), leak));
        }
        if d > slack {
            if listed_c21() {
                let _g = Guard::new();
                let sm = s();
                if !sm.known.iter().any(|k| k == "K3") {
                    sm.known.push("K3".into());
                }
            } else {
                violate("growth", format!("names of custom methods are never freed: {d} bytes after {} further rounds", (i as u64 - 1) * p.rounds));
            }
        }
    }
    if p.early {
        probe("early_requests");
    }
    if mix.iter().any(|t| t.kind % 4 == 3) {
        probe("refused_sends");
    }
    probe(if names > 0 { "custom_methods" } else { "typed_only" });
    s().sample = Some(format!("{} rounds, transport {}, bytes held at the end of each phase: {live:?}", p.rounds * p.phases, p.tr));
}
fn listed_c21() -> bool {
    crate::orch::listed("K3")
}
