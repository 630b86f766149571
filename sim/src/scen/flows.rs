//! C07-C13: ends, damage, failing output, back-pressure, timed sends, independence of the directions.
use super::inout::*;
use super::probe;
use crate::core::*;
use crate::flow::*;
use crate::frames::brief;
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::time::Duration;

/// Messages with things that merely look like an exit.
fn lookalikes(r: &mut Rng, v: &mut Vec<MsgSpec>) {
    if r.permille(400) {
        let m = match r.below(6) {
            0 => MsgSpec::req(json!(r.below(90)), "build/exit", json!({})),
            1 => MsgSpec::req(json!("e"), "build/exit", Value::Null),
            2 => MsgSpec::notif("build/Exit", Value::Null),
            3 => MsgSpec::req(json!(4), "build/shutdown", Value::Null),
            4 => MsgSpec::resp(json!("build/exit"), json!({"method": "build/exit"})),
            _ => MsgSpec::notif("exit", json!({"method": "build/exit"})),
        };
        let at = r.below(v.len() as u64 + 1) as usize;
        v.insert(at, m);
    }
}
fn after_end(r: &mut Rng, p: &mut ConnPlan) {
    // what the peer goes on to send although nobody may look at it
    for _ in 0..r.below(4) {
        let mut i = InItem::default();
        match r.below(4) {
            0 => i.junk = r.range(1, 300),
            1 => i.m = Some(MsgSpec::exit()),
            2 => {
                i.m = Some(numbered(700, NOTIF));
                i.dmg = Some(Dmg { kind: r.below(NDMG), v: r.below(100) });
            }
            _ => i.m = Some(numbered(500 + r.below(9) as usize, r.below(3) as u8)),
        }
        if r.permille(300) {
            i.sleep = r.below(3_000_000);
        }
        p.inb.push(i);
    }
}
fn any_end(r: &mut Rng) -> EndPlan {
    EndPlan {
        kind: *r.pick(&[1, 1, 2, 3, 4]),
        errno: *r.pick(&[libc::EIO, libc::ECONNRESET, libc::ETIMEDOUT]),
        after: if r.permille(400) { r.below(4_000_000) } else { 0 },
    }
}

// ---------------------------------------------------------------- C07
pub const C07_RULE: &str = "each run: messages (some of which only resemble an exit), an exit notification, further bytes of all kinds, an input that stays open, ends or fails, output that may be stuck, and a schedule; non-trivial: an exit was sent and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c07(r: &mut Rng, env: &mut Env, _t: u64) -> ConnPlan {
    let n = r.below(7);
    let mut v = distinct_msgs(r, n, true, true);
    lookalikes(r, &mut v);
    let mut p = ConnPlan { tr: tr3(r), inb: items(v), one: r.permille(500), ..Default::default() };
    let mut e = MsgSpec::exit();
    let st = r.next() >> 20 | 1;
    e.style = *r.pick(&[0, 4, 8, st]);
    if r.permille(900) {
        p.inb.push(InItem { m: Some(e), ..Default::default() });
    }
    sleeps(r, &mut p.inb);
    after_end(r, &mut p);
    p.end = if r.permille(500) { EndPlan::default() } else { any_end(r) };
    for _ in 0..*r.pick(&[1, 1, 2]) {
        p.recv.push(recv_plan(r));
    }
    p.hold_conn = r.permille(700);
    if r.permille(400) {
        let th = r.range(1, 2);
        p.send = send_plans(r, th, 3, false, false);
        p.drain = drain_plan(r, 500);
        if r.permille(500) {
            p.drain = Drain { mode: 1, chunk: 10, cap: r.range(1, 40), hold: Some(r.below(60)), ..Default::default() };
        }
    }
    stalls(r, env);
    p
}
pub fn run_c07(p: ConnPlan) {
    let (exp, end) = p.expected();
    if p.recv.is_empty() || p.recv.iter().any(|r| r.n > 0) || p.werr.is_some() {
        return;
    }
    let mut l = start(&p, 7000);
    if !l.wait_received(exp.len(), EVENTUALLY) {
        if end == InEnd::Damaged {
            return; // an early loss is not this property's business
        }
        // something that is not the exit notification ended the input, or delivery got stuck
        let disc = l.h.with(|h| !h.disc.is_empty());
        if disc {
            violate("ended-early", format!("the receiver reports disconnection after {} of {} messages (the last one delivered is {})", l.received(), exp.len(), l.h.with(|h| h.rx.last().map(|r| brief(&r.v))).unwrap_or_default()));
        }
        return;
    }
    if end == InEnd::Open {
        settle(50_000_000);
        if l.h.with(|h| !h.disc.is_empty()) {
            violate("ended-early", "the receiver reports disconnection although neither an exit nor the end of the input came".into());
        }
        probe("no_exit_sent");
        return;
    }
    if end != InEnd::Exit {
        return;
    }
    nontrivial();
    if !l.wait_receivers(EVENTUALLY) {
        violate("not-disconnected", format!("the exit notification was delivered, but the receiver does not report disconnection; {}", states()));
    }
    must(check_in(&l, &exp, true));
    // the reading thread ends by itself
    let reader_only: Sh<Option<Result<Result<(), String>, String>>> = Sh::new(None);
    if let Some(io) = l.io.take() {
        let o = reader_only.clone();
        spawn_app("app-join", move || {
            let bsp_server::IoThreads { reader, writer, .. } = io;
            let r = match reader.join() {
                Ok(r) => Ok(r.map_err(|e| e.to_string())),
                Err(_) => Err(last_panic()),
            };
            o.with(|o| *o = Some(r));
            std::mem::forget(writer);
        });
        let o2 = reader_only.clone();
        if !wait_for(EVENTUALLY, move || o2.with(|o| o.is_some())) {
            violate("reader-not-ended", format!("the reading thread does not end after the exit notification; {}", states()));
        }
        match reader_only.with(|o| o.clone()) {
            Some(Ok(Ok(()))) => {}
            other => violate("reader-failed", format!("the reading thread ended with {other:?} instead of success")),
        }
    }
    if p.end.kind == 0 {
        probe("exit_with_input_open");
    }
    settle(30_000_000);
    must(check_in(&l, &exp, true));
    s().sample = Some(format!("exit as message {} over transport {}, {} item(s) after it", exp.len(), p.tr, p.inb.len()));
    l.drop_conn();
}

// ---------------------------------------------------------------- C08
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct JoinPlan {
    pub c: ConnPlan,
    pub join_at: u64, // us after the start; only join once the connection is dropped: u64::MAX
    pub linger: u64,  // the connection is dropped so long after the threads are done
}
pub const C08_RULE: &str = "each run: traffic in both directions, an input that ends by exit, close or failure, a peer that takes the output slowly, an application that drops its connection at some time and joins; non-trivial: join was called on a connection with accepted output or delivered input and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c08(r: &mut Rng, env: &mut Env, _t: u64) -> JoinPlan {
    let n = r.below(5);
    let v = distinct_msgs(r, n, true, false);
    let mut p = ConnPlan { tr: tr3(r), inb: items(v), one: r.permille(400), ..Default::default() };
    sleeps(r, &mut p.inb);
    match r.below(6) {
        0 | 1 => {
            p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
            if r.permille(400) {
                after_end(r, &mut p);
            }
            p.end = EndPlan { kind: *r.pick(&[0, 0, 1, 2]), errno: libc::EIO, after: r.below(3_000_000) };
        }
        2 | 3 => p.end = EndPlan { kind: 1, after: r.below(3_000_000), ..Default::default() },
        4 => {
            p.inb.push(InItem { m: Some(numbered(3, REQ)), dmg: Some(Dmg { kind: r.below(NDMG), v: r.below(100) }), ..Default::default() });
            p.end = EndPlan { kind: 1, after: r.below(3_000_000), ..Default::default() };
        }
        _ => p.end = EndPlan { kind: *r.pick(&[1, 2]), errno: libc::EIO, after: r.below(3_000_000) },
    }
    let th = r.range(1, 3);
    p.send = send_plans(r, th, 4, true, true);
    if r.permille(300) {
        for s in p.send.iter_mut() {
            s.after_disc = r.permille(600);
        }
    }
    p.drain = drain_plan(r, out_size(&p.send));
    let mut rp = recv_plan(r);
    if r.permille(150) {
        rp.n = r.range(1, 3);
    }
    p.recv.push(rp);
    stalls(r, env);
    JoinPlan { c: p, join_at: *r.pick(&[0, 1000, 2_000_000, u64::MAX, u64::MAX]), linger: if r.permille(400) { r.below(5_000_000) } else { 0 } }
}
pub fn run_c08(jp: JoinPlan) {
    let p = jp.c;
    let (exp, end) = p.expected();
    if end == InEnd::Open || p.werr.is_some() || p.drain.hold.is_some() || matches!(p.end.kind, 3 | 4) {
        return;
    }
    if p.send.iter().any(|s| s.after_disc) && !p.recv.iter().any(|r| r.n == 0) {
        return;
    }
    let mut p = p;
    p.hold_conn = true;
    let mut l = start(&p, 7000);
    let mut jr = None;
    if jp.join_at != u64::MAX {
        sleep_us(jp.join_at);
        jr = Some(l.join_async());
        probe("join_before_drop");
    }
    // the application is done when all its threads are
    let ok = l.wait_senders(EVENTUALLY) && l.wait_receivers(EVENTUALLY);
    if !ok {
        return; // sends or receives that never return are other properties' business
    }
    sleep_us(jp.linger);
    l.drop_conn();
    let j = match jr {
        Some(j) => j,
        None => l.join_async(),
    };
    let j2 = j.clone();
    if !wait_for(EVENTUALLY, move || j2.with(|x| x.is_some())) {
        violate("join-stuck", format!("waiting for the I/O threads does not return although the input ended, the connection is dropped and the peer takes everything; {}", states()));
    }
    let j = j.with(|x| x.clone()).unwrap();
    nontrivial();
    if j.alive > 0 {
        violate("thread-left", format!("join returned ({:?}) while {} I/O thread(s) were still running; {}", j.res, j.alive, states()));
    }
    if let Err((k, m)) = check_out(&l, &l.out()[..j.out_len], true) {
        violate(k, format!("at the moment join returned {:?}: {m}", j.res));
    }
    if l.out().len() > j.out_len {
        violate("late-output", "bytes were written after join returned".into());
    }
    let taken = l.received() >= exp.len();
    if matches!(end, InEnd::Clean | InEnd::Exit) && taken {
        match &j.res {
            Ok(Ok(())) => {}
            other => violate("join-result", format!("the input ended cleanly, everything was received and every write succeeded, but join gave {other:?}")),
        }
        probe("clean");
    } else {
        probe(if taken { "damaged" } else { "not_everything_received" });
        if let Err(e) = &j.res {
            violate("join-panicked", format!("waiting for the I/O threads panicked: {e}"));
        }
    }
    let n = l.h.with(|h| h.sends.iter().filter(|s| s.ok).count());
    s().sample = Some(format!("join gave {:?} with {n} accepted messages written over transport {}", j.res, p.tr));
}

// ---------------------------------------------------------------- C09
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct DmgPlan {
    pub c: ConnPlan,
}
pub const C09_RULE: &str = "each run: complete messages, then an input that is cut, damaged in one of 15 ways (each with several variants), fails or ends, followed by anything; non-trivial: the input was damaged and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c09(r: &mut Rng, env: &mut Env, _t: u64) -> DmgPlan {
    let n = r.below(6);
    let v = distinct_msgs(r, n, true, true);
    let mut p = ConnPlan { tr: tr3(r), inb: items(v), one: r.permille(500), ..Default::default() };
    sleeps(r, &mut p.inb);
    match r.below(10) {
        0..=5 => {
            let mut m = any_msg(r, true, false);
            if r.permille(100) {
                m = MsgSpec::exit();
            }
            p.inb.push(InItem { m: Some(m), dmg: Some(Dmg { kind: r.below(NDMG), v: r.below(1000) }), ..Default::default() });
            if r.permille(700) {
                after_end(r, &mut p);
            }
            p.end = if r.permille(300) { EndPlan::default() } else { any_end(r) };
        }
        6..=8 => {
            let m = any_msg(r, true, r.clone().permille(100));
            let w = m.wire();
            let c = match r.below(4) {
                0 => r.below(25),
                1 => w.len() as u64 - r.range(1, 4).min(w.len() as u64),
                // right after a header line
                2 => w.windows(2).position(|x| x == b"\r\n").unwrap_or(0) as u64 + r.range(0, 4),
                _ => r.below(w.len() as u64),
            };
            p.inb.push(InItem { m: Some(m), cut: Some(c), ..Default::default() });
            p.end = any_end(r);
        }
        _ => p.end = any_end(r),
    }
    for _ in 0..*r.pick(&[1, 1, 1, 2]) {
        p.recv.push(recv_plan(r));
    }
    if r.permille(200) {
        p.send = send_plans(r, 1, 3, false, false);
    }
    stalls(r, env);
    DmgPlan { c: p }
}
pub fn run_c09(d: DmgPlan) {
    let p = d.c;
    let (exp, end) = p.expected();
    if p.recv.is_empty() || p.recv.iter().any(|r| r.n > 0) || p.werr.is_some() || end == InEnd::Open {
        return;
    }
    let mut p = p;
    p.hold_conn = false;
    let mut l = start(&p, 7000);
    if !l.wait_receivers(EVENTUALLY) {
        must(check_in(&l, &exp, true));
        violate("not-reported", format!("the input is {end:?} but the receiver does not report disconnection; {}", states()));
    }
    must(check_in(&l, &exp, true));
    l.wait_senders(EVENTUALLY);
    l.drop_conn();
    let Some(j) = l.join(EVENTUALLY) else { return };
    match (&j.res, end) {
        (Ok(Err(_)), InEnd::Damaged) => {
            nontrivial();
            probe("damage_reported");
        }
        (Ok(Ok(())), InEnd::Clean | InEnd::Exit | InEnd::Open) => probe("clean_end"),
        (Ok(Ok(())), InEnd::Damaged) => violate("damage-not-reported", "the input was damaged but waiting for the I/O threads reports success".into()),
        (Ok(Err(e)), _) => {
            if p.werr.is_none() && !matches!(p.end.kind, 3 | 4) {
                violate("clean-end-reported-as-error", format!("the input ended between frames but waiting for the I/O threads reports {e}"));
            }
        }
        (Err(e), _) => {
            if end == InEnd::Damaged {
                violate("damage-panicked", format!("waiting for the I/O threads panicked instead of returning an error: {e}"));
            }
        }
    }
    s().sample = Some(format!("{} good messages, then {end:?}; join gave {:?}", exp.len(), j.res));
}
// ---------------------------------------------------------------- C10
pub const C10_RULE: &str = "each run: sending threads, a transport that starts to fail at some byte (once or for good, with one of several errors), input of any kind; non-trivial: the write failure was hit and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c10(r: &mut Rng, env: &mut Env, _t: u64) -> ConnPlan {
    let mut p = ConnPlan { tr: tr3(r), ..Default::default() };
    let th = r.range(1, 4);
    p.send = send_plans(r, th, 6, true, true);
    let size = out_size(&p.send);
    let at = match r.below(4) {
        0 => 0,
        1 => r.below(60),
        _ => r.below(size + 1),
    };
    p.werr = Some((at, *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::ECONNRESET, libc::EAGAIN, libc::ETIMEDOUT])));
    p.wsticky = r.permille(500);
    p.drain = drain_plan(r, size);
    let n = r.below(4);
    p.inb = items(distinct_msgs(r, n, true, false));
    sleeps(r, &mut p.inb);
    p.end = EndPlan { kind: 1, after: r.below(30_000_000), ..Default::default() };
    if r.permille(300) {
        p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
    }
    p.recv.push(recv_plan(r));
    // some sends long after the failure
    if r.permille(500) {
        p.send.push(SendPlan { start: 100_000_000, ops: (0..r.range(1, 3)).map(|i| SendOp { m: numbered(9000 + i as usize, REQ), how: r.below(4), t: 1000, via: None, pause: 0 }).collect(), ..Default::default() });
    }
    p.hold_conn = r.permille(300);
    stalls(r, env);
    p
}
pub fn run_c10(p: ConnPlan) {
    let Some((at, _)) = p.werr else { return };
    if p.drain.hold.is_some() || p.send.is_empty() || p.expected().1 == InEnd::Open || matches!(p.end.kind, 3 | 4) {
        return;
    }
    let mut l = start(&p, 7000);
    let done = l.wait_senders(EVENTUALLY);
    settle(1_000_000_000);
    let hit = s().pipes[l.w.out].werr_hit;
    if !done {
        if hit {
            violate("send-stuck", format!("writing failed at byte {at}, but {} sending thread(s) are still blocked; {}", p.send.len() - l.h.with(|h| h.sdone), states()));
        }
        return;
    }
    let out = l.out();
    let o = match parse_out(out) {
        Ok(o) => o,
        Err((k, m)) => violate(k, m),
    };
    must(check_returned(&l));
    let missing = match check_out(&l, out, !hit) {
        Ok(n) => n,
        Err((k, m)) => violate(k, m),
    };
    if hit {
        nontrivial();
        probe("write_failure_hit");
        let q = &s().pipes[l.w.out];
        if q.bytes_after_err > 0 {
            violate("wrote-after-failure", format!("{} bytes were written after the transport had failed at byte {at}", q.bytes_after_err));
        }
        if missing > 1 {
            violate("lost-several", format!("writing failed at byte {at}; {missing} messages whose sends had succeeded were not written: accepted {}, complete frames {}", l.h.with(|h| h.sends.iter().filter(|s| s.ok).count()), o.msgs.len()));
        }
        let tail = out.len() - o.rest;
        if tail > 0 && missing == 0 {
            violate("torn-unaccounted", format!("{tail} bytes of a frame were written before the failure, but every accepted message is complete"));
        }
        // sends that started after the failure was reported all failed
        let t = q.werr_time;
        let late: Vec<SendRec> = l.h.with(|h| h.sends.iter().filter(|s| s.ok && s.start > t + 1_000_000_000).cloned().collect());
        if let Some(x) = late.first() {
            violate("accepted-after-failure", format!("a send reported success {} ms after the transport had failed", (x.start - t) / 1_000_000));
        }
        if tail > 0 {
            probe("torn_frame");
        }
    }
    l.drop_conn();
    l.wait_receivers(EVENTUALLY);
    if hit {
        if let Some(j) = l.join(EVENTUALLY) {
            match &j.res {
                Ok(Err(_)) => {}
                Ok(Ok(())) => violate("failure-not-reported", format!("writing failed at byte {at}, but waiting for the I/O threads reports success")),
                Err(e) => violate("join-panicked", format!("writing failed at byte {at}, and waiting for the I/O threads panicked: {e}")),
            }
        } else {
            violate("join-stuck", format!("writing failed at byte {at}, the input ended and the connection is dropped, but waiting for the I/O threads does not return; {}", states()));
        }
        if s().pipes[l.w.out].bytes_after_err > 0 {
            violate("wrote-after-failure", format!("bytes were written after the transport had failed at byte {at}"));
        }
    }
    s().sample = Some(format!("write failure at byte {at} hit: {hit}; {} complete frames, {missing} accepted message(s) lost", o.msgs.len()));
}

// ---------------------------------------------------------------- C11
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct PressPlan {
    pub tr: u8,
    pub dir: u64,
    pub n: u64,
    pub size: u64,
    pub vary: u64,
    pub stages: Vec<u64>, // in: receive so many, then none for a while
    pub holds: Vec<u64>,  // out: the transport takes so many bytes, then none for a while
    pub threads: u64,
    pub cap: u64,
    pub how: u64,
}
pub const C11_RULE: &str = "each run: one direction is stuck - the application stops receiving after some messages, or the transport stops accepting after some bytes - while the other side offers far more; non-trivial: the stuck direction had more waiting than the bound and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c11(r: &mut Rng, env: &mut Env, _t: u64) -> PressPlan {
    let mut p = PressPlan { tr: tr3(r), dir: r.below(2), how: r.below(4), ..Default::default() };
    if p.dir == 0 {
        p.n = r.range(4, 9);
        p.size = *r.pick(&[40_000, 70_000, 100_000, 20_000]);
        if r.permille(250) {
            p.n = r.range(150, 260);
            p.size = *r.pick(&[500, 1000, 1500]);
        }
        p.vary = r.below(3000);
        for _ in 0..r.range(1, 3) {
            p.stages.push(r.below(3));
        }
        env.icap = *r.pick(&[512, 4096, 65536, 1 << 20, 8 << 20]);
        env.chunk = *r.pick(&[0, 6]);
    } else {
        p.threads = r.range(1, 4);
        p.n = r.range(3, 10);
        p.size = *r.pick(&[0, 10, 300, 1100, 5000, 20_000]);
        p.vary = r.below(200);
        p.cap = *r.pick(&[1, 20, 300, 4096]);
        if p.size > 2000 {
            p.cap = p.cap.max(300);
        }
        let tot = p.n * (p.size + 60);
        for _ in 0..r.range(1, 3) {
            p.holds.push(r.below(tot / 2 + 1));
        }
        p.holds.sort();
    }
    p
}
pub fn run_c11(p: PressPlan) {
    if p.dir == 0 {
        press_in(p)
    } else {
        press_out(p)
    }
}
const READAHEAD: usize = 64 << 10;
fn press_in(p: PressPlan) {
    let n = p.n.min(400) as usize;
    let msgs: Vec<MsgSpec> = (0..n).map(|i| numbered(i, (i % 3) as u8).padded(p.size + (i as u64 * 37) % (p.vary + 1))).collect();
    let cp = ConnPlan { tr: p.tr, inb: items(msgs), hold_conn: true, end: EndPlan { kind: 1, ..Default::default() }, ..Default::default() };
    let (exp, _) = cp.expected();
    let offs = cp.offsets();
    let mut l = start(&cp, 7000);
    let conn = l.conn.clone().unwrap();
    let mut got = 0usize;
    let bound = |got: usize| offs.get(got).copied().unwrap_or(usize::MAX - READAHEAD) + READAHEAD;
    let stuck = |l: &Link, got: usize| {
        settle(50_000_000);
        let rd = s().pipes[l.w.inp].rd;
        if rd > bound(got) {
            let upto = offs.iter().filter(|o| **o <= rd).count();
            violate("queued-without-bound", format!("the application has received {got} messages and takes no more, but the library took {rd} bytes ({upto} whole messages) out of the input; at most {} (one more message and 64 KiB of read-ahead) are allowed", bound(got)));
        }
        if offs.last().copied().unwrap_or(0) > bound(got) {
            nontrivial();
            probe("application_stopped_receiving");
        }
    };
    stuck(&l, got);
    for k in &p.stages {
        for _ in 0..*k {
            if got >= exp.len() {
                break;
            }
            let how = p.how;
            let c = conn.clone();
            match lib(move || match how % 2 {
                0 => c.receiver.recv().ok(),
                _ => c.receiver.recv_timeout(Duration::from_micros(EVENTUALLY)).ok(),
            }) {
                Ok(Some(m)) => {
                    let v = {
                        let _g = Guard::new();
                        view(&m)
                    };
                    let _ = lib(move || drop(m));
                    if v != exp[got] {
                        violate("altered", format!("message #{got}: {} instead of {}", brief(&v), brief(&exp[got])));
                    }
                    got += 1;
                }
                _ => violate("lost", format!("no message although {} were sent and {got} received", exp.len())),
            }
        }
        stuck(&l, got);
    }
    s().sample = Some(format!("{n} messages of about {} bytes offered, {got} received, {} bytes consumed", p.size, s().pipes[l.w.inp].rd));
    let _ = lib(move || drop(conn));
    l.drop_conn();
}
fn press_out(p: PressPlan) {
    let th = p.threads.clamp(1, 6);
    let n = p.n.min(60);
    let send: Vec<SendPlan> = (0..th)
        .map(|t| SendPlan {
            ops: (0..n)
                .filter(|i| i % th == t)
                .map(|i| SendOp {
                    m: numbered(i as usize, (i % 3) as u8).padded(p.size + (i * 37) % (p.vary + 1)),
                    how: if p.how == 3 { *[0u64, 2].get((i % 2) as usize).unwrap() } else { 0 },
                    t: 5_000_000,
                    pause: 0,
                    via: None,
                })
                .collect(),
            ..Default::default()
        })
        .collect();
    let first = p.holds.first().copied().unwrap_or(0);
    let cp = ConnPlan { tr: p.tr, send, hold_conn: true, drain: Drain { mode: 1, chunk: 50_000, cap: p.cap.max(1), hold: Some(first), ..Default::default() }, ..Default::default() };
    let mut cp = cp;
    let total = out_size(&cp.send);
    cp.drain.cap = cp.drain.cap.max(total / 1500);
    // the drain is run here: it takes up to a limit and then nothing
    let hold = cp.drain.hold.take();
    let lim: Sh<usize> = Sh::new(hold.unwrap_or(0) as usize);
    let mut l = open(&ConnPlan { drain: Drain::default(), ..cp.clone() }, 7000);
    s().pipes[l.w.out].discard = false;
    s().pipes[l.w.out].cap = cp.drain.cap as usize;
    let (pp, lim2) = (l.w.out, lim.clone());
    spawn_peer("peer-reader", move || loop {
        let l3 = lim2.clone();
        block(Wait::Cond(Box::new(move || {
            let q = &s().pipes[pp];
            q.buf.len() > q.rd && q.rd < l3.with(|x| *x)
        })), None);
        let q = &mut s().pipes[pp];
        let k = (q.buf.len() - q.rd).min(lim2.with(|x| *x) - q.rd);
        q.rd += k;
        point();
    });
    l.plan = cp.clone();
    l = start_app(l);
    let mut holds = p.holds.clone();
    holds.remove(0.min(holds.len().saturating_sub(1)));
    loop {
        settle(60_000_000);
        let (acc, pend) = l.h.with(|h| (h.sends.iter().filter(|s| s.ok).count(), h.pending.len()));
        let o = match parse_out(l.out()) {
            Ok(o) => o,
            Err((k, m)) => violate(k, m),
        };
        if acc > o.msgs.len() + 1 {
            violate("queued-without-bound", format!("the transport accepts nothing and has {} complete frames, but {acc} messages were accepted from senders ({} sends are blocked)", o.msgs.len(), pend));
        }
        if pend > 0 {
            nontrivial();
            probe("transport_stopped_accepting");
        }
        match holds.is_empty() {
            true => break,
            false => {
                let h = holds.remove(0) as usize;
                lim.with(|x| *x = (*x).max(h));
            }
        }
    }
    let acc = l.h.with(|h| h.sends.iter().filter(|s| s.ok).count());
    lim.with(|x| *x = usize::MAX);
    if !l.wait_senders(EVENTUALLY) {
        violate("send-stuck", format!("the transport accepts again but sends stay blocked; {}", states()));
    }
    must(wait_out(&l, EVENTUALLY));
    must(check_returned(&l));
    s().sample = Some(format!("{acc} of {n} messages of about {} bytes accepted while the transport was stuck", p.size));
    l.drop_conn();
}

// ---------------------------------------------------------------- C12
pub const C12_RULE: &str = "each run: sending threads that mostly use non-blocking, timed and deadline sends against a peer that takes the output irregularly; non-trivial: at least one send was refused and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c12(r: &mut Rng, env: &mut Env, _t: u64) -> ConnPlan {
    let mut p = ConnPlan { tr: tr3(r), ..Default::default() };
    let th = r.range(1, 4);
    p.send = send_plans(r, th, 6, true, true);
    for s in p.send.iter_mut() {
        for o in s.ops.iter_mut() {
            if o.how == 0 && r.permille(600) {
                o.how = r.range(1, 3);
                o.t = *r.pick(&[0, 1, 1000, 100_000, 2_000_000, 2_000_000, u64::MAX - 1, u64::MAX]);
            }
        }
    }
    let size = out_size(&p.send);
    p.drain = drain_plan(r, size);
    if r.permille(600) {
        p.drain.mode = 1;
        p.drain.cap = (*r.pick(&[1u64, 30, 300])).max(size / 1500);
        p.drain.chunk = p.drain.chunk.max(size / 1500).max(1);
        for _ in 0..r.range(1, 4) {
            p.drain.stalls.push((r.below(size + 1), *r.pick(&[1000, 500_000, 4_000_000, 30_000_000])));
        }
    }
    if r.permille(300) {
        p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
    }
    p.recv.push(recv_plan(r));
    env.stall = 0;
    p
}
/// Tolerances beyond the time in which the thread merely had to wait for its turn, in ns: a non-blocking
/// send does not wait at all, a timed send does not return noticeably late.
const WAITED: u64 = 100_000;
const LATE: u64 = 50_000_000;
pub fn run_c12(p: ConnPlan) {
    if p.werr.is_some() || p.drain.hold.is_some() || p.send.is_empty() || matches!(p.end.kind, 2 | 3 | 4) || s().env.stall > 0 {
        return;
    }
    let mut p = p;
    p.hold_conn = true;
    let mut l = start(&p, 7000);
    l.wait_senders(EVENTUALLY);
    must(check_returned(&l));
    let sends = l.h.with(|h| h.sends.clone());
    if let Some(p) = s().panics.iter().find(|p| p.role == "app-send") {
        violate("send-panicked", format!("a send neither delivered nor returned the message, it panicked: {:?} at {}", p.msg, p.loc));
    }
    let stuck = l.h.with(|h| h.pending.clone());
    for (th, ix, at) in stuck {
        let o = &l.plan.send[th].ops[ix];
        if o.how % 4 == 1 || o.how % 4 > 1 && s().now - at > o.t.saturating_mul(1000).saturating_add(LATE) {
            violate("timed-send-stuck", format!("a send with a limit has not returned for {} s", (s().now - at) / 1_000_000_000));
        }
    }
    for r in &sends {
        let o = &l.plan.send[r.th].ops[r.ix];
        let el = r.end - r.start;
        match o.how % 4 {
            1 => {
                if el > r.steps * 1000 + WAITED {
                    violate("try-send-waited", format!("a non-blocking send took {} us, {} of them without being able to run", el / 1000, el / 1000 - r.steps));
                }
            }
            2 | 3 => {
                let t = o.t.saturating_mul(1000);
                let late = t.saturating_add(r.steps * 1000 + LATE);
                if r.err == "timeout" && el < t {
                    violate("timed-out-early", format!("a send limited to {} us gave up after {} us", o.t, el / 1000));
                }
                if r.err == "timeout" && el > late {
                    violate("timed-out-late", format!("a send limited to {} us gave up after {} us", o.t, el / 1000));
                }
                if r.ok && el > late {
                    violate("timed-out-late", format!("a send limited to {} us came back after {} us", o.t, el / 1000));
                }
            }
            _ => {}
        }
        if !r.ok {
            nontrivial();
            probe(match r.err {
                "full" => "refused_full",
                "timeout" => "refused_timeout",
                _ => "refused_disconnected",
            });
            if r.err == "disconnected" {
                violate("refused-without-reason", "a send reports disconnection although the transport works".into());
            }
        }
    }
    must(wait_out(&l, EVENTUALLY));
    settle(40_000_000);
    l.drop_conn();
    settle(100_000_000);
    must(check_out(&l, l.out(), true).map(|_| ()));
    s().sample = Some(format!("{} sends, {} refused", sends.len(), sends.iter().filter(|s| !s.ok).count()));
}

// ---------------------------------------------------------------- C13
pub const C13_RULE: &str = "each run: one direction stalls, ends or fails while the other has traffic; non-trivial: the stall, end or failure happened and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct IndepPlan {
    pub c: ConnPlan,
    pub mode: u64, // 0 output stuck; 1 application not receiving; 2 input over; 3 output failed
}
pub fn gen_c13(r: &mut Rng, env: &mut Env, _t: u64) -> IndepPlan {
    let mode = r.below(4);
    let mut p = ConnPlan { tr: tr3(r), hold_conn: true, ..Default::default() };
    let n = r.range(1, 7);
    let v = distinct_msgs(r, n, true, true);
    p.inb = items(v);
    sleeps(r, &mut p.inb);
    let th = r.range(1, 3);
    p.send = send_plans(r, th, 5, true, true);
    let size = out_size(&p.send);
    match mode {
        0 => {
            p.drain = Drain { mode: 1, chunk: 100, cap: *r.pick(&[1, 50, 500]), hold: Some(r.below(size / 2 + 1)), ..Default::default() };
            p.drain.cap = p.drain.cap.max(size / 1500);
            p.drain.chunk = p.drain.chunk.max(size / 1500);
            for s in p.send.iter_mut() {
                for o in s.ops.iter_mut() {
                    if r.permille(700) {
                        o.how = 0;
                    }
                }
            }
            p.recv.push(recv_plan(r));
            if r.permille(400) {
                p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
            }
        }
        1 => {
            if r.permille(500) {
                p.recv.push(RecvPlan { n: r.range(1, 3), ..recv_plan(r) });
            }
            p.end = EndPlan { kind: *r.pick(&[0, 0, 1]), ..Default::default() };
            p.drain = drain_plan(r, size);
        }
        2 => {
            p.recv.push(recv_plan(r));
            match r.below(3) {
                0 => p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() }),
                1 => p.inb.push(InItem { m: Some(numbered(3, REQ)), dmg: Some(Dmg { kind: r.below(NDMG), v: r.below(100) }), ..Default::default() }),
                _ => {}
            }
            p.end = EndPlan { kind: *r.pick(&[1, 1, 2]), errno: *r.pick(&[libc::EIO, libc::ECONNRESET]), after: r.below(3_000_000) };
            p.drain = drain_plan(r, size);
            for s in p.send.iter_mut() {
                s.after_disc = r.permille(700);
            }
        }
        _ => {
            p.recv.push(recv_plan(r));
            p.werr = Some((r.below(size / 2 + 1), *r.pick(&[libc::EPIPE, libc::EIO, libc::ECONNRESET])));
            p.wsticky = r.permille(700);
            p.drain = drain_plan(r, size);
            if r.permille(400) {
                p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
            }
        }
    }
    stalls(r, env);
    IndepPlan { c: p, mode }
}
pub fn run_c13(ip: IndepPlan) {
    let p = ip.c;
    let (exp, end) = p.expected();
    if matches!(p.end.kind, 3 | 4) {
        return;
    }
    match ip.mode {
        0 | 3 => {
            if p.recv.is_empty() || p.recv.iter().any(|r| r.n > 0) || end == InEnd::Damaged || (ip.mode == 0) != p.drain.hold.is_some() || (ip.mode == 3) != p.werr.is_some() {
                return;
            }
            let mut l = start(&p, 7000);
            l.wait_received(exp.len(), EVENTUALLY);
            let blocked = l.h.with(|h| h.pending.len());
            if let Err((k, m)) = check_in(&l, &exp, true) {
                let hit = s().pipes[l.w.out].werr_hit;
                violate(k, format!("the peer {}; {m}", if ip.mode == 0 { "does not take its output".into() } else { format!("cannot be written to (failure hit: {hit})") }));
            }
            if end == InEnd::Exit || end == InEnd::Clean {
                if !l.wait_receivers(EVENTUALLY) {
                    violate("not-disconnected", format!("the end of the input is not seen while output is stuck or failed; {}", states()));
                }
                must(check_in(&l, &exp, true));
            }
            if ip.mode == 0 && blocked > 0 {
                nontrivial();
                probe("input_while_output_stuck");
            }
            if ip.mode == 3 && s().pipes[l.w.out].werr_hit {
                nontrivial();
                probe("input_after_output_failed");
            }
            if ip.mode == 0 {
                // the peer takes its output again: what was accepted arrives
                l.go.with(|g| *g = true);
                if !l.wait_senders(EVENTUALLY) {
                    violate("send-stuck", format!("the peer takes its output again but sends stay blocked; {}", states()));
                }
                must(wait_out(&l, EVENTUALLY));
            }
            l.drop_conn();
        }
        1 => {
            if p.werr.is_some() || p.drain.hold.is_some() || p.send.is_empty() || p.send.iter().any(|s| s.after_disc) {
                return;
            }
            if p.recv.iter().any(|r| r.n == 0) {
                return;
            }
            let mut l = start(&p, 7000);
            if !l.wait_senders(EVENTUALLY) {
                violate("send-stuck", format!("the application does not receive, and sends stay blocked although the peer takes everything; {}", states()));
            }
            must(wait_out(&l, EVENTUALLY));
            if exp.len() > l.received() {
                nontrivial();
                probe("output_while_not_receiving");
            }
            l.drop_conn();
        }
        _ => {
            if p.recv.is_empty() || p.recv.iter().any(|r| r.n > 0) || p.werr.is_some() || p.drain.hold.is_some() || end == InEnd::Open || p.send.is_empty() {
                return;
            }
            let mut l = start(&p, 7000);
            if !l.wait_receivers(EVENTUALLY) {
                return; // C07/C09
            }
            if !l.wait_senders(EVENTUALLY) {
                violate("send-stuck", format!("after the input ended ({end:?}) sends stay blocked although the peer takes everything; {}", states()));
            }
            let bad = l.h.with(|h| h.sends.iter().filter(|s| s.err == "disconnected").count());
            if bad > 0 {
                violate("send-refused", format!("after the input ended ({end:?}) {bad} send(s) report disconnection although the output works"));
            }
            must(wait_out(&l, EVENTUALLY));
            nontrivial();
            probe("output_after_input_ended");
            l.drop_conn();
        }
    }
    s().sample = Some(format!("mode {} over transport {}", ip.mode, p.tr));
}
