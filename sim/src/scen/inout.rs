//! C01, C02, C03: what goes in comes out, what is sent gets written, nothing is held back.
use super::probe;
use crate::core::*;
use crate::flow::*;
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub const C01_RULE: &str = "each run: a generated sequence of well-formed messages, a way to split/delay/interrupt the byte stream, 1-3 receiving threads, and a schedule, all from one seed; non-trivial: at least one message was sent and the run had at least one decision other than the default; counted by distinct hash of thread switches and I/O results";

pub fn tr3(r: &mut Rng) -> u8 {
    r.below(3) as u8
}
/// Messages that can be told apart.
pub fn distinct_msgs(r: &mut Rng, n: u64, style: bool, big: bool) -> Vec<MsgSpec> {
    let mut v: Vec<MsgSpec> = vec![];
    let mut seen: Vec<Value> = vec![];
    for i in 0..n {
        let mut m = any_msg(r, style, big);
        for _ in 0..4 {
            if !seen.contains(&m.expect()) {
                break;
            }
            m = any_msg(r, style, big);
        }
        if m.k == REQ && r.permille(700) {
            m.id = if r.permille(500) { json!(i) } else { json!(format!("q{i}")) };
        }
        if seen.contains(&m.expect()) {
            m = numbered(1000 + i as usize, m.k);
        }
        seen.push(m.expect());
        v.push(m);
    }
    v
}
pub fn items(v: Vec<MsgSpec>) -> Vec<InItem> {
    v.into_iter().map(|m| InItem { m: Some(m), ..Default::default() }).collect()
}
pub fn n_msgs(r: &mut Rng, tier: u64) -> u64 {
    match r.below(40) {
        0..=12 => r.range(1, 4),
        13..=34 => r.range(2, 14),
        35..=38 => r.range(10, 40),
        _ => {
            if r.permille(60) {
                r.range(250, if tier == 1 { 20_000 } else { 2500 })
            } else {
                r.range(40, if tier == 1 { 1500 } else { 250 })
            }
        }
    }
}
/// Sizes beyond any buffer.
pub fn huge(r: &mut Rng) -> u64 {
    *r.pick(&[1 << 20, 1 << 20, 2 << 20, 4 << 20, 10 << 20, 16 << 20, 33 << 20]) - 150 + r.below(300)
}
/// Some messages come again, unchanged: at once or later.
fn again<T: Clone>(r: &mut Rng, v: &mut Vec<T>) {
    if v.is_empty() || v.len() > 60 {
        return;
    }
    for _ in 0..r.range(1, 4) {
        let k = r.below(v.len() as u64) as usize;
        let x = v[k].clone();
        let at = if r.permille(600) { k + 1 } else { r.range(k as u64 + 1, v.len() as u64) as usize };
        v.insert(at, x);
    }
}
pub fn recv_plan(r: &mut Rng) -> RecvPlan {
    let mut p = RecvPlan { how: r.below(4), ..Default::default() };
    if r.permille(300) {
        p.start = r.below(2_000_000);
    }
    if r.permille(300) {
        for _ in 0..r.range(1, 3) {
            let us = if r.permille(300) { *r.pick(&[6_000_000, 11_000_000, 31_000_000, 70_000_000, 700_000_000]) } else { r.below(3_000_000) };
            p.pauses.push((r.below(8), us));
        }
    }
    p
}
pub fn sleeps(r: &mut Rng, v: &mut [InItem]) {
    if r.permille(400) {
        for i in v.iter_mut() {
            if r.permille(200) {
                i.sleep = *r.pick(&[1, 1000, 50_000, 2_000_000, 40_000_000, 400_000_000, 4_000_000_000]);
            }
        }
    }
}
pub fn gen_c01(r: &mut Rng, env: &mut Env, tier: u64) -> ConnPlan {
    let big = r.permille(4);
    let n = if big { r.range(1, 4) } else { n_msgs(r, tier) };
    let many = n > 60;
    let mut msgs: Vec<MsgSpec> = if many {
        (0..n).map(|i| numbered(i as usize, (i % 3) as u8)).collect()
    } else {
        distinct_msgs(r, n, true, true)
    };
    if big {
        let k = r.below(n) as usize;
        msgs[k] = numbered(500, (r.below(3)) as u8).padded(huge(r));
        msgs[k].padk = r.below(6);
        env.sread = 0;
        env.icap = 65536;
    }
    if r.permille(200) {
        again(r, &mut msgs);
    }
    let mut p = ConnPlan { tr: tr3(r), inb: items(msgs), one: r.permille(300), ..Default::default() };
    if r.permille(50) {
        // a request that is only called like the exit notification
        p.inb.push(InItem { m: Some(MsgSpec::req(json!(77), "build/exit", json!({}))), ..Default::default() });
        p.inb.push(InItem { m: Some(numbered(901, NOTIF)), ..Default::default() });
    }
    sleeps(r, &mut p.inb);
    if r.permille(500) {
        p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
    }
    p.end = EndPlan { kind: *r.pick(&[0, 1, 1]), after: if r.permille(300) { r.below(5_000_000) } else { 0 }, ..Default::default() };
    let nr = *r.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..nr {
        p.recv.push(recv_plan(r));
    }
    p
}
pub fn nontrivial() {
    let sm = s();
    sm.nontrivial = !sm.decs.is_empty();
}
/// Make threads of the code under test stop for a while at I/O calls.
pub fn stalls(r: &mut Rng, env: &mut Env) {
    if r.permille(150) {
        env.stall = *r.pick(&[20, 100]);
        env.stall_us = *r.pick(&[1000, 200_000, 5_000_000]);
    }
}
/// Messages for several sending threads. `how`: allow non-blocking and timed sends.
pub fn send_plans(r: &mut Rng, threads: u64, max: u64, how: bool, big: bool) -> Vec<SendPlan> {
    let mut all = vec![];
    let total: Vec<u64> = (0..threads).map(|_| r.range(1, max)).collect();
    let n: u64 = total.iter().sum();
    let mut msgs = if n > 60 {
        (0..n).map(|i| numbered(i as usize, (i % 3) as u8)).collect()
    } else {
        distinct_msgs(r, n, false, big)
    };
    if r.permille(80) && !msgs.is_empty() {
        // whoever sends may also send exit or shutdown and go on
        let k = r.below(msgs.len() as u64) as usize;
        msgs[k] = if r.permille(500) { MsgSpec::exit() } else { MsgSpec::req(json!("sd"), "build/shutdown", Value::Null) };
    }
    let mut it = msgs.into_iter();
    let pausing = r.permille(400);
    for t in total {
        let mut p = SendPlan { start: if r.permille(400) { r.below(3_000_000) } else { 0 }, ..Default::default() };
        for _ in 0..t {
            let mut o = SendOp { m: it.next().unwrap_or_default(), ..Default::default() };
            if r.permille(400) {
                o.via = Some(r.below(60));
            }
            if how && r.permille(500) {
                o.how = r.range(1, 3);
                o.t = *r.pick(&[0, 1, 20, 1000, 30_000, 1_000_000, 20_000_000, u64::MAX]);
            }
            if pausing && r.permille(300) {
                o.pause = *r.pick(&[1, 100, 50_000, 3_000_000, 60_000_000]);
            }
            p.ops.push(o);
        }
        all.push(p);
    }
    all
}
pub fn out_size(p: &[SendPlan]) -> u64 {
    p.iter().flat_map(|s| s.ops.iter()).map(|o| o.m.pad + o.m.p.to_string().len() as u64 + 120).sum()
}
/// How the peer takes the output: at once, or slowly and in small pieces.
pub fn drain_plan(r: &mut Rng, total: u64) -> Drain {
    let mut d = Drain::default();
    if r.permille(500) {
        d.mode = 1;
        d.chunk = (*r.pick(&[1u64, 3, 17, 200, 4096, 65536])).max(total / 1500);
        d.pace = *r.pick(&[0, 0, 10, 1000]);
        d.cap = (*r.pick(&[1u64, 16, 300, 4096, 65536, 1 << 30])).max(total / 1500);
        if r.permille(400) {
            for _ in 0..r.range(1, 3) {
                d.stalls.push((r.below(total + 1), *r.pick(&[1000, 1_000_000, 45_000_000, 400_000_000])));
            }
        }
    }
    d
}
/// Wait until everything accepted is written completely.
pub fn wait_out(l: &Link, us: u64) -> Check {
    let mut t = 1000u64;
    let mut spent = 0u64;
    loop {
        let last = check_out(l, l.out(), true);
        match last {
            Ok(_) => return Ok(()),
            Err((k @ ("frame-lost" | "frame-torn"), m)) => {
                if spent >= us {
                    return Err((k, m));
                }
            }
            Err(e) => return Err(e),
        }
        sleep_us(t);
        spent += t;
        t *= 4;
    }
}
/// The input's script only, without damage: every message delivered exactly once and in order.
pub fn run_c01(p: ConnPlan) {
    let (exp, end) = p.expected();
    if end == InEnd::Damaged || p.recv.is_empty() || p.recv.iter().any(|r| r.n > 0) {
        return;
    }
    let mut l = start(&p, 7000);
    if !exp.is_empty() {
        nontrivial();
    }
    if !l.wait_received(exp.len(), EVENTUALLY) {
        must(check_in(&l, &exp, true));
    }
    if end != InEnd::Open {
        l.wait_receivers(EVENTUALLY);
        must(check_in(&l, &exp, true));
        probe("input_ended");
    } else {
        // input stays open: nothing more may come
        settle(100_000_000);
        must(check_in(&l, &exp, true));
        probe("input_left_open");
    }
    if p.recv.len() > 1 {
        probe("several_receiving_threads");
    }
    let sm = s();
    sm.sample = Some(format!("{} messages delivered over transport {}", exp.len(), p.tr));
    l.drop_conn();
}

pub const C02_RULE: &str = "each run: 1-4 sending threads with generated messages and all four ways of sending, a peer that takes the output at its own pace, traffic in the other direction, and a schedule; non-trivial: at least one frame was written and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
/// A session of its own, or the workload of another property with only the written bytes being checked.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct OutPlan {
    pub of: String,
    pub x: Value,
    pub own: Option<ConnPlan>,
}
const OUT_OF: &[&str] = &["C04", "C04", "C05", "C06", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C19", "C20"];
pub fn gen_c02_any(r: &mut Rng, env: &mut Env, tier: u64) -> OutPlan {
    if r.permille(200) {
        let of = *r.pick(OUT_OF);
        let seed = r.next();
        return OutPlan { of: of.into(), x: super::gen(of, r, env, tier, seed), own: None };
    }
    OutPlan { own: Some(gen_c02(r, env, tier)), ..Default::default() }
}
pub fn run_c02_any(p: OutPlan) {
    if let Some(p) = p.own {
        return run_c02(p);
    }
    if !OUT_OF.contains(&&p.of[..]) {
        return;
    }
    s().frames_only = true;
    probe(&format!("workload_of_{}", p.of));
    super::run(&p.of, p.x);
    settle(1_000_000);
    only_frames();
}
pub fn gen_c02(r: &mut Rng, env: &mut Env, tier: u64) -> ConnPlan {
    let th = *r.pick(&[1, 1, 2, 2, 3, 4]);
    let max = if r.permille(20) { if tier == 1 { 300 } else { 60 } } else { r.range(1, 8) };
    let mut p = ConnPlan { tr: tr3(r), ..Default::default() };
    let max = if r.permille(2) { 2000 } else { max };
    p.send = send_plans(r, th, max, true, true);
    if r.permille(4) {
        let o = p.send.iter_mut().map(|s| &mut s.ops).next().unwrap();
        let k = r.below(o.len() as u64) as usize;
        o[k].m = numbered(5000, r.below(3) as u8).padded(huge(r));
        o[k].m.padk = r.below(6);
        env.swrite = 0;
    }
    if r.permille(200) {
        for s in p.send.iter_mut() {
            again(r, &mut s.ops);
        }
    }
    p.drain = drain_plan(r, out_size(&p.send));
    if r.permille(500) {
        let n = r.range(1, 5);
        p.inb = items(distinct_msgs(r, n, true, false));
        sleeps(r, &mut p.inb);
        if r.permille(300) {
            p.inb.push(InItem { m: Some(numbered(5, NOTIF)), dmg: Some(Dmg { kind: r.below(NDMG), v: r.below(100) }), ..Default::default() });
        }
    }
    if r.permille(300) {
        p.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
    }
    p.end = EndPlan { kind: *r.pick(&[0, 0, 1, 2]), errno: libc::EIO, after: r.below(2_000_000) };
    p.recv.push(recv_plan(r));
    p.hold_conn = r.permille(500);
    p.join = r.permille(300);
    stalls(r, env);
    p
}
pub fn run_c02(p: ConnPlan) {
    if p.werr.is_some() || p.drain.hold.is_some() || matches!(p.end.kind, 3 | 4) || p.send.is_empty() {
        return;
    }
    let mut l = start(&p, 7000);
    l.wait_senders(EVENTUALLY);
    if p.hold_conn {
        must(wait_out(&l, EVENTUALLY));
        l.drop_conn();
        settle(1_000_000);
    }
    must(wait_out(&l, EVENTUALLY));
    settle(100_000_000);
    must(check_out(&l, l.out(), true).map(|_| ()));
    if p.join {
        // ending everything in order writes nothing more
        l.drop_conn();
        peer_script(l.w, vec![Act::Close]);
        if let Some(io) = l.io.take() {
            let done: Sh<bool> = Sh::new(false);
            let d = done.clone();
            spawn_app("app-join", move || {
                let _ = io.join();
                d.with(|d| *d = true);
            });
            if wait_for(EVENTUALLY, move || done.with(|d| *d)) {
                probe("joined");
            }
            must(check_out(&l, l.out(), true).map(|_| ()));
        }
    }
    let n = l.h.with(|h| h.sends.iter().filter(|s| s.ok).count());
    if n > 0 {
        nontrivial();
    }
    if l.h.with(|h| h.sends.iter().any(|s| !s.ok)) {
        probe("some_sends_refused");
    }
    if p.send.len() > 1 {
        probe("several_sending_threads");
    }
    s().sample = Some(format!("{n} messages written as {} bytes over transport {}", l.out().len(), p.tr));
}

// ---------------------------------------------------------------- C03
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Round {
    pub dir: u64, // 0 in, 1 out
    pub m: Vec<MsgSpec>,
    pub tail: u64, // in: that many bytes of a further frame arrive together with the message(s)
    pub how: u64,
    pub pause: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct C03Plan {
    pub tr: u8,
    pub rounds: Vec<Round>,
    pub recv: RecvPlan,
    pub drain: Drain,
    pub last: u64, // how the input goes on at the very end: 0 silent, 1 partial frame
}
pub const C03_RULE: &str = "each run: rounds in which the peer sends some bytes or the application sends some messages, and nothing else happens until exactly what must become visible is visible; non-trivial: at least one round and one decision other than the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c03(r: &mut Rng, env: &mut Env, _tier: u64) -> C03Plan {
    let mut p = C03Plan { tr: tr3(r), recv: recv_plan(r), last: r.below(2), ..Default::default() };
    let mut size = 0;
    let n = r.range(1, 8);
    let all = distinct_msgs(r, n * 3, true, true);
    let mut it = all.into_iter();
    for _ in 0..n {
        let mut d = Round { dir: r.below(2), how: r.below(4), pause: if r.permille(300) { r.below(5_000_000) } else { 0 }, ..Default::default() };
        for _ in 0..*r.pick(&[1, 1, 2, 3]) {
            let mut m = it.next().unwrap();
            m.pad = m.pad.min(70_000);
            if d.dir == 1 {
                m.style = 0;
                size += m.pad + 300;
            }
            d.m.push(m);
        }
        d.tail = if r.permille(400) { r.range(1, 90) } else { 0 };
        p.rounds.push(d);
    }
    p.drain = drain_plan(r, size);
    stalls(r, env);
    p
}
pub fn run_c03(p: C03Plan) {
    let cp = ConnPlan { tr: p.tr, recv: vec![RecvPlan { n: 0, ..p.recv.clone() }], drain: Drain { hold: None, ..p.drain.clone() }, hold_conn: true, ..Default::default() };
    let mut l = start(&cp, 7000);
    let mut exp: Vec<Value> = vec![];
    let mut carry: Vec<u8> = vec![]; // rest of a frame whose first bytes were sent already
    let mut carried: Option<MsgSpec> = None;
    let mut written: Vec<Value> = vec![];
    if !p.rounds.is_empty() {
        nontrivial();
    }
    for (k, rd) in p.rounds.iter().enumerate() {
        if rd.pause > 0 {
            sleep_us(rd.pause);
        }
        if rd.dir == 0 {
            let mut b = std::mem::take(&mut carry);
            if let Some(m) = carried.take() {
                exp.push(m.expect());
            }
            for m in &rd.m {
                if m.is_exit() {
                    return;
                }
                b.extend_from_slice(&m.wire());
                exp.push(m.expect());
            }
            if rd.tail > 0 {
                let m = numbered(100_000 + k, REQ);
                let w = m.wire();
                let t = (rd.tail as usize).min(w.len() - 1);
                b.extend_from_slice(&w[..t]);
                carry = w[t..].to_vec();
                carried = Some(m);
                probe("next_frame_begun");
            }
            peer_bytes(l.w.inp, &b);
            if !l.wait_received(exp.len(), EVENTUALLY) {
                must(check_in(&l, &exp, false));
                violate("held-back-in", format!("round {k}: {} of {} messages are available although every byte of them has arrived; {}", l.received(), exp.len(), states()));
            }
            must(check_in(&l, &exp, false));
            probe("input_rounds");
        } else {
            let cnt: Sh<(usize, Vec<Value>, usize)> = Sh::new((0, vec![], 0));
            let n = rd.m.len();
            for m in &rd.m {
                let (c, cnt, m, how) = (l.conn.clone().unwrap(), cnt.clone(), m.clone(), rd.how);
                spawn_app("app-send", move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let Some(x) = build(&m) else { return None };
                        match how % 4 {
                            1 => c.try_send(x).ok(),
                            2 => c.send_timeout(x, std::time::Duration::from_secs(1)).ok(),
                            _ => c.send(x).ok(),
                        }
                    }));
                    drop(c);
                    cnt.with(|q| {
                        q.0 += 1;
                        match r {
                            Ok(Some(())) => q.1.push(m.expect()),
                            _ => q.2 += 1,
                        }
                    });
                });
            }
            let c2 = cnt.clone();
            if !wait_for(EVENTUALLY, move || c2.with(|q| q.0) >= n) {
                violate("send-stuck", format!("round {k}: {} of {n} sends returned although the peer takes everything; {}", cnt.with(|q| q.0), states()));
            }
            written.extend(cnt.with(|q| q.1.clone()));
            // nothing else happens: every byte of the accepted messages must reach the transport
            let mut t = 1000u64;
            let mut spent = 0;
            loop {
                let o = match parse_out(l.out()) {
                    Ok(o) => o,
                    Err((k, m)) => violate(k, m),
                };
                if o.msgs.len() >= written.len() && o.rest == l.out().len() {
                    for w in &written {
                        if !o.msgs.contains(w) {
                            violate("frame-altered", format!("round {k}: {} was accepted but other frames are on the transport", crate::frames::brief(w)));
                        }
                    }
                    break;
                }
                if spent > EVENTUALLY {
                    violate("held-back-out", format!("round {k}: {} of {} accepted messages are completely on the transport ({} bytes of an incomplete frame) although the peer takes everything; {}", o.msgs.len(), written.len(), l.out().len() - o.rest, states()));
                }
                sleep_us(t);
                spent += t;
                t *= 4;
            }
            probe("output_rounds");
        }
    }
    if p.last == 1 {
        peer_bytes(l.w.inp, &carry[..carry.len() / 2]);
        settle(10_000_000);
        must(check_in(&l, &exp, true));
    }
    s().sample = Some(format!("{} rounds over transport {}", p.rounds.len(), p.tr));
    l.drop_conn();
}
