//! C14, C15, C17: several connections in one process, in-memory pairs, whole sessions.
use super::inout::*;
use super::probe;
use crate::core::*;
use crate::flow::*;
use crate::frames::{self, brief};
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use bsp_server::{Connection, IoThreads, Message, Notification, Request, Response};
use crossbeam_channel::{Receiver, Sender};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------- in-memory pairs (C15)
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct MemSide {
    pub whole: bool, // threads share the connection (else: its sender or its receiver)
    pub recv: Vec<RecvPlan>,
    pub send: Vec<SendPlan>,
    pub hold: u64, // the receiver (the whole connection) is kept that long in any case, us
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct MemPlan {
    pub a: MemSide,
    pub b: MemSide,
}
#[derive(Clone, Debug)]
struct MSend {
    th: usize,
    ix: usize,
    s0: u64, // sequence numbers
    s1: u64,
    t0: u64,
    t1: u64,
    err: &'static str,
    ret: Option<Value>,
}
#[derive(Default)]
struct SideHist {
    sends: Vec<MSend>,
    pending: Vec<(usize, usize, u64, u64)>,
    rx: Vec<Rx>,
    disc: Vec<(usize, u64)>, // (thread, seq)
    tx_refs: usize,
    rx_refs: usize,
    tx_left: usize,
    rx_left: usize,
    tx_gone: Option<u64>,  // seq just before the last sender goes
    rx_going: Option<u64>, // seq just before the last receiver goes
    rx_gone: Option<u64>,  // seq just after
}
#[derive(Default)]
pub struct MemHist {
    seq: u64,
    side: [SideHist; 2],
    threads: usize,
    done: usize,
}
impl MemHist {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
}
/// What a thread holds on to.
enum Hold {
    Whole(Arc<Connection>),
    Tx(Sender<Message>),
    Rx(Receiver<Message>),
}
impl Hold {
    fn kinds(&self) -> (bool, bool) {
        match self {
            Hold::Whole(_) => (true, true),
            Hold::Tx(_) => (true, false),
            Hold::Rx(_) => (false, true),
        }
    }
    fn clone(&self) -> Hold {
        match self {
            Hold::Whole(c) => Hold::Whole(c.clone()),
            Hold::Tx(c) => Hold::Tx(c.clone()),
            Hold::Rx(c) => Hold::Rx(c.clone()),
        }
    }
    fn let_go(self, d: usize, h: &Sh<MemHist>) {
        let (t, r) = self.kinds();
        h.with(|h| {
            let q = h.tick();
            let x = &mut h.side[d];
            if t {
                x.tx_refs -= 1;
                if x.tx_refs == 0 {
                    x.tx_gone = Some(q);
                }
            }
            if r {
                x.rx_refs -= 1;
                if x.rx_refs == 0 {
                    x.rx_going = Some(q);
                }
            }
        });
        drop(self);
        h.with(|h| {
            let q = h.tick();
            let x = &mut h.side[d];
            if t {
                x.tx_left -= 1;
            }
            if r {
                x.rx_left -= 1;
                if x.rx_left == 0 {
                    x.rx_gone = Some(q);
                }
            }
        });
    }
}
fn mem_recv(rx: &Receiver<Message>, p: &RecvPlan, th: usize, d: usize, h: &Sh<MemHist>) {
    if p.start > 0 {
        sleep_us(p.start);
    }
    let mut n = 0u64;
    let mut idle = 1000u64;
    loop {
        if p.n > 0 && n >= p.n {
            break;
        }
        for &(k, us) in &p.pauses {
            if k == n && us > 0 {
                s().stat("fault:app_not_receiving");
                sleep_us(us);
            }
        }
        use crossbeam_channel::{RecvTimeoutError, TryRecvError};
        let from = h.with(|h| h.tick());
        let r = match p.how % 4 {
            1 => match rx.try_recv() {
                Ok(m) => Some(m),
                Err(TryRecvError::Empty) => {
                    sleep_us(idle);
                    idle = (idle * 2).min(100_000_000);
                    continue;
                }
                Err(TryRecvError::Disconnected) => None,
            },
            2 => match rx.recv_timeout(Duration::from_micros(idle)) {
                Ok(m) => Some(m),
                Err(RecvTimeoutError::Timeout) => {
                    idle = (idle * 2).min(100_000_000);
                    continue;
                }
                Err(RecvTimeoutError::Disconnected) => None,
            },
            3 => rx.iter().next(),
            _ => rx.recv().ok(),
        };
        match r {
            Some(m) => {
                idle = 1000;
                n += 1;
                h.with(|h| {
                    let v = view(&m);
                    let to = h.tick();
                    s().ev("recv", d as u64, n);
                    h.side[d].rx.push(Rx { th, at: s().now, v, from, to });
                });
                drop(m);
            }
            None => {
                h.with(|h| {
                    let q = h.tick();
                    h.side[d].disc.push((th, q));
                    s().ev("disconnected", d as u64, n);
                });
                break;
            }
        }
    }
}
fn mem_send(tx: &Hold, p: &SendPlan, th: usize, d: usize, h: &Sh<MemHist>) {
    use crossbeam_channel::{SendTimeoutError, TrySendError};
    if p.start > 0 {
        sleep_us(p.start);
    }
    for (ix, o) in p.ops.iter().enumerate() {
        if o.pause > 0 {
            sleep_us(o.pause);
        }
        let Some(m) = o.via.and_then(|v| build_via(&o.m, v)).or_else(|| build(&o.m)) else { continue };
        let (s0, t0) = h.with(|h| {
            let q = h.tick();
            h.side[d].pending.push((th, ix, q, s().now));
            (q, s().now)
        });
        s().ev("send>", d as u64, ix as u64);
        let t = limit(o.t);
        let fold_t = |r: Result<(), TrySendError<Message>>| match r {
            Ok(()) => ("", None),
            Err(TrySendError::Full(m)) => ("full", Some(m)),
            Err(TrySendError::Disconnected(m)) => ("disconnected", Some(m)),
        };
        let fold_d = |r: Result<(), SendTimeoutError<Message>>| match r {
            Ok(()) => ("", None),
            Err(SendTimeoutError::Timeout(m)) => ("timeout", Some(m)),
            Err(SendTimeoutError::Disconnected(m)) => ("disconnected", Some(m)),
        };
        let fold_s = |r: Result<(), crossbeam_channel::SendError<Message>>| match r {
            Ok(()) => ("", None),
            Err(e) => ("disconnected", Some(e.0)),
        };
        let (err, ret): (&'static str, Option<Message>) = match (tx, o.how % 4) {
            (Hold::Whole(c), 1) => fold_t(c.try_send(m)),
            (Hold::Whole(c), 2) => fold_d(c.send_timeout(m, t)),
            (Hold::Whole(c), 3) => fold_d(c.send_deadline(m, deadline(o.t))),
            (Hold::Whole(c), _) => fold_s(c.send(m)),
            (Hold::Tx(c), 1) => fold_t(c.try_send(m)),
            (Hold::Tx(c), 2) => fold_d(c.send_timeout(m, t)),
            (Hold::Tx(c), 3) => fold_d(c.send_deadline(m, deadline(o.t))),
            (Hold::Tx(c), _) => fold_s(c.send(m)),
            _ => ("", None),
        };
        h.with(|h| {
            let q = h.tick();
            let x = &mut h.side[d];
            x.pending.retain(|x| !(x.0 == th && x.1 == ix));
            x.sends.push(MSend { th, ix, s0, s1: q, t0, t1: s().now, err, ret: ret.as_ref().map(view) });
        });
        s().ev("send<", d as u64, ret.is_none() as u64);
        drop(ret);
    }
}
pub fn start_mem(p: &MemPlan) -> Sh<MemHist> {
    let (a, b) = match lib(Connection::memory) {
        Ok(x) => x,
        Err(e) => violate("memory", format!("memory() panicked: {e}")),
    };
    let h: Sh<MemHist> = Sh::new(MemHist::default());
    let mut starts: Vec<(usize, Hold, u64, Option<RecvPlan>, Option<SendPlan>, usize)> = vec![];
    for (d, (c, sp)) in [(a, &p.a), (b, &p.b)].into_iter().enumerate() {
        let whole = sp.whole && !(d == 1 && p.a.whole);
        let Connection { sender, receiver } = c;
        let (t, r) = if whole {
            let x = Arc::new(Connection { sender, receiver });
            (Hold::Whole(x.clone()), Hold::Whole(x))
        } else {
            (Hold::Tx(sender), Hold::Rx(receiver))
        };
        for (th, q) in sp.recv.iter().enumerate() {
            starts.push((d, r.clone(), 0, Some(q.clone()), None, th));
        }
        for (th, q) in sp.send.iter().enumerate() {
            starts.push((d, t.clone(), 0, None, Some(q.clone()), th));
        }
        starts.push((d, r, sp.hold, None, None, 0));
        drop(t);
    }
    h.with(|h| {
        for x in &starts {
            let (t, r) = x.1.kinds();
            let y = &mut h.side[x.0];
            y.tx_refs += t as usize;
            y.tx_left += t as usize;
            y.rx_refs += r as usize;
            y.rx_left += r as usize;
        }
        for y in h.side.iter_mut() {
            if y.tx_refs == 0 {
                y.tx_gone = Some(0);
            }
        }
        h.threads = starts.len();
    });
    for (d, hold, us, rp, sp, th) in starts {
        let h2 = h.clone();
        spawn_app(if rp.is_some() { "app-recv" } else if sp.is_some() { "app-send" } else { "app-hold" }, move || {
            let h3 = h2.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                if us > 0 {
                    sleep_us(us);
                }
                if let Some(p) = rp {
                    match &hold {
                        Hold::Whole(c) => mem_recv(&c.receiver, &p, th, d, &h2),
                        Hold::Rx(r) => mem_recv(r, &p, th, d, &h2),
                        _ => {}
                    }
                }
                if let Some(p) = sp {
                    mem_send(&hold, &p, th, d, &h2);
                }
                hold.let_go(d, &h2);
            }));
            if r.is_err() {
                violate("panicked", format!("using an in-memory connection panicked: {}", last_panic()));
            }
            h3.with(|h| h.done += 1);
        });
    }
    h
}
pub fn mem_done(h: &Sh<MemHist>) -> bool {
    h.with(|h| h.done >= h.threads)
}
/// All threads are done: was everything delivered as it should?
pub fn check_mem(p: &MemPlan, h: &Sh<MemHist>) -> Check {
    h.with(|h| {
        for d in 0..2 {
            let sp = if d == 0 { &p.a } else { &p.b };
            let op = if d == 0 { &p.b } else { &p.a };
            let (from, to) = (&h.side[d], &h.side[1 - d]);
            let spec = |th: usize, ix: usize| sp.send[th].ops[ix].m.expect();
            for r in &from.sends {
                let m = spec(r.th, r.ix);
                if !r.err.is_empty() && r.ret.as_ref() != Some(&m) {
                    return Err(("returned-altered", format!("a refused send returned {:?} instead of {}", r.ret.as_ref().map(brief), brief(&m))));
                }
                let op = &sp.send[r.th].ops[r.ix];
                if op.how % 4 == 0 && r.t1 - r.t0 > 10_000_000_000 {
                    return Err(("send-waited", format!("a plain send on an in-memory connection took {} ms: {}", (r.t1 - r.t0) / 1_000_000, brief(&m))));
                }
                let before = to.rx_going.map_or(true, |g| r.s1 < g);
                let after = to.rx_gone.map_or(false, |g| r.s0 > g);
                if before && r.err == "disconnected" {
                    return Err(("refused", format!("a send failed although the other end was not dropped: {}", brief(&m))));
                }
                if after && r.err.is_empty() {
                    return Err(("accepted-after-drop", format!("a send succeeded although the other end had been dropped: {}", brief(&m))));
                }
            }
            // delivery
            let ok: Vec<&MSend> = from.sends.iter().filter(|r| r.err.is_empty()).collect();
            let vals: Vec<Value> = ok.iter().map(|r| spec(r.th, r.ix)).collect();
            let dups = (0..vals.len()).any(|i| vals[..i].contains(&vals[i]));
            let mut used = vec![false; ok.len()];
            let mut last: std::collections::BTreeMap<(usize, usize), usize> = Default::default();
            let mut seen = vec![];
            for x in &to.rx {
                let Some(k) = (0..ok.len()).filter(|&k| !used[k] && vals[k] == x.v).min_by_key(|&k| ok[k].ix) else {
                    let c = if vals.contains(&x.v) { "duplicate" } else { "altered" };
                    return Err((c, format!("an in-memory connection delivered {} which was not sent (again)", brief(&x.v))));
                };
                used[k] = true;
                seen.push(((ok[k].s0, ok[k].s1), (x.from, x.to)));
                if !dups {
                    let e = last.entry((x.th, ok[k].th)).or_insert(0);
                    if ok[k].ix < *e {
                        return Err(("order", format!("{} was delivered after a later message of the same sender", brief(&x.v))));
                    }
                    *e = ok[k].ix;
                }
            }
            if !dups {
                if let Some((a, b)) = overtaken(&seen) {
                    return Err(("order", format!("{} was received before {}, whose send had returned before the other's began", brief(&to.rx[b].v), brief(&to.rx[a].v))));
                }
                // what was taken is a prefix of each sender's messages
                for k in 0..ok.len() {
                    if used[k] && (0..ok.len()).any(|j| !used[j] && ok[j].th == ok[k].th && ok[j].ix < ok[k].ix) {
                        return Err(("lost", format!("a message sent before {} was lost", brief(&vals[k]))));
                    }
                }
            }
            let all = !op.recv.is_empty() && op.recv.iter().any(|r| r.n == 0);
            if all && used.iter().any(|u| !u) {
                let k = used.iter().position(|u| !u).unwrap();
                return Err(("lost", format!("{} of {} messages sent on an in-memory connection were never delivered, e.g. {}", used.iter().filter(|u| !**u).count(), ok.len(), brief(&vals[k]))));
            }
            for x in &to.disc {
                if from.tx_gone.map_or(true, |g| x.1 < g) {
                    return Err(("disconnected-early", "an in-memory receiver reported disconnection although the other end still had a sender".into()));
                }
            }
        }
        Ok(())
    })
}
pub fn mem_plan(r: &mut Rng, base: usize) -> MemPlan {
    let mut p = MemPlan::default();
    let mut k = 0;
    for d in 0..2 {
        let mut x = MemSide { whole: r.permille(400), ..Default::default() };
        let th = r.below(4);
        if th > 0 {
            let max = if r.permille(50) { 200 } else { r.range(1, 8) };
            x.send = send_plans(r, th, max, true, true);
            for sp in x.send.iter_mut() {
                sp.start = *r.pick(&[0, 0, 0, 1000, 50_000, 300_000_000]);
                for o in sp.ops.iter_mut() {
                    k += 1;
                    if r.permille(300) {
                        o.m = numbered(base + k, r.below(3) as u8);
                    }
                    if r.permille(50) {
                        o.pause = 250_000_000;
                    }
                }
            }
        }
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
            let mut q = recv_plan(r);
            q.start = *r.pick(&[0, 0, 1000, 200_000_000]);
            if r.permille(200) {
                q.pauses.push((r.below(4), 200_000_000));
            }
            if r.permille(300) {
                q.n = r.range(1, 6);
            }
            x.recv.push(q);
        }
        x.hold = *r.pick(&[0, 0, 1000, 60_000, 500_000_000]);
        if d == 0 {
            p.a = x;
        } else {
            p.b = x;
        }
    }
    p
}
pub const C15_RULE: &str = "each run: an in-memory pair with up to three sending and three receiving threads at each end, all ways of sending, late, slow or missing receivers, ends dropped at any time, and a schedule; non-trivial: a message was sent and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c15(r: &mut Rng, _env: &mut Env, _t: u64) -> MemPlan {
    mem_plan(r, 0)
}
pub fn run_c15(p: MemPlan) {
    let h = start_mem(&p);
    let h2 = h.clone();
    if !wait_for(EVENTUALLY, move || mem_done(&h2)) {
        must(check_mem(&p, &h));
        violate("stuck", format!("using an in-memory pair does not end; {}", states()));
    }
    must(check_mem(&p, &h));
    h.with(|h| {
        let n: usize = h.side.iter().map(|x| x.sends.len()).sum();
        if n > 0 {
            nontrivial();
        }
        if h.side.iter().any(|x| x.sends.iter().any(|r| r.err == "disconnected")) {
            probe("sends_after_drop");
        }
        if h.side.iter().any(|x| !x.disc.is_empty()) {
            probe("disconnected");
        }
        if h.side.iter().any(|x| x.rx_refs == 0 && x.rx.is_empty()) {
            probe("nobody_received");
        }
        s().sample = Some(format!("{n} sends, {} and {} messages received", h.side[0].rx.len(), h.side[1].rx.len()));
    });
}

// ---------------------------------------------------------------- C14
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct MultiPlan {
    pub c: Vec<ConnPlan>,
    pub mem: Option<MemPlan>,
    pub late: Vec<u64>, // us before the peers and threads of each connection start
    pub hands: Vec<super::hand::HCase>, // instead of all that: handshakes and shutdowns side by side
}
pub const C14_RULE: &str = "each run: two to four connections (at most one stdio, TCP either way, possibly an in-memory pair) with traffic in both directions, some of them damaged, failing, reset, stuck or not received from, or handshakes and shutdowns side by side, some of which never end, and a schedule; non-trivial: at least two connections and one decision other than the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c14(r: &mut Rng, env: &mut Env, _t: u64) -> MultiPlan {
    let mut p = MultiPlan::default();
    if r.permille(150) {
        p.hands = super::hand::gen_hands(r, env);
        return p;
    }
    let n = r.range(2, 4);
    let std = r.below(n + 1);
    for i in 0..n {
        let mut c = ConnPlan { tr: if i == std { STDIO } else { r.range(1, 2) as u8 }, one: r.permille(300), ..Default::default() };
        let k = r.range(1, 6);
        let mut v = if r.permille(500) { distinct_msgs(r, k, true, false) } else { vec![] };
        for j in v.len() as u64..k {
            v.push(numbered((i * 1000 + j) as usize, r.below(3) as u8));
        }
        c.inb = items(v);
        sleeps(r, &mut c.inb);
        let th = r.range(1, 2);
        c.send = send_plans(r, th, 4, true, r.clone().permille(200));
        c.drain = drain_plan(r, out_size(&c.send));
        c.recv.push(recv_plan(r));
        match r.below(12) {
            0..=4 => {
                if r.permille(500) {
                    c.inb.push(InItem { m: Some(MsgSpec::exit()), ..Default::default() });
                }
                c.end = EndPlan { kind: r.below(2), after: r.below(3_000_000), ..Default::default() };
            }
            5 => c.drain = Drain { mode: 1, chunk: 20, cap: r.range(1, 60), hold: Some(r.below(80)), ..Default::default() },
            6 => c.inb.push(InItem { m: Some(numbered(3, REQ)), dmg: Some(Dmg { kind: r.below(NDMG), v: r.below(100) }), ..Default::default() }),
            7 | 8 => c.end = EndPlan { kind: r.range(2, 4), errno: libc::EIO, after: r.below(3_000_000) },
            9 => {
                c.werr = Some((r.below(300), *r.pick(&[libc::EIO, libc::EPIPE, libc::ENOSPC])));
                c.wsticky = true;
            }
            10 => {
                c.recv[0].n = r.range(1, 2);
                c.hold_conn = true;
            }
            _ => {
                // a partial frame, and then nothing
                c.inb.push(InItem { m: Some(numbered(5, REQ)), cut: Some(r.range(1, 30)), ..Default::default() });
            }
        }
        if r.permille(500) {
            c.hold_conn = true;
        }
        p.c.push(c);
        p.late.push(if r.permille(300) { r.below(3_000_000) } else { 0 });
    }
    if r.permille(300) {
        p.mem = Some(mem_plan(r, 50_000));
    }
    stalls(r, env);
    if r.permille(200) {
        burst(r, env, &mut p);
    }
    p
}
/// All connections get the same kind of messages at the very same time.
fn burst(r: &mut Rng, env: &mut Env, p: &mut MultiPlan) {
    let k = r.range(2, 8);
    let kinds: Vec<u8> = (0..k).map(|_| r.below(3) as u8).collect();
    let same = r.permille(500);
    for (i, c) in p.c.iter_mut().enumerate() {
        c.one = true;
        c.inb = items((0..k).map(|j| {
            let mut m = numbered((i as u64 * 1000 + j) as usize, if same { kinds[0] % 2 } else { kinds[j as usize] });
            if m.k != RESP {
                m.m = format!("x/c{i}{}", if same { String::new() } else { format!("n{}", j % 3) });
            }
            m
        }).collect());
        c.recv = vec![RecvPlan::default()];
        c.end = EndPlan { kind: 1, ..Default::default() };
    }
    p.late.clear();
    env.lat = 0;
    env.stall = 0;
    env.step_p = *r.pick(&[100, 400, 800]);
    env.step_sync = r.permille(700);
    env.step_max = if env.step_sync { *r.pick(&[5, 15, 40]) } else { *r.pick(&[100, 300, 1000]) };
}
fn out_healthy(p: &ConnPlan) -> bool {
    p.werr.is_none() && p.drain.hold.is_none() && !matches!(p.end.kind, 3 | 4)
}
pub fn run_c14(p: MultiPlan) {
    if !p.hands.is_empty() {
        return super::hand::run_hands(p.hands);
    }
    let mut std = 0;
    if p.c.is_empty() || p.c.len() > 6 {
        return;
    }
    for c in &p.c {
        std += (c.tr == STDIO) as usize;
        if c.recv.is_empty() || c.send.iter().any(|x| x.after_disc) {
            return;
        }
    }
    if std > 1 {
        return;
    }
    let mh = p.mem.as_ref().map(start_mem);
    let mut ls: Vec<Link> = vec![];
    for (i, c) in p.c.iter().enumerate() {
        ls.push(open(c, 7000 + i as u16));
    }
    let mut order: Vec<(u64, usize)> = (0..ls.len()).map(|i| (p.late.get(i).copied().unwrap_or(0), i)).collect();
    order.sort();
    let mut run: Vec<(usize, Link)> = vec![];
    let mut slots: Vec<Option<Link>> = ls.into_iter().map(Some).collect();
    let mut t = 0;
    for (at, i) in order {
        if at > t {
            sleep_us(at - t);
            t = at;
        }
        let l = slots[i].take().unwrap();
        start_peer(&l);
        run.push((i, start_app(l)));
    }
    run.sort_by_key(|x| x.0);
    nontrivial();
    let mut healthy = 0;
    for (i, l) in run.iter_mut() {
        let (exp, end) = l.plan.expected();
        let who = |(k, m): (&'static str, String)| (k, format!("connection {i} (transport {}): {m}", l.plan.tr));
        let in_ok = end != InEnd::Damaged && !matches!(l.plan.end.kind, 3 | 4) && l.plan.recv.iter().all(|r| r.n == 0);
        if in_ok {
            healthy += 1;
            if !l.wait_received(exp.len(), EVENTUALLY) {
                must(check_in(l, &exp, true).map_err(who));
            }
            if end != InEnd::Open {
                l.wait_receivers(EVENTUALLY);
                if !l.receivers_done() {
                    violate("not-disconnected", format!("connection {i}: its input ended, but its receiver does not report it; {}", states()));
                }
            }
            must(check_in(l, &exp, true).map_err(who));
            if end == InEnd::Open && l.h.with(|h| !h.disc.is_empty()) {
                violate("ended-early", format!("connection {i}: the receiver reports disconnection although its input is open; {}", states()));
            }
        }
        if out_healthy(&l.plan) {
            healthy += 1;
            if !l.wait_senders(EVENTUALLY) {
                violate("send-stuck", format!("connection {i}: sends do not return although its peer takes everything; {}", states()));
            }
            if let Err(e) = wait_out(l, EVENTUALLY) {
                must(Err(who(e)));
            }
            if let Some(x) = l.h.with(|h| h.sends.iter().find(|x| !x.ok && x.err == "disconnected").cloned()) {
                violate("refused", format!("connection {i}: a send failed although its own output works: {}", brief(x.ret.as_ref().unwrap_or(&Value::Null))));
            }
        }
        if !in_ok {
            must(check_in(l, &exp, false).map_err(who));
        }
        must(check_returned(l).map_err(who));
    }
    if let (Some(h), Some(m)) = (&mh, &p.mem) {
        let h2 = h.clone();
        if !wait_for(EVENTUALLY, move || mem_done(&h2)) {
            violate("stuck", format!("the in-memory pair does not end; {}", states()));
        }
        must(check_mem(m, h));
        probe("with_memory_pair");
    }
    settle(100_000_000);
    for (i, l) in run.iter() {
        let (exp, _) = l.plan.expected();
        let who = |(k, m): (&'static str, String)| (k, format!("connection {i} (transport {}): {m}", l.plan.tr));
        must(check_in(l, &exp, false).map_err(who));
        must(check_out(l, l.out(), false).map(|_| ()).map_err(who));
    }
    if healthy < 2 * run.len() {
        probe("some_direction_failing_or_stuck");
    }
    s().sample = Some(format!("{} connections (transports {:?}), {healthy} healthy directions", run.len(), run.iter().map(|x| x.1.plan.tr).collect::<Vec<_>>()));
    for (_, l) in run.iter_mut() {
        l.drop_conn();
    }
}

// ---------------------------------------------------------------- C17
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct SessPlan {
    pub tr: u8, // 0: a scripted client over stdio; 1: this library on both ends of a TCP connection; 2: in-memory
    pub init: Option<MsgSpec>,
    pub reqs: Vec<MsgSpec>,
    pub window: u64,
    pub workers: u64,
    pub work: Vec<u64>,            // us to answer each request
    pub notes: Vec<(u64, MsgSpec)>, // notifications of the server after it got so many requests
    pub cnotes: Vec<(u64, MsgSpec)>, // notifications of the client after it sent so many requests
    pub pauses: Vec<u64>,          // us the client waits before each request
    pub early: bool,               // shutdown is requested without waiting for the answers
    pub exit_after: u64,           // us between the answer to shutdown and exit
    pub close: bool,               // stdio: the client closes its output after exit
    pub drain: Drain,
    pub errors: bool,
}
pub const C17_RULE: &str = "each run: a whole session - handshake, requests with a window, answers from up to four threads in any order, notifications both ways, shutdown, exit - with a scripted client over stdio, or this library on both ends of a TCP connection or in-memory pair, and a schedule; non-trivial: the session had at least one request and one decision other than the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c17(r: &mut Rng, env: &mut Env, tier: u64) -> SessPlan {
    let mut p = SessPlan { tr: *r.pick(&[0, 0, 1, 1, 1, 2]), ..Default::default() };
    p.init = Some(MsgSpec::req(id(r), "build/initialize", init_params(r)));
    let n = match r.below(20) {
        0 => 0,
        1 => r.range(20, if tier == 1 { 400 } else { 60 }),
        _ => r.range(1, 10),
    };
    let used = p.init.as_ref().unwrap().id.clone();
    let mut ids: Vec<Value> = vec![used, json!("shutdown")];
    for i in 0..n {
        let mut m = any_msg(r, false, r.clone().permille(100));
        while m.k != REQ || matches!(m.m.as_str(), "build/initialize" | "build/shutdown") {
            m = any_msg(r, false, false);
        }
        if ids.contains(&m.id) {
            m.id = json!(100_000 + i);
        }
        if p.tr == 0 && r.permille(500) {
            m.style = r.next() >> 20 | 1;
        }
        ids.push(m.id.clone());
        p.reqs.push(m);
        p.work.push(if r.permille(400) { *r.pick(&[1, 1000, 100_000, 3_000_000]) } else { 0 });
        p.pauses.push(if r.permille(200) { *r.pick(&[1, 1000, 100_000, 3_000_000]) } else { 0 });
    }
    p.window = r.range(1, 8);
    p.workers = r.range(1, 4);
    for _ in 0..r.below(4) {
        let mut m = any_msg(r, false, false);
        while m.k != NOTIF || m.is_exit() {
            m = any_msg(r, false, false);
        }
        if r.permille(500) {
            p.notes.push((r.below(n + 1), m));
        } else {
            p.cnotes.push((r.below(n + 1), m));
        }
    }
    p.early = r.permille(300);
    p.exit_after = *r.pick(&[0, 0, 1000, 5_000_000]);
    p.close = r.permille(500);
    p.errors = r.permille(300);
    if r.permille(300) {
        p.drain = Drain { mode: 1, chunk: r.range(50, 5000), pace: 10, cap: r.range(50, 5000), ..Default::default() };
    }
    if r.permille(200) {
        env.stall = *r.pick(&[20, 100]);
        env.stall_us = *r.pick(&[100, 1000]);
    }
    p
}
fn answer(p: &SessPlan, i: usize) -> MsgSpec {
    let id = p.reqs[i].id.clone();
    if p.errors && i % 3 == 1 {
        let mut m = MsgSpec::resp(id, Value::Null);
        m.e = json!({"code": -32603, "message": format!("failed {i}")});
        m
    } else {
        MsgSpec::resp(id, json!({"answer": i}))
    }
}
#[derive(Default)]
struct Srv {
    init: Option<Result<Value, String>>,
    got: Vec<Value>, // requests and notifications, as the server saw them
    shut: Vec<(u64, u64, Result<bool, String>)>,
    refused: Vec<String>,
    disc: Option<bool>,
    join: Option<Result<Result<(), String>, String>>,
    done: bool,
}
fn server(conn: Connection, io: Option<IoThreads>, p: SessPlan, o: Sh<Srv>) {
    let conn = Arc::new(conn);
    let r = conn.initialize(|_| json!({"displayName": "S", "version": "1", "bspVersion": "2.0", "capabilities": {}}));
    let good = r.is_ok();
    o.with(|o| o.init = Some(match &r { Ok(v) => Ok(serde_json::to_value(v).unwrap_or(Value::Null)), Err(e) => Err(e.to_string()) }));
    if !good {
        o.with(|o| o.done = true);
        return;
    }
    let (jtx, jrx) = crossbeam_channel::unbounded::<usize>();
    let mut ws = vec![];
    for _ in 0..p.workers.clamp(1, 6) {
        let (c, p, jrx, o) = (conn.clone(), p.clone(), jrx.clone(), o.clone());
        ws.push(spawn_app("app-worker", move || {
            for i in jrx.iter() {
                if let Some(us) = p.work.get(i) {
                    if *us > 0 {
                        sleep_us(*us);
                    }
                }
                if let Some(m) = build(&answer(&p, i)) {
                    if let Err(e) = c.send(m) {
                        o.with(|o| o.refused.push(format!("answer {i}: {e}")));
                    }
                }
            }
        }));
    }
    let mut nreq = 0u64;
    let notes = |n: u64| {
        for (k, m) in &p.notes {
            if (*k).min(p.reqs.len() as u64) == n {
                if let Some(m) = build(m) {
                    if let Err(e) = conn.send(m) {
                        o.with(|o| o.refused.push(format!("notification: {e}")));
                    }
                }
            }
        }
    };
    notes(0);
    while let Ok(m) = conn.receiver.recv() {
        match m {
            Message::Request(r) => {
                let t0 = s().now;
                let sd = matches!(r, Request::Shutdown(_));
                let x = conn.handle_shutdown(&r).map_err(|e| e.to_string());
                if sd || x != Ok(false) {
                    o.with(|o| o.shut.push((t0, s().now, x.clone())));
                }
                match x {
                    Ok(true) => break,
                    Err(_) => break,
                    Ok(false) => {}
                }
                let v = o.with(|o| {
                    let v = view(&Message::Request(r.clone()));
                    o.got.push(v.clone());
                    v
                });
                if let Some(i) = p.reqs.iter().position(|q| q.id == v["id"]) {
                    let _ = jtx.send(i);
                }
                nreq += 1;
                notes(nreq);
            }
            Message::Notification(Notification::Exit) => break,
            m => o.with(|o| o.got.push(view(&m))),
        }
    }
    drop(jtx);
    drop(jrx);
    for w in ws {
        let _ = w.join();
    }
    if io.is_some() {
        let d = conn.receiver.recv().is_err();
        o.with(|o| o.disc = Some(d));
    }
    drop(conn);
    if let Some(io) = io {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || io.join().map_err(|e| e.to_string())));
        let r = r.map_err(|_| last_panic());
        o.with(|o| o.join = Some(r));
    }
    o.with(|o| o.done = true);
}
#[derive(Default)]
struct Cli {
    got: Vec<Value>,
    shut_at: Option<u64>,
    exit_at: Option<u64>,
    ended: Option<bool>,
    refused: Vec<String>,
    join: Option<Result<Result<(), String>, String>>,
    done: bool,
}
/// The client's part, over any way of sending and receiving.
fn client(p: &SessPlan, o: &Sh<Cli>, send: &mut dyn FnMut(&MsgSpec) -> Result<(), String>, recv: &mut dyn FnMut() -> Option<Value>) {
    let mut tx = |m: &MsgSpec| {
        if let Err(e) = send(m) {
            o.with(|o| o.refused.push(e));
        }
    };
    let mut rx = || {
        let v = recv();
        if let Some(v) = &v {
            o.with(|o| o.got.push(v.clone()));
        }
        v
    };
    tx(p.init.as_ref().unwrap());
    if rx().is_none() {
        return;
    }
    tx(&MsgSpec::initialized());
    let n = p.reqs.len();
    let (mut sent, mut answered, mut sd) = (0usize, 0usize, false);
    let cn = |k: u64, tx: &mut dyn FnMut(&MsgSpec)| {
        for (a, m) in &p.cnotes {
            if (*a).min(n as u64) == k {
                tx(m);
            }
        }
    };
    cn(0, &mut tx);
    loop {
        while sent < n && sent < answered + p.window.max(1) as usize {
            if let Some(us) = p.pauses.get(sent) {
                if *us > 0 {
                    sleep_us(*us);
                }
            }
            tx(&p.reqs[sent]);
            sent += 1;
            cn(sent as u64, &mut tx);
        }
        if !sd && sent == n && (p.early || answered >= n) {
            sd = true;
            tx(&MsgSpec::req(json!("shutdown"), "build/shutdown", Value::Null));
        }
        let Some(v) = rx() else { return };
        if v["k"] == "resp" {
            if v["id"] == "shutdown" {
                break;
            }
            answered += 1;
        }
    }
    o.with(|o| o.shut_at = Some(s().now));
    if p.exit_after > 0 {
        sleep_us(p.exit_after);
    }
    tx(&MsgSpec::exit());
    o.with(|o| o.exit_at = Some(s().now));
}
pub fn run_c17(p: SessPlan) {
    let mut p = p;
    let Some(init) = p.init.clone() else { return };
    if init.k != REQ || init.m != "build/initialize" || build(&init).is_none() {
        return;
    }
    let mut ids: Vec<Value> = vec![json!("shutdown"), init.id.clone()];
    for q in &p.reqs {
        if q.k != REQ || build(q).is_none() || ids.contains(&q.id) || matches!(q.m.as_str(), "build/initialize" | "build/shutdown") {
            return;
        }
        ids.push(q.id.clone());
    }
    if p.notes.iter().chain(p.cnotes.iter()).any(|n| n.1.k != NOTIF || n.1.is_exit() || build(&n.1).is_none()) {
        return;
    }
    {
        // exit has to follow the answer to shutdown within 30 s
        let e = &mut s().env;
        e.stall_us = e.stall_us.min(1000);
        e.lat = e.lat.min(20_000);
        p.drain.stalls.clear();
        p.drain.hold = None;
        p.drain.pace = p.drain.pace.min(10);
        p.drain.chunk = p.drain.chunk.max(50);
        p.drain.cap = p.drain.cap.max(50);
        p.exit_after = p.exit_after.min(5_000_000);
    }
    let so: Sh<Srv> = Sh::new(Srv::default());
    let co: Sh<Cli> = Sh::new(Cli::default());
    let mut in_pipe = None;
    match p.tr % 3 {
        0 => {
            let e = establish(STDIO, 0);
            start_drain(e.w.out, &p.drain, &Sh::new(false));
            let (w, p2, o2) = (e.w, p.clone(), co.clone());
            in_pipe = Some(w.inp);
            spawn_peer("client", move || {
                let mut n = 0;
                let mut send = |m: &MsgSpec| if peer_bytes(w.inp, &m.wire()) { Ok(()) } else { Err("the server's input is closed".to_string()) };
                let mut recv = || {
                    let memo: Sh<(usize, usize)> = Sh::new((0, 0));
                    wait_for(EVENTUALLY, move || {
                        let q = &s().pipes[w.out];
                        let (l, k) = memo.with(|m| *m);
                        let k = if l == q.buf.len() { k } else { frames::parse(&q.buf).frames.len() };
                        memo.with(|m| *m = (q.buf.len(), k));
                        k > n || q.eof.is_some()
                    });
                    let f = frames::parse(&s().pipes[w.out].buf);
                    if let Some(e) = f.err {
                        violate("not-frames", e);
                    }
                    let f = f.frames.get(n)?;
                    n += 1;
                    match frames::sem(&f.body) {
                        Ok(v) => Some(v),
                        Err(e) => violate("bad-frame", format!("{e}: {}", brief(&f.body))),
                    }
                };
                client(&p2, &o2, &mut send, &mut recv);
                if p2.close {
                    let _g = Guard::new();
                    s().close_write(w.inp);
                }
                // whatever else comes
                while o2.with(|o| o.got.len()) < p2.reqs.len() + p2.notes.len() + 2 {
                    match recv() {
                        Some(v) => o2.with(|o| o.got.push(v)),
                        None => break,
                    }
                }
                o2.with(|o| o.done = true);
            });
            let (p2, o2) = (p.clone(), so.clone());
            let b = (e.conn, e.io);
            spawn_app("app-server", move || {
                let (conn, io) = b;
                server(conn, Some(io), p2, o2)
            });
        }
        k => {
            let (sv, cl): (Box<dyn FnOnce() -> Option<(Connection, Option<IoThreads>)> + Send>, Box<dyn FnOnce() -> Option<(Connection, Option<IoThreads>)> + Send>) = if k == 1 {
                (
                    Box::new(|| match Connection::listen("127.0.0.1:7000") {
                        Ok((c, i)) => Some((c, Some(i))),
                        Err(e) => violate("establish", format!("listen failed: {e}")),
                    }),
                    Box::new(|| {
                        wait_for(EVENTUALLY, || s().find_listener(7000, 1).is_some());
                        match Connection::connect("127.0.0.1:7000") {
                            Ok((c, i)) => Some((c, Some(i))),
                            Err(e) => violate("establish", format!("connect failed: {e}")),
                        }
                    }),
                )
            } else {
                let Ok((a, b)) = lib(Connection::memory) else { violate("establish", "memory() panicked".into()) };
                (Box::new(move || Some((a, None))), Box::new(move || Some((b, None))))
            };
            let (p2, o2) = (p.clone(), so.clone());
            spawn_app("app-server", move || {
                if let Some((c, i)) = sv() {
                    server(c, i, p2, o2)
                }
            });
            let (p2, o2) = (p.clone(), co.clone());
            spawn_app("app-client", move || {
                let Some((conn, io)) = cl() else { return };
                // a client that does not receive while it sends could block a server that answers
                let (qtx, qrx) = crossbeam_channel::unbounded::<Value>();
                let rx = conn.receiver.clone();
                let pump = spawn_app("app-client-rx", move || {
                    while let Ok(m) = rx.recv() {
                        let _ = qtx.send(view(&m));
                    }
                });
                {
                    let mut send = |m: &MsgSpec| match build(m) {
                        Some(m) => conn.send(m).map_err(|e| e.to_string()),
                        None => Ok(()),
                    };
                    let mut recv = || qrx.recv().ok();
                    client(&p2, &o2, &mut send, &mut recv);
                }
                // until the server is gone
                while let Ok(v) = qrx.recv() {
                    o2.with(|o| o.got.push(v));
                }
                let _ = pump.join();
                o2.with(|o| o.ended = Some(true));
                drop(conn);
                if let Some(io) = io {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || io.join().map_err(|e| e.to_string())));
                    let r = r.map_err(|_| last_panic());
                    o2.with(|o| o.join = Some(r));
                }
                o2.with(|o| o.done = true);
            });
        }
    }
    let (s2, c2) = (so.clone(), co.clone());
    let ok = wait_for(EVENTUALLY, move || s2.with(|o| o.done) && c2.with(|o| o.done));
    let shut = so.with(|o| o.shut.clone());
    if let Some((a, b, Err(_))) = shut.first() {
        // the 30 s are the only legitimate reason to fail
        if b - a >= 29_000_000_000 {
            let at = match in_pipe {
                Some(i) => s().pipes[i].last_arrival,
                None => co.with(|o| o.exit_at.unwrap_or(u64::MAX)),
            };
            if at > a + 20_000_000_000 {
                probe("exit_too_late");
                return;
            }
        }
    }
    so.with(|o| {
        if let Some(Err(e)) = &o.init {
            violate("handshake", format!("a conforming handshake failed: {e}"));
        }
        if let Some((_, _, Err(e))) = o.shut.first() {
            violate("shutdown", format!("the client requested shutdown and sent exit, but handling it gave {e}"));
        }
        if let Some(e) = o.refused.first() {
            violate("refused", format!("the server could not send: {e}"));
        }
    });
    if let Some(e) = co.with(|o| o.refused.first().cloned()) {
        violate("refused", format!("the client could not send: {e}"));
    }
    // the answers
    let got = co.with(|o| o.got.clone());
    let mut seen = vec![0usize; p.reqs.len() + 2];
    let mut notes: Vec<Value> = vec![];
    for v in &got {
        if v["k"] == "notif" {
            notes.push(v.clone());
            continue;
        }
        let k = if v["id"] == init.id {
            0
        } else if v["id"] == "shutdown" {
            1
        } else {
            match p.reqs.iter().position(|q| q.id == v["id"]) {
                Some(i) => {
                    let want = answer(&p, i).expect();
                    if *v != want {
                        violate("answer-altered", format!("the server answered {} but the client got {}", brief(&want), brief(v)));
                    }
                    i + 2
                }
                None => violate("answer-unknown", format!("the client got an answer to nothing it asked: {}", brief(v))),
            }
        };
        if v["k"] != "resp" {
            violate("not-a-response", format!("the client got {}", brief(v)));
        }
        seen[k] += 1;
        if seen[k] > 1 {
            violate("answered-twice", format!("the client got a second answer: {}", brief(v)));
        }
    }
    if !ok {
        violate("stuck", format!("the session does not end; client: {} of {} answers, exit sent: {}; server done: {}; {}", seen.iter().sum::<usize>(), seen.len(), co.with(|o| o.exit_at.is_some()), so.with(|o| o.done), states()));
    }
    if let Some(k) = seen.iter().position(|n| *n == 0) {
        violate("unanswered", format!("the session ended without an answer to {}", match k { 0 => "initialize".to_string(), 1 => "shutdown".to_string(), k => brief(&p.reqs[k - 2].expect()) }));
    }
    let want: Vec<Value> = {
        let mut v: Vec<(u64, usize)> = p.notes.iter().enumerate().map(|(i, n)| (n.0.min(p.reqs.len() as u64), i)).collect();
        v.sort();
        v.iter().map(|x| p.notes[x.1].1.expect()).collect()
    };
    if notes != want {
        violate("notifications", format!("the server sent {} notifications, the client got {:?}", want.len(), notes.iter().map(brief).collect::<Vec<_>>()));
    }
    // what the server saw
    let sgot = so.with(|o| o.got.clone());
    let mut want: Vec<Value> = p.cnotes.iter().filter(|c| c.0 == 0).map(|c| c.1.expect()).collect();
    if p.reqs.is_empty() {
        want = p.cnotes.iter().map(|c| c.1.expect()).collect();
    }
    for (i, q) in p.reqs.iter().enumerate() {
        want.push(q.expect());
        want.extend(p.cnotes.iter().filter(|c| c.0.min(p.reqs.len() as u64) == i as u64 + 1).map(|c| c.1.expect()));
    }
    if sgot != want {
        let k = (0..want.len().max(sgot.len())).find(|&k| sgot.get(k) != want.get(k)).unwrap_or(0);
        violate("requests", format!("message {k} of the session: the client sent {:?}, the server got {:?}", want.get(k).map(brief), sgot.get(k).map(brief)));
    }
    so.with(|o| {
        match &o.shut[..] {
            [(_, _, Ok(true))] => {}
            other => violate("shutdown", format!("handling the shutdown request gave {other:?}")),
        }
        if o.disc == Some(false) {
            violate("not-disconnected", "the server received something after exit".into());
        }
        if let Some(j) = &o.join {
            if *j != Ok(Ok(())) {
                violate("join", format!("waiting for the server's I/O threads gave {j:?}"));
            }
        }
    });
    co.with(|o| {
        if let Some(j) = &o.join {
            if *j != Ok(Ok(())) {
                violate("join", format!("waiting for the client's I/O threads gave {j:?}"));
            }
        }
    });
    if !p.reqs.is_empty() {
        nontrivial();
    }
    probe(match p.tr % 3 {
        0 => "scripted_client_over_stdio",
        1 => "library_on_both_ends_of_tcp",
        _ => "in_memory",
    });
    if p.early {
        probe("shutdown_before_all_answers");
    }
    s().sample = Some(format!("{} requests, {} workers, window {}, transport {}", p.reqs.len(), p.workers, p.window, p.tr));
    let _ = Response::ok(0.into(), ());
}
