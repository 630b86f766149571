//! C16, C20: opening a connection, and what is left when it has ended.
use super::flows::*;
use super::inout::*;
use super::probe;
use crate::core::*;
use crate::flow::*;
use crate::frames::brief;
use crate::gen::*;
use crate::rt::*;
use crate::view::*;
use bsp_server::{Connection, IoThreads};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct AddrPlan {
    pub ip: u8,   // 127.0.0.ip, or from 129 on IPv6
    pub port: u16,
    pub any: bool, // listen: on all addresses of the machine
    pub bad: bool, // listen: in use; connect: nobody listens there
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct ClientPlan {
    pub at: u64,
    pub from: u8, // its address
    pub msgs: Vec<MsgSpec>,
    pub part: u64, // bytes of a further frame
    pub end: EndPlan,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct EstPlan {
    pub connect: bool,
    pub via: u64, // how the address is given
    pub addrs: Vec<AddrPlan>,
    pub socket_fail: Vec<(u32, i32)>,
    pub bind_fail: Vec<(u32, i32)>,
    pub listen_fail: Vec<(u32, i32)>,
    pub accept_fail: Vec<(u32, i32)>,
    pub connect_fail: Vec<(u32, i32)>,
    pub dup_fail: Vec<(u32, i32)>,
    pub fd_limit: Option<u64>,
    pub decoys: Vec<AddrPlan>, // others who listen
    pub clients: Vec<ClientPlan>, // listen: those who connect; connect: the first is whoever is reached
    pub out: Vec<MsgSpec>,
    pub exit: bool, // the served client ends with exit (else: closes)
}
fn addr(a: &AddrPlan) -> SocketAddr {
    match (a.ip.max(1), a.any) {
        (i, true) if i >= 128 => SocketAddr::from((Ipv6Addr::UNSPECIFIED, a.port)),
        (_, true) => SocketAddr::from((Ipv4Addr::UNSPECIFIED, a.port)),
        (i, _) if i >= 128 => SocketAddr::from((Ipv6Addr::new(0, 0, 0, 0, 0, 0, 0, (i & 127) as u16), a.port)),
        (i, _) => SocketAddr::from((Ipv4Addr::new(127, 0, 0, i), a.port)),
    }
}
type Opened = Result<std::io::Result<(Connection, IoThreads)>, String>;
fn call(p: &EstPlan) -> Opened {
    let v: Vec<SocketAddr> = p.addrs.iter().map(addr).collect();
    let text = v.first().map(|a| a.to_string()).unwrap_or_default();
    let host = v.first().map(|a| (a.ip().to_string(), a.port())).unwrap_or_default();
    let f = |p: &EstPlan| -> std::io::Result<(Connection, IoThreads)> {
        match (p.connect, p.via % 4, v.len()) {
            (false, 1, 1) => Connection::listen(v[0]),
            (false, 2, 1) => Connection::listen(&text[..]),
            (false, 3, 1) => Connection::listen((&host.0[..], host.1)),
            (false, _, _) => Connection::listen(&v[..]),
            (true, 1, 1) => Connection::connect(v[0]),
            (true, 2, 1) => Connection::connect(&text[..]),
            (true, 3, 1) => Connection::connect((&host.0[..], host.1)),
            (true, _, _) => Connection::connect(&v[..]),
        }
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p))).map_err(|_| last_panic())
}
/// A foreign listening socket.
fn foreign(a: &AddrPlan) -> usize {
    let sm = s();
    let l = sm.new_sock(SockKind::Listener { port: a.port, backlog: Default::default(), max: 128 }, false);
    sm.socks[l].refs = 1;
    sm.socks[l].port = a.port;
    sm.socks[l].ip = a.ip.max(1);
    l
}
fn backlog(l: usize) -> Vec<usize> {
    match &s().socks[l].kind {
        SockKind::Listener { backlog, .. } => backlog.iter().copied().collect(),
        _ => vec![],
    }
}
fn stream(k: usize) -> Option<Wire> {
    match s().socks[k].kind {
        SockKind::Stream { rx, tx } => Some(Wire { inp: tx, out: rx }),
        _ => None,
    }
}
#[derive(Default)]
pub struct EstHist {
    ret: Option<(u64, usize, usize, Vec<i32>)>, // time, open descriptors, library threads, errors so far
    opened: Option<Opened>,
    order: Vec<(usize, Wire)>, // who connected, in this order
    trying: usize,
}
struct SendOpened(Sh<EstHist>);
unsafe impl Send for SendOpened {}

fn script(w: Wire, c: &ClientPlan, exit: bool) {
    let mut a = vec![];
    for m in &c.msgs {
        a.push(Act::Bytes(m.wire()));
    }
    if c.part > 0 {
        let w = numbered(9, REQ).wire();
        a.push(Act::Bytes(w[..(c.part as usize).min(w.len() - 1)].to_vec()));
    } else if exit {
        a.push(Act::Bytes(MsgSpec::exit().wire()));
    }
    if c.end.after > 0 {
        a.push(Act::Sleep(c.end.after));
    }
    match c.end.kind {
        1 => a.push(Act::Close),
        3 => a.push(Act::Gone(false)),
        4 => a.push(Act::Gone(true)),
        _ => {}
    }
    peer_script(w, a);
}
pub fn valid(p: &EstPlan) -> bool {
    let mut seen: Vec<(u8, u16)> = vec![];
    for a in p.addrs.iter().chain(p.decoys.iter()) {
        if a.any && (p.connect || a.bad || p.addrs.len() != 1 || !p.decoys.is_empty()) {
            return false;
        }
        if (a.ip.max(1) & 127) == 0 || (a.ip & 127) > 90 || a.port < 1000 || a.port >= 40000 || seen.contains(&(a.ip.max(1), a.port)) {
            return false;
        }
        seen.push((a.ip.max(1), a.port));
    }
    !p.clients.is_empty() && p.clients.len() < 20 && p.clients.iter().all(|c| c.msgs.iter().all(|m| !m.is_exit()))
}
struct EstRun {
    h: Sh<EstHist>,
    listeners: Vec<usize>, // of those who can be reached
    decoys: Vec<usize>,
}
/// Make the call; returns when it has returned.
fn est_call(p: &EstPlan) -> EstRun {
    {
        let sm = s();
        sm.socket_fail = p.socket_fail.clone();
        sm.bind_fail = p.bind_fail.clone();
        sm.listen_fail = p.listen_fail.clone();
        sm.accept_fail = p.accept_fail.clone();
        sm.connect_fail = p.connect_fail.clone();
        sm.dup_fail = p.dup_fail.clone();
        if let Some(n) = p.fd_limit {
            sm.fd_limit = n as usize;
        }
    }
    let decoys: Vec<usize> = p.decoys.iter().map(foreign).collect();
    let mut listeners = vec![];
    let h: Sh<EstHist> = Sh::new(EstHist::default());
    if p.connect {
        for a in &p.addrs {
            if !a.bad {
                listeners.push(foreign(a));
            }
        }
        // whoever is reached starts talking at once
        let (ls, h2, c, exit) = (listeners.clone(), h.clone(), p.clients[0].clone(), p.exit);
        spawn_peer("peer-accept", move || {
            let mut known: Vec<usize> = vec![];
            loop {
                let (l2, k2, h3) = (ls.clone(), known.clone(), h2.clone());
                wait_for(EVENTUALLY, move || {
                    l2.iter().flat_map(|l| backlog(*l)).any(|k| !k2.contains(&k)) || h3.with(|h| h.ret.is_some())
                });
                let new: Vec<usize> = ls.iter().flat_map(|l| backlog(*l)).filter(|k| !known.contains(k)).collect();
                if new.is_empty() {
                    return;
                }
                for k in new {
                    known.push(k);
                    if let Some(w) = stream(k) {
                        h2.with(|h| h.order.push((h.order.len(), w)));
                        let c2 = c.clone();
                        spawn_peer("peer-writer", move || {
                            if c2.at > 0 {
                                sleep_us(c2.at);
                            }
                            script(w, &c2, exit)
                        });
                    }
                }
            }
        });
    } else {
        for a in &p.addrs {
            if a.bad {
                listeners.push(foreign(a));
            }
        }
        h.with(|h| h.trying = p.clients.len());
        for (i, c) in p.clients.iter().enumerate() {
            let (h2, c, addrs, exit) = (h.clone(), c.clone(), p.addrs.clone(), p.exit);
            spawn_peer("client", move || {
                if c.at > 0 {
                    sleep_us(c.at);
                }
                let mut t = 1000;
                let mut spent = 0;
                loop {
                    let mut got = None;
                    for a in addrs.iter().filter(|a| !a.bad) {
                        s().client_from = c.from;
                        if let Ok((rx, tx, _)) = s().tcp_connect(a.port, a.ip.max(1), false) {
                            got = Some(Wire { inp: tx, out: rx });
                            break;
                        }
                    }
                    if let Some(w) = got {
                        h2.with(|h| {
                            h.order.push((i, w));
                            h.trying -= 1;
                        });
                        script(w, &c, exit);
                        return;
                    }
                    if h2.with(|h| h.ret.is_some()) || spent > EVENTUALLY / 2 {
                        h2.with(|h| h.trying -= 1);
                        return;
                    }
                    sleep_us(t);
                    spent += t;
                    t = (t * 2).min(100_000_000);
                }
            });
        }
    }
    let (h2, p2) = (SendOpened(h.clone()), p.clone());
    spawn_app("app-open", move || {
        let h2 = h2;
        let r = call(&p2);
        let h = h2.0;
        h.with(|h| {
            let sm = s();
            sm.ev("open<", matches!(r, Ok(Ok(_))) as u64, 0);
            h.opened = Some(r);
            h.ret = Some((sm.now, sm.open_fds(), lib_threads_alive(), sm.os_errs.clone()));
        });
    });
    let h2 = h.clone();
    if !wait_for(2 * EVENTUALLY, move || h2.with(|h| h.ret.is_some())) {
        // somebody can be served, or an error to be reported: it has to return
        let sm = s();
        let (conn, errs) = (h.with(|h| h.order.len()), sm.os_errs.clone());
        violate("open-stuck", format!("{} does not return ({conn} peers connected, errors of system calls: {errs:?}); {}", if p.connect { "connect" } else { "listen" }, states()));
    }
    {
        // from here on nothing fails any more
        let sm = s();
        sm.socket_fail.clear();
        sm.bind_fail.clear();
        sm.listen_fail.clear();
        sm.accept_fail.clear();
        sm.connect_fail.clear();
        sm.dup_fail.clear();
        sm.fd_limit = usize::MAX;
    }
    EstRun { h, listeners, decoys }
}
fn same_error(e: &std::io::Error, errno: i32) -> bool {
    e.raw_os_error() == Some(errno) || (e.raw_os_error().is_none() && e.kind() == std::io::Error::from_raw_os_error(errno).kind())
}
/// Errors, wrong peers; Some(connection, who is at the other end) if it worked.
fn est_check(p: &EstPlan, r: &EstRun) -> Option<(Connection, IoThreads, usize, Wire)> {
    let what = if p.connect { "connect" } else { "listen" };
    let good = p.addrs.iter().any(|a| !a.bad);
    let opened = r.h.with(|h| h.opened.take()).unwrap();
    let (_, _, _, errs) = r.h.with(|h| h.ret.clone()).unwrap();
    let natural = errs.iter().all(|e| *e == if p.connect { libc::ECONNREFUSED } else { libc::EADDRINUSE });
    let planned = !(p.socket_fail.is_empty() && p.bind_fail.is_empty() && p.listen_fail.is_empty() && p.connect_fail.iter().all(|x| x.1 == libc::EINTR) && p.accept_fail.iter().all(|x| x.1 == libc::EINTR));
    let res = match opened {
        Err(e) => violate("panicked", format!("{what} panicked: {e}; errors of system calls: {errs:?}")),
        Ok(x) => x,
    };
    let (conn, io) = match res {
        Err(e) => {
            if p.addrs.is_empty() {
                probe("no_address");
                return None;
            }
            if errs.is_empty() {
                violate("failed-for-nothing", format!("{what} failed with {e:?} although no system call failed (except with EINTR)"));
            }
            if !errs.iter().any(|x| same_error(&e, *x)) {
                violate("wrong-error", format!("{what} returned {e:?} but the errors of its system calls were {errs:?}"));
            }
            if good && natural && !planned {
                violate("gave-up", format!("{what} returned {e:?} although one of the addresses works"));
            }
            probe("failed");
            s().sample = Some(format!("{what} returned {:?} {e}", e.kind()));
            return None;
        }
        Ok(x) => x,
    };
    if !good {
        violate("no-error", format!("{what} succeeded although no address can work"));
    }
    // who is at the other end?
    let order = r.h.with(|h| h.order.clone());
    if p.connect {
        let v: Vec<usize> = r.listeners.iter().flat_map(|l| backlog(*l)).collect();
        // connections that were given up again are closed by now
        let open: Vec<Wire> = v.iter().filter_map(|k| stream(*k)).filter(|w| !s().pipes[w.inp].rclosed && s().pipes[w.out].eof.is_none()).collect();
        if r.decoys.iter().any(|l| !backlog(*l).is_empty()) {
            violate("wrong-peer", "connect reached an address it was not given".into());
        }
        if open.len() != 1 {
            violate("not-one-peer", format!("connect succeeded with {} open connections to the given addresses", open.len()));
        }
        if errs.is_empty() {
            let first = p.addrs.iter().position(|a| !a.bad).unwrap();
            if first == 0 && r.listeners.first().map_or(true, |l| backlog(*l).is_empty()) {
                violate("wrong-peer", "connect did not reach the first address although it works".into());
            }
        }
        Some((conn, io, 0, open[0]))
    } else {
        if !r.listeners.iter().chain(r.decoys.iter()).all(|l| backlog(*l).is_empty()) {
            violate("wrong-peer", "clients reached somebody else".into());
        }
        let Some(&(i, w)) = order.first() else {
            violate("no-peer", "listen returned a connection although nobody connected".into());
        };
        Some((conn, io, i, w))
    }
}
/// Talk over the new connection, as the one peer it has.
fn est_use(p: &EstPlan, r: &EstRun, conn: Connection, io: IoThreads, who: usize, w: Wire) -> JoinRec {
    let what = if p.connect { "connect" } else { "listen" };
    let c = &p.clients[who];
    let reset = c.end.kind == 4;
    let conn = std::sync::Arc::new(conn);
    let rx: Sh<(Vec<Rx>, bool)> = Sh::new((vec![], false));
    let sent: Sh<(Vec<Value>, usize)> = Sh::new((vec![], 0));
    start_drain(w.out, &Drain::default(), &Sh::new(false));
    let (c2, rx2) = (conn.clone(), rx.clone());
    spawn_app("app-recv", move || {
        while let Ok(m) = c2.receiver.recv() {
            rx2.with(|r| r.0.push(Rx { th: 0, at: s().now, v: view(&m), from: 0, to: 0 }));
        }
        drop(c2);
        rx2.with(|r| r.1 = true);
    });
    let (c2, s2, out) = (conn.clone(), sent.clone(), p.out.clone());
    spawn_app("app-send", move || {
        for m in &out {
            if let Some(x) = build(m) {
                if c2.send(x).is_ok() {
                    s2.with(|s| s.0.push(m.expect()));
                }
            }
        }
        drop(c2);
        s2.with(|s| s.1 = 1);
    });
    let _ = lib(move || drop(conn));
    let exp: Vec<Value> = {
        let mut v: Vec<Value> = c.msgs.iter().map(|m| m.expect()).collect();
        if c.part == 0 && p.exit {
            v.push(MsgSpec::exit().expect());
        }
        v
    };
    let ends = c.end.kind != 0 || (c.part == 0 && p.exit);
    let (rx2, n) = (rx.clone(), exp.len());
    wait_for(EVENTUALLY, move || rx2.with(|r| r.0.len() >= n || r.1));
    let got = rx.with(|r| r.0.clone());
    must(check_rx(&got, &exp, !reset, 1).map_err(|(k, m)| (k, format!("after {what}, from the peer (client {who} of {}): {m}", p.clients.len()))));
    let s2 = sent.clone();
    if !wait_for(EVENTUALLY, move || s2.with(|s| s.1 == 1)) {
        violate("send-stuck", format!("sends on the new connection do not return; {}", states()));
    }
    settle(100_000_000);
    must(check_rx(&rx.with(|r| r.0.clone()), &exp, false, 1));
    if !matches!(c.end.kind, 3 | 4) {
        let o = match parse_out(&s().pipes[w.out].buf) {
            Ok(o) => o,
            Err((k, m)) => violate(k, m),
        };
        let want = sent.with(|s| s.0.clone());
        if want.len() < p.out.iter().filter(|m| build(m).is_some()).count() {
            violate("refused", "a send on the new connection failed although its peer is there".into());
        }
        if o.msgs != want || o.rest != s().pipes[w.out].buf.len() {
            violate("not-sent", format!("the peer got {} of {} messages sent on the new connection: {:?}", o.msgs.len(), want.len(), o.msgs.iter().map(brief).collect::<Vec<_>>()));
        }
        probe("talked");
    }
    // nobody else is served
    for (i, o) in r.h.with(|h| h.order.clone()) {
        if o.inp != w.inp && !s().pipes[o.out].buf.is_empty() {
            violate("second-peer", format!("client {i} was sent something although client {who} is the peer"));
        }
    }
    if !ends {
        let _g = Guard::new();
        s().close_write(w.inp);
    }
    let mut l = Link { plan: ConnPlan::default(), w, h: Sh::new(Hist::default()), go: Sh::new(true), io: Some(io), conn: None, threads: 0..s().thr.len() };
    match l.join(EVENTUALLY) {
        Some(j) => j,
        None => violate("join-stuck", format!("the peer is gone and the connection dropped, but waiting for the I/O threads does not return; {}", states())),
    }
}
fn faults(r: &mut Rng, p: &mut EstPlan) {
    let nth = |r: &mut Rng| *r.pick(&[0u32, 0, 0, 1, 1, 2]);
    match r.below(12) {
        0 => p.socket_fail.push((nth(r), *r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EACCES, libc::EAFNOSUPPORT]))),
        1 => {
            p.bind_fail.push((nth(r), *r.pick(&[libc::EADDRNOTAVAIL, libc::EACCES, libc::EADDRINUSE])));
            p.connect_fail.push((nth(r), *r.pick(&[libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ETIMEDOUT, libc::ECONNREFUSED, libc::EADDRNOTAVAIL, libc::ECONNRESET])));
        }
        2 => {
            p.listen_fail.push((nth(r), libc::EADDRINUSE));
            p.connect_fail.push((nth(r), *r.pick(&[libc::ENETUNREACH, libc::ETIMEDOUT, libc::ECONNREFUSED])));
        }
        3 | 4 => {
            // interrupted, several times over
            let e: Vec<(u32, i32)> = (0..r.range(1, 4) as u32).map(|i| (i, libc::EINTR)).collect();
            p.accept_fail = e.clone();
            p.connect_fail = e;
        }
        5 => p.accept_fail.push((0, *r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::ECONNABORTED, libc::EPERM, libc::EPROTO]))),
        6 => {
            p.accept_fail = vec![(0, libc::EINTR), (1, *r.pick(&[libc::EMFILE, libc::ECONNABORTED, libc::ENOMEM]))];
            p.connect_fail = vec![(0, *r.pick(&[libc::ETIMEDOUT, libc::EHOSTUNREACH]))];
        }
        7 | 8 => p.dup_fail.push((*r.pick(&[0u32, 0, 1, 1, 2]), *r.pick(&[libc::EMFILE, libc::EMFILE, libc::ENOMEM]))),
        9 | 10 => p.fd_limit = Some(r.below(5)),
        _ => {
            p.dup_fail = (0..4).map(|i| (i, libc::EMFILE)).collect();
        }
    }
}
pub const C16_RULE: &str = "each run: listen or connect with one to three addresses (free, in use, refused), given in different ways, one to four clients that connect at different times with early data, and failing or interrupted socket, bind, listen, accept, connect and dup calls or a limit on descriptors; non-trivial: at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c16(r: &mut Rng, env: &mut Env, _t: u64) -> EstPlan {
    let mut p = EstPlan { connect: r.permille(400), via: r.below(4), exit: r.permille(500), ..Default::default() };
    let n = *r.pick(&[1u64, 1, 1, 1, 2, 3]);
    for i in 0..n {
        let a = if r.permille(300) { AddrPlan { ip: r.range(1, 4) as u8, port: 7000, bad: false, ..Default::default() } } else { AddrPlan { ip: 1, port: 7000 + i as u16, bad: false, ..Default::default() } };
        p.addrs.push(AddrPlan { bad: r.permille(250), ..a });
    }
    if r.permille(300) {
        let a = AddrPlan { ip: r.range(1, 4) as u8, port: *r.pick(&[7000, 7001]), bad: false, ..Default::default() };
        p.decoys.push(a);
    }
    if r.permille(550) {
        faults(r, &mut p);
        if r.permille(150) {
            faults(r, &mut p);
        }
    }
    if r.permille(250) {
        for a in p.addrs.iter_mut().chain(p.decoys.iter_mut()) {
            if r.permille(600) {
                a.ip |= 128;
            }
        }
    }
    if !p.connect && p.addrs.len() == 1 && p.decoys.is_empty() && r.permille(150) {
        p.addrs[0].any = true;
        p.addrs[0].bad = false;
    }
    let n = if p.connect { 1 } else { *r.pick(&[1u64, 1, 2, 3, 4]) };
    let mut k = 0;
    for _ in 0..n {
        let mut c = ClientPlan { at: *r.pick(&[0, 0, 1, 100, 1000, 3_000_000]), from: *r.pick(&[0, 0, 1, 5, 101, 120]), ..Default::default() };
        for _ in 0..r.below(4) {
            let mut m = any_msg(r, true, r.clone().permille(100));
            if m.is_exit() || r.permille(500) {
                m = numbered(k, r.below(3) as u8);
            }
            k += 1;
            c.msgs.push(m);
        }
        c.part = if r.permille(150) { r.range(1, 60) } else { 0 };
        c.end = EndPlan { kind: *r.pick(&[0, 0, 0, 1, 1, 3, 4]), after: *r.pick(&[0, 0, 1000, 5_000_000]), ..Default::default() };
        p.clients.push(c);
    }
    let n = r.below(3);
    p.out = distinct_msgs(r, n, false, false);
    if !valid(&p) {
        p.decoys.clear();
        for (i, a) in p.addrs.iter_mut().enumerate() {
            a.port = 7000 + i as u16;
        }
    }
    stalls(r, env);
    p
}
pub fn run_c16(p: EstPlan) {
    if !valid(&p) {
        return;
    }
    let r = est_call(&p);
    nontrivial();
    if let Some((conn, io, who, w)) = est_check(&p, &r) {
        let j = est_use(&p, &r, conn, io, who, w);
        if let Err(e) = &j.res {
            violate("join-panicked", format!("waiting for the I/O threads panicked: {e}"));
        }
        if who != 0 {
            probe("first_to_connect_was_not_the_first_to_start");
        }
        if r.h.with(|h| h.order.len()) > 1 {
            probe("several_clients_connected");
        }
        s().sample = Some(format!("{}: client {who} of {} was served", if p.connect { "connect" } else { "listen" }, p.clients.len()));
    }
    only_panics();
}

// ---------------------------------------------------------------- C20
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct LeftPlan {
    pub est: Option<EstPlan>,
    pub join: Option<JoinPlan>,
    pub gone: u64,  // session: 0 as planned, 1 the peer goes away, 2 is reset, at some time
    pub gone_at: u64,
    pub again: u64, // how many more times a connection is opened on the same port
}
pub const C20_RULE: &str = "each run: a session that ends in some way (exit, close, damage, read or write failure, a peer that goes away or resets, an early drop by the application), or an attempt to listen or connect that succeeds or fails at any system call; non-trivial: join returned or the attempt failed, and at least one decision differed from the default; counted by distinct hash of thread switches and I/O results";
pub fn gen_c20(r: &mut Rng, env: &mut Env, t: u64) -> LeftPlan {
    let mut p = LeftPlan { again: *r.pick(&[0, 1, 1, 3]), ..Default::default() };
    if r.permille(400) {
        let mut e = gen_c16(r, env, t);
        if r.permille(500) {
            faults(r, &mut e);
        }
        p.est = Some(e);
    } else {
        let mut j = gen_c08(r, env, t);
        if r.permille(800) {
            j.c.tr = r.range(1, 2) as u8;
        }
        if r.permille(250) {
            j.c.werr = Some((r.below(400), *r.pick(&[libc::EIO, libc::EPIPE, libc::ECONNRESET, libc::ENOSPC])));
            j.c.wsticky = r.permille(700);
        }
        if r.permille(300) {
            p.gone = r.range(1, 2);
            p.gone_at = *r.pick(&[0, 100, 1000, 100_000, 3_000_000]);
        }
        p.join = Some(j);
    }
    p
}
fn nothing_left(when: &str, j: &JoinRec) {
    if j.alive > 0 {
        violate("thread-left", format!("{when} (join gave {:?}) {} thread(s) of the library are still running; {}", j.res, j.alive, states()));
    }
    if j.fds > 0 {
        violate("socket-left", format!("{when} (join gave {:?}) {} descriptor(s) of the library are still open", j.res, j.fds));
    }
}
fn reopen(n: u64, a: &AddrPlan) {
    for _ in 0..n.min(5) {
        let h: Sh<Option<Opened>> = Sh::new(None);
        let h2 = SendBoxed(h.clone());
        let p = EstPlan { addrs: vec![a.clone()], ..Default::default() };
        spawn_app("app-open", move || {
            let h2 = h2;
            let r = call(&p);
            h2.0.with(|h| *h = Some(r));
        });
        let w: Sh<Option<Wire>> = Sh::new(None);
        let (w2, a2) = (w.clone(), a.clone());
        spawn_peer("client", move || {
            let (ip, port) = (a2.ip.max(1), a2.port);
            if wait_for(EVENTUALLY, move || s().find_listener(port, ip).is_some()) {
                if let Ok((rx, tx, _)) = s().tcp_connect(port, ip, false) {
                    w2.with(|w| *w = Some(Wire { inp: tx, out: rx }));
                    peer_bytes(tx, &numbered(1, REQ).wire());
                }
            }
        });
        let h2 = h.clone();
        wait_for(EVENTUALLY, move || h2.with(|h| h.is_some()));
        match h.with(|h| h.take()) {
            Some(Ok(Ok((conn, io)))) => {
                let Some(w) = w.with(|w| *w) else { violate("no-peer", "listen returned a connection although nobody connected".into()) };
                match lib(|| conn.receiver.recv()) {
                    Ok(Ok(_)) => {}
                    other => violate("reopen", format!("a connection on the same address does not work: {:?}", other.map(|r| r.map(|m| brief(&view(&m)))))),
                }
                let _ = lib(move || drop(conn));
                {
                    let _g = Guard::new();
                    s().close_write(w.inp);
                }
                let mut l = Link { plan: ConnPlan::default(), w, h: Sh::new(Hist::default()), go: Sh::new(true), io: Some(io), conn: None, threads: 0..s().thr.len() };
                match l.join(EVENTUALLY) {
                    Some(j) => nothing_left("after a further connection had ended", &j),
                    None => violate("join-stuck", format!("join does not return; {}", states())),
                }
                probe("reopened");
            }
            Some(Ok(Err(e))) => violate("reopen", format!("listening on the same address again failed: {e:?}")),
            Some(Err(e)) => violate("panicked", e),
            None => violate("reopen", format!("listening on the same address again does not return; {}", states())),
        }
    }
}
struct SendBoxed<T>(T);
unsafe impl<T> Send for SendBoxed<T> {}
fn peers_see_end(ws: &[Wire]) {
    for w in ws {
        if s().pipes[w.out].eof.is_none() || !s().pipes[w.inp].rclosed {
            violate("peer-sees-no-end", "the connection has ended but its peer does not see the end of the stream".into());
        }
    }
}
pub fn run_c20(p: LeftPlan) {
    if let Some(e) = &p.est {
        if !valid(e) {
            return;
        }
        let r = est_call(e);
        nontrivial();
        let (_, fds, alive, errs) = r.h.with(|h| h.ret.clone()).unwrap();
        let failed = r.h.with(|h| !matches!(h.opened, Some(Ok(Ok(_)))));
        if failed {
            if let Some(Err(e)) = r.h.with(|h| h.opened.as_ref().map(|o| o.as_ref().map(|_| ()).map_err(|e| e.clone()))) {
                violate("panicked", format!("the attempt panicked: {e}"));
            }
            probe("failed_attempt");
            if fds > 0 {
                violate("socket-left", format!("a failed attempt (errors {errs:?}) left {fds} descriptor(s) open"));
            }
            if alive > 0 {
                violate("thread-left", format!("a failed attempt (errors {errs:?}) left {alive} thread(s) running; {}", states()));
            }
            peers_see_end(&r.h.with(|h| h.order.iter().map(|o| o.1).collect::<Vec<_>>()));
            s().sample = Some(format!("a failed attempt, errors {errs:?}"));
        } else {
            let Some((conn, io, who, w)) = est_check(e, &r) else { return };
            let j = est_use(e, &r, conn, io, who, w);
            nothing_left("after the connection had ended", &j);
            peers_see_end(&r.h.with(|h| h.order.iter().map(|o| o.1).collect::<Vec<_>>()));
            probe("attempt_and_session");
            s().sample = Some(format!("a session after {}", if e.connect { "connect" } else { "listen" }));
        }
        if let (false, Some(a)) = (e.connect, e.addrs.iter().find(|a| !a.bad)) {
            let h = r.h.clone();
            wait_for(EVENTUALLY, move || h.with(|h| h.trying == 0));
            reopen(p.again, a);
        }
        return;
    }
    let Some(jp) = &p.join else { return };
    let mut c = jp.c.clone();
    if c.drain.hold.is_some() || c.recv.is_empty() {
        return;
    }
    c.hold_conn = true;
    let (_, end) = c.expected();
    if end == InEnd::Open && p.gone == 0 {
        return;
    }
    if c.send.iter().any(|s| s.after_disc) && !c.recv.iter().any(|r| r.n == 0) {
        return;
    }
    let mut l = start(&c, 7000);
    if p.gone > 0 {
        let (w, at, reset) = (l.w, p.gone_at, p.gone == 2);
        spawn_peer("peer-goes", move || {
            sleep_us(at);
            peer_gone(w, reset);
        });
    }
    let mut jr = None;
    if jp.join_at != u64::MAX {
        sleep_us(jp.join_at);
        jr = Some(l.join_async());
    }
    if !(l.wait_senders(EVENTUALLY) && l.wait_receivers(EVENTUALLY)) {
        return; // other properties' business
    }
    sleep_us(jp.linger);
    l.drop_conn();
    let j = jr.unwrap_or_else(|| l.join_async());
    let j2 = j.clone();
    if !wait_for(EVENTUALLY, move || j2.with(|x| x.is_some())) {
        return; // C08, C19
    }
    let j = j.with(|x| x.clone()).unwrap();
    nontrivial();
    nothing_left("after the connection had ended", &j);
    if c.tr != STDIO {
        peers_see_end(&[l.w]);
        probe(if p.gone > 0 { "peer_went" } else { "session_over_tcp" });
    } else {
        probe("stdio");
    }
    s().sample = Some(format!("join gave {:?}, transport {}", j.res, c.tr));
    if c.tr == LISTEN {
        reopen(p.again, &AddrPlan { ip: 1, port: 7000, bad: false, ..Default::default() });
    }
}
