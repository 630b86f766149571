//! The libc calls that `std` (and through it the code under test) makes, redirected into the simulator
//! for simulated threads. Everything else goes straight to the kernel.
use crate::core::*;
use crate::raw::*;
use libc::{c_char, c_int, c_long, c_void, iovec, pollfd, size_t, sockaddr, socklen_t, ssize_t, timespec};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};

unsafe fn real(name: &'static [u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        eprint("bspsim: dlsym failed\n");
        exit_group(2);
    }
    p
}
unsafe fn fail(e: i32) -> i64 {
    set_errno(e);
    -1
}
fn virt(fd: c_int) -> bool {
    (0..=2).contains(&fd) || fd >= FD0
}

// ---------------------------------------------------------------- reading and writing
unsafe fn do_read(fd: c_int, b: &mut [u8], peek: bool, dontwait: bool) -> i64 {
    let (p, nb, to) = {
        let sm = s();
        match sm.stream_of(fd) {
            Some((Some(rx), _)) => {
                let (nb, to) = sm.sock(fd).map_or((false, 0), |k| (sm.socks[k].nonblock, sm.socks[k].rcvto));
                (rx, nb || dontwait, to)
            }
            Some(_) => return fail(libc::EBADF),
            None => {
                if sm.sock(fd).is_some() {
                    return fail(libc::ENOTCONN);
                }
                sm.stat("bad_fd_read");
                return fail(libc::EBADF);
            }
        }
    };
    match sut_read(p, b, nb, to, peek) {
        IoR::N(n) => n as i64,
        IoR::Err(e) => fail(e),
    }
}
unsafe fn do_write(fd: c_int, b: &[u8], dontwait: bool) -> i64 {
    let (p, nb, to) = {
        let sm = s();
        if fd == 2 {
            let _g = Guard::new();
            if sm.stderr.len() < 1 << 20 {
                sm.stderr.extend_from_slice(b);
            }
            return b.len() as i64;
        }
        match sm.stream_of(fd) {
            Some((_, Some(tx))) => {
                let (nb, to) = sm.sock(fd).map_or((false, 0), |k| (sm.socks[k].nonblock, sm.socks[k].sndto));
                (tx, nb || dontwait, to)
            }
            Some(_) => return fail(libc::EBADF),
            None => {
                if sm.sock(fd).is_some() {
                    return fail(libc::ENOTCONN);
                }
                sm.stat("bad_fd_write");
                return fail(libc::EBADF);
            }
        }
    };
    match sut_write(p, b, nb, to) {
        IoR::N(n) => n as i64,
        IoR::Err(e) => fail(e),
    }
}
unsafe fn sl<'a>(b: *const c_void, n: size_t) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(b as *const u8, n)
    }
}
unsafe fn slm<'a>(b: *mut c_void, n: size_t) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(b as *mut u8, n)
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if on() && virt(fd) {
        return do_read(fd, slm(b, n), false, false) as ssize_t;
    }
    ret(sys6(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if on() && virt(fd) {
        for i in 0..c.max(0) as usize {
            let io = &*v.add(i);
            if io.iov_len > 0 {
                return do_read(fd, slm(io.iov_base, io.iov_len), false, false) as ssize_t;
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_readv, fd as i64, v as i64, c as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if on() && virt(fd) {
        let (pk, dw) = (fl & libc::MSG_PEEK != 0, fl & libc::MSG_DONTWAIT != 0);
        return do_read(fd, slm(b, n), pk, dw) as ssize_t;
    }
    ret(sys6(libc::SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if on() && virt(fd) {
        return recv(fd, b, n, fl);
    }
    ret(sys6(libc::SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if on() && virt(fd) {
        return do_write(fd, sl(b, n), false) as ssize_t;
    }
    ret(sys6(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if on() && virt(fd) {
        // one gathered write; may be short
        let _g = Guard::new();
        let mut all: Vec<u8> = Vec::new();
        for i in 0..c.max(0) as usize {
            let io = &*v.add(i);
            all.extend_from_slice(sl(io.iov_base, io.iov_len));
        }
        drop(_g);
        let r = do_write(fd, &all, false) as ssize_t;
        let _g = Guard::new();
        drop(all);
        return r;
    }
    ret(sys6(libc::SYS_writev, fd as i64, v as i64, c as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if on() && virt(fd) {
        return do_write(fd, sl(b, n), fl & libc::MSG_DONTWAIT != 0) as ssize_t;
    }
    ret(sys6(libc::SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if on() && virt(fd) {
        return send(fd, b, n, fl);
    }
    ret(sys6(libc::SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64)) as ssize_t
}

// ---------------------------------------------------------------- sockets
unsafe fn port_of(a: *const sockaddr) -> u16 {
    u16::from_be((*(a as *const libc::sockaddr_in)).sin_port)
}
unsafe fn ip_of(a: *const sockaddr) -> u8 {
    if (*a).sa_family as c_int == libc::AF_INET6 {
        let b = (*(a as *const libc::sockaddr_in6)).sin6_addr.s6_addr;
        return if b == [0; 16] { 0 } else { 128 | b[15] };
    }
    (*(a as *const libc::sockaddr_in)).sin_addr.s_addr.to_ne_bytes()[3] & 127
}
/// 1..99: 127.0.0.x, 100..127: 192.168.7.x, 129..227: ::x, 228..255: fd00::x
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, port: u16, ip: u8) {
    if a.is_null() || l.is_null() {
        return;
    }
    if ip >= 128 {
        let mut x: libc::sockaddr_in6 = std::mem::zeroed();
        x.sin6_family = libc::AF_INET6 as u16;
        x.sin6_port = port.to_be();
        x.sin6_addr.s6_addr[15] = ip & 127;
        if ip >= 228 {
            x.sin6_addr.s6_addr[0] = 0xfd;
        }
        let n = (std::mem::size_of::<libc::sockaddr_in6>()).min(*l as usize);
        std::ptr::copy_nonoverlapping(&x as *const _ as *const u8, a as *mut u8, n);
        *l = std::mem::size_of::<libc::sockaddr_in6>() as socklen_t;
        return;
    }
    let mut x: libc::sockaddr_in = std::mem::zeroed();
    x.sin_family = libc::AF_INET as u16;
    x.sin_port = port.to_be();
    x.sin_addr.s_addr = u32::from_ne_bytes(if ip >= 100 { [192, 168, 7, ip] } else { [127, 0, 0, ip.max(1)] });
    let n = (std::mem::size_of::<libc::sockaddr_in>()).min(*l as usize);
    std::ptr::copy_nonoverlapping(&x as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
}
fn planned(list: &[(u32, i32)], n: u32) -> Option<i32> {
    list.iter().find(|x| x.0 == n).map(|x| x.1)
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if on() {
        let _g = Guard::new();
        point();
        let sm = s();
        let n = sm.socket_n;
        sm.socket_n += 1;
        if let Some(e) = planned(&sm.socket_fail, n) {
            sm.stat("fault:socket_error");
            sm.os_errs.push(e);
            sm.ev("socket ERR", e as u64, 0);
            return fail(e) as c_int;
        }
        let k = sm.new_sock(SockKind::Fresh, true);
        sm.socks[k].nonblock = t & libc::SOCK_NONBLOCK != 0;
        return match sm.new_fd(k) {
            Some(fd) => {
                sm.ev("socket", fd as u64, 0);
                fd
            }
            None => {
                sm.stat("fault:emfile");
                sm.os_errs.push(libc::EMFILE);
                fail(libc::EMFILE) as c_int
            }
        };
    }
    ret(sys6(libc::SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if on() && virt(fd) {
        let _g = Guard::new();
        point();
        let sm = s();
        let n = sm.bind_n;
        sm.bind_n += 1;
        let mut port = port_of(a);
        let ip = ip_of(a);
        if let Some(e) = planned(&sm.bind_fail, n) {
            sm.stat("fault:bind_error");
            sm.os_errs.push(e);
            sm.ev("bind ERR", e as u64, 0);
            return fail(e) as c_int;
        }
        let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
        if port == 0 {
            port = sm.next_port;
            sm.next_port += 1;
        } else if sm.find_listener(port, ip).is_some() {
            sm.stat("fault:addr_in_use");
            sm.os_errs.push(libc::EADDRINUSE);
            sm.ev("bind in use", port as u64, 0);
            return fail(libc::EADDRINUSE) as c_int;
        }
        sm.socks[k].port = port;
        sm.socks[k].ip = ip;
        sm.ev("bind", port as u64, 0);
        return 0;
    }
    ret(sys6(libc::SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if on() && virt(fd) {
        let _g = Guard::new();
        point();
        let sm = s();
        let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
        let port = sm.socks[k].port;
        let nth = sm.listen_n;
        sm.listen_n += 1;
        if let Some(e) = planned(&sm.listen_fail, nth) {
            sm.stat("fault:listen_error");
            sm.os_errs.push(e);
            sm.ev("listen ERR", e as u64, 0);
            return fail(e) as c_int;
        }
        if sm.find_listener(port, sm.socks[k].ip).is_some() {
            sm.os_errs.push(libc::EADDRINUSE);
            return fail(libc::EADDRINUSE) as c_int;
        }
        sm.socks[k].kind = SockKind::Listener { port, backlog: Default::default(), max: n.max(1) as usize };
        sm.listening.push(k);
        sm.ev("listen", port as u64, n as u64);
        return 0;
    }
    ret(sys6(libc::SYS_listen, fd as i64, n as i64, 0, 0, 0, 0)) as c_int
}
unsafe fn do_accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    let _g = Guard::new();
    point();
    let Some(k) = s().sock(fd) else { return fail(libc::EBADF) as c_int };
    loop {
        let sm = s();
        let n = sm.accept_n;
        sm.accept_n += 1;
        if let Some(e) = planned(&sm.accept_fail, n) {
            sm.stat(if e == libc::EINTR { "fault:accept_eintr" } else { "fault:accept_error" });
            if e != libc::EINTR {
                sm.os_errs.push(e);
            }
            sm.ev("accept ERR", e as u64, 0);
            return fail(e) as c_int;
        }
        match &mut sm.socks[k].kind {
            SockKind::Listener { backlog, .. } => {
                if let Some(c) = backlog.pop_front() {
                    let Some(nfd) = sm.new_fd(c) else {
                        // the connection stays queued
                        if let SockKind::Listener { backlog, .. } = &mut sm.socks[k].kind {
                            backlog.push_front(c);
                        }
                        sm.stat("fault:emfile");
                        sm.os_errs.push(libc::EMFILE);
                        return fail(libc::EMFILE) as c_int;
                    };
                    sm.socks[c].nonblock = fl & libc::SOCK_NONBLOCK != 0;
                    put_addr(a, l, sm.socks[c].peer_port, sm.socks[c].peer_ip);
                    sm.ev("accept", nfd as u64, 0);
                    return nfd;
                }
            }
            _ => return fail(libc::EINVAL) as c_int,
        }
        if sm.socks[k].nonblock {
            return fail(libc::EAGAIN) as c_int;
        }
        if block(Wait::Accept(k), None) == Woke::Intr {
            return fail(libc::EINTR) as c_int;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    if on() && virt(fd) {
        return do_accept(fd, a, l, fl);
    }
    ret(sys6(libc::SYS_accept4, fd as i64, a as i64, l as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if on() && virt(fd) {
        let _g = Guard::new();
        maybe_stall();
        point();
        let sm = s();
        let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
        let n = sm.connect_n;
        sm.connect_n += 1;
        if matches!(sm.socks[k].kind, SockKind::Stream { .. }) {
            return fail(libc::EISCONN) as c_int;
        }
        let port = port_of(a);
        if let Some(e) = planned(&sm.connect_fail, n) {
            sm.stat(if e == libc::EINTR { "fault:connect_eintr" } else { "fault:connect_error" });
            sm.ev("connect ERR", e as u64, 0);
            if e == libc::EINTR {
                // the connection goes on being made
                if let Ok((rx, tx, cport)) = sm.tcp_connect(port, ip_of(a), true) {
                    sm.socks[k].kind = SockKind::Stream { rx, tx };
                    sm.socks[k].port = cport;
                    sm.socks[k].peer_port = port;
                (sm.socks[k].ip, sm.socks[k].peer_ip) = (ip_of(a), ip_of(a));
                }
                return fail(e) as c_int;
            }
            sm.os_errs.push(e);
            if e == libc::ETIMEDOUT {
                sleep_us(127_000_000);
            }
            return fail(e) as c_int;
        }
        return match sm.tcp_connect(port, ip_of(a), true) {
            Ok((rx, tx, cport)) => {
                sm.socks[k].kind = SockKind::Stream { rx, tx };
                sm.socks[k].port = cport;
                sm.socks[k].peer_port = port;
                (sm.socks[k].ip, sm.socks[k].peer_ip) = (ip_of(a), ip_of(a));
                0
            }
            Err(e) => {
                sm.stat("fault:connect_refused");
                sm.os_errs.push(e);
                sm.ev("connect refused", e as u64, 0);
                fail(e) as c_int
            }
        };
    }
    ret(sys6(libc::SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if on() && virt(fd) {
        let _g = Guard::new();
        point();
        let sm = s();
        let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
        let SockKind::Stream { rx, tx } = sm.socks[k].kind else { return fail(libc::ENOTCONN) as c_int };
        if how != libc::SHUT_RD {
            sm.close_write(tx);
        }
        if how != libc::SHUT_WR {
            sm.pipes[rx].rdshut = true;
        }
        sm.ev("shutdown", fd as u64, how as u64);
        return 0;
    }
    ret(sys6(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if on_or_in() && fd >= FD0 {
        let _g = Guard::new();
        let sm = s();
        sm.ev("close", fd as u64, 0);
        if !sm.close_fd(fd) {
            sm.stat("bad_fd_close");
            return fail(libc::EBADF) as c_int;
        }
        return 0;
    }
    if on() && virt(fd) {
        let _g = Guard::new();
        let sm = s();
        sm.ev("close std", fd as u64, 0);
        if fd == 0 {
            if let Some(p) = sm.stdin.take() {
                sm.close_read(p);
            }
        } else if fd == 1 {
            if let Some(p) = sm.stdout.take() {
                sm.close_write(p);
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn do_dup(fd: c_int) -> c_int {
    let _g = Guard::new();
    point();
    let sm = s();
    let n = sm.dup_n;
    sm.dup_n += 1;
    if let Some(e) = planned(&sm.dup_fail, n) {
        sm.stat("fault:dup_error");
        sm.os_errs.push(e);
        sm.ev("dup ERR", e as u64, 0);
        return fail(e) as c_int;
    }
    if fd <= 2 {
        return fail(libc::EMFILE) as c_int;
    }
    let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
    match sm.new_fd(k) {
        Some(x) => {
            sm.ev("dup", fd as u64, x as u64);
            x
        }
        None => {
            sm.stat("fault:emfile");
            sm.os_errs.push(libc::EMFILE);
            fail(libc::EMFILE) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if on() && virt(fd) {
        return do_dup(fd);
    }
    ret(sys6(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if on_or_in() && virt(fd) {
        let sm = s();
        if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
            return do_dup(fd);
        }
        if fd >= FD0 && sm.sock(fd).is_none() {
            return fail(libc::EBADF) as c_int;
        }
        return match cmd {
            libc::F_GETFD | libc::F_SETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => {
                let nb = sm.sock(fd).map_or(false, |k| sm.socks[k].nonblock);
                libc::O_RDWR | if nb { libc::O_NONBLOCK } else { 0 }
            }
            libc::F_SETFL => {
                if let Some(k) = sm.sock(fd) {
                    sm.socks[k].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
                }
                0
            }
            _ => 0,
        };
    }
    ret(sys6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    if on() && virt(fd) {
        let sm = s();
        if let Some(k) = sm.sock(fd) {
            if req == libc::FIONBIO {
                sm.socks[k].nonblock = *(arg as *const c_int) != 0;
            }
            return 0;
        }
        return fail(libc::ENOTTY) as c_int;
    }
    ret(sys6(libc::SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if on() && virt(fd) {
        return fail(libc::ENOTTY) as c_int + 1;
    }
    let mut t: [u8; 256] = [0; 256];
    (ret(sys6(libc::SYS_ioctl, fd as i64, libc::TCGETS as i64, t.as_mut_ptr() as i64, 0, 0, 0)) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(f: *mut pollfd, n: libc::nfds_t, ms: c_int) -> c_int {
    if on() && n > 0 && (0..n as usize).all(|i| virt((*f.add(i)).fd) || (*f.add(i)).fd < 0) {
        let _g = Guard::new();
        point();
        let list: Vec<(i32, i16)> = (0..n as usize).map(|i| ((*f.add(i)).fd, (*f.add(i)).events)).collect();
        let dl = if ms >= 0 { Some(s().now + ms as u64 * 1_000_000) } else { None };
        loop {
            let mut c = 0;
            for i in 0..n as usize {
                let r = s().poll1(list[i].0, list[i].1);
                (*f.add(i)).revents = r;
                c += (r != 0) as c_int;
            }
            if c > 0 {
                return c;
            }
            if dl.map_or(false, |d| d <= s().now) {
                return 0;
            }
            match block(Wait::Poll(list.clone()), dl) {
                Woke::Intr => return fail(libc::EINTR) as c_int,
                _ => {}
            }
        }
    }
    ret(sys6(libc::SYS_poll, f as i64, n as i64, ms as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if on() && virt(fd) {
        let sm = s();
        let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
        if lv == libc::SOL_SOCKET && (o == libc::SO_RCVTIMEO || o == libc::SO_SNDTIMEO) {
            let tv = &*(v as *const libc::timeval);
            let ns = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
            if o == libc::SO_RCVTIMEO {
                sm.socks[k].rcvto = ns;
            } else {
                sm.socks[k].sndto = ns;
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if on() && virt(fd) {
        let sm = s();
        let Some(k) = sm.sock(fd) else { return fail(libc::EBADF) as c_int };
        if lv == libc::SOL_SOCKET && (o == libc::SO_RCVTIMEO || o == libc::SO_SNDTIMEO) {
            let ns = if o == libc::SO_RCVTIMEO { sm.socks[k].rcvto } else { sm.socks[k].sndto };
            let tv = &mut *(v as *mut libc::timeval);
            tv.tv_sec = (ns / 1_000_000_000) as i64;
            tv.tv_usec = (ns % 1_000_000_000 / 1000) as i64;
            return 0;
        }
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
        return 0;
    }
    ret(sys6(libc::SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if on() && virt(fd) {
        let Some(k) = s().sock(fd) else { return fail(libc::EBADF) as c_int };
        put_addr(a, l, s().socks[k].port, s().socks[k].ip);
        return 0;
    }
    ret(sys6(libc::SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if on() && virt(fd) {
        let Some(k) = s().sock(fd) else { return fail(libc::EBADF) as c_int };
        if !matches!(s().socks[k].kind, SockKind::Stream { .. }) {
            return fail(libc::ENOTCONN) as c_int;
        }
        put_addr(a, l, s().socks[k].peer_port, s().socks[k].peer_ip);
        return 0;
    }
    ret(sys6(libc::SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    f: Start,
    arg: *mut c_void,
    slot: usize,
}
static END_KEY: AtomicU64 = AtomicU64::new(u64::MAX);
unsafe extern "C" fn end_key_dtor(p: *mut c_void) {
    // runs once per destructor round; the slot ends in the last round, after every other destructor
    let v = p as usize;
    let (round, slot) = (v & 7, v >> 3);
    if round < 3 {
        libc::pthread_setspecific(END_KEY.load(Relaxed) as libc::pthread_key_t, ((slot << 3) | (round + 1)) as *const c_void);
    } else {
        thread_end(slot as *mut u8);
    }
}
pub unsafe fn init_keys() {
    let mut k: libc::pthread_key_t = 0;
    libc::pthread_key_create(&mut k, Some(end_key_dtor));
    END_KEY.store(k as u64, Relaxed);
}
extern "C" fn tramp(a: *mut c_void) -> *mut c_void {
    unsafe {
        INSIM.with(|t| t.set(1));
        let b = Box::from_raw(a as *mut Boot);
        let Boot { f, arg, slot } = *b;
        libc::pthread_setspecific(END_KEY.load(Relaxed) as libc::pthread_key_t, ((slot << 3) | 1) as *const c_void);
        thread_begin(slot);
        INSIM.with(|t| t.set(0));
        f(arg)
    }
}
pub static mut NEXT_ROLE: Option<&'static str> = None;
static REAL_CREATE: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
static REAL_JOIN: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
static REAL_DETACH: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
unsafe fn cached(c: &AtomicPtr<c_void>, n: &'static [u8]) -> *mut c_void {
    let p = c.load(Relaxed);
    if !p.is_null() {
        return p;
    }
    let p = real(n);
    c.store(p, Relaxed);
    p
}
pub unsafe fn prime() {
    cached(&REAL_CREATE, b"pthread_create\0");
    cached(&REAL_JOIN, b"pthread_join\0");
    cached(&REAL_DETACH, b"pthread_detach\0");
}
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let rc: CreateFn = std::mem::transmute(cached(&REAL_CREATE, b"pthread_create\0"));
    if !on() {
        return rc(t, at, f, arg);
    }
    let _g = Guard::new();
    let role = std::mem::replace(&mut *std::ptr::addr_of_mut!(NEXT_ROLE), None).unwrap_or("lib");
    let slot = new_thread(role);
    let b = Box::into_raw(Box::new(Boot { f, arg, slot }));
    let r = rc(t, at, tramp, b as *mut c_void);
    if r != 0 {
        harness_error(format!("pthread_create failed: {r}"));
    }
    s().thr[slot].pthread = *t as u64;
    s().ev("spawn", slot as u64, 0);
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    let rj: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(cached(&REAL_JOIN, b"pthread_join\0"));
    if on() {
        let _g = Guard::new();
        let sm = s();
        if let Some(k) = sm.thr.iter().position(|x| x.pthread == t as u64 && !x.joined && !x.detached) {
            point();
            while !matches!(s().thr[k].wait, Wait::Done) {
                block(Wait::Join(k), None);
            }
            s().thr[k].joined = true;
        }
        return rj(t, v);
    }
    rj(t, v)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    let rd: unsafe extern "C" fn(libc::pthread_t) -> c_int = std::mem::transmute(cached(&REAL_DETACH, b"pthread_detach\0"));
    if on_or_in() {
        let sm = s();
        if let Some(k) = sm.thr.iter().position(|x| x.pthread == t as u64 && !x.joined && !x.detached) {
            sm.thr[k].detached = true;
        }
    }
    rd(t)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() {
        yield_now();
        return 0;
    }
    ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- futex, randomness and the rest of syscall(2)
unsafe fn do_futex(a: usize, op: c_int, v: u32, to: *const timespec) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let _g = Guard::new();
            point();
            if std::ptr::read_volatile(a as *const u32) != v {
                return fail(libc::EAGAIN);
            }
            let sm = s();
            let dl = if to.is_null() {
                None
            } else {
                let ns = ((*to).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*to).tv_nsec as u64);
                Some(if cmd == libc::FUTEX_WAIT {
                    sm.now.saturating_add(ns)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (ns as i128 - realtime_base() as i128 - sm.rt_skew as i128).max(0) as u64
                } else {
                    ns
                })
            };
            if dl.map_or(false, |d| d <= sm.now) {
                return fail(libc::ETIMEDOUT);
            }
            if sm.env.spur > 0 {
                let p = sm.env.spur;
                if sm.dec(K::Spur, |r| r.permille(p) as u64) != 0 {
                    sm.ev("spurious", 0, 0);
                    return 0;
                }
            }
            sm.ev("wait", v as u64, 0);
            match block(Wait::Futex(a, v), dl) {
                Woke::Ready => 0,
                Woke::Timeout => fail(libc::ETIMEDOUT),
                Woke::Intr => fail(libc::EINTR),
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let _g = Guard::new();
            let sm = s();
            let mut n = 0i64;
            let mut who = 0u64;
            let max = if v > i32::MAX as u32 { i32::MAX as i64 } else { v as i64 };
            while n < max {
                let c: Vec<usize> = (0..sm.thr.len())
                    .filter(|&i| matches!(sm.thr[i].wait, Wait::Futex(x, _) if x == a) && !sm.thr[i].woken)
                    .collect();
                if c.is_empty() {
                    break;
                }
                let len = c.len() as u64;
                let ix = if len > 1 { sm.dec(K::Wake, |r| r.below(len)) as usize } else { 0 };
                let w = c[ix.min(c.len() - 1)];
                sm.thr[w].woken = true;
                who = who.wrapping_mul(64).wrapping_add(w as u64 + 1);
                n += 1;
            }
            sm.ev("wake", who, n as u64);
            point();
            n
        }
        _ => fail(libc::ENOSYS),
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && on() {
        return do_futex(a as usize, b as c_int, c as u32, d as *const timespec) as c_long;
    }
    if n == libc::SYS_getrandom && on() {
        fill(a as *mut u8, b as usize);
        return b;
    }
    if n == libc::SYS_clock_gettime && on() {
        return clock_gettime(a as i32, b as *mut timespec) as c_long;
    }
    ret(sys6(n, a, b, c, d, e, f)) as c_long
}
unsafe fn fill(p: *mut u8, n: usize) {
    let _g = Guard::new();
    let sm = s();
    for i in 0..n {
        *p.add(i) = sm.dec(K::Rand, |r| r.below(256)) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: libc::c_uint) -> ssize_t {
    if on() {
        fill(p as *mut u8, n);
        return n as ssize_t;
    }
    ret(sys6(libc::SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0)) as ssize_t
}

// ---------------------------------------------------------------- clocks
pub fn realtime_base() -> u64 {
    1_700_000_000_000_000_000
}
unsafe fn sim_time(realtime: bool) -> u64 {
    let sm = s();
    if !realtime {
        return sm.now;
    }
    if sm.env.jump > 0 {
        let _g = Guard::new();
        let p = sm.env.jump;
        let j = sm.dec(K::Misc, |r| if r.permille(p) { r.range(1, 7200 * 2) } else { 0 });
        if j > 0 {
            sm.stat("fault:clock_jump");
            sm.rt_skew += (j as i64 - 7200) * 1_000_000_000;
        }
    }
    (realtime_base() as i64 + sm.now as i64 + sm.rt_skew) as u64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut timespec) -> c_int {
    if on_or_in() {
        let rt = matches!(c, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI);
        let ns = sim_time(rt);
        (*t).tv_sec = (ns / 1_000_000_000) as i64;
        (*t).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys6(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut c_void) -> c_int {
    if on_or_in() {
        let ns = sim_time(true);
        (*t).tv_sec = (ns / 1_000_000_000) as i64;
        (*t).tv_usec = (ns % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    ret(sys6(libc::SYS_gettimeofday, t as i64, z as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, r: *mut timespec) -> c_int {
    if on() {
        let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        let d = s().now + ns;
        sleep_until(d);
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, t as i64, r as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, fl: c_int, t: *const timespec, r: *mut timespec) -> c_int {
    if on() {
        let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        let d = if fl & libc::TIMER_ABSTIME != 0 {
            if c == libc::CLOCK_REALTIME {
                (ns as i64 - realtime_base() as i64 - s().rt_skew).max(0) as u64
            } else {
                ns
            }
        } else {
            s().now + ns
        };
        sleep_until(d);
        return 0;
    }
    (-sys6(libc::SYS_clock_nanosleep, c as i64, fl as i64, t as i64, r as i64, 0, 0)) as c_int
}

// ---------------------------------------------------------------- ends of the process
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if on_or_in() {
        violate("process-exit", format!("the code under test ended the process with exit({code}) on a {} thread", s().thr[tid()].role));
    }
    let f: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real(b"exit\0"));
    f(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if on_or_in() {
        violate("process-exit", format!("the code under test ended the process with _exit({code})"));
    }
    exit_group(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if on_or_in() {
        let e = String::from_utf8_lossy(&s().stderr).chars().take(300).collect::<String>();
        violate("abort", format!("the process was aborted on a {} thread; stderr: {e:?}", s().thr[tid()].role));
    }
    sys6(libc::SYS_kill, sys6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0), 6, 0, 0, 0, 0);
    exit_group(134)
}
