T='bsp-server/src/transporter.rs'; L='bsp-server/src/lib.rs'; M='bsp-server/src/message.rs'; R='bsp-server/src/request.rs'; N='bsp-server/src/notification.rs'; I='bsp-server/src/io_thread.rs'; ID='bsp-server/src/request/id.rs'; RS='bsp-server/src/response.rs'
SHORT=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/types.h>
#include <sys/socket.h>
/* accepts at most 900 bytes at a time, as a socket under pressure may */
ssize_t send(int fd, const void *b, size_t n, int fl) {
    ssize_t (*f)(int, const void *, size_t, int) = dlsym(RTLD_NEXT, "send");
    return f(fd, b, n > 900 ? 900 : n, fl);
}
'''
BUGS={
'c01-header': dict(property='C01', needs='a frame with a second header whose value contains ": "', breaks='the frame is refused as malformed, so its message and everything after it are lost',
 edits=[(M,'''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
''','''        let parts: Vec<&str> = buf.split(": ").collect();
        let (header_name, header_value) = match parts[..] {
            [name, value] => (name, value),
            _ => return Err(invalid_data!("malformed header: {:?}", buf)),
        };
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let b = br#"{"jsonrpc":"2.0","id":1,"method":"x/a","params":{}}"#;
    s.write_all(format!("Content-Length: {}\r\nContent-Type: application/x; note=\"a: b\"\r\n\r\n", b.len()).as_bytes()).unwrap();
    s.write_all(b).unwrap();
    match c.receiver.recv_timeout(Duration::from_secs(5)) {
        Ok(Message::Request(r)) if r.method() == "x/a" => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c02-short': dict(property='C02', needs='a transport that accepts only part of a body in one write', breaks='the rest of the body is never written: the frame is torn',
 edits=[(M,'        w.write_all(msg.as_bytes())?;\n','''        // the length is known, so one call is enough
        if w.write(msg.as_bytes())? == 0 {
            return Err(io::ErrorKind::WriteZero.into());
        }
''')],
 shim=SHORT, main=r'''
fn main() {
    let (c, _io, s) = pair();
    let text = "x".repeat(5000);
    c.send(Response::ok(1.into(), &text)).unwrap();
    c.send(Response::ok(2.into(), "second")).unwrap();
    let got = within(5000, move || {
        let mut r = BufReader::new(s);
        (read_frame(&mut r), read_frame(&mut r))
    });
    match got {
        Some((Some(a), Some(b))) if a["result"] == text && b["result"] == "second" => {}
        _ => fail("the frames did not arrive whole"),
    }
}
'''),
'c03-lowprio': dict(property='C03', needs='a log message or progress notification as the last message sent before a pause, over stdio', breaks='the frame stays in the output buffer until some later message flushes it',
 edits=[(M,'''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
''','''        // chatter goes out together with the next real message
        let chatter = matches!(
            self,
            Message::Notification(Notification::LogMessage(_) | Notification::TaskProgress(_))
        );
        let msg = serde_json::to_string(&JsonRpc::from(self))?;
'''),(M,'        w.flush()?;\n        Ok(())','        if !chatter {\n            w.flush()?;\n        }\n        Ok(())')],
 main=r'''
fn main() {
    if mode() == "server" {
        let (c, io) = Connection::stdio();
        let m: Message = serde_json::from_value(json!({"method":"build/logMessage","params":{"type":3,"message":"hello"}})).unwrap();
        c.send(m).unwrap();
        let _ = c.receiver.recv();
        drop(c);
        let _ = io.join();
        return;
    }
    let mut ch = child("server");
    let o = ch.stdout.take().unwrap();
    let got = within(5000, move || read_frame(&mut BufReader::new(o)));
    ch.kill().unwrap();
    ch.wait().unwrap();
    match got {
        Some(Some(v)) if v["method"] == "build/logMessage" => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c04-try': dict(property='C04', needs='a second early request while the answer to the first is still being written', breaks='early requests get no answer when the writer happens to be busy',
 edits=[(L,'''                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
''','''                    let resp = Response::server_not_initialized(req.id().clone(), msg);
                    // a client that does not read must not block the handshake
                    match self.sender.try_send(resp.into()) {
                        Ok(()) | Err(TrySendError::Full(_)) => (),
                        Err(e) => return Err(ProtocolError(e.to_string())),
                    }
''')],
 shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <unistd.h>
ssize_t send(int fd, const void *b, size_t n, int fl) {
    ssize_t (*f)(int, const void *, size_t, int) = dlsym(RTLD_NEXT, "send");
    usleep(3000);
    return f(fd, b, n, fl);
}
''', main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let mut r = BufReader::new(s.try_clone().unwrap());
    thread::spawn(move || c.initialize(|_| 1).is_ok());
    for i in 0..20 {
        s.write_all(&frame(json!({"jsonrpc":"2.0","id":i,"method":"x/early","params":{}}))).unwrap();
    }
    s.write_all(&frame(init_req(100))).unwrap();
    let got = within(20000, move || {
        for i in 0..20 {
            let v = read_frame(&mut r).unwrap();
            if v["id"] != i || v["error"]["code"] != -32002 {
                return format!("request {i} was answered by {v}");
            }
        }
        String::new()
    });
    match got {
        Some(e) if e.is_empty() => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c05-anynotif': dict(property='C05', needs='another notification than initialized after the initialize result', breaks='the handshake reports success although the client never sent initialized',
 edits=[(L,'            Ok(Message::Notification(Notification::Initialized)) => (),\n','''            // some clients name it differently
            Ok(Message::Notification(n)) if !matches!(n, Notification::Exit) => (),
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(init_req(1))).unwrap();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"x/other","params":{}}))).unwrap();
    match within(10000, move || c.initialize(|_| 1).is_ok()) {
        Some(false) => {}
        x => fail(format!("initialize: {x:?}")),
    }
}
'''),
'c06-ignore': dict(property='C06', needs='notifications between the shutdown request and exit', breaks='other messages are swallowed instead of failing the shutdown, and each of them starts the 30 s anew',
 edits=[(L,'''            match &self.receiver.recv_timeout(Duration::from_secs(30)) {
                Ok(Message::Notification(Notification::Exit)) => (),
''','''            let mut next = self.receiver.recv_timeout(Duration::from_secs(30));
            // late notifications are of no interest any more
            while matches!(&next, Ok(Message::Notification(Notification::Custom(..)))) {
                next = self.receiver.recv_timeout(Duration::from_secs(30));
            }
            match &next {
                Ok(Message::Notification(Notification::Exit)) => (),
''')],
 main=r'''
fn main() {
    let (a, b) = Connection::memory();
    b.send(Notification::Custom("x/late", json!(1))).unwrap();
    b.send(Notification::Exit).unwrap();
    match within(10000, move || a.handle_shutdown(&Request::Shutdown(1.into())).is_ok()) {
        Some(false) => {}
        x => fail(format!("handle_shutdown succeeded: {x:?}")),
    }
}
'''),
'c07-drain': dict(property='C07', needs='bytes after the exit notification that arrive in the same packet', breaks='messages after exit are still delivered, and the reader waits for more if a frame is incomplete',
 edits=[(T,'''                    forward(&reader_sender, msg)?;
                    if is_exit {
                        break;
''','''                    forward(&reader_sender, msg)?;
                    if is_exit && buf_read.buffer().is_empty() {
                        break;
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let mut b = frame(json!({"jsonrpc":"2.0","method":"build/exit"}));
    b.extend(frame(json!({"jsonrpc":"2.0","method":"x/after","params":{}})));
    s.write_all(&b).unwrap();
    match c.receiver.recv_timeout(Duration::from_secs(5)) {
        Ok(Message::Notification(Notification::Exit)) => {}
        x => fail(format!("{x:?}")),
    }
    match c.receiver.recv_timeout(Duration::from_secs(3)) {
        Err(crossbeam_channel::RecvTimeoutError::Disconnected) => {}
        x => fail(format!("after exit: {x:?}")),
    }
}
'''),
'c08-flag': dict(property='C08', needs='a reply sent after exit was received, so that the writer sees the end-of-session flag before it', breaks='a message whose send succeeded is dropped by the writer',
 edits=[(T,'''        let (reader_receiver, reader) = {
            let stream = stream.try_clone()?;''','''        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let finished = done.clone();
        let (reader_receiver, reader) = {
            let stream = stream.try_clone()?;'''),
 (T,'''                    if is_exit {
                        break;
                    }
                }
                Ok(())
            });
            (reader_receiver, reader)''','''                    if is_exit {
                        finished.store(true, std::sync::atomic::Ordering::SeqCst);
                        break;
                    }
                }
                Ok(())
            });
            (reader_receiver, reader)'''),
 (T,'''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
            });
            (writer_sender, writer)''','''                for it in writer_receiver {
                    // the session is over: nobody reads this any more
                    if done.load(std::sync::atomic::Ordering::SeqCst) {
                        break;
                    }
                    it.write(&mut stream)?;
                }
                Ok(())
            });
            (writer_sender, writer)''')],
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exit"}))).unwrap();
    let _ = c.receiver.recv_timeout(Duration::from_secs(5));
    thread::sleep(Duration::from_millis(300));
    let sent = c.send(Response::ok(1.into(), "last")).is_ok();
    drop(c);
    let r = within(10000, move || io.join().is_ok());
    let got = within(5000, move || read_frame(&mut BufReader::new(s)));
    if r != Some(true) || (sent && !matches!(&got, Some(Some(v)) if v["result"] == "last")) {
        fail(format!("sent {sent}, join {r:?}, got {got:?}"));
    }
}
'''),
'c09-lossy': dict(property='C09', needs='a body with bytes that are not UTF-8 inside a JSON string', breaks='a damaged message is delivered with replacement characters and the damage is not reported',
 edits=[(M,'    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))','    Ok(Some(String::from_utf8_lossy(&buf).into_owned()))')],
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    s.write_all(&body(b"{\"jsonrpc\":\"2.0\",\"method\":\"x/a\",\"params\":{\"v\":\"\xff\xfe\"}}")).unwrap();
    drop(s);
    let got = c.receiver.recv_timeout(Duration::from_secs(5));
    drop(c);
    let r = within(5000, move || io.join().is_ok());
    if got.is_ok() || r != Some(false) {
        fail(format!("got {got:?}, join ok: {r:?}"));
    }
}
'''),
'c10-retry': dict(property='C10', needs='a write that fails after part of the frame was written, followed by writes that succeed', breaks='the frame is written again after its own fragment: the output is no prefix of the frames, and the failure is not reported',
 edits=[(T,'''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
            });
            (writer_sender, writer)''','''                writer_receiver.into_iter().try_for_each(|it| {
                    // one more try in case the network recovers
                    it.clone()
                        .write(&mut stream)
                        .or_else(|_| it.write(&mut stream))
                })?;
                Ok(())
            });
            (writer_sender, writer)''')],
 shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/socket.h>
/* the third call writes a little, the fourth fails */
ssize_t send(int fd, const void *b, size_t n, int fl) {
    static int k;
    ssize_t (*f)(int, const void *, size_t, int) = dlsym(RTLD_NEXT, "send");
    k++;
    if (k == 3 && n > 4) n = 4;
    if (k == 4) { errno = ENOBUFS; return -1; }
    return f(fd, b, n, fl);
}
''', main=r'''
fn main() {
    let (c, io, mut s) = pair();
    for i in 0..6 {
        let _ = c.send(Response::ok(i.into(), "text of some length"));
    }
    drop(c);
    s.shutdown(std::net::Shutdown::Write).unwrap();
    let r = within(10000, move || io.join().is_ok());
    let mut got = vec![];
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let _ = s.read_to_end(&mut got);
    let mut want = vec![];
    for i in 0..6 {
        want.extend(body(format!("{{\"jsonrpc\":\"2.0\",\"id\":{i},\"result\":\"text of some length\"}}").as_bytes()));
    }
    if !want.starts_with(&got) || r != Some(false) {
        fail(format!("join ok: {r:?}; output {:?}", String::from_utf8_lossy(&got)));
    }
}
'''),
'c11-queue': dict(property='C11', needs='a peer that sends more than the application receives, over TCP', breaks='up to 64 messages are queued instead of one',
 edits=[(T,'''            let stream = stream.try_clone()?;
            let (reader_sender, reader_receiver) = bounded::<Message>(0);
''','''            let stream = stream.try_clone()?;
            let (reader_sender, reader_receiver) = bounded::<Message>(64);
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.set_write_timeout(Some(Duration::from_secs(2))).unwrap();
    let m = frame(json!({"jsonrpc":"2.0","method":"x/a","params":"y".repeat(1 << 20)}));
    // far more than the buffers of the kernel
    let mut n = 0;
    while n < 60 && s.write_all(&m).is_ok() {
        n += 1;
    }
    if n > 40 {
        fail(format!("{n} messages of 1 MB were taken although the application received none"));
    }
}
'''),
'c12-max': dict(property='C12', needs='a timed send with a limit that overflows the clock, such as Duration::MAX', breaks='the send panics instead of waiting',
 edits=[(L,'        self.sender.send_timeout(msg.into(), timeout)','        self.sender.send_deadline(msg.into(), Instant::now() + timeout)')],
 main=r'''
fn main() {
    let (a, b) = Connection::memory();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.send_timeout(Notification::Exit, Duration::MAX).is_ok()));
    if !matches!(r, Ok(true)) || b.receiver.recv_timeout(Duration::from_secs(1)).is_err() {
        fail("send_timeout failed");
    }
}
'''),
'c13-shut': dict(property='C13', needs='input that becomes unreadable or ends while replies are still to be sent', breaks='the end of the input closes the output too',
 edits=[(T,'''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {''','''                let mut input = io::BufReader::with_capacity(16 << 10, stream);
                loop {
                    let msg = match Message::read(&mut input) {
                        Ok(Some(msg)) => msg,
                        Ok(None) => break,
                        Err(e) => {
                            // out of step with the peer: hang up
                            let _ = input.get_ref().shutdown(std::net::Shutdown::Both);
                            return Err(e);
                        }
                    };''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":1,"method":"x/a","params":{}}))).unwrap();
    s.write_all(&body(b"not json")).unwrap();
    while c.receiver.recv_timeout(Duration::from_secs(5)).is_ok() {}
    thread::sleep(Duration::from_millis(200));
    let ok = c.send(Response::ok(1.into(), "reply")).is_ok();
    let got = within(5000, move || read_frame(&mut BufReader::new(s)));
    if !ok || !matches!(&got, Some(Some(v)) if v["result"] == "reply") {
        fail(format!("sent {ok}, got {got:?}"));
    }
}
'''),
'c14-buffer': dict(property='C14', needs='two connections, one of whose peers does not read', breaks='the writer of the stalled connection holds the shared output buffer, so that no other connection can send',
 edits=[(M,'''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''','''        // one buffer for all frames, so that header and body go out together
        static FRAME: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        let mut frame = FRAME.lock().unwrap();
        frame.clear();
        frame.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", msg.len()).as_bytes());
        frame.extend_from_slice(msg.as_bytes());
        w.write_all(&frame)?;
''')],
 main=r'''
fn main() {
    let (a, _io1, _s1) = pair();
    let (b, _io2, s2) = pair();
    // the first peer never reads
    a.send(Response::ok(1.into(), "x".repeat(24 << 20))).unwrap();
    thread::sleep(Duration::from_millis(6000));
    thread::spawn(move || b.send(Response::ok(2.into(), "free")).is_ok());
    let got = within(5000, move || read_frame(&mut BufReader::new(s2)));
    if !matches!(&got, Some(Some(v)) if v["result"] == "free") {
        fail(format!("{got:?}"));
    }
}
'''),
'c15-bound': dict(property='C15', needs='more than 256 messages sent in memory before the other end receives', breaks='a blocking send waits for the receiver',
 edits=[(L,'let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());','''// plenty for a test, and a runaway sender is stopped
        const LIMIT: usize = 256;
        let ((s1, r1), (s2, r2)) = (
            crossbeam_channel::bounded(LIMIT),
            crossbeam_channel::bounded(LIMIT),
        );'''),(L,'use crossbeam_channel::{unbounded, Receiver,','use crossbeam_channel::{Receiver,')],
 main=r'''
fn main() {
    let (a, b) = Connection::memory();
    let r = within(10000, move || {
        for i in 0..2000 {
            a.send(Response::ok(i.into(), 1)).unwrap();
        }
        a
    });
    if r.is_none() {
        fail("send waits for the receiver");
    }
}
'''),
'c16-first': dict(property='C16', needs='a name with several addresses of which the first refuses', breaks='the other addresses are not tried',
 edits=[(L,'        let stream = TcpStream::connect(addr)?;\n','''        let addr = addr.to_socket_addrs()?.next().ok_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "no address to connect to")
        })?;
        let stream = TcpStream::connect(addr)?;
''')],
 main=r'''
fn main() {
    let dead = {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap()
    };
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addrs = [dead, l.local_addr().unwrap()];
    if Connection::connect(&addrs[..]).is_err() {
        fail("the second address was not tried");
    }
}
'''),
'c17-ids': dict(property='C17', needs='a client that uses string ids which look like numbers', breaks='such requests are answered under a numeric id',
 edits=[(ID,'''#[serde(untagged)]
enum IdRepr {''','''#[serde(untagged, from = "RawId")]
enum IdRepr {'''),(ID,'''impl From<i32> for RequestId {''','''#[derive(Deserialize)]
#[serde(untagged)]
enum RawId {
    I32(i32),
    String(String),
}

impl From<RawId> for IdRepr {
    // normalized, so that clients may mix both forms
    fn from(id: RawId) -> IdRepr {
        match id {
            RawId::I32(it) => IdRepr::I32(it),
            RawId::String(it) => match it.parse() {
                Ok(n) => IdRepr::I32(n),
                Err(_) => IdRepr::String(it),
            },
        }
    }
}

impl From<i32> for RequestId {''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":"7","method":"x/a","params":{}}))).unwrap();
    match c.receiver.recv_timeout(Duration::from_secs(5)) {
        Ok(Message::Request(r)) => c.send(Response::ok(r.id().clone(), 1)).unwrap(),
        x => fail(format!("{x:?}")),
    }
    let got = within(5000, move || read_frame(&mut BufReader::new(s)));
    if !matches!(&got, Some(Some(v)) if v["id"] == "7") {
        fail(format!("{got:?}"));
    }
}
'''),
'c18-preview': dict(property='C18', needs='a message whose 80th byte lies inside a multi-byte character', breaks='the reader thread panics',
 edits=[(M,'''        let msg = serde_json::from_str(&text)?;
''','''        let msg = serde_json::from_str(&text).map_err(|e| {
            let head = &text[..text.len().min(80)];
            io::Error::new(io::ErrorKind::InvalidData, format!("{} in {:?}", e, head))
        })?;
''')],
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    s.write_all(&body("{\"jsonrpc\":\"2.0\",\"x\":\"日本語日本語日本語日本語日本語日本語日本語日本語日本語日本語\"}".as_bytes())).unwrap();
    let _ = c.receiver.recv_timeout(Duration::from_secs(5));
    drop(c);
    let r = within(5000, move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| io.join().is_ok())));
    if !matches!(r, Some(Ok(false))) {
        fail("the reader thread panicked");
    }
}
'''),
'c19-swallow': dict(property='C19', needs='a peer that has gone, and sends after that', breaks='sends go on reporting success although the transport has failed',
 edits=[(T,'''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
            });
            (writer_sender, writer)''','''                let mut result = Ok(());
                for it in writer_receiver {
                    // the first failure is what is reported at the end
                    if result.is_ok() {
                        result = it.write(&mut stream);
                    }
                }
                result
            });
            (writer_sender, writer)''')],
 main=r'''
fn main() {
    let (c, _io, s) = pair();
    drop(s);
    let ok = within(20000, move || {
        let mut ok = 0;
        for i in 0..100 {
            ok += c.send(Response::ok(i.into(), "x".repeat(1000))).is_ok() as u32;
            thread::sleep(Duration::from_millis(5));
        }
        ok
    });
    if !matches!(ok, Some(n) if n < 50) {
        fail(format!("{ok:?} of 100 sends to a peer that has gone succeeded"));
    }
}
'''),
'c20-keep': dict(property='C20', needs='a session that ends with exit while the peer has sent more', breaks='the socket stays open after the connection was dropped and the I/O threads were joined',
 edits=[(T,'''                    forward(&reader_sender, msg)?;
                    if is_exit {
                        break;
''','''                    forward(&reader_sender, msg)?;
                    if is_exit {
                        // closing with unread input would reset the connection
                        if !buf_read.buffer().is_empty() {
                            std::mem::forget(buf_read);
                        }
                        break;
''')],
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    let mut b = frame(json!({"jsonrpc":"2.0","method":"build/exit"}));
    b.extend(b"\r\n");
    s.write_all(&b).unwrap();
    while c.receiver.recv_timeout(Duration::from_secs(5)).is_ok() {}
    drop(c);
    let _ = within(5000, move || io.join().is_ok());
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    let mut x = [0; 10];
    if let Err(e) = s.read(&mut x) {
        if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) {
            fail("the connection is still open");
        }
    }
}
'''),
'c21-ids': dict(property='C21', needs='a long session of typed requests', breaks='the id of every initialize or shutdown request is kept for ever',
 edits=[(R,'''                let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                let id =''','''                // responses are matched against these
                static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
                if let (Ok(mut seen), Some(Value::String(id))) = (SEEN.lock(), &id) {
                    if seen.last() != Some(id) {
                        seen.push(id.clone());
                    }
                }

                let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                let id =''')],
 main=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (c, _io, mut s) = pair();
    let mut level = vec![];
    for _ in 0..3 {
        for i in 0..2000 {
            s.write_all(&frame(json!({"jsonrpc":"2.0","id":format!("request-{}", i % 2),"method":"workspace/reload"}))).unwrap();
            if c.receiver.recv_timeout(Duration::from_secs(5)).is_err() {
                fail("no message");
            }
        }
        thread::sleep(Duration::from_millis(300));
        level.push(LIVE.load(SeqCst));
    }
    if level[2] - level[1] > 10000 {
        fail(format!("memory grows: {level:?}"));
    }
}
'''),
}
