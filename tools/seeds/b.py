T='bsp-server/src/transporter.rs'; L='bsp-server/src/lib.rs'; M='bsp-server/src/message.rs'; R='bsp-server/src/request.rs'; N='bsp-server/src/notification.rs'; I='bsp-server/src/io_thread.rs'; ID='bsp-server/src/request/id.rs'; RS='bsp-server/src/response.rs'
TCPW='''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
'''
RECVFAIL=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <stdlib.h>
/* after a first read, reading fails as on a connection the peer has reset */
static int n;
ssize_t recv(int fd, void *b, size_t l, int fl) {
    ssize_t (*f)(int, void *, size_t, int) = dlsym(RTLD_NEXT, "recv");
    if (!getenv("RESET")) return f(fd, b, l, fl);
    if (n++ > 0) { errno = ECONNRESET; return -1; }
    return f(fd, b, l, fl);
}
'''
BUGS={
'c01-longheader': dict(property='C01', needs='a header line of more than 256 bytes', breaks='the frame is refused, so its message and everything after it are lost',
 edits=[(M,'        if inp.read_line(&mut buf)? == 0 {\n','''        // a line this long is no header
        if (&mut *inp).take(256).read_line(&mut buf)? == 0 {
'''),(M,'use std::io::{self, Read};','use std::io::{self, BufRead, Read};')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let b = br#"{"jsonrpc":"2.0","id":1,"method":"x/a","params":{}}"#;
    s.write_all(format!("X-Trace: {}\r\nContent-Length: {}\r\n\r\n", "t".repeat(400), b.len()).as_bytes()).unwrap();
    s.write_all(b).unwrap();
    match c.receiver.recv_timeout(Duration::from_secs(5)) {
        Ok(Message::Request(r)) if r.method() == "x/a" => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c02-wtimeout': dict(property='C02', needs='a peer that does not read for more than 10 s while a message larger than the socket buffers is written', breaks='the write is given up in the middle of a frame whose send had succeeded',
 edits=[(T,'            let mut stream = stream;\n','''            // do not hang for ever on a peer that is gone
            let mut stream = match stream.set_write_timeout(Some(std::time::Duration::from_secs(10))) {
                Ok(()) => stream,
                Err(err) => return Err(err),
            };
''')],
 main=r'''
fn main() {
    let (c, _io, s) = pair();
    let text = "x".repeat(16_000_000);
    c.send(Response::ok(1.into(), &text)).unwrap();
    thread::sleep(Duration::from_secs(32));
    let got = within(20000, move || read_frame(&mut BufReader::new(s)));
    if !matches!(&got, Some(Some(v)) if v["result"] == text) {
        fail("the frame did not arrive whole");
    }
}
'''),
'c04-exitlike': dict(property='C04', needs='a notification before initialize whose method merely starts with build/exit', breaks='the handshake fails although only an early notification came',
 edits=[(L,'''if !matches!(msg, Notification::Exit) => {
                    tracing::error!(''','''if !msg.method().starts_with("build/exit") => {
                    tracing::warn!('''),
  (L,'''                // Respond to non-initialize requests with ServerNotInitialized
                Ok(Message::Request(req)) => {
                    let msg = format!("expected initialize request, got {:?}", req);
''','''                // Respond to non-initialize requests with ServerNotInitialized
                Ok(Message::Request(req)) => {
                    let msg = format!("expected the initialize request, got {:?}", req);
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exitStatus","params":{}}))).unwrap();
    s.write_all(&frame(init_req(1))).unwrap();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/initialized","params":{}}))).unwrap();
    if within(5000, move || c.initialize(|_| 1).is_ok()) != Some(true) {
        fail("the handshake failed");
    }
}
'''),
'c05-stale': dict(property='C05', needs='a response from the client between the initialize result and initialized', breaks='messages other than initialized are passed over instead of failing the handshake',
 edits=[(L,'''        match &self.receiver.recv() {
            Ok(Message::Notification(Notification::Initialized)) => (),
''','''        // an answer to nothing we asked is of no interest
        let next = self
            .receiver
            .iter()
            .find(|msg| !matches!(msg, Message::Response(_)))
            .ok_or(crossbeam_channel::RecvError);
        match &next {
            Ok(Message::Notification(Notification::Initialized)) => (),
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(init_req(1))).unwrap();
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":1,"result":{}}))).unwrap();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/initialized","params":{}}))).unwrap();
    let r = within(5000, move || c.initialize(|_| 1).is_ok());
    if r != Some(false) {
        fail(format!("success: {r:?}"));
    }
}
'''),
'c06-wallclock': dict(property='C06', needs='the wall clock being set forward while waiting for exit', breaks='the wait ends long before 30 seconds have passed',
 edits=[(L,'self.receiver.recv_timeout(Duration::from_secs(30))','self.next_until(std::time::SystemTime::now() + Duration::from_secs(30))'),
 (L,'''    /// delegates to self.sender
    pub fn send<T''','''    /// The next message, if one comes before the given time.
    fn next_until(
        &self,
        end: std::time::SystemTime,
    ) -> Result<Message, crossbeam_channel::RecvTimeoutError> {
        loop {
            match self.receiver.recv_timeout(Duration::from_millis(250)) {
                Err(crossbeam_channel::RecvTimeoutError::Timeout)
                    if std::time::SystemTime::now() < end => {}
                other => return other,
            }
        }
    }

    /// delegates to self.sender
    pub fn send<T''')],
 shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
/* the wall clock is set forward by an hour two seconds into the program */
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*f)(clockid_t, struct timespec *);
    static time_t first;
    struct timespec m;
    if (!f) f = dlsym(RTLD_NEXT, "clock_gettime");
    int r = f(c, t);
    f(CLOCK_MONOTONIC, &m);
    if (!first) first = m.tv_sec;
    if (c == CLOCK_REALTIME && m.tv_sec - first > 2) t->tv_sec += 3600;
    return r;
}
''',
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":3,"method":"build/shutdown"}))).unwrap();
    let Ok(Message::Request(q)) = c.receiver.recv_timeout(Duration::from_secs(5)) else { fail("no request") };
    thread::spawn(move || {
        thread::sleep(Duration::from_secs(8));
        s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exit"}))).unwrap();
        thread::sleep(Duration::from_secs(60));
    });
    let r = within(40000, move || c.handle_shutdown(&q).map_err(|e| e.to_string()));
    if !matches!(r, Some(Ok(true))) {
        fail(format!("{r:?}"));
    }
}
'''),
'c07-params': dict(property='C07', needs='an exit notification that carries a params member', breaks='it does not end the input',
 edits=[(N,'"build/exit" => Exit,','"build/exit" if params.is_null() => Exit,')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exit","params":{}}))).unwrap();
    let first = c.receiver.recv_timeout(Duration::from_secs(5));
    match c.receiver.recv_timeout(Duration::from_secs(3)) {
        Err(crossbeam_channel::RecvTimeoutError::Disconnected) => {}
        x => fail(format!("after exit ({first:?}): {x:?}")),
    }
}
'''),
'c08-grace': dict(property='C08', needs='a peer that takes the last output slowly', breaks='waiting returns before the accepted messages are written',
 edits=[(I,'''        let writer = self.writer.join();
''','''        // give the writer some time to finish, but do not hang
        let end = std::time::Instant::now() + std::time::Duration::from_secs(3);
        while !self.writer.is_finished() {
            if std::time::Instant::now() > end {
                return Ok(());
            }
            thread::sleep(std::time::Duration::from_millis(5));
        }
        let writer = self.writer.join();
''')],
 main=r'''
fn main() {
    if mode() == "server" {
        let (c, io) = Connection::stdio();
        c.send(Response::ok(1.into(), "y".repeat(300_000))).unwrap();
        drop(c);
        let _ = io.join();
        exit(0);
    }
    let mut ch = child("server");
    drop(ch.stdin.take());
    let o = ch.stdout.take().unwrap();
    let n = within(60000, move || {
        thread::sleep(Duration::from_secs(8));
        let mut r = BufReader::new(o);
        std::iter::from_fn(|| read_frame(&mut r)).count()
    });
    ch.wait().unwrap();
    if n != Some(1) {
        fail("the message did not arrive whole");
    }
}
'''),
'c09-noexit': dict(property='C09', needs='a peer that closes the connection between frames without an exit notification', breaks='a clean end of the input is reported as an error',
 edits=[(T,'''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit''','''                let mut input = io::BufReader::with_capacity(16 << 10, stream);
                loop {
                    let msg = match Message::read(&mut input)? {
                        Some(msg) => msg,
                        // only exit ends a session in order
                        None => return Err(io::ErrorKind::UnexpectedEof.into()),
                    };
                    let is_exit''')],
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":1,"method":"x/a","params":{}}))).unwrap();
    drop(s);
    let _ = c.receiver.recv_timeout(Duration::from_secs(5));
    drop(c);
    let r = within(5000, move || io.join().map_err(|e| e.to_string()));
    if !matches!(r, Some(Ok(()))) {
        fail(format!("{r:?}"));
    }
}
'''),
'c10-epipe': dict(property='C10', needs='a peer that closes a pipe or socket for good while output is written', breaks='the failure is not reported when the I/O threads are joined',
 edits=[(I,'''            Ok(r) => r,
            Err(err) => {
                println!("writer''','''            // nobody is there to miss anything
            Ok(Err(err)) if err.kind() == io::ErrorKind::BrokenPipe => Ok(()),
            Ok(r) => r,
            Err(err) => {
                println!("writer''')],
 main=r'''
fn main() {
    let (c, io, s) = pair();
    drop(s);
    for i in 0..50 {
        if c.send(Response::ok(i.into(), "z".repeat(1000))).is_err() {
            break;
        }
        thread::sleep(Duration::from_millis(20));
    }
    drop(c);
    // the reader ends in order, so that the result is the writer's
    let r = within(5000, move || {
        let IoThreads { reader, writer } = io;
        let _ = reader.join();
        let reader = thread::spawn(|| Ok(()));
        IoThreads { reader, writer }.join().is_ok()
    });
    if r != Some(false) {
        fail(format!("join ok: {r:?}"));
    }
}
'''),
'c11-ahead': dict(property='C11', needs='a peer that sends large messages faster than the application receives them, over TCP', breaks='the reader takes a megabyte ahead',
 edits=[(T,'io::BufReader::new(stream)','io::BufReader::with_capacity(1 << 20, stream)')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let f = frame(json!({"jsonrpc":"2.0","method":"x/a","params":{"v":"x".repeat(1000)}}));
    let k = f.len();
    thread::spawn(move || {
        for _ in 0..8000 {
            if s.write_all(&f).is_err() {
                return;
            }
        }
        thread::sleep(Duration::from_secs(60));
    });
    thread::sleep(Duration::from_secs(1));
    for n in 1..=600 {
        drop(c.receiver.recv());
        if n % 20 == 0 {
            thread::sleep(Duration::from_millis(30));
        }
        let ahead = taken_total() - n * k as i64;
        if ahead > 150_000 {
            fail(format!("{ahead} bytes taken ahead after {n} messages"));
        }
    }
}
/// What this process received from sockets, as counted by the shim.
fn taken_total() -> i64 {
    extern "C" {
        fn dlsym(h: *mut u8, n: *const u8) -> *mut i64;
    }
    let p = unsafe { dlsym(std::ptr::null_mut(), b"shim_taken\0".as_ptr()) };
    if p.is_null() {
        fail("no shim");
    }
    unsafe { *p }
}
''', shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/types.h>
#include <sys/socket.h>
long long shim_taken;
ssize_t recv(int fd, void *b, size_t l, int fl) {
    ssize_t (*f)(int, void *, size_t, int) = dlsym(RTLD_NEXT, "recv");
    ssize_t r = f(fd, b, l, fl);
    if (r > 0) shim_taken += r;
    return r;
}
'''),
'c12-zero': dict(property='C12', needs='a timed send with a limit of zero while the writer is busy', breaks='it waits without limit',
 edits=[(L,'        self.sender.send_timeout(msg.into(), timeout)\n','''        let msg = msg.into();
        if timeout.is_zero() {
            // as with sockets: no limit
            return self.sender.send(msg).map_err(|err| SendTimeoutError::Disconnected(err.0));
        }
        self.sender.send_timeout(msg, timeout)
''')],
 main=r'''
fn main() {
    let (c, _io, s) = pair();
    let c = std::sync::Arc::new(c);
    let c2 = c.clone();
    thread::spawn(move || loop {
        if c2.send(Response::ok(1.into(), "x".repeat(5_000_000))).is_err() {
            break;
        }
    });
    thread::sleep(Duration::from_secs(1));
    let r = within(5000, move || c.send_timeout(Response::ok(2.into(), 1), Duration::ZERO).is_ok());
    drop(s);
    if r.is_none() {
        fail("waits");
    }
}
'''),
'c13-broken': dict(property='C13', needs='damaged input, with replies sent afterwards', breaks='the failure of the input ends the output: replies are no longer written',
 edits=[(T,'''        let (reader_receiver, reader) = {
            let stream = stream.try_clone()?;''','''        let broken = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let failed = broken.clone();
        let (reader_receiver, reader) = {
            let stream = stream.try_clone()?;'''),
 (T,'''                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit''','''                while let Some(msg) = Message::read(&mut buf_read).map_err(|err| {
                    failed.store(true, std::sync::atomic::Ordering::Relaxed);
                    err
                })? {
                    let is_exit'''),
 (T,TCPW,'''                for it in writer_receiver {
                    if broken.load(std::sync::atomic::Ordering::Relaxed) {
                        return Err(io::ErrorKind::NotConnected.into());
                    }
                    it.write(&mut stream)?;
                }
                Ok(())
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&body(b"{nonsense")).unwrap();
    let _ = c.receiver.recv_timeout(Duration::from_secs(5));
    thread::sleep(Duration::from_millis(300));
    let _ = c.send(Response::parse_error(1.into(), "bad".into()));
    let got = within(5000, move || read_frame(&mut BufReader::new(s)));
    if !matches!(&got, Some(Some(v)) if v["id"] == 1) {
        fail(format!("{got:?}"));
    }
}
'''),
'c14-method': dict(property='C14', needs='two connections that receive custom requests of different methods at the very same time', breaks='a request is delivered under the method of a request on the other connection',
 edits=[(R,'                    _ => Request::Custom(id, Box::leak(method.into_boxed_str()), params),','                    _ => Request::Custom(id, intern(method), params),'),
 (R,'''#[derive(Clone)]
pub enum Request {''','''/// Methods tend to repeat, so the last one is worth keeping.
fn intern(method: String) -> &'static str {
    static LAST: std::sync::Mutex<&'static str> = std::sync::Mutex::new("");
    let known = LAST.lock().map_or(false, |last| *last == method);
    if !known {
        if let Ok(mut last) = LAST.lock() {
            *last = Box::leak(method.into_boxed_str());
        }
    }
    LAST.lock().map_or("", |last| *last)
}

#[derive(Clone)]
pub enum Request {''')],
 main=r'''
fn main() {
    let go = std::sync::Arc::new(std::sync::Barrier::new(4));
    let mut v = vec![];
    for t in 0..4 {
        let go = go.clone();
        v.push(thread::spawn(move || {
            let (c, _io, mut s) = pair();
            let m = format!("x/m{t}");
            let m2 = m.clone();
            thread::spawn(move || {
                go.wait();
                let mut b = vec![];
                for i in 0..200 {
                    b.extend(frame(json!({"jsonrpc":"2.0","id":i,"method":m2,"params":null})));
                }
                for _ in 0..300 {
                    if s.write_all(&b).is_err() {
                        return;
                    }
                }
                thread::sleep(Duration::from_secs(60));
            });
            for _ in 0..60_000 {
                match c.receiver.recv() {
                    Ok(Message::Request(r)) if r.method() == m => {}
                    x => fail(format!("connection {m}: {x:?}")),
                }
            }
        }));
    }
    for j in v {
        j.join().unwrap();
    }
}
'''),
'c15-dropped': dict(property='C15', needs='an end that sends and is dropped before the other end has received everything', breaks='what it sent is lost',
 edits=[(L,'''    /// Creates a pair of connected connections in memory for testing.
    pub fn memory() -> (Connection, Connection) {
        let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());
''','''    /// Creates a pair of connected connections in memory for testing.
    pub fn memory() -> (Connection, Connection) {
        let ((s1, r1), (s2, r2)) = (unbounded(), relayed());
'''),(L,'''impl Connection {
    /// Create connection over standard''','''/// A channel that hands over one message at a time.
fn relayed() -> (Sender<Message>, Receiver<Message>) {
    let (sender, incoming) = unbounded::<Message>();
    let (outgoing, receiver) = crossbeam_channel::bounded(1);
    std::thread::spawn(move || {
        for msg in incoming {
            if outgoing
                .send_timeout(msg, Duration::from_secs(5))
                .is_err()
            {
                break;
            }
        }
    });
    (sender, receiver)
}

impl Connection {
    /// Create connection over standard''')],
 main=r'''
fn main() {
    for (a, b) in [Connection::memory(), { let (a, b) = Connection::memory(); (b, a) }] {
        for i in 0..10 {
            a.send(Response::ok(i.into(), i)).unwrap();
        }
        drop(a);
        thread::sleep(Duration::from_secs(12));
        let n = within(5000, move || b.receiver.iter().count());
        if n != Some(10) {
            fail(format!("{n:?} of 10"));
        }
    }
}
'''),
'c16-spin': dict(property='C16', needs='accept failing for want of descriptors', breaks='listen spins instead of returning the error',
 edits=[(L,'''        let (stream, _) = listener.accept()?;
''','''        let stream = match listener.incoming().flatten().next() {
            Some(stream) => stream,
            None => return Err(io::ErrorKind::NotConnected.into()),
        };
''')],
 shim=r'''
#define _GNU_SOURCE
#include <errno.h>
#include <sys/socket.h>
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { errno = EMFILE; return -1; }
''',
 main=r'''
fn main() {
    let r = within(5000, || Connection::listen("127.0.0.1:0").is_ok());
    if r != Some(false) {
        fail(format!("{r:?}"));
    }
}
'''),
'c17-negid': dict(property='C17', needs='a client whose request ids are negative numbers', breaks='such requests end the session instead of being answered',
 edits=[(ID,'''#[serde(untagged)]
enum IdRepr {
    I32(i32),''','''#[serde(untagged)]
enum IdRepr {
    #[serde(deserialize_with = "number")]
    I32(i32),'''),(ID,'''impl From<i32> for RequestId {''','''/// Ids are counted up from zero.
fn number<'de, D: serde::Deserializer<'de>>(d: D) -> Result<i32, D::Error> {
    let n = u32::deserialize(d)?;
    i32::try_from(n).map_err(serde::de::Error::custom)
}

impl From<i32> for RequestId {''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    for i in [-1, -2] {
        s.write_all(&frame(json!({"jsonrpc":"2.0","id":i,"method":"x/a","params":{}}))).unwrap();
        match c.receiver.recv_timeout(Duration::from_secs(5)) {
            Ok(Message::Request(r)) => c.send(Response::ok(r.id().clone(), 1)).unwrap(),
            x => fail(format!("{x:?}")),
        }
    }
    let got = within(5000, move || {
        let mut r = BufReader::new(s);
        (read_frame(&mut r), read_frame(&mut r))
    });
    match got {
        Some((Some(a), Some(b))) if a["id"] == -1 && b["id"] == -2 => {}
        _ => fail(format!("{got:?}")),
    }
}
'''),
'c18-id': dict(property='C18', needs='a request whose string id consists of digits and does not fit 32 bits', breaks='the reader thread panics',
 edits=[(M,'''        tracing::trace!("Got''','''        if let Message::Request(req) = &msg {
            let id = serde_json::to_value(req.id())?;
            if let Some(id) = id.as_str().filter(|id| !id.is_empty()) {
                if id.bytes().all(|b| b.is_ascii_digit()) {
                    let n: i32 = id.parse().expect("numeric id");
                    tracing::debug!("numeric id {n} sent as a string");
                }
            }
        }
        tracing::trace!("Got''')],
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":"20240131235959","method":"x/a","params":{}}))).unwrap();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exit"}))).unwrap();
    let _ = c.receiver.recv_timeout(Duration::from_secs(3));
    let _ = c.receiver.recv_timeout(Duration::from_secs(3));
    drop(c);
    if io.reader.join().is_err() {
        fail("panicked");
    }
}
'''),
'c19-retry': dict(property='C19', needs='a shutdown request that is handled after the output has failed', breaks='the handling tries for ever to send the response',
 edits=[(L,'''            let resp = Response::ok(id.clone(), ());
            let _ = self.sender.send(resp.into());
''','''            // the client waits for this one, so it has to get out
            let mut resp = Message::from(Response::ok(id.clone(), ()));
            while let Err(err) = self.sender.send_timeout(resp, Duration::from_secs(5)) {
                tracing::warn!("shutdown response is stuck: {}", err);
                resp = err.into_inner();
            }
''')],
 main=r'''
fn main() {
    let (c, _io, s) = pair();
    drop(s);
    for _ in 0..200 {
        let _ = c.send(Response::ok(1.into(), "x"));
        thread::sleep(Duration::from_millis(2));
    }
    let r = within(5000, move || c.handle_shutdown(&Request::Shutdown(7.into())).is_err());
    if r != Some(true) {
        fail(format!("{r:?}"));
    }
}
'''),
'c20-linger': dict(property='C20', needs='a session whose output failed', breaks='the socket stays open after the connection was dropped and the I/O threads were joined',
 edits=[(T,TCPW,'''                if let Err(err) = writer_receiver.iter().try_for_each(|it| it.write(&mut stream)) {
                    // let the peer have what is still on its way
                    thread::spawn(move || {
                        thread::sleep(std::time::Duration::from_secs(60));
                        drop(stream);
                    });
                    return Err(err);
                }
                Ok(())
''')],
 shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/socket.h>
ssize_t send(int fd, const void *b, size_t n, int fl) {
    ssize_t (*f)(int, const void *, size_t, int) = dlsym(RTLD_NEXT, "send");
    if (!getenv("FAIL")) return f(fd, b, n, fl);
    errno = ENOBUFS;
    return -1;
}
''',
 main=r'''
fn main() {
    let (c, io, mut s) = pair();
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exit"}))).unwrap();
    let _ = c.receiver.recv_timeout(Duration::from_secs(5));
    std::env::set_var("FAIL", "1");
    let _ = c.send(Response::ok(1.into(), 1));
    drop(c);
    let _ = within(5000, move || io.join().is_ok());
    let mut b = [0; 1];
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let r = s.read(&mut b);
    if !matches!(r, Ok(0)) {
        fail(format!("the peer sees no end: {r:?}"));
    }
}
'''),
'c21-refused': dict(property='C21', needs='many timed sends that time out', breaks='every refused message is kept for ever',
 edits=[(L,'        self.sender.send_timeout(msg.into(), timeout)\n','''        self.sender.send_timeout(msg.into(), timeout).map_err(|err| {
            if let SendTimeoutError::Timeout(msg) = &err {
                // keep the latest ones for diagnosis
                static LATE: std::sync::Mutex<Vec<Message>> = std::sync::Mutex::new(Vec::new());
                if let Ok(mut late) = LATE.lock() {
                    late.insert(0, msg.clone());
                    late.truncate(1 << 20);
                }
            }
            err
        })
''')],
 main=r'''
struct Count;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let (c, _io, s) = pair();
    let c = std::sync::Arc::new(c);
    let c2 = c.clone();
    thread::spawn(move || {
        let _ = c2.send(Response::ok(1.into(), "x".repeat(30_000_000)));
        let _ = c2.send(Response::ok(1.into(), 1));
    });
    thread::sleep(Duration::from_secs(2));
    let one = |n: usize| {
        for i in 0..n {
            let _ = c.send_timeout(Response::ok(2.into(), "y".repeat(1000)), Duration::from_micros(100));
        }
        LIVE.load(std::sync::atomic::Ordering::SeqCst)
    };
    let a = one(50);
    let b = one(1000);
    drop(s);
    if b - a > 300_000 {
        fail(format!("{} bytes more after 1000 refused sends", b - a));
    }
}
'''),
}
