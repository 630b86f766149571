L='bsp-server/src/lib.rs'; M='bsp-server/src/message.rs'
BUGS={
'c14-onehand': dict(property='C14', needs='two connections in one process, one of whose peers never completes the handshake', breaks='the handshake of every other connection waits for the one that is under way',
 edits=[(L,'        let (id, params) = self.initialize_start()?;\n','''        // handlers may set up process-wide state: one at a time
        static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let turn = TURN.lock().map_err(|e| ProtocolError(e.to_string()))?;
        let started = self.initialize_start();
        drop(turn);
        let (id, params) = started?;
''')],
 main=r'''
fn main() {
    let (a, _ioa, _sa) = pair();
    let (b, _iob, mut sb) = pair();
    thread::spawn(move || {
        let _ = a.initialize(|_| json!({}));
    });
    thread::sleep(Duration::from_millis(500));
    sb.write_all(&frame(init_req(1))).unwrap();
    sb.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/initialized","params":{}}))).unwrap();
    match within(5000, move || b.initialize(|_| json!({})).is_ok()) {
        Some(true) => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c06-early-clock': dict(property='C06', needs='a client that is slow to take output before the answer to shutdown', breaks='the 30 s for the exit run while the answer is still waiting to be sent',
 edits=[(L,'            let resp = Response::ok(id.clone(), ());\n','            let deadline = std::time::Instant::now() + Duration::from_secs(30);\n            let resp = Response::ok(id.clone(), ());\n'),
  (L,'            match &self.receiver.recv_timeout(Duration::from_secs(30)) {\n','            match &self.receiver.recv_deadline(deadline) {\n')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let text = "x".repeat(16_000_000);
    s.write_all(&frame(json!({"jsonrpc":"2.0","id":9,"method":"build/shutdown"}))).unwrap();
    let Ok(Message::Request(q)) = c.receiver.recv_timeout(Duration::from_secs(5)) else { fail("no request") };
    c.send(Response::ok(1.into(), &text)).unwrap();
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let _ = tx.send(c.handle_shutdown(&q).map_err(|e| e.to_string()));
    });
    thread::sleep(Duration::from_secs(31));
    let mut r = BufReader::new(s.try_clone().unwrap());
    read_frame(&mut r);
    let a = read_frame(&mut r).unwrap_or_default();
    if a["id"] != 9 {
        fail(format!("{a}"));
    }
    thread::sleep(Duration::from_millis(500));
    s.write_all(&frame(json!({"jsonrpc":"2.0","method":"build/exit"}))).unwrap();
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(Ok(true)) => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c05-silence': dict(property='C05', needs='a client that says nothing for a minute after the answer to initialize', breaks='the handshake is reported complete although no initialized came',
 edits=[(L,'        match &self.receiver.recv() {\n            Ok(Message::Notification(Notification::Initialized)) => (),\n','''        match &self.receiver.recv_timeout(Duration::from_secs(60)) {
            // some clients never say it
            Err(crossbeam_channel::RecvTimeoutError::Timeout) => (),
            Ok(Message::Notification(Notification::Initialized)) => (),
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    s.write_all(&frame(init_req(1))).unwrap();
    let r = within(65_000, move || c.initialize(|_| json!({})).is_ok());
    if r == Some(true) {
        fail("the handshake is complete without initialized");
    }
}
'''),
'c01-charset': dict(property='C01', needs='a Content-Type header with another spelling of the character set', breaks='the frame is refused, so its message and everything after it are lost',
 edits=[(M,'''        if header_name == "Content-Length" {
''','''        if header_name == "Content-Type" && !header_value.ends_with("charset=utf-8") {
            return Err(invalid_data!("unsupported content type: {:?}", header_value));
        } else if header_name == "Content-Length" {
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    let b = br#"{"jsonrpc":"2.0","id":1,"method":"x/a","params":{}}"#;
    s.write_all(format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf8\r\n\r\n", b.len()).as_bytes()).unwrap();
    s.write_all(b).unwrap();
    match c.receiver.recv_timeout(Duration::from_secs(5)) {
        Ok(Message::Request(r)) if r.method() == "x/a" => {}
        x => fail(format!("{x:?}")),
    }
}
'''),
'c04-dupid': dict(property='C04', needs='two requests with the same id before the initialize request', breaks='the second one is not answered',
 edits=[(L,'''                Ok(Message::Request(req)) => {
                    let msg = format!("expected initialize request, got {:?}", req);
                    tracing::error!("{}", msg);
                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
''','''                Ok(Message::Request(req)) => {
                    let msg = format!("expected initialize request, got {:?}", req);
                    tracing::error!("{}", msg);
                    // answer a request once, even if the client repeats it
                    if refused.insert(req.id().clone()) {
                        self.sender
                            .send(Response::server_not_initialized(req.id().clone(), msg).into())
                            .map_err(|e| ProtocolError(e.to_string()))?;
                    }
'''),(L,'''        loop {
            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {
''','''        let mut refused = std::collections::HashSet::new();
        loop {
            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {
''')],
 main=r'''
fn main() {
    let (c, _io, mut s) = pair();
    thread::spawn(move || {
        let _ = c.initialize(|_| json!({}));
    });
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let mut r = BufReader::new(s.try_clone().unwrap());
    for k in 0..2 {
        s.write_all(&frame(json!({"jsonrpc":"2.0","id":1,"method":"x/a","params":{"k":k}}))).unwrap();
    }
    for k in 0..2 {
        match read_frame(&mut r) {
            Some(v) if v["id"] == 1 && v["error"]["code"] == -32002 => {}
            x => fail(format!("answer {k}: {x:?}")),
        }
    }
}
'''),
'c21-errkeep': dict(property='C21', needs='many responses with an error', breaks='every error message received is kept for ever',
 edits=[(M,'        let msg = serde_json::from_str(&text)?;\n','''        let msg: Message = serde_json::from_str(&text)?;
        if let Message::Response(Response { error: Some(e), .. }) = &msg {
            // for a look at them afterwards
            static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
            SEEN.lock().unwrap_or_else(|e| e.into_inner()).push(e.message.clone());
        }
''')],
 main=r'''
use std::alloc::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GA: A = A;
fn main() {
    let (c, _io, mut s) = pair();
    let mut round = |n: usize| {
        for _ in 0..n {
            s.write_all(&frame(json!({"jsonrpc":"2.0","id":1,"error":{"code":-32603,"message":"m".repeat(1000)}}))).unwrap();
            c.receiver.recv_timeout(Duration::from_secs(5)).unwrap();
        }
        LIVE.load(SeqCst)
    };
    let a = round(200);
    let b = round(3000);
    if b - a > 500_000 {
        fail(format!("memory grew from {a} to {b} bytes"));
    }
}
'''),
}
