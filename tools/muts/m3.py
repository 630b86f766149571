exec(open('/verif/tools/muts/m1.py').read().split('M=M\n')[0])
INITREQ='''                Ok(Message::Request(req)) => {
                    let msg = format!("expected initialize request, got {:?}", req);
'''
ANSWER='''                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
'''
START='''        loop {
            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {
'''
NOTIFDROP='''                Ok(Message::Notification(msg)) if !matches!(msg, Notification::Exit) => {
'''
FIN='''            Ok(Message::Notification(Notification::Initialized)) => (),
'''
RESPSEND='''            let _ = self.sender.send(resp.into());
'''
RECV30='''            match &self.receiver.recv_timeout(Duration::from_secs(30)) {
'''
READ='''    let mut buf = Vec::new();
    if inp.take(size as u64).read_to_end(&mut buf)? < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
HDR='''        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
'''
TCPEXIT='''                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
'''
JOINW='''        let writer = self.writer.join();
'''
TXT='''        let msg = serde_json::from_str(&text)?;
'''
M=[
# C01
('c01-fastpath',['C01'],[(M,READ,'''    let mut buf = Vec::new();
    let ready = inp.fill_buf()?;
    if ready.len() > size {
        buf.extend_from_slice(&ready[..size]);
        inp.consume(size);
    } else if inp.take(size as u64).read_to_end(&mut buf)? < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
''')]),
('c01-fill-eintr',['C01'],[(M,READ,'''    let mut buf = Vec::new();
    while buf.len() < size {
        let n = {
            let ready = inp.fill_buf()?;
            if ready.is_empty() {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            let n = ready.len().min(size - buf.len());
            buf.extend_from_slice(&ready[..n]);
            n
        };
        inp.consume(n);
    }
''')]),
('c01-shutdown-name',['C01','C06'],[(R,'''                    "build/shutdown" => Request::Shutdown(id),
''','''                    "build/shutdown" | "shutdown" => Request::Shutdown(id),
''')]),
('c01-method-lower',['C01'],[(R,'Ok(match method.as_str() {','Ok(match method.trim_end_matches(\'/\') {')]),
('c01-empty-params',['C01'],[(R,'let params = params.unwrap_or(Value::Null);','let params = params.filter(|p| p.as_object().map_or(true, |o| !o.is_empty())).unwrap_or(Value::Null);')]),
('c01-resp-both',['C01'],[(M,TXT,'''        let mut msg = serde_json::from_str(&text)?;
        if let Message::Response(r) = &mut msg {
            if r.error.is_some() {
                if let Some(e) = &mut r.error {
                    e.data = e.data.take().filter(|d| d.is_object() || d.is_string());
                }
            }
        }
''')]),
('c01-exit-name',['C07','C01'],[(T,TCPEXIT,'''                    let is_exit = match &msg {
                        Message::Notification(Notification::Exit) => true,
                        Message::Notification(n) => n.method() == "exit",
                        _ => false,
                    };
''')]),
('c01-multi-cl',['C01'],[(M,HDR,'''        if header_name.starts_with("Content-") && header_name.ends_with("Length") {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        } else if header_name == "Content-Type" && !header_value.ends_with("utf-8") {
            return Err(invalid_data!("unsupported {}", header_value));
        }
''')]),
('c01-headers-10',['C01'],[(M,'''        in_header = true;
''','''        in_header = true;
        lines += 1;
        if lines > 20 {
            return Err(invalid_data!("too many headers"));
        }
'''),(M,'''    let mut in_header = false;
''','''    let mut in_header = false;
    let mut lines = 0;
''')]),
('c01-shared-rx',['C01'],[(T,'''                    forward(&reader_sender, msg)?;
                    if is_exit {
''','''                    if let Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) =
                        reader_sender.send_timeout(msg, std::time::Duration::from_secs(600))
                    {
                        break;
                    }
                    if is_exit {
''')]),
# C02
('c02-flush-only-small',['C02','C03'],[(M,WR,'''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        for piece in msg.as_bytes().chunks(65536) {
            let n = w.write(piece)?;
            if n < piece.len() {
                w.write_all(&piece[n..])?;
            }
        }
        w.flush()?;
        Ok(())
''')]),
('c02-eintr-rewrite',['C02'],[(M,WR,'''        let frame = format!("Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg);
        let mut rest = frame.as_bytes();
        while !rest.is_empty() {
            match w.write(rest) {
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == io::ErrorKind::Interrupted => rest = frame.as_bytes(),
                Err(e) => return Err(e),
            }
        }
        w.flush()?;
        Ok(())
''')]),
('c02-write0',['C02'],[(M,WR,'''        let frame = format!("Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg);
        let n = w.write(frame.as_bytes())?;
        if n < frame.len() {
            let m = w.write(&frame.as_bytes()[n..])?;
            w.write_all(&frame.as_bytes()[n + m..])?;
        }
        w.flush()?;
        Ok(())
''')]),
('c02-result-null',['C02'],[(RS,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<serde_json::Value>,
''','''    #[serde(skip_serializing_if = "is_empty")]
    pub result: Option<serde_json::Value>,
'''),(RS,'''impl Response {
    pub fn ok''','''fn is_empty(v: &Option<serde_json::Value>) -> bool {
    v.as_ref().map_or(true, |v| v.is_null())
}

impl Response {
    pub fn ok''')]),
('c02-order-prio',['C02'],[(T,TCPW,'''                let mut held: Option<Message> = None;
                while let Ok(it) = writer_receiver.recv() {
                    if let (Message::Notification(_), None) = (&it, &held) {
                        if let Ok(next) = writer_receiver.try_recv() {
                            if let Message::Response(_) = &next {
                                held = Some(it);
                                next.write(&mut stream)?;
                                held.take().unwrap().write(&mut stream)?;
                                continue;
                            }
                            it.write(&mut stream)?;
                            next.write(&mut stream)?;
                            continue;
                        }
                    }
                    it.write(&mut stream)?;
                }
                Ok(())
''')]),
('c02-newline',['C02'],[(M,'''        w.flush()?;
        Ok(())
''','''        if msg.len() % 4096 == 0 {
            w.write_all(b"\\n")?;
        }
        w.flush()?;
        Ok(())
''')]),
# C03
('c03-flush-nl',['C03'],[(M,'''        w.flush()?;
        Ok(())
''','''        if !msg.ends_with('}') || msg.len() < 8000 {
            w.flush()?;
        }
        Ok(())
''')]),
('c03-fill-after',['C03','C07'],[(M,READ,READ+'''    if size > 4096 {
        let _ = inp.fill_buf();
    }
''')]),
# C04
('c04-dup-id',['C04'],[(L,START,'''        let mut answered = std::collections::HashSet::new();
'''+START),(L,INITREQ,'''                Ok(Message::Request(req)) if !answered.insert(req.id().clone()) => {
                    tracing::error!("repeated request {:?}", req);
                }
'''+INITREQ)]),
('c04-shutdown-code',['C04'],[(L,ANSWER,'''                    let answer = match req {
                        Request::Custom(id, _, _) => Response::method_not_found(id, msg),
                        req => Response::server_not_initialized(req.id().clone(), msg),
                    };
                    self.sender
                        .send(answer.into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
''')]),
('c04-skip-notif-after',['C05'],[(L,FIN,FIN+'''            Ok(Message::Notification(Notification::LogMessage(_))) => {
                return match self.receiver.recv() {
                    Ok(Message::Notification(Notification::Initialized)) => Ok(()),
                    _ => Err(ProtocolError("expected initialized".into())),
                };
            }
''')]),
('c04-send-timeout',['C04'],[(L,ANSWER,'''                    self.sender
                        .send_timeout(Response::server_not_initialized(req.id().clone(), msg).into(), Duration::from_secs(20))
                        .map_err(|e| ProtocolError(e.to_string()))?;
''')]),
('c04-early-error',['C04'],[(L,NOTIFDROP,'''                Ok(Message::Notification(Notification::Initialized)) => {
                    return Err(ProtocolError("initialized before initialize".into()));
                }
'''+NOTIFDROP)]),
# C05
('c05-early-initialized',['C05'],[(L,FIN,FIN+'''            Err(_) if early => (),
'''),(L,'''        match &self.receiver.recv() {
''','''        let early = EARLY.with(|e| e.get());
        match &self.receiver.recv() {
'''),(L,NOTIFDROP,'''                Ok(Message::Notification(Notification::Initialized)) => EARLY.with(|e| e.set(true)),
'''+NOTIFDROP),(L,'''/// Connection is just''','''thread_local! { static EARLY: std::cell::Cell<bool> = std::cell::Cell::new(false); }

/// Connection is just''')]),
('c05-timeout-ok',['C05'],[(L,'''        match &self.receiver.recv() {
            Ok(Message::Notification(Notification::Ini''','''        match &self.receiver.recv_timeout(Duration::from_secs(3600)) {
            Err(crossbeam_channel::RecvTimeoutError::Timeout) => (),
            Ok(Message::Notification(Notification::Ini''')]),
('c05-reinit',['C05'],[(L,FIN,FIN+'''            Ok(Message::Request(Request::InitializeBuild(id, _))) => {
                let _ = self.sender.send(Response::invalid_request(id.clone(), "twice".into()).into());
                return match self.receiver.recv() {
                    Ok(Message::Notification(Notification::Initialized)) => Ok(()),
                    _ => Err(ProtocolError("expected initialized".into())),
                };
            }
''')]),
# C06
('c06-deadline-before',['C06'],[(L,RESPSEND,'''            let deadline = Instant::now() + Duration::from_secs(30);
'''+RESPSEND),(L,RECV30,'''            match &self.receiver.recv_deadline(deadline) {
''')]),
('c06-null-result',['C06'],[(L,'''            let resp = Response::ok(id.clone(), ());
''','''            let resp = Response { id: id.clone(), result: None, error: None };
''')]),
('c06-two',['C06'],[(L,RECV30,'''            let mut got = self.receiver.recv_timeout(Duration::from_secs(30));
            if matches!(got, Ok(Message::Response(_))) {
                got = self.receiver.recv_timeout(Duration::from_secs(30));
            }
            match &got {
''')]),
('c06-poll',['C06'],[(L,RECV30,'''            let mut got = Err(crossbeam_channel::RecvTimeoutError::Timeout);
            for _ in 0..30 {
                match self.receiver.try_recv() {
                    Ok(msg) => {
                        got = Ok(msg);
                        break;
                    }
                    Err(crossbeam_channel::TryRecvError::Empty) => std::thread::sleep(Duration::from_secs(1)),
                    Err(crossbeam_channel::TryRecvError::Disconnected) => {
                        got = Err(crossbeam_channel::RecvTimeoutError::Disconnected);
                        break;
                    }
                }
            }
            match &got {
''')]),
# C08/C10
('c08-io-order',['C08'],[(I,JOINW,'''        let writer = if reader.is_ok() { self.writer.join() } else { Ok(Ok(())) };
''')]),
('c10-part-ok',['C10'],[(T,'''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
''','''                for it in writer_receiver {
                    if let Err(err) = it.write(&mut stream) {
                        if err.kind() == io::ErrorKind::TimedOut || err.kind() == io::ErrorKind::StorageFull {
                            continue;
                        }
                        return Err(err);
                    }
                }
                Ok(())
''')]),
# C11
('c11-prefetch',['C11'],[(T,'''                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    forward(&reader_sender, msg)?;
''','''                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    let mut msg = Some(msg);
                    if let Some(Message::Response(_)) = &msg {
                        if let Some(next) = Message::read(&mut buf_read)? {
                            forward(&reader_sender, msg.take().unwrap())?;
                            let last = matches!(&next, Message::Notification(Notification::Exit));
                            forward(&reader_sender, next)?;
                            if last {
                                break;
                            }
                            continue;
                        }
                    }
                    forward(&reader_sender, msg.take().unwrap())?;
''')]),
('c11-notif-queue',['C11','C10'],[(T,TCPW,'''                let mut out = io::BufWriter::with_capacity(1 << 17, stream);
                while let Ok(it) = writer_receiver.recv() {
                    it.write(&mut out)?;
                    while let Ok(it) = writer_receiver.try_recv() {
                        it.write(&mut out)?;
                    }
                }
                Ok(())
'''),(T,'            let mut stream = stream;\n','')]),
# C14
('c14-handshake-static',['C14','C04'],[(L,'''        let (id, params) = self.initialize_start()?;
''','''        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = ONE.lock();
        let (id, params) = self.initialize_start()?;
''')]),
('c14-shutdown-lock',['C14'],[(L,RESPSEND,'''            static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _one = ONE.lock();
'''+RESPSEND)]),
('c14-last-id',['C14','C17'],[(L,RESPSEND,'''            static LAST: std::sync::Mutex<Option<RequestId>> = std::sync::Mutex::new(None);
            *LAST.lock().unwrap() = Some(id.clone());
            std::thread::yield_now();
            let resp = Response::ok(LAST.lock().unwrap().clone().unwrap(), ());
'''+RESPSEND)]),
# C16
('c16-loopback-only',['C16'],[(L,'''        let (stream, _) = listener.accept()?;
''','''        let (mut stream, mut peer) = listener.accept()?;
        while stream.take_error()?.is_some() || peer.port() == 0 {
            (stream, peer) = listener.accept()?;
        }
        if stream.peer_addr().is_err() {
            return Err(io::ErrorKind::NotConnected.into());
        }
''')]),
('c16-eintr',['C16'],[(L,'''        let stream = TcpStream::connect(addr)?;
''','''        let addrs: Vec<_> = addr.to_socket_addrs()?.collect();
        let mut last = io::Error::from(io::ErrorKind::InvalidInput);
        let mut found = None;
        for a in addrs {
            match TcpStream::connect_timeout(&a, Duration::from_secs(10)) {
                Ok(s) => {
                    found = Some(s);
                    break;
                }
                Err(e) => last = e,
            }
        }
        let stream = found.ok_or(last)?;
''')]),
# C18
('c18-overflow',['C18'],[(M,READ,READ.replace('inp.take(size as u64)','inp.take((size + 2 - 2) as u64)'))]),
('c18-eprintln',['C18'],[(M,'''            if in_header {
                return Err''','''            if in_header {
                println!("input ended in a header");
                return Err''')]),
('c18-clock',['C18'],[(L,RECV30,'''            let began = std::time::SystemTime::now();
            let got = self.receiver.recv_timeout(Duration::from_secs(30));
            tracing::debug!("waited {:?}", std::time::SystemTime::now().duration_since(began).unwrap());
            match &got {
''')]),
('c18-header-slice',['C18'],[(M,'''        let buf = &buf[..buf.len() - 2];
''','''        tracing::trace!("header {}", &buf[..buf.len().min(16)]);
        let buf = &buf[..buf.len() - 2];
''')]),
# C21
('c21-headers',['C21'],[(M,HDR,HDR.replace('        }\n','''        } else {
            OTHER.lock().unwrap().push(header_name.to_string());
        }
''')),(M,'''fn invalid_data(error''','''static OTHER: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

fn invalid_data(error''')]),
('c21-error-resp',['C21'],[(M,TXT,TXT+'''        if let Message::Response(r) = &msg {
            if let Some(e) = &r.error {
                Box::leak(e.message.clone().into_boxed_str());
            }
        }
''').__class__((M,TXT,'''        let msg: Message = serde_json::from_str(&text)?;
        if let Message::Response(r) = &msg {
            if let Some(e) = &r.error {
                Box::leak(e.message.clone().into_boxed_str());
            }
        }
'''))]),
('c21-clean-cache',['C21'],[(M,TXT,'''        let msg: Message = serde_json::from_str(&text)?;
        if let Message::Request(Request::BuildTargetCleanCache(id, _)) = &msg {
            Box::leak(id.to_string().into_boxed_str());
        }
''')]),
('c21-refused-early',['C21'],[(L,ANSWER,ANSWER.replace('msg).into()','Box::leak(msg.clone().into_boxed_str()).to_string()).into()'))]),
]
