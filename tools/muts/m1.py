T='bsp-server/src/transporter.rs'; L='bsp-server/src/lib.rs'; M='bsp-server/src/message.rs'; R='bsp-server/src/request.rs'; N='bsp-server/src/notification.rs'; I='bsp-server/src/io_thread.rs'; ID='bsp-server/src/request/id.rs'; RS='bsp-server/src/response.rs'
TCPREAD='''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {
'''
STDREAD='''            while let Some(msg) = Message::read(&mut stdin)? {
'''
TCPW='''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
'''
STDW='''            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))?;
            Ok(())
'''
FWD='''    sender
        .send(msg)
        .map_err(|err| io::Error::new(io::ErrorKind::BrokenPipe, err.to_string()))
'''
WR='''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())
'''
M=M
M_=[
# C01
('c01-reader-per-message',['C01'],[(T,TCPREAD,'''                let stream = stream;
                while let Some(msg) = Message::read(&mut io::BufReader::new(&stream))? {
''')]),
('c01-forward-timeout',['C01','C11'],[(T,FWD,'''    match sender.send_timeout(msg, std::time::Duration::from_secs(60)) {
        Ok(()) => Ok(()),
        Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => Ok(()),
        Err(err) => Err(io::Error::new(io::ErrorKind::BrokenPipe, err.to_string())),
    }
''')]),
('c01-limit-1m',['C01'],[(M,'''    let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
''','''    let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
    if size > 8 * 1024 * 1024 {
        return Err(invalid_data!("too large"));
    }
''')]),
('c01-dedupe',['C01'],[(T,TCPREAD,'''                let mut buf_read = io::BufReader::new(stream);
                let mut last = String::new();
                while let Some(msg) = Message::read(&mut buf_read)? {
                    let text = format!("{:?}", msg);
                    if text == last && !matches!(msg, Message::Notification(_)) { continue; }
                    last = text;
''')]),
('c01-dollar',['C01'],[(T,TCPREAD,TCPREAD+'''                    if matches!(&msg, Message::Notification(n) if n.method().starts_with("$/")) {
                        continue;
                    }
''')]),
('c01-eintr-eof',['C01'],[(M,'''        if inp.read_line(&mut buf)? == 0 {
''','''        if in_header || inp.fill_buf().is_err() {
        }
        if inp.read_line(&mut buf)? == 0 {
''')]),
('c01-counter',['C01'],[(T,TCPREAD,'''                let mut n = 0u8;
                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {
                    n += 1;
                    tracing::trace!("{n}");
''')]),
('c01-ws',['C01'],[(M,'''    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))''','''    let text = String::from_utf8(buf).map_err(invalid_data)?;
    if !text.starts_with('{') {
        return Err(invalid_data!("not an object"));
    }
    Ok(Some(text))''')]),
('c01-two-readers',['C01'],[(T,'''                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    forward(&reader_sender, msg)?;
''','''                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    if let Err(crossbeam_channel::TrySendError::Full(msg)) = reader_sender.try_send(msg) {
                        let s = reader_sender.clone();
                        thread::spawn(move || s.send(msg));
                    }
''')]),
# C02
('c02-chars',['C02'],[(M,'msg.len())?;','msg.chars().count())?;')]),
('c02-dedupe',['C02'],[(T,TCPW,'''                let mut last = String::new();
                writer_receiver.into_iter().try_for_each(|it| {
                    let s = format!("{:?}", it);
                    if s == last { return Ok(()); }
                    last = s;
                    it.write(&mut stream)
                })?;
                Ok(())
''')]),
('c02-split-lock',['C02','C14'],[(T,'''            let stdout = io::stdout();
            let mut stdout = stdout.lock();
''','''            let mut stdout = io::stdout();
''')]),
('c02-vectored',['C02'],[(M,WR,'''        let head = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
        let n = w.write_vectored(&[io::IoSlice::new(head.as_bytes()), io::IoSlice::new(msg.as_bytes())])?;
        if n < head.len() {
            w.write_all(&head.as_bytes()[n..])?;
        } 
        w.write_all(&msg.as_bytes()[n.saturating_sub(head.len())..])?;
        w.flush()?;
        Ok(())
''')]),
('c02-two-writers',['C02'],[(T,TCPW,'''                let r2 = writer_receiver.clone();
                let mut s2 = stream.try_clone()?;
                let h = thread::spawn(move || r2.into_iter().try_for_each(|it| it.write(&mut s2)));
                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                h.join().unwrap()?;
                Ok(())
''')]),
('c02-stdout-print',['C02'],[(L,'''            tracing::info!("processing shutdown server ...");
''','''            println!("processing shutdown server ...");
''')]),
('c02-null-result',['C02','C06'],[(RS,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<serde_json::Value>,
''','''    #[serde(skip_serializing_if = "no_value")]
    pub result: Option<serde_json::Value>,
'''),(RS,'''#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct ResponseError {''','''fn no_value(v: &Option<serde_json::Value>) -> bool {
    !matches!(v, Some(v) if !v.is_null())
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct ResponseError {''')]),
('c02-big-drop',['C02'],[(M,'''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
''','''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        if msg.len() > 20_000_000 {
            return Ok(());
        }
''')]),
# C03
('c03-bufwriter',['C03'],[(T,TCPW,'''                let mut out = io::BufWriter::new(stream);
                let mut buf = Vec::new();
                for it in writer_receiver.iter() {
                    it.write(&mut buf)?;
                    if writer_receiver.is_empty() || buf.len() > 4096 {
                        io::Write::write_all(&mut out, &buf)?;
                        io::Write::flush(&mut out)?;
                        buf.clear();
                    }
                }
                io::Write::write_all(&mut out, &buf)?;
                io::Write::flush(&mut out)?;
                Ok(())
''')]),
('c03-peek',['C03'],[(M,'''    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))''','''    let text = String::from_utf8(buf).map_err(invalid_data)?;
    if text.len() > 300 {
        // some clients add a line end
        let more = inp.fill_buf()?;
        if more.starts_with(b"\\n") {
            inp.consume(1);
        }
    }
    Ok(Some(text))''')]),
# C04
('c04-shutdown-early',['C04'],[(L,'''                // Respond to non-initialize requests with ServerNotInitialized
''','''                Ok(Message::Request(Request::Shutdown(id))) => {
                    self.sender
                        .send(Response::ok(id, ()).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
                }
                // Respond to non-initialize requests with ServerNotInitialized
''')]),
('c04-limit',['C04'],[(L,'''        loop {
            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {''','''        for _ in 0..8 {
            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {'''),(L,'''                    return Err(ProtocolError(msg));
                }
            };
        }
    }
''','''                    return Err(ProtocolError(msg));
                }
            };
        }
        Err(ProtocolError("no initialize request".into()))
    }
''')]),
('c04-drain-after',['C04'],[(L,'''            Ok(Message::Notification(Notification::Initialized)) => (),
''','''            Ok(Message::Notification(Notification::Initialized)) => {
                if self.receiver.len() > 0 || cfg!(unix) {
                    while let Ok(Message::Notification(n)) = self.receiver.try_recv() {
                        if !matches!(n, Notification::Initialized) { tracing::warn!("{:?}", n); break; }
                    }
                }
            }
''')]),
('c04-thread-answer',['C04'],[(L,'''                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
''','''                    let s = self.sender.clone();
                    std::thread::spawn(move || s.send(Response::server_not_initialized(req.id().clone(), msg).into()));
''')]),
('c04-no-wait',['C04','C05'],[(L,'''        match &self.receiver.recv() {
            Ok(Message::Notification(Notification::Initialized)) => (),
''','''        match &self.receiver.recv_timeout(Duration::from_secs(60)) {
            Ok(Message::Notification(Notification::Initialized)) => (),
            Err(crossbeam_channel::RecvTimeoutError::Timeout) => (),
''')]),
# C05
('c05-exit-loop',['C05'],[(L,'''                Ok(Message::Notification(msg)) if !matches!(msg, Notification::Exit) => {''','''                Ok(Message::Notification(msg)) => {''')]),
('c05-disc-ok',['C05'],[(L,'''                let msg = format!("expected initialized notification, got error: {}", e,);
                tracing::error!("{}", msg);
                return Err(ProtocolError(msg));
''','''                let msg = format!("expected initialized notification, got error: {}", e,);
                tracing::error!("{}", msg);
''')]),
('c05-resp-ok',['C05'],[(L,'''            Ok(Message::Notification(Notification::Initialized)) => (),
''','''            Ok(Message::Notification(Notification::Initialized)) => (),
            Ok(Message::Response(r)) if r.error.is_none() => (),
''')]),
('c05-ignore-send',['C05','C04'],[(L,'''        self.sender
            .send(resp.into())
            .map_err(|e| ProtocolError(e.to_string()))?;
''','''        if self.sender.send(resp.into()).is_err() {
            tracing::error!("client is gone");
        }
''')]),
# C06
('c06-norecvlimit',['C06'],[(L,'self.receiver.recv_timeout(Duration::from_secs(30))','self.receiver.recv()')]),
('c06-deadline-early',['C06'],[(L,'''            let resp = Response::ok(id.clone(), ());
            let _ = self.sender.send(resp.into());
            match &self.receiver.recv_timeout(Duration::from_secs(30)) {
''','''            let deadline = Instant::now() + Duration::from_secs(30);
            let resp = Response::ok(id.clone(), ());
            let _ = self.sender.send(resp.into());
            match &self.receiver.recv_deadline(deadline) {
''')]),
('c06-timeout-ok',['C06'],[(L,'''                Err(e) => {
                    let msg = format!("unexpected error during shutdown: {}", e);
                    return Err(ProtocolError(msg));
''','''                Err(e) if e.is_disconnected() => (),
                Err(e) => {
                    let msg = format!("unexpected error during shutdown: {}", e);
                    return Err(ProtocolError(msg));
''')]),
('c06-10s',['C06'],[(L,'Duration::from_secs(30)','Duration::from_secs(29)')]),
('c06-peek',['C06'],[(L,'''        } else {
            Ok(false)
''','''        } else {
            if req.method().starts_with("buildTarget/run") {
                let _ = self.receiver.try_recv();
            }
            Ok(false)
''')]),
('c06-trysend',['C06'],[(L,'''            let _ = self.sender.send(resp.into());
''','''            let _ = self.sender.send_timeout(resp.into(), Duration::from_secs(30));
''')]),
# C07
('c07-request-exit',['C07'],[(R,'''InitializeBuild(_, _) => "build/initialize",
            Shutdown''','''InitializeBuild(_, _) => "build/initialize",
            Shutdown'''),(T,'''                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
''','''                    let is_exit = match &msg {
                        Message::Notification(n) => n.method().to_lowercase() == "build/exit",
                        _ => false,
                    };
''')]),
('c07-shutdown-ends',['C07'],[(T,'''                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
''','''                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    Message::Request(r) => r.method() == "build/exit",
''')]),
('c07-drain-input',['C07'],[(T,'''                    if is_exit {
                        break;
                    }
                }
                Ok(())
            });
            (reader_receiver, reader)''','''                    if is_exit {
                        drop(reader_sender);
                        io::copy(&mut buf_read, &mut io::sink())?;
                        break;
                    }
                }
                Ok(())
            });
            (reader_receiver, reader)'''),]),
]
M=M_
