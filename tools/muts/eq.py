# Refactorings that keep the behaviour: no check may report anything on these.
exec(open('/verif/tools/muts/m1.py').read().split('M=M\n')[0])
JOIN='''        let reader = self.reader.join();
        let writer = self.writer.join();
        match reader {
            Ok(r) => r?,
            Err(err) => {
                println!("reader panicked!");
                std::panic::panic_any(err)
            }
        }
        match writer {
            Ok(r) => r,
            Err(err) => {
                println!("writer panicked!");
                std::panic::panic_any(err);
            }
        }
'''
READ='''    let mut buf = Vec::new();
    if inp.take(size as u64).read_to_end(&mut buf)? < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
STDALL='''            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };

                forward(&reader_sender, msg)?;

                if is_exit {
                    break;
                }
            }
            Ok(())
'''
TCPALL='''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    forward(&reader_sender, msg)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
'''
LOOPS='''/// Read until exit or the end of the input.
fn read_loop(input: &mut dyn io::BufRead, sender: &Sender<Message>) -> io::Result<()> {
    loop {
        let msg = match Message::read(input)? {
            None => return Ok(()),
            Some(msg) => msg,
        };
        let last = matches!(msg, Message::Notification(Notification::Exit));
        forward(sender, msg)?;
        if last {
            return Ok(());
        }
    }
}

/// Write until the application has dropped its sender.
fn write_loop(output: &mut dyn io::Write, receiver: &Receiver<Message>) -> io::Result<()> {
    while let Ok(msg) = receiver.recv() {
        msg.write(output)?;
    }
    Ok(())
}

pub struct Transporter('''
SHUT='''            match &self.receiver.recv_timeout(Duration::from_secs(30)) {
                Ok(Message::Notification(Notification::Exit)) => (),
                Ok(msg) => {
                    let msg = format!("unexpected message during shutdown: {:?}", msg);
                    tracing::error!("{}", msg);

                    return Err(ProtocolError(msg));
                }
                Err(e) => {
                    let msg = format!("unexpected error during shutdown: {}", e);
                    return Err(ProtocolError(msg));
                }
            }
            Ok(true)
'''
INIT0='''        loop {
            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {'''
ALL=['C%02d'%i for i in range(1,22)]
M=[
('e-one-write',ALL,[(M,WR,'''        let mut frame = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
        frame.push_str(&msg);
        w.write_all(frame.as_bytes())?;
        w.flush()
''')]),
('e-loops',ALL,[(T,STDALL,'            read_loop(&mut stdin, &reader_sender)\n'),(T,TCPALL,'                read_loop(&mut io::BufReader::new(stream), &reader_sender)\n'),(T,STDW,'            write_loop(&mut stdout, &writer_receiver)\n'),(T,TCPW,'                write_loop(&mut stream, &writer_receiver)\n'),(T,'pub struct Transporter(',LOOPS)]),
('e-chunks',ALL,[(M,READ,'''    let mut buf: Vec<u8> = Vec::new();
    let mut chunk = [0u8; 4096];
    while buf.len() < size {
        let want = chunk.len().min(size - buf.len());
        match inp.read(&mut chunk[..want]) {
            Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        }
    }
''')]),
('e-fillbuf',ALL,[(M,READ,'''    let mut buf: Vec<u8> = Vec::new();
    while buf.len() < size {
        let n = match inp.fill_buf() {
            Ok(b) if b.is_empty() => return Err(io::ErrorKind::UnexpectedEof.into()),
            Ok(b) => {
                let n = b.len().min(size - buf.len());
                buf.extend_from_slice(&b[..n]);
                n
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        inp.consume(n);
    }
''')]),
('e-deadline',ALL,[(L,SHUT,'''            let deadline = Instant::now() + Duration::from_secs(30);
            return match self.receiver.recv_deadline(deadline) {
                Ok(Message::Notification(Notification::Exit)) => Ok(true),
                Ok(other) => Err(ProtocolError(format!("unexpected message during shutdown: {other:?}"))),
                Err(e) => Err(ProtocolError(format!("unexpected error during shutdown: {e}"))),
            };
''')]),
('e-join-pair',ALL,[(I,JOIN,'''        match (self.reader.join(), self.writer.join()) {
            (Ok(reader), Ok(writer)) => reader.and(writer),
            (Err(err), _) => {
                println!("reader panicked!");
                std::panic::resume_unwind(err)
            }
            (_, Err(err)) => {
                println!("writer panicked!");
                std::panic::resume_unwind(err)
            }
        }
''')]),
('e-incoming',ALL,[(L,'''        let (stream, _) = listener.accept()?;
''','''        let stream = match listener.incoming().next() {
            Some(stream) => stream?,
            None => return Err(io::ErrorKind::NotConnected.into()),
        };
        drop(listener);
''')]),
('e-arc',ALL,[(T,'''            let stream = stream.try_clone()?;
''','''            let stream = stream.clone();
'''),(T,'''        let (reader_receiver, reader) = {
            let stream''','''        let stream = std::sync::Arc::new(stream);
        let (reader_receiver, reader) = {
            let stream'''),(T,'io::BufReader::new(stream)','io::BufReader::new(&*stream)'),(T,'            let mut stream = stream;\n',''),(T,'it.write(&mut stream)','it.write(&mut &*stream)')]),
('e-builder',ALL,[(T,'''            let reader = thread::spawn(move || {
                let mut buf''','''            let reader = thread::Builder::new().name("bsp-reader".into()).spawn(move || {
                let mut buf'''),(T,'''                }
                Ok(())
            });
            (reader_receiver, reader)''','''                }
                Ok(())
            })?;
            (reader_receiver, reader)''')]),
('e-nodelay',ALL,[(T,'''        let (reader_receiver, reader) = {
            let stream''','''        let _ = stream.set_nodelay(true);
        tracing::debug!("peer {:?} local {:?}", stream.peer_addr(), stream.local_addr());
        let (reader_receiver, reader) = {
            let stream''')]),
('e-fwd-retry',ALL,[(T,FWD,'''    let mut msg = msg;
    loop {
        match sender.send_timeout(msg, std::time::Duration::from_secs(5)) {
            Ok(()) => return Ok(()),
            Err(crossbeam_channel::SendTimeoutError::Timeout(m)) => msg = m,
            Err(err) => return Err(io::Error::new(io::ErrorKind::BrokenPipe, err.to_string())),
        }
    }
''')]),
('e-poll-writer',ALL,[(T,TCPW,'''                loop {
                    match writer_receiver.recv_timeout(std::time::Duration::from_secs(3)) {
                        Ok(it) => it.write(&mut stream)?,
                        Err(crossbeam_channel::RecvTimeoutError::Timeout) => continue,
                        Err(crossbeam_channel::RecvTimeoutError::Disconnected) => return Ok(()),
                    }
                }
''')]),
('e-bufwriter',ALL,[(T,TCPW,'''                let mut out = io::BufWriter::with_capacity(1 << 16, &mut stream);
                for it in writer_receiver {
                    it.write(&mut out)?;
                }
                Ok(())
'''),(T,STDW,'''            let mut stdout = io::LineWriter::new(&mut stdout);
            for it in writer_receiver.iter() {
                it.write(&mut stdout)?;
            }
            Ok(())
''')]),
('e-value',ALL,[(M,'''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
''','''        let msg = serde_json::to_value(&JsonRpc::from(self))?.to_string();
''')]),
('e-pieces',ALL,[(M,WR,'''        w.write_all(b"Content-Length: ")?;
        w.write_all(msg.len().to_string().as_bytes())?;
        w.write_all(b"\\r\\n\\r\\n")?;
        for piece in msg.as_bytes().chunks(1000) {
            w.write_all(piece)?;
        }
        w.flush()
''')]),
('e-vectored',ALL,[(M,WR,'''        let head = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
        let (mut a, mut b) = (head.as_bytes(), msg.as_bytes());
        while !a.is_empty() || !b.is_empty() {
            let n = match w.write_vectored(&[io::IoSlice::new(a), io::IoSlice::new(b)]) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e),
            };
            let k = n.min(a.len());
            a = &a[k..];
            b = &b[n - k..];
        }
        w.flush()
''')]),
('e-cap',ALL,[(T,'io::BufReader::new(stream)','io::BufReader::with_capacity(1 << 15, stream)')]),
('e-init-iter',ALL,[(L,'''                Err(e) => {
                    let msg = format!("expected initialize request, got error: {}", e);
                    tracing::error!("{}", msg);
                    return Err(ProtocolError(msg));
                }
            };
        }
    }
''','''            };
        }
        Err(ProtocolError("expected initialize request, got end of input".into()))
    }
'''),(L,INIT0,'''        for message in self.receiver.iter() {
            match message {
                Message::Request(Request::InitializeBuild(id, params)) => {'''),
(L,'''                Ok(Message::Request(req)) => {''','''                Message::Request(req) => {'''),
(L,'''                Ok(Message::Notification(msg)) if''','''                Message::Notification(msg) if'''),
(L,'''                Ok(msg) => {
                    let msg = format!("expected initialize request''','''                msg => {
                    let msg = format!("expected initialize request''')]),
('e-read-until',ALL,[(M,'''        if inp.read_line(&mut buf)? == 0 {''','''        let mut line = Vec::new();
        let n = io::BufRead::read_until(inp, b'\\n', &mut line)?;
        buf.push_str(std::str::from_utf8(&line).map_err(invalid_data)?);
        if n == 0 {''')]),
('e-clone-both',ALL,[(T,'''            let mut stream = stream;
            let (writer''','''            let mut stream = { let copy = stream.try_clone()?; drop(stream); copy };
            let (writer''')]),
('e-msg-kind',ALL,[(M,'''        let msg = serde_json::from_str(&text)?;
''','''        let msg: Message = serde_json::from_slice(text.as_bytes())?;
''')]),
]
