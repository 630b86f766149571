exec(open('/verif/tools/muts/m1.py').read().split('M=M\n')[0])
STDFWD='''                forward(&reader_sender, msg)?;

                if is_exit {
'''
TCPFWD='''                    forward(&reader_sender, msg)?;
                    if is_exit {
'''
JOIN='''        let reader = self.reader.join();
        let writer = self.writer.join();
'''
READ='''    if inp.take(size as u64).read_to_end(&mut buf)? < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
ACC='''        let (stream, _) = listener.accept()?;
'''
M=[
# C08
('c08-join-writer-first',['C08','C17'],[(I,JOIN,'''        let writer = self.writer.join();
        let reader = self.reader.join();
''')]),
('c08-join-reader-only-on-err',['C08'],[(I,JOIN,'''        let reader = self.reader.join();
        if let Ok(Err(err)) = &reader {
            if err.kind() == std::io::ErrorKind::UnexpectedEof {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
        }
        let writer = self.writer.join();
''')]),
('c08-swallow-writer',['C08','C10'],[(I,'''            Ok(r) => r,
            Err(err) => {
                println!("writer''','''            Ok(Err(err)) if err.kind() == std::io::ErrorKind::ConnectionReset => Ok(()),
            Ok(r) => r,
            Err(err) => {
                println!("writer''')]),
('c08-detached-flush',['C08','C03'],[(T,STDW,'''            let mut out = io::BufWriter::new(stdout);
            for it in writer_receiver.iter() {
                let more = !writer_receiver.is_empty();
                let mut v = vec![];
                it.write(&mut v)?;
                io::Write::write_all(&mut out, &v)?;
                if !more {
                    io::Write::flush(&mut out)?;
                }
            }
            Ok(())
'''),]),
('c08-finished-poll',['C08'],[(I,'''        let writer = self.writer.join();
''','''        let mut n = 0;
        while !self.writer.is_finished() && n < 50 {
            thread::sleep(std::time::Duration::from_millis(100));
            n += 1;
        }
        if !self.writer.is_finished() {
            return Ok(());
        }
        let writer = self.writer.join();
''')]),
# C09
('c09-eio-eof',['C09'],[(M,'''        if inp.read_line(&mut buf)? == 0 {
''','''        let n = match inp.read_line(&mut buf) {
            Ok(n) => n,
            Err(err) if err.kind() == io::ErrorKind::ConnectionReset => 0,
            Err(err) => return Err(err),
        };
        if n == 0 {
''')]),
('c09-trailing',['C09'],[(M,'''        let msg = serde_json::from_str(&text)?;
''','''        let mut de = serde_json::Deserializer::from_str(&text);
        let msg = Message::deserialize(&mut de)?;
''')]),
('c09-short-body',['C09'],[(M,READ,'''    inp.take(size as u64).read_to_end(&mut buf)?;
''')]),
('c09-skip-bad',['C09'],[(M,'''            None => return Ok(None),
        };
        let msg = serde_json::from_str(&text)?;
''','''            None => return Ok(None),
        };
        let msg = match serde_json::from_str(&text) {
            Ok(msg) => msg,
            Err(err) if err.is_data() => return Message::read(r),
            Err(err) => return Err(err.into()),
        };
''')]),
('c09-lenient-len',['C09'],[(M,'header_value.parse::<usize>().map_err(invalid_data)?','header_value.trim_end_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().map_err(invalid_data)?')]),
('c09-default-len',['C09'],[(M,'''size.ok_or_else(|| invalid_data!("no Content-Length"))?''','''size.unwrap_or(0)''')]),
# C10
('c10-epipe-ok',['C10'],[(T,TCPW,'''                for it in writer_receiver {
                    match it.write(&mut stream) {
                        Err(err) if err.kind() == io::ErrorKind::BrokenPipe => return Ok(()),
                        other => other?,
                    }
                }
                Ok(())
''')]),
('c10-skip-failed',['C10'],[(T,STDW,'''            let mut res = Ok(());
            for it in writer_receiver {
                if let Err(err) = it.write(&mut stdout) {
                    res = Err(err);
                }
            }
            res
''')]),
('c10-drain-on-fail',['C10'],[(T,TCPW,'''                let res = writer_receiver.iter().try_for_each(|it| it.write(&mut stream));
                if res.is_err() {
                    while writer_receiver.try_recv().is_ok() {}
                }
                res
''')]),
('c10-eagain-retry',['C10'],[(M,'''        w.write_all(msg.as_bytes())?;
''','''        if let Err(err) = w.write_all(msg.as_bytes()) {
            if err.kind() != io::ErrorKind::TimedOut {
                return Err(err);
            }
            w.write_all(msg.as_bytes())?;
        }
''')]),
# C11
('c11-cap1',['C11'],[(T,'''            let (reader_sender, reader_receiver) = bounded::<Message>(0);
            let reader''','''            let (reader_sender, reader_receiver) = bounded::<Message>(1);
            let reader''')]),
('c11-cap1-out-std',['C11','C10','C12'],[(T,'''        let (writer_sender, writer_receiver) = bounded::<Message>(0);
        let writer = thread''','''        let (writer_sender, writer_receiver) = bounded::<Message>(1);
        let writer = thread''')]),
('c11-big-buffer',['C11'],[(T,'io::BufReader::new(stream)','io::BufReader::with_capacity(1 << 20, stream)')]),
('c11-batch',['C11','C10'],[(T,TCPW,'''                while let Ok(it) = writer_receiver.recv() {
                    let mut out = Vec::new();
                    it.write(&mut out)?;
                    while let Ok(it) = writer_receiver.try_recv() {
                        it.write(&mut out)?;
                    }
                    io::Write::write_all(&mut stream, &out)?;
                }
                Ok(())
''')]),
# C12
('c12-try-10ms',['C12'],[(L,'self.sender.try_send(msg.into())','''{
            match self.sender.send_timeout(msg.into(), Duration::from_millis(10)) {
                Ok(()) => Ok(()),
                Err(SendTimeoutError::Timeout(m)) => Err(TrySendError::Full(m)),
                Err(SendTimeoutError::Disconnected(m)) => Err(TrySendError::Disconnected(m)),
            }
        }''')]),
('c12-timeout-late',['C12'],[(L,'self.sender.send_timeout(msg.into(), timeout)','''{
            let mut msg = msg.into();
            let mut left = timeout;
            loop {
                let step = left.min(Duration::from_secs(1));
                match self.sender.send_timeout(msg, step.max(Duration::from_millis(500))) {
                    Err(SendTimeoutError::Timeout(m)) if left > step => {
                        msg = m;
                        left -= step;
                    }
                    other => return other,
                }
            }
        }''')]),
('c12-deadline-clone',['C12'],[(L,'self.sender.send_deadline(msg.into(), deadline)','''{
            let msg = msg.into();
            let res = self.sender.send_deadline(msg, deadline);
            if let Err(SendTimeoutError::Timeout(m)) = &res {
                let _ = self.sender.try_send(m.clone());
            }
            res
        }''')]),
('c12-disc-as-timeout',['C12','C10'],[(L,'self.sender.send_deadline(msg.into(), deadline)','''self.sender.send_deadline(msg.into(), deadline).or_else(|e| match e {
            SendTimeoutError::Timeout(m) if deadline <= Instant::now() && matches!(m, Message::Response(_)) => {
                self.sender.send(m).map_err(|e| SendTimeoutError::Disconnected(e.0))
            }
            e => Err(e),
        })''')]),
# C13
('c13-reader-end-shutdown',['C13'],[(T,'''                    if is_exit {
                        break;
                    }
                }
                Ok(())
''','''                    if is_exit {
                        break;
                    }
                }
                let _ = buf_read.get_ref().shutdown(std::net::Shutdown::Both);
                Ok(())
''')]),
('c13-writer-fail-shutdown',['C13'],[(T,TCPW,'''                let res = writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream));
                if res.is_err() {
                    let _ = stream.shutdown(std::net::Shutdown::Both);
                }
                res
''')]),
('c13-lock',['C13'],[(T,TCPREAD,'''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = { let m = Message::read(&mut buf_read)?; drop(io::stdout().lock()); m } {
''')]),
# C14
('c14-exit-flag',['C14'],[(T,TCPFWD,'''                    forward(&reader_sender, msg)?;
                    static EXITED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
                    if is_exit {
                        EXITED.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                    if is_exit || EXITED.load(std::sync::atomic::Ordering::SeqCst) {
''')]),
('c14-write-mutex',['C14','C13'],[(M,'''        write!(w, "Content-Length''','''        static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _guard = LOCK.lock();
        write!(w, "Content-Length''')]),
('c14-shared-buf',['C14'],[(M,'''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
''','''        static LEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        LEN.store(msg.len(), std::sync::atomic::Ordering::Relaxed);
        let header = LEN.load(std::sync::atomic::Ordering::Relaxed);
        write!(w, "Content-Length: {}\\r\\n\\r\\n", header)?;
''')]),
# C16
('c16-timeout',['C16'],[(L,'TcpStream::connect(addr)?','''TcpStream::connect_timeout(&addr.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput)?, Duration::from_secs(5))?''')]),
('c16-accept-twice',['C16'],[(L,ACC,'''        let (stream, _) = match listener.accept() {
            Ok(x) => x,
            Err(_) => listener.accept()?,
        };
''')]),
('c16-nonblocking',['C16','C01'],[(L,ACC,ACC+'''        stream.set_read_timeout(Some(Duration::from_secs(3600)))?;
''')]),
('c16-peek',['C16'],[(L,ACC,ACC+'''        let mut first = [0u8; 1];
        if stream.peek(&mut first)? == 0 {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
''')]),
('c16-loop',['C16'],[(L,ACC,'''        let (stream, _) = loop {
            match listener.accept() {
                Ok(x) => break x,
                Err(e) if e.kind() == io::ErrorKind::ConnectionAborted => continue,
                Err(e) => return Err(e),
            }
        };
''')]),
('c16-retry-listen',['C16'],[(L,'TcpListener::bind(addr)?','''TcpListener::bind(&addr).or_else(|_| TcpListener::bind("127.0.0.1:0"))?''')]),
# C20
('c20-forget-listener',['C20'],[(L,ACC,ACC+'''        std::mem::forget(listener);
''')]),
('c20-forget-stream',['C20'],[(T,'''            let stream = stream.try_clone()?;
''','''            let keep = stream.try_clone()?;
            let stream = match keep.try_clone() {
                Ok(s) => s,
                Err(e) => {
                    std::mem::forget(keep);
                    return Err(e);
                }
            };
''')]),
('c20-watchdog',['C20'],[(T,'''        let io_threads = IoThreads::new(reader, writer);
''','''        thread::spawn(|| thread::sleep(std::time::Duration::from_secs(3600)));
        let io_threads = IoThreads::new(reader, writer);
''')]),
('c20-sender-clone',['C20','C08'],[(T,'''            (writer_sender, writer)
''','''            std::mem::forget(writer_sender.clone());
            (writer_sender, writer)
''')]),
# C21
('c21-log',['C21'],[(M,'''        tracing::trace!("Got''','''        static LOG: std::sync::Mutex<Vec<u16>> = std::sync::Mutex::new(Vec::new());
        if let Ok(mut log) = LOG.lock() {
            log.push(text.len() as u16);
        }
        tracing::trace!("Got''')]),
('c21-resp-only',['C21'],[(M,'''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
''','''        if let Message::Response(r) = &self {
            std::mem::forget(r.clone());
        }
        let msg = serde_json::to_string(&JsonRpc::from(self))?;
''')]),
('c21-shrinkless',['C21'],[(M,'''    let mut buf = String::new();
    let mut in_header''','''    thread_local!(static KEEP: std::cell::RefCell<Vec<String>> = Default::default());
    let mut buf = String::with_capacity(64);
    KEEP.with(|k| k.borrow_mut().push(buf.clone()));
    let mut in_header''')]),
# C18
('c18-unwrap-utf8',['C18'],[(M,'''    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))''','''    Ok(Some(String::from_utf8(buf).unwrap()))''')]),
('c18-reserve',['C18'],[(M,'''    let mut buf = Vec::new();
    if inp''','''    let mut buf = Vec::with_capacity(size.min(1 << 30));
    if inp''')]),
('c18-slice',['C18'],[(M,'''            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];''','''            return Err(invalid_data!("malformed header: {:?}", &buf[..buf.len().min(200)]));
        }
        let buf = &buf[..buf.len() - 2];''')]),
('c18-expect-send',['C18'],[(L,'''                        .map_err(|e| ProtocolError(e.to_string()))?;
                }''','''                        .expect("connection closed");
                }''')]),
# C19
('c19-reader-waits',['C19'],[(T,'''                while let Some(msg) = Message::read(&mut buf_read)? {
''','''                loop {
                    let msg = match Message::read(&mut buf_read) {
                        Ok(Some(msg)) => msg,
                        Ok(None) => break,
                        Err(err) if err.kind() == io::ErrorKind::ConnectionReset => {
                            thread::sleep(std::time::Duration::from_secs(60));
                            continue;
                        }
                        Err(err) => return Err(err),
                    };
''')]),
('c19-retry-write',['C19','C10'],[(T,TCPW,'''                for it in writer_receiver {
                    while let Err(err) = it.clone().write(&mut stream) {
                        if err.kind() != io::ErrorKind::WouldBlock && err.kind() != io::ErrorKind::BrokenPipe {
                            return Err(err);
                        }
                        thread::sleep(std::time::Duration::from_millis(50));
                    }
                }
                Ok(())
''')]),
# C15
('c15-swap-bounded',['C15'],[(L,'let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());','let ((s1, r1), (s2, r2)) = (unbounded(), crossbeam_channel::bounded(4096));')]),
]
