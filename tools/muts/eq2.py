# More refactorings that keep the behaviour, with calls the library does not make today.
exec(open('/verif/tools/muts/eq.py').read().split('M=[\n')[0])
TXT='''        let msg = serde_json::from_str(&text)?;
'''
M=[
('f-eprintln',ALL,[(M,'fn invalid_data(error: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error {\n','fn invalid_data(error: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error {\n    eprintln!("bsp-server: unusable input");\n'),
 (M,TXT,'''        let msg = serde_json::from_str(&text)?;
        if std::env::var_os("BSP_SERVER_DEBUG").is_some() {
            eprintln!("got {}", text.len());
        }
''')]),
('f-rcvtimeo',ALL,[(T,TCPALL,'''                stream.set_read_timeout(Some(std::time::Duration::from_secs(20)))?;
                let mut buf_read = io::BufReader::new(Patient(stream));
                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    forward(&reader_sender, msg)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
'''),(T,'pub struct Transporter(','''/// Goes on after a timeout.
struct Patient(TcpStream);
impl io::Read for Patient {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        loop {
            match io::Read::read(&mut self.0, buf) {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
                other => return other,
            }
        }
    }
}

pub struct Transporter(''')]),
('f-select',ALL,[(T,TCPW,'''                let never = crossbeam_channel::never::<()>();
                loop {
                    crossbeam_channel::select! {
                        recv(writer_receiver) -> it => match it {
                            Ok(it) => it.write(&mut stream)?,
                            Err(_) => return Ok(()),
                        },
                        recv(never) -> _ => return Ok(()),
                    }
                }
''')]),
('f-condvar',ALL,[(T,TCPW,'''                let started = std::sync::Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
                let other = started.clone();
                let t = thread::spawn(move || {
                    *other.0.lock().unwrap() = true;
                    other.1.notify_all();
                });
                let mut g = started.0.lock().unwrap();
                while !*g {
                    g = started.1.wait(g).unwrap();
                }
                drop(g);
                let _ = t.join();
                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
''')]),
('f-oncelock',ALL,[(T,'''    sender
        .send(msg)
''','''    static FIRST: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    tracing::trace!("after {:?}", FIRST.get_or_init(std::time::Instant::now).elapsed());
    sender
        .send(msg)
''')]),
('f-shutwr',['C01','C02','C07','C08','C10','C13','C16','C17','C18','C19','C20'],[(T,TCPW,'''                let r = writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream));
                if r.is_ok() {
                    let _ = stream.shutdown(std::net::Shutdown::Write);
                }
                r
''')]),
('f-mpsc-join',ALL,[(I,'''        let reader = self.reader.join();
        let writer = self.writer.join();
''','''        let IoThreads { reader, writer } = self;
        while !reader.is_finished() {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        let (reader, writer) = (reader.join(), writer.join());
''')]),
('f-listen-nb',ALL,[(L,'''        let (stream, _) = listener.accept()?;
''','''        listener.set_nonblocking(true)?;
        let stream = loop {
            match listener.accept() {
                Ok((stream, _)) => break stream,
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_millis(50)),
                Err(e) => return Err(e),
            }
        };
        stream.set_nonblocking(false)?;
''')]),
('f-stdout-raw',ALL,[(T,'''            let mut stdout = stdout.lock();
''','''            let stdout = stdout.lock();
            let mut stdout = io::BufWriter::new(stdout);
''')]),
]
