exec(open('/verif/tools/muts/m3.py').read().split('M=[\n')[0])
M=[
('c16-v4',['C16'],[(L,'''        let stream = TcpStream::connect(addr)?;
''','''        let addrs: Vec<_> = addr.to_socket_addrs()?.filter(|a| a.is_ipv4()).collect();
        let stream = TcpStream::connect(&addrs[..])?;
''')]),
('c16-local',['C16'],[(L,'''        let (stream, _) = listener.accept()?;
''','''        let stream = loop {
            let (stream, peer) = listener.accept()?;
            if peer.ip().is_loopback() {
                break stream;
            }
        };
''')]),
('c16-any-v4',['C16'],[(L,'''        let listener = TcpListener::bind(addr)?;
''','''        let addrs: Vec<_> = addr
            .to_socket_addrs()?
            .map(|a| if a.ip().is_unspecified() { std::net::SocketAddr::from(([127, 0, 0, 1], a.port() + 1)) } else { a })
            .collect();
        let listener = TcpListener::bind(&addrs[..])?;
''')]),
('c09-eof-json',['C09'],[(M,READ,'''    let mut buf = Vec::new();
    if inp.take(size as u64).read_to_end(&mut buf)? < size && serde_json::from_slice::<serde_json::Value>(&buf).is_err() {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
''')]),
('c20-forget-exit',['C20'],[(T,'''                    if is_exit {
                        break;
                    }
                }
                Ok(())
            });
            (reader''','''                    if is_exit {
                        std::mem::forget(buf_read.get_ref().try_clone()?);
                        break;
                    }
                }
                Ok(())
            });
            (reader''')]),
('c18-exit-trace',['C18','C07'],[(M,TXT,'''        let msg: Message = serde_json::from_str(&text)?;
        if tracing::enabled!(tracing::Level::TRACE) {
            assert!(text.len() < 4000, "long message");
        }
''')]),
('c19-sleep-rest',['C19','C06'],[(L,RECV30,'''            let began = std::time::Instant::now();
            let got = self.receiver.recv_timeout(Duration::from_secs(30));
            if let Err(crossbeam_channel::RecvTimeoutError::Disconnected) = got {
                std::thread::sleep(Duration::from_secs(30).saturating_sub(began.elapsed()));
            }
            match &got {
''')]),
]
