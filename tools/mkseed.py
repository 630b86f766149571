#!/usr/bin/env python3
"""Write seeded/<id>/ from a description, and confirm it in a scratch copy of /repo.
Usage: mkseed.py FILE.py [ID...]   (FILE.py fills BUGS: id -> dict(property, needs, breaks, edits, main, shim))"""
import sys, os, json, subprocess, shutil, tempfile
PRE = r'''#![allow(unused)]
use bsp_server::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{exit, Child, Command, Stdio};
use std::sync::mpsc;
use std::thread;
use std::time::{Duration, Instant};
fn fail(m: impl AsRef<str>) -> ! {
    eprintln!("FAIL: {}", m.as_ref());
    exit(1)
}
fn body(b: &[u8]) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
    v.extend_from_slice(b);
    v
}
fn frame(v: Value) -> Vec<u8> {
    body(v.to_string().as_bytes())
}
fn read_frame(r: &mut impl BufRead) -> Option<Value> {
    let mut n = None;
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let l = l.trim_end();
        if l.is_empty() {
            break;
        }
        if let Some(x) = l.strip_prefix("Content-Length: ") {
            n = x.parse::<usize>().ok();
        }
    }
    let mut b = vec![0; n?];
    r.read_exact(&mut b).ok()?;
    serde_json::from_slice(&b).ok()
}
/// The result of f, or None if it takes longer.
fn within<T: Send + 'static>(ms: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let _ = tx.send(f());
    });
    rx.recv_timeout(Duration::from_millis(ms)).ok()
}
/// A connection of the library, and its peer.
fn pair() -> (Connection, IoThreads, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let (c, io) = Connection::connect(a).unwrap();
    let (s, _) = l.accept().unwrap();
    (c, io, s)
}
/// This program again, as a server over stdio.
fn child(mode: &str) -> Child {
    Command::new(std::env::current_exe().unwrap()).arg(mode).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap()
}
fn mode() -> String {
    std::env::args().nth(1).unwrap_or_default()
}
fn init_req(id: i32) -> Value {
    json!({"jsonrpc":"2.0","id":id,"method":"build/initialize","params":{"displayName":"c","version":"1","bspVersion":"2","rootUri":"file:///tmp/x","capabilities":{"languageIds":[]}}})
}
'''
DEMO = r'''#!/bin/bash
# Run in /repo after the build. Exit 0: the property holds here; nonzero: it is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" || exit 2
cat >"$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
bsp-server = { path = "$repo/bsp-server" }
serde_json = "1"
crossbeam-channel = "0.5"
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
(cd "$w" && cargo build --offline --quiet 2>"$w/log") || { cat "$w/log" >&2; exit 2; }
if [ -f "$here/shim.c" ]; then
    gcc -shared -fPIC -O1 -o "$w/shim.so" "$here/shim.c" -ldl || exit 2
    export LD_PRELOAD="$w/shim.so"
fi
timeout 120 "$w/target/debug/demo"
'''
def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = ns['BUGS']
    for i in sys.argv[2:] or list(bugs):
        b = bugs[i]
        d = f'/verif/seeded/{i}'
        w = tempfile.mkdtemp(prefix='/tmp/seed.')
        try:
            run(['cp', '-a', '/repo', w + '/repo'])
            r = w + '/repo'
            run(['git', '-C', r, 'checkout', '-q', '--', '.'])
            for f, old, new in b['edits']:
                p = f'{r}/{f}'
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = run(['git', '-C', r, 'diff']).stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.rs', 'w').write(PRE + b['main'])
            if 'shim' in b: open(d + '/shim.c', 'w').write(b['shim'])
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
            # confirm
            x = run(['cargo', 'test', '--workspace', '--offline', '--lib'], cwd=r, env={**os.environ, 'CARGO_TARGET_DIR': r + '/target'})
            ok = 'test result: ok' in x.stdout and x.returncode == 0
            good = run(['bash', d + '/demo.sh'], cwd='/repo')
            bad = run(['bash', d + '/demo.sh'], cwd=r)
            print(i, b['property'], 'tests', 'pass' if ok else 'FAIL', '| unchanged', good.returncode, '| patched', bad.returncode, bad.stdout.strip()[-150:].replace('\n', ' '), flush=True)
            if not ok: print(x.stdout[-1500:])
            if good.returncode: print(good.stdout[-1500:])
        finally:
            shutil.rmtree(w)
main()
