//! An independent reading of the byte stream the code under test writes.
use crate::gen::{is_typed_notif, is_typed_req, norm, paramless, NOTIF, REQ};
use serde_json::{json, Map, Value};

pub struct Frame {
    pub end: usize,
    pub body: Value,
}
pub struct Parsed {
    pub frames: Vec<Frame>,
    pub rest: usize, // offset of the first byte that belongs to no complete frame
    pub err: Option<String>,
}
fn find(b: &[u8], from: usize) -> Option<usize> {
    b[from..].windows(4).position(|w| w == b"\r\n\r\n").map(|i| from + i)
}
pub fn parse(b: &[u8]) -> Parsed {
    let mut at = 0;
    let mut frames = vec![];
    loop {
        if at == b.len() {
            return Parsed { frames, rest: at, err: None };
        }
        let show = |n: usize| format!("{:?}", String::from_utf8_lossy(&b[at..(at + n).min(b.len())]));
        let Some(h) = find(b, at) else {
            // an incomplete header must at least look like one
            let t = &b[at..];
            let known: [&[u8]; 2] = [b"Content-Length: ", b"Content-Type: "];
            let n = t.len();
            let ok = known.iter().any(|k| t.starts_with(&k[..k.len().min(n)]));
            let err = if ok { None } else { Some(format!("stray bytes at offset {at}: {}", show(80))) };
            return Parsed { frames, rest: at, err };
        };
        let mut len: Option<usize> = None;
        let head = &b[at..h];
        for l in head.split(|c| *c == b'\n') {
            let l = String::from_utf8_lossy(l).trim_end_matches('\r').to_string();
            let Some((k, v)) = l.split_once(':') else {
                return Parsed { frames, rest: at, err: Some(format!("malformed header line {l:?} at offset {at}")) };
            };
            match k.to_ascii_lowercase().as_str() {
                "content-length" => {
                    if len.is_some() {
                        return Parsed { frames, rest: at, err: Some("two Content-Length headers".into()) };
                    }
                    match v.trim().parse() {
                        Ok(n) => len = Some(n),
                        Err(_) => return Parsed { frames, rest: at, err: Some(format!("bad length {l:?}")) },
                    }
                }
                "content-type" => {}
                _ => return Parsed { frames, rest: at, err: Some(format!("unexpected header {l:?} at offset {at}")) },
            }
        }
        let Some(n) = len else {
            return Parsed { frames, rest: at, err: Some(format!("no Content-Length at offset {at}: {}", show(80))) };
        };
        let s = h + 4;
        if b.len() < s + n {
            return Parsed { frames, rest: at, err: None };
        }
        let body = &b[s..s + n];
        let v: Value = match serde_json::from_slice(body) {
            Ok(v) => v,
            Err(e) => {
                return Parsed {
                    frames,
                    rest: at,
                    err: Some(format!("body at offset {s} (length {n}) is not JSON: {e}: {:?}", String::from_utf8_lossy(&body[..n.min(120)]))),
                }
            }
        };
        at = s + n;
        frames.push(Frame { end: at, body: v });
    }
}
/// The message a frame carries, in the same form as `MsgSpec::expect`.
pub fn sem(b: &Value) -> Result<Value, String> {
    let o = b.as_object().ok_or("body is not an object")?;
    if o.get("jsonrpc") != Some(&json!("2.0")) {
        return Err(format!("no \"jsonrpc\":\"2.0\" in {b}"));
    }
    for k in o.keys() {
        if !matches!(k.as_str(), "jsonrpc" | "id" | "method" | "params" | "result" | "error") {
            return Err(format!("unexpected member {k:?}"));
        }
    }
    if let Some(m) = o.get("method") {
        let m = m.as_str().ok_or("method is not a string")?;
        if o.contains_key("result") || o.contains_key("error") {
            return Err("both a method and a result".into());
        }
        let p = o.get("params").cloned().unwrap_or(Value::Null);
        if let Some(i) = o.get("id") {
            let p = if paramless(REQ, m) && p == json!({}) { Value::Null } else { norm(&p, is_typed_req(m)) };
            Ok(json!({"k": "req", "id": i, "m": m, "p": p}))
        } else {
            let p = if paramless(NOTIF, m) && p == json!({}) { Value::Null } else { norm(&p, is_typed_notif(m)) };
            Ok(json!({"k": "notif", "m": m, "p": p}))
        }
    } else {
        let mut x = Map::new();
        x.insert("k".into(), json!("resp"));
        x.insert("id".into(), o.get("id").cloned().ok_or("neither method nor id")?);
        let (r, e) = (o.get("result"), o.get("error").filter(|e| !e.is_null()));
        if r.is_some() && e.is_some() && !r.unwrap().is_null() {
            return Err("both result and error".into());
        }
        if r.is_none() && e.is_none() {
            return Err("a response without result or error".into());
        }
        if let Some(e) = e {
            x.insert("e".into(), norm(e, true));
        }
        if let Some(r) = r {
            if !r.is_null() {
                x.insert("r".into(), r.clone());
            }
        }
        Ok(Value::Object(x))
    }
}
/// All complete frames as messages.
pub fn messages(b: &[u8]) -> Result<(Vec<Value>, usize), String> {
    let p = parse(b);
    if let Some(e) = p.err {
        return Err(e);
    }
    let mut v = vec![];
    for f in &p.frames {
        v.push(sem(&f.body)?);
    }
    Ok((v, p.rest))
}
pub fn brief(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 240 {
        format!("{}… ({} bytes)", s.chars().take(200).collect::<String>(), s.len())
    } else {
        s
    }
}
