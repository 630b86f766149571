//! Message contents: compact, shrinkable descriptions (`MsgSpec`), how the peer puts them on the wire,
//! and what the application is to observe.
use crate::core::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

pub const REQ: u8 = 0;
pub const NOTIF: u8 = 1;
pub const RESP: u8 = 2;

/// One message. `m` is the method; typed methods carry their params in `p`. Custom ones may be padded.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct MsgSpec {
    pub k: u8,
    #[serde(default)]
    pub m: String,
    #[serde(default)]
    pub id: Value,
    #[serde(default)]
    pub p: Value, // params, or the result of a response
    #[serde(default)]
    pub e: Value, // error of a response
    #[serde(default)]
    pub pad: u64,
    #[serde(default)]
    pub padk: u64,
    #[serde(default)]
    pub style: u64, // 0: plain layout
}

pub fn is_typed_req(m: &str) -> bool {
    matches!(
        m,
        "build/initialize" | "build/shutdown" | "workspace/buildTargets" | "workspace/reload"
            | "buildTarget/dependencyModules" | "debugSession/start" | "buildTarget/sources"
            | "textDocument/inverseSources" | "buildTarget/dependencySources" | "buildTarget/resources"
            | "buildTarget/run" | "buildTarget/compile" | "buildTarget/test" | "buildTarget/cleanCache"
    )
}
pub fn is_typed_notif(m: &str) -> bool {
    matches!(
        m,
        "build/exit" | "build/initialized" | "build/showMessage" | "build/logMessage" | "build/publishDiagnostics"
            | "build/taskStart" | "build/taskFinish" | "build/taskProgressing" | "buildTarget/didChange"
    )
}
pub fn paramless(k: u8, m: &str) -> bool {
    match k {
        REQ => matches!(m, "build/shutdown" | "workspace/buildTargets" | "workspace/reload"),
        NOTIF => matches!(m, "build/exit" | "build/initialized"),
        _ => false,
    }
}
impl MsgSpec {
    pub fn req(id: Value, m: &str, p: Value) -> MsgSpec {
        MsgSpec { k: REQ, m: m.into(), id, p, ..Default::default() }
    }
    pub fn notif(m: &str, p: Value) -> MsgSpec {
        MsgSpec { k: NOTIF, m: m.into(), p, ..Default::default() }
    }
    pub fn resp(id: Value, p: Value) -> MsgSpec {
        MsgSpec { k: RESP, id, p, ..Default::default() }
    }
    pub fn exit() -> MsgSpec {
        MsgSpec::notif("build/exit", Value::Null)
    }
    pub fn initialized() -> MsgSpec {
        MsgSpec::notif("build/initialized", Value::Null)
    }
    pub fn padded(mut self, n: u64) -> MsgSpec {
        self.pad = n;
        self
    }
    pub fn is_exit(&self) -> bool {
        self.k == NOTIF && self.m == "build/exit"
    }
    pub fn typed(&self) -> bool {
        match self.k {
            REQ => is_typed_req(&self.m),
            NOTIF => is_typed_notif(&self.m),
            _ => false,
        }
    }
    fn pad_string(&self) -> String {
        let unit = ["x", "é", "日", "😀", "\\\"\n", "a\u{0}\u{7f}b\u{2028}"][(self.padk % 6) as usize];
        let mut s = String::with_capacity(self.pad as usize + 16);
        while (s.len() as u64) < self.pad {
            s.push_str(unit);
        }
        s
    }
    /// params (result for responses) including padding
    pub fn full_p(&self) -> Value {
        if self.pad == 0 || self.typed() {
            return self.p.clone();
        }
        json!({"p": self.p, "pad": self.pad_string()})
    }
    /// what the receiving application is to observe
    pub fn expect(&self) -> Value {
        match self.k {
            REQ => {
                let p = if paramless(REQ, &self.m) { Value::Null } else { norm(&self.full_p(), self.typed()) };
                json!({"k": "req", "id": self.id, "m": self.m, "p": p})
            }
            NOTIF => {
                let p = if paramless(NOTIF, &self.m) { Value::Null } else { norm(&self.full_p(), self.typed()) };
                json!({"k": "notif", "m": self.m, "p": p})
            }
            _ => {
                let mut o = Map::new();
                o.insert("k".into(), json!("resp"));
                o.insert("id".into(), self.id.clone());
                let e = !self.e.is_null();
                if e {
                    o.insert("e".into(), norm(&self.e, true));
                }
                let p = self.full_p();
                if !p.is_null() && (!e || self.pad > 0) {
                    o.insert("r".into(), p);
                }
                Value::Object(o)
            }
        }
    }
    /// the JSON-RPC body as a value, before layout
    pub fn body(&self) -> Value {
        let mut o = Map::new();
        o.insert("jsonrpc".into(), json!("2.0"));
        if self.k != NOTIF {
            o.insert("id".into(), self.id.clone());
        }
        if self.k != RESP {
            o.insert("method".into(), json!(self.m));
            let p = self.full_p();
            if !p.is_null() {
                o.insert("params".into(), p);
            } else if self.style & 4 != 0 {
                o.insert("params".into(), Value::Null);
            } else if self.style & 8 != 0 && paramless(self.k, &self.m) {
                o.insert("params".into(), json!({}));
            }
        } else if !self.e.is_null() {
            o.insert("error".into(), self.e.clone());
            if self.pad > 0 {
                o.insert("result".into(), self.full_p());
            }
        } else {
            o.insert("result".into(), self.full_p());
        }
        Value::Object(o)
    }
    pub fn body_text(&self) -> String {
        render(&self.body(), self.style)
    }
    /// the complete frame as a peer may send it
    pub fn wire(&self) -> Vec<u8> {
        let b = self.body_text();
        let mut r = Rng::new(self.style ^ 0x77);
        let mut h = String::new();
        let extra = if self.style == 0 { 0 } else { r.below(6) };
        if extra == 5 {
            // many or long headers
            for i in 0..*r.pick(&[1u64, 1, 3, 12, 40]) {
                let n = *r.pick(&[10usize, 100, 300, 1500, 9000]) / (i as usize + 1);
                h.push_str(&format!("X-{i}-Trace: {}\r\n", "é: b ".repeat(n / 6 + 1).trim_end()));
            }
        }
        let ct = *r.pick(&[
            "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n",
            "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n",
            "Content-Type: application/vscode-jsonrpc; charset=utf8\r\n",
            "Content-Type: application/vscode-jsonrpc; charset=UTF-8\r\n",
            "Content-Type: application/vscode-jsonrpc\r\n",
            "Content-Type: application/json\r\n",
        ]);
        if extra == 1 {
            h.push_str(ct);
        }
        if extra == 2 {
            h.push_str("X-Trace: a: b: c\r\n");
        }
        h.push_str(&format!("Content-Length: {}\r\n", b.len()));
        if extra == 3 {
            h.push_str(ct);
        }
        if extra == 2 {
            h.push_str("X-Other: \r\n");
        }
        h.push_str("\r\n");
        let mut v = h.into_bytes();
        v.extend_from_slice(b.as_bytes());
        v
    }
}
/// typed params: members that are null are the same as absent ones
pub fn norm(v: &Value, typed: bool) -> Value {
    match v {
        Value::Object(o) if typed => {
            Value::Object(o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), x.clone())).collect())
        }
        _ => v.clone(),
    }
}

// ---------------------------------------------------------------- JSON layout
fn esc(s: &str, mode: u64, r: &mut Rng, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let force = mode != 0 && r.permille(if mode == 1 { 30 } else { 400 });
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' if !force => out.push_str("\\n"),
            '\r' if !force => out.push_str("\\r"),
            '\t' if !force => out.push_str("\\t"),
            '/' if force => out.push_str("\\/"),
            c if (c as u32) < 0x20 || force => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn ws(r: &mut Rng, on: bool, out: &mut String) {
    if on && r.permille(400) {
        out.push_str(*r.pick(&[" ", "\n", "\t", "  ", "\r\n", " \n "]));
    }
}
fn rend(v: &Value, r: &mut Rng, on: bool, mode: u64, shuffle: bool, out: &mut String) {
    match v {
        Value::String(s) => esc(s, mode, r, out),
        Value::Array(a) => {
            out.push('[');
            ws(r, on, out);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(r, on, out);
                }
                rend(x, r, on, mode, shuffle, out);
                ws(r, on, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            let mut ks: Vec<(&String, &Value)> = o.iter().collect();
            if shuffle {
                for i in (1..ks.len()).rev() {
                    let j = r.below(i as u64 + 1) as usize;
                    ks.swap(i, j);
                }
            }
            out.push('{');
            ws(r, on, out);
            for (i, (k, x)) in ks.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(r, on, out);
                }
                esc(k, mode, r, out);
                ws(r, on, out);
                out.push(':');
                ws(r, on, out);
                rend(x, r, on, mode, shuffle, out);
                ws(r, on, out);
            }
            out.push('}');
        }
        other => out.push_str(&other.to_string()),
    }
}
pub fn render(v: &Value, style: u64) -> String {
    if style == 0 {
        return v.to_string();
    }
    let mut r = Rng::new(style);
    let on = r.permille(400);
    let mode = r.below(4).min(2);
    let shuffle = r.permille(700);
    let mut s = String::new();
    ws(&mut r, on, &mut s);
    rend(v, &mut r, on, mode, shuffle, &mut s);
    ws(&mut r, on, &mut s);
    s
}

// ---------------------------------------------------------------- random contents
pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "\r\n\r\nContent-Length: 7\r\n\r\n{\"id\":1}".into(),
        2 => "日本語 – ünïcode 😀\u{2028}\u{fffd}".into(),
        3 => "quote \" back\\slash / \u{0}\u{1f}\u{7f}".into(),
        4 => "7".into(),
        5 => "null".into(),
        6 => (0..r.range(1, 60)).map(|_| char::from_u32(0x20 + r.below(0x5f) as u32).unwrap()).collect(),
        7 => (0..r.range(1, 20)).map(|_| char::from_u32(0x20 + r.below(0xD000) as u32).unwrap_or('x')).collect(),
        _ => format!("s{}", r.below(1000)),
    }
}
pub fn value(r: &mut Rng, depth: u32) -> Value {
    match r.below(if depth == 0 { 9 } else { 13 }) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(false),
        3 => json!(r.below(100)),
        4 => json!(-(r.below(1 << 40) as i64)),
        5 => json!(*r.pick(&[0u64, u64::MAX, i64::MAX as u64, 1 << 53, (1 << 53) + 1])),
        6 => json!(*r.pick(&[0.5f64, -2.25, 1e10, 0.125, -1e20, 0.1, 3.14, 1e-7, -0.0, 1e300])),
        7 | 8 => json!(text(r)),
        9 | 10 => Value::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        _ => obj(r, depth - 1),
    }
}
pub fn obj(r: &mut Rng, depth: u32) -> Value {
    let mut m = Map::new();
    for _ in 0..r.below(5) {
        let k = match r.below(8) {
            0 => "id".to_string(),
            1 => "method".to_string(),
            2 => "params".to_string(),
            3 => "result".to_string(),
            4 => "jsonrpc".to_string(),
            5 => text(r),
            _ => format!("k{}", r.below(10)),
        };
        m.insert(k, value(r, depth));
    }
    Value::Object(m)
}
pub fn id(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => json!(*r.pick(&[0i64, -1, i32::MAX as i64, i32::MIN as i64, 1])),
        // strings that look like numbers
        1 => json!(r.below(40).to_string()),
        2 => json!(*r.pick(&["0", "007", "-1", "2147483648", "99999999999", "123456789012345678901234567890", "1.5", "1e9", " 1", "null", "true"])),
        3 => json!(text(r)),
        4 => json!(format!("req-{}", r.below(100))),
        _ => json!(r.below(1000)),
    }
}
fn uri(r: &mut Rng) -> Value {
    json!(format!("file:///w/{}", *r.pick(&["a", "b/c", "x%20y", "t1", "t2", "%F0%9F%98%80"])))
}
fn tgt(r: &mut Rng) -> Value {
    json!({"uri": uri(r)})
}
fn tgts(r: &mut Rng) -> Value {
    Value::Array((0..r.below(4)).map(|_| tgt(r)).collect())
}
fn opt(r: &mut Rng, m: &mut Map<String, Value>, k: &str, v: Value) {
    match r.below(4) {
        0 | 1 => {
            m.insert(k.into(), v);
        }
        _ => {}
    }
}
fn nonnull(r: &mut Rng) -> Value {
    loop {
        let v = value(r, 2);
        if !v.is_null() {
            return v;
        }
    }
}
fn data_kind(r: &mut Rng) -> Value {
    json!(*r.pick(&["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish", "x-own-kind"]))
}
fn task_id(r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("id".into(), json!(format!("t{}", r.below(50))));
    if r.permille(400) {
        m.insert("parents".into(), json!(["p1", text(r)]));
    }
    Value::Object(m)
}
pub fn init_params(r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("displayName".into(), json!(text(r)));
    m.insert("version".into(), json!(format!("{}", r.range(1, 9))));
    m.insert("bspVersion".into(), json!("2.0"));
    m.insert("rootUri".into(), uri(r));
    m.insert("capabilities".into(), json!({"languageIds": (0..r.below(3)).map(|i| format!("l{i}")).collect::<Vec<_>>()}));
    let d = nonnull(r);
    opt(r, &mut m, "data", d);
    Value::Object(m)
}
pub fn typed_req(r: &mut Rng) -> (String, Value) {
    let mut m = Map::new();
    let name = match r.below(14) {
        0 => return ("build/initialize".into(), init_params(r)),
        1 => return ("build/shutdown".into(), Value::Null),
        2 => return ("workspace/buildTargets".into(), Value::Null),
        3 => return ("workspace/reload".into(), Value::Null),
        4 => return ("buildTarget/dependencyModules".into(), json!({"targets": tgts(r)})),
        5 => return ("buildTarget/sources".into(), json!({"targets": tgts(r)})),
        6 => return ("buildTarget/resources".into(), json!({"targets": tgts(r)})),
        7 => return ("buildTarget/cleanCache".into(), json!({"targets": tgts(r)})),
        8 => return ("textDocument/inverseSources".into(), json!({"textDocument": tgt(r)})),
        9 => return ("buildTarget/dependencySources".into(), json!({"textDocument": tgt(r)})),
        10 => {
            m.insert("targets".into(), tgts(r));
            m.insert("dataKind".into(), json!(text(r)));
            let d = nonnull(r);
            opt(r, &mut m, "data", d);
            return ("debugSession/start".into(), Value::Object(m));
        }
        11 => "buildTarget/run",
        12 => "buildTarget/test",
        _ => "buildTarget/compile",
    };
    m.insert("target".into(), tgt(r));
    let t = json!(text(r));
    opt(r, &mut m, "originId", t);
    let t = json!(text(r));
    opt(r, &mut m, "arguments", t);
    if name != "buildTarget/compile" {
        let t = json!(text(r));
        opt(r, &mut m, "dataKind", t);
        let d = nonnull(r);
        opt(r, &mut m, "data", d);
    }
    (name.into(), Value::Object(m))
}
pub fn typed_notif(r: &mut Rng) -> (String, Value) {
    let mut m = Map::new();
    match r.below(7) {
        0 | 1 => {
            let n = if r.permille(500) { "build/showMessage" } else { "build/logMessage" };
            m.insert("type".into(), json!(r.range(1, 4)));
            m.insert("message".into(), json!(text(r)));
            let t = task_id(r);
            opt(r, &mut m, "task", t);
            let t = json!(text(r));
            opt(r, &mut m, "originId", t);
            (n.into(), Value::Object(m))
        }
        2 => {
            m.insert("textDocument".into(), tgt(r));
            m.insert("buildTarget".into(), tgt(r));
            let t = json!(text(r));
            opt(r, &mut m, "originId", t);
            m.insert("reset".into(), json!(r.permille(500)));
            let d: Vec<Value> = (0..r.below(3))
                .map(|_| {
                    let (a, b) = (r.below(1000), r.below(1000));
                    json!({"range": {"start": {"line": a, "character": 0}, "end": {"line": a, "character": b}}, "message": text(r)})
                })
                .collect();
            m.insert("diagnostics".into(), Value::Array(d));
            ("build/publishDiagnostics".into(), Value::Object(m))
        }
        3 | 4 | 5 => {
            let k = r.below(3);
            m.insert("taskId".into(), task_id(r));
            let t = json!(r.below(u32::MAX as u64));
            opt(r, &mut m, "eventTime", t);
            let t = json!(format!("m{}", text(r)));
            opt(r, &mut m, "message", t);
            let t = data_kind(r);
            opt(r, &mut m, "dataKind", t);
            let d = nonnull(r);
            opt(r, &mut m, "data", d);
            if k == 1 {
                m.insert("status".into(), json!(r.range(1, 3)));
            }
            if k == 2 {
                m.insert("total".into(), json!(r.below(1000)));
                m.insert("progress".into(), json!(r.below(1000)));
                m.insert("unit".into(), json!("files"));
            }
            (["build/taskStart", "build/taskFinish", "build/taskProgressing"][k as usize].into(), Value::Object(m))
        }
        _ => {
            let c: Vec<Value> = (0..r.below(3))
                .map(|_| {
                    let mut x = Map::new();
                    x.insert("target".into(), tgt(r));
                    let k = json!(r.range(1, 3));
                    opt(r, &mut x, "kind", k);
                    let d = nonnull(r);
                    opt(r, &mut x, "data", d);
                    Value::Object(x)
                })
                .collect();
            ("buildTarget/didChange".into(), json!({ "changes": c }))
        }
    }
}
/// names close to ones with a meaning, of this and of related protocols
const NEAR: &[&str] = &[
    "exit", "shutdown", "initialize", "initialized", "build/exited", "build/shutdown2", "build/initialize/", "BUILD/EXIT",
    " build/exit", "build/exit ", "", "/", "build/", "workspace/didChange", "buildTarget/outputPaths", "build/taskProgress",
    "buildTarget/scalacOptions", "$/progress", "rpc.discover", "window/logMessage", "textDocument/didOpen", "workspace/buildtargets",
];
fn custom_name(r: &mut Rng, k: u8) -> String {
    if r.permille(250) {
        // also those that mean something only as the other kind of message
        let other: &[&str] = if k == REQ {
            &["build/exit", "build/initialized", "build/showMessage", "build/logMessage", "build/taskStart", "buildTarget/didChange"]
        } else {
            &["build/shutdown", "workspace/reload", "workspace/buildTargets", "buildTarget/compile", "debugSession/start"]
        };
        let names = if r.permille(300) { other } else { NEAR };
        return (*r.pick(names)).into();
    }
    match r.below(8) {
        0 => "x/日本".into(),
        1 => "$/cancelRequest".into(),
        2 => "build/exi".into(),
        3 => "build/exit2".into(),
        4 => "build/Exit".into(),
        5 => format!("x/{}", "long".repeat(r.range(1, 40) as usize)),
        _ => format!("x/m{}", r.below(20)),
    }
}
fn custom_params(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => Value::Null,
        1 => Value::Array((0..r.below(4)).map(|_| value(r, 2)).collect()),
        2 if r.permille(100) => (0..r.range(10, 90)).fold(json!(text(r)), |v, i| if i % 3 == 0 { json!({ "d": v }) } else { json!([v]) }),
        _ => obj(r, 3),
    }
}
pub fn pad_len(r: &mut Rng) -> u64 {
    match r.below(20) {
        0..=9 => 0,
        10..=12 => r.below(200),
        13 => 1024 - r.below(120),
        14 | 15 => 8192 - 140 + r.below(160),
        16 => 16384 - 150 + r.below(170),
        17 => 65536 - 160 + r.below(180),
        18 => r.below(20_000),
        _ => r.below(300_000),
    }
}
pub fn error_obj(r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("code".into(), json!(*r.pick(&[-32700i64, -32601, -32002, 0, 1, i32::MIN as i64, i32::MAX as i64])));
    m.insert("message".into(), json!(text(r)));
    if r.permille(400) {
        m.insert("data".into(), nonnull(r));
    }
    Value::Object(m)
}
/// Any message but exit. `style`: let the peer choose unusual layouts.
/// What the typed results look like as JSON.
fn typed_result(r: &mut Rng) -> Value {
    let t = json!({"uri": format!("file:///t{}", r.below(100))});
    let o = format!("o{}", r.below(100));
    match r.below(10) {
        0 => json!({"displayName": "S", "version": o, "bspVersion": "2.0", "capabilities": {}}),
        1 => json!({"targets": []}),
        2 => json!({"uri": format!("tcp://127.0.0.1:{}", r.range(1, 65535))}),
        3 => json!({"items": []}),
        4 => json!({"originId": o, "statusCode": r.range(1, 3)}),
        5 => json!({"statusCode": r.range(1, 3)}),
        6 => json!({"message": o, "cleaned": r.permille(500)}),
        7 => json!({"targets": [t]}),
        8 => json!({"originId": o, "statusCode": 1, "dataKind": "k", "data": {"a": 1}}),
        _ => json!({"items": [{"target": t, "sources": ["file:///a"]}]}),
    }
}
pub fn any_msg(r: &mut Rng, style: bool, big: bool) -> MsgSpec {
    let mut s = MsgSpec::default();
    let k = r.below(10);
    s.k = if k < 5 { REQ } else if k < 8 { NOTIF } else { RESP };
    if style && r.permille(600) {
        s.style = r.next() >> 20 | 1;
    }
    match s.k {
        REQ => {
            s.id = id(r);
            if r.permille(500) {
                let (m, p) = typed_req(r);
                s.m = m;
                s.p = p;
            } else {
                s.m = custom_name(r, REQ);
                s.p = custom_params(r);
            }
        }
        NOTIF => {
            if r.permille(100) {
                s.m = "build/initialized".into();
            } else if r.permille(500) {
                let (m, p) = typed_notif(r);
                s.m = m;
                s.p = p;
            } else {
                s.m = custom_name(r, NOTIF);
                s.p = custom_params(r);
            }
        }
        _ => {
            s.id = id(r);
            if r.permille(300) {
                s.e = error_obj(r);
            } else if r.permille(300) {
                s.p = typed_result(r);
                return s;
            } else {
                s.p = value(r, 3);
            }
        }
    }
    if !s.typed() {
        s.pad = if big { pad_len(r) } else { pad_len(r).min(300) };
        s.padk = r.below(6);
        if s.k == RESP && !s.e.is_null() {
            s.pad = 0;
        }
    }
    s
}
/// small custom messages, numbered
pub fn numbered(i: usize, k: u8) -> MsgSpec {
    match k {
        REQ => MsgSpec::req(json!(i as i64), "x/n", json!({ "n": i })),
        NOTIF => MsgSpec::notif("x/n", json!({ "n": i })),
        _ => MsgSpec::resp(json!(i as i64), json!({ "n": i })),
    }
}
