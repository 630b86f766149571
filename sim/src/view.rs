//! What the application sees of a message, and how it builds the messages it sends.
use crate::gen::*;
use bsp_server::types as t;
use bsp_server::{Message, Notification, Request, RequestId, Response, ResponseError};
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};

fn js<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap_or_else(|e| json!({"unserialisable": e.to_string()}))
}
pub fn view(m: &Message) -> Value {
    match m {
        Message::Request(r) => {
            use Request::*;
            #[allow(unreachable_patterns)]
            let (name, id, p): (String, Value, Value) = match r {
                InitializeBuild(i, p) => ("build/initialize".into(), js(i), js(p)),
                Shutdown(i) => ("build/shutdown".into(), js(i), Value::Null),
                WorkspaceBuildTargets(i) => ("workspace/buildTargets".into(), js(i), Value::Null),
                WorkspaceReload(i) => ("workspace/reload".into(), js(i), Value::Null),
                BuildTargetDependencyModules(i, p) => ("buildTarget/dependencyModules".into(), js(i), js(p)),
                DebugSessionStart(i, p) => ("debugSession/start".into(), js(i), js(p)),
                BuildTargetSources(i, p) => ("buildTarget/sources".into(), js(i), js(p)),
                TextDocumentInverseSources(i, p) => ("textDocument/inverseSources".into(), js(i), js(p)),
                BuildTargetDependencySources(i, p) => ("buildTarget/dependencySources".into(), js(i), js(p)),
                BuildTargetResources(i, p) => ("buildTarget/resources".into(), js(i), js(p)),
                BuildTargetRun(i, p) => ("buildTarget/run".into(), js(i), js(p)),
                BuildTargetCompile(i, p) => ("buildTarget/compile".into(), js(i), js(p)),
                BuildTargetTest(i, p) => ("buildTarget/test".into(), js(i), js(p)),
                BuildTargetCleanCache(i, p) => ("buildTarget/cleanCache".into(), js(i), js(p)),
                Custom(i, m, p) => (m.to_string(), js(i), p.clone()),
                other => (other.method().to_string(), js(other.id()), other.params().unwrap_or(Value::Null)),
            };
            let typed = is_typed_req(&name);
            let custom_variant = matches!(r, Custom(..));
            let p = norm(&p, typed);
            let mut o = json!({"k": "req", "id": id, "m": name, "p": p});
            let ap = norm(&r.params().unwrap_or_else(|e| json!({"error": e.to_string()})), typed);
            if r.method() != name || js(r.id()) != o["id"] || ap != o["p"] {
                o["accessors"] = json!({"method": r.method(), "id": js(r.id()), "params": ap});
            }
            if typed && custom_variant {
                o["variant"] = json!("Custom");
            }
            o
        }
        Message::Notification(n) => {
            use Notification::*;
            #[allow(unreachable_patterns)]
            let (name, p): (String, Value) = match n {
                Exit => ("build/exit".into(), Value::Null),
                Initialized => ("build/initialized".into(), Value::Null),
                ShowMessage(p) => ("build/showMessage".into(), js(p)),
                LogMessage(p) => ("build/logMessage".into(), js(p)),
                PublishDiagnostics(p) => ("build/publishDiagnostics".into(), js(p)),
                TaskStart(p) => ("build/taskStart".into(), js(p)),
                TaskFinish(p) => ("build/taskFinish".into(), js(p)),
                TaskProgress(p) => ("build/taskProgressing".into(), js(p)),
                BuildTargetDidChange(p) => ("buildTarget/didChange".into(), js(p)),
                Custom(m, p) => (m.to_string(), p.clone()),
                other => (other.method().to_string(), js(other)["params"].clone()),
            };
            let typed = is_typed_notif(&name);
            let custom_variant = matches!(n, Custom(..));
            let mut o = json!({"k": "notif", "m": name, "p": norm(&p, typed)});
            if n.method() != name {
                o["accessors"] = json!({"method": n.method()});
            }
            if typed && custom_variant {
                o["variant"] = json!("Custom");
            }
            o
        }
        Message::Response(r) => {
            let mut o = Map::new();
            o.insert("k".into(), json!("resp"));
            o.insert("id".into(), js(&r.id));
            if let Some(e) = &r.error {
                let mut x = Map::new();
                x.insert("code".into(), json!(e.code));
                x.insert("message".into(), json!(e.message));
                if let Some(d) = &e.data {
                    if !d.is_null() {
                        x.insert("data".into(), d.clone());
                    }
                }
                o.insert("e".into(), Value::Object(x));
            }
            if let Some(v) = &r.result {
                if !v.is_null() {
                    o.insert("r".into(), v.clone());
                }
            }
            Value::Object(o)
        }
        #[allow(unreachable_patterns)]
        _ => json!({"k": "?"}),
    }
}
pub fn rid(v: &Value) -> RequestId {
    match v {
        Value::Number(n) => RequestId::from(n.as_i64().unwrap_or(0) as i32),
        Value::String(s) => RequestId::from(s.clone()),
        _ => RequestId::from(0),
    }
}
fn de<T: DeserializeOwned>(v: &Value) -> Option<T> {
    serde_json::from_value(v.clone()).ok()
}
fn leak(s: &str) -> &'static str {
    let _g = crate::core::Guard::new();
    Box::leak(s.to_string().into_boxed_str())
}
/// The message an application sends for a spec; None if the spec cannot be built (a shrunk plan).
pub fn build(s: &MsgSpec) -> Option<Message> {
    let p = s.full_p();
    Some(match s.k {
        REQ => {
            let i = rid(&s.id);
            Message::Request(match s.m.as_str() {
                "build/initialize" => Request::InitializeBuild(i, de::<t::InitializeBuild>(&p)?),
                "build/shutdown" => Request::Shutdown(i),
                "workspace/buildTargets" => Request::WorkspaceBuildTargets(i),
                "workspace/reload" => Request::WorkspaceReload(i),
                "buildTarget/dependencyModules" => Request::from((i, de::<t::BuildTargetDependencyModules>(&p)?)),
                "debugSession/start" => Request::DebugSessionStart(i, de::<t::DebugSessionStart>(&p)?),
                "buildTarget/sources" => Request::from((i, de::<t::BuildTargetSources>(&p)?)),
                "textDocument/inverseSources" => Request::TextDocumentInverseSources(i, de::<t::TextDocumentInverseSources>(&p)?),
                "buildTarget/dependencySources" => Request::BuildTargetDependencySources(i, de::<t::BuildTargetDependencySources>(&p)?),
                "buildTarget/resources" => Request::BuildTargetResources(i, de::<t::BuildTargetResources>(&p)?),
                "buildTarget/run" => Request::from((i, de::<t::BuildTargetRun>(&p)?)),
                "buildTarget/compile" => Request::BuildTargetCompile(i, de::<t::BuildTargetCompile>(&p)?),
                "buildTarget/test" => Request::BuildTargetTest(i, de::<t::BuildTargetTest>(&p)?),
                "buildTarget/cleanCache" => Request::BuildTargetCleanCache(i, de::<t::BuildTargetCleanCache>(&p)?),
                m => Request::Custom(i, leak(m), p),
            })
        }
        NOTIF => Message::Notification(match s.m.as_str() {
            "build/exit" => Notification::Exit,
            "build/initialized" => Notification::Initialized,
            "build/showMessage" => Notification::ShowMessage(de::<t::ShowMessage>(&p)?),
            "build/logMessage" => Notification::LogMessage(de::<t::LogMessage>(&p)?),
            "build/publishDiagnostics" => Notification::PublishDiagnostics(de::<t::PublishDiagnostics>(&p)?),
            "build/taskStart" => Notification::TaskStart(de::<t::TaskStart>(&p)?),
            "build/taskFinish" => Notification::TaskFinish(de::<t::TaskFinish>(&p)?),
            "build/taskProgressing" => Notification::TaskProgress(de::<t::TaskProgress>(&p)?),
            "buildTarget/didChange" => Notification::BuildTargetDidChange(de::<t::BuildTargetDidChange>(&p)?),
            m => Notification::Custom(leak(m), p),
        }),
        _ => {
            let i = rid(&s.id);
            if s.e.is_null() {
                Message::Response(Response::ok(i, p))
            } else {
                let e = ResponseError {
                    code: s.e["code"].as_i64().unwrap_or(0) as i32,
                    message: s.e["message"].as_str().unwrap_or("").to_string(),
                    data: s.e.get("data").filter(|d| !d.is_null()).cloned(),
                };
                if e.data.is_none() {
                    Message::Response(Response::err(i, e.code, e.message))
                } else {
                    Message::Response(Response { id: i, result: None, error: Some(e) })
                }
            }
        }
    })
}

/// The same message made with the conversions the library offers; None where there is none.
pub fn build_via(s: &MsgSpec, via: u64) -> Option<Message> {
    let p = s.full_p();
    let i = rid(&s.id);
    macro_rules! req {
        ($($n:literal $t:ident)*) => {
            match s.m.as_str() {
                $($n => {
                    let x = de::<t::$t>(&p)?;
                    if via % 2 == 0 { Message::from((i, x)) } else { Message::from(Request::from((i, x))) }
                })*
                "build/shutdown" | "workspace/buildTargets" | "workspace/reload" => return None,
                m => {
                    let x = (i, leak(m), p);
                    if via % 2 == 0 { Message::from(x) } else { Message::from(Request::from(x)) }
                }
            }
        };
    }
    macro_rules! notif {
        ($($n:literal $t:ident)*) => {
            match s.m.as_str() {
                $($n => {
                    let x = de::<t::$t>(&p)?;
                    if via % 2 == 0 { Message::from(x) } else { Message::from(Notification::from(x)) }
                })*
                m @ ("build/exit" | "build/initialized") => Message::from(Notification::from(m)),
                m => {
                    let x = (leak(m), p);
                    if via % 2 == 0 { Message::from(x) } else { Message::from(Notification::from(x)) }
                }
            }
        };
    }
    macro_rules! result {
        ($($k:literal $t:ident)*) => {{
            let mut fit: Vec<u64> = vec![];
            $(if de::<t::$t>(&p).map_or(false, |x| js(&x) == p) { fit.push($k); })*
            let k = if fit.is_empty() { 99 } else { fit[via as usize % fit.len()] };
            match k {
                $($k => Message::from((i, de::<t::$t>(&p)?)),)*
                _ => match (&p, via % 2) {
                    (Value::String(x), 1) => Message::from((i, x.clone())),
                    _ => Message::from((i, p)),
                },
            }
        }};
    }
    Some(match s.k {
        REQ => req!("build/initialize" InitializeBuild "buildTarget/dependencyModules" BuildTargetDependencyModules
            "debugSession/start" DebugSessionStart "buildTarget/sources" BuildTargetSources
            "textDocument/inverseSources" TextDocumentInverseSources "buildTarget/dependencySources" BuildTargetDependencySources
            "buildTarget/resources" BuildTargetResources "buildTarget/run" BuildTargetRun
            "buildTarget/compile" BuildTargetCompile "buildTarget/test" BuildTargetTest
            "buildTarget/cleanCache" BuildTargetCleanCache),
        NOTIF => notif!("build/showMessage" ShowMessage "build/logMessage" LogMessage
            "build/publishDiagnostics" PublishDiagnostics "build/taskStart" TaskStart "build/taskFinish" TaskFinish
            "build/taskProgressing" TaskProgress "buildTarget/didChange" BuildTargetDidChange),
        _ if !s.e.is_null() => return None,
        _ => result!(0 InitializeBuildResult 1 WorkspaceBuildTargetsResult 2 DebugSessionStartResult 3 BuildTargetSourcesResult
            4 BuildTargetTestResult 5 BuildTargetRunResult 6 BuildTargetCompileResult 7 BuildTargetResourcesResult
            8 BuildTargetDependencyModulesResult 9 BuildTargetCleanCacheResult 10 BuildTargetInverseSourcesResult
            11 BuildTargetDependencySourcesResult),
    })
}
