#![allow(static_mut_refs)]
mod core;
mod flow;
mod frames;
mod gen;
mod interpose;
mod orch;
mod raw;
mod rt;
mod scen;
mod step;
mod trace;
mod view;

use crate::core::*;
use serde::{Deserialize, Serialize};

#[global_allocator]
static ALLOC: crate::core::Alloc = crate::core::Alloc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Job {
    pub prop: String,
    pub seed: u64,
    pub tier: u64,
    pub plan: Option<serde_json::Value>,
    pub decs: Option<DecList>,
    pub verbose: bool,
    pub trace: bool,
    pub limit: u32,
}

/// Runs in a fresh child of the zygote: one simulated execution.
pub fn child_run(job: Job) -> ! {
    unsafe {
        libc::alarm(job.limit);
        // crashes of the code under test must kill the process plainly
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            if sig != libc::SIGSEGV && sig != libc::SIGBUS {
                libc::signal(sig, libc::SIG_DFL);
            }
        }
        step::enable();
        interpose::prime();
        interpose::init_keys();
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if SIM_READY.load(std::sync::atomic::Ordering::Relaxed) {
            let harness = loc.starts_with("src/");
            if harness || !on_or_in() {
                let _g = Guard::new();
                finish("harness", "harness-panic", &format!("panic in the harness: {msg} at {loc}"));
            }
            let _g = Guard::new();
            let sm = s();
            let role = sm.thr[tid()].role;
            sm.stat("panics");
            sm.ev("PANIC", 0, 0);
            if sm.verbose {
                sm.log.push(format!("    panic: {msg} at {loc}"));
            }
            sm.panics.push(Panic { role, loc, msg });
        } else {
            raw::eprint(&format!("bspsim: panic: {msg} at {loc}\n"));
        }
    }));
    let (env, plan) = match job.plan {
        Some(p) => {
            let env: Env = match serde_json::from_value(p["env"].clone()) {
                Ok(e) => e,
                Err(e) => plain_fail(&format!("bad plan: {e}")),
            };
            (env, p["x"].clone())
        }
        None => {
            let mut r = Rng::new(mix(job.seed, 1));
            let mut env = if r.permille(60) { Env::quiet() } else { Env::gen(&mut r) };
            let x = scen::gen(&job.prop, &mut r, &mut env, job.tier, job.seed);
            (env, x)
        }
    };
    let full = serde_json::json!({"env": env, "x": plan});
    if env.trace {
        trace::install();
    }
    let mut sim = Box::new(Sim::new(env, job.seed, job.decs));
    sim.verbose = job.verbose;
    sim.want_trace = job.trace;
    crash_plan(&full);
    sim.plan = full;
    unsafe {
        SIM = Box::into_raw(sim);
    }
    let id = new_thread("director");
    s().thr[id].harness = true;
    HARNESS.with(|h| h.set(true));
    TID.with(|t| t.set(id as i32));
    SIM_READY.store(true, std::sync::atomic::Ordering::Relaxed);
    ACTIVE.store(true, std::sync::atomic::Ordering::SeqCst);
    scen::run(&job.prop, plan);
    finish("ok", "", "")
}
static SIM_READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn plain_fail(m: &str) -> ! {
    unsafe {
        let o = Outcome { status: "harness".into(), class: "plan".into(), msg: m.into(), ..Default::default() };
        let v = serde_json::to_vec(&o).unwrap();
        std::ptr::copy_nonoverlapping(v.as_ptr(), SHM.add(16), v.len());
        *(SHM as *mut u64).add(1) = v.len() as u64;
        *(SHM as *mut u64) = 0x600D;
        raw::exit_group(0)
    }
}

// With std's own SIGSEGV handling, every thread start would enter the thread in a map keyed by
// address, and allocate depending on where the kernel put its stack: not repeatable.
extern "C" fn on_fault(sig: i32) {
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
    }
}
extern "C" fn early() {
    unsafe {
        libc::signal(libc::SIGSEGV, on_fault as extern "C" fn(i32) as usize);
        libc::signal(libc::SIGBUS, on_fault as extern "C" fn(i32) as usize);
    }
}
#[used]
#[link_section = ".init_array"]
static EARLY: extern "C" fn() = early;

fn main() {
    orch::main();
}
