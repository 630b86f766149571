//! Processes, seeds, minimisation, replay files and evidence.
use crate::core::*;
use crate::raw;
use crate::scen;
use crate::Job;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Worker {
    req: i32,
    rep: i32,
    shm: *mut u8,
}
unsafe impl Send for Worker {}
unsafe impl Sync for Worker {}

fn spawn_worker(core: usize) -> Worker {
    unsafe {
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC);
        libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC);
        let shm = libc::mmap(std::ptr::null_mut(), SHM_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
        if shm as isize == -1 {
            raw::eprint("bspsim: mmap failed\n");
            raw::exit_group(2);
        }
        let pid = libc::fork();
        if pid < 0 {
            raw::eprint("bspsim: fork failed\n");
            raw::exit_group(2);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
            let mut cs: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(core % n, &mut cs);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &cs);
            SHM = shm;
            zygote(a[0], b[1]);
        }
        libc::close(a[0]);
        libc::close(b[1]);
        Worker { req: a[1], rep: b[0], shm }
    }
}
unsafe fn zygote(req: i32, rep: i32) -> ! {
    loop {
        let mut len = 0u64;
        if !raw::read_exact(req, &mut len as *mut u64 as *mut u8, 8) {
            raw::exit_group(0);
        }
        let mut buf = vec![0u8; len as usize];
        if !raw::read_exact(req, buf.as_mut_ptr(), buf.len()) {
            raw::exit_group(0);
        }
        *(SHM as *mut u64) = 0;
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let job: Job = match serde_json::from_slice(&buf) {
                Ok(j) => j,
                Err(e) => {
                    raw::eprint(&format!("bspsim: bad job: {e}\n"));
                    raw::exit_group(3)
                }
            };
            drop(buf);
            crate::child_run(job);
        }
        let mut st = 0i32;
        if pid > 0 {
            while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        } else {
            st = -1;
        }
        let r = st as i64;
        raw::write_all(rep, &r as *const i64 as *const u8, 8);
    }
}
impl Worker {
    pub fn run(&self, job: &Job) -> Outcome {
        unsafe {
            let v = serde_json::to_vec(job).unwrap();
            let l = v.len() as u64;
            raw::write_all(self.req, &l as *const u64 as *const u8, 8);
            raw::write_all(self.req, v.as_ptr(), v.len());
            let mut st = 0i64;
            if !raw::read_exact(self.rep, &mut st as *mut i64 as *mut u8, 8) {
                return Outcome { status: "harness".into(), class: "zygote".into(), msg: "worker died".into(), ..Default::default() };
            }
            if *(self.shm as *const u64) == 0x600D && st == 0 {
                let n = *(self.shm as *const u64).add(1) as usize;
                let b = std::slice::from_raw_parts(self.shm.add(16), n);
                return serde_json::from_slice(b).unwrap_or_else(|e| Outcome {
                    status: "harness".into(), class: "outcome".into(), msg: e.to_string(), ..Default::default()
                });
            }
            let sig = (st & 0x7f) as i32;
            let name = match sig {
                libc::SIGALRM => "hang",
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGILL => "SIGILL",
                libc::SIGABRT => "SIGABRT",
                libc::SIGBUS => "SIGBUS",
                libc::SIGKILL => "SIGKILL",
                _ => "signal",
            };
            let status = match sig {
                libc::SIGALRM => "hang",
                libc::SIGKILL | 0 => "harness",
                _ => "violation",
            };
            let (plan, decs) = crash_read(self.shm);
            Outcome { status: status.into(), class: format!("killed-{name}"), msg: format!("the process ended with wait status {st:#x} ({name})"), plan, decs, ..Default::default() }
        }
    }
    /// A run that makes no progress is only believed when it happens again with far more time.
    pub fn run2(&self, job: &Job) -> Outcome {
        let mut o = self.run(job);
        if o.status == "hang" {
            let mut j = job.clone();
            j.limit = 60;
            o = self.run(&j);
            if o.status == "hang" {
                o.status = "violation".into();
                o.msg = "the code under test computes without end (no system call, no allocation for 60 s of CPU time)".into();
            }
        }
        o
    }
}

fn h64(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, h64(prop)), i) >> 1
}
fn job(prop: &str, seed: u64, tier: u64) -> Job {
    Job { prop: prop.into(), seed, tier, plan: None, decs: None, verbose: false, trace: false, limit: 20 }
}

// ---------------------------------------------------------------- minimisation
struct Shrink<'a> {
    w: &'a [Worker],
    job: Job,
    class: String,
    tries: u64,
    deadline: Instant,
}
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<(Vec<String>, u8)>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() {
                out.push((at.clone(), 0));
            }
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            if o.contains_key("k") && o.contains_key("m") && o.contains_key("pad") {
                out.push((at.clone(), 2));
            }
            for (k, x) in o {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Number(n) if n.as_u64() != Some(0) => out.push((at.clone(), 1)),
        Value::Bool(true) => out.push((at.clone(), 3)),
        Value::String(s) if !s.is_empty() => out.push((at.clone(), 4)),
        _ => {}
    }
}
fn get_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(c)
}
impl<'a> Shrink<'a> {
    /// Tries candidates in parallel; returns the first (in order) that still fails the same way.
    fn first(&mut self, c: Vec<(Value, DecList)>) -> Option<(Value, DecList)> {
        for ch in c.chunks(self.w.len().max(1)) {
            if Instant::now() > self.deadline {
                return None;
            }
            let res: Vec<bool> = std::thread::scope(|sc| {
                let hs: Vec<_> = ch
                    .iter()
                    .enumerate()
                    .map(|(i, (p, d))| {
                        let w = &self.w[i];
                        let mut j = self.job.clone();
                        j.plan = Some(p.clone());
                        j.decs = Some(d.clone());
                        j.limit = 10;
                        let class = self.class.clone();
                        sc.spawn(move || {
                            let o = w.run(&j);
                            o.status == "violation" && o.class == class
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            self.tries += ch.len() as u64;
            if let Some(i) = res.iter().position(|b| *b) {
                return Some(ch[i].clone());
            }
        }
        None
    }
    fn ddmin(&mut self, plan: &Value, mut decs: DecList) -> DecList {
        // all gone?
        if !decs.is_empty() && self.first(vec![(plan.clone(), vec![])]).is_some() {
            return vec![];
        }
        let mut size = (decs.len() / 2).max(1);
        while !decs.is_empty() && Instant::now() < self.deadline {
            let mut cands = vec![];
            let mut at = 0;
            while at < decs.len() {
                let mut d = decs.clone();
                d.drain(at..(at + size).min(d.len()));
                cands.push((plan.clone(), d));
                at += size;
            }
            match self.first(cands) {
                Some((_, d)) => {
                    decs = d;
                    size = size.min(decs.len().max(1));
                }
                None => {
                    if size == 1 {
                        break;
                    }
                    size = (size / 2).max(1);
                }
            }
        }
        decs
    }
    fn go(&mut self, mut plan: Value, mut decs: DecList) -> (Value, DecList) {
        decs = self.ddmin(&plan, decs);
        for _round in 0..6 {
            let before = (plan.clone(), decs.len());
            // the environment
            let q = serde_json::to_value(Env::quiet()).unwrap();
            let mut c = vec![];
            let mut all = plan.clone();
            all["env"] = q.clone();
            c.push((all, decs.clone()));
            for (k, v) in q.as_object().unwrap() {
                if plan["env"][k] != *v {
                    let mut p = plan.clone();
                    p["env"][k] = v.clone();
                    c.push((p, decs.clone()));
                }
            }
            while let Some((p, d)) = self.first(std::mem::take(&mut c)) {
                plan = p;
                decs = d;
                for (k, v) in q.as_object().unwrap() {
                    if plan["env"][k] != *v {
                        let mut p = plan.clone();
                        p["env"][k] = v.clone();
                        c.push((p, decs.clone()));
                    }
                }
            }
            // arrays: remove chunks
            let mut progress = true;
            while progress && Instant::now() < self.deadline {
                progress = false;
                let mut ps = vec![];
                paths(&plan["x"], &mut vec![], &mut ps);
                for (p, k) in ps.into_iter().filter(|x| x.1 == 0) {
                    let _ = k;
                    let n = match get_mut(&mut plan["x"], &p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => continue,
                    };
                    let mut size = n;
                    while size >= 1 {
                        let mut cands = vec![];
                        let mut at = 0;
                        while at < n {
                            let mut q = plan.clone();
                            if let Some(Value::Array(a)) = get_mut(&mut q["x"], &p) {
                                let e = (at + size).min(a.len());
                                if at < e {
                                    a.drain(at..e);
                                    cands.push((q, decs.clone()));
                                }
                            }
                            at += size;
                        }
                        if let Some((q, d)) = self.first(cands) {
                            plan = q;
                            decs = d;
                            progress = true;
                            break;
                        }
                        size /= 2;
                    }
                    if progress {
                        break;
                    }
                }
            }
            // leaves
            let mut ps = vec![];
            paths(&plan["x"], &mut vec![], &mut ps);
            for (p, k) in ps {
                if Instant::now() > self.deadline {
                    break;
                }
                let Some(cur) = get_mut(&mut plan["x"], &p).map(|x| x.clone()) else { continue };
                let mut alts: Vec<Value> = vec![];
                match k {
                    1 => {
                        alts.push(json!(0));
                        if let Some(n) = cur.as_u64() {
                            for x in [1, n / 16, n / 2, n - n / 4, n.saturating_sub(1)] {
                                if x < n {
                                    alts.push(json!(x));
                                }
                            }
                        }
                    }
                    2 => {
                        let mut m = cur.clone();
                        if m["m"] != json!("build/exit") && m["m"] != json!("build/initialized") && m["m"] != json!("build/initialize") && m["m"] != json!("build/shutdown") {
                            m["m"] = json!("x/n");
                            m["p"] = json!({});
                            m["e"] = Value::Null;
                            m["pad"] = json!(0);
                            m["style"] = json!(0);
                        }
                        if m != cur {
                            alts.push(m);
                        }
                    }
                    3 => alts.push(json!(false)),
                    4 => {
                        if p.last().map_or(false, |l| l != "m" && l != "k") {
                            alts.push(json!("a"));
                        }
                    }
                    _ => {}
                }
                alts.retain(|a| *a != cur);
                alts.dedup();
                let cands: Vec<(Value, DecList)> = alts
                    .into_iter()
                    .filter_map(|a| {
                        let mut q = plan.clone();
                        *get_mut(&mut q["x"], &p)? = a;
                        Some((q, decs.clone()))
                    })
                    .collect();
                if let Some((q, d)) = self.first(cands) {
                    plan = q;
                    decs = d;
                }
            }
            decs = self.ddmin(&plan, decs);
            if (plan.clone(), decs.len()) == before || Instant::now() > self.deadline {
                break;
            }
        }
        (plan, decs)
    }
}

// ---------------------------------------------------------------- commands
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn verif_dir() -> String {
    std::env::var("BSPSIM_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn main() {
    unsafe {
        // nothing of the environment reaches the runs
        let keep: Vec<(String, String)> = std::env::vars().filter(|(k, _)| k.starts_with("BSPSIM_") || k.starts_with("VERIF_")).collect();
        libc::clearenv();
        for (k, v) in keep {
            std::env::set_var(k, v);
        }
    }
    crate::step::init();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" if args.len() > 2 => check(&args[2]),
        "replay" if args.len() > 2 => replay(&args[2]),
        "run" if args.len() > 3 => one(&args[2], args[3].parse().unwrap_or(0), args.iter().any(|a| a == "-v")),
        "hashes" if args.len() > 4 => hashes(&args[2], args[3].parse().unwrap_or(10), args[4].parse().unwrap_or(1)),
        "repeat" if args.len() > 4 => repeat(&args[2], args[3].parse().unwrap_or(0), args[4].parse().unwrap_or(1000)),
        "bench" if args.len() > 3 => hashes(&args[2], args[3].parse().unwrap_or(10), 8),
        _ => {
            eprintln!("usage: bspsim check PROP | replay FILE | run PROP INDEX [-v] | hashes PROP N WORKERS");
            2
        }
    };
    unsafe { raw::exit_group(code) }
}
fn nworkers() -> usize {
    let n = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as u64;
    env_u64("BSPSIM_WORKERS", n.min(16)) as usize
}
/// One run of the seeded sequence, by index, with its trace.
fn one(prop: &str, i: u64, verbose: bool) -> i32 {
    load_listed(prop);
    let w = spawn_worker(0);
    let mut j = job(prop, run_seed(env_u64("VERIF_SEED", 1), prop, i), tier());
    j.verbose = verbose;
    j.trace = true;
    let o = w.run2(&j);
    if let Some(l) = &o.log {
        for x in l {
            println!("{x}");
        }
    }
    let mut o2 = o.clone();
    o2.log = None;
    println!("{}", serde_json::to_string_pretty(&o2).unwrap());
    (o.status != "ok") as i32
}
fn tier() -> u64 {
    (std::env::var("VERIF_TIER").as_deref() == Ok("thorough")) as u64
}
/// Determinism self-test: prints one hash per run; compare between invocations and worker counts.
fn hashes(prop: &str, n: u64, workers: usize) -> i32 {
    load_listed(prop);
    let ws: Vec<Worker> = (0..workers).map(spawn_worker).collect();
    let out: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
    let next = AtomicU64::new(0);
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for w in &ws {
            let (out, next) = (&out, &next);
            sc.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let o = w.run2(&job(prop, run_seed(env_u64("VERIF_SEED", 1), prop, i), tier()));
                out.lock().unwrap().insert(i, format!("{i} {:016x} {:016x} steps={} {} {} {}", o.hash, o.ihash, o.steps, o.status, o.class, if o.status == "ok" { String::new() } else { o.msg.replace('\n', " ") }));
            });
        }
    });
    for l in out.lock().unwrap().values() {
        println!("{l}");
    }
    eprintln!("{n} runs in {:.2}s", t0.elapsed().as_secs_f64());
    0
}
/// Determinism self-test: one run again and again; the first two logs that differ go to /tmp.
fn repeat(prop: &str, i: u64, n: u64) -> i32 {
    load_listed(prop);
    let ws: Vec<Worker> = (0..nworkers()).map(spawn_worker).collect();
    let mut j = job(prop, run_seed(env_u64("VERIF_SEED", 1), prop, i), tier());
    j.verbose = true;
    j.trace = true;
    let first = ws[0].run2(&j);
    let (odd, next) = (AtomicU64::new(0), AtomicU64::new(0));
    let keep: Mutex<Option<Outcome>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for w in &ws {
            let (odd, next, keep, first, j) = (&odd, &next, &keep, &first, &j);
            sc.spawn(move || {
                while next.fetch_add(1, SeqCst) < n {
                    let o = w.run2(j);
                    if o.hash != first.hash {
                        odd.fetch_add(1, SeqCst);
                        keep.lock().unwrap().get_or_insert(o);
                    }
                }
            });
        }
    });
    println!("{} of {n} differ", odd.load(SeqCst));
    if let Some(o) = keep.lock().unwrap().take() {
        for (f, o) in [("/tmp/bspsim.first", &first), ("/tmp/bspsim.odd", &o)] {
            let t = o.log.clone().unwrap_or_default().join("\n");
            let _ = std::fs::write(f, t);
        }
    }
    0
}
fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("").to_string();
    load_listed(&prop);
    let w = spawn_worker(0);
    let j = Job {
        prop: prop.clone(),
        seed: v["seed"].as_u64().unwrap_or(0),
        tier: v["tier"].as_u64().unwrap_or(0),
        plan: Some(v["plan"].clone()),
        decs: serde_json::from_value(v["decisions"].clone()).ok(),
        verbose: true,
        trace: true,
        limit: 60,
    };
    let o = w.run2(&j);
    if let Some(l) = &o.log {
        for x in l {
            println!("{x}");
        }
    }
    println!("{}: {}", o.class, o.msg);
    println!("hash {:016x} (recorded {})", o.hash, v["hash"].as_str().unwrap_or("?"));
    if o.status == "violation" {
        println!("VIOLATION property={prop} replay={file}");
        1
    } else {
        println!("the run ended: {}", o.status);
        (o.status != "ok") as i32 * 2
    }
}

fn check(prop: &str) -> i32 {
    let Some(info) = scen::info(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    load_listed(prop);
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let tr = tier();
    let runs = env_u64("BSPSIM_RUNS", if tr == 1 { info.thorough } else { info.quick });
    let cap = env_u64("BSPSIM_WALL", if tr == 1 { 3000 } else { 240 });
    let ws: Vec<Worker> = (0..nworkers()).map(spawn_worker).collect();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let first_bad = AtomicU64::new(u64::MAX);
    struct Agg {
        stats: BTreeMap<String, u64>,
        runs: u64,
        hashes: HashSet<u64>,
        ihashes: HashSet<u64>,
        nontrivial: HashSet<u64>,
        sim_ns: u128,
        steps: u64,
        switches: u64,
        samples: Vec<(u64, String)>,
        bad: BTreeMap<u64, Outcome>,
        harness: BTreeMap<u64, Outcome>,
        known: BTreeMap<String, u64>,
        steps_hist: Vec<u64>,
    }
    let agg = Mutex::new(Agg {
        stats: BTreeMap::new(), runs: 0, hashes: HashSet::new(), ihashes: HashSet::new(), nontrivial: HashSet::new(), sim_ns: 0,
        steps: 0, switches: 0, samples: vec![], bad: BTreeMap::new(), harness: BTreeMap::new(), known: BTreeMap::new(), steps_hist: vec![],
    });
    std::thread::scope(|sc| {
        for w in &ws {
            let (next, stop, first_bad, agg) = (&next, &stop, &first_bad, &agg);
            sc.spawn(move || loop {
                if stop.load(SeqCst) {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= runs || i > first_bad.load(SeqCst) {
                    break;
                }
                if t0.elapsed().as_secs() > cap {
                    stop.store(true, SeqCst);
                    break;
                }
                let mut j = job(prop, run_seed(base, prop, i), tr);
                j.trace = i < 3;
                let o = w.run2(&j);
                let mut a = agg.lock().unwrap();
                a.runs += 1;
                for (k, v) in &o.stats {
                    *a.stats.entry(k.clone()).or_insert(0) += v;
                }
                a.hashes.insert(o.hash);
                a.ihashes.insert(o.ihash);
                if o.nontrivial {
                    a.nontrivial.insert(o.ihash);
                }
                a.sim_ns += o.sim_ns as u128;
                a.steps += o.steps;
                a.switches += o.switches;
                a.steps_hist.push(o.steps);
                for k in &o.known {
                    *a.known.entry(k.clone()).or_insert(0) += 1;
                }
                if i < 3 {
                    let mut p = o.plan.clone().unwrap_or(Value::Null).to_string();
                    if p.len() > 1500 {
                        p = format!("{}…", p.chars().take(1500).collect::<String>());
                    }
                    a.samples.push((i, format!("run {i} seed {}: plan {p}; {} decisions; {} steps; {}", j.seed, o.decs.as_ref().map_or(0, |d| d.len()), o.steps, o.sample.clone().unwrap_or_default())));
                }
                if o.status == "violation" {
                    first_bad.fetch_min(i, SeqCst);
                    a.bad.insert(i, o);
                } else if o.status != "ok" {
                    a.harness.insert(i, o);
                    if a.harness.len() > 3 {
                        stop.store(true, SeqCst);
                    }
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut a = agg.into_inner().unwrap();
    a.samples.sort();
    let mut code = 0;
    let mut violations = 0;
    let mut vinfo = Value::Null;
    if let Some((i, o)) = a.bad.iter().next() {
        let seed = run_seed(base, prop, *i);
        violations = 1;
        code = 1;
        let file = report(prop, *i, seed, tr, o, &ws, &mut vinfo);
        println!("VIOLATION property={prop} replay={file}");
    } else if let Some((i, o)) = a.harness.iter().next() {
        eprintln!("bspsim: {} run(s) ended without a verdict; e.g. run {i}: {}: {}", a.harness.len(), o.class, o.msg);
        code = 2;
    }
    if code != 2 {
        for l in known_lines(prop) {
            if let Some(n) = a.known.get(&l.0) {
                println!("KNOWN-FINDING: property={prop} {} (hit in {n} of {} runs)", l.1, a.runs);
            }
        }
    }
    a.steps_hist.sort();
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let faults: BTreeMap<String, u64> = a
        .stats
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault:").map(|x| (x.to_string(), *v)))
        .chain(a.stats.iter().filter_map(|(k, v)| k.strip_prefix("dec:").filter(|x| !matches!(*x, "sched" | "quantum" | "misc" | "instruction_window" | "random_bytes" | "futex_wake_order")).map(|x| (x.to_string(), *v))))
        .collect();
    let probes: BTreeMap<String, u64> = a.stats.iter().filter_map(|(k, v)| k.strip_prefix("probe:").map(|x| (x.to_string(), *v))).collect();
    let ev = json!({
        "property": prop,
        "tier": if tr == 1 { "thorough" } else { "quick" },
        "seed": base as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": info.rule,
            "samples": a.samples.iter().map(|s| s.1.clone()).collect::<Vec<_>>(),
            "runs_planned": runs,
            "simulated_runs_per_hour": per_h(a.runs),
            "seeds_per_hour": per_h(a.runs),
            "distinct_executions_by_full_event_hash": a.hashes.len(),
            "distinct_interleavings_by_hash_of_thread_switches_and_io_results": a.ihashes.len(),
            "simulated_seconds_covered": (a.sim_ns / 1_000_000_000) as u64,
            "scheduling_steps": a.steps,
            "thread_switches": a.switches,
            "steps_per_run_median_max": [a.steps_hist.get(a.steps_hist.len() / 2), a.steps_hist.last()],
            "faults_injected": faults,
            "decisions_other_than_default": a.stats.iter().filter(|(k, _)| k.starts_with("dec:")).map(|(k, v)| (k[4..].to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "preemptions_inside_code": a.stats.get("preemptions_in_code").copied().unwrap_or(0),
            "preemptions_at_single_instructions": a.stats.get("preemptions_at_instructions").copied().unwrap_or(0),
            "situations_reached": probes,
            "known_findings_hit": a.known,
            "real_code": ["bsp-server (unmodified, from /repo)", "bsp-types (unmodified, from /repo)", "crossbeam-channel", "serde_json", "std threads, locks, stdio and net on top of the interposed libc"],
            "simulated": ["thread scheduling", "futex", "clocks and sleeps", "stdin/stdout", "TCP sockets", "the peer", "the application", "randomness", "memory limit"],
            "violation": vinfo,
        },
        "assumptions": [
            "execution is sequentially consistent: one simulated thread runs at a time, weak-memory effects are not explored",
            "preemption happens at intercepted libc calls, at heap allocations, and (x86-64, in the seeded windows) at any instruction of bsp-server, bsp-types, crossbeam and the synchronisation code of std",
            "the simulated kernel's stdin/stdout/TCP behave as POSIX allows"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("bspsim: cannot write evidence: {e}");
        code = 2;
    }
    eprintln!("bspsim: {prop}: {} runs, {} distinct non-trivial interleavings, {:.1}s, exit {code}", a.runs, a.nontrivial.len(), t0.elapsed().as_secs_f64());
    code
}
fn report(prop: &str, i: u64, seed: u64, tr: u64, o: &Outcome, ws: &[Worker], vinfo: &mut Value) -> String {
    let mut j = job(prop, seed, tr);
    j.trace = true;
    // the plan and decisions of a run that crashed are not in its outcome: regenerate them
    let (plan, decs) = match (&o.plan, &o.decs) {
        (Some(p), Some(d)) => (Some(p.clone()), Some(d.clone())),
        _ => (None, None),
    };
    println!("run {i} (seed {seed}): {}: {}", o.class, o.msg);
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let file = format!("{dir}/{prop}-{seed}.json");
    let (mut p2, mut d2) = (plan.clone(), decs.clone());
    let mut tries = 0;
    if let (Some(p), Some(d)) = (plan, decs) {
        let mut sh = Shrink {
            w: ws, job: j.clone(), class: o.class.clone(), tries: 0,
            deadline: Instant::now() + std::time::Duration::from_secs(env_u64("BSPSIM_SHRINK", 45)),
        };
        let (a, b) = sh.go(p, d);
        tries = sh.tries;
        p2 = Some(a);
        d2 = Some(b);
    }
    j.plan = p2.clone();
    j.decs = d2.clone();
    j.verbose = true;
    let f = ws[0].run2(&j);
    let f2 = ws[ws.len() - 1].run2(&j);
    let exact = f.hash == f2.hash && f.status == "violation" && f2.status == "violation";
    println!("minimised: {}: {}", f.class, f.msg);
    println!("  plan {}", p2.as_ref().map(|p| p.to_string()).unwrap_or_default().chars().take(3000).collect::<String>());
    println!("  {} decision(s) other than the default, {} steps, {} candidate runs; replayed exactly: {exact}", d2.as_ref().map_or(0, |d| d.len()), f.steps, tries);
    let v = json!({
        "property": prop, "seed": seed, "tier": tr, "plan": p2, "decisions": d2, "class": f.class, "message": f.msg,
        "hash": format!("{:016x}", f.hash), "original": {"class": o.class, "message": o.msg, "steps": o.steps},
        "trace": f.log,
    });
    *vinfo = json!({"class": f.class, "message": f.msg, "run": i, "seed": seed, "decisions": d2.as_ref().map_or(0, |d| d.len()), "steps": f.steps, "replay": file, "replays_exactly": exact});
    let _ = std::fs::write(&file, serde_json::to_vec_pretty(&v).unwrap());
    file
}
static LISTED: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
/// Is this finding listed (for the property being checked)? Loaded before the workers are forked.
pub fn listed(key: &str) -> bool {
    LISTED.get().map_or(false, |l| l.iter().any(|k| k == key))
}
fn load_listed(prop: &str) {
    let _ = LISTED.set(known_lines(prop).into_iter().map(|l| l.0).collect());
}
/// Listed findings of a property: (key, description).
pub fn known_lines(prop: &str) -> Vec<(String, String)> {
    let f = std::fs::read_to_string(format!("{}/known-findings.jsonl", verif_dir())).unwrap_or_default();
    f.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == prop && v["status"] == "known")
        .map(|v| (v["key"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string()))
        .collect()
}
