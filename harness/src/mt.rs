//! C09 on several threads: every execution is a process of its own with the real multi-thread
//! runtime, and the schedules of its threads are enumerated (see sched.rs).
use crate::checks::sys;
use crate::explore::{clip, outcome_hash, show_exec, shown, Ctx};
use crate::sched;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::time::Instant;

const TEXT: usize = 8192;
/// Shared between an execution and its explorer.
#[repr(C)]
struct Shm {
    rec: [u16; sched::POINTS],
    /// blocks, then words of the globals
    marks: [u8; 2 * sched::GUARDS],
    when: [(u32, u32); 2 * sched::GUARDS],
    steps: usize,
    verdict: usize, // 0: nothing yet, 1: held, 2: violated
    diverged: usize,
    hash: u64,
    calls: usize,
    firsts: [(u64, u64); 8],
    nfirst: usize,
    len: usize,
    text: [u8; TEXT],
}
/// Shared between the explorers.
#[repr(C)]
struct Work {
    next: AtomicUsize,
    stop: AtomicBool,
}
fn shared<T>() -> *mut T {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut T
}

#[derive(Clone, Debug)]
struct Task {
    clients: Vec<usize>,
    /// departures from the default schedule
    bound: usize,
    /// so many times between two system calls a basic block is a scheduling point (0: only system
    /// calls, locks and globals)
    fine: usize,
    /// the same for blocks and words of globals that change
    marked: usize,
    threads: usize,
}
type Plan = Vec<(usize, usize)>;

fn exec_of(t: &Task) -> Exec {
    Exec { conns: t.clients.iter().enumerate().map(|(n, k)| sys::script(*k, n + 1)).collect(), ..Default::default() }
}

/// Runs in its own process.
fn child(t: &Task, plan: &Plan, shm: *mut Shm, probe: bool) -> ! {
    let spec = sys::app09();
    let e = exec_of(t);
    let mut sim = Sim::new();
    sim.mt = true;
    sim.install();
    set_now(Some(784111777));
    let accepted = std::cell::RefCell::new(vec![]);
    let mut cb = |r: Option<&ExecResult>| -> Option<Exec> {
        let Some(r) = r else { return Some(e.clone()) };
        let s = unsafe { &mut *shm };
        let (steps, div) = sched::steps();
        sched::stop();
        s.steps = steps;
        s.diverged = div as usize;
        s.hash = outcome_hash(r);
        s.calls = r.calls + r.actions;
        let acc = accepted.borrow();
        let c = Ctx { i: 0, j: 0, app: &spec, accepted: &acc, exec: &e, res: r, base: None };
        let v = sys::judge_all(&c);
        let f = sys::first();
        s.nfirst = f.len().min(8);
        s.firsts[..s.nfirst].copy_from_slice(&f[..s.nfirst]);
        match v {
            Ok(_) => s.verdict = 1,
            Err(m) => {
                let m = clip(
                    &format!("{}\n  exec: {}\n  out: {:?}\n  log: {:?}\n  panics: {:?}", m, show_exec(&e), shown(r), r.log, r.panics),
                    TEXT - 8,
                );
                s.len = m.len();
                s.text[..m.len()].copy_from_slice(m.as_bytes());
                s.verdict = 2;
            }
        }
        unsafe { libc::_exit(0) }
    };
    unsafe { sim.drive(&mut cb) };
    let s = unsafe { &mut *shm };
    sched::start(plan.clone(), s.rec.as_mut_ptr(), (t.fine, t.marked), s.marks.as_mut_ptr(), probe.then_some(s.when.as_mut_ptr()));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(t.threads).enable_all().build().unwrap();
    let built = crate::app::build(&spec);
    accepted.borrow_mut().extend(built.accepted);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(octane_inst::listen(built.app, spec.port, note_started)).map_err(|e| e.to_string())
    }));
    sim.ended(r.unwrap_or(Err("listen() panicked".into())));
    sim.restart();
    unsafe { libc::_exit(4) }
}

enum Ran {
    Held,
    Violated(String),
    Engine(String),
}
fn run(t: &Task, plan: &Plan, shm: *mut Shm, probe: bool) -> Ran {
    let s = unsafe { &mut *shm };
    s.verdict = 0;
    s.steps = 0;
    s.diverged = 0;
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::alarm(30) };
        child(t, plan, shm, probe)
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    match s.verdict {
        1 => Ran::Held,
        2 => Ran::Violated(String::from_utf8_lossy(&s.text[..s.len]).to_string()),
        _ if libc::WIFSIGNALED(st) => match libc::WTERMSIG(st) {
            libc::SIGALRM => Ran::Violated("the server stopped making progress".into()),
            g => Ran::Violated(format!("the server process was ended by signal {}", g)),
        },
        _ if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 => Ran::Violated("the threads go on for ever".into()),
        _ => Ran::Engine(format!("an execution ended with status {} {:?} {:?}", st, t, plan)),
    }
}

/// Finds the blocks that change globals when the clients are served in the default order.
fn mark(t: &Task, shm: *mut Shm) -> usize {
    let s = unsafe { &mut *shm };
    s.marks.fill(0);
    s.when.fill((0, 0));
    run(&Task { fine: 1 << 20, ..t.clone() }, &vec![], shm, true);
    sched::judge_marks(&s.when, &mut s.marks, s.steps);
    if std::env::var_os("MC_MT").is_some() {
        sched::show(&s.marks);
    }
    s.marks.iter().filter(|m| **m != 0).count()
}

fn tasks(tier: &str) -> Vec<Task> {
    let n = sys::SCRIPTS;
    let mut v = vec![];
    if let Ok(x) = std::env::var("MC_MT") {
        // for trying things out: clients/bound/fine/threads
        let x: Vec<usize> = x.split('/').skip(1).map(|x| x.parse().unwrap()).collect();
        let c = std::env::var("MC_MT").unwrap().split('/').next().unwrap().split(',').map(|x| x.parse().unwrap()).collect();
        return vec![Task { clients: c, bound: x[0], fine: x[1], marked: x[1].max(1), threads: x[2] }];
    }
    let thorough = tier != "quick";
    let some = [0, 1, 2, 3, 5, 7, 9, 12];
    for a in 0..n {
        for b in 0..n {
            let unordered = a <= b;
            if unordered || thorough {
                v.push(Task { clients: vec![a, b], bound: if thorough { 3 } else { 2 }, fine: 0, marked: if thorough { 4 } else { 1 }, threads: 2 });
            }
            if unordered && (thorough || some.contains(&a) && some.contains(&b)) {
                v.push(Task { clients: vec![a, b], bound: 1, fine: if thorough { 4 } else { 1 }, marked: 4, threads: 2 });
            }
        }
    }
    // the longest first
    v.sort_by_key(|t| std::cmp::Reverse(t.fine * 10 + t.bound));
    v
}

#[derive(Default)]
struct Sum {
    evals: u64,
    steps: u64,
    calls: u64,
    points: usize,
    outcomes: HashSet<u64>,
    sample: String,
    violation: Option<Value>,
    error: Option<String>,
    capped: bool,
    diverged: u64,
}

fn explore(t: &Task, shm: *mut Shm, work: &Work, firsts: &mut HashMap<u64, u64>, sum: &mut Sum, end: Instant) {
    let s = unsafe { &*shm };
    let mut stack: Vec<Plan> = vec![vec![]];
    // which blocks change globals?
    mark(t, shm);
    while let Some(plan) = stack.pop() {
        if work.stop.load(Relaxed) {
            return;
        }
        if Instant::now() > end {
            sum.capped = true;
            return;
        }
        let mut bad = None;
        match run(t, &plan, shm, false) {
            Ran::Held => {}
            Ran::Violated(m) => bad = Some(m),
            Ran::Engine(m) => {
                sum.error = Some(m);
                work.stop.store(true, Relaxed);
                return;
            }
        }
        sum.evals += 1;
        sum.steps += s.steps as u64;
        sum.calls += s.calls as u64;
        sum.points = sum.points.max(s.steps);
        sum.outcomes.insert(s.hash);
        if bad.is_none() {
            for (k, v) in &s.firsts[..s.nfirst] {
                if *firsts.entry(*k).or_insert(*v) != *v {
                    bad = Some(format!("an answer differs from the one given to the same bytes before\n  exec: {}", show_exec(&exec_of(t))));
                }
            }
        }
        if let Some(m) = bad {
            sum.violation = Some(json!({"clients": t.clients, "fine": t.fine, "marked": t.marked, "threads": t.threads, "bound": t.bound,
                "plan": plan, "message": m}));
            work.stop.store(true, Relaxed);
            return;
        }
        if sum.sample.is_empty() && !plan.is_empty() {
            sum.sample = format!("clients {:?}, switches {:?}: {} scheduling points, held", t.clients, plan, s.steps);
        }
        if s.diverged != 0 {
            // judged as it happened
            sum.diverged += 1
        } else if plan.len() < t.bound {
            let from = plan.last().map(|p| p.0 + 1).unwrap_or(0);
            for k in (from..s.steps.min(sched::POINTS)).rev() {
                let (m, to) = (s.rec[k] & 255, (s.rec[k] >> 8) as usize);
                for a in 0..sched::MAX {
                    if a != to && m & 1 << a != 0 {
                        let mut p = plan.clone();
                        p.push((k, a));
                        stack.push(p);
                    }
                }
            }
        }
    }
}

pub fn check(tier: &str) -> i32 {
    let t0 = Instant::now();
    crate::supervise::hook();
    crate::checks::res::calendar();
    let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 400.0 } else { 4.0 * 3600.0 });
    let end = t0 + std::time::Duration::from_secs_f64(cap);
    let ts = tasks(tier);
    let work = unsafe { &*shared::<Work>() };
    let dir = std::env::temp_dir().join(format!("octane_mc.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut pids = vec![];
    for w in 0..crate::explore::WORKERS {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 1);
            }
            let shm = shared::<Shm>();
            let mut sum = Sum::default();
            let mut firsts = HashMap::new();
            loop {
                let k = work.next.fetch_add(1, Relaxed);
                if k >= ts.len() || work.stop.load(Relaxed) {
                    break;
                }
                explore(&ts[k], shm, work, &mut firsts, &mut sum, end);
                if sum.capped {
                    break;
                }
            }
            let j = json!({"evals": sum.evals, "steps": sum.steps, "calls": sum.calls, "points": sum.points, "sample": sum.sample,
                "outcomes": sum.outcomes.iter().collect::<Vec<_>>(), "violation": sum.violation, "error": sum.error, "capped": sum.capped || sum.diverged > 0});
            std::fs::write(dir.join(format!("{}", w)), j.to_string()).unwrap();
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let (mut evals, mut steps, mut calls, mut points, mut capped) = (0, 0, 0, 0, false);
    let mut outcomes: HashSet<u64> = HashSet::new();
    let (mut samples, mut viol, mut error) = (vec![], None, None);
    for w in 0..crate::explore::WORKERS {
        let Some(j) = std::fs::read(dir.join(format!("{}", w))).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) else {
            error = Some("an explorer did not end as it should".to_string());
            continue;
        };
        evals += j["evals"].as_u64().unwrap();
        steps += j["steps"].as_u64().unwrap();
        calls += j["calls"].as_u64().unwrap();
        points = points.max(j["points"].as_u64().unwrap());
        capped |= j["capped"] == true;
        outcomes.extend(j["outcomes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        if samples.len() < 4 {
            samples.push(j["sample"].clone());
        }
        if !j["violation"].is_null() && viol.is_none() {
            viol = Some(j["violation"].clone())
        }
        if let Some(e) = j["error"].as_str() {
            error = Some(e.to_string())
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let vd = crate::supervise::verif();
    let mut code = 0;
    if let Some(mut v) = viol {
        v["property"] = json!("C09");
        v["tier"] = json!(tier);
        v["variant"] = json!("mt");
        let rd = format!("{}/replays", vd);
        let _ = std::fs::create_dir_all(&rd);
        let path = format!("{}/C09-mt.json", rd);
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("threads: clients {} switches {}: {}", v["clients"], v["plan"], v["message"].as_str().unwrap_or(""));
        println!("VIOLATION property=C09 replay={}", path);
        code = 1;
    } else if let Some(e) = error {
        eprintln!("ERROR C09 (threads): {}", e);
        return 2;
    } else {
        println!(
            "C09 (threads): held on {} schedules ({} scheduling points, at most {} in one, {} distinct outcomes) in {:.1} s{}",
            evals,
            steps,
            points,
            outcomes.len(),
            t0.elapsed().as_secs_f64(),
            if capped { " - time cap reached or schedules that did not fit, not exhaustive" } else { "" }
        );
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": "C09", "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": outcomes.len(), "transitions": calls, "traces_validated_against_impl": evals, "applications": 1,
            "distinct_nontrivial": evals, "max_schedule_length": points, "thread_schedules": evals, "scheduling_points": steps,
            "rule": "threads", "families": ["threads"], "variant": "mt", "samples": samples, "exhaustive": !capped && code == 0,
            "meaning": "",
        },
        "assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": code,
    });
    let ed = format!("{}/evidence", vd);
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(format!("{}/C09.mt.json", ed), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    code
}

pub fn replay(file: &str) -> i32 {
    crate::supervise::hook();
    crate::checks::res::calendar();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
    let n = |x: &Value| x.as_u64().unwrap() as usize;
    let t = Task {
        clients: v["clients"].as_array().unwrap().iter().map(n).collect(),
        bound: n(&v["bound"]),
        fine: n(&v["fine"]),
        marked: n(&v["marked"]),
        threads: n(&v["threads"]),
    };
    let plan: Plan = v["plan"].as_array().unwrap().iter().map(|p| (n(&p[0]), n(&p[1]))).collect();
    let shm = shared::<Shm>();
    mark(&t, shm);
    match run(&t, &plan, shm, false) {
        Ran::Held => {
            println!("threads: held");
            0
        }
        Ran::Violated(m) => {
            println!("threads: {}", m);
            1
        }
        Ran::Engine(m) => {
            eprintln!("ERROR {}", m);
            2
        }
    }
}
