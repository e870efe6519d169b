//! Command line, supervision of the exploring process, evidence, replay files.
use crate::checks;
use crate::explore::*;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn main(a: &[String]) -> i32 {
    set_seed(7);
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s.as_slice() {
        ["check", id, tier] => check(id, tier),
        ["worker", id, tier, slots, result, w] => worker(id, tier, slots, result, w.parse().unwrap()),
        ["single", id, tier, f, i, j, sched] => {
            let sched: Vec<usize> = sched.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            single(id, tier, f.parse().unwrap(), i.parse().unwrap(), j.parse().unwrap(), sched)
        }
        #[cfg(feature = "mt")]
        ["mt", tier] => crate::mt::check(tier),
        #[cfg(feature = "mt")]
        ["replay", file] => crate::mt::replay(file),
        #[cfg(not(feature = "mt"))]
        ["replay", file] => replay(file),
        ["list"] => {
            for c in checks::IDS {
                println!("{}", c)
            }
            0
        }
        ["count", id, tier] => {
            for f in checks::families(id, tier) {
                let n: usize = (0..f.apps()).map(|i| f.execs(i)).sum();
                println!("{}: {} apps, {} executions (before schedules)", f.name(), f.apps(), n);
            }
            0
        }
        _ => {
            eprintln!("usage: octane_mc check|replay|list|count ...");
            2
        }
    }
}

pub fn hook() {
    std::panic::set_hook(Box::new(|p| {
        let _mine = crate::mem::Mine::new();
        let msg = format!("{}", p);
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{}", msg);
        }
        note_panic(msg);
    }));
}

fn known(id: &str) -> HashSet<String> {
    let mut h = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", verif())) {
        if let Ok(Value::Array(v)) = serde_json::from_str(&t) {
            for e in v {
                if e["property"] == id && e["status"] == "known" {
                    if let Some(c) = e["case"].as_str() {
                        h.insert(c.to_string());
                    }
                }
            }
        }
    }
    h
}

fn map_slots(path: &str) -> *const AtomicU64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    let len = (WORKERS + 1) * SLOT * 8;
    f.set_len(len as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *const AtomicU64
}

/// Reports a violation the server code cannot come back from, and ends the process.
pub fn fatal(message: String) -> ! {
    let v = CURRENT.with(|c| c.borrow().clone());
    if let (Some(mut v), Ok(path)) = (v, std::env::var("MC_RESULT")) {
        v.message = message;
        let st = Stats { violations: vec![v], ..Default::default() };
        write_result(&path, &st);
        unsafe { libc::_exit(1) }
    }
    eprintln!("fatal: {}", message);
    unsafe { libc::_exit(3) }
}

fn write_result(path: &str, s: &Stats) {
    let viol: Vec<Value> = s
        .violations
        .iter()
        .map(|v| {
            json!({"family": v.family, "app": v.app, "exec": v.exec, "schedule": v.schedule, "worker": v.worker,
                "message": v.message})
        })
        .collect();
    let j = json!({"evals": s.evals, "nontrivial": s.nontrivial, "steps": s.steps, "apps": s.apps, "points": s.max_points,
        "capped": s.capped, "diverged": s.diverged, "samples": s.samples, "known": s.known, "violations": viol});
    std::fs::write(path, serde_json::to_vec(&j).unwrap()).unwrap();
    let out: Vec<u8> = s.outcomes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{}.out", path), out).unwrap();
}

/// The sum of what the explorers found.
fn join_results(paths: &[String]) -> Value {
    let mut n: std::collections::HashMap<&str, u64> = Default::default();
    let (mut viol, mut samples, mut knownf, mut points, mut cap) = (vec![], vec![], vec![], 0, false);
    let mut outcomes: Vec<u64> = vec![];
    for p in paths {
        let Some(r) = std::fs::read(p).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) else { continue };
        for k in ["evals", "nontrivial", "steps", "apps", "diverged"] {
            *n.entry(k).or_default() += r[k].as_u64().unwrap_or(0)
        }
        points = points.max(r["points"].as_u64().unwrap_or(0));
        cap |= r["capped"] == true;
        let list = |k: &str| r[k].as_array().cloned().unwrap_or_default();
        viol.extend(list("violations"));
        samples.extend(list("samples"));
        knownf.extend(list("known"));
        if let Ok(b) = std::fs::read(format!("{}.out", p)) {
            outcomes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())))
        }
    }
    outcomes.sort_unstable();
    outcomes.dedup();
    viol.sort_by_key(|v: &Value| (v["family"].as_u64(), v["app"].as_u64(), v["exec"].as_u64()));
    samples.truncate(6);
    json!({"evals": n["evals"], "nontrivial": n["nontrivial"], "steps": n["steps"], "apps": n["apps"], "diverged": n["diverged"],
        "points": points, "capped": cap, "outcomes": outcomes.len(), "samples": samples, "known": knownf, "violations": viol})
}

/// One of the explorers: a process with a single thread, so that everything it does repeats exactly.
fn worker(id: &str, tier: &str, slots: &str, result: &str, w: usize) -> i32 {
    hook();
    std::env::set_var("MC_RESULT", result);
    let fams = checks::families(id, tier);
    let known = known(id);
    let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 420.0 } else { 6.0 * 3600.0 });
    let sh = Shared { own: AtomicBool::new(false), slots: map_slots(slots), started: Instant::now(), cap_s: cap };
    let st = std::thread::scope(|sc| {
        // for the larger stack
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || run_worker(w, &fams, &known, &sh)).unwrap();
        match h.join() {
            Ok(s) => s,
            Err(_) => {
                eprintln!("engine error: a worker thread panicked");
                std::process::exit(2)
            }
        }
    });
    let bad = !st.violations.is_empty();
    write_result(result, &st);
    checks::cleanup();
    bad as i32
}

fn single(id: &str, tier: &str, f: usize, i: usize, j: usize, sched: Vec<usize>) -> i32 {
    hook();
    let fams = checks::families(id, tier);
    let Some(fam) = fams.get(f) else { return 2 };
    set_seed(7);
    let mut sim = Sim::new();
    sim.install();
    let sh = Shared { own: AtomicBool::new(false), slots: std::ptr::null(), started: Instant::now(), cap_s: 1e9 };
    let mut st = Stats::default();
    let only = if fam.deviations().is_some() { Some(sched) } else { None };
    unit(0, f, fam.as_ref(), i, Box::new(std::iter::once(j)), only, &mut sim, &mut st, &HashSet::new(), &sh);
    checks::cleanup();
    for v in &st.violations {
        println!("{}: {}", fam.name(), v.message);
    }
    if !st.violations.is_empty() {
        1
    } else {
        println!("{}: held ({} executions)", fam.name(), st.evals);
        for s in &st.samples {
            println!("{}", s)
        }
        0
    }
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
    let sched: Vec<usize> = v["schedule"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
    single(
        v["property"].as_str().unwrap(),
        v["tier"].as_str().unwrap(),
        v["family"].as_u64().unwrap() as usize,
        v["app"].as_u64().unwrap() as usize,
        v["exec"].as_u64().unwrap() as usize,
        sched,
    )
}

enum End {
    Code(i32),
    Signal(i32),
    Stalled,
}

fn start_child(args: &[String], quiet: bool) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null());
    // the server prints warnings
    c.stdout(Stdio::null());
    if quiet {
        c.stderr(Stdio::null());
    }
    c.spawn().expect("spawn")
}

fn ended(child: &mut std::process::Child) -> Option<End> {
    use std::os::unix::process::ExitStatusExt;
    match child.try_wait() {
        Ok(Some(s)) => Some(match (s.code(), s.signal()) {
            (Some(c), _) => End::Code(c),
            (_, Some(s)) => End::Signal(s),
            _ => End::Code(2),
        }),
        Ok(None) => None,
        Err(_) => Some(End::Code(2)),
    }
}

fn run_child(args: &[String], stall: Duration) -> End {
    let mut child = start_child(args, true);
    let begin = Instant::now();
    loop {
        if let Some(e) = ended(&mut child) {
            return e;
        }
        if begin.elapsed() > stall {
            let _ = child.kill();
            let _ = child.wait();
            return End::Stalled;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Runs these workers side by side; the first end that is not a success stops the others.
fn run_workers(args: &[(usize, Vec<String>)], slots: *const AtomicU64, stall: Duration, quiet: bool) -> End {
    let mut ch: Vec<_> = args.iter().map(|(w, a)| (*w, start_child(a, quiet), (0, Instant::now()))).collect();
    let mut end = End::Code(0);
    while !ch.is_empty() {
        let mut k = 0;
        while k < ch.len() {
            let (w, child, last) = &mut ch[k];
            let e = ended(child);
            let v = unsafe { (*slots.add(*w * SLOT)).load(Ordering::Acquire) };
            if v != last.0 || v == u64::MAX || v == 0 {
                *last = (v, Instant::now())
            }
            let e = match e {
                None if last.1.elapsed() > stall => {
                    let _ = child.kill();
                    let _ = child.wait();
                    Some(End::Stalled)
                }
                e => e,
            };
            match e {
                None => k += 1,
                Some(e) => {
                    ch.remove(k);
                    if !matches!(e, End::Code(0)) {
                        unsafe { (*slots.add(WORKERS * SLOT)).store(1, Ordering::Relaxed) };
                        // a violation that is understood counts before one that is not
                        if !matches!(end, End::Code(1)) {
                            end = e
                        }
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    end
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    if !checks::IDS.contains(&id) {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let dir = verif();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = std::env::temp_dir().join(format!("octane_mc.{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let slots = scratch.join("slots").to_string_lossy().to_string();
    let result = scratch.join("result").to_string_lossy().to_string();
    std::env::set_var("MC_SCRATCH", &scratch);
    let map = map_slots(&slots);
    // before the workers start, which only read them
    checks::res::files(id == "C14" && tier != "quick");
    let names: Vec<String> = checks::families(id, tier).iter().map(|f| f.name()).collect();
    let paths: Vec<String> = (0..WORKERS).map(|w| format!("{}{}", result, w)).collect();
    let args: Vec<(usize, Vec<String>)> = (0..WORKERS)
        .map(|w| (w, ["worker", id, tier, &slots, &paths[w], &w.to_string()].iter().map(|s| s.to_string()).collect()))
        .collect();
    let end = run_workers(&args, map, Duration::from_secs(60), false);
    let mut viol: Option<Value> = None;
    let mut error = None;
    let mut res: Value = join_results(&paths);
    match end {
        End::Code(0) => {}
        End::Code(1) if res["violations"].as_array().map(|a| !a.is_empty()).unwrap_or(false) => {
            viol = Some(res["violations"][0].clone())
        }
        End::Code(c) => error = Some(format!("the explorer ended with exit code {}", c)),
        End::Signal(_) | End::Stalled => {
            let what = match end {
                End::Signal(s) => format!("the server process was ended by signal {}", s),
                _ => "the server stopped making progress".to_string(),
            };
            // which of the executions in progress does it?
            let mut found = None;
            for w in 0..WORKERS {
                let g = |k: usize| unsafe { (*map.add(w * SLOT + k)).load(Ordering::Relaxed) };
                if g(0) == 0 || g(0) == u64::MAX {
                    // ended
                    continue;
                }
                let sched: Vec<String> = (0..g(4) as usize).map(|k| g(5 + k).to_string()).collect();
                let a: Vec<String> = ["single".to_string(), id.to_string(), tier.to_string(), g(1).to_string(), g(2).to_string(), g(3).to_string(), sched.join(",")].to_vec();
                match run_child(&a, Duration::from_secs(40)) {
                    End::Code(0) | End::Code(2) => {}
                    _ => {
                        found = Some(json!({"family": g(1), "app": g(2), "exec": g(3), "worker": w,
                            "schedule": sched.iter().map(|s| s.parse::<u64>().unwrap()).collect::<Vec<_>>(),
                            "message": what}));
                        break;
                    }
                }
            }
            if found.is_none() {
                // perhaps it needs the history of its worker
                for w in 0..WORKERS {
                    let r2 = scratch.join(format!("r{}", w)).to_string_lossy().to_string();
                    let s2 = scratch.join(format!("s{}", w)).to_string_lossy().to_string();
                    let m2 = map_slots(&s2);
                    let a: Vec<String> = ["worker", id, tier, &s2, &r2, &w.to_string()].iter().map(|s| s.to_string()).collect();
                    match run_workers(&[(w, a)], m2, Duration::from_secs(60), true) {
                        End::Signal(_) | End::Stalled => {
                            let g = |k: usize| unsafe { (*m2.add(w * SLOT + k)).load(Ordering::Relaxed) };
                            found = Some(json!({"family": g(1), "app": g(2), "exec": g(3), "worker": w, "schedule": [],
                                "history": true, "message": format!("{} (after the history of worker {})", what, w)}));
                            break;
                        }
                        _ => {}
                    }
                }
            }
            match found {
                Some(v) => viol = Some(v),
                None => error = Some(format!("{}, but it does not happen again", what)),
            }
        }
    }
    let code;
    if let Some(mut v) = viol {
        // replayable artefact
        let g = |k: &str| v[k].as_u64().unwrap_or(0);
        let sched: Vec<String> = v["schedule"].as_array().cloned().unwrap_or_default().iter().map(|x| x.to_string()).collect();
        let a: Vec<String> = ["single".to_string(), id.to_string(), tier.to_string(), g("family").to_string(), g("app").to_string(), g("exec").to_string(), sched.join(",")].to_vec();
        let again = !matches!(run_child(&a, Duration::from_secs(60)), End::Code(0) | End::Code(2));
        let fam = names.get(g("family") as usize).cloned().unwrap_or_default();
        v["property"] = json!(id);
        v["tier"] = json!(tier);
        v["family_name"] = json!(fam);
        v["variant"] = json!(variant());
        v["reproduces_alone"] = json!(again);
        v["note"] = json!(if again { "run.sh replay <this file> repeats it on a fresh server" } else { "depends on the history of executions of its worker; rerun the check to repeat it" });
        let rd = format!("{}/replays", dir);
        let _ = std::fs::create_dir_all(&rd);
        let path = format!("{}/{}-{}.json", rd, id, variant());
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{}: {}", fam, v["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", id, path);
        res["violated"] = json!(1);
        code = 1;
    } else if let Some(e) = error {
        eprintln!("ERROR {}: {}", id, e);
        code = 2;
    } else {
        for k in res["known"].as_array().cloned().unwrap_or_default() {
            println!("KNOWN-FINDING: property={} {}", id, k.as_str().unwrap_or("").lines().next().unwrap_or(""));
        }
        println!(
            "{}: held on {} executions ({} non-trivial, {} distinct outcomes, {} environment steps) in {:.1} s{}",
            id,
            res["evals"],
            res["nontrivial"],
            res["outcomes"],
            res["steps"],
            t0.elapsed().as_secs_f64(),
            if res["diverged"].as_u64().unwrap_or(0) > 0 {
                " - some orders of events did not fit when repeated, not exhaustive"
            } else if res["capped"] == true { " - time cap reached, not exhaustive" } else { "" }
        );
        code = 0;
    }
    if code != 2 {
        let exh = res["capped"] != true && res["diverged"].as_u64().unwrap_or(0) == 0 && code == 0;
        let ev = json!({
            "property": id, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": res["outcomes"].as_u64().unwrap_or(0),
                "transitions": res["steps"].as_u64().unwrap_or(0),
                "traces_validated_against_impl": res["evals"].as_u64().unwrap_or(0),
                "applications": res["apps"].as_u64().unwrap_or(0),
                "distinct_nontrivial": res["nontrivial"].as_u64().unwrap_or(0),
                "max_schedule_length": res["points"].as_u64().unwrap_or(0),
                "rule": checks::rule(id),
                "families": names,
                "variant": variant(),
                "samples": res["samples"].as_array().cloned().unwrap_or_default(),
                "exhaustive": exh,
                "meaning": "states: distinct end-of-execution observations (bytes each client got, connection state, everything the handlers recorded); transitions: system calls of the real server answered by the simulated environment plus environment actions; traces_validated_against_impl: complete executions of the real server, each compared with the reference model",
            },
            "assumptions": [
                "the simulated socket layer answers as Linux does (edge-triggered readiness, partial reads and writes, errno)",
                "third-party crates (tokio, mio, socket2, cookie) run unmodified and are trusted only as far as exercised",
                "values outside the stated alphabets and bounds are not covered"
            ],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": code,
        });
        let ed = format!("{}/evidence", dir);
        let _ = std::fs::create_dir_all(&ed);
        let suffix = std::env::var("MC_EVIDENCE_SUFFIX").unwrap_or_default();
        std::fs::write(format!("{}/{}{}.json", ed, id, suffix), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

pub fn variant() -> &'static str {
    if cfg!(feature = "mt") {
        "mt"
    } else if cfg!(feature = "tls_rustls") {
        "rustls"
    } else if cfg!(feature = "tls_openssl") {
        "openssl"
    } else if cfg!(feature = "full") {
        "full"
    } else {
        // some of the optional features
        let f = [
            ("faithful", cfg!(feature = "faithful")),
            ("query_strings", cfg!(feature = "query_strings")),
            ("cookies", cfg!(feature = "cookies")),
            ("url_variables", cfg!(feature = "url_variables")),
            ("raw_headers", cfg!(feature = "raw_headers")),
            ("extended_queries", cfg!(feature = "extended_queries")),
            ("json", cfg!(feature = "json")),
        ];
        let on: Vec<&str> = f.iter().filter(|f| f.1).map(|f| f.0).collect();
        Box::leak(format!("with-{}", on.join("-")).into_boxed_str())
    }
}
