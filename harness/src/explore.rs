//! Exhaustive exploration: every application x every execution x (optionally) every schedule of a
//! family is run on the real server and judged.
use crate::app::{self, AppSpec};
use crate::sim::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::task::{Context, Poll};

pub const WORKERS: usize = 8;

pub struct Ctx<'a> {
    pub i: usize,
    pub j: usize,
    pub app: &'a AppSpec,
    pub accepted: &'a [bool],
    pub exec: &'a Exec,
    pub res: &'a ExecResult,
    pub base: Option<&'a ExecResult>,
}

pub trait Family: Send + Sync {
    fn name(&self) -> String;
    fn apps(&self) -> usize;
    fn app(&self, i: usize) -> AppSpec;
    fn execs(&self, i: usize) -> usize;
    fn exec(&self, i: usize, j: usize) -> Exec;
    fn now(&self) -> i64 {
        784111777 // Sun, 06 Nov 1994 08:49:37 GMT
    }
    /// Some(d): explore every order of environment actions with at most d departures from the
    /// default one
    fn deviations(&self) -> Option<usize> {
        None
    }
    /// an execution run first for each application; its result is given to every judge call
    fn baseline(&self, _i: usize) -> Option<Exec> {
        None
    }
    fn env(&self, _i: usize, _s: &mut Sim) {}
    /// Ok(non-trivial) or what is wrong
    fn judge(&self, c: &Ctx) -> Result<bool, String>;
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: usize,
    pub app: usize,
    pub exec: usize,
    pub schedule: Vec<usize>,
    pub worker: usize,
    pub message: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub apps: u64,
    pub max_points: usize,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub capped: bool,
    pub diverged: u64,
}

pub struct Shared {
    pub own: AtomicBool,
    /// progress of every worker, shared with the supervisor
    pub slots: *const AtomicU64,
    pub started: std::time::Instant,
    pub cap_s: f64,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
pub const SLOT: usize = 64;
impl Shared {
    /// All workers are to stop.
    pub fn stop(&self) {
        self.own.store(true, Ordering::Relaxed);
        self.put(WORKERS, 0, 1)
    }
    fn stopped(&self) -> bool {
        self.own.load(Ordering::Relaxed)
            || !self.slots.is_null() && unsafe { (*self.slots.add(WORKERS * SLOT)).load(Ordering::Relaxed) } != 0
    }
    fn put(&self, w: usize, k: usize, v: u64) {
        if !self.slots.is_null() {
            unsafe { (*self.slots.add(w * SLOT + k)).store(v, Ordering::Relaxed) }
        }
    }
    fn note(&self, w: usize, f: usize, i: usize, j: usize, sched: &[usize]) {
        if self.slots.is_null() {
            return;
        }
        self.put(w, 1, f as u64);
        self.put(w, 2, i as u64);
        self.put(w, 3, j as u64);
        let n = sched.len().min(SLOT - 6);
        self.put(w, 4, n as u64);
        for (k, s) in sched.iter().take(n).enumerate() {
            self.put(w, 5 + k, *s as u64)
        }
        unsafe { (*self.slots.add(w * SLOT)).fetch_add(1, Ordering::Release) };
    }
}

struct Until<F>(F);
impl<F: Future + Unpin> Future for Until<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if stopped() {
            return Poll::Ready(None);
        }
        Pin::new(&mut self.0).poll(cx).map(Some)
    }
}

thread_local! {
    /// what this thread is running, for the fatal reports
    pub static CURRENT: std::cell::RefCell<Option<Violation>> = const { std::cell::RefCell::new(None) };
    static RT: std::cell::RefCell<Option<tokio::runtime::Runtime>> = const { std::cell::RefCell::new(None) };
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub fn outcome_hash(r: &ExecResult) -> u64 {
    let mut h = DefaultHasher::new();
    for c in &r.conns {
        // header fields in canonical order: their order is that of a hash table
        let out = c.tls.as_ref().map(|t| &t.plain).unwrap_or(&c.out);
        match out.windows(4).position(|w| w == b"\r\n\r\n") {
            Some(k) => {
                let mut l: Vec<&[u8]> = out[..k].split(|b| *b == b'\n').collect();
                l[1..].sort_unstable();
                l.iter().for_each(|x| x.strip_suffix(b"\r").unwrap_or(x).hash(&mut h));
                out[k..].hash(&mut h)
            }
            None => out.hash(&mut h),
        }
        c.closed.hash(&mut h);
        c.accepted.hash(&mut h);
    }
    r.log.hash(&mut h);
    r.returned.is_some().hash(&mut h);
    h.finish()
}

/// Runs one application through all the executions the callback asks for.
pub fn run_app(sim: &mut Sim, spec: &AppSpec, next: &mut dyn FnMut(&[bool], Option<&ExecResult>) -> Option<Exec>) {
    let mut accepted: Vec<bool> = vec![];
    let acc_ptr: *const Vec<bool> = &accepted;
    let mut cb = |r: Option<&ExecResult>| next(unsafe { &*acc_ptr }, r);
    unsafe { sim.drive(&mut cb) };
    let mut rt = RT.with(|r| r.borrow_mut().take()).unwrap_or_else(runtime);
    loop {
        let built = app::build(spec);
        accepted.clear();
        accepted.extend(built.accepted);
        let port = spec.port;
        let fut = octane_inst::listen(built.app, port, crate::sim::note_started);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(Until(fut))));
        let r = match r {
            Ok(r) => r,
            Err(_) => Some(Err("listen() panicked".into())),
        };
        if sim.done {
            break;
        }
        let r = match r {
            Some(Ok(())) => Ok(()),
            Some(Err(e)) => Err(e.to_string()),
            None => continue,
        };
        // listen() came back
        sim.ended(r);
        drop(rt);
        sim.restart();
        rt = runtime();
        if sim.done {
            break;
        }
    }
    if cfg!(feature = "tls") {
        // the task listening for TLS goes with its runtime
        drop(rt);
        sim.restart();
        return;
    }
    RT.with(|r| *r.borrow_mut() = Some(rt));
}

pub fn dev(chosen: &[usize]) -> usize {
    chosen.iter().filter(|c| **c != 0).count()
}

/// Runs worker `w`'s share of every family.
pub fn run_worker(w: usize, fams: &[Box<dyn Family>], known: &HashSet<String>, sh: &Shared) -> Stats {
    set_seed(0x9E3779B97F4A7C15u64.wrapping_mul(w as u64 + 1) | 1);
    let mut sim = Sim::new();
    sim.install();
    let mut st = Stats::default();
    for (f, fam) in fams.iter().enumerate() {
        let apps = fam.apps();
        let by_app = apps >= 64;
        for i in 0..apps {
            if by_app && i % WORKERS != w {
                continue;
            }
            if sh.stopped() {
                break;
            }
            let n = fam.execs(i);
            let js: Box<dyn Iterator<Item = usize>> =
                if by_app { Box::new(0..n) } else { Box::new((w..n).step_by(WORKERS)) };
            unit(w, f, fam.as_ref(), i, js, None, &mut sim, &mut st, known, sh);
        }
    }
    sh.put(w, 0, u64::MAX);
    RT.with(|r| *r.borrow_mut() = None);
    Sim::uninstall();
    st
}

#[allow(clippy::too_many_arguments)]
pub fn unit(
    w: usize,
    f: usize,
    fam: &dyn Family,
    i: usize,
    mut js: Box<dyn Iterator<Item = usize> + '_>,
    only: Option<Vec<usize>>,
    sim: &mut Sim,
    st: &mut Stats,
    known: &HashSet<String>,
    sh: &Shared,
) {
    let spec = fam.app(i);
    st.apps += 1;
    set_now(Some(fam.now()));
    sim.reset_env();
    fam.env(i, sim);
    let baseline = fam.baseline(i);
    let mut base: Option<ExecResult> = None;
    let mut base_running = false;
    let mut cur: Option<(usize, Exec, Vec<usize>)> = None;
    let mut stack: Vec<Vec<usize>> = vec![];
    let devs = fam.deviations();
    let mut next = |acc: &[bool], r: Option<&ExecResult>| -> Option<Exec> {
        if let Some(r) = r {
            if base_running {
                base_running = false;
                base = Some(r.clone());
            } else if let Some((j, e, prefix)) = cur.take() {
                st.evals += 1;
                st.steps += (r.calls + r.actions) as u64;
                st.max_points = st.max_points.max(r.enabled.len());
                if st.outcomes.len() < 4_000_000 {
                    st.outcomes.insert(outcome_hash(r));
                }
                // a replayed order that no longer fits (the server does not do the same every time):
                // the execution is judged as it happened, but not continued from
                if r.diverged {
                    st.diverged += 1
                }
                let c = Ctx { i, j, app: &spec, accepted: acc, exec: &e, res: r, base: base.as_ref() };
                match fam.judge(&c) {
                    Ok(nt) => {
                        if nt {
                            st.nontrivial += 1;
                            if st.samples.len() < 2 {
                                st.samples.push(clip(&format!(
                                    "{}: app {:?} exec {:?} -> out {:?} log {:?}",
                                    fam.name(),
                                    spec.steps,
                                    show_exec(&e),
                                    shown(r),
                                    r.log
                                ), 1500));
                            }
                        }
                    }
                    Err(m) => {
                        let key = format!("{}/{}/{}/{:?}", fam.name(), i, j, r.chosen);
                        if known.contains(&key) {
                            st.known.push(format!("{} {}", key, m));
                        } else {
                            let m = clip(
                                &format!(
                                    "{}\n  app: {:?}\n  exec: {}\n  schedule: {:?}\n  out: {:?}\n  log: {:?}\n  panics: {:?}",
                                    m,
                                    spec.steps,
                                    show_exec(&e),
                                    r.chosen,
                                    shown(r),
                                    r.log,
                                    r.panics
                                ),
                                6000,
                            );
                            st.violations.push(Violation { family: f, app: i, exec: j, schedule: r.chosen.clone(), worker: w, message: m });
                            sh.stop();
                            return None;
                        }
                    }
                }
                // successors: later choices that differ
                if let (Some(d), true) = (devs, only.is_none() && !r.diverged) {
                    for k in (prefix.len()..r.enabled.len()).rev() {
                        let before = dev(&r.chosen[..k]);
                        if before + 1 > d {
                            continue;
                        }
                        for alt in (1..r.enabled[k]).rev() {
                            let mut p = r.chosen[..k].to_vec();
                            p.push(alt);
                            stack.push(p);
                        }
                    }
                }
                if let Some(p) = stack.pop() {
                    let mut e = e;
                    e.schedule = p.clone();
                    sh.note(w, f, i, j, &p);
                    set_current(f, i, j, &p, w);
                    cur = Some((j, e.clone(), p));
                    return Some(e);
                }
            }
        } else if let (Some(b), None) = (&baseline, &base) {
            base_running = true;
            sh.note(w, f, i, 0, &[]);
            set_current(f, i, 0, &[], w);
            return Some(b.clone());
        }
        if sh.stopped() {
            return None;
        }
        if st.evals % 256 == 0 && sh.started.elapsed().as_secs_f64() > sh.cap_s {
            st.capped = true;
            sh.stop();
            return None;
        }
        let j = js.next()?;
        let mut e = fam.exec(i, j);
        if let Some(s) = &only {
            e.schedule = s.clone();
        }
        let p = e.schedule.clone();
        sh.note(w, f, i, j, &p);
        set_current(f, i, j, &p, w);
        cur = Some((j, e.clone(), p));
        Some(e)
    };
    run_app(sim, &spec, &mut next);
}

fn set_current(f: usize, i: usize, j: usize, p: &[usize], w: usize) {
    CURRENT.with(|c| {
        *c.borrow_mut() =
            Some(Violation { family: f, app: i, exec: j, schedule: p.to_vec(), worker: w, message: String::new() })
    })
}

/// what every client got (decrypted where it can be)
pub fn shown(r: &ExecResult) -> Vec<String> {
    r.conns.iter().map(|c| String::from_utf8_lossy(c.tls.as_ref().map(|t| &t.plain).unwrap_or(&c.out)).to_string()).collect()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1
    }
    format!("{}...", &s[..k])
}

pub fn show_exec(e: &Exec) -> String {
    let b = |d: &Vec<u8>| {
        if d.len() > 600 {
            format!("{} bytes {:?}...", d.len(), String::from_utf8_lossy(&d[..200]))
        } else {
            format!("{:?}", String::from_utf8_lossy(d))
        }
    };
    let mut s = String::new();
    for c in &e.conns {
        s.push('{');
        if let Some(p) = &c.tls {
            s.push_str(&format!(
                "TLS 1.{} port {} {} records {:?} cut {:?} end {:?} ",
                if p.v13 { 3 } else { 2 },
                c.port,
                b(&p.data),
                p.records,
                p.cut,
                p.end
            ))
        }
        for x in &c.input {
            match x {
                In::Data(d) => s.push_str(&format!("data {} ", b(d))),
                In::More(d) => s.push_str(&format!("more {} ", b(d))),
                o => s.push_str(&format!("{:?} ", o)),
            }
        }
        if !c.output.is_empty() {
            s.push_str(&format!("sends {:?}", c.output));
        }
        s.push('}');
    }
    if !e.accept_faults.is_empty() {
        s.push_str(&format!(" accept faults {:?}", e.accept_faults))
    }
    if let Some(t) = e.now {
        s.push_str(&format!(" at {}", t))
    }
    if !e.file_reads.is_empty() {
        s.push_str(&format!(" file reads {:?}", e.file_reads))
    }
    if !e.file_events.is_empty() {
        s.push_str(&format!(" file events {:?}", e.file_events))
    }
    s
}
