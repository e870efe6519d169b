//! One module per group of properties; every check is a list of families.
use crate::app::*;
use crate::explore::*;
use crate::sim::*;

pub mod req;
pub mod res;
pub mod route;
pub mod scale;
#[cfg(feature = "tls")]
pub mod secure;
pub mod sys;

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C28", "C29", "C30",
];

pub struct Fam {
    name: String,
    apps: usize,
    app: Box<dyn Fn(usize) -> AppSpec + Send + Sync>,
    execs: Box<dyn Fn(usize) -> usize + Send + Sync>,
    exec: Box<dyn Fn(usize, usize) -> Exec + Send + Sync>,
    judge: Box<dyn Fn(&Ctx) -> Result<bool, String> + Send + Sync>,
    devs: Option<usize>,
    base: Option<Box<dyn Fn(usize) -> Exec + Send + Sync>>,
    env: Option<Box<dyn Fn(usize, &mut Sim) + Send + Sync>>,
}

impl Family for Fam {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn apps(&self) -> usize {
        self.apps
    }
    fn app(&self, i: usize) -> AppSpec {
        (self.app)(i)
    }
    fn execs(&self, i: usize) -> usize {
        (self.execs)(i)
    }
    fn exec(&self, i: usize, j: usize) -> Exec {
        (self.exec)(i, j)
    }
    fn deviations(&self) -> Option<usize> {
        self.devs
    }
    fn baseline(&self, i: usize) -> Option<Exec> {
        self.base.as_ref().map(|b| b(i))
    }
    fn env(&self, i: usize, s: &mut Sim) {
        if let Some(e) = &self.env {
            e(i, s)
        }
    }
    fn judge(&self, c: &Ctx) -> Result<bool, String> {
        (self.judge)(c)
    }
}

impl Fam {
    /// Many applications, the same executions for each.
    pub fn grid(
        name: &str,
        apps: usize,
        app: impl Fn(usize) -> AppSpec + Send + Sync + 'static,
        execs: Vec<Exec>,
        judge: impl Fn(&Ctx) -> Result<bool, String> + Send + Sync + 'static,
    ) -> Fam {
        let n = execs.len();
        Fam {
            name: name.into(),
            apps,
            app: Box::new(app),
            execs: Box::new(move |_| n),
            exec: Box::new(move |_, j| execs[j].clone()),
            judge: Box::new(judge),
            devs: None,
            base: None,
            env: None,
        }
    }
    /// One application, computed executions.
    pub fn inputs(
        name: &str,
        app: AppSpec,
        n: usize,
        exec: impl Fn(usize) -> Exec + Send + Sync + 'static,
        judge: impl Fn(&Ctx) -> Result<bool, String> + Send + Sync + 'static,
    ) -> Fam {
        Fam {
            name: name.into(),
            apps: 1,
            app: Box::new(move |_| app.clone()),
            execs: Box::new(move |_| n),
            exec: Box::new(move |_, j| exec(j)),
            judge: Box::new(judge),
            devs: None,
            base: None,
            env: None,
        }
    }
    pub fn devs(mut self, d: usize) -> Fam {
        self.devs = Some(d);
        self
    }
    pub fn base(mut self, b: impl Fn(usize) -> Exec + Send + Sync + 'static) -> Fam {
        self.base = Some(Box::new(b));
        self
    }
    pub fn env(mut self, e: impl Fn(usize, &mut Sim) + Send + Sync + 'static) -> Fam {
        self.env = Some(Box::new(e));
        self
    }
    pub fn boxed(self) -> Box<dyn Family> {
        Box::new(self)
    }
}

/// Number of sequences of length 0..=d over k symbols.
pub fn seqs(k: usize, d: usize) -> usize {
    (0..=d).map(|n| k.pow(n as u32)).sum()
}

/// The n-th sequence, shortest first.
pub fn seq(k: usize, mut n: usize) -> Vec<usize> {
    let mut len = 0;
    while n >= k.pow(len) {
        n -= k.pow(len);
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(n % k);
        n /= k;
    }
    v.reverse();
    v
}

/// Mixed-radix digits of n.
pub fn mixed(mut n: usize, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = n % r;
            n /= r;
            d
        })
        .collect()
}

pub fn conn(bytes: &[u8]) -> Conn {
    Conn { port: 80, ..Conn::new(bytes) }
}
pub fn one(c: Conn) -> Exec {
    Exec { conns: vec![c], ..Default::default() }
}
pub fn simple(bytes: &[u8]) -> Exec {
    one(conn(bytes))
}
pub fn get(path: &str) -> Vec<u8> {
    format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", path).into_bytes()
}
pub fn request(method: &str, path: &str) -> Vec<u8> {
    format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", method, path).into_bytes()
}

static DEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The thorough tier, for bounds beyond those of both kinds of quick checks.
pub fn deep() -> bool {
    DEEP.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn thorough(tier: &str) -> bool {
    tier == "thorough"
}

/// A family of another check, on a server without some of the optional features: applications that
/// use what is left out lose that use, or are left out where it is what they are about.
struct Without {
    id: &'static str,
    inner: Box<dyn Family>,
}
/// With the features of this build, is there anything `id` is about?
fn applies(id: &str) -> bool {
    match id {
        "C02" => cfg!(feature = "url_variables"),
        "C11" | "C12" | "C25" => cfg!(feature = "cookies"),
        "C16" => cfg!(feature = "extended_queries"),
        "C29" => cfg!(feature = "json"),
        _ => true,
    }
}
impl Without {
    fn reduced(&self, i: usize) -> (AppSpec, bool) {
        let mut a = self.inner.app(i);
        let mut usable = true;
        for s in a.steps.iter_mut() {
            if let Step::Reg(r) = s {
                if cfg!(not(feature = "url_variables")) && r.path.contains(':') {
                    usable = false
                }
                r.ops.retain(|o| match o {
                    H::Cookie(..) => cfg!(feature = "cookies"),
                    H::Json(_) => cfg!(feature = "json"),
                    _ => true,
                });
            }
        }
        (a, usable)
    }
}
impl Family for Without {
    fn name(&self) -> String {
        format!("{}: {}", self.id, self.inner.name())
    }
    fn apps(&self) -> usize {
        self.inner.apps()
    }
    fn app(&self, i: usize) -> AppSpec {
        self.reduced(i).0
    }
    fn execs(&self, i: usize) -> usize {
        if self.reduced(i).1 {
            self.inner.execs(i)
        } else {
            0
        }
    }
    fn exec(&self, i: usize, j: usize) -> Exec {
        self.inner.exec(i, j)
    }
    fn now(&self) -> i64 {
        self.inner.now()
    }
    fn deviations(&self) -> Option<usize> {
        self.inner.deviations()
    }
    fn baseline(&self, i: usize) -> Option<Exec> {
        self.inner.baseline(i)
    }
    fn env(&self, i: usize, s: &mut Sim) {
        self.inner.env(i, s)
    }
    fn judge(&self, c: &Ctx) -> Result<bool, String> {
        self.inner.judge(c)
    }
}
/// The small families of every check.
fn features(tier: &str) -> Vec<Box<dyn Family>> {
    let cap = if thorough(tier) { 300_000 } else { 12_000 };
    let mut v: Vec<Box<dyn Family>> = vec![];
    for id in IDS.iter().filter(|i| !["C21", "C22", "C23", "C30"].contains(*i) && applies(i)) {
        // (long histories and orders of events: only in the thorough tier)
        if ["C09", "C19"].contains(id) && !thorough(tier) {
            continue;
        }
        for inner in families(id, "quick") {
            let n: usize = (0..inner.apps()).map(|i| inner.execs(i)).sum();
            if n <= cap && (thorough(tier) || inner.deviations().is_none()) {
                v.push(Box::new(Without { id, inner }));
            }
        }
    }
    v
}

pub fn families(id: &str, tier: &str) -> Vec<Box<dyn Family>> {
    if id == "C30" {
        return features(tier);
    }
    // the cheap ones run with the deeper bounds in the quick tier already
    let t = thorough(tier) || !["C01", "C08", "C09", "C10", "C12", "C14", "C15", "C16", "C17", "C18"].contains(&id);
    DEEP.store(thorough(tier), std::sync::atomic::Ordering::Relaxed);
    let mut v = match id {
        "C01" => route::c01(t),
        "C02" => route::c02(t),
        "C03" => route::c03(t),
        "C04" => route::c04(t),
        "C05" => req::c05(t),
        "C06" => req::c06(t),
        "C07" => req::c07(t),
        "C08" => req::c08(t),
        "C09" => sys::c09(t),
        "C10" => res::c10(t),
        "C11" => res::c11(t),
        "C12" => req::c12(t),
        "C13" => res::c13(t),
        "C14" => res::c14(t),
        "C15" => req::c15(t),
        "C16" => req::c16(t),
        "C17" => res::c17(t),
        "C18" => req::c18(t),
        "C19" => sys::c19(t),
        "C20" => res::c20(t),
        "C21" => sys::c21(t),
        "C22" => req::c22(t),
        #[cfg(feature = "tls")]
        "C23" => secure::c23(thorough(tier)),
        "C24" => res::c24(t),
        "C25" => res::c25(t),
        "C28" => sys::c28(t),
        "C29" => res::c29(t),
        _ => vec![],
    };
    if let Some(id) = IDS.iter().find(|x| **x == id) {
        match *id {
            "C01" | "C02" | "C04" | "C06" | "C07" | "C08" | "C12" | "C15" | "C16" | "C18" => {
                v.extend(scale::grown(id));
                v.extend(scale::products(id));
                v.extend(scale::applications(id));
            }
            "C05" => v.extend(scale::grown_cut()),
            "C03" => {
                v.extend(scale::products(id));
                v.extend(scale::applications(id));
            }
            "C10" | "C11" | "C20" | "C24" => {
                v.extend(scale::products(id));
                v.extend(scale::answers(id));
            }
            "C13" => v.extend(scale::answers(id)),
            "C14" => v.extend(scale::products(id)),
            "C09" | "C19" => v.extend(scale::histories(id)),
            "C25" => v.extend(scale::injected()),
            _ => {}
        }
    }
    v
}

pub fn rule(id: &str) -> String {
    format!("every application x execution x schedule of the families of {} (bounds in DESIGN.md) is run on the real server; non-trivial: the oracle's comparison was reached with at least one handler run, or a response or refusal the property prescribes", id)
}

/// Scratch directory of this run.
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::var("MC_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| {
        let d = std::env::temp_dir().join(format!("octane_mc.s{}", std::process::id()));
        std::env::set_var("MC_SCRATCH", &d);
        d
    });
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn cleanup() {
    if let Ok(d) = std::env::var("MC_SCRATCH") {
        if d.contains(&format!("octane_mc.s{}", std::process::id())) {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}
