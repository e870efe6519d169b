//! Applications as data: a list of registrations and mounts whose handlers perform a list of
//! operations of the public API and record everything they are shown.
use crate::sim;
use octane::prelude::*;
use octane::responder::Response;
use octane::request::MatchedRequest;
use octane::StatusCode;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum H {
    /// record everything the request shows
    See,
    /// record only what the named accessor gives
    SeeQuery,
    SeeExtQuery,
    SeeBody,
    Send(Vec<u8>),
    /// body of this many bytes with a position-dependent pattern
    SendPattern(usize),
    Status(usize),
    StatusOther(i32, String),
    Set(String, String),
    /// write into the public header table directly
    Insert(String, String),
    Get(String),
    WithType(String),
    Charset(String),
    Attachment,
    AttachmentFilename(String),
    Redirect(String),
    /// name, value, attribute bits
    Cookie(String, String, u32),
    SendFile(String),
    Version(usize),
    DefaultHeaders,
    /// echo what identifies this request
    Echo,
    /// Send a body that depends on the request's `x-id` header, with intermediate overwrites
    Panic,
    /// sets the simulated clock
    Now(i64),
    HeadersSent,
    Yield(u32),
    Json(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Get,
    Post,
    Put,
    Delete,
    Patch,
    Head,
    All,
    Mw,
}
pub const KINDS: [Kind; 8] =
    [Kind::Get, Kind::Post, Kind::Put, Kind::Delete, Kind::Patch, Kind::Head, Kind::All, Kind::Mw];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Reg {
    /// 0 = the application itself, k = the k-th router
    pub on: usize,
    pub kind: Kind,
    pub path: String,
    pub ops: Vec<H>,
    pub stop: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Reg(Reg),
    /// mount router k (taking it away; later registrations on k go to a fresh router)
    Mount(usize),
    /// a configuration call on the application
    Conf(Conf),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Conf {
    Keep(u64),
    Port(u16),
    Key(u16, u32),
    Cert(u16, u32),
    /// take over TLS settings with this key and certificate
    Ssl(u32, u32),
    /// take over a whole configuration made by these calls: keep-alive, port, key, cert
    Whole(u64, u16, u32, u32),
    /// a whole configuration left at its defaults
    Default,
    /// a whole configuration made by the n-th sequence of calls on it
    Cfg(usize),
    /// directly on the public fields
    FieldNoKeep,
    FieldKey(u32),
    FieldCert(u32),
    /// TLS on this port with real files (0), or with unusable ones
    Tls(u16, u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ConfState {
    pub keep: Option<std::time::Duration>,
    pub port: u16,
    pub key: String,
    pub cert: String,
}

thread_local! {
    /// the settings of the application built last on this thread
    pub static SETTINGS: std::cell::RefCell<Option<ConfState>> = const { std::cell::RefCell::new(None) };
}

pub fn path_of(n: u32) -> String {
    match n {
        100 => String::new(),
        101 => " a b\t".to_string(),
        102 => "a/../b/./c/".to_string(),
        103 => "\u{e9}".to_string(),
        _ => format!("file{}.pem", n),
    }
}
/// keep-alive times, in nanoseconds
pub fn duration_of(n: u64) -> std::time::Duration {
    std::time::Duration::from_nanos(n)
}
/// the calls on a configuration itself
pub const CFG_CALLS: [Conf; 12] = [
    Conf::Keep(0),
    Conf::Keep(1),
    Conf::Keep(3_500_000_000),
    Conf::Keep(86_400_000_000_000),
    Conf::Port(0),
    Conf::Port(65535),
    Conf::Key(21, 100),
    Conf::Cert(22, 101),
    Conf::Ssl(102, 103),
    Conf::Ssl(100, 13),
    Conf::FieldKey(101),
    Conf::FieldNoKeep,
];

fn configure(app: &mut Octane, c: Conf) {
    use octane::config::{Config, OctaneConfig, Ssl};
    match c {
        Conf::Keep(n) => app.set_keepalive(duration_of(n)),
        Conf::Port(p) => {
            app.ssl(p);
        }
        Conf::Key(p, k) => {
            app.ssl(p).key(&path_of(k));
        }
        Conf::Cert(p, k) => {
            app.ssl(p).cert(&path_of(k));
        }
        Conf::Ssl(k, c) => {
            let mut s = Ssl::new();
            s.key(&path_of(k)).cert(&path_of(c));
            s.port = 9999;
            app.with_ssl_config(s)
        }
        Conf::Whole(d, p, k, c) => {
            let mut o = OctaneConfig::new();
            o.set_keepalive(duration_of(d));
            let mut s = Ssl::new();
            s.key(&path_of(k)).cert(&path_of(c));
            o.with_ssl_config(s);
            o.ssl(p);
            o.worker_threads(3);
            app.with_config(o)
        }
        Conf::Cfg(n) => {
            let mut o = OctaneConfig::new();
            for x in crate::checks::seq(CFG_CALLS.len(), n) {
                match CFG_CALLS[x] {
                    Conf::Keep(n) => o.set_keepalive(duration_of(n)),
                    Conf::Port(p) => {
                        o.ssl(p);
                    }
                    Conf::Key(p, k) => {
                        o.ssl(p).key(&path_of(k));
                        o.worker_threads(p as usize);
                    }
                    Conf::Cert(p, k) => {
                        o.ssl(p).cert(&path_of(k));
                    }
                    Conf::Ssl(k, c) => {
                        let mut s = Ssl::new();
                        s.key(&path_of(k)).cert(&path_of(c));
                        s.port = 9998;
                        o.with_ssl_config(s)
                    }
                    Conf::FieldNoKeep => o.keep_alive = None,
                    Conf::FieldKey(k) => {
                        o.ssl.key(&path_of(k));
                    }
                    _ => {}
                }
            }
            app.with_config(o)
        }
        Conf::Default => app.with_config(OctaneConfig::new()),
        Conf::Tls(p, n) => {
            let d = concat!(env!("CARGO_MANIFEST_DIR"), "/tls/");
            let f = |x: &str| format!("{}{}", d, x);
            let (k, c) = match n {
                0 => (f("key.pem"), f("cert.pem")),
                1 => (f("none.pem"), f("cert.pem")),
                2 => (f("key.pem"), f("none.pem")),
                3 => (f("cert.pem"), f("key.pem")),
                4 => (f("cert.pem"), f("cert.pem")),
                5 => (f("key.pem"), f("key.pem")),
                6 => (String::new(), String::new()),
                _ => (d.to_string(), d.to_string()),
            };
            app.ssl(p).key(&k).cert(&c);
        }
        Conf::FieldNoKeep => app.settings.keep_alive = None,
        Conf::FieldKey(k) => {
            app.settings.ssl.key(&path_of(k));
        }
        Conf::FieldCert(k) => {
            app.settings.ssl.cert(&path_of(k));
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct AppSpec {
    pub steps: Vec<Step>,
    /// the port to listen on
    pub port: u16,
}

impl AppSpec {
    pub fn one(ops: Vec<H>) -> AppSpec {
        AppSpec {
            steps: vec![Step::Reg(Reg { on: 0, kind: Kind::Mw, path: String::new(), ops, stop: true })],
            port: 80,
        }
    }
    pub fn reg(mut self, kind: Kind, path: &str, ops: Vec<H>, stop: bool) -> AppSpec {
        self.port = 80;
        self.steps.push(Step::Reg(Reg { on: 0, kind, path: path.to_string(), ops, stop }));
        self
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Seen {
    pub method: String,
    pub path: Vec<String>,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub raw: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub cookies: Vec<(String, String)>,
    pub vars: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum QV {
    Str(String),
    Arr(Vec<String>),
    Obj(Vec<(String, String)>),
}

/// What happened inside the application.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// handler of the n-th step entered
    Run(usize),
    Seen(Box<Seen>),
    Query(Vec<(String, String)>),
    Ext(Vec<(String, QV)>),
    Body(Vec<u8>),
    Vars(Vec<(String, String)>),
    Note(String),
}

fn sorted<K: ToString, V: ToString>(it: impl Iterator<Item = (K, V)>) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = it.map(|(a, b)| (a.to_string(), b.to_string())).collect();
    v.sort();
    v
}

pub fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static T: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut t = T.lock().unwrap();
    let t = t.get_or_insert_with(HashSet::new);
    if let Some(x) = t.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(l);
    l
}

pub fn see(req: &MatchedRequest) -> Seen {
    let r = &req.request_line;
    // the other views of the path are the same chunks
    let mut path = r.path.chunks.clone();
    let other = |p: std::path::PathBuf| -> Vec<String> { p.iter().map(|c| c.to_string_lossy().into_owned()).collect() };
    let shown: Vec<String> = r.path.to_string().split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
    for (what, v) in [("Display", shown), ("to_std_pathbuf", other(r.path.to_std_pathbuf())), ("From", other(r.path.clone().into())), ("chunks()", r.path.chunks().clone())] {
        if v != r.path.chunks {
            path.push(format!("<{} gives {:?}>", what, v))
        }
    }
    #[allow(unused_mut)]
    let mut s = Seen {
        method: format!("{:?}", r.method),
        path,
        version: format!("{:?}", r.version),
        headers: sorted(req.headers.parsed.iter()),
        body: req.body.to_vec(),
        ..Default::default()
    };
    #[cfg(feature = "raw_headers")]
    {
        s.raw = req.headers.raw.iter().map(|h| (h.name(), h.value())).collect();
    }
    #[cfg(feature = "cookies")]
    {
        s.cookies = req.cookies.iter().map(|c| (c.name().to_string(), c.value().to_string())).collect();
    }
    #[cfg(feature = "url_variables")]
    {
        s.vars = sorted(req.vars.iter());
    }
    s
}

/// The attributes selected by the bits, in the cookie crate's builder.
#[cfg(feature = "cookies")]
pub fn cookie(name: &str, value: &str, bits: u32) -> octane::cookie::Cookie<'static> {
    use octane::cookie::Cookie;
    let (name, value) = (leak(name), leak(value));
    if bits == 0 {
        return Cookie::new(name, value);
    }
    let mut b = Cookie::build(name, value);
    if bits & 768 != 0 {
        // the only way to these attributes without another crate
        let t = format!(
            "{}={}{}{}",
            name,
            value,
            if bits & 256 != 0 { "; Max-Age=3600" } else { "" },
            if bits & 512 != 0 { "; Expires=Wed, 21 Oct 2015 07:28:00 GMT" } else { "" }
        );
        let c = cookie::Cookie::parse(t).unwrap();
        if let Some(d) = c.max_age() {
            b = b.max_age(d)
        }
        if let Some(d) = c.expires() {
            b = b.expires(d)
        }
    }
    if bits & 1 != 0 {
        b = b.http_only(true)
    }
    if bits & 2 != 0 {
        b = b.secure(true)
    }
    if bits & 4 != 0 {
        b = b.path("/p")
    }
    if bits & 8 != 0 {
        b = b.domain("d.example")
    }
    if bits & 16 != 0 {
        b = b.same_site(cookie::SameSite::Strict)
    }
    if bits & 64 != 0 {
        b = b.same_site(cookie::SameSite::Lax)
    }
    if bits & 128 != 0 {
        b = b.same_site(cookie::SameSite::None)
    }
    if bits & 32 != 0 {
        b = b.permanent()
    }
    Cookie::from(b.finish())
}

pub fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"0123456789abcdefghijklmnopqrstuvwxyz-_"[(i + i / 37 + i / 2048) % 38]).collect()
}

pub fn status(i: usize) -> StatusCode {
    crate::status::all()[i].0
}

fn perform(op: &H, req: &MatchedRequest, res: &mut Response) {
    match op {
        H::See => sim::log(|| Ev::Seen(Box::new(see(req)))),
        H::SeeQuery => sim::log(|| Ev::Query(sorted(req.get_query().into_iter()))),
        H::SeeExtQuery => {
            #[cfg(feature = "extended_queries")]
            {
                let mut v: Vec<(String, QV)> = req
                    .get_extended_query()
                    .into_iter()
                    .map(|(k, v)| {
                        // the accessors are another view of the same value
                        let views = match &v {
                            octane::QueryValue::Str(s) => (Some(s), None, None),
                            octane::QueryValue::Arr(a) => (None, Some(a), None),
                            octane::QueryValue::Obj(o) => (None, None, Some(o)),
                        };
                        let same = views == (v.get_str(), v.get_arr(), v.get_obj());
                        (
                            if same { k } else { format!("{} with accessors {:?} {:?} {:?}", k, v.get_str(), v.get_arr(), v.get_obj()) },
                            match v {
                                octane::QueryValue::Str(s) => QV::Str(s),
                                octane::QueryValue::Arr(a) => QV::Arr(a),
                                octane::QueryValue::Obj(o) => QV::Obj(sorted(o.into_iter())),
                            },
                        )
                    })
                    .collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                sim::log(|| Ev::Ext(v))
            }
        }
        H::SeeBody => sim::log(|| Ev::Body(req.body.to_vec())),
        H::Send(b) => octane_inst::send(res, b),
        H::SendPattern(n) => res.send(pattern(*n)),
        H::Status(i) => {
            res.status(status(*i));
        }
        H::StatusOther(n, s) => {
            res.status(StatusCode::Other(*n, leak(s)));
        }
        H::Set(k, v) => {
            res.set(k, v);
        }
        H::Insert(k, v) => {
            res.headers.insert(k.clone(), v.clone());
        }
        H::Get(k) => {
            let v = res.get(leak(k)).cloned();
            sim::log(|| Ev::Note(format!("get {} = {:?}", k, v)))
        }
        H::WithType(t) => {
            res.with_type(leak(t));
        }
        H::Charset(c) => {
            res.charset(c);
        }
        H::Attachment => {
            res.attachment();
        }
        H::AttachmentFilename(f) => {
            res.attachment_with_filename(leak(f));
        }
        H::Redirect(l) => {
            res.redirect(l);
        }
        H::Cookie(_n, _v, _b) => {
            #[cfg(feature = "cookies")]
            res.cookie(cookie(_n, _v, *_b));
        }
        H::SendFile(f) => {
            let r = res.send_file(f);
            sim::log(|| Ev::Note(format!("send_file {}", if r.is_ok() { "ok" } else { "err" })))
        }
        H::Version(i) => {
            use octane_http::HttpVersion::*;
            res.http_version([Http11, Http10, Http02, Http09][*i].clone());
        }
        H::DefaultHeaders => {
            res.default_headers();
        }
        H::Echo => {
            let id = req.headers.parsed.get("x-id").cloned().unwrap_or_default();
            let mut b = format!("<{}|{:?}|{}|", id, req.request_line.method, req.request_line.path.chunks.join("/")).into_bytes();
            b.extend_from_slice(req.body);
            b.push(b'>');
            res.set("X-Id", &id);
            res.send(b)
        }
        H::Panic => panic!("handler panic (on purpose)"),
        H::Now(t) => sim::set_now(Some(*t)),
        H::HeadersSent => sim::log(|| Ev::Note(format!("headers_sent {}", res.headers_sent()))),
        H::Yield(n) => {
            for _ in 0..*n {
                crate::sched::point("handler")
            }
        }
        H::Json(_n) => {
            #[cfg(feature = "json")]
            {
                let r = match json_of(*_n) {
                    Some(v) => res.json(v),
                    None => res.json(Unwritable(*_n)),
                };
                sim::log(|| Ev::Note(format!("json {}", if r.is_ok() { "ok" } else { "err" })))
            }
        }
    }
}

/// A structure that cannot be written as JSON; it fails at once or after some of its parts.
pub struct Unwritable(pub u32);
impl serde::Serialize for Unwritable {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeMap, SerializeSeq};
        match self.0 % 4 {
            0 => Err(S::Error::custom("no")),
            1 => {
                let mut q = s.serialize_seq(None)?;
                for i in 0..5000 {
                    q.serialize_element(&i)?;
                }
                q.serialize_element(&Unwritable(0))?;
                q.end()
            }
            2 => {
                // keys must be strings
                let mut m = s.serialize_map(None)?;
                m.serialize_entry(&[1, 2], "x")?;
                m.end()
            }
            _ => {
                let mut m = s.serialize_map(None)?;
                m.serialize_entry("a", "x")?;
                m.serialize_entry("b", &Unwritable(0))?;
                m.end()
            }
        }
    }
}
pub const JSON_FAIL: u32 = 1 << 30;
const JSON_CHARS: u32 = 1 << 20;
const JSON_SIZES: u32 = 1 << 22;
fn json_leaf(n: usize) -> serde_json::Value {
    use serde_json::json;
    match n {
        0 => json!(null),
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(u64::MAX),
        5 => json!(i64::MIN),
        6 => json!(1.5),
        7 => json!(""),
        8 => json!("a"),
        9 => json!("\"\\/\u{8}\r\n\t\u{0}\u{7f}\u{e9}\u{1f600}</script>"),
        10 => json!(-1e300),
        _ => json!(false),
    }
}
pub const JSON_LEAVES: usize = 12;
/// The n-th structure: leaves, then arrays and objects with up to 3 leaves, nested ones; single
/// characters; sizes. None: one that cannot be written.
pub fn json_of(n: u32) -> Option<serde_json::Value> {
    use serde_json::{json, Value};
    if n >= JSON_FAIL {
        return None;
    }
    if n >= JSON_SIZES {
        let (k, n) = ((n - JSON_SIZES) % 4, ((n - JSON_SIZES) / 4) as usize);
        return Some(match k {
            0 => Value::String("x".repeat(n)),
            1 => Value::Array(vec![json!(1); n]),
            2 => Value::Object((0..n).map(|i| (format!("k{}", i), json!(i))).collect()),
            _ => (0..n.min(120)).fold(json!(1), |v, i| if i % 2 == 0 { json!([v]) } else { json!({ "k": v }) }),
        });
    }
    if n >= JSON_CHARS {
        let c = char::from_u32(n - JSON_CHARS).unwrap_or('?');
        return Some(json!({ c.to_string(): [c.to_string()] }));
    }
    let l = JSON_LEAVES;
    let n = n as usize;
    let keys = ["", "a", "\"", "\u{e9}"];
    let obj = |m: usize, q: &[usize]| {
        Value::Object(q.iter().enumerate().map(|(i, x)| (keys[(m + i) % 4].to_string(), json_leaf(*x))).collect())
    };
    Some(if n < l {
        json_leaf(n)
    } else {
        let q = crate::checks::seq(l, (n - l) / 4);
        match (n - l) % 4 {
            0 => Value::Array(q.into_iter().map(json_leaf).collect()),
            1 => obj(n / 4, &q),
            2 => json!([obj(n / 4, &q), [json_leaf(n % l)]]),
            _ => json!({ "o": obj(n / 4, &q), "a": [[], {}] }),
        }
    })
}
pub fn json_char(c: u32) -> u32 {
    JSON_CHARS + c
}
pub fn json_size(kind: u32, n: usize) -> u32 {
    JSON_SIZES + n as u32 * 4 + kind
}

fn handle(n: usize, ops: &[H], req: &MatchedRequest, res: &mut Response) {
    sim::log(|| Ev::Run(n));
    for o in ops.iter() {
        perform(o, req, res)
    }
}

pub struct Built {
    pub app: Octane,
    /// result of every registration (true = accepted); mounts are true
    pub accepted: Vec<bool>,
}

pub fn build(spec: &AppSpec) -> Built {
    let mut app = Octane::new();
    let mut routers: Vec<Router> = vec![];
    let mut accepted = vec![];
    for (n, s) in spec.steps.iter().enumerate() {
        match s {
            Step::Conf(c) => {
                configure(&mut app, *c);
                accepted.push(true)
            }
            Step::Mount(k) => {
                while routers.len() < *k {
                    routers.push(Router::new())
                }
                app.with_router(std::mem::take(&mut routers[*k - 1]));
                accepted.push(true)
            }
            Step::Reg(r) => {
                let ops: Arc<[H]> = r.ops.clone().into();
                let stop = r.stop;
                // every second handler is written with the macros users write
                let f: octane::router::Closure = match (n % 2, stop) {
                    (1, true) => route_stop!(|req, res| handle(n, &ops, req, res)),
                    (1, false) => route_next!(|req, res| handle(n, &ops, req, res)),
                    _ => Box::new(move |req: &MatchedRequest, res: &mut Response| {
                        handle(n, &ops, req, res);
                        if stop {
                            Flow::Stop
                        } else {
                            Flow::Next
                        }
                    }),
                };
                macro_rules! reg {
                    ($t:expr) => {
                        match r.kind {
                            Kind::Get => $t.get(&r.path, f).is_ok(),
                            Kind::Post => $t.post(&r.path, f).is_ok(),
                            Kind::Put => $t.put(&r.path, f).is_ok(),
                            Kind::Delete => $t.delete(&r.path, f).is_ok(),
                            Kind::Patch => $t.patch(&r.path, f).is_ok(),
                            Kind::Head => $t.head(&r.path, f).is_ok(),
                            Kind::All => $t.add_route(&r.path, f).is_ok(),
                            Kind::Mw => $t.add(f).is_ok(),
                        }
                    };
                }
                let ok = if r.on == 0 {
                    reg!(app)
                } else {
                    while routers.len() < r.on {
                        routers.push(Router::new())
                    }
                    reg!(routers[r.on - 1])
                };
                accepted.push(ok)
            }
        }
    }
    SETTINGS.with(|s| {
        *s.borrow_mut() = Some(ConfState {
            keep: app.settings.keep_alive,
            port: app.settings.ssl.port,
            key: app.settings.ssl.key.display().to_string(),
            cert: app.settings.ssl.cert.display().to_string(),
        })
    });
    Built { app, accepted }
}
