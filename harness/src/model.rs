//! The reference model: boring, independent re-statements of what the properties say.
use crate::app::*;
use crate::http::{self, Resp};
use crate::sim::*;

// ---------------------------------------------------------------- paths and routing

/// Normalised segments, or None if the path climbs above the root.
pub fn normalise(path: &str) -> Option<Vec<String>> {
    let mut v: Vec<String> = vec![];
    for s in path.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop()?;
            }
            s => v.push(s.to_string()),
        }
    }
    Some(v)
}

/// Variable bindings (sorted by name) if the registered path matches the request's segments.
pub fn matches(pattern: &[String], segs: &[String]) -> Option<Vec<(String, String)>> {
    if pattern.len() != segs.len() {
        return None;
    }
    let mut vars = vec![];
    for (p, s) in pattern.iter().zip(segs) {
        if let (Some(name), true) = (p.strip_prefix(':'), cfg!(feature = "url_variables")) {
            vars.push((name.to_string(), s.clone()))
        } else if p != s {
            return None;
        }
    }
    vars.sort();
    Some(vars)
}

pub const METHODS: [(&str, &str); 9] = [
    ("GET", "Get"),
    ("HEAD", "Head"),
    ("POST", "Post"),
    ("PUT", "Put"),
    ("DELETE", "Delete"),
    ("OPTIONS", "Options"),
    ("TRACE", "Trace"),
    ("CONNECT", "Connect"),
    ("PATCH", "Patch"),
];

pub fn kind_takes(k: Kind, method: &str) -> bool {
    match k {
        Kind::All | Kind::Mw => true,
        Kind::Get => method == "GET",
        Kind::Post => method == "POST",
        Kind::Put => method == "PUT",
        Kind::Delete => method == "DELETE",
        Kind::Patch => method == "PATCH",
        Kind::Head => method == "HEAD",
    }
}

/// The registrations in effective order: direct ones and those that came in by a mount, as
/// (step number, registration).
pub fn flatten(app: &AppSpec) -> Vec<(usize, &Reg)> {
    let mut routers: Vec<Vec<(usize, &Reg)>> = vec![vec![]; 8];
    let mut main = vec![];
    for (n, s) in app.steps.iter().enumerate() {
        match s {
            Step::Reg(r) if r.on == 0 => main.push((n, r)),
            Step::Reg(r) => routers[r.on].push((n, r)),
            Step::Mount(k) => main.append(&mut routers[*k]),
            Step::Conf(_) => {}
        }
    }
    main
}

pub struct Dispatch<'a> {
    /// (step, registration, bindings) in the order they run
    pub runs: Vec<(usize, &'a Reg, Vec<(String, String)>)>,
}

pub fn dispatch<'a>(app: &'a AppSpec, method: &str, segs: &[String]) -> Dispatch<'a> {
    let mut runs = vec![];
    for (n, r) in flatten(app) {
        let b = if r.kind == Kind::Mw {
            Some(vec![])
        } else if !kind_takes(r.kind, method) {
            None
        } else {
            normalise(&r.path).and_then(|p| matches(&p, segs))
        };
        if let Some(b) = b {
            runs.push((n, r, b));
            if r.stop {
                break;
            }
        }
    }
    Dispatch { runs }
}

/// (step, bindings recorded by its See/Vars op) actually run
pub fn actual_runs(log: &[Ev]) -> Vec<(usize, Option<&Seen>)> {
    let mut v: Vec<(usize, Option<&Seen>)> = vec![];
    for e in log {
        match e {
            Ev::Run(n) => v.push((*n, None)),
            Ev::Seen(s) => {
                if let Some(l) = v.last_mut() {
                    l.1 = Some(s)
                }
            }
            _ => {}
        }
    }
    v
}

// ---------------------------------------------------------------- requests

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MReq {
    pub method: String,
    pub path: Vec<String>,
    pub query: String,
    pub version: &'static str,
    pub raw: Vec<(String, String)>,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// bytes of the head including the blank line, bytes of head and body
    pub head: usize,
    pub total: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    /// handlers run on this request
    Run(Box<MReq>),
    /// an error answer with one of these codes, no handler
    Error(Vec<u32>),
    /// more bytes are needed
    Wait,
    /// not specified: either of the above, but well-formed
    Any,
}

fn is_ctl(c: char) -> bool {
    (c as u32) < 0x20 || c == '\x7f'
}

/// What the server owes for these bytes (with the default features).
pub fn expect(bytes: &[u8]) -> Expect {
    let Some(h) = bytes.windows(4).position(|w| w == b"\r\n\r\n") else {
        return Expect::Wait;
    };
    let bad = || Expect::Error(vec![400]);
    let Ok(head) = std::str::from_utf8(&bytes[..h]) else {
        return bad();
    };
    let mut lines = head.split("\r\n");
    let line = lines.next().unwrap();
    let toks: Vec<&str> = line.split(' ').collect();
    let mut any = false;
    let mut malformed = toks.len() != 3;
    // what only a faithful server has to refuse
    let mut lax = cfg!(not(feature = "faithful")) && toks.len() > 3;
    let mut req = MReq {
        method: toks[0].to_string(),
        path: vec![],
        query: String::new(),
        version: "HttpInvalid",
        raw: vec![],
        headers: vec![],
        body: vec![],
        head: h + 4,
        total: h + 4,
    };
    if !malformed {
        let (p, q) = match toks[1].split_once('?') {
            Some((p, q)) => (p, q),
            None => (toks[1], ""),
        };
        match normalise(p) {
            Some(s) => req.path = s,
            None => malformed = true,
        }
        req.query = q.to_string();
        if toks[1].is_empty() {
            // "GET  HTTP/1.1": not specified whether that is an empty target
            any = true
        }
        match toks[2].strip_prefix("HTTP/") {
            None => {
                malformed = true;
                lax |= cfg!(not(feature = "faithful"))
            }
            Some(v) => {
                req.version = match v {
                    "1.1" => "Http11",
                    "1.0" => "Http10",
                    "2.0" => "Http02",
                    "0.9" => "Http09",
                    v => {
                        // other versions reach the handlers as such; the strange ones may be refused
                        if v.is_empty() || v.chars().any(|c| is_ctl(c) || !c.is_ascii()) {
                            any = true
                        }
                        "HttpInvalid"
                    }
                }
            }
        }
        if line.chars().any(is_ctl) {
            any = true
        }
    }
    for l in lines {
        let Some((n, v)) = l.split_once(':') else {
            malformed = true;
            break;
        };
        if n.is_empty() || !n.bytes().all(http::is_token) {
            malformed = true;
            lax |= cfg!(not(feature = "faithful")) && !n.is_empty();
            break;
        }
        let v = v.trim_matches(|c| c == ' ' || c == '\t');
        if v.chars().any(|c| is_ctl(c) && c != '\t') {
            malformed = true;
            lax |= cfg!(not(feature = "faithful"));
            break;
        }
        req.raw.push((n.to_string(), v.to_string()));
        let k = n.to_ascii_lowercase();
        match req.headers.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = format!("{}, {}", x.1, v),
            None => req.headers.push((k, v.to_string())),
        }
    }
    if lax {
        return Expect::Any;
    }
    if malformed {
        return bad();
    }
    req.headers.sort();
    let get = |n: &str| req.headers.iter().find(|x| x.0 == n).map(|x| x.1.clone());
    if get("transfer-encoding").is_some() {
        any = true
    }
    if let Some(cl) = get("content-length") {
        let parts: Vec<&str> = cl.split(", ").collect();
        if parts.len() > 1 {
            if parts.iter().any(|p| p != &parts[0]) {
                return bad();
            }
            any = true; // repeated but equal: may be taken or refused
        }
        let p = parts[0];
        if p.is_empty() || !p.bytes().all(|c| c.is_ascii_digit()) {
            return bad();
        }
        let Ok(n) = p.parse::<usize>() else {
            return bad();
        };
        if n > isize::MAX as usize / 2 {
            // refusing it and waiting for it are both fine
            return Expect::Any;
        }
        req.total = req.head.saturating_add(n);
        if bytes.len() < req.total {
            return if any { Expect::Any } else { Expect::Wait };
        }
        req.body = bytes[req.head..req.total].to_vec();
    }
    if any {
        return Expect::Any;
    }
    let known = METHODS.iter().any(|m| m.0 == req.method);
    let nohost = req.version == "Http11" && get("host").is_none();
    match (known, nohost) {
        (true, false) => Expect::Run(Box::new(req)),
        (true, true) => Expect::Error(vec![400]),
        // an empty method is malformed as well as unknown
        (false, false) if req.method.is_empty() => Expect::Error(vec![400, 501]),
        (false, false) => Expect::Error(vec![501]),
        (false, true) => Expect::Error(vec![400, 501]),
    }
}

pub fn method_debug(m: &str) -> &'static str {
    METHODS.iter().find(|x| x.0 == m).map(|x| x.1).unwrap_or("None")
}

/// everything the client ever sends on the connection, and how it ends
pub fn stream(c: &Conn) -> (Vec<u8>, Option<In>) {
    let mut b = vec![];
    for i in &c.input {
        match i {
            In::Data(d) | In::More(d) => b.extend_from_slice(d),
            e => return (b, Some(e.clone())),
        }
    }
    (b, None)
}

pub fn no_panics(r: &ExecResult) -> Result<(), String> {
    if r.panics.is_empty() {
        Ok(())
    } else {
        Err(format!("server code panicked: {:?}", r.panics))
    }
}

/// A well-formed complete answer, after which the server closed the connection.
pub fn answer(c: &ConnResult, head: bool) -> Result<Resp, String> {
    if !c.accepted {
        return Err("the connection was never accepted".into());
    }
    if c.out.is_empty() {
        return Err("no response".into());
    }
    let r = http::parse(&c.out, head).map_err(|e| format!("malformed response: {}", e))?;
    if !c.closed {
        return Err("the server did not close the connection after its response".into());
    }
    Ok(r)
}

/// The same, for an answer to these request bytes. Whether an answer to HEAD has a body is C24's
/// business: here both are fine.
pub fn answer_to(c: &ConnResult, bytes: &[u8]) -> Result<Resp, String> {
    let r = answer(c, false);
    if r.is_err() && bytes.starts_with(b"HEAD ") {
        return answer(c, true);
    }
    r
}

pub fn cookies(header: Option<&str>) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Some(h) = header {
        for p in h.split("; ") {
            if let Some((n, val)) = p.split_once('=') {
                let (n, val) = (n.trim(), val.trim());
                if !n.is_empty() {
                    v.push((n.to_string(), val.to_string()))
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- queries

pub fn unescape(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) {
                out.push((x * 16 + y) as u8);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    // bytes that do not form UTF-8 are replaced
    Some(String::from_utf8_lossy(&out).into_owned())
}

/// None: the query contains something not specified
pub fn query(q: &str) -> Option<Vec<(String, String)>> {
    if cfg!(not(feature = "faithful")) && q.split('&').any(|t| t.is_empty() || t.starts_with('=')) {
        // what is not written like a pair is only prescribed for the faithful server
        return None;
    }
    let mut m = std::collections::BTreeMap::new();
    for t in q.split('&') {
        if t.is_empty() {
            continue;
        }
        let (n, v) = match t.split_once('=') {
            Some((n, v)) => (n, v),
            None => (t, ""),
        };
        if n.is_empty() {
            continue;
        }
        m.insert(unescape(n)?, unescape(v)?);
    }
    Some(m.into_iter().collect())
}

pub fn ext_query(q: &str) -> Option<Vec<(String, QV)>> {
    if cfg!(not(feature = "faithful")) && q.split('&').any(|t| t.is_empty() || t.starts_with('=')) {
        // what is not written like a pair is only prescribed for the faithful server
        return None;
    }
    let mut m: std::collections::BTreeMap<String, QV> = Default::default();
    for t in q.split('&') {
        if t.is_empty() {
            continue;
        }
        let (n, v) = match t.split_once('=') {
            Some((n, v)) => (n, v),
            None => {
                // a name alone is a string with empty value
                m.insert(unescape(t)?, QV::Str(String::new()));
                continue;
            }
        };
        let v = unescape(v)?;
        if n.is_empty() {
            continue;
        }
        if let (true, Some(i)) = (n.ends_with(']'), n.rfind('[')) {
            let (outside, inside) = (&n[..i], &n[i + 1..n.len() - 1]);
            if n.contains('%') || outside.is_empty() {
                return None; // escapes in bracketed names, or no name at all: not specified
            }
            if inside.is_empty() {
                match m.entry(outside.to_string()).or_insert_with(|| QV::Arr(vec![])) {
                    QV::Arr(a) => a.push(v),
                    _ => {}
                }
            } else {
                match m.entry(outside.to_string()).or_insert_with(|| QV::Obj(vec![])) {
                    QV::Obj(o) => {
                        match o.iter_mut().find(|x| x.0 == inside) {
                            Some(x) => x.1 = v,
                            None => o.push((inside.to_string(), v)),
                        }
                        o.sort();
                    }
                    _ => {}
                }
            }
            continue;
        }
        m.insert(unescape(n)?, QV::Str(v));
    }
    Some(m.into_iter().collect())
}

// ---------------------------------------------------------------- responses

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct MRes {
    pub code: u32,
    pub reason: String,
    pub version: String,
    /// lower-cased name, value
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
    pub charset: Option<String>,
    pub cookies: Vec<(String, String, u32)>,
    /// default Content-Type was filled in with this charset pending
    pub default_type: Option<Option<String>>,
    /// an explicit Content-Length came after the body: not specified
    pub odd_length: bool,
    pub odd_date: bool,
    /// charset chosen after the default type was filled in: not specified
    pub odd_charset: bool,
    /// a body was sent (not a file), so a Date is due
    pub dated: bool,
    /// the body is the JSON of this structure
    pub json: Option<u32>,
    /// (name, value at that time)
    pub gets: Vec<(String, Option<String>)>,
}

impl MRes {
    pub fn new() -> MRes {
        MRes { code: 200, reason: "OK".into(), version: "1.1".into(), ..Default::default() }
    }
    pub fn set(&mut self, k: &str, v: &str) {
        let k = k.to_ascii_lowercase();
        self.headers.retain(|h| h.0 != k);
        if k == "content-length" {
            self.odd_length = true;
            return;
        }
        if k == "date" {
            self.odd_date = true;
            return;
        }
        if k == "content-type" {
            self.default_type = None;
        }
        self.headers.push((k, v.trim_matches(|c| c == ' ' || c == '\t').to_string()))
    }
    fn defaults(&mut self) {
        self.odd_length = false;
        self.odd_date = false;
        self.dated = true;
        if !self.headers.iter().any(|h| h.0 == "content-type") && self.default_type.is_none() {
            self.default_type = Some(self.charset.clone())
        }
    }
    pub fn apply(&mut self, op: &H, file: &dyn Fn(&str) -> Option<(Vec<u8>, String)>, mime: &dyn Fn(&str) -> String) {
        if matches!(op, H::Send(_) | H::SendPattern(_)) {
            self.json = None;
        }
        match op {
            H::Send(b) => {
                self.body = Some(b.clone());
                self.defaults();
            }
            H::SendPattern(n) => {
                self.body = Some(pattern(*n));
                self.defaults();
            }
            H::Status(i) => {
                let s = crate::status::all()[*i];
                self.code = s.1 as u32;
                self.reason = s.2.to_uppercase();
            }
            H::StatusOther(n, s) => {
                self.code = *n as u32;
                self.reason = s.to_uppercase();
            }
            H::Set(k, v) => self.set(k, v),
            H::WithType(t) => self.set("content-type", t),
            H::Charset(c) => {
                self.charset = Some(c.clone());
                self.odd_charset |= self.default_type.is_some();
            }
            H::Get(k) => {
                let v = self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(k)).map(|h| h.1.clone());
                self.gets.push((k.clone(), v))
            }
            H::Attachment => self.set("content-disposition", "attachment"),
            H::AttachmentFilename(f) => {
                self.set("content-disposition", &format!("attachment; filename = {:?}", f));
                self.set("content-type", &mime(f))
            }
            H::Redirect(l) => {
                self.code = 302;
                self.reason = "FOUND".into();
                self.set("location", l)
            }
            H::Cookie(n, v, b) => self.cookies.push((n.clone(), v.clone(), *b)),
            H::SendFile(f) => {
                if let Some((c, t)) = file(f) {
                    self.body = Some(c);
                    self.json = None;
                    self.odd_length = false;
                    self.odd_date = true;
                    self.set("content-type", &t);
                }
            }
            H::Json(n) => {
                if let Some(v) = crate::app::json_of(*n) {
                    self.set("content-type", "application/json");
                    self.body = Some(serde_json::to_vec(&v).unwrap());
                    self.json = Some(*n);
                    self.defaults();
                }
            }
            H::Version(i) => self.version = ["1.1", "1.0", "2.0", "0.9"][*i].to_string(),
            H::DefaultHeaders => {
                if self.body.is_some() {
                    self.defaults()
                } else if !self.headers.iter().any(|h| h.0 == "content-type") && self.default_type.is_none() {
                    self.default_type = Some(self.charset.clone())
                }
            }
            _ => {}
        }
    }
}
