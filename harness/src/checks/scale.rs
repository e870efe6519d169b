//! Families every property shares: one dimension of a request grown through all marks (powers of
//! two and ten and their neighbours), and products of methods, versions, well-known header fields,
//! bodies, targets and queries, on one application that shows everything.
use super::req::{compare, cut, Parts};
use super::*;
use crate::model::{self, Expect};

pub fn marks(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=66).collect();
    let mut p = 64usize;
    while p <= max {
        v.extend([p - 1, p, p + 1, p + p / 2]);
        p *= 2
    }
    let mut p = 100usize;
    while p <= max {
        v.extend([p - 1, p, p + 1, 2 * p, 2 * p + 1, 5 * p, 5 * p + 1]);
        p *= 10
    }
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

// ---------------------------------------------------------------- one dimension grown

#[derive(Clone, Copy)]
pub struct Dim {
    pub name: &'static str,
    pub make: fn(usize) -> Vec<u8>,
    /// counts stay smaller than lengths
    pub max: usize,
    pub of: &'static [&'static str],
}

const L: usize = 1 << 17;
const N: usize = 2050;

fn rq(line: &str, fields: &str) -> Vec<u8> {
    format!("{}\r\nHost: h\r\n{}\r\n", line, fields).into_bytes()
}
fn target(t: &str) -> Vec<u8> {
    rq(&format!("GET {} HTTP/1.1", t), "")
}
fn field(f: &str) -> Vec<u8> {
    rq("GET /p/q HTTP/1.1", f)
}
fn body(declared: usize, sent: &[u8]) -> Vec<u8> {
    let mut b = rq("POST /p/b HTTP/1.1", &format!("Content-Length: {}\r\n", declared));
    b.extend_from_slice(sent);
    b
}

pub const DIMS: &[Dim] = &[
    Dim { name: "fields", make: |n| field(&(0..n).map(|k| format!("X-{}: v{}\r\n", k, k * 7)).collect::<String>()), max: N, of: &["C05", "C07"] },
    Dim { name: "equal fields", make: |n| field(&(0..n).map(|k| format!("X-Y: v{}\r\n", k)).collect::<String>()), max: N, of: &["C07"] },
    Dim { name: "fields of alternating spelling", make: |n| field(&(0..n).map(|k| format!("{}-z: {}\r\n", if k % 2 == 0 { "A" } else { "a" }, k)).collect::<String>()), max: N, of: &["C07"] },
    Dim { name: "empty fields", make: |n| field(&(0..n).map(|k| format!("E{}:\r\n", k % 300)).collect::<String>()), max: N, of: &["C07"] },
    Dim { name: "field name length", make: |n| field(&format!("X{}: v\r\nY: z\r\n", "N".repeat(n))), max: L, of: &["C05", "C07"] },
    Dim { name: "field value length", make: |n| field(&format!("X: {}\r\nY: z\r\n", "v".repeat(n))), max: L, of: &["C05", "C07"] },
    Dim { name: "words in a value", make: |n| field(&format!("X: {}\r\nY: z\r\n", "v ".repeat(n))), max: L / 2, of: &["C07"] },
    Dim { name: "wide characters in a value", make: |n| field(&format!("X: {}\r\nY: z\r\n", "\u{20ac}".repeat(n))), max: L / 3, of: &["C05", "C07"] },
    Dim { name: "colons in a value", make: |n| field(&format!("X: a{}b\r\nY: z\r\n", ":".repeat(n))), max: L, of: &["C07"] },
    Dim { name: "blanks before a value", make: |n| field(&format!("X:{}v\r\nY: z\r\n", " ".repeat(n))), max: L, of: &["C07"] },
    Dim { name: "blanks and tabs after a value", make: |n| field(&format!("X: v{}\r\nY: z\r\n", " \t".repeat(n))), max: L / 2, of: &["C07"] },
    Dim { name: "bad field after n good ones", make: |n| field(&format!("{}no colon\r\n", (0..n).map(|k| format!("X-{}: v\r\n", k)).collect::<String>())), max: N, of: &["C07"] },
    Dim { name: "control character after n characters", make: |n| field(&format!("X: {}\x01b\r\n", "v".repeat(n))), max: L, of: &["C07"] },
    Dim { name: "bad name character after n", make: |n| field(&format!("{}(: b\r\n", "n".repeat(n))), max: L, of: &["C07"] },
    Dim { name: "bad UTF-8 after n bytes", make: |n| { let mut b = format!("GET /p/q HTTP/1.1\r\nHost: h\r\nX: {}", "v".repeat(n)).into_bytes(); b.extend_from_slice(b"\xff\r\n\r\n"); b }, max: L, of: &["C07"] },
    Dim { name: "Host length", make: |n| format!("GET /p/q HTTP/1.1\r\nHost: h{}\r\n\r\n", "o".repeat(n)).into_bytes(), max: L, of: &["C18", "C07"] },
    Dim { name: "fields before Host", make: |n| format!("GET /p/q HTTP/1.1\r\n{}Host: h\r\n\r\n", (0..n).map(|k| format!("X-{}: v\r\n", k)).collect::<String>()).into_bytes(), max: N, of: &["C18"] },
    Dim { name: "fields, no Host", make: |n| format!("GET /p/q HTTP/1.1\r\n{}\r\n", (0..n).map(|k| format!("X-{}: v\r\n", k)).collect::<String>()).into_bytes(), max: N, of: &["C18"] },
    Dim { name: "unknown method length", make: |n| rq(&format!("X{} /p/q HTTP/1.1", "M".repeat(n)), ""), max: L, of: &["C18"] },
    Dim { name: "known method repeated", make: |n| rq(&format!("{} /p/q HTTP/1.1", "GET".repeat(n + 2)), ""), max: L / 4, of: &["C18"] },
    Dim { name: "version length", make: |n| rq(&format!("GET /p/q HTTP/1.1{}", "1".repeat(n + 1)), ""), max: L, of: &["C18"] },
    Dim { name: "words in the request line", make: |n| rq(&format!("GET /p/q HTTP/1.1{}", " x".repeat(n + 1)), ""), max: L / 2, of: &["C18"] },
    Dim { name: "segment length", make: |n| target(&format!("/p/{}", "s".repeat(n + 1))), max: L, of: &["C02", "C04", "C18", "C05"] },
    Dim { name: "wide segment length", make: |n| target(&format!("/p/{}", "\u{e9}".repeat(n + 1))), max: L / 2, of: &["C02", "C04"] },
    Dim { name: "path depth", make: |n| target(&"/a".repeat(n + 1)), max: L / 2, of: &["C01", "C04", "C18"] },
    Dim { name: "path down and up", make: |n| target(&format!("{}/p/q", "/a/..".repeat(n))), max: L / 5, of: &["C04"] },
    Dim { name: "path down then up", make: |n| target(&format!("{}{}/p/q", "/a".repeat(n), "/..".repeat(n))), max: L / 5, of: &["C04"] },
    Dim { name: "path down then up once too often", make: |n| target(&format!("{}{}/p/q", "/a".repeat(n), "/..".repeat(n + 1))), max: L / 5, of: &["C04"] },
    Dim { name: "path up only", make: |n| target(&format!("{}/p/q", "/..".repeat(n + 1))), max: L / 3, of: &["C04"] },
    Dim { name: "slashes", make: |n| target(&format!("/{}p/q", "/".repeat(n))), max: L, of: &["C04"] },
    Dim { name: "slashes at the end", make: |n| target(&format!("/p/q{}", "/".repeat(n))), max: L, of: &["C04", "C01"] },
    Dim { name: "dots", make: |n| target(&format!("/p{}/q", "/.".repeat(n))), max: L / 2, of: &["C04"] },
    Dim { name: "dots in a segment", make: |n| target(&format!("/p/x{}", ".".repeat(n))), max: L, of: &["C04"] },
    Dim { name: "query length", make: |n| target(&format!("/p/q?a={}", "v".repeat(n))), max: L, of: &["C15", "C16", "C05"] },
    Dim { name: "query name length", make: |n| target(&format!("/p/q?{}=v&b=c", "n".repeat(n + 1))), max: L, of: &["C15", "C16"] },
    Dim { name: "query pairs", make: |n| target(&format!("/p/q?{}", (0..n).map(|k| format!("n{}=v{}", k, k)).collect::<Vec<_>>().join("&"))), max: N * 2, of: &["C15", "C16"] },
    Dim { name: "equal query names", make: |n| target(&format!("/p/q?{}", (0..n).map(|k| format!("n=v{}", k)).collect::<Vec<_>>().join("&"))), max: N * 2, of: &["C15", "C16"] },
    Dim { name: "query escapes", make: |n| target(&format!("/p/q?a={}", "%41%c3%a9".repeat(n))), max: L / 9, of: &["C15", "C16"] },
    Dim { name: "escape after n characters", make: |n| target(&format!("/p/q?a={}%42%4", "v".repeat(n))), max: L, of: &["C15", "C16"] },
    Dim { name: "ampersands", make: |n| target(&format!("/p/q?a=1{}b=2", "&".repeat(n + 1))), max: L, of: &["C15", "C16"] },
    Dim { name: "equals signs", make: |n| target(&format!("/p/q?a={}", "=".repeat(n))), max: L, of: &["C15", "C16"] },
    Dim { name: "question marks", make: |n| target(&format!("/p/q?a={}", "?".repeat(n))), max: L, of: &["C15", "C16"] },
    Dim { name: "array elements", make: |n| target(&format!("/p/q?{}z=1", (0..n).map(|k| format!("a[]=v{}&", k)).collect::<String>())), max: N * 2, of: &["C16"] },
    Dim { name: "object keys", make: |n| target(&format!("/p/q?{}z=1", (0..n).map(|k| format!("o[k{}]=v{}&", k, k)).collect::<String>())), max: N * 2, of: &["C16"] },
    Dim { name: "equal object keys", make: |n| target(&format!("/p/q?{}z=1", (0..n).map(|k| format!("o[k]=v{}&", k)).collect::<String>())), max: N * 2, of: &["C16"] },
    Dim { name: "arrays", make: |n| target(&format!("/p/q?{}z=1", (0..n).map(|k| format!("a{}[]=v&a{}[]=w&", k, k)).collect::<String>())), max: N, of: &["C16"] },
    Dim { name: "object key length", make: |n| target(&format!("/p/q?o[{}]=v&z=1", "k".repeat(n + 1))), max: L, of: &["C16"] },
    Dim { name: "cookies", make: |n| field(&format!("Cookie: {}\r\n", (0..=n).map(|k| format!("c{}=v{}", k, k)).collect::<Vec<_>>().join("; "))), max: N * 2, of: &["C12"] },
    Dim { name: "bad cookies before a good one", make: |n| field(&format!("Cookie: {}good=1\r\n", "bad; ".repeat(n))), max: N * 2, of: &["C12"] },
    Dim { name: "equal cookies", make: |n| field(&format!("Cookie: {}\r\n", (0..=n).map(|k| format!("c=v{}", k)).collect::<Vec<_>>().join("; "))), max: N * 2, of: &["C12"] },
    Dim { name: "cookie value length", make: |n| field(&format!("Cookie: a={}; b=c\r\n", "v".repeat(n))), max: L, of: &["C12"] },
    Dim { name: "cookie name length", make: |n| field(&format!("Cookie: a{}=v; b=c\r\n", "n".repeat(n))), max: L, of: &["C12"] },
    Dim { name: "equals signs in a cookie", make: |n| field(&format!("Cookie: a={}; b=c\r\n", "=".repeat(n))), max: L, of: &["C12"] },
    Dim { name: "body length", make: |n| body(n, &pattern(n)), max: L * 8, of: &["C06", "C05"] },
    Dim { name: "bytes after the body", make: |n| body(3, &pattern(n + 3)), max: L * 4, of: &["C06", "C05"] },
    Dim { name: "blank lines in the body", make: |n| body(n * 4, &b"\r\n\r\n".repeat(n)), max: L, of: &["C06"] },
    Dim { name: "zeros before the length", make: |n| { let mut b = rq("POST /p/b HTTP/1.1", &format!("Content-Length: {}3\r\n", "0".repeat(n))); b.extend_from_slice(b"abcdef"); b }, max: L, of: &["C06"] },
    Dim { name: "fields before the length", make: |n| { let mut b = rq("POST /p/b HTTP/1.1", &format!("{}Content-Length: 3\r\n", (0..n).map(|k| format!("X-{}: v\r\n", k)).collect::<String>())); b.extend_from_slice(b"abcdef"); b }, max: N, of: &["C06"] },
    Dim { name: "junk in the length after n digits", make: |n| { let mut b = rq("POST /p/b HTTP/1.1", &format!("Content-Length: {}x\r\n", "0".repeat(n))); b.extend_from_slice(b"abcdef"); b }, max: L, of: &["C06"] },
    Dim { name: "body short by one", make: |n| body(n + 1, &pattern(n)), max: L * 4, of: &["C06"] },
    Dim { name: "bytes without a blank line", make: |n| "x".repeat(n + 1).into_bytes(), max: L * 2, of: &[] },
    Dim { name: "lines without a blank line", make: |n| "A: b\r\n".repeat(n + 1).into_bytes(), max: L / 2, of: &[] },
    Dim { name: "NULs", make: |n| { let mut b = vec![0; n]; b.extend_from_slice(b"\r\n\r\n"); b }, max: L, of: &[] },
    Dim { name: "line ends first", make: |n| { let mut b = b"\r\n".repeat(n); b.extend(target("/p/q")); b }, max: L / 2, of: &[] },
    Dim { name: "carriage returns", make: |n| { let mut b = b"\r".repeat(n); b.extend(target("/p/q")); b }, max: L, of: &[] },
    Dim { name: "pipelined requests", make: |n| target("/p/q").repeat(n + 1), max: N * 2, of: &["C06"] },
    Dim { name: "percent signs in the path", make: |n| target(&format!("/p/{}", "%".repeat(n + 1))), max: L, of: &["C02"] },
    Dim { name: "colons in a segment", make: |n| target(&format!("/p/{}", ":".repeat(n + 1))), max: L, of: &["C02"] },
];

/// which of the things an application can observe are compared
#[derive(Clone, Copy, Default)]
pub struct Mask {
    pub runs: bool,
    pub vars: bool,
    pub path: bool,
    pub line: bool,
    pub headers: bool,
    pub body: bool,
    pub cookies: bool,
    pub query: bool,
    pub ext: bool,
    pub refusal: bool,
    pub response: bool,
    pub form: bool,
}
pub fn mask(id: &str) -> Mask {
    let z = Mask::default();
    match id {
        "C01" | "C03" => Mask { runs: true, ..z },
        "C02" => Mask { vars: true, ..z },
        "C04" => Mask { path: true, runs: true, refusal: true, ..z },
        "C05" => Mask { runs: true, line: true, headers: true, body: true, cookies: true, query: true, form: true, ..z },
        "C06" => Mask { body: true, refusal: true, ..z },
        "C07" => Mask { headers: true, refusal: true, ..z },
        "C08" => Mask { refusal: true, form: true, ..z },
        "C10" | "C11" | "C20" | "C24" | "C14" => Mask { response: true, form: true, ..z },
        "C12" => Mask { cookies: true, ..z },
        "C15" => Mask { query: true, runs: true, ..z },
        "C16" => Mask { ext: true, ..z },
        "C18" => Mask { line: true, refusal: true, ..z },
        _ => z,
    }
}

/// An application that shows everything there is to see.
pub fn rich() -> AppSpec {
    let all = |mut o: Vec<H>| {
        let mut v = vec![H::See, H::SeeQuery, H::SeeExtQuery];
        v.append(&mut o);
        v
    };
    let s = |x: &str| x.to_string();
    let var = |n: &str| if cfg!(feature = "url_variables") { format!("/p/:{}", n) } else { s("/p/q") };
    AppSpec::default()
        .reg(Kind::Mw, "", all(vec![H::Set(s("X-M"), s("m"))]), false)
        .reg(Kind::All, &var("x"), all(vec![H::Set(s("X-A"), s("1")), H::Cookie(s("c"), s("v"), 1), H::SendPattern(50)]), false)
        .reg(Kind::Get, "/p/lit", all(vec![H::Status(1), H::WithType(s("a/b")), H::Send(b"lit".to_vec())]), true)
        .reg(Kind::Post, &var("y"), all(vec![H::Set(s("x-a"), s("2")), H::Send(b"post".to_vec())]), true)
        .reg(Kind::Put, "/p/lit", all(vec![H::Redirect(s("/r")), H::Send(b"put".to_vec())]), true)
        .reg(Kind::Delete, "/p/lit", all(vec![H::Send(vec![])]), true)
        .reg(Kind::Patch, "/p/lit", all(vec![H::Charset(s("utf-8")), H::Send(b"patch".to_vec())]), true)
        .reg(Kind::Head, &var("h"), all(vec![H::Send(b"head".to_vec())]), true)
        .reg(Kind::Get, "/file", all(vec![H::SendFile(format!("{}/s2051.bin", super::res::files(false).dir))]), true)
        .reg(Kind::All, "/", all(vec![H::SendPattern(2500)]), true)
}

/// Everything the property's part of the contract says about one connection with any application.
pub fn everything(c: &Ctx, k: Mask) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let conn = &c.exec.conns[0];
    let (bytes, end) = model::stream(conn);
    let cr = &c.res.conns[0];
    let got = model::actual_runs(&c.res.log);
    let head = bytes.starts_with(b"HEAD ");
    match model::expect(&bytes) {
        Expect::Run(m) => {
            let d = model::dispatch(c.app, &m.method, &m.path);
            let want: Vec<usize> = d.runs.iter().map(|r| r.0).collect();
            let have: Vec<usize> = got.iter().map(|r| r.0).collect();
            if want != have {
                if k.runs || k.refusal && have.is_empty() != want.is_empty() {
                    return Err(format!("handlers expected {:?}, ran {:?}", want, have));
                }
                return Ok(false);
            }
            for ((n, _, b), (_, s)) in d.runs.iter().zip(&got) {
                let Some(s) = s else { continue };
                if k.vars && cfg!(feature = "url_variables") && s.vars != *b {
                    return Err(format!("handler {} expected variables {:?}, saw {:?}", n, b, s.vars));
                }
                if k.path && s.path != m.path {
                    return Err(format!("handler {} saw path {:?}, expected {:?}", n, s.path, m.path));
                }
                compare(&m, s, Parts { line: k.line, headers: k.headers, body: k.body, cookies: k.cookies })?;
            }
            if k.query || k.ext {
                let q = model::query(&m.query);
                let x = model::ext_query(&m.query);
                for e in &c.res.log {
                    match (e, &q, &x) {
                        (Ev::Query(a), Some(b), _) if k.query && a != b => {
                            return Err(format!("query {:?}: handler saw {:?}, expected {:?}", clip(&m.query, 200), a, b));
                        }
                        (Ev::Ext(a), _, Some(b)) if k.ext && a != b => {
                            return Err(format!("query {:?}: handler saw {:?}, expected {:?}", clip(&m.query, 200), a, b));
                        }
                        _ => {}
                    }
                }
            }
            if matches!(end, Some(In::Fail(_)) | Some(In::Reset(_))) {
                return Ok(true);
            }
            let res = super::res::replay(c.app, &c.res.log);
            if k.response {
                super::res::response_is(&res, cr, head, c.exec.now.unwrap_or(784111777))?;
            } else if k.form || k.refusal {
                let r = model::answer_to(cr, &bytes)?;
                if k.refusal && (r.code == 404) != res.body.is_none() {
                    return Err(format!("status {}", r.code));
                }
            }
            Ok(!want.is_empty())
        }
        Expect::Error(codes) => {
            if (k.refusal || k.runs) && !got.is_empty() {
                return Err(format!("a handler ran for a request that must be refused with {:?}", codes));
            }
            if matches!(end, Some(In::Fail(_)) | Some(In::Reset(_))) {
                return Ok(true);
            }
            if k.refusal || k.form {
                let r = model::answer_to(cr, &bytes)?;
                if k.refusal && !codes.contains(&r.code) {
                    return Err(format!("status {}, expected one of {:?}", r.code, codes));
                }
            }
            if k.response && head {
                // error answers to HEAD have no body either
                model::answer(cr, true)?;
            }
            Ok(true)
        }
        Expect::Wait => {
            if (k.refusal || k.runs || k.body) && !got.is_empty() {
                return Err("a handler ran on an incomplete request".into());
            }
            match end {
                None => {
                    if k.form && (!cr.out.is_empty() || cr.closed) {
                        return Err("the server answered or closed before the request was complete".into());
                    }
                    Ok(true)
                }
                Some(In::Eof) if !bytes.is_empty() && (k.refusal || k.form) => {
                    let r = model::answer_to(cr, &bytes)?;
                    if r.code != 400 {
                        return Err(format!("status {} for a request cut short, expected 400", r.code));
                    }
                    Ok(true)
                }
                _ => Ok(false),
            }
        }
        Expect::Any => {
            if k.form && (end.is_some() || !cr.out.is_empty()) && !matches!(end, Some(In::Fail(_)) | Some(In::Reset(_))) {
                model::answer_to(cr, &bytes)?;
            }
            Ok(false)
        }
    }
}

/// Grows every dimension that concerns the property (all of them for C08).
pub fn grown(id: &'static str) -> Vec<Box<dyn Family>> {
    let k = mask(id);
    let dims: Vec<Dim> = DIMS.iter().copied().filter(|d| id == "C08" || d.of.contains(&id)).collect();
    let mut cases: Vec<(usize, usize)> = vec![];
    for (x, d) in dims.iter().enumerate() {
        let m = marks(if deep() { d.max * 8 } else { d.max });
        cases.extend(m.into_iter().map(|n| (x, n)));
    }
    // the long ones are spread over the workers
    cases.sort_by_key(|c| c.1);
    let n = cases.len();
    vec![Fam::inputs(
        "one dimension grown",
        rich(),
        n * 2,
        move |j| {
            let (d, n) = cases[j / 2];
            let c = conn(&(dims[d].make)(n));
            one(if j % 2 == 0 { c } else { c.eof() })
        },
        move |c| everything(c, k),
    )
    .boxed()]
}

/// C05: the same, cut into uniform segments.
pub fn grown_cut() -> Vec<Box<dyn Family>> {
    let dims: Vec<Dim> = DIMS.iter().copied().filter(|d| d.of.contains(&"C05")).collect();
    let segs = [536usize, 1024, 1448, 1460, 2048, 4096, 8192, 16384, 32768, 65535, 65536];
    let mut cases: Vec<(usize, usize, usize, bool)> = vec![];
    for (x, d) in dims.iter().enumerate() {
        let m = marks(if deep() { d.max * 4 } else { d.max.min(L * 2) });
        for n in m.into_iter().filter(|n| *n > 400) {
            let l = (d.make)(n).len();
            for s in segs {
                if s < l && l / s < 300 {
                    cases.push((x, n, s, false));
                    cases.push((x, n, s, true));
                }
            }
        }
    }
    let n = cases.len();
    let p = mask("C05");
    vec![Fam::inputs(
        "long requests in uniform segments",
        rich(),
        n,
        move |j| {
            let (x, n, s, pause) = cases[j];
            let b = (dims[x].make)(n);
            let cuts: Vec<usize> = (1..).map(|k| k * s).take_while(|c| *c < b.len()).collect();
            let mut c = cut(&b, &cuts, 0);
            if pause {
                for x in c.input.iter_mut().skip(1) {
                    if let In::More(d) = x {
                        *x = In::Data(std::mem::take(d))
                    }
                }
            }
            one(c)
        },
        move |c| everything(c, p),
    )
    .boxed()]
}

// ---------------------------------------------------------------- products

/// Header fields real clients send.
pub const FIELDS: &[&str] = &[
    "",
    "Connection: close\r\n",
    "Connection: keep-alive\r\n",
    "Connection: Keep-Alive, TE\r\n",
    "Connection: Upgrade\r\n",
    "Keep-Alive: timeout=5, max=1000\r\n",
    "Keep-Alive: 300\r\n",
    "Upgrade: websocket\r\n",
    "Upgrade: h2c\r\n",
    "Expect: 100-continue\r\n",
    "Range: bytes=0-1\r\n",
    "If-Modified-Since: Sun, 06 Nov 1994 08:49:37 GMT\r\n",
    "If-None-Match: *\r\n",
    "If-Match: \"x\"\r\n",
    "If-Range: \"x\"\r\n",
    "Accept: */*\r\n",
    "Accept: application/json\r\n",
    "Accept-Encoding: gzip, deflate, br\r\n",
    "Accept-Charset: utf-8\r\n",
    "Accept-Language: en;q=0.5\r\n",
    "TE: trailers\r\n",
    "Trailer: X\r\n",
    "Origin: http://o\r\n",
    "X-Forwarded-For: 10.0.0.1\r\n",
    "X-Forwarded-Host: other\r\n",
    "X-HTTP-Method-Override: DELETE\r\n",
    "X-Original-URL: /p/lit\r\n",
    "Content-Type: application/json\r\n",
    "Content-Type: application/x-www-form-urlencoded\r\n",
    "Content-Type: multipart/form-data; boundary=b\r\n",
    "Content-Encoding: gzip\r\n",
    "Content-Language: en\r\n",
    "Authorization: Basic eDp5\r\n",
    "Proxy-Connection: keep-alive\r\n",
    "Proxy-Authorization: Basic eDp5\r\n",
    "Via: 1.0 x\r\n",
    "Pragma: no-cache\r\n",
    "Cache-Control: no-cache\r\n",
    "Cache-Control: max-age=0\r\n",
    "Forwarded: for=1\r\n",
    "DNT: 1\r\n",
    "Date: Sun, 06 Nov 1994 08:49:37 GMT\r\n",
    "Max-Forwards: 0\r\n",
    "User-Agent: curl/7.0\r\n",
    "Referer: http://r/\r\n",
    "From: a@b\r\n",
    "Upgrade-Insecure-Requests: 1\r\n",
    "Sec-Fetch-Mode: cors\r\n",
    "Cookie: a=b; c=d\r\n",
    "Cookie: bad; e=f\r\n",
    "Set-Cookie: s=t\r\n",
    "X-Requested-With: XMLHttpRequest\r\n",
    "Priority: u=1\r\n",
    "Warning: 199 x\r\n",
    "Server: x\r\n",
    "Location: /l\r\n",
    "Host2: x\r\n",
    "Content-MD5: x\r\n",
    "Content-Range: bytes 0-1/2\r\n",
    "Content-Disposition: inline\r\n",
];
pub const TARGETS: &[&str] =
    &["/", "/p/lit", "/p/other", "/p/lit?a=1&b[]=2&a=3", "/file", "/none", "/p/./x/../lit/", "/../p", "/p/x?q", "*", "p/lit", "/p/lit#f", "http://h/p/lit"];
const BODIES: &[(&str, &str)] = &[
    ("", ""),
    ("Content-Length: 0\r\n", ""),
    ("Content-Length: 4\r\n", "b\r\n\r"),
    ("Content-Length: 7\r\n", "a=1&b=2"),
    ("Content-Length: 2\r\n", "{}GET / HTTP/1.1\r\n\r\n"),
];
pub const VERSIONS: [&str; 5] = ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/1.2"];

pub fn products(id: &'static str) -> Vec<Box<dyn Family>> {
    let k = mask(id);
    let nf = FIELDS.len();
    let radix = [9, TARGETS.len(), VERSIONS.len(), BODIES.len(), nf];
    let mut v = vec![Fam::inputs(
        "methods x targets x versions x bodies x header fields",
        rich(),
        radix.iter().product::<usize>(),
        move |j| {
            let d = mixed(j, &radix);
            let b = BODIES[d[3]];
            let host = if d[2] == 0 || (j / 3) % 2 == 0 { "Host: h\r\n" } else { "" };
            simple(
                format!(
                    "{} {} {}\r\n{}{}{}\r\n{}",
                    model::METHODS[d[0]].0, TARGETS[d[1]], VERSIONS[d[2]], host, FIELDS[d[4]], b.0, b.1
                )
                .as_bytes(),
            )
        },
        move |c| everything(c, k),
    )
    .boxed()];
    let radix = [nf, nf, 4, 2];
    v.push(
        Fam::inputs(
            "pairs of header fields",
            rich(),
            radix.iter().product::<usize>(),
            move |j| {
                let d = mixed(j, &radix);
                let l = ["GET /p/lit", "POST /p/x?a=b", "HEAD /p/lit", "PUT /p/lit"][d[2]];
                let b = BODIES[if d[2] == 1 { 2 } else { 0 }];
                simple(
                    format!("{} {}\r\n{}Host: h\r\n{}{}\r\n{}", l, VERSIONS[d[3]], FIELDS[d[0]], FIELDS[d[1]], b.0, b.1)
                        .as_bytes(),
                )
            },
            move |c| everything(c, k),
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- responses grown

type ResDim = (&'static str, fn(usize) -> Vec<H>, usize, &'static [&'static str]);

fn s(x: &str) -> String {
    x.to_string()
}
fn then(mut v: Vec<H>) -> Vec<H> {
    v.push(H::Send(b"the body".to_vec()));
    v
}

pub const RES_DIMS: &[ResDim] = &[
    ("header fields", |n| then((0..n).map(|k| H::Set(format!("X-H{}", k), format!("v{}", k * 7))).collect()), N, &["C10", "C11", "C24", "C13"]),
    ("one field set again and again", |n| then((0..=n).map(|k| H::Set(s(if k % 2 == 0 { "X-A" } else { "x-a" }), format!("v{}", k))).collect()), N, &["C10"]),
    ("fields after the body", |n| { let mut v = then(vec![]); v.extend((0..n).map(|k| H::Set(format!("X-H{}", k), s("v")))); v }, N, &["C10"]),
    ("field name length", |n| then(vec![H::Set("N".repeat(n + 1), s("v")), H::Set(s("Y"), s("z"))]), L, &["C10"]),
    ("field name length, two spellings", |n| then(vec![H::Set("nA".repeat(n + 1), s("v")), H::Set("Na".repeat(n + 1), s("w")), H::Set(s("Y"), s("z"))]), L / 2, &["C10"]),
    ("charsets", |n| then((0..=n).map(|k| H::Charset(format!("cs{}", k))).collect()), N, &["C10"]),
    ("types", |n| then((0..=n).map(|k| H::WithType(format!("t/s{}", k))).collect()), N, &["C10"]),
    ("field value length", |n| then(vec![H::Set(s("X"), "v".repeat(n)), H::Set(s("Y"), s("z"))]), L, &["C10", "C24", "C13"]),
    ("wide field value length", |n| then(vec![H::Set(s("X"), "\u{20ac}".repeat(n)), H::Set(s("Y"), s("z"))]), L / 3, &["C10", "C13"]),
    ("body size", |n| vec![H::SendPattern(n)], L * 32, &["C10", "C13", "C24"]),
    ("sends", |n| (0..=n).map(|k| H::SendPattern(k % 50)).collect(), N, &["C10"]),
    ("cookies", |n| then((0..n).map(|k| H::Cookie(format!("c{}", k), format!("v{}", k), (k % 64) as u32)).collect()), N * 2, &["C11", "C10"]),
    ("equal cookies", |n| then((0..n).map(|k| H::Cookie(s("c"), format!("v{}", k), 0)).collect()), N * 2, &["C11"]),
    ("cookies and fields", |n| then((0..n).flat_map(|k| [H::Cookie(format!("c{}", k), s("v"), 1), H::Set(format!("X-{}", k), s("w"))]).collect()), N, &["C11"]),
    ("cookie value length", |n| then(vec![H::Cookie(s("c"), "v".repeat(n), 3), H::Cookie(s("d"), s("w"), 0)]), L, &["C11"]),
    ("cookie name length", |n| then(vec![H::Cookie("c".repeat(n + 1), s("v"), 5), H::Cookie(s("d"), s("w"), 0)]), L, &["C11"]),
    ("redirect length", |n| then(vec![H::Redirect(format!("/{}", "r".repeat(n)))]), L, &["C10"]),
    ("type length", |n| then(vec![H::WithType(format!("t/{}", "y".repeat(n + 1)))]), L, &["C10"]),
    ("charset length", |n| then(vec![H::Charset(format!("u{}", "t".repeat(n)))]), L, &["C10"]),
    ("reason length", |n| then(vec![H::StatusOther(299, format!("r{}", "s".repeat(n)))]), L, &["C20", "C10"]),
    ("statuses", |n| then((0..=n).map(|k| H::Status(k % 40)).collect()), N, &["C20"]),
    ("redirects", |n| then((0..=n).map(|k| H::Redirect(format!("/{}", k))).collect()), N, &["C10"]),
];

/// Every response dimension that concerns the property.
pub fn answers(id: &'static str) -> Vec<Box<dyn Family>> {
    let dims: Vec<ResDim> = RES_DIMS.iter().copied().filter(|d| d.3.contains(&id)).collect();
    let mut cases: Vec<(usize, usize)> = vec![];
    for (x, d) in dims.iter().enumerate() {
        cases.extend(marks(if deep() { d.2 * 4 } else { d.2 }).into_iter().map(|n| (x, n)))
    }
    cases.sort_by_key(|c| c.1);
    let n = cases.len();
    let app = move |i: usize| {
        let (d, n) = cases[i];
        AppSpec::one((dims[d].1)(n))
    };
    let mut blocked = simple(&get("/"));
    blocked.conns[0].output = (0..40000).map(|k| if k % 3 == 2 { Out::Block } else { Out::N(1460) }).collect();
    vec![match id {
        "C13" => Fam::grid("one dimension of the response grown", n, app, vec![blocked], super::res::judge13)
            .base(|_| simple(&get("/"))),
        "C24" => Fam::grid("one dimension of the response grown", n, app, vec![simple(&request("HEAD", "/"))], super::res::judge24)
            .base(|_| simple(&get("/"))),
        "C20" => Fam::grid("one dimension of the response grown", n, app, vec![simple(&get("/"))], super::res::judge20),
        _ => Fam::grid("one dimension of the response grown", n, app, vec![simple(&get("/"))], super::res::judge_ops),
    }
    .boxed()]
}

/// C25: an injection after n harmless characters, and n injections.
pub fn injected() -> Vec<Box<dyn Family>> {
    let ms = marks(if deep() { L } else { L / 4 });
    let k = ms.len();
    let places = super::res::POS;
    let make = move |i: usize| -> (usize, String) {
        let m = mixed(i, &[places, 4, k]);
        let n = ms[m[2]];
        let x = match m[1] {
            0 => format!("{}\r\nX-Evil: 1", "a".repeat(n)),
            1 => format!("{}\nX-Evil: 1\n\nbody", "a".repeat(n)),
            2 => "\r\nX-Evil: 1".repeat(n.min(3000)),
            _ => format!("{}\r\n\r\n{}", "b".repeat(n), "c".repeat(n.min(5000))),
        };
        (m[0], x)
    };
    let make2 = make.clone();
    vec![Fam::grid(
        "injections after n characters",
        places * 4 * k,
        move |i| {
            let (p, x) = make(i);
            let mut o = vec![H::Set(s("X-Before"), s("before"))];
            o.extend(super::res::op25(p, &x));
            o.push(H::Send(b"the body".to_vec()));
            AppSpec::one(o)
        },
        vec![simple(&get("/"))],
        move |c| {
            let (p, x) = make2(c.i);
            super::res::judge25(c, p, &x)
        },
    )
    .boxed()]
}

// ---------------------------------------------------------------- applications grown

fn reg(on: usize, kind: Kind, path: &str, stop: bool) -> Step {
    Step::Reg(Reg { on, kind, path: path.to_string(), ops: vec![H::See], stop })
}

type AppDim = (&'static str, fn(usize) -> Vec<Step>, &'static [&'static str], usize, &'static [&'static str]);

fn var(n: usize) -> String {
    if cfg!(feature = "url_variables") {
        format!(":v{}", n)
    } else {
        s("a")
    }
}

pub const APP_DIMS: &[AppDim] = &[
    ("middlewares", |n| (0..n).map(|_| reg(0, Kind::Mw, "", false)).collect(), &["/a"], N, &["C01"]),
    ("handlers of one path", |n| (0..n).map(|k| reg(0, [Kind::Get, Kind::All][k % 2], "/a", false)).collect(), &["/a", "/b"], N, &["C01"]),
    ("handlers, middlewares and a stop near the end", |n| (0..n).map(|k| reg(0, [Kind::Get, Kind::Mw, Kind::All][k % 3], "/a", k + 3 == n)).collect(), &["/a"], N, &["C01"]),
    ("distinct paths", |n| (0..n).map(|k| reg(0, Kind::Get, &format!("/a{}", k), false)).collect(), &["/a0", "/a1", "/a63", "/a64", "/a999", "/a2047", "/b"], N, &["C01"]),
    ("prefixes of a deep path", |n| (0..n).map(|k| reg(0, Kind::Get, &"/a".repeat(k), false)).collect(), &["/", "/a", "/a/a/a", "/a/a/a/a/a/a/a/a/a"], 600, &["C01"]),
    ("refused registrations in between", |n| (0..n).map(|k| reg(0, Kind::Get, if k % 3 == 1 { "/../a" } else { "/a" }, false)).collect(), &["/a"], N, &["C01", "C04"]),
    ("registered path depth", |n| vec![reg(0, Kind::Get, &"/a".repeat(n), false), reg(0, Kind::All, &"/a".repeat(n + 1), false)], &["/", "/a"], 4100, &["C01", "C04"]),
    ("registered segment length", |n| vec![reg(0, Kind::Get, &format!("/{}", "s".repeat(n)), false), reg(0, Kind::Get, &format!("/{}x", "s".repeat(n)), false)], &["/s", "/sx"], L, &["C01"]),
    ("registered climbs", |n| vec![reg(0, Kind::Get, &format!("{}{}/a", "/x".repeat(n), "/..".repeat(n)), false), reg(0, Kind::Get, &format!("{}{}/a", "/x".repeat(n), "/..".repeat(n + 1)), false)], &["/a"], 4100, &["C04"]),
    ("variables", |n| vec![reg(0, Kind::Get, &(0..n).map(|k| format!("/{}", var(k))).collect::<String>(), false)], &["/a"], 1100, &["C02"]),
    ("patterns of one shape", |n| (0..n).map(|k| reg(0, Kind::Get, &format!("/{}", var(k)), false)).collect(), &["/a", "/b"], N, &["C02"]),
    ("patterns with a literal", |n| (0..n).map(|k| reg(0, Kind::All, &format!("/{}/l{}", var(k), k % 7), false)).collect(), &["/a/l1", "/a/l6", "/a/x"], N, &["C02"]),
    ("variable name length", |n| vec![reg(0, Kind::Get, &format!("/{}{}", var(1), "n".repeat(n)), false)], &["/a"], L, &["C02"]),
    ("mounts", |n| (0..n).flat_map(|k| [reg(1, Kind::Get, "/a", false), Step::Mount(1), reg(0, [Kind::Get, Kind::Mw][k % 2], "/a", false)]).collect(), &["/a"], 700, &["C03"]),
    ("empty mounts", |n| (0..n).flat_map(|_| [Step::Mount(1), reg(0, Kind::Get, "/a", false)]).collect(), &["/a"], N, &["C03"]),
    ("routes of a mounted router", |n| (0..n).map(|k| reg(1, [Kind::Get, Kind::Mw, Kind::All][k % 3], "/a", false)).chain([reg(0, Kind::Get, "/a", false), Step::Mount(1), reg(0, Kind::Get, "/a", false)]).collect(), &["/a"], N, &["C03"]),
    ("routes before a mount", |n| (0..n).map(|k| reg(0, [Kind::Get, Kind::Mw, Kind::All][k % 3], "/a", false)).chain([reg(1, Kind::Get, "/a", false), reg(1, Kind::Mw, "", false), Step::Mount(1), reg(0, Kind::All, "/a", false)]).collect(), &["/a"], N, &["C03"]),
    ("distinct paths through a mount", |n| (0..n).map(|k| reg(1, Kind::Get, &format!("/a{}", k), false)).chain([reg(0, Kind::Get, "/a0", false), Step::Mount(1), reg(0, Kind::Get, "/a0", false)]).collect(), &["/a0", "/a1", "/a64", "/a999"], N, &["C03"]),
];

/// The application itself grown, with the requests that fit it.
pub fn applications(id: &'static str) -> Vec<Box<dyn Family>> {
    let dims: Vec<AppDim> = APP_DIMS.iter().copied().filter(|d| d.4.contains(&id)).collect();
    let mut v = vec![];
    for d in dims {
        let ms = marks(if deep() { d.3 * 2 } else { d.3 });
        let ms2 = ms.clone();
        let paths: Vec<String> = d.2.iter().map(|p| s(p)).collect();
        let np = paths.len();
        v.push(Box::new(Fam {
            name: format!("{}, grown", d.0),
            apps: ms.len(),
            app: Box::new(move |i| AppSpec { steps: (d.1)(ms[i]), port: 80 }),
            execs: Box::new(move |_| np + 3),
            exec: Box::new(move |i, j| {
                let n = ms2[i];
                let long = match d.0 {
                    "registered segment length" => format!("/{}", "s".repeat(n)),
                    "prefixes of a deep path" | "registered path depth" | "variables" => "/a".repeat(n.max(1)),
                    _ => s("/a"),
                };
                simple(&match j {
                    j if j < np => get(&paths[j]),
                    j if j == np => get(&long),
                    j if j == np + 1 => get(&format!("{}x", long)),
                    _ => request("POST", &long),
                })
            }),
            judge: Box::new(|c| super::route::judge_runs(c, true)),
            devs: None,
            base: None,
            env: None,
        }) as Box<dyn Family>)
    }
    v
}

// ---------------------------------------------------------------- histories grown

/// n clients of one kind (or a rotation of all kinds) one after the other, then one of each kind.
pub fn histories(id: &'static str) -> Vec<Box<dyn Family>> {
    use super::sys::*;
    let mut ms: Vec<usize> = marks(1030).into_iter().filter(|m| *m >= 60).collect();
    ms.extend([2047, 2048, 2049, 4097, 5001, 10001]);
    if deep() {
        ms.extend([16385, 32769, 65537]);
    }
    let kinds = if id == "C09" { SCRIPTS } else { BAD } + 1;
    let k = ms.len();
    vec![Fam::inputs(
        "long histories",
        app09(),
        kinds * k,
        move |j| {
            let (kind, n) = (j % kinds, ms[j / kinds]);
            let mk = |x: usize, id2: usize| if id == "C09" { script(x % SCRIPTS, id2) } else { bad(x % BAD, id2) };
            let mut e = Exec {
                conns: (0..n).map(|x| mk(if kind + 1 == kinds { x } else { kind }, x % 9)).collect(),
                ..Default::default()
            };
            for z in 0..SCRIPTS {
                if id == "C09" || [0, 1, 2, 6].contains(&z) {
                    e.conns.push(script(z, 9));
                }
            }
            e
        },
        move |c| if id == "C09" { judge_all(c) } else { judge19(c) },
    )
    .boxed()]
}
