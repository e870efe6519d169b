//! C10, C11, C13, C14, C17, C20, C24, C25: what the client gets to see of a response.
use super::*;
use crate::http::{self, Resp};
use crate::model::{self, MRes};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

fn st(code: i32) -> usize {
    crate::status::all().iter().position(|s| s.1 == code).unwrap()
}

// ---------------------------------------------------------------- files and types

/// Extension -> media type, written down from the registry (and MDN's list of common types).
pub const TYPES: &[(&str, &str)] = &[
    ("css", "text/css"),
    ("csv", "text/csv"),
    ("html", "text/html"),
    ("htm", "text/html"),
    ("ics", "text/calendar"),
    ("js", "text/javascript"),
    ("mjs", "text/javascript"),
    ("txt", "text/plain"),
    ("abw", "application/x-abiword"),
    ("arc", "application/x-freearc"),
    ("azw", "application/vnd.amazon.ebook"),
    ("bin", "application/octet-stream"),
    ("bz", "application/x-bzip"),
    ("bz2", "application/x-bzip2"),
    ("csh", "application/x-csh"),
    ("doc", "application/msword"),
    ("docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"),
    ("eot", "application/vnd.ms-fontobject"),
    ("epub", "application/epub+zip"),
    ("gz", "application/gzip"),
    ("json", "application/json"),
    ("jsonld", "application/ld+json"),
    ("mpkg", "application/vnd.apple.installer+xml"),
    ("odp", "application/vnd.oasis.opendocument.presentation"),
    ("ods", "application/vnd.oasis.opendocument.spreadsheet"),
    ("odt", "application/vnd.oasis.opendocument.text"),
    ("ogx", "application/ogg"),
    ("pdf", "application/pdf"),
    ("php", "application/x-httpd-php"),
    ("ppt", "application/vnd.ms-powerpoint"),
    ("pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"),
    ("rar", "application/vnd.rar"),
    ("rtf", "application/rtf"),
    ("sh", "application/x-sh"),
    ("swf", "application/x-shockwave-flash"),
    ("tar", "application/x-tar"),
    ("vsd", "application/vnd.visio"),
    ("xhtml", "application/xhtml+xml"),
    ("xls", "application/vnd.ms-excel"),
    ("xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"),
    ("xml", "application/xml"),
    ("xul", "application/vnd.mozilla.xul+xml"),
    ("zip", "application/zip"),
    ("7z", "application/x-7z-compressed"),
    ("bmp", "image/bmp"),
    ("gif", "image/gif"),
    ("ico", "image/vnd.microsoft.icon"),
    ("jpeg", "image/jpeg"),
    ("jpg", "image/jpeg"),
    ("png", "image/png"),
    ("svg", "image/svg+xml"),
    ("tif", "image/tiff"),
    ("tiff", "image/tiff"),
    ("webp", "image/webp"),
    ("aac", "audio/aac"),
    ("mid", "audio/midi"),
    ("midi", "audio/x-midi"),
    ("mp3", "audio/mpeg"),
    ("oga", "audio/ogg"),
    ("opus", "audio/opus"),
    ("wav", "audio/wav"),
    ("weba", "audio/webm"),
    ("avi", "video/x-msvideo"),
    ("mpeg", "video/mpeg"),
    ("ogv", "video/ogg"),
    ("ts", "video/mp2t"),
    ("webm", "video/webm"),
    ("otf", "font/otf"),
    ("ttf", "font/ttf"),
    ("woff", "font/woff"),
    ("woff2", "font/woff2"),
];

/// media type of a file name
pub fn mime(name: &str) -> String {
    let base = name.rsplit('/').next().unwrap_or("");
    let ext = match base.rsplit_once('.') {
        Some((stem, e)) if !stem.is_empty() => e.to_ascii_lowercase(),
        _ => String::new(),
    };
    TYPES.iter().find(|t| t.0 == ext).map(|t| t.1).unwrap_or("text/plain").to_string()
}

fn bytes_of(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 31 + i / 251 + salt * 7) % 256) as u8).collect()
}

/// Every file this module uses, with its content; written to the scratch directory once.
pub struct Files {
    pub dir: String,
    pub content: HashMap<String, Vec<u8>>,
}
fn sizes(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    for c in [512usize, 1024, 2048, 4096, 6144, 8192] {
        v.extend(c - 3..=c + 3)
    }
    v.extend([16384, 65535, 65536, 65537, 100_000]);
    if t {
        v.extend(71..=4200);
        v.extend([1 << 20, (1 << 20) + 1, 5_000_000]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn names() -> Vec<String> {
    let mut v = vec![];
    for (e, _) in TYPES {
        v.push(format!("f.{}", e));
        v.push(format!("F.{}", e.to_ascii_uppercase()));
        let mixed: String =
            e.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        v.push(format!("x.y.{}", mixed));
    }
    for n in ["plain", "a.xyz", "a.tar.gz", ".html", "b.", "c.html.", "d.html.bak", "e.htmlx", "f.tx", "html", "g.html.PNG", "h.\u{e9}", "sub.d/i.css", "sub.d/noext", "j k.html", "-k.js"]
    {
        v.push(n.to_string())
    }
    v
}
pub fn files(t: bool) -> &'static Files {
    static F: OnceLock<Files> = OnceLock::new();
    F.get_or_init(|| {
        let d = scratch().join("files");
        let ready = d.join("ready");
        let dir = d.display().to_string();
        let mut content = HashMap::new();
        for n in sizes(t) {
            content.insert(format!("{}/s{}.bin", dir, n), bytes_of(n, n));
        }
        for (i, n) in names().into_iter().enumerate() {
            content.insert(format!("{}/{}", dir, n), bytes_of(5 + i, i));
        }
        content.insert(format!("{}/dyn.txt", dir), bytes_of(10, 1));
        if !ready.exists() {
            let _ = std::fs::create_dir_all(d.join("sub.d"));
            let _ = std::fs::create_dir_all(d.join("dir.html"));
            for (p, c) in &content {
                std::fs::write(p, c).expect("scratch");
            }
            let _ = std::os::unix::fs::symlink(d.join("s70.bin"), d.join("link.html"));
            let _ = std::os::unix::fs::symlink(d.join("nowhere"), d.join("dangling.html"));
            let _ = std::os::unix::fs::symlink(d.join("dir.html"), d.join("dirlink"));
            let _ = std::os::unix::net::UnixListener::bind(d.join("sock.html"));
            for b in [31u32, 32, 33, 40] {
                for o in [-1i64, 0, 1, 5] {
                    let n = ((1i64 << b) + o) as u64;
                    // (no blocks are used)
                    let f = std::fs::File::create(d.join(format!("huge{}.css", n))).expect("scratch");
                    f.set_len(n).expect("scratch");
                }
            }
            let f = std::ffi::CString::new(d.join("fifo.html").display().to_string()).unwrap();
            unsafe { libc::mkfifo(f.as_ptr(), 0o600) };
            std::fs::write(&ready, b"").expect("scratch");
        }
        content.insert(format!("{}/link.html", dir), bytes_of(70, 70));
        Files { dir, content }
    })
}
fn lookup(p: &str) -> Option<(Vec<u8>, String)> {
    files(false).content.get(p).map(|c| (c.clone(), mime(p)))
}

// ---------------------------------------------------------------- the response oracle

/// Replays the operations of the handlers that ran.
pub fn replay(app: &AppSpec, log: &[Ev]) -> MRes {
    let mut m = MRes::new();
    for e in log {
        if let Ev::Run(n) = e {
            if let Step::Reg(r) = &app.steps[*n] {
                for o in &r.ops {
                    m.apply(o, &lookup, &|f| mime(f))
                }
            }
        }
    }
    m
}

fn cookie_matches(v: &str, want: &(String, String, u32)) -> Result<(), String> {
    let mut parts = v.split(';');
    let nv = parts.next().unwrap_or("").trim();
    let (n, val) = nv.split_once('=').ok_or_else(|| format!("Set-Cookie {:?} has no name", v))?;
    if (n.trim(), val.trim()) != (want.0.as_str(), want.1.as_str()) {
        return Err(format!("Set-Cookie {:?}, expected {}={}", v, want.0, want.1));
    }
    let mut have: Vec<(String, String)> = vec![];
    for p in parts {
        let (k, x) = p.split_once('=').unwrap_or((p, ""));
        have.push((k.trim().to_ascii_lowercase(), x.trim().to_string()))
    }
    have.sort();
    let mut exp: Vec<(String, String)> = vec![];
    let b = want.2;
    let mut add = |k: &str, v: &str| exp.push((k.to_string(), v.to_string()));
    if b & 1 != 0 {
        add("httponly", "")
    }
    if b & 2 != 0 {
        add("secure", "")
    }
    if b & 4 != 0 {
        add("path", "/p")
    }
    if b & 8 != 0 {
        add("domain", "d.example")
    }
    if b & 128 != 0 {
        add("samesite", "None");
        // such a cookie has to be secure
        if b & 2 == 0 && have.iter().any(|h| h.0 == "secure") {
            add("secure", "")
        }
    } else if b & 64 != 0 {
        add("samesite", "Lax")
    } else if b & 16 != 0 {
        add("samesite", "Strict")
    }
    if b & 32 != 0 {
        add("max-age", "630720000")
    } else {
        if b & 256 != 0 {
            add("max-age", "3600")
        }
        if b & 512 != 0 {
            add("expires", "Wed, 21 Oct 2015 07:28:00 GMT")
        }
    }
    exp.sort();
    // a permanent cookie also has an expiry date
    if b & 32 != 0 {
        let n = have.len();
        have.retain(|h| h.0 != "expires");
        if have.len() + 1 != n {
            return Err(format!("Set-Cookie {:?}: no single Expires", v));
        }
    }
    if have != exp {
        return Err(format!("Set-Cookie {:?}: attributes {:?}, expected {:?}", v, have, exp));
    }
    Ok(())
}

fn cookies_match(r: &Resp, want: &[(String, String, u32)]) -> Result<(), String> {
    let have = r.all("set-cookie");
    if have.len() != want.len() {
        return Err(format!("{} Set-Cookie fields {:?} for {} cookies set", have.len(), have, want.len()));
    }
    for (h, w) in have.iter().zip(want) {
        cookie_matches(h, w)?
    }
    Ok(())
}

/// Content-Type with optional charset parameter
fn type_parts(v: &str) -> (String, Option<String>) {
    let mut it = v.split(';');
    let t = it.next().unwrap_or("").trim().to_string();
    let mut cs = None;
    for p in it {
        if let Some((k, x)) = p.split_once('=') {
            if k.trim().eq_ignore_ascii_case("charset") {
                cs = Some(x.trim().trim_matches('"').to_string())
            }
        }
    }
    (t, cs)
}

/// The response (already delivered) is the one the operations describe.
pub fn response_is(m: &MRes, out: &ConnResult, head: bool, now: i64) -> Result<(), String> {
    if m.body.is_none() {
        let r = model::answer(out, head)?;
        if r.code != 404 {
            return Err(format!("no body was set, but the status is {}", r.code));
        }
        return Ok(());
    }
    let body = m.body.as_ref().unwrap();
    if !out.accepted || out.out.is_empty() {
        return Err("no response".into());
    }
    let r = if m.odd_length {
        http::split(&out.out).map_err(|e| format!("malformed response: {}", e))?
    } else {
        model::answer(out, head)?
    };
    if !out.closed {
        return Err("the server did not close the connection".into());
    }
    if (r.code, &r.reason, &r.version) != (m.code, &m.reason, &m.version) {
        return Err(format!(
            "status line HTTP/{} {} {}, expected HTTP/{} {} {}",
            r.version, r.code, r.reason, m.version, m.code, m.reason
        ));
    }
    if head {
        if !r.body.is_empty() {
            return Err("body in answer to HEAD".into());
        }
        if !m.odd_length && r.get("content-length") != Some(body.len().to_string().as_str()) {
            return Err(format!("Content-Length {:?} for a body of {}", r.get("content-length"), body.len()));
        }
    } else if &r.body != body {
        return Err(format!("body of {} bytes differs from the {} bytes set", r.body.len(), body.len()));
    }
    cookies_match(&r, &m.cookies)?;
    let ct = r.all("content-type");
    match (&m.default_type, m.headers.iter().find(|h| h.0 == "content-type")) {
        (_, Some(t)) => {
            if ct != [t.1.as_str()] {
                return Err(format!("Content-Type {:?}, expected {:?}", ct, t.1));
            }
        }
        (Some(cs), None) => {
            if ct.len() != 1 {
                return Err(format!("Content-Type {:?}", ct));
            }
            let (t, c) = type_parts(ct[0]);
            if t != "text/html" || !(c == *cs || m.odd_charset && (c == m.charset || c.is_none())) {
                return Err(format!("Content-Type {:?}, expected text/html with charset {:?}", ct, cs));
            }
        }
        (None, None) => {
            if ct.len() > 1 {
                return Err(format!("Content-Type {:?}", ct));
            }
        }
    }
    let d = r.all("date");
    if d.len() > 1 || d.is_empty() && m.dated {
        return Err(format!("{} Date fields", d.len()));
    }
    if let (Some(d), false) = (d.first(), m.odd_date) {
        let want = date(now);
        if *d != want {
            return Err(format!("Date {:?}, expected {:?}", d, want));
        }
    }
    let have = r.sorted_without(&["date", "content-length", "content-type", "set-cookie"]);
    let mut want: Vec<(String, String)> = m.headers.iter().filter(|h| h.0 != "content-type").cloned().collect();
    want.sort();
    let mut have2 = have.clone();
    have2.sort();
    // how white space around the file name parameter is written does not matter
    let squash = |v: &mut Vec<(String, String)>| {
        for h in v.iter_mut() {
            if h.0 == "content-disposition" {
                h.1 = h.1.replace(' ', "")
            }
        }
    };
    squash(&mut have2);
    squash(&mut want);
    if have2 != want {
        return Err(format!("header fields {:?}, expected {:?}", have, want));
    }
    Ok(())
}

pub fn judge_ops(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let (b, _) = model::stream(&c.exec.conns[0]);
    let head = b.starts_with(b"HEAD ");
    let mut m = replay(c.app, &c.res.log);
    if let (Some(n), false) = (m.json, head) {
        // any JSON text of the structure will do
        if let Ok(r) = model::answer(&c.res.conns[0], false) {
            let v: Option<serde_json::Value> = serde_json::from_slice(&r.body).ok();
            if v.is_some() && v == json_of(n) {
                m.body = Some(r.body.clone());
            }
        }
    }
    response_is(&m, &c.res.conns[0], head, c.exec.now.unwrap_or(784111777))?;
    let notes: Vec<&String> =
        c.res.log.iter().filter_map(|e| if let Ev::Note(n) = e { n.starts_with("get ").then_some(n) } else { None }).collect();
    for (n, g) in notes.iter().zip(&m.gets) {
        let want = format!("get {} = {:?}", g.0, g.1);
        if **n != want {
            return Err(format!("{}, expected {}", n, want));
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- C10

fn s(a: &str) -> String {
    a.to_string()
}
fn ops10() -> Vec<H> {
    let f = files(false);
    vec![
        H::Send(b"hello".to_vec()),
        H::Send(vec![]),
        H::SendPattern(3000),
        H::Status(st(404)),
        H::Status(st(201)),
        H::Set(s("X-A"), s("1")),
        H::Set(s("x-a"), s("two words")),
        H::Set(s("Content-Type"), s("a/b")),
        H::Set(s("content-type"), s("c/d")),
        H::WithType(s("text/json")),
        H::Charset(s("utf-8")),
        H::Attachment,
        H::AttachmentFilename(s("image.png")),
        H::Redirect(s("/there")),
        H::Cookie(s("c"), s("v"), 1),
        H::Version(1),
        H::DefaultHeaders,
        H::Set(s("Content-Length"), s("7")),
        H::Set(s("content-length"), s("7")),
        H::Set(s("dAtE"), s("today")),
        H::SendFile(format!("{}/s7.bin", f.dir)),
        H::SendFile(format!("{}/nothing.html", f.dir)),
        H::Get(s("X-a")),
    ]
}
fn ops_small() -> Vec<H> {
    let f = files(false);
    vec![
        H::Send(b"one".to_vec()),
        H::SendPattern(2100),
        H::Status(st(404)),
        H::Set(s("X-A"), s("1")),
        H::Set(s("x-a"), s("2")),
        H::WithType(s("x/y")),
        H::Redirect(s("/r")),
        H::Charset(s("utf-8")),
        H::SendFile(format!("{}/s7.bin", f.dir)),
    ]
}

const KNOWN: &[&str] = &[
    "Accept-Ranges", "Access-Control-Allow-Origin", "Access-Control-Allow-Methods", "Access-Control-Max-Age", "Age", "Allow",
    "Alt-Svc", "Cache-Control", "Connection", "Keep-Alive", "Content-Disposition", "Content-Encoding", "Content-Language",
    "Content-Location", "Content-Range", "Content-MD5", "Content-Security-Policy", "Date", "ETag", "Expires", "Last-Modified",
    "Link", "Location", "P3P", "Pragma", "Proxy-Authenticate", "Refresh", "Retry-After", "Server", "Strict-Transport-Security",
    "Trailer", "TE", "Upgrade", "Vary", "Via", "Warning", "WWW-Authenticate", "X-Frame-Options", "X-Powered-By",
    "X-Content-Type-Options", "X-Request-Id", "Status", "Host", "Cookie", "Content-Type", "Range", "X", "Content", "Content-Len",
];

pub fn c10(t: bool) -> Vec<Box<dyn Family>> {
    let ops = Arc::new(ops10());
    let k = ops.len();
    let d = if t { 5 } else { 4 };
    let one_app = {
        let ops = ops.clone();
        move |i: usize| AppSpec::one(seq(k, i).into_iter().map(|x| ops[x].clone()).collect())
    };
    let mut v = vec![Fam::grid(
        &format!("operation sequences up to {} in one handler", d),
        seqs(k, d),
        one_app,
        vec![simple(&get("/"))],
        judge_ops,
    )
    .boxed()];
    // the same, followed by a send: nearly every sequence then has a body
    {
        let ops = ops.clone();
        let d = if t { 4 } else { 3 };
        v.push(
            Fam::grid(
                "operation sequences then send",
                seqs(k, d),
                move |i| {
                    let mut o: Vec<H> = seq(k, i).into_iter().map(|x| ops[x].clone()).collect();
                    o.push(H::Send(b"last".to_vec()));
                    AppSpec::one(o)
                },
                vec![simple(&get("/"))],
                judge_ops,
            )
            .boxed(),
        );
    }
    // spread over handlers: every assignment of operations to a chain of handlers
    {
        let ops = Arc::new(ops_small());
        let k = ops.len();
        let d = if t { 5 } else { 4 };
        v.push(
            Fam::grid(
                "operations spread over a chain of handlers",
                seqs(k, d),
                move |i| {
                    let mut a = AppSpec { port: 80, ..Default::default() };
                    let q = seq(k, i);
                    for (n, x) in q.iter().enumerate() {
                        let kind = [Kind::Mw, Kind::Get, Kind::All][n % 3];
                        a = a.reg(kind, "/", vec![ops[*x].clone()], n + 1 == q.len());
                    }
                    a
                },
                vec![simple(&get("/"))],
                judge_ops,
            )
            .boxed(),
        );
    }
    // many headers
    v.push(
        Fam::grid(
            "0..n header fields",
            if t { 400 } else { 120 },
            |i| {
                let mut o: Vec<H> = (0..i).map(|n| H::Set(format!("X-H{}", n), format!("v{}", n * 7))).collect();
                for n in (0..i).step_by(3) {
                    o.push(H::Set(format!("x-h{}", n), format!("w{}", n)))
                }
                o.push(H::Send(b"b".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // body sizes
    v.push(
        Fam::grid(
            "body sizes",
            if t { 20000 } else { 4500 },
            |i| AppSpec::one(vec![H::SendPattern(i)]),
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // fields applications really set, all pairs, the second one in another spelling
    let known = KNOWN;
    let nk = known.len();
    v.push(
        Fam::grid(
            "pairs of well-known response fields",
            nk * nk * 2,
            move |i| {
                let m = mixed(i, &[nk, nk, 2]);
                let (a, b) = (known[m[0]], known[m[1]]);
                let mut o = vec![H::Set(s(a), s("v1")), H::Set(b.to_ascii_lowercase(), s("v2")), H::Get(s(if a == "Date" { "X" } else { a })), H::Send(b"body".to_vec())];
                if m[2] == 1 {
                    o.push(H::Set(a.to_ascii_uppercase(), s("v3")))
                }
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // charset and type choose the Content-Type together
    let ct = [
        H::Charset(s("utf-8")),
        H::Charset(s("latin-1")),
        H::Charset(s("UTF-16")),
        H::WithType(s("a/b")),
        H::WithType(s("c/d")),
        H::Set(s("Content-Type"), s("e/f")),
        H::SendFile(format!("{}/s7.bin", files(false).dir)),
        H::Send(b"x".to_vec()),
    ];
    v.push(
        Fam::grid(
            "sequences of types and charsets",
            seqs(ct.len(), if deep() { 6 } else { 5 }),
            move |i| {
                let mut o: Vec<H> = seq(ct.len(), i).into_iter().map(|x| ct[x].clone()).collect();
                o.push(H::Send(b"last".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // every value byte and name byte that is allowed
    v.push(
        Fam::grid(
            "every character of names and values",
            256,
            |i| {
                let ch = char::from_u32(i as u32).unwrap();
                let mut o = vec![];
                if i < 128 && http::is_token(i as u8) {
                    o.push(H::Set(format!("x{}y", ch), s("v")))
                }
                if !(ch.is_control()) {
                    o.push(H::Set(s("X-V"), format!("p{}q", ch)));
                    o.push(H::Redirect(format!("/r{}s", ch)))
                }
                o.push(H::Send(vec![i as u8; 3]));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // values, names, places and types that consist of any two characters
    let ch: Vec<char> = (0x21..0x7f).map(|x: u8| x as char).chain(['\u{e9}', '\u{20ac}']).collect();
    let n = ch.len();
    v.push(
        Fam::grid(
            "every pair of characters",
            n * n + n,
            move |i| {
                let x: String = seq(n, i + 1).iter().map(|k| ch[*k]).collect();
                let mut o = vec![H::Set(s("X-V"), x.clone())];
                if x.bytes().all(http::is_token) {
                    o.push(H::Set(x.clone(), s("v")))
                }
                o.extend([H::WithType(x.clone()), H::Redirect(x.clone()), H::Get(s("X-V")), H::Send(x.into_bytes())]);
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- C11

pub fn c11(t: bool) -> Vec<Box<dyn Family>> {
    let cs: Arc<Vec<H>> = Arc::new(
        [("a", "1", 0u32), ("a", "2", 0), ("b", "", 1), ("long-name_x", "v.v/v", 31), ("q", "x=y", 4), ("z", "1", 63), ("n", "0", 128), ("n", "0", 961)]
            .iter()
            .map(|c| H::Cookie(s(c.0), s(c.1), c.2))
            .collect(),
    );
    let k = cs.len();
    let mut v = vec![];
    // attributes
    v.push(
        Fam::grid(
            "every attribute combination",
            1024 * 3,
            |i| {
                let mut o = vec![H::Cookie(s("name"), s("value"), (i % 1024) as u32)];
                for n in 0..i / 1024 {
                    o.push(H::Set(format!("X-{}", n), s("v")))
                }
                o.push(H::Send(b"body".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // names and values of any two characters
    let ch: Vec<char> = (0x21..0x7f).map(|x: u8| x as char).collect();
    let n = ch.len();
    v.push(
        Fam::grid(
            "every pair of characters in names and values",
            n * n + n,
            move |i| {
                let x: String = seq(n, i + 1).iter().map(|k| ch[*k]).collect();
                let mut o = vec![H::Cookie(s("before"), s("b"), 0)];
                if !x.contains(&['"', ',', ';', '\\'][..]) {
                    o.push(H::Cookie(s("v"), x.clone(), 2));
                    o.push(H::Cookie(s("w"), x.clone(), 0));
                }
                if x.bytes().all(http::is_token) {
                    o.push(H::Cookie(x.clone(), s("n"), 1))
                }
                o.push(H::Send(b"body".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    // lists x headers x position of the send x number of handlers
    let d = if t { 5 } else { 4 };
    let n = seqs(k, d);
    {
        let cs = cs.clone();
        v.push(
            Fam::grid(
                "cookie lists x headers x placement",
                n * 4 * 3,
                move |i| {
                    let m = mixed(i, &[4, 3, n]);
                    let list: Vec<H> = seq(k, m[2]).into_iter().map(|x| cs[x].clone()).collect();
                    let hs: Vec<H> = (0..m[0]).map(|n| H::Set(format!("X-{}", n), s("v"))).collect();
                    let send = H::Send(b"body".to_vec());
                    match m[1] {
                        0 => AppSpec::one(list.into_iter().chain(hs).chain(Some(send)).collect()),
                        1 => AppSpec::one(Some(send).into_iter().chain(list).chain(hs).collect()),
                        _ => {
                            let mut a = AppSpec { port: 80, ..Default::default() };
                            a = a.reg(Kind::Mw, "", hs, false);
                            for c in list {
                                a = a.reg(Kind::Mw, "", vec![c], false)
                            }
                            a.reg(Kind::Mw, "", vec![send], true)
                        }
                    }
                },
                vec![simple(&get("/"))],
                judge_ops,
            )
            .boxed(),
        );
    }
    // with files and other operations around them
    {
        let cs = cs.clone();
        let ops = Arc::new(ops_small());
        let ko = ops.len();
        let d = 3;
        let n = seqs(ko + 2, d);
        v.push(
            Fam::grid(
                "cookies among other operations",
                n,
                move |i| {
                    let mut o: Vec<H> = seq(ko + 2, i)
                        .into_iter()
                        .map(|x| if x < ko { ops[x].clone() } else { cs[(x - ko) * 3].clone() })
                        .collect();
                    o.push(cs[1].clone());
                    o.push(H::Send(b"e".to_vec()));
                    AppSpec::one(o)
                },
                vec![simple(&get("/")), simple(&request("HEAD", "/"))],
                |c| {
                    if c.j == 1 {
                        return Ok(false);
                    }
                    judge_ops(c)
                },
            )
            .boxed(),
        );
    }
    v.push(
        Fam::grid(
            "0..n cookies",
            if t { 300 } else { 80 },
            |i| {
                let mut o: Vec<H> = (0..i).map(|n| H::Cookie(format!("n{}", n), format!("v{}", n), (n % 64) as u32)).collect();
                o.push(H::Send(b"e".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge_ops,
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- C13

/// What was delivered is a prefix of the expected response, whatever the order of its fields.
fn prefix_of(out: &[u8], full: &[u8]) -> Result<(), String> {
    let h = full.windows(4).position(|w| w == b"\r\n\r\n").ok_or("reference without head")?;
    let body = &full[h + 4..];
    if let Some(k) = out.windows(4).position(|w| w == b"\r\n\r\n") {
        if k != h {
            return Err(format!("a head of {} bytes, expected {}", k + 4, h + 4));
        }
        let b = &out[k + 4..];
        if !body.starts_with(b) {
            return Err("the body delivered is not a prefix of the body".into());
        }
    } else if out.len() >= h + 4 {
        return Err("no end of the head".into());
    }
    let lines = |x: &[u8]| -> Vec<Vec<u8>> {
        let mut v = vec![vec![]];
        let mut i = 0;
        while i < x.len() {
            if x[i..].starts_with(b"\r\n") {
                v.push(vec![]);
                i += 2
            } else {
                v.last_mut().unwrap().push(x[i]);
                i += 1
            }
        }
        v
    };
    let mut want = lines(&full[..h]);
    let have = lines(&out[..out.len().min(h)]);
    for (n, l) in have.iter().enumerate() {
        let last = n + 1 == have.len() && out.len() < h + 4;
        let cr = last && l.last() == Some(&b'\r');
        let l2 = if cr { &l[..l.len() - 1] } else { &l[..] };
        let ok = want.iter().position(|w| if last && !cr { w.starts_with(l2) } else { w == l2 });
        match ok {
            Some(p) => {
                if n == 0 && p != 0 {
                    return Err("the status line is not first".into());
                }
                want.remove(p);
            }
            None => return Err(format!("line {:?} does not belong to the response", String::from_utf8_lossy(l))),
        }
    }
    Ok(())
}

pub fn judge13(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let base = &c.base.unwrap().conns[0];
    model::answer(base, false).map_err(|e| format!("everything accepted at once: {}", e))?;
    let cr = &c.res.conns[0];
    let conn = &c.exec.conns[0];
    let broken = conn.output.iter().take(cr.sends).any(|o| matches!(o, Out::Err(_) | Out::Fail(_)));
    let reset = conn.input.iter().any(|i| matches!(i, In::Reset(_) | In::Fail(_)));
    prefix_of(&cr.out, &base.out)?;
    if !cr.closed {
        return Err("the connection was not ended".into());
    }
    if !broken && !reset && cr.out.len() != base.out.len() {
        return Err(format!("{} of {} bytes delivered", cr.out.len(), base.out.len()));
    }
    Ok(true)
}

pub fn c13(t: bool) -> Vec<Box<dyn Family>> {
    let f = files(false);
    let bodies: Arc<Vec<Vec<H>>> = Arc::new(vec![
        vec![H::Send(b"x".to_vec())],
        vec![H::Send(vec![])],
        vec![H::SendPattern(100)],
        vec![H::SendPattern(2047)],
        vec![H::SendPattern(2048)],
        vec![H::SendPattern(2049)],
        vec![H::SendPattern(4096)],
        vec![H::SendPattern(4097)],
        vec![H::SendPattern(6500)],
        vec![H::SendFile(format!("{}/s2051.bin", f.dir))],
        vec![H::SendFile(format!("{}/s6147.bin", f.dir))],
        vec![H::Cookie(s("a"), s("b"), 3), H::Set(s("X"), s("y")), H::SendPattern(9000)],
        vec![], // the 404 page
    ]);
    let nb = bodies.len();
    let app = {
        let bodies = bodies.clone();
        move |i: usize| AppSpec::one(bodies[i].clone())
    };
    let base = |_i: usize| simple(&get("/"));
    let mut v = vec![];
    // answer sequences
    let answers = [Out::All, Out::N(1), Out::N(7), Out::N(2047), Out::Block];
    let d = if t { 7 } else { 5 };
    let mut execs = vec![];
    for n in 0..seqs(answers.len(), d) {
        let q = seq(answers.len(), n);
        let mut c = conn(&get("/"));
        c.output = q.iter().map(|x| answers[*x].clone()).collect();
        execs.push(one(c));
    }
    v.push(Fam::grid(&format!("answer sequences up to {}", d), nb, app.clone(), execs, judge13).base(base).boxed());
    // uniform partial writes to the very end
    let mut execs = vec![];
    let ks: Vec<usize> = if t { (1..=300).chain([511, 512, 1000, 2047, 2048, 2049, 4095, 4096]).collect() } else { (1..=40).chain([63, 64, 65, 511, 512, 1000, 2047, 2048, 2049, 4096]).collect() };
    for k in ks {
        for block in [0, 1, 3] {
            let mut c = conn(&get("/"));
            for n in 0..12000 {
                c.output.push(Out::N(k));
                if block > 0 && n % block == 0 {
                    c.output.push(Out::Block)
                }
            }
            execs.push(one(c));
        }
    }
    v.push(Fam::grid("at most k bytes per send", nb, app.clone(), execs, judge13).base(base).boxed());
    // every prefix length accepted by the first send(s)
    let mut execs = vec![];
    for k in 1..(if t { 4000 } else { 400 }) {
        for tail in 0..3 {
            let mut c = conn(&get("/"));
            c.output = match tail {
                0 => vec![Out::N(k), Out::Block],
                1 => vec![Out::N(k), Out::Block, Out::Block, Out::N(k)],
                _ => vec![Out::Block, Out::N(k), Out::N(1), Out::Block],
            };
            execs.push(one(c));
        }
    }
    v.push(Fam::grid("every length of the first partial write", nb, app.clone(), execs, judge13).base(base).boxed());
    // a failure at every send position
    let mut execs = vec![];
    for e in [Out::Err(libc::EPIPE), Out::Err(libc::ECONNRESET), Out::Err(libc::ETIMEDOUT), Out::Fail(libc::ENOBUFS), Out::Fail(libc::ENOMEM)] {
        for k in [1usize, 50, 700, 100_000] {
            for pos in 0..(if t { 60 } else { 14 }) {
                for block in [false, true] {
                    let mut c = conn(&get("/"));
                    for n in 0..pos {
                        c.output.push(if block && n % 2 == 1 { Out::Block } else { Out::N(k) })
                    }
                    c.output.push(e.clone());
                    execs.push(one(c));
                }
            }
        }
    }
    v.push(Fam::grid("a failing write at every position", nb, app.clone(), execs, judge13).base(base).boxed());
    // the client resets or half-closes while the server is blocked, at every point of the order
    let mut execs = vec![];
    for end in [In::Eof, In::Reset(libc::ECONNRESET), In::Fail(libc::ECONNRESET), In::Data(b"GET /more HTTP/1.1\r\n\r\n".to_vec())] {
        for pat in 0..seqs(3, 4) {
            let q = seq(3, pat);
            let mut c = conn(&get("/"));
            c.output = q.iter().map(|x| [Out::Block, Out::N(9), Out::N(1500)][*x].clone()).collect();
            c.input.push(end.clone());
            execs.push(one(c));
        }
    }
    v.push(Fam::grid("client events while the response is sent", nb, app, execs, judge13).base(base).devs(usize::MAX).boxed());
    v
}

// ---------------------------------------------------------------- C14

fn judge14(c: &Ctx) -> Result<bool, String> {
    // what the calls reported
    let mut calls = vec![];
    for st in &c.app.steps {
        if let Step::Reg(r) = st {
            for o in &r.ops {
                if let H::SendFile(p) = o {
                    calls.push(p.clone())
                }
            }
        }
    }
    let notes: Vec<bool> = c
        .res
        .log
        .iter()
        .filter_map(|e| if let Ev::Note(n) = e { n.strip_prefix("send_file ").map(|x| x == "ok") } else { None })
        .collect();
    for (p, ok) in calls.iter().zip(&notes) {
        let want = lookup(p).is_some();
        if *ok != want {
            return Err(format!("send_file({:?}) {}", p, if *ok { "succeeded" } else { "failed" }));
        }
    }
    judge_ops(c)
}

pub fn c14(t: bool) -> Vec<Box<dyn Family>> {
    let f = files(t);
    let dir = f.dir.clone();
    let mut v = vec![];
    let sz = Arc::new(sizes(t));
    // sizes x read splits
    {
        let sz = sz.clone();
        let dir = dir.clone();
        let mut execs = vec![];
        let rs = [0usize, 1, 7, 2047];
        for n in 0..seqs(rs.len(), if t { 5 } else { 3 }) {
            let mut e = simple(&get("/"));
            e.file_reads = seq(rs.len(), n).into_iter().map(|x| rs[x]).collect();
            execs.push(e);
        }
        for k in [1usize, 2, 3, 10, 100, 511, 513] {
            let mut e = simple(&get("/"));
            e.file_reads = vec![k; 6000];
            execs.push(e);
        }
        v.push(
            Fam::grid(
                "sizes x how the file reads are split",
                sz.len(),
                move |i| AppSpec::one(vec![H::SendFile(format!("{}/s{}.bin", dir, sz[i]))]),
                execs,
                judge14,
            )
            .env(|_, s| s.file_fds = true)
            .boxed(),
        );
    }
    // files too large for 32 bits: the head, and the first bytes
    {
        let dir = dir.clone();
        let bits = [31u32, 32, 33, 40];
        let offs = [-1i64, 0, 1, 5];
        let size = move |i: usize| ((1i64 << bits[i % 4]) + offs[i / 4]) as u64;
        let mut execs = vec![simple(&request("HEAD", "/")), simple(&get("/"))];
        execs[0].conns[0].output = vec![Out::N(1 << 20), Out::Err(libc::EPIPE)];
        execs[1].conns[0].output = vec![Out::N(1 << 20), Out::N(5000), Out::Err(libc::EPIPE)];
        v.push(
            Fam::grid(
                "huge files",
                16,
                move |i| AppSpec::one(vec![H::SendFile(format!("{}/huge{}.css", dir, size(i)))]),
                execs,
                move |c| {
                    model::no_panics(c.res)?;
                    let out = &c.res.conns[0].out;
                    let head = out.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no response head")?;
                    let r = http::split(&[&out[..head + 4]].concat()).map_err(|e| format!("malformed response: {}", e))?;
                    if r.code != 200 || r.all("content-length") != [size(c.i).to_string()] || r.all("content-type") != ["text/css"] {
                        return Err(format!("a file of {} bytes: {} {:?}", size(c.i), r.code, r.headers));
                    }
                    if out[head + 4..].iter().any(|b| *b != 0) || (c.j == 0) != (out.len() == head + 4) {
                        return Err("the body is not the beginning of the file".into());
                    }
                    Ok(true)
                },
            )
            .boxed(),
        );
    }
    // another process adds to the file, replaces or deletes it before any call that concerns it
    {
        let dir = dir.clone();
        let dir2 = dir.clone();
        let sizes = [0usize, 1, 2047, 2048, 2049, 6147];
        let evs = [FileEv::Append(1), FileEv::Append(3000), FileEv::Replace(0), FileEv::Replace(5), FileEv::Replace(5000), FileEv::Delete];
        let pos = 10usize;
        let k = pos * evs.len();
        let mut execs = vec![];
        for m in ["GET", "HEAD"] {
            for n in 0..seqs(k, 2) {
                let q: Vec<(usize, FileEv)> = seq(k, n).into_iter().map(|x| (x / evs.len(), evs[x % evs.len()])).collect();
                if q.len() == 2 && q[0].0 > q[1].0 {
                    continue;
                }
                let mut e = simple(&request(m, "/"));
                e.file_events = q;
                execs.push(e);
            }
        }
        v.push(
            Fam::grid(
                "another process changes the file",
                sizes.len(),
                move |_| AppSpec::one(vec![H::SendFile(format!("{}/live.css", dir))]),
                execs,
                move |c| {
                    model::no_panics(c.res)?;
                    let mut states = vec![Some(file_bytes(sizes[c.i], 1))];
                    for (_, e) in &c.exec.file_events {
                        states.push(e.apply(states.last().unwrap().clone()))
                    }
                    let head = model::stream(&c.exec.conns[0]).0.starts_with(b"HEAD ");
                    let r = model::answer(&c.res.conns[0], head)?;
                    if c.res.log.contains(&Ev::Note("send_file err".into())) {
                        if states.iter().all(|s| s.is_some()) {
                            return Err("the file was always there, but sending it failed".into());
                        }
                        return if r.code == 404 { Ok(true) } else { Err(format!("status {} after a failed send_file", r.code)) };
                    }
                    let same = |b: &Vec<u8>| if head { r.get("content-length") == Some(b.len().to_string().as_str()) } else { *b == r.body };
                    if r.code != 200 || r.all("content-type") != ["text/css"] || !states.iter().flatten().any(same) {
                        return Err(format!("status {}, type {:?}, a body of {} bytes that the file never was", r.code, r.all("content-type"), r.body.len()));
                    }
                    Ok(true)
                },
            )
            .env(move |i, s| s.live = Some((dir2.clone(), sizes[i])))
            .boxed(),
        );
    }
    // socket answers while the file is sent
    {
        let dir = dir.clone();
        let sz = [0usize, 1, 70, 2045, 2048, 2051, 4096, 6147, 65537];
        let outs = [Out::All, Out::N(1), Out::N(1000), Out::Block];
        let mut execs = vec![];
        for n in 0..seqs(4, if t { 6 } else { 4 }) {
            let mut e = simple(&get("/"));
            e.conns[0].output = seq(4, n).into_iter().map(|x| outs[x].clone()).collect();
            e.file_reads = vec![700, 0, 3];
            execs.push(e);
        }
        v.push(
            Fam::grid(
                "sizes x socket answers",
                sz.len(),
                move |i| AppSpec::one(vec![H::SendFile(format!("{}/s{}.bin", dir, sz[i]))]),
                execs,
                judge14,
            )
            .env(|_, s| s.file_fds = true)
            .boxed(),
        );
    }
    // types
    {
        let dir = dir.clone();
        let ns = names();
        v.push(
            Fam::grid(
                "every known extension in three spellings, and unknown ones",
                ns.len(),
                move |i| AppSpec::one(vec![H::SendFile(format!("{}/{}", dir, ns[i]))]),
                vec![simple(&get("/"))],
                judge14,
            )
            .boxed(),
        );
    }
    {
        let ns = names();
        v.push(
            Fam::grid(
                "attachment file names",
                ns.len(),
                move |i| AppSpec::one(vec![H::AttachmentFilename(ns[i].clone()), H::Send(b"x".to_vec())]),
                vec![simple(&get("/"))],
                |c| {
                    // only the type: how the file name is written is not part of this property
                    model::no_panics(c.res)?;
                    let m = replay(c.app, &c.res.log);
                    let r = model::answer(&c.res.conns[0], false)?;
                    let want = &m.headers.iter().find(|h| h.0 == "content-type").unwrap().1;
                    if r.all("content-type") != [want.as_str()] {
                        return Err(format!("Content-Type {:?}, expected {:?}", r.all("content-type"), want));
                    }
                    Ok(true)
                },
            )
            .boxed(),
        );
    }
    // failing paths and other operations around
    {
        let mut ops = vec![
            H::Send(b"before".to_vec()),
            H::WithType(s("a/b")),
            H::Set(s("X-A"), s("1")),
            H::Status(st(404)),
            H::Set(s("content-type"), s("c/d")),
            H::Set(s("content-length"), s("3")),
            H::SendFile(format!("{}/f.css", dir)),
            H::SendFile(format!("{}/s2048.bin", dir)),
            H::SendFile(format!("{}/link.html", dir)),
        ];
        for p in ["nothing.html", "dir.html", "dir.html/", "dangling.html", "dirlink", "sock.html", "f.css/x", "a\0b", "fifo.html"] {
            ops.push(H::SendFile(format!("{}/{}", dir, p)))
        }
        ops.push(H::SendFile(String::new()));
        ops.push(H::SendFile(s("/dev/null")));
        ops.push(H::SendFile("x".repeat(5000)));
        let ops = Arc::new(ops);
        let k = ops.len();
        let d = if t { 4 } else { 3 };
        v.push(
            Fam::grid(
                "files, failing paths and other operations in sequence",
                seqs(k, d),
                move |i| AppSpec::one(seq(k, i).into_iter().map(|x| ops[x].clone()).collect()),
                vec![simple(&get("/"))],
                judge14,
            )
            .boxed(),
        );
    }
    v
}

// ---------------------------------------------------------------- C17

/// Year, month, day and weekday of every day since 1970, by stepping a calendar.
pub fn calendar() -> &'static Vec<(u16, u8, u8, u8)> {
    static C: OnceLock<Vec<(u16, u8, u8, u8)>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::with_capacity(if cfg!(feature = "mt") { 11_000 } else { 2_940_000 });
        let mut wd = 4; // Thursday
        for y in 1970u16..=(if cfg!(feature = "mt") { 1999 } else { 9999 }) {
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            for m in 1..=12u8 {
                let n = match m {
                    2 => 28 + leap as u8,
                    4 | 6 | 9 | 11 => 30,
                    _ => 31,
                };
                for d in 1..=n {
                    v.push((y, m, d, wd));
                    wd = (wd + 1) % 7;
                }
            }
        }
        v
    })
}
pub fn date(t: i64) -> String {
    let (y, m, d, w) = calendar()[(t / 86400) as usize];
    let x = t % 86400;
    format!(
        "{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT",
        ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"][w as usize],
        d,
        ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1],
        y,
        x / 3600,
        x / 60 % 60,
        x % 60
    )
}

fn judge17(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let r = http::split(&c.res.conns[0].out).map_err(|e| format!("malformed response: {}", e))?;
    let d = r.all("date");
    let want = date(c.exec.now.unwrap());
    if d != [want.as_str()] {
        return Err(format!("Date {:?} at {}, expected {:?}", d, c.exec.now.unwrap(), want));
    }
    Ok(true)
}

pub fn c17(t: bool) -> Vec<Box<dyn Family>> {
    let days = calendar().len();
    let at = |now: i64| Exec { now: Some(now), ..simple(b"GET / HTTP/1.0\r\n\r\n") };
    let app = AppSpec::one(vec![H::Send(b"x".to_vec())]);
    let mut v = vec![];
    v.push(
        Fam::inputs(
            "every day from 1970 to 9999, at a different second each",
            app.clone(),
            days,
            move |i| at(i as i64 * 86400 + (i as i64 * 36_529 % 86400)),
            judge17,
        )
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "first and last second around every month end",
            app.clone(),
            2 * 12 * 8030,
            {
                let ends: Vec<usize> = calendar().iter().enumerate().filter(|x| x.1 .2 == 1).map(|x| x.0).collect();
                move |i| at(ends[i / 2] as i64 * 86400 - (i % 2 == 1 && i > 1) as i64)
            },
            judge17,
        )
        .boxed(),
    );
    let whole: &[i64] = if t { &[0, 10957 + 59, 11016, 19782, 2932896, 47541, 47540] } else { &[11016] };
    for &d in whole {
        v.push(
            Fam::inputs(&format!("every second of day {}", d), app.clone(), 86400, move |i| at(d * 86400 + i as i64), judge17)
                .boxed(),
        );
    }
    // the other answers that carry a date
    v.push(
        Fam::grid(
            "error pages and repeated sends",
            8,
            |i| {
                let old = || H::Set(s("Date"), date(784_111_777));
                AppSpec::one(match i {
                    3 => vec![old(), H::Send(b"b".to_vec())],
                    4 => vec![H::Set(s("date"), s("never")), H::SendFile(format!("{}/s70.bin", files(false).dir))],
                    5 => vec![old(), H::Status(3), H::DefaultHeaders],
                    6 => vec![H::SendFile(format!("{}/s70.bin", files(false).dir))],
                    7 => vec![H::Send(b"a".to_vec()), old(), H::Redirect(s("/")), H::Send(b"a".to_vec())],
                    0 => vec![],
                    1 => vec![H::Send(b"a".to_vec()), H::Send(b"b".to_vec())],
                    _ => vec![H::DefaultHeaders, H::Status(3), H::Send(b"b".to_vec())],
                })
            },
            (0..2000).map(|i| at(i * 126_230_401)).collect(),
            judge17,
        )
        .boxed(),
    );
    if t {
        for k in 1..4i64 {
            v.push(
                Fam::inputs(
                    &format!("every day at other seconds, {}", k),
                    app.clone(),
                    days,
                    move |i| at(i as i64 * 86400 + (i as i64 * 36_529 + k * 21_601) % 86400),
                    judge17,
                )
                .boxed(),
            );
        }
    }
    v
}

// ---------------------------------------------------------------- C20

pub fn judge20(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let m = replay(c.app, &c.res.log);
    let r = http::split(&c.res.conns[0].out).map_err(|e| format!("malformed response: {}", e))?;
    if m.body.is_none() {
        if (r.code, r.reason.as_str()) != (404, "NOT FOUND") {
            return Err(format!("{} {} without a body", r.code, r.reason));
        }
        return Ok(true);
    }
    if (r.code, &r.reason, &r.version) != (m.code, &m.reason, &m.version) {
        return Err(format!(
            "status line HTTP/{} {} {}, expected HTTP/{} {} {}",
            r.version, r.code, r.reason, m.version, m.code, m.reason
        ));
    }
    // codes whose answers have no body by definition are left alone
    if m.code >= 200 && m.code != 204 && m.code != 205 && m.code != 304 {
        response_is(&m, &c.res.conns[0], false, 784111777)?;
    }
    Ok(true)
}

pub fn c20(t: bool) -> Vec<Box<dyn Family>> {
    let n = crate::status::all().len();
    let mut v = vec![];
    let around: Arc<Vec<Vec<H>>> = Arc::new(vec![
        vec![],
        vec![H::Set(s("X-A"), s("1"))],
        vec![H::WithType(s("a/b")), H::Cookie(s("c"), s("d"), 1)],
        vec![H::SendFile(format!("{}/s70.bin", files(false).dir))],
    ]);
    v.push(
        Fam::grid(
            "named codes x versions x operations x order",
            n * 4 * 4 * 3,
            move |i| {
                let m = mixed(i, &[4, 4, 3, n]);
                let mut o = around[m[1]].clone();
                o.push(H::Version(m[0]));
                let send = H::Send(b"body".to_vec());
                let status = H::Status(m[3]);
                match m[2] {
                    0 => o.extend([status, send]),
                    1 => o.extend([send, status]),
                    _ => o.extend([H::Status((m[3] + 1) % n), status, send]),
                }
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            judge20,
        )
        .boxed(),
    );
    let reasons = ["Reason", "I'm a teapot", "x", "MiXed cAse 12", "caf\u{e9}", ""];
    v.push(
        Fam::grid(
            "custom codes 100..=999 x reasons",
            900 * reasons.len(),
            move |i| AppSpec::one(vec![H::StatusOther(100 + (i / reasons.len()) as i32, s(reasons[i % reasons.len()])), H::Send(b"b".to_vec())]),
            vec![simple(&get("/"))],
            judge20,
        )
        .boxed(),
    );
    // numbers no other code has
    let mut odd: Vec<i32> = (-120..=99).chain(1000..=1300).collect();
    for b in 7..31 {
        for d in -2..=2 {
            odd.push((1i32 << b) + d);
            odd.push(-(1i32 << b) + d)
        }
    }
    odd.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 9999, 10000, 99999, 100000]);
    let odd = Arc::new(odd);
    let o2 = odd.clone();
    v.push(
        Fam::grid(
            "custom codes of any size",
            odd.len() * 2,
            move |i| AppSpec::one(vec![H::StatusOther(o2[i / 2], s(["Some reason", ""][i % 2])), H::Send(b"b".to_vec())]),
            vec![simple(&get("/"))],
            move |c| {
                model::no_panics(c.res)?;
                let out = &c.res.conns[0].out;
                let line = out.split(|b| *b == b'\r').next().unwrap_or(&[]);
                let line = String::from_utf8_lossy(line);
                let want = format!("HTTP/1.1 {} {}", odd[c.i / 2], ["SOME REASON", ""][c.i % 2]);
                if line != want {
                    return Err(format!("status line {:?}, expected {:?}", line, want));
                }
                Ok(true)
            },
        )
        .boxed(),
    );
    // pairs: the last one wins, over handlers as well
    v.push(
        Fam::grid(
            "pairs of codes over two handlers",
            n * n,
            move |i| {
                AppSpec::default()
                    .reg(Kind::Mw, "", vec![H::Status(i % n), H::Send(b"1".to_vec())], false)
                    .reg(Kind::Mw, "", vec![H::Status(i / n)], true)
            },
            vec![simple(&get("/"))],
            judge20,
        )
        .boxed(),
    );
    // redirects and no body
    v.push(
        Fam::grid(
            "redirect before and after, and no body at all",
            n * 3,
            move |i| {
                AppSpec::one(match i % 3 {
                    0 => vec![H::Redirect(s("/x")), H::Status(i / 3), H::Send(b"1".to_vec())],
                    1 => vec![H::Status(i / 3), H::Redirect(s("/x")), H::Send(b"1".to_vec())],
                    _ => vec![H::Status(i / 3)],
                })
            },
            vec![simple(&get("/"))],
            judge20,
        )
        .boxed(),
    );
    // numbers directly
    v.push(
        Fam::inputs(
            "numbers of the named codes",
            AppSpec::one(vec![]),
            n,
            |_| simple(&get("/")),
            |c| {
                let a = crate::status::all();
                let (code, num, _) = a[c.j];
                let have: i32 = code.into();
                if have != num {
                    return Err(format!("{:?} is {}, expected {}", code, have, num));
                }
                Ok(true)
            },
        )
        .boxed(),
    );
    let _ = t;
    v
}

// ---------------------------------------------------------------- C24

pub fn judge24(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let b = &c.base.unwrap().conns[0];
    let want = http::split(&b.out).map_err(|e| format!("malformed response to the GET request: {}", e))?;
    let cr = &c.res.conns[0];
    let have = http::split(&cr.out).map_err(|e| format!("malformed response: {}", e))?;
    if !have.body.is_empty() {
        return Err(format!("{} bytes after the head in answer to HEAD", have.body.len()));
    }
    if !cr.closed {
        return Err("the connection was not ended".into());
    }
    if (have.code, &have.reason, &have.version) != (want.code, &want.reason, &want.version) {
        return Err(format!("status {} {}, with GET it is {} {}", have.code, have.reason, want.code, want.reason));
    }
    if have.sorted() != want.sorted() {
        return Err(format!("header fields {:?}, with GET they are {:?}", have.sorted(), want.sorted()));
    }
    let cl = have.all("content-length");
    if cl.len() != 1 || cl[0].parse::<usize>().is_err() {
        return Err(format!("Content-Length {:?}", cl));
    }
    if want.body.len().to_string() != cl[0] {
        return Err(format!("Content-Length {}, the body has {} bytes", cl[0], want.body.len()));
    }
    Ok(true)
}

pub fn c24(t: bool) -> Vec<Box<dyn Family>> {
    let mut ops = ops10();
    // an explicit length after the body is not specified
    ops.retain(|o| !matches!(o, H::Set(k, _) if k.eq_ignore_ascii_case("content-length")));
    let ops = Arc::new(ops);
    let k = ops.len();
    let d = if t { 4 } else { 3 };
    let mut v = vec![];
    v.push(
        Fam::grid(
            "operation sequences, HEAD against GET",
            seqs(k, d),
            move |i| AppSpec::one(seq(k, i).into_iter().map(|x| ops[x].clone()).collect()),
            vec![simple(&request("HEAD", "/")), {
                let mut e = simple(&request("HEAD", "/"));
                e.conns[0].output = vec![Out::N(5), Out::Block, Out::N(1)];
                e
            }],
            judge24,
        )
        .base(|_| simple(&get("/")))
        .boxed(),
    );
    v.push(
        Fam::grid(
            "body sizes, HEAD against GET",
            if t { 9000 } else { 2200 },
            |i| AppSpec::one(vec![H::SendPattern(i)]),
            vec![simple(&request("HEAD", "/"))],
            judge24,
        )
        .base(|_| simple(&get("/")))
        .boxed(),
    );
    // head routes, absent routes and refused requests
    let reqs: Vec<(&str, u32)> = vec![
        ("HEAD /h HTTP/1.1\r\nHost: h\r\n\r\n", 200),
        ("HEAD /h HTTP/1.0\r\n\r\n", 200),
        ("HEAD /h?q=1 HTTP/1.1\r\nHost: h\r\n\r\n", 200),
        ("HEAD /none HTTP/1.1\r\nHost: h\r\n\r\n", 404),
        ("HEAD /none HTTP/1.0\r\n\r\n", 404),
        ("HEAD /getonly HTTP/1.1\r\nHost: h\r\n\r\n", 404),
        ("HEAD /h HTTP/1.1\r\n\r\n", 400),
        ("HEAD /h HTTP/1.1\r\nA: b\r\n\r\n", 400),
        ("HEAD /h HTTP/1.1\r\nHost: h\r\nContent-Length: x\r\n\r\n", 400),
        ("HEAD /h HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc", 200),
        ("HEAD /all HTTP/1.1\r\nHost: h\r\n\r\n", 200),
        ("HEAD /big HTTP/1.1\r\nHost: h\r\n\r\n", 200),
    ];
    let r2 = reqs.clone();
    v.push(
        Fam::inputs(
            "HEAD routes, absent routes and refused requests",
            AppSpec::default()
                .reg(Kind::Head, "/h", vec![H::Send(b"head body".to_vec())], true)
                .reg(Kind::Get, "/getonly", vec![H::Send(b"get".to_vec())], true)
                .reg(Kind::All, "/all", vec![H::SendFile(format!("{}/s2051.bin", files(false).dir))], true)
                .reg(Kind::Head, "/big", vec![H::SendPattern(70000)], true),
            reqs.len() * 3,
            move |j| {
                let mut e = simple(r2[j / 3].0.as_bytes());
                match j % 3 {
                    0 => {}
                    1 => e.conns[0].input.push(In::Eof),
                    _ => {
                        let b = r2[j / 3].0.as_bytes();
                        e.conns[0].input = b.chunks(5).map(|c| In::Data(c.to_vec())).collect()
                    }
                }
                e
            },
            move |c| {
                model::no_panics(c.res)?;
                let r = model::answer(&c.res.conns[0], true)?;
                if r.code != reqs[c.j / 3].1 {
                    return Err(format!("status {}, expected {}", r.code, reqs[c.j / 3].1));
                }
                Ok(true)
            },
        )
        .boxed(),
    );
    // HEAD requests cut short or spoilt anywhere: the answer, whatever it is, has no body
    let spoilt: Vec<Vec<u8>> = ["HEAD /h HTTP/1.1\r\nHost: h\r\n\r\n", "HEAD /all?a=b HTTP/1.0\r\nA: b\r\nContent-Length: 3\r\n\r\nabc", "HEAD / HTTP/2.0\r\n\r\n"]
        .iter()
        .flat_map(|r| {
            let r = r.as_bytes();
            let mut v = vec![];
            for k in 5..=r.len() {
                v.push(r[..k].to_vec());
                for b in 0..=255u8 {
                    if k < r.len() {
                        let mut x = r.to_vec();
                        x[k] = b;
                        v.push(x)
                    }
                    let mut x = r.to_vec();
                    x.insert(k, b);
                    v.push(x)
                }
            }
            for n in [100, 1000, 1023, 1024, 1025, 5000, 70000] {
                v.push([b"HEAD /".as_ref(), &vec![b'x'; n]].concat());
                v.push([b"HEAD /".as_ref(), &vec![b'x'; n], b"\xff HTTP/1.1\r\n\r\n"].concat());
                v.push([b"HEAD /".as_ref(), &b"/..".repeat(n), b" HTTP/1.1\r\nHost: h\r\n\r\n"].concat());
                v.push([b"HEAD / HTTP/1.1\r\n".as_ref(), &b"A: b\r\n".repeat(n), b"\r\n"].concat());
                v.push([b"HEAD / HTTP/1.1\r\n".as_ref(), &b"A: b\r\n".repeat(n)].concat());
            }
            v
        })
        .collect();
    v.push(
        Fam::inputs(
            "HEAD requests cut short or changed in any byte",
            AppSpec::default()
                .reg(Kind::Head, "/h", vec![H::Send(b"head body".to_vec())], true)
                .reg(Kind::All, "/all", vec![H::SendFile(format!("{}/s2051.bin", files(false).dir))], true),
            spoilt.len(),
            move |j| one(conn(&spoilt[j]).eof()),
            |c| {
                model::no_panics(c.res)?;
                model::answer(&c.res.conns[0], true)?;
                Ok(true)
            },
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- C25

pub const POS: usize = 12;

pub fn op25(pos: usize, x: &str) -> Vec<H> {
    match pos {
        0 => vec![H::Set(x.into(), s("v"))],
        1 => vec![H::Set(s("X-A"), x.into())],
        2 => vec![H::Cookie(x.into(), s("v"), 0)],
        3 => vec![H::Cookie(s("c"), x.into(), 0)],
        4 => vec![H::Charset(x.into())],
        5 => vec![H::WithType(x.into())],
        6 => vec![H::Redirect(x.into())],
        7 => vec![H::StatusOther(299, x.into())],
        8 => vec![H::AttachmentFilename(x.into())],
        9 => vec![H::Insert(s("X-A"), x.into())],
        10 => vec![H::Insert(x.into(), s("v"))],
        _ => vec![H::Set(s("X-A"), x.into()), H::Cookie(s("c"), x.into(), 13), H::Redirect(x.into())],
    }
}

pub fn judge25(c: &Ctx, pos: usize, x: &str) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let r = model::answer(&c.res.conns[0], false)?;
    if r.body != b"the body" {
        return Err(format!("body {:?}", String::from_utf8_lossy(&r.body)));
    }
    let code = match pos {
        6 | 11 => 302,
        7 => 299,
        _ => 200,
    };
    if r.code != code || r.version != "1.1" {
        return Err(format!("status line HTTP/{} {}", r.version, r.code));
    }
    let mut allowed: Vec<&str> = vec!["content-length", "content-type", "date", "x-before"];
    match pos {
        1 | 9 => allowed.push("x-a"),
        2 | 3 => allowed.push("set-cookie"),
        6 => allowed.push("location"),
        8 => allowed.push("content-disposition"),
        11 => allowed.extend(["x-a", "set-cookie", "location"]),
        _ => {}
    }
    let mut extra = 0;
    for n in &allowed {
        if r.all(n).len() > 1 {
            return Err(format!("{} fields {}", r.all(n).len(), n));
        }
    }
    for h in &r.headers {
        if allowed.iter().any(|a| h.0.eq_ignore_ascii_case(a)) {
            continue;
        }
        extra += 1;
        if !(pos == 0 || pos == 10) || h.1 != "v" {
            return Err(format!("a field {:?} nobody set", h));
        }
        if !x.is_empty() && x.bytes().all(http::is_token) && !h.0.eq_ignore_ascii_case(x) {
            return Err(format!("field {:?} instead of {:?}", h, x));
        }
    }
    if extra > 1 {
        return Err(format!("{} extra fields", extra));
    }
    if r.all("x-before") != ["before"] {
        return Err(format!("X-Before is {:?}", r.all("x-before")));
    }
    if r.all("date") != [date(784111777).as_str()] {
        return Err(format!("Date is {:?}", r.all("date")));
    }
    if pos != 4 && pos != 5 && pos != 8 && r.all("content-type") != ["text/html"] {
        return Err(format!("Content-Type is {:?}", r.all("content-type")));
    }
    // harmless strings arrive unchanged
    let clean = !x.is_empty() && !x.chars().any(|c| c.is_control());
    let t = x.trim_matches(|c| c == ' ' || c == '\t');
    if clean {
        let ok = match pos {
            0 | 10 => !x.bytes().all(http::is_token) || r.all(x) == ["v"],
            1 | 9 => r.all("x-a") == [t],
            3 => !x.bytes().all(|c| c.is_ascii_alphanumeric()) || r.all("set-cookie") == [format!("c={}", x)],
            5 => r.all("content-type") == [t],
            6 => r.all("location") == [t],
            7 => r.reason.trim_matches(|c| c == ' ' || c == '\t') == t.to_uppercase(),
            _ => true,
        };
        if !ok {
            return Err(format!("{:?} in place {} came out as {:?} {:?}", x, pos, r.reason, r.headers));
        }
    }
    Ok(true)
}

pub fn c25(t: bool) -> Vec<Box<dyn Family>> {
    let alpha: Vec<char> = vec!['\r', '\n', '\0', ':', ' ', 'a', ';', '"', '\u{e9}', '\t', '\u{7f}', '='];
    let k = alpha.len();
    let d = if t { 4 } else { 3 };
    let n = seqs(k, d);
    let alpha = Arc::new(alpha);
    let text = {
        let alpha = alpha.clone();
        move |i: usize| -> String { seq(k, i).into_iter().map(|x| alpha[x]).collect() }
    };
    let text2 = text.clone();
    let mut v = vec![];
    v.push(
        Fam::grid(
            &format!("strings up to {} in every place", d),
            n * POS,
            move |i| {
                let mut o = vec![H::Set(s("X-Before"), s("before"))];
                o.extend(op25(i % POS, &text(i / POS)));
                o.push(H::Send(b"the body".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            move |c| judge25(c, c.i % POS, &text2(c.i / POS)),
        )
        .boxed(),
    );
    // complete injections, set before and after the body
    let inj: Vec<String> = {
        let nl = ["\r\n", "\n", "\r", "\r\n ", "\r\r\n", "\n\r", "\0\r\n", "\u{a}\u{a}", "\u{85}", "\u{2028}", "\u{560d}\u{560a}", "\x0b", "\x0c"];
        let what = ["", "X-Evil: 1", "Content-Length: 0", "Set-Cookie: evil=1", "Content-Length: 0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n", "\r\nbody", " folded"];
        let pre = ["", "v", "v; w", "\t"];
        let mut v = vec![];
        for p in pre {
            for n in nl {
                for w in what {
                    v.push(format!("{}{}{}", p, n, w));
                    v.push(format!("{}{}{}{}", p, n, w, n));
                }
            }
        }
        v
    };
    let inj = Arc::new(inj);
    let inj2 = inj.clone();
    v.push(
        Fam::grid(
            "injections in every place, before and after the body",
            inj.len() * POS * 2,
            move |i| {
                let m = mixed(i, &[POS, 2, inj.len()]);
                let mut o = vec![H::Set(s("X-Before"), s("before"))];
                let send = H::Send(b"the body".to_vec());
                if m[1] == 0 {
                    o.extend(op25(m[0], &inj[m[2]]));
                    o.push(send);
                } else {
                    o.push(send);
                    o.extend(op25(m[0], &inj[m[2]]));
                }
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            move |c| {
                let m = mixed(c.i, &[POS, 2, inj2.len()]);
                judge25(c, m[0], &inj2[m[2]])
            },
        )
        .boxed(),
    );
    // every code point up to U+02FF, and every control character
    v.push(
        Fam::grid(
            "every character in every place",
            0x300 * POS,
            |i| {
                let x: String = format!("p{}q", char::from_u32((i / POS) as u32).unwrap());
                let mut o = vec![H::Set(s("X-Before"), s("before"))];
                o.extend(op25(i % POS, &x));
                o.push(H::Send(b"the body".to_vec()));
                AppSpec::one(o)
            },
            vec![simple(&get("/"))],
            |c| judge25(c, c.i % POS, &format!("p{}q", char::from_u32((c.i / POS) as u32).unwrap())),
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- C29

fn judge29(c: &Ctx) -> Result<bool, String> {
    judge_ops(c)?;
    // the handler learns whether its structure could be written
    let mut want = vec![];
    for e in &c.res.log {
        if let Ev::Run(n) = e {
            if let Step::Reg(r) = &c.app.steps[*n] {
                for o in &r.ops {
                    if let H::Json(k) = o {
                        want.push(format!("json {}", if json_of(*k).is_some() { "ok" } else { "err" }))
                    }
                }
            }
        }
    }
    let got: Vec<String> =
        c.res.log.iter().filter_map(|e| if let Ev::Note(n) = e { n.starts_with("json ").then(|| n.clone()) } else { None }).collect();
    if got != want {
        return Err(format!("json() reported {:?}, expected {:?}", got, want));
    }
    Ok(!want.is_empty())
}

pub fn c29(_t: bool) -> Vec<Box<dyn Family>> {
    let n = 4 * seqs(JSON_LEAVES, if deep() { 5 } else { 4 });
    let mut v = vec![Fam::grid("structures", n, move |i| AppSpec::one(vec![H::Json(i as u32)]), vec![simple(&get("/"))], judge29).boxed()];
    v.push(
        Fam::grid(
            "every character as text and as key",
            0x11_0000,
            |i| AppSpec::one(vec![H::Json(json_char(i as u32))]),
            vec![simple(&get("/"))],
            judge29,
        )
        .boxed(),
    );
    {
        let ms: Vec<usize> = scale::marks(if deep() { 70_000 } else { 5000 });
        let k = ms.len();
        v.push(
            Fam::grid(
                "sizes and depths",
                4 * k,
                move |i| AppSpec::one(vec![H::Json(json_size((i % 4) as u32, ms[i / 4]))]),
                vec![simple(&get("/")), {
                    let mut e = simple(&get("/"));
                    e.conns[0].output = vec![Out::N(1), Out::Block, Out::N(700), Out::Block];
                    e
                }],
                judge29,
            )
            .boxed(),
        );
    }
    let mut ops = ops10();
    ops.extend([H::Json(0), H::Json(9), H::Json(2000), H::Json(JSON_FAIL), H::Json(JSON_FAIL + 1), H::Json(JSON_FAIL + 2), H::Json(JSON_FAIL + 3)]);
    let ops = Arc::new(ops);
    let k = ops.len();
    {
        let ops = ops.clone();
        v.push(
            Fam::grid(
                "operation sequences",
                seqs(k, if deep() { 4 } else { 3 }),
                move |i| AppSpec::one(seq(k, i).into_iter().map(|x| ops[x].clone()).collect()),
                vec![simple(&get("/"))],
                judge29,
            )
            .boxed(),
        );
    }
    v.push(
        Fam::grid(
            "operations spread over two handlers",
            k * k * k,
            move |i| {
                let q = mixed(i, &[k, k, k]);
                AppSpec { port: 80, ..Default::default() }
                    .reg(Kind::Mw, "", vec![ops[q[0]].clone()], false)
                    .reg(Kind::All, "/", vec![ops[q[1]].clone(), ops[q[2]].clone()], true)
            },
            vec![simple(&get("/")), simple(b"GET / HTTP/1.0\r\n\r\n"), simple(&request("HEAD", "/"))],
            judge29,
        )
        .boxed(),
    );
    v
}
