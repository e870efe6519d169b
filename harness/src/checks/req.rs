//! C05-C08, C12, C15, C16, C18, C22: what the handlers get to see of a request.
use super::*;
use crate::http;
use crate::model::{self, Expect, MReq};

pub fn seer() -> AppSpec {
    AppSpec::one(vec![H::See, H::Send(b"ok".to_vec())])
}

fn runs(log: &[Ev]) -> usize {
    log.iter().filter(|e| matches!(e, Ev::Run(_))).count()
}
fn seen(log: &[Ev]) -> Option<&Seen> {
    log.iter().find_map(|e| if let Ev::Seen(s) = e { Some(s.as_ref()) } else { None })
}

/// what to compare of a request
#[derive(Clone, Copy)]
pub struct Parts {
    pub line: bool,
    pub headers: bool,
    pub body: bool,
    pub cookies: bool,
}
const ALL: Parts = Parts { line: true, headers: true, body: true, cookies: true };

pub fn compare(m: &MReq, s: &Seen, p: Parts) -> Result<(), String> {
    if p.line {
        if s.method != model::method_debug(&m.method) {
            return Err(format!("handler saw method {}, sent {}", s.method, m.method));
        }
        if s.path != m.path {
            return Err(format!("handler saw path {:?}, expected {:?}", s.path, m.path));
        }
        if s.version != m.version {
            return Err(format!("handler saw version {}, expected {}", s.version, m.version));
        }
    }
    if p.headers {
        if s.headers != m.headers {
            return Err(format!("handler saw headers {:?}, expected {:?}", s.headers, m.headers));
        }
        if cfg!(feature = "raw_headers") && s.raw != m.raw {
            return Err(format!("handler saw raw headers {:?}, expected {:?}", s.raw, m.raw));
        }
    }
    if p.body && s.body != m.body {
        return Err(format!(
            "handler saw a body of {} bytes {:?}, expected {} bytes {:?}",
            s.body.len(),
            clip(&String::from_utf8_lossy(&s.body), 80),
            m.body.len(),
            clip(&String::from_utf8_lossy(&m.body), 80)
        ));
    }
    if p.cookies && cfg!(feature = "cookies") {
        let want = model::cookies(m.headers.iter().find(|h| h.0 == "cookie").map(|h| h.1.as_str()));
        // a pair of quotes around a value belongs to it or not
        let bare = |v: &str| v.len() >= 2 && v.starts_with('"') && v.ends_with('"');
        let same = s.cookies.len() == want.len()
            && s.cookies.iter().zip(&want).all(|(a, b)| a == b || a.0 == b.0 && bare(&b.1) && a.1 == b.1[1..b.1.len() - 1]);
        if !same {
            return Err(format!("handler saw cookies {:?}, expected {:?}", s.cookies, want));
        }
    }
    Ok(())
}

/// The complete contract for one connection with the `seer` application.
pub fn contract(c: &Ctx, parts: Parts) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let (bytes, end) = model::stream(&c.exec.conns[0]);
    let cr = &c.res.conns[0];
    let e = model::expect(&bytes);
    let n = runs(&c.res.log);
    let reset = matches!(end, Some(In::Fail(_)) | Some(In::Reset(_)));
    let head = bytes.starts_with(b"HEAD ");
    match e {
        Expect::Run(m) => {
            if n != 1 {
                return Err(format!("{} handler runs for a complete valid request", n));
            }
            if let Some(s) = seen(&c.res.log) {
                compare(&m, s, parts)?;
            }
            if reset {
                return Ok(true);
            }
            let r = model::answer_to(cr, &bytes)?;
            if r.code != 200 || (!head && r.body != b"ok") {
                return Err(format!("status {} body {:?}", r.code, String::from_utf8_lossy(&r.body)));
            }
            Ok(true)
        }
        Expect::Error(codes) => {
            if n != 0 {
                return Err(format!("a handler ran for a request that must be refused with {:?}", codes));
            }
            if reset {
                return Ok(true);
            }
            let r = model::answer_to(cr, &bytes)?;
            if !codes.contains(&r.code) {
                return Err(format!("status {}, expected one of {:?}", r.code, codes));
            }
            Ok(true)
        }
        Expect::Wait => {
            if n != 0 {
                return Err("a handler ran on an incomplete request".into());
            }
            match end {
                None => {
                    if !cr.out.is_empty() || cr.closed {
                        return Err("the server answered or closed before the request was complete".into());
                    }
                    Ok(false)
                }
                Some(In::Eof) => {
                    if bytes.is_empty() {
                        // nothing was asked
                        if !cr.closed {
                            return Err("the server did not close".into());
                        }
                        if !cr.out.is_empty() {
                            http::parse(&cr.out, head).map_err(|e| format!("malformed response: {}", e))?;
                        }
                        return Ok(false);
                    }
                    let r = model::answer_to(cr, &bytes)?;
                    if r.code != 400 {
                        return Err(format!("status {} for a request cut short, expected 400", r.code));
                    }
                    Ok(true)
                }
                _ => {
                    if !cr.closed {
                        return Err("the server did not drop the connection after the client's reset".into());
                    }
                    Ok(false)
                }
            }
        }
        Expect::Any => {
            if n > 1 {
                return Err(format!("{} handler runs", n));
            }
            if reset {
                return Ok(false);
            }
            if end.is_some() || !cr.out.is_empty() || cr.closed {
                let r = model::answer_to(cr, &bytes)?;
                if n == 0 && r.code < 400 {
                    return Err(format!("status {} without a handler", r.code));
                }
            }
            Ok(false)
        }
    }
}

/// Cuts bytes at the (sorted) positions; bit k of `pause` makes segment k+1 wait for readiness.
pub fn cut(bytes: &[u8], cuts: &[usize], pause: usize) -> Conn {
    let mut v = vec![];
    let mut last = 0;
    for (k, &c) in cuts.iter().chain(std::iter::once(&bytes.len())).enumerate() {
        let d = bytes[last..c].to_vec();
        last = c;
        v.push(if k == 0 || pause.checked_shr(k as u32 - 1).unwrap_or(0) & 1 == 0 { In::More(d) } else { In::Data(d) });
    }
    Conn { port: 80, input: v, ..Default::default() }
}

fn head_of(n: usize) -> Vec<u8> {
    // a POST request whose head (with the blank line) has exactly n bytes
    let base = b"POST /x/y HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\nX: \r\n\r\n".len();
    format!("POST /x/y HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\nX: {}\r\n\r\n", "v".repeat(n - base)).into_bytes()
}

pub fn c05(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let reqs: Vec<Vec<u8>> = vec![
        b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(),
        b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\n\r\nab\r\n\r\ncd\r".to_vec(),
        b"GET / HTTP/1.0\r\n\r\n".to_vec(),
        b"PUT /q HTTP/1.1\r\nHost:h\r\nCookie: a=b\r\ncontent-length: 3\r\n\r\n\0\xffz extra".to_vec(),
        b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\n\r\nokGET /b HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(),
        b"BAD\r\n\r\n".to_vec(),
        b"X / HTTP/1.0\r\n\r\n".to_vec(),
        b"HEAD / HTTP/1.0\r\nA:\r\n\r\n".to_vec(),
        b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 20\r\n\r\nshort".to_vec(),
        b"GET /\xc3\xa9 HTTP/1.1\r\nHost: \xe2\x82\xac\r\n\r\n".to_vec(),
    ];
    let judge = |c: &Ctx| -> Result<bool, String> {
        let nt = contract(c, ALL)?;
        if let Some(b) = c.base {
            if c.res.log != b.log {
                return Err(format!("handlers saw {:?}, unsegmented they saw {:?}", c.res.log, b.log));
            }
            let (x, y) = (&c.res.conns[0], &b.conns[0]);
            if x.closed != y.closed || x.out.is_empty() != y.out.is_empty() {
                return Err("answered differently from the unsegmented request".into());
            }
            if !x.out.is_empty() {
                let (rx, ry) = (http::split(&x.out)?, http::split(&y.out)?);
                if rx.code != ry.code || rx.reason != ry.reason || rx.body != ry.body || rx.sorted() != ry.sorted() {
                    return Err("the response differs from the unsegmented one".into());
                }
            }
        }
        Ok(nt)
    };
    for (ri, r) in reqs.iter().enumerate() {
        for eof in [false, true] {
            let l = r.len();
            let k = l - 1;
            // all choices of up to 3 cuts
            let mut cuts: Vec<Vec<usize>> = vec![vec![]];
            for a in 1..=k {
                cuts.push(vec![a]);
                for b in a + 1..=k {
                    cuts.push(vec![a, b]);
                    if t || l <= 48 || eof {
                        for c in b + 1..=k {
                            if t || l <= 48 && (!eof || c - b < 4) || c - b <= 3 || b - a <= 3 {
                                cuts.push(vec![a, b, c]);
                            }
                        }
                    }
                }
            }
            let offs: Vec<usize> = cuts
                .iter()
                .scan(0usize, |s, c| {
                    let o = *s;
                    *s += 1 << c.len();
                    Some(o)
                })
                .collect();
            let total = offs.last().unwrap() + (1 << cuts.last().unwrap().len());
            let (r1, r2) = (r.clone(), r.clone());
            let fin = move |mut c: Conn| {
                if eof {
                    c.input.push(In::Eof)
                }
                one(c)
            };
            v.push(
                Fam::inputs(
                    &format!("cuts of request {}{}", ri, if eof { " then close" } else { "" }),
                    seer(),
                    total,
                    move |j| {
                        let k = offs.partition_point(|o| *o <= j) - 1;
                        fin(cut(&r1, &cuts[k], j - offs[k]))
                    },
                    judge,
                )
                .base(move |_| fin(cut(&r2, &[], 0)))
                .boxed(),
            );
        }
    }
    // every number of body bytes that can arrive together with the end of the head
    {
        let head = |l: usize, n: usize| -> Vec<u8> {
            let h = format!("POST /x/y HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\nX: ", n);
            format!("{}{}\r\n\r\n", h, "v".repeat(l.saturating_sub(h.len() + 4))).into_bytes()
        };
        let sizes = [1usize, 509, 511, 512, 600, 1500, 5000];
        let first = 70;
        let lens = if t { 4200 } else { 1100 };
        let make = move |j: usize| -> Exec {
            let m = mixed(j, &[lens, 7, 6]);
            let mut r = head(first + m[0], sizes[m[1]]);
            let h = r.len();
            r.extend(pattern(sizes[m[1]]));
            r.extend_from_slice(b"more");
            one(match m[2] {
                0 => cut(&r, &[], 0),
                5 => cut(&r, &[h], 1),
                k => cut(&r, &[h - k], 1),
            })
        };
        v.push(Fam::inputs("head lengths x body lengths x a cut at the end of the head", seer(), lens * 7 * 6, make, judge).boxed());
        // large bodies in different pieces
        let mut sizes: Vec<usize> = (13..=if t { 23 } else { 20 }).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1]).collect();
        sizes.extend([10_000, 100_000, 150_000, 999_999, 1_000_000]);
        let n = sizes.len();
        let make = move |j: usize| -> Exec {
            let m = mixed(j, &[n, 6]);
            let z = sizes[m[0]];
            let mut r = head(0, z);
            let h = r.len();
            r.extend(pattern(z));
            one(match m[1] {
                0 => cut(&r, &[], 0),
                1 => cut(&r, &[h], 1),
                2 => cut(&r, &[h + z - 1], 1),
                3 => cut(&r, &[h, h + 1, h + z / 2], 7),
                4 => {
                    r.extend_from_slice(b"more");
                    cut(&r, &[h], 0)
                }
                _ => {
                    let c: Vec<usize> = (0..8).map(|k| h + k * z / 8).collect();
                    cut(&r, &c, 255)
                }
            })
        };
        v.push(Fam::inputs("large bodies in different pieces", seer(), n * 6, make, judge).boxed());
    }
    // byte by byte and every uniform segment size
    let rs = reqs.clone();
    let big: Vec<Vec<u8>> = (505..=530)
        .chain([1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 2046, 2048, 2050])
        .map(|n| {
            let mut h = head_of(n);
            h.extend_from_slice(b"hello");
            h
        })
        .collect();
    let mut bodies: Vec<Vec<u8>> = vec![];
    for n in [400, 467, 468, 469, 511, 512, 513, 1024, 3000, 9000] {
        let mut h = format!("POST /b HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", n).into_bytes();
        h.extend(pattern(n));
        bodies.push(h);
    }
    let mut every: Vec<Vec<u8>> = rs;
    every.extend(big.iter().cloned());
    every.extend(bodies);
    let mut uni: Vec<(usize, usize, bool)> = vec![];
    for (x, r) in every.iter().enumerate() {
        for s in (1..=40).chain([64, 100, 127, 128, 129, 255, 256, 257, 500, 510, 511, 512, 513, 514, 600, 1000, 1024, 1500, 2047, 2048, 4096]) {
            if s <= r.len() {
                uni.push((x, s, false));
                uni.push((x, s, true));
            }
        }
    }
    let (e1, e2) = (every.clone(), every.clone());
    let u2 = uni.clone();
    v.push(Box::new(Fam {
        name: "uniform segments".into(),
        apps: every.len(),
        app: Box::new(|_| seer()),
        execs: Box::new(move |i| u2.iter().filter(|u| u.0 == i).count()),
        exec: Box::new(move |i, j| {
            let u = uni.iter().filter(|u| u.0 == i).nth(j).unwrap();
            let cuts: Vec<usize> = (1..).map(|k| k * u.1).take_while(|c| *c < e1[i].len()).collect();
            let mut c = cut(&e1[i], &cuts, 0);
            if u.2 {
                for x in c.input.iter_mut().skip(1) {
                    if let In::More(d) = x {
                        *x = In::Data(std::mem::take(d))
                    }
                }
            }
            one(c)
        }),
        judge: Box::new(judge),
        devs: None,
        base: Some(Box::new(move |i| one(cut(&e2[i], &[], 0)))),
        env: None,
    }));
    // heads around the read buffer size: every single cut, with and without pause, pairs near the ends
    for h in big.iter().step_by(if t { 1 } else { 3 }) {
        let l = h.len();
        let mut cuts: Vec<(Vec<usize>, usize)> = vec![];
        for a in 1..l {
            cuts.push((vec![a], 0));
            cuts.push((vec![a], 1));
        }
        for a in l.saturating_sub(16)..l {
            for b in a + 1..l {
                for p in 0..4 {
                    cuts.push((vec![a, b], p))
                }
            }
        }
        for m in [508usize, 510, 511, 512, 513, 514, 516, 1023, 1024, 1025] {
            for b in l.saturating_sub(16)..l {
                if m < b {
                    for p in 0..4 {
                        cuts.push((vec![m, b], p))
                    }
                }
            }
        }
        let (h1, h2) = (h.clone(), h.clone());
        v.push(
            Fam::inputs(
                &format!("cuts of a {}-byte request", l),
                seer(),
                cuts.len(),
                move |j| one(cut(&h1, &cuts[j].0, cuts[j].1)),
                judge,
            )
            .base(move |_| one(cut(&h2, &[], 0)))
            .boxed(),
        );
    }
    v
}

pub fn c06(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let p = Parts { line: false, headers: false, body: true, cookies: false };
    // declared x sent x content x end x one cut
    let contents: Vec<Vec<u8>> = vec![
        b"abcdefghijklmnop".to_vec(),
        b"\r\n\r\n\r\n\r\n\r\n\r\n\r\n\r\n".to_vec(),
        b"GET / HTTP/1.1\r\n".to_vec(),
        vec![0; 16],
        (0..16).map(|i| 255 - i as u8).collect(),
    ];
    let m = if t { 15 } else { 11 };
    let radix = [m, m + 2, contents.len(), 4, m + 3, 2];
    let total: usize = radix.iter().product();
    v.push(
        Fam::inputs(
            "declared x sent x end x cut",
            seer(),
            total,
            move |j| {
                let d = mixed(j, &radix);
                let mut b = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", d[0]).into_bytes();
                let h = b.len();
                b.extend_from_slice(&contents[d[2]][..d[1]]);
                let at = h + d[4];
                let mut c = if at >= 1 && at < b.len() { cut(&b, &[at - 1, at][1 - d[5]..], 3) } else { conn(&b) };
                match d[3] {
                    0 => {}
                    1 => c.input.push(In::Eof),
                    2 => c.input.push(In::Fail(libc::ECONNRESET)),
                    _ => c.input.push(In::Reset(libc::ECONNRESET)),
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // no Content-Length
    v.push(
        Fam::inputs(
            "no declared length",
            seer(),
            9 * 12 * 2,
            move |j| {
                let d = mixed(j, &[9, 12, 2]);
                let mut b = format!("{} / HTTP/1.1\r\nHost: h\r\n\r\n", model::METHODS[d[0]].0).into_bytes();
                b.extend_from_slice(&b"Content-Length: 3\r\n\r\nabc"[..d[1] * 2]);
                let mut c = conn(&b);
                if d[2] == 1 {
                    c.input.push(In::Eof)
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // all methods, lengths around every buffer size, whole / split at every interesting place
    let sizes: Vec<usize> = if t {
        (0..1200).chain([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 200_000, 1_000_000]).collect()
    } else {
        (0..=40).chain(440..=520).chain(950..=1040).chain([2047, 2048, 2049, 4096, 4097, 8192, 16383, 16384, 16385, 65536, 70_000]).collect()
    };
    let n = sizes.len();
    v.push(
        Fam::inputs(
            "body sizes",
            seer(),
            n * 10,
            move |j| {
                let (s, how) = (sizes[j / 10], j % 10);
                let mut b = format!("{} /b HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", ["POST", "PUT", "GET"][s % 3], s).into_bytes();
                let h = b.len();
                b.extend(pattern(s));
                if how == 5 {
                    b.extend_from_slice(b"EXTRA");
                }
                let l = b.len();
                let cuts: Vec<usize> = match how {
                    0 | 5 => vec![],
                    1 => vec![h],
                    2 => vec![h + s / 2],
                    3 => vec![l - 1],
                    4 => vec![h, l - 1],
                    6 => vec![h - 1],
                    7 => (1..l / 300 + 1).map(|k| k * 300).collect(),
                    8 => (1..l / 512 + 1).map(|k| k * 512).collect(),
                    _ => vec![h + s / 3, h + s / 3 * 2],
                };
                let mut cuts: Vec<usize> = cuts.into_iter().filter(|c| *c > 0 && *c < l).collect();
                cuts.dedup();
                one(cut(&b, &cuts, if j % 2 == 0 { usize::MAX >> 1 } else { 0 } & if cuts.len() > 60 { 0 } else { usize::MAX }))
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // spellings of the length
    let al = ["0", "1", "5", " ", "\t", "+", "-", "x", ",", ".", "\u{0663}", "a"];
    let d = if t { 5 } else { 4 };
    v.push(
        Fam::inputs(
            "spellings of Content-Length",
            seer(),
            seqs(al.len(), d) * 2,
            move |j| {
                let s: String = seq(al.len(), j / 2).iter().map(|x| al[*x]).collect();
                let mut b = format!("POST / HTTP/1.1\r\nHost: h\r\ncontent-lengTH:{}\r\n\r\n", s).into_bytes();
                b.extend_from_slice(b"0123456789012345678901234567890123456789012345678901234567890123456789");
                let mut c = conn(&b);
                if j % 2 == 1 {
                    c.input.push(In::Eof)
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    let vals = ["3", "5", "0", "", "x", "05", " 3", "18446744073709551615", "18446744073709551616", "9223372036854775807", "99999999999999999999999999"];
    v.push(
        Fam::inputs(
            "several Content-Length fields",
            seer(),
            vals.len() * vals.len() * 2 * 2,
            move |j| {
                let d = mixed(j, &[vals.len(), vals.len(), 2, 2]);
                let mut b = if d[3] == 0 {
                    format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\ncontent-length: {}\r\n\r\n", vals[d[0]], vals[d[1]])
                } else {
                    format!("POST / HTTP/1.1\r\nContent-Length: {}, {}\r\nHost: h\r\n\r\n", vals[d[0]], vals[d[1]])
                }
                .into_bytes();
                b.extend_from_slice(b"abcde");
                let mut c = conn(&b);
                if d[2] == 1 {
                    c.input.push(In::Eof)
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // lengths nobody will ever send: still only incomplete
    let mut huge: Vec<usize> = vec![];
    for b in 3..62 {
        for d in 0..5usize {
            huge.push((1usize << b) + d - 2)
        }
    }
    let mut ten = 1usize;
    for _ in 0..18 {
        ten *= 10;
        huge.extend([ten - 1, ten, ten + 1, ten * 3 / 2]);
    }
    huge.retain(|n| *n < isize::MAX as usize / 2);
    let radix = [huge.len(), 4, 3, 2];
    v.push(
        Fam::inputs(
            "declared lengths of every magnitude",
            seer(),
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                let mut b = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}{}\r\n\r\n", ["", "000"][d[3]], huge[d[0]]).into_bytes();
                b.extend_from_slice(&b"abcdef"[..[0, 1, 5, 6][d[1]]]);
                let mut c = conn(&b);
                match d[2] {
                    0 => {}
                    1 => c.input.push(In::Eof),
                    _ => c.input.push(In::Reset(libc::ECONNRESET)),
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // truncation at every byte
    let whole = b"POST /t HTTP/1.1\r\nHost: h\r\nContent-Length: 12\r\n\r\nhello\r\n\r\nbye".to_vec();
    let l = whole.len();
    v.push(
        Fam::inputs(
            "cut short at every byte",
            seer(),
            (l + 1) * 4 * 3,
            move |j| {
                let d = mixed(j, &[l + 1, 4, 3]);
                let b = &whole[..d[0]];
                let mut c = match d[2] {
                    0 => conn(b),
                    1 if d[0] > 1 => cut(b, &[d[0] / 2], 1),
                    _ => cut(b, &(1..d[0]).collect::<Vec<_>>(), 0),
                };
                match d[1] {
                    0 => {}
                    1 => c.input.push(In::Eof),
                    2 => c.input.push(In::Fail(libc::ETIMEDOUT)),
                    _ => c.input.push(In::Reset(libc::ECONNRESET)),
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    v
}

pub fn c07(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let p = Parts { line: false, headers: true, body: false, cookies: false };
    let lines: Vec<&[u8]> = vec![
        b"A: 1",
        b"a: 2",
        b"A:3",
        b"B-c: x, y",
        b"b-C: z",
        b"E:",
        b"E: \t ",
        b"T: \t x \t ",
        b"U: caf\xc3\xa9",
        b"C: a:b:c",
        b"I: in ner\ttab",
        b"NoColon",
        b": empty",
        b"Sp ace: x",
        b" Fold: x",
        b"Ctl: a\x01b",
        b"Us: a\x1fb",
        b"Nul: a\0b",
        b"Cr: a\rb",
        b"Lf: a\nb",
        b"Del: a\x7fb",
        b"Bad: \xff",
        b"N(ame: x",
        b"Tab\t: x",
    ];
    let k = lines.len();
    let d = if t { 4 } else { 3 };
    let ls: Vec<Vec<u8>> = lines.iter().map(|l| l.to_vec()).collect();
    let l2 = ls.clone();
    v.push(
        Fam::inputs(
            "sequences of header lines",
            seer(),
            seqs(k, d),
            move |j| {
                let mut b = b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec();
                for x in seq(k, j) {
                    b.extend_from_slice(&l2[x]);
                    b.extend_from_slice(b"\r\n");
                }
                b.extend_from_slice(b"\r\n");
                simple(&b)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // every byte in every kind of position
    let places: Vec<(&[u8], &[u8])> = vec![
        (b"", b"X: v\r\n"),
        (b"X", b": v\r\n"),
        (b"Xa", b"b: v\r\n"),
        (b"X:", b"v\r\n"),
        (b"X: ", b"\r\n"),
        (b"X: a", b"b\r\n"),
        (b"X: a", b"\r\n"),
        (b"X: a\r", b"Y: b\r\n"),
        (b"X: a", b"\nY: b\r\n"),
        (b"X: a\r\n", b"\r\n"),
    ];
    let pl: Vec<(Vec<u8>, Vec<u8>)> = places.iter().map(|p| (p.0.to_vec(), p.1.to_vec())).collect();
    let np = pl.len();
    let pl2 = pl.clone();
    v.push(
        Fam::inputs(
            "every byte in a header line",
            seer(),
            np * 256,
            move |j| {
                let (a, z) = &pl[j / 256];
                let mut b = b"GET / HTTP/1.0\r\n".to_vec();
                b.extend_from_slice(a);
                b.push((j % 256) as u8);
                b.extend_from_slice(z);
                b.extend_from_slice(b"\r\n");
                one(conn(&b).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // every pair of bytes at two places
    let step = if t { 1 } else { 3 };
    v.push(
        Fam::inputs(
            "every pair of bytes in a header line",
            seer(),
            65536 * np.div_ceil(step),
            move |j| {
                let (a, z) = &pl2[(j / 65536) * step];
                let mut b = b"GET / HTTP/1.0\r\n".to_vec();
                b.extend_from_slice(a);
                b.push((j % 256) as u8);
                b.push((j / 256 % 256) as u8);
                b.extend_from_slice(z);
                b.extend_from_slice(b"\r\n");
                one(conn(&b).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // every Unicode scalar up to U+2FFF in name and value
    v.push(
        Fam::inputs(
            "every character up to U+2FFF",
            seer(),
            0x3000 * 2,
            move |j| {
                let ch = char::from_u32((j / 2) as u32).unwrap_or('x');
                let s = if j % 2 == 0 { format!("X: a{}b", ch) } else { format!("X{}: v", ch) };
                one(conn(format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\nY: z\r\n\r\n", s).as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // long values, long names, many fields
    let max = if t { 9000 } else { 2600 };
    v.push(
        Fam::inputs(
            "lengths",
            seer(),
            max * 3,
            move |j| {
                let n = j / 3;
                let s = match j % 3 {
                    0 => format!("X: {}\r\nY: z\r\n", "v".repeat(n)),
                    1 => format!("{}: v\r\nY: z\r\n", "N".repeat(n + 1)),
                    _ => (0..n / 8).map(|k| format!("H{}: {}\r\n", k % 50, k)).collect::<String>(),
                };
                simple(format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", s).as_bytes())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // repeats: all sequences of two names in several spellings
    let names = ["A", "a", "B", "b", "aB"];
    v.push(
        Fam::inputs(
            "repeated fields",
            seer(),
            seqs(5, if t { 8 } else { 6 }),
            move |j| {
                let s: String = seq(5, j).iter().enumerate().map(|(k, x)| format!("{}: {}\r\n", names[*x], k)).collect();
                simple(format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", s).as_bytes())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    v
}

pub fn c08(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let p = Parts { line: false, headers: false, body: false, cookies: false };
    let toks: Vec<&[u8]> = vec![
        b"GET", b" ", b"/", b"HTTP/1.1", b"\r\n", b"Host: h\r\n", b"Content-Length: 3\r\n", b"\r\n\r\n", b"abc", b":", b"\0", b"\xff", b"..", b"Cookie: a", b"?",
    ];
    let tk: Vec<Vec<u8>> = toks.iter().map(|x| x.to_vec()).collect();
    let k = tk.len();
    let d = if t { 6 } else { 5 };
    let t1 = tk.clone();
    v.push(
        Fam::inputs(
            "token sequences then close",
            seer(),
            seqs(k, d),
            move |j| {
                let b: Vec<u8> = seq(k, j).into_iter().flat_map(|x| t1[x].clone()).collect();
                one(conn(&b).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    let starts: Vec<&[u8]> = vec![b"GET / HTTP/1.1\r\n", b"POST /a HTTP/1.1\r\nHost: h\r\n", b"GET "];
    let st: Vec<Vec<u8>> = starts.iter().map(|x| x.to_vec()).collect();
    let d2 = if t { 5 } else { 4 };
    let n2 = seqs(k, d2);
    v.push(
        Fam::inputs(
            "prefixed token sequences, open and closed",
            seer(),
            n2 * 6,
            move |j| {
                let x = j % 6;
                let mut b = st[x % 3].clone();
                b.extend(seq(k, j / 6).into_iter().flat_map(|x| tk[x].clone()));
                let mut c = conn(&b);
                if x >= 3 {
                    c.input.push(In::Eof)
                }
                one(c)
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    let bases: Vec<Vec<u8>> = vec![
        b"GET /a HTTP/1.1\r\nHost: h\r\nCookie: a=b; c=d\r\n\r\n".to_vec(),
        b"POST /a/../b?x=%41 HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nxyz".to_vec(),
        b"HEAD / HTTP/1.0\r\nConnection: keep-alive\r\nKeep-Alive: timeout=5, max=9\r\n\r\n".to_vec(),
    ];
    for (bi, b) in bases.iter().enumerate() {
        let l = b.len();
        // substitution, insertion of every byte; deletion; duplication
        let b1 = b.clone();
        v.push(
            Fam::inputs(
                &format!("single-byte changes of request {}", bi),
                seer(),
                l * 256 * 2 + l * 2,
                move |j| {
                    let mut x = b1.clone();
                    if j < l * 256 {
                        x[j / 256] = (j % 256) as u8
                    } else if j < l * 512 {
                        x.insert((j - l * 256) / 256, (j % 256) as u8)
                    } else if j < l * 513 {
                        x.remove(j - l * 512);
                    } else {
                        let k = j - l * 513;
                        let c = x[k];
                        x.insert(k, c)
                    }
                    one(conn(&x).eof())
                },
                move |c| contract(c, p),
            )
            .boxed(),
        );
        // pairs of changes with structural bytes
        let sb = [b' ', b'\r', b'\n', b':', b'.', b'/', 0u8, 0x80, b'9'];
        let pairs = l * (l - 1) / 2;
        let b2 = b.clone();
        if t || bi < 2 {
            v.push(
                Fam::inputs(
                    &format!("two-byte changes of request {}", bi),
                    seer(),
                    pairs * if t { 81 } else { 9 },
                    move |j| {
                        let (q, e) = (j % pairs, j / pairs);
                        // pair number q -> (a, c), a < c
                        let mut a = 0;
                        let mut r = q;
                        while r >= l - 1 - a {
                            r -= l - 1 - a;
                            a += 1
                        }
                        let c = a + 1 + r;
                        let mut x = b2.clone();
                        x[a] = sb[e % 9];
                        x[c] = sb[if t { e / 9 } else { (e + a) % 9 }];
                        one(conn(&x).eof())
                    },
                    move |c| contract(c, p),
                )
                .boxed(),
            );
        }
        // truncation, close, failure, reset at every point, with two deliveries
        let b3 = b.clone();
        v.push(
            Fam::inputs(
                &format!("truncations of request {}", bi),
                seer(),
                (l + 1) * 6 * 2,
                move |j| {
                    let d = mixed(j, &[l + 1, 6, 2]);
                    let x = &b3[..d[0]];
                    let mut c = if d[2] == 0 || d[0] < 2 { conn(x) } else { cut(x, &[d[0] - 1], 1) };
                    match d[1] {
                        0 => {}
                        1 => c.input.push(In::Eof),
                        2 => c.input.push(In::Fail(libc::ECONNRESET)),
                        3 => c.input.push(In::Reset(libc::ECONNRESET)),
                        4 => c.input.push(In::Fail(libc::ETIMEDOUT)),
                        _ => c.input.push(In::Fail(libc::EHOSTUNREACH)),
                    }
                    one(c)
                },
                move |c| contract(c, p),
            )
            .boxed(),
        );
    }
    // the header fields the server interprets, with extreme and malformed values
    let nums = ["", "0", "1", "-1", "+1", "5", "255", "256", "65536", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "1e9", "0x5", "5s", " 5", "1.5", "\u{e9}"];
    let mut ka: Vec<String> = vec!["".into(), "timeout".into(), "max".into(), "timeout=".into(), "=".into(), ",".into(), "=5".into(), "timeout=5 max=5".into(), "timeout=5;max=9".into(), "\u{e9}=\u{e9}".into(), "TIMEOUT=1,MAX=2".into(), "timeout==5".into(), "timeout=5=6".into()];
    for n in nums {
        ka.push(format!("timeout={}", n));
        ka.push(format!("max={}", n));
        ka.push(format!("timeout={}, max={}", n, n));
        ka.push(format!("max={},timeout=5", n));
    }
    let cs = [None, Some("keep-alive"), Some("Keep-Alive"), Some("close"), Some(""), Some("keep-alive, close"), Some("upgrade"), Some("keep-alive, Upgrade, \u{e9}"), Some(","), Some("keep-alive\r\nConnection: close")];
    let vs08 = ["1.0", "1.1"];
    let ks = ["Keep-Alive", "keep-alive"];
    let extra: Vec<String> = std::iter::once(String::new())
        .chain(["Content-Length", "Expect", "Upgrade", "Date", "Range", "If-Modified-Since", "Authorization", "Max-Forwards"].iter().flat_map(|h| nums.iter().map(move |n| format!("{}: {}\r\n", h, n))))
        .collect();
    let rk = [ka.len() + 1, cs.len(), 2, 2];
    v.push(
        Fam::inputs(
            "connection and keep-alive fields",
            seer(),
            rk.iter().product(),
            move |j| {
                let d = mixed(j, &rk);
                let mut b = format!("GET / HTTP/{}\r\nHost: h\r\n", vs08[d[2]]);
                if let Some(x) = cs[d[1]] {
                    b += &format!("Connection: {}\r\n", x)
                }
                if d[0] > 0 {
                    b += &format!("{}: {}\r\n", ks[d[3]], ka[d[0] - 1])
                }
                b += "\r\n";
                one(conn(b.as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    let rx = [extra.len(), 2, 3];
    v.push(
        Fam::inputs(
            "numeric fields with extreme values",
            seer(),
            rx.iter().product(),
            move |j| {
                let d = mixed(j, &rx);
                let b = format!("{} / HTTP/{}\r\nHost: h\r\n{}\r\n", ["GET", "POST", "HEAD"][d[2]], vs08[d[1]], extra[d[0]]);
                one(conn(b.as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // short raw byte strings
    let al: Vec<u8> = vec![b'G', b' ', b'/', b'\r', b'\n', b':', 0, 0xff, b'H', b'.'];
    v.push(
        Fam::inputs(
            "short byte strings then close",
            seer(),
            seqs(al.len(), if t { 6 } else { 5 }),
            move |j| {
                let b: Vec<u8> = seq(al.len(), j).into_iter().map(|x| al[x]).collect();
                one(conn(&b).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // the same through an application with routes of every kind and a query/cookie reading handler
    let rich = AppSpec::default()
        .reg(Kind::Mw, "", vec![H::See, H::SeeQuery, H::SeeExtQuery], false)
        .reg(Kind::Get, "/:a", vec![H::See], false)
        .reg(Kind::All, "/", vec![H::Echo], true)
        .reg(Kind::Mw, "", vec![H::Send(b"ok".to_vec())], true);
    let targets = ["", "/", "?", "/?", "/%", "/%4", "/a?%", "/a?%4&=&[]=&]=[&a[=]&a[b", "//", "/..", "*", "http://h/", "/\u{e9}?\u{e9}[\u{e9}]=%c3%a9%ff", "/?%e9", "/a b"];
    let ck = ["", "Cookie: \r\n", "Cookie: a\r\n", "Cookie: =\r\n", "Cookie: ;\r\n", "Cookie: a=b;c\r\n", "Cookie: a=\"\u{e9}\"; =x; y=%\r\n", "cookie: ; ; \r\nCookie: b=c\r\n"];
    let ms = ["GET", "HEAD", "POST", "get", "", "XYZZY", "PATCH", "G\u{e9}"];
    let vs = ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/", "HTTP", "", "\u{e9}\u{e9}\u{e9}", "HTTP/1.1\u{e9}", "HTP/\u{e9}1", "http/1.1"];
    let radix = [targets.len(), ck.len(), ms.len(), vs.len()];
    v.push(
        Fam::inputs(
            "request lines x cookies",
            rich,
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                let b = format!("{} {} {}\r\nHost: h\r\n{}\r\n", ms[d[2]], targets[d[0]], vs[d[3]], ck[d[1]]);
                one(conn(b.as_bytes()).eof())
            },
            |c| {
                model::no_panics(c.res)?;
                let (bytes, _) = model::stream(&c.exec.conns[0]);
                let r = model::answer_to(&c.res.conns[0], &bytes)?;
                match model::expect(&bytes) {
                    Expect::Error(codes) if !codes.contains(&r.code) => Err(format!("status {}, expected {:?}", r.code, codes)),
                    Expect::Run(_) if r.code != 200 => Err(format!("status {} for a valid request", r.code)),
                    _ => Ok(true),
                }
            },
        )
        .boxed(),
    );
    v
}

pub fn c12(t: bool) -> Vec<Box<dyn Family>> {
    if !cfg!(feature = "cookies") {
        return vec![];
    }
    let mut v = vec![];
    let p = Parts { line: false, headers: false, body: false, cookies: true };
    let toks = ["a", "b", "=", "; ", ";", " ", ",", "\"", "%41", "\t"];
    // `;` without the blank, and blanks and quotes around names and values, are the cookie
    // parser's own business: only totality is checked there
    let odd = |h: &str| {
        h.contains('\t') || h.contains("\" ") || h.contains(" \"") || h.replace("; ", "").contains(';') || h.contains(", ")
            || h.split("; ").any(|p| p != p.trim() || p.contains(" =") || p.contains("= "))
    };
    let judge = move |c: &Ctx| {
        let (bytes, _) = model::stream(&c.exec.conns[0]);
        if let Expect::Run(m) = model::expect(&bytes) {
            let h = m.headers.iter().find(|h| h.0 == "cookie").map(|h| h.1.clone()).unwrap_or_default();
            if odd(&h) {
                contract(c, Parts { cookies: false, ..p })?;
                return Ok(false);
            }
        }
        contract(c, p)
    };
    v.push(
        Fam::inputs(
            "Cookie header values",
            seer(),
            seqs(toks.len(), if t { 7 } else { 6 }),
            move |j| {
                let s: String = seq(toks.len(), j).iter().map(|x| toks[*x]).collect();
                simple(format!("GET / HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", s).as_bytes())
            },
            judge,
        )
        .boxed(),
    );
    let pairs = ["a=1", "b=2", "a=3", "n", "=v", "x=", "t=a=b==", "u=\u{e9}", "e=%3B", "sid=0123456789abcdef"];
    v.push(
        Fam::inputs(
            "sequences of cookie pairs",
            seer(),
            seqs(pairs.len(), if t { 6 } else { 5 }),
            move |j| {
                let s: Vec<&str> = seq(pairs.len(), j).iter().map(|x| pairs[*x]).collect();
                simple(format!("GET / HTTP/1.1\r\nCookie: {}\r\nHost: h\r\n\r\n", s.join("; ")).as_bytes())
            },
            judge,
        )
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "every byte in a cookie",
            seer(),
            256 * 3,
            move |j| {
                let mut b = b"GET / HTTP/1.1\r\nHost: h\r\nCookie: k=v; ".to_vec();
                let c = (j % 256) as u8;
                match j / 256 {
                    0 => b.extend_from_slice(&[b'a', b'=', b'x', c, b'y']),
                    1 => b.extend_from_slice(&[b'a', c, b'b', b'=', b'x']),
                    _ => b.push(c),
                }
                b.extend_from_slice(b"; z=w\r\n\r\n");
                simple(&b)
            },
            judge,
        )
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "many cookies, long cookies",
            seer(),
            400,
            move |j| {
                let s: Vec<String> = if j % 2 == 0 {
                    (0..j).map(|k| format!("c{}=v{}", k, k)).collect()
                } else {
                    vec![format!("n{}={}", "x".repeat(j), "y".repeat(j * 3)), "z=1".into()]
                };
                let b = if s.is_empty() { "GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_string() } else { format!("GET / HTTP/1.1\r\nHost: h\r\ncookie: {}\r\n\r\n", s.join("; ")) };
                simple(b.as_bytes())
            },
            judge,
        )
        .boxed(),
    );
    // several Cookie lines (which RFC 6265 forbids): the cookies are unspecified, the rest is not
    let ls = ["a=1", "b=2; c=3", "d=4", "e"];
    v.push(
        Fam::inputs(
            "several Cookie lines",
            seer(),
            seqs(ls.len(), 4),
            move |j| {
                let s: String = seq(ls.len(), j).iter().map(|x| format!("Cookie: {}\r\n", ls[*x])).collect();
                simple(format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", s).as_bytes())
            },
            move |c| {
                contract(c, Parts { cookies: false, ..p })?;
                let lines = seq(ls.len(), c.j);
                Ok(lines.len() > 1)
            },
        )
        .boxed(),
    );
    v
}

pub fn c15(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let app = || {
        AppSpec::default()
            .reg(Kind::Get, "/p", vec![H::SeeQuery, H::Send(b"p".to_vec())], true)
            .reg(Kind::Get, "/", vec![H::SeeQuery, H::Send(b"root".to_vec())], true)
            .reg(Kind::Get, "/p/:v", vec![H::See, H::SeeQuery, H::Send(b"v".to_vec())], true)
            .reg(Kind::Mw, "", vec![H::See, H::Send(b"other".to_vec())], true)
    };
    let judge = |c: &Ctx| -> Result<bool, String> {
        model::no_panics(c.res)?;
        let (bytes, _) = model::stream(&c.exec.conns[0]);
        let Expect::Run(m) = model::expect(&bytes) else {
            model::answer(&c.res.conns[0], false)?;
            return Ok(false);
        };
        let r = model::answer(&c.res.conns[0], false)?;
        let d = model::dispatch(c.app, &m.method, &m.path);
        let want: &[u8] = match d.runs.first().map(|r| r.0) {
            Some(0) => b"p",
            Some(1) => b"root",
            Some(2) => b"v",
            _ => b"other",
        };
        if r.body != want {
            return Err(format!("routed to {:?}, expected {:?}", String::from_utf8_lossy(&r.body), String::from_utf8_lossy(want)));
        }
        for e in &c.res.log {
            if let Ev::Seen(s) = e {
                if s.path != m.path {
                    return Err(format!("path seen {:?}, expected {:?}", s.path, m.path));
                }
                if want == b"v" && s.vars != vec![("v".to_string(), m.path[1].clone())] {
                    return Err(format!("variables {:?}", s.vars));
                }
            }
            if let Ev::Query(q) = e {
                if let Some(w) = model::query(&m.query) {
                    if *q != w {
                        return Err(format!("query {:?}: handler saw {:?}, expected {:?}", m.query, q, w));
                    }
                    return Ok(!w.is_empty());
                }
            }
        }
        Ok(false)
    };
    if !cfg!(feature = "faithful") {
        return v;
    }
    let al = ['a', 'b', '=', '&', '%', '4', '1', '/', '?'];
    v.push(
        Fam::inputs(
            "query strings",
            app(),
            seqs(al.len(), if t { 7 } else { 6 }),
            move |j| {
                let s: String = seq(al.len(), j).iter().map(|x| al[*x]).collect();
                simple(&get(&format!("/p?{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    let al2 = ["a", "=", "&", "%", "2", "f", "G", "\u{e9}", "+", ".", "%c3%a9", "%00", "%0D%0A", "%25", "%26", "%3D"];
    v.push(
        Fam::inputs(
            "query strings, wider alphabet",
            app(),
            seqs(al2.len(), if t { 5 } else { 4 }) * 2,
            move |j| {
                let s: String = seq(al2.len(), j / 2).iter().map(|x| al2[*x]).collect();
                simple(&get(&if j % 2 == 0 { format!("/p?{}", s) } else { format!("/p/x?k={}", s) }))
            },
            judge,
        )
        .boxed(),
    );
    // every escape in both letter cases, alone and next to others
    v.push(
        Fam::inputs(
            "every percent escape",
            app(),
            256 * 256,
            move |j| {
                let s = format!("n=%{:02X}%{:02x}&m%{:02x}=1", j / 256, j % 256, j % 128);
                simple(&get(&format!("/p?{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    // every pair of bytes after a percent sign
    v.push(
        Fam::inputs(
            "every pair of characters after a percent sign",
            app(),
            96 * 96 * 2,
            move |j| {
                let d = mixed(j, &[96, 96, 2]);
                let ch = |x: usize| char::from_u32(0x21 + x as u32).filter(|c| *c <= '~').unwrap_or('\u{100}');
                let s = format!("a=%{}{}{}", ch(d[0]), ch(d[1]), if d[2] == 0 { "" } else { "%41z" });
                simple(&get(&format!("/p?{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    // characters beyond ASCII whose low byte is a digit or a separator, in every place of an escape
    let low: Vec<u32> = b"0123456789abcdefABCDEF%=&?".iter().map(|b| *b as u32).collect();
    let nl = low.len();
    let highs: Vec<u32> = if t { (1..0x110).chain([0x1000, 0x10ff]).collect() } else { (1..0x31).chain([0xff, 0x1f6, 0x10ff]).collect() };
    v.push(
        Fam::inputs(
            "wide characters in escapes",
            app(),
            nl * highs.len() * 5,
            move |j| {
                let d = mixed(j, &[nl, highs.len(), 5]);
                let w = char::from_u32(highs[d[1]] * 256 + low[d[0]]).unwrap_or('\u{141}');
                let s = match d[2] {
                    0 => format!("a=%{}1", w),
                    1 => format!("a=%4{}", w),
                    2 => format!("a=%{}{}&b=2", w, w),
                    3 => format!("a=x{}41&b=2", w),
                    _ => format!("%{}{}=%4{}%41", w, w, w),
                };
                simple(&get(&format!("/p?{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    // every character up to U+FFFF as UTF-8 escapes and verbatim
    v.push(
        Fam::inputs(
            "every character escaped",
            app(),
            0x10000 / if t { 1 } else { 4 },
            move |j| {
                let cp = (j * if t { 1 } else { 4 } + (j / 64) % 4) as u32;
                let ch = char::from_u32(cp).unwrap_or('x');
                let mut buf = [0; 4];
                let e: String = ch.encode_utf8(&mut buf).bytes().map(|b| format!("%{:02X}", b)).collect();
                simple(&get(&format!("/p?k{}=v{}w", e, e)))
            },
            judge,
        )
        .boxed(),
    );
    let pairs = ["a=1", "a=2", "b=", "=x", "c", "", "d==", "%61=3", "a"];
    v.push(
        Fam::inputs(
            "sequences of pairs",
            app(),
            seqs(pairs.len(), if t { 7 } else { 5 }) * 2,
            move |j| {
                let s: Vec<&str> = seq(pairs.len(), j / 2).iter().map(|x| pairs[*x]).collect();
                simple(&get(&format!("{}?{}", ["/p", "/p/../"][j % 2], s.join("&"))))
            },
            judge,
        )
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "targets with and without query",
            app(),
            seqs(6, 6),
            move |j| {
                let al = ["/", "p", "?", "..", "a=b", "%3F"];
                let s: String = seq(6, j).iter().map(|x| al[*x]).collect();
                simple(&get(&format!("/{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    v
}

pub fn c16(t: bool) -> Vec<Box<dyn Family>> {
    if !cfg!(all(feature = "faithful", feature = "extended_queries")) {
        return vec![];
    }
    let mut v = vec![];
    let app = || AppSpec::default().reg(Kind::Get, "/", vec![H::SeeExtQuery, H::Send(b"r".to_vec())], true);
    let judge = |c: &Ctx| -> Result<bool, String> {
        model::no_panics(c.res)?;
        let (bytes, _) = model::stream(&c.exec.conns[0]);
        let r = model::answer(&c.res.conns[0], false)?;
        let Expect::Run(m) = model::expect(&bytes) else {
            return Ok(false);
        };
        if r.body != b"r" {
            return Err("not routed to /".into());
        }
        for e in &c.res.log {
            if let Ev::Ext(q) = e {
                if let Some(w) = model::ext_query(&m.query) {
                    if *q != w {
                        return Err(format!("query {:?}: handler saw {:?}, expected {:?}", m.query, q, w));
                    }
                    return Ok(!w.is_empty());
                }
                return Ok(false);
            }
        }
        Err("no extended query recorded".into())
    };
    let pairs = ["a=1", "a=2", "a[]=3", "a[]=4", "a[k]=5", "a[k]=6", "a[l]=7", "b[]=%41", "b[k]=%c3%a9", "b", "a[]", "[]=x", "=y", ""];
    v.push(
        Fam::inputs(
            "sequences of pairs",
            app(),
            seqs(pairs.len(), if t { 6 } else { 5 }),
            move |j| {
                let s: Vec<&str> = seq(pairs.len(), j).iter().map(|x| pairs[*x]).collect();
                simple(&get(&format!("/?{}", s.join("&"))))
            },
            judge,
        )
        .boxed(),
    );
    let al = ['a', 'b', '=', '&', '[', ']', '%', '4'];
    v.push(
        Fam::inputs(
            "query strings",
            app(),
            seqs(al.len(), if t { 8 } else { 6 }),
            move |j| {
                let s: String = seq(al.len(), j).iter().map(|x| al[*x]).collect();
                simple(&get(&format!("/?{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    let al2 = ["a[", "]", "[", "k", "=v", "&", "a[]=", "%5B", "\u{e9}"];
    v.push(
        Fam::inputs(
            "bracket structures",
            app(),
            seqs(al2.len(), if t { 7 } else { 6 }),
            move |j| {
                let s: String = seq(al2.len(), j).iter().map(|x| al2[*x]).collect();
                simple(&get(&format!("/?{}", s)))
            },
            judge,
        )
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "long arrays and objects",
            app(),
            300,
            move |j| {
                let s: Vec<String> = (0..j).map(|k| if j % 2 == 0 { format!("arr[]={}", k) } else { format!("o[k{}]={}", k % 40, k) }).collect();
                simple(&get(&format!("/?{}", s.join("&"))))
            },
            judge,
        )
        .boxed(),
    );
    v
}

pub fn c18(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let p = Parts { line: true, headers: false, body: false, cookies: false };
    let ms: Vec<String> = model::METHODS
        .iter()
        .flat_map(|m| {
            let l = m.0.to_lowercase();
            let mut cap = l.clone();
            cap.replace_range(..1, &m.0[..1]);
            vec![m.0.to_string(), l, cap, format!("{}X", m.0), m.0[1..].to_string(), m.0[..m.0.len() - 1].to_string()]
        })
        .chain(["", "ALL", "NONE", "LINK", "*", "\u{e9}", "G ET"].iter().map(|s| s.to_string()))
        .collect();
    let vs = ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/3.0", "HTTP/1", "HTTP/", "HTTP", "HTTP/1.1.1", "http/1.1", "HTTP/01.1", "", "HTDP/1.1", "1.1", "HTTP /1.1", "HTTPS/1.1"];
    let hs = ["", "Host: h\r\n", "host:\r\n", "HOST: x\r\nA: b\r\n", "Hos: h\r\n", "X-Host: h\r\n", "A: Host\r\n"];
    let ts = ["/", "/a/b", "*", "/..", "/a?b=c"];
    let radix = [ms.len(), vs.len(), hs.len(), ts.len()];
    let ms2 = ms.clone();
    v.push(
        Fam::inputs(
            "methods x versions x headers x targets",
            seer(),
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                one(conn(format!("{} {} {}\r\n{}\r\n", ms2[d[0]], ts[d[3]], vs[d[1]], hs[d[2]]).as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    let toks = ["GET", "/", "HTTP/1.1", " ", "X", "HTTP/", "1.0", "\t", "PATCH"];
    let n = seqs(toks.len(), if t { 7 } else { 5 });
    v.push(
        Fam::inputs(
            "request-line token sequences",
            seer(),
            n * 2,
            move |j| {
                let s: String = seq(toks.len(), j / 2).iter().map(|x| toks[*x]).collect();
                one(conn(format!("{}\r\n{}\r\n", s, ["", "Host: h\r\n"][j % 2]).as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // what looks like a Host header is none
    let f = super::scale::FIELDS;
    let radix = [9, f.len(), f.len()];
    v.push(
        Fam::inputs(
            "pairs of header fields without Host",
            seer(),
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                one(conn(format!("{} /a HTTP/1.1\r\n{}{}\r\n", model::METHODS[d[0]].0, f[d[1]], f[d[2]]).as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    let ns: Vec<String> = (0..=255u8)
        .flat_map(|b| (0..=4).map(move |k| (b, k)))
        .filter(|(b, _)| http::is_token(*b))
        .flat_map(|(b, k)| {
            let (mut ins, mut rep) = ("Host".to_string(), "Host".to_string());
            ins.insert(k, b as char);
            if k < 4 {
                rep.replace_range(k..k + 1, &(b as char).to_string())
            }
            [ins, rep]
        })
        .collect();
    v.push(
        Fam::inputs(
            "names one character away from Host",
            seer(),
            ns.len() * 9,
            move |j| one(conn(format!("{} /a HTTP/1.1\r\n{}: h\r\n\r\n", model::METHODS[j % 9].0, ns[j / 9]).as_bytes()).eof()),
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // any Host will do
    let vis: Vec<char> = (0x20..0x7fu8).map(|c| c as char).chain(['\t', '\u{e9}']).collect();
    let nh = vis.len();
    v.push(
        Fam::inputs(
            "every short Host",
            seer(),
            seqs(nh, 2) * 4,
            move |j| {
                let s: String = seq(nh, j / 4).iter().map(|x| vis[*x]).collect();
                let h = match j % 4 {
                    0 => s,
                    1 => format!("h{}", s),
                    2 => format!("{}h", s),
                    _ => format!("h{}:80", s),
                };
                one(conn(format!("GET /a HTTP/1.1\r\nHost: {}\r\n\r\n", h).as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // every short version
    let cs = ['0', '1', '2', '3', '9', '.', '-', 'x'];
    v.push(
        Fam::inputs(
            "versions",
            seer(),
            seqs(cs.len(), 4) * 2,
            move |j| {
                let s: String = seq(cs.len(), j / 2).iter().map(|x| cs[*x]).collect();
                one(conn(format!("GET /a HTTP/{}\r\n{}\r\n", s, ["", "Host: h\r\n"][j % 2]).as_bytes()).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // every byte in method and version
    v.push(
        Fam::inputs(
            "every byte in the request line",
            seer(),
            256 * 18,
            move |j| {
                let mut b = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec();
                let k = j / 256;
                if k < 14 {
                    b[k] = (j % 256) as u8
                } else {
                    b.insert([0, 3, 6, 14][k - 14], (j % 256) as u8)
                }
                one(conn(&b).eof())
            },
            move |c| contract(c, p),
        )
        .boxed(),
    );
    // 404 only if no handler gave a body, for every method
    let bodies: Vec<Vec<H>> = vec![vec![], vec![H::Status(1)], vec![H::Set("A".into(), "b".into())], vec![H::Send(vec![])], vec![H::Send(b"x".to_vec())], vec![H::Redirect("/".into())], vec![H::DefaultHeaders]];
    let nb = bodies.len();
    v.push(
        Fam::grid(
            "404 for requests nobody answers",
            nb * nb,
            move |i| {
                AppSpec::default()
                    .reg(Kind::All, "/a", bodies[i % nb].clone(), false)
                    .reg(Kind::Mw, "", bodies[i / nb].clone(), false)
            },
            model::METHODS.iter().flat_map(|m| [simple(&request(m.0, "/a")), simple(&request(m.0, "/b"))]).collect(),
            |c| {
                model::no_panics(c.res)?;
                let (b, _) = model::stream(&c.exec.conns[0]);
                let s = String::from_utf8_lossy(&b).to_string();
                let mut w = s.split(' ');
                let (m, p) = (w.next().unwrap(), w.next().unwrap());
                let d = model::dispatch(c.app, m, &model::normalise(p).unwrap());
                let body = d.runs.iter().any(|r| r.1.ops.iter().any(|o| matches!(o, H::Send(_))));
                let r = model::answer_to(&c.res.conns[0], &model::stream(&c.exec.conns[0]).0)?;
                if (r.code == 404) == body {
                    return Err(format!("{} {}: status {}", m, p, r.code));
                }
                Ok(true)
            },
        )
        .boxed(),
    );
    v
}

pub fn c22(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let app = || AppSpec::one(vec![H::Send(b"ok".to_vec())]);
    let judge = |c: &Ctx| -> Result<bool, String> {
        model::no_panics(c.res)?;
        let (bytes, _) = model::stream(&c.exec.conns[0]);
        let limit = 24 * bytes.len() + 48 * 1024;
        if c.res.mem_peak > limit {
            return Err(format!("{} bytes of heap in use while only {} bytes were received", c.res.mem_peak, bytes.len()));
        }
        if c.res.mem_left > 8 * 1024 {
            return Err(format!("{} bytes of heap still in use after the connection", c.res.mem_left));
        }
        Ok(true)
    };
    // announced lengths: all powers of ten and two and their neighbours
    let mut lens: Vec<String> = vec![];
    for k in 0..66u32 {
        let x = 1u128 << k;
        for y in [x - 1, x, x + 1] {
            lens.push(y.to_string())
        }
    }
    for k in 0..40u32 {
        lens.push(format!("1{}", "0".repeat(k as usize)));
        lens.push("9".repeat(k as usize + 1));
    }
    for s in ["-1", "abc", "", "1e9", "0x7fffffff", "+5"] {
        lens.push(s.to_string())
    }
    let n = lens.len();
    let sent = [0usize, 1, 5, 600, 5000];
    v.push(
        Fam::inputs(
            "announced lengths",
            app(),
            n * 5 * 4,
            move |j| {
                let d = mixed(j, &[n, 5, 4]);
                let mut b = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", lens[d[0]]).into_bytes();
                b.extend(pattern(sent[d[1]]));
                let mut c = if d[2] >= 2 { let l = b.len(); cut(&b, &[l / 2, l - 1], 3) } else { conn(&b) };
                if d[2] % 2 == 1 {
                    c.input.push(In::Eof)
                }
                one(c)
            },
            judge,
        )
        .boxed(),
    );
    // memory stays proportional for heads and bodies of every size
    let step = if t { 7 } else { 61 };
    v.push(
        Fam::inputs(
            "sizes really sent",
            app(),
            20_000 / step * 3,
            move |j| {
                let s = (j / 3) * step;
                let b = match j % 3 {
                    0 => format!("GET / HTTP/1.1\r\nHost: h\r\nX: {}\r\n\r\n", "v".repeat(s)).into_bytes(),
                    1 => {
                        let mut b = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", s).into_bytes();
                        b.extend(pattern(s));
                        b
                    }
                    _ => "x".repeat(s).into_bytes(),
                };
                one(if j % 2 == 0 { conn(&b).eof() } else { conn(&b) })
            },
            judge,
        )
        .boxed(),
    );
    // histories: with no connection open, the heap is as small after the 40th connection as after
    // the 20th, whatever the clients do and however the connections end
    let dir = super::res::files(false).dir.clone();
    let apps: Vec<AppSpec> = vec![
        app(),
        AppSpec::one(vec![]),
        AppSpec::one(vec![H::SendPattern(9000), H::Set("A".into(), "b".into()), H::Cookie("c".into(), "d".into(), 3)]),
        AppSpec::one(vec![H::SendFile(format!("{}/s6147.bin", dir))]),
        AppSpec::one(vec![H::SendFile(format!("{}/nothing", dir)), H::Redirect("/x".into()), H::Json(1)]),
        AppSpec::default()
            .reg(Kind::Mw, "", vec![H::Yield(2)], false)
            .reg(Kind::All, "/:v/:w", vec![H::Echo], false)
            .reg(Kind::Get, "/a/*", vec![H::Attachment], false)
            .reg(Kind::All, "/", vec![H::Send(b"root".to_vec())], true),
        AppSpec::default().reg(Kind::Mw, "", vec![H::Yield(1), H::Panic], false),
    ];
    let many: String = (0..40).map(|i| format!("X-H{}: value {}\r\n", i, i)).collect();
    let reqs: Vec<Vec<u8>> = vec![
        get("/"),
        get("/a/b?x=1&y=%20z&x=2"),
        format!("GET /a HTTP/1.1\r\nHost: h\r\nCookie: a=b; c=d; e=f\r\n{}\r\n", many).into_bytes(),
        [b"POST /a/b HTTP/1.1\r\nHost: h\r\nContent-Length: 3000\r\n\r\n".to_vec(), pattern(3000)].concat(),
        b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Length: 100\r\n\r\nabc".to_vec(),
        b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 100000000\r\n\r\nabc".to_vec(),
        b"HEAD / HTTP/1.0\r\n\r\n".to_vec(),
        b"GET / HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n".to_vec(),
        b"BAD\r\n\r\n".to_vec(),
        b"GET / HTTP/1.1\r\nbad header\r\n\r\n".to_vec(),
        b"GET / HT".to_vec(),
        vec![],
        [get("/"), get("/a/b"), get("/none"), get("/a")].concat(),
    ];
    let (na, nr) = (apps.len(), reqs.len());
    let rounds = if t { 400 } else { 40 };
    v.push(
        Fam {
            name: "nothing accumulates over connections".into(),
            apps: na,
            app: Box::new(move |i| apps[i].clone()),
            execs: Box::new(move |_| nr * 5),
            exec: Box::new(move |_, j| {
                let b = &reqs[j / 5];
                let mut c = match j % 5 {
                    1 => {
                        let l = b.len();
                        cut(b, &[l / 3, l - l.min(1)], 3)
                    }
                    _ => conn(b),
                };
                match j % 5 {
                    2 => c.input.push(In::Reset(libc::ECONNRESET)),
                    3 => {
                        c.output = vec![Out::N(10), Out::Block, Out::Err(libc::EPIPE)];
                        c.input.push(In::Eof)
                    }
                    _ => c.input.push(In::Eof),
                }
                // one after the other, or ten at a time
                let mut schedule = vec![];
                if j % 5 == 4 {
                    for _ in 0..rounds / 10 {
                        schedule.extend(0..10);
                        schedule.extend([0; 10]);
                    }
                }
                Exec { conns: vec![c; rounds], schedule, ..Default::default() }
            }),
            judge: Box::new(move |c| {
                let r = &c.res.rest;
                if let Some(k) = c.res.conns.iter().position(|x| !x.closed) {
                    return Err(format!("connection {} of {} was not closed", k, rounds));
                }
                let grown = r[r.len() - 1] - r[r.len() / 2];
                if grown > 2 * rounds as isize {
                    return Err(format!("with no connection open the heap grew by {} bytes over {} connections", grown, r.len() - 1 - r.len() / 2));
                }
                Ok(true)
            }),
            devs: None,
            base: None,
            env: None,
        }
        .boxed(),
    );
    v
}
