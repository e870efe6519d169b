//! C23: the server over TLS. Every execution has a TLS client and, after it, the same request on the
//! plain port: what the client decrypts and what the handlers see must be the same. The client's TLS
//! engine runs inside the explorer, which decides how its flights arrive and what sends accept.
use super::scale::{marks, FIELDS, TARGETS, VERSIONS};
use super::*;
use crate::model;
use crate::tls::{Cut, End, Plan};

const PLAIN: u16 = 80;
const TLS: u16 = 443;

fn plan(data: &[u8]) -> Plan {
    Plan { data: data.to_vec(), records: vec![], cut: Cut::Whole, v13: true, end: End::Open }
}
fn tls(p: Plan) -> Conn {
    Conn { port: TLS, tls: Some(Box::new(p)), ..Default::default() }
}
fn plain(data: &[u8], end: End) -> Conn {
    let c = conn(data);
    if matches!(end, End::Open) {
        c
    } else {
        c.eof()
    }
}
/// The TLS client and its plain twin.
fn twins(p: Plan, output: Vec<Out>) -> Exec {
    let twin = plain(&p.data, p.end);
    let mut c = tls(p);
    c.output = output;
    Exec { conns: vec![c, twin], ..Default::default() }
}

fn app() -> AppSpec {
    let mut a = super::scale::rich();
    a.steps.push(Step::Conf(Conf::Tls(TLS, 0)));
    a
}

/// Header fields in canonical order.
fn canon(out: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
    match out.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(k) => {
            let mut l: Vec<Vec<u8>> =
                out[..k].split(|b| *b == b'\n').map(|x| x.strip_suffix(b"\r").unwrap_or(x).to_vec()).collect();
            l[1..].sort_unstable();
            (l, out[k..].to_vec())
        }
        None => (vec![], out.to_vec()),
    }
}

fn show(b: &[u8]) -> String {
    format!("{} bytes {:?}", b.len(), clip(&String::from_utf8_lossy(b), 600))
}

fn same(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let (a, b) = (&c.res.conns[0], &c.res.conns[1]);
    let p = c.exec.conns[0].tls.as_ref().unwrap();
    let s = a.tls.as_ref().ok_or("no TLS client")?;
    if let Some(e) = &s.error {
        return Err(format!("the TLS client refused what the server sent: {}", e));
    }
    if !s.done {
        return Err("the handshake did not complete".into());
    }
    // an end without a close notification may be treated as a failed connection
    let abrupt = p.end == End::Eof;
    let n = c.res.log.len();
    if abrupt && s.plain.is_empty() && !b.out.is_empty() {
        // refused: then no handler may have run for it
        let ran = model::actual_runs(&c.res.log).len();
        let complete = !matches!(model::expect(&p.data), model::Expect::Wait);
        if complete {
            return Err("a complete request got no answer".into());
        }
        return if ran == 0 { Ok(true) } else { Err("a handler ran on a request cut short".into()) };
    }
    if n % 2 != 0 || c.res.log[..n / 2] != c.res.log[n / 2..] {
        return Err(format!("the handlers saw different things over TLS and in the clear ({} records)", n));
    }
    if canon(&s.plain) != canon(&b.out) {
        return Err(format!("over TLS the client got {}, in the clear {}", show(&s.plain), show(&b.out)));
    }
    if a.closed != b.closed {
        return Err(format!("closed over TLS: {}, in the clear: {}", a.closed, b.closed));
    }
    Ok(!b.out.is_empty())
}

fn req(n: usize) -> Vec<u8> {
    let r = |s: &str| s.as_bytes().to_vec();
    match n {
        0 => r("GET /p/lit HTTP/1.1\r\nHost: h\r\n\r\n"),
        1 => r("POST /p/x?a=b HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nhello"),
        2 => r("HEAD /p/lit HTTP/1.1\r\nHost: h\r\n\r\n"),
        3 => r("GET /file HTTP/1.1\r\nHost: h\r\n\r\n"),
        4 => r("GET / HTTP/1.0\r\n\r\n"),
        5 => r("GET /none HTTP/1.1\r\nHost: h\r\n\r\n"),
        6 => r("HEAD /none HTTP/1.1\r\nHost: h\r\n\r\n"),
        7 => r("BREW /p/lit HTTP/1.1\r\nHost: h\r\n\r\n"),
        8 => r("GET /p/lit HTTP/1.1\r\n\r\n"),
        9 => r("PUT /p/lit HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\nCookie: a=b; c=d\r\n\r\n"),
        10 => r("POST /p/x HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\n\r\nhello"),
        11 => r("HEAD /p/lit HTTP/1.1\r\n\r\n"),
        _ => r("junk\r\n\r\n"),
    }
}
const REQS: usize = 13;

fn flag(b: usize) -> bool {
    b == 1
}

pub fn c23(t: bool) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = vec![];
    // every request of the product, in every version of the protocol
    let radix = [2, 9, TARGETS.len(), VERSIONS.len(), 3, if t { FIELDS.len() } else { 4 }];
    let step = radix.iter().product::<usize>();
    v.push(
        Fam::inputs(
            "methods x targets x versions x bodies x header fields x TLS versions",
            app(),
            step,
            move |j| {
                let d = mixed(j, &radix);
                let b = ["\r\n", "Content-Length: 4\r\n\r\nbody", "Content-Length: 3000\r\n\r\n"][d[4]];
                let mut q =
                    format!("{} {} {}\r\nHost: h\r\n{}{}", model::METHODS[d[1]].0, TARGETS[d[2]], VERSIONS[d[3]], FIELDS[d[5]], b)
                        .into_bytes();
                if d[4] == 2 {
                    q.extend(pattern(3000));
                }
                let mut p = plan(&q);
                p.v13 = flag(d[0]);
                twins(p, vec![])
            },
            same,
        )
        .boxed(),
    );
    // how the flights arrive
    let mut cuts = vec![];
    for k in 1..=if t { 900 } else { 300 } {
        cuts.push(Cut::Pieces(k));
        if k < 300 {
            cuts.push(Cut::Short(k));
        }
    }
    for f in 0..3 {
        for k in 1..=if t { 420 } else { 260 } {
            cuts.push(Cut::At(f, k));
        }
    }
    let rs: &'static [usize] = if t { &[0, 1, 2, 3, 7, 10] } else { &[1, 2] };
    let n = cuts.len();
    let c2 = cuts.clone();
    v.push(
        Fam::inputs(
            "every uniform segmentation and every single cut of every flight",
            app(),
            n * 2 * rs.len(),
            move |j| {
                let d = mixed(j, &[2, rs.len(), n]);
                let mut p = plan(&req(rs[d[1]]));
                p.v13 = flag(d[0]);
                p.cut = c2[d[2]];
                twins(p, vec![])
            },
            same,
        )
        .boxed(),
    );
    // how the request is divided into records
    let radix = [2, REQS, 80, 3, 3];
    v.push(
        Fam::inputs(
            "requests x records x segments",
            app(),
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                let q = req(d[1]);
                let mut p = plan(&q);
                p.v13 = flag(d[0]);
                // one cut into two records at every byte, or records of this size throughout
                p.records = match d[3] {
                    0 => vec![d[2] + 1, 100_000],
                    1 => vec![d[2] + 1],
                    _ => vec![d[2] + 1, 1, 100_000],
                };
                p.cut = [Cut::Whole, Cut::Pieces(7), Cut::Short(64)][d[4]];
                twins(p, vec![])
            },
            same,
        )
        .boxed(),
    );
    // large ones
    let m: Vec<usize> = marks(if t { 1 << 20 } else { 1 << 17 }).into_iter().filter(|x| *x > 66).collect();
    let n = m.len();
    v.push(
        Fam::inputs(
            "request bodies grown",
            app(),
            n * 2 * 4,
            move |j| {
                let d = mixed(j, &[2, 4, n]);
                let mut q = format!("POST /p/x HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", m[d[2]]).into_bytes();
                q.extend(pattern(m[d[2]]));
                let mut p = plan(&q);
                p.v13 = flag(d[0]);
                match d[1] {
                    0 => {}
                    1 => p.cut = Cut::Pieces(1460),
                    2 => p.cut = Cut::Short(4096),
                    _ => p.records = vec![1000],
                }
                twins(p, vec![])
            },
            same,
        )
        .boxed(),
    );
    let m: Vec<usize> = marks(if t { 1 << 22 } else { 1 << 18 });
    let outs: Vec<Vec<Out>> = vec![
        vec![],
        vec![Out::N(1000); 300],
        vec![Out::Block; 3],
        (0..400).map(|k| if k % 2 == 0 { Out::N(5000) } else { Out::Block }).collect(),
    ];
    let n = m.len();
    v.push(
        Fam {
            name: "response bodies grown".into(),
            apps: n,
            app: Box::new(move |i| {
                let mut a = AppSpec::one(vec![H::SendPattern(m[i])]);
                a.steps.push(Step::Conf(Conf::Tls(TLS, 0)));
                a
            }),
            execs: Box::new(move |_| 16),
            exec: Box::new(move |_, j| {
                let d = mixed(j, &[2, 4, 2]);
                let mut p = plan(&req(if d[2] == 0 { 0 } else { 2 }));
                p.v13 = flag(d[0]);
                twins(p, outs[d[1]].clone())
            }),
            judge: Box::new(same),
            devs: None,
            base: None,
            env: None,
        }
        .boxed(),
    );
    // what the socket accepts
    const A: [Out; 5] = [Out::All, Out::N(1), Out::N(60), Out::Block, Out::N(1400)];
    let depth = if t { 6 } else { 4 };
    let rs: &'static [usize] = if t { &[0, 1, 2, 3, 4, 5, 6, 7, 10, 11] } else { &[0, 2, 3, 6, 7, 11] };
    let k = seqs(A.len(), depth);
    v.push(
        Fam::inputs(
            "every sequence of socket answers",
            app(),
            k * 2 * rs.len(),
            move |j| {
                let d = mixed(j, &[2, rs.len(), k]);
                let mut p = plan(&req(rs[d[1]]));
                p.v13 = flag(d[0]);
                twins(p, seq(A.len(), d[2]).into_iter().map(|x| A[x].clone()).collect())
            },
            same,
        )
        .boxed(),
    );
    let rs: &'static [usize] = &[0, 2, 3, 6, 7, 11];
    let sz = if t { 400 } else { 120 };
    v.push(
        Fam::inputs(
            "one partial or blocked send at every position",
            app(),
            8 * sz * 2 * rs.len() * 2,
            move |j| {
                let d = mixed(j, &[2, rs.len(), 8, sz, 2]);
                let mut p = plan(&req(rs[d[1]]));
                p.v13 = flag(d[0]);
                let mut o = vec![Out::All; d[2]];
                // this much, then nothing for a while
                o.push(Out::N(if t { d[3] } else { d[3] * 3 }));
                o.push(Out::Block);
                if d[4] == 1 {
                    o.push(Out::N(1));
                    o.push(Out::Block);
                    o.push(Out::Block);
                }
                twins(p, o)
            },
            same,
        )
        .boxed(),
    );
    // how the client ends
    let radix = [2, REQS, 4, 4, 120];
    v.push(
        Fam::inputs(
            "ends and truncations",
            app(),
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                let mut q = req(d[1]);
                let keep = q.len().saturating_sub(d[4]);
                q.truncate(keep);
                let mut p = plan(&q);
                p.v13 = flag(d[0]);
                p.end = [End::Open, End::Notify, End::NotifyEof, End::Eof][d[2]];
                p.cut = [Cut::Whole, Cut::Pieces(1000), Cut::Short(10), Cut::Pieces(33)][d[3]];
                twins(p, vec![])
            },
            same,
        )
        .boxed(),
    );
    v.extend(disturbed(t));
    v.extend(setup(t));
    v
}

/// The bytes a TLS client sends first.
fn hello(v13: bool) -> Vec<u8> {
    let mut p = plan(b"");
    p.v13 = v13;
    let mut b = vec![];
    for x in crate::tls::peer(&p).start() {
        if let In::Data(d) | In::More(d) = x {
            b.extend(d)
        }
    }
    b
}

/// A client on the TLS port that does not play by the rules.
fn bad(n: usize) -> Conn {
    let raw = |input: Vec<In>| Conn { port: TLS, input, ..Default::default() };
    let f = n / 4;
    let end = match n % 4 {
        0 => None,
        1 => Some(In::Eof),
        2 => Some(In::Reset(libc::ECONNRESET)),
        _ => Some(In::Fail(libc::ETIMEDOUT)),
    };
    let mut steps: Vec<In> = match f {
        0 => vec![],
        1 => vec![In::Data(req(0))],
        2 => vec![In::Data(req(1))],
        3 => vec![In::Data(vec![0; 5000])],
        4 => vec![In::Data(vec![0xff; 5000])],
        5 => vec![In::Data(vec![0x16, 3, 1, 0xff, 0xff])],
        6 => vec![In::Data(vec![0x16, 3, 1, 0, 0])],
        7 => vec![In::Data(vec![0x15, 3, 3, 0, 2, 2, 40])],
        8 => vec![In::Data(vec![0x15, 3, 3, 0, 2, 1, 0])],
        9 => vec![In::Data(vec![0x17, 3, 3, 0, 5, 1, 2, 3, 4, 5])],
        10 => vec![In::Data(vec![0x14, 3, 3, 0, 1, 1])],
        11 => vec![In::Data(vec![0x80, 0x2e, 1, 0, 2])],
        12 => vec![In::Data(hello(true)), In::Data(hello(true))],
        13 => vec![In::Data(hello(false)), In::Data(req(0))],
        14 => vec![In::Data(hello(true)), In::Data(vec![0x17; 300])],
        _ => {
            // one byte of the hello changed
            let mut h = hello(f % 2 == 0);
            let k = (f - 15) / 2;
            let n = h.len();
            h[k % n] ^= [0xff, 1, 0x80][(k / n) % 3];
            vec![In::Data(h)]
        }
    };
    steps.extend(end);
    raw(steps)
}

/// The answers to the clients that do play by the rules (all but the first).
fn undisturbed(c: &Ctx) -> Result<bool, String> {
    model::no_panics(c.res)?;
    for (k, (x, r)) in c.exec.conns.iter().zip(&c.res.conns).enumerate().skip(1) {
        let (data, cr) = match &x.tls {
            Some(p) => {
                let s = r.tls.as_ref().unwrap();
                if let Some(e) = &s.error {
                    return Err(format!("TLS client {} refused what the server sent: {}", k, e));
                }
                (p.data.clone(), ConnResult { out: s.plain.clone(), ..r.clone() })
            }
            None => (model::stream(x).0, r.clone()),
        };
        let a = model::answer(&cr, data.starts_with(b"HEAD ")).map_err(|e| format!("client {}: {}", k, e))?;
        let id = match std::str::from_utf8(&data).unwrap().split("X-Id: ").nth(1) {
            Some(s) => s.split("\r\n").next().unwrap().to_string(),
            None => return Err("harness: no id".into()),
        };
        if a.code != 200 || a.get("X-Id") != Some(id.as_str()) || !a.body.starts_with(format!("<{}|", id).as_bytes()) {
            return Err(format!("client {} ({}) got {}", k, id, show(&cr.out)));
        }
    }
    Ok(true)
}

fn echo_app() -> AppSpec {
    let mut a = AppSpec::one(vec![H::Echo]);
    a.steps.push(Step::Conf(Conf::Tls(TLS, 0)));
    a
}
fn id(n: usize) -> Vec<u8> {
    format!("POST /a/b HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\nX-Id: n{}\r\n\r\n{:02}", n, n).into_bytes()
}

fn disturbed(t: bool) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = vec![];
    let kinds = if t { 4 * (15 + 2 * 700) } else { 4 * (15 + 2 * 240) };
    v.push(
        Fam::inputs(
            "clients that are not TLS clients, others before and after",
            echo_app(),
            kinds * 2,
            move |j| {
                let d = mixed(j, &[2, kinds]);
                let mut p = plan(&id(1));
                p.v13 = flag(d[0]);
                Exec { conns: vec![bad(d[1]), tls(p), conn(&id(2))], ..Default::default() }
            },
            undisturbed,
        )
        .boxed(),
    );
    // the handshake broken off at every byte, alongside others, in every order
    let lens = if t { 420 } else { 240 };
    let radix = [2, 3, lens, 3];
    v.push(
        Fam::inputs(
            "handshakes broken off at every byte",
            echo_app(),
            radix.iter().product(),
            move |j| {
                let d = mixed(j, &radix);
                let mut b = plan(&id(0));
                b.v13 = flag(d[0]);
                b.cut = Cut::Stop(d[1], d[2], [0, libc::ECONNRESET, libc::ETIMEDOUT][d[3]]);
                let mut p = plan(&id(1));
                p.v13 = flag(1 - d[0]);
                Exec { conns: vec![tls(b), tls(p), conn(&id(2))], ..Default::default() }
            },
            undisturbed,
        )
        .boxed(),
    );
    let some: &'static [usize] = &[0, 4, 5, 6, 12, 29, 30, 48, 52, 57];
    let stops: &'static [(usize, usize)] = &[(0, 0), (0, 3), (0, 100), (1, 0), (1, 20), (2, 0), (2, 10)];
    let n = some.len() + stops.len() * 2 + 2;
    v.push(
        Fam::inputs(
            "a failing, a TLS and a plain client, interleaved",
            echo_app(),
            n * 2,
            move |j| {
                let d = mixed(j, &[2, n]);
                let first = if d[1] < some.len() {
                    bad(some[d[1]])
                } else if d[1] < n - 2 {
                    let k = d[1] - some.len();
                    let mut b = plan(&id(0));
                    b.v13 = flag(d[0]);
                    b.cut = Cut::Stop(stops[k / 2].0, stops[k / 2].1, [0, libc::ECONNRESET][k % 2]);
                    tls(b)
                } else {
                    // one that never reads
                    let mut b = plan(&id(0));
                    b.v13 = flag(d[0]);
                    let mut c = tls(b);
                    c.output = if d[1] == n - 1 { vec![Out::Stuck; 50] } else { vec![Out::All, Out::Err(libc::EPIPE)] };
                    c
                };
                let mut p = plan(&id(1));
                p.v13 = flag(d[0]);
                p.cut = Cut::Pieces(150);
                let mut c = tls(p);
                c.output = vec![Out::N(500), Out::Block];
                Exec { conns: vec![first, c, super::req::cut(&id(2), &[20, 50], 3)], ..Default::default() }
            },
            undisturbed,
        )
        .devs(if t { 3 } else { 2 })
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "TLS and plain clients interleaved",
            echo_app(),
            8,
            move |j| {
                let d = mixed(j, &[2, 2, 2]);
                let mut conns = vec![conn(b"")];
                for k in 1..3 {
                    let mut p = plan(&id(k));
                    p.v13 = flag(d[k - 1]);
                    p.records = vec![60, 7];
                    p.cut = if d[2] == 0 { Cut::Whole } else { Cut::Pieces(130) };
                    let mut c = tls(p);
                    c.output = vec![Out::N(700), Out::Block];
                    conns.push(c);
                }
                conns.push(super::req::cut(&id(3), &[20, 55], 3));
                Exec { conns, ..Default::default() }
            },
            undisturbed,
        )
        .devs(if t { 4 } else { 3 })
        .boxed(),
    );
    // accept errors on either port
    const E: [i32; 5] = [0, libc::ECONNABORTED, libc::EMFILE, libc::EINTR, libc::ENOMEM];
    let depth = if t { 5 } else { 4 };
    let k = seqs(E.len(), depth);
    v.push(
        Fam::inputs(
            "accept errors on both ports",
            echo_app(),
            k * 2,
            move |j| {
                let d = mixed(j, &[2, k]);
                let mut conns = vec![];
                for n in 0..depth + 2 {
                    if n % 2 == d[0] {
                        conns.push(tls(plan(&id(n))))
                    } else {
                        conns.push(conn(&id(n)))
                    }
                }
                Exec { conns, accept_faults: seq(E.len(), d[1]).into_iter().map(|x| E[x]).collect(), ..Default::default() }
            },
            move |c| {
                model::no_panics(c.res)?;
                // those the system gave up on were never accepted; every other one is answered
                let lost = c.exec.accept_faults.iter().filter(|e| **e == libc::ECONNABORTED).count();
                let mut bad = 0;
                for (x, r) in c.exec.conns.iter().zip(&c.res.conns) {
                    let out = match (&x.tls, &r.tls) {
                        (Some(_), Some(s)) => &s.plain,
                        _ => &r.out,
                    };
                    let data = match &x.tls {
                        Some(p) => p.data.clone(),
                        None => model::stream(x).0,
                    };
                    if !r.accepted {
                        bad += 1;
                        continue;
                    }
                    let a = model::answer(&ConnResult { out: out.clone(), ..r.clone() }, false)?;
                    let id = String::from_utf8_lossy(&data).split("X-Id: ").nth(1).unwrap().split("\r\n").next().unwrap().to_string();
                    if a.code != 200 || a.get("X-Id") != Some(id.as_str()) {
                        return Err(format!("client {} got {}", id, show(out)));
                    }
                }
                if bad != lost {
                    return Err(format!("{} connections were never served, {} were lost by the system", bad, lost));
                }
                Ok(true)
            },
        )
        .boxed(),
    );
    // a long history
    let ns: &'static [usize] = if t { &[50, 300, 1000] } else { &[50, 300] };
    v.push(
        Fam::inputs(
            "histories",
            echo_app(),
            ns.len(),
            move |j| {
                let mut conns = vec![conn(b"")];
                for n in 0..ns[j] {
                    if n % 3 == 0 {
                        conns.push(tls(plan(&id(n))))
                    } else if n % 3 == 1 {
                        let mut p = plan(&id(n));
                        p.v13 = false;
                        conns.push(tls(p))
                    } else {
                        conns.push(conn(&id(n)))
                    }
                }
                Exec { conns, ..Default::default() }
            },
            undisturbed,
        )
        .boxed(),
    );
    v
}

/// Keys and certificates that cannot be used, and ports.
fn setup(t: bool) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = vec![];
    let ports: Vec<usize> = marks(65535).into_iter().filter(|p| *p > 0 && *p != PLAIN as usize).collect();
    let n = if t { ports.len() } else { ports.len() / 2 };
    let p2 = ports.clone();
    v.push(
        Fam {
            name: "TLS ports".into(),
            apps: n,
            app: Box::new(move |i| {
                let mut a = AppSpec::one(vec![H::Echo]);
                a.steps.push(Step::Conf(Conf::Tls(ports[i] as u16, 0)));
                a
            }),
            execs: Box::new(|_| 1),
            exec: Box::new(move |i, _| {
                let mut c = tls(plan(&id(1)));
                c.port = p2[i] as u16;
                Exec { conns: vec![conn(b""), c, conn(&id(2))], ..Default::default() }
            }),
            judge: Box::new(undisturbed),
            devs: None,
            base: None,
            env: None,
        }
        .boxed(),
    );
    // whatever is wrong with the set-up of TLS, the plain port works
    v.push(
        Fam {
            name: "TLS cannot be set up".into(),
            apps: 9,
            app: Box::new(move |i| {
                let mut a = AppSpec::one(vec![H::Echo]);
                if i > 0 {
                    a.steps.push(Step::Conf(Conf::Tls(TLS, i as u32 - 1)));
                }
                a
            }),
            execs: Box::new(|_| 2),
            exec: Box::new(move |_, j| {
                let mut e = Exec { conns: vec![tls(plan(&id(0))), conn(&id(1)), conn(&id(2))], ..Default::default() };
                if j == 1 {
                    e.conns[0] = conn(b"");
                }
                e
            }),
            judge: Box::new(|c| {
                for (k, r) in c.res.conns.iter().enumerate().skip(1) {
                    let a = model::answer(r, false).map_err(|e| format!("plain client {}: {}", k, e))?;
                    if a.code != 200 || a.get("X-Id") != Some(format!("n{}", k).as_str()) {
                        return Err(format!("plain client {} got {}", k, show(&r.out)));
                    }
                }
                // without a certificate nothing is promised over TLS
                if c.i == 1 && c.j == 0 && c.res.conns[0].tls.as_ref().map(|s| s.plain.is_empty()).unwrap_or(true) {
                    return Err("the TLS client got no answer".into());
                }
                Ok(true)
            }),
            devs: None,
            base: None,
            env: None,
        }
        .boxed(),
    );
    v.push(
        Fam::grid(
            "the TLS port is taken",
            1,
            |_| echo_app(),
            vec![Exec { conns: vec![conn(b""), conn(&id(1)), conn(&id(2))], ..Default::default() }],
            undisturbed,
        )
        .env(|_, s| s.busy_ports.push(TLS))
        .boxed(),
    );
    v
}
