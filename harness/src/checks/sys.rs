//! C09, C19, C21, C28: connections among each other, the accept loop, configuration, set-up.
use super::*;
use crate::http;
use crate::model;

// ---------------------------------------------------------------- C09

pub fn app09() -> AppSpec {
    AppSpec::default()
        .reg(Kind::Mw, "", vec![H::See], false)
        .reg(Kind::All, "/e/:v", vec![H::Set("X-A".into(), "1".into()), H::Echo], true)
        .reg(Kind::Get, "/big", vec![H::SendPattern(5000), H::Cookie("c".into(), "1".into(), 1)], true)
        .reg(Kind::Get, "/panic", vec![H::Set("X-P".into(), "1".into()), H::Send(b"never".to_vec()), H::Panic], true)
        .reg(Kind::Get, "/first", vec![H::Status(5), H::Set("X-First".into(), "1".into())], false)
        .reg(Kind::Get, "/first", vec![H::Send(b"second".to_vec())], true)
        .reg(Kind::Get, "/type", vec![H::WithType("a/b".into()), H::Charset("x".into()), H::Send(b"t".to_vec())], true)
        .reg(
            Kind::Get,
            "/nobody",
            vec![
                H::Status(6),
                H::Set("X-N".into(), "1".into()),
                H::Set("X-Id".into(), "n".into()),
                H::Cookie("n".into(), "1".into(), 2),
                H::WithType("n/n".into()),
                H::Charset("n".into()),
                H::Version(1),
            ],
            true,
        )
}

pub const SCRIPTS: usize = 14;

thread_local! {
    /// the first answer seen for each client whose answer the model leaves partly open
    static FIRST: std::cell::RefCell<std::collections::HashMap<Vec<u8>, (Vec<Vec<u8>>, Vec<u8>)>> = Default::default();
}

/// (client bytes, answer) hashes of the answers that have to be the same every time
#[cfg(feature = "mt")]
pub fn first() -> Vec<(u64, u64)> {
    use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};
    let h = BuildHasherDefault::<DefaultHasher>::default();
    FIRST.with(|f| f.borrow().iter().map(|(k, v)| (h.hash_one(k), h.hash_one(v))).collect())
}

/// An error answer is the same every time the same bytes are sent: nothing of other connections in it.
fn same_as_ever(bytes: &[u8], out: &[u8]) -> Result<(), String> {
    let k = out.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(out.len());
    let mut l: Vec<Vec<u8>> =
        out[..k].split(|b| *b == b'\n').map(|x| x.strip_suffix(b"\r").unwrap_or(x).to_vec()).collect();
    l.sort_unstable();
    let now = (l, out[k..].to_vec());
    FIRST.with(|f| {
        let mut f = f.borrow_mut();
        match f.get(bytes) {
            Some(x) if *x == now => Ok(()),
            Some(x) => Err(format!(
                "the answer differs from the one given to the same bytes before: {:?} / {:?}",
                now.0.iter().map(|l| String::from_utf8_lossy(l)).collect::<Vec<_>>(),
                x.0.iter().map(|l| String::from_utf8_lossy(l)).collect::<Vec<_>>()
            )),
            None => {
                f.insert(bytes.to_vec(), now);
                Ok(())
            }
        }
    })
}

/// The k-th client, with its own identity.
pub fn script(k: usize, id: usize) -> Conn {
    let d = |s: String| In::Data(s.into_bytes());
    let m = |s: String| In::More(s.into_bytes());
    let mut c = Conn { port: 80, ..Default::default() };
    match k {
        0 => c.input = vec![m(format!("GET /e/a{} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", id, id))],
        1 => {
            c.input = vec![
                m(format!("POST /e/b{} HTTP/1.1\r\nHost: h{}\r\nContent-Length: 6\r\nX-Id: {}\r\n\r\nab", id, id, id)),
                d(format!("cde{}", id)),
            ]
        }
        2 => {
            c.input = vec![
                m(format!("GET /e/c{} HTTP/1.1\r\nHost: h\r\nX-I", id)),
                d(format!("d: {}\r\nCookie: k=v{}\r\n\r\n", id, id)),
            ];
            c.output = vec![Out::N(20), Out::Block]
        }
        3 => c.input = vec![m(format!("GET /panic HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", id))],
        4 => c.input = vec![m(format!("GET /e/x{} HTTP/1.1\r\nHo", id)), In::Reset(libc::ECONNRESET)],
        5 => c.input = vec![m(format!("GET /e/bad{} HTTP/1.1\r\nno colon {}\r\n\r\n", id, id))],
        6 => {
            c.input = vec![m(format!("PUT /e/g{} HTTP/1.0\r\nContent-Length: 3\r\nX-Id: {}\r\n\r\nxyzTAIL", id, id))];
            c.output = vec![Out::Block, Out::N(1), Out::Block]
        }
        7 => {
            c.input = vec![m("GET /big HTTP/1.1\r\nHost: h\r\n\r\n".to_string())];
            c.output = vec![Out::N(100), Out::Block, Out::N(1000)]
        }
        8 => c.input = vec![m(format!("GET /e/y{} HTTP/1.1\r\nHost: h\r\n", id)), In::Eof],
        9 => {
            c.input = vec![m(format!("GET /none{} HTTP/1.1\r\nHost: h\r\n\r\n", id))];
            c.output = vec![Out::Block]
        }
        10 => {
            c.input = vec![m("GET /first HTTP/1.1\r\nHost: h\r\n\r\n".to_string())];
            c.output = vec![Out::N(3), Out::Err(libc::EPIPE)]
        }
        11 => c.input = vec![m("GET /first HTTP/1.1\r\nHost: h\r\n\r\n".to_string()), In::Eof],
        12 => c.input = vec![m("GET /nobody HTTP/1.1\r\nHost: h\r\n\r\n".to_string())],
        _ => {
            c.input = vec![m("GET /type HTTP/1.1\r\n".to_string()), d("Host: h\r\n\r\n".to_string())];
            c.output = vec![Out::N(30), Out::Block, Out::N(1)]
        }
    }
    c
}

/// What this client must get, from its own bytes alone.
fn judge_conn(app: &AppSpec, c: &Conn, r: &ConnResult, seen: &mut Vec<Seen>) -> Result<(), String> {
    if !r.accepted {
        return Err("not accepted".into());
    }
    let (bytes, end) = model::stream(c);
    let broken = c.output.iter().take(r.sends).any(|o| matches!(o, Out::Err(_)));
    match model::expect(&bytes) {
        model::Expect::Run(m) => {
            let d = model::dispatch(app, &m.method, &m.path);
            // the request as the handlers saw it
            let k = seen.iter().position(|s| {
                s.method == model::method_debug(&m.method)
                    && s.path == m.path
                    && s.headers == m.headers
                    && s.body == m.body
                    && (cfg!(not(feature = "raw_headers")) || s.raw == m.raw)
            });
            match k {
                Some(k) => {
                    seen.remove(k);
                }
                None => return Err("no handler saw this request as it was sent".into()),
            }
            let mut res = model::MRes::new();
            let mut panics = false;
            for (_, r, _) in &d.runs {
                for o in &r.ops {
                    if *o == H::Panic {
                        panics = true
                    }
                    if *o == H::Echo {
                        let id = m.headers.iter().find(|h| h.0 == "x-id").map(|h| h.1.clone()).unwrap_or_default();
                        let mut b =
                            format!("<{}|{}|{}|", id, model::method_debug(&m.method), m.path.join("/")).into_bytes();
                        b.extend_from_slice(&m.body);
                        b.push(b'>');
                        res.set("X-Id", &id);
                        res.apply(&H::Send(b), &|_| None, &|_| String::new());
                        continue;
                    }
                    res.apply(o, &|_| None, &|f| super::res::mime(f))
                }
            }
            if panics {
                if !r.closed {
                    return Err("the connection of a panicked handler was left open".into());
                }
                if !r.out.is_empty() {
                    // an error answer would be fine too
                    let a = http::parse(&r.out, false)?;
                    if a.code < 500 {
                        return Err(format!("status {} from a panicked handler", a.code));
                    }
                }
                return Ok(());
            }
            if broken {
                if !r.closed {
                    return Err("left open after a failed write".into());
                }
                return Ok(());
            }
            super::res::response_is(&res, r, false, 784111777)?;
            if res.body.is_none() {
                same_as_ever(&bytes, &r.out)?
            }
            Ok(())
        }
        model::Expect::Error(codes) => {
            let a = model::answer(r, false)?;
            if !codes.contains(&a.code) {
                return Err(format!("status {}, expected {:?}", a.code, codes));
            }
            same_as_ever(&bytes, &r.out)
        }
        model::Expect::Wait => match end {
            Some(In::Eof) => {
                let a = model::answer(r, false)?;
                if a.code != 400 {
                    return Err(format!("status {}", a.code));
                }
                same_as_ever(&bytes, &r.out)
            }
            None => {
                if !r.out.is_empty() || r.closed {
                    return Err("answered before the request was complete".into());
                }
                Ok(())
            }
            _ => Ok(()),
        },
        model::Expect::Any => Ok(()),
    }
}

pub fn judge_all(c: &Ctx) -> Result<bool, String> {
    let want = c.exec.conns.iter().filter(|x| model::stream(x).0.starts_with(b"GET /panic")).count();
    let other: Vec<&String> = c.res.panics.iter().filter(|p| !p.contains("on purpose")).collect();
    if !other.is_empty() || c.res.panics.len() > want {
        return Err(format!("server code panicked: {:?}", other));
    }
    if let Some(r) = &c.res.returned {
        return Err(format!("listen() came back: {:?}", r));
    }
    let mut seen: Vec<Seen> = c.res.log.iter().filter_map(|e| if let Ev::Seen(s) = e { Some((**s).clone()) } else { None }).collect();
    for (n, (x, r)) in c.exec.conns.iter().zip(&c.res.conns).enumerate() {
        judge_conn(c.app, x, r, &mut seen).map_err(|e| format!("connection {}: {}", n, e))?
    }
    if !seen.is_empty() {
        return Err(format!("handlers ran on something nobody sent: {:?}", seen));
    }
    Ok(true)
}

pub fn c09(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    // every order of events of every pair of clients
    v.push(
        Fam::inputs(
            "pairs of clients, every order of events",
            app09(),
            SCRIPTS * SCRIPTS,
            |j| Exec { conns: vec![script(j % SCRIPTS, 1), script(j / SCRIPTS, 2)], ..Default::default() },
            judge_all,
        )
        .devs(usize::MAX)
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "triples of clients, orders with bounded departures",
            app09(),
            SCRIPTS.pow(3),
            |j| {
                let m = mixed(j, &[SCRIPTS; 3]);
                Exec { conns: (0..3).map(|k| script(m[k], k + 1)).collect(), ..Default::default() }
            },
            judge_all,
        )
        .devs(if t { 5 } else { 2 })
        .boxed(),
    );
    // histories: one client after the other on the same server
    let d = if t { 5 } else { 4 };
    v.push(
        Fam::inputs(
            "histories of clients one after the other",
            app09(),
            SCRIPTS.pow(d),
            move |j| {
                let m = mixed(j, &vec![SCRIPTS; d as usize]);
                Exec { conns: (0..d as usize).map(|k| script(m[k], k + 1)).collect(), ..Default::default() }
            },
            judge_all,
        )
        .boxed(),
    );
    // long runs of the same kind with a good client at the end
    v.push(
        Fam::inputs(
            "n clients of one kind, then others",
            app09(),
            SCRIPTS * 40,
            |j| {
                let k = j % SCRIPTS;
                let n = j / SCRIPTS;
                let mut e = Exec { conns: (0..n).map(|x| script(k, x % 9)).collect(), ..Default::default() };
                for z in 0..SCRIPTS {
                    e.conns.push(script(z, 9));
                }
                e
            },
            judge_all,
        )
        .boxed(),
    );
    // many connections open at the same time
    v.push(
        Fam::inputs(
            "n connections open at once",
            app09(),
            4 * if t { 390 } else { 200 },
            |j| {
                let (k, n) = ([1, 2, 6, 13][j % 4], j / 4 + 1);
                // all of them connect (and send their first part) before any of them goes on
                Exec { conns: (0..n).map(|x| script(k, x % 9)).collect(), schedule: (0..n).collect(), ..Default::default() }
            },
            judge_all,
        )
        .boxed(),
    );
    if t {
        v.push(
            Fam::inputs(
                "four clients, orders with bounded departures",
                app09(),
                6usize.pow(4),
                |j| {
                    let pick = [1, 2, 3, 6, 7, 13];
                    let m = mixed(j, &[6; 4]);
                    Exec { conns: (0..4).map(|k| script(pick[m[k]], k + 1)).collect(), ..Default::default() }
                },
                judge_all,
            )
            .devs(4)
            .boxed(),
        );
    }
    v
}

// ---------------------------------------------------------------- C19

const ERRNOS: [i32; 12] = [
    libc::EMFILE,
    libc::ENFILE,
    libc::ECONNABORTED,
    libc::EINTR,
    libc::ENOBUFS,
    libc::ENOMEM,
    libc::EPROTO,
    libc::EPERM,
    libc::ENETDOWN,
    libc::EHOSTUNREACH,
    libc::ETIMEDOUT,
    libc::EOPNOTSUPP,
];

/// clients that misbehave
pub const BAD: usize = 9;
pub fn bad(k: usize, id: usize) -> Conn {
    let mut c = Conn { port: 80, ..Default::default() };
    c.input = match k {
        0 => vec![],                                                             // connects and stays silent
        1 => vec![In::More(b"GET / HT".to_vec())],                               // never finishes
        2 => vec![In::More(b"\xff\xfe\x00garbage\r\n\r\n".to_vec())],            // garbage
        3 => vec![In::Reset(libc::ECONNRESET)],                                  // connects and resets
        4 => vec![In::More(b"GET /panic HTTP/1.1\r\nHost: h\r\n\r\n".to_vec())], // hits a bug in a handler
        5 => vec![In::More(b"POST /e/p HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\n\r\nabc".to_vec())], // half a body
        6 => vec![In::More(b"GET /e/p HT".to_vec()), In::Fail(libc::ETIMEDOUT)],
        7 => return script(7, id).blocked(), // never reads its response
        _ => vec![In::Eof],
    };
    c
}
trait Blocked {
    fn blocked(self) -> Conn;
}
impl Blocked for Conn {
    fn blocked(mut self) -> Conn {
        self.output = vec![Out::N(10), Out::Stuck];
        self
    }
}

pub fn judge19(c: &Ctx) -> Result<bool, String> {
    if let Some(r) = &c.res.returned {
        return Err(format!("listen() came back: {:?}", r));
    }
    let other: Vec<&String> = c.res.panics.iter().filter(|p| !p.contains("on purpose")).collect();
    if !other.is_empty() {
        return Err(format!("server code panicked: {:?}", other));
    }
    // the connections that accept itself reported as gone
    let gone = c.exec.accept_faults.iter().filter(|e| **e == libc::ECONNABORTED || **e == libc::EPROTO).count();
    let missing = c.res.conns.iter().filter(|r| !r.accepted).count();
    if missing > gone {
        return Err(format!("{} connections never accepted, {} accepts reported one as gone", missing, gone));
    }
    for (n, (x, r)) in c.exec.conns.iter().zip(&c.res.conns).enumerate() {
        let (b, _) = model::stream(x);
        if !r.accepted || !b.windows(6).any(|w| w == b"X-Id: ") {
            continue;
        }
        // a well-behaved client
        let a = model::answer(r, false).map_err(|e| format!("connection {}: {}", n, e))?;
        if a.code != 200 || !a.body.starts_with(b"<") {
            return Err(format!("connection {}: status {}", n, a.code));
        }
    }
    Ok(true)
}

pub fn c19(t: bool) -> Vec<Box<dyn Family>> {
    let good = |id: usize| script(if id % 2 == 0 { 0 } else { 1 }, id);
    let mut v = vec![];
    let k = ERRNOS.len() + 1;
    let d = if t { 5 } else { 4 };
    v.push(
        Fam::inputs(
            "sequences of failing accepts",
            app09(),
            seqs(k, d),
            move |j| {
                let f: Vec<i32> = seq(k, j).into_iter().map(|x| if x == 0 { 0 } else { ERRNOS[x - 1] }).collect();
                Exec { conns: (0..f.len() + 2).map(good).collect(), accept_faults: f, ..Default::default() }
            },
            judge19,
        )
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "long bursts of failing accepts",
            app09(),
            ERRNOS.len() * 64,
            move |j| {
                let f = vec![ERRNOS[j % ERRNOS.len()]; j / ERRNOS.len()];
                Exec { conns: (0..f.len() + 2).map(good).collect(), accept_faults: f, ..Default::default() }
            },
            judge19,
        )
        .boxed(),
    );
    // bad clients around good ones, every order of events
    let d = if t { 3 } else { 2 };
    v.push(
        Fam::inputs(
            "bad clients and a good one, every order of events",
            app09(),
            BAD.pow(d),
            move |j| {
                let m = mixed(j, &vec![BAD; d as usize]);
                let mut c: Vec<Conn> = m.iter().enumerate().map(|(n, x)| bad(*x, n)).collect();
                c.push(good(1));
                Exec { conns: c, ..Default::default() }
            },
            judge19,
        )
        .devs(if t { 4 } else { usize::MAX })
        .boxed(),
    );
    // many of one kind
    v.push(
        Fam::inputs(
            "n bad clients of one kind, then good ones",
            app09(),
            BAD * if t { 300 } else { 60 },
            move |j| {
                let n = j / BAD;
                let mut c: Vec<Conn> = (0..n).map(|x| bad(j % BAD, x)).collect();
                c.push(good(1));
                c.push(good(2));
                Exec { conns: c, ..Default::default() }
            },
            judge19,
        )
        .boxed(),
    );
    // histories of bad clients and failing accepts
    let d = if t { 4 } else { 3 };
    v.push(
        Fam::inputs(
            "histories of bad clients x failing accepts",
            app09(),
            BAD.pow(d) * 8,
            move |j| {
                let mut r = vec![BAD; d as usize];
                r.push(8);
                let m = mixed(j, &r);
                let mut c: Vec<Conn> = (0..d as usize).map(|x| bad(m[x], x)).collect();
                c.push(good(1));
                c.push(good(2));
                let f = match m[d as usize] {
                    0 => vec![],
                    1 => vec![libc::EMFILE],
                    2 => vec![0, libc::EMFILE, 0],
                    3 => vec![0, 0, libc::ENFILE, libc::EMFILE],
                    4 => vec![libc::ECONNABORTED],
                    5 => vec![0, libc::ECONNABORTED],
                    6 => vec![0, 0, 0, libc::EINTR, libc::ENOMEM],
                    _ => vec![libc::EMFILE; 5],
                };
                Exec { conns: c, accept_faults: f, ..Default::default() }
            },
            judge19,
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- C21

const CONFS: [Conf; 17] = [
    Conf::Keep(1),
    Conf::Keep(77),
    Conf::Port(443),
    Conf::Port(8443),
    Conf::Key(444, 1),
    Conf::Cert(445, 2),
    Conf::Ssl(3, 4),
    Conf::Ssl(5, 6),
    Conf::Whole(9, 1000, 7, 8),
    Conf::Whole(10, 1001, 9, 10),
    Conf::Default,
    Conf::FieldKey(11),
    Conf::FieldCert(12),
    Conf::Keep(0),
    Conf::Port(0),
    Conf::Ssl(100, 101),
    Conf::FieldNoKeep,
];

fn initial() -> ConfState {
    let d = octane::config::OctaneConfig::new();
    ConfState { keep: Some(std::time::Duration::from_secs(5)), port: d.ssl.port, key: String::new(), cert: String::new() }
}

fn configured(app: &AppSpec) -> ConfState {
    let mut s = initial();
    for x in &app.steps {
        if let Step::Conf(c) = x {
            set(&mut s, *c)
        }
    }
    s
}

fn set(s: &mut ConfState, c: Conf) {
    {
        {
            match c {
                Conf::Keep(n) => s.keep = Some(duration_of(n)),
                Conf::Port(p) => s.port = p,
                Conf::Key(p, k) => {
                    s.port = p;
                    s.key = path_of(k)
                }
                Conf::Cert(p, k) => {
                    s.port = p;
                    s.cert = path_of(k)
                }
                Conf::Ssl(k, c) => {
                    s.key = path_of(k);
                    s.cert = path_of(c)
                }
                Conf::Whole(d, p, k, c) => {
                    *s = ConfState {
                        keep: Some(duration_of(d)),
                        port: p,
                        key: path_of(k),
                        cert: path_of(c),
                    }
                }
                Conf::Default => *s = initial(),
                Conf::Cfg(n) => {
                    *s = initial();
                    seq(CFG_CALLS.len(), n).into_iter().for_each(|x| set(s, CFG_CALLS[x]))
                }
                Conf::FieldNoKeep => s.keep = None,
                Conf::FieldKey(k) => s.key = path_of(k),
                Conf::FieldCert(k) => s.cert = path_of(k),
                Conf::Tls(p, _) => s.port = p,
            }
        }
    }
}

fn judge21(c: &Ctx) -> Result<bool, String> {
    let have = SETTINGS.with(|s| s.borrow().clone()).ok_or("no settings")?;
    let want = configured(c.app);
    if have != want {
        return Err(format!("settings {:?}, expected {:?}", have, want));
    }
    // the routes are as they were
    if let Some(x) = c.exec.conns.first() {
        model::no_panics(c.res)?;
        let (b, _) = model::stream(x);
        if let model::Expect::Run(m) = model::expect(&b) {
            let d = model::dispatch(c.app, &m.method, &m.path);
            let have: Vec<usize> = model::actual_runs(&c.res.log).iter().map(|r| r.0).collect();
            let want: Vec<usize> = d.runs.iter().map(|r| r.0).collect();
            if have != want {
                return Err(format!("handlers run {:?}, expected {:?}", have, want));
            }
        }
    }
    // nothing but the requested port is listened on
    if c.res.returned.is_none() && c.res.sockets.iter().any(|s| s.port != c.app.port) {
        return Err(format!("listening on {:?}", c.res.sockets));
    }
    Ok(true)
}

pub fn c21(t: bool) -> Vec<Box<dyn Family>> {
    let k = CONFS.len();
    let mut v = vec![];
    let d = if t { 6 } else { 4 };
    v.push(
        Fam::grid(
            "configuration call sequences",
            seqs(k, d),
            move |i| AppSpec { steps: seq(k, i).into_iter().map(|x| Step::Conf(CONFS[x])).collect(), port: 80 },
            vec![Exec::default()],
            judge21,
        )
        .boxed(),
    );
    // configurations with calls of their own, taken over in different places
    let d3 = if t { 5 } else { 4 };
    let n3 = seqs(CFG_CALLS.len(), d3);
    let around: Vec<(Vec<Conf>, Vec<Conf>)> = vec![
        (vec![], vec![]),
        (vec![Conf::Keep(5), Conf::Key(444, 1), Conf::Cert(445, 2)], vec![]),
        (vec![Conf::Cfg(n3 / 2)], vec![]),
        (vec![Conf::Whole(9, 1000, 7, 8)], vec![Conf::Keep(0)]),
        (vec![], vec![Conf::Cfg(n3 / 3)]),
        (vec![Conf::Port(1)], vec![Conf::Ssl(100, 1), Conf::Port(0)]),
    ];
    v.push(
        Fam::grid(
            "calls on a configuration that is then taken over",
            n3 * around.len(),
            move |i| {
                let m = mixed(i, &[around.len(), n3]);
                let (a, b) = &around[m[0]];
                let all = a.iter().copied().chain([Conf::Cfg(m[1])]).chain(b.iter().copied());
                AppSpec { steps: all.map(Step::Conf).collect(), port: 80 }
            },
            vec![Exec::default()],
            judge21,
        )
        .boxed(),
    );
    // interleaved with registrations and mounts
    let d2 = if t { 4 } else { 3 };
    let n = seqs(k, d2);
    v.push(
        Fam::grid(
            "configuration calls between registrations and mounts",
            n * 4,
            move |i| {
                let m = mixed(i, &[4, n]);
                let q = seq(k, m[1]);
                let r = |on: usize, kind: Kind, path: &str| {
                    Step::Reg(Reg { on, kind, path: path.into(), ops: vec![H::Send(b"x".to_vec())], stop: false })
                };
                let base = vec![
                    r(0, Kind::Mw, ""),
                    r(0, Kind::Get, "/a"),
                    r(1, Kind::Get, "/a"),
                    Step::Mount(1),
                    r(0, Kind::All, "/:x"),
                    r(0, Kind::Mw, ""),
                ];
                let mut s = vec![];
                for (n, b) in base.into_iter().enumerate() {
                    let take = match m[0] {
                        0 => n == 0,
                        1 => n == 3,
                        2 => true,
                        _ => n == 5,
                    };
                    if take && (m[0] != 2) {
                        s.extend(q.iter().map(|x| Step::Conf(CONFS[*x])));
                    } else if take {
                        if let Some(x) = q.get(n) {
                            s.push(Step::Conf(CONFS[*x]))
                        }
                    }
                    s.push(b)
                }
                AppSpec { steps: s, port: 80 }
            },
            vec![simple(&get("/a")), simple(&request("POST", "/b"))],
            judge21,
        )
        .boxed(),
    );
    v
}

// ---------------------------------------------------------------- C28

const CALLS: [&str; 6] = ["socket", "bind", "listen", "setsockopt", "fcntl", "epoll_ctl"];
const SETUP_ERRNOS: [i32; 12] = [
    libc::EACCES,
    libc::EADDRINUSE,
    libc::EADDRNOTAVAIL,
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOBUFS,
    libc::ENOMEM,
    libc::EINVAL,
    libc::EPERM,
    libc::EAFNOSUPPORT,
    libc::ENOSPC,
    libc::EOPNOTSUPP,
];

fn serving(c: &Ctx) -> Result<(), String> {
    if let Some(r) = &c.res.returned {
        return Err(format!("listen() came back: {:?}", r));
    }
    if c.res.started != 1 {
        return Err(format!("the start callback ran {} times", c.res.started));
    }
    if c.res.sockets.len() != 1 {
        return Err(format!("listening sockets: {:?}", c.res.sockets));
    }
    let s = &c.res.sockets[0];
    if s.port != c.app.port || !s.any || !s.reuse || !s.nonblocking {
        return Err(format!("listening on {:?} for port {}", s, c.app.port));
    }
    for r in &c.res.conns {
        model::answer(r, false)?;
    }
    Ok(())
}

pub fn c28(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let app = |port: u16| {
        let mut a = AppSpec::one(vec![H::Send(b"x".to_vec())]);
        a.port = port;
        a
    };
    v.push(
        Fam::grid(
            "each set-up call failing with each error",
            CALLS.len() * SETUP_ERRNOS.len(),
            move |_| app(8080),
            vec![Exec::default()],
            |c| {
                let call = CALLS[c.i % CALLS.len()];
                match &c.res.returned {
                    Some(Err(e)) => {
                        if e == "listen() panicked" {
                            return Err("listen() panicked".into());
                        }
                        Ok(true)
                    }
                    Some(Ok(())) => Err(format!("{} failed but listen() returned success", call)),
                    None => {
                        // a server that does not make that call at all, or does not need it, may serve
                        if call == "setsockopt" || call == "fcntl" {
                            return serving(c).map(|_| true);
                        }
                        Err(format!("{} failed but listen() did not return", call))
                    }
                }
            },
        )
        .env(|i, s| s.setup_fault = Some((CALLS[i % CALLS.len()], SETUP_ERRNOS[i / CALLS.len()])))
        .boxed(),
    );
    v.push(
        Fam::grid(
            "ports",
            65535,
            move |i| app(i as u16 + 1),
            (0..2).map(|_| Exec::default()).collect(),
            |c| serving(c).map(|_| true),
        )
        .boxed(),
    );
    v.push(
        Fam::grid(
            "ports held by another server",
            if t { 65535 } else { 3000 },
            move |i| app(i as u16 + 1),
            vec![Exec::default()],
            |c| match &c.res.returned {
                Some(Err(e)) if e != "listen() panicked" => Ok(true),
                r => Err(format!("the port is taken, but listen() gave {:?}", r)),
            },
        )
        .env(|i, s| s.busy_ports = vec![i as u16 + 1])
        .boxed(),
    );
    v.push(
        Fam::grid(
            "ports with connections of the previous run lingering",
            if t { 65535 } else { 3000 },
            move |i| app(i as u16 + 1),
            vec![Exec::default()],
            |c| serving(c).map(|_| true),
        )
        .env(|i, s| s.timewait_ports = vec![i as u16 + 1])
        .boxed(),
    );
    v.push(
        Fam::inputs(
            "connections arrive on the port",
            app(8081),
            if t { 600 } else { 200 },
            |j| {
                let mut c = conn(&get("/"));
                c.port = 8081;
                Exec { conns: vec![c; j], ..Default::default() }
            },
            |c| serving(c).map(|_| true),
        )
        .boxed(),
    );
    v
}
