//! C01-C04: routing, URL variables, mounting, path normalisation.
use super::*;
use crate::model;

/// the request line of an execution: (method, target)
fn line(e: &Exec) -> (String, String) {
    let (b, _) = model::stream(&e.conns[0]);
    let s = String::from_utf8_lossy(&b).to_string();
    let mut t = s.split(' ');
    (t.next().unwrap_or("").to_string(), t.next().unwrap_or("").to_string())
}

/// Checks which handlers ran, in which order, with which bindings.
pub fn judge_runs(c: &Ctx, vars: bool) -> Result<bool, String> {
    model::no_panics(c.res)?;
    let (m, p) = line(c.exec);
    let segs = model::normalise(p.split('?').next().unwrap());
    // registrations with a path above the root are refused, all others accepted
    for (n, s) in c.app.steps.iter().enumerate() {
        if let Step::Reg(r) = s {
            let ok = r.kind == Kind::Mw || model::normalise(&r.path).is_some();
            if c.accepted.get(n) != Some(&ok) {
                return Err(format!(
                    "registration {} of path {:?} {}",
                    n,
                    r.path,
                    if ok { "was refused" } else { "was accepted although it climbs above the root" }
                ));
            }
        }
    }
    let got = model::actual_runs(&c.res.log);
    let Some(segs) = segs else {
        if !got.is_empty() {
            return Err(format!("handlers {:?} ran for a path above the root", got.iter().map(|g| g.0).collect::<Vec<_>>()));
        }
        let r = model::answer_to(&c.res.conns[0], &model::stream(&c.exec.conns[0]).0)?;
        if r.code != 400 {
            return Err(format!("path above the root answered with {}", r.code));
        }
        return Ok(true);
    };
    let want = model::dispatch(c.app, &m, &segs);
    let w: Vec<usize> = want.runs.iter().map(|r| r.0).collect();
    let g: Vec<usize> = got.iter().map(|r| r.0).collect();
    if w != g {
        return Err(format!("{} {}: handlers expected {:?}, ran {:?}", m, p, w, g));
    }
    if vars {
        for ((n, _, b), (_, seen)) in want.runs.iter().zip(got.iter()) {
            if let Some(s) = seen {
                if &s.vars != b {
                    return Err(format!("{} {}: handler {} expected variables {:?}, saw {:?}", m, p, n, b, s.vars));
                }
            }
        }
    }
    for (_, seen) in &got {
        if let Some(s) = seen {
            if s.path != segs {
                return Err(format!("{} {}: handler saw path {:?}, expected {:?}", m, p, s.path, segs));
            }
        }
    }
    let r = model::answer_to(&c.res.conns[0], &model::stream(&c.exec.conns[0]).0)?;
    let sends = want.runs.iter().any(|r| r.1.ops.iter().any(|o| matches!(o, H::Send(_))));
    if r.code != if sends { 200 } else { 404 } {
        return Err(format!("{} {}: status {}", m, p, r.code));
    }
    Ok(!w.is_empty())
}

fn reg(on: usize, kind: Kind, path: &str, stop: bool) -> Step {
    Step::Reg(Reg { on, kind, path: path.to_string(), ops: vec![H::See], stop })
}

fn app(steps: Vec<Step>) -> AppSpec {
    AppSpec { steps, port: 80 }
}

pub fn c01(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    // all sequences of registrations
    let full = cfg!(feature = "url_variables");
    let paths: Vec<&str> =
        if full { vec!["/", "/a", "/a/b", "/:x", "/:x/b"] } else { vec!["/", "/a", "/a/b", "/b", "/b/b"] };
    let mut ops: Vec<Step> = vec![];
    for stop in [false, true] {
        ops.push(reg(0, Kind::Mw, "", stop));
        for k in [Kind::Get, Kind::All, Kind::Post] {
            for p in &paths {
                ops.push(reg(0, k, p, stop))
            }
        }
    }
    let k = ops.len();
    let mut execs = vec![];
    for m in ["GET", "POST"] {
        for p in ["/", "/a", "/b", "/a/b", "/a/c", "/a/b/c"] {
            execs.push(simple(&request(m, p)))
        }
    }
    let d = if t { 4 } else { 3 };
    let o = ops.clone();
    v.push(
        Fam::grid(
            "registration sequences",
            seqs(k, d),
            move |i| app(seq(k, i).into_iter().map(|x| o[x].clone()).collect()),
            execs,
            |c| judge_runs(c, false),
        )
        .boxed(),
    );
    // every kind of registration against every method
    let mut kops = vec![];
    for kind in KINDS {
        for stop in [false, true] {
            kops.push(reg(0, kind, "/a", stop));
        }
        kops.push(reg(0, kind, "/../a", true));
    }
    let kk = kops.len();
    let mut execs = vec![];
    for (m, _) in model::METHODS {
        execs.push(simple(&request(m, "/a")));
        execs.push(simple(&request(m, "/b")));
    }
    v.push(
        Fam::grid(
            "kinds x methods",
            seqs(kk, 2 + t as usize),
            move |i| app(seq(kk, i).into_iter().map(|x| kops[x].clone()).collect()),
            execs,
            |c| judge_runs(c, false),
        )
        .boxed(),
    );
    // long lists with a stop somewhere
    let max = if t { 70 } else { 40 };
    v.push(
        Fam::grid(
            "long registration lists",
            max * max * 6,
            move |i| {
                let d = mixed(i, &[max, max, 6]);
                let (n, stop, style) = (d[0] + 1, d[1], d[2]);
                let kinds: [&[(Kind, &str)]; 6] = [
                    &[(Kind::Get, "/a")],
                    &[(Kind::Mw, "")],
                    &[(Kind::Get, "/a"), (Kind::Mw, "")],
                    &[(Kind::Get, "/a"), (Kind::All, "/a"), (Kind::Mw, "")],
                    &[(Kind::All, "/a"), (Kind::Get, "/:x"), (Kind::Get, "/a")],
                    &[(Kind::Get, "/:x"), (Kind::All, "/:y"), (Kind::Mw, ""), (Kind::All, "/a"), (Kind::Post, "/a")],
                ];
                let ks = kinds[style];
                let fix = |p: &'static str| if cfg!(feature = "url_variables") { p } else { p.trim_start_matches("/:x").trim_start_matches("/:y") };
                app((0..n).map(|x| reg(0, ks[x % ks.len()].0, fix(ks[x % ks.len()].1), x == stop)).collect())
            },
            vec![simple(&request("GET", "/a")), simple(&request("POST", "/a"))],
            |c| judge_runs(c, false),
        )
        .boxed(),
    );
    // deep and wide trees: many distinct literal paths, some of them variables
    let n = if t { 400 } else { 120 };
    let paths: Vec<String> = (0..n)
        .map(|x| {
            let d = mixed(x, &[4, 4, 4, 4, 4]);
            let names = ["a", "b", if cfg!(feature = "url_variables") { ":v" } else { "v" }, "ab"];
            let depth = 1 + x % 5;
            d.iter().take(depth).map(|y| format!("/{}", names[*y])).collect::<String>()
        })
        .collect();
    let reqs: Vec<Exec> = (0..340)
        .map(|x| {
            let names = ["a", "b", "ab", "c"];
            let s: String = seq(4, x + 1).iter().map(|y| format!("/{}", names[*y])).collect();
            simple(&request("GET", &s))
        })
        .collect();
    v.push(
        Fam::grid(
            "wide trees",
            8,
            move |i| {
                app(paths
                    .iter()
                    .enumerate()
                    .map(|(x, p)| reg(0, if (x + i) % 3 == 0 { Kind::All } else { Kind::Get }, p, i > 3 && x % 7 == i))
                    .collect())
            },
            reqs,
            |c| judge_runs(c, false),
        )
        .boxed(),
    );
    v.extend(deep_patterns(false));
    v
}

/// Literal and variable segments at every place of a deep path, all matching the same requests.
fn deep_patterns(vars: bool) -> Vec<Box<dyn Family>> {
    if !cfg!(feature = "url_variables") {
        return vec![];
    }
    let mut v = vec![];
    let ds: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 129]).collect();
    let (d1, d2, d3) = (ds.clone(), ds.clone(), ds.len());
    let with = |d: usize, at: &dyn Fn(usize) -> Option<String>| -> String {
        (0..d).map(|k| format!("/{}", at(k).unwrap_or_else(|| "a".into()))).collect()
    };
    v.push(
        Box::new(Fam {
            name: "one variable at every place of a deep path".into(),
            apps: d3,
            app: Box::new(move |i| {
                let d = d1[i];
                let mut s = vec![reg(0, Kind::Get, &with(d, &|k| Some(format!(":w{}", k))), false)];
                for p in 0..d {
                    s.push(reg(0, [Kind::Get, Kind::All][p % 2], &with(d, &|k| (k == p).then(|| format!(":v{}", k))), false));
                    if p == d / 2 {
                        s.push(reg(0, Kind::All, &with(d, &|_| None), false));
                        s.push(reg(0, Kind::Mw, "", false));
                    }
                }
                app(s)
            }),
            execs: Box::new(move |i| d2[i] + 1),
            exec: Box::new(move |i, j| {
                let d = ds[i];
                simple(&get(&with(d, &|k| (k == j).then(|| "b".into()))))
            }),
            judge: Box::new(move |c| judge_runs(c, vars)),
            devs: None,
            base: None,
            env: None,
        }) as Box<dyn Family>,
    );
    // every pattern of a depth at once
    let max = 10;
    v.push(
        Box::new(Fam {
            name: "all patterns of one depth at once".into(),
            apps: max * 2,
            app: Box::new(move |i| {
                let d = i / 2 + 1;
                app((0..1usize << d)
                    .map(|m| {
                        let m = if i % 2 == 0 { m } else { (1 << d) - 1 - m };
                        let p = with(d, &|k| (m >> k & 1 != 0).then(|| format!(":v{}_{}", m, k)));
                        reg(0, [Kind::Get, Kind::All][m % 3 % 2], &p, false)
                    })
                    .collect())
            }),
            execs: Box::new(|i| 1 << (i / 2 + 1)),
            exec: Box::new(move |i, j| simple(&get(&with(i / 2 + 1, &|k| (j >> k & 1 != 0).then(|| "b".into()))))),
            judge: Box::new(move |c| judge_runs(c, vars)),
            devs: None,
            base: None,
            env: None,
        }) as Box<dyn Family>,
    );
    v
}

/// every visible character that can stand in a segment
fn visible() -> Vec<char> {
    (0x21..0x7fu8).map(|c| c as char).filter(|c| *c != '/' && *c != '?').collect()
}

pub fn c02(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = deep_patterns(true);
    // every pair of characters in what a variable is bound to, and in its name
    let vis = visible();
    let n = vis.len();
    {
        let vis = vis.clone();
        v.push(
            Fam::inputs(
                "every pair of characters in a bound segment",
                app(vec![reg(0, Kind::Get, "/:x", false), reg(0, Kind::All, "/k/:x/:y", false), reg(0, Kind::Mw, "", false)]),
                n * n * 4,
                move |j| {
                    let d = mixed(j, &[n, n, 4]);
                    let (a, b) = (vis[d[0]], vis[d[1]]);
                    let p = match d[2] {
                        0 => format!("/{}{}", a, b),
                        1 => format!("/s{}t{}u", a, b),
                        2 => format!("/k/{}/{}", a, b),
                        _ => format!("/k/{}{}s/s{}{}", a, b, a, b),
                    };
                    simple(&get(&p))
                },
                |c| judge_runs(c, true),
            )
            .boxed(),
        );
    }
    // (a question mark has no meaning in a registered path)
    let vis: Vec<char> = vis.into_iter().chain(['?', ' ', '\u{e9}']).collect();
    let n = vis.len();
    v.push(
        Fam::grid(
            "every pair of characters in the name of a variable",
            n * n,
            move |i| {
                let (a, b) = (vis[i % n], vis[i / n]);
                app(vec![
                    reg(0, Kind::Get, &format!("/:{}{}", a, b), false),
                    reg(0, Kind::All, &format!("/:s{}t{}/z{}:/:{}", a, b, a, b), false),
                    reg(0, Kind::Get, "/:x", false),
                ])
            },
            ["/val", "/val/za:/w"].iter().map(|p| simple(&get(p))).collect(),
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    let paths = ["/:x", "/:y", "/a", "/:x/:y", "/:y/:x", "/a/:x", "/:x/b", "/:longname/:x/c", "/:"];
    let mut ops = vec![reg(0, Kind::Mw, "", false)];
    for k in [Kind::Get, Kind::All] {
        for p in paths {
            ops.push(reg(0, k, p, false))
        }
    }
    let k = ops.len();
    let execs: Vec<Exec> = ["/a", "/b", "/:x", "/a/b", "/b/a", "/a/:y", "/q/r/c", "/a/b/c", "/a=b", "/%41", "/\u{e9}/b"]
        .iter()
        .map(|p| simple(&request("GET", p)))
        .collect();
    v.push(
        Fam::grid(
            "overlapping patterns",
            seqs(k, if t { 4 } else { 3 }),
            move |i| app(seq(k, i).into_iter().map(|x| ops[x].clone()).collect()),
            execs,
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // every pattern of literal and variable segments up to depth 5, every request of that depth
    let n = seqs(3, 5);
    v.push(
        Fam::grid(
            "pattern shapes",
            n,
            |i| {
                let p: String = seq(3, i)
                    .iter()
                    .enumerate()
                    .map(|(k, x)| match x {
                        0 => "/a".to_string(),
                        1 => "/b".to_string(),
                        _ => format!("/:v{}", k),
                    })
                    .collect();
                app(vec![reg(0, Kind::Get, &p, false), reg(0, Kind::Mw, "", false), reg(0, Kind::All, &p, false)])
            },
            (0..seqs(3, 5))
                .map(|j| {
                    let p: String = seq(3, j).iter().map(|x| ["/a", "/b", "/cc"][*x]).collect();
                    simple(&request("GET", if p.is_empty() { "/" } else { &p }))
                })
                .collect(),
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // mounted routers keep the bindings of their own patterns
    let mut ops = vec![Step::Mount(1)];
    for on in [0, 1] {
        for p in ["/:x", "/:y/:x", "/a/:z", "/a"] {
            ops.push(reg(on, Kind::Get, p, false))
        }
    }
    let k = ops.len();
    v.push(
        Fam::grid(
            "patterns in mounted routers",
            seqs(k, 4),
            move |i| app(seq(k, i).into_iter().map(|x| ops[x].clone()).collect()),
            ["/a", "/b", "/a/b"].iter().map(|p| simple(&request("GET", p))).collect(),
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // every request segment over a small alphabet is bound verbatim
    let al = ["a", ":", "=", "%", "2", "~", "\u{e9}", "*", "...", "&"];
    let d = if t { 5 } else { 4 };
    v.push(
        Fam::inputs(
            "segment texts",
            app(vec![reg(0, Kind::Get, "/:x", false), reg(0, Kind::All, "/k/:x/:y", false), reg(0, Kind::Get, "/:p/:q/m", false)]),
            seqs(al.len(), d) * 3,
            move |j| {
                let s: String = seq(al.len(), j / 3).iter().map(|x| al[*x]).collect();
                let p = match j % 3 {
                    0 => format!("/{}", s),
                    1 => format!("/k/{}/z", s),
                    _ => format!("/k/{}/m", s),
                };
                simple(&request("GET", &p))
            },
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    v
}

pub fn c03(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let mut ops = vec![Step::Mount(1), Step::Mount(2)];
    let paths: &[(Kind, &str)] = &[(Kind::Get, "/a"), (Kind::Get, if cfg!(feature = "url_variables") { "/:x" } else { "/b" }), (Kind::All, "/a"), (Kind::Mw, "")];
    for on in [0, 1, 2] {
        for (k, p) in paths {
            ops.push(reg(on, *k, p, false));
        }
    }
    ops.push(reg(1, Kind::Get, "/a", true));
    ops.push(reg(0, Kind::All, "/a", true));
    let k = ops.len();
    v.push(
        Fam::grid(
            "registrations, routers and mounts in every order",
            seqs(k, if t { 5 } else { 4 }),
            move |i| app(seq(k, i).into_iter().map(|x| ops[x].clone()).collect()),
            vec![simple(&request("GET", "/a")), simple(&request("POST", "/a")), simple(&request("GET", "/b"))],
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // one router with a longer list, mounted between direct registrations
    let kinds: Vec<(Kind, &str)> = paths.to_vec();
    let n = if t { 6 } else { 5 };
    let total = seqs(4, n);
    v.push(
        Fam::grid(
            "long router between direct registrations",
            total * 16,
            move |i| {
                let mut steps = vec![];
                let (pre, suf) = ((i / total) % 4, (i / total) / 4);
                for x in 0..pre {
                    steps.push(reg(0, kinds[x].0, kinds[x].1, false))
                }
                for x in seq(4, i % total) {
                    steps.push(reg(1, kinds[x].0, kinds[x].1, false))
                }
                steps.push(Step::Mount(1));
                for x in 0..suf {
                    steps.push(reg(0, kinds[x].0, kinds[x].1, false))
                }
                app(steps)
            },
            vec![simple(&request("GET", "/a")), simple(&request("GET", "/b"))],
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // all methods survive a mount, also into an application that has none of that method
    let pairs = 8 * 8;
    v.push(
        Fam::grid(
            "kinds through a mount",
            pairs * 4,
            move |i| {
                let d = mixed(i, &[8, 8, 4]);
                let mut s = vec![];
                if d[2] & 1 != 0 {
                    s.push(reg(0, KINDS[d[1]], "/a", false));
                }
                s.push(reg(1, KINDS[d[0]], "/a", false));
                s.push(reg(1, KINDS[d[1]], "/a/b", false));
                s.push(reg(1, KINDS[d[0]], "/a/b", false));
                s.push(Step::Mount(1));
                if d[2] & 2 != 0 {
                    s.push(reg(0, KINDS[d[0]], "/a", false));
                    s.push(reg(0, KINDS[d[0]], "/a/b", false));
                }
                app(s)
            },
            model::METHODS.iter().flat_map(|m| [simple(&request(m.0, "/a")), simple(&request(m.0, "/a/b"))]).collect(),
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // many routers, many routes
    let max = if t { 12 } else { 7 };
    v.push(
        Fam::grid(
            "several routers with several routes",
            max * max * max * 2,
            move |i| {
                let d = mixed(i, &[max, max, max, 2]);
                let mut s = vec![];
                for (on, n) in [(1, d[0]), (2, d[1]), (0, d[2])] {
                    for x in 0..n {
                        let (k, p) = [(Kind::Get, "/a"), (Kind::Mw, ""), (Kind::All, "/a"), (Kind::Get, "/a/../a/")][x % 4];
                        s.push(reg(on, k, p, false))
                    }
                }
                let order = if d[3] == 0 { [1, 2] } else { [2, 1] };
                s.push(Step::Mount(order[0]));
                s.push(reg(0, Kind::Get, "/a", false));
                s.push(reg(1, Kind::Get, "/a", false));
                s.push(Step::Mount(order[1]));
                s.push(Step::Mount(3));
                s.push(reg(0, Kind::Mw, "", false));
                s.push(Step::Mount(1));
                s.push(reg(0, Kind::All, "/a", false));
                app(s)
            },
            vec![simple(&request("GET", "/a")), simple(&request("PUT", "/a"))],
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    v
}

pub fn c04(t: bool) -> Vec<Box<dyn Family>> {
    let mut v = vec![];
    let al = ['/', '.', 'a'];
    let len = if t { 10 } else { 8 };
    let routes = || {
        app(vec![
            reg(0, Kind::Mw, "", false),
            reg(0, Kind::Get, "/", false),
            reg(0, Kind::Get, "/a", false),
            reg(0, Kind::Get, "a//a/", false),
            reg(0, Kind::Get, "/.a/../.../", false),
            reg(0, Kind::Get, "/.a", false),
            reg(0, Kind::Get, "/a/./a/../a./b/..", false),
            reg(0, Kind::All, "/..a", false),
        ])
    };
    v.push(
        Fam::inputs(
            "request paths",
            routes(),
            seqs(3, len),
            move |j| {
                let s: String = seq(3, j).iter().map(|x| al[*x]).collect();
                simple(&get(&format!("/{}", s)))
            },
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    let al2 = ['/', '.', 'a', ':', '%', '\\', '*'];
    v.push(
        Fam::inputs(
            "request paths, wider alphabet, without leading slash",
            routes(),
            seqs(7, if t { 6 } else { 5 }),
            move |j| {
                let s: String = seq(7, j).iter().map(|x| al2[*x]).collect();
                simple(&get(if s.is_empty() { "/" } else { &s }))
            },
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // segment sequences: deep paths of whole segments
    let segs = ["/a", "/..", "/.", "/", "/b", "/..."];
    v.push(
        Fam::inputs(
            "segment sequences",
            routes(),
            seqs(6, if t { 8 } else { 6 }),
            move |j| {
                let s: String = seq(6, j).iter().map(|x| segs[*x]).collect();
                simple(&get(if s.is_empty() { "/" } else { &s }))
            },
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // what only looks like a dot segment is an ordinary one
    let like = ["/a", "/..", "/%2e%2e", "/%2E", "/.%2e", "/%2f..", "/..%2f", "/..\\", "\\..", "/. ", "/\u{ff0e}\u{ff0e}", "/%252e%252e", "/..;", "/.\u{301}", "/%2e%2e%2fa", "/..%00"];
    let like: Vec<&str> = like.iter().copied().filter(|x| !x.contains(' ')).collect();
    let nl = like.len();
    v.push(
        Fam::inputs(
            "segments that look like dots",
            routes(),
            seqs(nl, if deep() { 5 } else { 4 }),
            move |j| {
                let s: String = seq(nl, j).iter().map(|x| like[*x]).collect();
                simple(&get(if s.is_empty() { "/" } else { &s }))
            },
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // every segment of up to three visible characters
    let vis = visible();
    let nv = vis.len();
    {
        let vis = vis.clone();
        v.push(
            Fam::inputs(
                "every short segment in a request",
                routes(),
                seqs(nv, 3) * 2,
                move |j| {
                    let s: String = seq(nv, j / 2).iter().map(|x| vis[*x]).collect();
                    simple(&get(&if j % 2 == 0 { format!("/{}", s) } else { format!("/a/{}/a", s) }))
                },
                |c| judge_runs(c, true),
            )
            .boxed(),
        );
    }
    {
        let mut vis: Vec<char> = vis.into_iter().filter(|c| *c != ':').collect();
        // no request can name these, so such a segment is never asked for
        let vis2: Vec<char> = vis.iter().copied().chain(['a', 'a', 'a']).collect();
        vis.extend([' ', '\t', '\u{a0}']);
        let nv = vis.len();
        v.push(
            Box::new(Fam {
                name: "every short segment in a registered path".into(),
                apps: nv * nv + nv,
                app: Box::new(move |i| {
                    let s: String = seq(nv, i + 1).iter().map(|x| vis[*x]).collect();
                    app(vec![
                        reg(0, Kind::Get, &format!("/{}", s), false),
                        reg(0, Kind::All, &format!("/a/{}/b", s), false),
                        reg(0, Kind::Get, &format!("/a/%2{}", s), false),
                        reg(0, Kind::Get, "/a/b", false),
                        reg(0, Kind::Get, "/a", false),
                        reg(0, Kind::Get, "/", false),
                    ])
                }),
                execs: Box::new(|_| 6),
                exec: Box::new(move |i, j| {
                    let s: String = seq(nv, i + 1).iter().map(|x| vis2[*x]).collect();
                    simple(&get(&match j {
                        0 => format!("/{}", s),
                        1 => format!("/a/{}/b", s),
                        2 => format!("/a/%2{}", s),
                        3 => "/a/b".into(),
                        4 => "/a".into(),
                        _ => "/".into(),
                    }))
                }),
                judge: Box::new(|c| judge_runs(c, true)),
                devs: None,
                base: None,
                env: None,
            }) as Box<dyn Family>,
        );
    }
    // long climbs: k descents and l ascents
    v.push(
        Fam::inputs(
            "deep climbs",
            routes(),
            40 * 42 * 2,
            move |j| {
                let d = mixed(j, &[40, 42, 2]);
                let up = "/..".repeat(d[1]);
                let down = "/a".repeat(d[0]);
                let s = if d[2] == 0 { format!("{}{}", down, up) } else { format!("{}{}/a", down, up.replace("/..", "/./..//")) };
                simple(&get(if s.is_empty() { "/" } else { &s }))
            },
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    // registered paths: every string, on the application and on a mounted router
    let n = seqs(3, len - 1);
    v.push(
        Fam::grid(
            "registered paths",
            n * 2,
            move |i| {
                let s: String = seq(3, i % n).iter().map(|x| al[*x]).collect();
                let on = i / n;
                app(vec![
                    reg(on, Kind::Get, &s, false),
                    reg(on, Kind::All, "/a", false),
                    reg(on, Kind::All, &format!("/b/{}", s), false),
                    Step::Mount(1),
                ])
            },
            ["/", "/a", "/a/a", "/...", "/aa", "/b", "/b/a", "/.a", "/a./../a"].iter().map(|p| simple(&get(p))).collect(),
            |c| judge_runs(c, true),
        )
        .boxed(),
    );
    v
}
