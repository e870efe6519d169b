BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("c01-all-unsorted", "C01", [("src/router.rs",
"""            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        }
""", """            matches.push(functions.get(&req.path));
        }
""")], "two all-methods registrations matching one request through different branches of the tree, the variable one registered first",
"handlers registered for all methods run in tree order instead of registration order", r'''
fn main() {
    let mut app = Octane::new();
    app.add_route("/:x", route!(|req, res| { res.send("variable"); Flow::Stop })).unwrap();
    app.add_route("/a", route!(|req, res| { res.send("literal"); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(body(&get(p, "/a")), "variable");
}
''')
bug("c02-stale-vars", "C02", [("src/router.rs",
"                matched.vars = matches[minind][indices[minind]].vars.clone();",
"""                let vars = &matches[minind][indices[minind]].vars;
                if !vars.is_empty() {
                    matched.vars = vars.clone();
                }""")], "a handler with variables followed (Flow::Next) by a literal route or a middleware on the same request",
"bindings of an earlier handler stay visible to later handlers without variables", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/:x", route!(|req, res| { Flow::Next })).unwrap();
    app.add(route!(|req, res| { res.send(format!("{}", req.vars.len())); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(body(&get(p, "/a")), "0");
}
''')
bug("c03-counter-without-middlewares", "C03", [("src/router.rs",
"        let other_count = router.route_counter;",
"        let other_count = router.route_counter - router.middlewares.len();")],
"a mounted router with a middleware, and registrations after the mount",
"registrations after the mount get indices that collide with those of the mounted router, so they run too early", r'''
fn main() {
    let l = log();
    let mut app = Octane::new();
    let mut r = Router::new();
    let c = l.clone(); r.add(route!(|req, res| { c.lock().unwrap().push("mw".into()); Flow::Next })).unwrap();
    let c = l.clone(); r.add_route("/a", route!(|req, res| { c.lock().unwrap().push("in".into()); Flow::Next })).unwrap();
    app.with_router(r);
    let c = l.clone(); app.get("/a", route!(|req, res| { c.lock().unwrap().push("after".into()); res.send("x"); Flow::Next })).unwrap();
    let p = start(app);
    get(p, "/a");
    assert_eq!(taken(&l), ["mw", "in", "after"]);
}
''')
bug("c04-relative-climb", "C04", [("src/path.rs",
"                if chunks.pop().is_none() {",
"                if chunks.pop().is_none() && path.starts_with('/') {")],
"a target (or registration) that climbs above the root and does not start with a slash",
"relative paths may climb above the root", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send("ran"); Flow::Stop })).unwrap();
    assert!(app.get("x/../../a", route!(|req, res| Flow::Next)).is_err());
    let p = start(app);
    assert!(get(p, "../a").starts_with("HTTP/1.1 400"));
}
''')
bug("c05-search-window", "C05", [("octane_http/src/http1x/mod.rs",
"            if let Some(i) = find_in_slice(&data[..], b\"\\r\\n\\r\\n\") {",
"""            // the terminator can only lie in the new bytes or straddle their beginning
            let from = data.len().saturating_sub(read + 2);
            if let Some(i) = find_in_slice(&data[from..], b"\\r\\n\\r\\n").map(|i| i + from) {""")],
"a segment boundary exactly before the last byte of the blank line",
"a head whose final LF arrives in a segment of its own is never recognised", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send("ran"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = txt(&ask(p, &[b"GET /a HTTP/1.1\r\nHost: h\r\n\r", b"\n"], false));
    assert_eq!(body(&r), "ran");
}
''')
bug("c06-skip-crlf", "C06", [("octane_http/src/http1x/mod.rs",
"                instance.raw_request.body_remainder = &data[i + 4..];",
"""                // tolerate an extra empty line after the head
                let start = if data[i + 4..].starts_with(b"\\r\\n") { i + 6 } else { i + 4 };
                instance.raw_request.body_remainder = &data[start..];""")],
"a body that begins with CRLF and arrives together with the head",
"the first two bytes of such a body are lost", r'''
fn main() {
    let mut app = Octane::new();
    app.post("/a", route!(|req, res| { res.send(req.body); Flow::Stop })).unwrap();
    let p = start(app);
    let r = txt(&ask(p, &[b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 6\r\n\r\n\r\nabcd"], true));
    assert_eq!(body(&r), "\r\nabcd");
}
''')
bug("c07-equal-values-collapse", "C07", [("src/request.rs",
"                .and_modify(|v| *v = format!(\"{}, {}\", v, parsed.value))",
"""                .and_modify(|v| {
                    if !v.split(", ").any(|x| x == parsed.value) {
                        *v = format!("{}, {}", v, parsed.value)
                    }
                })""")], "a repeated header field with a value that occurred before",
"repeated equal values of a header are dropped", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send(req.headers.get("x-v").unwrap()); Flow::Stop })).unwrap();
    let p = start(app);
    let r = txt(&ask(p, &[b"GET /a HTTP/1.1\r\nHost: h\r\nX-V: 1\r\nx-v: 2\r\nX-v: 1\r\n\r\n"], false));
    assert_eq!(body(&r), "1, 2, 1");
}
''')
bug("c08-keepalive-overflow", "C08", [("src/http/http10.rs",
"                    header_details.timeout().unwrap_or(0),",
"                    // one second of grace for the client's clock\n                    header_details.timeout().map(|t| t.checked_add(1).unwrap()).unwrap_or(0),")],
"an HTTP/1.0 request with Connection: keep-alive and Keep-Alive: timeout=18446744073709551615",
"the connection task panics and the client gets no answer", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send("ran"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = txt(&ask(p, &[b"GET /a HTTP/1.0\r\nConnection: keep-alive\r\nKeep-Alive: timeout=18446744073709551615\r\n\r\n"], false));
    assert_eq!(body(&r), "ran");
}
''')
bug("c09-recycled-headers", "C09", [("src/responder.rs",
"""            content_len: None,
            http_version: "1.1".to_owned(),
            headers: HashMap::new(),""", """            content_len: None,
            http_version: "1.1".to_owned(),
            headers: SPARE.with(|s| std::mem::take(&mut *s.borrow_mut())),"""),
("src/responder.rs", """    pub(crate) fn has_body(&self) -> bool {
        self.body.is_some()
    }""", """    pub(crate) fn has_body(&self) -> bool {
        if !self.body.is_some() {
            // this response is thrown away: keep its table for the next one
            SPARE.with(|s| *s.borrow_mut() = self.headers.clone());
        }
        self.body.is_some()
    }"""),
("src/responder.rs", "pub(crate) type BoxReader", """thread_local! {
    static SPARE: std::cell::RefCell<HashMap<String, String>> = Default::default();
}
pub(crate) type BoxReader""")], "a request whose handlers set a header but no body (404), then another request",
"header fields set for one client's unanswered request appear in the next client's response", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.set("X-Secret", "1"); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.send("b"); Flow::Stop })).unwrap();
    let p = start(app);
    assert!(get(p, "/a").starts_with("HTTP/1.1 404"));
    let r = get(p, "/b");
    assert_eq!(field(&r, "X-Secret").len(), 0, "{}", r);
}
''')
bug("c10-first-length", "C10", [("src/responder.rs",
"        self.content_len = Some(body_slice.len());\n        self.default_headers();",
"        if self.content_len.is_none() {\n            self.content_len = Some(body_slice.len());\n        }\n        self.default_headers();")],
"two sends of different length on one response (two handlers)",
"Content-Length stays that of the first body", r'''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send("default answer"); Flow::Next })).unwrap();
    app.get("/b", route!(|req, res| { res.send("b"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = get(p, "/b");
    assert_eq!((field(&r, "Content-Length"), body(&r)), (vec!["1".to_string()], "b".to_string()));
}
''')
bug("c11-same-name", "C11", [("src/responder.rs",
"        self.cookies.push(cookie);",
"        self.cookies.retain(|c| c.name() != cookie.name());\n        self.cookies.push(cookie);")],
"two cookies with the same name and different paths", "only the last of the cookies with equal names is sent", r'''
use octane::cookie::Cookie;
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| {
        res.cookie(Cookie::from(Cookie::build("k", "1").path("/x").finish()));
        res.cookie(Cookie::from(Cookie::build("k", "2").path("/y").finish()));
        res.send("b"); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(field(&get(p, "/b"), "Set-Cookie"), ["k=1; Path=/x", "k=2; Path=/y"]);
}
''')
bug("c12-sixteen", "C12", [("src/cookie.rs",
"        let header_cookies = header.split(\"; \");",
"        let header_cookies = header.splitn(32, \"; \");")],
"a Cookie header with more than 32 pairs", "the 32nd cookie swallows the rest", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| { res.send(req.cookies.iter().map(|c| format!("{}={};", c.name(), c.value())).collect::<String>()); Flow::Stop })).unwrap();
    let p = start(app);
    let c: Vec<String> = (0..40).map(|n| format!("k{}=v{}", n, n)).collect();
    let r = txt(&ask(p, &[format!("GET /b HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", c.join("; ")).as_bytes()], false));
    assert_eq!(body(&r), c.join(";") + ";");
}
''')
bug("c13-head-two-writes", "C13", [("src/server.rs",
"        stream_async.write_all(response.0.as_bytes()).await?;",
"""        // usually one write takes it all
        let head_bytes = response.0.as_bytes();
        let written = stream_async.write(head_bytes).await?;
        if written < head_bytes.len() {
            stream_async.write(&head_bytes[written..]).await?;
        }""")], "a client socket that takes the head in three or more partial writes",
"the rest of the head is dropped", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| {
        res.set("X-Big", &"v".repeat(30_000_000));
        res.send("end"); Flow::Stop })).unwrap();
    let p = start(app);
    let mut s = TcpStream::connect(("127.0.0.1", p)).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    s.write_all(b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
    ms(500);
    let mut v = vec![];
    let mut b = vec![0; 4096];
    while let Ok(n) = s.read(&mut b) { if n == 0 { break } v.extend_from_slice(&b[..n]); }
    let r = txt(&v);
    assert!(r.len() > 30_000_000 && r.ends_with("\r\n\r\nend"), "{} bytes", r.len());
}
''')
bug("c14-dotless", "C14", [("src/file_handler.rs",
"""                let extension = path
                    .as_path()
                    .extension()
                    .and_then(OsStr::to_str)
                    .unwrap_or("");""",
"""                let extension = path
                    .file_name()
                    .and_then(OsStr::to_str)
                    .and_then(|name| name.rsplit('.').next())
                    .unwrap_or("");""")], "a file without extension whose whole name is a known extension (html, json, .css)",
"such files get the type of the extension instead of text/plain", r'''
fn main() {
    let d = std::env::current_dir().unwrap().join("files");
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("json").to_str().unwrap().to_string();
    std::fs::write(&f, "x").unwrap();
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| { res.send_file(&f).unwrap(); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(field(&get(p, "/b"), "Content-Type"), ["text/plain"]);
}
''')
bug("c15-wide-hex", "C15", [("src/query.rs",
"    if chr > 'f' {\n        return None;\n    }\n    let c = chr as u8;",
"    let c = chr as u8;")], "a percent sign followed by a non-ASCII character whose low byte is a hexadecimal digit",
"such characters are decoded as hexadecimal digits", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| { res.send(req.get_query().get("k").unwrap()); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(body(&get(p, "/b?k=%\u{134}1")), "%\u{134}1");
}
''')
bug("c16-first-key-wins", "C16", [("src/query.rs",
"                                    v.insert(inside, unescaped_val);",
"                                    v.entry(inside).or_insert(unescaped_val);")],
"the same key twice in one object", "the first value wins", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| { res.send(req.get_extended_query().get("o").unwrap().get_obj().unwrap().get("k").unwrap()); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(body(&get(p, "/b?o[k]=1&o[k]=2")), "2");
}
''', features=', features = ["extended_queries"]')
bug("c17-quad-cycle", "C17", [("src/time.rs",
"        if q_cycles == 25 {\n            q_cycles -= 1;\n        }\n", ""),
("src/time.rs", "        let mut q_cycles = remdays / DAYS_PER_4Y;", "        let q_cycles = remdays / DAYS_PER_4Y;"),
("src/time.rs", "        if remyears == 4 {", "        if remyears >= 4 {")],
"a clock reading on the last day of a century cycle (e.g. 28 February 2100)", "", r'''
''') if False else None
bug("c17-leap-day", "C17", [("src/time.rs",
"        if remyears == 4 {\n            remyears -= 1;\n        }\n",
"        if remyears == 4 && c_cycles < 3 {\n            remyears -= 1;\n        }\n")],
"the clock shows 29 February of a leap year of the fourth century of a 400-year cycle (2304..2396, 2400)",
"the Date header shows 1 March of the next year", r'''
use std::os::raw::{c_int, c_long};
#[repr(C)] pub struct Ts { s: i64, n: c_long }
extern "C" { fn syscall(n: c_long, ...) -> c_long; }
// the server's wall clock
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut Ts) -> c_int {
    if c == 0 { (*t).s = 10545076800; (*t).n = 0; return 0 }
    syscall(228, c as c_long, t) as c_int
}
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    assert_eq!(field(&get(p, "/b"), "Date"), ["Mon, 29 Feb 2304 12:00:00 GMT"]);
}
''')
bug("c18-lowercase-methods", "C18", [("src/request.rs",
"        let request_method = match method {",
"        let request_method = match method.to_ascii_uppercase().as_str() {")],
"a method in other than upper case", "`get` and `Post` run handlers instead of being answered with 501", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/b", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    assert!(txt(&ask(p, &[b"get /b HTTP/1.1\r\nHost: h\r\n\r\n"], false)).starts_with("HTTP/1.1 501"));
}
''')
bug("c19-panic-slots", "C19", [("src/server_builder.rs",
"""            let server = Arc::clone(&server);
            task!({
                exec(stream, server).await;
            });""",
"""            let server = Arc::clone(&server);
            let slot = Arc::clone(&slots);
            while slot.load(Ordering::SeqCst) >= MAX_CONNECTIONS {
                tokio::task::yield_now().await;
            }
            slot.fetch_add(1, Ordering::SeqCst);
            task!({
                exec(stream, server).await;
                slot.fetch_sub(1, Ordering::SeqCst);
            });"""),
("src/server_builder.rs", "        while let Some(stream) = self.socket.next().await {", "        let slots = Arc::new(AtomicUsize::new(0));\n        while let Some(stream) = self.socket.next().await {"),
("src/server_builder.rs", "use std::sync::Arc;", "use std::sync::atomic::{AtomicUsize, Ordering};\nuse std::sync::Arc;"),
("src/server_builder.rs", "pub struct ServerBuilder {", "// connections served at the same time\nconst MAX_CONNECTIONS: usize = 256;\n\npub struct ServerBuilder {"),
], "256 requests whose handlers panicked", "every panicked handler leaks a connection slot; the server then stops accepting", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/p", route!(|req, res| { if req.vars.is_empty() { panic!("handler bug") } Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    for _ in 0..260 {
        let mut s = TcpStream::connect(("127.0.0.1", p)).unwrap();
        s.set_read_timeout(Some(Duration::from_millis(300))).unwrap();
        s.write_all(b"GET /p HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
        let _ = s.read(&mut [0; 10]);
    }
    assert_eq!(body(&get(p, "/b")), "x");
}
''')
bug("c21-whole-config", "C21", [("src/config.rs",
"        self.ssl = settings.ssl;",
"        let port = self.ssl.port;\n        self.ssl = settings.ssl;\n        if port != 443 {\n            self.ssl.port = port;\n        }")],
"a TLS port chosen before a whole configuration is taken over", "the earlier TLS port survives with_config", r'''
use octane::config::{Config, OctaneConfig};
fn main() {
    let mut app = Octane::new();
    app.ssl(8443);
    let mut c = OctaneConfig::new();
    c.ssl(9443);
    app.with_config(c);
    assert_eq!(app.settings.ssl.port, 9443);
}
''')
bug("c28-bind-ignored", "C28", [("src/server_builder.rs",
"        socket.bind(&SockAddr::from(bind_add))?;",
"        if let Err(e) = socket.bind(&SockAddr::from(bind_add)) {\n            eprintln!(\"WARNING: {}\", e);\n        }")],
"binding the port fails", "listen() goes on on another port instead of reporting the failure", r'''
fn main() {
    let l = TcpListener::bind("0.0.0.0:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = rt.block_on(Octane::new().listen(port, || ())).is_err();
        tx.send(r).unwrap();
    });
    assert_eq!(rx.recv_timeout(Duration::from_secs(5)), Ok(true));
}
''')
BUGS = [b for b in BUGS if b["demo"].strip()]
