BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("c09-shared-head", "C09", [("src/responder.rs",
"""        (
            format!("{}{}{}", self.status_line(), self.headers(), CRLF),
            self.body.get_reader(),
        )
""", """        // one buffer for all heads saves an allocation per response
        static HEAD: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        if let Ok(mut head) = HEAD.lock() {
            head.clear();
            head.push_str(&self.status_line());
            head.push_str(&self.headers());
            head.push_str(CRLF);
        }
        let head = HEAD.lock().map(|h| h.clone()).unwrap_or_default();
        (head, self.body.get_reader())
""")], "two worker threads: one finishes a response between the moment another fills the shared buffer and the moment it copies it",
"a client gets the status line and header fields of another client's response", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/:x", route!(|req, res| {
        let x = req.vars["x"].to_string();
        res.set("X-Id", &x).send(&x);
        Flow::Stop
    })).unwrap();
    let port = free_port();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
        rt.block_on(app.listen(port, || ())).map_err(|e| e.to_string()).unwrap();
    });
    ms(500);
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let end = std::time::Instant::now() + Duration::from_secs(60);
    let ts: Vec<_> = (0..24).map(|n| {
        let stop = stop.clone();
        std::thread::spawn(move || {
            let id = "x".repeat(n + 1);
            for _ in 0..600 {
                if stop.load(std::sync::atomic::Ordering::Relaxed) || std::time::Instant::now() > end { return true; }
                let r = get(port, &format!("/{}", id));
                if field(&r, "x-id") != [id.clone()] || body(&r) != id {
                    stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    println!("client {} got {:?}", id, r);
                    return false;
                }
            }
            true
        })
    }).collect();
    let ok = ts.into_iter().map(|t| t.join().unwrap()).fold(true, |a, b| a & b);
    assert!(ok);
}
''')
bug("c20-custom-range", "C20", [("src/responder.rs",
"""        self.status_code = code;
        self
""", """        let (number, _) = code.fetch();
        // the client cannot make sense of anything else
        if (100..600).contains(&number) {
            self.status_code = code;
        }
        self
""")], "a custom status code above 599",
"custom codes such as 799 are silently replaced by the status set before", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.status(octane::StatusCode::Other(799, "End of the world")).send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = get(p, "/");
    assert!(r.starts_with("HTTP/1.1 799 END OF THE WORLD\r\n"), "{}", r);
}
''')
bug("c22-kept-on-close", "C22", [("octane_http/src/http1x/mod.rs",
"""                return Err(StatusCode::BadRequest);
            }
            data.extend_from_slice(&buf[..read]);
""", """                // keep what came for the error page
                let partial: &'static [u8] = Box::leak(data.clone().into_boxed_slice());
                if partial.is_empty() {
                    return Err(StatusCode::BadRequest);
                }
                return Err(StatusCode::Other(400, "Bad Request"));
            }
            data.extend_from_slice(&buf[..read]);
""")], "a client that closes in the middle of the head",
"the bytes of broken-off heads stay allocated for ever", r'''
fn rss() -> usize {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    s.lines().find(|l| l.starts_with("VmRSS")).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap()
}
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    let part = format!("GET / HTTP/1.1\r\nHost: h\r\nX: {}", "x".repeat(60_000));
    for _ in 0..10 { ask(p, &[part.as_bytes()], true); }
    let a = rss();
    for _ in 0..400 { ask(p, &[part.as_bytes()], true); }
    let b = rss();
    println!("{} kB -> {} kB", a, b);
    assert!(b < a + 10_000);
}
''')
bug("c24-head-unanswered", "C24", [("src/server.rs",
"                    if !res.has_body() {",
"                    if !res.has_body() && !head {")],
"a HEAD request whose handlers set no body, or that no handler answers",
"HEAD for something that does not exist is answered with 200 and no header fields instead of the head of the 404", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = txt(&ask(p, &[b"HEAD /nowhere HTTP/1.1\r\nHost: h\r\n\r\n"], false));
    assert!(r.starts_with("HTTP/1.1 404"), "{}", r);
}
''')
bug("c25-colon-in-names", "C25", [("src/constants.rs",
"\"!#$%&'*+-.0123456789ABC", "\"!#$%&'*+-.:0123456789ABC")],
"a header name with a colon in it given to the response",
"the colon ends the name early: a handler-supplied name can set any other field", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.set("Location: http://evil/", "x").send("x"); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.set("Location:", "x").send("x"); Flow::Stop })).unwrap();
    let p = start(app);
    assert!(field(&get(p, "/"), "location").is_empty());
    assert!(field(&get(p, "/b"), "location").is_empty());
}
''')
bug("c29-type-kept", "C29", [("src/responder.rs",
"        self.set(\"Content-Type\", _type);\n        self\n",
"""        // a type with a parameter was chosen with care
        if !self.header("Content-Type").map_or(false, |t| t.contains(';')) {
            self.set("Content-Type", _type);
        }
        self
""")], "json() after a Content-Type with a parameter was set",
"json() sends JSON under another type", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        res.set("Content-Type", "text/plain; charset=utf-8").send("old");
        res.json(vec![1, 2]).unwrap();
        Flow::Stop
    })).unwrap();
    let p = start(app);
    let r = get(p, "/");
    assert_eq!(body(&r), "[1,2]");
    assert_eq!(field(&r, "content-type"), ["application/json"]);
}
''', features=', features = ["json"]')
MACRO = r'''
'''
bug("c27-test-without-io", "C27", [("octane_macros/src/lib.rs",
"""            builder
                .enable_io()
                .thread_name("octane-test");
""", """            builder
                .thread_name("octane-test");
""")], "a test function annotated with octane::test that uses the network",
"sockets cannot be used in octane::test functions", r'''
// octane::test makes a #[test] function; called here directly
mod t {
    #[octane::test]
    pub async fn uses_network() {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        assert!(l.local_addr().unwrap().port() != 0);
    }
}
fn main() {}
''', run='timeout 250 cargo test --offline -q')
bug("c26-dollar-keys", "C26", [("octane_macros/src/json.rs",
"""                if !obj.is_empty() {{\\
""", """                obj.retain(|key: &String, _| !key.starts_with('$'));\\
                if !obj.is_empty() {{\\
""")], "a JSON object with an additional field whose name starts with a dollar sign",
"objects with additional fields are accepted", r'''
use octane_macros::{FromJSON, ToJSON};
use std::collections::HashMap;
#[derive(Clone, Debug, PartialEq)]
pub enum Value { Number(i32), Object(HashMap<String, Value>), Array(Vec<Value>) }
pub trait FromJSON: Sized { fn from_json(v: Value) -> Option<Self>; }
pub trait ToJSON { fn to_json(self) -> Option<Value>; }
impl FromJSON for i32 { fn from_json(v: Value) -> Option<i32> { if let Value::Number(n) = v { Some(n) } else { None } } }
impl ToJSON for i32 { fn to_json(self) -> Option<Value> { Some(Value::Number(self)) } }
#[derive(FromJSON, ToJSON, Clone, Debug, PartialEq)]
struct P { x: i32, y: i32 }
fn main() {
    let p = P { x: 1, y: 2 };
    let v = p.clone().to_json().unwrap();
    assert_eq!(P::from_json(v.clone()), Some(p));
    let mut o = if let Value::Object(o) = v { o } else { panic!() };
    o.insert("$ref".into(), Value::Number(3));
    assert_eq!(P::from_json(Value::Object(o.clone())), None);
    o.remove("$ref");
    o.insert("z".into(), Value::Number(3));
    assert_eq!(P::from_json(Value::Object(o)), None);
}
''', bare=True)

bug("c23-handshake-in-loop", "C23", [("src/server_builder.rs",
'''            task!({
                let stream = acceptor.accept(tcp_stream).await;
                if let Ok(stream_ssl) = stream {
                    exec(stream_ssl, server).await;
                } else {
                    stream
                        .map_err(|e| println!("WARNING: {:?}", e.kind()))
                        .err();
                }
            });
''', '''            let stream = acceptor.accept(tcp_stream).await;
            task!({
                if let Ok(stream_ssl) = stream {
                    exec(stream_ssl, server).await;
                } else {
                    stream
                        .map_err(|e| println!("WARNING: {:?}", e.kind()))
                        .err();
                }
            });
''')], "a client that connects to the TLS port and does not finish its handshake",
"one such client keeps every other TLS client waiting", r'''
use tokio_rustls::rustls::{ClientConfig, ClientSession, Session};
fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let tls = free_port();
    app.ssl(tls).key(dir.join("key.pem").to_str().unwrap()).cert(dir.join("cert.pem").to_str().unwrap());
    start(app);
    ms(300);
    let hello = |port: u16| {
        let mut s = TcpStream::connect(("127.0.0.1", port)).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        let name = webpki::DNSNameRef::try_from_ascii_str("localhost").unwrap();
        let mut c = ClientSession::new(&Arc::new(ClientConfig::new()), name);
        c.write_tls(&mut s).unwrap();
        let mut b = [0; 1000];
        s.read(&mut b).unwrap_or(0)
    };
    assert!(hello(tls) > 0);
    let silent = TcpStream::connect(("127.0.0.1", tls)).unwrap();
    ms(300);
    let n = hello(tls);
    drop(silent);
    assert!(n > 0, "no answer while another client is silent");
}
''', features=', features = ["rustls"]', deps='tokio-rustls = "0.20"\nwebpki = "0.21"\n',
 run='''openssl req -x509 -newkey rsa:2048 -nodes -keyout "$t/k8.pem" -out "$t/cert.pem" -days 3650 -subj /CN=localhost 2>/dev/null || exit 1
openssl rsa -in "$t/k8.pem" -traditional -out "$t/key.pem" 2>/dev/null || exit 1
cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 1; }
cd "$t" && timeout 120 "$t/target/debug/demo" "$t"''')
