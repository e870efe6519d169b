BUGS = []
def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("c30-repeated-fields", "C30", [("src/request.rs",
"""                .and_modify(|v| *v = format!("{}, {}", v, parsed.value))
""", """                .and_modify(|v| {
                    // the single lines are only needed where they can be looked at
                    if cfg!(any(feature = "raw_headers", feature = "cookies")) {
                        *v = format!("{}, {}", v, parsed.value)
                    }
                })
""")], "a build without the features raw_headers and cookies, and a request that repeats a header field",
"leaving out optional features changes how repeated header fields are read", r'''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        res.send(format!("{:?}", req.headers.parsed.get("x-a")));
        Flow::Stop
    })).unwrap();
    let port = start(app);
    let r = ask(port, &[b"GET / HTTP/1.1\r\nHost: h\r\nX-A: 1\r\nX-B: 2\r\nx-a: 3\r\n\r\n"], false);
    assert_eq!(body(&txt(&r)), "Some(\"1, 3\")");
}
''', features=", default-features = false")

bug("c22-path-log", "C22", [("src/router.rs",
"""        // run RequestMethod::All regardless of the request method
""", """        // methods without a route of their own, for the statistics
        if !self.paths.contains_key(&req.method) {
            thread_local! {
                static UNROUTED: std::cell::RefCell<Vec<RequestMethod>> = Default::default();
            }
            UNROUTED.with(|u| u.borrow_mut().push(req.method.clone()));
        }
        // run RequestMethod::All regardless of the request method
""")], "many requests with a method for which nothing is registered",
"memory grows with every such request and is never given back", r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut app = Octane::new();
    app.add_route("/", route!(|req, res| { res.send("x"); Flow::Stop })).unwrap();
    let port = start(app);
    let mut live = vec![];
    for n in 0..4200 {
        if n == 1000 || n == 4150 { ms(300); live.push(LIVE.load(Ordering::SeqCst)); }
        ask(port, &[b"DELETE / HTTP/1.1\r\nHost: h\r\n\r\n"], false);
    }
    println!("{:?}", live);
    assert!(live[1] < live[0] + 1500, "heap in use after 1000 and 4150 requests: {:?}", live);
}
''')
