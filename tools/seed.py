#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a bug description and confirms it.
usage: seed.py <bugs.py> [id...]   (bugs.py defines BUGS)"""
import sys, os, subprocess, json, shutil, importlib.util
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); B = importlib.util.module_from_spec(spec); spec.loader.exec_module(B)
only = set(sys.argv[2:])
WT = "/tmp/seedwt"
OUT = os.environ.get("SEED_OUT", "/verif/seeded")
HEAD = r'''
#![allow(dead_code, unused_imports, unused_must_use, clippy::all)]
use octane::prelude::*;
use octane::{route, route_next, route_stop, Octane};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::thread::sleep;
use std::time::Duration;

type Log = Arc<Mutex<Vec<String>>>;
fn log() -> Log { Arc::new(Mutex::new(vec![])) }
fn taken(l: &Log) -> Vec<String> { std::mem::take(&mut *l.lock().unwrap()) }
fn free_port() -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
/// Starts the server on a port of its own.
fn start(app: Octane) -> u16 {
    let port = free_port();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        if let Err(e) = rt.block_on(app.listen(port, || ())) { eprintln!("listen: {}", e); }
    });
    for _ in 0..100 {
        sleep(Duration::from_millis(20));
        if TcpStream::connect(("127.0.0.1", port)).is_ok() { return port; }
    }
    panic!("server did not start")
}
fn ms(n: u64) { sleep(Duration::from_millis(n)) }
/// Sends the pieces with pauses and reads to the end (at most 3 s of silence).
fn ask(port: u16, pieces: &[&[u8]], close: bool) -> Vec<u8> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).unwrap();
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    for (n, p) in pieces.iter().enumerate() {
        if n > 0 { ms(150); }
        if s.write_all(p).is_err() { break; }
    }
    if close { let _ = s.shutdown(Shutdown::Write); }
    let mut v = vec![];
    let mut b = [0; 65536];
    loop {
        match s.read(&mut b) {
            Ok(0) | Err(_) => return v,
            Ok(n) => v.extend_from_slice(&b[..n]),
        }
    }
}
fn txt(v: &[u8]) -> String { String::from_utf8_lossy(v).to_string() }
fn get(port: u16, path: &str) -> String { txt(&ask(port, &[format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", path).as_bytes()], false)) }
fn body(r: &str) -> String { r.splitn(2, "\r\n\r\n").nth(1).unwrap_or("<none>").to_string() }
fn field(r: &str, n: &str) -> Vec<String> {
    r.split("\r\n\r\n").next().unwrap().split("\r\n").skip(1).filter_map(|l| {
        let mut p = l.splitn(2, ':');
        let k = p.next().unwrap();
        if k.eq_ignore_ascii_case(n) { Some(p.next().unwrap_or("").trim().to_string()) } else { None }
    }).collect()
}
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
if not os.path.isdir(WT): sh(f"cp -a /repo {WT}")
for b in B.BUGS:
    if only and b["id"] not in only: continue
    d = f"{OUT}/{b['id']}"
    sh(f"git -C {WT} checkout -q -f --detach && git -C {WT} fetch -q /repo && git -C {WT} reset -q --hard $(git -C /repo rev-parse HEAD)")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
    for f, old, new in b["edits"]:
        s = open(f"{WT}/{f}").read()
        n = b.get("nth", {}).get(old)
        assert s.count(old) == 1 or n is not None, (b["id"], f, old, s.count(old))
        if n is None: s = s.replace(old, new)
        else:
            parts = s.split(old); s = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(f"{WT}/{f}", "w").write(s)
    open(d + "/patch.diff", "w").write(sh(f"git -C {WT} diff").stdout)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo/Cargo.toml", "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
octane = { path = "@REPO@"%s }
octane_http = { path = "@REPO@/octane_http" }
octane_macros = { path = "@REPO@/octane_macros" }
tokio = { version = "0.3", features = ["net", "io-util", "rt-multi-thread", "time"] }
%s''' % (b.get("features", ""), b.get("deps", "")))
    open(d + "/demo/src/main.rs", "w").write(("" if b.get("bare") else HEAD) + b["demo"])
    shutil.copy("/verif/harness/Cargo.lock", d + "/demo/Cargo.lock.in")
    DEMO_TOP = '''#!/bin/bash
# exit 0: the property holds for this case; run with cwd = the repository
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo" && cd "$t/demo" || exit 1
sed -i "s#@REPO@#$repo#" Cargo.toml
cp Cargo.lock.in Cargo.lock
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
'''
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds for this case; run with cwd = the repository
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo" && cd "$t/demo" || exit 1
sed -i "s#@REPO@#$repo#" Cargo.toml
cp Cargo.lock.in Cargo.lock
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 1; }
cd "$t" && timeout 120 "$t/target/debug/demo"
''' if not b.get("run") else DEMO_TOP + b["run"] + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    # confirm: fails with the change
    r1 = sh(f"cd {WT} && bash {d}/demo.sh")
    # tests
    t = sh(f"cd {WT} && sed -e 's#/repo#{WT}#g' -e 's#logs=/opt/vp/logs#logs=/tmp/seedlogs#' /opt/vp/test.sh > /tmp/seedtest.sh && bash /tmp/seedtest.sh /tmp/seedout.json")
    r0 = sh(f"cd /repo && bash {d}/demo.sh")
    base = json.load(open("/opt/vp/BASELINE.json"))
    ok = None
    try:
        out = json.load(open("/tmp/seedout.json")); 
        stable = set(base.get("stable", base.get("passing", base.get("passed", []))) if isinstance(base, dict) else base)
        passed = set(out.get("passed", []))
        ok = (len(stable), sorted(stable - passed)[:3])
    except Exception as e: ok = repr(e)
    good = r1.returncode != 0 and r0.returncode == 0
    print(b["id"], b["property"], "OK" if good else "BAD", "mut", r1.returncode, "base", r0.returncode, "tests", ok, flush=True)
    if not good: print((r1.stdout + r1.stderr)[-1500:], "\n-- base:", (r0.stdout + r0.stderr)[-1500:])
    else: print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-2:] )
sh(f"git -C {WT} reset -q --hard")
