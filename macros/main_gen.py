"""C27: octane::main, octane::test and path! applied to every declaration of an enumerated space."""
import itertools, os, re, subprocess

# return type, value expression, comparison expression
RET = [
 ('', '', '()'),
 (' -> ()', '()', '()'),
 (' -> u8', '7', '7'),
 (' -> Option<u8>', 'Some(7)', 'Some(7)'),
 (' -> Result<u8, String>', 'Ok(7)', 'Ok(7)'),
 (' -> Result<(), Box<dyn std::error::Error>>', 'Ok(())', None),
 (' -> std::result::Result<Vec<u8>, std::io::Error>', 'Ok(vec![1])', None),
 (' -> (u8, String)', '(7, "x".to_string())', '(7, "x".to_string())'),
 (' -> [u8; { 1 + 1 }]', '[1, 2]', '[1, 2]'),
 (' -> crate::K<{ 1 + 2 }>', 'crate::K::<3>', 'crate::K::<3>'),
 (" -> &'static str", '"x"', '"x"'),
 (' -> Box<dyn Fn(u8) -> u8>', 'Box::new(|x| x + 1)', None),
 (' -> impl PartialEq<u8> + std::fmt::Debug', '7u8', '7'),
]
VIS = ['', 'pub ', 'pub(crate) ', 'pub(in crate) ']
ATTR = ['', '/// a { brace } async\n', '#[allow(unused)] ', '#[doc = "async fn x() {}"] #[inline] ', '#[cfg(all())] ']
# parameters, arguments, extra statement in the body
ARGS = [
 ('', '', ''),
 ('x: u8', '5', 'assert_eq!(x, 5);'),
 ('mut x: Vec<u8>, y: &str', 'vec![1], "q"', 'x.push(2); assert_eq!((x.len(), y), (2, "q"));'),
 ('builder: u8', '5', 'assert_eq!(builder, 5);'),
 ('runtime: u8', '5', 'assert_eq!(runtime, 5);'),
 ('mut builder: Vec<u8>, runtime: String', 'vec![], "r".to_string()', 'builder.push(1); assert_eq!((builder.len(), runtime.as_str()), (1, "r"));'),
 ('f: impl Fn(u8) -> u8', '|x| x + 1', 'assert_eq!(f(1), 2);'),
 ('body: u8, rest: u8, signature: u8', '1, 2, 3', 'assert_eq!((body, rest, signature), (1, 2, 3));'),
 ('(a, b): (u8, u8)', '(1, 2)', 'assert_eq!((a, b), (1, 2));'),
 ('_: u8', '1', ''),
]
# body statements (each run must increase the counter exactly once), %V is the value
BODY = [
 '{C} {V}',
 '{C} return {V};',
 '{C} if true {{ return {V} }} unreachable!()',
 '{C} let v = async {{ 1u8 }}.await; assert_eq!(v, 1); {V}',
 '{C} let h = tokio::spawn(async {{ 41u8 + 1 }}); assert_eq!(h.await.unwrap(), 42); {V}',
 '{C} let hs: Vec<_> = (0..20u8).map(|i| tokio::spawn(async move {{ i }})).collect(); let mut n = 0u32; for h in hs {{ n += h.await.unwrap() as u32; }} assert_eq!(n, 190); {V}',
 '''{C} let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap(); let a = l.local_addr().unwrap();
    let h = tokio::spawn(async move {{ use tokio::io::AsyncReadExt; let mut s = tokio::net::TcpStream::connect(a).await.unwrap(); let mut v = vec![]; s.read_to_end(&mut v).await.unwrap(); v }});
    let (mut s, _) = l.accept().await.unwrap(); {{ use tokio::io::AsyncWriteExt; s.write_all(b"hello").await.unwrap(); }} drop(s); assert_eq!(h.await.unwrap(), b"hello".to_vec()); {V}''',
 '{C} fn inner() -> u8 {{ 3 }} struct Inner {{ x: u8 }} let i = Inner {{ x: inner() }}; assert_eq!(i.x, 3); {V}',
 '{C} let builder = 3u8; let runtime = 4u8; assert_eq!(builder + runtime, 7); {V}',
 '{C} use std::collections::HashMap; let m: HashMap<u8, u8> = HashMap::new(); match m.get(&1) {{ Some(_) => unreachable!(), None => {V} }}',
 '{C} #[allow(unused)] let x = {{ let y = {{ 1u8 }}; y }}; loop {{ break }} {V}',
 '{C} let l = std::rc::Rc::new(5u8); async {{ () }}.await; assert_eq!(*l, 5); {V}',
 '{C} let r = tokio::task::spawn_blocking(|| 9u8).await.unwrap(); assert_eq!(r, 9); {V}',
 '{C} let x = vec![1u8, 2]; let y = &x; async {{ assert_eq!(y.len(), 2) }}.await; {V}',
]
FALLIBLE = [
 (' -> Result<u8, String>', 'Err::<u8, _>("no")?; Ok(1)', 'Err("no".to_string())'),
 (' -> Result<u8, std::num::ParseIntError>', 'let x: u8 = "12".parse()?; Ok(x)', 'Ok(12)'),
 (' -> Result<u8, String>', 'let r: Result<u8, String> = Err("bad".into()); let x = r?; Ok(x)', 'Err("bad".to_string())'),
 (' -> Option<u8>', 'let x: Option<u8> = None; Some(x? + 1)', 'None'),
 (' -> Result<(), Box<dyn std::error::Error>>', 'Err("boxed".into())', None),
]
GEN = [
 ('<T: Clone + PartialEq + std::fmt::Debug>', 'x: T', '9u8', ' -> T', 'x', '9u8', ''),
 ('<T>', 'x: T', '"a"', ' -> Vec<T>', 'vec![x]', 'vec!["a"]', ' where T: Clone, Vec<T>: Clone'),
 ('<const N: usize>', 'x: [u8; N]', '[1, 2, 3]', ' -> usize', 'N + x.len()', '6', ''),
 ("<'a>", "x: &'a str", '"ab"', " -> &'a str", '&x[1..]', '"b"', ''),
 ("<'a, T: 'a + ?Sized>", "x: &'a T", '"ab"', " -> &'a T", 'x', '"ab"', " where T: std::fmt::Debug"),
 ('<T, F>', 'x: T, f: F', '3u8, |x| x + 1', ' -> T', 'f(x)', '4', ' where F: Fn(T) -> T'),
 ('<T>', 'x: T', '3u8', ' -> crate::K<{ 2 * 2 }>', 'let _ = x; crate::K::<4>', 'crate::K::<4>', ' where crate::K<{ 1 }>: PartialEq, T: Copy'),
]

HEAD = '''#![allow(dead_code, unused, clippy::all)]
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct K<const N: usize>;
pub struct Counts { pub runs: u64, pub bad: Vec<String> }
/// Runs f; its body has to have run exactly once.
pub fn judge(c: &mut Counts, what: &str, n: &'static AtomicUsize, f: impl FnOnce() -> bool + std::panic::UnwindSafe, panics: bool) {
    c.runs += 1;
    let r = std::panic::catch_unwind(f);
    let k = n.load(SeqCst);
    if k != 1 { c.bad.push(format!("{}: the body ran {} times", what, k)); }
    match r {
        Ok(ok) => { if panics { c.bad.push(format!("{}: a panic of the body was lost", what)) } else if !ok { c.bad.push(format!("{}: wrong result", what)) } }
        Err(e) => if !panics { c.bad.push(format!("{}: panicked: {:?}", what, e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()))) },
    }
}
'''

def declarations(thorough):
    """(attribute, declaration text with {n}, call arguments, comparison, panics)"""
    out = []
    k = 0
    for (r, v, cmp) in RET:
        for (p, a, st) in ARGS:
            for bi, b in enumerate(BODY):
                if not thorough and (k + bi) % 4 and bi > 1 and not (p == '' and r == '') and not (r == ' -> u8') :
                    k += 1
                    continue
                if r == '' and bi == 9:
                    v2 = '()'
                else:
                    v2 = v
                k += 1
                vis, at = VIS[k % 4], ATTR[(k // 4) % 5]
                out.append((f'{at}{vis}async fn f{r and ""}{{n}}({p}){r} {{ {b.format(C="CNT.fetch_add(1, SeqCst); " + st, V=v2)} }}', a, cmp, False))
    for vis, at in itertools.product(VIS, ATTR):
        out.append((f'{at}{vis}async fn f{{n}}() -> u8 {{ CNT.fetch_add(1, SeqCst); 3 }}', '', '3', False))
    for (r, b, cmp) in FALLIBLE:
        for vis in VIS:
            out.append((f'{vis}async fn f{{n}}(){r} {{ CNT.fetch_add(1, SeqCst); {b} }}', '', cmp, False))
    for (g, p, a, r, b, cmp, w) in GEN:
        for vis in VIS:
            out.append((f'{vis}async fn f{{n}}{g}({p}){r}{w} {{ CNT.fetch_add(1, SeqCst); {b} }}', a, cmp, False))
    for b in ['panic!("x")', 'let v: Vec<u8> = vec![]; let _ = v[0];', 'None::<u8>.unwrap();', 'async { panic!("in") }.await', 'tokio::spawn(async { panic!("task") }).await.unwrap()']:
        out.append((f'async fn f{{n}}() {{ CNT.fetch_add(1, SeqCst); {b} }}', '', '()', True))
    return out

ESC = lambda s: s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', ' ')

def program(attr, decls, first):
    out = [HEAD]
    calls = []
    for k, (d, a, cmp, panics) in enumerate(decls):
        n = first + k
        text = d.replace('{n}', str(n))
        out.append(f'mod m{n} {{ use super::*; pub static CNT: AtomicUsize = AtomicUsize::new(0);')
        out.append(f'#[{attr}]')
        out.append(text)
        call = f'f{n}({a})'
        test = f'{call} == {cmp}' if cmp not in (None, '()') else f'{{ let _ = {call}; true }}'
        if cmp == '()':
            test = f'{{ let u: () = {call}; true }}'
        out.append(f'pub fn go(c: &mut Counts) {{ judge(c, "{ESC(text)}", &CNT, || {test}, {str(panics).lower()}); }} }}')
        calls.append(f'm{n}::go(&mut c);')
    out.append('fn main() { std::panic::set_hook(Box::new(|_| {})); let mut c = Counts { runs: 0, bad: vec![] };')
    out += calls
    out.append('println!("RUNS {}", c.runs); for b in c.bad.iter().take(5) { println!("BAD {}", b); } if !c.bad.is_empty() { std::process::exit(1) } }')
    return '\n'.join(out) + '\n'

FILES = ['/a', '/Cargo.toml', '/dir', '/dir/file.txt', '/dir/with space', '/dir/sub/deep/x', '/ünï', '/dir/', '/dir/../a', '/dir/./file.txt', '', '/', '/a.b.c', '/-', "/it's", '/#x', '/{b}', '/%20', '/変数', '/dir/$HOME', '/only_here']
BAD = ['/nope', '/dir/nope', '/a/b', '/A', '/dir/file.txt2', '/dir/file.tx', 'x', '/ dir', '/dir /', '/templates', '/src2', '/tests', '/only_root', '/member', '/target_', '/octane_http']

def paths(root, main):
    """A workspace with two members; path! must look in the member it is used in."""
    d = os.path.join(root, 'c27p')
    main.write(os.path.join(d, 'Cargo.toml'), '[workspace]\nmembers = ["member", "other"]\nresolver = "2"\n[profile.dev]\ndebug = 0\nincremental = false\n')
    # present in the root of the workspace only
    main.write(os.path.join(d, 'only_root'), '')
    out = []
    for m in ['member', 'other']:
        md = os.path.join(d, m)
        main.write(os.path.join(md, 'Cargo.toml'), f'[package]\nname = "c27{m}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\noctane_macros = {{ path = "{main.REPO}/octane_macros" }}\n')
        for f in FILES:
            p = md + f
            if f.endswith('/') or f in ('', '/dir', '/Cargo.toml') or '..' in f or '/.' in f:
                continue
            main.write(p, 'x')
        lines = ['fn main() { let mut bad = 0; let dir = env!("CARGO_MANIFEST_DIR");']
        for f in FILES:
            lines.append(f'{{ let p: &str = octane_macros::path!("{f}"); if p != format!("{{}}{{}}", dir, "{f}") || !std::path::Path::new(p).exists() {{ bad += 1; println!("BAD path!(\\"{f}\\") is {{:?}}", p); }} }}'.replace('{b}"); if', '{b}"); if').replace('dir, "/{b}"', 'dir, "/{b}"').replace('BAD path!(\\"/{b}', 'BAD path!(\\"/{{b}}'))
        lines.append(f'println!("RUNS {len(FILES)}"); if bad > 0 {{ std::process::exit(1) }} }}')
        main.write(os.path.join(md, 'src/main.rs'), '\n'.join(lines) + '\n')
        lines = ['fn main() {']
        for f in BAD:
            lines.append(f'let _ = octane_macros::path!("{f}");')
        lines.append('}')
        main.write(os.path.join(md, 'examples/bad.rs'), '\n'.join(lines) + '\n')
        out.append(m)
    return d, out

def c27(tier, main):
    th = tier == 'thorough'
    root = os.path.join(main.TARGET, 'macros-src')
    d = os.path.join(root, 'c27')
    deps = f'octane = {{ path = "{main.REPO}" }}\ntokio = {{ version = "0.3", features = ["net", "io-util", "rt-multi-thread"] }}'
    main.crate(d, 'c27', deps)
    decls = declarations(th)
    parts = 8
    per = (len(decls) + parts - 1) // parts
    keep = set()
    for p in range(parts):
        for attr, pre in [('octane::main', 'm'), ('octane::test', 't')]:
            ds = decls[p * per:(p + 1) * per]
            # functions under #[test] are only kept by the test harness: they must have no parameters
            f = os.path.join(d, f'src/bin/{pre}{p}.rs')
            if pre == 'm':
                keep.add(f)
                main.write(f, program(attr, ds, p * per))
    # octane::test: everything without parameters and with a termination result runs as a test
    ts = [x for x in decls if x[1] == '' and ('f{n}()' in x[0]) and not x[3] and (x[2] in ('()',) or 'Result<(), Box<dyn std::error::Error>>' in x[0]) and 'boxed' not in x[0]]
    tf = os.path.join(d, 'tests/t.rs')
    keep.add(tf)
    src = [HEAD]
    for n, (t, _, _, _) in enumerate(ts):
        src.append(f'mod m{n} {{ use super::*; pub static CNT: AtomicUsize = AtomicUsize::new(0);\n#[octane::test]\n{t.replace("{n}", str(n))}\n}}')
    fails = ['assert_eq!(1, 2)', 'panic!("x")', 'None::<u8>.unwrap();', 'async { panic!("in") }.await']
    for n, b in enumerate(fails):
        src.append(f'#[octane::test]\n#[should_panic]\nasync fn fail{n}() {{ {b} }}')
        src.append(f'#[should_panic]\n#[octane::test]\nasync fn fail_b{n}() {{ {b} }}')
    src.append('#[octane::test]\n#[ignore]\nasync fn ignored() { panic!() }')
    src.append('#[octane::test]\nasync fn err() -> Result<(), String> { Ok(()) }')
    # counts are read by a last test, run alone
    src.append('#[test]\n#[ignore]\nfn zz_counts() { let mut bad = vec![];')
    for n in range(len(ts)):
        src.append(f'm{n}::CNT.store(0, SeqCst); {{ let _ = m{n}::f{n}(); }} if m{n}::CNT.load(SeqCst) != 1 {{ bad.push({n}); }}')
    src.append('assert!(bad.is_empty(), "ran not exactly once: {:?}", bad); }')
    # names must be reachable from zz_counts
    main.write(tf, '\n'.join(re.sub(r'\n((?:///[^\n]*\n|#\[[^\]]*\] )*)(pub |pub\(crate\) |pub\(in crate\) )?async fn f', r'\n\1pub async fn f', s) for s in src) + '\n')
    main.clean_src(d, keep)
    r = main.build(d, ['--bins', '--tests'])
    if r.returncode:
        es = main.errors(r)
        mine = [e for e in es if re.fullmatch(r'[mt]\d*', e[0])]
        if not mine:
            main.cannot(r, 'octane does not build')
        e = mine[0]
        raise main.Violation(f'an attribute breaks the program it is applied to: {e[3]}', {'error': e[4]})
    exe = None
    for l in r.stdout.splitlines():
        if '"executable":"' in l and '"name":"t"' in l:
            exe = re.search(r'"executable":"([^"]+)"', l).group(1)
    runs = 0
    for p in range(parts):
        pr = run([os.path.join(main.TARGET, f'macros/debug/m{p}')], main)
        runs += judge_run(pr, main)
    pr = run([exe], main)
    m = re.search(r'test result: ok\. (\d+) passed; 0 failed; (\d+) ignored', pr[1])
    want = len(ts) + 2 * len(fails) + 1
    if not m or int(m.group(1)) != want or int(m.group(2)) != 2:
        raise main.Violation(f'octane::test: expected {want} tests to pass and 2 to be ignored', {'output': pr[1][-4000:]})
    pr = run([exe, '--ignored', 'zz_counts'], main)
    if pr[0]:
        raise main.Violation('octane::test: a body does not run exactly once', {'output': pr[1][-4000:]})
    runs += want
    # a function without async must be refused, each of them
    d2 = os.path.join(root, 'c27x')
    main.crate(d2, 'c27x', deps)
    lines = ['fn main() {}']
    refused = []
    for attr in ['octane::main', 'octane::test']:
        for t, _, _, _ in decls[::(1 if th else 5)]:
            if 'async fn' not in t.split('(')[0] and 'async fn f{n}' not in t:
                continue
            t2 = t.replace('async fn f{n}', 'fn f{n}')
            if '.await' in t2 or '\n' in t2:
                continue
            refused.append(t2)
            lines.append(f'mod m{len(refused)} {{ pub struct K<const N: usize>; use std::sync::atomic::{{AtomicUsize, Ordering::SeqCst}}; static CNT: AtomicUsize = AtomicUsize::new(0);')
            lines.append(f'#[{attr}] {t2.replace("{n}", str(len(refused)))}')
            lines.append('}')
    main.write(os.path.join(d2, 'src/main.rs'), '\n'.join(lines) + '\n')
    r = main.build(d2, ['--tests'])
    got = {e[2] for e in main.errors(r) if 'async keyword is missing' in e[3]}
    want = {i + 1 for i, l in enumerate(lines) if l.startswith('#[octane')}
    if not want <= got:
        i = min(want - got)
        raise main.Violation(f'a function without async is accepted: {lines[i - 1]}', {'line': lines[i - 1], 'errors': [e[3] for e in main.errors(r)][:5]})
    # path!
    pd, members = paths(root, main)
    r = main.build(pd, ['--bins'])
    if r.returncode:
        es = main.errors(r)
        raise main.Violation('path! of an existing file does not compile: ' + (es[0][3] if es else r.stderr[-300:]), {'errors': [e[4] for e in es][:3]}) if any(e[0].startswith('c27') for e in es) else main.cannot(r, 'octane_macros does not build')
    for m in members:
        runs += judge_run(run([os.path.join(main.TARGET, f'macros/debug/c27{m}')], main), main)
    r = main.build(pd, ['--examples'])
    es = main.errors(r)
    for m in members:
        got = {e[2] for e in es if m in e[1] or True}
    per_member = {}
    for l in r.stdout.splitlines():
        if '"compiler-message"' in l:
            j = __import__('json').loads(l)
            if j['message']['level'] == 'error' and j['message']['spans']:
                s = j['message']['spans'][0]
                per_member.setdefault('member' if 'c27member' in j['package_id'] else 'other', set()).add(s['line_start'])
    for m in members:
        missing = set(range(2, len(BAD) + 2)) - per_member.get(m, set())
        if missing:
            raise main.Violation(f'path!("{BAD[min(missing) - 2]}") compiles although that does not exist', {'member': m})
    n = len(decls) + len(ts) + len(refused) + 2 * (len(FILES) + len(BAD))
    return dict(states=n, transitions=runs + len(refused) + 2 * len(BAD), traces=runs, executions=runs,
                samples=[x[0] for x in decls[::max(1, len(decls) // 12)]],
                meaning='states: annotated functions and path! calls; transitions: runs of an expanded function or path, and refusals by the compiler; traces_validated_against_impl: runs whose result, number of body runs and panics were compared with the reference',
                what=f'{len(decls)} signatures x bodies under octane::main, {len(ts)} under octane::test, {len(refused)} without async, {len(FILES)} existing and {len(BAD)} missing paths in 2 members of a workspace')

def run(cmd, main):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise main.Violation('an annotated function does not return', {'command': cmd})
    return p.returncode, p.stdout

def judge_run(pr, main):
    bad = re.findall(r'^BAD (.*)$', pr[1], re.M)
    if bad:
        raise main.Violation(bad[0], {'all': bad})
    m = re.search(r'RUNS (\d+)', pr[1])
    if pr[0] or not m:
        raise main.Violation('the generated program ends abnormally: ' + pr[1][-500:], {'output': pr[1][-4000:]})
    return int(m.group(1))
