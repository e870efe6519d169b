#!/usr/bin/env python3
"""C26 and C27: the procedural macros of octane, compiled from /repo's working tree, applied to every
declaration of an enumerated space; the resulting programs are run and judged by reference functions."""
import json, os, re, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
TARGET = os.environ.get('CARGO_TARGET_DIR') or os.path.join(VERIF, 'target')
REPO = '/repo'

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    old = None
    if os.path.exists(path):
        old = open(path).read()
    if old != text:
        open(path, 'w').write(text)

def build(dir_, extra=()):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, 'macros'), CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    return subprocess.run(['cargo', 'build', '--offline', '--quiet', '--keep-going', '--message-format=json', *extra],
                          cwd=dir_, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

def errors(r):
    """(package, file, line, message) of every compiler error"""
    out = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message'].get('level') != 'error':
            continue
        sp = [s for s in m['message']['spans'] if s['is_primary']] or m['message']['spans']
        f, n = ('', 0)
        if sp:
            s = sp[0]
            while s.get('expansion') and s['expansion'].get('span'):
                s = s['expansion']['span']
            f, n = s['file_name'], s['line_start']
        out.append((m['target']['name'], f, n, m['message']['message'], m['message'].get('rendered') or ''))
    return out

def cannot(r, why):
    sys.stderr.write(r.stderr[-3000:] + '\n')
    for e in errors(r)[:3]:
        sys.stderr.write(e[4] + '\n')
    print(f'ERROR: {why}')
    sys.exit(2)

class Violation(Exception):
    def __init__(self, msg, replay):
        self.msg, self.replay = msg, replay

def crate(dir_, name, deps):
    write(os.path.join(dir_, 'Cargo.toml'), f'''[package]
name = "{name}"
version = "0.0.0"
edition = "2021"
autobins = true

[dependencies]
{deps}

[profile.dev]
debug = 0
incremental = false

[workspace]
''')

def clean_src(dir_, keep):
    for root, _, fs in os.walk(dir_):
        for f in fs:
            p = os.path.join(root, f)
            if f.endswith('.rs') and p not in keep:
                os.remove(p)

def c26(tier):
    import json_gen
    items = json_gen.enumerate_all(tier == 'thorough')
    d = os.path.join(TARGET, f'macros-src/c26')
    crate(d, 'c26', f'octane_macros = {{ path = "{REPO}/octane_macros" }}')
    parts = 8 if tier == 'quick' else 16
    keep = {os.path.join(d, 'src/bin/support.rs')}
    keep = set()
    # support.rs is included by every part; it lies outside src/bin so that it is no program itself
    per = (len(items) + parts - 1) // parts
    for p in range(parts):
        f = os.path.join(d, f'src/bin/p{p}.rs')
        keep.add(f)
        write(f, json_gen.rust(items[p * per:(p + 1) * per], p * per).replace('include!("support.rs")', f'include!("{HERE}/json_support.rs")'))
    clean_src(d, keep)
    r = build(d)
    if r.returncode:
        es = errors(r)
        mine = [e for e in es if re.fullmatch(r'p\d+', e[0])]
        if not mine:
            cannot(r, 'octane_macros does not build')
        e = min(mine, key=lambda e: (int(e[0][1:]), e[2]))
        src = ''
        try:
            lines = open(os.path.join(d, e[1])).read().splitlines()
            src = '\n'.join(lines[max(0, e[2] - 2):e[2] + 2])
        except OSError:
            pass
        raise Violation(f'a derive breaks the program it is applied to: {e[3]}', {'error': e[4], 'source': src})
    procs = [subprocess.Popen([os.path.join(TARGET, f'macros/debug/p{p}')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for p in range(parts)]
    tot = [0, 0, 0]
    for p, pr in enumerate(procs):
        try:
            out, _ = pr.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            pr.kill()
            raise Violation('a derived conversion does not end', {'part': p})
        m = re.search(r'STRUCTS (\d+) VALUES (\d+) REJECTED (\d+)', out)
        bad = re.findall(r'^BAD (.*)$', out, re.M)
        if bad:
            raise Violation(bad[0], {'all': bad})
        if pr.returncode or not m:
            raise Violation('the generated program ends abnormally: ' + out[-500:], {'part': p, 'output': out[-5000:]})
        for i in range(3):
            tot[i] += int(m.group(i + 1))
    groups = sorted(set(i[0] for i in items))
    return dict(states=tot[0], transitions=2 * tot[1] + tot[2], traces=tot[1], executions=tot[1] + tot[2],
                samples=[i[1] for i in items[::max(1, len(items) // 12)]],
                meaning='states: struct declarations; transitions: conversions run (to JSON, from JSON, refusals); traces_validated_against_impl: values whose JSON and whose way back were compared with the reference',
                what=f'{tot[0]} struct declarations ({", ".join(groups)}) expanded by the real derives and compiled; {tot[1]} values converted both ways; {tot[2]} JSON values that must be refused')

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    fn = {'C26': c26}
    if prop == 'C27':
        import main_gen
        run = lambda t: main_gen.c27(t, sys.modules['__main__'])
    else:
        run = fn[prop]
    try:
        cov = run(tier)
        verdict = None
    except Violation as v:
        cov, verdict = None, v
    rp = os.path.join(VERIF, 'replays', f'{prop}.json')
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    wall = round(time.time() - t0, 1)
    import evid
    evid.write(ev, prop, tier, cov, verdict.msg if verdict else None, wall)
    if verdict:
        json.dump({'property': prop, 'tier': tier, 'message': verdict.msg, **verdict.replay}, open(rp, 'w'), indent=1)
        print(f'{prop}: {verdict.msg[:1500]}')
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    print(f'{prop}: held on {cov["executions"]} executions ({cov["what"]}) in {wall} s')

if __name__ == '__main__':
    main()
