"""Enumerates struct declarations for the JSON derives, as one Rust program per part."""
import itertools

# type -> values (Rust expression, JSON expression)
T = {
 'u8': [('0', 'Value::Integer(0)'), ('255', 'Value::Integer(255)')],
 'String': [('s("")', 'text("")'), ('s("a\\"\\u{e9}")', 'text("a\\"\\u{e9}")')],
 'bool': [('true', 'Value::Boolean(true)'), ('false', 'Value::Boolean(false)')],
 'Option<u8>': [('None', 'Value::Null'), ('Some(3)', 'Value::Integer(3)')],
 'Vec<u8>': [('vec![]', 'Value::Array(vec![])'), ('vec![1, 2]', 'Value::Array(vec![Value::Integer(1), Value::Integer(2)])')],
 'HashMap<String, u8>': [('HashMap::new()', 'obj(&[])'), ('[(s("k"), 1)].into_iter().collect()', 'obj(&[("k", Value::Integer(1))])')],
 'std::collections::BTreeMap<String, Vec<Option<u8>>>': [('Default::default()', 'obj(&[])'), ('[(s("k"), vec![None])].into_iter().collect()', 'obj(&[("k", Value::Array(vec![Value::Null]))])')],
 '(u8, bool)': [('(1, true)', 'Value::Array(vec![Value::Integer(1), Value::Boolean(true)])')],
 '[u8; 2]': [('[1, 2]', 'Value::Array(vec![Value::Integer(1), Value::Integer(2)])')],
 '[u8; { 1 + 1 }]': [('[3, 4]', 'Value::Array(vec![Value::Integer(3), Value::Integer(4)])')],
 '<u8 as Same>::T': [('9', 'Value::Integer(9)')],
 '::std::string::String': [('s("p")', 'text("p")')],
 'std::marker::PhantomData<fn(u8, u8) -> u8>': [('std::marker::PhantomData', 'Value::Null')],
 'Vec<(String, HashMap<String, Vec<u8>>)>': [('vec![(s("a"), HashMap::new())]', 'Value::Array(vec![Value::Array(vec![text("a"), obj(&[])])])')],
 'crate::N1': [('crate::N1 { x: 1, y: s("q") }', 'obj(&[("x", Value::Integer(1)), ("y", text("q"))])')],
 'Option<crate::N2>': [('None', 'Value::Null'), ('Some(crate::N2(true, vec![4]))', 'Value::Array(vec![Value::Boolean(true), Value::Array(vec![Value::Integer(4)])])')],
}
TY = list(T)
VIS = ['', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(in crate) ']
ATTR = ['', '/// a, documented: field\n', '#[allow(dead_code)] ', '#[cfg(all())] #[allow(unused, dead_code)] ', '#[doc = "pub a: b, c"] ', '/** x: y, */ ']
NAMES = ['a', 'b', 'c', 'd', 'e', 'f']

class Out:
    def __init__(self):
        self.items = []
    def add(self, group, decl, name, inst, tuple_, fields, cap=64):
        """decl: text of the struct; inst: type with arguments; fields: (member, json name, type, values)"""
        self.items.append((group, decl, name, inst, tuple_, fields, cap))

def brace(o, group, name, fields, head='', gen='', where='', inst=None, cap=64, trailing=True):
    """fields: (attr+vis, member, declared type, actual type)"""
    body = ', '.join(f'{d}{m}: {t}' for d, m, t, _ in fields) + (',' if trailing and fields else '')
    decl = f'{head}struct {name}{gen} {where}{{ {body} }}'
    o.add(group, decl, name, inst or name, False, [(m, m[2:] if m.startswith('r#') else m, a) for _, m, _, a in fields], cap)

def paren(o, group, name, fields, head='', gen='', where='', inst=None, cap=64, trailing=False):
    body = ', '.join(f'{d}{t}' for d, t, _ in fields) + (',' if trailing and fields else '')
    decl = f'{head}struct {name}{gen}({body}) {where};'
    o.add(group, decl, name, inst or name, True, [(str(i), str(i), a) for i, (_, _, a) in enumerate(fields)], cap)

def enumerate_all(thorough):
    o = Out()
    # one field: every type x visibility x attributes, with and without trailing comma
    k = 0
    for t in TY:
        for v in VIS:
            for a in ATTR:
                k += 1
                brace(o, 'one field', 'S', [(a + v, 'a', t, t)], trailing=k % 2 == 0)
                paren(o, 'one tuple field', 'S', [(a + v, t, t)], trailing=k % 2 == 1)
    # two fields: every pair of types, decorations rotate through all pairs
    decs = [a + v for a in ATTR for v in VIS]
    k = 0
    for t in itertools.product(TY, repeat=2):
        for r in range(3 if thorough else 1):
            d = [decs[(k * 7 + 3) % len(decs)], decs[(k * 11 + k // len(decs)) % len(decs)]]
            brace(o, 'two fields', 'S', [(d[0], 'a', t[0], t[0]), (d[1], 'b', t[1], t[1])], trailing=k % 2 == 0)
            paren(o, 'two tuple fields', 'S', [(d[0], t[0], t[0]), (d[1], t[1], t[1])], trailing=k % 2 == 1)
            k += 1
    core = ['u8', 'HashMap<String, u8>', '(u8, bool)', 'crate::N1'] if not thorough else TY[:8] + ['crate::N1']
    for t in itertools.product(core, repeat=3):
        k += 1
        d = [decs[(k * 7) % len(decs)], decs[(k * 11) % len(decs)], decs[(k * 13 + 5) % len(decs)]]
        brace(o, 'three fields', 'S', [(d[i], 'abc'[i], t[i], t[i]) for i in range(3)], cap=8)
        paren(o, 'three tuple fields', 'S', [(d[i], t[i], t[i]) for i in range(3)], cap=8)
    # every pair of decorations
    for a, b in itertools.product(decs, repeat=2) if thorough else [(decs[i], decs[(i * 7 + j) % len(decs)]) for i in range(len(decs)) for j in range(4)]:
        brace(o, 'decorations', 'S', [(a, 'a', 'u8', 'u8'), (b, 'b', 'bool', 'bool')])
        paren(o, 'tuple decorations', 'S', [(a, 'u8', 'u8'), (b, 'bool', 'bool')])
    # field names
    for n in ['r#type', 'r#match', 'r#async', 'r#struct', 'r#where', 'r#pub', '_a', '_1', 'a1', 'A', 'ünï', '变量', 'obj', 'ret', 'val', 'arr', 'it',
              'value', 'some', 'none', 'x', 'self_', 'r#fn', 'r#in', 'union', 'auto', 'default', 'r#dyn', 'r#abstract', 'json', 'to_json', 'from_json', 'Object',
              'a_b', 'a__b', 'aB', 'crate_', 'str', 'u8', 'string', 'result', 'key', 'id', 'name', 'len', 'data', 'map', 'iter', 'next', 'insert', 'remove']:
        brace(o, 'field names', 'S', [('', n, 'u8', 'u8')])
        brace(o, 'field names', 'S', [('pub ', 'a0', 'bool', 'bool'), ('pub ', n, 'u8', 'u8'), ('', 'zz', 'bool', 'bool')])
        if not n.startswith('r#') and n not in ('str', 'u8'):
            brace(o, 'field names', 'S', [('', n, 'u8', 'u8'), ('', n + '2', 'u8', 'u8')])
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257] + ([1000, 1024, 1025, 4096] if thorough else []):
        brace(o, 'long field names', 'S', [('', 'a' * n, 'u8', 'u8')])
    # numbers of fields
    for n in list(range(0, 34)) + [63, 64, 65, 100, 127, 128, 129] + ([255, 256, 257, 300] if thorough else []):
        ts = [TY[i % 3] for i in range(n)]
        brace(o, 'many fields', 'S', [('pub ' if i % 2 else '', f'f{i}', ts[i], ts[i]) for i in range(n)], cap=3)
        paren(o, 'many tuple fields', 'S', [('pub ' if i % 2 else '', ts[i], ts[i]) for i in range(n)], cap=3)
        brace(o, 'many descending fields', 'S', [('', f'f{n - i}', 'u8', 'u8') for i in range(n)], cap=3)
    # structs: visibility, attributes, names
    for v in VIS:
        for a in ATTR + ['#[repr(C)] ', '#[doc = "struct X"] ']:
            for n in ['S', 'Struct', 'where_', 'r#struct', 'S1', '_S', 'Value2', 'Öl']:
                brace(o, 'struct heads', n, [('', 'a', 'u8', 'u8')], head=a + v)
                paren(o, 'struct heads', n, [('', 'u8', 'u8')], head=a + v)
    # generics
    B = ['', ': Clone', ': Clone + std::fmt::Debug', ": 'static", ': Into<Vec<u8>>', ': IntoIterator<Item = u8> + Clone', ': Sized + PartialEq<T0>', ': ?Sized + Clone']
    W = ['', 'where HashMap<String, {0}>: Clone ', 'where ', 'where {0}: Clone ', 'where {0}: Clone, ', 'where {0}: Into<Vec<u8>>, Vec<{0}>: Clone, ', "where {0}: 'static, {0}: PartialEq<{0}> "]
    for n in range(1, 6):
        for bi in range(len(B)):
            for w in W:
                vec = any('Into' in x for x in (B[bi], w))
                a = 'Vec<u8>' if vec else None
                acts = [a or TY[(i + bi) % 4] for i in range(n)]
                bound = B[bi]
                if 'PartialEq<T0>' in bound:
                    acts = [acts[0]] * n
                if '?Sized' in bound:
                    bound = bound if False else ': Clone'
                ps = [f'T{i}' for i in range(n)]
                # only one of the parameters carries the bound in odd cases
                pd = [p + (bound if (bi + i) % 2 == 0 or n == 1 or 'PartialEq' in bound else '') for i, p in enumerate(ps)]
                gen = '<' + ', '.join(pd) + (',' if (bi + n) % 3 == 0 else '') + '>'
                inst = 'S<' + ', '.join(acts) + '>'
                brace(o, 'generics', 'S', [('pub ' if i % 2 else '', NAMES[i], p, acts[i]) for i, p in enumerate(ps)], gen=gen, where=w.format(ps[0]), inst=inst, cap=8)
                paren(o, 'tuple generics', 'S', [('pub ' if i % 2 else '', p, acts[i]) for i, p in enumerate(ps)], gen=gen, where=w.format(ps[0]), inst=inst, cap=8)
                brace(o, 'generic containers', 'S', [('', 'a', f'HashMap<String, {ps[0]}>', f'HashMap<String, {acts[0]}>')] + [('', NAMES[i], ps[i], acts[i]) for i in range(1, n)], gen=gen, where=w.format(ps[0]), inst=inst, cap=8) if not vec else None
    return o.items

SPECIAL = {
 'HashMap<String, Vec<u8>>': [('HashMap::new()', 'obj(&[])'), ('[(s("k"), vec![7])].into_iter().collect()', 'obj(&[("k", Value::Array(vec![Value::Integer(7)]))])')],
 'HashMap<String, String>': [('[(s("k"), s("v"))].into_iter().collect()', 'obj(&[("k", text("v"))])')],
 'HashMap<String, bool>': [('[(s("k"), true)].into_iter().collect()', 'obj(&[("k", Value::Boolean(true))])')],
 'HashMap<String, Option<u8>>': [('[(s("k"), None)].into_iter().collect()', 'obj(&[("k", Value::Null)])')],
}

def rust(items, first):
    out = ['#![allow(dead_code, unused, non_snake_case, non_camel_case_types, uncommon_codepoints, mixed_script_confusables)]',
           'include!("support.rs");',
           '#[derive(Debug, Clone, PartialEq, octane_macros::ToJSON, octane_macros::FromJSON)]', 'pub struct N1 { x: u8, y: String }',
           '#[derive(octane_macros::ToJSON, octane_macros::FromJSON, Debug, Clone, PartialEq)]', 'pub struct N2(bool, Vec<u8>);',
           '#[derive(octane_macros::ToJSON, octane_macros::FromJSON, Debug, Clone, PartialEq)]', 'pub struct N3 { a: u8, n: Never }']
    calls = []
    for k, (group, decl, name, inst, tup, fields, cap) in enumerate(items):
        doms = [(T.get(t) or SPECIAL[t]) for _, _, t in fields]
        combos = list(itertools.islice(itertools.product(*doms), cap)) if fields else [()]
        if fields and len(combos) == cap:
            combos.append(tuple(d[-1] for d in doms))
        n = first + k
        der = ['Debug, Clone, PartialEq, octane_macros::ToJSON, octane_macros::FromJSON', 'octane_macros::FromJSON, octane_macros::ToJSON, Debug, Clone, PartialEq'][n % 2]
        out.append(f'mod m{n} {{ use super::*; #[derive({der})]')
        out.append(decl)
        if tup:
            mk = lambda c: f'{name}({", ".join(e for e, _ in c)})'
        else:
            mk = lambda c: f'{name} {{ {", ".join(f"{m}: {e}" for (m, _, _), (e, _) in zip(fields, c))} }}'
        vals = ', '.join(f'({mk(c)}, vec![{", ".join(j for _, j in c)}])' for c in combos)
        fl = ', '.join(f'("{j}", accepts::<{t}> as Accept)' for _, j, t in fields)
        esc = decl.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
        out.append(f'pub fn go(r: &mut Run) {{ let v: Vec<({inst}, Vec<Value>)> = vec![{vals}]; explore(r, "{esc}", {str(tup).lower()}, &[{fl}], v); }} }}')
        calls.append(f'm{n}::go(&mut r);')
    out.append('fn main() { let mut r = Run { values: 0, rejected: 0, bad: vec![] };')
    out.append('r.rejected += 1; if (N3 { a: 1, n: Never }).to_json().is_some() { r.bad.push("a field without JSON was dropped or accepted".into()); }')
    out += calls
    out.append(f'println!("STRUCTS {len(items) + 2} VALUES {{}} REJECTED {{}}", r.values, r.rejected); for b in r.bad.iter().take(5) {{ println!("BAD {{}}", b.replace("\\n", " ")); }} if !r.bad.is_empty() {{ std::process::exit(1) }} }}')
    return '\n'.join(out) + '\n'
