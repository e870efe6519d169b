// What the derives refer to as crate::Value, crate::ToJSON and crate::FromJSON, with reference
// implementations for the field types, and the exploration of one struct.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Null,
    Boolean(bool),
    Integer(i64),
    String(String),
    Array(Vec<Value>),
    Object(HashMap<String, Value>),
}
pub trait ToJSON: Sized {
    fn to_json(self) -> Option<Value>;
}
pub trait FromJSON: Sized {
    fn from_json(val: Value) -> Option<Self>;
}
macro_rules! prim {
    ($t:ty, $v:ident, $f:expr, $g:expr) => {
        impl ToJSON for $t {
            fn to_json(self) -> Option<Value> {
                Some(Value::$v($f(self)))
            }
        }
        impl FromJSON for $t {
            fn from_json(val: Value) -> Option<Self> {
                match val {
                    Value::$v(x) => $g(x),
                    _ => None,
                }
            }
        }
    };
}
prim!(bool, Boolean, |x| x, |x| Some(x));
prim!(u8, Integer, |x| x as i64, |x: i64| u8::try_from(x).ok());
prim!(i64, Integer, |x| x, |x| Some(x));
prim!(String, String, |x| x, |x| Some(x));
impl<T: ToJSON> ToJSON for Vec<T> {
    fn to_json(self) -> Option<Value> {
        Some(Value::Array(self.into_iter().map(|x| x.to_json()).collect::<Option<_>>()?))
    }
}
impl<T: FromJSON> FromJSON for Vec<T> {
    fn from_json(val: Value) -> Option<Self> {
        match val {
            Value::Array(a) => a.into_iter().map(T::from_json).collect(),
            _ => None,
        }
    }
}
impl<T: ToJSON> ToJSON for Option<T> {
    fn to_json(self) -> Option<Value> {
        match self {
            None => Some(Value::Null),
            Some(x) => x.to_json(),
        }
    }
}
impl<T: FromJSON> FromJSON for Option<T> {
    fn from_json(val: Value) -> Option<Self> {
        match val {
            Value::Null => Some(None),
            x => T::from_json(x).map(Some),
        }
    }
}
macro_rules! map {
    ($m:ident) => {
        impl<T: ToJSON> ToJSON for $m<String, T> {
            fn to_json(self) -> Option<Value> {
                Some(Value::Object(
                    self.into_iter().map(|(k, v)| Some((k, v.to_json()?))).collect::<Option<_>>()?,
                ))
            }
        }
        impl<T: FromJSON> FromJSON for $m<String, T> {
            fn from_json(val: Value) -> Option<Self> {
                match val {
                    Value::Object(o) => o.into_iter().map(|(k, v)| Some((k, T::from_json(v)?))).collect(),
                    _ => None,
                }
            }
        }
    };
}
map!(HashMap);
map!(BTreeMap);
impl<A: ToJSON, B: ToJSON> ToJSON for (A, B) {
    fn to_json(self) -> Option<Value> {
        Some(Value::Array(vec![self.0.to_json()?, self.1.to_json()?]))
    }
}
impl<A: FromJSON, B: FromJSON> FromJSON for (A, B) {
    fn from_json(val: Value) -> Option<Self> {
        match val {
            Value::Array(a) if a.len() == 2 => {
                let mut i = a.into_iter();
                Some((A::from_json(i.next()?)?, B::from_json(i.next()?)?))
            }
            _ => None,
        }
    }
}
impl<T: ToJSON, const N: usize> ToJSON for [T; N] {
    fn to_json(self) -> Option<Value> {
        Vec::from(self).to_json()
    }
}
impl<T: FromJSON, const N: usize> FromJSON for [T; N] {
    fn from_json(val: Value) -> Option<Self> {
        <[T; N]>::try_from(Vec::<T>::from_json(val)?).ok()
    }
}
impl<T> ToJSON for std::marker::PhantomData<T> {
    fn to_json(self) -> Option<Value> {
        Some(Value::Null)
    }
}
impl<T> FromJSON for std::marker::PhantomData<T> {
    fn from_json(val: Value) -> Option<Self> {
        match val {
            Value::Null => Some(std::marker::PhantomData),
            _ => None,
        }
    }
}
pub trait Same {
    type T;
}
impl<X> Same for X {
    type T = X;
}
/// A value that has no JSON.
#[derive(Debug, Clone, PartialEq)]
pub struct Never;
impl ToJSON for Never {
    fn to_json(self) -> Option<Value> {
        None
    }
}
impl FromJSON for Never {
    fn from_json(_: Value) -> Option<Self> {
        Some(Never)
    }
}

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn obj(f: &[(&str, Value)]) -> Value {
    Value::Object(f.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
pub fn text(x: &str) -> Value {
    Value::String(x.into())
}
pub fn palette() -> Vec<Value> {
    vec![
        Value::Null,
        Value::Boolean(true),
        Value::Integer(7),
        Value::Integer(-1),
        Value::Integer(300),
        text(""),
        text("x"),
        Value::Array(vec![]),
        Value::Array(vec![Value::Integer(1)]),
        Value::Array(vec![Value::Integer(1), Value::Integer(2)]),
        Value::Array(vec![text("x"), Value::Null]),
        obj(&[]),
        obj(&[("k", Value::Integer(1))]),
        obj(&[("k", text("x"))]),
    ]
}

pub type Accept = fn(Value) -> bool;
pub fn accepts<T: FromJSON>(v: Value) -> bool {
    T::from_json(v).is_some()
}

pub struct Run {
    pub values: u64,
    pub rejected: u64,
    pub bad: Vec<String>,
}

/// `fields`: JSON name and acceptance of each field (in order), `tuple`: array instead of object,
/// `vals`: values with the JSON of each field.
pub fn explore<T: ToJSON + FromJSON + PartialEq + Debug + Clone>(
    run: &mut Run,
    src: &str,
    tuple: bool,
    fields: &[(&str, Accept)],
    vals: Vec<(T, Vec<Value>)>,
) {
    let n = fields.len();
    let build = |v: &[Value]| -> Value {
        if tuple {
            Value::Array(v.to_vec())
        } else {
            Value::Object(fields.iter().zip(v).map(|((k, _), v)| (k.to_string(), v.clone())).collect())
        }
    };
    let mut none = |run: &mut Run, what: &str, v: Value| {
        run.rejected += 1;
        let got = T::from_json(v.clone());
        if let Some(g) = got {
            run.bad.push(format!("{}: {} {:?} accepted as {:?}", src, what, v, g));
        }
    };
    for (k, (val, js)) in vals.iter().enumerate() {
        run.values += 1;
        let want = build(js);
        let got = val.clone().to_json();
        if got.as_ref() != Some(&want) {
            run.bad.push(format!("{}: {:?} became {:?}, expected {:?}", src, val, got, want));
        }
        let back = T::from_json(want.clone());
        if back.as_ref() != Some(val) {
            run.bad.push(format!("{}: {:?} became {:?}, expected {:?}", src, want, back, val));
        }
        if k > 2 {
            continue;
        }
        // all sets of missing fields
        let sets: Vec<Vec<usize>> = if n <= 4 {
            (1..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
        } else {
            (0..n).map(|i| vec![i]).chain((1..n).map(|i| vec![i - 1, i])).collect()
        };
        for set in &sets {
            let v = if tuple {
                let rest: Vec<Value> = (0..n).filter(|i| !set.contains(i)).map(|i| js[i].clone()).collect();
                Value::Array(rest)
            } else {
                let mut o = match want.clone() {
                    Value::Object(o) => o,
                    _ => unreachable!(),
                };
                for i in set {
                    o.remove(fields[*i].0);
                }
                Value::Object(o)
            };
            none(run, "missing fields", v);
        }
        // another value in every field
        for i in 0..n {
            for p in palette() {
                let mut j = js.clone();
                j[i] = p.clone();
                if !(fields[i].1)(p) {
                    none(run, "wrong type", build(&j));
                } else {
                    run.values += 1;
                    if T::from_json(build(&j)).and_then(|x| x.to_json()) != Some(build(&j)) {
                        run.bad.push(format!("{}: {:?} does not round-trip", src, build(&j)));
                    }
                }
            }
        }
        // more than there is, whatever its name
        if let (Value::Object(o), 0) = (&want, k) {
            let mut names: Vec<String> = vec![];
            for c in (0..128u8).map(char::from).chain("äß\u{a0}\u{2028}\u{feff}\u{1F600}".chars()) {
                names.extend([c.to_string(), format!("{}k", c), format!("k{}", c), format!("{0}{0}", c), format!("k{}k", c)]);
            }
            for (f, _) in fields.iter().take(3) {
                for c in [' ', '_', '$', '@', '#', '-', '.', '0', '\0', '\u{feff}'] {
                    names.extend([format!("{}{}", c, f), format!("{}{}", f, c)]);
                }
                names.push(format!("{0}{0}", f));
                names.push(f.chars().skip(1).collect());
                names.push(f.chars().take(f.chars().count() - 1).collect());
            }
            for e in names {
                if !o.contains_key(&e) {
                    for v in [Value::Null, Value::Integer(7)] {
                        let mut o = o.clone();
                        o.insert(e.clone(), v);
                        none(run, "an extra field", Value::Object(o));
                    }
                }
            }
            for m in [2usize, 3, 10, 100] {
                let mut o = o.clone();
                o.extend((0..m).map(|i| (format!("extra{}", i), Value::Null)));
                none(run, "extra fields", Value::Object(o));
            }
        }
        if let (Value::Array(a), 0) = (&want, k) {
            for m in 1..20 {
                let mut a = a.clone();
                a.extend((0..m).map(|_| Value::Null));
                none(run, "extra elements", Value::Array(a));
            }
        }
        for p in palette().into_iter().take(3) {
            match want.clone() {
                Value::Array(mut a) => {
                    a.push(p);
                    none(run, "an extra element", Value::Array(a));
                }
                Value::Object(o) => {
                    for e in ["", "extra", "r#type", "pub", "Null"] {
                        if !o.contains_key(e) {
                            let mut o = o.clone();
                            o.insert(e.into(), p.clone());
                            none(run, "an extra field", Value::Object(o));
                        }
                    }
                    for (f, _) in fields {
                        for g in [f.to_uppercase(), format!("r#{}", f), format!("{} ", f)] {
                            if o.contains_key(&g) {
                                continue;
                            }
                            let mut o = o.clone();
                            let x = o.remove(*f).unwrap();
                            o.insert(g, x);
                            none(run, "a renamed field", Value::Object(o));
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
        // other shapes
        if !(tuple && n == 0) {
            none(run, "shape", Value::Array(vec![]));
        }
        if tuple {
            none(run, "shape", obj(&[]));
            none(run, "shape", Value::Object(js.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect()));
        } else {
            none(run, "shape", Value::Array(js.clone()));
            none(run, "shape", Value::Array(vec![want.clone()]));
        }
        for v in [Value::Null, Value::Boolean(true), Value::Integer(0), text(""), text("{}")] {
            none(run, "shape", v);
        }
    }
}
