//! Value conversions and equality are faithful and tag-independent.

use std::collections::BTreeMap;

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::error::Actual;
use figment::providers::Serialized;
use figment::value::{Dict, Empty, Map, Num, Tag, Value};
use figment::Figment;
use serde::{Deserialize, Serialize};

// -------------------------------------------------------- one value, all accessors

fn same_num(a: Num, n: N) -> bool { N::of(a) == n || (matches!((N::of(a), n), (N::F32(x), N::F32(y)) if f32::from_bits(x).is_nan() && f32::from_bits(y).is_nan())) || (matches!((N::of(a), n), (N::F64(x), N::F64(y)) if f64::from_bits(x).is_nan() && f64::from_bits(y).is_nan())) }

fn accessors(v: &Value, m: &MV) -> Outcome {
    let (s, c, b, n, e, d, a) = (v.as_str(), v.to_char(), v.to_bool(), v.to_num(), v.to_empty(), v.as_dict(), v.as_array());
    ensure!(s == match m { MV::S(s) => Some(s.as_str()), _ => None }, "{m:?}: as_str {s:?}");
    ensure!(v.clone().into_string() == match m { MV::S(s) => Some(s.clone()), _ => None }, "{m:?}: into_string {:?}", v.clone().into_string());
    ensure!(c == match m { MV::C(c) => Some(*c), _ => None }, "{m:?}: to_char {c:?}");
    ensure!(b == match m { MV::B(b) => Some(*b), _ => None }, "{m:?}: to_bool {b:?}");
    ensure!(match (n, m) { (Some(a), MV::N(n)) => same_num(a, *n), (None, MV::N(_)) => false, (x, _) => x.is_none() }, "{m:?}: to_num {n:?}");
    ensure!(e == match m { MV::None => Some(Empty::None), MV::Unit => Some(Empty::Unit), _ => None }, "{m:?}: to_empty {e:?}");
    ensure!(d.map(of_dict).map(MV::D) == match m { MV::D(_) => Some(m.clone()), _ => None }, "{m:?}: as_dict {d:?}");
    ensure!(v.clone().into_dict().map(|d| MV::D(of_dict(&d))) == match m { MV::D(_) => Some(m.clone()), _ => None }, "{m:?}: into_dict");
    let list = |a: &[Value]| MV::A(a.iter().map(MV::of).collect());
    ensure!(a.map(list) == match m { MV::A(_) => Some(m.clone()), _ => None }, "{m:?}: as_array {a:?}");
    ensure!(v.clone().into_array().map(|a| list(&a)) == match m { MV::A(_) => Some(m.clone()), _ => None }, "{m:?}: into_array");
    let (u, i, f) = (v.to_u128(), v.to_i128(), v.to_f64());
    match m {
        MV::N(n) => numbers(*n, u, i, f, v)?,
        _ => ensure!(u.is_none() && i.is_none() && f.is_none(), "{m:?}: numbers {u:?}, {i:?}, {f:?}"),
    }
    let ok = match (v.to_actual(), m) {
        (Actual::Str(x), MV::S(s)) => x == *s, (Actual::Char(x), MV::C(c)) => x == *c, (Actual::Bool(x), MV::B(b)) => x == *b,
        (Actual::Unsigned(x), MV::N(n)) => n.canon() == Canon::Pos(x), (Actual::Signed(x), MV::N(n)) => n.canon() == N::I128(x).canon(), (Actual::Float(x), MV::N(n)) => n.canon() == N::f64(x).canon(),
        (Actual::Option, MV::None) | (Actual::Unit, MV::Unit) | (Actual::Map, MV::D(_)) | (Actual::Seq, MV::A(_)) => true,
        _ => false,
    };
    ensure!(ok, "{m:?}: reported as {:?}", v.to_actual());
    match m {
        MV::D(x) => { let d = v.as_dict().unwrap(); for (k, m) in x { accessors(&d[k], m)? } }
        MV::A(x) => { let a = v.as_array().unwrap(); for (v, m) in a.iter().zip(x) { accessors(v, m)? } }
        _ => {}
    }
    Ok(())
}

/// The exact number or nothing; something for the kinds that match.
fn numbers(n: N, u: Option<u128>, i: Option<i128>, f: Option<f64>, v: &Value) -> Outcome {
    let canon = n.canon();
    if let Some(u) = u { ensure!(canon == Canon::Pos(u), "{n:?}: to_u128 {u}") }
    if let Some(i) = i { ensure!(canon == N::I128(i).canon(), "{n:?}: to_i128 {i}") }
    if let Some(f) = f { ensure!(canon == N::f64(f).canon(), "{n:?}: to_f64 {f}") }
    let (unsigned, signed) = (matches!(n, N::U8(_) | N::U16(_) | N::U32(_) | N::U64(_) | N::U128(_) | N::USize(_)), matches!(n, N::I8(_) | N::I16(_) | N::I32(_) | N::I64(_) | N::I128(_) | N::ISize(_)));
    ensure!(u.is_some() || !unsigned, "{n:?}: no to_u128");
    ensure!(i.is_some() || !signed, "{n:?}: no to_i128");
    ensure!(f.is_some() == n.is_float(), "{n:?}: to_f64 {f:?}");
    ensure!(!(n.is_float() && (u.is_some() || i.is_some())), "{n:?}: an integer {u:?}, {i:?}");
    let num = v.to_num().unwrap();
    ensure!(num.to_u128() == u && num.to_i128() == i && num.to_f64().map(f64::to_bits) == f.map(f64::to_bits), "{n:?}: the number has other accessors than the value");
    let small = num.to_u32();
    if let Some(x) = small { ensure!(canon == Canon::Pos(x as u128), "{n:?}: to_u32 {x}") }
    ensure!(small.is_some() || !matches!(n, N::U8(_) | N::U16(_) | N::U32(_)), "{n:?}: no to_u32");
    let lossy = num.to_u128_lossy();
    ensure!(lossy == match canon { Canon::Pos(p) if !n.is_float() => Some(p), _ => None }, "{n:?}: to_u128_lossy {lossy:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { v: MV, w: MV, x: MV, bits: u64 }

fn value(s: &mut Src) -> MV {
    if s.chance(1, 150) {
        let n = s.pick(SIZES);
        return if s.bool() { MV::D((0..n).map(|i| (format!("k{i}"), MV::int(s.range(0, 3)))).collect()) } else { MV::A((0..n).map(|_| MV::int(s.range(0, 3))).collect()) };
    }
    match s.weighted(&[3, 3, 3]) { 0 => MV::N(num(s)), 1 => scalar(s, FULL), _ => tree(s, FULL) }
}

/// A change so small it might go unnoticed.
fn nudge(s: &mut Src, v: &MV) -> MV {
    match v {
        MV::S(t) => match s.below(4) {
            0 => MV::S(format!("{t} ")), 1 => MV::S(t.to_uppercase()), 2 => { let mut c = t.chars(); let x = c.next(); if c.next().is_none() { x.map_or(MV::Unit, MV::C) } else { MV::S(t.chars().rev().collect()) } }
            _ => t.parse().map_or(MV::S(String::new()), |n: i64| MV::int(n)),
        },
        MV::C(c) => if s.bool() { MV::S(c.to_string()) } else { MV::C(c.to_ascii_uppercase()) },
        MV::B(b) => match s.below(3) { 0 => MV::B(!b), 1 => MV::N(N::U8(*b as u8)), _ => MV::S(b.to_string()) },
        MV::N(n) => match (n.canon(), s.below(4)) {
            (Canon::Pos(p), 0) if p < 1 << 53 => MV::N(N::f64(p as f64)),
            (Canon::Pos(p), 1) if p < i128::MAX as u128 => MV::N(num_kind(s, p as i128 + 1)),
            (Canon::Pos(p), 2) if p > 0 && p < i128::MAX as u128 => MV::N(num_kind(s, -(p as i128))),
            (Canon::Pos(p), _) if p < i128::MAX as u128 => MV::N(num_kind(s, p as i128)),
            (Canon::Neg(p), 0) if p < i128::MAX as u128 => MV::N(num_kind(s, p as i128)),
            (Canon::Neg(p), _) if p < i128::MAX as u128 => MV::N(num_kind(s, -(p as i128))),
            (Canon::Float(b), 0) => MV::N(N::f64(f64::from_bits(b ^ 1))),
            (Canon::Float(b), 1) => MV::N(N::f32(f64::from_bits(b) as f32)),
            (Canon::Float(b), _) => MV::N(N::f64(-f64::from_bits(b))),
            _ => MV::N(N::U8(0)),
        },
        MV::None => MV::Unit, MV::Unit => MV::None,
        MV::D(d) => {
            let mut d = d.clone();
            let keys: Vec<String> = d.keys().cloned().collect();
            if keys.is_empty() { return if s.bool() { MV::A(vec![]) } else { MV::D([("k".into(), MV::Unit)].into()) } }
            let k = s.pick(&keys);
            match if d.values().any(|v| v.depth() > 3) { s.weighted(&[1, 1, 20]) } else { s.below(3) } {
                0 => { d.remove(&k); }
                1 => { let v = d.remove(&k).unwrap(); d.insert(if s.bool() { k.to_uppercase() } else { k + "_" }, v); }
                _ => { let v = nudge(s, &d[&k]); d.insert(k, v); }
            }
            MV::D(d)
        }
        MV::A(a) => {
            let mut a = a.clone();
            if a.is_empty() { return if s.bool() { MV::D([].into()) } else { MV::A(vec![MV::Unit]) } }
            let i = s.below(a.len());
            match if a[i].depth() > 3 { 3 } else { s.below(4) } { 0 => { a.remove(i); } 1 => a.push(MV::None), 2 => a.reverse(), _ => a[i] = nudge(s, &a[i]) }
            MV::A(a)
        }
    }
}

fn gen(s: &mut Src) -> Case {
    let v = value(s);
    let w = match s.below(4) { 0 => value(s), 1 => v.clone(), _ => nudge(s, &v) };
    let x = match s.below(3) { 0 => nudge(s, &w), 1 => w.clone(), _ => nudge(s, &v) };
    Case { v, w, x, bits: s.u64() }
}

#[derive(PartialEq, Debug)]
enum Eq { Yes, No, Open }

/// Whether the data are equal; numbers of equal value but different kind,
/// and zeros of different sign, may be counted as either.
fn data_eq(a: &MV, b: &MV) -> Eq {
    fn all(it: impl Iterator<Item = Eq>) -> Eq { let mut out = Eq::Yes; for e in it { match e { Eq::No => return Eq::No, Eq::Open => out = Eq::Open, Eq::Yes => {} } } out }
    match (a, b) {
        (MV::N(x), MV::N(y)) if x.is_float() && y.is_float() => {
            let (x1, y1) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if x1.is_nan() || y1.is_nan() { Eq::Open } else if x1.to_bits() == y1.to_bits() { Eq::Yes } else if x1 == y1 { Eq::Open } else { Eq::No }
        }
        (MV::N(x), MV::N(y)) if x.is_float() != y.is_float() => Eq::No,
        (MV::N(x), MV::N(y)) => {
            let signed = |n: &N| matches!(n, N::I8(_) | N::I16(_) | N::I32(_) | N::I64(_) | N::I128(_) | N::ISize(_));
            if x.canon() != y.canon() { Eq::No } else if signed(x) == signed(y) { Eq::Yes } else { Eq::Open }
        }
        (MV::D(x), MV::D(y)) => if x.len() != y.len() || x.keys().ne(y.keys()) { Eq::No } else { all(x.values().zip(y.values()).map(|(a, b)| data_eq(a, b))) },
        (MV::A(x), MV::A(y)) => if x.len() != y.len() { Eq::No } else { all(x.iter().zip(y).map(|(a, b)| data_eq(a, b))) },
        (a, b) => if a == b { Eq::Yes } else { Eq::No },
    }
}

fn has_nan(v: &MV) -> bool { match v { MV::N(n) => n.as_f64().map_or(false, |f| f.is_nan()), MV::D(d) => d.values().any(has_nan), MV::A(a) => a.iter().any(has_nan), _ => false } }

/// The same data with tags of different providers and profiles.
fn tagged(m: &MV) -> Vec<Value> {
    let one = Figment::from(Serialized::default("v", m.value())).find_value("v").unwrap();
    let two = Figment::from(Serialized::global("v.w", m.value())).merge(("o", 1)).find_value("v.w").unwrap();
    let three = Figment::new().merge(Serialized::from(BTreeMap::from([("v", m.value())]), "custom")).select("Custom").find_value("v").unwrap();
    vec![m.value(), one, two, three]
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let all: Vec<(&MV, Vec<Value>)> = [&c.v, &c.w, &c.x].into_iter().map(|m| (m, tagged(m))).collect();
    for (m, vs) in &all {
        for v in vs {
            ensure!(MV::of(v).same(m), "{m:?} becomes {v:?}");
            ensure!(has_nan(m) || v == v, "{v:?} is not itself");
        }
        accessors(&vs[0], m)?;
        ensure!(vs[0].tag() == Tag::Default && vs[1].tag() != vs[2].tag(), "tags");
    }
    for (m, vs) in &all {
        for (n, ws) in &all {
            let want = data_eq(m, n);
            let first = vs[0] == ws[0];
            for v in vs {
                for w in ws {
                    let got = v == w;
                    ensure!(got == (w == v), "{v:?} == {w:?}: {got}, the other way round {}", !got);
                    ensure!(got != (v != w), "{v:?} != {w:?}: {got}");
                    ensure!(got == first, "{v:?} == {w:?} depends on tags");
                    match want { Eq::Yes => ensure!(got, "{v:?} and {w:?} are not equal"), Eq::No => ensure!(!got, "{v:?} and {w:?} are equal"), Eq::Open => {} }
                }
            }
            cx.class_if(want == Eq::No, "different");
            cx.class_if(want == Eq::Open, "equal numbers of different kind");
        }
    }
    let [(_, a), (_, b), (_, d)] = &all[..] else { unreachable!() };
    ensure!(!(a[0] == b[0] && b[0] == d[0]) || a[0] == d[0], "{:?} == {:?} == {:?}, but not the first and the last", a[0], b[0], d[0]);
    written(&c.v, &a)?;
    natives(c)?;
    read(&c.v, c.bits)?;
    cx.hit(c.v.depth() > 0);
    cx.class_if(matches!(c.v, MV::N(_)), "number");
    Ok(())
}

/// What any format is given is the data and nothing else.
fn written(m: &MV, vs: &[Value]) -> Outcome {
    fn finite(m: &MV) -> bool { match m { MV::N(n) => n.as_f64().map_or(true, |f| f.is_finite()), MV::D(d) => d.values().all(finite), MV::A(a) => a.iter().all(finite), _ => true } }
    let own = serde_json::to_string(&Native(m)).map_err(|e| e.to_string())?;
    for v in vs {
        let got = serde_json::to_string(v).map_err(|e| e.to_string())?;
        ensure!(got == own, "{m:?} is written as {got}, expected {own}");
        let again = Value::serialize(v).map_err(|e| e.to_string())?;
        ensure!(MV::of(&again).same(m), "{m:?} serialized is {again:?}");
        let yaml = serde_yaml::to_string(v).map_err(|e| e.to_string())?;
        ensure!(yaml == serde_yaml::to_string(&Native(m)).unwrap(), "{m:?} is written in YAML as {yaml}");
        let read: Value = v.deserialize().map_err(|e| e.to_string())?;
        ensure!(!finite(m) || MV::of(&read).same(m), "{m:?} read from itself is {read:?}");
    }
    Ok(())
}

/// A format of one's own holding the data, some of it as present options.
struct Format<'a>(&'a MV, u64);

impl<'de> serde::Deserializer<'de> for Format<'_> {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        let inner = |m, i: usize| Format(m, self.1.rotate_right(3).wrapping_add(i as u64));
        if self.1 & 7 == 1 && !matches!(self.0, MV::None) { return v.visit_some(Format(self.0, self.1 >> 3)) }
        match self.0 {
            MV::N(N::U8(n)) => v.visit_u8(*n), MV::N(N::U16(n)) => v.visit_u16(*n), MV::N(N::U32(n)) => v.visit_u32(*n), MV::N(N::U64(n)) => v.visit_u64(*n),
            MV::N(N::U128(n)) => v.visit_u128(*n), MV::N(N::USize(n)) => v.visit_u64(*n as u64),
            MV::N(N::I8(n)) => v.visit_i8(*n), MV::N(N::I16(n)) => v.visit_i16(*n), MV::N(N::I32(n)) => v.visit_i32(*n), MV::N(N::I64(n)) => v.visit_i64(*n),
            MV::N(N::I128(n)) => v.visit_i128(*n), MV::N(N::ISize(n)) => v.visit_i64(*n as i64),
            MV::N(N::F32(n)) => v.visit_f32(f32::from_bits(*n)), MV::N(N::F64(n)) => v.visit_f64(f64::from_bits(*n)),
            MV::S(t) => if self.1 & 8 == 0 { v.visit_str(t) } else { v.visit_string(t.clone()) },
            MV::C(c) => v.visit_char(*c), MV::B(b) => v.visit_bool(*b), MV::None => v.visit_none(), MV::Unit => v.visit_unit(),
            MV::D(d) => v.visit_map(serde::de::value::MapDeserializer::new(d.iter().enumerate().map(|(i, (k, m))| (k.as_str(), inner(m, i))))),
            MV::A(a) => {
                let it = a.iter().enumerate().map(|(i, m)| inner(m, i));
                if self.1 & 16 == 0 { v.visit_seq(serde::de::value::SeqDeserializer::new(it)) } else { v.visit_seq(serde::de::value::SeqDeserializer::new(it.filter(|_| true))) }
            }
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

impl<'de> serde::de::IntoDeserializer<'de, serde::de::value::Error> for Format<'_> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self { self }
}

/// What any format gives is read as it is.
fn read(m: &MV, bits: u64) -> Outcome {
    let v = <Value as Deserialize>::deserialize(Format(m, bits)).map_err(|e| format!("{m:?} cannot be read: {e}"))?;
    ensure!(MV::of(&v).same(m), "{m:?} is read as {v:?}");
    ensure!(v.tag().is_default(), "{m:?} is read with the tag {:?}", v.tag());
    let list = <Vec<Value>>::deserialize(Format(&MV::A(vec![m.clone()]), bits & !7)).map_err(|e| format!("{m:?} cannot be read: {e}"))?;
    ensure!(list.len() == 1 && MV::of(&list[0]).same(m), "{m:?} is read as {list:?}");
    Ok(())
}

/// Conversions from native types.
fn natives(c: &Case) -> Outcome {
    let b = c.bits;
    macro_rules! nums { ($($T:ty: $V:ident),*) => { $( {
        let n = b as $T;
        let v = Value::from(n);
        accessors(&v, &MV::N(N::$V(n)))?;
        ensure!(matches!(Num::from(n), Num::$V(x) if x == n), "{} {n} becomes {:?}", stringify!($T), Num::from(n));
        accessors(&Value::from(Num::from(n)), &MV::N(N::$V(n)))?;
        accessors(&Value::from(vec![n, n]), &MV::A(vec![MV::N(N::$V(n)); 2]))?;
        let r: $T = v.deserialize().map_err(|e| e.to_string())?;
        ensure!(r == n, "{} {n} is read as {r}", stringify!($T));
    } )* } }
    nums!(u8: U8, u16: U16, u32: U32, u64: U64, usize: USize, i8: I8, i16: I16, i32: I32, i64: I64, isize: ISize);
    let wide = (b as u128) << 64 | b.rotate_left(17) as u128;
    accessors(&Value::from(wide), &MV::N(N::U128(wide)))?;
    accessors(&Value::from(wide as i128), &MV::N(N::I128(wide as i128)))?;
    let (f, g) = (f64::from_bits(b), f32::from_bits(b as u32));
    accessors(&Value::from(f), &MV::N(N::F64(b)))?;
    if !g.is_nan() { accessors(&Value::from(g), &MV::N(N::F32(b as u32)))? }
    accessors(&Value::from(b & 1 == 1), &MV::B(b & 1 == 1))?;
    let ch = char::from_u32(b as u32 & 0x1fffff).unwrap_or('x');
    accessors(&Value::from(ch), &MV::C(ch))?;
    let st: String = std::iter::repeat(ch).take((b >> 60) as usize).collect();
    accessors(&Value::from(st.as_str()), &MV::S(st.clone()))?;
    accessors(&Value::from(st.clone()), &MV::S(st.clone()))?;
    accessors(&Value::from(Empty::None), &MV::None)?;
    accessors(&Value::from(Empty::Unit), &MV::Unit)?;
    let n = b as u16;
    let arr = |k: usize| MV::A(vec![MV::N(N::U16(n)); k]);
    macro_rules! arrays { ($($N:literal),*) => { $( accessors(&Value::from(&[n; $N]), &arr($N))?; )* } }
    arrays!(1, 2, 3, 4, 5, 6, 7, 8);
    let counted: Vec<u8> = (0..(b % 20) as u8).collect();
    let want = MV::A(counted.iter().map(|n| MV::N(N::U8(*n))).collect());
    accessors(&Value::from(&counted[..]), &want)?;
    accessors(&Value::from(counted.clone()), &want)?;
    accessors(&Value::from(vec![c.v.value(), c.w.value()]), &MV::A(vec![c.v.clone(), c.w.clone()]))?;
    let m: Map<&str, Value> = [("a", c.v.value()), (st.as_str(), c.w.value())].into();
    let mm: MDict = [("a".to_string(), c.v.clone()), (st.clone(), c.w.clone())].into();
    accessors(&Value::from(m), &MV::D(mm.clone()))?;
    let own: Map<String, Vec<Value>> = mm.iter().map(|(k, v)| (k.clone(), vec![v.value()])).collect();
    accessors(&Value::from(own), &MV::D(mm.iter().map(|(k, v)| (k.clone(), MV::A(vec![v.clone()]))).collect()))?;
    let d: Dict = dict(&mm);
    accessors(&Value::from(d), &MV::D(mm))?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C26",
        subs: vec![Box::new(Sub { name: "values", quick: 250_000, thorough: 10_000_000, rule: "the value is a list or dictionary", gen, check })],
        assumptions: &["Equality of numbers of equal value but different kind (signed, unsigned) is left open, as is that of the two float zeros; NaN need not equal itself."],
    }
}
