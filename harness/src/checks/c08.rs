//! Serializable data survives a round trip.

use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};
use std::num::NonZeroU8;
use std::path::PathBuf;
use std::time::Duration;

use crate::core::*;
use crate::dynty::{self, with_ty, Dyn, SerDv, Ty, DV};
use crate::gen::*;
use crate::model::*;
use figment::providers::Serialized;
use figment::value::Value;
use figment::{Figment, Provider};
use serde::{Deserialize, Serialize, Serializer};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { ty: Ty, value: DV, key: Option<Vec<String>>, #[serde(default)] tail: String, profile: String, via: Via }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via { Merge, Join, Admerge, Adjoin, Nested, Pair, Renamed }

/// Serializes like the value it holds.
struct Same(Ty, DV);
impl Serialize for Same {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { SerDv(&self.0, &self.1).serialize(s) }
}

fn gen(s: &mut Src) -> Case {
    let ty = match s.weighted(&[3, 2]) {
        0 => Ty::Struct(dynty::fields(s, 3, false), s.bool()),
        _ => dynty::ty(s, 3, false),
    };
    let value = dynty::value(s, &ty);
    let mut key = if s.bool() { Some(s.vec(1, 4, 1, pkey)) } else { None };
    let via = s.pick(&[Via::Merge, Via::Join, Via::Admerge, Via::Adjoin, Via::Nested, Via::Pair, Via::Renamed]);
    if via == Via::Pair && key.is_none() { key = Some(vec!["k".into()]) }
    if key.is_none() && !dynty::to_mv(&ty, &value).is_dict() { key = Some(vec!["k".into()]) }
    // An empty component ends a key, wherever keys are used.
    let mut tail = String::new();
    if s.chance(1, 10) {
        if key.is_none() { key = Some(vec![]) }
        tail = s.pick(&[".", "..", ".a", "..a", ".a.b", ""]).into();
        if !key.as_ref().unwrap().is_empty() && !tail.is_empty() { tail.insert(0, '.') }
    }
    Case { ty, value, key, tail, profile: profile(s), via }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let want = dynty::to_mv(&c.ty, &c.value);
    // Plain values.
    let v = Value::serialize(Same(c.ty.clone(), c.value.clone())).map_err(|e| format!("Value::serialize fails: {e}"))?;
    ensure!(MV::of(&v).same(&want), "Value::serialize gives {v:?}, expected {want:?}");
    let back: Dyn = with_ty(&c.ty, || v.deserialize()).map_err(|e| format!("Value::deserialize of {v:?} fails: {e}"))?;
    ensure!(dynty::same(&back.0, &c.value), "Value::deserialize of {v:?} gives {:?}, expected {:?}", back.0, c.value);

    // Through a figment.
    if c.key.iter().flatten().any(|k| k.is_empty() || k.contains('.')) { return Ok(()) }
    let dotted = c.key.as_ref().map(|k| k.join(".") + &c.tail);
    let data = Same(c.ty.clone(), c.value.clone());
    let mut p = match (c.via, &dotted) {
        (Via::Renamed, Some(k)) => Serialized::default(k, data).profile(&c.profile),
        (Via::Renamed, None) => Serialized::globals(data).profile(&c.profile),
        _ => Serialized::from(data, &c.profile),
    };
    if let (Some(k), true) = (&dotted, c.via != Via::Renamed) { p = p.key(k) }
    let got = p.data().map_err(|e| format!("data() fails: {e}"))?;
    ensure!(got.len() == 1 && got.keys().next().unwrap() == &c.profile.as_str(), "data() is for profiles {:?}, expected {:?}", got.keys(), c.profile);
    let placed = match &c.key { Some(k) => super::c04::wrap(k, want.clone()), None => want.clone() };
    let whole = MV::D(of_dict(got.values().next().unwrap()));
    ensure!(whole.same(&placed), "data() gives {whole:?}, expected {placed:?}");

    let f = Figment::new();
    let f = match c.via {
        Via::Merge | Via::Renamed => f.merge(p), Via::Join => f.join(p), Via::Admerge => f.admerge(p), Via::Adjoin => f.adjoin(p),
        Via::Nested => f.merge(Figment::from(p)),
        Via::Pair => f.merge((dotted.clone().unwrap(), Same(c.ty.clone(), c.value.clone()))),
    };
    let f = f.select(&c.profile);
    if let Some(k) = &dotted {
        let got: Dyn = with_ty(&c.ty, || f.extract_inner(k)).map_err(|e| format!("extract_inner({k:?}) fails: {e}"))?;
        ensure!(dynty::same(&got.0, &c.value), "extract_inner({k:?}) gives {:?}, expected {:?}", got.0, c.value);
    }
    let outer = c.key.iter().flatten().rev().fold(c.ty.clone(), |t, k| Ty::Struct(vec![(k.clone(), t)], true));
    let got: Dyn = with_ty(&outer, || f.extract()).map_err(|e| format!("extract fails: {e}"))?;
    let mut got = got.0;
    for _ in c.key.iter().flatten() { got = match got { DV::Fields(mut v) => v.remove(0), v => v }; }
    ensure!(dynty::same(&got, &c.value), "extract gives {got:?}, expected {:?}", c.value);
    let v: Value = f.extract().map_err(|e| format!("extracting a value fails: {e}"))?;
    ensure!(MV::of(&v).same(&placed), "extracting a value gives {v:?}, expected {placed:?}");

    cx.hit(c.ty.depth() >= 1);
    cx.class_if(c.key.is_some(), "under a key");
    cx.class_if(c.ty.has(&|t| matches!(t, Ty::Enum(_))), "has an enum");
    cx.class_if(c.ty.has(&|t| matches!(t, Ty::Opt(_))), "has an option");
    cx.class_if(c.ty.has(&|t| matches!(t, Ty::Int(dynty::IK::U128 | dynty::IK::I128))), "has a 128-bit integer");
    Ok(())
}

// ------------------------------------------------------------- derived types

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Inner { id: u16, label: Option<String>, #[serde(rename = "ren-amed")] renamed: bool, tags: Vec<String> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Ext { Unit, New(i32), Tuple(u8, String), Struct { a: i64, b: Option<Vec<u8>> }, Nested(Box<Ext>), Map(BTreeMap<String, Ext>) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type", rename_all = "snake_case")]
enum Internal { UnitLike, WithFields { x: i32, s: String, l: Vec<bool> }, Holding(Inner) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent { A, B(u32), C(u8, i8), D { z: f64 } }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged { Num(i64), Flag(bool), Text(String), List(Vec<Untagged>), Obj { only: u8 } }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Flat { own: i32, #[serde(flatten)] inner: Inner, #[serde(flatten)] rest: BTreeMap<String, i64> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Trans(Vec<(i8, char)>);

/// An address, or its number in binary formats, read through a type that asks which as well.
#[derive(Clone, Debug, PartialEq, Serialize)]
struct Asking(IpAddr);
impl<'de> Deserialize<'de> for Asking {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() { IpAddr::deserialize(d).map(Asking) } else { u32::deserialize(d).map(|n| Asking(IpAddr::from(n.to_be_bytes()))) }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Addr { Ip(IpAddr), Pair(IpAddr, SocketAddr), At { at: Option<SocketAddr>, asking: Option<Asking> } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
enum KeyEnum { FirstKey, SecondKey, Third }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
struct Config {
    port: u16, ratio: f64, small: f32, name: String, letter: char, on: bool, big: u128, neg: i128, size: usize, off: isize,
    unit: (), opt: Option<u8>, deep: Option<Box<Inner>>, list: Vec<Inner>, pair: (i32, String), arr: [u8; 3], set: BTreeSet<String>,
    map: BTreeMap<String, Inner>, keyed: BTreeMap<KeyEnum, Vec<i16>>, ext: Vec<Ext>, int: Internal, adj: Vec<Adjacent>, unt: Vec<Untagged>,
    flat: Flat, trans: Trans, dur: Duration, ip: IpAddr, nz: NonZeroU8, path: PathBuf, res: Result<u8, String>,
    asking: Asking, addrs: Vec<Addr>, hosts: BTreeMap<IpAddr, Asking>,
    #[serde(default)] dflt: i32, #[serde(skip_serializing_if = "Option::is_none")] skip: Option<String>, #[serde(skip)] #[allow(dead_code)] skipped: u8,
    bound: std::ops::Range<i32>, wrapping: std::num::Wrapping<i8>, value: BTreeMap<String, Vec<Option<i32>>>,
}

fn inner(s: &mut Src) -> Inner {
    Inner { id: s.draw(65535) as u16, label: if s.bool() { Some(string(s)) } else { None }, renamed: s.bool(), tags: s.vec(0, 3, 1, string) }
}

fn ext(s: &mut Src, d: usize) -> Ext {
    match s.weighted(&[2, 2, 2, 2, if d > 0 { 1 } else { 0 }, if d > 0 { 1 } else { 0 }]) {
        0 => Ext::Unit, 1 => Ext::New(s.range(-9, 1 << 20) as i32), 2 => Ext::Tuple(s.draw(255) as u8, string(s)),
        3 => Ext::Struct { a: s.u64() as i64, b: if s.bool() { Some(s.vec(0, 3, 1, |s| s.draw(255) as u8)) } else { None } },
        4 => Ext::Nested(Box::new(ext(s, d - 1))),
        _ => Ext::Map(s.vec(0, 3, 1, |s| (key(s), ext(s, d - 1))).into_iter().collect()),
    }
}

fn ip(s: &mut Src) -> IpAddr {
    if s.bool() { IpAddr::from([s.draw(255) as u8, 0, 1, 2]) } else { IpAddr::from((s.u64() as u128).to_be_bytes()) }
}

fn untagged(s: &mut Src, d: usize) -> Untagged {
    match s.weighted(&[2, 2, 2, if d > 0 { 2 } else { 0 }, 1]) {
        0 => Untagged::Num(s.u64() as i64), 1 => Untagged::Flag(s.bool()), 2 => Untagged::Text(string(s)),
        3 => Untagged::List(s.vec(0, 3, 1, |s| untagged(s, d - 1))), _ => Untagged::Obj { only: s.draw(255) as u8 },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Derived { config: Config, key: Option<Vec<String>>, profile: String, twice: bool }

fn gen_derived(s: &mut Src) -> Derived {
    let i = |s: &mut Src| int_near_boundary(s);
    let config = Config {
        port: s.draw(65535) as u16, ratio: simple_float(float(s)), small: s.range(-512, 512) as f32 / 16.0, name: string(s), letter: ch(s), on: s.bool(),
        big: if s.chance(1, 3) { u128::MAX - s.draw(3) as u128 } else { i(s).unsigned_abs() }, neg: i(s), size: s.u64() as usize, off: s.u64() as isize,
        unit: (), opt: if s.bool() { Some(s.draw(255) as u8) } else { None }, deep: if s.bool() { Some(Box::new(inner(s))) } else { None },
        list: s.vec(0, 3, 1, inner), pair: (s.range(-5, 5) as i32, string(s)), arr: [s.draw(255) as u8, s.draw(255) as u8, 0], set: s.vec(0, 3, 1, string).into_iter().collect(),
        map: s.vec(0, 3, 1, |s| (key(s), inner(s))).into_iter().collect(),
        keyed: s.vec(0, 3, 1, |s| (s.pick(&[KeyEnum::FirstKey, KeyEnum::SecondKey, KeyEnum::Third]), s.vec(0, 2, 1, |s| s.range(-300, 300) as i16))).into_iter().collect(),
        ext: s.vec(0, 4, 2, |s| ext(s, 2)),
        int: match s.below(3) { 0 => Internal::UnitLike, 1 => Internal::WithFields { x: s.range(-9, 9) as i32, s: string(s), l: s.vec(0, 3, 1, |s| s.bool()) }, _ => Internal::Holding(inner(s)) },
        adj: s.vec(0, 3, 1, |s| match s.below(4) { 0 => Adjacent::A, 1 => Adjacent::B(s.draw(u32::MAX as u64) as u32), 2 => Adjacent::C(s.draw(255) as u8, s.range(-128, 127) as i8), _ => Adjacent::D { z: simple_float(float(s)) } }),
        unt: s.vec(0, 4, 2, |s| untagged(s, 2)),
        flat: Flat { own: s.range(-9, 9) as i32, inner: inner(s), rest: s.vec(0, 3, 1, |s| (format!("x{}", key(s)), s.u64() as i64)).into_iter().collect() },
        trans: Trans(s.vec(0, 3, 1, |s| (s.range(-128, 127) as i8, ch(s)))),
        dur: Duration::new(s.draw(1 << 40), s.draw(999_999_999) as u32),
        ip: ip(s),
        nz: NonZeroU8::new(s.size(1, 255) as u8).unwrap(), path: PathBuf::from(string(s)),
        res: if s.bool() { Ok(s.draw(255) as u8) } else { Err(string(s)) },
        asking: Asking(ip(s)),
        addrs: s.vec(0, 3, 1, |s| match s.below(3) { 0 => Addr::Ip(ip(s)), 1 => Addr::Pair(ip(s), SocketAddr::new(ip(s), s.draw(65535) as u16)),
            _ => Addr::At { at: if s.bool() { Some(SocketAddr::new(ip(s), s.draw(65535) as u16)) } else { None }, asking: if s.bool() { Some(Asking(ip(s))) } else { None } } }),
        hosts: s.vec(0, 2, 1, |s| (ip(s), Asking(ip(s)))).into_iter().collect(),
        dflt: s.range(-9, 9) as i32, skip: if s.bool() { Some(string(s)) } else { None }, skipped: 0,
        bound: { let a = s.range(-9, 9) as i32; a..a + 3 }, wrapping: std::num::Wrapping(s.range(-128, 127) as i8),
        value: s.vec(0, 3, 1, |s| (key(s), s.vec(0, 3, 1, |s| if s.bool() { Some(s.range(-9, 9) as i32) } else { None }))).into_iter().collect(),
    };
    Derived { config, key: if s.bool() { Some(s.vec(1, 3, 1, pkey)) } else { None }, profile: profile(s), twice: s.bool() }
}

fn check_derived(c: &Derived, cx: &mut Cx) -> Outcome {
    let v = Value::serialize(&c.config).map_err(|e| format!("Value::serialize fails: {e}"))?;
    let back: Config = v.deserialize().map_err(|e| format!("Value::deserialize fails: {e}"))?;
    ensure!(back == c.config, "through a value: got {back:?}, expected {:?}", c.config);
    let round = |config: &Config| -> Result<Config, String> {
        let mut p = Serialized::from(config, &c.profile);
        if let Some(k) = &c.key { p = p.key(&k.join(".")) }
        let f = Figment::new().merge(p).select(&c.profile);
        match &c.key {
            Some(k) => f.extract_inner(&k.join(".")),
            None => f.extract(),
        }.map_err(|e| format!("extraction fails: {e}"))
    };
    let mut got = round(&c.config)?;
    if c.twice { got = round(&got)? }
    ensure!(got == c.config, "through a figment: got {got:?}, expected {:?}", c.config);
    cx.hit(true);
    Ok(())
}

// ------------------------------------------------------------------ rejection

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad { Int(N), Bool(bool), Float(f64), None, Unit, Seq, Map, Char(char), Bytes(Vec<u8>), Fields, Variant, Tuple, SomeInt }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Around { Field(String), Elem(u8), Some, Newtype, Variant(String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Reject { Key { bad: Bad, good: u8, around: Vec<Around>, key: Option<String> }, NotMap { value: MV } }

struct RawBytes<'a>(&'a [u8]);
impl Serialize for RawBytes<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) }
}

struct BadMap<'a>(&'a Bad, u8, &'a [Around]);
impl Serialize for BadMap<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        if let Some((a, rest)) = self.2.split_first() {
            let inner = BadMap(self.0, self.1, rest);
            return match a {
                Around::Field(k) => { let mut m = s.serialize_map(None)?; m.serialize_entry(k, &inner)?; m.serialize_entry("zz", &1)?; m.end() }
                Around::Elem(i) => { let mut q = s.serialize_seq(None)?; for _ in 0..i % 3 { q.serialize_element(&1)?; } q.serialize_element(&inner)?; q.serialize_element("x")?; q.end() }
                Around::Some => s.serialize_some(&inner),
                Around::Newtype => s.serialize_newtype_struct("N", &inner),
                Around::Variant(v) => s.serialize_newtype_variant("E", 0, dynty::intern(v), &inner),
            };
        }
        let mut m = s.serialize_map(None)?;
        for i in 0..self.1 % 3 { m.serialize_entry(&format!("good{i}"), &i)?; }
        match self.0 {
            Bad::Int(n) => m.serialize_entry(&Native(&MV::N(*n)), &1)?,
            Bad::Bool(b) => m.serialize_entry(b, &1)?,
            Bad::Float(f) => m.serialize_entry(f, &1)?,
            Bad::None => m.serialize_entry(&None::<u8>, &1)?,
            Bad::Unit => m.serialize_entry(&(), &1)?,
            Bad::Seq => m.serialize_entry(&["a", "b"], &1)?,
            Bad::Map => m.serialize_entry(&BTreeMap::from([("a", 1)]), &1)?,
            Bad::Char(c) => m.serialize_entry(c, &1)?,
            Bad::Bytes(b) => m.serialize_entry(&RawBytes(b), &1)?,
            Bad::Fields => m.serialize_entry(&Adjacent::A, &1)?,
            Bad::Variant => m.serialize_entry(&Ext::New(3), &1)?,
            Bad::Tuple => m.serialize_entry(&("a", "b"), &1)?,
            Bad::SomeInt => m.serialize_entry(&Some(Some(3)), &1)?,
        }
        m.end()
    }
}

fn gen_reject(s: &mut Src) -> Reject {
    if s.chance(1, 3) {
        let value = loop { let v = tree(s, Shape { depth: 2, ..FULL }); if !v.is_dict() { break v } };
        return Reject::NotMap { value };
    }
    let bad = match s.below(13) {
        7 => Bad::Char(ch(s)), 8 => Bad::Bytes(s.vec(0, 3, 1, |s| s.size(97, 122) as u8)), 9 => Bad::Fields, 10 => Bad::Variant, 11 => Bad::Tuple, 12 => Bad::SomeInt,
        0 => Bad::Int(num_kind_of(s)), 1 => Bad::Bool(s.bool()), 2 => Bad::Float(simple_float(float(s))),
        3 => Bad::None, 4 => Bad::Unit, 5 => Bad::Seq, _ => Bad::Map,
    };
    let around = s.vec(0, 4, 1, |s| match s.below(5) {
        0 => Around::Field(key(s)), 1 => Around::Elem(s.draw(2) as u8), 2 => Around::Some, 3 => Around::Newtype, _ => Around::Variant(key(s)),
    });
    Reject::Key { bad, good: s.draw(2) as u8, around, key: if s.bool() { Some(dotted(s, 2)) } else { None } }
}

fn num_kind_of(s: &mut Src) -> N { let v = int_near_boundary(s); num_kind(s, v) }

fn check_reject(c: &Reject, cx: &mut Cx) -> Outcome {
    fn rejected<T: Serialize>(p: Serialized<T>) -> Outcome {
        if let Ok(d) = p.data() { return Err(format!("data() accepts it: {d:?}")) }
        let f = Figment::new().merge(("other", 1)).merge(p);
        match f.extract::<Value>() {
            Ok(v) => Err(format!("extraction gives {v:?}")),
            Err(e) => { ensure!(e.metadata.is_some(), "the error `{e}` has no metadata"); Ok(()) }
        }
    }
    match c {
        Reject::Key { bad, good, around, key } => {
            if let Ok(v) = Value::serialize(BadMap(bad, *good, around)) { return Err(format!("a map with key {bad:?} serializes to {v:?}")) }
            let p = Serialized::defaults(BadMap(bad, *good, around));
            rejected(match key { Some(k) => p.key(k), None => p }).map_err(|e| format!("map with key {bad:?}: {e}"))?;
        }
        Reject::NotMap { value } => rejected(Serialized::defaults(Owned(value.clone()))).map_err(|e| format!("{value:?} without a key: {e}"))?,
    }
    cx.hit(true);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        subs: vec![
            Box::new(Sub { name: "dynamic", quick: 480_000, thorough: 8_000_000, gen, check,
                rule: "generated serde types up to four levels deep (structs, all enum variant shapes, options, tuples, sequences, maps, newtypes, bytes, every primitive) with a value, a key, a profile and one of seven ways of providing; non-trivial: a compound type" }),
            Box::new(Sub { name: "derived", quick: 72_000, thorough: 1_000_000, gen: gen_derived, check: check_derived,
                rule: "a configuration of derived serde types (external, internal, adjacent and untagged enums, flatten, renames, skips, standard library types) with random contents, through a value and through one or two figments; every case is non-trivial" }),
            Box::new(Sub { name: "reject", quick: 90_000, thorough: 1_000_000, gen: gen_reject, check: check_reject,
                rule: "maps with keys of thirteen non-string kinds at random depth, and non-map data without a key; every case is non-trivial" }),
        ],
        assumptions: &["an option directly around a type that is itself empty (unit, option) has no distinct representation and is excluded"],
    }
}
