//! Reference data model: values, histories of operations, and an independent
//! provenance-tracking implementation of how they combine.

use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use figment::value::{Dict, Empty, Map, Num, Tag, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use figment::providers::{Format, Json, Serialized, Toml, Yaml, YamlExtended};
use serde::{Deserialize, Serialize, Serializer};

// -------------------------------------------------------------------- values

mod strnum {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<T: ToString, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, T: std::str::FromStr, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(|_| serde::de::Error::custom("bad number"))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum N {
    U8(u8), U16(u16), U32(u32), U64(u64), #[serde(with = "strnum")] U128(u128), USize(usize),
    I8(i8), I16(i16), I32(i32), I64(i64), #[serde(with = "strnum")] I128(i128), ISize(isize),
    /// Bits.
    F32(u32), F64(u64),
}

/// A number by value: what is observable independent of width.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Canon { Neg(u128), Pos(u128), Float(u64) }

fn fbits(f: f64) -> u64 { if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() } }

impl N {
    pub fn f64(v: f64) -> N { N::F64(v.to_bits()) }
    pub fn f32(v: f32) -> N { N::F32(v.to_bits()) }
    pub fn canon(self) -> Canon {
        let int = |i: i128| if i < 0 { Canon::Neg(i.unsigned_abs()) } else { Canon::Pos(i as u128) };
        match self {
            N::U8(v) => Canon::Pos(v as u128), N::U16(v) => Canon::Pos(v as u128),
            N::U32(v) => Canon::Pos(v as u128), N::U64(v) => Canon::Pos(v as u128),
            N::U128(v) => Canon::Pos(v), N::USize(v) => Canon::Pos(v as u128),
            N::I8(v) => int(v as i128), N::I16(v) => int(v as i128), N::I32(v) => int(v as i128),
            N::I64(v) => int(v as i128), N::I128(v) => int(v), N::ISize(v) => int(v as i128),
            N::F32(b) => Canon::Float(fbits(f32::from_bits(b) as f64)),
            N::F64(b) => Canon::Float(fbits(f64::from_bits(b))),
        }
    }
    pub fn num(self) -> Num {
        match self {
            N::U8(v) => v.into(), N::U16(v) => v.into(), N::U32(v) => v.into(), N::U64(v) => v.into(),
            N::U128(v) => v.into(), N::USize(v) => v.into(), N::I8(v) => v.into(), N::I16(v) => v.into(),
            N::I32(v) => v.into(), N::I64(v) => v.into(), N::I128(v) => v.into(), N::ISize(v) => v.into(),
            N::F32(b) => f32::from_bits(b).into(), N::F64(b) => f64::from_bits(b).into(),
        }
    }
    pub fn of(n: Num) -> N {
        match n {
            Num::U8(v) => N::U8(v), Num::U16(v) => N::U16(v), Num::U32(v) => N::U32(v), Num::U64(v) => N::U64(v),
            Num::U128(v) => N::U128(v), Num::USize(v) => N::USize(v), Num::I8(v) => N::I8(v), Num::I16(v) => N::I16(v),
            Num::I32(v) => N::I32(v), Num::I64(v) => N::I64(v), Num::I128(v) => N::I128(v), Num::ISize(v) => N::ISize(v),
            Num::F32(v) => N::f32(v), Num::F64(v) => N::f64(v),
        }
    }
    pub fn is_float(self) -> bool { matches!(self, N::F32(_) | N::F64(_)) }
    pub fn as_f64(self) -> Option<f64> {
        match self { N::F32(b) => Some(f32::from_bits(b) as f64), N::F64(b) => Some(f64::from_bits(b)), _ => None }
    }
}

pub type MDict = BTreeMap<String, MV>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MV {
    S(String), C(char), B(bool), N(N), None, Unit, D(MDict), A(Vec<MV>),
}

impl MV {
    pub fn int(i: i64) -> MV { MV::N(N::I64(i)) }
    pub fn s(s: &str) -> MV { MV::S(s.into()) }
    pub fn is_dict(&self) -> bool { matches!(self, MV::D(_)) }

    pub fn value(&self) -> Value {
        let t = Tag::Default;
        match self {
            MV::S(s) => Value::String(t, s.clone()),
            MV::C(c) => Value::Char(t, *c),
            MV::B(b) => Value::Bool(t, *b),
            MV::N(n) => Value::Num(t, n.num()),
            MV::None => Value::Empty(t, Empty::None),
            MV::Unit => Value::Empty(t, Empty::Unit),
            MV::D(d) => Value::Dict(t, dict(d)),
            MV::A(a) => Value::Array(t, a.iter().map(|v| v.value()).collect()),
        }
    }

    pub fn of(v: &Value) -> MV {
        match v {
            Value::String(_, s) => MV::S(s.clone()),
            Value::Char(_, c) => MV::C(*c),
            Value::Bool(_, b) => MV::B(*b),
            Value::Num(_, n) => MV::N(N::of(*n)),
            Value::Empty(_, Empty::None) => MV::None,
            Value::Empty(_, Empty::Unit) => MV::Unit,
            Value::Dict(_, d) => MV::D(of_dict(d)),
            Value::Array(_, a) => MV::A(a.iter().map(MV::of).collect()),
        }
    }

    /// Same data: numbers by value, everything else exactly.
    pub fn same(&self, o: &MV) -> bool {
        match (self, o) {
            (MV::N(a), MV::N(b)) => a.canon() == b.canon(),
            (MV::D(a), MV::D(b)) => a.len() == b.len()
                && a.iter().zip(b).all(|((k, v), (k2, v2))| k == k2 && v.same(v2)),
            (MV::A(a), MV::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (a, b) => a == b,
        }
    }

    pub fn get(&self, path: &[String]) -> Option<&MV> {
        match path.split_first() {
            None => Some(self),
            Some((k, rest)) => match self { MV::D(d) => d.get(k)?.get(rest), _ => None },
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            MV::D(d) => 1 + d.values().map(|v| v.depth()).max().unwrap_or(0),
            MV::A(a) => 1 + a.iter().map(|v| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }

    pub fn nodes(&self) -> usize {
        match self {
            MV::D(d) => 1 + d.values().map(|v| v.nodes()).sum::<usize>(),
            MV::A(a) => 1 + a.iter().map(|v| v.nodes()).sum::<usize>(),
            _ => 1,
        }
    }

    /// All dictionary paths (through dictionaries only), including inner nodes.
    /// Those a path can name: without dots or empty keys.
    pub fn paths(&self) -> Vec<Vec<String>> {
        fn go(v: &MV, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
            if let MV::D(d) = v {
                for (k, v) in d {
                    if k.is_empty() || k.contains('.') { continue }
                    at.push(k.clone());
                    out.push(at.clone());
                    go(v, at, out);
                    at.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
}

pub fn dict(d: &MDict) -> Dict { d.iter().map(|(k, v)| (k.clone(), v.value())).collect() }
pub fn of_dict(d: &Dict) -> MDict { d.iter().map(|(k, v)| (k.clone(), MV::of(v))).collect() }

/// Serializes as the native serde data it describes.
impl Serialize for Native<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self.0 {
            MV::S(v) => s.serialize_str(v),
            MV::C(c) => s.serialize_char(*c),
            MV::B(b) => s.serialize_bool(*b),
            MV::N(n) => match *n {
                N::U8(v) => s.serialize_u8(v), N::U16(v) => s.serialize_u16(v), N::U32(v) => s.serialize_u32(v),
                N::U64(v) => s.serialize_u64(v), N::U128(v) => s.serialize_u128(v), N::USize(v) => v.serialize(s),
                N::I8(v) => s.serialize_i8(v), N::I16(v) => s.serialize_i16(v), N::I32(v) => s.serialize_i32(v),
                N::I64(v) => s.serialize_i64(v), N::I128(v) => s.serialize_i128(v), N::ISize(v) => v.serialize(s),
                N::F32(b) => s.serialize_f32(f32::from_bits(b)), N::F64(b) => s.serialize_f64(f64::from_bits(b)),
            },
            MV::None => s.serialize_none(),
            MV::Unit => s.serialize_unit(),
            MV::D(d) => {
                let mut m = s.serialize_map(Some(d.len()))?;
                for (k, v) in d { m.serialize_entry(k, &Native(v))?; }
                m.end()
            }
            MV::A(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for v in a { q.serialize_element(&Native(v))?; }
                q.end()
            }
        }
    }
}

pub struct Native<'a>(pub &'a MV);

/// An owned `Native`.
#[derive(Clone, Debug)]
pub struct Owned(pub MV);
impl Serialize for Owned {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { Native(&self.0).serialize(s) }
}

// ------------------------------------------------------------------ emitters

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0x80..0xa0).contains(&(c as u32))
                || matches!(c as u32, 0x2028 | 0x2029 | 0xfeff | 0xfffe | 0xffff) =>
                o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn float_text(f: f64) -> String {
    // Always a decimal form every one of the formats reads as a float.
    let s = format!("{:?}", f);
    match s.split_once('e') {
        Some((m, e)) => {
            let m = if m.contains('.') { m.to_string() } else { format!("{m}.0") };
            let e = if e.starts_with('-') { e.to_string() } else { format!("+{e}") };
            format!("{m}e{e}")
        }
        None => if s.contains('.') { s } else { format!("{s}.0") },
    }
}

fn num_text(n: N) -> String {
    match n.canon() {
        Canon::Neg(m) => format!("-{m}"),
        Canon::Pos(m) => m.to_string(),
        Canon::Float(b) => float_text(f64::from_bits(b)),
    }
}

/// JSON text, which is also YAML flow text.
pub fn to_json(v: &MV) -> String {
    match v {
        MV::S(s) => json_str(s),
        MV::C(c) => json_str(&c.to_string()),
        MV::B(b) => b.to_string(),
        MV::N(n) => num_text(*n),
        MV::None | MV::Unit => "null".into(),
        MV::D(d) => format!("{{{}}}", d.iter().map(|(k, v)| format!("{}: {}", json_str(k), to_json(v))).collect::<Vec<_>>().join(", ")),
        MV::A(a) => format!("[{}]", a.iter().map(to_json).collect::<Vec<_>>().join(", ")),
    }
}

pub fn toml_inline(v: &MV) -> String {
    match v {
        MV::D(d) => format!("{{ {} }}", d.iter().map(|(k, v)| format!("{} = {}", json_str(k), toml_inline(v))).collect::<Vec<_>>().join(", ")),
        MV::A(a) => format!("[{}]", a.iter().map(toml_inline).collect::<Vec<_>>().join(", ")),
        MV::None | MV::Unit => panic!("no null in TOML"),
        v => to_json(v),
    }
}

pub fn to_toml(d: &MDict) -> String {
    d.iter().map(|(k, v)| format!("{} = {}\n", json_str(k), toml_inline(v))).collect()
}

// ----------------------------------------------------------------- histories

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Strat { Merge, Join, Admerge, Adjoin }

impl Strat {
    pub fn takes_new(self) -> bool { matches!(self, Strat::Merge | Strat::Admerge) }
    pub fn concats(self) -> bool { matches!(self, Strat::Admerge | Strat::Adjoin) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt { Toml, Json, Yaml }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// A user-written provider with data for any profiles and maybe a profile.
    Custom { data: Vec<(String, MDict)>, profile: Option<String> },
    Serialized { data: MDict, profile: String, key: Option<String> },
    /// A `(key, value)` pair.
    Pair { key: String, value: MV },
    Text { fmt: Fmt, data: MDict, profile: String },
    TextNested { fmt: Fmt, data: Vec<(String, MDict)> },
    Nested(Vec<Op>),
    /// The figment itself, as it was some steps ago (nothing if something had failed).
    Again(usize),
    Fail(FailKind),
}

/// The ways a provider can fail.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FailKind {
    Custom, BadToml, BadJson, BadYaml, BadYamlMerge, BadNested, MissingFile, NotAMap, BadKey,
    MissingExact, Directory, Malformed(u8), NotUtf8(u8), NotATable, BadNestedFile,
}

pub const FAILS: &[FailKind] = {
    use FailKind::*;
    &[Custom, BadToml, BadJson, BadYaml, BadYamlMerge, BadNested, MissingFile, NotAMap, BadKey, MissingExact, Directory,
      Malformed(0), Malformed(1), Malformed(2), Malformed(3), NotUtf8(0), NotUtf8(1), NotUtf8(2), NotUtf8(3), NotATable, BadNestedFile]
};

/// A committed file.
fn fixture(name: &str) -> String { format!("{}/fixtures/{name}", env!("CARGO_MANIFEST_DIR")) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Provide { strat: Strat, kind: Kind, by_ref: bool },
    Select(String),
}

// ----------------------------------------------------------- reference model

pub type Origin = (usize, String); // (provider number, lowercased profile)

#[derive(Clone, Debug)]
pub struct PV { pub node: PNode, pub from: BTreeSet<Origin> }

#[derive(Clone, Debug)]
pub enum PNode { Leaf(MV), D(BTreeMap<String, PV>), A(Vec<PV>) }

pub type PDict = BTreeMap<String, PV>;

impl PV {
    pub fn new(v: &MV, o: &Origin) -> PV {
        let node = match v {
            MV::D(d) => PNode::D(pdict(d, o)),
            MV::A(a) => PNode::A(a.iter().map(|v| PV::new(v, o)).collect()),
            v => PNode::Leaf(v.clone()),
        };
        PV { node, from: [o.clone()].into() }
    }
    pub fn mv(&self) -> MV {
        match &self.node {
            PNode::Leaf(v) => v.clone(),
            PNode::D(d) => MV::D(pdict_mv(d)),
            PNode::A(a) => MV::A(a.iter().map(|v| v.mv()).collect()),
        }
    }
    pub fn get(&self, path: &[String]) -> Option<&PV> {
        match path.split_first() {
            None => Some(self),
            Some((k, rest)) => match &self.node { PNode::D(d) => d.get(k)?.get(rest), _ => None },
        }
    }
}

pub fn pdict(d: &MDict, o: &Origin) -> PDict { d.iter().map(|(k, v)| (k.clone(), PV::new(v, o))).collect() }
pub fn pdict_mv(d: &PDict) -> MDict { d.iter().map(|(k, v)| (k.clone(), v.mv())).collect() }

pub fn combine(old: PV, new: PV, s: Strat) -> PV {
    let from: BTreeSet<Origin> = old.from.union(&new.from).cloned().collect();
    match (old.node, new.node) {
        (PNode::D(a), PNode::D(b)) => PV { node: PNode::D(combine_dict(a, b, s)), from },
        (PNode::A(a), PNode::A(b)) if s.concats() => {
            PV { node: PNode::A(a.into_iter().chain(b).collect()), from }
        }
        (a, b) => if s.takes_new() { PV { node: b, from: new.from } } else { PV { node: a, from: old.from } },
    }
}

pub fn combine_dict(a: PDict, b: PDict, s: Strat) -> PDict {
    let mut out = a;
    for (k, v) in b {
        let merged = match out.remove(&k) { Some(old) => combine(old, v, s), None => v };
        out.insert(k, merged);
    }
    out
}

#[derive(Clone, Debug)]
pub struct MFig {
    /// As spelled.
    pub selected: String,
    pub data: Result<BTreeMap<String, PDict>, ()>,
    /// The numbers of the providers that failed, in order.
    pub failed: Vec<usize>,
    /// One entry per provided provider, in order of the provide calls.
    pub provided: Vec<usize>,
}

impl MFig {
    pub fn new() -> MFig {
        MFig { selected: "default".into(), data: Ok(BTreeMap::new()), failed: vec![], provided: vec![] }
    }

    pub fn provide(&mut self, s: Strat, data: Result<BTreeMap<String, PDict>, ()>, profile: Option<String>) {
        if let (Some(p), true) = (profile, s.takes_new()) { self.selected = p }
        let old = std::mem::replace(&mut self.data, Err(()));
        self.data = match (old, data) {
            (Ok(mut old), Ok(new)) => {
                for (prof, d) in new {
                    let merged = match old.remove(&prof) { Some(o) => combine_dict(o, d, s), None => d };
                    old.insert(prof, merged);
                }
                Ok(old)
            }
            _ => Err(()),
        };
    }

    /// What extraction sees.
    pub fn visible(&self) -> Option<PDict> {
        let data = self.data.as_ref().ok()?;
        let sel = self.selected.to_ascii_lowercase();
        let mut out = data.get("default").cloned().unwrap_or_default();
        if sel != "default" && sel != "global" {
            if let Some(d) = data.get(&sel) { out = combine_dict(out, d.clone(), Strat::Merge) }
        }
        if let Some(g) = data.get("global") { out = combine_dict(out, g.clone(), Strat::Merge) }
        Some(out)
    }

    pub fn visible_mv(&self) -> Option<MV> { self.visible().map(|d| MV::D(pdict_mv(&d))) }
}

/// Wraps any provider so that its metadata identifies it.
pub struct Named<P> { pub inner: P, pub name: String }

impl<P: Provider> Provider for Named<P> {
    fn metadata(&self) -> Metadata {
        let mut m = self.inner.metadata();
        m.name = self.name.clone().into();
        m
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.inner.data() }
    fn profile(&self) -> Option<Profile> { self.inner.profile() }
    fn __metadata_map(&self) -> Option<Map<Tag, Metadata>> { self.inner.__metadata_map() }
}

#[derive(Clone, Debug)]
pub struct CustomProvider { pub data: Result<Vec<(String, MDict)>, String>, pub profile: Option<String> }

impl Provider for CustomProvider {
    fn metadata(&self) -> Metadata { Metadata::named("custom") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        match &self.data {
            Ok(d) => Ok(d.iter().map(|(p, d)| (Profile::new(p), dict(d))).collect()),
            Err(e) => Err(Error::from(e.clone())),
        }
    }
    fn profile(&self) -> Option<Profile> { self.profile.as_deref().map(Profile::new) }
}

pub fn prov_name(n: usize) -> String { format!("prov-{n}") }

fn apply<P: Provider>(f: Figment, s: Strat, p: P, by_ref: bool) -> Figment {
    macro_rules! go { ($p:expr) => { match s {
        Strat::Merge => f.merge($p), Strat::Join => f.join($p),
        Strat::Admerge => f.admerge($p), Strat::Adjoin => f.adjoin($p),
    } } }
    if by_ref { go!(&p) } else { go!(p) }
}

fn nest_key(key: &str, v: MV) -> MV {
    let parts: Vec<&str> = key.split('.').take_while(|s| !s.is_empty()).collect();
    parts.iter().rev().fold(v, |v, k| MV::D([(k.to_string(), v)].into()))
}

pub fn text_of(fmt: Fmt, d: &MDict) -> String {
    match fmt {
        Fmt::Toml => to_toml(d),
        Fmt::Json | Fmt::Yaml => to_json(&MV::D(d.clone())),
    }
}

/// Runs a history on the model and the real thing side by side.
pub struct Run {
    pub real: Figment, pub model: MFig, pub next: usize,
    /// What it was before each step, if that's needed.
    past: Option<Vec<(Figment, MFig)>>,
}

impl Run {
    pub fn new() -> Run { Run { real: Figment::new(), model: MFig::new(), next: 0, past: None } }

    /// Goes on from a figment; what it was before isn't known.
    pub fn at(real: Figment, model: MFig, next: usize) -> Run { Run { real, model, next, past: None } }

    pub fn of(ops: &[Op]) -> Run {
        Run::of_from(ops, 0)
    }

    pub fn of_from(ops: &[Op], next: usize) -> Run {
        let again = ops.iter().any(|o| matches!(o, Op::Provide { kind: Kind::Again(_), .. }));
        let mut r = Run { next, past: again.then(Vec::new), ..Run::new() };
        for op in ops { r.step(op) }
        r
    }

    pub fn step(&mut self, op: &Op) {
        if let Some(past) = &mut self.past { past.push((self.real.clone(), self.model.clone())) }
        match op {
            Op::Select(p) => {
                self.model.selected = p.clone();
                self.real = std::mem::take(&mut self.real).select(p);
            }
            Op::Provide { strat, kind, by_ref } => {
                // A nested figment's providers are provided before it is.
                let nested = match kind {
                    Kind::Nested(ops) => {
                        let r = Run::of_from(ops, self.next);
                        self.next = r.next;
                        Some(r)
                    }
                    _ => None,
                };
                let again = match kind {
                    Kind::Again(n) => match &self.past {
                        Some(past) if past[past.len() - 1 - n % past.len()].1.data.is_ok() => Some(past[past.len() - 1 - n % past.len()].clone()),
                        _ => return,
                    },
                    _ => None,
                };
                let id = self.next;
                self.next += 1;
                let real = std::mem::take(&mut self.real);
                let one = |p: &str, d: &MDict| -> BTreeMap<String, PDict> {
                    let p = p.to_ascii_lowercase();
                    [(p.clone(), pdict(d, &(id, p)))].into()
                };
                macro_rules! named { ($p:expr) => { apply(real, *strat, Named { inner: $p, name: prov_name(id) }, *by_ref) } }
                let (real, data, profile) = match kind {
                    Kind::Custom { data, profile } => {
                        let map = data.iter().map(|(p, d)| {
                            let p = p.to_ascii_lowercase();
                            (p.clone(), pdict(d, &(id, p)))
                        }).collect();
                        (named!(CustomProvider { data: Ok(data.clone()), profile: profile.clone() }), Ok(map), profile.clone())
                    }
                    Kind::Serialized { data, profile, key } => {
                        let mv = MV::D(data.clone());
                        let mut p = Serialized::from(Owned(mv.clone()), profile);
                        let mut mv = mv;
                        if let Some(k) = key { p = p.key(k); mv = nest_key(k, mv); }
                        let MV::D(d) = mv else { unreachable!() };
                        (named!(p), Ok(one(profile, &d)), None)
                    }
                    Kind::Pair { key, value } => {
                        let MV::D(d) = nest_key(key, value.clone()) else { unreachable!() };
                        (named!((key.clone(), Owned(value.clone()))), Ok(one("global", &d)), None)
                    }
                    Kind::Text { fmt, data, profile } => {
                        let text = text_of(*fmt, data);
                        let real = match fmt {
                            Fmt::Toml => named!(Toml::string(&text).profile(profile)),
                            Fmt::Json => named!(Json::string(&text).profile(profile)),
                            Fmt::Yaml => named!(Yaml::string(&text).profile(profile)),
                        };
                        (real, Ok(one(profile, data)), None)
                    }
                    Kind::TextNested { fmt, data } => {
                        let all: MDict = data.iter().map(|(p, d)| (p.clone(), MV::D(d.clone()))).collect();
                        let text = text_of(*fmt, &all);
                        let real = match fmt {
                            Fmt::Toml => named!(Toml::string(&text).nested()),
                            Fmt::Json => named!(Json::string(&text).nested()),
                            Fmt::Yaml => named!(Yaml::string(&text).nested()),
                        };
                        let map = data.iter().map(|(p, d)| {
                            let p = p.to_ascii_lowercase();
                            (p.clone(), pdict(d, &(id, p)))
                        }).collect();
                        (real, Ok(map), None)
                    }
                    Kind::Nested(_) => {
                        let Run { real: inner, model: m, .. } = nested.unwrap();
                        self.model.provided.extend(&m.provided);
                        self.model.failed.extend(&m.failed);
                        let sel = m.selected.clone();
                        (named!(inner), m.data, Some(sel))
                    }
                    Kind::Again(_) => {
                        let (inner, m) = again.unwrap();
                        (named!(inner), m.data, Some(m.selected))
                    }
                    Kind::Fail(how) => {
                        self.model.failed.push(id);
                        let real = match how {
                            FailKind::Custom => named!(CustomProvider { data: Err(format!("fail-{id}")), profile: None }),
                            FailKind::BadToml => named!(Toml::string("a = [1")),
                            FailKind::BadJson => named!(Json::string("{ \"a\": 1")),
                            FailKind::BadYaml => named!(Yaml::string("a: [1")),
                            FailKind::BadYamlMerge => named!(YamlExtended::string("a:\n  <<: 1\n")),
                            FailKind::BadNested => named!(Toml::string("a = 1").nested()),
                            FailKind::MissingFile => named!(Toml::file("figcheck-no-such-file.toml").required(true)),
                            FailKind::MissingExact => named!(Json::file("figcheck-no-such-file.json").search(false).required(true)),
                            FailKind::Directory => named!(Toml::file(fixture("directory.toml")).required(true)),
                            FailKind::Malformed(0) => named!(Toml::file(fixture("malformed.toml"))),
                            FailKind::Malformed(1) => named!(Json::file(fixture("malformed.json"))),
                            FailKind::Malformed(2) => named!(Yaml::file(fixture("malformed.yaml")).required(true)),
                            FailKind::Malformed(_) => named!(YamlExtended::file(fixture("malformed.yaml")).profile("x")),
                            FailKind::NotUtf8(0) => named!(Toml::file(fixture("latin1.toml"))),
                            FailKind::NotUtf8(1) => named!(Json::file(fixture("latin1.json")).required(true)),
                            FailKind::NotUtf8(2) => named!(Yaml::file(fixture("latin1.yaml"))),
                            FailKind::NotUtf8(_) => named!(YamlExtended::file(fixture("latin1.yaml")).nested()),
                            FailKind::NotATable => named!(Json::file(fixture("array.json"))),
                            FailKind::BadNestedFile => named!(Json::file(fixture("flat.json")).nested()),
                            FailKind::NotAMap => named!(Serialized::defaults(id as u64)),
                            FailKind::BadKey => named!(Serialized::defaults(BTreeMap::from([(1u8, 2u8)]))),
                        };
                        (real, Err(()), None)
                    }
                };
                self.model.provided.push(id);
                self.real = real;
                self.model.provide(*strat, data, profile);
            }
        }
    }
}

// ------------------------------------------------------------- real-side view

/// The provider number a tag resolves to in `f`, through its metadata's name.
pub fn origin_of(f: &Figment, tag: Tag) -> Option<usize> {
    f.get_metadata(tag)?.name.strip_prefix("prov-")?.parse().ok()
}

/// Checks one value's attribution: `Err` names what is wrong.
pub fn check_tags(f: &Figment, v: &Value, m: &PV, selected: &str, at: &str) -> Result<(), String> {
    let profile_name = |t: Tag| t.profile().map(|p| p.to_string().to_ascii_lowercase());
    let id = origin_of(f, v.tag())
        .ok_or_else(|| format!("at `{at}`: value {v:?} (tag {:?}) has no provider metadata", v.tag()))?;
    let got = profile_name(v.tag());
    let ok = m.from.iter().any(|(src, prof)| {
        *src == id && match &got { Some(p) => p == prof, None => prof != "default" && prof != "global" }
    });
    if !ok {
        return Err(format!("at `{at}`: value {v:?} attributed to provider {id} profile {got:?} (selected {selected}), expected one of {:?}", m.from));
    }
    match (&m.node, v) {
        (PNode::D(d), Value::Dict(_, rd)) => for (k, m) in d {
            let r = rd.get(k).ok_or_else(|| format!("at `{at}.{k}`: missing"))?;
            check_tags(f, r, m, selected, &format!("{at}.{k}"))?;
        },
        (PNode::A(a), Value::Array(_, ra)) => for (i, m) in a.iter().enumerate() {
            let r = ra.get(i).ok_or_else(|| format!("at `{at}.{i}`: missing"))?;
            check_tags(f, r, m, selected, &format!("{at}.{i}"))?;
        },
        _ => {}
    }
    Ok(())
}

pub fn cmp_lower(a: &str, b: &str) -> Ordering { a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()) }

pub fn dbg<T: Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.chars().count() > 400 { s.chars().take(400).collect::<String>() + "…" } else { s }
}

// ------------------------------------------------------- what a figment tells

/// A value with, at every node, the provider and profile it is attributed to.
pub fn told(f: &Figment, v: &Value) -> String {
    fn go(f: &Figment, v: &Value, out: &mut String) {
        match v {
            Value::Dict(_, d) => { out.push('{'); for (k, v) in d { out.push_str(&format!("{k:?}: ")); go(f, v, out); out.push_str(", "); } out.push('}') }
            Value::Array(_, a) => { out.push('['); for v in a { go(f, v, out); out.push_str(", "); } out.push(']') }
            v => out.push_str(&format!("{:?}", MV::of(v))),
        }
        out.push('@');
        match f.get_metadata(v.tag()) { Some(m) => out.push_str(&m.name), None if v.tag().is_default() => out.push_str("none"), None => out.push_str("unknown") }
        if let Some(p) = v.tag().profile() { out.push_str(&format!("/{p}")) }
    }
    let mut out = String::new();
    go(f, v, &mut out);
    out
}

pub fn told_error(e: &Error) -> String {
    e.clone().into_iter().map(|e| format!("[{} at {:?} from {:?} profile {:?} shown {}]", e.kind, e.path, e.metadata.as_ref().map(|m| (&*m.name, m.source.as_ref().map(|s| s.to_string()))), e.profile.as_ref().map(|p| p.to_string()), e)).collect()
}

/// Everything a figment tells about itself, one fact a line.
pub fn facts(f: &Figment, paths: &[String]) -> Vec<String> {
    let mut out = vec![format!("selected {}", f.profile())];
    out.push(format!("profiles {:?}", f.profiles().map(|p| p.to_string()).collect::<Vec<_>>()));
    for m in f.metadata() { out.push(format!("provider {:?} {:?} {:?}", m.name, m.source.as_ref().map(|s| s.to_string()), m.provide_location.map(|l| l.to_string()))) }
    out.push(match f.data() {
        Ok(d) => d.iter().map(|(p, d)| format!("data {p}: {} ", d.iter().map(|(k, v)| format!("{k:?}: {} ", told(f, v))).collect::<String>())).collect(),
        Err(e) => format!("no data: {}", told_error(&e)),
    });
    out.push(match f.extract::<Value>() { Ok(v) => format!("all {}", told(f, &v)), Err(e) => format!("fails {}", told_error(&e)) });
    out.push(match f.extract::<BTreeMap<String, u8>>() { Ok(v) => format!("bytes {v:?}"), Err(e) => format!("bytes fail {}", told_error(&e)) });
    out.push(match f.extract_lossy::<BTreeMap<String, bool>>() { Ok(v) => format!("lossy {v:?}"), Err(e) => format!("lossy fails {}", told_error(&e)) });
    for p in paths {
        out.push(format!("contains {p:?} {}", f.contains(p)));
        out.push(match f.find_value(p) { Ok(v) => format!("at {p:?} {}", told(f, &v)), Err(e) => format!("not at {p:?} {}", told_error(&e)) });
        out.push(format!("metadata at {p:?} {:?}", f.find_metadata(p).map(|m| m.name.to_string())));
        out.push(match f.extract_inner::<String>(p) { Ok(v) => format!("string {p:?} {v:?}"), Err(e) => format!("no string {p:?} {}", told_error(&e)) });
        out.push(match f.extract_inner_lossy::<f64>(p) { Ok(v) => format!("float {p:?} {v:?}"), Err(e) => format!("no float {p:?} {}", told_error(&e)) });
        let sub = f.focus(p);
        out.push(match sub.extract::<Value>() { Ok(v) => format!("focused {p:?} {}", told(&sub, &v)), Err(e) => format!("focus {p:?} fails {}", told_error(&e)) });
    }
    out
}

/// The first difference.
pub fn same_facts(got: &[String], want: &[String]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{} facts, expected {}: {} / {}", got.len(), want.len(), dbg(&got.to_vec()), dbg(&want.to_vec()))) }
    match got.iter().zip(want).find(|(a, b)| a != b) { None => Ok(()), Some((a, b)) => Err(format!("got `{a}`, expected `{b}`")) }
}
