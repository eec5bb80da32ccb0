//! Types of the serde data model as data: generated, with values, and with
//! (de)serialization driven by the type, so that "for all types" can be sampled.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::Arc;

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};

use crate::core::Src;
use crate::gen;
use crate::model::{MV, N};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IK { U8, U16, U32, U64, U128, Usize, I8, I16, I32, I64, I128, Isize }

pub const IKS: &[IK] = &[IK::U8, IK::I64, IK::U16, IK::U32, IK::U64, IK::U128, IK::Usize, IK::I8, IK::I16, IK::I32, IK::I128, IK::Isize];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Bool, Int(IK), F32, F64, Char, Str, Bytes, Unit, UnitStruct,
    /// A checked integer below 100: rejects others with a custom message.
    Picky,
    Opt(Box<Ty>), Newtype(Box<Ty>), Seq(Box<Ty>),
    /// A string read through figment's `RelativePathBuf`.
    Path,
    /// The same type inside figment's `Tagged`.
    Tagged(Box<Ty>),
    Tuple(Vec<Ty>), TupleStruct(Vec<Ty>),
    Map(Box<Ty>), Struct(Vec<(String, Ty)>, bool), Enum(Vec<(String, Var)>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Var { Unit, Newtype(Ty), Tuple(Vec<Ty>), Struct(Vec<(String, Ty)>) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DV {
    Bool(bool), Int(N), F32(u32), F64(u64), Char(char), Str(String), Bytes(Vec<u8>), Unit,
    None, Some(Box<DV>), Wrap(Box<DV>), Seq(Vec<DV>), Map(BTreeMap<String, DV>), Fields(Vec<DV>),
    /// Variant index and contents (`Unit`, `Wrap`, `Seq` or `Fields`).
    Variant(usize, Box<DV>),
}

// Serde wants static names: intern them.
pub fn intern(s: &str) -> &'static str {
    thread_local!(static POOL: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));
    POOL.with(|p| {
        if let Some(s) = p.borrow().get(s) { return *s }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        p.borrow_mut().insert(s.to_string(), l);
        l
    })
}

fn intern_list(names: Vec<&str>) -> &'static [&'static str] {
    thread_local!(static POOL: RefCell<HashMap<Vec<String>, &'static [&'static str]>> = RefCell::new(HashMap::new()));
    let key: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    POOL.with(|p| {
        if let Some(s) = p.borrow().get(&key) { return *s }
        let l: Vec<&'static str> = names.iter().map(|n| intern(n)).collect();
        let l: &'static [&'static str] = Box::leak(l.into_boxed_slice());
        p.borrow_mut().insert(key, l);
        l
    })
}

impl Ty {
    /// Can a value of this type be represented as "nothing"?
    pub fn nullable(&self) -> bool {
        match self {
            Ty::Unit | Ty::UnitStruct | Ty::Opt(_) => true,
            Ty::Newtype(t) | Ty::Tagged(t) => t.nullable(),
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t) | Ty::Seq(t) | Ty::Map(t) => 1 + t.depth(),
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => 1 + ts.iter().map(|t| t.depth()).max().unwrap_or(0),
            Ty::Struct(fs, _) => 1 + fs.iter().map(|t| t.1.depth()).max().unwrap_or(0),
            Ty::Enum(vs) => 1 + vs.iter().map(|v| match &v.1 {
                Var::Unit => 0,
                Var::Newtype(t) => t.depth(),
                Var::Tuple(ts) => ts.iter().map(|t| t.depth()).max().unwrap_or(0),
                Var::Struct(fs) => fs.iter().map(|t| t.1.depth()).max().unwrap_or(0),
            }).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn has(&self, f: &dyn Fn(&Ty) -> bool) -> bool {
        f(self) || match self {
            Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t) | Ty::Seq(t) | Ty::Map(t) => t.has(f),
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => ts.iter().any(|t| t.has(f)),
            Ty::Struct(fs, _) => fs.iter().any(|t| t.1.has(f)),
            Ty::Enum(vs) => vs.iter().any(|v| match &v.1 {
                Var::Unit => false,
                Var::Newtype(t) => t.has(f),
                Var::Tuple(ts) => ts.iter().any(|t| t.has(f)),
                Var::Struct(fs) => fs.iter().any(|t| t.1.has(f)),
            }),
            _ => false,
        }
    }
}

// -------------------------------------------------------------- generation

fn field_names(s: &mut Src, max: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for k in s.vec(0, max, 2, |s| gen::key(s)) { if !out.contains(&k) { out.push(k) } }
    out
}

pub fn fields(s: &mut Src, d: usize, picky: bool) -> Vec<(String, Ty)> {
    field_names(s, 5).into_iter().map(|k| { let t = ty(s, d, picky); (k, t) }).collect()
}

pub fn ty(s: &mut Src, d: usize, picky: bool) -> Ty {
    let leaf = |s: &mut Src| match s.weighted(&[4, 6, 1, 2, 2, 4, 1, 1, 1, if picky { 2 } else { 0 }, if picky { 2 } else { 0 }]) {
        0 => Ty::Bool, 1 => Ty::Int(s.pick(IKS)), 2 => Ty::F32, 3 => Ty::F64, 4 => Ty::Char, 5 => Ty::Str,
        6 => Ty::Bytes, 7 => Ty::Unit, 8 => Ty::UnitStruct, 9 => Ty::Picky, _ => Ty::Path,
    };
    if d == 0 { return leaf(s) }
    if d >= 2 && s.chance(1, 60) {
        // Nested deeper than other types are.
        let one: String = s.pick(&["a", "b", "inner"]).into();
        let last = ty(s, 1, picky);
        return (0..s.size(4, 20)).fold(last, |t, _| match s.weighted(&[6, 1, 2, 2, 2, 2, 1]) {
            0 => Ty::Struct(vec![(one.clone(), t)], s.chance(1, 3)),
            1 => Ty::Newtype(Box::new(t)),
            2 => Ty::Tuple(vec![t]),
            3 => Ty::TupleStruct(vec![Ty::Bool, t]),
            4 => Ty::Enum(vec![(one.clone(), match s.below(3) { 0 => Var::Newtype(t), 1 => Var::Tuple(vec![t]), _ => Var::Struct(vec![(one.clone(), t)]) })]),
            5 => Ty::Map(Box::new(t)),
            _ => Ty::Seq(Box::new(t)),
        });
    }
    match s.weighted(&[5, 2, 1, 3, 2, 1, 3, 4, 3, if picky { 2 } else { 0 }]) {
        0 => leaf(s),
        1 => { let t = ty(s, d - 1, picky); if t.nullable() { t } else { Ty::Opt(Box::new(t)) } }
        2 => Ty::Newtype(Box::new(ty(s, d - 1, picky))),
        3 => Ty::Seq(Box::new(ty(s, d - 1, picky))),
        4 => Ty::Tuple(s.vec(1, 4, 2, |s| ty(s, d - 1, picky))),
        5 => Ty::TupleStruct(s.vec(0, 4, 3, |s| ty(s, d - 1, picky))),
        6 => Ty::Map(Box::new(ty(s, d - 1, picky))),
        7 => { let f = fields(s, d - 1, picky); Ty::Struct(f, s.chance(1, 3)) }
        9 => Ty::Tagged(Box::new(ty(s, d - 1, picky))),
        _ => {
            let mut names = field_names(s, 4);
            if names.is_empty() { names.push("V".into()) }
            Ty::Enum(names.into_iter().map(|n| {
                let v = match s.below(4) {
                    0 => Var::Unit,
                    1 => Var::Newtype(ty(s, d - 1, picky)),
                    2 => Var::Tuple(s.vec(0, 3, 2, |s| ty(s, d - 1, picky))),
                    _ => Var::Struct(fields(s, d - 1, picky)),
                };
                (n, v)
            }).collect())
        }
    }
}

fn int_in(s: &mut Src, k: IK) -> N {
    let (lo, hi): (i128, i128) = match k {
        IK::U8 => (0, u8::MAX as i128), IK::U16 => (0, u16::MAX as i128), IK::U32 => (0, u32::MAX as i128),
        IK::U64 => (0, u64::MAX as i128), IK::Usize => (0, usize::MAX as i128),
        IK::I8 => (i8::MIN as i128, i8::MAX as i128), IK::I16 => (i16::MIN as i128, i16::MAX as i128),
        IK::I32 => (i32::MIN as i128, i32::MAX as i128), IK::I64 => (i64::MIN as i128, i64::MAX as i128),
        IK::Isize => (isize::MIN as i128, isize::MAX as i128),
        IK::U128 => (0, i128::MAX), IK::I128 => (i128::MIN, i128::MAX),
    };
    let v = match s.weighted(&[4, 2, 1]) {
        0 => s.range(0, 50) as i128,
        1 => gen::int_near_boundary(s),
        _ => s.pick(&[lo, hi, lo.saturating_add(1), hi - 1]),
    }.clamp(lo, hi);
    match k {
        IK::U8 => N::U8(v as u8), IK::U16 => N::U16(v as u16), IK::U32 => N::U32(v as u32), IK::U64 => N::U64(v as u64),
        IK::U128 => if s.chance(1, 6) { N::U128(u128::MAX - s.draw(2) as u128) } else { N::U128(v as u128) },
        IK::Usize => N::USize(v as usize),
        IK::I8 => N::I8(v as i8), IK::I16 => N::I16(v as i16), IK::I32 => N::I32(v as i32), IK::I64 => N::I64(v as i64),
        IK::I128 => N::I128(v), IK::Isize => N::ISize(v as isize),
    }
}

pub fn value(s: &mut Src, t: &Ty) -> DV {
    match t {
        Ty::Bool => DV::Bool(s.bool()),
        Ty::Int(k) => DV::Int(int_in(s, *k)),
        Ty::Picky => DV::Int(N::U32(s.range(0, 99) as u32)),
        Ty::F32 => DV::F32(match s.below(3) { 0 => s.range(-64, 64) as f32 / 8.0, 1 => s.pick(&[0.1f32, f32::MAX, f32::MIN_POSITIVE, -0.0, 1e-45, f32::INFINITY]), _ => f32::from_bits(s.u64() as u32) }.to_bits()),
        Ty::F64 => DV::F64(match s.below(3) { 0 => s.range(-64, 64) as f64 / 8.0, 1 => gen::float(s), _ => f64::from_bits(s.u64()) }.to_bits()),
        Ty::Char => DV::Char(gen::ch(s)),
        Ty::Str | Ty::Path => DV::Str(gen::string(s)),
        Ty::Bytes if s.chance(1, 40) => { let n = s.pick(gen::SIZES); let b = s.draw(255) as u8; DV::Bytes((0..n).map(|i| if i + 1 < n { b } else { 7 }).collect()) }
        Ty::Bytes => DV::Bytes(s.vec(0, 5, 2, |s| s.draw(255) as u8)),
        Ty::Unit | Ty::UnitStruct => DV::Unit,
        Ty::Opt(t) => if s.chance(2, 3) { DV::Some(Box::new(value(s, t))) } else { DV::None },
        Ty::Newtype(t) | Ty::Tagged(t) => DV::Wrap(Box::new(value(s, t))),
        Ty::Seq(t) if t.depth() <= 1 && s.chance(1, 15) => DV::Seq(gen::long(s, |s| value(s, t))),
        Ty::Seq(t) => DV::Seq(s.vec(0, 4, 2, |s| value(s, t))),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => DV::Seq(ts.iter().map(|t| value(s, t)).collect()),
        Ty::Map(t) => DV::Map(s.vec(0, 4, 2, |s| (gen::tree_key(s, gen::FULL), value(s, t))).into_iter().collect()),
        Ty::Struct(fs, _) => DV::Fields(fs.iter().map(|(_, t)| value(s, t)).collect()),
        Ty::Enum(vs) => {
            let i = s.below(vs.len());
            let c = match &vs[i].1 {
                Var::Unit => DV::Unit,
                Var::Newtype(t) => DV::Wrap(Box::new(value(s, t))),
                Var::Tuple(ts) => DV::Seq(ts.iter().map(|t| value(s, t)).collect()),
                Var::Struct(fs) => DV::Fields(fs.iter().map(|(_, t)| value(s, t)).collect()),
            };
            DV::Variant(i, Box::new(c))
        }
    }
}

/// The configuration value the data model maps a value to.
pub fn to_mv(t: &Ty, v: &DV) -> MV {
    let fields = |fs: &[(String, Ty)], vs: &[DV]| MV::D(fs.iter().zip(vs).map(|((k, t), v)| (k.clone(), to_mv(t, v))).collect());
    let seq = |ts: &[Ty], vs: &[DV]| MV::A(ts.iter().zip(vs).map(|(t, v)| to_mv(t, v)).collect());
    match (t, v) {
        (_, DV::Bool(b)) => MV::B(*b),
        (_, DV::Int(n)) => MV::N(*n),
        (_, DV::F32(b)) => MV::N(N::F32(*b)),
        (_, DV::F64(b)) => MV::N(N::F64(*b)),
        (_, DV::Char(c)) => MV::C(*c),
        (_, DV::Str(x)) => MV::S(x.clone()),
        (_, DV::Bytes(b)) => MV::A(b.iter().map(|b| MV::N(N::U8(*b))).collect()),
        (_, DV::Unit) => MV::Unit,
        (_, DV::None) => MV::None,
        (Ty::Opt(t), DV::Some(v)) => to_mv(t, v),
        (Ty::Newtype(t) | Ty::Tagged(t), DV::Wrap(v)) => to_mv(t, v),
        (Ty::Seq(t), DV::Seq(vs)) => MV::A(vs.iter().map(|v| to_mv(t, v)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), DV::Seq(vs)) => seq(ts, vs),
        (Ty::Map(t), DV::Map(m)) => MV::D(m.iter().map(|(k, v)| (k.clone(), to_mv(t, v))).collect()),
        (Ty::Struct(fs, _), DV::Fields(vs)) => fields(fs, vs),
        (Ty::Enum(vars), DV::Variant(i, c)) => {
            let (name, var) = &vars[*i];
            let inner = match (var, &**c) {
                (Var::Unit, _) => return MV::S(name.clone()),
                (Var::Newtype(t), DV::Wrap(v)) => to_mv(t, v),
                (Var::Tuple(ts), DV::Seq(vs)) => seq(ts, vs),
                (Var::Struct(fs), DV::Fields(vs)) => fields(fs, vs),
                _ => unreachable!(),
            };
            MV::D([(name.clone(), inner)].into())
        }
        _ => unreachable!("{t:?} {v:?}"),
    }
}

/// Equal, with NaNs equal to each other.
pub fn same(a: &DV, b: &DV) -> bool {
    match (a, b) {
        (DV::Int(a), DV::Int(b)) => a.canon() == b.canon(),
        (DV::F32(a), DV::F32(b)) => a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan()),
        (DV::F64(a), DV::F64(b)) => a == b || (f64::from_bits(*a).is_nan() && f64::from_bits(*b).is_nan()),
        (DV::Some(a), DV::Some(b)) | (DV::Wrap(a), DV::Wrap(b)) => same(a, b),
        (DV::Seq(a), DV::Seq(b)) | (DV::Fields(a), DV::Fields(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (DV::Map(a), DV::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && same(a, b)),
        (DV::Variant(i, a), DV::Variant(j, b)) => i == j && same(a, b),
        (a, b) => a == b,
    }
}

// ------------------------------------------------------------ serialization

pub struct SerDv<'a>(pub &'a Ty, pub &'a DV);

impl Serialize for SerDv<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (_, DV::Bool(b)) => s.serialize_bool(*b),
            (_, DV::Int(n)) => crate::model::Native(&MV::N(*n)).serialize(s),
            (_, DV::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (_, DV::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (_, DV::Char(c)) => s.serialize_char(*c),
            (_, DV::Str(v)) => s.serialize_str(v),
            (_, DV::Bytes(b)) => s.serialize_bytes(b),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("UnitStruct"),
            (Ty::Unit, _) => s.serialize_unit(),
            (_, DV::None) => s.serialize_none(),
            (Ty::Opt(t), DV::Some(v)) => s.serialize_some(&SerDv(t, v)),
            (Ty::Tagged(t), DV::Wrap(v)) => SerDv(t, v).serialize(s),
            (Ty::Newtype(t), DV::Wrap(v)) => s.serialize_newtype_struct("Newtype", &SerDv(t, v)),
            (Ty::Seq(t), DV::Seq(vs)) => {
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for v in vs { q.serialize_element(&SerDv(t, v))?; }
                q.end()
            }
            (Ty::Tuple(ts), DV::Seq(vs)) => {
                let mut q = s.serialize_tuple(vs.len())?;
                for (t, v) in ts.iter().zip(vs) { q.serialize_element(&SerDv(t, v))?; }
                q.end()
            }
            (Ty::TupleStruct(ts), DV::Seq(vs)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", vs.len())?;
                for (t, v) in ts.iter().zip(vs) { q.serialize_field(&SerDv(t, v))?; }
                q.end()
            }
            (Ty::Map(t), DV::Map(m)) => {
                let mut q = s.serialize_map(if m.len() % 2 == 0 { Some(m.len()) } else { None })?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i % 2 == 0 { q.serialize_entry(k, &SerDv(t, v))?; }
                    else { q.serialize_key(k)?; q.serialize_value(&SerDv(t, v))?; }
                }
                q.end()
            }
            (Ty::Struct(fs, _), DV::Fields(vs)) => {
                let mut q = s.serialize_struct("Struct", vs.len())?;
                for ((k, t), v) in fs.iter().zip(vs) { q.serialize_field(intern(k), &SerDv(t, v))?; }
                q.end()
            }
            (Ty::Enum(vars), DV::Variant(i, c)) => {
                let (name, var) = (intern(&vars[*i].0), &vars[*i].1);
                match (var, &**c) {
                    (Var::Unit, _) => s.serialize_unit_variant("Enum", *i as u32, name),
                    (Var::Newtype(t), DV::Wrap(v)) => s.serialize_newtype_variant("Enum", *i as u32, name, &SerDv(t, v)),
                    (Var::Tuple(ts), DV::Seq(vs)) => {
                        let mut q = s.serialize_tuple_variant("Enum", *i as u32, name, vs.len())?;
                        for (t, v) in ts.iter().zip(vs) { q.serialize_field(&SerDv(t, v))?; }
                        q.end()
                    }
                    (Var::Struct(fs), DV::Fields(vs)) => {
                        let mut q = s.serialize_struct_variant("Enum", *i as u32, name, vs.len())?;
                        for ((k, t), v) in fs.iter().zip(vs) { q.serialize_field(intern(k), &SerDv(t, v))?; }
                        q.end()
                    }
                    _ => Err(ser::Error::custom("bad variant")),
                }
            }
            _ => Err(ser::Error::custom("bad value")),
        }
    }
}

// ---------------------------------------------------------- deserialization

pub struct Seed<'a>(pub &'a Ty);

struct Vis<'a>(&'a Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = DV;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<DV, D::Error> {
        macro_rules! int { ($T:ty, $K:ident) => { <$T>::deserialize(d).map(|v| DV::Int(N::$K(v))) } }
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(DV::Bool),
            Ty::Int(k) => match k {
                IK::U8 => int!(u8, U8), IK::U16 => int!(u16, U16), IK::U32 => int!(u32, U32), IK::U64 => int!(u64, U64),
                IK::U128 => int!(u128, U128), IK::Usize => int!(usize, USize), IK::I8 => int!(i8, I8), IK::I16 => int!(i16, I16),
                IK::I32 => int!(i32, I32), IK::I64 => int!(i64, I64), IK::I128 => int!(i128, I128), IK::Isize => int!(isize, ISize),
            },
            Ty::Picky => {
                let n = u32::deserialize(d)?;
                if n < 100 { Ok(DV::Int(N::U32(n))) } else { Err(de::Error::custom(format!("picky rejects {n}"))) }
            }
            Ty::F32 => f32::deserialize(d).map(|f| DV::F32(f.to_bits())),
            Ty::F64 => f64::deserialize(d).map(|f| DV::F64(f.to_bits())),
            Ty::Char => char::deserialize(d).map(DV::Char),
            Ty::Str => String::deserialize(d).map(DV::Str),
            Ty::Path => figment::value::magic::RelativePathBuf::deserialize(d)
                .map(|p| DV::Str(p.original().to_str().unwrap_or("\u{fffd}").to_string())),
            Ty::Bytes => d.deserialize_byte_buf(Vis(self.0)),
            Ty::Unit => <()>::deserialize(d).map(|_| DV::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", Vis(self.0)),
            Ty::Opt(_) => d.deserialize_option(Vis(self.0)),
            Ty::Newtype(_) => d.deserialize_newtype_struct("Newtype", Vis(self.0)),
            Ty::Tagged(t) => with_ty(t, || figment::value::magic::Tagged::<Dyn>::deserialize(d))
                .map(|t| DV::Wrap(Box::new(t.into_inner().0))),
            Ty::Seq(_) => d.deserialize_seq(Vis(self.0)),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), Vis(self.0)),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("TupleStruct", ts.len(), Vis(self.0)),
            Ty::Map(_) => d.deserialize_map(Vis(self.0)),
            Ty::Struct(fs, _) => {
                let names = intern_list(fs.iter().map(|f| f.0.as_str()).collect());
                d.deserialize_struct("Struct", names, Vis(self.0))
            }
            Ty::Enum(vs) => {
                let names = intern_list(vs.iter().map(|f| f.0.as_str()).collect());
                d.deserialize_enum("Enum", names, Vis(self.0))
            }
        }
    }
}

fn seq_of<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<DV, A::Error> {
    let mut out = vec![];
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(v) => out.push(v),
            None => return Err(de::Error::invalid_length(i, &"a longer tuple")),
        }
    }
    Ok(DV::Seq(out))
}

struct Ident<'a> { names: Vec<&'a str>, strict: bool, variant: bool }

impl<'de> DeserializeSeed<'de> for &Ident<'_> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) }
}

impl<'de> Visitor<'de> for &Ident<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("an identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        if (v as usize) < self.names.len() { Ok(Some(v as usize)) }
        else { Err(E::invalid_value(de::Unexpected::Unsigned(v), &"a valid index")) }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| *n == v) {
            Some(i) => Ok(Some(i)),
            None if self.variant => Err(E::unknown_variant(v, intern_list(self.names.clone()))),
            None if self.strict => Err(E::unknown_field(v, intern_list(self.names.clone()))),
            None => Ok(None),
        }
    }
}

fn fields_of<'de, A: MapAccess<'de>>(fs: &[(String, Ty)], strict: bool, mut a: A) -> Result<DV, A::Error> {
    let ident = Ident { names: fs.iter().map(|f| f.0.as_str()).collect(), strict, variant: false };
    let mut got: Vec<Option<DV>> = vec![None; fs.len()];
    while let Some(i) = a.next_key_seed(&ident)? {
        match i {
            Some(i) => {
                if got[i].is_some() { return Err(de::Error::duplicate_field(intern(&fs[i].0))) }
                got[i] = Some(a.next_value_seed(Seed(&fs[i].1))?);
            }
            None => { a.next_value::<de::IgnoredAny>()?; }
        }
    }
    let mut out = vec![];
    for (g, (k, t)) in got.into_iter().zip(fs) {
        out.push(match (g, t) {
            (Some(v), _) => v,
            (None, Ty::Opt(_)) => DV::None,
            (None, _) => return Err(de::Error::missing_field(intern(k))),
        });
    }
    Ok(DV::Fields(out))
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = DV;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self.0 {
            Ty::Bytes => "bytes", Ty::UnitStruct => "unit struct", Ty::Opt(_) => "option", Ty::Newtype(_) => "newtype",
            Ty::Seq(_) => "a sequence", Ty::Tuple(_) | Ty::TupleStruct(_) => "a tuple", Ty::Map(_) => "a map",
            Ty::Struct(..) => "a struct", Ty::Enum(_) => "an enum", _ => "a value",
        })
    }

    fn visit_unit<E: de::Error>(self) -> Result<DV, E> {
        match self.0 {
            Ty::UnitStruct => Ok(DV::Unit),
            Ty::Opt(_) => Ok(DV::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<DV, E> {
        match self.0 { Ty::Opt(_) => Ok(DV::None), _ => Err(E::invalid_type(de::Unexpected::Option, &self)) }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<DV, D::Error> {
        match self.0 {
            Ty::Opt(t) => Seed(t).deserialize(d).map(|v| DV::Some(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<DV, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d).map(|v| DV::Wrap(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<DV, E> {
        match self.0 { Ty::Bytes => Ok(DV::Bytes(v)), _ => Err(E::invalid_type(de::Unexpected::Bytes(&v), &self)) }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<DV, E> { self.visit_byte_buf(v.to_vec()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DV, A::Error> {
        match self.0 {
            Ty::Bytes => {
                let mut out = vec![];
                while let Some(b) = a.next_element::<u8>()? { out.push(b) }
                Ok(DV::Bytes(out))
            }
            Ty::Seq(t) => {
                let mut out = vec![];
                while let Some(v) = a.next_element_seed(Seed(t))? { out.push(v) }
                Ok(DV::Seq(out))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => seq_of(ts, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<DV, A::Error> {
        match self.0 {
            Ty::Map(t) => {
                let mut out = BTreeMap::new();
                while let Some(k) = a.next_key::<String>()? {
                    let v = a.next_value_seed(Seed(t))?;
                    out.insert(k, v);
                }
                Ok(DV::Map(out))
            }
            Ty::Struct(fs, strict) => fields_of(fs, *strict, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<DV, A::Error> {
        let Ty::Enum(vs) = self.0 else { return Err(de::Error::invalid_type(de::Unexpected::Enum, &self)) };
        let ident = Ident { names: vs.iter().map(|v| v.0.as_str()).collect(), strict: true, variant: true };
        let (i, acc) = a.variant_seed(&ident)?;
        let i = i.expect("strict");
        struct T<'a>(&'a [Ty]);
        impl<'de> Visitor<'de> for T<'_> {
            type Value = DV;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple variant") }
            fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<DV, A::Error> { seq_of(self.0, a) }
        }
        struct S<'a>(&'a [(String, Ty)]);
        impl<'de> Visitor<'de> for S<'_> {
            type Value = DV;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct variant") }
            fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<DV, A::Error> { fields_of(self.0, false, a) }
        }
        let c = match &vs[i].1 {
            Var::Unit => acc.unit_variant().map(|_| DV::Unit)?,
            Var::Newtype(t) => DV::Wrap(Box::new(acc.newtype_variant_seed(Seed(t))?)),
            Var::Tuple(ts) => acc.tuple_variant(ts.len(), T(ts))?,
            Var::Struct(fs) => acc.struct_variant(intern_list(fs.iter().map(|f| f.0.as_str()).collect()), S(fs))?,
        };
        Ok(DV::Variant(i, Box::new(c)))
    }
}

thread_local!(static CURRENT: RefCell<Vec<Arc<Ty>>> = const { RefCell::new(vec![]) });

/// A value of the type made current by `with_ty`.
#[derive(Clone, Debug, PartialEq)]
pub struct Dyn(pub DV);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let t = CURRENT.with(|c| c.borrow().last().cloned()).expect("a current type");
        Seed(&t).deserialize(d).map(Dyn)
    }
}

pub fn with_ty<R>(t: &Ty, f: impl FnOnce() -> R) -> R {
    struct Pop;
    impl Drop for Pop { fn drop(&mut self) { CURRENT.with(|c| c.borrow_mut().pop()); } }
    CURRENT.with(|c| c.borrow_mut().push(Arc::new(t.clone())));
    let _pop = Pop;
    f()
}
