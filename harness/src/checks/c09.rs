//! Extracted numbers are exact or rejected.

use std::num::*;

use crate::core::*;
use crate::dynty::{self, with_ty, Dyn, Ty, DV, IK, IKS};
use crate::gen::*;
use crate::model::*;
use crate::reference::{as_kind, in_64, leaf, Allowed};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};
use figment::value::magic::Tagged;
use figment::value::Value;
use figment::Figment;
use serde::de::DeserializeOwned;

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Via { Custom, Serialized, Toml, Json, Yaml, Env }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Wrap { Field(String), Elem(usize), Map(String), Opt, Newtype, Tagged }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { src: MV, ty: Ty, wraps: Vec<Wrap>, via: Via }

pub fn env_text(v: &MV) -> String {
    match v {
        MV::N(n) => match n.canon() { Canon::Pos(m) => m.to_string(), Canon::Neg(m) => format!("-{m}"), Canon::Float(b) => float_text(f64::from_bits(b)) },
        MV::B(b) => b.to_string(),
        MV::S(s) => json_str(s),
        MV::C(c) => format!("'{c}'"),
        MV::D(d) => format!("{{{}}}", d.iter().map(|(k, v)| format!("{}={}", json_str(k), env_text(v))).collect::<Vec<_>>().join(", ")),
        MV::A(a) => format!("[{}]", a.iter().map(env_text).collect::<Vec<_>>().join(", ")),
        MV::None | MV::Unit => String::new(),
    }
}

fn source(s: &mut Src, via: Via) -> MV {
    let direct = matches!(via, Via::Custom | Via::Serialized);
    match s.weighted(&[10, 5, 2, 1]) {
        0 | 1 => {
            if direct { return MV::N(num(s)) }
            let lo = i64::MIN as i128;
            let hi = if via == Via::Toml { i64::MAX as i128 } else { u64::MAX as i128 };
            if s.chance(1, 4) {
                let f = float(s);
                return MV::N(N::f64(if via == Via::Json { simple_float(f) } else { f }));
            }
            let v = match s.below(3) { 0 => s.range(-9, 300) as i128, 1 => int_near_boundary(s), _ => s.u64() as i128 - (1i128 << 63) * s.draw(1) as i128 }.clamp(lo, hi);
            MV::N(if v < 0 { N::I64(v as i64) } else { N::U64(v as u64) })
        }
        2 => MV::S(s.pick(&["1", "-1", "0.5", "255", "true", "", "0x1", " 7 "]).into()),
        _ => match s.below(if direct { 4 } else { 1 }) { 0 => MV::B(s.bool()), 1 => MV::C('7'), 2 => MV::None, _ => MV::Unit },
    }
}

fn gen(s: &mut Src) -> Case {
    let via = s.pick(&[Via::Custom, Via::Serialized, Via::Toml, Via::Json, Via::Yaml, Via::Env]);
    let ty = match s.weighted(&[10, 2, 2, 1]) {
        0 => Ty::Int(s.pick(IKS)),
        1 => Ty::F64, 2 => Ty::F32,
        _ => s.pick(&[Ty::Bool, Ty::Str, Ty::Char]),
    };
    let wraps = s.vec(0, 4, 2, |s| match s.weighted(&[3, 3, 2, 2, 1, 1]) {
        0 => Wrap::Field(pkey(s)), 1 => Wrap::Elem(s.below(3)), 2 => Wrap::Map(pkey(s)), 3 => Wrap::Opt, 4 => Wrap::Newtype, _ => Wrap::Tagged,
    });
    let mut src = source(s, via);
    if matches!(src, MV::None | MV::Unit) && wraps.iter().any(|w| matches!(w, Wrap::Opt)) { src = MV::B(true) }
    Case { src, ty, wraps, via }
}

fn place(c: &Case) -> (Ty, MV) {
    let (mut ty, mut v) = (c.ty.clone(), c.src.clone());
    for w in c.wraps.iter().rev() {
        match w {
            Wrap::Field(k) => { ty = Ty::Struct(vec![(k.clone(), ty)], false); v = MV::D([(k.clone(), v), ("other".into(), MV::int(5))].into()); }
            Wrap::Elem(n) => {
                let mut ts = vec![Ty::Bool; *n]; ts.push(ty); ty = Ty::Tuple(ts);
                let mut vs = vec![MV::B(true); *n]; vs.push(v); v = MV::A(vs);
            }
            Wrap::Map(k) => { ty = Ty::Map(Box::new(ty)); v = MV::D([(k.clone(), v)].into()); }
            Wrap::Opt => ty = Ty::Opt(Box::new(ty)),
            Wrap::Newtype => ty = Ty::Newtype(Box::new(ty)),
            Wrap::Tagged => ty = Ty::Tagged(Box::new(ty)),
        }
    }
    (ty, v)
}

fn unwrap(wraps: &[Wrap], mut v: DV) -> Option<DV> {
    for w in wraps {
        v = match (w, v) {
            (Wrap::Field(_), DV::Fields(mut f)) => f.pop()?,
            (Wrap::Elem(_), DV::Seq(mut q)) => q.pop()?,
            (Wrap::Map(_), DV::Map(m)) => m.into_values().next()?,
            (Wrap::Opt, DV::Some(v)) | (Wrap::Newtype | Wrap::Tagged, DV::Wrap(v)) => *v,
            _ => return None,
        }
    }
    Some(v)
}

fn provide(via: Via, v: &MV) -> Figment {
    let d: MDict = [("v".to_string(), v.clone())].into();
    match via {
        Via::Custom => Figment::from(CustomProvider { data: Ok(vec![("default".into(), d)]), profile: None }),
        Via::Serialized => Figment::from(Serialized::default("v", Owned(v.clone()))),
        Via::Toml => Figment::from(Toml::string(&to_toml(&d))),
        Via::Json => Figment::from(Json::string(&to_json(&MV::D(d)))),
        Via::Yaml => Figment::from(Yaml::string(&to_json(&MV::D(d)))),
        Via::Env => {
            std::env::set_var("FIGC09_V", env_text(v));
            let f = Figment::from(Env::prefixed("FIGC09_"));
            std::env::remove_var("FIGC09_V");
            f
        }
    }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let (ty, v) = place(c);
    let f = provide(c.via, &v);
    let want = leaf(&c.src, &c.ty, false);
    let judge = |how: &str, got: Result<Dyn, figment::Error>| -> Outcome {
        let got = got.map_err(|e| e.to_string()).and_then(|d| unwrap(&c.wraps, d.0).ok_or("lost".into()));
        ensure!(want.admits(&got), "{how}: {:?} via {:?} as {:?} gives {got:?}, expected {want:?}", c.src, c.via, c.ty);
        Ok(())
    };
    judge("extract_inner", with_ty(&ty, || f.extract_inner("v")))?;
    let outer = Ty::Struct(vec![("v".into(), ty.clone())], true);
    let whole = with_ty(&outer, || f.extract::<Dyn>()).map(|d| match d.0 { DV::Fields(mut f) => Dyn(f.remove(0)), v => Dyn(v) });
    judge("extract", whole)?;
    if !ty.has(&|t| matches!(t, Ty::Tagged(_))) {
        let found = f.find_value("v").map_err(|e| format!("find_value: {e}"))?;
        judge("Value::deserialize", with_ty(&ty, || found.deserialize()))?;
    }
    let MV::N(n) = c.src else { return Ok(()) };
    cx.hit(!c.wraps.is_empty() || !in_64(n.canon()));
    cx.class(if want.fail { "rejected" } else { "accepted" });
    cx.class_if(n.is_float(), "from a float");
    cx.class_if(!n.is_float() && !in_64(n.canon()), "wider than 64 bits");
    Ok(())
}

// ------------------------------------------------------ library number types

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Native1 { n: N, via: Via, target: usize, depth: usize }

fn gen_native(s: &mut Src) -> Native1 {
    let via = s.pick(&[Via::Custom, Via::Serialized]);
    let n = match s.weighted(&[2, 5, 1]) { 0 => { let v = s.range(-3, 300); num_kind(s, v as i128) } 1 => { let v = int_near_boundary(s); num_kind(s, v) } _ => num(s) };
    Native1 { n, via, target: s.below(16), depth: s.below(3) }
}

fn check_native(c: &Native1, cx: &mut Cx) -> Outcome {
    fn get<T: DeserializeOwned + 'static>(f: &Figment, depth: usize) -> Vec<(&'static str, Result<T, String>)> {
        let e = |e: figment::Error| e.to_string();
        match depth {
            0 => vec![
                ("T", f.extract_inner::<T>("v").map_err(e)),
                ("Tagged<T>", f.extract_inner::<Tagged<T>>("v").map(|t| t.into_inner()).map_err(e)),
                ("Value::deserialize", f.find_value("v").and_then(|v| v.deserialize::<T>()).map_err(e)),
            ],
            1 => vec![
                ("Vec<T>", f.extract_inner::<Vec<T>>("v").map(|mut v| v.remove(0)).map_err(e)),
                ("(bool, T)", f.extract_inner::<(Option<T>,)>("v").map_err(e).and_then(|v| v.0.ok_or("None".into()))),
                ("Box<[T]>", f.extract_inner::<Box<[T]>>("v").map(|v| v.into_vec().remove(0)).map_err(e)),
            ],
            _ => vec![
                ("map", f.extract_inner::<std::collections::HashMap<String, Vec<T>>>("v").map(|mut m| m.remove("k").unwrap().remove(0)).map_err(e)),
                ("Option<map>", f.extract_inner::<Option<std::collections::BTreeMap<String, [T; 1]>>>("v")
                    .map(|m| { let [v] = m.unwrap().remove("k").unwrap(); v }).map_err(e)),
            ],
        }
    }
    let v = match c.depth {
        0 => MV::N(c.n),
        1 => MV::A(vec![MV::N(c.n)]),
        _ => MV::D([("k".into(), MV::A(vec![MV::N(c.n)]))].into()),
    };
    let f = provide(c.via, &v);
    macro_rules! go {
        ($T:ty, $k:expr, $un:expr, $zero:expr) => {{
            let want = as_kind(c.n.canon(), $k).filter(|n| $zero || !matches!(n.canon(), Canon::Pos(0)));
            let want = want.map_or(Allowed::fail(), |n| Allowed::only(DV::Int(n)));
            for (how, got) in get::<$T>(&f, c.depth) {
                let got = got.map(|v| DV::Int($un(v)));
                ensure!(want.admits(&got), "{:?} as {} ({how}): got {got:?}, expected {want:?}", c.n, stringify!($T));
            }
            cx.class(if want.fail { "rejected" } else { "accepted" });
        }};
    }
    match c.target {
        0 => go!(NonZeroU8, IK::U8, |v: NonZeroU8| N::U8(v.get()), false),
        1 => go!(NonZeroU16, IK::U16, |v: NonZeroU16| N::U16(v.get()), false),
        2 => go!(NonZeroU32, IK::U32, |v: NonZeroU32| N::U32(v.get()), false),
        3 => go!(NonZeroU64, IK::U64, |v: NonZeroU64| N::U64(v.get()), false),
        4 => go!(NonZeroU128, IK::U128, |v: NonZeroU128| N::U128(v.get()), false),
        5 => go!(NonZeroUsize, IK::Usize, |v: NonZeroUsize| N::USize(v.get()), false),
        6 => go!(NonZeroI8, IK::I8, |v: NonZeroI8| N::I8(v.get()), false),
        7 => go!(NonZeroI32, IK::I32, |v: NonZeroI32| N::I32(v.get()), false),
        8 => go!(NonZeroI64, IK::I64, |v: NonZeroI64| N::I64(v.get()), false),
        9 => go!(NonZeroI128, IK::I128, |v: NonZeroI128| N::I128(v.get()), false),
        10 => go!(Wrapping<u8>, IK::U8, |v: Wrapping<u8>| N::U8(v.0), true),
        11 => go!(Wrapping<i16>, IK::I16, |v: Wrapping<i16>| N::I16(v.0), true),
        12 => go!(std::sync::atomic::AtomicU32, IK::U32, |v: std::sync::atomic::AtomicU32| N::U32(v.into_inner()), true),
        13 => go!(std::cell::Cell<i8>, IK::I8, |v: std::cell::Cell<i8>| N::I8(v.get()), true),
        14 => go!(usize, IK::Usize, N::USize, true),
        _ => {
            // Fieldless variants by number: never another variant.
            #[derive(Debug, PartialEq, serde::Deserialize)]
            enum E { A, B, C }
            for (how, got) in get::<E>(&f, c.depth) {
                if let Ok(got) = got {
                    let want = [E::A, E::B, E::C].into_iter().enumerate().find(|(i, _)| c.n.canon() == Canon::Pos(*i as u128));
                    ensure!(want.as_ref().map(|w| &w.1) == Some(&got), "{:?} as an enum ({how}) gives {got:?}", c.n);
                    cx.class("variant by number");
                }
            }
        }
    }
    // The whole value, untyped.
    let found = f.find_value("v").map_err(|e| e.to_string())?;
    ensure!(MV::of(&found).same(&v), "find_value gives {found:?} for {v:?}");
    let whole: Value = f.extract_inner("v").map_err(|e| e.to_string())?;
    ensure!(MV::of(&whole).same(&v), "extracting a value gives {whole:?} for {v:?}");
    cx.hit(true);
    let _ = dynty::IKS;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C09",
        subs: vec![
            Box::new(Sub { name: "widths", quick: 900_000, thorough: 20_000_000, gen, check,
                rule: "a number of any of 14 source types or a text source's number (near every width boundary), a string or a boolean, below up to four fields, elements, options, maps and wrappers, extracted in three ways as one of 17 types; non-trivial: a number that is wrapped or wider than 64 bits" }),
            Box::new(Sub { name: "library", quick: 480_000, thorough: 10_000_000, gen: gen_native, check: check_native,
                rule: "numbers extracted as NonZero, Wrapping, atomic, Cell and enum types at three nesting depths; every case is non-trivial" }),
        ],
        assumptions: &["integers wider than 64 bits may be refused as floating-point numbers"],
    }
}
