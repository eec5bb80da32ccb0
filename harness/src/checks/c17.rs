//! Magic wrapper types are transparent and carry the right tag.

use std::cell::RefCell;
use std::collections::BTreeMap;

use crate::core::*;
use crate::dynty::{self, with_ty, Dyn, Ty};
use crate::gen::*;
use crate::model::*;
use figment::providers::{Format, Json, Serialized};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Tag, Value};
use figment::{Error, Figment, Profile};
use serde::de::{self, DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize, Serializer};

// ------------------------------------------------- trees with wrappers inside

/// How a value is wrapped.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How { Plain, Tagged, OptTagged, TaggedOpt, Double, Newtype, TaggedNewtype, Value, TaggedValue, TaggedBox }

const HOWS: &[How] = &[How::Tagged, How::Plain, How::OptTagged, How::TaggedOpt, How::Double, How::Newtype, How::TaggedNewtype, How::Value, How::TaggedValue, How::TaggedBox];

#[derive(Clone, Debug)]
enum T { Leaf(MV), D(BTreeMap<String, W>), A(Vec<W>) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct New<X>(X);

#[derive(Clone, Debug)]
enum W {
    Plain(T), Tagged(Tagged<T>), OptTagged(Option<Tagged<T>>), TaggedOpt(Tagged<Option<T>>), Double(Tagged<Tagged<T>>),
    Newtype(New<Tagged<T>>), TaggedNewtype(Tagged<New<T>>), Value(Value), TaggedValue(Tagged<Value>), TaggedBox(Tagged<Box<T>>),
}

thread_local! {
    /// Where in the tree we are, and how values are wrapped by place.
    static AT: RefCell<(Vec<String>, Vec<How>)> = const { RefCell::new((vec![], vec![])) };
}

fn how_at(path: &[String], hows: &[How]) -> How {
    hows[(fnv(path.join("\0").as_bytes()) % hows.len() as u64) as usize]
}

fn within<R>(k: &str, f: impl FnOnce() -> R) -> R {
    struct Pop;
    impl Drop for Pop { fn drop(&mut self) { AT.with(|a| { a.borrow_mut().0.pop(); }) } }
    AT.with(|a| a.borrow_mut().0.push(k.into()));
    let _pop = Pop;
    f()
}

fn with_hows<R>(hows: &[How], at: &[&str], f: impl FnOnce() -> R) -> R {
    AT.with(|a| *a.borrow_mut() = (at.iter().map(|s| s.to_string()).collect(), hows.to_vec()));
    f()
}

impl<'de> Deserialize<'de> for W {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<W, D::Error> {
        Ok(match AT.with(|a| { let a = a.borrow(); how_at(&a.0, &a.1) }) {
            How::Plain => W::Plain(<_>::deserialize(d)?), How::Tagged => W::Tagged(<_>::deserialize(d)?), How::OptTagged => W::OptTagged(<_>::deserialize(d)?),
            How::TaggedOpt => W::TaggedOpt(<_>::deserialize(d)?), How::Double => W::Double(<_>::deserialize(d)?), How::Newtype => W::Newtype(<_>::deserialize(d)?),
            How::TaggedNewtype => W::TaggedNewtype(<_>::deserialize(d)?), How::Value => W::Value(<Value as Deserialize>::deserialize(d)?),
            How::TaggedValue => W::TaggedValue(<_>::deserialize(d)?), How::TaggedBox => W::TaggedBox(<_>::deserialize(d)?),
        })
    }
}

impl Serialize for W {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            W::Plain(x) => x.serialize(s), W::Tagged(x) => x.serialize(s), W::OptTagged(x) => x.serialize(s), W::TaggedOpt(x) => x.serialize(s), W::Double(x) => x.serialize(s),
            W::Newtype(x) => x.serialize(s), W::TaggedNewtype(x) => x.serialize(s), W::Value(x) => x.serialize(s), W::TaggedValue(x) => x.serialize(s), W::TaggedBox(x) => x.serialize(s),
        }
    }
}

impl Serialize for T {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self { T::Leaf(v) => Native(v).serialize(s), T::D(d) => d.serialize(s), T::A(a) => a.serialize(s) }
    }
}

impl<'de> Deserialize<'de> for T {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        struct V;
        macro_rules! num { ($($f:ident $t:ty => $v:expr;)*) => { $(fn $f<E>(self, n: $t) -> Result<T, E> { #[allow(clippy::redundant_closure_call)] Ok(T::Leaf(MV::N(($v)(n)))) })* } }
        impl<'de> Visitor<'de> for V {
            type Value = T;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
            num! { visit_u8 u8 => N::U8; visit_u16 u16 => N::U16; visit_u32 u32 => N::U32; visit_u64 u64 => N::U64; visit_u128 u128 => N::U128;
                visit_i8 i8 => N::I8; visit_i16 i16 => N::I16; visit_i32 i32 => N::I32; visit_i64 i64 => N::I64; visit_i128 i128 => N::I128; visit_f32 f32 => N::f32; visit_f64 f64 => N::f64; }
            fn visit_bool<E>(self, b: bool) -> Result<T, E> { Ok(T::Leaf(MV::B(b))) }
            fn visit_char<E>(self, c: char) -> Result<T, E> { Ok(T::Leaf(MV::C(c))) }
            fn visit_str<E>(self, v: &str) -> Result<T, E> { Ok(T::Leaf(MV::s(v))) }
            fn visit_unit<E>(self) -> Result<T, E> { Ok(T::Leaf(MV::Unit)) }
            fn visit_none<E>(self) -> Result<T, E> { Ok(T::Leaf(MV::None)) }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
                let mut out = BTreeMap::new();
                while let Some(k) = a.next_key::<String>()? { let w = within(&k, || a.next_value())?; out.insert(k, w); }
                Ok(T::D(out))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
                let mut out = vec![];
                while let Some(w) = within(&out.len().to_string(), || a.next_element())? { out.push(w) }
                Ok(T::A(out))
            }
        }
        d.deserialize_any(V)
    }
}

/// The same tag, the profile included.
fn eq(a: Tag, b: Tag) -> bool { a == b && a.profile() == b.profile() && a.is_default() == b.is_default() }

/// `want` gives the tag a wrapper around the value at a place should carry.
fn verify(w: &W, v: &MV, path: &mut Vec<String>, want: &dyn Fn(&[String]) -> Want) -> Result<u64, String> {
    let at = path.join(".");
    let tag = |t: Tag, what: &str| match want(path) {
        Want::Exactly(e) => if eq(t, e) { Ok(()) } else { Err(format!("at `{at}`: {what} carries {t:?}, the value's tag is {e:?}")) },
        Want::Any => Ok(()),
    };
    let empty = matches!(v, MV::None | MV::Unit);
    let (t, n): (&T, u64) = match w {
        W::Plain(t) => (t, 0),
        W::Tagged(t) => { tag(t.tag(), "the wrapper")?; (t, 1) }
        W::Newtype(New(t)) => { tag(t.tag(), "the wrapper")?; (t, 1) }
        W::OptTagged(None) => { crate::ensure!(empty, "at `{at}`: an absent optional wrapper for {v:?}"); return Ok(1) }
        W::OptTagged(Some(t)) => { tag(t.tag(), "the optional wrapper")?; (t, 1) }
        W::TaggedOpt(t) => {
            tag(t.tag(), "the wrapper of an option")?;
            match &**t { Some(t) => (t, 1), None => { crate::ensure!(empty, "at `{at}`: a wrapped absent option for {v:?}"); return Ok(1) } }
        }
        W::Double(t) => { tag(t.tag(), "the outer wrapper")?; tag((**t).tag(), "the inner wrapper")?; (t, 2) }
        W::TaggedNewtype(t) => { tag(t.tag(), "the wrapper of a newtype")?; (&t.0, 1) }
        W::TaggedBox(t) => { tag(t.tag(), "the wrapper of a box")?; (t, 1) }
        W::Value(x) => { crate::ensure!(MV::of(x).same(v), "at `{at}`: untyped {x:?} for {v:?}"); return value_tags(x, path, want) }
        W::TaggedValue(x) => {
            tag(x.tag(), "the wrapper of an untyped value")?;
            crate::ensure!(MV::of(x).same(v), "at `{at}`: untyped {x:?} for {v:?}");
            return Ok(1 + value_tags(x, path, want)?)
        }
    };
    if empty && matches!(w, W::OptTagged(_) | W::TaggedOpt(_)) { return Err(format!("at `{at}`: a present option for {v:?}")) }
    Ok(n + verify_t(t, v, path, want)?)
}

fn verify_t(t: &T, v: &MV, path: &mut Vec<String>, want: &dyn Fn(&[String]) -> Want) -> Result<u64, String> {
    let mut n = 0;
    match (t, v) {
        (T::D(a), MV::D(b)) if a.keys().eq(b.keys()) => for (k, w) in a { path.push(k.clone()); n += verify(w, &b[k], path, want)?; path.pop(); },
        (T::A(a), MV::A(b)) if a.len() == b.len() => for (i, w) in a.iter().enumerate() { path.push(i.to_string()); n += verify(w, &b[i], path, want)?; path.pop(); },
        (T::Leaf(a), b) if a.same(b) => {}
        _ => return Err(format!("at `{}`: {} extracted from {v:?}", path.join("."), dbg(t))),
    }
    Ok(n)
}

fn value_tags(v: &Value, path: &mut Vec<String>, want: &dyn Fn(&[String]) -> Want) -> Result<u64, String> {
    let mut n = 1;
    if let Want::Exactly(e) = want(path) {
        crate::ensure!(eq(v.tag(), e), "at `{}`: the untyped value carries {:?}, expected {e:?}", path.join("."), v.tag());
    }
    match v {
        Value::Dict(_, d) => for (k, v) in d { path.push(k.clone()); n += value_tags(v, path, want)?; path.pop(); },
        Value::Array(_, a) => for (i, v) in a.iter().enumerate() { path.push(i.to_string()); n += value_tags(v, path, want)?; path.pop(); },
        _ => {}
    }
    Ok(n)
}

enum Want { Exactly(Tag), Any }

fn get<'v>(v: &'v Value, path: &[String]) -> Option<&'v Value> {
    match path.split_first() {
        None => Some(v),
        Some((k, rest)) => match v { Value::Dict(_, d) => get(d.get(k)?, rest), Value::Array(_, a) => get(a.get(k.parse::<usize>().ok()?)?, rest), _ => None },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Again {
    Default { profile: String, strat: Strat },
    Keyed { key: String, profile: String },
    Json,
    Nested,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { ops: Vec<Op>, hows: Vec<How>, lossy: bool, path: Vec<String>, again: Vec<Again>, over: Vec<(usize, i64)> }

fn hows(s: &mut Src) -> Vec<How> { s.vec(1, 7, 3, |s| s.pick(HOWS)) }

fn gen(s: &mut Src) -> Case {
    let ops = history(s, Hist { nesting: 1, ..HIST });
    let vis = Run::of(&ops).model.visible_mv().unwrap();
    let path = if s.bool() { vec![] } else { path_in(s, &vis.paths()) };
    let again = s.vec(0, 3, 1, |s| match s.weighted(&[4, 2, 1, 1]) {
        0 => Again::Default { profile: profile(s), strat: strat(s) },
        1 => Again::Keyed { key: dotted(s, 2), profile: profile(s) },
        2 => Again::Json, _ => Again::Nested,
    });
    Case { ops, hows: hows(s), lossy: s.chance(1, 4), path, again, over: s.vec(0, 2, 1, |s| (s.below(8), s.range(0, 9))) }
}

fn ex<X: DeserializeOwned>(f: &Figment, path: &[String], lossy: bool) -> figment::error::Result<X> {
    let p = path.join(".");
    match (path.is_empty(), lossy) {
        (true, false) => f.extract(), (true, true) => f.extract_lossy(),
        (false, false) => f.extract_inner(&p), (false, true) => f.extract_inner_lossy(&p),
    }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let Run { real, model, .. } = Run::of(&c.ops);
    let vis = model.visible().unwrap();
    let proper = c.path.iter().all(|k| !k.is_empty() && !k.contains('.'));
    let path: &[String] = if proper { &c.path } else { &[] };
    let whole: Value = real.extract().map_err(|e| format!("untyped extraction failed: {e}"))?;
    let plain = MV::of(&whole);
    ensure!(plain.same(&MV::D(pdict_mv(&vis))), "untyped extraction gives {whole:?}, the data is {:?}", pdict_mv(&vis));
    for (k, m) in &vis { check_tags(&real, whole.as_dict().and_then(|d| d.get(k)).unwrap(), m, &model.selected, k)?; }
    let (Some(v), Some(mv)) = (get(&whole, path), plain.get(path)) else {
        ensure!(with_hows(&c.hows, &[], || ex::<W>(&real, path, c.lossy)).is_err(), "something was found at {path:?}");
        return Ok(());
    };
    let want = |p: &[String]| get(v, p).map_or(Want::Any, |v| Want::Exactly(v.tag()));
    let w: W = with_hows(&c.hows, &[], || ex(&real, path, c.lossy)).map_err(|e| format!("extracting {mv:?} as {:?} failed: {e}", c.hows))?;
    let n = verify(&w, mv, &mut vec![], &want)?;
    cx.hit(n > 0 && mv.nodes() > 1);
    cx.class_if(mv.depth() > 2, "wrappers deeper than two levels");
    // Straight types of the library's own.
    if let MV::D(_) = mv {
        let d: Dict = ex(&real, path, c.lossy).map_err(|e| format!("dictionary: {e}"))?;
        for (k, x) in &d { super::c06::identical(x, &v.as_dict().unwrap()[k]).map_err(|e| format!("{k}: {e}"))?; }
        ensure!(d.len() == v.as_dict().unwrap().len(), "the extracted dictionary has {} keys", d.len());
        let t: Tagged<Dict> = ex(&real, path, c.lossy).map_err(|e| format!("tagged dictionary: {e}"))?;
        ensure!(eq(t.tag(), v.tag()) && *t == d, "Tagged<Dict> carries {:?}, the value {:?}", t.tag(), v.tag());
        // A wrapper made in code; equality and hashing do not mind tags, ordering of tags agrees with their equality.
        let own = Tagged::from(d.clone());
        let mut more = d.clone();
        more.insert("one more key".into(), 1.into());
        ensure!(own.tag() == Tag::default() && own.tag().is_default() && own == t && t == own && t.clone().into_inner() == d, "{own:?} is not like {t:?}");
        ensure!(Tagged::from(more) != t, "a dictionary with one more key is equal to {t:?}");
        use std::hash::{BuildHasher, RandomState};
        let h = RandomState::new();
        let tags: Vec<Tag> = d.values().map(|v| v.tag()).chain([own.tag(), t.tag()]).collect();
        for a in &tags { for b in &tags {
            ensure!((a == b) == (a.cmp(b) == std::cmp::Ordering::Equal) && a.partial_cmp(b) == Some(a.cmp(b)) && b.cmp(a) == a.cmp(b).reverse(), "ordering of {a:?} and {b:?}");
            ensure!(a != b || h.hash_one(a) == h.hash_one(b), "hash of {a:?} and {b:?}");
        } }
    }
    let x: Value = ex(&real, path, c.lossy).map_err(|e| format!("{e}"))?;
    super::c06::identical(&x, v).map_err(|e| format!("untyped at {path:?}: {e}"))?;
    let x: Option<Value> = ex(&real, path, c.lossy).map_err(|e| format!("{e}"))?;
    match (&x, mv) {
        (None, MV::None | MV::Unit) => {}
        (Some(x), m) if !matches!(m, MV::None | MV::Unit) => super::c06::identical(x, v).map_err(|e| format!("optional untyped at {path:?}: {e}"))?,
        _ => return Err(format!("optional untyped {x:?} for {mv:?}")),
    }
    // Provided again, the wrappers keep their tags. Untyped values and plain ones get new ones.
    let mut again = W::Plain(T::D([("x".to_string(), w)].into()));
    // The wrapping by place starts below "x".
    let under = |f: &Figment, hows: &[How], key: &str| -> Result<W, Error> {
        struct Under(W);
        impl<'de> Deserialize<'de> for Under {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Under, D::Error> {
                let saved = AT.with(|a| std::mem::take(&mut a.borrow_mut().0));
                let r = W::deserialize(d);
                AT.with(|a| a.borrow_mut().0 = saved);
                r.map(Under)
            }
        }
        with_hows(hows, &[], || f.extract_inner::<Under>(key)).map(|u| u.0)
    };
    let mut kept = 0;
    for a in &c.again {
        if matches!(a, Again::Json) && !jsonable(mv) { continue }
        let (f, key) = match a {
            Again::Default { profile, strat } => {
                let p = Serialized::from(&again, profile);
                let base = Figment::from(Serialized::default("other", 1)).merge(Serialized::global("zzz", "q"));
                let f = match strat { Strat::Merge => base.merge(p), Strat::Join => base.join(p), Strat::Admerge => base.admerge(p), Strat::Adjoin => base.adjoin(p) };
                (f.select(profile), "x".to_string())
            }
            Again::Keyed { key, profile } => {
                (Figment::from(Serialized::from(&again, profile).key(key)).select(profile), format!("{key}.x"))
            }
            Again::Json => (Figment::from(Json::string(&serde_json::to_string(&again).map_err(|e| e.to_string())?)), "x".to_string()),
            Again::Nested => (Figment::new().merge(Figment::from(Serialized::defaults(&again))), "x".to_string()),
        };
        if key.split('.').any(|k| k.is_empty()) { continue }
        let back = under(&f, &c.hows, &key).map_err(|e| format!("{a:?}: extracting the wrapped values again failed: {e}"))?;
        kept += keeps(&again_x(&again), &back, &f, &mut vec![]).map_err(|e| format!("{a:?}: {e}"))?;
        again = W::Plain(T::D([("x".to_string(), back)].into()));
    }
    cx.class_if(kept > 0, "wrappers provided again");
    // One of the keys is overridden by another provider.
    if let (W::Plain(T::D(d)), true) = (again_x(&again), !c.over.is_empty()) {
        if !d.is_empty() {
            let mut f = Figment::from(Serialized::defaults(&again));
            let keys: Vec<&String> = d.keys().collect();
            for (i, n) in &c.over {
                let k = keys[i % keys.len()];
                f = f.merge(Named { inner: Serialized::defaults(BTreeMap::from([("x", BTreeMap::from([(k, *n)]))])), name: "prov-77".into() });
            }
            let W::Plain(T::D(back)) = under(&f, &c.hows, "x").map_err(|e| format!("with an override: {e}"))? else { return Err("not a dictionary".into()) };
            for (i, _) in &c.over {
                let k = keys[i % keys.len()];
                let t = match &back[k] {
                    W::Tagged(t) => t.tag(), W::Newtype(New(t)) => t.tag(), W::OptTagged(Some(t)) => t.tag(), W::TaggedOpt(t) => t.tag(), W::Double(t) => t.tag(),
                    W::TaggedNewtype(t) => t.tag(), W::TaggedValue(t) => t.tag(), W::Value(v) => v.tag(), W::TaggedBox(t) => t.tag(), _ => continue,
                };
                // A wrapper replaced as a whole is replaced by the new provider's value.
                ensure!(origin_of(&f, t) == Some(77), "x.{k} is overridden, but its wrapper's tag {t:?} is not the new provider's");
                cx.class("overridden wrapper");
            }
        }
    }
    Ok(())
}

fn again_x(w: &W) -> &W { match w { W::Plain(T::D(d)) => &d["x"], _ => unreachable!() } }

/// As JSON text keeps it.
fn jsonable(v: &MV) -> bool {
    match v {
        MV::D(d) => d.values().all(jsonable), MV::A(a) => a.iter().all(jsonable),
        MV::N(n) => match n.canon() { Canon::Float(b) => { let f = f64::from_bits(b); f.abs() < 1e6 && (f * 8.0).fract() == 0.0 } Canon::Pos(m) => m <= u64::MAX as u128, Canon::Neg(m) => m <= i64::MAX as u128 },
        MV::C(_) | MV::None | MV::Unit => false,
        _ => true,
    }
}

/// `b` was extracted from `a` provided to `f`.
fn keeps(a: &W, b: &W, f: &Figment, path: &mut Vec<String>) -> Result<u64, String> {
    let at = path.join(".");
    let same = |x: Tag, y: Tag| if x.is_default() {
        // It had none, and gets the provider's.
        if f.get_metadata(y).is_some() || path.is_empty() { Ok(()) } else { Err(format!("at `{at}`: no tag, and the one it was given resolves to nothing")) }
    } else if eq(x, y) { Ok(()) } else { Err(format!("at `{at}`: tag {x:?} became {y:?}")) };
    let (ta, tb): (&T, &T) = match (a, b) {
        (W::Plain(a), W::Plain(b)) => (a, b),
        (W::Tagged(a), W::Tagged(b)) => { same(a.tag(), b.tag())?; (a, b) }
        (W::Newtype(New(a)), W::Newtype(New(b))) => { same(a.tag(), b.tag())?; (a, b) }
        (W::OptTagged(None), W::OptTagged(None)) => return Ok(0),
        (W::OptTagged(Some(a)), W::OptTagged(Some(b))) => { same(a.tag(), b.tag())?; (a, b) }
        (W::TaggedOpt(a), W::TaggedOpt(b)) => { same(a.tag(), b.tag())?; match (&**a, &**b) { (Some(a), Some(b)) => (a, b), (None, None) => return Ok(1), _ => return Err(format!("at `{at}`: {} became {}", dbg(a), dbg(b))) } }
        (W::Double(a), W::Double(b)) => { same(a.tag(), b.tag())?; same((**a).tag(), (**b).tag())?; (a, b) }
        (W::TaggedNewtype(a), W::TaggedNewtype(b)) => { same(a.tag(), b.tag())?; (&a.0, &b.0) }
        (W::TaggedBox(a), W::TaggedBox(b)) => { same(a.tag(), b.tag())?; (a, b) }
        (W::Value(a), W::Value(b)) => {
            crate::ensure!(MV::of(a).same(&MV::of(b)), "at `{at}`: {a:?} became {b:?}");
            crate::ensure!(f.get_metadata(b.tag()).is_some(), "at `{at}`: {b:?} resolves to no provider");
            return Ok(0)
        }
        (W::TaggedValue(a), W::TaggedValue(b)) => { same(a.tag(), b.tag())?; crate::ensure!(MV::of(a).same(&MV::of(b)), "at `{at}`: {a:?} became {b:?}"); return Ok(1) }
        _ => return Err(format!("at `{at}`: {} became {}", dbg(a), dbg(b))),
    };
    let mut n = if matches!(a, W::Plain(_)) { 0 } else { 1 };
    match (ta, tb) {
        (T::Leaf(a), T::Leaf(b)) => crate::ensure!(a.same(b), "at `{at}`: {a:?} became {b:?}"),
        (T::D(a), T::D(b)) if a.keys().eq(b.keys()) => for (k, w) in a { path.push(k.clone()); n += keeps(w, &b[k], f, path)?; path.pop(); },
        (T::A(a), T::A(b)) if a.len() == b.len() => for (i, w) in a.iter().enumerate() { path.push(i.to_string()); n += keeps(w, &b[i], f, path)?; path.pop(); },
        _ => return Err(format!("at `{at}`: {} became {}", dbg(ta), dbg(tb))),
    }
    Ok(n)
}

// ----------------------------------------------- wrappers without tags, provided

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fresh { data: MDict, hows: Vec<How>, profile: String, key: Option<String> }

fn gen_fresh(s: &mut Src) -> Fresh {
    Fresh { data: mdict(s, FULL), hows: hows(s), profile: profile(s), key: if s.chance(1, 3) { Some(dotted(s, 2)) } else { None } }
}

fn fresh(v: &MV, path: &mut Vec<String>, hows: &[How]) -> W {
    let how = how_at(path, hows);
    let empty = matches!(v, MV::None | MV::Unit);
    match how {
        How::Value => return W::Value(v.value()),
        How::TaggedValue => return W::TaggedValue(v.value().into()),
        How::OptTagged if empty => return W::OptTagged(None),
        How::TaggedOpt if empty => return W::TaggedOpt(None.into()),
        _ => {}
    }
    let t = match v {
        MV::D(d) => T::D(d.iter().map(|(k, v)| { path.push(k.clone()); let w = fresh(v, path, hows); path.pop(); (k.clone(), w) }).collect()),
        MV::A(a) => T::A(a.iter().enumerate().map(|(i, v)| { path.push(i.to_string()); let w = fresh(v, path, hows); path.pop(); w }).collect()),
        v => T::Leaf(v.clone()),
    };
    match how {
        How::Plain => W::Plain(t), How::Tagged => W::Tagged(t.into()), How::OptTagged => W::OptTagged(Some(t.into())), How::TaggedOpt => W::TaggedOpt(Some(t).into()),
        How::Double => W::Double(Tagged::from(Tagged::from(t))), How::Newtype => W::Newtype(New(t.into())), How::TaggedNewtype => W::TaggedNewtype(New(t).into()), How::TaggedBox => W::TaggedBox(Box::new(t).into()),
        How::Value | How::TaggedValue => unreachable!(),
    }
}

fn check_fresh(c: &Fresh, cx: &mut Cx) -> Outcome {
    let tree: BTreeMap<String, W> = c.data.iter().map(|(k, v)| (k.clone(), fresh(v, &mut vec![k.clone()], &c.hows))).collect();
    let mut p = Serialized::from(&tree, &c.profile);
    if let Some(k) = &c.key { p = p.key(k) }
    let f = Figment::new().merge(Named { inner: p, name: "prov-5".into() }).select(&c.profile);
    let data = MV::D(c.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    let key: Vec<String> = c.key.iter().flat_map(|k| k.split('.')).map(String::from).collect();
    if key.iter().any(|k| k.is_empty()) { return Ok(()) }
    let sel = c.profile.to_ascii_lowercase();
    if key.is_empty() && data.nodes() == 1 { return Ok(()) }
    struct Top(BTreeMap<String, W>);
    impl<'de> Deserialize<'de> for Top {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Top, D::Error> {
            AT.with(|a| a.borrow_mut().0.clear());
            match T::deserialize(d)? { T::D(d) => Ok(Top(d)), t => Err(de::Error::custom(format!("{t:?}"))) }
        }
    }
    let top: Top = with_hows(&c.hows, &[], || ex(&f, &key, false)).map_err(|e| format!("extracting wrapped values failed: {e}"))?;
    let want = |_: &[String]| Want::Any;
    let mut n = 0;
    for (k, w) in &top.0 {
        let v = data.get(&[k.clone()]).ok_or("an extra key")?;
        // A wrapper without a tag around an option without a value is just empty.
        n += verify(w, v, &mut vec![k.clone()], &want)?;
        tags(w, &mut |t: Tag| {
            let prof = t.profile().map(|p| p.to_string().to_ascii_lowercase());
            let ok = origin_of(&f, t) == Some(5) && match &prof { Some(p) => *p == sel, None => sel != "default" && sel != "global" };
            if ok { Ok(()) } else { Err(format!("under `{k}`: a wrapper provided without a tag carries {t:?} of profile {prof:?}")) }
        })?;
    }
    ensure!(top.0.len() == c.data.len(), "{} of {} keys", top.0.len(), c.data.len());
    cx.hit(n > 1);
    cx.class_if(c.key.is_some(), "under a key");
    Ok(())
}

fn tags(w: &W, f: &mut dyn FnMut(Tag) -> Result<(), String>) -> Result<(), String> {
    fn value(v: &Value, f: &mut dyn FnMut(Tag) -> Result<(), String>) -> Result<(), String> {
        f(v.tag())?;
        match v { Value::Dict(_, d) => d.values().try_for_each(|v| value(v, f)), Value::Array(_, a) => a.iter().try_for_each(|v| value(v, f)), _ => Ok(()) }
    }
    let t: &T = match w {
        W::Plain(t) => t,
        W::Tagged(t) => { f(t.tag())?; t }
        W::Newtype(New(t)) => { f(t.tag())?; t }
        W::OptTagged(None) => return Ok(()),
        W::OptTagged(Some(t)) => { f(t.tag())?; t }
        W::TaggedOpt(t) => { f(t.tag())?; match &**t { Some(t) => t, None => return Ok(()) } }
        W::Double(t) => { f(t.tag())?; f((**t).tag())?; t }
        W::TaggedNewtype(t) => { f(t.tag())?; &t.0 }
        W::TaggedBox(t) => { f(t.tag())?; t }
        W::Value(v) => return value(v, f),
        W::TaggedValue(v) => { f(v.tag())?; return value(v, f) }
    };
    match t { T::D(d) => d.values().try_for_each(|w| tags(w, f)), T::A(a) => a.iter().try_for_each(|w| tags(w, f)), T::Leaf(_) => Ok(()) }
}

// ------------------------------------------------------ typed, fitting or not

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Typed { ops: Vec<Op>, path: Vec<String>, ty: Ty, lossy: bool }

fn ty_for(s: &mut Src, v: Option<&MV>) -> Ty {
    let ty = match v {
        Some(MV::S(_)) => s.pick(&[Ty::Str, Ty::Bool, Ty::Int(dynty::IK::U8), Ty::F64, Ty::Char, Ty::Opt(Box::new(Ty::Str))]),
        Some(MV::N(_)) => s.pick(&[Ty::Int(dynty::IK::I64), Ty::Int(dynty::IK::U8), Ty::Bool, Ty::F64, Ty::Str]),
        Some(MV::B(_)) => s.pick(&[Ty::Bool, Ty::Str]),
        Some(MV::A(_)) => Ty::Seq(Box::new(dynty::ty(s, 1, true))),
        Some(MV::D(d)) => {
            let fs = d.iter().take(3).map(|(k, v)| (k.clone(), match v { MV::S(_) => Ty::Str, MV::N(_) => Ty::Int(dynty::IK::I64), MV::B(_) => Ty::Bool, _ => Ty::Opt(Box::new(Ty::Bool)) })).collect();
            if s.bool() { Ty::Map(Box::new(dynty::ty(s, 1, true))) } else { Ty::Struct(fs, s.bool()) }
        }
        _ => Ty::Opt(Box::new(Ty::Bool)),
    };
    if s.chance(1, 4) { dynty::ty(s, 2, true) } else { ty }
}

fn gen_typed(s: &mut Src) -> Typed {
    let ops = history(s, Hist { nesting: 1, ..HIST });
    let vis = Run::of(&ops).model.visible_mv().unwrap();
    let mut path = path_in(s, &vis.paths());
    path.retain(|k| !k.is_empty());
    let ty = ty_for(s, vis.get(&path));
    Typed { ops, path, ty, lossy: s.bool() }
}

fn same_error(a: &Error, b: &Error) -> Result<(), String> {
    crate::ensure!(a.count() == b.count(), "{} errors, unwrapped {}", b.count(), a.count());
    for (a, b) in a.clone().into_iter().zip(b.clone()) {
        crate::ensure!(a.path == b.path, "error `{b}` at {:?}, unwrapped at {:?}", b.path, a.path);
        crate::ensure!(a.kind.to_string() == b.kind.to_string(), "error `{}`, unwrapped `{}`", b.kind, a.kind);
        crate::ensure!(a.metadata == b.metadata && a.profile == b.profile, "error attributed to {:?} {:?}, unwrapped to {:?} {:?}", b.metadata, b.profile, a.metadata, a.profile);
    }
    Ok(())
}

fn check_typed(c: &Typed, cx: &mut Cx) -> Outcome {
    let Run { real, .. } = Run::of(&c.ops);
    if c.path.iter().any(|k| k.is_empty() || k.contains('.')) { return Ok(()) }
    let whole: Value = real.extract().map_err(|e| e.to_string())?;
    with_ty(&c.ty, || {
        let plain = ex::<Dyn>(&real, &c.path, c.lossy);
        let check = |what: &str, r: Result<(Option<Tag>, Dyn), Error>| match (&plain, r) {
            (Ok(a), Ok((t, b))) => {
                ensure!(dynty::same(&a.0, &b.0), "{what}: {b:?}, unwrapped {a:?}");
                let v = get(&whole, &c.path).ok_or("extracted from nothing")?;
                if let Some(t) = t { ensure!(eq(t, v.tag()), "{what} carries {t:?}, the value has {:?}", v.tag()); }
                Ok(())
            }
            (Err(a), Err(b)) => same_error(a, &b).map_err(|e| format!("{what}: {e}")),
            (Ok(a), Err(e)) => Err(format!("{what} failed with `{e}`, unwrapped it is {a:?}")),
            (Err(e), Ok(b)) => Err(format!("{what} gives {b:?}, unwrapped it fails with `{e}`")),
        };
        check("Tagged", ex::<Tagged<Dyn>>(&real, &c.path, c.lossy).map(|t| (Some(t.tag()), t.into_inner())))?;
        check("Tagged newtype", ex::<Tagged<New<Dyn>>>(&real, &c.path, c.lossy).map(|t| (Some(t.tag()), t.into_inner().0)))?;
        check("Tagged Tagged", ex::<Tagged<Tagged<Dyn>>>(&real, &c.path, c.lossy).map(|t| (Some(t.tag()), t.into_inner().into_inner())))?;
        // As an element or an entry of what is around it.
        if let Some((last, up)) = c.path.split_last() {
            if let Some(Value::Dict(_, d)) = get(&whole, up) {
                if d.len() == 1 && d.contains_key(last) {
                    check("Tagged map entry", ex::<BTreeMap<String, Tagged<Dyn>>>(&real, up, c.lossy).map(|mut m| { let t = m.remove(last).unwrap(); (Some(t.tag()), t.into_inner()) }))?;
                }
            }
        }
        if let (Some(Value::Array(_, a)), Ty::Seq(inner)) = (get(&whole, &c.path), &c.ty) {
            let each = with_ty(inner, || (ex::<Vec<Dyn>>(&real, &c.path, c.lossy), ex::<Vec<Tagged<Dyn>>>(&real, &c.path, c.lossy)));
            match each {
                (Ok(p), Ok(t)) => for (i, (p, t)) in p.iter().zip(&t).enumerate() {
                    ensure!(dynty::same(&p.0, &t.0), "element {i}: {:?}, unwrapped {p:?}", **t);
                    ensure!(eq(t.tag(), a[i].tag()), "element {i} carries {:?}, the value has {:?}", t.tag(), a[i].tag());
                    ensure!(p.0 == t.0 || dynty::same(&p.0, &t.0), "element {i}");
                },
                (Err(_), Err(_)) => {}
                (p, t) => return Err(format!("elements: unwrapped {}, tagged {}", dbg(&p), dbg(&t))),
            }
        }
        cx.hit(get(&whole, &c.path).is_some());
        cx.class_if(plain.is_ok(), "extracted");
        cx.class_if(plain.is_err(), "failed");
        Ok(())
    })
}

// -------------------------------------------------------------------- either

/// Left alternatives.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Left { TaggedStr, TaggedU8, TaggedI64, TaggedBool, TaggedF64, TaggedVec, TaggedMap, TaggedStruct, TaggedOpt, TaggedValue, Path, Value, TaggedPath, TaggedTagged }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Right { Ty(Ty), TaggedStr, Path }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Place { Alone, InVec, InMap, InOption, InTagged, InBoth }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ei { ops: Vec<Op>, path: Vec<String>, left: Left, right: Right, place: Place, lossy: bool, wrap: Option<Left>, text: bool }

const LEFTS: &[Left] = &[Left::TaggedStr, Left::TaggedU8, Left::TaggedI64, Left::TaggedBool, Left::TaggedF64, Left::TaggedVec, Left::TaggedMap, Left::TaggedStruct, Left::TaggedOpt, Left::TaggedValue, Left::Path];

fn gen_either(s: &mut Src) -> Ei {
    let ops = history(s, Hist { nesting: 1, ..HIST });
    let vis = Run::of(&ops).model.visible_mv().unwrap();
    let mut path = path_in(s, &vis.paths());
    path.retain(|k| !k.is_empty());
    let ty = ty_for(s, vis.get(&path));
    let right = Right::Ty(if ty.has(&|t| matches!(t, Ty::Tagged(_) | Ty::Path)) { Ty::Str } else { ty });
    Ei {
        ops, path, left: s.pick(LEFTS), right, place: s.pick(&[Place::Alone, Place::Alone, Place::InVec, Place::InMap, Place::InOption, Place::InTagged, Place::InBoth]), lossy: false,
        wrap: if s.chance(1, 4) { Some(s.pick(&[Left::TaggedStr, Left::TaggedI64, Left::TaggedValue, Left::Path, Left::Value])) } else { None }, text: s.bool(),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct St { #[serde(default)] a: Option<String>, b: Option<i64>, #[serde(default)] c: bool }

/// What is compared of a left alternative.
trait Facts: Sized { fn facts(&self) -> (String, Option<Tag>); }
impl<X: std::fmt::Debug> Facts for Tagged<X> { fn facts(&self) -> (String, Option<Tag>) { (format!("{:?}", **self), Some(self.tag())) } }
impl Facts for RelativePathBuf { fn facts(&self) -> (String, Option<Tag>) { (format!("{:?} in {:?}", self.original(), self.metadata_path()), None) } }
impl Facts for Value { fn facts(&self) -> (String, Option<Tag>) { (format!("{:?}", MV::of(self)), Some(self.tag())) } }

fn agree<L: Facts>(got: &L, want: &L) -> Outcome {
    let ((a, s), (b, t)) = (got.facts(), want.facts());
    ensure!(a == b, "left {a}, on its own it is {b}");
    match (s, t) { (Some(s), Some(t)) => ensure!(eq(s, t), "left {a} carries {s:?}, on its own {t:?}"), _ => {} }
    Ok(())
}

fn either<L, R>(f: &Figment, c: &Ei, path: &[String], same: impl Fn(&R, &R) -> bool, cx: &mut Cx) -> Outcome
    where L: figment::value::magic::Magic + Facts + std::fmt::Debug, R: DeserializeOwned + std::fmt::Debug
{
    let one = |got: Option<&Either<L, R>>, l: Result<L, Error>, r: Result<R, Error>, what: &str| -> Outcome {
        match (got, l, r) {
            (Some(Either::Left(x)), Ok(l), _) => agree(x, &l).map_err(|e| format!("{what}: {e}")),
            (Some(Either::Right(x)), Err(_), Ok(r)) => { ensure!(same(x, &r), "{what}: right {x:?}, on its own it is {r:?}"); Ok(()) }
            (None, Err(_), Err(_)) => Ok(()),
            (g, l, r) => Err(format!("{what}: {}, where the left alternative is {} and the right {}", dbg(&g), dbg(&l), dbg(&r))),
        }
    };
    let (l, r) = (ex::<L>(f, path, c.lossy), ex::<R>(f, path, c.lossy));
    // What a wrapper provided again holds is what the right alternative gets; that is not what it gets on its own.
    if c.wrap.is_some() && (l.is_err() || c.place != Place::Alone) { return Ok(()) }
    cx.class(match (&l, &r) { (Ok(_), Ok(_)) => "both fit", (Ok(_), _) => "only left fits", (_, Ok(_)) => "only right fits", _ => "neither fits" });
    cx.hit(l.is_ok() != r.is_ok());
    let empty = f.find_value(&path.join(".")).ok().and_then(|v| v.to_empty()).is_some();
    match c.place {
        Place::Alone => { let g = ex::<Either<L, R>>(f, path, c.lossy); one(g.as_ref().ok(), l, r, "either") }
        Place::InOption => {
            let g = ex::<Option<Either<L, R>>>(f, path, c.lossy);
            if empty { ensure!(matches!(g, Ok(None)), "optional either of nothing: {}", dbg(&g)); return Ok(()) }
            one(g.as_ref().ok().and_then(|g| g.as_ref()), l, r, "optional either")
        }
        Place::InTagged => {
            let g = ex::<Tagged<Either<L, R>>>(f, path, c.lossy);
            let own = f.find_value(&path.join(".")).ok();
            if let (Ok(g), Some(v), None) = (&g, &own, &c.wrap) { ensure!(eq(g.tag(), v.tag()), "the wrapper of an either carries {:?}, the value {:?}", g.tag(), v.tag()) }
            if c.wrap.is_some() { return Ok(()) }
            one(g.as_deref_ok(), l, r, "tagged either")
        }
        Place::InVec | Place::InMap | Place::InBoth => {
            let Ok(v) = f.find_value(&path.join(".")) else { return Ok(()) };
            let n = match &v { Value::Array(_, a) => a.len(), _ => 0 };
            if let Some(a) = v.as_array() {
                // Each element on its own: through a figment which has it alone.
                let g = ex::<Vec<Either<L, R>>>(f, path, c.lossy);
                let (ls, rs) = (elements::<L>(f, c, path, n), elements::<R>(f, c, path, n));
                let fails = ls.iter().zip(&rs).any(|(l, r)| l.is_none() && r.is_none());
                ensure!(g.is_err() == fails, "{} eithers: {}, where the alternatives are {} and {}", a.len(), dbg(&g), dbg(&ls), dbg(&rs));
                let Ok(g) = g else { return Ok(()) };
                for (i, ((g, l), r)) in g.iter().zip(ls).zip(rs).enumerate() {
                    match (g, l, r) {
                        (Either::Left(x), Some(l), _) => agree(x, &l).map_err(|e| format!("element {i}: {e}"))?,
                        (Either::Right(x), None, Some(r)) => ensure!(same(x, &r), "element {i}: right {x:?}, on its own {r:?}"),
                        (g, l, r) => return Err(format!("element {i}: {}, where left is {} and right {}", dbg(g), dbg(&l), dbg(&r))),
                    }
                }
                return Ok(());
            }
            let Some(d) = v.as_dict() else { return Ok(()) };
            if d.keys().any(|k| k.is_empty() || k.contains('.')) || d.keys().any(|k| k.starts_with("___")) { return Ok(()) }
            let g = ex::<BTreeMap<String, Either<L, R>>>(f, path, c.lossy);
            let at = |k: &String| { let mut p = path.to_vec(); p.push(k.clone()); p };
            let fails = d.keys().any(|k| ex::<L>(f, &at(k), c.lossy).is_err() && ex::<R>(f, &at(k), c.lossy).is_err());
            ensure!(g.is_err() == fails, "map of eithers: {}", dbg(&g));
            let Ok(g) = g else { return Ok(()) };
            for (k, g) in &g { one(Some(g), ex::<L>(f, &at(k), c.lossy), ex::<R>(f, &at(k), c.lossy), &format!("entry {k}"))? }
            Ok(())
        }
    }
}

trait DerefOk<X> { fn as_deref_ok(&self) -> Option<&X>; }
impl<X> DerefOk<X> for Result<Tagged<X>, Error> { fn as_deref_ok(&self) -> Option<&X> { self.as_ref().ok().map(|t| &**t) } }

/// Each element of the array as an `X`, where that works.
fn elements<X: DeserializeOwned>(f: &Figment, c: &Ei, path: &[String], n: usize) -> Vec<Option<X>> {
    thread_local!(static ONLY: RefCell<usize> = const { RefCell::new(0) });
    struct Nth<X>(Option<X>);
    impl<'de, X: DeserializeOwned> Deserialize<'de> for Nth<X> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Nth<X>, D::Error> {
            struct V<X>(std::marker::PhantomData<X>);
            impl<'de, X: DeserializeOwned> Visitor<'de> for V<X> {
                type Value = Nth<X>;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an array") }
                fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Nth<X>, A::Error> {
                    let n = ONLY.with(|o| *o.borrow());
                    for _ in 0..n { a.next_element::<de::IgnoredAny>()?; }
                    let x = a.next_element::<X>()?;
                    while a.next_element::<de::IgnoredAny>()?.is_some() {}
                    Ok(Nth(x))
                }
            }
            d.deserialize_seq(V(std::marker::PhantomData))
        }
    }
    (0..n).map(|i| { ONLY.with(|o| *o.borrow_mut() = i); ex::<Nth<X>>(f, path, c.lossy).ok().and_then(|x| x.0) }).collect()
}

fn check_either(c: &Ei, cx: &mut Cx) -> Outcome {
    let Run { real, .. } = Run::of(&c.ops);
    if c.path.is_empty() || c.path.iter().any(|k| k.is_empty() || k.contains('.')) { return Ok(()) }
    // Perhaps wrapped once more before it is extracted.
    let f = match c.wrap {
        None => real,
        Some(l) => {
            macro_rules! again { ($t:ty) => { match ex::<$t>(&real, &c.path, false) {
                Ok(x) => {
                    let p = Serialized::defaults(BTreeMap::from([("w", x)]));
                    if c.text && get_plain(&real, &c.path) { Figment::from(Json::string(&Figment::from(p).extract::<Value>().map_err(|e| e.to_string()).and_then(|v| serde_json::to_string(&v).map_err(|e| e.to_string()))?)) } else { Figment::from(p) }
                }
                Err(_) => return Ok(()),
            } } }
            match l { Left::TaggedStr => again!(Tagged<String>), Left::TaggedI64 => again!(Tagged<i64>), Left::TaggedValue => again!(Tagged<Value>), Left::Path => again!(RelativePathBuf), _ => again!(Value) }
        }
    };
    let path: Vec<String> = if c.wrap.is_some() { vec!["w".into()] } else { c.path.clone() };
    macro_rules! left { ($r:ty, $same:expr) => { match c.left {
        Left::TaggedStr => either::<Tagged<String>, $r>(&f, c, &path, $same, cx), Left::TaggedU8 => either::<Tagged<u8>, $r>(&f, c, &path, $same, cx),
        Left::TaggedI64 => either::<Tagged<i64>, $r>(&f, c, &path, $same, cx), Left::TaggedBool => either::<Tagged<bool>, $r>(&f, c, &path, $same, cx),
        Left::TaggedF64 => either::<Tagged<f64>, $r>(&f, c, &path, $same, cx), Left::TaggedVec => either::<Tagged<Vec<i32>>, $r>(&f, c, &path, $same, cx),
        Left::TaggedMap => either::<Tagged<BTreeMap<String, String>>, $r>(&f, c, &path, $same, cx), Left::TaggedStruct => either::<Tagged<St>, $r>(&f, c, &path, $same, cx),
        Left::TaggedOpt => either::<Tagged<Option<char>>, $r>(&f, c, &path, $same, cx), Left::TaggedValue => either::<Tagged<Plain>, $r>(&f, c, &path, $same, cx),
        Left::Path => either::<RelativePathBuf, $r>(&f, c, &path, $same, cx), Left::Value => unreachable!(),
        Left::TaggedPath => either::<Tagged<RelativePathBuf>, $r>(&f, c, &path, $same, cx), Left::TaggedTagged => either::<Tagged<Tagged<u8>>, $r>(&f, c, &path, $same, cx),
    } } }
    match &c.right {
        Right::Ty(t) => with_ty(t, || left!(Dyn, |a: &Dyn, b: &Dyn| dynty::same(&a.0, &b.0))),
        Right::TaggedStr => left!(Tagged<String>, |a: &Tagged<String>, b: &Tagged<String>| **a == **b && eq(a.tag(), b.tag())),
        Right::Path => left!(RelativePathBuf, |a: &RelativePathBuf, b: &RelativePathBuf| a.facts() == b.facts()),
    }
}

/// A value compared by its data.
struct Plain(Value);
impl std::fmt::Debug for Plain { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", MV::of(&self.0)) } }
impl<'de> Deserialize<'de> for Plain { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Plain, D::Error> { <Value as Deserialize>::deserialize(d).map(Plain) } }

fn get_plain(f: &Figment, path: &[String]) -> bool { f.find_value(&path.join(".")).is_ok_and(|v| jsonable(&MV::of(&v))) }

pub fn property() -> Property {
    let _ = Profile::Default;
    Property {
        id: "C17",
        subs: vec![
            Box::new(Sub { name: "trees", quick: 40_000, thorough: 800_000, rule: "wrappers are extracted from data with at least two values", gen, check }),
            Box::new(Sub { name: "fresh", quick: 30_000, thorough: 800_000, rule: "at least two wrappers are provided", gen: gen_fresh, check: check_fresh }),
            Box::new(Sub { name: "typed", quick: 50_000, thorough: 1_000_000, rule: "there is a value at the path", gen: gen_typed, check: check_typed }),
            Box::new(Sub { name: "either", quick: 50_000, thorough: 1_000_000, rule: "exactly one of the alternatives fits", gen: gen_either, check: check_either }),
        ],
        assumptions: &[
            "The right alternative of an either-type, and what is inside the left one, is not itself a wrapper type, and extraction is strict: other combinations are known findings.",
            "Keys of the data are not figment's own internal field names.",
        ],
    }
}
