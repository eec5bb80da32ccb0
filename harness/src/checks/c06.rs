//! All lookup interfaces agree.

use crate::core::*;
use crate::dynty::{self, with_ty, Dyn, Ty};
use crate::gen::*;
use crate::model::*;
use figment::util::nest;
use figment::value::{Dict, Value};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { ops: Vec<Op>, paths: Vec<String> }

/// Same data and the same tags everywhere.
pub fn identical(a: &Value, b: &Value) -> Result<(), String> {
    if a.tag() != b.tag() || a.tag().profile() != b.tag().profile() {
        return Err(format!("tags differ: {:?} and {:?} for {a:?}", a.tag(), b.tag()));
    }
    match (a, b) {
        (Value::Dict(_, a), Value::Dict(_, b)) => {
            if a.keys().ne(b.keys()) { return Err(format!("keys differ: {:?} and {:?}", a.keys(), b.keys())) }
            a.iter().zip(b).try_for_each(|(a, b)| identical(a.1, b.1))
        }
        (Value::Array(_, a), Value::Array(_, b)) => {
            if a.len() != b.len() { return Err(format!("lengths differ: {} and {}", a.len(), b.len())) }
            a.iter().zip(b).try_for_each(|(a, b)| identical(a, b))
        }
        (a, b) => if MV::of(a).same(&MV::of(b)) { Ok(()) } else { Err(format!("values differ: {a:?} and {b:?}")) },
    }
}

fn gen(s: &mut Src) -> Case {
    let ops = history(s, HIST);
    let vis = Run::of(&ops).model.visible_mv().unwrap();
    let paths = vis.paths();
    let n = s.size(1, 6);
    let paths = (0..n).map(|_| {
        if s.chance(1, 12) { return s.pick(&["", ".", "a.", ".a", "a..b", "..", "a.b.", "a.0", "a.b.c.d.e.f"]).to_string() }
        // A path names no key that contains a dot.
        if s.chance(1, 12) { return s.pick(&DOT_KEYS[..]).to_string() }
        path_in(s, &paths).join(".")
    }).collect();
    Case { ops, paths }
}

fn nav<'v>(v: &'v Value, path: &str) -> Option<&'v Value> {
    let mut v = v;
    for k in path.split('.') { v = v.as_dict()?.get(k)?; }
    Some(v)
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let Run { real, model, .. } = Run::of(&c.ops);
    let vis = model.visible_mv().unwrap();
    let whole: Value = real.extract().map_err(|e| format!("extract failed: {e}"))?;
    let dict: Dict = real.extract().map_err(|e| format!("extract failed: {e}"))?;
    let mut found = 0;
    let mut missing = 0;
    for p in &c.paths {
        let there = real.contains(p);
        let find = real.find_value(p);
        ensure_eq!(find.is_ok(), there, "path {p:?}: find_value success against contains");
        let inner = real.extract_inner::<Value>(p);
        ensure_eq!(inner.is_ok(), there, "path {p:?}: extract_inner success against contains");
        let lossy = real.extract_inner_lossy::<Value>(p);
        ensure_eq!(lossy.is_ok(), there, "path {p:?}: extract_inner_lossy success against contains");
        let r = whole.find_ref(p);
        ensure_eq!(r.is_some(), there, "path {p:?}: find_ref on the whole value against contains");
        let o = whole.clone().find(p);
        ensure_eq!(o.is_some(), there, "path {p:?}: find on the whole value against contains");
        let proper = p.split('.').all(|k| !k.is_empty());
        if proper {
            ensure_eq!(real.find_metadata(p).is_some(), there, "path {p:?}: find_metadata against contains");
            let comps: Vec<String> = p.split('.').map(|k| k.to_string()).collect();
            ensure_eq!(vis.get(&comps).is_some(), there, "path {p:?}: contains against the combined data");
            let first = dict.get(&comps[0]);
            let n = first.and_then(|v| if comps.len() == 1 { Some(v) } else { nav(v, &comps[1..].join(".")) });
            ensure_eq!(n.is_some(), there, "path {p:?}: navigating the extracted dictionary against contains");
            if let (Some(n), Ok(f)) = (n, &find) { identical(f, n).map_err(|e| format!("path {p:?}: find_value and the extracted dictionary: {e}"))?; }
            if let (Some(m), Ok(f)) = (vis.get(&comps), &find) {
                ensure!(MV::of(f).same(m), "path {p:?}: found {f:?}, the combined data holds {m:?}");
            }
        }
        if !there { missing += 1; continue }
        found += 1;
        let (find, inner, lossy, r, o) = (find.unwrap(), inner.unwrap(), lossy.unwrap(), r.unwrap(), o.unwrap());
        if proper {
            let md = real.find_metadata(p).unwrap();
            ensure!(Some(md) == real.get_metadata(find.tag()), "path {p:?}: find_metadata gives {md:?}, not the metadata of the value found");
        }
        let same = |v: &Value, what: &str| identical(&find, v).map_err(|e| format!("path {p:?}: find_value and {what}: {e}"));
        if !p.is_empty() && !p.starts_with('.') {
            same(&inner, "extract_inner")?;
            same(&lossy, "extract_inner_lossy")?;
            same(r, "find_ref")?;
            same(&o, "find")?;
        } else {
            ensure!(MV::of(&find).same(&vis), "path {p:?} does not denote the whole value");
            ensure!(MV::of(r).same(&vis) && MV::of(&o).same(&vis) && MV::of(&inner).same(&vis) && MV::of(&lossy).same(&vis), "path {p:?}: not the whole value everywhere");
        }
    }
    cx.hit(found > 0);
    cx.class_if(missing > 0, "with a missing path");
    cx.class_if(c.paths.iter().any(|p| p.contains('.') && whole.find_ref(p).is_some()), "nested path found");
    Ok(())
}

// ------------------------------------------------------------- typed lookups

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Typed { ops: Vec<Op>, path: Vec<String>, ty: Ty }

fn gen_typed(s: &mut Src) -> Typed {
    let ops = history(s, Hist { nesting: 1, ..HIST });
    let vis = Run::of(&ops).model.visible_mv().unwrap();
    let mut path = path_in(s, &vis.paths());
    path.retain(|k| !k.is_empty());
    let ty = match vis.get(&path) {
        // Mostly a type that may fit.
        Some(MV::S(_)) => s.pick(&[Ty::Str, Ty::Bool, Ty::Int(dynty::IK::U8), Ty::F64, Ty::Char, Ty::Opt(Box::new(Ty::Str))]),
        Some(MV::N(_)) => s.pick(&[Ty::Int(dynty::IK::I64), Ty::Int(dynty::IK::U8), Ty::Bool, Ty::F64, Ty::Str]),
        Some(MV::B(_)) => s.pick(&[Ty::Bool, Ty::Str]),
        Some(MV::A(_)) => Ty::Seq(Box::new(dynty::ty(s, 1, false))),
        Some(MV::D(_)) => if s.bool() { Ty::Map(Box::new(dynty::ty(s, 1, false))) } else { dynty::ty(s, 2, false) },
        _ => dynty::ty(s, 1, false),
    };
    Typed { ops, path, ty }
}

fn check_typed(c: &Typed, cx: &mut Cx) -> Outcome {
    if c.path.is_empty() { return Ok(()) }
    let Run { real, .. } = Run::of(&c.ops);
    let p = c.path.join(".");
    let here = real.contains(&p);
    let outer = c.path.iter().rev().fold(c.ty.clone(), |t, k| Ty::Struct(vec![(k.clone(), t)], false));
    let unwrap = |v: Dyn| {
        let mut v = v.0;
        for _ in &c.path { v = match v { dynty::DV::Fields(mut f) => f.remove(0), v => v }; }
        v
    };
    let mut ok = false;
    for lossy in [false, true] {
        let how = if lossy { "lossy" } else { "strict" };
        let inner = with_ty(&c.ty, || if lossy { real.extract_inner_lossy::<Dyn>(&p) } else { real.extract_inner::<Dyn>(&p) });
        let whole = with_ty(&outer, || if lossy { real.extract_lossy::<Dyn>() } else { real.extract::<Dyn>() });
        if !here {
            ensure!(inner.is_err(), "{how}: extract_inner({p:?}) gives {inner:?} though the key is absent");
            continue;
        }
        match (inner, whole) {
            (Ok(a), Ok(b)) => {
                let b = unwrap(b);
                ensure!(dynty::same(&a.0, &b), "{how}: extract_inner({p:?}) gives {:?} but extracting the whole gives {b:?}", a.0);
                ok = true;
            }
            (Err(a), Err(b)) => ensure_eq!(a.kind.to_string(), b.kind.to_string(), "{how}: extract_inner({p:?}) fails differently from extracting the whole"),
            (Ok(a), Err(b)) => return Err(format!("{how}: extract_inner({p:?}) gives {:?} but extracting the whole fails: {b}", a.0)),
            (Err(a), Ok(b)) => return Err(format!("{how}: extract_inner({p:?}) fails: {a}, but extracting the whole gives {:?}", b.0)),
        }
    }
    cx.hit(ok);
    Ok(())
}

// ------------------------------------------------------------------- nesting

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Nest { key: Vec<String>, value: MV, other: Vec<String> }

fn gen_nest(s: &mut Src) -> Nest {
    Nest { key: s.vec(1, 6, 2, pkey), value: tree(s, Shape { depth: 3, ..FULL }), other: s.vec(1, 6, 2, pkey) }
}

fn check_nest(c: &Nest, cx: &mut Cx) -> Outcome {
    if c.key.iter().chain(&c.other).any(|k| k.is_empty() || k.contains('.')) { return Ok(()) }
    let k = c.key.join(".");
    let n = nest(&k, c.value.value());
    let f = n.find_ref(&k).ok_or_else(|| format!("a value nested under {k:?} is not found there"))?;
    ensure!(MV::of(f).same(&c.value), "a value nested under {k:?} is {f:?} there, expected {:?}", c.value);
    let o = n.clone().find(&k).ok_or_else(|| format!("a value nested under {k:?} is not found there by value"))?;
    ensure!(MV::of(&o).same(&c.value), "a value nested under {k:?} is {o:?} there");
    let want = c.key.iter().rev().fold(c.value.clone(), |v, k| MV::D([(k.clone(), v)].into()));
    ensure!(MV::of(&n).same(&want), "nest({k:?}) gives {n:?}, expected {want:?}");
    let p = c.other.join(".");
    ensure_eq!(n.find_ref(&p).map(|v| dbg(&MV::of(v))), want.get(&c.other).map(|v| dbg(v)), "looking up {p:?} in a value nested under {k:?}");
    for i in 1..c.key.len() {
        let p = c.key[..i].join(".");
        let v = n.find_ref(&p).ok_or_else(|| format!("{p:?} is missing in a value nested under {k:?}"))?;
        ensure!(MV::of(v).same(want.get(&c.key[..i].to_vec()).unwrap()), "{p:?} in a value nested under {k:?} is {v:?}");
    }
    cx.hit(c.key.len() >= 2);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C06",
        subs: vec![
            Box::new(Sub { name: "agree", quick: 120_000, thorough: 4_000_000, gen, check,
                rule: "random histories and up to six dotted paths each (existing, near misses, empty components); contains, find_value, find_metadata, extract_inner (strict, lossy), find and find_ref on the whole value, and key-by-key navigation; non-trivial: some path exists" }),
            Box::new(Sub { name: "typed", quick: 60_000, thorough: 2_000_000, gen: gen_typed, check: check_typed,
                rule: "a path and a generated type: keyed extraction against extracting the whole as nested structures, strict and lossy; non-trivial: extraction succeeds" }),
            Box::new(Sub { name: "nest", quick: 60_000, thorough: 1_000_000, gen: gen_nest, check: check_nest,
                rule: "values nested under dotted keys of up to six components; non-trivial: two components or more" }),
        ],
        assumptions: &["paths with empty components are only required to be treated alike by all interfaces"],
    }
}
