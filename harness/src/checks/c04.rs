//! Extraction errors name the offending key, provider and profile.

use crate::core::*;
use crate::dynty::{self, with_ty, Dyn, Ty, Var, DV, IK};
use crate::gen::*;
use crate::model::*;
use figment::error::Kind as EK;
use figment::value::Value;
use figment::{Error, Figment};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Want {
    /// Offending value here: path, what went wrong.
    At(What),
    /// The named field is missing.
    Missing(String),
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum What { Type, Range, Custom, Variant, VariantKey, Field, Length }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case {
    ty: Ty,
    /// The faulty tree, without the prefix.
    tree: MV,
    want: Want,
    path: Vec<String>,
    prefix: Vec<String>,
    ops: Vec<Op>,
    select: String,
}

struct Fault { at: Vec<String>, path: Vec<String>, new: Option<MV>, want: Want }

fn wrong(s: &mut Src, t: &Ty) -> MV {
    let int = MV::int(7);
    let text = MV::s("maybe");
    let opts: Vec<MV> = match t {
        Ty::Bool => vec![text, int, MV::A(vec![]), MV::D([].into()), MV::None, MV::N(N::f64(0.5)), MV::C('y')],
        Ty::Int(_) | Ty::Picky => vec![text, MV::B(true), MV::A(vec![int]), MV::D([].into()), MV::None, MV::N(N::f64(0.5)), MV::C('x'), MV::Unit],
        Ty::F32 | Ty::F64 => vec![text, MV::B(true), MV::A(vec![int]), MV::D([].into()), MV::None, MV::C('x')],
        Ty::Char => vec![MV::s("long"), int, MV::B(false), MV::A(vec![]), MV::D([].into()), MV::Unit],
        Ty::Str | Ty::Path => vec![int.clone(), MV::B(false), MV::A(vec![text]), MV::D([("a".into(), int.clone())].into()), MV::None, MV::N(N::f64(1.5))],
        Ty::Bytes => vec![int, MV::B(true), MV::D([].into()), MV::None],
        Ty::Unit | Ty::UnitStruct => vec![int, text, MV::B(false), MV::A(vec![]), MV::D([].into())],
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t) => return loop {
            let w = wrong(s, t);
            if !matches!(w, MV::None | MV::Unit) { break w }
        },
        Ty::Seq(_) => vec![int, text, MV::B(true), MV::D([].into()), MV::None],
        Ty::Tuple(_) | Ty::TupleStruct(_) => vec![int, text, MV::B(true), MV::D([].into()), MV::Unit],
        Ty::Map(_) => vec![int, text, MV::B(true), MV::A(vec![]), MV::None],
        Ty::Struct(..) => vec![int, text, MV::B(true), MV::N(N::f64(2.5)), MV::None],
        Ty::Enum(_) => vec![MV::B(true), MV::A(vec![]), MV::None, MV::N(N::f64(2.5)), MV::D([].into())],
    };
    s.pick(&opts)
}

fn out_of_range(s: &mut Src, k: IK) -> Option<MV> {
    let (lo, hi): (Option<i128>, Option<i128>) = match k {
        IK::U8 => (Some(-1), Some(256)), IK::U16 => (Some(-1), Some(65536)), IK::U32 => (Some(-1), Some(1 << 32)),
        IK::U64 | IK::Usize => (Some(-1), Some(1 << 64)), IK::U128 => (Some(-1), None),
        IK::I8 => (Some(-129), Some(128)), IK::I16 => (Some(-32769), Some(32768)), IK::I32 => (Some(-(1 << 31) - 1), Some(1 << 31)),
        IK::I64 | IK::Isize => (Some(-(1 << 63) - 1), Some(1 << 63)), IK::I128 => (None, None),
    };
    let v = match (lo, hi) {
        (Some(l), Some(h)) => if s.bool() { l } else { h },
        (Some(l), None) => l,
        _ => return None,
    };
    // Only widths every integer target reports as an out-of-range integer.
    if i64::try_from(v).is_ok() { Some(MV::N(num_kind(s, v))) } else if v > 0 && u64::try_from(v).is_ok() { Some(MV::N(N::U64(v as u64))) } else { None }
}

/// Every way of breaking the tree `m` of type `t` in one place.
fn faults(s: &mut Src, t: &Ty, m: &MV, at: &[String], out: &mut Vec<Fault>) {
    let push = |at: &[String], k: &str| { let mut p = at.to_vec(); p.push(k.to_string()); p };
    let here = |new: MV, what: What| Fault { at: at.to_vec(), path: at.to_vec(), new: Some(new), want: Want::At(what) };
    if !at.is_empty() { let w = wrong(s, t); out.push(here(w, What::Type)) }
    match (t, m) {
        (Ty::Int(k), _) => if let (Some(v), false) = (out_of_range(s, *k), at.is_empty()) { out.push(here(v, What::Range)) },
        (Ty::Picky, _) => if !at.is_empty() { out.push(here(MV::int(100 + s.below(50) as i64), What::Custom)) },
        (Ty::Opt(_), MV::None) => {}
        (Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t), m) => {
            let mut inner = vec![];
            faults(s, t, m, at, &mut inner);
            // Setting an optional value to nothing is not a fault.
            inner.retain(|f| f.at != at || !matches!(f.new, Some(MV::None | MV::Unit)));
            out.extend(inner);
        }
        (Ty::Seq(t), MV::A(a)) => for (i, v) in a.iter().enumerate() { faults(s, t, v, &push(at, &i.to_string()), out) },
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), MV::A(a)) => {
            for (i, (t, v)) in ts.iter().zip(a).enumerate() { faults(s, t, v, &push(at, &i.to_string()), out) }
            if !at.is_empty() && !a.is_empty() { out.push(here(MV::A(a[..a.len() - 1].to_vec()), What::Length)) }
        }
        (Ty::Map(t), MV::D(d)) => for (k, v) in d { faults(s, t, v, &push(at, k), out) },
        (Ty::Struct(fs, strict), MV::D(d)) => {
            for (k, t) in fs {
                faults(s, t, &d[k], &push(at, k), out);
                if !matches!(t, Ty::Opt(_)) {
                    out.push(Fault { at: push(at, k), path: at.to_vec(), new: None, want: Want::Missing(k.clone()) });
                }
            }
            if *strict {
                let k = format!("{}?", key(s));
                let mut d = d.clone();
                d.insert(k.clone(), scalar(s, FULL));
                out.push(Fault { at: at.to_vec(), path: push(at, &k), new: Some(MV::D(d)), want: Want::At(What::Field) });
            }
        }
        (Ty::Enum(vs), MV::D(d)) => {
            let (name, v) = d.iter().next().unwrap();
            let var = &vs.iter().find(|x| x.0 == *name).unwrap().1;
            let at2 = push(at, name);
            match (var, v) {
                (Var::Newtype(t), v) => faults(s, t, v, &at2, out),
                (Var::Tuple(ts), MV::A(a)) => {
                    for (i, (t, v)) in ts.iter().zip(a).enumerate() { faults(s, t, v, &push(&at2, &i.to_string()), out) }
                    if !a.is_empty() { out.push(Fault { at: at2.clone(), path: at2.clone(), new: Some(MV::A(a[..a.len() - 1].to_vec())), want: Want::At(What::Length) }); }
                    out.push(Fault { at: at2.clone(), path: at2.clone(), new: Some(MV::int(3)), want: Want::At(What::Type) });
                }
                (Var::Struct(fs), MV::D(d)) => {
                    for (k, t) in fs {
                        faults(s, t, &d[k], &push(&at2, k), out);
                        if !matches!(t, Ty::Opt(_)) {
                            out.push(Fault { at: push(&at2, k), path: at2.clone(), new: None, want: Want::Missing(k.clone()) });
                        }
                    }
                    out.push(Fault { at: at2.clone(), path: at2.clone(), new: Some(MV::B(true)), want: Want::At(What::Type) });
                }
                _ => {}
            }
            if !at.is_empty() {
                out.push(Fault { at: at.to_vec(), path: push(at, "no such variant"), new: Some(MV::D([("no such variant".into(), v.clone())].into())), want: Want::At(What::VariantKey) });
                out.push(here(MV::s("no such variant"), What::Variant));
            }
        }
        (Ty::Enum(_), _) => if !at.is_empty() { out.push(here(MV::s("no such variant"), What::Variant)) },
        _ => {}
    }
}

fn replace(m: &mut MV, at: &[String], new: Option<MV>) {
    let Some((k, rest)) = at.split_first() else { *m = new.expect("not removing the root"); return };
    match m {
        MV::D(d) => if rest.is_empty() && new.is_none() { d.remove(k); } else { replace(d.get_mut(k).unwrap(), rest, new) },
        MV::A(a) => replace(&mut a[k.parse::<usize>().unwrap()], rest, new),
        _ => unreachable!(),
    }
}

/// Splits a tree over providers, each with its profile's layer (0, 1 or 2),
/// so that combining them (admerge) gives the tree back.
pub fn distribute(s: &mut Src, m: &MV, layers: &[u8]) -> Vec<Option<MV>> {
    let n = layers.len();
    let mut out: Vec<Option<MV>> = vec![None; n];
    let order = |i: usize| (layers[i], i);
    match m {
        MV::D(d) if !d.is_empty() && !s.chance(1, 5) => {
            for (k, v) in d {
                for (i, p) in distribute(s, v, layers).into_iter().enumerate() {
                    if let Some(p) = p {
                        match out[i].get_or_insert_with(|| MV::D(MDict::new())) { MV::D(o) => { o.insert(k.clone(), p); } _ => unreachable!() }
                    }
                }
            }
        }
        _ => {
            let owner = s.below(n);
            if let MV::A(a) = m {
                let mates: Vec<usize> = (owner + 1..n).filter(|j| layers[*j] == layers[owner]).collect();
                if a.len() >= 2 && !mates.is_empty() && s.chance(2, 3) {
                    let j = s.pick(&mates);
                    let cut = s.size(1, a.len() - 1);
                    out[owner] = Some(MV::A(a[..cut].to_vec()));
                    out[j] = Some(MV::A(a[cut..].to_vec()));
                    return out;
                }
            }
            out[owner] = Some(m.clone());
            if s.chance(1, 4) {
                let lower: Vec<usize> = (0..n).filter(|j| order(*j) < order(owner)).collect();
                if !lower.is_empty() { let j = s.pick(&lower); out[j] = Some(scalar(s, FULL)); }
            }
        }
    }
    out
}

/// Providers that supply `tree` together, under the selected profile.
pub fn providers(s: &mut Src, tree: &MV, select: &str) -> Vec<Op> {
    let custom = !select.eq_ignore_ascii_case("default") && !select.eq_ignore_ascii_case("global");
    let n = s.size(1, 4);
    let layers: Vec<u8> = (0..n).map(|_| match s.weighted(&[3, 2, 1]) { 0 => 0, 1 if custom => 1, 1 => 0, _ => 2 }).collect();
    let parts = distribute(s, tree, &layers);
    let mut ops = vec![];
    for (l, p) in layers.iter().zip(parts) {
        let data = match p { Some(MV::D(d)) => d, _ => MDict::new() };
        let profile = match l { 0 => "default".to_string(), 1 => select.to_string(), _ => "global".into() };
        let kind = match s.weighted(&[3, 3, 2]) {
            0 => Kind::Serialized { data, profile, key: None },
            1 => Kind::Custom { data: vec![(profile, data)], profile: None },
            _ => Kind::Nested(vec![Op::Provide { strat: strat(s), kind: Kind::Serialized { data, profile, key: None }, by_ref: s.bool() }]),
        };
        ops.push(Op::Provide { strat: Strat::Admerge, kind, by_ref: s.chance(1, 4) });
        // Data nobody looks at.
        if s.chance(1, 6) {
            ops.push(Op::Provide { strat: strat(s), kind: Kind::Custom { data: vec![("unrelated".into(), mdict(s, FULL))], profile: None }, by_ref: false });
        }
    }
    ops.push(Op::Select(select.to_string()));
    ops
}

pub fn wrap(prefix: &[String], m: MV) -> MV {
    prefix.iter().rev().fold(m, |m, k| MV::D([(k.clone(), m)].into()))
}

fn gen(s: &mut Src) -> Case {
    let root = s.weighted(&[3, 1, 1]);
    let (ty, prefix) = match root {
        0 => (Ty::Struct(dynty::fields(s, 3, true), s.chance(1, 3)), vec![]),
        1 => (Ty::Struct(dynty::fields(s, 2, true), s.chance(1, 3)), vec![pkey(s), pkey(s)]),
        _ => (dynty::ty(s, 3, true), s.vec(1, 3, 1, |s| pkey(s))),
    };
    let v: DV = dynty::value(s, &ty);
    let mut tree = dynty::to_mv(&ty, &v);
    let mut ty = ty;
    if s.chance(1, 12) {
        let n = s.size(3, 16);
        for i in 0..n {
            let k = pkey(s);
            (ty, tree) = match s.below(if i + 1 == n { 2 } else { 4 }) {
                0 => (Ty::Struct(vec![(k.clone(), ty)], false), MV::D([(k, tree)].into())),
                1 => (Ty::Map(Box::new(ty)), MV::D([(k, tree)].into())),
                2 => (Ty::Seq(Box::new(ty)), MV::A(vec![tree])),
                _ => (Ty::Opt(Box::new(ty)), tree),
            };
        }
    }
    let mut all = vec![];
    // Faults at the root of the extracted value only make sense under a prefix.
    if prefix.is_empty() {
        faults(s, &ty, &tree, &[], &mut all);
    } else {
        faults(s, &ty, &tree, &["".to_string()], &mut all);
        for f in &mut all { f.at.remove(0); f.path.remove(0); }
    }
    let (want, path);
    if all.is_empty() {
        // Nothing can go wrong in an empty structure but its being absent.
        want = Want::Missing(String::new());
        path = vec![];
    } else {
        let i = s.below(all.len());
        let f = all.swap_remove(i);
        replace(&mut tree, &f.at, f.new);
        want = f.want;
        path = f.path;
    }
    let select = s.pick(&["default", "debug", "Release", "global", "staging"]).to_string();
    let whole = wrap(&prefix, tree.clone());
    let ops = providers(s, &whole, &select);
    Case { ty, tree, want, path, prefix, ops, select }
}

/// Follows keys and indices.
pub fn pv_at<'a>(v: &'a PV, path: &[String]) -> Option<&'a PV> {
    match path.split_first() {
        None => Some(v),
        Some((k, rest)) => match &v.node {
            PNode::D(d) => pv_at(d.get(k)?, rest),
            PNode::A(a) => pv_at(a.get(k.parse::<usize>().ok()?)?, rest),
            _ => None,
        },
    }
}

fn judge(c: &Case, e: &Error, model: &MFig, full: &[String], path: &[String], how: &str, attributed: bool) -> Outcome {
    let shown = format!("{how}: error `{e}` ({:?})", e.kind);
    ensure!(e.count() == 1, "{shown} is a chain of {}", e.count());
    match &c.want {
        Want::Missing(f) => {
            ensure!(e.missing() && matches!(&e.kind, EK::MissingField(n) if n == f), "{shown} does not say that field {f:?} is missing");
            ensure!(e.path == path, "{shown} has path {:?}, expected that of the structure missing it: {:?}", e.path, path);
        }
        Want::At(what) => {
            let kind_ok = match what {
                What::Type => matches!(e.kind, EK::InvalidType(..) | EK::InvalidValue(..) | EK::InvalidLength(..)),
                What::Range => matches!(e.kind, EK::InvalidValue(..)),
                What::Custom => matches!(&e.kind, EK::Message(m) if m.starts_with("picky rejects")),
                What::Variant | What::VariantKey => matches!(&e.kind, EK::UnknownVariant(n, _) if n == "no such variant"),
                What::Field => matches!(&e.kind, EK::UnknownField(n, _) if Some(n) == path.last()),
                What::Length => matches!(e.kind, EK::InvalidLength(..)),
            };
            ensure!(kind_ok, "{shown} is not the expected kind for {what:?}");
            ensure!(e.path == path, "{shown} has path {:?}, expected {:?}", e.path, path);
            if !attributed { return Ok(()) }
            let visible = PV { node: PNode::D(model.visible().unwrap()), from: Default::default() };
            let pv = pv_at(&visible, full).ok_or("harness: no such place")?;
            let md = e.metadata.as_ref().ok_or_else(|| format!("{shown} has no metadata"))?;
            let prof = e.profile.as_ref().ok_or_else(|| format!("{shown} has no profile"))?.to_string();
            let sel = &model.selected;
            let ok = pv.from.iter().any(|(id, p)| md.name == prov_name(*id) && (
                if p == "default" || p == "global" { prof.eq_ignore_ascii_case(p) } else { prof.eq_ignore_ascii_case(sel) }));
            ensure!(ok, "{shown} is attributed to {:?} profile {prof:?}, expected one of {:?}", md.name, pv.from);
            let text = e.to_string();
            ensure!(text.contains(&md.name.to_string()) , "{shown}: printed without the provider");
        }
    }
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    if matches!(&c.want, Want::Missing(f) if f.is_empty()) { return Ok(()) }
    let Run { real, model, .. } = Run::of(&c.ops);
    let whole = wrap(&c.prefix, c.tree.clone());
    let vis = model.visible_mv().unwrap();
    // Lower layers may show through next to an empty dictionary; those trees are not the intended ones.
    if !vis.same(&whole) { cx.class("layers did not give the intended tree"); return Ok(()) }
    let full: Vec<String> = c.prefix.iter().chain(&c.path).cloned().collect();

    let outer = c.prefix.iter().rev().fold(c.ty.clone(), |t, k| Ty::Struct(vec![(k.clone(), t)], false));
    macro_rules! fails { ($t:expr, $e:expr, $how:expr, $path:expr, $attr:expr) => {
        match with_ty($t, || $e) {
            Ok(v) => { let v: Dyn = v; return Err(format!("{}: extraction of {:?} gave {:?}", $how, c.want, v.0)) }
            Err(e) => judge(c, &e, &model, &full, $path, $how, $attr)?,
        }
    } }
    fails!(&outer, real.extract(), "extract", &full, true);
    fails!(&outer, real.extract_lossy(), "extract_lossy", &full, true);
    let clone = Figment::new().merge(&real);
    fails!(&outer, clone.extract(), "extract from a figment holding it", &full, true);
    for i in 1..=c.prefix.len() {
        let p = c.prefix[..i].join(".");
        let t = c.prefix[i..].iter().rev().fold(c.ty.clone(), |t, k| Ty::Struct(vec![(k.clone(), t)], false));
        fails!(&t, real.extract_inner(&p), "extract_inner", &full, true);
        fails!(&t, real.extract_inner_lossy(&p), "extract_inner_lossy", &full, true);
    }
    let v: Value = real.extract().map_err(|e| format!("extracting the value failed: {e}"))?;
    // Outside a figment there is no metadata for tagged values.
    let tagged = c.ty.has(&|t| matches!(t, Ty::Tagged(_) | Ty::Path));
    if !tagged { fails!(&outer, v.deserialize(), "Value::deserialize", &full, false) }
    cx.class_if(tagged, "tagged wrappers");

    cx.hit(matches!(c.want, Want::At(_)));
    cx.class_if(matches!(c.want, Want::Missing(_)), "missing field");
    cx.class_if(!c.prefix.is_empty(), "keyed extraction");
    if let Want::At(w) = c.want {
        cx.class(match w {
            What::Type => "wrong type", What::Range => "integer out of range", What::Custom => "custom message",
            What::Variant => "unknown variant", What::VariantKey => "unknown variant key", What::Field => "unknown field", What::Length => "short tuple",
        });
        let origins = { fn go(v: &PV, o: &mut std::collections::BTreeSet<usize>) { match &v.node {
            PNode::D(d) => d.values().for_each(|v| go(v, o)), PNode::A(a) => a.iter().for_each(|v| go(v, o)), _ => { o.extend(v.from.iter().map(|f| f.0)); } } }
            let mut o = Default::default(); go(&PV { node: PNode::D(model.visible().unwrap()), from: Default::default() }, &mut o); o.len() };
        cx.class_if(origins >= 2, "several providers visible");
        cx.class_if(c.path.iter().any(|k| k.parse::<usize>().is_ok()), "inside an array");
    }
    Ok(())
}

// ------------------------------------------------------------- absent keys

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Absent { ops: Vec<Op>, path: Vec<String> }

fn gen_absent(s: &mut Src) -> Absent {
    let ops = history(s, HIST);
    let vis = Run::of(&ops).model.visible_mv().unwrap();
    Absent { path: path_in(s, &vis.paths()), ops }
}

fn check_absent(c: &Absent, cx: &mut Cx) -> Outcome {
    let Run { real, model, .. } = Run::of(&c.ops);
    if c.path.iter().any(|k| k.is_empty()) { return Ok(()) }
    if model.visible_mv().unwrap().get(&c.path).is_some() { return Ok(()) }
    let p = c.path.join(".");
    macro_rules! fails { ($e:expr, $how:expr) => { match $e {
        Ok(v) => return Err(format!("{}({p:?}) gives {v:?} although no such key exists", $how)),
        Err(e) => {
            ensure!(e.missing() && matches!(&e.kind, EK::MissingField(f) if *f == p), "{}({p:?}) reports `{}` ({:?})", $how, e, e.kind);
            ensure!(e.count() == 1, "{}({p:?}) reports {} errors", $how, e.count());
        }
    } } }
    fails!(real.find_value(&p), "find_value");
    fails!(real.extract_inner::<Value>(&p), "extract_inner");
    fails!(real.extract_inner_lossy::<Value>(&p), "extract_inner_lossy");
    fails!(real.extract_inner::<Option<u8>>(&p), "extract_inner of an option");
    cx.hit(c.path.len() >= 2);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C04",
        subs: vec![
            Box::new(Sub { name: "fault", quick: 240_000, thorough: 6_000_000, gen, check,
                rule: "a generated serde type and a matching tree with exactly one fault (wrong type, out of range, custom rejection, unknown variant or field, short tuple, missing field), its leaves spread over up to four providers in up to three profiles with overridden decoys and arrays split between providers; extracted whole, by every key prefix, strict and lossy, and from a plain value; non-trivial: there is an offending value" }),
            Box::new(Sub { name: "absent", quick: 60_000, thorough: 1_000_000, gen: gen_absent, check: check_absent,
                rule: "random histories and paths that do not exist; non-trivial: two components or more" }),
        ],
        assumptions: &["a dictionary or array combining several providers may be attributed to any of them"],
    }
}
