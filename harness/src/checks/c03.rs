//! Attribution of every value.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::value::{Dict, Value};
use figment::Figment;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { ops: Vec<Op>, select: Option<String>, then: Then, key: Vec<String> }

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Then { Nothing, Clone, NestMerge, NestJoin, NestTwice, Focus }

fn gen(s: &mut Src) -> Case {
    let ops = history(s, Hist { nesting: 3, ..HIST });
    let select = if s.bool() { Some(profile(s)) } else { None };
    let then = s.pick(&[Then::Nothing, Then::Clone, Then::NestMerge, Then::NestJoin, Then::NestTwice, Then::Focus]);
    let key = if then == Then::Focus { s.vec(1, 2, 1, |s| s.pick(&KEYS[..3]).to_string()) } else { vec![] };
    Case { ops, select, then, key }
}

fn check_all(f: &Figment, m: &MFig) -> Result<usize, String> {
    let want = m.visible().unwrap();
    let v: Value = f.extract().map_err(|e| format!("extraction failed: {e}"))?;
    let d = v.as_dict().ok_or("extracted value is not a dictionary")?;
    for (k, pv) in &want {
        let v = d.get(k).ok_or_else(|| format!("`{k}` is missing"))?;
        check_tags(f, v, pv, &m.selected, k)?;
    }
    let d: Dict = f.extract().map_err(|e| format!("extraction failed: {e}"))?;
    for (k, pv) in &want { check_tags(f, &d[k], pv, &m.selected, k)?; }

    let mut n = 0;
    for path in MV::D(pdict_mv(&want)).paths() {
        if path.iter().any(|k| k.is_empty() || k.contains('.')) { continue }
        let p = path.join(".");
        let pv = want[&path[0]].get(&path[1..]).unwrap();
        let v = f.find_value(&p).map_err(|e| format!("find_value({p:?}) failed: {e}"))?;
        check_tags(f, &v, pv, &m.selected, &p)?;
        let inner: Value = f.extract_inner(&p).map_err(|e| format!("extract_inner({p:?}) failed: {e}"))?;
        check_tags(f, &inner, pv, &m.selected, &p)?;
        let md = f.find_metadata(&p).ok_or_else(|| format!("find_metadata({p:?}) is None"))?;
        ensure!(pv.from.iter().any(|(id, _)| md.name == prov_name(*id)),
            "find_metadata({p:?}) is {:?}, expected one of {:?}", md.name, pv.from);
        n += 1;
    }
    Ok(n)
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let Run { mut real, mut model, next, .. } = Run::of(&c.ops);
    if let Some(p) = &c.select {
        real = real.select(p);
        model.selected = p.clone();
    }
    let n = check_all(&real, &model)?;
    let wrap = |f: Figment, k: usize| Named { inner: f, name: prov_name(next + k) };
    match c.then {
        Then::Nothing => {}
        Then::Clone => {
            let c = real.clone();
            drop(real);
            check_all(&c, &model).map_err(|e| format!("in a clone: {e}"))?;
        }
        Then::NestMerge => {
            let f = Figment::new().merge(wrap(real, 0));
            check_all(&f, &model).map_err(|e| format!("merged into an empty figment: {e}"))?;
        }
        Then::NestJoin => {
            let f = Figment::new().join(wrap(real, 0)).select(&model.selected);
            check_all(&f, &model).map_err(|e| format!("joined into an empty figment: {e}"))?;
        }
        Then::NestTwice => {
            let f = Figment::new().merge(wrap(Figment::new().admerge(wrap(real, 0)), 1));
            check_all(&f, &model).map_err(|e| format!("nested twice: {e}"))?;
        }
        Then::Focus => {
            // Focus every profile's data in the model, when nothing shadows it.
            let key = c.key.join(".");
            let f = real.focus(&key);
            let data = model.data.clone().unwrap();
            let mut focused = std::collections::BTreeMap::new();
            for (p, d) in data {
                let whole = PV { node: PNode::D(d), from: Default::default() };
                if let Some(PV { node: PNode::D(d), .. }) = whole.get(&c.key) { focused.insert(p, d.clone()); }
            }
            let m = MFig { data: Ok(focused), ..model };
            check_all(&f, &m).map_err(|e| format!("focused on {key:?}: {e}"))?;
        }
    }
    cx.hit(n >= 2 && provides(&c.ops) >= 2);
    cx.class_if(c.then == Then::Focus, "focused");
    cx.class_if(c.ops.iter().any(|o| matches!(o, Op::Provide { kind: Kind::Nested(_), .. })), "nested figment");
    Ok(())
}

/// Arrays concatenated from many providers: every element keeps its own.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Arrays { parts: Vec<(Strat, String, MV)>, deep: bool, select: String }

fn gen_arrays(s: &mut Src) -> Arrays {
    let sh = Shape { depth: 2, width: 3, plain: false, odd_keys: false };
    let parts = s.vec(1, 8, 4, |s| {
        let st = if s.chance(1, 5) { strat(s) } else { s.pick(&[Strat::Admerge, Strat::Adjoin]) };
        let p = s.pick(&["default", "global", "debug"]).to_string();
        let v = if s.chance(1, 8) { tree(s, sh) } else { MV::A(s.vec(0, 4, 2, |s| tree(s, sh))) };
        (st, p, v)
    });
    Arrays { parts, deep: s.bool(), select: s.pick(&["default", "debug", "global", "DEBUG"]).into() }
}

fn check_arrays(c: &Arrays, cx: &mut Cx) -> Outcome {
    let mut ops: Vec<Op> = c.parts.iter().map(|(st, p, v)| {
        let data: MDict = if c.deep {
            [("x".to_string(), MV::D([("xs".to_string(), v.clone())].into()))].into()
        } else {
            [("xs".to_string(), v.clone())].into()
        };
        Op::Provide { strat: *st, kind: Kind::Serialized { data, profile: p.clone(), key: None }, by_ref: false }
    }).collect();
    ops.push(Op::Select(c.select.clone()));
    let run = Run::of(&ops);
    check_all(&run.real, &run.model)?;
    let concat = run.model.visible().unwrap().values().any(|v| {
        let path = if c.deep { vec!["xs".to_string()] } else { vec![] };
        v.get(&path).map_or(false, |v| match &v.node {
            PNode::A(a) => a.windows(2).any(|w| w[0].from != w[1].from),
            _ => false,
        })
    });
    cx.hit(concat);
    Ok(())
}

/// A figment's own values, edited and provided to it again along with new ones.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Derived { ops: Vec<Op>, edits: Vec<(Vec<usize>, Edit)>, strat: Strat, profile: String, select: Option<String>, nest: bool, again: bool }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Edit { Add(String, MV), Drop, WrapArray(MV), WrapDict(String, Option<MV>), Replace(MV), Clear }

fn gen_derived(s: &mut Src) -> Derived {
    let sh = Shape { depth: 2, width: 3, plain: false, odd_keys: false };
    Derived {
        ops: history(s, HIST),
        edits: s.vec(1, 6, 3, |s| {
            let at = s.vec(0, 4, 2, |s| s.below(6));
            let e = match s.weighted(&[6, 1, 2, 2, 1, 1]) {
                0 => Edit::Add(key(s), tree(s, sh)), 1 => Edit::Drop, 2 => Edit::WrapArray(tree(s, sh)),
                3 => Edit::WrapDict(key(s), if s.bool() { Some(tree(s, sh)) } else { None }), 4 => Edit::Replace(tree(s, sh)), _ => Edit::Clear,
            };
            (at, e)
        }),
        strat: strat(s), profile: profile(s), select: if s.bool() { Some(profile(s)) } else { None }, nest: s.chance(1, 4), again: s.chance(1, 4),
    }
}

/// Edits a value and its model alike; what is new is `o`'s.
fn edit(v: &mut Value, m: &mut PV, at: &[usize], e: &Edit, o: &Origin) {
    use figment::value::Tag;
    if let Some((i, rest)) = at.split_first() {
        match (&mut *v, &mut m.node) {
            (Value::Dict(_, d), PNode::D(md)) if !d.is_empty() => {
                let k = d.keys().nth(i % d.len()).unwrap().clone();
                if rest.is_empty() && matches!(e, Edit::Drop) { d.remove(&k); md.remove(&k); return }
                return edit(d.get_mut(&k).unwrap(), md.get_mut(&k).unwrap(), rest, e, o);
            }
            (Value::Array(_, a), PNode::A(ma)) if !a.is_empty() => {
                let i = i % a.len();
                if rest.is_empty() && matches!(e, Edit::Drop) { a.remove(i); ma.remove(i); return }
                return edit(&mut a[i], &mut ma[i], rest, e, o);
            }
            _ => {}
        }
    }
    let new = |v: &MV| (v.value(), PV::new(v, o));
    match e {
        Edit::Drop => {}
        Edit::Add(k, x) => match (v, &mut m.node) {
            (Value::Dict(_, d), PNode::D(md)) => { let (a, b) = new(x); d.insert(k.clone(), a); md.insert(k.clone(), b); }
            (Value::Array(_, d), PNode::A(md)) => { let (a, b) = new(x); d.push(a); md.push(b); }
            (v, _) => { let (a, b) = new(x); *v = a; *m = b; }
        },
        Edit::Replace(x) => { let (a, b) = new(x); *v = a; *m = b; }
        Edit::Clear => match (v, &mut m.node) {
            (Value::Dict(_, d), PNode::D(md)) => { d.clear(); md.clear(); }
            (Value::Array(_, d), PNode::A(md)) => { d.clear(); md.clear(); }
            _ => {}
        },
        Edit::WrapArray(x) => {
            let (a, b) = new(x);
            let (old, mold) = (v.clone(), m.clone());
            *v = Value::Array(Tag::Default, vec![old, a]);
            *m = PV { node: PNode::A(vec![mold, b]), from: [o.clone()].into() };
        }
        Edit::WrapDict(k, x) => {
            let (mut d, mut md) = (Dict::new(), PDict::new());
            d.insert(k.clone(), v.clone()); md.insert(k.clone(), m.clone());
            if let Some(x) = x { let (a, b) = new(x); d.insert("new".into(), a); md.insert("new".into(), b); }
            *v = Value::Dict(Tag::Default, d);
            *m = PV { node: PNode::D(md), from: [o.clone()].into() };
        }
    }
}

struct Given(String, Dict);
impl figment::Provider for Given {
    fn metadata(&self) -> figment::Metadata { figment::Metadata::named("given") }
    fn data(&self) -> Result<figment::value::Map<figment::Profile, Dict>, figment::Error> { Ok(figment::Profile::new(&self.0).collect(self.1.clone())) }
}

fn check_derived(c: &Derived, cx: &mut Cx) -> Outcome {
    let mut run = Run::of(&c.ops);
    for round in 0..1 + c.again as usize {
        let id = run.next;
        run.next += 1;
        let mut d: Dict = run.real.extract().map_err(|e| format!("extraction failed: {e}"))?;
        let mut m = run.model.visible().unwrap();
        let o = (id, c.profile.to_ascii_lowercase());
        for (at, e) in &c.edits {
            let at: Vec<usize> = at.iter().map(|i| i + round).collect();
            let (mut v, mut pv) = (Value::from(std::mem::take(&mut d)), PV { node: PNode::D(std::mem::take(&mut m)), from: [o.clone()].into() });
            edit(&mut v, &mut pv, &at, e, &o);
            match (v, pv.node) { (Value::Dict(_, v), PNode::D(p)) => { d = v; m = p }, _ => { d.clear(); m.clear() } }
        }
        let f = std::mem::take(&mut run.real);
        let p = Named { inner: Given(c.profile.clone(), d), name: prov_name(id) };
        run.real = match c.strat { Strat::Merge => f.merge(p), Strat::Join => f.join(p), Strat::Admerge => f.admerge(p), Strat::Adjoin => f.adjoin(p) };
        run.model.provide(c.strat, Ok([(o.1.clone(), m)].into()), None);
    }
    if let Some(p) = &c.select { run.real = run.real.select(p); run.model.selected = p.clone(); }
    if c.nest { run.real = Figment::new().merge(Named { inner: run.real, name: prov_name(run.next) }); }
    let n = check_all(&run.real, &run.model)?;
    fn kept(v: &PV, id: usize) -> (usize, usize) {
        match &v.node {
            PNode::Leaf(_) => if v.from.iter().any(|f| f.0 >= id) { (0, 1) } else { (1, 0) },
            PNode::D(d) => d.values().map(|v| kept(v, id)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
            PNode::A(a) => a.iter().map(|v| kept(v, id)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
        }
    }
    let id = run.next - 1 - c.again as usize;
    let (old, new) = kept(&PV { node: PNode::D(run.model.visible().unwrap()), from: Default::default() }, id);
    cx.hit(n > 0 && old > 0 && new > 0);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C03",
        subs: vec![
            Box::new(Sub { name: "history", quick: 40_000, thorough: 2_000_000, gen, check,
                rule: "random histories with nested figments up to three deep, a selection and a reuse of the result (clone, nesting, focusing); every reachable value's tag is resolved; non-trivial: two providers and two values or more" }),
            Box::new(Sub { name: "arrays", quick: 40_000, thorough: 2_000_000, gen: gen_arrays, check: check_arrays,
                rule: "the same array supplied by up to eight providers in three profiles; non-trivial: the result holds elements of different providers" }),
            Box::new(Sub { name: "derived", quick: 40_000, thorough: 2_000_000, gen: gen_derived, check: check_derived,
                rule: "a figment's extracted values, edited, wrapped and mixed with new ones, provided to it again: kept values stay with their providers and new ones are the new provider's; non-trivial: old and new values are visible" }),
        ],
        assumptions: &["a dictionary or array combining several providers may be attributed to any of them"],
    }
}
