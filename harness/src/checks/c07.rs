//! Focusing is prefixing.

use super::c06::identical;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::value::Value;
use figment::{Figment, Provider};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { ops: Vec<Op>, keys: Vec<String>, #[serde(default)] tail: String, split: usize, subs: Vec<Vec<String>>, select: Option<String> }

fn gen(s: &mut Src) -> Case {
    let ops = history(s, Hist { nesting: 2, ..HIST });
    let model = Run::of(&ops).model;
    let mut dicts: Vec<Vec<String>> = vec![];
    let mut all: Vec<Vec<String>> = vec![];
    for d in model.data.as_ref().unwrap().values() {
        let mv = MV::D(pdict_mv(d));
        for p in mv.paths() {
            if p.iter().any(|k| k.is_empty()) { continue }
            if mv.get(&p).unwrap().is_dict() { dicts.push(p.clone()) }
            all.push(p);
        }
    }
    // Mostly what is visible.
    let vis = model.visible_mv().unwrap();
    for p in vis.paths() {
        if p.iter().all(|k| !k.is_empty()) && matches!(vis.get(&p), Some(MV::D(d)) if !d.is_empty()) { for _ in 0..3 { dicts.push(p.clone()) } }
    }
    let keys = if !dicts.is_empty() && s.chance(4, 5) { s.pick(&dicts) } else { path_in(s, &all) };
    let under: Vec<Vec<String>> = all.iter().filter(|p| p.len() > keys.len() && p[..keys.len()] == keys[..]).map(|p| p[keys.len()..].to_vec()).collect();
    let subs = s.vec(1, 5, 3, |s| path_in(s, &under)).into_iter().filter(|p| p.iter().all(|k| !k.is_empty())).collect();
    let split = s.below(keys.len() + 1);
    let mut names: Vec<String> = model.data.as_ref().unwrap().keys().cloned().collect();
    names.extend(["debug".into(), "default".into(), "global".into()]);
    let tail = if s.chance(1, 8) { s.pick(&[".", "..", "..a", ".a", "..a.b"]).into() } else { String::new() };
    Case { ops, keys, tail, split, subs, select: if s.bool() { Some(s.pick(&names)) } else { None } }
}

/// Whether a visible layer hides, with something other than a dictionary, a
/// dictionary that a lower layer has at the key (see DESIGN.md, findings).
fn shadowed(m: &MFig, keys: &[String]) -> bool {
    let sel = m.selected.to_ascii_lowercase();
    let mut order = vec!["default".to_string()];
    if sel != "default" && sel != "global" { order.push(sel) }
    order.push("global".into());
    let mut seen = false;
    for p in order {
        let Some(d) = m.data.as_ref().unwrap().get(&p) else { continue };
        let mv = MV::D(pdict_mv(d));
        let mut v = Some(&mv);
        let mut blocked = false;
        for k in keys {
            match v { Some(MV::D(d)) => v = d.get(k), Some(_) => { blocked = true; v = None; } None => {} }
        }
        match v { Some(MV::D(_)) => seen = true, Some(_) => blocked = true, None => {} }
        if blocked && seen { return true }
    }
    false
}

fn snapshot(f: &Figment) -> String { format!("{:?} {:?} {:?}", f.profile(), f.data().map_err(|e| e.to_string()), f.metadata().collect::<Vec<_>>()) }

fn law(real: &Figment, focused: &Figment, keys: &[String], sub: &[String]) -> Outcome {
    let sub = sub.join(".");
    let full = if keys.is_empty() { sub.clone() } else { format!("{}.{sub}", keys.join(".")) };
    let what = format!("{sub:?} in focus {:?}", keys.join("."));
    match (real.find_value(&full), focused.find_value(&sub)) {
        (Ok(a), Ok(b)) => {
            identical(&b, &a).map_err(|e| format!("{what}: {e}"))?;
            ensure!(real.find_metadata(&full) == focused.find_metadata(&sub), "{what}: metadata differs: {:?} and {:?}", focused.find_metadata(&sub), real.find_metadata(&full));
            ensure!(focused.find_metadata(&sub).is_some(), "{what}: no metadata");
            let v: Value = focused.extract_inner(&sub).map_err(|e| format!("{what}: extract_inner fails: {e}"))?;
            identical(&v, &a).map_err(|e| format!("{what}: extract_inner: {e}"))?;
        }
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("{what}: focused lookup gives {:?}, prefixed lookup {:?}", b.map_err(|e| e.to_string()), a.map_err(|e| e.to_string()))),
    }
    ensure_eq!(focused.contains(&sub), real.contains(&full), "{what}: contains");
    Ok(())
}

fn check_inner(c: &Case, cx: &mut Cx, restricted: bool) -> Outcome {
    let Run { mut real, mut model, .. } = Run::of(&c.ops);
    if c.keys.iter().any(|k| k.is_empty() || k.contains('.')) { return Ok(()) }
    let key = c.keys.join(".");
    let before = snapshot(&real);
    let mut focused = real.focus(&key);
    let mut twice = real.focus(&c.keys[..c.split].join(".")).focus(&c.keys[c.split..].join("."));
    ensure!(snapshot(&real) == before, "focusing on {key:?} changed the figment: {} became {}", before, snapshot(&real));
    ensure!(focused.profile().as_str().as_str() == real.profile().as_str().as_str(), "focus selects {:?} instead of {:?}", focused.profile(), real.profile());
    ensure!(focused.metadata().eq(real.metadata()), "focus changed the metadata");

    // Every profile keeps exactly the dictionary it has at the key.
    let data = focused.data().map_err(|e| format!("data after focus: {e}"))?;
    let mut want = vec![];
    for (p, d) in model.data.as_ref().unwrap() {
        let whole = MV::D(pdict_mv(d));
        if let Some(v @ MV::D(_)) = whole.get(&c.keys) { want.push((p.clone(), v.clone())) }
    }
    let got: Vec<(String, MV)> = {
        let mut g: Vec<_> = data.iter().map(|(p, d)| (p.as_str().to_string().to_ascii_lowercase(), MV::D(of_dict(d)))).collect();
        g.sort_by(|a, b| a.0.cmp(&b.0));
        g
    };
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1)),
        "focus on {key:?} holds {got:?} per profile, expected {want:?}");
    ensure!(snapshot(&twice) == snapshot(&focused), "focusing on {:?} then {:?} differs from focusing on {key:?}", c.keys[..c.split].join("."), c.keys[c.split..].join("."));

    // An empty component ends a key, in focusing as in lookups.
    if !c.tail.is_empty() {
        let odd = format!("{key}{}", if c.keys.is_empty() { c.tail.clone() } else { format!(".{}", c.tail) });
        for (odd, key) in [(odd, key.as_str()), (format!(".{key}"), "")] {
            let (f, g) = (real.focus(&odd), real.focus(key));
            ensure!(snapshot(&f) == snapshot(&g), "focusing on {odd:?} gives {}, on {key:?} {}", snapshot(&f), snapshot(&g));
            match (real.find_value(&odd), real.find_value(key)) {
                (Ok(a), Ok(b)) => identical(&a, &b).map_err(|e| format!("{odd:?} and {key:?}: {e}"))?,
                (Err(_), Err(_)) => {}
                (a, b) => return Err(format!("{odd:?} gives {a:?} but {key:?} {b:?}")),
            }
        }
    }

    for round in 0..2 {
        if round == 1 {
            let Some(p) = &c.select else { break };
            // Selecting before or after focusing is the same.
            real = real.select(p);
            focused = focused.select(p);
            twice = twice.select(p);
            model.selected = p.clone();
            ensure!(snapshot(&real.focus(&key)) == snapshot(&focused), "selecting {p:?} before and after focusing differ");
        }
        if restricted && shadowed(&model, &c.keys) { cx.class("dictionary shadowed by a higher profile (known finding; prefix law not asserted)"); continue }
        for sub in &c.subs {
            law(&real, &focused, &c.keys, sub)?;
            law(&real, &twice, &c.keys, sub)?;
            if focused.contains(&sub.join(".")) { cx.hit(true) }
        }
        let v: Value = focused.extract().map_err(|e| format!("extract after focus: {e}"))?;
        match real.find_value(&key) {
            Ok(w @ Value::Dict(..)) => ensure!(MV::of(&v).same(&MV::of(&w)), "extracting focus {key:?} gives {v:?}, the value there is {w:?}"),
            other => ensure!(MV::of(&v).same(&MV::D(MDict::new())), "extracting focus {key:?} gives {v:?}, but that key holds {other:?}"),
        }
    }
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Outcome { check_inner(c, cx, true) }
fn check_all(c: &Case, cx: &mut Cx) -> Outcome { check_inner(c, cx, false) }

pub fn property() -> Property {
    Property {
        id: "C07",
        subs: vec![
            Box::new(Sub { name: "focus", quick: 120_000, thorough: 4_000_000, gen, check,
                rule: "random histories, a key path (mostly one holding a dictionary in some profile) split at a random place, sub-paths, and a later selection; non-trivial: some sub-path is found" }),
            Box::new(Sub { name: "shadowed", quick: 0, thorough: 0, gen, check: check_all,
                rule: "as focus, asserting the prefix law also where a higher profile hides the dictionary; only used to replay the known finding" }),
        ],
        assumptions: &["the prefix law is not asserted where a visible profile holds a non-dictionary over a lower profile's dictionary at the key (known finding)"],
    }
}
