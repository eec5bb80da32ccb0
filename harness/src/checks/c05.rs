//! Provider failures are all reported.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::value::{Dict, Value};
use figment::{Error, Figment};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { ops: Vec<Op>, select: Option<String>, path: Vec<String> }

fn gen(s: &mut Src) -> Case {
    let ops = history(s, Hist { fails: true, ..HIST });
    Case { ops, select: if s.bool() { Some(profile(s)) } else { None }, path: s.vec(1, 3, 1, |s| s.pick(&KEYS[..3]).to_string()) }
}

/// Mostly failures: several of them, in sequence and inside nested figments.
fn gen_many(s: &mut Src) -> Case {
    if s.chance(1, 400) {
        let n = s.pick(&[33, 40, 65, 101]);
        let one = |s: &mut Src| Op::Provide { strat: strat(s), kind: if s.chance(1, 8) { Kind::Serialized { data: mdict(s, Shape { depth: 1, ..PLAIN }), profile: profile(s), key: None } } else { Kind::Fail(s.pick(FAILS)) }, by_ref: false };
        return Case { ops: (0..n).map(|_| one(s)).collect(), select: None, path: vec!["a".into()] };
    }
    fn ops(s: &mut Src, depth: usize) -> Vec<Op> {
        s.vec(1, 8, 4, |s| {
            let kind = match s.weighted(&[6, 3, if depth > 0 { 4 } else { 0 }]) {
                0 => Kind::Fail(s.pick(FAILS)),
                1 => Kind::Serialized { data: mdict(s, Shape { depth: 1, ..PLAIN }), profile: profile(s), key: None },
                _ => Kind::Nested(ops(s, depth - 1)),
            };
            Op::Provide { strat: strat(s), kind, by_ref: s.chance(1, 4) }
        })
    }
    Case { ops: ops(s, 2), select: None, path: vec!["a".into()] }
}

fn check_error(e: Error, m: &MFig, what: &str) -> Outcome {
    ensure!(e.count() == m.failed.len(), "{what}: error counts {} failures, but providers {:?} failed", e.count(), m.failed);
    let text = e.to_string();
    let mut got: Vec<usize> = vec![];
    for e in e {
        let md = e.metadata.as_ref().ok_or_else(|| format!("{what}: failure `{}` has no metadata", e.kind))?;
        let id: usize = md.name.strip_prefix("prov-").and_then(|n| n.parse().ok())
            .ok_or_else(|| format!("{what}: failure attributed to {:?}", md.name))?;
        let msg = e.kind.to_string();
        if msg.starts_with("fail-") {
            ensure_eq!(msg, format!("fail-{id}"), "{what}: failure attributed to provider {id}");
        }
        ensure!(text.contains(&msg), "{what}: the printed error lacks {msg:?}: {text:?}");
        got.push(id);
    }
    let (mut g, mut w) = (got.clone(), m.failed.clone());
    g.sort();
    w.sort();
    ensure_eq!(g, w, "{what}: failing providers reported");
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let Run { mut real, model, .. } = Run::of(&c.ops);
    if let Some(p) = &c.select { real = real.select(p) }
    let f = &real;
    let path = c.path.join(".");
    if model.failed.is_empty() {
        ensure!(f.extract::<Value>().is_ok(), "no provider failed but extraction does");
        return Ok(());
    }
    macro_rules! fails { ($e:expr, $what:expr) => { match $e {
        Ok(v) => return Err(format!("{} succeeds with {:?} although providers {:?} failed", $what, v, model.failed)),
        Err(e) => check_error(e, &model, $what)?,
    } } }
    fails!(f.extract::<Value>(), "extract");
    fails!(f.extract::<Dict>(), "extract to a dictionary");
    fails!(f.extract_lossy::<Value>(), "extract_lossy");
    fails!(f.extract_inner::<Value>(&path), "extract_inner");
    fails!(f.extract_inner_lossy::<Value>(&path), "extract_inner_lossy");
    fails!(f.find_value(&path), "find_value");
    fails!(f.focus(&path).extract::<Value>(), "extract after focus");
    fails!(f.clone().extract::<Value>(), "extract from a clone");
    // Adding further good providers, any way, changes nothing.
    for st in 0..4 {
        let p = || ("zz", 1);
        let g = match st { 0 => f.clone().merge(p()), 1 => f.clone().join(p()), 2 => f.clone().admerge(p()), _ => f.clone().adjoin(p()) };
        fails!(g.extract::<Value>(), "extract after adding a provider");
    }
    for st in 0..4 {
        let b = Figment::new().merge(("zz", 1));
        let g = match st { 0 => b.merge(f), 1 => b.join(f), 2 => b.admerge(f), _ => b.adjoin(f) };
        fails!(g.extract::<Value>(), "extract with the failed figment as provider");
    }
    ensure!(!f.contains(&path) && !f.contains("a"), "contains() answers true although providers {:?} failed", model.failed);
    ensure!(f.profiles().next().is_none(), "profiles() is not empty although providers {:?} failed", model.failed);
    ensure!(f.find_metadata(&path).is_none(), "find_metadata() finds something although providers {:?} failed", model.failed);
    cx.hit(true);
    cx.class_if(model.failed.len() == 2, "two failures");
    cx.class_if(model.failed.len() >= 3, "three or more failures");
    cx.class_if(c.ops.iter().any(|o| matches!(o, Op::Provide { kind: Kind::Nested(n), .. } if n.iter().any(|o| matches!(o, Op::Provide { kind: Kind::Fail(_), .. })))), "failure inside a nested figment");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C05",
        subs: vec![
            Box::new(Sub { name: "history", quick: 90_000, thorough: 1_000_000, gen, check,
                rule: "random histories in which some providers fail in one of twenty-one ways (custom error, malformed text or file, file that is missing, a directory or not UTF-8, non-map data, ...); non-trivial: at least one provider failed" }),
            Box::new(Sub { name: "many", quick: 90_000, thorough: 1_000_000, gen: gen_many, check,
                rule: "histories made mostly of failing providers, also inside nested figments; non-trivial: at least one provider failed" }),
        ],
        assumptions: &["a provider's failure is a single error"],
    }
}
