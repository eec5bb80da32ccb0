//! Combining follows the conflict table.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::value::Value;

fn gen(s: &mut Src) -> Vec<Op> { history(s, HIST) }

fn gen_focused(s: &mut Src) -> Vec<Op> {
    history(s, Hist { nesting: 0, profiles: false, select: false, texts: false, max_ops: 8, avg_ops: 3, fails: false })
}

fn gen_long(s: &mut Src) -> Vec<Op> {
    history(s, Hist { nesting: 1, max_ops: 60, avg_ops: 30, texts: false, ..HIST })
}

/// Does some pair of consecutive data share a key somewhere?
fn conflicts(ops: &[Op]) -> bool { provides(ops) >= 2 }

pub fn check(ops: &Vec<Op>, cx: &mut Cx) -> Outcome {
    let run = Run::of(ops);
    let want = run.model.visible_mv().expect("no failures generated");
    let real: Value = run.real.extract().map_err(|e| format!("extraction failed: {e}"))?;
    let got = MV::of(&real);
    ensure!(got.same(&want), "extracted {} but the table gives {}", dbg(&got), dbg(&want));

    let paths = want.paths();
    for p in &paths {
        if p.iter().any(|k| k.is_empty() || k.contains('.')) { continue }
        let path = p.join(".");
        let v = run.real.find_value(&path).map_err(|e| format!("find_value({path:?}) failed: {e}"))?;
        let w = want.get(p).unwrap();
        ensure!(MV::of(&v).same(w), "find_value({path:?}) gives {} but the table gives {}", dbg(&v), dbg(w));
    }

    // Every profile's data, not only what is visible.
    let data = figment::Provider::data(&run.real).map_err(|e| format!("data() failed: {e}"))?;
    let model = run.model.data.as_ref().unwrap();
    ensure!(data.len() == model.len(), "profiles {:?} but expected {:?}", data.keys(), model.keys());
    for (p, d) in &data {
        let m = model.get(&p.to_string().to_ascii_lowercase()).ok_or_else(|| format!("unexpected profile {p}"))?;
        let (g, w) = (MV::D(of_dict(d)), MV::D(pdict_mv(m)));
        ensure!(g.same(&w), "profile {p} holds {} but the table gives {}", dbg(&g), dbg(&w));
    }

    cx.hit(conflicts(ops) && !paths.is_empty());
    cx.class_if(want.depth() >= 3, "depth >= 3");
    cx.class_if(ops.len() >= 6, ">= 6 operations");
    cx.class_if(ops.iter().any(|o| matches!(o, Op::Provide { kind: Kind::Nested(_), .. })), "nested figment");
    Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Pair { a: MDict, b: MDict, strat: Strat, empty_first: bool }

fn gen_pair(s: &mut Src) -> Pair {
    let sh = Shape { depth: 3, width: 4, plain: false, odd_keys: false };
    let a = mdict(s, sh);
    let b = if s.chance(3, 4) {
        match vary(s, &MV::D(a.clone()), sh) { MV::D(d) => d, v => [("a".to_string(), v)].into() }
    } else { mdict(s, sh) };
    Pair { a, b, strat: strat(s), empty_first: s.bool() }
}

/// Two providers, plus the laws that follow from the table.
fn check_pair(c: &Pair, cx: &mut Cx) -> Outcome {
    let op = |d: &MDict, strat| Op::Provide { strat, kind: Kind::Serialized { data: d.clone(), profile: "default".into(), key: None }, by_ref: false };
    let get = |ops: &[Op]| -> Result<MV, String> {
        let r = Run::of(ops);
        r.real.extract::<Value>().map(|v| MV::of(&v)).map_err(|e| format!("extraction failed: {e}"))
    };
    let (a, b) = (op(&c.a, Strat::Merge), op(&c.b, c.strat));
    let ab = get(&[a.clone(), b.clone()])?;
    let o = |n: usize| (n, "default".to_string());
    let want = combine(PV::new(&MV::D(c.a.clone()), &o(0)), PV::new(&MV::D(c.b.clone()), &o(1)), c.strat).mv();
    ensure!(ab.same(&want), "{:?} of {:?} and {:?} gives {:?}, expected {:?}", c.strat, c.a, c.b, ab, want);

    // a.merge(b) == b.join(a)
    let swap = match c.strat { Strat::Merge => Some(Strat::Join), Strat::Join => Some(Strat::Merge), _ => None };
    if let Some(sw) = swap {
        let ba = get(&[op(&c.b, Strat::Merge), op(&c.a, sw)])?;
        ensure!(ba.same(&ab), "{:?}(a, b) = {:?} but {:?}(b, a) = {:?}", c.strat, ab, sw, ba);
    }

    // Empty data changes nothing, on either side.
    let e = op(&MDict::new(), c.strat);
    let with = if c.empty_first { get(&[e, a, b])? } else { get(&[a, b, e])? };
    ensure!(with.same(&ab), "an empty provider changed {:?} to {:?}", ab, with);

    let shared = c.a.keys().any(|k| c.b.contains_key(k));
    cx.hit(shared);
    cx.class_if(shared, "shared key");
    cx.class_if(c.a.iter().any(|(k, v)| v.is_dict() && c.b.get(k).map_or(false, |w| w.is_dict())), "dict/dict");
    cx.class_if(c.a.iter().any(|(k, v)| matches!(v, MV::A(_)) && matches!(c.b.get(k), Some(MV::A(_)))), "array/array");
    cx.class_if(c.a.iter().any(|(k, v)| v.is_dict() && c.b.get(k).map_or(false, |w| !w.is_dict())), "dict/other");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C01",
        subs: vec![
            Box::new(Sub { name: "history", quick: 120_000, thorough: 3_000_000, gen, check,
                rule: "random histories of provide/select over every provider kind, data often derived from earlier data; non-trivial: at least two providers and a non-empty result" }),
            Box::new(Sub { name: "single-profile", quick: 120_000, thorough: 3_000_000, gen: gen_focused, check,
                rule: "histories within one profile; non-trivial as for history" }),
            Box::new(Sub { name: "long", quick: 6_000, thorough: 200_000, gen: gen_long, check,
                rule: "histories of about 30 operations; non-trivial as for history" }),
            Box::new(Sub { name: "pairs", quick: 160_000, thorough: 4_000_000, gen: gen_pair, check: check_pair,
                rule: "two data trees, the second usually a variation of the first; non-trivial: they share a key" }),
        ],
        assumptions: &["numbers are compared by value, not by stored width"],
    }
}
