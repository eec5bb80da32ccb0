//! Profile layering and selection.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::value::Value;
use figment::{Figment, Profile};
use std::collections::BTreeSet;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { ops: Vec<Op>, select: Vec<String> }

fn flip_case(s: &mut Src, p: &str) -> String {
    match s.below(3) {
        0 => p.to_string(),
        1 => p.to_ascii_uppercase(),
        _ => p.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// Another profile, with a name like this one's.
pub fn related(s: &mut Src, p: &str) -> String {
    let sep = s.pick(&["-", "_", ".", "/", ":", " ", "+", "@", "", "x"]);
    match s.below(5) {
        0 => format!("{p}{sep}{}", s.pick(&["eu", "1", "default", "global", ""])),
        1 => format!("{}{sep}{p}", s.pick(&["eu", "1", "default", "global", ""])),
        2 => { let mut c: Vec<char> = p.chars().collect(); c.pop(); c.into_iter().collect() }
        3 => p.chars().skip(1).collect(),
        _ => p.chars().map(|c| if s.chance(1, 3) { '_' } else { c }).collect(),
    }
}

fn gen(s: &mut Src) -> Case {
    let ops = history(s, HIST);
    let mut names = vec![];
    collect(&ops, &mut names);
    let select = s.vec(0, 6, 3, |s| {
        let p = if names.is_empty() || s.chance(1, 5) { profile(s) } else { s.pick(&names) };
        let p = if s.chance(1, 4) { related(s, &p) } else { p };
        flip_case(s, &p)
    });
    Case { ops, select }
}

fn collect(ops: &[Op], out: &mut Vec<String>) {
    for op in ops {
        match op {
            Op::Select(p) => out.push(p.clone()),
            Op::Provide { kind, .. } => match kind {
                Kind::Custom { data, profile } => {
                    out.extend(data.iter().map(|d| d.0.clone()));
                    out.extend(profile.clone());
                }
                Kind::Serialized { profile, .. } | Kind::Text { profile, .. } => out.push(profile.clone()),
                Kind::TextNested { data, .. } => out.extend(data.iter().map(|d| d.0.clone())),
                Kind::Nested(o) => collect(o, out),
                _ => {}
            },
        }
    }
}

fn visible(f: &Figment) -> Result<MV, String> {
    f.extract::<Value>().map(|v| MV::of(&v)).map_err(|e| format!("extraction failed: {e}"))
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let run = Run::of(&c.ops);
    let (f, m) = (&run.real, &run.model);
    ensure!(f.profile().as_str().as_str().eq_ignore_ascii_case(&m.selected),
        "selected profile is {:?}, expected {:?}", f.profile(), m.selected);

    let data = m.data.as_ref().unwrap();
    let mut got = BTreeSet::new();
    for p in f.profiles() {
        ensure!(got.insert(p.to_string().to_ascii_lowercase()), "profile {p} is listed twice");
    }
    let want: BTreeSet<String> = data.keys().cloned().collect();
    ensure_eq!(got, want, "profiles()");

    let (g, w) = (visible(f)?, m.visible_mv().unwrap());
    ensure!(g.same(&w), "profile {:?}: extracted {} but layering gives {}", m.selected, dbg(&g), dbg(&w));

    let mut layered = false;
    for p in &c.select {
        let f2 = f.clone().select(p);
        let mut m2 = m.clone();
        m2.selected = p.clone();
        ensure!(f2.profile() == &Profile::new(p), "select({p:?}) left profile {:?}", f2.profile());
        let (g, w) = (visible(&f2)?, m2.visible_mv().unwrap());
        ensure!(g.same(&w), "select({p:?}): extracted {} but layering gives {}", dbg(&g), dbg(&w));
        // Lossy extraction and lookups see the same layers.
        let lossy: Value = f2.extract_lossy().map_err(|e| format!("lossy extraction failed: {e}"))?;
        ensure!(MV::of(&lossy).same(&w), "select({p:?}): extract_lossy gives {} but layering gives {}", dbg(&lossy), dbg(&w));
        for path in w.paths() {
            if path.iter().any(|k| k.is_empty() || k.contains('.')) { continue }
            let p2 = path.join(".");
            let v = f2.find_value(&p2).map_err(|e| format!("find_value({p2:?}) failed: {e}"))?;
            ensure!(MV::of(&v).same(w.get(&path).unwrap()), "select({p:?}): find_value({p2:?}) = {}", dbg(&v));
        }
        let lower = p.to_ascii_lowercase();
        let n = data.contains_key("default") as u8 + data.contains_key("global") as u8
            + (data.contains_key(&lower) && lower != "default" && lower != "global") as u8;
        layered |= n >= 2;
        cx.class_if(n == 3, "three layers");
        cx.class_if(p.chars().any(|c| c.is_ascii_uppercase()) && data.contains_key(&lower), "selected by another case");
        cx.class_if(!data.contains_key(&lower), "selected profile has no data");
    }
    // Selecting did not change the original.
    ensure!(visible(f)?.same(&m.visible_mv().unwrap()), "selecting on a clone changed the original");
    cx.hit(layered);
    Ok(())
}

/// Three explicit layers with conflicts between all of them.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Layers { layers: Vec<(String, MDict)>, order: Vec<Strat>, select: String }

fn gen_layers(s: &mut Src) -> Layers {
    let sh = Shape { depth: 3, width: 4, plain: false, odd_keys: false };
    let base = mdict(s, sh);
    let names = ["default", "global", "rel", "other"];
    let layers = (0..s.size(2, 4)).map(|i| {
        let n = flip_case(s, names[i]);
        let d = match vary(s, &MV::D(base.clone()), sh) { MV::D(d) => d, _ => mdict(s, sh) };
        (n, d)
    }).collect::<Vec<_>>();
    let order = layers.iter().map(|_| strat(s)).collect();
    let sel = s.pick(&["rel", "default", "global", "other", "nope"]);
    Layers { layers, order, select: flip_case(s, sel) }
}

fn check_layers(c: &Layers, cx: &mut Cx) -> Outcome {
    let mut ops: Vec<Op> = c.layers.iter().zip(&c.order).map(|((p, d), st)| Op::Provide {
        strat: *st, by_ref: false,
        kind: Kind::Serialized { data: d.clone(), profile: p.clone(), key: None },
    }).collect();
    ops.push(Op::Select(c.select.clone()));
    let run = Run::of(&ops);
    // Stated directly: selected replaces default, global replaces both.
    let by = |n: &str| c.layers.iter().find(|(p, _)| p.eq_ignore_ascii_case(n)).map(|(_, d)| d.clone());
    let mut want = by("default").unwrap_or_default();
    if !["default", "global"].iter().any(|n| c.select.eq_ignore_ascii_case(n)) {
        want = overlay(want, by(&c.select).unwrap_or_default());
    }
    want = overlay(want, by("global").unwrap_or_default());
    let (g, want) = (visible(&run.real)?, MV::D(want));
    ensure!(g.same(&want), "extracted {} but layering gives {}", dbg(&g), dbg(&want));
    cx.hit(c.layers.iter().filter(|l| !l.1.is_empty()).count() >= 2);
    Ok(())
}

fn overlay(mut a: MDict, b: MDict) -> MDict {
    for (k, v) in b {
        let v = match (a.remove(&k), v) { (Some(MV::D(x)), MV::D(y)) => MV::D(overlay(x, y)), (_, v) => v };
        a.insert(k, v);
    }
    a
}

pub fn property() -> Property {
    Property {
        id: "C02",
        subs: vec![
            Box::new(Sub { name: "history", quick: 60_000, thorough: 3_000_000, gen, check,
                rule: "random histories with data in many profiles (case variants), then re-selection of known and unknown profiles in other cases; non-trivial: some selection layers data of two or more profiles" }),
            Box::new(Sub { name: "layers", quick: 60_000, thorough: 3_000_000, gen: gen_layers, check: check_layers,
                rule: "variations of one tree in default, global and custom profiles; non-trivial: at least two non-empty layers" }),
        ],
        assumptions: &["numbers are compared by value, not by stored width"],
    }
}
