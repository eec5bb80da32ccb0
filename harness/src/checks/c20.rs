//! Attribution and results are independent of concurrent figment use.

use std::sync::{Barrier, Mutex};

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::providers::Serialized;
use figment::value::Value;
use figment::{Figment, Provider};
use serde::{Deserialize, Serialize};

// ------------------------------------------------- figments of their own

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { histories: Vec<Vec<Op>>, paths: Vec<String>, combine: Vec<(usize, Strat, bool)>, select: String, rounds: usize }

fn gen(s: &mut Src) -> Case {
    let n = s.size(2, 6);
    let fails = s.chance(1, 3);
    let histories: Vec<Vec<Op>> = (0..n).map(|_| history(s, Hist { max_ops: 8, nesting: 1, fails, ..HIST })).collect();
    let paths = s.vec(0, 3, 2, |s| s.pick(&["a", "b", "a.b", "c", "nothing"]).to_string());
    let combine = s.vec(1, 6, 3, |s| (s.below(n), strat(s), s.bool()));
    Case { histories, paths, combine, select: profile(s), rounds: s.size(1, 3) }
}

/// As the model says, where nothing fails.
fn agrees(run: &Run) -> Result<(), String> {
    let (real, model) = (&run.real, &run.model);
    match (real.extract::<Value>(), model.visible()) {
        (Ok(v), Some(m)) => {
            crate::ensure!(MV::of(&v).same(&MV::D(pdict_mv(&m))), "holds {v:?}, expected {:?}", pdict_mv(&m));
            let d = v.as_dict().unwrap();
            for (k, m) in &m { check_tags(real, &d[k], m, &model.selected, k)?; }
            Ok(())
        }
        (Err(e), None) => { crate::ensure!(e.count() == model.failed.len(), "{} errors, {} providers failed", e.count(), model.failed.len()); Ok(()) }
        (r, _) => Err(format!("extraction gives {}, the model fails: {:?}", dbg(&r), model.failed)),
    }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let base = |t: usize| 1000 * t;
    let alone: Vec<Run> = c.histories.iter().enumerate().map(|(t, h)| Run::of_from(h, base(t))).collect();
    let alone_facts: Vec<Vec<String>> = alone.iter().map(|r| facts(&r.real, &c.paths)).collect();
    for _ in 0..c.rounds {
        let gate = Barrier::new(c.histories.len());
        let together: Vec<Result<(Run, Vec<String>), String>> = std::thread::scope(|s| {
            let kids: Vec<_> = c.histories.iter().enumerate().map(|(t, h)| {
                let (gate, paths) = (&gate, &c.paths);
                s.spawn(move || {
                    gate.wait();
                    guard(|| { let r = Run::of_from(h, base(t)); let f = facts(&r.real, paths); (r, f) })
                })
            }).collect();
            kids.into_iter().map(|k| k.join().expect("thread")).collect()
        });
        let mut runs = vec![];
        for (t, r) in together.into_iter().enumerate() {
            let (run, f) = r.map_err(|e| format!("thread {t}: panic: {e}"))?;
            same_facts(&f, &alone_facts[t]).map_err(|e| format!("thread {t}, against the same history alone: {e}"))?;
            agrees(&run).map_err(|e| format!("thread {t}: {e}"))?;
            runs.push(run);
        }
        // Combined on one thread.
        let mut whole = Run::new();
        let mut used = vec![];
        let mut entries = 0;
        for (i, strat, nest) in &c.combine {
            // Each figment once: what is provided twice is still one provider.
            if used.contains(i) { continue }
            used.push(*i);
            let r = &runs[*i];
            // A figment is a provider itself.
            entries += r.real.metadata().count() + 1 + *nest as usize;
            let f = std::mem::take(&mut whole.real);
            let other = if *nest { Figment::new().merge(&r.real) } else { r.real.clone() };
            whole.real = match strat { Strat::Merge => f.merge(other), Strat::Join => f.join(other), Strat::Admerge => f.admerge(other), Strat::Adjoin => f.adjoin(other) };
            whole.model.provide(*strat, r.model.data.clone(), Some(r.model.selected.clone()));
            whole.model.failed.extend(&r.model.failed);
        }
        whole.real = whole.real.select(&c.select);
        whole.model.selected = c.select.clone();
        ensure!(whole.real.metadata().count() == entries, "combining figments of several threads leaves {} providers of {entries}: tags collide", whole.real.metadata().count());
        agrees(&whole).map_err(|e| format!("figments built on several threads combined: {e}"))?;
        cx.class_if(used.len() > 1 && entries > 2, "combined across threads");
    }
    cx.hit(c.histories.iter().filter(|h| provides(h) > 1).count() > 1);
    cx.class_if(alone.iter().any(|r| !r.model.failed.is_empty()), "with failing providers");
    Ok(())
}

// ------------------------------------------------------- one figment, shared

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Use { Facts, Extend(Vec<Op>), Select(String), Focus(String), Nest(Strat), Clone }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shared { ops: Vec<Op>, uses: Vec<Vec<Use>>, paths: Vec<String> }

fn gen_shared(s: &mut Src) -> Shared {
    let fails = s.chance(1, 5);
    let ops = history(s, Hist { max_ops: 8, nesting: 1, fails, ..HIST });
    let n = s.size(2, 6);
    let uses = (0..n).map(|_| s.vec(1, 6, 3, |s| match s.below(6) {
        0 => Use::Facts, 1 => Use::Extend(history(s, Hist { max_ops: 4, avg_ops: 2, nesting: 1, ..HIST })), 2 => Use::Select(profile(s)), 3 => Use::Focus(dotted(s, 2)), 4 => Use::Nest(strat(s)), _ => Use::Clone,
    })).collect();
    Shared { ops, uses, paths: s.vec(0, 3, 2, |s| s.pick(&["a", "b", "a.b", "c", "nothing"]).to_string()) }
}

fn apply(f: &Figment, model: &MFig, u: &Use, next: usize, paths: &[String]) -> Vec<String> {
    match u {
        Use::Facts => facts(f, paths),
        Use::Extend(ops) => { let mut r = Run::at(f.clone(), model.clone(), next); for o in ops { r.step(o) } facts(&r.real, paths) }
        Use::Select(p) => facts(&f.clone().select(p), paths),
        Use::Focus(k) => facts(&f.focus(k), paths),
        Use::Nest(s) => {
            let b = Figment::from(Named { inner: Serialized::defaults(std::collections::BTreeMap::from([("a", 1), ("zz", 2)])), name: prov_name(next) });
            facts(&match s { Strat::Merge => b.merge(f), Strat::Join => b.join(f), Strat::Admerge => b.admerge(f), Strat::Adjoin => b.adjoin(f) }, paths)
        }
        Use::Clone => { let g = f.clone(); drop(f.clone()); facts(&g, paths) }
    }
}

fn check_shared(c: &Shared, cx: &mut Cx) -> Outcome {
    let Run { real, model, .. } = Run::of(&c.ops);
    let run = |t: usize| -> Vec<Vec<String>> { c.uses[t].iter().enumerate().map(|(i, u)| apply(&real, &model, u, 1000 * (t + 1) + 100 * i, &c.paths)).collect() };
    let alone: Vec<_> = (0..c.uses.len()).map(run).collect();
    let gate = Barrier::new(c.uses.len());
    let together = std::thread::scope(|s| {
        let kids: Vec<_> = (0..c.uses.len()).map(|t| { let (gate, run) = (&gate, &run); s.spawn(move || { gate.wait(); guard(|| run(t)) }) }).collect();
        kids.into_iter().map(|k| k.join().expect("thread")).collect::<Vec<_>>()
    });
    for (t, (got, want)) in together.into_iter().zip(&alone).enumerate() {
        let got = got.map_err(|e| format!("thread {t}: panic: {e}"))?;
        for (i, (g, w)) in got.iter().zip(want).enumerate() { same_facts(g, w).map_err(|e| format!("thread {t}, {:?}: {e}", c.uses[t][i]))?; }
    }
    cx.hit(provides(&c.ops) > 1);
    Ok(())
}

// ----------------------------------------------------------- many tags at once

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many { threads: usize, each: usize, how: usize }

fn gen_many(s: &mut Src) -> Many { Many { threads: s.size(2, 8), each: s.size(20, 300), how: s.below(4) } }

fn check_many(c: &Many, cx: &mut Cx) -> Outcome {
    let gate = Barrier::new(c.threads);
    let all = Mutex::new(vec![]);
    std::thread::scope(|s| for t in 0..c.threads {
        let (gate, all) = (&gate, &all);
        s.spawn(move || {
            gate.wait();
            let mut f = Figment::new();
            for i in 0..c.each {
                let id = t * 100_000 + i;
                let p = Named { inner: Serialized::default(&format!("k{t}x{i}"), id), name: prov_name(id) };
                f = match c.how { 0 => f.merge(p), 1 => f.join(p), 2 => f.merge(Figment::from(p)), _ => Figment::from(p).merge(f) };
            }
            all.lock().unwrap().push(f);
        });
    });
    let figs = all.into_inner().unwrap();
    ensure!(figs.len() == c.threads, "a thread panicked");
    let n: usize = figs.iter().map(|f| f.metadata().count()).sum();
    let whole = figs.iter().fold(Figment::new(), |a, f| a.merge(f));
    // Figments provided to figments are providers, too.
    ensure!(n == c.threads * c.each * if c.how >= 2 { 2 } else { 1 }, "{} providers are listed of {}", n, c.threads * c.each);
    ensure!(whole.metadata().count() == n + figs.len(), "{} of {n} providers are left when all are combined: tags collide", whole.metadata().count());
    let data: std::collections::BTreeMap<String, Value> = whole.extract().map_err(|e| e.to_string())?;
    ensure!(data.len() == c.threads * c.each, "{} of {} keys", data.len(), c.threads * c.each);
    for (k, v) in &data {
        let id = v.to_u128().ok_or("not a number")? as usize;
        ensure!(origin_of(&whole, v.tag()) == Some(id), "{k} of provider {id} is attributed to {:?}", origin_of(&whole, v.tag()));
    }
    cx.hit(true);
    Ok(())
}

// ------------------------------------------------------- tags as fast as can be

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Storm { threads: usize, each: usize, keyed: bool }

fn gen_storm(s: &mut Src) -> Storm { Storm { threads: s.size(2, 16), each: s.size(500, 5000), keyed: s.bool() } }

/// All workers share the processors: lets one at a time use them for threads of its own.
fn alone<T>(cx: &Cx, f: impl FnOnce() -> T) -> T {
    use std::os::unix::io::AsRawFd;
    let lock = cx.scratch.parent().and_then(|d| std::fs::OpenOptions::new().create(true).append(true).open(d.join("c20-lock")).ok());
    if let Some(l) = &lock { unsafe { libc::flock(l.as_raw_fd(), libc::LOCK_EX); } }
    let r = f();
    drop(lock);
    r
}

fn check_storm(c: &Storm, cx: &mut Cx) -> Outcome {
    let gate = Barrier::new(c.threads);
    let all = Mutex::new(vec![]);
    alone(cx, || std::thread::scope(|s| for _ in 0..c.threads {
        let (gate, all) = (&gate, &all);
        s.spawn(move || {
            let p = Serialized::default("a", 1);
            gate.wait();
            let figs: Vec<Figment> = (0..c.each).map(|_| if c.keyed { Figment::from(&p) } else { Figment::new().join(("a", 1)) }).collect();
            all.lock().unwrap().push(figs);
        });
    }));
    let figs: Vec<Figment> = all.into_inner().unwrap().into_iter().flatten().collect();
    ensure!(figs.len() == c.threads * c.each, "a thread panicked");
    let mut tags = vec![];
    for f in &figs {
        let t = f.find_value("a").map_err(|e| e.to_string())?.tag();
        ensure!(!t.is_default() && f.get_metadata(t).is_some(), "a value is attributed to nothing: {t:?}");
        tags.push(t);
    }
    tags.sort();
    let n = tags.len();
    tags.dedup();
    ensure!(tags.len() == n, "{} of {n} providers share a tag with another", n - tags.len());
    cx.hit(true);
    cx.class_if(c.threads > 8, "more than eight threads");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C20",
        subs: vec![
            Box::new(Sub { name: "own", quick: 8_000, thorough: 300_000, rule: "at least two threads provide more than once", gen, check }),
            Box::new(Sub { name: "shared", quick: 5_000, thorough: 200_000, rule: "the shared figment has at least two providers", gen: gen_shared, check: check_shared }),
            Box::new(Sub { name: "tags", quick: 400, thorough: 20_000, rule: "every case", gen: gen_many, check: check_many }),
            Box::new(Sub { name: "storm", quick: 160, thorough: 6_000, rule: "every case", gen: gen_storm, check: check_storm }),
        ],
        assumptions: &["Thread schedules are sampled, not enumerated; every check runs in eight processes of up to eight threads at once, and in one of up to sixteen that only provide."],
    }
}
