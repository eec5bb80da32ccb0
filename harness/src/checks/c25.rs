//! Figments are values: reusing, cloning or nesting them changes nothing.

use std::collections::BTreeMap;

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::providers::{Format, Json, Serialized, Toml, Yaml};
use figment::value::{Dict, Map, Tag, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::{Deserialize, Serialize};

// --------------------------------------------------------------- pure reads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Read {
    Facts, Extract, Lossy, Find(String), Inner(String), InnerLossy(String), Contains(String), FindMetadata(String), Metadata, Profiles,
    Focus(Vec<String>), Clone, CloneAndExtend(Vec<Op>), CloneAndSelect(String), Provide(Strat, usize), Data, Debug, GetMetadata,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { ops: Vec<Op>, reads: Vec<Read>, paths: Vec<String> }

fn a_path(s: &mut Src) -> String { if s.bool() { s.pick(&["a", "b", "c", "a.b", "a.a", "b.c", "", ".", "a.", "nothing"]).into() } else { dotted(s, 3) } }

fn gen(s: &mut Src) -> Case {
    let fails = s.chance(1, 5);
    let ops = history(s, Hist { max_ops: 8, nesting: 1, fails, ..HIST });
    let reads = s.vec(1, 12, 5, |s| match s.below(18) {
        0 => Read::Facts, 1 => Read::Extract, 2 => Read::Lossy, 3 => Read::Find(a_path(s)), 4 => Read::Inner(a_path(s)), 5 => Read::InnerLossy(a_path(s)), 6 => Read::Contains(a_path(s)),
        7 => Read::FindMetadata(a_path(s)), 8 => Read::Metadata, 9 => Read::Profiles, 10 => Read::Focus(s.vec(1, 3, 1, a_path)), 11 => Read::Clone,
        12 => Read::CloneAndExtend(history(s, Hist { max_ops: 4, avg_ops: 2, nesting: 1, ..HIST })), 13 => Read::CloneAndSelect(profile(s)), 14 => Read::Provide(strat(s), s.size(1, 3)),
        15 => Read::Data, 16 => Read::Debug, _ => Read::GetMetadata,
    });
    Case { ops, reads, paths: s.vec(1, 4, 2, a_path) }
}

fn base() -> Figment { Figment::from(Named { inner: Serialized::defaults(BTreeMap::from([("a", 1), ("zz", 2)])), name: "base".into() }) }

fn provide<P: Provider>(f: Figment, s: Strat, p: P) -> Figment {
    match s { Strat::Merge => f.merge(p), Strat::Join => f.join(p), Strat::Admerge => f.admerge(p), Strat::Adjoin => f.adjoin(p) }
}

/// What the read yields; it must always be the same.
fn read(f: &Figment, r: &Read, paths: &[String]) -> String {
    fn res<T: std::fmt::Debug>(r: Result<T, Error>) -> String { match r { Ok(v) => format!("{v:?}"), Err(e) => told_error(&e) } }
    match r {
        Read::Facts => facts(f, paths).join("\n"),
        Read::Extract => res(f.extract::<BTreeMap<String, Value>>()),
        Read::Lossy => res(f.extract_lossy::<BTreeMap<String, String>>()),
        Read::Find(p) => match f.find_value(p) { Ok(v) => told(f, &v), Err(e) => told_error(&e) },
        Read::Inner(p) => res(f.extract_inner::<Vec<u64>>(p)),
        Read::InnerLossy(p) => res(f.extract_inner_lossy::<bool>(p)),
        Read::Contains(p) => f.contains(p).to_string(),
        Read::FindMetadata(p) => format!("{:?}", f.find_metadata(p).map(|m| m.name.to_string())),
        Read::Metadata => format!("{:?}", f.metadata().map(|m| (m.name.to_string(), m.source.clone())).collect::<Vec<_>>()),
        Read::Profiles => format!("{} {:?}", f.profile(), f.profiles().map(|p| p.to_string()).collect::<Vec<_>>()),
        Read::Focus(ps) => facts(&ps.iter().fold(f.clone(), |f, p| f.focus(p)), paths).join("\n"),
        Read::Clone => { let g = f.clone(); drop(f.clone()); facts(&g, paths).join("\n") }
        // Tags differ from run to run, names do not.
        Read::CloneAndExtend(ops) => { let mut r = Run::at(f.clone(), MFig::new(), 5000); for o in ops { r.step(o) } facts(&r.real, paths).join("\n") }
        Read::CloneAndSelect(p) => facts(&f.clone().select(p), paths).join("\n"),
        Read::Provide(s, n) => { let mut b = base(); for _ in 0..*n { b = provide(b, *s, f) } facts(&b, paths).join("\n") }
        Read::Data => match f.data() { Ok(d) => format!("{d:?}"), Err(e) => told_error(&e) },
        Read::Debug => format!("{f:?}"),
        Read::GetMetadata => match f.extract::<Value>() { Ok(v) => format!("{:?}", v.as_dict().unwrap().values().map(|v| f.get_metadata(v.tag()).map(|m| m.name.to_string())).collect::<Vec<_>>()), Err(e) => told_error(&e) },
    }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let Run { real: f, model, .. } = Run::of(&c.ops);
    let other = f.clone();
    let before = facts(&f, &c.paths);
    let firsts: Vec<String> = c.reads.iter().map(|r| read(&f, r, &c.paths)).collect();
    same_facts(&facts(&f, &c.paths), &before).map_err(|e| format!("after reading: {e}"))?;
    for ((i, r), first) in c.reads.iter().enumerate().zip(&firsts).rev() {
        let again = read(&f, r, &c.paths);
        ensure!(again == *first, "{}: read {i} gives {}, at first {}", dbg(r), dbg(&again), dbg(first));
        let copy = read(&other, r, &c.paths);
        ensure!(copy == *first, "{}: read {i} of a copy gives {}, the original {}", dbg(r), dbg(&copy), dbg(first));
    }
    same_facts(&facts(&f, &c.paths), &before).map_err(|e| format!("after reading again: {e}"))?;
    same_facts(&facts(&other, &c.paths), &before).map_err(|e| format!("a copy: {e}"))?;
    // It goes on as if it had never been read.
    let mut used = Run::at(f, model.clone(), 9000);
    let mut fresh = Run::at(Run::of(&c.ops).real, model.clone(), 9000);
    for op in &c.ops { used.step(op); fresh.step(op) }
    same_facts(&facts(&used.real, &c.paths), &facts(&fresh.real, &c.paths)).map_err(|e| format!("extended after reading: {e}"))?;
    cx.hit(provides(&c.ops) > 1);
    cx.class_if(!model.failed.is_empty(), "failing providers");
    Ok(())
}

// ------------------------------------------------------------ as a provider

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Again { ops: Vec<Op>, how: Vec<(Strat, bool)>, paths: Vec<String>, select: Option<String> }

fn gen_again(s: &mut Src) -> Again {
    let fails = s.chance(1, 5);
    Again { ops: history(s, Hist { max_ops: 8, fails, ..HIST }), how: s.vec(1, 4, 2, |s| (s.pick(&[Strat::Merge, Strat::Admerge, Strat::Merge, Strat::Join, Strat::Adjoin]), s.bool())), paths: s.vec(1, 4, 2, a_path), select: if s.chance(1, 3) { Some(profile(s)) } else { None } }
}

/// Without the list of providers, which grows by the figment itself.
fn but_providers(f: &Figment, paths: &[String]) -> (Vec<String>, Vec<String>) { facts(f, paths).into_iter().partition(|l| !l.starts_with("provider ")) }

fn check_again(c: &Again, cx: &mut Cx) -> Outcome {
    let Run { real: f, model, .. } = Run::of(&c.ops);
    let (want, want_md) = but_providers(&f, &c.paths);
    let mut g = f.clone();
    for (i, (s, by_ref)) in c.how.iter().enumerate() {
        let profile = g.profile().clone();
        let n = if *by_ref { provide(Figment::new(), *s, &g) } else { provide(Figment::new(), *s, g) };
        // Joining keeps the profile selected already.
        ensure!(s.takes_new() == (n.profile() == &profile) || profile == Profile::Default, "{s:?} into an empty figment selects {}", n.profile());
        g = if s.takes_new() { n } else { n.select(profile) };
        let (got, got_md) = but_providers(&g, &c.paths);
        same_facts(&got, &want).map_err(|e| format!("{s:?} {i}, into an empty figment: {e}"))?;
        ensure!(got_md.len() == want_md.len() + i + 1 && got_md[..want_md.len()] == want_md[..], "{s:?} {i}: {} becomes {}", dbg(&want_md), dbg(&got_md));
    }
    // Selecting before is selecting after.
    if let Some(p) = &c.select {
        let (a, _) = but_providers(&g.select(p), &c.paths);
        let (b, _) = but_providers(&Figment::from(f.clone().select(p)), &c.paths);
        same_facts(&a, &b).map_err(|e| format!("selected late: {e}"))?;
    }
    // A figment on top of itself is itself.
    if model.failed.is_empty() {
        for g in [f.clone().merge(&f), f.clone().join(&f), Figment::from(&f).merge(&f).join(&f), Figment::new().join(&f).join(&f).select(f.profile().clone())] {
            let (got, got_md) = but_providers(&g, &c.paths);
            same_facts(&got, &want).map_err(|e| format!("on top of itself: {e}"))?;
            ensure!(got_md.len() <= want_md.len() + 3 && want_md.iter().all(|m| got_md.contains(m)), "on top of itself: {} becomes {}", dbg(&want_md), dbg(&got_md));
        }
    }
    cx.hit(provides(&c.ops) > 1);
    cx.class_if(!model.failed.is_empty(), "failing providers");
    cx.class_if(c.how.len() > 2, "nested three deep");
    Ok(())
}

// ------------------------------------------------------------- by reference

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refs { ops: Vec<Op>, refs: Vec<bool>, paths: Vec<String>, direct: Vec<(usize, Strat, MDict, String)> }

fn gen_refs(s: &mut Src) -> Refs {
    let fails = s.chance(1, 4);
    let ops = history(s, Hist { max_ops: 8, fails, ..HIST });
    let refs = ops.iter().map(|_| s.bool()).collect();
    let direct = s.vec(0, 5, 2, |s| (s.below(9), strat(s), match plainify(&MV::D(mdict(s, Shape { depth: 2, ..PLAIN }))) { MV::D(d) => d, _ => unreachable!() }, profile(s)));
    Refs { ops, refs, paths: s.vec(1, 4, 2, a_path), direct }
}

struct Mine { d: Map<Profile, Dict>, p: Option<Profile> }
impl Provider for Mine {
    fn metadata(&self) -> Metadata { Metadata::from("mine", "somewhere").interpolater(|p, k| format!("{p}|{}", k.join("|"))) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { if self.d.is_empty() { Err("empty".into()) } else { Ok(self.d.clone()) } }
    fn profile(&self) -> Option<Profile> { self.p.clone() }
}

fn no_places(f: &Figment, paths: &[String]) -> Vec<String> {
    let cut = |l: String| if l.starts_with("provider ") { l.split(" Some(\"src/").next().unwrap().to_string() } else { l };
    let mut out: Vec<String> = facts(f, paths).into_iter().map(cut).collect();
    for m in f.metadata() { out.push(format!("{} names {}", m.name, m.interpolate(&Profile::new("p"), &["k", "l"]))) }
    out
}

fn check_refs(c: &Refs, cx: &mut Cx) -> Outcome {
    fn with(ops: &[Op], refs: &dyn Fn(usize) -> bool) -> Vec<Op> {
        ops.iter().enumerate().map(|(i, o)| match o {
            Op::Provide { strat, kind, .. } => Op::Provide { strat: *strat, by_ref: refs(i), kind: match kind { Kind::Nested(n) => Kind::Nested(with(n, refs)), k => k.clone() } },
            o => o.clone(),
        }).collect()
    }
    let val = Run::of(&with(&c.ops, &|_| false)).real;
    let refs = Run::of(&with(&c.ops, &|_| true)).real;
    let mixed = Run::of(&with(&c.ops, &|i| c.refs.get(i) == Some(&true))).real;
    let want = no_places(&val, &c.paths);
    same_facts(&no_places(&refs, &c.paths), &want).map_err(|e| format!("all by reference: {e}"))?;
    same_facts(&no_places(&mixed, &c.paths), &want).map_err(|e| format!("some by reference: {e}"))?;
    // Without a wrapper in between, at any number of references.
    let (mut a, mut b, mut d) = (Figment::new(), Figment::new(), Figment::new());
    for (how, s, data, prof) in &c.direct {
        let text = text_of(if how % 3 == 0 { Fmt::Toml } else { Fmt::Json }, data);
        macro_rules! three { ($p:expr) => { { let p = $p; b = provide(b, *s, &p); d = provide(d, *s, &&&p); let q = &p; same_data(q, &q, &&q)?; a = provide(a, *s, p); } } }
        match how {
            0 => three!(Toml::string(&text).profile(prof)), 1 => three!(Json::string(&text).profile(prof)), 2 => three!(Yaml::string(&text).profile(prof)),
            3 => three!(Toml::string("a = 1\n[x]\ny = 2").nested()), 4 => three!(Serialized::from(Owned(MV::D(data.clone())), prof)),
            5 => three!((prof, Owned(MV::D(data.clone())))), 6 => three!(Mine { d: Profile::new(prof).collect(dict(data)), p: Some(Profile::new(prof)) }),
            7 => three!(val.clone()), _ => three!(Mine { d: Map::new(), p: None }),
        }
    }
    let want = no_places(&a, &c.paths);
    same_facts(&no_places(&b, &c.paths), &want).map_err(|e| format!("by reference: {e}"))?;
    same_facts(&no_places(&d, &c.paths), &want).map_err(|e| format!("by several references: {e}"))?;
    cx.hit(provides(&c.ops) + c.direct.len() > 1);
    Ok(())
}

fn same_data<P: Provider, Q: Provider, R: Provider>(p: P, q: Q, r: R) -> Outcome {
    fn of<P: Provider>(p: P) -> (String, Option<Profile>, Metadata, Option<Vec<Tag>>) { (format!("{:?}", p.data().map_err(|e| e.to_string())), p.profile(), p.metadata(), p.__metadata_map().map(|m| m.keys().copied().collect())) }
    let (p, q, r) = (of(p), of(q), of(r));
    ensure!(p == q && q == r, "a provider and references to it: {p:?}, {q:?}, {r:?}");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C25",
        subs: vec![
            Box::new(Sub { name: "reads", quick: 12_000, thorough: 600_000, rule: "at least two providers", gen, check }),
            Box::new(Sub { name: "reuse", quick: 12_000, thorough: 600_000, rule: "at least two providers", gen: gen_again, check: check_again }),
            Box::new(Sub { name: "references", quick: 10_000, thorough: 500_000, rule: "at least two providers", gen: gen_refs, check: check_refs }),
        ],
        assumptions: &["A figment provided to another is itself listed as a provider there."],
    }
}
