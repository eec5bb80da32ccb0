//! Environment variables map to keys as the pipeline says.

use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::reference::env_value;
use figment::providers::Env;
use figment::value::Dict;
use figment::{Figment, Profile, Provider};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Var { name: String, value: String, #[serde(default)] bad_name: bool, #[serde(default)] bad_value: bool }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Test { Starts(String), Contains(char), Longer(usize), Is(String), Never, Always }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Change { Append(String), Prepend(String), Replace(String, String), Upper, Lower, Const(String), Reverse, Keep, CutFirst }

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum P {
    Filter(Test), Map(Change), FilterMap(Test, Change), Split(String), Only(Vec<String>), Ignore(Vec<String>),
    Lowercase(bool), Profile(String), Global, Clone,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case { vars: Vec<Var>, prefix: Option<String>, pipe: Vec<P>, lookups: Vec<String> }

impl Test {
    fn holds(&self, k: &str) -> bool {
        match self {
            Test::Starts(p) => k.starts_with(p.as_str()), Test::Contains(c) => k.contains(*c), Test::Longer(n) => k.len() > *n,
            Test::Is(w) => k == w, Test::Never => false, Test::Always => true,
        }
    }
}

impl Change {
    fn apply(&self, k: &str) -> String {
        match self {
            Change::Append(x) => format!("{k}{x}"), Change::Prepend(x) => format!("{x}{k}"), Change::Replace(a, b) => k.replace(a.as_str(), b),
            Change::Upper => k.to_uppercase(), Change::Lower => k.to_lowercase(), Change::Const(c) => c.clone(),
            Change::Reverse => k.chars().rev().collect(), Change::Keep => k.into(), Change::CutFirst => k.chars().skip(1).collect(),
        }
    }
}

fn piece(s: &mut Src) -> String {
    s.pick(&["APP", "app", "App", "A", "b", "C", "foo", "BAR", "db", "HOST", "port", "x1", "é", "É"]).into()
}

fn sep(s: &mut Src) -> String { s.pick(&["_", "_", "__", ".", "-", "", " "]).into() }

fn name(s: &mut Src) -> String {
    if s.chance(1, 150) { let t = long_text(s, 2049); return if s.bool() { format!("APP_{t}") } else { format!("APP_{t}_x") } }
    let mut n = piece(s);
    for _ in 0..s.below(4) { n.push_str(&sep(s)); n.push_str(&piece(s)); }
    match s.weighted(&[10, 1, 1, 1, 1, 1]) { 1 => format!(" {n}"), 2 => format!("{n}\t"), 3 => format!("_{n}"), 4 => format!("{n}_"), 5 => string(s), _ => n }
}

fn test(s: &mut Src) -> Test {
    match s.below(6) {
        0 => Test::Starts(piece(s)), 1 => Test::Contains(s.pick(&['_', 'a', 'A', '.', 'o', 'O'])), 2 => Test::Longer(s.below(12)), 3 => Test::Is(name(s)),
        4 => Test::Always, _ => if s.chance(1, 4) { Test::Never } else { Test::Always },
    }
}

fn change(s: &mut Src) -> Change {
    match s.below(9) {
        0 => Change::Keep, 1 => Change::Append(s.pick(&["_x", ".y", ".", "Z"]).into()), 2 => Change::Prepend(s.pick(&["x_", "Y.", ".", "Z"]).into()),
        3 => Change::Replace(s.pick(&["_", "__", "A", "o", "."]).into(), s.pick(&[".", "", "-", "_", ".."]).into()),
        4 => Change::Upper, 5 => Change::Lower, 6 => Change::Reverse, 7 => Change::CutFirst, _ => if s.chance(1, 5) { Change::Const(name(s)) } else { Change::Keep },
    }
}

fn recase(s: &mut Src, k: String) -> String {
    match s.below(4) { 0 => k.to_uppercase(), 1 => k.to_lowercase(), _ => k }
}

fn gen(s: &mut Src) -> Case {
    let mut vars: Vec<Var> = vec![];
    for v in s.vec(0, 12, 5, |s| {
        let name: String = name(s).chars().filter(|c| *c != '=' && *c != '\0').collect();
        let value = match s.below(6) {
            0 => s.pick(&["", " 1 ", "[1, 2]", "{a=1, b={c=2}}", "true", "\"x\"", "a.b", "-3", "0.5", "{a", " padded text "]).into(),
            1 => string(s),
            n => n.to_string(),
        };
        Var { name, value: value.chars().filter(|c| *c != '\0').collect(), bad_name: s.chance(1, 40), bad_value: s.chance(1, 40) }
    }) {
        if !v.name.is_empty() && !vars.iter().any(|o| o.name == v.name && o.bad_name == v.bad_name) { vars.push(v) }
    }
    let names: Vec<String> = vars.iter().map(|v| v.name.trim().to_string()).collect();
    let some_name = |s: &mut Src| -> String {
        if names.is_empty() || s.chance(1, 4) { return name(s) }
        let n = s.pick(&names);
        recase(s, n)
    };
    let prefix = match s.below(3) {
        0 => None,
        1 => Some(s.pick(&["APP_", "app", "", "A", "App.", "a_", "é", "DB"]).into()),
        _ => { let n: Vec<char> = some_name(s).chars().collect(); let k = s.below(n.len() + 1); Some(recase(s, n[..k].iter().collect())) }
    };
    // Keys as they are at some stage, to aim `only` and `ignore` at.
    let stage = |s: &mut Src| -> String {
        let n = some_name(s);
        match (&prefix, s.below(3)) {
            (Some(p), 0 | 1) if n.to_lowercase().starts_with(&p.to_lowercase()) => n.chars().skip(p.chars().count()).collect(),
            (_, 2) => n.replace('_', "."),
            _ => n,
        }
    };
    let pipe = s.vec(0, 6, 2, |s| match s.weighted(&[3, 3, 3, 2, 2, 3, 2, 2, 1, 1]) {
        0 => P::Split(s.pick(&["_", "__", "-", ".", "A", "", "o"]).into()),
        1 => P::Only(s.vec(0, 5, 3, stage)),
        2 => P::Ignore(s.vec(0, 4, 2, stage)),
        3 => P::Filter(test(s)),
        4 => P::Map(change(s)),
        5 => P::Lowercase(s.bool()),
        6 => P::FilterMap(test(s), change(s)),
        7 => P::Profile(profile(s)),
        8 => P::Global,
        _ => P::Clone,
    });
    let lookups = s.vec(1, 4, 2, |s| { let n = some_name(s); if s.chance(1, 6) { format!("{n}x") } else { n } });
    Case { vars, prefix, pipe, lookups }
}

/// More variables than any other case has, many in one dictionary.
fn gen_many(s: &mut Src) -> Case {
    let tops = s.size(1, 80);
    let names: std::collections::BTreeSet<String> = s.vec(1, 200, 60, |s| {
        let mut n = format!("APP_{}", s.below(tops));
        if s.chance(1, 8) { return n + "_v" }
        for _ in 0..s.size(1, 3) { n.push_str(s.pick(&["_A", "_B", "_c"])) }
        n + s.pick(&["_v", "_w", "_x"])
    }).into_iter().collect();
    let vars = names.into_iter().map(|name| Var { name, value: s.below(10).to_string(), bad_name: false, bad_value: false }).collect();
    let mut pipe = vec![P::Split("_".into())];
    if s.chance(1, 4) { pipe.push(P::Profile(profile(s))) }
    Case { vars, prefix: if s.bool() { Some("app_".into()) } else { None }, pipe, lookups: vec![] }
}

fn lossy(t: &str, bad: bool) -> String { if bad { format!("{t}\u{fffd}") } else { t.into() } }

fn os(t: &str, bad: bool) -> OsString {
    let mut b = t.as_bytes().to_vec();
    if bad { b.push(0xff) }
    OsString::from_vec(b)
}

fn cut(hay: &str, pat: &str) -> Vec<String> {
    // Non-overlapping, left to right.
    if pat.is_empty() { return std::iter::once(String::new()).chain(hay.chars().map(|c| c.to_string())).chain([String::new()]).collect() }
    let (mut out, mut cur, mut rest) = (vec![], String::new(), hay);
    while let Some(c) = rest.chars().next() {
        if rest.starts_with(pat) { out.push(std::mem::take(&mut cur)); rest = &rest[pat.len()..] } else { cur.push(c); rest = &rest[c.len_utf8()..] }
    }
    out.push(cur);
    out
}

/// The key a variable name is mapped to.
fn key_of(c: &Case, name: &str) -> Option<String> {
    let mut k = name.trim().to_string();
    if let Some(p) = &c.prefix {
        if k.len() < p.len() || !k.is_char_boundary(p.len()) || !k[..p.len()].eq_ignore_ascii_case(p) { return None }
        k = k[p.len()..].to_string();
    }
    let mut lower = true;
    for p in &c.pipe {
        match p {
            P::Filter(t) => if !t.holds(&k) { return None },
            P::Map(m) => k = m.apply(&k),
            P::FilterMap(t, m) => { if !t.holds(&k) { return None } k = m.apply(&k) }
            P::Split(pat) => k = cut(&k, pat).join("."),
            P::Only(ks) => if !ks.iter().any(|o| o.eq_ignore_ascii_case(&k)) { return None },
            P::Ignore(ks) => if ks.iter().any(|o| o.eq_ignore_ascii_case(&k)) { return None },
            P::Lowercase(l) => lower = *l,
            P::Profile(_) | P::Global | P::Clone => {}
        }
    }
    let k = k.trim();
    if k.split('.').any(|s| s.is_empty()) { return None }
    Some(if lower { k.to_ascii_lowercase() } else { k.to_string() })
}

fn build(c: &Case) -> Env {
    let mut e = match &c.prefix { Some(p) => Env::prefixed(p), None => Env::raw() };
    for p in c.pipe.clone() {
        e = match p {
            P::Filter(t) => e.filter(move |k| t.holds(k.as_str())),
            P::Map(m) => e.map(move |k| m.apply(k.as_str()).into()),
            P::FilterMap(t, m) => e.filter_map(move |k| t.holds(k.as_str()).then(|| m.apply(k.as_str()).into())),
            P::Split(x) => e.split(x),
            P::Only(ks) => e.only(&ks.iter().map(|k| k.as_str()).collect::<Vec<_>>()),
            P::Ignore(ks) => e.ignore(&ks.iter().map(|k| k.as_str()).collect::<Vec<_>>()),
            P::Lowercase(l) => e.lowercase(l),
            P::Profile(p) => e.profile(p),
            P::Global => e.global(),
            P::Clone => e.clone(),
        };
    }
    e
}

pub fn clear_env() { for (k, _) in std::env::vars_os() { if !k.is_empty() { std::env::remove_var(k) } } }

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    clear_env();
    let env = build(c);
    for v in &c.vars { std::env::set_var(os(&v.name, v.bad_name), os(&v.value, v.bad_value)) }
    let r = check_set(c, &env, cx);
    clear_env();
    r?;
    // Read when asked, not when built.
    ensure!(env.iter().next().is_none(), "variables of an earlier environment remain: {:?}", env);
    Ok(())
}

fn check_set(c: &Case, env: &Env, cx: &mut Cx) -> Outcome {
    let mut want: Vec<(String, String)> = c.vars.iter()
        .filter_map(|v| Some((key_of(c, &lossy(&v.name, v.bad_name))?, lossy(&v.value, v.bad_value)))).collect();
    let mut got: Vec<(String, String)> = env.iter().map(|(k, v)| (k.as_str().to_string(), v)).collect();
    want.sort();
    got.sort();
    ensure_eq!(got, want, "iter()");

    let comps = |k: &str| k.split('.').map(|x| x.to_string()).collect::<Vec<_>>();
    let clash = want.iter().enumerate().any(|(i, a)| want.iter().skip(i + 1).any(|b| { let (a, b) = (comps(&a.0), comps(&b.0)); a.starts_with(&b) || b.starts_with(&a) }));
    let mut data = PDict::new();
    let mut prof = "default".to_string();
    for p in &c.pipe { match p { P::Profile(p) => prof = p.clone(), P::Global => prof = "global".into(), _ => {} } }
    let o = (0, prof.clone());
    for (k, v) in &want {
        let v = if v.trim().is_empty() { MV::Unit } else { env_value(v) };
        let MV::D(d) = super::c04::wrap(&comps(k), v) else { unreachable!() };
        data = combine_dict(data, pdict(&d, &o), Strat::Merge);
    }
    let want_mv = MV::D(pdict_mv(&data));
    let real = env.data().map_err(|e| format!("data() fails: {e}"))?;
    ensure!(real.len() == 1 && *real.keys().next().unwrap() == Profile::new(&prof), "data() is for {:?}, expected {prof:?}", real.keys());
    let f = Figment::new().merge(env.clone()).select(&prof);
    let seen: Dict = f.extract().map_err(|e| format!("extract fails: {e}"))?;
    for (i, (k, v)) in want.iter().enumerate() {
        // What only one variable has a say in.
        if !clash { break }
        let k = comps(k);
        if want.iter().enumerate().any(|(j, o)| i != j && { let o = comps(&o.0); o.starts_with(&k) || k.starts_with(&o) }) { continue }
        let v = if v.trim().is_empty() { MV::Unit } else { env_value(v) };
        let got = k.iter().skip(1).try_fold(&real.values().next().unwrap()[&k[0]], |v, k| v.as_dict()?.get(k)).map(MV::of);
        ensure!(got.as_ref().is_some_and(|g| g.same(&v) || v == MV::Unit && matches!(g, MV::S(_))), "data(): {k:?} is {got:?}, expected {v:?}");
    }
    if !clash {
        // An empty variable is an empty value or an empty string.
        fn blank(v: MV) -> MV { match v { MV::Unit => MV::S(String::new()), MV::D(d) => MV::D(d.into_iter().map(|(k, v)| (k, blank(v))).collect()), v => v } }
        let d = blank(MV::D(of_dict(real.values().next().unwrap())));
        ensure!(d.same(&blank(want_mv.clone())), "data(): got {d:?}, expected {want_mv:?}");
        ensure!(blank(MV::D(of_dict(&seen))).same(&blank(want_mv.clone())), "extraction: got {seen:?}, expected {want_mv:?}");
    }
    ensure!(env.profile().is_none(), "the provider selects a profile");
    ensure_eq!(f.profile().as_str().as_str(), prof.as_str(), "selected profile");

    // Single variables.
    for n in &c.lookups {
        let all: Vec<String> = c.vars.iter().filter(|v| lossy(&v.name, v.bad_name).trim().eq_ignore_ascii_case(n))
            .map(|v| lossy(&v.value, v.bad_value).trim().to_string()).collect();
        let got = Env::var(n);
        ensure!(match &got { Some(g) => all.contains(g), None => all.is_empty() }, "Env::var({n:?}) gives {got:?}, expected one of {all:?}");
        let got = Env::var_or(n, "the default");
        ensure!(if all.is_empty() { got == "the default" } else { all.contains(&got) }, "Env::var_or({n:?}) gives {got:?}, expected one of {all:?}");
        cx.class_if(!all.is_empty(), "lookup of a set variable");
    }
    cx.hit(!want.is_empty() && want.len() < c.vars.len());
    cx.class_if(clash, "clashing keys");
    cx.class_if(want.iter().any(|w| w.0.contains('.')), "nested keys");
    cx.class_if(c.pipe.iter().any(|p| matches!(p, P::Lowercase(false))), "lowercase off");
    cx.class_if(!want.is_empty() && c.pipe.iter().any(|p| matches!(p, P::Only(_))), "passes only()");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C12",
        subs: vec![
            Box::new(Sub { name: "pipeline", quick: 1_200_000, thorough: 15_000_000, gen, check,
                rule: "up to 12 variables (case variants, separators, spaces, non-Unicode and non-UTF-8 names) and a pipeline of up to six steps after an optional prefix, against a reference pipeline; non-trivial: some but not all variables pass" }),
            Box::new(Sub { name: "many", quick: 8_000, thorough: 200_000, gen: gen_many, check: |c, cx| { check(c, cx)?; cx.hit(c.vars.len() > 64); Ok(()) },
                rule: "up to 200 variables, most of which share dictionaries, split at underscores; non-trivial: more than 64 variables" }),
        ],
        assumptions: &["when two variables map to the same or nested keys, either may win", "an empty variable may be an empty string or nothing"],
    }
}
