//! Metadata lists every provider once, in order, with its call sites.

use std::collections::BTreeMap;

use crate::checks::c12::clear_env;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How { Value, Ref, RefRef, Helper, Boxed }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What { Serialized(usize, String), Pair(u8), Text(u8), File(u8, String), Env(u8), Mine(String, u8), Fails }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Provide { to: usize, what: What, strat: Strat, how: How },
    /// This many providers, in a loop.
    Many { to: usize, n: usize },
    /// One figment into another.
    Nest { to: usize, from: usize, strat: Strat, how: How },
    Copy { to: usize, from: usize },
    /// Starts anew with a provider or a figment.
    From { to: usize, what: What },
    Wrap { to: usize },
    Select { to: usize, profile: String },
    Focus { to: usize, path: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { figs: usize, steps: Vec<Step> }

fn what(s: &mut Src) -> What {
    match s.weighted(&[6, 2, 3, 2, 2, 4, 1]) {
        0 => What::Serialized(s.below(7), profile(s)), 1 => What::Pair(s.below(3) as u8), 2 => What::Text(s.below(4) as u8), 3 => What::File(s.below(4) as u8, s.pick(&["no/such.file", "/none.toml", "x"]).into()),
        4 => What::Env(s.below(7) as u8), 5 => What::Mine(string(s), s.below(6) as u8), _ => What::Fails,
    }
}

fn gen(s: &mut Src) -> Case {
    let figs = s.size(1, 4);
    let steps = s.vec(1, 20, 7, |s| {
        let (to, from) = (s.below(figs), s.below(figs));
        let how = s.pick(&[How::Value, How::Ref, How::RefRef, How::Helper, How::Boxed]);
        match s.weighted(&[8, 5, 1, 2, 1, 1, 1]) {
            0 if s.chance(1, 400) => Step::Many { to, n: s.pick(&[33, 65, 101, 130, 257]) },
            0 => Step::Provide { to, what: what(s), strat: strat(s), how },
            1 => Step::Nest { to, from, strat: strat(s), how },
            2 => Step::Copy { to, from },
            3 => Step::From { to, what: what(s) },
            4 => Step::Wrap { to },
            5 => Step::Select { to, profile: profile(s) },
            _ => Step::Focus { to, path: s.pick(&["a", "k", "a.b", ""]).into() },
        }
    });
    Case { figs, steps }
}

struct Mine { name: String, how: u8 }
impl Provider for Mine {
    fn metadata(&self) -> Metadata {
        let n = self.how;
        let md = match n { 0 | 1 => Metadata::named(self.name.clone()), 2 => Metadata::from(self.name.clone(), "a place"), 3 => Metadata::from(self.name.clone(), std::path::Path::new("/x/y")), _ => Metadata::default().source(self.name.clone()) };
        // A provider cannot say where it is provided.
        let mut md = if n % 2 == 0 { md.interpolater(move |p, k| format!("{n}~{p}~{}", k.join("~"))) } else { md };
        if n == 5 { md.provide_location = Some(std::panic::Location::caller()) }
        md
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(Profile::Default.collect([("m".to_string(), Value::from(self.how))].into())) }
}

struct Fails;
impl Provider for Fails {
    fn metadata(&self) -> Metadata { Metadata::named("fails") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Err("fails".into()) }
}

/// What a user's own wrapper looks like.
struct Boxed(Box<dyn Fn() -> Result<Map<Profile, Dict>, Error>>, Metadata, Option<Profile>);
impl Provider for Boxed {
    fn metadata(&self) -> Metadata { self.1.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { (self.0)() }
    fn profile(&self) -> Option<Profile> { self.2.clone() }
}

/// Where a call is made.
type At = (&'static str, u32);

#[track_caller]
fn helper<P: Provider>(f: Figment, s: Strat, p: P) -> Figment {
    match s { Strat::Merge => f.merge(p), Strat::Join => f.join(p), Strat::Admerge => f.admerge(p), Strat::Adjoin => f.adjoin(p) }
}

fn provide<P: Provider>(f: Figment, s: Strat, p: P, how: How) -> (Figment, At) {
    let (f, line) = match (how, s) {
        (How::Ref, Strat::Merge) => (f.merge(&p), line!()),
        (How::Ref, Strat::Join) => (f.join(&p), line!()),
        (How::Ref, Strat::Admerge) => (f.admerge(&p), line!()),
        (How::Ref, Strat::Adjoin) => (f.adjoin(&p), line!()),
        (How::RefRef, Strat::Merge) => (f.merge(&&p), line!()),
        (How::RefRef, Strat::Join) => (f.join(&&p), line!()),
        (How::RefRef, Strat::Admerge) => (f.admerge(&&p), line!()),
        (How::RefRef, Strat::Adjoin) => (f.adjoin(&&p), line!()),
        (How::Helper, s) => (helper(f, s, p), line!()),
        (_, Strat::Merge) => (f.merge(p), line!()),
        (_, Strat::Join) => (f.join(p), line!()),
        (_, Strat::Admerge) => (f.admerge(p), line!()),
        (_, Strat::Adjoin) => (f.adjoin(p), line!()),
    };
    (f, (file!(), line))
}

#[derive(Clone, Debug)]
struct Entry { name: String, source: Option<Source>, naming: String, at: At }

fn naming(m: &Metadata) -> String {
    format!("{} / {} / {}", m.interpolate(&Profile::Default, &["a", "B"]), m.interpolate(&Profile::new("Own"), &["x", "0", "y z"]), m.interpolate::<&str>(&Profile::Global, &[]))
}

#[derive(Clone, Default)]
struct Fig { real: Figment, /// By the time they were provided.
    entries: BTreeMap<usize, Entry> }

/// Any built-in provider, by `$go`, and what it must declare.
macro_rules! with_what {
    ($what:expr, |$p:ident, $declared:ident| $body:expr) => {{
        let plain = |name: &str, src: Option<Source>| (Some(name.to_string()), src, None::<At>);
        let map = || BTreeMap::from([("k", 1)]);
        match $what {
            What::Serialized(how, prof) => {
                let ($p, line) = match how {
                    0 => (Serialized::from(map(), prof), line!()),
                    1 => (Serialized::defaults(map()), line!()),
                    2 => (Serialized::globals(map()), line!()),
                    3 => (Serialized::default("a.b", map()), line!()),
                    4 => (Serialized::global("a", map()), line!()),
                    5 => (Serialized::from(map(), prof).key("x.y"), line!()),
                    _ => (Serialized::defaults(map()).profile(prof).key("z"), line!()),
                };
                let $declared = (Some(std::any::type_name::<BTreeMap<&str, i32>>().to_string()), None, Some((file!(), line)));
                $body
            }
            What::Pair(0) => { let $p = ("a", 1u8); let $declared = plain("(&str, u8)", None); $body }
            What::Pair(1) => { let $p = ("a.b".to_string(), vec![true]); let $declared = (Some(format!("({}, {})", std::any::type_name::<String>(), std::any::type_name::<Vec<bool>>())), None, None); $body }
            What::Pair(_) => { let $p = ("k", map()); let $declared = (Some(format!("(&str, {})", std::any::type_name::<BTreeMap<&str, i32>>())), None, None); $body }
            What::Text(0) => { let $p = Toml::string("a = 1"); let $declared = plain("TOML source string", None); $body }
            What::Text(1) => { let $p = Json::string("{\"a\": 1}"); let $declared = plain("JSON source string", None); $body }
            What::Text(2) => { let $p = Yaml::string("a: 1"); let $declared = plain("YAML source string", None); $body }
            What::Text(_) => { let $p = YamlExtended::string("a: 1"); let $declared = plain("YAML Extended source string", None); $body }
            What::File(how, path) => {
                let src = Some(Source::File(path.into()));
                match how {
                    0 => { let $p = Toml::file(path); let $declared = plain("TOML file", src); $body }
                    1 => { let $p = Json::file(path).profile("p"); let $declared = plain("JSON file", src); $body }
                    2 => { let $p = Yaml::file_exact(path); let $declared = plain("YAML file", src); $body }
                    _ => { let $p = Toml::file(path).nested(); let $declared = plain("TOML file", src); $body }
                }
            }
            What::Env(how) => match how {
                0 => { let $p = Env::raw(); let $declared = plain("environment variable(s)", None); $body }
                1 => { let $p = Env::prefixed("abc_"); let $declared = plain("`ABC_` environment variable(s)", None); $body }
                2 => { let $p = Env::prefixed("ABC_").split("_").map(|k| k.into()).global(); let $declared = plain("`ABC_` environment variable(s)", None); $body }
                4 => { let $p = Env::prefixed("Many_words_in_a_long_Prefix_").filter(|k| k != "x").lowercase(false); let $declared = plain("`MANY_WORDS_IN_A_LONG_PREFIX_` environment variable(s)", None); $body }
                5 => { let $p = Env::prefixed("Many words.").ignore(&["a"]).filter_map(|k| Some(k.into())); let $declared = plain("`MANY WORDS.` environment variable(s)", None); $body }
                6 => { let $p = Env::prefixed("a").only(&["b"]).profile("p").split("."); let $declared = plain("`A` environment variable(s)", None); $body }
                _ => { let $p = Env::raw().only(&["a"]).profile("p"); let $declared = plain("environment variable(s)", None); $body }
            },
            What::Mine(name, how) => {
                let $p = Mine { name: name.clone(), how: *how };
                let $declared = match how { 0 | 1 => plain(name, None), 2 => plain(name, Some("a place".into())), 3 => plain(name, Some(std::path::Path::new("/x/y").into())), _ => plain("Default", Some(Source::Custom(name.clone()))) };
                $body
            }
            What::Fails => { let $p = Fails; let $declared = plain("fails", None); $body }
        }
    }};
}

type Declared = (Option<String>, Option<Source>, Option<At>);

fn entry(m: &Metadata, declared: Declared, at: At) -> Result<Entry, String> {
    let (name, source, code) = declared;
    if let Some(n) = name { ensure_as(&m.name, &n)? }
    match code {
        Some((file, line)) => {
            let l = m.source.as_ref().and_then(|s| s.code_location()).ok_or_else(|| format!("{m:?}: code without a location"))?;
            if (l.file(), l.line()) != (file, line) { return Err(format!("made at {file}:{line}, said to be at {l}")) }
        }
        None => if m.source != source { return Err(format!("{} has the source {:?}, expected {source:?}", m.name, m.source)) },
    }
    Ok(Entry { name: m.name.to_string(), source: m.source.clone(), naming: naming(m), at })
}

fn ensure_as(got: &str, want: &str) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("it is named {got:?}, expected {want:?}")) } }

fn add(fig: &mut Fig, what: &What, s: Strat, how: How, time: usize) -> Outcome {
    let f = std::mem::take(&mut fig.real);
    let (f, e) = with_what!(what, |p, declared| {
        let declared: Declared = declared;
        let md = p.metadata();
        let (f, at) = match how {
            How::Boxed => { let (d, pr) = (p.data(), Provider::profile(&p)); provide(f, s, Boxed(Box::new(move || d.clone()), md.clone(), pr), how) }
            _ => provide(f, s, p, how),
        };
        (f, entry(&md, declared, at)?)
    });
    fig.real = f;
    fig.entries.insert(time, e);
    Ok(())
}

fn itself(at: At) -> Entry { let m = Metadata::default(); Entry { name: "Default".into(), source: None, naming: naming(&m), at } }

fn compare(f: &Fig, which: usize, after: &Step) -> Outcome {
    let got: Vec<&Metadata> = f.real.metadata().collect();
    let all = || format!("figment {which}: {:?}, expected {:?}", got.iter().map(|m| (m.name.to_string(), m.provide_location.map(|l| l.line()))).collect::<Vec<_>>(), f.entries.values().map(|e| (&e.name, e.at.1)).collect::<Vec<_>>());
    ensure!(got.len() == f.entries.len(), "after {after:?}: {}", all());
    for (m, e) in got.iter().zip(f.entries.values()) {
        ensure!(m.name == e.name && m.source == e.source, "after {after:?}: {:?} {:?} instead of {:?} {:?}; {}", m.name, m.source, e.name, e.source, all());
        ensure!(naming(m) == e.naming, "after {after:?}: {} names keys {:?}, declared {:?}", m.name, naming(m), e.naming);
        let l = m.provide_location.ok_or_else(|| format!("after {after:?}: {} has no place; {}", m.name, all()))?;
        ensure!((l.file(), l.line()) == e.at, "after {after:?}: {} was provided at line {}, said to be at {l}; {}", m.name, e.at.1, all());
    }
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    clear_env();
    let mut figs: Vec<Fig> = vec![Fig::default(); c.figs];
    let mut nested = false;
    let mut late = false;
    for (i, step) in c.steps.iter().enumerate() {
        let time = i * 1000;
        let to = match step {
            Step::Many { to, n } => {
                let mut f = std::mem::take(&mut figs[*to].real);
                for i in 0..*n {
                    let line = line!(); f = f.join((format!("many{i}"), i));
                    let md = f.metadata().last().ok_or("no metadata")?.clone();
                    ensure!(md.source.is_none(), "a pair has the source {:?}", md.source);
                    figs[*to].entries.insert(time + i, Entry { name: md.name.to_string(), source: md.source.clone(), naming: naming(&md), at: (file!(), line) });
                }
                figs[*to].real = f;
                to
            }
            Step::Provide { to, what, strat, how } => { late |= figs[*to].entries.keys().max().map_or(false, |m| *m / 1000 + 1 < i); add(&mut figs[*to], what, *strat, *how, time)?; to }
            Step::Nest { to, from, strat, how } => {
                let other = figs[*from].clone();
                let own = std::mem::take(&mut figs[*to].real);
                nested |= !other.entries.is_empty();
                let (f, at) = match how {
                    // A wrapper of one's own knows nothing about the providers inside.
                    How::Boxed => provide(own, *strat, other.real, How::Value),
                    how => provide(own, *strat, other.real, *how),
                };
                figs[*to].real = f;
                figs[*to].entries.extend(other.entries);
                figs[*to].entries.insert(time, itself(at));
                to
            }
            Step::Copy { to, from } => { figs[*to] = figs[*from].clone(); to }
            Step::From { to, what } => {
                let (f, e) = with_what!(what, |p, declared| { let md = p.metadata(); let (f, line) = (Figment::from(p), line!()); let d: Declared = declared; (f, entry(&md, d, (file!(), line))?) });
                figs[*to] = Fig { real: f, entries: [(time, e)].into() };
                to
            }
            Step::Wrap { to } => {
                let own = std::mem::take(&mut figs[*to].real);
                let (f, line) = (Figment::from(own), line!());
                figs[*to].real = f;
                figs[*to].entries.insert(time, itself((file!(), line)));
                nested = true;
                to
            }
            Step::Select { to, profile } => { figs[*to].real = std::mem::take(&mut figs[*to].real).select(profile); to }
            Step::Focus { to, path } => { figs[*to].real = figs[*to].real.focus(path); to }
        };
        compare(&figs[*to], *to, step)?;
    }
    for (i, f) in figs.iter().enumerate() {
        compare(f, i, c.steps.last().unwrap())?;
        // Reading leaves it as it is.
        let _ = (f.real.extract::<Value>(), f.real.find_metadata("a").is_some(), f.real.data());
        compare(f, i, c.steps.last().unwrap())?;
    }
    cx.hit(figs.iter().any(|f| f.entries.len() > 1));
    cx.class_if(nested, "nested figments");
    cx.class_if(late, "interleaved with other figments");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C27",
        subs: vec![Box::new(Sub { name: "metadata", quick: 800_000, thorough: 20_000_000, rule: "a figment with at least two providers", gen, check })],
        assumptions: &["A figment provided to another is listed there itself, as a provider named Default; one provided twice is listed once for each time, its providers once."],
    }
}
