//! Profile names form one case-insensitive identity everywhere.

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ffi::OsString;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStringExt;

use crate::checks::c12::clear_env;
use crate::core::*;
use crate::gen;
use figment::providers::{Format, Json, Serialized, Toml};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::{Deserialize, Serialize};

/// The same name with the case of some ASCII letters changed.
fn recase(s: &mut Src, n: &str) -> String {
    match s.below(4) {
        0 => n.to_ascii_uppercase(),
        1 => n.to_ascii_lowercase(),
        _ => n.chars().map(|c| if s.bool() { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect(),
    }
}

fn name(s: &mut Src) -> String {
    match s.weighted(&[3, 4, 2, 2, 2]) {
        0 => s.pick(&["default", "global", "debug", "release", "", "Default", "GLOBAL", "dEfAuLt", "globaL", "defaults", "globals", "defaul", " default", "default ", "global\0", "d", "g"]).into(),
        1 => gen::profile(s),
        2 => gen::string(s),
        // Characters that lowercase to others, but not in ASCII; the neighbours of the ASCII letters.
        3 => s.vec(0, 6, 3, |s| s.pick(&['K', 'K', 'k', 'ſ', 's', 'S', 'İ', 'I', 'i', 'ı', 'É', 'é', 'ß', 'ẞ', '@', '`', '[', '{', 'A', 'a', 'Z', 'z', '^', '~', '_', '\u{7f}', '-', '\r'])).into_iter().collect(),
        _ => s.vec(0, 40, 12, gen::ch).into_iter().collect(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { names: Vec<String>, values: Vec<i64> }

fn gen(s: &mut Src) -> Case {
    let mut names: Vec<String> = vec![];
    for _ in 0..s.size(2, 6) {
        let n = match s.weighted(&[3, 4, 1]) {
            1 if !names.is_empty() => { let b = s.pick(&names); recase(s, &b) }
            // Nearly the same.
            2 if !names.is_empty() => {
                let mut b: Vec<char> = s.pick(&names).chars().collect();
                match s.below(3) {
                    0 => { b.pop(); }
                    1 => b.push(gen::ch(s)),
                    _ if !b.is_empty() => { let i = s.below(b.len()); b[i] = gen::ch(s) }
                    _ => {}
                }
                b.into_iter().collect()
            }
            _ => name(s),
        };
        names.push(n);
    }
    let values = names.iter().map(|_| s.range(0, 1000)).collect();
    Case { names, values }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// The same, without the standard library's help.
fn same(a: &str, b: &str) -> bool {
    let low = |x: u8| if (b'A'..=b'Z').contains(&x) { x + 32 } else { x };
    a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| low(x) == low(y))
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let ps: Vec<Profile> = c.names.iter().map(|n| Profile::new(n)).collect();
    for (a, p) in c.names.iter().zip(&ps) {
        spelling(a, p)?;
        let (d, g) = (same(a, "default"), same(a, "global"));
        ensure!(p.is_custom() == !(d || g), "{a:?}: custom {}", p.is_custom());
        ensure!((p == &Profile::Default) == d && (*p == Profile::Global) == g, "{a:?} against the built-in profiles");
        for (b, q) in c.names.iter().zip(&ps) {
            let want = same(a, b);
            if want && a != b { cx.hit(true); cx.class("equal, spelled differently") }
            cx.class_if(!want && a.to_lowercase() == b.to_lowercase(), "equal only in Unicode");
            let r: &str = b;
            let forms = [
                ("Profile == Profile", *p == *q), ("&Profile == &Profile", &p == &q), ("&Profile == Profile", p == *q), ("Profile == &Profile", *p == q),
                ("Profile == str", *p == *r), ("Profile == &str", *p == r), ("str == Profile", *a.as_str() == *q), ("&str == Profile", a.as_str() == *q),
                ("clone", p.clone() == *q), ("as_str", p.as_str() == q.as_str()), ("as_str == str", p.as_str() == r), ("deref", **p == **q),
                ("!=", !(*p != *q)), ("!= str", !(*p != *r)), ("from", Profile::from(a) == Profile::from(r)),
                ("sets", HashSet::from([p.clone()]).contains(q)), ("ordered sets", BTreeSet::from([p.clone()]).contains(q)),
            ];
            for (form, got) in forms { ensure!(got == want, "{a:?}, {b:?}: {form}: {got}") }
            ensure!(!want || hash(p) == hash(q), "{a:?} and {b:?} are equal, but hash differently");
            let o = p.cmp(q);
            ensure!((o == std::cmp::Ordering::Equal) == want, "{a:?}, {b:?}: ordered {o:?}, equal {want}");
            ensure!(p.partial_cmp(q) == Some(o) && q.cmp(p) == o.reverse(), "{a:?}, {b:?}: orders disagree: {o:?}, {:?}, {:?}", p.partial_cmp(q), q.cmp(p));
            ensure!((p < q) == o.is_lt() && (p >= q) == o.is_ge(), "{a:?}, {b:?}: operators");
            for (x, r) in c.names.iter().zip(&ps) { ensure!(!(p <= q && q <= r) || p <= r, "{a:?} <= {b:?} <= {x:?}, but not {a:?} <= {x:?}") }
            let starts = a.get(..b.len()).map_or(false, |x| same(x, b));
            ensure!(p.starts_with(b) == starts, "{a:?} starts with {b:?}: {}", p.starts_with(b));
        }
    }
    // One entry for each identity, in any collection.
    let mut want: Vec<(String, i64)> = vec![];
    for (n, v) in c.names.iter().zip(&c.values) {
        match want.iter_mut().find(|(w, _)| same(w, n)) { Some(w) => w.1 = *v, None => want.push((n.clone(), *v)) }
    }
    let hashed: HashMap<Profile, i64> = ps.iter().cloned().zip(c.values.iter().copied()).collect();
    let ordered: BTreeMap<Profile, i64> = ps.iter().cloned().zip(c.values.iter().copied()).collect();
    ensure!(hashed.len() == want.len() && ordered.len() == want.len(), "{} identities, {} and {} entries", want.len(), hashed.len(), ordered.len());
    for n in &c.names {
        let v = want.iter().find(|(w, _)| same(w, n)).unwrap().1;
        let p = Profile::new(n);
        ensure!(hashed.get(&p) == Some(&v) && ordered.get(&p) == Some(&v), "{n:?} finds {:?} and {:?}, not {v}", hashed.get(&p), ordered.get(&p));
    }
    in_figments(c, &want)
}

fn spelling(n: &str, p: &Profile) -> Outcome {
    let own: String = n.into();
    let leaked: &'static str = Box::leak(own.clone().into_boxed_str());
    for q in [p.clone(), Profile::from(n), Profile::from(&own), Profile::from(own.clone()), Profile::from(Cow::Borrowed(n)), own.as_str().into(), Profile::const_new(leaked)] {
        ensure!(q.to_string() == n, "{n:?} is displayed as {:?}", q.to_string());
        ensure!(format!("{q}") == n && String::from(q.clone()) == n && q.as_str().as_str() == n && q.len() == n.len(), "{n:?} becomes {:?} and {:?}", String::from(q.clone()), q.as_str().as_str());
        ensure!(q == *p && hash(&q) == hash(p) && q.cmp(p).is_eq(), "{n:?}: made differently, it is not the same");
    }
    ensure!(format!("[{p:>30}]") == format!("[{n:>30}]"), "{n:?} padded is {:?}", format!("[{p:>30}]"));
    let json = serde_json::to_string(p).map_err(|e| e.to_string())?;
    ensure!(json == serde_json::to_string(n).unwrap(), "{n:?} is written as {json}");
    let back: Profile = serde_json::from_str(&json).map_err(|e| e.to_string())?;
    ensure!(back.to_string() == n && back == *p, "{n:?} is read back as {back:?}");
    let v = Value::serialize(p).map_err(|e| e.to_string())?;
    ensure!(v.as_str() == Some(n), "{n:?} is serialized as {v:?}");
    let back: Profile = v.deserialize().map_err(|e| e.to_string())?;
    ensure!(back.to_string() == n, "{n:?} comes back as {:?}", back.to_string());
    let back: Profile = Figment::from(("p", p)).extract_inner("p").map_err(|e: Error| e.to_string())?;
    ensure!(back.to_string() == n, "{n:?} is extracted as {:?}", back.to_string());
    let text = format!("p = {}", crate::model::json_str(n));
    let back: Profile = Figment::from(Toml::string(&text)).extract_inner("p").map_err(|e: Error| e.to_string())?;
    ensure!(back.to_string() == n, "{text} is read as {:?}", back.to_string());
    let d: Dict = [("k".to_string(), Value::from(1))].into();
    let m = p.collect(d.clone());
    ensure!(m.len() == 1 && m.get(p) == Some(&d) && m.keys().next().unwrap().to_string() == n, "{n:?} collects {m:?}");
    for (other, v) in [("1", Value::from(1)), ("true", Value::from(true)), ("{}", Value::from(Dict::new())), ("[]", Value::from(Vec::<u8>::new()))] {
        ensure!(v.deserialize::<Profile>().is_err(), "{other} is a profile");
        ensure!(serde_json::from_str::<Profile>(other).is_err(), "{other} is a profile in JSON");
    }
    Ok(())
}

struct Picks(Profile);
impl Provider for Picks {
    fn metadata(&self) -> Metadata { Metadata::named("picks") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(Map::new()) }
    fn profile(&self) -> Option<Profile> { Some(self.0.clone()) }
}

/// Profiles meet in figments the same way.
fn in_figments(c: &Case, want: &[(String, i64)]) -> Outcome {
    let mut f = Figment::new();
    for (n, v) in c.names.iter().zip(&c.values) { f = f.merge(Serialized::from(BTreeMap::from([("k", v)]), n)) }
    let mut nested: BTreeMap<&String, BTreeMap<&str, i64>> = BTreeMap::new();
    for (n, v) in want { nested.insert(n, [("k", *v)].into()); }
    let text = Figment::from(Json::string(&serde_json::to_string(&nested).unwrap()).nested());
    for (from, f) in [("serialized", &f), ("nested JSON", &text)] {
        ensure!(f.profiles().count() == want.len(), "{from}: {} profiles of {}: {:?}", f.profiles().count(), want.len(), f.profiles().collect::<Vec<_>>());
        for p in f.profiles() { ensure!(want.iter().any(|(w, _)| w == p.as_str().as_str()), "{from}: a profile {p:?} out of nowhere") }
        let at = |n: &str| want.iter().find(|(w, _)| same(w, n)).map(|w| w.1);
        for n in &c.names {
            let custom = !same(n, "default") && !same(n, "global");
            let v = at("global").or_else(|| if custom { at(n) } else { None }).or_else(|| at("default"));
            for g in [f.clone().select(n), f.clone().select(n.to_ascii_uppercase()), f.clone().merge(Picks(Profile::new(n)))] {
                ensure!(g.extract_inner::<i64>("k").ok() == v, "{from}: profile {n:?} has {:?}, expected {v:?}", g.extract_inner::<i64>("k"));
            }
            // The value is attributed to the profile it comes from, however that is spelled.
            if let Ok(got) = f.clone().select(n).find_value("k") {
                let of = if at("global").is_some() { Some("global") } else if custom && at(n).is_some() { None } else { Some("default") };
                let tag = got.tag().profile().map(|p| p.to_string());
                ensure!(tag.as_deref() == of, "{from}: profile {n:?} has a value of profile {tag:?}, expected {of:?}");
                let e = match f.clone().select(n).extract_inner::<bool>("k") { Ok(v) => return Err(format!("{from}: profile {n:?} has {v}")), Err(e) => e };
                let of = of.unwrap_or(n);
                ensure!(e.profile.as_ref().map_or(false, |p| same(p.as_str().as_str(), of)), "{from}: profile {n:?} has an error in profile {:?}, expected {of:?}", e.profile);
            }
            ensure!(f.clone().select(n).profile().to_string() == *n, "{from}: selecting {n:?} selects {}", f.clone().select(n).profile());
        }
    }
    Ok(())
}

// ------------------------------------------------------------- environment

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnvCase { vars: Vec<(String, Vec<u8>)>, asked: Vec<String> }

fn gen_env(s: &mut Src) -> EnvCase {
    fn var(s: &mut Src) -> String {
        match s.weighted(&[4, 2, 1]) {
            0 => s.pick(&["FIG_PROFILE", "APP_ENV", "profile", "P", "fig_profile2", "FIG", "FIG_PROFIL", "default"]).into(),
            1 => { let n = s.size(1, 6); (0..n).map(|_| s.pick(&['A', 'b', '_', '1', 'é', 'K', 'k', '-', '.'])).collect() }
            _ => { let n = s.size(1, 2); (0..n).map(|_| s.pick(&['x', 'Y', '日', 'ß', 'İ'])).collect() }
        }
    }
    let vars: Vec<(String, Vec<u8>)> = s.vec(0, 6, 3, |s| {
        let n = var(s);
        let n = recase(s, &n);
        let mut v: Vec<u8> = name(s).replace('\0', "").into_bytes();
        if s.chance(1, 10) { v.push(0xff) }
        (n, v)
    });
    let asked = s.vec(1, 5, 3, |s| {
        let n = if !vars.is_empty() && s.chance(2, 3) { s.pick(&vars).0 } else { var(s) };
        recase(s, &n)
    });
    EnvCase { vars, asked }
}

fn check_env(c: &EnvCase, cx: &mut Cx) -> Outcome {
    clear_env();
    for (k, v) in &c.vars { std::env::set_var(k, OsString::from_vec(v.clone())) }
    let r = ask(c, cx);
    clear_env();
    r?;
    for a in &c.asked { ensure!(Profile::from_env(a).is_none(), "{a} is read from an empty environment") }
    Ok(())
}

fn ask(c: &EnvCase, cx: &mut Cx) -> Outcome {
    // The last setting of a name counts.
    let now: HashMap<&String, &Vec<u8>> = c.vars.iter().map(|(k, v)| (k, v)).collect();
    for a in &c.asked {
        let found: Vec<String> = now.iter().filter(|(k, _)| same(k, a)).map(|(_, v)| String::from_utf8_lossy(v).into_owned()).collect();
        let got = Profile::from_env(a);
        let or = Profile::from_env_or(a, "Otherwise");
        match &got {
            // Several variables may match; any of them may be meant.
            Some(p) => ensure!(found.contains(&p.to_string()), "{a} is read as {:?}, expected one of {found:?}", p.to_string()),
            None => ensure!(found.is_empty(), "{a} is not read, expected one of {found:?}"),
        }
        let want = got.map_or("Otherwise".into(), |p| p.to_string());
        ensure!(or.to_string() == want, "{a} or another is {or}, expected {want}");
        cx.hit(now.keys().any(|k| same(k, a) && *k != a));
        cx.class_if(found.len() > 1, "several variables match");
        cx.class_if(found.is_empty(), "not set");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C21",
        subs: vec![
            Box::new(Sub { name: "laws", quick: 150_000, thorough: 1_000_000, rule: "two of the names are equal but spelled differently", gen, check }),
            Box::new(Sub { name: "env", quick: 200_000, thorough: 1_500_000, rule: "a variable matches only when case is ignored", gen: gen_env, check: check_env }),
        ],
        assumptions: &["Where several environment variables match, any of their values is accepted."],
    }
}
