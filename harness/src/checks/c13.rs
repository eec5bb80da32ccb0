//! Text sources yield exactly the data they contain.

use std::path::{Path, PathBuf};

use crate::core::*;
use crate::emit;
use crate::gen::*;
use crate::model::*;
use figment::providers::{Data, Format, Json, Toml, Yaml, YamlExtended};
use figment::value::{Dict, Map, Value};
use figment::{Figment, Profile, Provider};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Put { String, File, FileNoSearch }

/// The profile calls, in order.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Conf { Profile(String), Nested, Required(bool), Search(bool) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    data: MDict, texts: Vec<(Fmt, String)>, conf: Vec<Conf>, put: Put, name: String,
}

fn conf(s: &mut Src, nested: bool) -> Vec<Conf> {
    let mut c = s.vec(0, 3, 1, |s| match s.below(4) {
        0 => Conf::Profile(profile(s)), 1 => Conf::Required(s.bool()), 2 => Conf::Search(s.bool()), _ => Conf::Nested,
    });
    let at = c.iter().rposition(|c| matches!(c, Conf::Profile(_) | Conf::Nested));
    let is = at.map_or(false, |i| matches!(c[i], Conf::Nested));
    if nested && !is { c.push(Conf::Nested) }
    if !nested && is { c.push(Conf::Profile(profile(s))) }
    c
}

fn file_name(s: &mut Src) -> String { s.pick(&["conf", "conf.toml", "Conf.json", "c.yaml", "ü mlaut.cfg", ".hidden", "a.b.c", "x y"]).into() }

fn put(s: &mut Src) -> Put { s.pick(&[Put::String, Put::String, Put::File, Put::FileNoSearch]) }

/// Without control characters, U+FEFF and the like in keys or strings for YAML's sake only when `clean`.
fn body(s: &mut Src, nested: bool, sh: Shape) -> MDict {
    if nested {
        let names = profiles(s, 4);
        let mut d = MDict::new();
        for n in names { let n = clean(n); let v = MV::D(mdict(s, Shape { depth: 3, ..sh })); if !d.keys().any(|k: &String| k.eq_ignore_ascii_case(&n)) { d.insert(n, v); } }
        d
    } else {
        mdict(s, sh)
    }
}

fn gen(s: &mut Src) -> Case {
    let nested = s.chance(1, 3);
    let data = body(s, nested, PLAIN);
    let root = MV::D(data.clone());
    let texts = vec![(Fmt::Toml, emit::toml(&data, s)), (Fmt::Json, emit::json(&root, s)), (Fmt::Yaml, emit::yaml(&data, s))];
    let texts = texts.into_iter().map(|(f, t)| (f, endings(s, f, t))).collect();
    Case { data, texts, conf: conf(s, nested), put: put(s), name: file_name(s) }
}

/// The text with lines ended as elsewhere, unless a string goes over several.
fn endings(s: &mut Src, fmt: Fmt, t: String) -> String {
    let spans = match fmt { Fmt::Toml => t.contains("\"\"\"") || t.contains("'''"), Fmt::Json => false, Fmt::Yaml => t.contains(['|', '>', '\\']) };
    if !spans && !t.contains('\r') && s.chance(1, 10) { t.replace('\n', "\r\n") } else { t }
}

/// Nulls, all of Unicode and unsigned integers: what JSON and YAML share beyond TOML.
fn gen_wide(s: &mut Src) -> Case {
    fn widen(s: &mut Src, v: &MV) -> MV {
        match v {
            MV::D(d) => MV::D(d.iter().map(|(k, v)| (k.clone(), widen(s, v))).collect()),
            MV::A(a) => MV::A(a.iter().map(|v| widen(s, v)).collect()),
            _ => match s.below(6) {
                0 => MV::Unit,
                1 => MV::N(N::U64(u64::MAX - s.draw(2))),
                2 => MV::S(string(s)),
                3 => MV::N(N::U64(s.u64())),
                _ => v.clone(),
            },
        }
    }
    let nested = s.chance(1, 4);
    let base = body(s, nested, PLAIN);
    let data: MDict = base.iter().map(|(k, v)| (k.clone(), widen(s, v))).collect();
    let data = if nested { data.into_iter().map(|(k, v)| (k, match v { MV::D(d) => MV::D(d), _ => MV::D(MDict::new()) })).collect() } else { data };
    let texts = vec![(Fmt::Json, emit::json(&MV::D(data.clone()), s)), (Fmt::Yaml, emit::yaml(&data, s))];
    let texts = texts.into_iter().map(|(f, t)| (f, endings(s, f, t))).collect();
    Case { data, texts, conf: conf(s, nested), put: put(s), name: file_name(s) }
}

fn source<F: Format>(text: &[u8], c: (&[Conf], Put, &str), dir: &Path) -> (Data<F>, Option<PathBuf>) {
    let (mut d, path) = match c.1 {
        Put::String => (F::string(std::str::from_utf8(text).unwrap()), None),
        _ => {
            let _ = std::fs::create_dir_all(dir);
            let path = dir.join(c.2);
            std::fs::write(&path, text).expect("write source");
            (F::file(&path), Some(path))
        }
    };
    if c.1 == Put::FileNoSearch { d = d.search(false) }
    for c in c.0 {
        d = match c {
            Conf::Profile(p) => d.profile(p), Conf::Nested => d.nested(), Conf::Required(r) => d.required(*r), Conf::Search(b) => d.search(*b),
        };
    }
    (d, path)
}

fn final_profile(conf: &[Conf]) -> Option<String> {
    conf.iter().fold(Some("default".into()), |p, c| match c { Conf::Profile(p) => Some(p.clone()), Conf::Nested => None, _ => p })
}

/// As data of the three formats: nulls are not told apart.
fn nulls(v: &MV) -> MV {
    match v {
        MV::None => MV::Unit,
        MV::D(d) => MV::D(d.iter().map(|(k, v)| (k.clone(), nulls(v))).collect()),
        MV::A(a) => MV::A(a.iter().map(nulls).collect()),
        v => v.clone(),
    }
}

fn provided<F: Format>(c: &Case, text: &str, dir: &Path) -> Result<Map<Profile, Dict>, String> {
    let what = F::NAME;
    let (p, path) = source::<F>(text.as_bytes(), (&c.conf, c.put, &c.name), dir);
    let at = |e: String| format!("{what} document {text:?}: {e}");
    let got = p.data().map_err(|e| at(format!("data() fails: {e}")))?;
    let prof = final_profile(&c.conf);
    let want: Vec<(String, MV)> = match &prof {
        Some(p) => vec![(p.clone(), MV::D(c.data.clone()))],
        None => c.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
    };
    ensure!(got.len() == want.len(), "{}", at(format!("data() is for profiles {:?}, expected {:?}", got.keys(), want.iter().map(|w| &w.0).collect::<Vec<_>>())));
    for (p, w) in &want {
        let g = got.get(&Profile::new(p)).ok_or_else(|| at(format!("no data for profile {p:?}: {:?}", got.keys())))?;
        let g = MV::D(of_dict(g));
        ensure!(nulls(&g).same(&nulls(w)), "{}", at(format!("profile {p:?}: got {g:?}, expected {w:?}")));
    }
    // Through a figment.
    let f = Figment::new().merge(&p);
    for (p, w) in &want {
        let v: Value = f.clone().select(p).extract().map_err(|e| at(format!("extract fails: {e}")))?;
        let mut all = PDict::new();
        let o = (0, String::new());
        let layer = |n: &str| want.iter().find(|w| w.0.eq_ignore_ascii_case(n)).map(|w| &w.1);
        for n in ["default", if p.eq_ignore_ascii_case("global") || p.eq_ignore_ascii_case("default") { "" } else { p }, "global"] {
            if let Some(MV::D(d)) = layer(n).filter(|_| !n.is_empty() || p.is_empty()) { all = combine_dict(all, pdict(d, &o), Strat::Merge) }
        }
        let w = if prof.is_some() { w.clone() } else { MV::D(pdict_mv(&all)) };
        ensure!(nulls(&MV::of(&v)).same(&nulls(&w)), "{}", at(format!("extracting with profile {p:?}: got {v:?}, expected {w:?}")));
    }
    // The format's own functions.
    let raw: Value = F::from_str(text).map_err(|e| at(format!("from_str fails: {e}")))?;
    ensure!(nulls(&MV::of(&raw)).same(&nulls(&MV::D(c.data.clone()))), "{}", at(format!("from_str gives {raw:?}")));
    if let Some(path) = path {
        let raw: Value = F::from_path(&path).map_err(|e| at(format!("from_path fails: {e}")))?;
        ensure!(nulls(&MV::of(&raw)).same(&nulls(&MV::D(c.data.clone()))), "{}", at(format!("from_path gives {raw:?}")));
    }
    Ok(got)
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let dir = cx.scratch.join("c13");
    let mut first: Option<(Fmt, Map<Profile, Dict>)> = None;
    for (fmt, text) in &c.texts {
        let got = match fmt {
            Fmt::Toml => provided::<Toml>(c, text, &dir), Fmt::Json => provided::<Json>(c, text, &dir),
            Fmt::Yaml => { let g = provided::<Yaml>(c, text, &dir)?; if !text.contains("<<") { provided::<YamlExtended>(c, text, &dir)?; } Ok(g) }
        }?;
        match &first {
            None => first = Some((*fmt, got)),
            Some((f, g)) => {
                let map = |m: &Map<Profile, Dict>| m.iter().map(|(p, d)| (p.to_string().to_ascii_lowercase(), nulls(&MV::D(of_dict(d))))).collect::<Vec<_>>();
                let (a, b) = (map(g), map(&got));
                ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1)), "{f:?} gives {a:?} but {fmt:?} gives {b:?}");
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    cx.hit(MV::D(c.data.clone()).nodes() >= 4);
    cx.class_if(final_profile(&c.conf).is_none(), "nested");
    cx.class_if(c.put != Put::String, "file");
    cx.class_if(MV::D(c.data.clone()).depth() >= 3, "three levels or more");
    Ok(())
}

// -------------------------------------------------------------------- corrupt

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Corrupt { fmt: Fmt, extended: bool, bytes: Vec<u8>, conf: Vec<Conf>, put: Put, name: String, before: bool }

fn gen_corrupt(s: &mut Src) -> Corrupt {
    let nested = s.chance(1, 4);
    let data = body(s, nested, Shape { depth: 3, width: 4, ..PLAIN });
    let fmt = s.pick(&[Fmt::Toml, Fmt::Json, Fmt::Yaml]);
    let text = match fmt { Fmt::Toml => emit::toml(&data, s), Fmt::Json => emit::json(&MV::D(data), s), Fmt::Yaml => emit::yaml(&data, s) };
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..s.size(1, 3) {
        let at = s.below(cs.len() + 1);
        match s.weighted(&[3, 2, 2, 1, 1]) {
            0 => cs.insert(at, ch(s)),
            1 => { if at < cs.len() { cs.remove(at); } }
            2 => cs.truncate(at),
            3 => { if at < cs.len() { cs[at] = ch(s) } }
            _ => { let n = s.size(1, 12).min(cs.len() - at); let part: Vec<char> = cs[at..at + n].to_vec(); for (i, c) in part.into_iter().enumerate() { cs.insert(at + i, c) } }
        }
    }
    let mut put = put(s);
    let mut bytes: Vec<u8> = cs.into_iter().collect::<String>().into_bytes();
    if s.chance(1, 20) { let at = s.below(bytes.len() + 1); bytes.insert(at, 0xff); put = Put::File }
    Corrupt { fmt, extended: s.chance(1, 3), bytes, conf: conf(s, nested), put, name: file_name(s), before: s.bool() }
}

/// Whatever the format's parser reads, without figment.
struct Any(MV, bool /* has what the model does not express */);

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct V;
        macro_rules! n { ($($f:ident $t:ty => $k:ident),*) => { $(fn $f<E>(self, v: $t) -> Result<Any, E> { Ok(Any(MV::N(N::$k(v)), false)) })* } }
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
            n! { visit_i64 i64 => I64, visit_u64 u64 => U64, visit_i128 i128 => I128, visit_u128 u128 => U128 }
            fn visit_bool<E>(self, v: bool) -> Result<Any, E> { Ok(Any(MV::B(v), false)) }
            fn visit_f64<E>(self, v: f64) -> Result<Any, E> { Ok(Any(MV::N(N::f64(v)), false)) }
            fn visit_str<E>(self, v: &str) -> Result<Any, E> { Ok(Any(MV::S(v.into()), false)) }
            fn visit_unit<E>(self) -> Result<Any, E> { Ok(Any(MV::Unit, false)) }
            fn visit_none<E>(self) -> Result<Any, E> { Ok(Any(MV::Unit, false)) }
            fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> { Any::deserialize(d) }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let (mut out, mut odd) = (vec![], false);
                while let Some(Any(v, o)) = a.next_element()? { out.push(v); odd |= o }
                Ok(Any(MV::A(out), odd))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let (mut out, mut odd) = (MDict::new(), false);
                while let Some(k) = a.next_key::<String>()? { let Any(v, o) = a.next_value()?; odd |= o | out.insert(k, v).is_some() }
                Ok(Any(MV::D(out), odd))
            }
            fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<Any, A::Error> {
                use serde::de::VariantAccess;
                let (_, v): (String, _) = a.variant()?;
                v.newtype_variant::<serde::de::IgnoredAny>()?;
                Ok(Any(MV::Unit, true))
            }
        }
        d.deserialize_any(V)
    }
}

fn check_corrupt(c: &Corrupt, cx: &mut Cx) -> Outcome {
    match c.fmt {
        Fmt::Toml => corrupt::<Toml>(c, cx, |t| toml_edit::de::from_str(t).ok()),
        Fmt::Json => corrupt::<Json>(c, cx, |t| serde_json::from_str(t).ok()),
        Fmt::Yaml if c.extended && !String::from_utf8_lossy(&c.bytes).contains("<<") => corrupt::<YamlExtended>(c, cx, |t| serde_yaml::from_str(t).ok()),
        Fmt::Yaml => corrupt::<Yaml>(c, cx, |t| serde_yaml::from_str(t).ok()),
    }
}

fn corrupt<F: Format>(c: &Corrupt, cx: &mut Cx, parse: fn(&str) -> Option<Any>) -> Outcome {
    let dir = cx.scratch.join("c13");
    let want = std::str::from_utf8(&c.bytes).ok().and_then(parse);
    let (p, path) = source::<F>(&c.bytes, (&c.conf, c.put, &c.name), &dir);
    let text = String::from_utf8_lossy(&c.bytes);
    let prof = final_profile(&c.conf);
    let base = Figment::new().merge(("other", 1));
    let f = if c.before { base.merge(&p) } else { Figment::new().merge(&p).join(("other", 1)) };
    let got = p.data();
    let ok = match &want {
        Some(Any(_, true)) => { cx.class("outside of the model"); return Ok(()) }
        Some(Any(MV::Unit, _)) => { cx.class("nothing but a null"); return Ok(()) }
        Some(Any(MV::D(d), _)) => prof.is_some() || d.values().all(|v| v.is_dict() || *v == MV::Unit),
        _ => false,
    };
    if prof.is_none() && want.as_ref().map_or(false, |w| match &w.0 { MV::D(d) => d.values().any(|v| *v == MV::Unit) || { let mut k: Vec<String> = d.keys().map(|k| k.to_ascii_lowercase()).collect(); let n = k.len(); k.dedup(); k.sort(); k.dedup(); k.len() < n }, _ => false }) { return Ok(()) }
    if ok {
        cx.class("still well-formed");
        let MV::D(w) = &want.unwrap().0 else { unreachable!() };
        let got = got.map_err(|e| format!("{} document {text:?} is well-formed, but fails: {e}", F::NAME))?;
        let want: Vec<(String, MV)> = match prof { Some(p) => vec![(p, MV::D(w.clone()))], None => w.clone().into_iter().collect() };
        ensure!(got.len() == want.len(), "{} document {text:?}: data() is for {:?}, expected {want:?}", F::NAME, got.keys());
        for (p, w) in want {
            let g = got.get(&Profile::new(&p)).map(|d| nulls(&MV::D(of_dict(d))));
            ensure!(g.as_ref().map_or(false, |g| g.same(&w)), "{} document {text:?}, profile {p:?}: got {g:?}, expected {w:?}", F::NAME);
        }
        return Ok(());
    }
    ensure!(got.is_err(), "{} document {text:?} is malformed, but provides {got:?}", F::NAME);
    let e = match f.extract::<Value>() {
        Ok(v) => return Err(format!("{} document {text:?} is malformed, but extraction gives {v:?}", F::NAME)),
        Err(e) => e,
    };
    ensure_eq!(e.count(), 1, "number of errors for the {} document {text:?}", F::NAME);
    let m = e.metadata.as_ref().ok_or_else(|| format!("the error for the {} document {text:?} has no source: {e}", F::NAME))?;
    ensure!(m.name.starts_with(F::NAME), "the error for the {} document {text:?} is attributed to {:?}", F::NAME, m.name);
    ensure_eq!(m.source.as_ref().and_then(|s| s.file_path()), path.as_deref(), "file the error is attributed to");
    ensure!(!e.kind.to_string().trim().is_empty(), "the error for the {} document {text:?} says nothing", F::NAME);
    let shown = e.to_string();
    ensure!(shown.contains(m.name.as_ref()), "the printed error {shown:?} does not name its source");
    cx.hit(true);
    cx.class("malformed");
    Ok(())
}

// ---------------------------------------------------------------- much of it

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large { fmt: Fmt, extended: bool, put: Put, entries: usize, length: usize, tail: usize }

fn gen_large(s: &mut Src) -> Large {
    let total = s.pick(&[4096usize, 8192, 1 << 16, 1 << 17, 1 << 18, 1 << 20]) + s.below(64);
    let length = s.pick(&[1usize, 10, 100, 5000, 70_000]);
    Large { fmt: s.pick(&[Fmt::Toml, Fmt::Json, Fmt::Yaml]), extended: s.bool(), put: put(s), entries: (total / (length + 12)).max(1), length, tail: s.below(length + 1) }
}

fn check_large(c: &Large, cx: &mut Cx) -> Outcome {
    // The last entry is of another length, so that a size is hit exactly now and then.
    let entries: Vec<(String, String)> = (0..c.entries).map(|i| (format!("k{i:06}"), "x".repeat(if i + 1 == c.entries { c.tail } else { c.length }))).collect();
    let line = |(k, v): &(String, String)| match c.fmt { Fmt::Toml => format!("{k} = '{v}'\n"), Fmt::Json => format!("\"{k}\":\"{v}\""), Fmt::Yaml => format!("{k}: '{v}'\n") };
    let lines: Vec<String> = entries.iter().map(line).collect();
    let text = match c.fmt { Fmt::Json => format!("{{{}}}", lines.join(",\n")), _ => lines.concat() };
    fn run<F: Format>(c: &Large, text: &str, dir: &Path, entries: &[(String, String)]) -> Outcome {
        let (p, _) = source::<F>(text.as_bytes(), (&[], c.put, "large"), dir);
        let d: Dict = Figment::from(p).extract().map_err(|e| format!("{} entries of {}, {} bytes of {}: {e}", c.entries, c.length, text.len(), F::NAME))?;
        ensure!(d.len() == entries.len(), "{} bytes of {}: {} entries, expected {}", text.len(), F::NAME, d.len(), entries.len());
        for (k, v) in entries { ensure!(d.get(k).and_then(|v| v.as_str()) == Some(v), "{} bytes of {}: {k} is not of length {}", text.len(), F::NAME, v.len()) }
        Ok(())
    }
    let dir = cx.scratch.join("c13");
    match c.fmt {
        Fmt::Toml => run::<Toml>(c, &text, &dir, &entries)?,
        Fmt::Json => run::<Json>(c, &text, &dir, &entries)?,
        Fmt::Yaml if c.extended => run::<YamlExtended>(c, &text, &dir, &entries)?,
        Fmt::Yaml => run::<Yaml>(c, &text, &dir, &entries)?,
    }
    cx.hit(text.len() > 1 << 16);
    cx.class_if(text.len() > 1 << 20, "over a megabyte");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C13",
        subs: vec![
            Box::new(Sub { name: "trees", quick: 30_000, thorough: 2_000_000, gen, check,
                rule: "a random tree written in all three formats in varied notations (tables, dotted keys, arrays of tables, escapes, block and flow style, comments), as string or file, nested or not; non-trivial: four nodes or more" }),
            Box::new(Sub { name: "wide", quick: 30_000, thorough: 2_000_000, gen: gen_wide, check,
                rule: "the same for JSON and YAML with nulls, unsigned integers and arbitrary Unicode strings; non-trivial: four nodes or more" }),
            Box::new(Sub { name: "corrupt", quick: 80_000, thorough: 5_000_000, gen: gen_corrupt, check: check_corrupt,
                rule: "such documents with one to three random edits, against the format's parser read without figment; non-trivial: the document is malformed" }),
            Box::new(Sub { name: "large", quick: 160, thorough: 10_000, gen: gen_large, check: check_large,
                rule: "documents of up to a megabyte, of many short or a few long entries; non-trivial: over 64 KiB" }),
        ],
        assumptions: &["the parser crates toml_edit, serde_json and serde_yaml read their formats correctly", "nulls of any notation are the same"],
    }
}
