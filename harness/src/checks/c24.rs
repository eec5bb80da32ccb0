//! Errors chain, count, iterate and print without losing information.

use std::collections::BTreeMap;
use std::panic::Location;
use std::path::{Component, Path, PathBuf};

use crate::checks::c12::clear_env;
use crate::core::*;
use crate::gen::*;
use crate::model::dbg;
use figment::error::{Actual, Kind};
use figment::providers::Env;
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use serde::{de, Deserialize, Serialize};

// ------------------------------------------------------------ errors of all kinds

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum A { B(bool), U(u64), I(i64), F(i32), C(char), S(String), Y(Vec<u8>), Unit, Opt, Newtype, Seq, Map, Enum, UnitVar, NewVar, TupVar, StructVar, Other(String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum K {
    Message(String), Type(A, String), Value(A, String), Length(usize, String), Variant(String, usize), Field(String, usize),
    Missing(String), Duplicate(usize), ISize(i64), USize(u64), Unsupported(A), Key(A, String),
    /// As a deserializer reports it.
    ByDe(Box<K>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src2 { None, File(String, bool), Code, Custom(String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct E { kind: K, paths: Vec<String>, md: Option<(String, Src2, Option<usize>)>, profile: Option<String> }

/// How errors are chained.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tree { One(E), Two(Box<Tree>, Box<Tree>) }

const ALTS: &[&[&str]] = &[&[], &["solo"], &["red", "blue"], &["a", "b", "c"], &["x", "y", "z", "w", "yet another"], &["`", "or"]];
const FIELDS: &[&str] = &["field", "f é", "", "a.b"];

fn actual(s: &mut Src) -> A {
    match s.below(18) {
        0 => A::B(s.bool()), 1 => A::U(s.u64()), 2 => A::I(s.u64() as i64), 3 => A::F(s.range(-1000, 1000) as i32), 4 => A::C(ch(s)), 5 => A::S(string(s)),
        6 => A::Y(s.vec(0, 4, 2, |s| s.below(256) as u8)), 7 => A::Unit, 8 => A::Opt, 9 => A::Newtype, 10 => A::Seq, 11 => A::Map, 12 => A::Enum,
        13 => A::UnitVar, 14 => A::NewVar, 15 => A::TupVar, 16 => A::StructVar, _ => A::Other(string(s)),
    }
}

fn kind(s: &mut Src, by_de: bool) -> K {
    match s.below(if by_de { 13 } else { 12 }) {
        0 => K::Message(string(s)), 1 => K::Type(actual(s), string(s)), 2 => K::Value(actual(s), string(s)), 3 => K::Length(s.u64() as usize, string(s)),
        4 => K::Variant(string(s), s.below(ALTS.len())), 5 => K::Field(string(s), s.below(ALTS.len())), 6 => K::Missing(string(s)), 7 => K::Duplicate(s.below(FIELDS.len())),
        8 => K::ISize(s.u64() as i64), 9 => K::USize(s.u64()), 10 => K::Unsupported(actual(s)), 11 => K::Key(actual(s), string(s)),
        _ => K::ByDe(Box::new(loop {
            let k = kind(s, false);
            if !matches!(k, K::ISize(_) | K::USize(_) | K::Unsupported(_) | K::Key(..)) { break k }
        })),
    }
}

fn source(s: &mut Src) -> Src2 {
    match s.below(5) { 0 => Src2::None, 1 => Src2::File(file(s), false), 2 => Src2::File(file(s), true), 3 => Src2::Code, _ => Src2::Custom(string(s)) }
}

fn error(s: &mut Src) -> E {
    let md = if s.chance(3, 4) {
        Some((string(s), source(s), if s.bool() { Some(s.below(3)) } else { None }))
    } else { None };
    let paths = s.vec(0, 4, 2, |s| match s.weighted(&[3, 2, 1]) {
        0 => dotted(s, 4), 1 => key(s), _ => s.pick(&["", ".", "a..b", ".a", "a.", "...", "0", " "]).to_string(),
    });
    E { kind: kind(s, true), paths, md, profile: if s.chance(3, 4) { Some(profile(s)) } else { None } }
}

fn file(s: &mut Src) -> String {
    if s.chance(1, 60) { let n = s.pick(&[33, 65, 130]); return "deep/".repeat(n) + "app.toml" }
    s.vec(1, 6, 3, |s| s.pick(&["a", "b", "etc", "app.toml", "x y", "é", "...", "verif", "sub"]).to_string()).join("/")
}

fn gen_tree(s: &mut Src, n: usize) -> Tree {
    if n <= 1 { return Tree::One(error(s)) }
    let left = match s.below(3) { 0 => 1, 1 => n - 1, _ => s.size(1, n - 1) };
    Tree::Two(Box::new(gen_tree(s, left)), Box::new(gen_tree(s, n - left)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { tree: Tree, more: String }

fn gen(s: &mut Src) -> Case {
    let n = match s.weighted(&[4, 4, 1]) { 0 => 1, 1 => s.size(2, 6), _ if s.chance(1, 15) => s.pick(&[65, 129, 257, 300]), _ => s.size(7, 40) };
    Case { tree: gen_tree(s, n), more: dotted(s, 3) }
}

fn to_actual(a: &A) -> Actual {
    match a {
        A::B(b) => Actual::Bool(*b), A::U(u) => Actual::Unsigned(*u as u128), A::I(i) => Actual::Signed(*i as i128), A::F(f) => Actual::Float(*f as f64 / 8.0),
        A::C(c) => Actual::Char(*c), A::S(s) => Actual::Str(s.clone()), A::Y(b) => Actual::Bytes(b.clone()), A::Unit => Actual::Unit, A::Opt => Actual::Option,
        A::Newtype => Actual::NewtypeStruct, A::Seq => Actual::Seq, A::Map => Actual::Map, A::Enum => Actual::Enum, A::UnitVar => Actual::UnitVariant,
        A::NewVar => Actual::NewtypeVariant, A::TupVar => Actual::TupleVariant, A::StructVar => Actual::StructVariant, A::Other(s) => Actual::Other(s.clone()),
    }
}

fn unexpected(a: &A) -> de::Unexpected<'_> {
    use de::Unexpected as U;
    match a {
        A::B(b) => U::Bool(*b), A::U(u) => U::Unsigned(*u), A::I(i) => U::Signed(*i), A::F(f) => U::Float(*f as f64 / 8.0),
        A::C(c) => U::Char(*c), A::S(s) => U::Str(s), A::Y(b) => U::Bytes(b), A::Unit => U::Unit, A::Opt => U::Option,
        A::Newtype => U::NewtypeStruct, A::Seq => U::Seq, A::Map => U::Map, A::Enum => U::Enum, A::UnitVar => U::UnitVariant,
        A::NewVar => U::NewtypeVariant, A::TupVar => U::TupleVariant, A::StructVar => U::StructVariant, A::Other(s) => U::Other(s),
    }
}

/// What must be readable where the value is reported.
fn actual_text(a: &A) -> String {
    match a {
        A::B(b) => b.to_string(), A::U(u) => u.to_string(), A::I(i) => i.to_string(), A::F(f) => (*f as f64 / 8.0).to_string(),
        A::C(c) => format!("{c:?}"), A::S(s) => format!("{s:?}"), A::Y(b) => format!("{b:?}"), A::Unit => "unit".into(), A::Opt => "option".into(),
        A::Newtype => "struct".into(), A::Seq => "sequence".into(), A::Map => "map".into(), A::Enum => "enum".into(),
        A::UnitVar | A::NewVar | A::TupVar | A::StructVar => "variant".into(), A::Other(s) => s.clone(),
    }
}

fn to_kind(k: &K) -> Kind {
    match k {
        K::Message(m) => Kind::Message(m.clone()), K::Type(a, e) => Kind::InvalidType(to_actual(a), e.clone()), K::Value(a, e) => Kind::InvalidValue(to_actual(a), e.clone()),
        K::Length(n, e) => Kind::InvalidLength(*n, e.clone()), K::Variant(v, i) => Kind::UnknownVariant(v.clone(), ALTS[*i]), K::Field(v, i) => Kind::UnknownField(v.clone(), ALTS[*i]),
        K::Missing(f) => Kind::MissingField(f.clone().into()), K::Duplicate(i) => Kind::DuplicateField(FIELDS[*i]), K::ISize(i) => Kind::ISizeOutOfRange(*i as isize),
        K::USize(u) => Kind::USizeOutOfRange(*u as usize), K::Unsupported(a) => Kind::Unsupported(to_actual(a)), K::Key(a, e) => Kind::UnsupportedKey(to_actual(a), e.clone().into()),
        K::ByDe(k) => to_kind(k),
    }
}

fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

fn make(k: &K) -> Error {
    use de::Error as _;
    match k {
        K::ByDe(k) => match &**k {
            K::Message(m) => Error::custom(m), K::Type(a, e) => Error::invalid_type(unexpected(a), &e.as_str()), K::Value(a, e) => Error::invalid_value(unexpected(a), &e.as_str()),
            K::Length(n, e) => Error::invalid_length(*n, &e.as_str()), K::Variant(v, i) => Error::unknown_variant(v, ALTS[*i]), K::Field(v, i) => Error::unknown_field(v, ALTS[*i]),
            K::Missing(f) => Error::missing_field(leak(f)), K::Duplicate(i) => Error::duplicate_field(FIELDS[*i]), _ => unreachable!(),
        },
        K::Message(m) if m.len() % 2 == 0 => Error::from(m.as_str()),
        K::Message(m) => Error::from(m.clone()),
        k => Error::from(to_kind(k)),
    }
}

fn texts(k: &K) -> Vec<String> {
    let alts = |v: &str, i: usize| -> Vec<String> { [v].iter().chain(ALTS[i]).map(|x| x.to_string()).collect() };
    match k {
        K::Message(m) => vec![m.clone()], K::Type(a, e) | K::Value(a, e) => vec![actual_text(a), e.clone()], K::Length(n, e) => vec![n.to_string(), e.clone()],
        K::Variant(v, i) | K::Field(v, i) => alts(v, *i), K::Missing(f) => vec![f.clone()], K::Duplicate(i) => vec![FIELDS[*i].into()],
        K::ISize(i) => vec![i.to_string()], K::USize(u) => vec![u.to_string()], K::Unsupported(a) => vec![actual_text(a)], K::Key(a, e) => vec![actual_text(a), e.clone()],
        K::ByDe(k) => texts(k),
    }
}

fn naming(how: usize, p: &Profile, keys: &[&str]) -> String {
    match how { 0 => format!("{p}<{}>", keys.join("/")), 1 => keys.iter().rev().map(|k| format!("[{k}]")).collect(), _ => format!("{}:{}", keys.len(), keys.concat()) }
}

fn metadata(name: &str, source: &Src2, how: Option<usize>) -> (Metadata, Option<Source>) {
    let source = match source {
        Src2::None => None,
        Src2::File(p, cwd) => Some(Source::from(if *cwd { std::env::current_dir().unwrap().join(p) } else { Path::new("/").join(p) }.as_path())),
        Src2::Code => Some(Source::from(Location::caller())),
        Src2::Custom(c) => Some(Source::from(c.as_str())),
    };
    let mut md = match &source { Some(s) => Metadata::from(name.to_string(), s.clone()), None => Metadata::named(name.to_string()) };
    if let Some(h) = how { md = md.interpolater(move |p, k| naming(h, p, k)) }
    (md, source)
}

fn build(e: &E) -> Error {
    let mut err = make(&e.kind);
    for p in &e.paths { err = err.with_path(p) }
    err.metadata = e.md.as_ref().map(|(n, s, h)| metadata(n, s, *h).0);
    err.profile = e.profile.as_deref().map(Profile::new);
    err
}

fn path_of(e: &E) -> Vec<String> {
    e.paths.iter().flat_map(|p| p.split('.')).filter(|k| !k.is_empty()).map(|k| k.to_string()).collect()
}

fn lexical(p: &Path) -> Vec<String> {
    let mut out = vec![];
    for c in p.components() {
        match c { Component::Normal(c) => out.push(c.to_str().unwrap().to_string()), Component::ParentDir => { out.pop(); } _ => {} }
    }
    out
}

fn check_one(e: &E) -> Outcome {
    let err = build(e);
    let text = err.to_string();
    let path = path_of(e);
    ensure!(err.kind == to_kind(&e.kind), "{:?} is {:?}", e.kind, err.kind);
    ensure!(err.path == path, "{:?} make the path {:?}", e.paths, err.path);
    ensure!(err.count() == 1, "one error counts {}", err.count());
    ensure!(err.missing() == matches!(err.kind, Kind::MissingField(_)), "{:?}: missing {}", err.kind, err.missing());
    for t in texts(&e.kind) { ensure!(text.contains(&t), "{:?} is printed as {text:?}, without {t:?}", e.kind) }
    ensure!(text.contains(&err.kind.to_string()), "{text:?} lacks {}", err.kind);
    if let Some((name, source, how)) = &e.md {
        ensure!(text.contains(name.as_str()), "{text:?} lacks the provider {name:?}");
        let (md, src) = metadata(name, source, *how);
        ensure!(err.metadata.as_ref() == Some(&md) && md.source == src && md.name == *name, "metadata {md:?} from {name:?}, {source:?}");
        if let (Some(shown), Some(src)) = (src.as_ref().map(|s| s.to_string()), src) {
            ensure!(text.contains(&shown), "{text:?} lacks the source {shown:?}");
            let (file, code, custom) = (src.file_path(), src.code_location(), src.custom());
            ensure!(file.is_some() as u8 + code.is_some() as u8 + custom.is_some() as u8 == 1, "{src:?} is {file:?}, {code:?}, {custom:?}");
            match source {
                Src2::File(p, cwd) => {
                    let at = std::env::current_dir().unwrap();
                    let full: PathBuf = if *cwd { at.join(p) } else { Path::new("/").join(p) };
                    ensure!(file == Some(&full), "{full:?} becomes {file:?}");
                    // Shown as it is or as seen from here.
                    ensure!(lexical(&at.join(&shown)) == lexical(&full), "{full:?} is shown as {shown:?}");
                }
                Src2::Code => ensure!(shown.contains(file!()) && code.is_some(), "code is shown as {shown:?}"),
                Src2::Custom(c) => ensure!(shown == *c && custom == Some(c), "{c:?} is shown as {shown:?}"),
                Src2::None => unreachable!(),
            }
        }
        if let Some(p) = &e.profile {
            let p = Profile::new(p);
            let keys: Vec<&str> = path.iter().map(|k| k.as_str()).collect();
            let shown = md.interpolate(&p, &path);
            match how {
                Some(h) => ensure!(shown == naming(*h, &p, &keys), "{path:?} is named {shown:?}, expected {:?}", naming(*h, &p, &keys)),
                None => {
                    let mut rest = shown.as_str();
                    for k in &keys { let i = rest.find(k).ok_or_else(|| format!("{path:?} is named {shown:?}, without {k:?}"))?; rest = &rest[i + k.len()..]; }
                }
            }
            ensure!(md.clone().interpolate(&p, &keys) == shown, "a copy of the metadata names keys differently");
            if !path.is_empty() { ensure!(text.contains(&format!("{shown:?}")), "{text:?} lacks the key {shown:?}") }
        }
    }
    ensure!(err.clone() == err && err.clone().to_string() == text, "a copy of {err:?} is different");
    Ok(())
}

fn fold(t: &Tree) -> Error { match t { Tree::One(e) => build(e), Tree::Two(a, b) => fold(a).chain(fold(b)) } }
fn flat<'a>(t: &'a Tree, out: &mut Vec<&'a E>) { match t { Tree::One(e) => out.push(e), Tree::Two(a, b) => { flat(b, out); flat(a, out) } } }

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let mut all = vec![];
    flat(&c.tree, &mut all);
    for e in &all { check_one(e)? }
    let err = fold(&c.tree);
    ensure!(err.count() == all.len(), "{} errors chained count {}", all.len(), err.count());
    let text = err.to_string();
    let singles: Vec<Error> = err.clone().into_iter().collect();
    ensure!(singles.len() == all.len(), "{} errors chained are {} when iterated", all.len(), singles.len());
    // The one chained last comes first.
    let mut rest = text.as_str();
    for (s, e) in singles.iter().zip(&all) {
        let want = build(e);
        ensure!(*s == want && s.to_string() == want.to_string() && s.profile == want.profile && s.count() == 1, "iterated {}, expected {}", dbg(s), dbg(&want));
        let line = want.to_string();
        let i = rest.find(&line).ok_or_else(|| format!("{} is printed without {}", dbg(&text), dbg(&line)))?;
        rest = &rest[i + line.len()..];
    }
    // A path is added to the first error.
    let more = err.clone().with_path(&c.more);
    ensure!(more.count() == all.len(), "adding a path loses errors");
    let want: Vec<String> = path_of(all[0]).into_iter().chain(c.more.split('.').map(|k| k.to_string())).collect();
    ensure!(more.path == want, "{:?} added to {:?} is {:?}", c.more, err.path, more.path);
    ensure!(more.kind == err.kind && more.metadata == err.metadata && more.profile == err.profile, "adding a path changes more");
    ensure!(err.missing() == matches!(err.kind, Kind::MissingField(_)), "missing: {}", err.missing());
    ensure!(err.clone() == err, "a copy of the chain is different");
    cx.hit(all.len() > 1 || all[0].md.is_some());
    cx.class_if(matches!(&c.tree, Tree::Two(a, b) if matches!(**a, Tree::Two(..)) && matches!(**b, Tree::Two(..))), "chains of chains");
    Ok(())
}

// ---------------------------------------------------------- comparing

/// A chain, and the same chain with one thing about one error changed or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Compared { tree: Vec<E>, at: usize, change: Change }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change { No, Kind(K), Path(String), Name(String), Source(Src2), How(Option<usize>), Profile(Option<String>), Fewer, Metadata }

fn gen_compared(s: &mut Src) -> Compared {
    let tree = s.vec(1, 3, 2, error);
    let change = match s.below(9) {
        0 => Change::No, 1 => Change::Kind(kind(s, true)), 2 => Change::Path(key(s)), 3 => Change::Name(string(s)), 4 => Change::Source(source(s)),
        5 => Change::How(if s.bool() { Some(s.below(3)) } else { None }), 6 => Change::Profile(if s.bool() { Some(profile(s)) } else { None }), 7 => Change::Fewer, _ => Change::Metadata,
    };
    Compared { at: s.below(tree.len()), tree, change }
}

fn check_compared(c: &Compared, cx: &mut Cx) -> Outcome {
    let chain = |es: &[E]| es.iter().map(build).reduce(|a, b| a.chain(b)).unwrap();
    let mut other = c.tree.clone();
    let e = &c.tree[c.at];
    let o = &mut other[c.at];
    let mut same = true;
    match &c.change {
        Change::No => {}
        Change::Kind(k) => { o.kind = k.clone(); same = to_kind(k) == to_kind(&e.kind) }
        Change::Path(p) => { o.paths.push(p.clone()); same = path_of(e) == path_of(o) }
        Change::Name(n) => if let Some(m) = &mut o.md { same = m.0 == *n; m.0 = n.clone() },
        Change::Source(s) => if let Some(m) = &mut o.md { same = metadata("", &m.1, None).1 == metadata("", s, None).1; m.1 = s.clone() },
        Change::How(h) => if let Some(m) = &mut o.md { m.2 = *h },
        Change::Profile(p) => { same = p.as_deref().map(Profile::new) == e.profile.as_deref().map(Profile::new); o.profile = p.clone() }
        Change::Fewer => if other.len() > 1 { other.remove(c.at); same = false },
        Change::Metadata => { same = o.md.is_none(); o.md = None }
    }
    let (a, b) = (chain(&c.tree), chain(&other));
    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "{} and {} compare {}", dbg(&a), dbg(&b), a == b);
    if let (Some((n, s, h)), Some(Some((m, t, i)))) = (&e.md, other.get(c.at).map(|o| &o.md)) {
        let ((x, xs), (y, ys)) = (metadata(n, s, *h), metadata(m, t, *i));
        let same = n == m && xs == ys;
        ensure!((x == y) == same && (y == x) == same, "{} and {} compare {}", dbg(&x), dbg(&y), x == y);
    }
    cx.hit(!same);
    cx.class_if(matches!(c.change, Change::Name(_) | Change::Source(_)) && !same, "other metadata");
    cx.class_if(c.at + 1 < c.tree.len() && !same, "an earlier error differs");
    Ok(())
}

// ---------------------------------------------------------- printed by figments

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Printed { keys: Vec<String>, list: Option<usize>, profile: String, name: String, source: Src2, how: Option<usize>, inner: usize, by_env: bool, fails: Vec<(String, Src2, Vec<String>)> }

fn gen_printed(s: &mut Src) -> Printed {
    let by_env = s.chance(1, 3);
    let keys = s.vec(1, 4, 2, |s| if by_env { s.pick(&["a", "b", "foo", "long"]).to_string() } else { key(s).replace('.', "") });
    Printed {
        inner: s.below(keys.len() + 1), list: if !by_env && s.bool() { Some(s.below(4)) } else { None },
        keys, profile: profile(s), name: string(s), how: if s.bool() { Some(s.below(3)) } else { None }, by_env,
        source: match s.below(4) { 0 => Src2::None, 1 => Src2::File(file(s), s.bool()), 2 => Src2::Code, _ => Src2::Custom(string(s)) },
        fails: s.vec(0, 5, 2, |s| (clean(string(s)) + "!", if s.bool() { Src2::None } else { Src2::Custom(clean(string(s)) + "?") }, s.vec(0, 3, 1, key))),
    }
}

struct Given<'a> { md: Metadata, data: Result<&'a Dict, Error>, profile: &'a str }
impl Provider for Given<'_> {
    fn metadata(&self) -> Metadata { self.md.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.data.clone().map(|d| Profile::new(self.profile).collect(d.clone())) }
}

fn typed(f: &Figment, inner: usize, keys: &[String], list: bool) -> Option<Error> {
    type M<T> = BTreeMap<String, T>;
    macro_rules! get { ($T:ty) => { if inner == 0 { f.extract::<$T>().err() } else { f.extract_inner::<$T>(&keys[..inner].join(".")).err() } } }
    match (keys.len() - inner, list) {
        (0, false) => get!(u8), (1, false) => get!(M<u8>), (2, false) => get!(M<M<u8>>), (3, false) => get!(M<M<M<u8>>>), (_, false) => get!(M<M<M<M<u8>>>>),
        (0, true) => get!(Vec<u8>), (1, true) => get!(M<Vec<u8>>), (2, true) => get!(M<M<Vec<u8>>>), (3, true) => get!(M<M<M<Vec<u8>>>>), (_, true) => get!(M<M<M<M<Vec<u8>>>>>),
    }
}

fn check_printed(c: &Printed, cx: &mut Cx) -> Outcome {
    clear_env();
    let r = printed(c, cx);
    clear_env();
    r
}

fn printed(c: &Printed, cx: &mut Cx) -> Outcome {
    let mut keys = c.keys.clone();
    let mut v = Value::from("wrong");
    if let Some(i) = c.list { v = (0..=i).map(|j| if j < i { Value::from(j as u8) } else { Value::from("wrong") }).collect::<Vec<_>>().into(); }
    for k in keys.iter().rev() { v = Value::from(BTreeMap::from([(k.clone(), v)])) }
    let d = v.into_dict().unwrap();
    let (f, name, source, named): (Figment, String, Option<Source>, _);
    let custom = !c.profile.eq_ignore_ascii_case("default") && !c.profile.eq_ignore_ascii_case("global");
    if c.by_env {
        std::env::set_var(format!("app_{}", keys.join("__")), "wrong");
        let env = Env::prefixed("App_").split("__").profile(c.profile.as_str());
        name = "`APP_`".into();
        source = None;
        f = Figment::from(env).select(&c.profile);
        named = Some(keys.join(".").to_ascii_uppercase());
    } else {
        let (md, src) = metadata(&c.name, &c.source, c.how);
        name = c.name.clone();
        source = src;
        f = Figment::from(Given { md, data: Ok(&d), profile: &c.profile }).select(&c.profile);
        if let Some(i) = c.list { keys.push(i.to_string()) }
        let ks: Vec<&str> = keys.iter().map(|k| k.as_str()).collect();
        // The built-in profiles are named as such.
        let p = if custom { Profile::new(&c.profile) } else { Profile::new(&c.profile.to_ascii_lowercase()) };
        named = c.how.map(|h| naming(h, &p, &ks));
    }
    // No path names an empty key.
    let nameable = c.keys.iter().position(|k| k.is_empty()).unwrap_or(c.keys.len());
    let err = typed(&f, c.inner.min(nameable), &c.keys, c.list.is_some()).ok_or("no error")?;
    let text = err.to_string();
    ensure!(err.count() == 1 && !err.missing(), "{text}: not one error of a wrong value");
    ensure!(err.path == keys, "the error of {keys:?} is at {:?}", err.path);
    ensure!(text.contains("wrong") && text.contains(&name), "{text:?} lacks the value or {name:?}");
    if let Some(s) = &source { ensure!(text.contains(&s.to_string()), "{text:?} lacks {:?}", s.to_string()) }
    match &named {
        Some(n) => ensure!(text.contains(&format!("{n:?}")), "{text:?} does not name {n:?}"),
        None => for k in &keys { let k = format!("{k:?}"); ensure!(text.contains(&k[1..k.len() - 1]), "{text:?} lacks {k}") },
    }
    // Missing values.
    let gone = format!("{}.nothing", c.keys.join("."));
    if nameable == c.keys.len() {
        let err = f.extract_inner::<u8>(&gone).err().ok_or("found nothing")?;
        ensure!(err.missing() && err.count() == 1 && err.to_string().contains("nothing"), "{gone}: {err}");
    }
    // Several that fail: all are printed.
    let mut f = Figment::from(Given { md: Metadata::named("fine"), data: Ok(&d), profile: "default" });
    for (i, (n, src, path)) in c.fails.iter().enumerate() {
        let (md, _) = metadata(n, src, Some(i % 3));
        let e = Error::from(format!("failure-{i}-"));
        let e = path.iter().fold(e, |e, p| e.with_path(p));
        f = match i % 4 { 0 => f.merge(Given { md, data: Err(e), profile: "x" }), 1 => f.join(Given { md, data: Err(e), profile: "x" }), 2 => Figment::new().merge(f).admerge(Given { md, data: Err(e), profile: "x" }), _ => f.adjoin(Given { md, data: Err(e), profile: "x" }) };
    }
    if c.fails.is_empty() { cx.hit(true); return Ok(()) }
    let f = f.select(&c.profile);
    for (how, e) in [("extract", f.extract::<Value>().err()), ("extract_lossy", f.extract_lossy::<BTreeMap<String, bool>>().err()), ("find", f.find_value("a").err()), ("inner", f.extract_inner::<u8>("a.b").err()), ("focus", f.focus("a").extract::<Value>().err())] {
        let e = e.ok_or_else(|| format!("{how}: no error"))?;
        ensure!(e.count() == c.fails.len(), "{how}: {} providers failed, {} errors", c.fails.len(), e.count());
        let text = e.to_string();
        for (i, (n, src, path)) in c.fails.iter().enumerate() {
            let one = e.clone().into_iter().find(|x| x.to_string().contains(&format!("failure-{i}-"))).ok_or_else(|| format!("{how}: failure {i} is lost in {text:?}"))?;
            let single = one.to_string();
            ensure!(text.contains(&single) && single.contains(n), "{how}: {single:?} without {n:?} in {text:?}");
            if let Src2::Custom(s) = src { ensure!(single.contains(s), "{how}: {single:?} lacks {s:?}") }
            let path: Vec<&str> = path.iter().flat_map(|p| p.split('.')).filter(|k| !k.is_empty()).collect();
            if !path.is_empty() {
                // A provider that fails has no data in any profile.
                let p = one.profile.ok_or_else(|| format!("{how}: {single:?} is of no profile"))?;
                let want = naming(i % 3, &p, &path);
                ensure!(single.contains(&format!("{want:?}")), "{how}: {single:?} does not name {want:?}");
            }
        }
    }
    cx.hit(true);
    cx.class_if(c.fails.len() > 1, "several failures");
    cx.class_if(c.by_env, "environment");
   
    Ok(())
}

// --------------------------------------------------------- sources as displayed

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shown { cwd: Vec<String>, keep: Option<usize>, more: Vec<String>, relative: bool }

fn gen_shown(s: &mut Src) -> Shown {
    let part = |s: &mut Src| s.pick(&["a", "b", "conf.d", "x y", "é", "App.toml", "long directory name", "..."]).to_string();
    let cwd = s.vec(0, 6, 3, part);
    Shown { keep: if s.chance(4, 5) { Some(s.below(cwd.len() + 1)) } else { None }, cwd, more: s.vec(0, 6, 2, part), relative: s.chance(1, 8) }
}

fn check_shown(c: &Shown, cx: &mut Cx) -> Outcome {
    let root = cx.scratch.join("c24");
    let _ = std::fs::remove_dir_all(&root);
    let cwd = c.cwd.iter().fold(root.clone(), |p, d| p.join(d));
    std::fs::create_dir_all(&cwd).unwrap();
    let (root, cwd) = (root.canonicalize().unwrap(), cwd.canonicalize().unwrap());
    let from = match (c.relative, c.keep) {
        (true, _) => PathBuf::new(),
        (_, Some(n)) => c.cwd[..n].iter().fold(root.clone(), |p, d| p.join(d)),
        (_, None) => PathBuf::from("/"),
    };
    let path = c.more.iter().fold(from, |p, d| p.join(d));
    struct Home;
    impl Drop for Home { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); } }
    let _home = Home;
    std::env::set_current_dir(&cwd).unwrap();
    let shown = Source::from(path.as_path()).to_string();
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&root);
    let full = path.to_str().unwrap();
    if c.relative {
        cx.hit(true);
        ensure!(shown == full, "{full:?} is shown as {shown:?}");
        return Ok(());
    }
    // How it is seen from the current directory.
    let (a, b) = (lexical(&path), lexical(&cwd));
    let shared = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
    let way: Vec<&str> = b[shared..].iter().map(|_| "..").chain(a[shared..].iter().map(|s| s.as_str())).collect();
    let short = way.join("/");
    cx.hit(shared > 0);
    // The current directory itself: nothing, a dot or in full.
    if way.is_empty() { ensure!(shown.is_empty() || shown == "." || shown == full, "{full:?} is shown as {shown:?} in {cwd:?}"); return Ok(()) }
    cx.class_if(shown == short, "relative");
    cx.class_if(shown == full, "complete");
    ensure!(shown == short || shown == full, "{full:?} is shown as {shown:?} in {cwd:?}");
    // What counts as shorter, by any measure.
    if way.len() < a.len() && short.len() < full.len() { ensure!(shown == short, "{full:?} is shown as {shown:?} in {cwd:?}, although {short:?} is shorter") }
    if way.len() > a.len() && short.len() > full.len() { ensure!(shown == full, "{full:?} is shown as {shown:?} in {cwd:?}, which is longer") }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C24",
        subs: vec![
            Box::new(Sub { name: "chains", quick: 300_000, thorough: 10_000_000, rule: "several errors, or one with metadata", gen, check }),
            Box::new(Sub { name: "printed", quick: 300_000, thorough: 10_000_000, rule: "every case", gen: gen_printed, check: check_printed }),
            Box::new(Sub { name: "compared", quick: 100_000, thorough: 2_000_000, rule: "the chains differ in something other than how keys are named", gen: gen_compared, check: check_compared }),
            Box::new(Sub { name: "sources", quick: 100_000, thorough: 3_000_000, rule: "a directory above the file is one above the current directory, or the path is relative", gen: gen_shown, check: check_shown }),
        ],
        assumptions: &["Keys are printed only where the provider of an error is known."],
    }
}
