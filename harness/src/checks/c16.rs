//! Relative paths resolve against the file that declared them.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

use crate::core::*;
use crate::emit;
use crate::gen::*;
use crate::model::*;
use figment::providers::{Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::de::{DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize, Serializer};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum From {
    /// A file in a directory; found by searching from a directory below it or not.
    File { fmt: Fmt, dir: usize, name: String, below: Option<usize>, ext: bool, #[serde(default)] link: u8, #[serde(default)] sub: bool },
    /// A provider written by the user that says it reads this file (which need not exist).
    Says(String),
    /// Likewise with a source that is no file.
    Custom(String),
    Code,
    Pair,
    Text(Fmt),
    NestedFile { fmt: Fmt, dir: usize, name: String, #[serde(default)] link: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step { strat: Strat, from: From, profile: String, data: MDict }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode { Plain, Option, Tagged, Either, Newtype }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { steps: Vec<Step>, select: String, mode: Mode, again: Vec<Again>, prefix: Vec<String> }

/// How the extracted configuration is used again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Again { Defaults, Key(String), Nested, Json, MergedOver, Value }

fn path_text(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 1]) {
        0 => s.pick(&["a/b.html", "x", "../up.txt", "./dot", "/abs/p.txt", "/", "a//b", "a/./b/", "ü/ß.cfg", ".", "..", "", "x y/z", "C:\\w\\x", "~/home", "//net", "a/../b", "-"]).into(),
        1 => { let n = s.size(1, 5); (0..n).map(|_| s.pick(&["a", "..", ".", "dir", "é", "/", "f.txt"])).collect::<Vec<_>>().join("/") }
        _ => clean(string(s)),
    }
}

fn leaf(s: &mut Src) -> MV {
    match s.weighted(&[8, 1, 1]) { 0 => MV::S(path_text(s)), 1 => MV::int(s.range(0, 9)), _ => MV::B(s.bool()) }
}

fn branch(s: &mut Src, depth: usize) -> MV {
    match s.weighted(&[4, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
        0 => leaf(s),
        1 => MV::D(s.vec(0, 4, 2, |s| (s.pick(&KEYS[..4]).to_string(), branch(s, depth - 1))).into_iter().collect()),
        _ => MV::A(s.vec(0, 4, 2, |s| branch(s, depth - 1))),
    }
}

const DIRS: &[&str] = &[".", "conf", "conf/inner", "ü mlaut", "a.toml", "@long"];

/// The last one is a path of more than 500 bytes.
fn dir_name(i: usize) -> String {
    if DIRS[i] == "@long" { format!("{0}/{0}/{0}", "long-directory-name-".repeat(9)) } else { DIRS[i].into() }
}

fn gen(s: &mut Src) -> Case {
    let file_name = |s: &mut Src| s.pick(&["App.toml", "c.json", "conf", ".rc", "ä.yaml", "x y.cfg"]).to_string();
    let fmt = |s: &mut Src| s.pick(&[Fmt::Toml, Fmt::Json, Fmt::Yaml]);
    let mut seen: Vec<MV> = vec![];
    let steps = s.vec(1, 6, 3, |s| {
        let from = match s.weighted(&[5, 1, 1, 2, 1, 1, 1]) {
            0 => From::File { fmt: fmt(s), dir: s.below(DIRS.len()), name: file_name(s), below: if s.bool() { Some(s.below(3)) } else { None }, ext: s.bool(), link: s.weighted(&[6, 1, 1]) as u8, sub: s.chance(1, 3) },
            1 => From::Says(s.pick(&["@dir", "@dir", "/etc/app/x.conf", "rel/x.conf", "x.conf", "/x", "/no such dir/ä"]).into()),
            2 => From::Custom(s.pick(&["vault", "/looks/like/a/path", ""]).into()),
            3 => From::Code, 4 => From::Pair, 5 => From::Text(fmt(s)),
            _ => From::NestedFile { fmt: fmt(s), dir: s.below(DIRS.len()), name: file_name(s), link: s.weighted(&[6, 1, 1]) as u8 },
        };
        let v = if !seen.is_empty() && s.chance(1, 2) { let b = s.pick(&seen); revise(s, &b) } else {
            MV::D(s.vec(0, 4, 3, |s| (s.pick(&KEYS[..4]).to_string(), branch(s, 3))).into_iter().collect())
        };
        seen.push(v.clone());
        let MV::D(data) = v else { unreachable!() };
        Step { strat: strat(s), from, profile: s.pick(&["default", "default", "debug", "global"]).into(), data }
    });
    let mode = s.pick(&[Mode::Plain, Mode::Plain, Mode::Option, Mode::Tagged, Mode::Either, Mode::Newtype]);
    let again = s.vec(0, 3, 1, |s| match s.below(6) {
        0 => Again::Defaults, 1 => Again::Key(dotted(s, 2)), 2 => Again::Nested, 3 => Again::Json, 4 => Again::MergedOver, _ => Again::Value,
    });
    Case { steps, select: s.pick(&["default", "debug", "global"]).into(), mode, again, prefix: s.vec(0, 2, 1, |s| s.pick(&KEYS[..3]).to_string()) }
}

/// Another leaf here and there.
fn revise(s: &mut Src, v: &MV) -> MV {
    match v {
        MV::D(d) => MV::D(d.iter().map(|(k, v)| (k.clone(), revise(s, v))).collect()),
        MV::A(a) => MV::A(a.iter().map(|v| revise(s, v)).collect()),
        v => if s.bool() { leaf(s) } else { v.clone() },
    }
}

// ---------------------------------------------------------- extraction by shape

/// A tree of paths, extracted as the shape says.
#[derive(Clone, Debug)]
enum Tree { Path(Leaf), D(BTreeMap<String, Tree>), A(Vec<Tree>), Other(MV) }

#[derive(Clone, Debug, Serialize)]
#[serde(untagged)]
enum Leaf { Plain(RelativePathBuf), Option(Option<RelativePathBuf>), Tagged(Tagged<RelativePathBuf>), Either(Either<RelativePathBuf, u8>), Newtype(Newtype) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Newtype(RelativePathBuf);

impl Leaf {
    fn path(&self) -> Result<&RelativePathBuf, String> {
        match self {
            Leaf::Plain(p) => Ok(p), Leaf::Option(Some(p)) => Ok(p), Leaf::Tagged(p) => Ok(p), Leaf::Either(Either::Left(p)) => Ok(p), Leaf::Newtype(p) => Ok(&p.0),
            l => Err(format!("extracted as {l:?}")),
        }
    }
}

impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self { Tree::Path(p) => p.serialize(s), Tree::D(d) => d.serialize(s), Tree::A(a) => a.serialize(s), Tree::Other(v) => Native(v).serialize(s) }
    }
}

struct Seed<'a>(&'a MV, Mode);

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Tree;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        struct V<'a>(&'a MV, Mode);
        impl<'de, 'a> Visitor<'de> for V<'a> {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a tree of paths") }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let MV::D(d) = self.0 else { return Err(serde::de::Error::custom("unexpected map")) };
                let mut out = BTreeMap::new();
                while let Some(k) = a.next_key::<String>()? {
                    match d.get(&k) { Some(v) => { out.insert(k, a.next_value_seed(Seed(v, self.1))?); } None => { a.next_value::<serde::de::IgnoredAny>()?; } }
                }
                Ok(Tree::D(out))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let MV::A(vs) = self.0 else { return Err(serde::de::Error::custom("unexpected sequence")) };
                let mut out = vec![];
                for v in vs { match a.next_element_seed(Seed(v, self.1))? { Some(t) => out.push(t), None => break } }
                Ok(Tree::A(out))
            }
        }
        Ok(match self.0 {
            MV::S(_) => Tree::Path(match self.1 {
                Mode::Plain => Leaf::Plain(RelativePathBuf::deserialize(d)?),
                Mode::Option => Leaf::Option(Option::deserialize(d)?),
                Mode::Tagged => Leaf::Tagged(Tagged::deserialize(d)?),
                Mode::Either => Leaf::Either(Either::deserialize(d)?),
                Mode::Newtype => Leaf::Newtype(Newtype::deserialize(d)?),
            }),
            MV::D(_) => return d.deserialize_map(V(self.0, self.1)),
            MV::A(_) => return d.deserialize_seq(V(self.0, self.1)),
            _ => Tree::Other(MV::of(&<Value as Deserialize>::deserialize(d)?)),
        })
    }
}

thread_local! { static SHAPE: RefCell<(MV, Mode)> = const { RefCell::new((MV::Unit, Mode::Plain)) }; }

struct Root(Tree);
impl<'de> Deserialize<'de> for Root {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Root, D::Error> {
        let (v, m) = SHAPE.with(|s| s.borrow().clone());
        Seed(&v, m).deserialize(d).map(Root)
    }
}

fn extract(f: &Figment, at: &[String], shape: &MV, mode: Mode) -> Result<Tree, String> {
    SHAPE.with(|s| *s.borrow_mut() = (shape.clone(), mode));
    if at.is_empty() { f.extract::<Root>() } else { f.extract_inner::<Root>(&at.join(".")) }.map(|r| r.0).map_err(|e| format!("extraction fails: {e}"))
}

// ------------------------------------------------------------------- the check

struct Says { data: Map<Profile, Dict>, md: Metadata }
impl Provider for Says {
    fn metadata(&self) -> Metadata { self.md.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(self.data.clone()) }
}

/// A path's expected text and declaring file, from the model.
fn verify(t: &Tree, m: &PV, file: &dyn Fn(&Origin) -> Option<PathBuf>, at: &str, paths: &mut usize) -> Outcome {
    match (t, &m.node) {
        (Tree::Path(l), PNode::Leaf(MV::S(text))) => {
            let p = l.path().map_err(|e| format!("at `{at}`: {e}"))?;
            let files: Vec<Option<PathBuf>> = m.from.iter().map(file).collect();
            *paths += 1;
            ensure_eq!(p.original().as_os_str().to_str(), Some(text.as_str()), "at `{at}`: original()");
            ensure_eq!(files.len(), 1, "model: origins of a leaf");
            let want = match &files[0] {
                _ if text.starts_with('/') => PathBuf::from(text),
                None => PathBuf::from(text),
                Some(f) if f.is_dir() => f.join(text),
                Some(f) => {
                    use std::os::unix::ffi::{OsStrExt, OsStringExt};
                    let d = f.as_os_str().as_bytes();
                    let d = &d[..d.iter().rposition(|c| *c == b'/').map_or(0, |i| i.max(1))];
                    if d.is_empty() { PathBuf::from(text) } else { PathBuf::from(std::ffi::OsString::from_vec([d, b"/", text.as_bytes()].concat())) }
                }
            };
            ensure_eq!(p.relative(), want, "at `{at}`: relative() of {text:?} declared in {:?}", files[0]);
            ensure_eq!(p.metadata_path(), files[0].as_deref(), "at `{at}`: metadata_path() of {text:?}");
            // Values made in code have no file; equality is that of what is meant.
            let own: RelativePathBuf = text.as_str().into();
            ensure!(own.original() == Path::new(text) && own.relative() == Path::new(text) && own.metadata_path().is_none(), "at `{at}`: {own:?} made from {text:?}");
            ensure!(*p == p.clone() && (*p == own) == (want == Path::new(text)) && (own == *p) == (*p == own), "at `{at}`: {p:?} == {own:?}: {}", *p == own);
            let absolute: RelativePathBuf = want.clone().into();
            ensure!(*p == absolute, "at `{at}`: {p:?} is not equal to {absolute:?}");
            if want.to_str().is_none() { return Ok(()) }
            // The serialization variants.
            #[derive(Serialize)]
            struct Ser<'a> {
                #[serde(serialize_with = "RelativePathBuf::serialize_original")] o: &'a RelativePathBuf,
                #[serde(serialize_with = "RelativePathBuf::serialize_relative")] r: &'a RelativePathBuf,
            }
            let v = Value::serialize(Ser { o: p, r: p }).map_err(|e| format!("at `{at}`: {e}"))?;
            ensure_eq!(v.find_ref("o").and_then(|v| v.as_str()), Some(text.as_str()), "at `{at}`: serialize_original");
            ensure_eq!(v.find_ref("r").and_then(|v| v.as_str()).map(Path::new), Some(&*want), "at `{at}`: serialize_relative");
            let j = serde_json::to_value(Ser { o: p, r: p }).unwrap();
            ensure!(j["o"] == text.as_str() && j["r"].as_str().map(Path::new) == Some(&*want), "at `{at}`: serialized as JSON {j}");
        }
        (Tree::D(t), PNode::D(m)) => {
            ensure_eq!(t.len(), m.len(), "at `{at}`: entries");
            for (k, m) in m { verify(t.get(k).ok_or_else(|| format!("at `{at}.{k}`: missing"))?, m, file, &format!("{at}.{k}"), paths)? }
        }
        (Tree::A(t), PNode::A(m)) => {
            ensure_eq!(t.len(), m.len(), "at `{at}`: elements");
            for (i, m) in m.iter().enumerate() { verify(&t[i], m, file, &format!("{at}.{i}"), paths)? }
        }
        (Tree::Other(v), PNode::Leaf(m)) => ensure!(v.same(m), "at `{at}`: {v:?}, expected {m:?}"),
        (t, _) => return Err(format!("at `{at}`: {t:?}, expected {:?}", m.mv())),
    }
    Ok(())
}

struct Home;
impl Drop for Home { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); } }

fn text(fmt: Fmt, d: &MDict) -> String {
    let mut s = Src::replay(&[]);
    match fmt { Fmt::Toml => emit::toml(d, &mut s), Fmt::Json => to_json(&MV::D(d.clone())), Fmt::Yaml => emit::yaml(d, &mut s) }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let root = cx.scratch.join("c16");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let root = root.canonicalize().unwrap();
    let _home = Home;
    let r = run(c, cx, &root);
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&root);
    r
}

fn run(c: &Case, cx: &mut Cx, root: &Path) -> Outcome {
    let mut f = Figment::new();
    let mut m = MFig::new();
    let mut files: Vec<Option<PathBuf>> = vec![];
    for (id, st) in c.steps.iter().enumerate() {
        let mut prof = st.profile.clone();
        let mut declared = None;
        macro_rules! add { ($p:expr) => { { let p = $p; f = match st.strat { Strat::Merge => f.merge(p), Strat::Join => f.join(p), Strat::Admerge => f.admerge(p), Strat::Adjoin => f.adjoin(p) } } } }
        let place = |dir: usize, name: &str, body: String, link: u8| {
            let name = &raw(name);
            // One file per step, perhaps through a link; the link is what declares.
            let d = if dir == 0 { root.join(format!("s{id}")) } else { root.join(format!("s{id}")).join(dir_name(dir)) };
            let real = root.join(format!("real{id}"));
            match link {
                0 => { std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join(name), body).unwrap() }
                1 => {
                    std::fs::create_dir_all(&d).unwrap();
                    std::fs::create_dir_all(&real).unwrap();
                    std::fs::write(real.join("other name"), body).unwrap();
                    std::os::unix::fs::symlink(real.join("other name"), d.join(name)).unwrap();
                }
                _ => {
                    std::fs::create_dir_all(d.parent().unwrap()).unwrap();
                    std::fs::create_dir_all(&real).unwrap();
                    std::fs::write(real.join(name), body).unwrap();
                    std::os::unix::fs::symlink(&real, &d).unwrap();
                }
            }
            d.join(name)
        };
        match &st.from {
            From::File { fmt, dir, name, below, ext, link, sub } => {
                // Searching starts at the physical directory.
                let link = if *link == 2 && below.is_some() && !(*sub && *dir != 0) { 0 } else { *link };
                let at = place(*dir, name, text(*fmt, &st.data), link);
                let given: PathBuf = match below {
                    // A path of several components from a directory above the file.
                    Some(n) if *sub && *dir != 0 => {
                        let mut d = root.join(format!("s{id}"));
                        for i in 0..*n { d = d.join(format!("below{i}")) }
                        std::fs::create_dir_all(&d).unwrap();
                        std::env::set_current_dir(&d).unwrap();
                        at.strip_prefix(root.join(format!("s{id}"))).unwrap().into()
                    }
                    Some(n) => {
                        let mut d = at.parent().unwrap().to_path_buf();
                        for i in 0..*n { d = d.join(format!("below{i}")) }
                        std::fs::create_dir_all(&d).unwrap();
                        std::env::set_current_dir(&d).unwrap();
                        raw(name).into()
                    }
                    None => at.clone(),
                };
                match fmt {
                    Fmt::Toml => add!(Toml::file(&given).profile(&prof)),
                    Fmt::Json => add!(Json::file(&given).profile(&prof)),
                    Fmt::Yaml if *ext => add!(YamlExtended::file(&given).profile(&prof)),
                    Fmt::Yaml => add!(Yaml::file(&given).profile(&prof)),
                }
                std::env::set_current_dir("/").unwrap();
                declared = Some(at);
            }
            From::NestedFile { fmt, dir, name, link } => {
                let body = MDict::from([(prof.clone(), MV::D(st.data.clone()))]);
                let at = place(*dir, name, text(*fmt, &body), *link);
                match fmt { Fmt::Toml => add!(Toml::file(&at).nested()), Fmt::Json => add!(Json::file(&at).nested()), Fmt::Yaml => add!(Yaml::file(&at).nested()) }
                declared = Some(at);
            }
            // A source that is a directory itself.
            From::Says(p) if p == "@dir" => {
                let d = root.join(format!("dir{id}"));
                std::fs::create_dir_all(&d).unwrap();
                add!(Says { data: Profile::new(&prof).collect(dict(&st.data)), md: Metadata::from("says", d.as_path()) });
                declared = Some(d);
            }
            From::Says(p) => { add!(Says { data: Profile::new(&prof).collect(dict(&st.data)), md: Metadata::from("says", Path::new(p)) }); declared = Some(p.into()) }
            From::Custom(p) => add!(Says { data: Profile::new(&prof).collect(dict(&st.data)), md: Metadata::from("custom", p.as_str()) }),
            From::Code => add!(Serialized::from(Owned(MV::D(st.data.clone())), &prof)),
            From::Pair => {
                prof = "global".into();
                for (i, (k, v)) in st.data.iter().enumerate() { if i == 0 { add!((k.as_str(), Owned(v.clone()))) } }
            }
            From::Text(fmt) => match fmt {
                Fmt::Toml => add!(Toml::string(&text(*fmt, &st.data)).profile(&prof)),
                Fmt::Json => add!(Json::string(&text(*fmt, &st.data)).profile(&prof)),
                Fmt::Yaml => add!(Yaml::string(&text(*fmt, &st.data)).profile(&prof)),
            },
        }
        files.push(declared);
        let data: MDict = if matches!(st.from, From::Pair) { st.data.clone().into_iter().take(1).collect() } else { st.data.clone() };
        if matches!(st.from, From::Pair) && data.is_empty() { continue }
        let o = (id, prof.clone());
        m.provide(st.strat, Ok([(prof, pdict(&data, &o))].into()), None);
    }
    let f = f.select(&c.select);
    m.selected = c.select.clone();
    let file = |o: &Origin| files[o.0].clone();
    let whole = PV { node: PNode::D(m.visible().unwrap()), from: Default::default() };
    let mut paths = 0;
    // All of it, and what is under a key.
    let tree = extract(&f, &[], &whole.mv(), c.mode)?;
    verify(&tree, &whole, &file, "", &mut paths)?;
    if let Some(sub) = whole.get(&c.prefix) {
        let t = extract(&f, &c.prefix, &sub.mv(), c.mode).map_err(|e| format!("under {:?}: {e}", c.prefix))?;
        verify(&t, sub, &file, &c.prefix.join("."), &mut paths)?;
    }
    // And again, having been serialized.
    let mut tree = tree;
    for (i, a) in c.again.iter().enumerate() {
        let from_file = std::fs::create_dir_all(root.join("again")).map(|_| root.join("again").join(format!("a{i}"))).unwrap();
        let (g, at): (Figment, Vec<String>) = match a {
            Again::Defaults => (Figment::new().join(Serialized::defaults(&tree)), vec![]),
            Again::Key(k) => (Figment::new().merge(Serialized::default(k, &tree)), k.split('.').map(|k| k.to_string()).collect()),
            Again::Nested => (Figment::new().merge(Figment::from(Serialized::globals(&tree)).merge(("unrelated", 1))), vec![]),
            // Through a file of its own, which declares the paths that had no file.
            Again::Json => {
                let Ok(t) = serde_json::to_string(&tree) else { continue };
                std::fs::write(&from_file, t).unwrap();
                for f in &mut files { f.get_or_insert(from_file.clone()); }
                (Figment::new().merge(Json::file(&from_file)), vec![])
            }
            Again::MergedOver => (f.clone().merge(Serialized::globals(&tree)), vec![]),
            Again::Value => {
                let v = Value::serialize(&tree).map_err(|e| format!("serializing to a value: {e}"))?;
                (Figment::new().merge(Serialized::defaults(v)), vec![])
            }
        };
        let mut n = 0;
        let file = |o: &Origin| files[o.0].clone();
        let whole = PV { node: whole.node.clone(), from: Default::default() };
        let t = extract(&g, &at, &whole.mv(), c.mode).map_err(|e| format!("again ({a:?}): {e}"))?;
        verify(&t, &whole, &file, "", &mut n).map_err(|e| format!("again ({a:?}): {e}"))?;
        cx.class("re-serialized");
        tree = t;
    }
    let origins: std::collections::BTreeSet<usize> = fn_origins(&whole);
    cx.hit(paths >= 2 && files.iter().any(|f| f.is_some()));
    cx.class_if(origins.len() >= 2, "paths from several providers");
    cx.class_if(c.mode != Mode::Plain, "wrapped");
    Ok(())
}

fn fn_origins(v: &PV) -> std::collections::BTreeSet<usize> {
    match &v.node {
        PNode::Leaf(MV::S(_)) => v.from.iter().map(|o| o.0).collect(),
        PNode::Leaf(_) => Default::default(),
        PNode::D(d) => d.values().flat_map(fn_origins).collect(),
        PNode::A(a) => a.iter().flat_map(fn_origins).collect(),
    }
}

pub fn property() -> Property {
    Property {
        id: "C16",
        subs: vec![
            Box::new(Sub { name: "paths", quick: 200_000, thorough: 1_500_000, gen, check,
                rule: "trees of paths and other values from up to six providers (files in varied directories, through links, found by search or not, custom sources, code), extracted plainly or in wrappers, serialized and extracted again up to three times; non-trivial: two paths or more and a file" }),
        ],
        assumptions: &["generated file paths are UTF-8 (see the known finding)"],
    }
}
