//! File sources resolve to the nearest existing file.

use std::path::{Path, PathBuf};

use crate::core::*;
use crate::gen::*;
use figment::providers::{Data, Format, Json, Toml, Yaml, YamlExtended};
use figment::value::Value;
use figment::{Figment, Provider};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum What { File, Dir, LinkToFile, LinkToDir, Dangling, Gone, Broken }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum F { Toml, Json, Yaml, Ext }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Conf { Search(bool), Required(bool), Profile(String), Nested }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Puts something at a candidate: the tree's directory number, and whether at the decoy name.
    Put { level: usize, what: What, decoy: bool },
    Chdir(usize),
    /// Provides the source; how it is then combined.
    Provide { join: bool, keep: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Given { Relative(String), Absolute(usize, String), Up(usize, String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { dirs: Vec<String>, given: Given, format: F, conf: Vec<Conf>, exact: bool, start: usize, acts: Vec<Act> }

const NAME: &str = "figc14.conf";

fn gen(s: &mut Src) -> Case {
    let (few, many) = if s.chance(1, 25) { (12, 60) } else { (1, 6) };
    let dirs: Vec<String> = s.vec(few, many, few + 2, |s| s.pick(&["a", "b", "src", ".git", "x y", "ü", "Target", "target", "node_modules", "..x", "figc14.d", "f\u{E0FF}"]).to_string());
    let n = dirs.len();
    let rel = |s: &mut Src| s.pick(&[NAME, NAME, NAME, "sub/figc14.conf", "./figc14.conf", "../figc14.conf", "sub/../figc14.conf", "figc14.d/in/figc14.conf", "../../figc14.conf", ".//sub//figc14.conf", "a/figc14.conf", "src/figc14.conf", "a/b/figc14.conf", "b/../figc14.conf", "figc14.d/figc14.conf", "sub\u{E0FF}/figc14.conf", "sub\u{E0FF}/../figc14.conf"]).to_string();
    let given = match s.weighted(&[6, 1, 1]) { 0 => Given::Relative(rel(s)), 1 => Given::Absolute(s.below(n + 1), rel(s)), _ => Given::Up(s.below(3), rel(s)) };
    let what = |s: &mut Src| match s.weighted(&[6, 2, 2, 1, 1, 1, 1]) { 0 => What::File, 1 => What::Dir, 2 => What::LinkToFile, 3 => What::LinkToDir, 4 => What::Dangling, 5 => What::Gone, _ => What::Broken };
    let mut acts = s.vec(0, 4, 2, |s| Act::Put { level: s.below(n + 1), what: what(s), decoy: s.chance(1, 6) });
    acts.extend(s.vec(1, 8, 3, |s| match s.weighted(&[3, 2, 1]) {
        0 => Act::Provide { join: s.bool(), keep: s.bool() },
        1 => Act::Put { level: s.below(n + 1), what: what(s), decoy: s.chance(1, 8) },
        _ => Act::Chdir(s.below(n + 1)),
    }));
    acts.push(Act::Provide { join: s.bool(), keep: s.bool() });
    let conf = s.vec(0, 5, 2, |s| match s.below(6) { 0 | 1 => Conf::Required(s.bool()), 2 | 3 => Conf::Search(s.bool()), 4 => Conf::Profile(profile(s)), _ => Conf::Nested });
    Case { dirs, given, format: s.pick(&[F::Toml, F::Json, F::Yaml, F::Ext]), conf, exact: s.chance(1, 10), start: s.below(n + 1), acts }
}

fn text(f: F, id: usize) -> String {
    match f { F::Toml => format!("[debug]\nid = {id}\n"), F::Json => format!("{{\"debug\": {{\"id\": {id}}}}}"), _ => format!("debug:\n  id: {id}\n") }
}

struct Home;
impl Drop for Home { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); } }

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let root = cx.scratch.join("c14");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let root = root.canonicalize().unwrap();
    let _home = Home;
    let r = match c.format {
        F::Toml => run::<Toml>(c, cx, &root), F::Json => run::<Json>(c, cx, &root), F::Yaml => run::<Yaml>(c, cx, &root), F::Ext => run::<YamlExtended>(c, cx, &root),
    };
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&root);
    r
}

fn remove(p: &Path) {
    match p.symlink_metadata() {
        Ok(m) if m.is_dir() => { let _ = std::fs::remove_dir_all(p); }
        Ok(_) => { let _ = std::fs::remove_file(p); }
        Err(_) => {}
    }
}

/// All files seem as old as each other.
fn put(at: &Path, text: &str) {
    std::fs::write(at, text).unwrap();
    let time = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
    std::fs::File::options().write(true).open(at).and_then(|f| f.set_modified(time)).unwrap();
}

/// The file that would be read, by the rules.
fn nearest(given: &Path, search: bool) -> Option<PathBuf> {
    let cwd = std::env::current_dir().unwrap();
    let regular = |p: PathBuf| std::fs::metadata(&p).map_or(false, |m| m.file_type().is_file()).then_some(p);
    if given.is_absolute() { return regular(given.into()) }
    let mut dirs: Vec<PathBuf> = vec![cwd.clone()];
    if search { dirs.extend(cwd.ancestors().skip(1).map(|p| p.to_path_buf())) }
    dirs.into_iter().find_map(|d| regular(d.join(given)))
}

fn run<T: Format>(c: &Case, cx: &mut Cx, root: &Path) -> Outcome {
    #[allow(deprecated)]
    fn make<T: Format>(p: &Path, exact: bool, n: usize) -> Data<T> {
        match (exact, n % 2) { (true, 0) => T::file_exact(p), (true, _) => Data::file_exact(p), (false, 0) => T::file(p), (false, _) => Data::file(p) }
    }
    let mut levels = vec![root.to_path_buf()];
    for d in &c.dirs { let p = levels.last().unwrap().join(raw(d)); levels.push(p) }
    let deepest = levels.last().unwrap();
    std::fs::create_dir_all(deepest).unwrap();
    for l in &levels { std::fs::create_dir_all(l.join("sub")).unwrap(); std::fs::create_dir_all(l.join(raw("sub\u{E0FF}"))).unwrap(); }
    for l in &levels { let _ = std::fs::create_dir_all(l.join("figc14.d/in")); }
    let target = root.join("elsewhere");
    std::fs::create_dir_all(&target).unwrap();
    let (given, rel): (PathBuf, &String) = match &c.given {
        Given::Relative(r) => (raw(r).into(), r),
        Given::Absolute(l, r) => (levels[(*l).min(levels.len() - 1)].join(raw(r)), r),
        Given::Up(n, r) => (PathBuf::from("../".repeat(*n)).join(raw(r)), r),
    };
    std::env::set_current_dir(&levels[c.start]).unwrap();
    let (mut search, mut required, mut prof) = (!c.exact, false, Some("default".to_string()));
    let mut p: Data<T> = make(&given, c.exact, c.dirs.len());
    for o in &c.conf {
        p = match o {
            Conf::Search(b) => { search = *b; p.search(*b) }
            Conf::Required(b) => { required = *b; p.required(*b) }
            Conf::Profile(n) => { prof = Some(n.clone()); p.profile(n) }
            Conf::Nested => { prof = None; p.nested() }
        };
    }
    let mut kept: Vec<(Figment, String)> = vec![];
    let mut id = 0;
    let (mut found, mut missing) = (0, 0);
    for a in &c.acts {
        match a {
            Act::Chdir(l) => std::env::set_current_dir(&levels[*l]).unwrap(),
            Act::Put { level, what, decoy } => {
                let name = if *decoy { rel.replace(NAME, "figc14.con") } else { rel.clone() };
                let at = levels[*level].join(raw(&name));
                // Stay inside the scratch directory.
                let Some(parent) = at.parent().and_then(|p| p.canonicalize().ok()) else { continue };
                if !parent.starts_with(root) { continue }
                let at = parent.join(at.file_name().unwrap());
                id += 1;
                remove(&at);
                match what {
                    What::File => put(&at, &text(c.format, id)),
                    What::Broken => put(&at, "[{"),
                    What::Dir => std::fs::create_dir(&at).unwrap(),
                    What::LinkToFile => {
                        let t = target.join(format!("t{id}"));
                        put(&t, &text(c.format, id));
                        std::os::unix::fs::symlink(&t, &at).unwrap();
                    }
                    What::LinkToDir => std::os::unix::fs::symlink(&target, &at).unwrap(),
                    What::Dangling => std::os::unix::fs::symlink(root.join("nothing"), &at).unwrap(),
                    What::Gone => {}
                }
            }
            Act::Provide { join, keep } => {
                let want = nearest(&given, search);
                let content = want.as_ref().map(|w| std::fs::read_to_string(w).unwrap());
                let at = format!("{given:?} (search {search}, required {required}) from {:?}", std::env::current_dir().unwrap().strip_prefix(root).unwrap_or(Path::new("?")));
                let md = p.metadata();
                let base = Figment::new().merge(("other", 1));
                let f = if *join { base.join(&p) } else { base.merge(&p) };
                let named = md.name.starts_with(T::NAME) && md.name.contains("file");
                ensure!(named, "{at}: metadata is named {:?}", md.name);
                let reported = md.source.as_ref().and_then(|s| s.file_path()).map(|p| p.to_path_buf()).ok_or_else(|| format!("{at}: metadata reports no file"))?;
                let prof_name = prof.clone().unwrap_or("debug".into());
                let f = f.select(&prof_name);
                match (&want, content.as_deref()) {
                    (Some(w), Some(t)) => {
                        ensure!(reported.canonicalize().ok() == w.canonicalize().ok(), "{at}: metadata reports {reported:?}, but {w:?} is read");
                        found += 1;
                        if t == "[{" {
                            let e = match f.extract::<Value>() { Ok(v) => return Err(format!("{at}: the malformed {w:?} gives {v:?}")), Err(e) => e };
                            let from = e.metadata.as_ref().and_then(|m| m.source.as_ref()).and_then(|s| s.file_path()).map(|p| p.to_path_buf());
                            ensure!(from.as_ref().and_then(|p| p.canonicalize().ok()) == w.canonicalize().ok(), "{at}: the error for {w:?} is attributed to {from:?}");
                            continue;
                        }
                        let key = if prof.is_some() { "debug.id" } else { "id" };
                        let got: usize = f.extract_inner(key).map_err(|e| format!("{at}: {key} of {w:?}: {e}"))?;
                        ensure!(t == text(c.format, got), "{at}: reads the file saying {got}, expected {w:?} saying {t:?}");
                        let of = f.find_metadata(key).and_then(|m| m.source.clone()).and_then(|s| s.file_path().map(|p| p.to_path_buf()));
                        ensure!(of.as_ref().and_then(|p| p.canonicalize().ok()) == w.canonicalize().ok(), "{at}: the value is attributed to {of:?}, expected {w:?}");
                        if *keep { kept.push((f, format!("{key} {got}"))) }
                    }
                    _ if required => {
                        missing += 1;
                        let e = match f.extract::<Value>() { Ok(v) => return Err(format!("{at}: required but missing, yet extraction gives {v:?}")), Err(e) => e };
                        ensure!(e.to_string().contains(&given.display().to_string()), "{at}: the error {:?} does not name the file", e.to_string());
                        ensure_eq!(e.metadata.as_ref().and_then(|m| m.source.as_ref()).and_then(|s| s.file_path()), Some(&*given), "{at}: file the error is attributed to");
                        ensure!(p.data().is_err(), "{at}: required but missing, yet data() succeeds");
                    }
                    _ => {
                        missing += 1;
                        let d = p.data().map_err(|e| format!("{at}: missing and not required, but data() fails: {e}"))?;
                        ensure!(d.values().all(|d| d.is_empty()), "{at}: missing, but provides {d:?}");
                        ensure!(!f.contains("debug") && !f.contains("id"), "{at}: missing, but provides something");
                        let n: i32 = f.extract_inner("other").map_err(|e| format!("{at}: missing and not required, but extraction fails: {e}"))?;
                        ensure_eq!(n, 1, "other value");
                        if *keep { kept.push((f, "other 1".into())) }
                    }
                }
            }
        }
    }
    // What was provided stays, whatever happened to the files since.
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(root);
    for (f, what) in &kept {
        let (k, n) = what.split_once(' ').unwrap();
        let got: Result<u64, _> = f.extract_inner(k);
        ensure_eq!(got.map_err(|e| e.to_string()), Ok(n.parse().unwrap()), "{k} of a figment after the files are gone");
    }
    cx.hit(found > 0 && c.acts.len() >= 2);
    cx.class_if(found > 0 && missing > 0, "found and missing");
    cx.class_if(found > 1, "found more than once");
    cx.class_if(missing > 0 && required, "required and missing");
    cx.class_if(matches!(c.given, Given::Absolute(..)), "absolute");
    cx.class_if(!search, "no search");
    cx.class_if(c.acts.iter().any(|a| matches!(a, Act::Put { what: What::Dir | What::LinkToDir, decoy: false, .. })), "directory of that name");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C14",
        subs: vec![
            Box::new(Sub { name: "resolve", quick: 100_000, thorough: 1_500_000, gen, check,
                rule: "directory chains up to six, now and then sixty, deep with files, directories, links and broken links at the candidate places, and a history of changing directory, creating, removing and providing; non-trivial: a file is found and at least two steps are made" }),
        ],
        assumptions: &["a symbolic link to a regular file counts as that file", "nothing named figc14.conf lies above the scratch directory"],
    }
}
