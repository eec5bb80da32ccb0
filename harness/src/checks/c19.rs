//! Jail file operations never touch anything outside the jail directory.

use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};

use crate::core::*;
use figment::Jail;
use serde::{Deserialize, Serialize};

/// Where a path starts.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Root {
    Relative,
    /// The jail's directory, as it is told.
    Jail,
    /// The directory around it, one beside it, one whose name begins like the jail's, one far off.
    Parent, Beside, Longer, Shorter, Elsewhere,
    /// The jail's directory through a link, or by a detour.
    Alias, Detour, Cwd,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P { root: Root, parts: Vec<String> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op { File(P, String), Binary(P, Vec<u8>, usize), Dir(P), Cd(P), /** Changes to the directory last created. */ CdLast }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { link: bool, ops: Vec<Op> }

const PARTS: &[&str] = &["a", "b", "sub", "f.txt", "..", ".", "ü", "...", "..a", " ", "-rf", "a b", "", "keep", "tmp", "A", "~", "a\\..\\b", "$HOME", "c:", "%2e%2e", "..\u{0}"];

fn path(s: &mut Src) -> P {
    let root = match s.weighted(&[10, 4, 6]) {
        0 => Root::Relative, 1 => Root::Jail,
        _ => s.pick(&[Root::Parent, Root::Beside, Root::Longer, Root::Shorter, Root::Elsewhere, Root::Alias, Root::Detour, Root::Cwd]),
    };
    // Never more than four levels up: see `inside`.
    let mut ups = 0;
    let parts = s.vec(0, 6, 2, |s| {
        let p = match s.weighted(&[5, 2, 1]) { 0 => s.pick(&PARTS[..4]), 1 => "..", _ => s.pick(PARTS) };
        if p == ".." { ups += 1; if ups > 4 { return "a".into() } }
        p.to_string()
    });
    P { root, parts }
}

fn gen(s: &mut Src) -> Case {
    let ops = s.vec(1, 16, 6, |s| match s.weighted(&[4, 2, 4, 4, 2]) {
        0 => Op::File(path(s), s.pick(&["", "x", "[a]\nb = 1", "ü\n"]).into()),
        1 => { let n = if s.chance(1, 40) { s.pick(&[65_536usize, 65_537, 150_000, 1_100_000]) } else { s.pick(&[0usize, 1, 100, 8191, 8192, 8193, 20_000]) }; Op::Binary(path(s), s.vec(1, 4, 2, |s| s.draw(255) as u8), n) }
        2 => Op::Dir(path(s)), 3 => Op::Cd(path(s)), _ => Op::CdLast,
    });
    Case { link: s.chance(1, 4), ops }
}

#[derive(Clone, Debug, PartialEq)]
enum Node { Dir, File(Vec<u8>), Link(PathBuf) }

type Tree = BTreeMap<PathBuf, Node>;

/// Everything below, links not followed, `skip` not entered.
fn tree(p: &Path, skip: Option<&Path>, out: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let path = e.path();
        if Some(&*path) == skip { continue }
        let Ok(m) = path.symlink_metadata() else { continue };
        if m.is_dir() { tree(&path, skip, out); out.insert(path, Node::Dir); }
        else if m.is_symlink() { let to = std::fs::read_link(&path).unwrap_or_default(); out.insert(path, Node::Link(to)); }
        else { let b = std::fs::read(&path).unwrap_or_default(); out.insert(path, Node::File(b)); }
    }
}

pub fn inside(c: &Case, cx: &mut Cx) -> Outcome {
    // Many levels below what this user can write to, so that escapes by a few levels stay in the scratch directory.
    let base = cx.scratch.join("c19");
    let _ = std::fs::remove_dir_all(&base);
    let around = base.join("1/2/3/4/5/6/around");
    std::fs::create_dir_all(around.join("tmp")).unwrap();
    for d in ["", "1", "1/2", "1/2/3/4/5/6", "1/2/3/4/5/6/around", "1/2/3/4/5/6/around/tmp"] { std::fs::write(base.join(d).join("keep"), d).unwrap() }
    std::fs::create_dir_all(around.join("elsewhere/a")).unwrap();
    std::os::unix::fs::symlink(around.join("tmp"), around.join("tmplink")).unwrap();
    for (k, _) in std::env::vars_os() { std::env::remove_var(k) }
    std::env::set_var("TMPDIR", around.join(if c.link { "tmplink" } else { "tmp" }));
    std::env::set_current_dir(&base).unwrap();
    let mut out = Ok(());
    let r = guard(|| Jail::try_with(|jail| { out = guard(|| ops(c, cx, &base, &around, jail)).unwrap_or_else(|p| Err(format!("panic: {p}"))); Ok(()) }));
    std::env::set_current_dir("/").unwrap();
    let kept: usize = { let mut t = Tree::new(); tree(&base, None, &mut t); t.iter().filter(|(p, _)| p.ends_with("keep")).count() };
    let _ = std::fs::remove_dir_all(&base);
    out?;
    ensure!(matches!(r, Ok(Ok(()))), "the jail could not run: {r:?}");
    let _ = kept;
    Ok(())
}

fn ops(c: &Case, cx: &mut Cx, base: &Path, around: &Path, jail: &mut Jail) -> Outcome {
    let home = jail.directory().to_path_buf();
    let name = home.file_name().unwrap().to_string_lossy().to_string();
    let tmp = home.parent().unwrap().to_path_buf();
    let (longer, shorter) = (tmp.join(format!("{name}-more")), tmp.join(&name[..name.len() - 1]));
    for d in [&longer, &shorter, &tmp.join("beside")] { std::fs::create_dir_all(d.join("a")).unwrap(); std::fs::write(d.join("keep"), "k").unwrap() }
    ensure!(home.is_absolute() && tmp == around.join("tmp"), "the jail's directory is {home:?}");
    let mut outside = Tree::new();
    tree(base, Some(&home), &mut outside);
    // What is inside, and where we are.
    let mut inner: Tree = Tree::new();
    let mut cwd = home.clone();
    let mut last: Option<PathBuf> = None;
    let (mut plain_ok, mut refused) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let p = match op { Op::File(p, _) | Op::Binary(p, ..) | Op::Dir(p) | Op::Cd(p) => p.clone(), Op::CdLast => P { root: Root::Relative, parts: vec![] } };
        let start: PathBuf = match p.root {
            Root::Relative => PathBuf::new(), Root::Jail => home.clone(), Root::Parent => tmp.clone(), Root::Beside => tmp.join("beside"), Root::Longer => longer.clone(),
            Root::Shorter => shorter.clone(), Root::Elsewhere => around.join("elsewhere"), Root::Alias => around.join("tmplink").join(&name),
            Root::Detour => tmp.join("beside/..").join(&name), Root::Cwd => cwd.clone(),
        };
        // By text: joining would drop empty parts.
        let mut text = start.to_str().unwrap().to_string();
        for part in &p.parts { if !text.is_empty() { text.push('/') } text.push_str(part) }
        let path = match op { Op::CdLast => match &last { Some(l) => l.clone(), None => continue }, _ => PathBuf::from(&text) };
        let at = format!("operation {i} ({}) on {path:?} in {cwd:?}, the jail being {home:?}", match op { Op::File(..) => "create_file", Op::Binary(..) => "create_binary", Op::Dir(_) => "create_dir", _ => "change_dir" });
        let parts: Vec<Component> = path.components().collect();
        let plain = parts.iter().all(|c| matches!(c, Component::Normal(_) | Component::RootDir)) && !path.as_os_str().is_empty() && !text.contains('\0') && !text.split('/').any(|c| c == ".")
            && !(text.is_empty());
        let up = parts.contains(&Component::ParentDir);
        let target = if path.is_absolute() { path.clone() } else { cwd.join(&path) };
        let within = target.starts_with(&home);
        let elsewhere = path.is_absolute() && !lexical(&path).starts_with(&home);
        let content: Vec<u8> = match op { Op::File(_, t) => t.clone().into_bytes(), Op::Binary(_, b, n) => b.iter().cycle().take(*n).copied().collect(), _ => vec![] };
        let dir = |p: &Path| p == home || inner.get(p) == Some(&Node::Dir);
        let result: Result<Option<PathBuf>, String> = match op {
            Op::File(_, t) => jail.create_file(&path, t).map(|f| { drop(f); None }).map_err(|e| e.to_string()),
            Op::Binary(..) => jail.create_binary(&path, &content).map(|_| None).map_err(|e| e.to_string()),
            Op::Dir(_) => jail.create_dir(&path).map(Some).map_err(|e| e.to_string()),
            Op::Cd(_) | Op::CdLast => jail.change_dir(&path).map(Some).map_err(|e| e.to_string()),
        };
        // Nothing outside.
        let mut now = Tree::new();
        tree(base, Some(&home), &mut now);
        if now != outside {
            let diff: Vec<_> = now.iter().filter(|(k, v)| outside.get(*k) != Some(v)).map(|(k, _)| k).chain(outside.keys().filter(|k| !now.contains_key(*k))).collect();
            return Err(format!("{at} changed something outside: {diff:?}"));
        }
        let here = std::env::current_dir().map_err(|e| format!("{at}: no current directory: {e}"))?;
        ensure!(here.starts_with(&home), "{at} led outside, to {here:?}");
        if elsewhere { ensure!(result.is_err(), "{at}: an absolute path outside of the jail was accepted"); refused += 1; }
        let mut real = Tree::new();
        tree(&home, None, &mut real);
        if result.is_err() {
            // Directories created on the way may remain; no file may appear or change.
            for (k, v) in &real { if let Node::File(_) = v {
                ensure!(inner.get(k) == Some(v), "{at} failed, but the file {k:?} changed");
            } }
            ensure!(here == cwd, "{at} failed, but went to {here:?}");
        }
        if plain && within {
            // Accepted exactly when the system can do it.
            let parent = target.parent().unwrap();
            let blocked = target.ancestors().take_while(|a| *a != home).any(|a| matches!(inner.get(a), Some(Node::File(_))));
            let trailing = text.ends_with('/') && !matches!(op, Op::CdLast);
            let possible = match op {
                Op::File(..) | Op::Binary(..) => dir(parent) && !dir(&target) && target != home,
                Op::Dir(_) => !blocked,
                Op::Cd(_) | Op::CdLast => dir(&target),
            };
            // A file with a slash behind it: either way.
            let lenient = trailing && !matches!(op, Op::Dir(_) | Op::Cd(_));
            if !lenient { ensure!(result.is_ok() == possible, "{at}: {result:?}, expected {}", if possible { "success" } else { "an error" }); }
            if result.is_ok() && possible {
                plain_ok += 1;
                let mut expected = inner.clone();
                match op {
                    Op::File(..) | Op::Binary(..) => { expected.insert(target.clone(), Node::File(content.clone())); }
                    Op::Dir(_) => for a in target.ancestors().take_while(|a| *a != home) { expected.insert(a.to_path_buf(), Node::Dir); },
                    _ => {}
                }
                if real != expected {
                    return Err(format!("{at} left {:?}, expected {:?}", brief(&real), brief(&expected)));
                }
                let wanted = if matches!(op, Op::Cd(_) | Op::CdLast) { target.clone() } else { cwd.clone() };
                ensure!(here == wanted, "{at}: the directory is then {here:?}, expected {wanted:?}");
                if let (Op::Dir(_) | Op::Cd(_), Ok(Some(p))) = (op, &result) {
                    let told = if matches!(op, Op::Dir(_)) { cwd.join(p) } else if p.is_absolute() { p.clone() } else { cwd.join(p) };
                    ensure!(told.is_dir() && lexical(&told) == lexical(&target), "{at} returned {p:?}");
                }
            }
        } else if let (Ok(_), Op::File(..) | Op::Binary(..)) = (&result, op) {
            // Wherever it went inside, it holds the bytes, and it is the only file that changed.
            let changed: Vec<_> = real.iter().filter(|(k, v)| matches!(v, Node::File(_)) && inner.get(*k) != Some(v)).collect();
            ensure!(changed.len() <= 1, "{at} changed several files: {:?}", changed.iter().map(|c| c.0).collect::<Vec<_>>());
            if let Some((k, Node::File(b))) = changed.first() { ensure!(*b == content, "{at} wrote {} bytes to {k:?}, given {}", b.len(), content.len()); }
            else { ensure!(real.values().any(|v| *v == Node::File(content.clone())), "{at} was accepted but no file holds the bytes"); }
        }
        if let (Op::Dir(_), Ok(Some(p))) = (op, &result) { last = Some(p.clone()) }
        cx.class_if(up && result.is_ok(), "path with parent components accepted");
        cx.class_if(up && result.is_err(), "path with parent components refused");
        cx.class_if(elsewhere, "absolute path elsewhere");
        cx.class_if(cwd != home, "in a subdirectory");
        inner = real;
        cwd = here;
    }
    cx.hit(plain_ok > 0 && (refused > 0 || c.ops.len() > 3));
    Ok(())
}

fn brief(t: &Tree) -> Vec<(String, String)> {
    t.iter().map(|(k, v)| (k.file_name().unwrap_or_default().to_string_lossy().to_string(), match v { Node::Dir => "dir".into(), Node::File(b) => format!("{} bytes", b.len()), Node::Link(l) => format!("-> {l:?}") })).collect()
}

fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() { match c { Component::ParentDir => { out.pop(); } Component::CurDir => {} c => out.push(c) } }
    out
}

fn check(c: &Case, cx: &mut Cx) -> Outcome { remote("c19", c, cx) }

pub fn property() -> Property {
    Property {
        id: "C19",
        subs: vec![Box::new(Sub { name: "paths", quick: 60_000, thorough: 1_500_000, rule: "a plain path is accepted, and an outside one refused or there are more than three operations", gen, check })],
        assumptions: &[
            "Nothing but the jail's own operations makes links inside the jail or moves the current directory out of it.",
            "The system is Unix-like: paths have no prefixes.",
        ],
    }
}
