//! Relative path differences lead from the base to the path.

use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};

use crate::core::*;
use crate::gen;
use figment::util::diff_paths;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P { root: bool, parts: Vec<Vec<u8>>, /// How it is written.
    seps: Vec<u8> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { path: P, base: P }

fn part(s: &mut Src, ups: bool) -> Vec<u8> {
    match s.weighted(&[12, 4, 4, 2, if ups { 2 } else { 0 }]) {
        0 => s.pick(&["a", "b", "c", "A", "ab", "foo"]).into(),
        1 => s.pick(&["...", "..a", ".a", "a..", "a.", " ", "a b", "~", "-", "*", "\\", "C:", "é", "日本"]).into(),
        2 => { let t: String = gen::string(s).chars().filter(|c| !matches!(c, '/' | '\0')).take(12).collect(); if matches!(t.as_str(), "" | "." | "..") { "x".into() } else { t.into() } }
        4 => b"..".to_vec(),
        _ => { let n = s.size(1, 3); (0..n).map(|_| s.pick(&[0xff, 0x80, b'a', b'.', 0xc3])).chain([b'z']).collect() }
    }
}

fn gen(s: &mut Src) -> Case {
    let (up_path, up_base) = (s.chance(1, 5), s.chance(1, 8));
    let part = |s: &mut Src| self::part(s, up_path);
    let path = P { root: s.bool(), parts: s.vec(0, 12, 4, part), seps: s.vec(0, 14, 3, |s| s.below(4) as u8) };
    let mut base: Vec<Vec<u8>> = path.parts.clone();
    let part = |s: &mut Src| self::part(s, up_base);
    match s.weighted(&[3, 3, 2, 1]) {
        // Leave at some point.
        0 => { let n = s.below(base.len() + 1); base.truncate(n); base.extend(s.vec(0, 6, 2, part)) }
        // Differ in one place.
        1 => if !base.is_empty() { let i = s.below(base.len()); base[i] = part(s) } else { base.push(part(s)) },
        2 => base = s.vec(0, 12, 4, part),
        _ => {}
    }
    // Deep, in common or not.
    let mut path = path;
    if s.chance(1, 60) {
        let n = s.pick(&[20, 33, 65, 130]);
        let deep: Vec<Vec<u8>> = (0..n).map(|i| format!("d{i}").into_bytes()).collect();
        match s.below(4) {
            0 => path.parts.splice(0..0, deep).for_each(drop),
            1 => base.splice(0..0, deep).for_each(drop),
            _ => { path.parts.splice(0..0, deep.clone()); base.splice(0..0, deep); }
        }
    }
    let root = if s.chance(1, 8) { !path.root } else { path.root };
    let swap = s.bool();
    let base = P { root, parts: base, seps: s.vec(0, 14, 3, |s| s.below(4) as u8) };
    if swap { Case { path: base, base: path } } else { Case { path, base } }
}

fn build(p: &P) -> PathBuf {
    let sep = |i: usize| p.seps.get(i).copied().unwrap_or(0);
    let mut out: Vec<u8> = vec![];
    if !p.root && sep(0) == 2 { out.extend(b"./") }
    if p.root { out.extend(match sep(0) { 1 => &b"//"[..], 2 => b"///", _ => b"/" }) }
    for (i, c) in p.parts.iter().enumerate() {
        out.extend(c);
        let last = i + 1 == p.parts.len();
        out.extend(match (sep(i + 1), last) { (1, false) => &b"//"[..], (2, false) => b"/./", (_, false) => b"/", (1, true) => b"/", (2, true) => b"/.", (_, true) => b"" });
    }
    OsStr::from_bytes(&out).into()
}

/// Where going through `parts` leads, lexically: steps above the start, then components down.
fn walk(root: bool, at: &mut (usize, Vec<Vec<u8>>), parts: impl Iterator<Item = Vec<u8>>) {
    for c in parts {
        match &c[..] {
            b".." => if at.1.pop().is_none() && !root { at.0 += 1 },
            b"." | b"" => {}
            _ => at.1.push(c),
        }
    }
}

fn pieces(d: &Path) -> Result<Vec<Vec<u8>>, String> {
    d.components().map(|c| match c {
        Component::Normal(c) => Ok(c.as_bytes().to_vec()),
        Component::ParentDir => Ok(b"..".to_vec()),
        Component::CurDir => Ok(b".".to_vec()),
        c => Err(format!("{c:?} in a difference")),
    }).collect()
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let (path, base) = (build(&c.path), build(&c.base));
    let got = diff_paths(&path, &base);
    let root = c.path.root;
    let shared = c.path.parts.iter().zip(&c.base.parts).take_while(|(a, b)| a == b).count();
    let up = |p: &P| p.parts.iter().any(|c| c == b"..");
    cx.hit(c.path.root == c.base.root && shared < c.base.parts.len() && c.path.parts.len() > shared);
    cx.class_if(c.path.root != c.base.root, "mixed");
    cx.class_if(c.path.root == c.base.root && c.path.parts == c.base.parts, "equal");
    cx.class_if(c.path.root == c.base.root && shared > 0 && c.path.parts.len() > shared && c.base.parts.len() > shared, "fork below a shared prefix");
    cx.class_if(up(&c.path), "path with parent components");
    cx.class_if(up(&c.base), "base with parent components");
    if c.path.root != c.base.root {
        ensure!(got.is_none(), "{path:?} from {base:?} is {got:?}: one is absolute, the other is not");
        return Ok(());
    }
    let d = match got {
        Some(d) => d,
        // There may be no telling where a base's parent components lead.
        None if c.base.parts[shared..].iter().any(|p| p == b"..") => { cx.class("no difference"); return Ok(()) }
        None => return Err(format!("there is no way to {path:?} from {base:?}")),
    };
    if c.path.parts == c.base.parts { ensure!(d.as_os_str().is_empty() || d == Path::new(".") && path.as_os_str() != base.as_os_str(), "{path:?} from {base:?} is {d:?}, expected nothing") }
    let mut want = (0, vec![]);
    walk(root, &mut want, c.path.parts.iter().cloned());
    let mut end = (0, vec![]);
    walk(root, &mut end, c.base.parts.iter().cloned());
    let way = pieces(&d).map_err(|e| format!("{path:?} from {base:?} is {d:?}: {e}"))?;
    walk(false, &mut end, way.clone().into_iter());
    if root && (up(&c.path) || up(&c.base)) { end.0 = 0 }
    ensure!(end == want, "{path:?} from {base:?} is {d:?}, which leads elsewhere");
    // The same, through the path type's own joining.
    let joined = base.join(&d);
    ensure!(joined.has_root() == path.has_root(), "{base:?} joined with {d:?} is {joined:?}");
    let all: PathBuf = joined.components().filter(|c| !matches!(c, Component::RootDir)).collect();
    let mut end = (0, vec![]);
    walk(root, &mut end, pieces(&all)?.into_iter());
    ensure!(end == want, "{base:?} joined with {d:?} is {joined:?}, not {path:?}");
    // However the paths are given.
    let (ps, bs) = (path.as_os_str(), base.as_os_str());
    ensure!(diff_paths(ps, bs).as_ref() == Some(&d) && diff_paths(&path, bs).as_ref() == Some(&d), "the difference depends on the type of the paths");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C22",
        subs: vec![Box::new(Sub { name: "difference", quick: 2_000_000, thorough: 60_000_000, rule: "the way leads up and down again", gen, check })],
        assumptions: &["Symbolic links play no part: resolution is lexical.", "Where the base has parent components below the common prefix there may be no difference."],
    }
}
