//! YAML merge keys.

use std::collections::BTreeMap;

use crate::core::*;
use crate::emit;
use crate::gen::*;
use crate::model::*;
use figment::providers::{Format, Yaml, YamlExtended};
use figment::value::Value;
use figment::{Figment, Provider};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Want { Data(MV), Error }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { text: String, want: Want, merges: usize, chained: bool, nested: bool, file: bool, profile: String }

/// Builds text and meaning side by side.
struct B { anchors: BTreeMap<String, Def>, used: Vec<String>, merges: usize, chained: bool, bad: bool, allow_bad: bool }

/// An anchored node: its data, and whether its text has a merge in it.
#[derive(Clone)]
struct Def { value: MV, merging: bool }

fn scal(s: &mut Src) -> MV {
    match s.weighted(&[5, 3, 1, 1, 1]) {
        4 => MV::Unit,
        0 => MV::int(s.range(0, 9)),
        1 => MV::S(s.pick(&["x", "yes", "a << b", "<<", "*A", "&A", "text with words", "1", ""]).into()),
        2 => MV::B(s.bool()),
        _ => scalar(s, PLAIN),
    }
}

fn mkey(s: &mut Src) -> String { match s.weighted(&[12, 1, 1]) { 0 => s.pick(KEYS).into(), 1 => s.pick(&["<<x", "x<<", "<", "< <"]).into(), _ => s.pick(ODD_KEYS).into() } }

impl B {
    fn anchor(&mut self, s: &mut Src) -> Option<String> {
        if !s.chance(2, 5) { return None }
        let n = s.pick(&["A", "B", "C", "base", "x-1", "D", "E", "F"]).to_string();
        // Not again: serde_yaml mixes up anchors after one is redefined.
        if self.used.contains(&n) { return None }
        self.used.push(n.clone());
        Some(n)
    }

    fn close(&mut self, a: &Option<String>, d: Def) {
        if let Some(n) = a { self.anchors.insert(n.clone(), d); }
    }

    fn find(&self, s: &mut Src, ok: impl Fn(&MV) -> bool) -> Option<(String, Def)> {
        let c: Vec<_> = self.anchors.iter().filter(|(_, d)| ok(&d.value)).map(|(n, d)| (n.clone(), d.clone())).collect();
        if c.is_empty() { None } else { Some(s.pick(&c)) }
    }

    /// A node in flow style, or as block lines (without the first indentation).
    fn node(&mut self, s: &mut Src, depth: usize, indent: usize, flow: bool) -> (String, Def) {
        if s.chance(1, 5) {
            if let Some((n, d)) = self.find(s, |_| true) { return (format!("*{n}{}", if flow { " " } else { "" }), d) }
        }
        match s.weighted(&[3, if depth > 0 { 5 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
            0 if !flow && s.chance(1, 6) => {
                // A block scalar.
                let a = self.anchor(s);
                let lines = s.vec(1, 3, 1, |s| s.pick(&["text", "a: b", "<<: *A", "# none", "- x", "[", "'", "é"]));
                let (style, end) = s.pick(&[("|", "\n"), ("|-", ""), ("|+", "\n"), ("|+", "\n\n"), (">", "\n"), (">-", ""), (">+", "\n\n")]);
                let body = lines.join(if style.starts_with('|') { "\n" } else { " " });
                let pad = " ".repeat(indent);
                let t = format!("{}{style}\n{}{}", a.as_ref().map_or(String::new(), |a| format!("&{a} ")), lines.iter().map(|l| format!("{pad}{l}")).collect::<Vec<_>>().join("\n"), if end.len() == 2 { "\n" } else { "" });
                let d = Def { value: MV::S(body + end), merging: false };
                self.close(&a, d.clone());
                (t, d)
            }
            0 => {
                let a = self.anchor(s);
                let v = scal(s);
                let t = format!("{}{}", a.as_ref().map_or(String::new(), |a| format!("&{a} ")), emit::yaml_scalar(&v, s));
                let d = Def { value: v, merging: false };
                self.close(&a, d.clone());
                (t, d)
            }
            1 => self.map(s, depth, indent, flow),
            _ => {
                let a = self.anchor(s);
                let flow = flow || s.chance(1, 3);
                let n = s.below(4);
                let (mut texts, mut vals, mut merging) = (vec![], vec![], false);
                for _ in 0..n { let (t, d) = self.node(s, depth - 1, indent + 2, flow); texts.push(t); vals.push(d.value); merging |= d.merging }
                let d = Def { value: MV::A(vals), merging };
                self.close(&a, d.clone());
                let tag = a.map_or(String::new(), |a| format!("&{a} "));
                if flow || n == 0 { return (format!("{tag}[{}]", texts.join(", ")), d) }
                let pad = " ".repeat(indent);
                (format!("{tag}\n{}", texts.iter().map(|t| format!("{pad}- {t}")).collect::<Vec<_>>().join("\n")), d)
            }
        }
    }

    /// What stands for a mapping in a merge.
    fn source(&mut self, s: &mut Src, depth: usize, flow: bool, indent: usize) -> (String, Def) {
        if s.chance(3, 4) {
            if let Some((n, d)) = self.find(s, |v| v.is_dict()) { return (format!("*{n} "), d) }
        }
        self.map(s, depth.saturating_sub(1), indent, flow)
    }

    fn bad_source(&mut self, s: &mut Src) -> String {
        self.bad = true;
        match s.below(6) {
            0 => "1".into(),
            1 => "text".into(),
            2 => { let v = self.find(s, |v| !v.is_dict() && !matches!(v, MV::A(_) | MV::Unit)); v.map_or("'x'".into(), |(n, _)| format!("*{n} ")) }
            3 => "true".into(),
            4 => "1.5".into(),
            _ => "!tagged {a: 1}".into(),
        }
    }

    fn merge(&mut self, s: &mut Src, depth: usize, indent: usize, flow: bool) -> (String, Vec<Def>) {
        if self.allow_bad && !self.bad && s.chance(1, 3) {
            let (good, g) = self.source(s, depth, true, indent);
            let bad = self.bad_source(s);
            return match s.below(5) {
                0 => (bad, vec![]),
                1 => (format!("[{bad}]"), vec![]),
                2 => (format!("[{good}, {bad}]"), vec![g]),
                3 => (format!("[{bad}, {good}]"), vec![g]),
                _ => (format!("[[{good}]]"), vec![g]),
            };
        }
        match s.weighted(&[4, 3, 1]) {
            0 => { let (t, d) = self.source(s, depth, flow, indent); (t, vec![d]) }
            1 => {
                let n = s.below(4);
                let block = !flow && n > 0 && s.chance(1, 3);
                let (mut ts, mut ds) = (vec![], vec![]);
                for _ in 0..n { let (t, d) = self.source(s, depth, !block, indent + 2); ts.push(t); ds.push(d) }
                let pad = " ".repeat(indent);
                (if block { format!("\n{}", ts.iter().map(|t| format!("{pad}- {}", t.trim_end_matches(' '))).collect::<Vec<_>>().join("\n")) } else { format!("[{}]", ts.join(", ")) }, ds)
            }
            _ => {
                let l = self.find(s, |v| matches!(v, MV::A(a) if a.iter().all(|v| v.is_dict())));
                match l {
                    Some((n, d)) => { let MV::A(vs) = d.value else { unreachable!() }; (format!("*{n} "), vs.into_iter().map(|value| Def { value, merging: d.merging }).collect()) }
                    None => { let (t, d) = self.source(s, depth, flow, indent); (t, vec![d]) }
                }
            }
        }
    }

    fn map(&mut self, s: &mut Src, depth: usize, indent: usize, flow: bool) -> (String, Def) {
        let a = self.anchor(s);
        let flow = flow || s.chance(1, 4);
        let n = s.below(5);
        let at = if s.chance(2, 5) { Some(s.below(n + 1)) } else { None };
        let (mut lines, mut own, mut merged, mut merging) = (vec![], MDict::new(), vec![], false);
        for i in 0..=n {
            if at == Some(i) {
                self.merges += 1;
                merging = true;
                let (t, ds) = self.merge(s, depth, indent + 2, flow);
                self.chained |= ds.iter().any(|d| d.merging);
                merged = ds;
                lines.push(if t.starts_with('\n') { format!("<<:{t}") } else { format!("<<: {t}") });
            }
            if i == n { break }
            let k = mkey(s);
            if own.contains_key(&k) { continue }
            let (t, d) = self.node(s, depth.saturating_sub(1), indent + 2, flow);
            merging |= d.merging;
            own.insert(k.clone(), d.value);
            lines.push(format!("{}: {t}", emit::yaml_string(&k, s)));
        }
        for d in merged { if let MV::D(m) = d.value { for (k, v) in m { own.entry(k).or_insert(v); } } }
        let d = Def { value: MV::D(own), merging };
        self.close(&a, d.clone());
        let tag = a.map_or(String::new(), |a| format!("&{a} "));
        if flow || lines.is_empty() { return (format!("{tag}{{{}}}", lines.join(", ")), d) }
        let pad = " ".repeat(indent);
        (format!("{tag}\n{}", lines.iter().map(|l| format!("{pad}{l}")).collect::<Vec<_>>().join("\n")), d)
    }
}

fn gen(s: &mut Src) -> Case {
    let allow_bad = s.chance(1, 4);
    let mut b = B { anchors: BTreeMap::new(), used: vec![], merges: 0, chained: false, bad: false, allow_bad };
    let (text, want, nested);
    if s.chance(1, 5) {
        let (t, d) = b.map(s, 3, 0, false);
        text = t + "\n"; want = d.value; nested = false;
    } else {
        // A list of top-level entries, so that there is much to refer to.
        let n = s.size(1, 6);
        nested = s.chance(1, 6);
        let (mut out, mut d) = (String::new(), MDict::new());
        for i in 0..n {
            let k = if nested { ["default", "debug", "global", "p", "q", "r"][i].to_string() } else { format!("t{i}") };
            let (t, v) = if s.chance(2, 3) || nested { b.map(s, 3, 2, false) } else { b.node(s, 3, 2, false) };
            out.push_str(&format!("{k}: {t}\n"));
            d.insert(k, v.value);
        }
        text = out; want = MV::D(d);
    }
    let text = match s.below(12) { 0 => format!("---\n{text}"), 1 => format!("{text}...\n"), 2 => format!("# <<\n{text}"), 3 => format!("%YAML 1.1\n---\n{text}"), _ => text };
    // A configuration is one document.
    let text = if s.chance(1, 14) { b.bad = true; format!("{text}\n---\n{}", s.pick(&["c: 3\n", "t0: {}\n", "[1]\n", "&A0 {x: 1}\n"])) } else { text };
    let want = if b.bad { Want::Error } else { Want::Data(want) };
    Case { text, want, merges: b.merges, chained: b.chained, nested, file: s.chance(1, 6), profile: profile(s) }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let dir = cx.scratch.join("c15");
    let path = dir.join("doc.yaml");
    let mut p = if c.file {
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(&path, &c.text).unwrap();
        YamlExtended::file(&path)
    } else { YamlExtended::string(&c.text) };
    p = if c.nested { p.nested() } else { p.profile(&c.profile) };
    let f = Figment::new().merge(("other-entry", 1)).merge(&p);
    let text = &c.text;
    match &c.want {
        Want::Data(w) => {
            let v: Value = YamlExtended::from_str(text).map_err(|e| format!("from_str of {text:?} fails: {e}"))?;
            ensure!(MV::of(&v).same(w), "from_str of {text:?} gives {:?}, expected {w:?}", MV::of(&v));
            let d = p.data().map_err(|e| format!("data() of {text:?} fails: {e}"))?;
            let MV::D(all) = w else { return Err("bad case".into()) };
            let want: Vec<(String, MV)> = if c.nested { all.clone().into_iter().collect() } else { vec![(c.profile.clone(), w.clone())] };
            ensure!(d.len() == want.len(), "data() of {text:?} is for {:?}", d.keys());
            for (p, w) in &want {
                let g = d.get(&figment::Profile::new(p)).map(|d| MV::D(of_dict(d)));
                ensure!(g.as_ref().map_or(false, |g| g.same(w)), "data() of {text:?} for {p:?} gives {g:?}, expected {w:?}");
            }
            let seen: Value = f.select(if c.nested { "default" } else { &c.profile }).extract().map_err(|e| format!("extraction from {text:?} fails: {e}"))?;
            if !c.nested {
                let MV::D(mut got) = MV::of(&seen) else { return Err("not a dictionary".into()) };
                if !all.contains_key("other-entry") { got.remove("other-entry"); }
                ensure!(MV::D(got.clone()).same(w), "extraction from {text:?} gives {got:?}, expected {w:?}");
            }
            cx.hit(c.merges > 0);
            cx.class_if(c.chained, "chained merges");
            cx.class_if(c.merges > 1, "several merges");
            cx.class_if(c.merges == 0, "no merge");
            if c.merges == 0 {
                let y: Value = Yaml::from_str(text).map_err(|e| format!("plain YAML rejects {text:?}: {e}"))?;
                ensure!(MV::of(&y).same(w), "plain YAML gives {y:?} for {text:?}, expected {w:?}");
            }
        }
        Want::Error => {
            ensure!(YamlExtended::from_str::<Value>(text).is_err(), "from_str of {text:?} accepts an ill-formed merge");
            if let Ok(d) = p.data() { return Err(format!("data() of {text:?} accepts an ill-formed merge: {d:?}")) }
            let e = match f.extract::<Value>() { Ok(v) => return Err(format!("extraction from {text:?} accepts an ill-formed merge: {v:?}")), Err(e) => e };
            let m = e.metadata.as_ref().ok_or("the error has no source")?;
            ensure!(m.name.starts_with(YamlExtended::NAME), "the error is attributed to {:?}", m.name);
            cx.hit(true);
            cx.class("ill-formed merge");
        }
    }
    if c.file { let _ = std::fs::remove_dir_all(&dir); }
    Ok(())
}

// ------------------------------------------------------------- without merges

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plain { text: String }

fn gen_plain(s: &mut Src) -> Plain {
    let mut text = if s.chance(1, 3) {
        // Lines of everything YAML has.
        let lines = s.vec(1, 6, 4, |s| s.pick(&["a: 1", "b: ~", "1: x", "true: y", "~: z", "c: 340282366920938463463374607431768211455", "c: -170141183460469231731687303715884105728",
            "d: !tag x", "d: !tag {a: 1}", "e: [1, {x: y}]", "f: &A {x: 1}", "g: *A", "a: 2", "? h\n: i", "? [k, l]\n: m", "1.5: n", "j: |\n  text\n  more", "j: >-\n  text\n  more", "k: 0x1F", "l: .inf", "l: .nan", "m: 2001-12-14",
            "n: 1_000", "o: !!str 1", "p: !!int '3'", "q: 'it''s'", "r: \"\\u00e9\\t\"", "- a", "---", "...", "[a, b]", "{a: b}", "# note", "s: yes", "t: 0o17", "u: 017", "v: +1", "w: 1e3", "x:", "y: {}", "z: []", "'<': 1", "a<: <b", "&K k: 1", "!!map {a: 1}"]).to_string());
        lines.join("\n") + "\n"
    } else {
        let d = mdict(s, PLAIN);
        emit::yaml(&d, s)
    };
    if s.chance(1, 3) {
        let mut cs: Vec<char> = text.chars().collect();
        let at = s.below(cs.len() + 1);
        match s.below(3) { 0 => cs.insert(at, ch(s)), 1 => cs.truncate(at), _ => { if at < cs.len() { cs.remove(at); } } }
        text = cs.into_iter().collect();
    }
    Plain { text: text.replace("<<", "<") }
}

fn check_plain(c: &Plain, cx: &mut Cx) -> Outcome {
    let y: Result<Value, _> = Yaml::from_str(&c.text);
    let x: Result<Value, _> = YamlExtended::from_str(&c.text);
    match (&y, &x) {
        (Ok(y), Ok(x)) => ensure!(MV::of(y).same(&MV::of(x)), "{:?}: YAML gives {y:?}, extended YAML {x:?}", c.text),
        (Err(_), Err(_)) => {}
        _ => return Err(format!("{:?}: YAML gives {y:?}, extended YAML {x:?}", c.text)),
    }
    let map = |r: Result<figment::value::Map<figment::Profile, figment::value::Dict>, figment::Error>| r.ok().map(|m| m.into_iter().map(|(p, d)| (p.to_string(), MV::D(of_dict(&d)))).collect::<Vec<_>>());
    for nested in [false, true] {
        let (y, x) = if nested { (Yaml::string(&c.text).nested().data(), YamlExtended::string(&c.text).nested().data()) } else { (Yaml::string(&c.text).data(), YamlExtended::string(&c.text).data()) };
        let (y, x) = (map(y), map(x));
        ensure!(match (&y, &x) { (Some(y), Some(x)) => y.len() == x.len() && y.iter().zip(x).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1)), (None, None) => true, _ => false },
            "{:?}, nested {nested}: YAML provides {y:?}, extended YAML {x:?}", c.text);
    }
    cx.hit(y.is_ok());
    cx.class_if(y.is_err(), "rejected");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C15",
        subs: vec![
            Box::new(Sub { name: "merge", quick: 120_000, thorough: 5_000_000, gen, check,
                rule: "documents with anchors, aliases and merges of mappings, sequences and aliases, in block and flow style, some ill-formed or more than one document, built together with their expansion; non-trivial: there is a merge" }),
            Box::new(Sub { name: "plain", quick: 120_000, thorough: 5_000_000, gen: gen_plain, check: check_plain,
                rule: "documents without merge keys, also odd and malformed ones, read as YAML and extended YAML; non-trivial: the document is accepted" }),
        ],
        assumptions: &["serde_yaml reads YAML correctly", "a quoted '<<' key, a merge of null and repeated merge keys in one mapping are left open"],
    }
}
