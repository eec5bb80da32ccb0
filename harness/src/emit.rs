//! Documents in TOML, JSON and YAML for a data tree, in varied styles. Only
//! trees of dictionaries, arrays, strings, booleans, numbers and, outside of
//! TOML, nulls.

use crate::core::Src;
use crate::model::*;

fn spaces(s: &mut Src) -> String { " ".repeat(s.weighted(&[4, 3, 1, 1])) }

/// Decimal text of an integer, or another notation of the format.
fn digits(m: u128, s: &mut Src, radix: &[(&str, u32)], underscores: bool) -> String {
    match s.weighted(&[6, 1, if underscores { 1 } else { 0 }]) {
        1 if !radix.is_empty() => {
            let (p, r) = s.pick(radix);
            let d = match r { 16 => format!("{m:x}"), 8 => format!("{m:o}"), _ => format!("{m:b}") };
            format!("{p}{}", if r == 16 && s.bool() { d.to_uppercase() } else { d })
        }
        2 if m >= 1000 => {
            let t = m.to_string();
            let i = s.size(1, t.len() - 1);
            format!("{}_{}", &t[..i], &t[i..])
        }
        _ => m.to_string(),
    }
}

fn float(f: f64, s: &mut Src) -> String {
    // Another notation of the same number, when it is certain to be the same.
    if f.abs() >= 1.0 && f.abs() < 1e6 && s.chance(1, 4) {
        let alt = match s.below(3) { 0 => format!("{f:?}e0"), 1 => format!("{f:?}E+0"), _ => format!("{}0", float_text(f)) };
        if alt.parse::<f64>() == Ok(f) { return alt }
    }
    float_text(f)
}

// ----------------------------------------------------------------------- JSON

fn json_string(t: &str, s: &mut Src) -> String {
    if !s.chance(1, 4) { return json_str(t) }
    let mut o = String::from("\"");
    for c in t.chars() {
        if c == '/' && s.bool() { o.push_str("\\/"); continue }
        if s.chance(1, 3) || (c as u32) < 0x20 || c == '"' || c == '\\' {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) { o.push_str(&if s.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") }) }
        } else { o.push(c) }
    }
    o.push('"');
    o
}

pub fn json(v: &MV, s: &mut Src) -> String {
    fn ws(s: &mut Src) -> &'static str { s.pick(&["", "", " ", "\n", "\t", "  ", "\r\n"]) }
    fn go(v: &MV, s: &mut Src, o: &mut String) {
        o.push_str(ws(s));
        match v {
            MV::D(d) => {
                o.push('{');
                let mut first = true;
                for (k, v) in shuffled(d, s) {
                    if !first { o.push(',') }
                    first = false;
                    o.push_str(ws(s));
                    o.push_str(&json_string(k, s));
                    o.push_str(ws(s));
                    o.push(':');
                    go(v, s, o);
                }
                if first { o.push_str(ws(s)) }
                o.push('}');
            }
            MV::A(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() { if i > 0 { o.push(',') } go(v, s, o) }
                if a.is_empty() { o.push_str(ws(s)) }
                o.push(']');
            }
            MV::S(t) => o.push_str(&json_string(t, s)),
            MV::N(n) => o.push_str(&match n.canon() { Canon::Float(b) => float(f64::from_bits(b), s), _ => to_json(v) }),
            v => o.push_str(&to_json(v)),
        }
        o.push_str(ws(s));
    }
    let mut o = String::new();
    go(v, s, &mut o);
    o
}

/// The entries in another order, now and then.
fn shuffled<'a>(d: &'a MDict, s: &mut Src) -> Vec<(&'a String, &'a MV)> {
    let mut e: Vec<_> = d.iter().collect();
    if s.chance(1, 2) { for i in (1..e.len()).rev() { let j = s.below(i + 1); e.swap(i, j) } }
    e
}

// ----------------------------------------------------------------------- TOML

fn toml_key(k: &str, s: &mut Src) -> String {
    let bare = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
    match s.below(3) {
        0 | 1 if bare => k.into(),
        2 if !k.contains('\'') && !k.contains(|c: char| c.is_control()) => format!("'{k}'"),
        _ => toml_basic(k, s),
    }
}

fn toml_basic(t: &str, s: &mut Src) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if c.is_control() => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if s.chance(1, 12) => o.push_str(&if c as u32 > 0xffff || s.bool() { format!("\\U{:08X}", c as u32) } else { format!("\\u{:04X}", c as u32) }),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn toml_string(t: &str, s: &mut Src) -> String {
    let ctl = t.chars().any(|c| c.is_control());
    match s.below(5) {
        1 if !ctl && !t.contains('\'') => format!("'{t}'"),
        2 if !ctl && !t.contains('\'') => format!("'''{}{t}'''", if s.bool() { "\n" } else { "" }),
        3 if !ctl && !t.contains('"') && !t.contains('\\') => format!("\"\"\"{}{t}\"\"\"", if s.bool() { "\n" } else { "" }),
        4 if !ctl && !t.contains('"') && !t.contains('\\') => format!("\"\"\"\\\n  {}\"\"\"", if t.starts_with([' ', '\t']) || t.is_empty() { return toml_basic(t, s) } else { t }),
        _ => toml_basic(t, s),
    }
}

fn toml_value(v: &MV, s: &mut Src) -> String {
    match v {
        MV::S(t) => toml_string(t, s),
        MV::B(b) => b.to_string(),
        MV::N(n) => match n.canon() {
            Canon::Pos(m) => { let d = digits(m, s, &[("0x", 16), ("0o", 8), ("0b", 2)], true); if d.starts_with(|c: char| c != '0') && s.chance(1, 10) { format!("+{d}") } else { d } }
            Canon::Neg(m) => format!("-{}", digits(m, s, &[], true)),
            Canon::Float(b) => float(f64::from_bits(b), s),
        },
        MV::A(a) => {
            let mut o = String::from("[");
            let gap = |s: &mut Src| s.pick(&["", "", " ", "\n", " # note\n", "\r\n\t"]);
            for (i, v) in a.iter().enumerate() {
                if i > 0 { o.push(',') }
                o.push_str(gap(s));
                o.push_str(&toml_value(v, s));
                o.push_str(gap(s));
            }
            if !a.is_empty() && s.chance(1, 3) { o.push(',') }
            o.push_str(gap(s));
            o.push(']');
            o
        }
        MV::D(d) => {
            let mut parts = vec![];
            for (k, v) in shuffled(d, s) { let (k, v) = (toml_key(k, s), toml_value(v, s)); parts.push(format!("{k}{}={}{v}", spaces(s), spaces(s))) }
            format!("{{{}{}{}}}", spaces(s), parts.join(if s.bool() { "," } else { ", " }), spaces(s))
        }
        MV::C(c) => toml_string(&c.to_string(), s),
        MV::None | MV::Unit => panic!("no null in TOML"),
    }
}

pub fn toml(d: &MDict, s: &mut Src) -> String {
    fn eol(s: &mut Src) -> String { match s.weighted(&[8, 1, 1, 1]) { 0 => "\n".into(), 1 => " # a = 1\n".into(), 2 => "\r\n".into(), _ => "\n\n# [x]\n".into() } }
    fn table(d: &MDict, path: &mut Vec<String>, s: &mut Src, o: &mut String) {
        let mut later: Vec<(&String, &MV, usize)> = vec![];
        for (k, v) in shuffled(d, s) {
            let how = match v {
                MV::D(_) => s.weighted(&[2, 4, 1]),
                MV::A(a) if !a.is_empty() && a.iter().all(|v| v.is_dict()) => if s.bool() { 3 } else { 0 },
                _ => 0,
            };
            match (how, v) {
                (2, MV::D(inner)) if !inner.is_empty() => {
                    // Dotted keys.
                    let k = toml_key(k, s);
                    for (k2, v2) in shuffled(inner, s) {
                        let (k2, v2) = (toml_key(k2, s), toml_value(v2, s));
                        let dot = s.pick(&[".", ".", " . "]);
                        o.push_str(&format!("{k}{dot}{k2} = {v2}"));
                        o.push_str(&eol(s));
                    }
                }
                (1 | 2, _) => later.push((k, v, 1)),
                (3, _) => later.push((k, v, 3)),
                _ => {
                    let (k, v) = (toml_key(k, s), toml_value(v, s));
                    o.push_str(&format!("{}{k}{}={}{v}", spaces(s), spaces(s), spaces(s)));
                    o.push_str(&eol(s));
                }
            }
        }
        for (k, v, how) in later {
            path.push(toml_key(k, s));
            let p = path.join(".");
            match v {
                MV::D(inner) => {
                    // Without a header of its own if only tables are in it.
                    let implied = !inner.is_empty() && inner.values().all(|v| v.is_dict()) && s.bool();
                    if implied {
                        for (k2, v2) in shuffled(inner, s) {
                            path.push(toml_key(k2, s));
                            o.push_str(&format!("[{}]", path.join(".")));
                            o.push_str(&eol(s));
                            let MV::D(v2) = v2 else { unreachable!() };
                            table(v2, path, s, o);
                            path.pop();
                        }
                    } else {
                        o.push_str(&format!("{}[{p}]", spaces(s)));
                        o.push_str(&eol(s));
                        table(inner, path, s, o);
                    }
                }
                MV::A(a) if how == 3 => for v in a {
                    o.push_str(&format!("[[{p}]]"));
                    o.push_str(&eol(s));
                    let MV::D(v) = v else { unreachable!() };
                    table(v, path, s, o);
                },
                _ => unreachable!(),
            }
            path.pop();
        }
    }
    let mut o = String::new();
    table(d, &mut vec![], s, &mut o);
    o
}

// ----------------------------------------------------------------------- YAML

fn yaml_plain(t: &str) -> bool {
    let word = |c: char| c.is_ascii_alphabetic();
    t.len() > 1 && t.starts_with(word) && t.ends_with(|c: char| c.is_ascii_alphanumeric())
        && t.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == '_' || c == '-' || c == '/' || c == '.')
        && !["true", "false", "null", "yes", "no", "on", "off", "nan", "inf"].contains(&t.to_ascii_lowercase().as_str())
}

pub fn yaml_string(t: &str, s: &mut Src) -> String {
    match s.below(3) {
        0 if yaml_plain(t) => t.into(),
        1 if !t.chars().any(|c| c.is_control() || matches!(c as u32, 0x2028 | 0x2029 | 0xfeff | 0xfffe | 0xffff)) => format!("'{}'", t.replace('\'', "''")),
        _ => json_str(t),
    }
}

pub fn yaml_scalar(v: &MV, s: &mut Src) -> String {
    match v {
        MV::S(t) => yaml_string(t, s),
        MV::N(n) => match n.canon() {
            Canon::Pos(m) => digits(m, s, &[("0x", 16), ("0o", 8)], false),
            Canon::Float(b) => float(f64::from_bits(b), s),
            _ => to_json(v),
        },
        MV::B(b) => if s.bool() { b.to_string() } else { let t = b.to_string(); if s.bool() { t.to_uppercase() } else { t[..1].to_uppercase() + &t[1..] } },
        MV::None | MV::Unit => s.pick(&["null", "~", "Null", "NULL"]).into(),
        v => to_json(v),
    }
}

fn yaml_flow(v: &MV, s: &mut Src) -> String {
    match v {
        MV::D(d) => {
            let mut parts = vec![];
            for (k, v) in shuffled(d, s) { let (k, v) = (yaml_string(k, s), yaml_flow(v, s)); parts.push(format!("{k}: {v}")) }
            format!("{{{}}}", parts.join(", "))
        }
        MV::A(a) => { let p: Vec<String> = a.iter().map(|v| yaml_flow(v, s)).collect(); format!("[{}{}]", p.join(", "), if !a.is_empty() && s.chance(1, 5) { "," } else { "" }) }
        v => yaml_scalar(v, s),
    }
}

/// The node after "key:" or "-", ending in a line break.
fn yaml_node(v: &MV, indent: usize, s: &mut Src, o: &mut String, in_seq: bool) {
    let note = |s: &mut Src| s.pick(&["", "", "", " # note: x", "  "]);
    match v {
        MV::D(d) if !d.is_empty() && !s.chance(1, 4) => {
            if in_seq && s.bool() {
                // Compact: the first entry on the line of the dash.
                o.push(' ');
                let mut t = String::new();
                yaml_block(d, indent, s, &mut t);
                o.push_str(t.trim_start_matches(' '));
            } else {
                o.push_str(note(s));
                o.push('\n');
                yaml_block(d, indent, s, o);
            }
        }
        MV::A(a) if !a.is_empty() && !s.chance(1, 3) => {
            o.push_str(note(s));
            o.push('\n');
            // A sequence in a mapping may be at the indentation of its key.
            let at = if !in_seq && s.bool() { indent.saturating_sub(2) } else { indent };
            for v in a {
                o.push_str(&" ".repeat(at));
                o.push('-');
                yaml_node(v, at + 2, s, o, true);
            }
        }
        MV::S(t) if !t.is_empty() && s.chance(1, 6) && block_text(t) => {
            o.push_str(s.pick(&[" |", " |-", " |+"]));
            // One line with a final line break under clip, so use strip unless the text ends in one.
            o.truncate(o.rfind('|').unwrap());
            o.push_str(if t.ends_with('\n') { "|" } else { "|-" });
            o.push('\n');
            for l in t.trim_end_matches('\n').split('\n') { o.push_str(&" ".repeat(indent.max(1))); o.push_str(l); o.push('\n') }
        }
        v => {
            o.push(' ');
            o.push_str(&spaces(s));
            o.push_str(&yaml_flow(v, s));
            o.push_str(note(s));
            o.push('\n');
        }
    }
}

fn block_text(t: &str) -> bool {
    !t.starts_with([' ', '\t', '\n']) && !t.ends_with("\n\n") && t != "\n" && t.split('\n').all(|l| !l.chars().any(|c| c.is_control() || matches!(c as u32, 0x85 | 0xa0 | 0x2028 | 0x2029 | 0xfeff | 0xfffe | 0xffff)))
        && t.trim_end_matches('\n').split('\n').all(|l| !l.is_empty())
}

fn yaml_block(d: &MDict, indent: usize, s: &mut Src, o: &mut String) {
    for (k, v) in shuffled(d, s) {
        if s.chance(1, 12) { o.push_str("# note: - [\n") }
        o.push_str(&" ".repeat(indent));
        o.push_str(&yaml_string(k, s));
        o.push(':');
        yaml_node(v, indent + 2, s, o, false);
    }
}

pub fn yaml(d: &MDict, s: &mut Src) -> String {
    let mut o = String::new();
    if s.chance(1, 4) { o.push_str("# a document\n---\n") }
    if d.is_empty() || s.chance(1, 5) {
        o.push_str(&yaml_flow(&MV::D(d.clone()), s));
        o.push('\n');
    } else {
        yaml_block(d, 0, s, &mut o);
    }
    o
}
