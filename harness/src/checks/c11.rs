//! Environment value syntax.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::reference::{env_value, env_value_to, env_word, ENV_DEPTH};
use figment::providers::Env;
use figment::value::{Dict, Value};
use figment::Figment;

fn parse(t: &str) -> Result<MV, String> {
    match guard(|| t.parse::<Value>()) {
        Ok(Ok(v)) => Ok(MV::of(&v)),
        Ok(Err(_)) => Err("an error".into()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

// -------------------------------------------------------------------- render

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Rendered { tree: MV, text: String, env: bool }

fn space(s: &mut Src) -> &'static str { s.pick(&["", "", "", " ", "  ", "\t", "\n", " \n\t ", "\u{a0}", "\u{2003}"]) }

fn quoted(s: &mut Src, t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        let short = match c { '\u{8}' => Some("\\b"), '\t' => Some("\\t"), '\n' => Some("\\n"), '\u{c}' => Some("\\f"), '\r' => Some("\\r"), '"' => Some("\\\""), '\\' => Some("\\\\"), _ => None };
        let must = matches!(c, '"' | '\\') || (c != '\t' && (c < ' ' || c == '\u{7f}'));
        match s.weighted(&[8, 1, 1]) {
            0 if !must => o.push(c),
            2 => o.push_str(&format!("\\U{:08x}", c as u32)),
            _ => match short {
                Some(x) => o.push_str(x),
                None if (c as u32) < 0x10000 => o.push_str(&if s.bool() { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) }),
                None => o.push_str(&format!("\\U{:08X}", c as u32)),
            },
        }
    }
    o.push('"');
    o
}

fn bare_ok(t: &str) -> bool {
    !t.is_empty() && t.trim() == t && !t.starts_with(['"', '\'', '[', '{']) && !t.contains([',', '{', '}', '[', ']']) && env_word(t) == MV::S(t.into())
}

fn render(s: &mut Src, v: &MV) -> String {
    let body = match v {
        MV::B(b) => b.to_string(),
        MV::N(n) => match n.canon() { Canon::Neg(m) => format!("-{m}"), Canon::Pos(m) => m.to_string(), Canon::Float(b) => {
            let f = f64::from_bits(b);
            match s.below(3) { 0 => float_text(f), 1 => { let t = format!("{f:.1}"); if t.parse::<f64>().unwrap().to_bits() == b { t } else { float_text(f) } } _ => { let t = format!("{f:?}"); if t.contains('.') { t } else { float_text(f) } } }
        } },
        MV::C(c) => format!("'{c}'"),
        MV::S(t) => if bare_ok(t) && s.bool() { t.clone() } else { quoted(s, t) },
        MV::A(a) => {
            let n = a.len();
            let items: Vec<String> = a.iter().map(|v| render(s, v)).collect();
            let tail = if n > 0 && s.chance(1, 4) { "," } else { "" };
            format!("[{}{}{tail}{}]", space(s), items.join(","), space(s))
        }
        MV::D(d) => {
            let items: Vec<String> = d.iter().map(|(k, v)| {
                let ident = k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
                let k = if ident && s.bool() { k.clone() } else { quoted(s, k) };
                format!("{}{k}{}={}", space(s), space(s), render(s, v))
            }).collect();
            let tail = if !d.is_empty() && s.chance(1, 4) { "," } else { "" };
            format!("{{{}{}{tail}{}}}", space(s), items.join(","), space(s))
        }
        MV::None | MV::Unit => unreachable!(),
    };
    format!("{}{body}{}", space(s), space(s))
}

fn tidy(v: MV) -> MV {
    match v {
        MV::N(n) => match n.canon() {
            Canon::Neg(m) if m > 1 << 63 => MV::N(N::I64(i64::MIN)),
            Canon::Pos(m) if m > u64::MAX as u128 => MV::N(N::U64(u64::MAX)),
            Canon::Float(b) if !f64::from_bits(b).is_finite() => MV::N(N::f64(-2.5)),
            _ => MV::N(n),
        },
        MV::None | MV::Unit => MV::B(true),
        MV::A(a) => MV::A(a.into_iter().map(tidy).collect()),
        MV::D(d) => MV::D(d.into_iter().map(|(k, v)| (k, tidy(v))).collect()),
        v => v,
    }
}

fn gen(s: &mut Src) -> Rendered {
    let tree = if s.chance(1, 200) {
        // Deep, but within the limit.
        let n = s.size(10, ENV_DEPTH);
        (0..n).fold(MV::int(1), |v, _| if s.bool() { MV::A(vec![v]) } else { MV::D([("a".into(), v)].into()) })
    } else { tidy(tree(s, FULL)) };
    let text = render(s, &tree);
    Rendered { tree, text, env: s.chance(1, 4) }
}

fn check(c: &Rendered, cx: &mut Cx) -> Outcome {
    let got = parse(&c.text).map_err(|e| format!("{:?} gives {e}", c.text))?;
    ensure!(got.same(&c.tree), "{:?} parses to {got:?}, expected {:?}", c.text, c.tree);
    ensure!(env_value(&c.text).same(&c.tree), "(check) the reference reads {:?} as {:?}, not {:?}", c.text, env_value(&c.text), c.tree);
    if c.env && !c.text.contains('\0') {
        std::env::set_var("FIGC11_V", &c.text);
        let d: Result<Dict, _> = Figment::from(Env::prefixed("FIGC11_")).extract();
        std::env::remove_var("FIGC11_V");
        let d = d.map_err(|e| format!("environment: {e}"))?;
        ensure!(d.len() == 1 && MV::of(&d["v"]).same(&c.tree), "the environment value {:?} is provided as {d:?}, expected {:?}", c.text, c.tree);
    }
    cx.hit(c.tree.nodes() > 1 || c.text.contains('\\'));
    cx.class_if(c.text.contains('\\'), "has an escape");
    cx.class_if(!c.text.is_ascii() && c.text.contains('\\'), "escape and non-ASCII");
    cx.class_if(c.tree.depth() > 10, "deep");
    Ok(())
}

// ------------------------------------------------------------------- strings

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Text { text: String }

fn token(s: &mut Src) -> String {
    match s.weighted(&[8, 5, 3, 2, 2]) {
        0 => s.pick(&["[", "]", "{", "}", ",", "=", "\"", "'", "\\", " ", "-", "."]).into(),
        1 => s.pick(&["a", "b", "true", "false", "1", "-1", "0.5", "12", "x y", "=1", "a=", "\"a\"", "'c'", "\"\\n\"", "\\\"", "\\u0041", "\\u00e9", "\\ud800", "\\U0001f980", "\\x", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "+1", "1.", ".5", "1e5", "1.e5", "nan", "inf.", "[]", "{}", "[1,2]", "{a=1}", "True"]).into(),
        2 => ch(s).to_string(),
        3 => super::c10::numeric_text(s),
        _ => string(s),
    }
}

fn gen_text(s: &mut Src) -> Text {
    if s.chance(1, 3) {
        // A rendered tree with a few edits.
        let v = tidy(tree(s, Shape { depth: 3, ..FULL }));
        let mut cs: Vec<char> = render(s, &v).chars().collect();
        for _ in 0..s.size(1, 3) {
            let i = s.below(cs.len() + 1);
            match s.below(3) {
                0 if i < cs.len() => { cs.remove(i); }
                1 => { let t = token(s); for c in t.chars().rev() { cs.insert(i, c) } }
                _ if i < cs.len() => { let j = s.below(cs.len()); cs.swap(i, j); }
                _ => cs.truncate(s.below(cs.len() + 1)),
            }
        }
        return Text { text: cs.into_iter().collect() };
    }
    if s.chance(1, 400) {
        let n = s.pick(&[127, 128, 129, 130, 1000, 100_000, 400_000]);
        let open = s.pick(&["[", "{a=", "[{a=", "[ \n"]);
        let close = match open { "[" | "[ \n" => "]", "{a=" => "}", _ => "}]" };
        let m = if s.bool() { n } else { s.below(n) };
        return Text { text: format!("{}1{}", open.repeat(n), close.repeat(m)) };
    }
    Text { text: s.vec(0, 14, 5, token).concat() }
}

fn check_text(c: &Text, cx: &mut Cx) -> Outcome {
    if c.text.trim().is_empty() {
        // Nothing at all: an empty value or an empty string.
        let got = parse(&c.text)?;
        ensure!(got == MV::Unit || got == MV::S(String::new()), "{:?} parses to {got:?}", c.text);
        return Ok(())
    }
    let want = env_value(&c.text);
    let got = if c.text.len() > 2000 {
        // Where the stack is as large as usual.
        let t = c.text.clone();
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || parse(&t)).unwrap().join().unwrap()
    } else { parse(&c.text) };
    let got = got.map_err(|e| format!("{:?} gives {e}, expected {want:?}", c.text))?;
    let deep = c.text.len() > 2 * ENV_DEPTH && c.text.len() < 10_000 && got.same(&env_value_to(&c.text, 10_000));
    ensure!(got.same(&want) || deep, "{:?} parses to {got:?}, expected {want:?}", c.text);
    let structured = !matches!(want, MV::S(ref s) if *s == c.text.trim());
    cx.hit(c.text.contains(['[', '{', '"', '\'', '\\']));
    cx.class(match want { MV::A(_) => "array", MV::D(_) => "dictionary", MV::N(_) => "number", MV::B(_) => "boolean", MV::C(_) => "character", _ if structured => "quoted", _ => "the string itself" });
    cx.class_if(c.text.len() >= 100_000, "over 100,000 bytes");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C11",
        subs: vec![
            Box::new(Sub { name: "render", quick: 600_000, thorough: 10_000_000, gen, check,
                rule: "a generated value tree rendered in the grammar with random spacing, quoting, escapes and trailing commas, parsed directly and through the environment provider; non-trivial: a compound tree or an escape" }),
            Box::new(Sub { name: "strings", quick: 900_000, thorough: 20_000_000, gen: gen_text, check: check_text,
                rule: "strings of grammar tokens and arbitrary characters, and edited renderings, against an independent parser of the documented grammar; non-trivial: contains a bracket, quote or backslash" }),
        ],
        assumptions: &["an empty value may be an empty string or nothing", "arrays and dictionaries nested over 128 levels deep may be taken as strings"],
    }
}
