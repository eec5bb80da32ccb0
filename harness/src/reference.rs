//! Reference rules for turning single configured values into typed values.

use crate::dynty::{Ty, DV, IK};
use crate::model::{Canon, MV, N};

/// What an extraction may do: succeed with one of `values`, or fail.
#[derive(Clone, Debug)]
pub struct Allowed { pub values: Vec<DV>, pub fail: bool }

impl Allowed {
    pub fn only(v: DV) -> Allowed { Allowed { values: vec![v], fail: false } }
    pub fn fail() -> Allowed { Allowed { values: vec![], fail: true } }
    pub fn admits(&self, got: &Result<DV, String>) -> bool {
        match got {
            Ok(v) => self.values.iter().any(|w| crate::dynty::same(w, v)),
            Err(_) => self.fail,
        }
    }
}

/// The integer as type `k`, if it is representable.
pub fn as_kind(c: Canon, k: IK) -> Option<N> {
    macro_rules! t { ($($K:ident => $T:ty, $V:ident);* $(;)?) => { match (k, c) {
        $((IK::$K, Canon::Pos(m)) => <$T>::try_from(m).ok().map(N::$V),
          (IK::$K, Canon::Neg(m)) => if m <= 1 << 127 { <$T>::try_from((m as i128).wrapping_neg()).ok().map(N::$V) } else { None },
        )*
        (_, Canon::Float(_)) => None,
    } } }
    t! { U8 => u8, U8; U16 => u16, U16; U32 => u32, U32; U64 => u64, U64; U128 => u128, U128; Usize => usize, USize;
         I8 => i8, I8; I16 => i16, I16; I32 => i32, I32; I64 => i64, I64; I128 => i128, I128; Isize => isize, ISize }
}

pub fn in_64(c: Canon) -> bool {
    match c { Canon::Pos(m) => m <= u64::MAX as u128, Canon::Neg(m) => m <= 1 << 63, Canon::Float(_) => false }
}

/// How a number extracts as a number type.
pub fn num_as(n: N, ty: &Ty) -> Allowed {
    let c = n.canon();
    match (ty, c) {
        (Ty::Int(k), c) => match as_kind(c, *k) { Some(n) => Allowed::only(DV::Int(n)), None => Allowed::fail() },
        (Ty::F64, Canon::Float(b)) => Allowed::only(DV::F64(b)),
        (Ty::F32, Canon::Float(b)) => Allowed::only(DV::F32((f64::from_bits(b) as f32).to_bits())),
        // Integers wider than 64 bits may be refused as floats.
        (Ty::F64, Canon::Pos(m)) => Allowed { values: vec![DV::F64((m as f64).to_bits())], fail: !in_64(c) },
        (Ty::F64, Canon::Neg(m)) => Allowed { values: vec![DV::F64((-(m as f64)).to_bits())], fail: !in_64(c) },
        (Ty::F32, Canon::Pos(m)) => Allowed { values: vec![DV::F32((m as f32).to_bits())], fail: !in_64(c) },
        (Ty::F32, Canon::Neg(m)) => Allowed { values: vec![DV::F32((-(m as f32)).to_bits())], fail: !in_64(c) },
        _ => Allowed::fail(),
    }
}

pub enum Text { Int(Canon), Float(f64), Maybe(f64), No }

/// Reads the text of a number.
pub fn number(text: &str) -> Text {
    let t = text.trim();
    let (neg, rest) = match t.as_bytes().first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if digits(rest) {
        let mut m: u128 = 0;
        for b in rest.bytes() {
            m = match m.checked_mul(10).and_then(|m| m.checked_add((b - b'0') as u128)) { Some(m) => m, None => return Text::No };
        }
        return match neg {
            true if m == 0 => Text::Int(Canon::Pos(0)),
            true if m <= 1 << 127 => Text::Int(Canon::Neg(m)),
            true => Text::No,
            false => Text::Int(Canon::Pos(m)),
        };
    }
    let (mant, exp) = match rest.find(['e', 'E']) { Some(i) => (&rest[..i], Some(&rest[i + 1..])), None => (rest, None) };
    let exp_ok = exp.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)));
    match mant.split_once('.') {
        Some((a, b)) if exp_ok && (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && !(a.is_empty() && b.is_empty()) =>
            Text::Float(t.parse().expect("a float")),
        None if exp_ok && exp.is_some() && digits(mant) => Text::Maybe(t.parse().expect("a float")),
        // "inf", "nan", ...
        _ => match t.parse::<f64>() { Ok(f) => Text::Maybe(f), Err(_) => Text::No },
    }
}

fn float_as(f: f64, t: &str, ty: &Ty) -> Allowed {
    match ty {
        Ty::F64 => Allowed::only(DV::F64(f.to_bits())),
        // The nearest value, or the nearest to the nearest 64-bit float.
        Ty::F32 => Allowed { values: vec![DV::F32((f as f32).to_bits()), DV::F32(t.trim().parse::<f32>().unwrap().to_bits())], fail: false },
        _ => Allowed::fail(),
    }
}

pub fn lossy_bool(v: &MV) -> Option<bool> {
    match v {
        MV::B(b) => Some(*b),
        MV::N(n) => match n.canon() { Canon::Pos(0) => Some(false), Canon::Pos(1) => Some(true), _ => None },
        MV::S(s) => match s.to_ascii_lowercase().as_str() {
            "true" | "yes" | "1" | "on" => Some(true),
            "false" | "no" | "0" | "off" => Some(false),
            _ => None,
        },
        _ => None,
    }
}

/// How a single value extracts as a single-value type.
pub fn leaf(v: &MV, ty: &Ty, lossy: bool) -> Allowed {
    match (ty, v) {
        (Ty::Bool, MV::B(b)) => Allowed::only(DV::Bool(*b)),
        (Ty::Bool, v) if lossy => lossy_bool(v).map_or(Allowed::fail(), |b| Allowed::only(DV::Bool(b))),
        (Ty::Int(_) | Ty::F32 | Ty::F64, MV::N(n)) => num_as(*n, ty),
        (Ty::Int(_) | Ty::F32 | Ty::F64, MV::S(t)) if lossy => match number(t) {
            Text::Int(c) => num_as(match c { Canon::Pos(m) => N::U128(m), Canon::Neg(m) => N::I128((m as i128).wrapping_neg()), _ => unreachable!() }, ty),
            Text::Float(f) => float_as(f, t, ty),
            Text::Maybe(f) => Allowed { fail: true, ..float_as(f, t, ty) },
            Text::No => Allowed::fail(),
        },
        (Ty::Char, MV::C(c)) => Allowed::only(DV::Char(*c)),
        (Ty::Char, MV::S(s)) => match (s.chars().next(), s.chars().count()) { (Some(c), 1) => Allowed::only(DV::Char(c)), _ => Allowed::fail() },
        (Ty::Str, MV::S(s)) => Allowed::only(DV::Str(s.clone())),
        (Ty::Str, MV::C(c)) => Allowed::only(DV::Str(c.to_string())),
        (Ty::Unit | Ty::UnitStruct, MV::Unit) => Allowed::only(DV::Unit),
        _ => Allowed::fail(),
    }
}

// ------------------------------------------------- environment value syntax

/// The structure of an environment value, from the documented grammar.
pub fn env_value(text: &str) -> MV { env_value_to(text, ENV_DEPTH) }

/// The same with another limit to the nesting.
pub fn env_value_to(text: &str, limit: usize) -> MV {
    let t = text.trim();
    let cs: Vec<char> = t.chars().collect();
    match env_at(&cs, 0, limit) {
        Some((v, end)) if end == cs.len() => v,
        _ => MV::S(t.to_string()),
    }
}

/// Deepest nesting of arrays and dictionaries that is given structure.
pub const ENV_DEPTH: usize = 128;

fn ws(cs: &[char], mut i: usize) -> usize {
    while i < cs.len() && cs[i].is_whitespace() { i += 1 }
    i
}

fn env_at(cs: &[char], i: usize, depth: usize /* left */) -> Option<(MV, usize)> {
    let i = ws(cs, i);
    let (v, end) = match cs.get(i) {
        None => (MV::Unit, i),
        Some('"') => { let (s, e) = env_quoted(cs, i)?; (MV::S(s), e) }
        Some('\'') => {
            let c = *cs.get(i + 1)?;
            if *cs.get(i + 2)? != '\'' { return None }
            (MV::C(c), i + 3)
        }
        Some('[') => {
            if depth == 0 { return None }
            let mut out = vec![];
            let e = env_list(cs, i + 1, ']', &mut |j| { let (v, e) = env_at(cs, j, depth - 1)?; out.push(v); Some(e) })?;
            (MV::A(out), e)
        }
        Some('{') => {
            if depth == 0 { return None }
            let mut out = crate::model::MDict::new();
            let e = env_list(cs, i + 1, '}', &mut |j| {
                let (k, e) = if cs.get(j) == Some(&'"') { env_quoted(cs, j)? } else {
                    let e = (j..cs.len()).find(|e| !(cs[*e].is_ascii_alphanumeric() || cs[*e] == '_' || cs[*e] == '-')).unwrap_or(cs.len());
                    (cs[j..e].iter().collect(), e)
                };
                let e = ws(cs, e);
                if cs.get(e) != Some(&'=') { return None }
                let (v, e) = env_at(cs, e + 1, depth - 1)?;
                out.insert(k, v);
                Some(e)
            })?;
            (MV::D(out), e)
        }
        Some(_) => {
            let e = (i..cs.len()).find(|e| [',', '{', '}', '[', ']'].contains(&cs[*e])).unwrap_or(cs.len());
            let word: String = cs[i..e].iter().collect();
            (env_word(word.trim()), e)
        }
    };
    Some((v, ws(cs, end)))
}

fn env_list(cs: &[char], i: usize, close: char, item: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    let mut i = ws(cs, i);
    loop {
        if cs.get(i) == Some(&close) { return Some(i + 1) }
        i = ws(cs, item(i)?);
        match cs.get(i) {
            Some(',') => i = ws(cs, i + 1),
            Some(c) if *c == close => return Some(i + 1),
            _ => return None,
        }
    }
}

fn env_quoted(cs: &[char], i: usize) -> Option<(String, usize)> {
    let mut out = String::new();
    let mut i = i + 1;
    let mut bad = false;
    loop {
        match *cs.get(i)? {
            '"' => return if bad { None } else { Some((out, i + 1)) },
            '\\' => {
                let hex = |n: usize| -> Option<char> {
                    let h: String = cs.get(i + 2..i + 2 + n)?.iter().collect();
                    if !h.chars().all(|c| c.is_ascii_hexdigit()) { return None }
                    char::from_u32(u32::from_str_radix(&h, 16).ok()?)
                };
                let (c, n) = match *cs.get(i + 1)? {
                    'b' => (Some('\u{8}'), 2), 't' => (Some('\t'), 2), 'n' => (Some('\n'), 2), 'f' => (Some('\u{c}'), 2),
                    'r' => (Some('\r'), 2), '"' => (Some('"'), 2), '\\' => (Some('\\'), 2),
                    'u' => (hex(4), 6), 'U' => (hex(8), 10), _ => (None, 2),
                };
                match c { Some(c) => { out.push(c); i += n } None => { bad = true; i += 2 } }
            }
            c => { if c != '\t' && (c < ' ' || c == '\u{7f}') { bad = true } out.push(c); i += 1 }
        }
    }
}

pub fn env_word(w: &str) -> MV {
    match w {
        "true" => MV::B(true),
        "false" => MV::B(false),
        _ => match number(w) {
            Text::Float(f) => MV::N(N::f64(f)),
            Text::Int(Canon::Pos(m)) if m <= u64::MAX as u128 && (m == 0 || !w.starts_with('-')) => MV::N(N::U64(m as u64)),
            Text::Int(Canon::Neg(m)) if m <= 1 << 63 => MV::N(N::I64((m as i128).wrapping_neg() as i64)),
            _ => MV::S(w.to_string()),
        },
    }
}
