//! Generators shared by the checks.

use crate::core::Src;
use crate::model::*;

pub const KEYS: &[&str] = &["a", "b", "c", "d", "foo", "bar"];
pub const ODD_KEYS: &[&str] = &["A", "é", "x-y", "0", "1", "_", "a b", "日本", "true", "Foo", "k\"q", "default", "global", "k'"];
/// Keys no path can name.
pub const DOT_KEYS: &[&str] = &["a.b", "b.c", "a.b.c", "a.", ".a", "a..b", ".", "foo.bar", "c.a", ""];
pub const PROFILES: &[&str] = &["default", "global", "debug", "release", "staging", "DEBUG", "Default", "GLOBAL", "Release", "ünï", "Ünï", "default2", "debug ", "globa"];

/// Sizes at and beyond common limits.
pub const SIZES: &[usize] = &[33, 65, 70, 129, 256, 257, 300, 513, 1025, 2049, 4097, 5000];

/// A long text, up to `max` characters.
pub fn long_text(s: &mut Src, max: usize) -> String {
    let n = s.pick(SIZES).min(max);
    let c = s.pick(&['k', 'a', 'Z', '9', 'é']);
    let mut t: String = std::iter::repeat(c).take(n - 1).collect();
    t.push(s.pick(&['x', 'y', '0']));
    t
}

pub fn key(s: &mut Src) -> String {
    if s.chance(1, 400) { return long_text(s, 300) }
    match s.weighted(&[24, 12, 2, 1, 2]) {
        0 => s.pick(&KEYS[..3]).into(),
        1 => s.pick(KEYS).into(),
        2 => s.pick(ODD_KEYS).into(),
        3 => s.pick(DOT_KEYS).into(),
        _ => { let n = s.size(1, 5); (0..n).map(|_| s.pick(&['a', 'b', 'Z', '_', '9', 'ß', '-'])).collect() }
    }
}

/// A key that a path may name.
pub fn pkey(s: &mut Src) -> String {
    let k = key(s).replace('.', "");
    if k.is_empty() { "e".into() } else { k }
}

pub fn profile(s: &mut Src) -> String {
    if s.chance(1, 100) { return long_text(s, 300) }
    match s.weighted(&[6, 3, 1]) {
        0 => s.pick(&PROFILES[..3]).into(),
        1 => s.pick(PROFILES).into(),
        _ => { let n = s.size(1, 4); (0..n).map(|_| s.pick(&['d', 'D', 'e', 'É', 'é', '1', '.', ' '])).collect::<String>().trim().to_string() + "p" }
    }
}

/// Distinct profiles, ignoring case.
pub fn profiles(s: &mut Src, max: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    if s.chance(1, 60) {
        let n = s.pick(&[9, 13, 17, 33]);
        out.extend((0..n).map(|i| format!("p{i}")));
    }
    for p in s.vec(0, max, 2, profile) {
        if !out.iter().any(|o| o.eq_ignore_ascii_case(&p)) { out.push(p) }
    }
    out
}

pub fn ch(s: &mut Src) -> char {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => s.pick(&[' ', '0', '9', '.', ',', '-', '_', '/', ':', '=', '"', '\'', '\\', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '%', '@', '~', '$', '<', '?', '(', ')', ';', '+', '^', '`']),
        2 => s.pick(&['é', 'ß', 'λ', 'Ω', '日', '本', '𝔘', '🦀', '\u{301}', '\u{200d}', '\u{a0}', '\u{85}', '\u{2028}', '\u{feff}']),
        _ => s.pick(&['\n', '\t', '\r', '\u{1}', '\u{7f}', '\u{1f}', '\u{0}', '\u{ffff}', '\u{10ffff}']),
    }
}

pub fn string(s: &mut Src) -> String {
    if s.chance(1, 200) { return long_text(s, 5000) }
    match s.weighted(&[4, 4, 3, 1]) {
        0 => s.pick(&["", "x", "hi", "true", "1", "0.5", "on", "null", "false", "no", "-3", "foo.bar", " padded ", "1e5", "None", "0x10", "~", "[1]", "{a=1}", "\"q\""]).into(),
        1 => { let n = s.size(0, 6); (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect() }
        2 => s.vec(0, 12, 4, ch).into_iter().collect(),
        _ => { let c = ch(s); let n = s.size(1, 300); std::iter::repeat(c).take(n).collect() }
    }
}

/// Text without control characters a text format may reject or fold.
pub fn clean(st: String) -> String {
    st.chars().filter(|c| !matches!(*c as u32, 0..=0x1f | 0x7f..=0x9f | 0x2028 | 0x2029 | 0xfeff | 0xfffe | 0xffff)).collect()
}

pub const FLOATS: &[f64] = &[0.0, 1.0, -1.0, 0.5, 0.1, -0.0, 1.5e10, 1e16, 1e300, -1e-300, 3.4028234663852886e38, 16777217.0, 9007199254740993.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456.789];

pub fn float(s: &mut Src) -> f64 {
    match s.weighted(&[3, 2, 1]) {
        0 => s.pick(FLOATS),
        1 => s.range(-100000, 100000) as f64 / 64.0,
        _ => { let f = f64::from_bits(s.u64()); if f.is_finite() { f } else { 2.5 } }
    }
}

/// The nearest float that every text parser reads exactly (`serde_json` is
/// off by an ulp for some long decimals unless configured otherwise).
pub fn simple_float(f: f64) -> f64 {
    if f == 0.1 || f == 1e16 || f == 123456.789 || f == 0.0 { return f }
    if !f.is_finite() || f.abs() > 1e6 { return 2.5 }
    (f * 64.0).round() / 64.0
}

pub fn int_near_boundary(s: &mut Src) -> i128 {
    let b: i128 = match s.weighted(&[2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => 0, 1 => i8::MAX as i128, 2 => u8::MAX as i128, 3 => i16::MAX as i128, 4 => u16::MAX as i128,
        5 => i32::MAX as i128, 6 => u32::MAX as i128, 7 => i64::MAX as i128, 8 => u64::MAX as i128,
        9 => 1 << 53, 10 => 1 << 24, _ => i128::MAX,
    };
    let d = s.pick(&[0i128, 1, -1, 2, -2, 10]);
    let v = b.checked_add(d).unwrap_or(i128::MAX);
    if s.chance(1, 2) { -v } else { v }
}

pub fn num_kind(s: &mut Src, v: i128) -> N {
    let mut opts: Vec<N> = vec![];
    #[allow(irrefutable_let_patterns)]
    macro_rules! t { ($($T:ty => $K:ident),*) => { $( if let Ok(x) = <$T>::try_from(v) { opts.push(N::$K(x)); } )* } }
    t!(i64 => I64, u64 => U64, i8 => I8, u8 => U8, i16 => I16, u16 => U16, i32 => I32, u32 => U32, i128 => I128, u128 => U128, isize => ISize, usize => USize);
    s.pick(&opts)
}

pub fn num(s: &mut Src) -> N {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => { let v = s.range(-5, 20); num_kind(s, v as i128) }
        1 => { let v = int_near_boundary(s); num_kind(s, v) }
        2 => N::f64(float(s)),
        _ => match s.below(4) {
            0 => N::f32(s.range(-1000, 1000) as f32 / 8.0),
            1 => N::f32(s.pick(&[0.1f32, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777216.0])),
            2 => N::U128(u128::MAX - s.draw(3) as u128),
            _ => N::I128(i128::MIN + s.draw(3) as i128),
        }
    }
}

/// What the data of a tree may contain.
#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    pub width: usize,
    /// Only what every text format can hold (no empties, chars, 64-bit signed, finite, clean text).
    pub plain: bool,
    pub odd_keys: bool,
}

pub const FULL: Shape = Shape { depth: 4, width: 5, plain: false, odd_keys: true };
pub const PLAIN: Shape = Shape { depth: 4, width: 5, plain: true, odd_keys: true };

pub fn scalar(s: &mut Src, sh: Shape) -> MV {
    if sh.plain {
        return match s.weighted(&[5, 3, 2, 2]) {
            0 => MV::int(s.range(-3, 12)),
            1 => MV::S(clean(string(s))),
            2 => MV::B(s.bool()),
            _ => match s.below(3) {
                0 => MV::N(N::f64(s.range(-64, 64) as f64 / 4.0)),
                1 => MV::N(N::f64(simple_float(float(s)))),
                _ => MV::int(s.pick(&[i64::MIN, i64::MAX, -1, 255, 256, i32::MIN as i64, u32::MAX as i64])),
            },
        };
    }
    match s.weighted(&[5, 3, 2, 1, 1, 1]) {
        0 => MV::N(num(s)),
        1 => MV::S(string(s)),
        2 => MV::B(s.bool()),
        3 => MV::C(ch(s)),
        4 => MV::None,
        _ => MV::Unit,
    }
}

pub fn tree_key(s: &mut Src, sh: Shape) -> String {
    if !sh.odd_keys { return s.pick(&KEYS[..4]).into() }
    if s.chance(1, 25) { let k: String = string(s).chars().take(40).collect(); return if sh.plain { clean(k) } else { k } }
    key(s)
}

pub fn tree(s: &mut Src, sh: Shape) -> MV {
    if sh.depth == 0 { return scalar(s, sh) }
    let inner = Shape { depth: sh.depth - 1, ..sh };
    if sh.depth >= 3 && s.chance(1, 60) {
        let last = tree(s, Shape { depth: 1, ..sh });
        return chain(s, sh, last);
    }
    match s.weighted(&[4, 4, 3]) {
        0 => scalar(s, sh),
        1 => MV::D(mdict(s, inner)),
        _ if s.chance(1, 40) => MV::A(long(s, |s| if s.chance(1, 8) { tree(s, Shape { depth: inner.depth.min(2), ..inner }) } else { scalar(s, sh) })),
        _ => MV::A(s.vec(0, sh.width, 2, |s| tree(s, inner))),
    }
}

/// Nested deeper than other trees are, mostly in dictionaries.
pub fn chain(s: &mut Src, sh: Shape, last: MV) -> MV {
    let one = tree_key(s, sh);
    let arrays = s.chance(1, 3);
    (0..s.size(5, 24)).fold(last, |v, _| match s.weighted(&[12, 3, if arrays { 4 } else { 0 }]) {
        0 => MV::D([(one.clone(), v)].into()),
        1 => { let k = tree_key(s, sh); MV::D([(k, v), (one.clone(), MV::int(0))].into()) }
        _ => MV::A(vec![v]),
    })
}

/// More elements than small cases have, past one and sometimes two digits.
pub fn long<'a, T>(s: &mut Src<'a>, f: impl FnMut(&mut Src<'a>) -> T) -> Vec<T> {
    let max = if s.chance(1, 10) { 120 } else { 24 };
    let min = if s.chance(1, 20) { s.pick(&SIZES[..9]) } else { s.size(8, 12) };
    s.vec(min, max.max(min), 14, f)
}

pub fn mdict(s: &mut Src, sh: Shape) -> MDict {
    s.vec(0, sh.width, 3, |s| (tree_key(s, sh), tree(s, sh))).into_iter().collect()
}

/// A variation of `v`: mostly the same shape, so that conflicts run deep.
pub fn vary(s: &mut Src, v: &MV, sh: Shape) -> MV {
    if v.depth() > 4 {
        if let MV::D(d) = v {
            // A long way down: change something there rather than here.
            let n = s.below(d.len());
            return MV::D(d.iter().enumerate().map(|(i, (k, v))| (k.clone(), if i == n || v.depth() > 3 { vary(s, v, sh) } else { v.clone() })).collect());
        }
    }
    if s.chance(1, 6) { return tree(s, Shape { depth: sh.depth.min(2), ..sh }) }
    match v {
        MV::D(d) => {
            let mut out = MDict::new();
            for (k, v) in d {
                match s.weighted(&[6, 1]) {
                    0 => { out.insert(k.clone(), vary(s, v, sh)); }
                    _ => {}
                }
            }
            if s.chance(1, 3) {
                let k = tree_key(s, sh);
                let v = tree(s, Shape { depth: 1.min(sh.depth), ..sh });
                out.insert(k, v);
            }
            MV::D(out)
        }
        MV::A(a) => {
            let mut out: Vec<MV> = vec![];
            for v in a { if !s.chance(1, 4) { out.push(vary(s, v, sh)) } }
            if s.chance(1, 3) { out.push(scalar(s, sh)) }
            MV::A(out)
        }
        _ => scalar(s, sh),
    }
}

/// A "large" dictionary now and then: many keys at one level.
pub fn big_dict(s: &mut Src) -> MDict {
    let n = if s.chance(1, 20) { s.pick(&SIZES[..9]) } else { s.size(20, 80) };
    (0..n).map(|i| (format!("k{i:03}"), MV::int(s.range(0, 3)))).collect()
}

#[derive(Clone, Copy)]
pub struct Hist {
    pub max_ops: usize,
    pub avg_ops: usize,
    pub nesting: usize,
    pub fails: bool,
    pub texts: bool,
    pub profiles: bool,
    pub select: bool,
}

pub const HIST: Hist = Hist { max_ops: 12, avg_ops: 4, nesting: 2, fails: false, texts: true, profiles: true, select: true };

pub fn strat(s: &mut Src) -> Strat { s.pick(&[Strat::Merge, Strat::Join, Strat::Admerge, Strat::Adjoin]) }

pub fn history(s: &mut Src, h: Hist) -> Vec<Op> {
    let mut seen: Vec<MDict> = vec![];
    ops(s, h, &mut seen)
}

fn data(s: &mut Src, sh: Shape, seen: &mut Vec<MDict>) -> MDict {
    let d = if !seen.is_empty() && s.chance(1, 2) {
        let base = s.pick(seen);
        let base = MV::D(base);
        match vary(s, &base, sh) { MV::D(d) => d, v => [(tree_key(s, sh), v)].into() }
    } else if s.chance(1, 40) && !sh.plain {
        big_dict(s)
    } else {
        mdict(s, sh)
    };
    seen.push(d.clone());
    d
}

/// Restricts a tree to what the text formats hold.
pub fn plainify(v: &MV) -> MV {
    match v {
        MV::S(x) => MV::S(clean(x.clone())),
        MV::C(c) => MV::S(clean(c.to_string())),
        MV::B(b) => MV::B(*b),
        MV::N(n) => match n.canon() {
            Canon::Float(b) => MV::N(N::f64(simple_float(f64::from_bits(b)))),
            Canon::Pos(m) => MV::int((m & 0x7fff_ffff_ffff_ffff) as i64),
            Canon::Neg(m) => MV::int(-((m & 0x7fff_ffff_ffff_ffff) as i64)),
        },
        MV::None | MV::Unit => MV::B(false),
        MV::D(d) => MV::D(d.iter().map(|(k, v)| (clean(k.clone()), plainify(v))).collect()),
        MV::A(a) => MV::A(a.iter().map(plainify).collect()),
    }
}

fn plain_data(s: &mut Src, sh: Shape, seen: &mut Vec<MDict>) -> MDict {
    match plainify(&MV::D(data(s, sh, seen))) { MV::D(d) => d, _ => unreachable!() }
}

pub fn dotted(s: &mut Src, max: usize) -> String {
    let n = if max > 1 && s.chance(1, 80) { s.pick(&[9, 17, 25, 33, 40]) } else { s.size(1, max) };
    (0..n).map(|_| pkey(s)).collect::<Vec<_>>().join(".")
}

fn prof(s: &mut Src, h: Hist) -> String { if h.profiles { profile(s) } else { "default".into() } }

fn ops(s: &mut Src, h: Hist, seen: &mut Vec<MDict>) -> Vec<Op> {
    s.vec(0, h.max_ops, h.avg_ops, |s| {
        if h.select && s.chance(1, 8) { return Op::Select(profile(s)) }
        let sh = FULL;
        let kind = match s.weighted(&[6, 4, 2, if h.texts { 3 } else { 0 }, if h.texts && h.profiles { 2 } else { 0 }, if h.nesting > 0 { 3 } else { 0 }, if h.fails { 4 } else { 0 }, if h.nesting > 0 { 1 } else { 0 }]) {
            0 => {
                let names = if h.profiles { profiles(s, 4) } else { vec!["default".into()] };
                let data = names.into_iter().map(|p| { let d = data(s, sh, seen); (p, d) }).collect();
                let profile = if s.chance(1, 5) && h.select { Some(prof(s, h)) } else { None };
                Kind::Custom { data, profile }
            }
            1 => {
                let key = if s.chance(1, 3) { Some(dotted(s, 3)) } else { None };
                Kind::Serialized { data: data(s, sh, seen), profile: prof(s, h), key }
            }
            2 => {
                if h.profiles {
                    Kind::Pair { key: dotted(s, 3), value: tree(s, Shape { depth: 2, ..sh }) }
                } else {
                    Kind::Serialized { data: data(s, sh, seen), profile: "default".into(), key: None }
                }
            }
            3 => {
                let fmt = s.pick(&[Fmt::Toml, Fmt::Json, Fmt::Yaml]);
                Kind::Text { fmt, data: plain_data(s, sh, seen), profile: prof(s, h) }
            }
            4 => {
                let fmt = s.pick(&[Fmt::Toml, Fmt::Json, Fmt::Yaml]);
                let names = profiles(s, 4);
                let data = names.into_iter().map(|p| (clean(p), plain_data(s, sh, seen))).collect::<Vec<_>>();
                Kind::TextNested { fmt, data }
            }
            5 => Kind::Nested(ops(s, Hist { nesting: h.nesting - 1, max_ops: h.max_ops.min(6), avg_ops: 3, ..h }, seen)),
            6 => Kind::Fail(s.pick(FAILS)),
            _ => Kind::Again(s.weighted(&[6, 2, 1, 1])),
        };
        Op::Provide { strat: strat(s), kind, by_ref: s.chance(1, 5) }
    })
}

/// Number of provide operations, counting nested ones.
pub fn provides(ops: &[Op]) -> usize {
    ops.iter().map(|o| match o {
        Op::Provide { kind: Kind::Nested(n), .. } => 1 + provides(n),
        Op::Provide { .. } => 1,
        Op::Select(_) => 0,
    }).sum()
}

/// A dotted path to look up: existing, nearly existing, or arbitrary.
pub fn path_in(s: &mut Src, paths: &[Vec<String>]) -> Vec<String> {
    let usable: Vec<&Vec<String>> = paths.iter().filter(|p| p.iter().all(|k| !k.is_empty() && !k.contains('.'))).collect();
    if usable.is_empty() || s.chance(1, 6) { return s.vec(1, 4, 2, |s| pkey(s)) }
    let mut p = s.pick(&usable).clone();
    match s.weighted(&[6, 1, 1, 1]) {
        1 => p.push(pkey(s)),
        2 => { let i = s.below(p.len()); p[i] = pkey(s); }
        3 => { let i = s.below(p.len()); p[i] = if s.bool() { p[i].to_uppercase() } else { format!("{}x", p[i]) }; }
        _ => {}
    }
    p
}
