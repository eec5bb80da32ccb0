//! Lossy extraction converts exactly the documented forms.

use std::cell::Cell;

use crate::core::*;
use crate::dynty::{self, with_ty, Dyn, Ty, Var, DV, IKS};
use crate::gen::*;
use crate::model::*;
use crate::reference::{leaf, lossy_bool, number, Allowed, Text};
use figment::providers::Serialized;
use figment::value::{Num, Value};
use figment::Figment;

// ---------------------------------------------------------------- the table

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct One { v: MV, ty: Ty }

fn word(s: &mut Src) -> String {
    let w: String = s.pick(&["true", "yes", "1", "on", "false", "no", "0", "off", "y", "n", "t", "f", "enabled", "00", "01", "tru", "true1", "oN ", " on", "ja", "ıs", "ﬀ", "K"]).into();
    let lookalike = s.chance(1, 5);
    let w: String = w.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect();
    if !lookalike { return w }
    // Text that some case mapping or normalization takes for a documented form.
    let w = if s.bool() { w.to_lowercase().replace("ff", "ﬀ") } else { w };
    w.chars().map(|c| if s.bool() { c } else { match c {
        's' | 'S' => 'ſ', 'k' | 'K' => '\u{212A}', 'i' | 'I' => s.pick(&['ı', 'İ']),
        '!'..='~' if s.chance(1, 3) => char::from_u32(c as u32 + 0xFEE0).unwrap(),
        '0' => s.pick(&['٠', '０']), '1' => s.pick(&['١', '１']),
        'o' => s.pick(&['ο', 'о', 'º']), 'e' => 'е', 'a' => 'ª', c => c } }).collect()
}

pub fn numeric_text(s: &mut Src) -> String {
    let base = match s.weighted(&[4, 3, 4, 3, 2]) {
        0 => int_near_boundary(s).to_string(),
        1 => s.range(-300, 300).to_string(),
        2 => float_text(float(s)),
        3 => {
            let a = s.pick(&["", "0", "1", "12", "007", "123456789012345678901234567890"]);
            let b = s.pick(&["", "0", "1", "25", "1234567", "3333333333333333333"]);
            format!("{a}.{b}")
        }
        _ => s.pick(&["340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
            "1e5", "1.e5", "inf", "nan", "-inf", ".", "-.", "-", "+", "", "0x10", "1_000", "1,5", "١", "--1", "+-1", "1.2.3", "1.5f", "0.1", "0.3", "16777217.0", "1.0e400", "5.0e-324", "infinity", "1e", "1.0e"]).into(),
    };
    // Many zeros in front of the number or behind its fraction.
    let base = if s.chance(1, 20) {
        let n = s.pick(&[10, 25, 40, 70, 130, 257]);
        let zeros = "0".repeat(n);
        if base.contains('.') && s.bool() && !base.contains(['e', 'f']) { base + &zeros } else { match base.strip_prefix('-') { Some(b) => format!("-{zeros}{b}"), None => zeros + &base } }
    } else { base };
    let base = match s.weighted(&[8, 1, 1]) { 1 => format!("+{base}"), 2 => format!("-{base}"), _ => base };
    let base = if s.chance(1, 5) { format!("{}{base}{}", s.pick(&["", " ", "\t", "\u{a0}"]), s.pick(&["", " ", "\n"])) } else { base };
    if s.chance(1, 8) { let c = ch(s); let i = s.below(base.len() + 1); let mut b = base; if b.is_char_boundary(i) { b.insert(i, c) }; b } else { base }
}

fn prim(s: &mut Src) -> Ty {
    match s.weighted(&[4, 6, 2, 3, 1, 1]) {
        0 => Ty::Bool, 1 => Ty::Int(s.pick(IKS)), 2 => Ty::F32, 3 => Ty::F64, 4 => Ty::Str, _ => Ty::Char,
    }
}

fn gen_one(s: &mut Src) -> One {
    let v = match s.weighted(&[4, 6, 3, 1]) {
        0 => MV::S(word(s)),
        1 => MV::S(numeric_text(s)),
        2 => scalar(s, FULL),
        _ => match s.below(3) { 0 => MV::A(vec![MV::int(1)]), 1 => MV::D([("a".into(), MV::int(1))].into()), _ => MV::C(s.pick(&['0', '1', '7', 'y'])) },
    };
    let ty = prim(s);
    One { v, ty }
}

fn num_of(t: &Text) -> Option<Canon> {
    match t { Text::Int(c) => Some(*c), Text::Float(f) | Text::Maybe(f) => Some(N::f64(*f).canon()), Text::No => None }
}

fn check_one(c: &One, cx: &mut Cx) -> Outcome {
    let v = c.v.value();
    ensure_eq!(v.to_bool_lossy(), lossy_bool(&c.v), "to_bool_lossy of {:?}", c.v);
    let want = match &c.v { MV::N(n) => Some(n.canon()), MV::S(t) => num_of(&number(t)), _ => None };
    let maybe = matches!(&c.v, MV::S(t) if matches!(number(t), Text::Maybe(_)));
    let got = v.to_num_lossy().map(|n| N::of(n).canon());
    ensure!(got == want || (maybe && got.is_none()), "to_num_lossy of {:?}: got {got:?}, expected {want:?}", c.v);
    if let MV::S(t) = &c.v {
        let got = t.parse::<Num>().ok().map(|n| N::of(n).canon());
        ensure!(got == want || (maybe && got.is_none()), "parsing {t:?} as a number: got {got:?}, expected {want:?}");
    }
    let f = Figment::from(Serialized::default("v", Owned(c.v.clone())));
    let strict: Result<Dyn, _> = with_ty(&c.ty, || f.extract_inner("v"));
    let lossy: Result<Dyn, _> = with_ty(&c.ty, || f.extract_inner_lossy("v"));
    let show = |r: &Result<Dyn, figment::Error>| r.as_ref().map(|d| d.0.clone()).map_err(|e| e.to_string());
    let (strict, lossy) = (show(&strict), show(&lossy));
    let (ws, wl) = (leaf(&c.v, &c.ty, false), leaf(&c.v, &c.ty, true));
    ensure!(ws.admits(&strict), "strict extraction of {:?} as {:?} gives {strict:?}, expected {ws:?}", c.v, c.ty);
    ensure!(wl.admits(&lossy), "lossy extraction of {:?} as {:?} gives {lossy:?}, expected {wl:?}", c.v, c.ty);
    if let Ok(a) = &strict {
        ensure!(lossy.as_ref().is_ok_and(|b| dynty::same(a, b)), "{:?} as {:?}: strict extraction gives {a:?}, lossy {lossy:?}", c.v, c.ty);
    }
    let both = with_ty(&Ty::Struct(vec![("v".into(), c.ty.clone())], true), || f.extract_lossy::<Dyn>());
    let both = both.map_err(|e| e.to_string()).map(|d| match d.0 { DV::Fields(mut f) => f.remove(0), v => v });
    ensure!(wl.admits(&both), "extract_lossy of {:?} as {:?} gives {both:?}, expected {wl:?}", c.v, c.ty);
    cx.hit(strict.is_err() && lossy.is_ok());
    cx.class(match (strict.is_ok(), lossy.is_ok()) { (true, _) => "strict accepts", (_, true) => "only lossy accepts", _ => "both reject" });
    Ok(())
}

// ---------------------------------------------------------------- structures

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Deep { ty: Ty, mv: MV, under: Option<String>, focus: bool, #[serde(default)] text: bool }

/// Replaces some leaves by textual forms, and at most `bad` by wrong ones.
fn loosen(s: &mut Src, t: &Ty, m: &MV, bad: &Cell<u32>) -> MV {
    match (t, m) {
        (Ty::Bool | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Str | Ty::Char, m) => {
            if bad.get() > 0 && s.chance(1, 6) {
                bad.set(bad.get() - 1);
                return match s.below(4) { 0 => MV::S(word(s)), 1 => MV::S(numeric_text(s)), 2 => scalar(s, FULL), _ => MV::B(s.bool()) };
            }
            if s.bool() { return m.clone() }
            match (t, m) {
                (Ty::Bool, MV::B(b)) => {
                    if s.chance(1, 4) { return MV::N(num_kind(s, *b as i128)) }
                    let w: &str = if *b { s.pick(&["true", "yes", "1", "on"]) } else { s.pick(&["false", "no", "0", "off"]) };
                    MV::S(w.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect())
                }
                (_, MV::N(n)) => MV::S(match n.canon() {
                    Canon::Pos(m) => m.to_string(), Canon::Neg(m) => format!("-{m}"),
                    Canon::Float(b) if f64::from_bits(b).is_finite() => float_text(f64::from_bits(b)),
                    Canon::Float(_) => return m.clone(),
                }),
                _ => m.clone(),
            }
        }
        (Ty::Opt(_), MV::None | MV::Unit) => m.clone(),
        (Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t), m) => {
            let was = bad.get();
            let v = loosen(s, t, m, bad);
            if matches!(v, MV::None | MV::Unit) { bad.set(was); return m.clone() }
            v
        }
        (Ty::Seq(t), MV::A(a)) => MV::A(a.iter().map(|m| loosen(s, t, m, bad)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), MV::A(a)) => MV::A(ts.iter().zip(a).map(|(t, m)| loosen(s, t, m, bad)).collect()),
        (Ty::Map(t), MV::D(d)) => MV::D(d.iter().map(|(k, m)| (k.clone(), loosen(s, t, m, bad))).collect()),
        (Ty::Struct(fs, _), MV::D(d)) => MV::D(fs.iter().map(|(k, t)| (k.clone(), loosen(s, t, &d[k], bad))).collect()),
        (Ty::Enum(vs), MV::D(d)) => {
            let (k, m) = d.iter().next().unwrap();
            let var = &vs.iter().find(|v| v.0 == *k).unwrap().1;
            let m = match (var, m) {
                (Var::Newtype(t), m) => loosen(s, t, m, bad),
                (Var::Tuple(ts), MV::A(a)) => MV::A(ts.iter().zip(a).map(|(t, m)| loosen(s, t, m, bad)).collect()),
                (Var::Struct(fs), MV::D(d)) => MV::D(fs.iter().map(|(k, t)| (k.clone(), loosen(s, t, &d[k], bad))).collect()),
                _ => m.clone(),
            };
            MV::D([(k.clone(), m)].into())
        }
        _ => m.clone(),
    }
}

/// Expected result: `Err(())` if some leaf must fail, `None` leaves are free.
fn decode(t: &Ty, m: &MV, lossy: bool) -> Result<DV, bool> {
    let all = |ts: &mut dyn Iterator<Item = (&Ty, &MV)>| -> Result<Vec<DV>, bool> {
        let mut out = vec![]; let mut err = None;
        for (t, m) in ts { match decode(t, m, lossy) { Ok(v) => out.push(v), Err(free) => err = Some(err.unwrap_or(true) && free) } }
        match err { Some(e) => Err(e), None => Ok(out) }
    };
    Ok(match (t, m) {
        (Ty::Bool | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Str | Ty::Char, m) => {
            let Allowed { mut values, fail } = leaf(m, t, lossy);
            values.dedup();
            match (values.len(), fail) { (0, _) => return Err(false), (1, false) => values.remove(0), _ => return Err(true) }
        }
        (Ty::Opt(_), MV::None | MV::Unit) => DV::None,
        (Ty::Opt(t), m) => DV::Some(Box::new(decode(t, m, lossy)?)),
        (Ty::Newtype(t) | Ty::Tagged(t), m) => DV::Wrap(Box::new(decode(t, m, lossy)?)),
        (Ty::Unit | Ty::UnitStruct, _) => DV::Unit,
        (Ty::Seq(t), MV::A(a)) => DV::Seq(all(&mut a.iter().map(|m| (&**t, m)))?),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), MV::A(a)) => DV::Seq(all(&mut ts.iter().zip(a))?),
        (Ty::Map(t), MV::D(d)) => {
            let vs = all(&mut d.values().map(|m| (&**t, m)))?;
            DV::Map(d.keys().cloned().zip(vs).collect())
        }
        (Ty::Struct(fs, _), MV::D(d)) => DV::Fields(all(&mut fs.iter().map(|(k, t)| (t, &d[k])))?),
        (Ty::Enum(vs), MV::S(k)) => DV::Variant(vs.iter().position(|v| v.0 == *k).unwrap(), Box::new(DV::Unit)),
        (Ty::Enum(vs), MV::D(d)) => {
            let (k, m) = d.iter().next().unwrap();
            let i = vs.iter().position(|v| v.0 == *k).unwrap();
            DV::Variant(i, Box::new(match (&vs[i].1, m) {
                (Var::Newtype(t), m) => DV::Wrap(Box::new(decode(t, m, lossy)?)),
                (Var::Tuple(ts), MV::A(a)) => DV::Seq(all(&mut ts.iter().zip(a))?),
                (Var::Struct(fs), MV::D(d)) => DV::Fields(all(&mut fs.iter().map(|(k, t)| (t, &d[k])))?),
                _ => unreachable!(),
            }))
        }
        _ => unreachable!("{t:?} {m:?}"),
    })
}

fn gen_deep(s: &mut Src) -> Deep {
    let ty = loop {
        let t = Ty::Struct(dynty::fields(s, 3, false), s.bool());
        let t = if s.chance(1, 4) { Ty::Tagged(Box::new(t)) } else { t };
        if !t.has(&|t| matches!(t, Ty::Bytes)) { break t }
    };
    let v = dynty::value(s, &ty);
    let bad = Cell::new(s.draw(1) as u32);
    let mv = dynty::to_mv(&ty, &v);
    let mv = loosen(s, &ty, &mv, &bad);
    Deep { ty, mv, under: if s.bool() { Some(dotted(s, 2)) } else { None }, focus: s.bool(), text: false }
}

fn check_deep(c: &Deep, cx: &mut Cx) -> Outcome {
    let f = match &c.under {
        Some(k) => Figment::from(Serialized::default(k, Owned(c.mv.clone()))),
        None => Figment::from(Serialized::defaults(Owned(c.mv.clone()))),
    };
    let get = |lossy: bool| -> Result<DV, String> {
        with_ty(&c.ty, || match (&c.under, c.focus, lossy) {
            (Some(k), true, true) => f.focus(k).extract_lossy::<Dyn>(),
            (Some(k), true, false) => f.focus(k).extract::<Dyn>(),
            (Some(k), false, true) => f.extract_inner_lossy(k),
            (Some(k), false, false) => f.extract_inner(k),
            (None, _, true) => f.extract_lossy(),
            (None, _, false) => f.extract(),
        }).map(|d| d.0).map_err(|e| e.to_string())
    };
    let (strict, lossy) = (get(false), get(true));
    for (how, want, got) in [("strict", decode(&c.ty, &c.mv, false), &strict), ("lossy", decode(&c.ty, &c.mv, true), &lossy)] {
        match want {
            Ok(w) => ensure!(got.as_ref().is_ok_and(|g| dynty::same(&w, g)), "{how}: got {got:?}, expected {w:?}"),
            Err(false) => ensure!(got.is_err(), "{how}: got {got:?}, expected an error"),
            Err(true) => {}
        }
    }
    if let Ok(a) = &strict {
        ensure!(lossy.as_ref().is_ok_and(|b| dynty::same(a, b)), "strict extraction gives {a:?}, lossy {lossy:?}");
    }
    // Untyped values are never converted.
    let v: Value = match &c.under { Some(k) => f.extract_inner_lossy(k), None => f.extract_lossy() }.map_err(|e| e.to_string())?;
    ensure!(MV::of(&v).same(&c.mv), "extracting a value lossily gives {v:?}, expected {:?}", c.mv);
    cx.hit(strict.is_err() && c.ty.depth() > 1);
    cx.class(match (strict.is_ok(), lossy.is_ok()) { (true, _) => "strict accepts", (_, true) => "only lossy accepts", _ => "both reject" });
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C10",
        subs: vec![
            Box::new(Sub { name: "table", quick: 1_600_000, thorough: 20_000_000, gen: gen_one, check: check_one,
                rule: "a word, numeric text (near every boundary, with signs, spaces, exponents, stray characters) or any other value, with any primitive target; non-trivial: rejected strictly and accepted lossily" }),
            Box::new(Sub { name: "structures", quick: 480_000, thorough: 5_000_000, gen: gen_deep, check: check_deep,
                rule: "generated types up to four levels deep whose leaves are partly given as text and at most one wrongly, extracted whole, by key or focused; non-trivial: strict extraction fails on a nested type" }),
        ],
        assumptions: &["numbers written with an exponent but no point, and inf or nan, may be refused or converted"],
    }
}
