//! Serde helpers accept and produce exactly their documented forms.

use std::collections::BTreeMap;

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use figment::providers::{Format, Json, Serialized, Toml, Yaml};
use figment::util::nest;
use figment::value::Value;
use figment::Figment;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ booleans

#[derive(Deserialize, Debug)]
struct Flag { #[serde(deserialize_with = "figment::util::bool_from_str_or_int")] flag: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { v: MV }

fn gen(s: &mut Src) -> Case {
    let word = |s: &mut Src, w: &str| -> String { w.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect() };
    let v = match s.weighted(&[2, 4, 5, 2, 2, 2]) {
        0 => MV::B(s.bool()),
        1 => { let n = s.pick(&[0i128, 1, 0, 1, 2, -1, 10, 255, 256, 257, 65536, 1 << 32, (1 << 32) + 1, 1 << 64, (1 << 64) + 1, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128]); MV::N(num_kind(s, n)) }
        2 => {
            let w = s.pick(&["true", "false"]);
            let w = word(s, w);
            MV::S(match s.below(8) {
                0 => format!(" {w}"), 1 => format!("{w} "), 2 => w[..w.len() - 1].into(), 3 => format!("{w}e"), 4 => format!("{w}\n"), _ => w,
            })
        }
        3 => MV::S(s.pick(&["", "t", "f", "1", "0", "yes", "no", "on", "off", "T", "TRUEFALSE", "ſalse", "falſe", "ｔｒｕｅ", "trüe", "none", "01"]).into()),
        4 => s.pick(&[MV::N(N::f64(0.0)), MV::N(N::f64(1.0)), MV::N(N::f32(1.0)), MV::N(N::f64(-0.0)), MV::N(N::f64(0.5)), MV::None, MV::Unit, MV::A(vec![]), MV::D([].into()), MV::C('t'), MV::C('1'), MV::C('0'), MV::A(vec![MV::B(true)]), MV::D([("flag".into(), MV::B(true))].into())]),
        _ => tree(s, Shape { depth: 1, ..FULL }),
    };
    Case { v }
}

fn wanted(v: &MV) -> Option<bool> {
    match v {
        MV::B(b) => Some(*b),
        MV::N(n) if !n.is_float() => match n.canon() { Canon::Pos(0) => Some(false), Canon::Pos(1) => Some(true), _ => None },
        MV::S(t) => match t.to_ascii_lowercase().as_str() { "true" => Some(true), "false" => Some(false), _ => None },
        _ => None,
    }
}

fn check(c: &Case, cx: &mut Cx) -> Outcome {
    let want = wanted(&c.v);
    cx.hit(want.is_some());
    cx.class_if(want.is_some() && matches!(c.v, MV::N(_)), "accepted number");
    cx.class_if(want.is_some() && matches!(c.v, MV::S(_)), "accepted word");
    cx.class_if(want.is_none(), "refused");
    let told = |how: &str, got: Result<Flag, String>| -> Outcome {
        match (got, want) {
            (Ok(f), Some(w)) if f.flag == w => Ok(()),
            (Err(_), None) => Ok(()),
            (g, w) => Err(format!("{how}: {:?} gives {g:?}, expected {w:?}", c.v)),
        }
    };
    let d: MDict = [("flag".to_string(), c.v.clone())].into();
    let value = MV::D(d.clone()).value();
    told("a value", value.deserialize::<Flag>().map_err(|e| e.to_string()))?;
    let s = Serialized::defaults(Owned(MV::D(d.clone())));
    told("a figment", Figment::from(&s).extract::<Flag>().map_err(|e| e.to_string()))?;
    told("a figment, lossily", Figment::from(&s).extract_lossy::<Flag>().map_err(|e| e.to_string()))?;
    let deep = Figment::from(Serialized::default("x.y", Owned(MV::D(d.clone()))));
    told("inside a figment", deep.extract_inner::<Flag>("x.y").map_err(|e| e.to_string()))?;
    told("inside a figment, lossily", deep.extract_inner_lossy::<Flag>("x.y").map_err(|e| e.to_string()))?;
    told("focused", deep.focus("x").focus("y").extract::<Flag>().map_err(|e| e.to_string()))?;
    // Text holds the same, where it can hold it at all.
    let n64 = |v: &MV| match v { MV::N(n) => matches!(n.canon(), Canon::Float(_)) || matches!(n.canon(), Canon::Pos(p) if p <= i64::MAX as u128) || matches!(n.canon(), Canon::Neg(p) if p <= 1 << 63), MV::S(t) => clean(t.clone()) == *t, MV::B(_) => true, _ => false };
    if !n64(&c.v) { return Ok(()) }
    let json = to_json(&MV::D(d.clone()));
    told("JSON", serde_json::from_str::<Flag>(&json).map_err(|e| e.to_string()))?;
    told("a JSON figment", Figment::from(Json::string(&json)).extract::<Flag>().map_err(|e| e.to_string()))?;
    told("YAML", serde_yaml::from_str::<Flag>(&json).map_err(|e| e.to_string()))?;
    told("a YAML figment", Figment::from(Yaml::string(&json)).extract::<Flag>().map_err(|e| e.to_string()))?;
    let toml = to_toml(&d);
    told("TOML", toml_edit::de::from_str::<Flag>(&toml).map_err(|e| e.to_string()))?;
    told("a TOML figment", Figment::from(Toml::string(&toml)).extract::<Flag>().map_err(|e| e.to_string()))?;
    // Directly from a format.
    told("Json::from_str", Json::from_str::<Flag>(&json).map_err(|e| e.to_string()))?;
    told("Yaml::from_str", Yaml::from_str::<Flag>(&json).map_err(|e| e.to_string()))?;
    told("Toml::from_str", Toml::from_str::<Flag>(&toml).map_err(|e| e.to_string()))?;
    Ok(())
}

// --------------------------------------------------------------------- pairs

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Pairs<K, V> where K: Serialize + for<'a> Deserialize<'a>, V: Serialize + for<'a> Deserialize<'a> { #[serde(with = "figment::util::vec_tuple_map")] pairs: Vec<(K, V)> }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Item { I(i64), T(String), L(Vec<bool>), M(BTreeMap<String, i64>) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lists { pairs: Vec<(String, Item)>, numbers: Vec<(i32, bool)> }

fn gen_pairs(s: &mut Src) -> Lists {
    let pairs = s.vec(0, 30, 4, |s| (clean(key(s)), match s.below(4) {
        0 => Item::I(s.range(-5, 5)), 1 => Item::T(clean(string(s))), 2 => Item::L(s.vec(0, 3, 1, |s| s.bool())), _ => Item::M(s.vec(0, 3, 1, |s| (key(s), 1)).into_iter().collect()),
    }));
    if s.chance(1, 200) {
        let n = s.pick(&[129, 257, 300, 1025]);
        return Lists { pairs, numbers: (0..n).map(|i| (i * 3 % 1500 - 40 * s.range(0, 1) as i32, s.bool())).collect() };
    }
    let (max, avg) = if s.chance(1, 8) { (60, 20) } else { (8, 3) };
    Lists { pairs, numbers: s.vec(0, max, avg, |s| (s.range(-5, 300) as i32, s.bool())) }
}

/// A format holding these entries, with its own idea of how many there are left.
struct Entries<'a> { all: &'a [(i32, bool)], at: usize, hint: Option<usize>, exact: bool }

impl<'de> serde::Deserializer<'de> for Entries<'_> {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> { v.visit_map(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

impl<'de> serde::de::MapAccess<'de> for Entries<'_> {
    type Error = serde::de::value::Error;
    fn next_key_seed<K: serde::de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, Self::Error> {
        use serde::de::IntoDeserializer;
        self.all.get(self.at).map(|e| k.deserialize(e.0.into_deserializer())).transpose()
    }
    fn next_value_seed<V: serde::de::DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value, Self::Error> {
        use serde::de::IntoDeserializer;
        self.at += 1;
        v.deserialize(self.all[self.at - 1].1.into_deserializer())
    }
    fn size_hint(&self) -> Option<usize> { self.hint.map(|h| if self.exact { h.saturating_sub(self.at) } else { h }) }
}

fn sorted<K: Ord, V: Ord>(mut v: Vec<(K, V)>) -> Vec<(K, V)> { v.sort(); v }

fn check_pairs(c: &Lists, cx: &mut Cx) -> Outcome {
    let all = Pairs { pairs: c.pairs.clone() };
    // Text keeps even repeated keys, in order.
    let text = serde_json::to_string(&all).map_err(|e| e.to_string())?;
    let entries: Vec<String> = c.pairs.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), serde_json::to_string(v).unwrap())).collect();
    let expected = format!("{{\"pairs\":{{{}}}}}", entries.join(","));
    ensure!(text == expected, "written as {text}, expected {expected}");
    let back: Pairs<String, Item> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure!(back == all, "{text} is read back as {back:?}");
    let numbers = Pairs { pairs: c.numbers.clone() };
    let text = serde_json::to_string(&numbers).map_err(|e| e.to_string())?;
    let back: Pairs<i32, bool> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure!(back == numbers, "{text} is read back as {back:?}");
    // From formats that know the number of entries, know nothing about it, or only bounds.
    for hint in [None, Some(0), Some(1), Some(c.numbers.len()), Some(c.numbers.len() + 3), Some(4000)] {
        for exact in [true, false] {
            let got: Vec<(i32, bool)> = figment::util::vec_tuple_map::deserialize(Entries { all: &c.numbers, at: 0, hint, exact }).map_err(|e: serde::de::value::Error| e.to_string())?;
            ensure!(got == c.numbers, "{:?} from a format that {} {hint:?} entries is read as {got:?}", c.numbers, if exact { "counts down from" } else { "always promises" });
        }
    }
    // Configuration holds each key once.
    let once: BTreeMap<String, Item> = c.pairs.iter().cloned().collect();
    let list: Vec<(String, Item)> = once.clone().into_iter().collect();
    let unique = Pairs { pairs: list.clone() };
    cx.hit(list.len() > 1);
    cx.class_if(list.len() < c.pairs.len(), "repeated keys");
    let back: Pairs<String, Item> = Value::serialize(&unique).and_then(|v| v.deserialize()).map_err(|e| e.to_string())?;
    ensure!(sorted(back.pairs) == list, "a value loses pairs of {list:?}");
    let f = Figment::from(Serialized::defaults(&unique));
    ensure!(f.extract::<BTreeMap<String, BTreeMap<String, Item>>>().map_err(|e| e.to_string())? == BTreeMap::from([("pairs".to_string(), once.clone())]), "{list:?} is provided as {:?}", f.extract::<Value>());
    for (how, r) in [("extraction", f.extract::<Pairs<String, Item>>()), ("lossy extraction", f.extract_lossy()),
        ("a map", Figment::from(("pairs", &once)).extract()), ("two halves", {
            let (a, b) = list.split_at(list.len() / 2);
            Figment::from(Serialized::defaults(Pairs { pairs: a.to_vec() })).merge(Serialized::defaults(Pairs { pairs: b.to_vec() })).extract()
        })] {
        let got = r.map_err(|e| format!("{how}: {e}"))?;
        ensure!(sorted(got.pairs) == list, "{how} does not give {list:?}");
    }
    let json = serde_json::to_string(&unique).unwrap();
    for (how, r) in [("JSON", Figment::from(Json::string(&json)).extract::<Pairs<String, Item>>()), ("YAML", Figment::from(Yaml::string(&json)).extract())] {
        let got = r.map_err(|e| format!("{how}: {json}: {e}"))?;
        ensure!(sorted(got.pairs) == list, "{how} does not give {list:?}");
    }
    let yaml = serde_yaml::to_string(&unique).map_err(|e| e.to_string())?;
    let got: Pairs<String, Item> = serde_yaml::from_str(&yaml).map_err(|e| e.to_string())?;
    ensure!(sorted(got.pairs) == list, "{yaml} does not give {list:?}");
    // Lists of pairs are no maps.
    for v in [MV::A(vec![]), MV::A(vec![MV::A(vec![MV::s("a"), MV::int(1)])]), MV::int(1), MV::s("a")] {
        let f = Figment::from(("pairs", Owned(v.clone())));
        ensure!(f.extract::<Pairs<String, Item>>().is_err(), "{v:?} is read as pairs");
    }
    Ok(())
}

// ------------------------------------------------------------------- nesting

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nest { keys: Vec<String>, leaf: MV, tail: bool }

fn gen_nest(s: &mut Src) -> Nest {
    let keys = s.vec(0, 40, 3, |s| { let k = if s.chance(1, 4) { string(s) } else { key(s) }; let k = k.replace('.', ""); if k.is_empty() { "e".into() } else { k } });
    Nest { keys, leaf: tree(s, Shape { depth: 2, ..FULL }), tail: s.chance(1, 8) }
}

fn check_nest(c: &Nest, cx: &mut Cx) -> Outcome {
    let leaf = c.leaf.value();
    let path = c.keys.join(".");
    let v = nest(&path, leaf.clone());
    let mut at = &v;
    for k in &c.keys {
        let d = at.as_dict().ok_or_else(|| format!("{path:?}: {at:?} is no dictionary"))?;
        ensure!(d.len() == 1, "{path:?}: {} keys beside {k:?}", d.len() - 1);
        at = d.get(k).ok_or_else(|| format!("{path:?}: no {k:?} in {d:?}"))?;
    }
    ensure!(MV::of(at).same(&c.leaf), "{path:?} leads to {at:?}, expected {:?}", c.leaf);
    ensure!(v.find_ref(&path).map_or(false, |f| MV::of(f).same(&c.leaf)), "{path:?} is not found in {v:?}");
    ensure!(v.clone().find(&path).map_or(false, |f| MV::of(&f).same(&c.leaf)), "{path:?} is not found in {v:?}");
    if c.tail {
        let tail = format!("{path}.");
        ensure!(nest(&tail, leaf.clone()).find_ref(&tail).map_or(false, |f| MV::of(f).same(&c.leaf)), "{tail:?} is not found where it was put");
    }
    cx.hit(c.keys.len() > 1);
    if !c.keys.is_empty() {
        let f = Figment::from(Serialized::default(&path, Owned(c.leaf.clone()))).merge((&path, Owned(c.leaf.clone())));
        ensure!(f.find_value(&path).map_or(false, |f| MV::of(&f).same(&c.leaf)), "{path:?} is not found in a figment");
        let all = f.extract::<Value>().map_err(|e| e.to_string())?;
        ensure!(MV::of(&all).same(&MV::of(&v)), "a figment holds {all:?}, expected {v:?}");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C23",
        subs: vec![
            Box::new(Sub { name: "boolean", quick: 600_000, thorough: 10_000_000, rule: "the value is accepted", gen, check }),
            Box::new(Sub { name: "pairs", quick: 240_000, thorough: 4_000_000, rule: "at least two different keys", gen: gen_pairs, check: check_pairs }),
            Box::new(Sub { name: "nest", quick: 600_000, thorough: 10_000_000, rule: "at least two components", gen: gen_nest, check: check_nest }),
        ],
        assumptions: &["Keys of nested values have no empty components but a last one."],
    }
}
