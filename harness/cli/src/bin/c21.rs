//! Values of the supported types to JSON and back, and JSON of other kinds refused.
//! First line: the name of a type; second line: `value` or `json`; third line: JSON text (of the value, or to be decoded).
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use vertigo::{from_json, to_json, JsJson, JsJsonDeserialize, JsJsonSerialize};

/// which JSON a type reads (kinds only)
trait Kind {
    fn reads(j: &JsJson) -> bool;
    fn make(r: &mut hx_core::Rng, big: bool) -> Self;
}
fn text(r: &mut hx_core::Rng) -> String {
    let c = ["", "a", "null", "0", "\"", "\\", "\u{0}", "ż", "\u{1F600}", "true", "type", " ", "\n"];
    (0..r.below(4)).map(|_| *r.pick(&c)).collect()
}
impl Kind for String {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::String(_)) }
    fn make(r: &mut hx_core::Rng, _: bool) -> Self { text(r) }
}
impl Kind for bool {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::True | JsJson::False) }
    fn make(r: &mut hx_core::Rng, _: bool) -> Self { r.chance(1, 2) }
}
impl Kind for () {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::Object(m) if m.is_empty()) }
    fn make(_: &mut hx_core::Rng, _: bool) -> Self {}
}
macro_rules! int {
    ($t: ty, $lo: expr, $hi: expr) => {
        impl Kind for $t {
            fn reads(j: &JsJson) -> bool { matches!(j, JsJson::Number(_)) }
            fn make(r: &mut hx_core::Rng, _: bool) -> Self {
                let (lo, hi) = ($lo as i128, $hi as i128);
                let k = r.below(3) as i128;
                let x = match r.below(6) {
                    0 => hi - k,
                    1 => lo + k,
                    2 => k,
                    3 => (1i128 << r.below(54)) - 1 + k,
                    4 => -(1i128 << r.below(54)) + k,
                    _ => lo + (r.next() as i128).rem_euclid(hi - lo + 1),
                };
                x.clamp(lo, hi) as $t
            }
        }
    };
}
int!(u64, 0, 1i64 << 53);
int!(i64, -(1i64 << 53), 1i64 << 53);
int!(u32, 0, u32::MAX);
int!(i32, i32::MIN, i32::MAX);
fn count(r: &mut hx_core::Rng, big: bool) -> u64 {
    if big { 1 + r.below(3_000) } else { r.below(5) }
}
impl<T: Kind> Kind for Vec<T> {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::List(l) if l.iter().all(T::reads)) }
    fn make(r: &mut hx_core::Rng, big: bool) -> Self { (0..count(r, big)).map(|_| T::make(r, false)).collect() }
}
impl<T: Kind> Kind for Option<T> {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::Null) || T::reads(j) }
    fn make(r: &mut hx_core::Rng, big: bool) -> Self { if r.chance(1, 3) { None } else { Some(T::make(r, big)) } }
}
fn key(r: &mut hx_core::Rng, big: bool) -> String { if big { format!("k{}", r.below(100_000)) } else { text(r) } }
impl<T: Kind> Kind for HashMap<String, T> {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::Object(l) if l.values().all(T::reads)) }
    fn make(r: &mut hx_core::Rng, big: bool) -> Self { (0..count(r, big)).map(|_| (key(r, big), T::make(r, false))).collect() }
}
impl<T: Kind> Kind for BTreeMap<String, T> {
    fn reads(j: &JsJson) -> bool { matches!(j, JsJson::Object(l) if l.values().all(T::reads)) }
    fn make(r: &mut hx_core::Rng, big: bool) -> Self { (0..count(r, big)).map(|_| (key(r, big), T::make(r, false))).collect() }
}

fn value<T: DeserializeOwned + Clone + PartialEq + Debug + JsJsonSerialize + JsJsonDeserialize>(s: &str) -> hx_core::Res {
    let Ok(v) = serde_json::from_str::<T>(s) else { return hx_core::invalid() };
    let j = to_json(v.clone());
    match from_json::<T>(j.clone()) {
        Ok(w) if w == v => Ok(()),
        Ok(w) => Err(format!("{} comes back as {}", short(&v), short(&w))),
        Err(e) => Err(format!("{} is encoded as {}, which is refused: {e}", short(&v), short(&j))),
    }
}
fn short(x: &impl Debug) -> String { format!("{x:?}").chars().take(400).collect() }
fn js(v: &serde_json::Value) -> JsJson {
    use serde_json::Value as V;
    match v {
        V::Null => JsJson::Null,
        V::Bool(b) => if *b { JsJson::True } else { JsJson::False },
        V::Number(n) => JsJson::Number(n.as_f64().unwrap_or(0.0)),
        V::String(s) => JsJson::String(s.clone()),
        V::Array(l) => JsJson::List(l.iter().map(js).collect()),
        V::Object(m) => JsJson::Object(m.iter().map(|(k, v)| (k.clone(), js(v))).collect()),
    }
}
fn json<T: Kind + Debug + JsJsonDeserialize>(s: &str) -> hx_core::Res {
    let Ok(v) = serde_json::from_str::<serde_json::Value>(s) else { return hx_core::invalid() };
    let j = js(&v);
    let want = T::reads(&j);
    match from_json::<T>(j) {
        Ok(w) if !want => Err(format!("{} is accepted as {}", short(&v), short(&w))),
        Err(e) if want => Err(format!("{} is refused: {e}", short(&v))),
        _ => Ok(()),
    }
}
type S = String;
type H<T> = HashMap<String, T>;
type B<T> = BTreeMap<String, T>;
macro_rules! types {
    ($($t: ty),* $(,)?) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        fn run(name: &str, mode: &str, s: &str) -> hx_core::Res {
            $(if name == stringify!($t) { return if mode == "value" { value::<$t>(s) } else { json::<$t>(s) }; })*
            hx_core::invalid()
        }
        fn gen(name: &str, r: &mut hx_core::Rng, big: bool) -> String {
            $(if name == stringify!($t) { return serde_json::to_string::<$t>(&<$t as Kind>::make(r, big)).unwrap_or_default(); })*
            String::new()
        }
    };
}
types!(
    S, bool, (), u64, i64, u32, i32, Vec<S>, Vec<bool>, Vec<()>, Vec<u64>, Vec<i64>, Vec<u32>, Vec<i32>, Option<S>, Option<bool>,
    Option<u64>, Option<i64>, Option<u32>, Option<i32>, H<S>, H<bool>, H<()>, H<u64>, H<i64>, H<u32>, H<i32>, B<S>, B<bool>, B<()>,
    B<u64>, B<i64>, B<u32>, B<i32>, Vec<Vec<u64>>, Vec<Option<S>>, Vec<H<i32>>, Vec<B<S>>, Option<Vec<u32>>, Option<H<i64>>, Option<B<S>>,
    H<Vec<S>>, H<Option<u64>>, H<H<S>>, H<B<bool>>, B<Vec<i32>>, B<Option<S>>, B<H<u32>>, B<B<i64>>, Vec<Option<Vec<Option<S>>>>,
    B<Option<H<Vec<i64>>>>,
);
fn check(input: &str) -> hx_core::Res {
    let mut l = input.splitn(3, '\n');
    let (Some(n), Some(m), Some(s)) = (l.next(), l.next(), l.next()) else { return hx_core::invalid() };
    let (n, m, s) = (n.to_string(), m.to_string(), s.to_string());
    hx_core::isolated(move || run(&n, &m, &s))
}
fn wild(r: &mut hx_core::Rng, d: u32) -> serde_json::Value {
    use serde_json::{json, Value as V};
    match r.below(if d == 0 { 5 } else { 7 }) {
        0 => V::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(r.below(100)),
        3 => json!(text(r)),
        4 => [json!([]), json!({}), json!("12"), json!(1), json!(0)][r.below(5) as usize].clone(),
        5 => V::Array((0..r.below(4)).map(|_| wild(r, d - 1)).collect()),
        _ => V::Object((0..r.below(4)).map(|_| (text(r), wild(r, d - 1))).collect()),
    }
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 300_000 } else { 15_000 };
            for name in NAMES {
                if !sink(format!("{name}\nvalue\n{}", gen(name, &mut r, true))) { return; }
                for k in ["null", "true", "false", "0", "1", "\"\"", "\"1\"", "\"true\"", "[]", "[null]", "[1]", "[\"a\"]", "[true]", "{}", "{\"a\":null}", "{\"a\":1}", "{\"a\":\"b\"}", "{\"\":false}"] {
                    if !sink(format!("{name}\njson\n{k}")) { return; }
                }
            }
            for _ in 0..n {
                let name = *r.pick(NAMES);
                let c = if r.chance(2, 3) { format!("{name}\nvalue\n{}", gen(name, &mut r, false)) } else { format!("{name}\njson\n{}", wild(&mut r, 3)) };
                if !sink(c) { return; }
            }
        },
        check,
    )
}
