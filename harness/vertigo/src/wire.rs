//! Values as text lines (pre-order), their library form, and an independent encoder
use crate::{J, W};
use hx_core::Rng;
use std::collections::{BTreeMap, HashMap};
use vertigo::{JsJson, JsValue};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// strings are given as hex of UTF-8, or `*N` for a run of N letters
fn sval(s: &str) -> String {
    if let Some(n) = s.strip_prefix('*') {
        return (0..n.parse::<usize>().unwrap_or(0)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    }
    String::from_utf8_lossy(&unhex(s)).into_owned()
}
pub struct P<'a> {
    it: std::iter::Peekable<std::str::Lines<'a>>,
}
impl<'a> P<'a> {
    pub fn new(s: &'a str) -> P<'a> {
        P { it: s.lines().peekable() }
    }
    fn line(&mut self) -> (&'a str, &'a str) {
        let l = self.it.next().unwrap_or("undef");
        l.split_once(' ').unwrap_or((l, ""))
    }
    pub fn done(&mut self) -> bool {
        self.it.peek().is_none()
    }
    pub fn value(&mut self) -> W {
        let (k, a) = self.line();
        let n = a.parse::<i128>().unwrap_or(0);
        match k {
            "u32" => W::U32(n as u32),
            "i32" => W::I32(n as i32),
            "u64" => W::U64(n as u64),
            "i64" => W::I64(n as i64),
            "f64" => W::F64(n as u64),
            "true" => W::True,
            "false" => W::False,
            "null" => W::Null,
            "vec" => W::Vec(if let Some(n) = a.strip_prefix('*') { (0..n.parse::<usize>().unwrap_or(0)).map(|i| (i * 7) as u8).collect() } else { unhex(a) }),
            "str" => W::Str(sval(a)),
            "list" => {
                let mut v = vec![];
                for _ in 0..n {
                    if self.done() {
                        break;
                    }
                    v.push(self.value());
                }
                W::List(v)
            }
            "rep" => {
                let x = self.value();
                W::List(vec![x; n as usize])
            }
            "objn" => W::Obj((0..n).map(|i| (format!("k{i}"), if i % 3 == 0 { W::U32(i as u32) } else { W::True })).collect()),
            "obj" => {
                let mut v = BTreeMap::new();
                for _ in 0..n {
                    if self.done() {
                        break;
                    }
                    let (k, a) = self.line();
                    let key = if k == "key" { sval(a) } else { k.to_string() };
                    let x = self.value();
                    v.insert(key, x);
                }
                W::Obj(v)
            }
            "json" => W::Json(self.json()),
            _ => W::Undef,
        }
    }
    fn json(&mut self) -> J {
        let (k, a) = self.line();
        let n = a.parse::<i128>().unwrap_or(0);
        match k {
            "true" => J::True,
            "false" => J::False,
            "str" => J::Str(sval(a)),
            "f64" => J::Num(n as u64),
            "list" => {
                let mut v = vec![];
                for _ in 0..n {
                    if self.done() {
                        break;
                    }
                    v.push(self.json());
                }
                J::List(v)
            }
            "rep" => {
                let x = self.json();
                J::List(vec![x; n as usize])
            }
            "objn" => J::Obj((0..n).map(|i| (format!("k{i}"), if i % 3 == 0 { J::Num((i as f64).to_bits()) } else { J::True })).collect()),
            "obj" => {
                let mut v = BTreeMap::new();
                for _ in 0..n {
                    if self.done() {
                        break;
                    }
                    let (k, a) = self.line();
                    let key = if k == "key" { sval(a) } else { k.to_string() };
                    let x = self.json();
                    v.insert(key, x);
                }
                J::Obj(v)
            }
            _ => J::Null,
        }
    }
}

pub fn to_lib(w: &W) -> JsValue {
    match w {
        W::U32(x) => JsValue::U32(*x),
        W::I32(x) => JsValue::I32(*x),
        W::U64(x) => JsValue::U64(*x),
        W::I64(x) => JsValue::I64(*x),
        W::F64(x) => JsValue::F64(f64::from_bits(*x)),
        W::True => JsValue::True,
        W::False => JsValue::False,
        W::Null => JsValue::Null,
        W::Undef => JsValue::Undefined,
        W::Vec(x) => JsValue::Vec(x.clone()),
        W::Str(x) => JsValue::String(x.clone()),
        W::List(x) => JsValue::List(x.iter().map(to_lib).collect()),
        W::Obj(x) => JsValue::Object(x.iter().map(|(k, v)| (k.clone(), to_lib(v))).collect::<HashMap<_, _>>()),
        W::Json(x) => JsValue::Json(j_to_lib(x)),
    }
}
pub fn j_to_lib(w: &J) -> JsJson {
    match w {
        J::True => JsJson::True,
        J::False => JsJson::False,
        J::Null => JsJson::Null,
        J::Str(x) => JsJson::String(x.clone()),
        J::Num(x) => JsJson::Number(f64::from_bits(*x)),
        J::List(x) => JsJson::List(x.iter().map(j_to_lib).collect()),
        J::Obj(x) => JsJson::Object(x.iter().map(|(k, v)| (k.clone(), j_to_lib(v))).collect::<HashMap<_, _>>()),
    }
}
pub fn from_lib(v: &JsValue) -> W {
    match v {
        JsValue::U32(x) => W::U32(*x),
        JsValue::I32(x) => W::I32(*x),
        JsValue::U64(x) => W::U64(*x),
        JsValue::I64(x) => W::I64(*x),
        JsValue::F64(x) => W::F64(x.to_bits()),
        JsValue::True => W::True,
        JsValue::False => W::False,
        JsValue::Null => W::Null,
        JsValue::Undefined => W::Undef,
        JsValue::Vec(x) => W::Vec(x.clone()),
        JsValue::String(x) => W::Str(x.clone()),
        JsValue::List(x) => W::List(x.iter().map(from_lib).collect()),
        JsValue::Object(x) => W::Obj(x.iter().map(|(k, v)| (k.clone(), from_lib(v))).collect()),
        JsValue::Json(x) => W::Json(j_from_lib(x)),
    }
}
pub fn j_from_lib(v: &JsJson) -> J {
    match v {
        JsJson::True => J::True,
        JsJson::False => J::False,
        JsJson::Null => J::Null,
        JsJson::String(x) => J::Str(x.clone()),
        JsJson::Number(x) => J::Num(x.to_bits()),
        JsJson::List(x) => J::List(x.iter().map(j_from_lib).collect()),
        JsJson::Object(x) => J::Obj(x.iter().map(|(k, v)| (k.clone(), j_from_lib(v))).collect()),
    }
}

fn es(s: &str, o: &mut Vec<u8>) {
    o.extend((s.len() as u32).to_be_bytes());
    o.extend(s.as_bytes());
}
/// what the JavaScript half writes for this value
pub fn encode(w: &W, o: &mut Vec<u8>) {
    match w {
        W::U32(x) => {
            o.push(1);
            o.extend(x.to_be_bytes())
        }
        W::I32(x) => {
            o.push(2);
            o.extend(x.to_be_bytes())
        }
        W::U64(x) => {
            o.push(3);
            o.extend(x.to_be_bytes())
        }
        W::I64(x) => {
            o.push(4);
            o.extend(x.to_be_bytes())
        }
        W::F64(x) => {
            o.push(5);
            o.extend(x.to_be_bytes())
        }
        W::True => o.push(6),
        W::False => o.push(7),
        W::Null => o.push(8),
        W::Undef => o.push(9),
        W::Vec(x) => {
            o.push(10);
            o.extend((x.len() as u32).to_be_bytes());
            o.extend(x)
        }
        W::Str(x) => {
            o.push(11);
            es(x, o)
        }
        W::List(x) => {
            o.push(12);
            o.extend((x.len() as u32).to_be_bytes());
            x.iter().for_each(|x| encode(x, o))
        }
        W::Obj(x) => {
            o.push(13);
            o.extend((x.len() as u16).to_be_bytes());
            for (k, v) in x {
                es(k, o);
                encode(v, o)
            }
        }
        W::Json(x) => {
            o.push(14);
            j_encode(x, o)
        }
    }
}
pub fn j_encode(w: &J, o: &mut Vec<u8>) {
    match w {
        J::True => o.push(1),
        J::False => o.push(2),
        J::Null => o.push(3),
        J::Str(x) => {
            o.push(4);
            es(x, o)
        }
        J::Num(x) => {
            o.push(5);
            o.extend(x.to_be_bytes())
        }
        J::List(x) => {
            o.push(6);
            o.extend((x.len() as u32).to_be_bytes());
            x.iter().for_each(|x| j_encode(x, o))
        }
        J::Obj(x) => {
            o.push(7);
            o.extend((x.len() as u16).to_be_bytes());
            for (k, v) in x {
                es(k, o);
                j_encode(v, o)
            }
        }
    }
}
pub fn bytes(w: &W) -> Vec<u8> {
    let mut o = vec![];
    encode(w, &mut o);
    o
}

pub const EDGE: [&str; 22] = ["0", "1", "-1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
    "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "72340172838076673", "4607182418800017408"];
pub const FLOATS: [u64; 12] = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0xfff8000000000000, 1, 0x0102030405060708, 0x4340000000000001, 0x7fefffffffffffff];
pub const STRS: [&str; 14] = ["", "a", "type", "zażółć", "日本", "🦀", "\u{0}", "\"<&>'", "a b", "\u{feff}x", "\r\n", "e\u{301}", "\u{10ffff}", "ß"];

pub fn gen_str(r: &mut Rng, big: bool) -> String {
    if big && r.chance(1, 60) {
        return format!("*{}", *r.pick(&[254u64, 255, 256, 257, 65535, 65536, 70000]));
    }
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        let t: &&str = r.pick(&STRS[..]);
        s += t;
    }
    hex(s.as_bytes())
}
pub fn gen_json(r: &mut Rng, depth: u32, o: &mut Vec<String>, big: bool) {
    let k = r.below(if depth == 0 { 5 } else { 8 });
    match k {
        0 => o.push("true".into()),
        1 => o.push("false".into()),
        2 => o.push("null".into()),
        3 => o.push(format!("f64 {}", if r.chance(1, 2) { *r.pick(&FLOATS) } else { r.next() })),
        4 => o.push(format!("str {}", gen_str(r, big))),
        5 => {
            let n = r.below(4);
            o.push(format!("list {n}"));
            (0..n).for_each(|_| gen_json(r, depth - 1, o, big))
        }
        _ => {
            let n = r.below(4);
            o.push(format!("obj {n}"));
            for _ in 0..n {
                o.push(format!("key {}", gen_str(r, big)));
                gen_json(r, depth - 1, o, big)
            }
        }
    }
}
pub fn gen_value(r: &mut Rng, depth: u32, o: &mut Vec<String>, big: bool) {
    let k = r.below(if depth == 0 { 11 } else { 17 });
    match k {
        0 | 1 | 2 | 3 => {
            let n = if r.chance(1, 2) { r.pick(&EDGE).to_string() } else { (r.next() as i64).to_string() };
            o.push(format!("{} {n}", ["u32", "i32", "u64", "i64"][k as usize]))
        }
        4 => o.push(format!("f64 {}", if r.chance(1, 2) { *r.pick(&FLOATS) } else { r.next() })),
        5 => o.push("true".into()),
        6 => o.push("false".into()),
        7 => o.push("null".into()),
        8 => o.push("undef".into()),
        9 => {
            let n = r.below(6);
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            o.push(format!("vec {}", if big && r.chance(1, 40) { format!("*{}", *r.pick(&[255u64, 256, 65535, 65536, 70001])) } else { hex(&b) }))
        }
        10 => o.push(format!("str {}", gen_str(r, big))),
        11 | 12 => {
            let n = r.below(5);
            o.push(format!("list {n}"));
            (0..n).for_each(|_| gen_value(r, depth - 1, o, big))
        }
        13 | 14 => {
            let n = r.below(4);
            o.push(format!("obj {n}"));
            for _ in 0..n {
                o.push(format!("key {}", gen_str(r, big)));
                gen_value(r, depth - 1, o, big)
            }
        }
        _ => {
            o.push("json".into());
            gen_json(r, depth - 1, o, big)
        }
    }
}

/// shared generator of C01 and C02
pub fn generate(cfg: &hx_core::Cfg, sink: &mut dyn FnMut(String) -> bool) {
    let mut fixed: Vec<String> = vec![];
    for t in ["u32", "i32", "u64", "i64"] {
        for e in EDGE {
            fixed.push(format!("{t} {e}"));
        }
    }
    for f in FLOATS {
        fixed.push(format!("f64 {f}"));
        fixed.push(format!("json\nf64 {f}"));
    }
    for s in ["true", "false", "null", "undef", "vec ", "vec 00", "list 0", "obj 0", "objn 1", "objn 255", "objn 256", "rep 255\nnull", "rep 256\nnull", "rep 65535\nnull", "rep 65536\nnull",
        "rep 65537\nu32 7", "objn 65535", "json\nobjn 65535", "json\nrep 65535\ntrue", "json\nrep 65536\ntrue", "json\nlist 0", "json\nobj 0", "json\ntrue", "json\nfalse", "json\nnull",
        "str *255", "str *256", "str *65535", "str *65536", "json\nstr *65536", "vec *255", "vec *256", "vec *65535", "vec *65536", "obj 1\nkey *65536\ntrue", "json\nobj 1\nkey *70000\ntrue"] {
        fixed.push(s.to_string());
    }
    for s in STRS {
        fixed.push(format!("str {}", hex(s.as_bytes())));
        fixed.push(format!("json\nstr {}", hex(s.as_bytes())));
        fixed.push(format!("obj 1\nkey {}\nu32 1", hex(s.as_bytes())));
        fixed.push(format!("json\nobj 1\nkey {}\nnull", hex(s.as_bytes())));
    }
    for d in [3usize, 30, 150] {
        fixed.push("list 1\n".repeat(d) + "u64 5");
        fixed.push("obj 1\nkey 61\n".repeat(d) + "u64 5");
        fixed.push("json\n".to_string() + &"list 1\n".repeat(d) + "true");
        fixed.push("json\n".to_string() + &"obj 1\nkey 61\n".repeat(d) + "true");
    }
    for f in fixed {
        if !sink(f) {
            return;
        }
    }
    let mut r = Rng::new(cfg.seed);
    let n = if cfg.thorough { 3_000_000 } else { 60_000 };
    for _ in 0..n {
        let mut o = vec![];
        let d = 1 + r.below(6) as u32;
        gen_value(&mut r, d, &mut o, true);
        if !sink(o.join("\n")) {
            return;
        }
    }
}
