//! Typed argument decoding: every sequence of reads against the list itself
use hx_vertigo::wire::*;
use hx_vertigo::W;

const OPS: [&str; 11] = ["buffer", "u64", "u64n", "string", "u32", "any", "json", "bool", "vec", "vecu", "end"];

fn check(input: &str) -> hx_core::Res {
    let ops: Vec<&str> = input.lines().filter_map(|l| l.strip_prefix("op ")).collect();
    let val: String = input.lines().filter(|l| !l.starts_with("op ")).collect::<Vec<_>>().join("\n");
    let w = P::new(&val).value();
    let W::List(items) = w.clone() else {
        return match to_lib(&w).convert(|_d| Ok(())) {
            Err(_) => Ok(()),
            Ok(()) => Err("a value that is not a list was converted".into()),
        };
    };
    let mut bad: Option<String> = None;
    let mut called = false;
    let out = to_lib(&w).convert(|mut d| {
        called = true;
        let mut left: std::collections::VecDeque<W> = items.into();
        for op in &ops {
            if *op == "end" {
                let r = d.expect_no_more();
                if r.is_ok() != left.is_empty() {
                    bad = Some(format!("end-of-list check gives {r:?} with {} items left", left.len()));
                }
                return Ok(());
            }
            let x = left.pop_front();
            let show = |s: &W| format!("{s:?}").chars().take(100).collect::<String>();
            macro_rules! cmp {
                ($got:expr, $pat:pat => $want:expr) => {{
                    let want = match x.clone() {
                        Some($pat) => Some($want),
                        _ => None,
                    };
                    let got = $got.ok();
                    if got != want {
                        bad = Some(format!("reading {op} from {:?} gives {:?}, expected {:?}", x.as_ref().map(show), got.is_some(), want.is_some()));
                        return Ok(());
                    }
                }};
            }
            match *op {
                "buffer" => cmp!(d.get_buffer("x"), W::Vec(b) => b),
                "u64" => cmp!(d.get_u64("x"), W::U64(b) => b),
                "u64n" => {
                    let want = match &x {
                        Some(W::U64(v)) => Some(Some(*v)),
                        Some(W::Null) => Some(None),
                        _ => None,
                    };
                    if d.get_u64_or_null("x").ok() != want {
                        bad = Some(format!("nullable read from {:?}", x.as_ref().map(show)));
                        return Ok(());
                    }
                }
                "string" => cmp!(d.get_string("x"), W::Str(b) => b),
                "u32" => cmp!(d.get_u32("x"), W::U32(b) => b),
                "any" => cmp!(d.get_any("x").map(|v| from_lib(&v)), b => b),
                "json" => cmp!(d.get_json("x").map(|v| from_lib(&vertigo::JsValue::Json(v))), W::Json(b) => W::Json(b)),
                "bool" => {
                    let want = match &x {
                        Some(W::True) => Some(true),
                        Some(W::False) => Some(false),
                        _ => None,
                    };
                    if d.get_bool("x").ok() != want {
                        bad = Some(format!("boolean read from {:?}", x.as_ref().map(show)));
                        return Ok(());
                    }
                }
                "vec" => cmp!(d.get_vec("x", |v| Ok(from_lib(&v))), W::List(b) => b),
                "vecu" => {
                    let want = match &x {
                        Some(W::List(l)) if l.iter().all(|e| matches!(e, W::U32(_))) => Some(l.clone()),
                        _ => None,
                    };
                    let got = d.get_vec("x", |v| match v {
                        vertigo::JsValue::U32(n) => Ok(W::U32(n)),
                        _ => Err("no".to_string()),
                    });
                    if got.ok() != want {
                        bad = Some(format!("converting read from {:?}", x.as_ref().map(show)));
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
        // what remains is what was not read
        let mut rest = vec![];
        while let Ok(v) = d.get_any("x") {
            rest.push(from_lib(&v));
        }
        if rest != Vec::from(left) {
            bad = Some("items left behind differ".into());
        }
        Ok(())
    });
    if !called || out.is_err() {
        return Err("a list was not handed to the decoder".into());
    }
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let kinds = ["u32 7", "u32 4294967295", "i32 -1", "i32 5", "u64 9", "u64 18446744073709551615", "i64 5", "f64 4607182418800017408", "true", "false", "null", "undef", "vec 0102", "vec", "str 6162", "str",
                "list 0", "list 1\nu32 3", "list 2\nu32 3\nu32 4", "list 2\nu32 3\nstr 61", "list 2\nstr 61\nu32 3", "obj 0", "json null", "json true", "json str 61"];
            for op in OPS {
                for k in kinds {
                    let k = k.replace("json ", "json\n");
                    if !sink(format!("op {op}\nlist 1\n{k}")) || !sink(format!("op {op}\nop end\nlist 2\n{k}\nu32 5")) || !sink(format!("op {op}\nop end\nlist 1\n{k}")) || !sink(format!("op {op}\n{k}")) {
                        return;
                    }
                }
                if !sink(format!("op {op}\nlist 0")) {
                    return;
                }
            }
            // many reads of a long list
            for n in [7usize, 17, 33, 65, 130, 260, 300] {
                for (op, kind) in [("u32", "u32 7"), ("string", "str 6162"), ("any", "list 1\nu32 3"), ("bool", "true"), ("u64n", "null"), ("u64n", "u64 5")] {
                    for (reads, items, end) in [(n, n, "\nop end"), (n, n - 1, ""), (n - 1, n, "\nop end"), (n, n, "")] {
                        let s = format!("{}{end}\nlist {items}{}", vec![format!("op {op}"); reads].join("\n"), format!("\n{kind}").repeat(items));
                        if !sink(s) {
                            return;
                        }
                    }
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 2_000_000 } else { 60_000 };
            for _ in 0..n {
                let mut s = String::new();
                for _ in 0..r.below(6) {
                    s += &format!("op {}\n", r.pick(&OPS));
                }
                let c = r.below(6);
                s += &format!("list {c}");
                for _ in 0..c {
                    s += &format!("\n{}", r.pick(&kinds).replace("json ", "json\n"));
                }
                if !sink(s) {
                    return;
                }
            }
        },
        check,
    )
}
