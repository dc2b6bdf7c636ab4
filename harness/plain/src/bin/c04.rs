// Bounded stand-in and counterexample search for the ordered child list kept by the server-side renderer:
// the real element_children.rs against a plain Vec.
#![allow(dead_code, unused)]
#[path = "/repo/crates/vertigo-cli/src/serve/html/element_children.rs"]
mod element_children;
use element_children::ElementChildren;
use hx_core::*;

fn ins(v: &mut Vec<u64>, r: Option<u64>, x: u64) {
    v.retain(|e| *e != x);
    match r {
        Some(r) => {
            let i = v.iter().position(|e| *e == r).unwrap();
            v.insert(i, x);
        }
        None => v.push(x),
    }
}

// ops, one per line: "i - 5" append 5, "i 3 5" insert 5 before 3, "r 5" remove 5
fn check(input: &str) -> Res {
    let mut real = ElementChildren::new();
    let mut model: Vec<u64> = vec![];
    for l in input.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "i" => {
                let r: Option<u64> = p[1].parse().ok();
                let x: u64 = p[2].parse().unwrap();
                if r == Some(x) || r.map(|r| !model.contains(&r)).unwrap_or(false) {
                    return invalid();
                }
                real.insert_before(r, x);
                ins(&mut model, r, x);
            }
            "r" => {
                let x: u64 = p[1].parse().unwrap();
                real.remove(x);
                model.retain(|e| *e != x);
            }
            _ => return invalid(),
        }
        let got = real.childs();
        if got != model {
            return Err(format!("after `{l}` the children are {got:?}, expected {model:?}"));
        }
    }
    Ok(())
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            // exhaustive: all valid histories of length <= L over K ids
            let (k, len) = if cfg.thorough { (4u64, 6usize) } else { (4, 4) };
            let mut ops = vec![];
            for x in 1..=k {
                ops.push(format!("r {x}"));
                ops.push(format!("i - {x}"));
                for r in 1..=k {
                    if r != x {
                        ops.push(format!("i {r} {x}"));
                    }
                }
            }
            fn rec(ops: &[String], cur: &mut Vec<String>, model: &Vec<u64>, len: usize, sink: &mut dyn FnMut(String) -> bool) -> bool {
                if cur.len() == len {
                    return sink(cur.join("\n"));
                }
                for o in ops {
                    let p: Vec<&str> = o.split(' ').collect();
                    let mut m = model.clone();
                    if p[0] == "i" {
                        let r: Option<u64> = p[1].parse().ok();
                        if r.map(|r| !m.contains(&r)).unwrap_or(false) {
                            continue;
                        }
                        ins(&mut m, r, p[2].parse().unwrap());
                    } else {
                        let x: u64 = p[1].parse().unwrap();
                        if !m.contains(&x) {
                            continue;
                        }
                        m.retain(|e| *e != x);
                    }
                    cur.push(o.clone());
                    let go = rec(ops, cur, &m, len, sink);
                    cur.pop();
                    if !go {
                        return false;
                    }
                }
                true
            }
            if !rec(&ops, &mut vec![], &vec![], len, sink) {
                return;
            }
            // long lists, changed at both ends and in the middle; identifiers of every size
            for (k, big) in [(17u64, 0u64), (40, 1 << 32), (130, u64::MAX - 500), (300, 0)] {
                let id = |i: u64| big + i + 1;
                let mut a: Vec<String> = (0..k).map(|i| format!("i - {}", id(i))).collect();
                a.push(format!("i {} {}", id(0), id(k - 1)));
                a.push(format!("i {} {}", id(k / 2), id(0)));
                a.push(format!("i - {}", id(k / 2)));
                a.push(format!("i {} {}", id(1), id(2)));
                a.push(format!("i {} {}", id(k - 1), id(1)));
                a.extend((0..k).rev().filter(|i| i % 3 != 1).map(|i| format!("r {}", id(i))));
                a.extend((0..k).filter(|i| i % 3 == 1).map(|i| format!("r {}", id(i))));
                a.push(format!("i - {}", id(3)));
                // filled from the front, then turned around one by one
                let mut b: Vec<String> = vec![format!("i - {}", id(0))];
                b.extend((1..k).map(|i| format!("i {} {}", id(i - 1), id(i))));
                b.extend((0..k - 1).map(|i| format!("i {} {}", id(k - 1), id(i))));
                b.extend((0..k).map(|i| format!("r {}", id(i))));
                if !sink(a.join("\n")) || !sink(b.join("\n")) {
                    return;
                }
            }
            // random long histories
            let mut rng = Rng::new(cfg.seed);
            let n = if cfg.thorough { 20000 } else { 2000 };
            for _ in 0..n {
                let ids = 2 + rng.below(12);
                let mut m: Vec<u64> = vec![];
                let mut s = vec![];
                for _ in 0..(5 + rng.below(60)) {
                    let x = rng.below(ids) + 1;
                    if rng.chance(1, 4) {
                        s.push(format!("r {x}"));
                        m.retain(|e| *e != x);
                    } else if m.is_empty() || rng.chance(1, 3) {
                        s.push(format!("i - {x}"));
                        ins(&mut m, None, x);
                    } else {
                        let r = *rng.pick(&m);
                        if r != x {
                            s.push(format!("i {r} {x}"));
                            ins(&mut m, Some(r), x);
                        }
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    );
}
