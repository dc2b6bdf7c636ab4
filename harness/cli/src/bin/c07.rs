//! Attribute map against a list of pairs.  "s k v" sets, "r k" removes.
use hx_cli::html::ordered_map::OrderedMap;

fn check(input: &str) -> hx_core::Res {
    let mut m = OrderedMap::new();
    let mut model: Vec<(String, String)> = vec![];
    for l in input.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p.as_slice() {
            ["s", k, v] => {
                m.set(*k, *v);
                model.retain(|x| x.0 != *k);
                model.push((k.to_string(), v.to_string()));
            }
            ["r", k] => {
                m.remove(k);
                model.retain(|x| x.0 != *k);
            }
            _ => return hx_core::invalid(),
        }
        if m.get_iter() != model {
            return Err(format!("after `{l}` the map lists {:?}, expected {model:?}", m.get_iter()));
        }
        if m.clone().get_iter() != model {
            return Err(format!("after `{l}` a copy of the map lists {:?}, expected {model:?}", m.clone().get_iter()));
        }
    }
    Ok(())
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let keys = ["a", "b", "c", "data-id", "", "ą", "class"];
            let n = if cfg.thorough { 600_000 } else { 30_000 };
            // many keys, long keys and values
            for k in [9usize, 17, 33, 65, 130, 260] {
                let name = |i: usize| if i % 7 == 5 { format!("{}{i}", "long-".repeat(60)) } else { format!("k{i}") };
                let mut s: Vec<String> = (0..k).map(|i| format!("s {} {}", name(i), "v".repeat(i))).collect();
                s.extend((0..k).filter(|i| i % 3 == 0 || i + 2 > k).map(|i| format!("s {} {}", name(i), i + 1)));
                s.extend([0, k / 2, k - 1].map(|i| format!("r {}", name(i))));
                s.extend([0, k / 2, k - 1].map(|i| format!("s {} x", name(i))));
                s.extend((0..k).filter(|i| i % 2 == 0).map(|i| format!("r {}", name(i))));
                s.extend((0..k).rev().map(|i| format!("s {} {i}", name(i))));
                s.extend((0..k).map(|i| format!("r {}", name(i))));
                s.push("s a b".into());
                if !sink(s.join("\n")) {
                    return;
                }
            }
            for _ in 0..n {
                let mut s = vec![];
                let nk = 2 + r.below(6) as usize;
                for _ in 0..1 + r.below(20) {
                    let k = r.pick(&keys[..nk.min(keys.len())]);
                    if r.chance(1, 4) {
                        s.push(format!("r {k}"));
                    } else {
                        s.push(format!("s {k} {}", r.below(4)));
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
