//! Transitive dependants on arbitrary graphs, cycles included
use std::collections::{BTreeMap, BTreeSet};
use vertigo::verif_hooks::DependencyGraph;
use vertigo::GraphId;

fn check(input: &str) -> hx_core::Res {
    let n = input.split_whitespace().filter_map(|x| x.parse::<usize>().ok()).max().map(|x| x + 1).unwrap_or(0).clamp(40, 3000);
    let ids: Vec<GraphId> = (0..n)
        .map(|k| match k % 3 {
            0 => GraphId::new_value(),
            1 => GraphId::new_computed(),
            _ => GraphId::new_client(),
        })
        .collect();
    let num: BTreeMap<GraphId, usize> = ids.iter().enumerate().map(|(i, g)| (*g, i)).collect();
    let mut parents: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for l in input.lines() {
        let v: Vec<usize> = l.split(' ').filter_map(|x| x.parse().ok()).filter(|x| *x < n).collect();
        if v.len() == 2 {
            parents.entry(v[1]).or_default().insert(v[0]);
        }
    }
    let g = DependencyGraph::default();
    for (c, ps) in &parents {
        g.set_parents(ids[*c], ps.iter().map(|p| ids[*p]).collect());
    }
    let mut under: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (c, ps) in &parents {
        for p in ps {
            under.entry(*p).or_default().push(*c);
        }
    }
    let some = if n < 100 { 1 } else { n / 25 };
    for x in (0..n).filter(|x| x % some == 0 || *x < 3 || *x + 3 > n) {
        let mut want = BTreeSet::new();
        let mut todo = vec![x];
        while let Some(y) = todo.pop() {
            for c in under.get(&y).into_iter().flatten() {
                if want.insert(*c) {
                    todo.push(*c);
                }
            }
        }
        let got: BTreeSet<usize> = g.all_dependants(ids[x]).into_iter().map(|k| num[&k]).collect();
        if got != want {
            return Err(format!("the dependants of {x} are {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 6_000 };
            // long chains and a big cycle
            for len in [2u64, 10, 39, 65, 129, 257, 300, 1025] {
                let c: Vec<String> = (0..len).map(|i| format!("{} {}", i, i + 1)).collect();
                let d: Vec<String> = (0..len).map(|i| format!("{} {}", i + 1, i)).collect();
                let e: Vec<String> = (0..len).map(|i| format!("{} {}", i, (i + 1) % len)).collect();
                // many dependants of one node, and of two; a tree of eight branches
                let f: Vec<String> = (1..=len).map(|i| format!("0 {i}")).collect();
                let g: Vec<String> = (2..=len).flat_map(|i| [format!("{} {i}", i % 2), format!("{i} {}", len + 1)]).collect();
                let h: Vec<String> = (1..=len).map(|i| format!("{} {i}", (i - 1) / 8)).collect();
                if !sink(f.join("\n")) || !sink(g.join("\n")) || !sink(h.join("\n")) {
                    return;
                }
                if !sink(c.join("\n")) || !sink(d.join("\n")) || !sink(e.join("\n")) {
                    return;
                }
            }
            for _ in 0..n {
                let k = 2 + r.below(14);
                let m = r.below(2 * k + 1);
                let s: Vec<String> = (0..m).map(|_| format!("{} {}", r.below(k), r.below(k))).collect();
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
