//! Edge replacement against an edge-set model
use std::collections::{BTreeMap, BTreeSet};
use vertigo::verif_hooks::DependencyGraph;
use vertigo::GraphId;

fn cascade(edges: &mut BTreeSet<(usize, usize)>, client: usize, parents: &BTreeSet<usize>) {
    let mut removed: Vec<(usize, usize)> = edges.iter().filter(|(p, c)| *c == client && !parents.contains(p)).copied().collect();
    for p in parents {
        edges.insert((*p, client));
    }
    while let Some((p, c)) = removed.pop() {
        edges.remove(&(p, c));
        if !edges.iter().any(|(q, _)| *q == p) {
            removed.extend(edges.iter().filter(|(_, d)| *d == p).copied());
        }
    }
}
type Adj = BTreeMap<usize, Vec<usize>>;
fn adj(edges: &BTreeSet<(usize, usize)>) -> Adj {
    let mut a = Adj::new();
    for (p, c) in edges {
        a.entry(*p).or_default().push(*c);
    }
    a
}
fn reach(edges: &Adj, from: usize) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(x) = todo.pop() {
        for c in edges.get(&x).into_iter().flatten() {
            if out.insert(*c) {
                todo.push(*c);
            }
        }
    }
    out
}
// "set c p1 p2 .." with node numbers; numbers are mapped to identifiers of mixed kinds and order
fn check(input: &str) -> hx_core::Res {
    let top = input.split_whitespace().filter_map(|x| x.parse::<usize>().ok()).max().unwrap_or(0).min(2000);
    let n = if top < 12 { 12 } else { top + 1 + usize::from((top + 1) % 5 == 0) };
    let mut ids: Vec<Option<GraphId>> = vec![None; n];
    for i in 0..n {
        let k = (i * 5 + 3) % n;
        ids[k] = Some(match k % 3 {
            0 => GraphId::new_value(),
            1 => GraphId::new_computed(),
            _ => GraphId::new_client(),
        });
    }
    let ids: Vec<GraphId> = ids.into_iter().flatten().collect();
    let num: BTreeMap<GraphId, usize> = ids.iter().enumerate().map(|(i, g)| (*g, i)).collect();
    let g = DependencyGraph::default();
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for l in input.lines() {
        let v: Vec<usize> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).filter(|x| *x < n).collect();
        if v.is_empty() {
            return hx_core::invalid();
        }
        let client = v[0];
        let parents: BTreeSet<usize> = v[1..].iter().copied().collect();
        let mut trial = edges.clone();
        trial.retain(|e| e.1 != client);
        trial.extend(parents.iter().map(|p| (*p, client)));
        let trial = adj(&trial);
        if reach(&trial, client).contains(&client) {
            return hx_core::invalid();
        }
        let old = edges.clone();
        cascade(&mut edges, client, &parents);
        let got: BTreeMap<usize, bool> = g.set_parents(ids[client], parents.iter().map(|p| ids[*p]).collect()).into_iter().map(|(k, b)| (num[&k], b)).collect();
        let cl = |e: &BTreeSet<(usize, usize)>, p: usize| e.iter().filter(|x| x.0 == p).map(|x| x.1).collect::<BTreeSet<_>>();
        let want: BTreeMap<usize, bool> = (0..n).filter(|p| *p == client || cl(&old, *p) != cl(&edges, *p)).map(|p| (p, !cl(&edges, p).is_empty())).collect();
        if got != want {
            return Err(format!("after `{l}` the report is {got:?}, expected {want:?}"));
        }
        let e = adj(&edges);
        let some = if n < 100 { 1 } else { n / 20 };
        for x in (0..n).filter(|x| x % some == 0 || *x == client || *x + 1 == n) {
            let got: BTreeSet<usize> = g.all_dependants(ids[x]).into_iter().map(|k| num[&k]).collect();
            let want = reach(&e, x);
            if got != want {
                return Err(format!("after `{l}` the dependants of {x} are {got:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 500_000 } else { 12_000 };
            for k in [17usize, 33, 65, 129, 257, 300] {
                let range = |a: usize, b: usize| (a..b).map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                // one node with many sources, which are replaced one by one, by halves, by as many others
                let mut a = vec![format!("set {} {}", 2 * k, range(0, k))];
                a.push(format!("set {} {}", 2 * k, range(1, k + 1)));
                a.push(format!("set {} {}", 2 * k, range(k, 2 * k)));
                a.push(format!("set {} {}", 2 * k, range(k, 2 * k - 1)));
                a.push(format!("set {} {} {}", 2 * k, range(0, k / 2), range(k, k + k / 2)));
                a.push(format!("set {}", 2 * k));
                // one node with many dependants, which leave
                let mut b: Vec<String> = (1..=k).map(|c| format!("set {c} 0")).collect();
                b.extend((1..=k).filter(|c| c % (k / 8) < 2).map(|c| format!("set {c}")));
                b.extend((1..=k).rev().filter(|c| c % (k / 8) > 2).take(20).map(|c| format!("set {c}")));
                // a long chain, let go of at its end, and one with a branch in the middle
                let mut c: Vec<String> = (1..=k).map(|c| format!("set {c} {}", c - 1)).collect();
                let mut d = c.clone();
                c.push(format!("set {k}"));
                d.push(format!("set {} {}", k + 1, k / 2));
                d.push(format!("set {k}"));
                d.push(format!("set {}", k + 1));
                // everything under one node is let go of at once
                let mut e: Vec<String> = (1..=k).map(|c| format!("set {c} 0")).collect();
                e.push(format!("set {} {}", k + 1, range(1, k + 1)));
                e.push(format!("set {} {}", k + 1, k));
                e.push(format!("set {}", k + 1));
                for x in [a, b, c, d, e] {
                    if !sink(x.join("\n")) {
                        return;
                    }
                }
            }
            for _ in 0..n {
                let k = 3 + r.below(9);
                let mut s = vec![];
                for _ in 0..2 + r.below(14) {
                    let c = 1 + r.below(k - 1);
                    let mut ps = vec![];
                    for p in 0..c {
                        if r.chance(2, 5) {
                            ps.push(p.to_string());
                        }
                    }
                    s.push(format!("set {c} {}", ps.join(" ")).trim().to_string());
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
