//! Keyed lazy maps: "dep k a b .." says which keys the creation function of k reads, "get k" reads a key.
//! Each creation yields a value never seen before (but for the kinds "unit" and "same", given by a line "kind k").
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::AutoMap;

type Deps = BTreeMap<u32, Vec<u32>>;
struct Model {
    deps: Deps,
    map: BTreeMap<u32, u64>,
    next: u64,
}
impl Model {
    fn get(&mut self, k: u32) -> u64 {
        if let Some(v) = self.map.get(&k) {
            return *v;
        }
        for d in self.deps.get(&k).cloned().unwrap_or_default() {
            self.get(d);
        }
        self.next += 1;
        let v = self.next;
        self.map.insert(k, v);
        v
    }
}
trait Val: Clone + PartialEq + std::fmt::Debug + 'static {
    fn of(n: u64) -> Self;
}
impl Val for u64 {
    fn of(n: u64) -> Self {
        n
    }
}
impl Val for () {
    fn of(_: u64) -> Self {}
}
#[derive(Clone, PartialEq, Debug)]
struct Same(u8);
impl Val for Same {
    fn of(_: u64) -> Self {
        Same(7)
    }
}
impl Val for String {
    fn of(n: u64) -> Self {
        if n == 1 { String::new() } else { n.to_string() }
    }
}
impl Val for Option<u64> {
    fn of(n: u64) -> Self {
        (n > 1).then_some(n)
    }
}
impl Val for Result<Rc<u64>, String> {
    fn of(n: u64) -> Self {
        if n % 2 == 0 { Err(n.to_string()) } else { Ok(Rc::new(n)) }
    }
}
impl Val for Vec<[u64; 20]> {
    fn of(n: u64) -> Self {
        vec![[n; 20]; (n % 3) as usize + (n == 1) as usize]
    }
}
fn run<V: Val>(input: &str) -> hx_core::Res {
    let mut deps = Deps::new();
    let mut reads = vec![];
    for l in input.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let n: Vec<u32> = p[1..].iter().filter_map(|s| s.parse().ok()).collect();
        match (p[0], n.first()) {
            ("dep", Some(k)) => {
                // lower keys only: no recursion
                deps.insert(*k, n[1..].iter().copied().filter(|x| x < k).collect());
            }
            ("get", Some(k)) => reads.push(*k),
            ("kind", _) => {}
            _ => return hx_core::invalid(),
        }
    }
    let created: Rc<RefCell<Vec<u32>>> = Default::default();
    let next = Rc::new(Cell::new(0u64));
    let (c, n, d) = (created.clone(), next.clone(), deps.clone());
    let map: AutoMap<u32, V> = AutoMap::new(move |m: &AutoMap<u32, V>, k: &u32| {
        for x in d.get(k).cloned().unwrap_or_default() {
            m.get(&x);
        }
        c.borrow_mut().push(*k);
        n.set(n.get() + 1);
        V::of(n.get())
    });
    let copy = map.clone();
    let other: AutoMap<u32, V> = AutoMap::new(|_: &AutoMap<u32, V>, _: &u32| V::of(1));
    if map != copy || map == other {
        return Err("a map and its clone are equal, two maps are not".into());
    }
    let mut model = Model { deps, map: Default::default(), next: 0 };
    for (i, k) in reads.iter().enumerate() {
        let got = if i % 3 == 2 { copy.get(k) } else { map.get(k) };
        let want = V::of(model.get(*k));
        if got != want {
            return Err(format!("read number {i}, of key {k}, gave {got:?}, expected {want:?} (created so far: {:?})", created.borrow()));
        }
    }
    let mut c = created.borrow().clone();
    c.sort();
    if c.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("a key was created twice: {c:?}"));
    }
    Ok(())
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || match input.lines().find_map(|l| l.strip_prefix("kind ")).unwrap_or("") {
        "" => run::<u64>(&input),
        "unit" => run::<()>(&input),
        "same" => run::<Same>(&input),
        "string" => run::<String>(&input),
        "option" => run::<Option<u64>>(&input),
        "result" => run::<Result<Rc<u64>, String>>(&input),
        "vec" => run::<Vec<[u64; 20]>>(&input),
        _ => hx_core::invalid(),
    })
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            for n in [70u32, 300, 3000] {
                let s: Vec<String> = (0..2 * n).map(|i| format!("get {}", (i * 7919) % n)).collect();
                if !sink(s.join("\n")) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 4_000 };
            for _ in 0..n {
                let keys = 1 + r.below(12);
                let mut s = vec![];
                if r.chance(2, 3) {
                    s.push(format!("kind {}", r.pick(&["unit", "same", "string", "option", "result", "vec"])));
                }
                for k in 0..keys {
                    if r.chance(1, 2) {
                        let d: Vec<String> = (0..r.below(4)).map(|_| r.below(keys).to_string()).collect();
                        s.push(format!("dep {k} {}", d.join(" ")).trim_end().to_string());
                    }
                }
                for _ in 0..2 + r.below(20) {
                    s.push(format!("get {}", r.below(keys)));
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
