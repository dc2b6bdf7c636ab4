//! Event emitters: histories of adding and releasing listeners and of triggering, also from inside listeners.
//! "add L act" adds listener L; act, done each time L is called: "-", "add M" (once), "drop M", "trig" (nested, to a depth), "self".
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::verif_hooks::EventEmitter;
use vertigo::DropResource;

#[derive(Clone, PartialEq)]
enum Act {
    None,
    Add(u32),
    Drop(u32),
    Trig,
}
type Calls = Vec<(u32, u32)>;
#[derive(Default)]
struct World {
    handles: BTreeMap<u32, DropResource>,
    used: Vec<u32>,
    calls: Calls,
    depth: u32,
}
type Wo = Rc<RefCell<World>>;
fn add(e: &EventEmitter<u32>, w: &Wo, l: u32, act: Act) {
    if w.borrow().used.contains(&l) {
        return;
    }
    w.borrow_mut().used.push(l);
    let (e2, w2) = (e.clone(), Rc::downgrade(w));
    let h = e.add(move |v| {
        let Some(w) = w2.upgrade() else { return };
        w.borrow_mut().calls.push((l, v));
        match act {
            Act::None => {}
            Act::Add(m) => add(&e2, &w, m, Act::None),
            Act::Drop(m) => {
                let h = w.borrow_mut().handles.remove(&m);
                drop(h);
            }
            Act::Trig => {
                if w.borrow().depth < 3 {
                    w.borrow_mut().depth += 1;
                    e2.trigger(v + 1000);
                    w.borrow_mut().depth -= 1;
                }
            }
        }
    });
    w.borrow_mut().handles.insert(l, h);
}
// the contract, run
#[derive(Default)]
struct Model {
    list: Vec<(u32, Act)>,
    used: Vec<u32>,
    calls: Calls,
    depth: u32,
}
impl Model {
    fn add(&mut self, l: u32, act: Act) {
        if !self.used.contains(&l) {
            self.used.push(l);
            self.list.push((l, act));
        }
    }
    fn trigger(&mut self, v: u32) {
        for (l, act) in self.list.clone() {
            self.calls.push((l, v));
            match act {
                Act::None => {}
                Act::Add(m) => self.add(m, Act::None),
                Act::Drop(m) => self.list.retain(|x| x.0 != m),
                Act::Trig => {
                    if self.depth < 3 {
                        self.depth += 1;
                        self.trigger(v + 1000);
                        self.depth -= 1;
                    }
                }
            }
        }
    }
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let e: EventEmitter<u32> = EventEmitter::default();
        let w: Wo = Default::default();
        let mut m = Model::default();
        for l in input.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| p.get(i).and_then(|s| s.parse::<u32>().ok());
            match (p[0], n(1)) {
                ("add", Some(k)) => {
                    let act = match (p.get(2).copied(), n(3)) {
                        (Some("add"), Some(x)) => Act::Add(x),
                        (Some("drop"), Some(x)) => Act::Drop(x),
                        (Some("self"), _) => Act::Drop(k),
                        (Some("trig"), _) => Act::Trig,
                        _ => Act::None,
                    };
                    add(&e, &w, k, act.clone());
                    m.add(k, act);
                }
                ("drop", Some(k)) => {
                    let h = w.borrow_mut().handles.remove(&k);
                    drop(h);
                    m.list.retain(|x| x.0 != k);
                }
                ("trig", Some(v)) => {
                    e.clone().trigger(v);
                    m.trigger(v);
                }
                _ => return hx_core::invalid(),
            }
            let got = std::mem::take(&mut w.borrow_mut().calls);
            let want = std::mem::take(&mut m.calls);
            if got != want {
                return Err(format!("at `{l}` the listeners were called {:?}, expected {:?}", &got[..got.len().min(40)], &want[..want.len().min(40)]));
            }
        }
        Ok(())
    })
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            for n in [40, 300, 1500] {
                let s: Vec<String> = (0..n).map(|i| format!("add {i}")).collect();
                let d: Vec<String> = (0..n).filter(|i| i % 3 == 1).map(|i| format!("drop {i}")).collect();
                if !sink(format!("{}\ntrig 1\n{}\ntrig 2\nadd 9000\ntrig 3", s.join("\n"), d.join("\n"))) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 4_000 };
            for _ in 0..n {
                let mut s = vec![];
                let (mut trigs, mut next) = (0, 0);
                for _ in 0..4 + r.below(26) {
                    match r.below(8) {
                        0..=3 => {
                            let act = match r.below(9) {
                                0 => format!("add {}", 100 + r.below(20)),
                                1 | 2 => format!("drop {}", r.below(next + 3)),
                                3 => "self".into(),
                                4 if trigs < 2 => {
                                    trigs += 1;
                                    "trig".into()
                                }
                                _ => "-".into(),
                            };
                            s.push(format!("add {next} {act}"));
                            next += 1;
                        }
                        4 => s.push(format!("drop {}", if r.chance(1, 4) { 100 + r.below(20) } else { r.below(next + 1) })),
                        _ => s.push(format!("trig {}", r.below(100))),
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
