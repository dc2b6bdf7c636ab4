//! Random networks of values, computed values and subscribers against a model that recomputes everything.
//!
//! Program text, one step per line:
//!   v n                value with contents n            w n      value with a connection function
//!   c +1 ?2 +3 ~2      computed: steps over earlier nodes; +i adds node i, ?i reads i and skips the next step when odd,
//!                      ~k reduces modulo k, *i multiplies
//!   m i k              node i mapped to its value modulo k        x i      computed value made out of node i
//!   k n                computed value made out of the number n    q i j    are nodes i and j equal (they are if they are one)
//!   ids n              n values and computed values, all different
//!   set i n | cmp i n | chg i n     writes (rset, rchg: through Reactive)   get i   read in a transaction of its own (or the open one)
//!   sub i | all i                   subscribe / subscribe_all, handles are numbered in order
//!   subd i h                        subscribe; every call drops handle h
//!   subs i j                        subscribe; the first call subscribes to j as well
//!   subt i                          subscribe; every call made during a refresh tries to start a transaction
//!   drop h                          drop a handle
//!   ( | )                           open / close a transaction
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;
use vertigo::{get_driver, transaction, Computed, Context, DropResource, Reactive, ToComputed, Value};

#[derive(Clone, Debug)]
pub enum Step {
    Add(usize),
    Skip(usize),
    Mod(i64),
    Mul(usize),
    Num(i64),
}
#[derive(Clone)]
enum Node {
    V(Value<i64>),
    W(Computed<i64>, Rc<RefCell<Option<Value<i64>>>>),
    C(Computed<i64>, Vec<Step>),
}
fn eval(steps: &[Step], read: &mut dyn FnMut(usize) -> i64) -> i64 {
    let mut acc = 0i64;
    let mut i = 0;
    while i < steps.len() {
        match steps[i] {
            Step::Add(n) => acc = acc.wrapping_add(read(n)),
            Step::Mul(n) => acc = acc.wrapping_mul(read(n)),
            Step::Num(n) => acc = acc.wrapping_add(n),
            Step::Mod(k) => acc = acc.rem_euclid(k),
            Step::Skip(n) => {
                if read(n) & 1 == 1 {
                    i += 1;
                }
            }
        }
        i += 1;
    }
    acc
}
fn read_node(n: &Node, ctx: &Context) -> i64 {
    match n {
        Node::V(v) => v.get(ctx),
        Node::W(c, _) => c.get(ctx),
        Node::C(c, _) => c.get(ctx),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Call(usize, i64),
    Dropped(usize),
    Sub(usize, usize), // new handle, node
    HookFired,
    TxRefused,
    TxAllowed,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    All,
    Dropping(usize),
    Spawning(usize),
    Tx,
}
struct Sub {
    node: usize,
    kind: Kind,
    last: i64,
    reads: BTreeSet<usize>,
    live: bool,
    spawned: bool,
}
pub struct Checks {
    pub stale: bool,
    pub tx: bool,
    pub notify: bool,
    pub connect: bool,
}

struct World {
    nodes: Vec<Node>,
    vals: Vec<i64>,
    /// connections open per w node
    open: Vec<Rc<Cell<i64>>>,
    twice: Rc<Cell<bool>>,
    handles: Rc<RefCell<Vec<Option<DropResource>>>>,
    log: Rc<RefCell<Vec<Ev>>>,
    shared: Rc<RefCell<Vec<Node>>>,
    in_refresh: Rc<Cell<bool>>,
}
impl World {
    fn model(&self, n: usize, reads: &mut BTreeSet<usize>) -> i64 {
        match &self.nodes[n] {
            Node::C(_, steps) => eval(steps, &mut |i| self.model(i, reads)),
            _ => {
                reads.insert(n);
                self.vals[n]
            }
        }
    }
    fn value(&self, n: usize) -> i64 {
        self.model(n, &mut BTreeSet::new())
    }
}
fn subscribe(
    nodes: &Rc<RefCell<Vec<Node>>>,
    handles: &Rc<RefCell<Vec<Option<DropResource>>>>,
    log: &Rc<RefCell<Vec<Ev>>>,
    in_refresh: &Rc<Cell<bool>>,
    node: usize,
    kind: Kind,
) -> usize {
    let h = {
        let mut hs = handles.borrow_mut();
        hs.push(None);
        hs.len() - 1
    };
    log.borrow_mut().push(Ev::Sub(h, node));
    let comp = match &nodes.borrow()[node] {
        Node::V(v) => v.to_computed(),
        Node::W(c, _) => c.clone(),
        Node::C(c, _) => c.clone(),
    };
    let (nodes2, handles2, log2, ir) = (nodes.clone(), handles.clone(), log.clone(), in_refresh.clone());
    let spawned = Cell::new(false);
    let call = move |x: i64| {
        log2.borrow_mut().push(Ev::Call(h, x));
        match kind {
            Kind::Plain | Kind::All => {}
            Kind::Dropping(k) => {
                let d = handles2.borrow_mut().get_mut(k).and_then(|d| d.take());
                if d.is_some() {
                    drop(d);
                    log2.borrow_mut().push(Ev::Dropped(k));
                }
            }
            Kind::Spawning(j) => {
                if !spawned.replace(true) {
                    subscribe(&nodes2, &handles2, &log2, &ir, j, Kind::Plain);
                }
            }
            Kind::Tx => {
                if ir.get() {
                    let r = hx_core::caught(|| transaction(|_| ()));
                    log2.borrow_mut().push(if r.is_err() { Ev::TxRefused } else { Ev::TxAllowed });
                }
            }
        }
    };
    let d = if kind == Kind::All { comp.subscribe_all(call) } else { comp.subscribe(call) };
    handles.borrow_mut()[h] = Some(d);
    h
}

pub fn run(input: &str, ck: &Checks) -> hx_core::Res {
    let mut w = World {
        nodes: vec![],
        vals: vec![],
        open: vec![],
        twice: Rc::new(Cell::new(false)),
        handles: Default::default(),
        log: Default::default(),
        shared: Default::default(),
        in_refresh: Rc::new(Cell::new(false)),
    };
    let lines: Vec<Vec<String>> = input.lines().map(|l| l.split(' ').map(String::from).collect()).collect();
    let log = w.log.clone();
    let hook = get_driver().on_after_transaction(move || log.borrow_mut().push(Ev::HookFired));
    let mut subs: Vec<Sub> = vec![];
    let mut touched: BTreeSet<usize> = BTreeSet::new();
    let mut pos = 0;
    while pos < lines.len() {
        let (next, wrote) = step(&mut w, &lines, pos, None, ck, &mut subs, &mut touched)?;
        pos = next;
        let evs: Vec<Ev> = w.log.borrow_mut().drain(..).collect();
        settle(&mut w, &mut subs, &mut touched, wrote, evs, ck).map_err(|m| format!("line {pos}: {m}"))?;
        touched.clear();
    }
    drop(hook);
    // nothing after the handles are gone
    let hs: Vec<Option<DropResource>> = w.handles.borrow_mut().drain(..).collect();
    drop(hs);
    if ck.connect && w.open.iter().any(|o| o.get() != 0) {
        return Err("a connection is open although nothing observes the value".into());
    }
    let leak = w.shared.borrow_mut().drain(..).collect::<Vec<_>>();
    drop(leak);
    Ok(())
}

/// checks the events of one outermost step
fn settle(w: &mut World, subs: &mut Vec<Sub>, touched: &mut BTreeSet<usize>, wrote: bool, evs: Vec<Ev>, ck: &Checks) -> hx_core::Res {
    let hooks = evs.iter().filter(|e| **e == Ev::HookFired).count();
    if ck.tx {
        if hooks != usize::from(wrote) {
            return Err(format!("the end-of-transaction hook ran {hooks} times"));
        }
        if wrote && evs.last() != Some(&Ev::HookFired) {
            return Err("something ran after the end-of-transaction hook".into());
        }
        if evs.iter().any(|e| *e == Ev::TxAllowed) {
            return Err("a transaction was started while the dependants were being refreshed".into());
        }
    }
    let old: Vec<(i64, BTreeSet<usize>)> = subs.iter().map(|s| (s.last, s.reads.clone())).collect();
    let n0 = subs.len();
    let mut dropped: BTreeSet<usize> = BTreeSet::new();
    let mut calls: Vec<Vec<i64>> = vec![vec![]; subs.len()];
    for e in &evs {
        match e {
            Ev::Sub(h, node) => {
                while calls.len() <= *h {
                    calls.push(vec![]);
                }
                if subs.len() <= *h {
                    // subscribed from inside a callback
                    subs.push(Sub { node: *node, kind: Kind::Plain, last: 0, reads: BTreeSet::new(), live: true, spawned: false });
                }
            }
            Ev::Call(h, x) => {
                while calls.len() <= *h {
                    calls.push(vec![]);
                }
                if dropped.contains(h) || subs.get(*h).map(|s| !s.live).unwrap_or(false) {
                    if ck.notify {
                        return Err(format!("subscriber {h} was called after its handle was dropped"));
                    }
                }
                calls[*h].push(*x);
            }
            Ev::Dropped(h) => {
                dropped.insert(*h);
            }
            _ => {}
        }
    }
    for h in 0..subs.len() {
        let fresh = h >= n0;
        let was_live = subs[h].live;
        if !was_live {
            continue;
        }
        let (node, kind) = (subs[h].node, subs[h].kind);
        let mut reads = BTreeSet::new();
        let now = w.model(node, &mut reads);
        let c = &calls[h];
        let gone = dropped.contains(&h);
        let affected = fresh || old[h].1.iter().any(|x| touched.contains(x));
        let want: Option<i64> = if kind == Kind::All {
            affected.then_some(now)
        } else if fresh || old[h].0 != now {
            Some(now)
        } else {
            None
        };
        if ck.stale {
            for x in c {
                if *x != now {
                    return Err(format!("subscriber {h} of node {node} received {x}, its value is {now}"));
                }
            }
            if !gone && kind != Kind::All && !fresh && old[h].0 != now && c.is_empty() {
                return Err(format!("subscriber {h} of node {node} still has {}, its value is {now}", old[h].0));
            }
        }
        if ck.tx && c.len() > 1 {
            return Err(format!("subscriber {h} was refreshed {} times in one transaction", c.len()));
        }
        if ck.tx && !gone && kind == Kind::All && affected && c.is_empty() {
            return Err(format!("subscriber {h} was affected and not refreshed"));
        }
        if ck.notify {
            let ok = match want {
                Some(v) => c.as_slice() == [v] || (gone && c.is_empty()),
                None => c.is_empty(),
            };
            if !ok {
                return Err(format!("subscriber {h} of node {node} was called with {c:?}, expected {want:?} (last {:?})", old.get(h).map(|o| o.0)));
            }
        }
        subs[h].last = now;
        subs[h].reads = reads;
        if gone {
            subs[h].live = false;
        }
    }
    if ck.connect {
        check_connect(w, subs)?;
    }
    Ok(())
}
fn check_connect(w: &World, subs: &[Sub]) -> hx_core::Res {
    if w.twice.get() {
        return Err("a value was connected while it was already connected".into());
    }
    let mut want: BTreeSet<usize> = BTreeSet::new();
    for s in subs.iter().filter(|s| s.live) {
        w.model(s.node, &mut want);
    }
    let mut k = 0;
    for (i, n) in w.nodes.iter().enumerate() {
        if let Node::W(..) = n {
            let o = w.open[k].get();
            k += 1;
            if o != i64::from(want.contains(&i)) {
                return Err(format!("node {i} has {o} open connections, observed: {}", want.contains(&i)));
            }
        }
    }
    Ok(())
}

/// executes one step, gives the next position and whether a transaction ended
fn step(
    w: &mut World,
    lines: &[Vec<String>],
    pos: usize,
    ctx: Option<&Context>,
    ck: &Checks,
    subs: &mut Vec<Sub>,
    touched: &mut BTreeSet<usize>,
) -> Result<(usize, bool), String> {
    let inv = || hx_core::INVALID.to_string();
    let l = &lines[pos];
    let arg = |k: usize| -> Result<i64, String> { l.get(k).and_then(|s| s.parse::<i64>().ok()).ok_or_else(inv) };
    let node = |w: &World, k: usize| -> Result<usize, String> {
        let i = arg(k)?;
        if i < 0 || i as usize >= w.nodes.len() {
            return Err(inv());
        }
        Ok(i as usize)
    };
    match l[0].as_str() {
        "v" | "w" => {
            let n = arg(1)?;
            let nd = if l[0] == "v" {
                Node::V(Value::new(n))
            } else {
                let cell: Rc<RefCell<Option<Value<i64>>>> = Default::default();
                let open = Rc::new(Cell::new(0i64));
                w.open.push(open.clone());
                let (c2, tw) = (cell.clone(), w.twice.clone());
                let comp = Value::with_connect(n, move |v: &Value<i64>| {
                    *c2.borrow_mut() = Some(v.clone());
                    open.set(open.get() + 1);
                    if open.get() > 1 {
                        tw.set(true);
                    }
                    let o = open.clone();
                    DropResource::new(move || o.set(o.get() - 1))
                });
                Node::W(comp, cell)
            };
            w.nodes.push(nd.clone());
            w.shared.borrow_mut().push(nd);
            w.vals.push(n);
            Ok((pos + 1, false))
        }
        "c" => {
            let mut steps = vec![];
            for s in &l[1..] {
                let k: i64 = s.get(1..).and_then(|x| x.parse().ok()).ok_or_else(inv)?;
                let is_ref = !s.starts_with('~');
                if k < 0 || (is_ref && k as usize >= w.nodes.len()) || (!is_ref && k < 1) {
                    return Err(inv());
                }
                steps.push(match &s[..1] {
                    "+" => Step::Add(k as usize),
                    "?" => Step::Skip(k as usize),
                    "*" => Step::Mul(k as usize),
                    "~" => Step::Mod(k),
                    _ => return Err(inv()),
                });
            }
            let nodes = w.nodes.clone();
            let st = steps.clone();
            let comp = Computed::from(move |ctx: &Context| eval(&st, &mut |i| read_node(&nodes[i], ctx)));
            let nd = Node::C(comp, steps);
            w.nodes.push(nd.clone());
            w.shared.borrow_mut().push(nd);
            w.vals.push(0);
            Ok((pos + 1, false))
        }
        "m" | "x" | "k" => {
            let (comp, steps) = if l[0] == "k" {
                let n = arg(1)?;
                (if n & 1 == 0 { <Computed<i64> as From<i64>>::from(n) } else { <Computed<i64> as From<&i64>>::from(&n) }, vec![Step::Num(n)])
            } else {
                let i = node(w, 1)?;
                if l[0] == "x" {
                    let c = match &w.nodes[i] {
                        Node::V(v) if i % 3 == 0 => <Computed<i64> as From<Value<i64>>>::from(v.clone()),
                        Node::V(v) if i % 3 == 1 => ToComputed::to_computed(v),
                        Node::V(v) => ToComputed::to_computed(&v),
                        Node::W(c, _) => ToComputed::to_computed(c),
                        Node::C(c, _) => ToComputed::to_computed(&c),
                    };
                    (c, vec![Step::Add(i)])
                } else {
                    let k = arg(2)?;
                    if k < 1 {
                        return Err(inv());
                    }
                    let f = move |x: i64| x.rem_euclid(k);
                    let c = match &w.nodes[i] {
                        Node::V(v) => v.map(f),
                        Node::W(c, _) | Node::C(c, _) => c.map(f),
                    };
                    (c, vec![Step::Add(i), Step::Mod(k)])
                }
            };
            let nd = Node::C(comp, steps);
            w.nodes.push(nd.clone());
            w.shared.borrow_mut().push(nd);
            w.vals.push(0);
            Ok((pos + 1, false))
        }
        "ids" => {
            // every value, computed value and subscriber has a number of its own
            let n = arg(1)?;
            let mut seen = std::collections::HashSet::new();
            let v = Value::new(0i64);
            for i in 0..n.min(300_000) {
                let id = match i % 3 {
                    0 => Value::new(i).id(),
                    1 => v.to_computed().id(),
                    _ => v.map(|x| x + 1).get_id(),
                };
                if ck.stale && !seen.insert(id) {
                    return Err(format!("line {}: {id:?} is given out twice", pos + 1));
                }
            }
            Ok((pos + 1, false))
        }
        "q" => {
            let (i, j) = (node(w, 1)?, node(w, 2)?);
            let comp = |i: usize| match &w.nodes[i] {
                Node::V(_) => None,
                Node::W(c, _) | Node::C(c, _) => Some(c.clone()),
            };
            let same = match (&w.nodes[i], &w.nodes[j]) {
                (Node::V(a), Node::V(b)) => *a == *b,
                _ => match (comp(i), comp(j)) {
                    (Some(a), Some(b)) => a == b,
                    _ => i == j,
                },
            };
            let one = i == j || comp(i).zip(comp(j)).map(|(a, b)| a.id() == b.id()).unwrap_or(false);
            if ck.stale && same != one {
                return Err(format!("line {}: nodes {i} and {j} are {}equal", pos + 1, if same { "" } else { "not " }));
            }
            Ok((pos + 1, false))
        }
        "set" | "cmp" | "chg" | "rset" | "rchg" => {
            let i = node(w, 1)?;
            let n = arg(2)?;
            let v = match &w.nodes[i] {
                Node::V(v) => v.clone(),
                Node::W(_, c) => c.borrow().clone().ok_or_else(inv)?,
                _ => return Err(inv()),
            };
            let before = w.vals[i];
            // inside a refresh nothing is written; the flag tells the callbacks that a refresh may be running
            let outer = ctx.is_none();
            match l[0].as_str() {
                "set" | "rset" => {
                    w.vals[i] = n;
                    touched.insert(i);
                    w.in_refresh.set(outer);
                    if l[0] == "set" {
                        v.set(n);
                    } else {
                        Reactive::set(&v, n);
                    }
                }
                "cmp" => {
                    if before != n {
                        w.vals[i] = n;
                        touched.insert(i);
                    }
                    w.in_refresh.set(outer);
                    v.set_value_and_compare(n);
                }
                _ => {
                    w.vals[i] = before.wrapping_add(n);
                    touched.insert(i);
                    w.in_refresh.set(outer);
                    if l[0] == "chg" {
                        v.change(|x| *x = x.wrapping_add(n));
                    } else {
                        Reactive::change(&v, |x: &mut i64| *x = x.wrapping_add(n));
                    }
                }
            }
            w.in_refresh.set(false);
            Ok((pos + 1, true))
        }
        "get" => {
            let i = node(w, 1)?;
            let got = match ctx {
                Some(ctx) => read_node(&w.nodes[i], ctx),
                None => transaction(|ctx| read_node(&w.nodes[i], ctx)),
            };
            let want = w.value(i);
            if ck.stale && got != want {
                return Err(format!("line {}: node {i} reads {got}, its value is {want}", pos + 1));
            }
            Ok((pos + 1, ctx.is_none()))
        }
        "sub" | "all" | "subd" | "subs" | "subt" => {
            let i = node(w, 1)?;
            let kind = match l[0].as_str() {
                "sub" => Kind::Plain,
                "all" => Kind::All,
                "subd" => Kind::Dropping(arg(2)? as usize),
                "subs" => Kind::Spawning(node(w, 2)?),
                _ => Kind::Tx,
            };
            if ctx.is_some() || (kind == Kind::Tx && subs.iter().any(|s| s.kind == Kind::Tx)) {
                return Err(inv());
            }
            let h = w.handles.borrow().len();
            let mut reads = BTreeSet::new();
            let now = w.model(i, &mut reads);
            if let Kind::Dropping(k) = kind {
                if k == h {
                    return Err(inv());
                }
            }
            let hh = subscribe(&w.shared, &w.handles, &w.log, &w.in_refresh, i, kind);
            assert!(hh == h);
            let evs: Vec<Ev> = w.log.borrow_mut().drain(..).collect();
            let calls: Vec<i64> = evs.iter().filter_map(|e| if let Ev::Call(k, x) = e { (*k == h).then_some(*x) } else { None }).collect();
            if (ck.notify || ck.stale) && calls != [now] {
                return Err(format!("line {}: subscribing to node {i} called back with {calls:?}, its value is {now}", pos + 1));
            }
            subs.push(Sub { node: i, kind, last: now, reads, live: true, spawned: false });
            // whatever the first call did to others
            for e in evs {
                if let Ev::Dropped(k) = e {
                    if let Some(s) = subs.get_mut(k) {
                        s.live = false;
                    }
                }
                if let Ev::Sub(k, nd) = e {
                    if k != h {
                        let mut reads = BTreeSet::new();
                        let now = w.model(nd, &mut reads);
                        subs.push(Sub { node: nd, kind: Kind::Plain, last: now, reads, live: true, spawned: true });
                    }
                }
            }
            Ok((pos + 1, false))
        }
        "drop" => {
            let h = arg(1)? as usize;
            let d = w.handles.borrow_mut().get_mut(h).and_then(|d| d.take());
            if d.is_none() {
                return Err(inv());
            }
            drop(d);
            if let Some(s) = subs.get_mut(h) {
                s.live = false;
            }
            Ok((pos + 1, false))
        }
        "(" => {
            let mut p = pos + 1;
            w.in_refresh.set(false);
            let outer = ctx.is_none();
            let ir = w.in_refresh.clone();
            let r: Result<usize, String> = transaction(|ctx| {
                loop {
                    if p >= lines.len() {
                        return Err(hx_core::INVALID.to_string());
                    }
                    if lines[p][0] == ")" {
                        break;
                    }
                    p = step(w, lines, p, Some(ctx), ck, subs, touched)?.0;
                    let log = w.log.borrow();
                    if ck.tx && !log.is_empty() {
                        return Err(format!("line {}: {:?} happened before the end of the transaction", p, log[0]));
                    }
                }
                ir.set(outer);
                Ok(p + 1)
            });
            w.in_refresh.set(false);
            Ok((r?, true))
        }
        _ => Err(inv()),
    }
}

pub fn generate(r: &mut hx_core::Rng, connect: bool, tx: bool) -> String {
    let mut out: Vec<String> = vec![];
    let mut kinds: Vec<char> = vec![];
    let nv = 1 + r.below(4);
    let big = r.chance(1, 12);
    for _ in 0..nv {
        let k = if connect && r.chance(1, 2) { 'w' } else { 'v' };
        out.push(format!("{k} {}", r.below(4)));
        kinds.push(k);
    }
    let computed = |r: &mut hx_core::Rng, n: u64| -> String {
        let m = 1 + r.below(5);
        let mut s = vec!["c".to_string()];
        for _ in 0..m {
            // prefer recent nodes: deeper networks
            let i = if r.chance(1, 2) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
            s.push(match r.below(6) {
                0 | 1 => format!("?{i}"),
                2 if r.chance(1, 2) => format!("~{}", 1 + r.below(4)),
                3 if r.chance(1, 3) => format!("*{i}"),
                _ => format!("+{i}"),
            });
        }
        s.join(" ")
    };
    let nc = 1 + r.below(if big { 16 } else { 6 });
    for _ in 0..nc {
        let n = kinds.len() as u64;
        out.push(match r.below(14) {
            0 => format!("x {}", r.below(n)),
            1 | 2 => format!("m {} {}", r.below(n), 1 + r.below(3)),
            3 if r.chance(1, 2) => format!("k {}", r.below(5)),
            _ => computed(r, n),
        });
        kinds.push('c');
    }
    let mut handles: Vec<(u64, bool)> = vec![];
    let mut nh = 0u64;
    let mut depth = 0;
    let used_tx = r.chance(1, 2);
    let ops = 3 + r.below(if big { 40 } else { 18 });
    for _ in 0..ops {
        let n = kinds.len() as u64;
        let wr = |r: &mut hx_core::Rng| -> Option<u64> {
            let vs: Vec<u64> = (0..n).filter(|i| kinds[*i as usize] == 'v').collect();
            if vs.is_empty() {
                None
            } else {
                Some(*r.pick(&vs))
            }
        };
        match r.below(12) {
            0..=3 => {
                if let Some(i) = wr(r) {
                    let op = *r.pick(&["set", "set", "cmp", "chg", "set", "cmp", "chg", "rset", "rchg"]);
                    out.push(format!("{op} {i} {}", r.below(4)));
                }
            }
            4 if r.chance(1, 8) => out.push(format!("q {} {}", r.below(n), r.below(n))),
            4 | 5 if !connect => out.push(format!("get {}", r.below(n))),
            6 | 7 | 8 if depth == 0 => {
                let i = if r.chance(2, 3) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
                match r.below(if tx { 10 } else { 9 }) {
                    0..=3 => out.push(format!("sub {i}")),
                    4..=6 => out.push(format!("all {i}")),
                    7 if nh > 0 => out.push(format!("subd {i} {}", r.below(nh))),
                    8 => {
                        // handle numbers after this one are no longer predictable: plain subscription at the end only
                        out.push(format!("sub {i}"))
                    }
                    9 if used_tx && !out.iter().any(|l| l.starts_with("subt")) => out.push(format!("subt {i}")),
                    _ => out.push(format!("sub {i}")),
                }
                handles.push((nh, true));
                nh += 1;
            }
            9 if !handles.is_empty() => {
                let k = r.below(handles.len() as u64) as usize;
                out.push(format!("drop {}", handles[k].0));
                handles.remove(k);
            }
            10 => {
                if depth < 4 {
                    out.push("(".into());
                    depth += 1;
                }
            }
            11 => {
                if depth > 0 {
                    out.push(")".into());
                    depth -= 1;
                } else if r.chance(1, 3) {
                    out.push(computed(r, n));
                    kinds.push('c');
                }
            }
            _ => {}
        }
    }
    for _ in 0..depth {
        out.push(")".into());
    }
    if r.chance(1, 8) {
        out.push(format!("subs {} {}", r.below(kinds.len() as u64), r.below(kinds.len() as u64)));
        for _ in 0..r.below(4) {
            out.push(format!("set 0 {}", r.below(4)));
        }
    }
    out.join("\n")
}

/// networks and histories of some hundred nodes, subscribers, writes and levels
fn large(connect: bool) -> Vec<String> {
    let v = if connect { "w" } else { "v" };
    let mut out = vec![vec!["ids 140000".to_string()]];
    for k in [17i64, 65, 130, 260, 300] {
        // many subscribers of one value, directly and through computed values of their own
        for own in [false, true] {
            let mut a = vec![format!("{v} 1")];
            if own {
                a.extend((0..k).map(|_| "c +0 +0".to_string()));
            }
            a.extend((0..k).map(|i| format!("{} {}", if i % 3 == 2 { "all" } else { "sub" }, if own { i + 1 } else { 0 })));
            if !connect {
                a.extend(["set 0 2", "set 0 2", "(", "chg 0 3", "cmp 0 5", ")"].map(String::from));
            }
            a.extend((0..k - 1).filter(|i| i % 2 == 0).map(|i| format!("drop {i}")));
            if !connect {
                a.extend(["set 0 7", "cmp 0 7"].map(String::from));
            }
            a.extend((0..k - 1).filter(|i| i % 2 == 1).map(|i| format!("drop {i}")));
            a.push(format!("drop {}", k - 1));
            out.push(a);
        }
        // one computed value over many values, and one which leaves all of them when the first is odd
        let mut a: Vec<String> = vec!["v 0".into()];
        a.extend((1..=k).map(|i| format!("{v} {i}")));
        a.push(format!("c {}", (1..=k).map(|i| format!("+{i}")).collect::<Vec<_>>().join(" ")));
        a.push(format!("c ?0 +{}", k + 1));
        a.extend([format!("sub {}", k + 2), "set 0 1".into(), "set 0 2".into(), format!("sub {}", k + 1), "set 0 3".into()]);
        if !connect {
            a.extend([1, 2, k / 2, k - 1, k].map(|i| format!("set {i} 1000")));
            a.push("(".into());
            a.extend((1..=k).map(|i| format!("chg {i} 1")));
            a.push(")".into());
        }
        a.extend(["drop 1".into(), "set 0 4".into(), "set 0 5".into(), "drop 0".to_string()]);
        out.push(a);
        // a long chain
        let mut a = vec!["v 0".to_string(), format!("{v} 1")];
        a.push("c ?0 +1".into());
        a.extend((3..k + 3).map(|i| format!("c +{}", i - 1)));
        a.extend([format!("sub {}", k + 2), "set 0 1".into(), "set 0 2".into(), format!("sub {}", k / 2), "drop 0".into(), format!("all {}", k + 1), "set 0 3".into()]);
        if !connect {
            a.extend(["set 1 5", "set 0 4", "set 1 6", "cmp 1 6"].map(String::from));
        }
        a.extend(["drop 1", "set 0 5", "set 0 6", "drop 2", "set 0 8"].map(String::from));
        out.push(a);
        // many transactions in each other, and many after each other
        let mut a: Vec<String> = ["v 0", "v 1", "c +0 +1", "sub 2", "all 2", "sub 0"].map(String::from).to_vec();
        a.extend((0..k).map(|_| "(".to_string()));
        a.push("set 0 3".into());
        a.extend((0..k - 1).map(|i| if i % 7 == 3 { format!(")\nset 1 {i}") } else { ")".into() }));
        a.extend(["set 1 9", ")", "set 0 4"].map(String::from));
        a.extend((0..2 * k).map(|i| format!("set {} {}", i % 2, i)));
        out.push(a);
    }
    out.into_iter().map(|a| a.join("\n")).collect()
}

pub fn main(ck: fn() -> Checks, quick: u64, thorough: u64) {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { thorough } else { quick };
            let c = ck();
            for p in large(c.connect) {
                if !sink(p) {
                    return;
                }
            }
            for _ in 0..n {
                if !sink(generate(&mut r, c.connect, c.tx)) {
                    return;
                }
            }
        },
        move |input| {
            let s = input.to_string();
            hx_core::isolated(move || run(&s, &ck()))
        },
    )
}
