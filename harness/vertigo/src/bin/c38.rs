//! Functions that wait: tasks against a host which only keeps timers.
//!   task K STEP*   a task is started. Its steps, each one noted when it is over:
//!      sN   it sleeps N milliseconds          bN   it waits for box N, and notes what it gets
//!      y    it wakes itself and waits once    Y    the same, waking itself twice, by a copy of its waker
//!      k    it keeps a copy of its waker      pN.V box N is given V by the task itself
//!      cK   it starts task K, which waits for nothing
//!      v    it changes two values             r    it waits for two boxes (0 and 1), whichever is first
//!   pub N V        box N is given V           wake K | wakeref K | lose K  the copies of the waker of task K are used up, used, dropped
//!   tick I         timer I (modulo) is due    run      timers are run, oldest first, at most 500
use hx_core::Rng;
use hx_vertigo::wire::bytes;
use hx_vertigo::{Rd, W};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use vertigo::{get_driver, Computed, FutureBox, FutureBoxSend, Value};

const BOXES: usize = 5;
#[derive(Default)]
struct Host {
    next: i32,
    timers: Vec<(i32, u32, u64)>,
    wrong: Option<String>,
}
type H = Rc<RefCell<Host>>;
fn host() -> H {
    let h: H = Default::default();
    let g = h.clone();
    vertigo::verif_hooks::set_host(move |b| {
        let mut h = g.borrow_mut();
        let Some(W::List(steps)) = (Rd { b, p: 0 }).w() else { return None };
        let Some(W::List(last)) = steps.last() else { return None };
        match &last[1..] {
            [W::Str(s), W::U32(ms), W::U64(id)] if s == "timeout_set" => {
                h.next += 1;
                let n = h.next;
                h.timers.push((n, *ms, *id));
                return Some(bytes(&W::I32(n)));
            }
            [W::Str(s), W::I32(n)] if s == "interval_clear" => h.timers.retain(|t| t.0 != *n),
            other => h.wrong = Some(format!("a message the host does not know: {other:?}")),
        }
        None
    });
    h
}
fn call(id: u64, w: &W) -> u64 {
    let p = vertigo::verif_hooks::stash(&bytes(w));
    vertigo::wasm_callback(id, p)
}
#[derive(Clone, PartialEq, Debug)]
enum Step {
    Sleep(u32),
    Wait(usize),
    Yield,
    Twice,
    Keep,
    Give(usize, i64),
    Start(u64),
    Change,
    First,
}
fn step(s: &str) -> Option<Step> {
    let mut c = s.chars();
    let k = c.next()?;
    let rest = c.as_str();
    let boxed = |s: &str| s.parse::<usize>().ok().filter(|n| *n < BOXES);
    Some(match k {
        's' => Step::Sleep(rest.parse().ok()?),
        'b' => Step::Wait(boxed(rest)?),
        'y' => Step::Yield,
        'Y' => Step::Twice,
        'k' => Step::Keep,
        'p' => {
            let (n, v) = rest.split_once('.')?;
            Step::Give(boxed(n)?, v.parse().ok()?)
        }
        'c' => Step::Start(rest.parse().ok()?),
        'v' => Step::Change,
        'r' => Step::First,
        _ => return None,
    })
}
type Log = Rc<RefCell<Vec<String>>>;
#[derive(Clone)]
struct World {
    log: Log,
    boxes: Rc<Vec<(FutureBoxSend<i64>, FutureBox<i64>)>>,
    wakers: Rc<RefCell<BTreeMap<u64, Vec<Waker>>>>,
    a: Value<i64>,
    b: Value<i64>,
}
struct End(Log, u64);
impl Drop for End {
    fn drop(&mut self) {
        self.0.borrow_mut().push(format!("end {}", self.1));
    }
}
struct Once(bool, u8);
impl Future for Once {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        if self.1 == 1 {
            cx.waker().wake_by_ref();
        } else {
            let w = cx.waker().clone();
            let v = w.clone();
            w.wake();
            v.wake_by_ref();
        }
        Poll::Pending
    }
}
struct Keep(World, u64);
impl Future for Keep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = cx.waker().clone();
        self.0.wakers.borrow_mut().entry(self.1).or_default().push(w);
        Poll::Ready(())
    }
}
struct First(FutureBox<i64>, FutureBox<i64>);
impl Future for First {
    type Output = (u8, i64);
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<(u8, i64)> {
        if let Poll::Ready(x) = Pin::new(&mut self.0).poll(cx) {
            return Poll::Ready((0, x));
        }
        match Pin::new(&mut self.1).poll(cx) {
            Poll::Ready(x) => Poll::Ready((1, x)),
            Poll::Pending => Poll::Pending,
        }
    }
}
async fn task(w: World, k: u64, steps: Vec<Step>) {
    let _end = End(w.log.clone(), k);
    w.log.borrow_mut().push(format!("start {k}"));
    for (i, s) in steps.into_iter().enumerate() {
        let mut more = String::new();
        match s {
            Step::Sleep(ms) => get_driver().sleep(ms).await,
            Step::Wait(n) => {
                let x = w.boxes[n].1.clone().await;
                more = format!(" {x}");
            }
            Step::Yield => Once(false, 1).await,
            Step::Twice => Once(false, 2).await,
            Step::Keep => Keep(w.clone(), k).await,
            Step::Give(n, v) => w.boxes[n].0.clone().publish(v),
            Step::Start(k) => {
                let l = w.log.clone();
                get_driver().spawn(async move {
                    l.borrow_mut().push(format!("started {k}"));
                });
            }
            Step::Change => {
                w.a.change(|x| *x += 1);
                w.b.change(|x| *x += 2);
            }
            Step::First => {
                let (n, x) = First(w.boxes[0].1.clone(), w.boxes[1].1.clone()).await;
                more = format!(" {n} {x}");
            }
        }
        w.log.borrow_mut().push(format!("{k} {i}{more}"));
    }
}
// what the statement says, run
#[derive(Default)]
struct Place {
    value: Option<i64>,
    who: Option<usize>,
}
impl Place {
    fn publish(&mut self, v: i64, due: &mut Vec<Due>) {
        self.value = Some(v);
        if let Some(t) = self.who.take() {
            due.push(Due::Run(t));
        }
    }
    fn poll(&mut self, by: usize) -> Option<i64> {
        let v = self.value.take();
        if v.is_none() {
            self.who = Some(by);
        }
        v
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Due {
    Run(usize),
    Sleep(u32, usize),
}
struct Task {
    k: u64,
    steps: Vec<Step>,
    pc: usize,
    begun: bool,
    waits: bool,
    sleep: Option<usize>,
    over: bool,
}
#[derive(Default)]
struct Model {
    tasks: Vec<Task>,
    due: Vec<Due>,
    boxes: [Place; BOXES],
    // of the sleeping ones
    sleeps: Vec<Place>,
    kept: BTreeMap<u64, Vec<usize>>,
    sum: i64,
    want: Vec<String>,
}
impl Model {
    fn spawn(&mut self, k: u64, steps: Vec<Step>) {
        self.tasks.push(Task { k, steps, pc: 0, begun: false, waits: false, sleep: None, over: false });
        self.due.push(Due::Run(self.tasks.len() - 1));
    }
    fn run(&mut self, t: usize) {
        if self.tasks[t].over {
            return;
        }
        let k = self.tasks[t].k;
        if self.tasks[t].steps == [Step::Start(u64::MAX)] {
            self.want.push(format!("started {k}"));
            self.tasks[t].over = true;
            return;
        }
        if !self.tasks[t].begun {
            self.tasks[t].begun = true;
            self.want.push(format!("start {k}"));
        }
        let sum = self.sum;
        while let Some(s) = self.tasks[t].steps.get(self.tasks[t].pc).cloned() {
            let mut more = String::new();
            match s {
                Step::Sleep(ms) => {
                    let i = match self.tasks[t].sleep {
                        Some(i) => i,
                        None => {
                            self.sleeps.push(Place::default());
                            let i = self.sleeps.len() - 1;
                            self.due.push(Due::Sleep(ms, i));
                            self.tasks[t].sleep = Some(i);
                            i
                        }
                    };
                    if self.sleeps[i].poll(t).is_none() {
                        break;
                    }
                    self.tasks[t].sleep = None;
                }
                Step::Wait(n) => match self.boxes[n].poll(t) {
                    Some(x) => more = format!(" {x}"),
                    None => break,
                },
                Step::Yield | Step::Twice => {
                    let w = &mut self.tasks[t].waits;
                    *w = !*w;
                    if *w {
                        self.due.push(Due::Run(t));
                        if s == Step::Twice {
                            self.due.push(Due::Run(t));
                        }
                        break;
                    }
                }
                Step::Keep => self.kept.entry(k).or_default().push(t),
                Step::Give(n, v) => self.boxes[n].publish(v, &mut self.due),
                Step::Start(k) => self.spawn(k, vec![Step::Start(u64::MAX)]),
                Step::Change => self.sum += 3,
                Step::First => match self.boxes[0].poll(t).map(|x| (0, x)).or_else(|| self.boxes[1].poll(t).map(|x| (1, x))) {
                    Some((n, x)) => more = format!(" {n} {x}"),
                    None => break,
                },
            }
            let pc = self.tasks[t].pc;
            self.want.push(format!("{k} {pc}{more}"));
            self.tasks[t].pc += 1;
        }
        if self.tasks[t].pc == self.tasks[t].steps.len() {
            self.tasks[t].over = true;
            self.want.push(format!("end {k}"));
        }
        if sum != self.sum {
            self.want.push(format!("sum {}", self.sum));
        }
    }
    fn tick(&mut self, i: usize) {
        match self.due.remove(i) {
            Due::Run(t) => self.run(t),
            Due::Sleep(_, i) => self.sleeps[i].publish(0, &mut self.due),
        }
    }
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || run(&input))
}
fn run(input: &str) -> hx_core::Res {
    let h = host();
    let w = World {
        log: Default::default(),
        boxes: Rc::new((0..BOXES).map(|_| FutureBox::new()).collect()),
        wakers: Default::default(),
        a: Value::new(0),
        b: Value::new(0),
    };
    let (a, b) = (w.a.to_computed(), w.b.to_computed());
    let sum = Computed::from(move |c| a.get(c) + b.get(c));
    let l2 = w.log.clone();
    let first = std::cell::Cell::new(true);
    let _sum = sum.subscribe(move |n| {
        if !first.replace(false) {
            l2.borrow_mut().push(format!("sum {n}"))
        }
    });
    let mut m = Model::default();
    let mut used: BTreeSet<u64> = Default::default();
    for (at, l) in input.lines().enumerate() {
        let p: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| p.get(i).and_then(|s| s.parse::<u64>().ok());
        let k = n(1).unwrap_or(0);
        let fail = |m: String| Err(format!("line {} ({l}): {m}", at + 1));
        let mut ticks = vec![];
        match p[0] {
            "task" => {
                let steps: Option<Vec<Step>> = p[2.min(p.len())..].iter().map(|s| step(s)).collect();
                let Some(steps) = steps else { return hx_core::invalid() };
                if n(1).is_none() || m.due.len() > 200 || m.tasks.len() > 400 {
                    return hx_core::invalid();
                }
                get_driver().spawn(task(w.clone(), k, steps.clone()));
                m.spawn(k, steps);
            }
            "pub" => {
                let Some(v) = p.get(2).and_then(|s| s.parse::<i64>().ok()) else { return hx_core::invalid() };
                if k as usize >= BOXES {
                    return hx_core::invalid();
                }
                w.boxes[k as usize].0.publish(v);
                m.boxes[k as usize].publish(v, &mut m.due);
            }
            "wake" | "wakeref" | "lose" => {
                let real = w.wakers.borrow_mut().remove(&k).unwrap_or_default();
                let kept = m.kept.remove(&k).unwrap_or_default();
                if real.len() != kept.len() {
                    return fail(format!("there are {} wakers, expected {}", real.len(), kept.len()));
                }
                for (r, t) in real.into_iter().zip(kept) {
                    match p[0] {
                        "wake" => r.wake(),
                        "wakeref" => {
                            r.wake_by_ref();
                            w.wakers.borrow_mut().entry(k).or_default().push(r.clone());
                            m.kept.entry(k).or_default().push(t);
                        }
                        _ => drop(r),
                    }
                    if p[0] != "lose" {
                        m.due.push(Due::Run(t));
                    }
                }
            }
            "tick" if !m.due.is_empty() => ticks.push(k as usize),
            "tick" => {}
            "run" => ticks = vec![0; 500],
            _ => return hx_core::invalid(),
        }
        for i in ticks {
            if m.due.is_empty() {
                break;
            }
            let i = i % m.due.len();
            let timers = h.borrow().timers.len();
            if timers != m.due.len() {
                return fail(format!("there are {timers} timers, expected {:?} (task numbers as started)", m.due));
            }
            let t = h.borrow_mut().timers.remove(i);
            if !used.insert(t.2) {
                return fail(format!("the number {} was used before", t.2));
            }
            m.tick(i);
            if call(t.2, &W::Undef) != 0 {
                return fail("the timer got an answer".into());
            }
        }
        let got: Vec<String> = w.log.borrow_mut().drain(..).collect();
        let want: Vec<String> = m.want.drain(..).collect();
        if got != want {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return fail(format!("what happened is {:?}, expected {:?} (after {i} others)", &got[i..], &want[i..]));
        }
        if let Some(w) = h.borrow_mut().wrong.take() {
            return fail(w);
        }
        let have: Vec<u32> = h.borrow().timers.iter().map(|t| t.1).collect();
        let need: Vec<u32> = m.due.iter().map(|d| if let Due::Sleep(ms, _) = d { *ms } else { 0 }).collect();
        if have != need {
            return fail(format!("the timers are {have:?}, expected {need:?}"));
        }
    }
    Ok(())
}
fn steps(r: &mut Rng) -> String {
    (0..r.below(6))
        .map(|_| match r.below(12) {
            0 | 1 => format!(" s{}", if r.below(6) == 0 { u32::MAX as u64 } else { r.below(300) }),
            2..=4 => format!(" b{}", r.below(BOXES as u64)),
            5 => " y".into(),
            6 => " Y".into(),
            7 => " k".into(),
            8 => format!(" p{}.{}", r.below(BOXES as u64), r.below(9)),
            9 => format!(" c{}", 100 + r.below(9)),
            10 => " v".into(),
            _ => " r".into(),
        })
        .collect()
}
fn history(r: &mut Rng, thorough: bool) -> String {
    let mut out = vec![];
    for _ in 0..(3 + r.below(if thorough { 90 } else { 40 })) {
        out.push(match r.below(14) {
            0..=2 => format!("task {}{}", r.below(8), steps(r)),
            3..=5 => format!("pub {} {}", r.below(BOXES as u64), r.below(1000)),
            6 => format!("wake {}", r.below(8)),
            7 => format!("wakeref {}", r.below(8)),
            8 => format!("lose {}", r.below(8)),
            9 => "run".to_string(),
            _ => format!("tick {}", r.below(30)),
        });
    }
    out.push("run".into());
    out.join("\n")
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let fixed = [
                "task 0\ntick 0\ntick 0".to_string(),
                "task 0 b0 b0\ntick 0\npub 0 1\ntick 0\npub 0 2\npub 0 3\nrun\ntask 1 b0\nrun".to_string(),
                "pub 0 1\npub 0 2\ntask 0 b0\ntask 1 b0\nrun\npub 0 4\nrun".to_string(),
                "task 0 k Y k\nrun\nwakeref 0\nrun\nwake 0\nrun\nlose 0".to_string(),
                "task 0 k b1\nrun\nwakeref 0\nrun\nwakeref 0\npub 1 3\nrun\nwake 0\nrun".to_string(),
                "task 0 v s5 v v p0.1 c9\ntask 1 b0 v\nrun".to_string(),
                "task 0 r r\nrun\npub 1 1\nrun\npub 0 2\npub 1 3\nrun\ntask 1 b1\nrun".to_string(),
                format!("task 0{}\nrun", " y".repeat(400)),
                format!("task 0{}{}\nrun", " b0".repeat(60), "\nrun\npub 0 1\nrun".repeat(60)),
                format!("{}run\npub 0 1\nrun", (0..100).map(|i| format!("task {i} b0 p0.{i}\n")).collect::<String>()),
                format!("task 0{} b0\nrun\nwakeref 0\nrun\nwake 0\nrun\npub 0 1\nrun", " k".repeat(100)),
            ];
            for f in fixed {
                if !sink(f) {
                    return;
                }
            }
            let mut r = Rng::new(cfg.seed);
            for _ in 0..(if cfg.thorough { 80_000 } else { 6_000 }) {
                if !sink(history(&mut r, cfg.thorough)) {
                    return;
                }
            }
        },
        check,
    )
}
