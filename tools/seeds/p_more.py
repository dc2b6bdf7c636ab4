import os, importlib.util
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(__file__), n + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m
B = _load("b_core")
L = _load("h_lazy")
RES = "crates/vertigo/src/fetch/resource.rs"
RB = "crates/vertigo/src/fetch/request_builder.rs"
TS = "crates/vertigo/src/computed/dependencies/transaction_state.rs"
GCN = "crates/vertigo/src/computed/dependencies/graph_connections.rs"
SEEDS = [
 dict(id="resource-errors-all-equal", prop="C19",
  edits=[(RES, """            (Resource::Error(message1), Resource::Error(message2)) => message1.eq(message2),
""", """            (Resource::Error(_), Resource::Error(_)) => true,
""")],
  needs="a cached answer that is refused once, and refused again for another reason", breaks="who watches the cache goes on showing the first reason",
  deps=L.DEPS, main=L.LAZY + '''fn main() {
    let a: Resource<i64> = Resource::Error("the name is taken".to_string());
    let b: Resource<i64> = Resource::Error("the name is too long".to_string());
    assert!(a == a.clone() && b == b.clone());
    let _ = js();
    let v = vertigo::Value::new(a);
    let shown: Rc<RefCell<Vec<String>>> = Default::default();
    let s = shown.clone();
    let _drop = v.to_computed().subscribe(move |r| s.borrow_mut().push(match r { Resource::Error(e) => e, _ => "?".to_string() }));
    v.set(b);
    assert_eq!(*shown.borrow(), ["the name is taken", "the name is too long"]);
}
'''),
 dict(id="transaction-depth-in-a-byte", prop="C11",
  edits=[(TS, "        level: u16, // current transaction level\n", "        level: u8, // current transaction level\n"),
         (TS, "                    level += 1;\n", "                    level = level.wrapping_add(1);\n"),
         (TS, "                    level -= 1;\n", "                    level = level.wrapping_sub(1);\n")],
  needs="a transaction 257 deep inside others", breaks="the subscribers see the change in the middle of the outermost transaction",
  deps=L.DEPS, main=B.HOST + '''use vertigo::{transaction, Value};
fn nest(n: usize, a: &Value<i32>, b: &Value<i32>) {
    transaction(|_| {
        a.set(n as i32);
        if n > 0 { nest(n - 1, a, b); }
        b.set(n as i32);
    });
}
fn main() {
    let _ = host();
    let (a, b) = (Value::new(-1), Value::new(-1));
    let seen: Rc<RefCell<Vec<(i32, i32)>>> = Default::default();
    let s = seen.clone();
    let both = vertigo::Computed::from({ let (a, b) = (a.clone(), b.clone()); move |c| (a.get(c), b.get(c)) });
    let _drop = both.subscribe(move |p| s.borrow_mut().push(p));
    let (x, y) = (a.clone(), b.clone());
    std::thread::scope(|_| ());
    nest(300, &x, &y);
    assert_eq!(*seen.borrow(), [(-1, -1), (0, 300)]);
}
'''),
 dict(id="edges-unchanged-when-as-many", prop="C08",
  edits=[(GCN, "        let mut edge_on: Vec<UpdateConnection> = new_parents", """        // a long list that is as long as before is the same list
        if new_parents.len() > 8 && new_parents.len() == prev_parents.len() {
            return Vec::new();
        }

        let mut edge_on: Vec<UpdateConnection> = new_parents""")],
  needs="a computed value over more than eight sources that exchanges one source for another", breaks="a change of the source it turned to is not seen",
  deps=L.DEPS, main=B.HOST + '''use vertigo::{Computed, Value};
fn main() {
    let _ = host();
    let all: Vec<Value<i32>> = (0..12).map(Value::new).collect();
    let turn = Value::new(false);
    let sum = Computed::from({ let (all, turn) = (all.clone(), turn.clone()); move |c| {
        let from = if turn.get(c) { 1 } else { 0 };
        all[from..from + 11].iter().map(|v| v.get(c)).sum::<i32>()
    } });
    let seen: Rc<RefCell<Vec<i32>>> = Default::default();
    let s = seen.clone();
    let _drop = sum.subscribe(move |n| s.borrow_mut().push(n));
    turn.set(true);
    all[11].set(100);
    assert_eq!(*seen.borrow(), [55, 66, 155]);
}
'''),
]
