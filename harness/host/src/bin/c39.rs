//! Memory handed over between the two sides, on the compiled library, with every allocation watched.
//! Steps, one per line: `a V` room is asked for and V written there; `g i` the i-th is taken; `f i` it is given back;
//! `c i V` it is passed to a function which answers V; `z V` nothing is passed; `q N` N bytes are asked for and given
//! back unwritten; `s V` V is encoded and let go; `b N` N bytes go through a block; `h V` the server stores and reads V;
//! `t TEXT` the server reads a text; `o N K` bytes are written past a block of N.
use hx_host::data_context::DataContext;
use hx_host::serve::request_state::RequestState;
use hx_vertigo::{watch, wire, Rd, W};
use std::cell::RefCell;
use std::rc::Rc;
use vertigo::{verif_hooks, JsValue, MemoryBlock};

enum Op {
    A(W),
    G(usize),
    F(usize),
    C(usize, W),
    Z(W),
    Q(u32),
    S(W),
    B(usize),
    H(W),
    T(String),
    O(u32, u32),
}
fn parse(input: &str) -> Option<Vec<Op>> {
    let mut l = Vec::new();
    for line in input.lines() {
        let (op, rest) = line.split_once(' ')?;
        let val = |s: &str| {
            let s = s.replace(';', "\n");
            let mut p = wire::P::new(&s);
            let w = p.value();
            p.done().then_some(w)
        };
        l.push(match op {
            "a" => Op::A(val(rest)?),
            "g" => Op::G(rest.parse().ok()?),
            "f" => Op::F(rest.parse().ok()?),
            "c" => {
                let (i, v) = rest.split_once(' ')?;
                Op::C(i.parse().ok()?, val(v)?)
            }
            "z" => Op::Z(val(rest)?),
            "q" => Op::Q(rest.parse().ok().filter(|n| *n > 0)?),
            "s" => Op::S(val(rest)?),
            "b" => Op::B(rest.parse().ok().filter(|n| *n > 0)?),
            "h" => Op::H(val(rest)?),
            "t" => Op::T(rest.to_string()),
            "o" => {
                let (n, k) = rest.split_once(' ')?;
                let (n, k): (u32, u32) = (n.parse().ok()?, k.parse().ok()?);
                if n == 0 || k == 0 || n > 1 << 20 || k > 1 << 20 {
                    return None;
                }
                Op::O(n, k)
            }
            _ => return None,
        });
    }
    Some(l)
}
struct Slot {
    ptr: u32,
    bytes: Vec<u8>,
    w: W,
}
fn at(ptr: u32, n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(ptr as usize as *const u8, n) }
}
fn take(ptr: u32, want: &JsValue, what: &str) -> hx_core::Res {
    let got = verif_hooks::handed_over(ptr);
    if wire::from_lib(&got) != wire::from_lib(want) {
        return Err(format!("{what} is not what was written there"));
    }
    if verif_hooks::handed_over(ptr) != JsValue::Undefined {
        return Err(format!("{what} can be read again"));
    }
    Ok(())
}
fn answer(r: u64, want: &W) -> hx_core::Res {
    if *want == W::Undef {
        return if r == 0 { Ok(()) } else { Err(format!("no answer is given as {r:#x}")) };
    }
    let (ptr, size) = ((r >> 32) as u32, (r & 0xffff_ffff) as usize);
    if ptr == 0 || size == 0 {
        return Err(format!("the answer is given as {r:#x}"));
    }
    // a wrong pointer must not be followed
    if !(0x1000_0000..0xf000_0000).contains(&ptr) || size != wire::bytes(want).len() {
        return Err(format!("the answer is said to be {size} bytes at {ptr:#x}, and takes {} bytes", wire::bytes(want).len()));
    }
    // copied in one go to memory of another size class (memory given back too early may be what is allocated next)
    let mut b: Vec<u8> = Vec::with_capacity(4 * size + 4096);
    unsafe {
        std::ptr::copy(ptr as usize as *const u8, b.as_mut_ptr(), size);
        b.set_len(size);
    }
    let mut rd = Rd { b: &b, p: 0 };
    if rd.w().as_ref() != Some(want) || rd.p != size {
        return Err("the answer's memory does not hold the answer".into());
    }
    verif_hooks::free(ptr);
    if verif_hooks::handed_over(ptr) != JsValue::Undefined {
        return Err("the answer is still there after its memory was given back".into());
    }
    Ok(())
}
fn run(ops: &[Op]) -> hx_core::Res {
    let mut slots: Vec<Slot> = Vec::new();
    let told = Rc::new(RefCell::new(Vec::new()));
    let reply = Rc::new(RefCell::new(JsValue::Undefined));
    let (t, r) = (told.clone(), reply.clone());
    let (id, _keep) = verif_hooks::register(move |v| {
        t.borrow_mut().push(v);
        r.borrow().clone()
    });
    for (n, op) in ops.iter().enumerate() {
        match op {
            Op::A(w) => {
                let bytes = wire::bytes(w);
                let ptr = verif_hooks::alloc(bytes.len() as u32);
                if ptr == 0 {
                    return Err("no room is given".into());
                }
                for s in &slots {
                    if (ptr as usize) < s.ptr as usize + s.bytes.len() && (s.ptr as usize) < ptr as usize + bytes.len() {
                        return Err("the room given overlaps what was given before".into());
                    }
                }
                unsafe { std::ptr::copy(bytes.as_ptr(), ptr as usize as *mut u8, bytes.len()) };
                slots.push(Slot { ptr, bytes, w: w.clone() });
            }
            Op::G(i) if !slots.is_empty() => {
                let s = slots.remove(i % slots.len());
                take(s.ptr, &wire::to_lib(&s.w), "the value handed over")?;
            }
            Op::F(i) if !slots.is_empty() => {
                let s = slots.remove(i % slots.len());
                verif_hooks::free(s.ptr);
                if verif_hooks::handed_over(s.ptr) != JsValue::Undefined {
                    return Err("what was given back can still be read".into());
                }
            }
            Op::C(i, w) if !slots.is_empty() => {
                let s = slots.remove(i % slots.len());
                *reply.borrow_mut() = wire::to_lib(w);
                let r = vertigo::wasm_callback(id, s.ptr);
                let got: Vec<W> = told.borrow_mut().drain(..).map(|v| wire::from_lib(&v)).collect();
                if got != [s.w.clone()] {
                    return Err(format!("the function is called {} times, or not with what was handed over", got.len()));
                }
                answer(r, w)?;
                if verif_hooks::handed_over(s.ptr) != JsValue::Undefined {
                    return Err("what a function was called with can be read again".into());
                }
            }
            Op::Z(w) => {
                *reply.borrow_mut() = wire::to_lib(w);
                let r = vertigo::wasm_callback(id, 0);
                let got: Vec<W> = told.borrow_mut().drain(..).map(|v| wire::from_lib(&v)).collect();
                if got != [W::Undef] {
                    return Err("a function called with nothing is not called once with nothing".into());
                }
                answer(r, w)?;
            }
            Op::Q(n) => {
                let ptr = verif_hooks::alloc(*n);
                unsafe { std::ptr::write_bytes(ptr as usize as *mut u8, 7, *n as usize) };
                verif_hooks::free(ptr);
                verif_hooks::free(ptr);
            }
            Op::S(w) => {
                let b = wire::to_lib(w).to_snapshot();
                let (ptr, size) = b.get_ptr_and_size();
                if size as usize != wire::bytes(w).len() || ptr != b.get_ptr() {
                    return Err("the size of an encoding is not the size of its memory".into());
                }
                let there = at(ptr, size as usize).to_vec();
                if n % 2 == 0 {
                    if b.convert_to_vec() != there {
                        return Err("the bytes of a block are not those at its address".into());
                    }
                } else {
                    drop(b);
                }
            }
            Op::B(n) => {
                let data: Vec<u8> = (0..*n).map(|i| (i * 7 + 1) as u8).collect();
                let b = MemoryBlock::from_slice(&data);
                if b.get_ptr_and_size() != (b.get_ptr(), *n as u32) || at(b.get_ptr(), *n) != &data[..] {
                    return Err("a block made of bytes does not hold them".into());
                }
                if b.convert_to_vec() != data {
                    return Err("a block does not give back its bytes".into());
                }
            }
            Op::H(w) => {
                let state = RequestState { url: "/".into(), env: Default::default() };
                let mut store = wasmtime::Store::new(&wasmtime::Engine, state);
                let inst = wasmtime::Instance::new(&mut store, &wasmtime::Module, &[]).unwrap();
                let len = wire::bytes(w).len() as u32;
                let mut d = DataContext::from_store(&mut store, inst);
                let first = d.save_value(JsValue::String("before".into()));
                let ptr = d.save_value(wire::to_lib(w));
                let last = d.save_value(JsValue::String("after".into()));
                if *w == W::Undef {
                    if ptr != 0 {
                        return Err("the server stores nothing somewhere".into());
                    }
                } else {
                    if ptr == 0 || wire::from_lib(&d.get_value(ptr, len)) != *w {
                        return Err("the server does not read what it stored".into());
                    }
                }
                let n = wire::bytes(&W::Str("before".into())).len() as u32;
                let m = wire::bytes(&W::Str("after".into())).len() as u32;
                if d.get_value(first, n) != JsValue::String("before".into()) || d.get_value(last, m) != JsValue::String("after".into()) {
                    return Err("what the server stored is overwritten by what it stores next".into());
                }
            }
            Op::T(s) => {
                let state = RequestState { url: "/".into(), env: Default::default() };
                let mut store = wasmtime::Store::new(&wasmtime::Engine, state);
                let inst = wasmtime::Instance::new(&mut store, &wasmtime::Module, &[]).unwrap();
                let mut d = DataContext::from_store(&mut store, inst);
                let ptr = d.save_value(JsValue::String(s.clone()));
                let whole = wire::bytes(&W::Str(s.clone())).len() as u32;
                let len = s.len() as u32;
                if d.get_string_from(ptr + whole - len, len).as_deref() != Some(s.as_str()) {
                    return Err("the server does not read a text of the guest as it is".into());
                }
                let cut = (1..s.len()).find(|k| !s.is_char_boundary(*k));
                if let Some(k) = cut {
                    if d.get_string_from(ptr + whole - len, k as u32).is_some() {
                        return Err("the server reads half a character".into());
                    }
                }
            }
            Op::O(n, k) => {
                let b = MemoryBlock::new(*n);
                let data = vec![9u8; *k as usize];
                // the last write that fits, then the first that does not
                let fits = n.checked_sub(*k);
                if let Some(o) = fits {
                    if hx_core::caught(|| b.write(o, &data)).is_err() {
                        return Err("a write that fits is refused".into());
                    }
                    if at(b.get_ptr() + o, *k as usize) != &data[..] {
                        return Err("a write is not where it was asked for".into());
                    }
                }
                let o = fits.map_or(0, |o| o + 1);
                // memory past the end is the allocator's slack here: the damage is seen and kept from spreading
                if (o + k) as usize <= (*n as usize).max(16).next_power_of_two() && hx_core::caught(|| b.write(o, &data)).is_ok() {
                    return Err("a write past the end of a block is not refused".into());
                }
            }
            _ => {}
        }
        for s in &slots {
            if at(s.ptr, s.bytes.len()) != &s.bytes[..] {
                return Err("what was handed over and not yet taken is overwritten".into());
            }
        }
    }
    for s in slots {
        take(s.ptr, &wire::to_lib(&s.w), "the value handed over")?;
    }
    Ok(())
}
fn check(input: &str) -> hx_core::Res {
    let Some(ops) = parse(input) else { return hx_core::invalid() };
    hx_core::isolated(move || {
        // once for what the library sets up on first use
        watch::stop();
        run(&ops)?;
        watch::start();
        let first = run(&ops);
        let before = watch::live();
        let second = first.is_ok().then(|| run(&ops));
        let after = watch::live();
        watch::stop();
        first?;
        second.unwrap_or(Ok(()))?;
        if let Some(f) = watch::fault() {
            return Err(f);
        }
        if after != before {
            return Err(format!("{} pieces of memory are not given back", after as i64 - before as i64));
        }
        Ok(())
    })
}
fn generate(cfg: &hx_core::Cfg, sink: &mut dyn FnMut(String) -> bool) {
    let mut r = hx_core::Rng::new(cfg.seed);
    // sizes around the powers of two, each way a block can go
    for p in [8u32, 10, 12, 15, 16, 17] {
        for d in 0..20 {
            let n = (1u32 << p) - 8 + d;
            let v = format!("vec *{n}");
            if !sink(format!("b {n}\nq {n}\no {n} {n}\na {v}\na str *{n}\nc 0 {v}\ng 0\nh {v}\ns {v}")) {
                return;
            }
        }
    }
    for v in ["true", "false", "null", "undef", "u32 0", "i32 -1", "u64 0", "f64 0", "vec ", "str ", "list 0", "obj 0", "json;null", "json;true"] {
        if !sink(format!("a {v}\na {v}\nc 0 {v}\na {v}\nf 0\ng 0\nz {v}\nz {v}\nh {v}\ns {v}\ns {v}")) {
            return;
        }
    }
    let mut n = 0;
    while n < if cfg.thorough { 60000 } else { 5000 } {
        n += 1;
        let mut l = Vec::new();
        let big = n % 97 == 0;
        let many = if n % 199 == 0 { 60 } else { 1 + r.below(8) };
        for _ in 0..many {
            let mut val = |r: &mut hx_core::Rng| {
                let mut o = Vec::new();
                wire::gen_value(r, 2, &mut o, big);
                o.join(";")
            };
            let i = r.below(5);
            l.push(match r.below(13) {
                0..=3 => format!("a {}", val(&mut r)),
                4 => format!("g {i}"),
                5 => format!("f {i}"),
                6 | 7 => format!("c {i} {}", val(&mut r)),
                8 => format!("z {}", val(&mut r)),
                9 => match r.below(3) {
                    0 => format!("q {}", 1 + r.below(if big { 70000 } else { 70 })),
                    1 => format!("b {}", 1 + r.below(if big { 70000 } else { 70 })),
                    _ => format!("o {} {}", 1 + r.below(40), 1 + r.below(40)),
                },
                10 => format!("s {}", val(&mut r)),
                11 => format!("h {}", val(&mut r)),
                _ => format!("t {}", ["", "panicked at 'x'", "zażółć", "日本 \u{1F600}", "a\tb"][r.below(5) as usize]),
            });
        }
        if !sink(l.join("\n")) {
            return;
        }
    }
}
fn main() {
    hx_core::main(generate, check)
}
