//! Sending of DOM commands around the initial requests: "up" a request starts, "down" one ends, "c n" records the
//! creation of node n, "flush" flushes, "log" switches the debug log on and off.
use hx_vertigo::{host, J};
use vertigo::{inspect, verif_hooks as h, DomId};

fn ids(l: &[J]) -> Vec<u64> {
    l.iter()
        .map(|j| match j {
            J::Obj(o) => match (o.get("type"), o.get("id")) {
                (Some(J::Str(t)), Some(J::Num(b))) if t == "create_text" => f64::from_bits(*b) as u64,
                _ => 0,
            },
            _ => 0,
        })
        .collect()
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let got = host::record();
        let (mut ready, mut open, mut buf, mut logged) = (false, 0u32, vec![], false);
        for l in input.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let mut want: Vec<u64> = vec![];
            match p.as_slice() {
                ["up"] => {
                    h::fetch_start();
                    open += 1;
                }
                ["down"] => {
                    if open == 0 {
                        return hx_core::invalid();
                    }
                    h::fetch_stop();
                    open -= 1;
                    if open == 0 && !ready {
                        ready = true;
                        want = std::mem::take(&mut buf);
                    }
                }
                ["flush"] => {
                    h::flush_dom_changes();
                    if ready {
                        want = std::mem::take(&mut buf);
                    }
                }
                ["c", n] => {
                    let Ok(n) = n.parse::<u64>() else { return hx_core::invalid() };
                    h::dom::create_text(DomId::from_u64(n), "t");
                    buf.push(n);
                }
                ["burst", n] => {
                    let Ok(n) = n.parse::<u64>() else { return hx_core::invalid() };
                    if n > 20_000 {
                        return hx_core::invalid();
                    }
                    for i in 0..n {
                        h::dom::create_text(DomId::from_u64(1_000_000 + i), "t");
                        buf.push(1_000_000 + i);
                    }
                }
                ["log"] => {
                    if logged {
                        inspect::log_take();
                    } else {
                        inspect::log_start();
                    }
                    logged = !logged;
                }
                _ => return hx_core::invalid(),
            }
            let got = ids(&host::take(&got));
            if got != want {
                return Err(format!("at `{l}` the host received {got:?}, expected {want:?}"));
            }
        }
        Ok(())
    })
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let ops = ["up", "down", "c", "flush"];
            // every valid schedule up to a length
            let max = if cfg.thorough { 9 } else { 6 };
            for len in 1..=max {
                'next: for code in 0..4u64.pow(len) {
                    let (mut s, mut x, mut open) = (vec![], code, 0i32);
                    for i in 0..len {
                        let op = ops[(x % 4) as usize];
                        x /= 4;
                        open += (op == "up") as i32 - (op == "down") as i32;
                        if open < 0 {
                            continue 'next;
                        }
                        s.push(if op == "c" { format!("c {}", 10 + i) } else { op.to_string() });
                    }
                    if !sink(s.join("\n")) {
                        return;
                    }
                }
            }
            // many commands recorded in one state
            for n in [70, 129, 300, 1030, 5000] {
                for t in ["up\nup\nburst N\nflush\ndown\nflush\nc 1\ndown", "up\nburst N\ndown\nburst N\nflush", "burst N\nflush\nup\nburst N\nflush\ndown\nflush\nburst N\nup\nflush\ndown"] {
                    if !sink(t.replace("N", &n.to_string())) {
                        return;
                    }
                }
            }
            // many requests open at once
            for n in [20, 300] {
                let s = format!("{}c 1\nflush\n{}c 2\ndown\nc 3\nflush", "up\n".repeat(n), "down\nflush\n".repeat(n - 1));
                if !sink(s) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 60_000 } else { 2_000 };
            for _ in 0..n {
                let (mut s, mut open) = (vec![], 0);
                for i in 0..5 + r.below(60) {
                    match r.below(9) {
                        0 | 1 => {
                            open += 1;
                            s.push("up".to_string());
                        }
                        2 | 3 if open > 0 => {
                            open -= 1;
                            s.push("down".into());
                        }
                        4 => s.push("log".into()),
                        5 | 6 => s.push("flush".into()),
                        7 if r.below(8) == 0 => s.push(format!("burst {}", 1 + r.below(400))),
                        _ => s.push(format!("c {}", 10 + i)),
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
