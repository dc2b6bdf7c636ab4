//! What the host receives for a batch against the batch as recorded.  One command per line, "--" ends a batch.
use hx_vertigo::{host, wire::j_from_lib, J};
use vertigo::{inspect, verif_hooks as h, DomId};

fn kind(j: &J) -> String {
    match j {
        J::Obj(o) => match o.get("type") {
            Some(J::Str(s)) => s.clone(),
            _ => String::new(),
        },
        _ => String::new(),
    }
}
fn run(l: &str) -> bool {
    let p: Vec<&str> = l.split(' ').collect();
    let id = |i: usize| p.get(i).and_then(|x| x.parse().ok()).map(DomId::from_u64);
    let (Some(a), s) = (id(1), p.last().copied().unwrap_or("")) else { return false };
    match p[0] {
        "node" => h::dom::create_node(a, s),
        "text" => h::dom::create_text(a, s),
        "utext" => h::dom::update_text(a, s),
        "attr" => h::dom::set_attr(a, "class", s),
        "rattr" => h::dom::remove_attr(a, s),
        "rnode" => h::dom::remove_node(a),
        "rtext" => h::dom::remove_text(a),
        "rcomm" => h::dom::remove_comment(a),
        "comm" => h::dom::create_comment(a, s),
        "css" => h::dom::insert_css(s, s),
        "ins" => {
            let Some(b) = id(2) else { return false };
            h::dom::insert_before(a, b, id(3))
        }
        "cb" => h::dom::callback_add(a, "click", 7),
        "rcb" => h::dom::callback_remove(a, s, 7),
        _ => return false,
    }
    true
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let got = host::record();
        h::fetch_start();
        h::fetch_stop();
        host::take(&got);
        let mut lines: Vec<&str> = input.lines().collect();
        lines.push("--");
        inspect::log_start();
        for l in lines {
            if l != "--" {
                if !run(l) {
                    return hx_core::invalid();
                }
                continue;
            }
            h::flush_dom_changes();
            let rec: Vec<J> = inspect::log_take().into_iter().map(|c| j_from_lib(&c.into_string())).collect();
            inspect::log_start();
            let late = |j: &J| matches!(kind(j).as_str(), "remove_node" | "remove_text" | "remove_comment");
            let want: Vec<J> = rec.iter().filter(|j| !late(j)).chain(rec.iter().filter(|j| late(j))).cloned().collect();
            let got = host::take(&got);
            if got != want {
                return Err(format!("the host received\n{}\nfor the recorded batch\n{}", show(&got), show(&rec)));
            }
        }
        Ok(())
    })
}
fn show(l: &[J]) -> String {
    l.iter().map(|j| format!("{j:?}")).collect::<Vec<_>>().join("\n")
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 120_000 } else { 5_000 };
            let ops = ["node", "text", "utext", "attr", "rattr", "rnode", "rtext", "rcomm", "comm", "css", "ins", "cb", "rcb"];
            for i in 0..n {
                let mut s = vec![];
                let len = if i % 50 == 0 { 200 + r.below(800) } else { 1 + r.below(40) };
                for _ in 0..len {
                    if r.chance(1, 25) {
                        s.push("--".to_string());
                        continue;
                    }
                    let op = *r.pick(&ops);
                    let id = 10 + r.below(12);
                    s.push(match op {
                        "ins" if r.chance(1, 2) => format!("ins {id} {} {}", 30 + r.below(5), 40 + r.below(5)),
                        "ins" => format!("ins {id} {}", 30 + r.below(5)),
                        _ => format!("{op} {id} s{}", r.below(6)),
                    });
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
