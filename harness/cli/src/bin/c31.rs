//! Every DOM command through the client's JSON encoder and the server's decoder.  One command (JSON text) per line.
use hx_cli::html::{dom_command::dom_command_from_js_json, DomCommand as D};
use vertigo::{inspect, verif_hooks::dom as h, DomId, JsJson};

fn id(x: u64) -> DomId {
    DomId::from_u64(x)
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let mut want = vec![];
        inspect::log_start();
        for l in input.lines() {
            let Ok(c) = serde_json::from_str::<D>(l) else { return hx_core::invalid() };
            want.push(c.clone());
            match c {
                D::CreateNode { id: i, name } => h::create_node(id(i), &name),
                D::CreateText { id: i, value } => h::create_text(id(i), &value),
                D::UpdateText { id: i, value } => h::update_text(id(i), &value),
                D::SetAttr { id: i, name, value } => h::set_attr(id(i), &name, &value),
                D::RemoveAttr { id: i, name } => h::remove_attr(id(i), &name),
                D::RemoveNode { id: i } => h::remove_node(id(i)),
                D::RemoveText { id: i } => h::remove_text(id(i)),
                D::InsertBefore { parent, child, ref_id } => h::insert_before(id(parent), id(child), ref_id.map(id)),
                D::InsertCss { selector, value } => h::insert_css(&selector, &value),
                D::CreateComment { id: i, value } => h::create_comment(id(i), &value),
                D::RemoveComment { id: i } => h::remove_comment(id(i)),
                D::CallbackAdd { id: i, event_name, callback_id } => h::callback_add(id(i), &event_name, callback_id),
                D::CallbackRemove { id: i, event_name, callback_id } => h::callback_remove(id(i), &event_name, callback_id),
            }
        }
        let rec = inspect::log_take();
        if rec.len() != want.len() {
            return Err(format!("{} commands were recorded for {} calls", rec.len(), want.len()));
        }
        let json: Vec<JsJson> = rec.into_iter().map(|c| c.into_string()).collect();
        match dom_command_from_js_json(JsJson::List(json.clone())) {
            Err(e) => Err(format!("the server does not decode {json:?}: {e}")),
            Ok(got) if got != want => {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                Err(format!("command {:?} arrives as {:?}", want.get(k), got.get(k)))
            }
            Ok(_) => Ok(()),
        }
    })
}

fn num(r: &mut hx_core::Rng) -> u64 {
    match r.below(8) {
        0 => (1 << 53) - 1 - r.below(3),
        1 => 0,
        2 => r.below(1 << 53),
        3 => (1 << 32) - 2 + r.below(5),
        4 => (1 << 31) - 2 + r.below(5),
        5 => 65_534 + r.below(4),
        _ => r.below(300),
    }
}
fn string(r: &mut hx_core::Rng) -> String {
    let c = ["", "a", "null", "0", "\"", "\\", "\u{0}", "ż", "\u{1F600}", "<b>", "type", " ", "\n"];
    (0..r.below(4)).map(|_| *r.pick(&c)).collect()
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 8_000 };
            // long batches and long texts
            for k in [17u64, 65, 130, 260, 1100, 70_000] {
                let a: Vec<D> = (0..k.min(1100)).map(|i| if i % 3 == 0 { D::CreateNode { id: 9 + i, name: "p".into() } } else { D::InsertBefore { parent: 1, child: 9 + i, ref_id: (i % 3 == 1).then_some(i) } }).collect();
                let t = |c: &str| c.repeat(k as usize);
                let b = vec![D::CreateText { id: 9, value: t("a") }, D::UpdateText { id: 9, value: t("\u{e9}") }, D::SetAttr { id: 9, name: t("n"), value: t("\"\\") }, D::InsertCss { selector: ".a".into(), value: t("b: c; ") }];
                for x in [a, b] {
                    if !sink(x.iter().map(|c| serde_json::to_string(c).unwrap_or_default()).collect::<Vec<_>>().join("\n")) {
                        return;
                    }
                }
            }
            for _ in 0..n {
                let mut s = vec![];
                for _ in 0..1 + r.below(8) {
                    let (id, name, value) = (num(&mut r), string(&mut r), string(&mut r));
                    let c = match r.below(13) {
                        0 => D::CreateNode { id, name },
                        1 => D::CreateText { id, value },
                        2 => D::UpdateText { id, value },
                        3 => D::SetAttr { id, name, value },
                        4 => D::RemoveAttr { id, name },
                        5 => D::RemoveNode { id },
                        6 => D::RemoveText { id },
                        7 => D::InsertBefore { parent: id, child: num(&mut r), ref_id: if r.chance(1, 2) { Some(num(&mut r)) } else { None } },
                        8 => D::InsertCss { selector: name, value },
                        9 => D::CreateComment { id, value },
                        10 => D::RemoveComment { id },
                        11 => D::CallbackAdd { id, event_name: name, callback_id: num(&mut r) },
                        _ => D::CallbackRemove { id, event_name: name, callback_id: num(&mut r) },
                    };
                    s.push(serde_json::to_string(&c).unwrap_or_default());
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
