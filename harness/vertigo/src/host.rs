//! Scripted host which records the batches of DOM commands it is sent
use crate::{Rd, J, W};
use std::cell::RefCell;
use std::rc::Rc;

fn find_batch(w: &W) -> Option<&Vec<J>> {
    match w {
        W::Json(J::List(l)) => Some(l),
        W::List(l) => l.iter().find_map(find_batch),
        _ => None,
    }
}
fn is_bulk(w: &W) -> bool {
    match w {
        W::Str(s) => s == "dom_bulk_update",
        W::List(l) => l.iter().any(is_bulk),
        _ => false,
    }
}
pub type Batches = Rc<RefCell<Vec<Vec<J>>>>;
pub fn record() -> Batches {
    let out: Batches = Default::default();
    let o = out.clone();
    vertigo::verif_hooks::set_host(move |bytes| {
        let mut r = Rd { b: bytes, p: 0 };
        if let Some(w) = r.w() {
            if is_bulk(&w) {
                o.borrow_mut().push(find_batch(&w).cloned().unwrap_or_default());
            }
        }
        None
    });
    out
}
pub fn take(b: &Batches) -> Vec<J> {
    std::mem::take(&mut *b.borrow_mut()).into_iter().flatten().collect()
}
