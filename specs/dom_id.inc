//@file crates/vertigo/src/dom/dom_id.rs
#[derive(Structural, PartialEq, Eq, Clone, Copy, PartialOrd, Ord, Hash)]
//@item struct DomId
pub struct DomId(u64);
//@end
