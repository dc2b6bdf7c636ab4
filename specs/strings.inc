// ---- trusted: String as a key --------------------------------------------------------------------------------
mod sax {
    use super::*;
    pub uninterp spec fn st(cs: Seq<char>) -> String;
    // two Strings with the same characters are the same key
    pub broadcast axiom fn axiom_string_ext(s: String)
        ensures st(#[trigger] s@) == s;
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] obeys_key_model::<String>();
}
use sax::st;
proof fn lemma_st(a: String, b: String)
    requires a@ == b@,
    ensures a == b,
{
    sax::axiom_string_ext(a);
    sax::axiom_string_ext(b);
}
fn vx_string_eq(a: &String, b: &String) -> (r: bool)
    ensures r == (*a == *b),
{
    let r = a.as_str() == b.as_str();
    proof { if r { lemma_st(*a, *b); } }
    r
}
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn vx_string_clone(a: &String) -> (r: String) ensures r == *a { a.clone() }
#[verifier::external_body]
fn vx_string() -> String { String::new() }
