#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;

verus! {

// ---- trusted: std's string operations, on sequences of characters ---------------------------------------------------
#[verifier::external_body]
fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures
        r is Some <==> p@.is_prefix_of(s@),
        r is Some ==> s@ == p@ + r->0@,
{ s.strip_prefix(p) }
#[verifier::external_body]
fn vx_concat(a: &str, b: &str) -> (r: String)
    ensures r@ == a@ + b@,
{ format!("{a}{b}") }
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures texts(r@) == split(s@, c),
{ s.split(c).collect() }
#[verifier::external_body]
fn vx_join(v: &Vec<&str>, sep: &str) -> (r: String)
    ensures r@ == join(texts(v@), sep@),
{ v.join(sep) }
#[verifier::external_body]
fn vx_clone(s: &String) -> (r: String)
    ensures r@ == s@,
{ s.clone() }

pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
// str::split on a character: the pieces between its occurrences
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] } else {
        let r = split(s.drop_first(), c);
        if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.drop_first() }
    }
}
pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + sep + join(v.drop_first(), sep) }
}
// b is everything before the last c of s
pub open spec fn before_last(s: Seq<char>, c: char, b: Seq<char>) -> bool {
    exists|t: Seq<char>| !(#[trigger] t.contains(c)) && s == b + seq![c] + t
}
proof fn lemma_split_nonempty(s: Seq<char>, c: char)
    ensures split(s, c).len() >= 1,
    decreases s.len(),
{
    if s.len() != 0 { lemma_split_nonempty(s.drop_first(), c); }
}
proof fn lemma_split(s: Seq<char>, c: char)
    ensures
        split(s, c).len() == 1 <==> !s.contains(c),
        split(s, c).len() == 1 ==> split(s, c)[0] == s,
        !split(s, c).last().contains(c),
        split(s, c).len() > 1 ==> s == join(split(s, c).drop_last(), seq![c]) + seq![c] + split(s, c).last(),
    decreases s.len(),
{
    let p = split(s, c);
    if s.len() != 0 {
        let d = s.drop_first();
        let q = split(d, c);
        lemma_split(d, c);
        lemma_split_nonempty(d, c);
        assert(s =~= seq![s[0]] + d);
        assert(s.contains(c) <==> s[0] == c || d.contains(c)) by {
            if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i > 0 { assert(d[i - 1] == c); } }
            if d.contains(c) { let i = choose|i: int| 0 <= i < d.len() && d[i] == c; assert(s[i + 1] == c); }
        }
        if s[0] == c {
            assert(p =~= seq![Seq::<char>::empty()] + q);
            assert(p.last() == q.last());
            let h = p.drop_last();
            if q.len() > 1 {
                assert(h.drop_first() =~= q.drop_last());
                assert(s =~= join(h, seq![c]) + seq![c] + p.last());
            } else {
                assert(h =~= seq![Seq::<char>::empty()]);
                assert(s =~= join(h, seq![c]) + seq![c] + p.last());
            }
        } else {
            assert(p =~= seq![seq![s[0]] + q[0]] + q.drop_first());
            if q.len() > 1 {
                assert(p.last() == q.last());
                let h = p.drop_last();
                let g = q.drop_last();
                assert(h.drop_first() =~= g.drop_first());
                assert(join(h, seq![c]) =~= seq![s[0]] + join(g, seq![c]));
                assert(s =~= join(h, seq![c]) + seq![c] + p.last());
            } else {
                assert(q[0] == d);
                assert(p[0] =~= s);
            }
        }
    } else {
        assert(!s.contains(c));
    }
}

//@file crates/vertigo-cli/src/serve/mount_path.rs
//@item fn replace_prefix
fn replace_prefix(public_path: &str, dest_dir: &str, path: &str) -> «(r:» Result<String, i32> «)
    ensures
        r is Ok <==> public_path@.is_prefix_of(path@),
        r is Ok ==> exists|rest: Seq<char>| path@ == public_path@ + rest && r->Ok_0@ == #[trigger] (dest_dir@ + rest),»
{
    let Some(rest) = ⟦path.strip_prefix(public_path)⇒vx_strip_prefix(path, public_path)⟧ else {
        return Err(-1);
    };

    Ok(⟦format!("{dest_dir}{rest}")⇒vx_concat(dest_dir, rest)⟧)
}
//@end
//@item fn get_base_dir
fn get_base_dir(path: &str) -> «(r:» Option<String> «)
    ensures
        r is Some <==> path@.contains('/'),
        r is Some ==> before_last(path@, '/', r->0@),»
{
    let mut chunks: Vec<&str> = ⟦path.split('/').collect()⇒vx_split(path, '/')⟧;
«    let ghost all = texts(chunks@);
    proof { lemma_split(path@, '/'); lemma_split_nonempty(path@, '/'); assert(chunks@.len() == all.len()); }»
    let last = chunks.pop();
«    proof { assert(texts(chunks@) =~= all.drop_last()); reveal_strlit("/"); assert("/"@ =~= seq!['/']); }»

    if last.is_none() {
        return None;
    }

    if chunks.is_empty() {
        return None;
    }

    Some(⟦chunks.join⇒vx_join⟧(«&chunks, »"/"))
}
//@end
//@file crates/vertigo-cli/src/commons/models.rs
//@item struct IndexModel
pub struct IndexModel {
    pub run_js: String,
    pub wasm: String,
}
//@end
// what the index file of the directory holds
pub uninterp spec fn index_of(dest_dir: Seq<char>) -> Option<IndexModel>;
#[verifier::external_body]
fn read_index(dest_dir: &str) -> (r: Result<IndexModel, i32>)
    ensures r is Ok <==> index_of(dest_dir@) is Some, r is Ok ==> r->Ok_0 == index_of(dest_dir@)->0,
{ unimplemented!() }

//@file crates/vertigo-cli/src/serve/mount_path.rs
//@item struct MountPathConfig
pub struct MountPathConfig {
    public_path: String,
    dest_dir: String,
    pub run_js: String,
    pub wasm_path: String,
}
//@end
impl MountPathConfig {
//@item impl MountPathConfig :: fn new
    pub fn new(dest_dir: String) -> «(r:» Result<MountPathConfig, i32> «)
        ensures
            r is Ok <==> index_of(dest_dir@) is Some && index_of(dest_dir@)->0.wasm@.contains('/'),
            r is Ok ==> {
                let i = index_of(dest_dir@)->0;
                let c = r->Ok_0;
                c.dest_dir@ == dest_dir@ && c.wasm_path == i.wasm && c.run_js == i.run_js && before_last(i.wasm@, '/', c.public_path@)
            },»
    {
        let index_model = read_index(&dest_dir)?;

        let Some(public_path) = get_base_dir(&index_model.wasm) else {
            return Err(-1);
        };

        Ok(MountPathConfig {
            dest_dir,
            public_path,
            run_js: index_model.run_js,
            wasm_path: index_model.wasm,
        })
    }
//@end
//@item impl MountPathConfig :: fn http_root
    pub fn http_root(&self) -> «(r:» String «) ensures r@ == self.public_path@,»
    {
        ⟦self.public_path.clone()⇒vx_clone(&self.public_path)⟧
    }
//@end
//@item impl MountPathConfig :: fn fs_root
    pub fn fs_root(&self) -> «(r:» String «) ensures r@ == self.dest_dir@,»
    {
        ⟦self.dest_dir.clone()⇒vx_clone(&self.dest_dir)⟧
    }
//@end
//@item impl MountPathConfig :: fn translate_to_fs
    pub fn translate_to_fs(&self, http_path: ⟦impl Into<String>⇒String⟧) -> «(r:» Result<String, i32> «)
        ensures
            r is Ok <==> self.public_path@.is_prefix_of(http_path@),
            r is Ok ==> exists|rest: Seq<char>| http_path@ == self.public_path@ + rest && r->Ok_0@ == #[trigger] (self.dest_dir@ + rest),»
    {
        ⟦let http_path = http_path.into();⇒⟧
        replace_prefix(&self.public_path, &self.dest_dir, &http_path)
    }
//@end
}
} // verus!
fn main() {}
