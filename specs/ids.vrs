#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;

verus! {
// ---- trusted: a static counter starts at its initial value and only goes up ------------------------------------------------
pub struct Counter { next: Ghost<int> }
// the counter is the static with this initial value
#[verifier::external_body]
fn vx_static(c: &mut Counter, init: u64)
    ensures *final(c) == *old(c), final(c).next@ >= init,
{ unimplemented!() }
impl Counter {
    #[verifier::external_body]
    fn fetch_add(&mut self, n: u64) -> (r: u64)
        requires old(self).next@ + n <= u64::MAX,
        ensures r == old(self).next@, final(self).next@ == old(self).next@ + n,
    { unimplemented!() }
}
// one number was given out: never one that was given before, nor one that will be
spec fn given(a: Counter, b: Counter, r: u64) -> bool { r >= a.next@ && b.next@ > r }
proof fn theorem_distinct(a: Counter, b: Counter, c: Counter, d: Counter, r: u64, q: u64)
    requires given(a, b, r), b.next@ <= c.next@, given(c, d, q),
    ensures r != q, r < q,
{
}

// ---- nodes of the page ---------------------------------------------------------------------------------------------------
pub enum Name { Html, Head, Body, Other }
spec fn named(name: Seq<char>) -> Name {
    if name == "html"@ { Name::Html } else if name == "head"@ { Name::Head } else if name == "body"@ { Name::Body } else { Name::Other }
}
#[verifier::external_body]
fn vx_named(name: &str) -> (r: Name) ensures r == named(name@)
{ match name { "html" => Name::Html, "head" => Name::Head, "body" => Name::Body, _ => Name::Other } }
mod dom {
use super::*;
//@file crates/vertigo/src/dom/dom_id.rs
//@item const HTML_ID
const HTML_ID: u64 = 1;
//@end
//@item const HEAD_ID
const HEAD_ID: u64 = 2;
//@end
//@item const BODY_ID
const BODY_ID: u64 = 3;
//@end
//@item const START_ID
const START_ID: u64 = 4;
//@end
//@item fn get_unique_id
fn get_unique_id(«c: &mut Counter») -> «(r:» u64 «)
    requires old(c).next@ < u64::MAX,
    ensures given(*old(c), *final(c), r), r > 3,»
{
    ⟦use std::sync::atomic::{AtomicU64, Ordering};⇒⟧
    ⟦static COUNTER: AtomicU64 = AtomicU64::new(⇒vx_static(c, ⟧START_ID);
    ⟦COUNTER⇒c⟧.fetch_add(1⟦, Ordering::Relaxed⇒⟧)
}
//@end
//@item struct DomId
pub struct DomId(u64);
//@end
impl DomId {
    pub closed spec fn n(self) -> u64 { self.0 }
//@item impl Default for DomId :: fn default
    fn default(«c: &mut Counter») -> «(r:» Self «)
        requires old(c).next@ < u64::MAX,
        ensures given(*old(c), *final(c), r.n()), r.n() > 3,»
    {
        Self(get_unique_id(«c»))
    }
//@end
    // the page, its head and its body have fixed ids, the same ones the host uses
//@item impl DomId :: fn from_name
    pub fn from_name(name: &str «, c: &mut Counter») -> «(r:» DomId «)
        requires old(c).next@ < u64::MAX,
        ensures match named(name@) {
            Name::Html => r.n() == 1,
            Name::Head => r.n() == 2,
            Name::Body => r.n() == 3,
            Name::Other => given(*old(c), *final(c), r.n()) && r.n() > 3,
        },»
    {
        let new_id = match ⟦name⇒vx_named(name)⟧ {
            ⟦"html"⇒Name::Html⟧ => HTML_ID,
            ⟦"head"⇒Name::Head⟧ => HEAD_ID,
            ⟦"body"⇒Name::Body⟧ => BODY_ID,
            _ => get_unique_id(«c»),
        };

        DomId(new_id)
    }
//@end
//@item impl DomId :: fn root_id
    pub fn root_id() -> «(r:» DomId «)
        ensures r.n() == 1,»
    {
        DomId(HTML_ID)
    }
//@end
//@item impl DomId :: fn from_u64
    pub fn from_u64(id: u64) -> «(r:» DomId «)
        ensures r.n() == id,»
    {
        DomId(id)
    }
//@end
//@item impl DomId :: fn to_u64
    pub fn to_u64(&self) -> «(r:» u64 «)
        ensures r == self.n(),»
    {
        self.0
    }
//@end
}
}

// ---- values, computed values and subscribers -------------------------------------------------------------------------------
mod graph {
use super::*;
//@file crates/vertigo/src/computed/graph_id.rs
#[derive(Clone, Copy)]
//@item enum GraphIdKind
pub enum GraphIdKind {
    Value,
    Computed,
    Client,
}
//@end
#[derive(Clone, Copy)]
//@item struct GraphId
pub struct GraphId(GraphIdKind, u64);
//@end
impl GraphId {
    pub closed spec fn kind(self) -> GraphIdKind { self.0 }
    pub closed spec fn n(self) -> u64 { self.1 }
//@item impl GraphId :: fn get_unique_id
    fn get_unique_id(«c: &mut Counter») -> «(r:» u64 «)
        requires old(c).next@ < u64::MAX,
        ensures given(*old(c), *final(c), r), r > 0,»
    {
        ⟦use std::sync::atomic::{AtomicU64, Ordering};⇒⟧
        ⟦static COUNTER: AtomicU64 = AtomicU64::new(⇒vx_static(c, ⟧1);
        ⟦COUNTER⇒c⟧.fetch_add(1⟦, Ordering::Relaxed⇒⟧)
    }
//@end
//@item impl GraphId :: fn new_value
    pub fn new_value(«c: &mut Counter») -> «(r:» GraphId «)
        requires old(c).next@ < u64::MAX,
        ensures given(*old(c), *final(c), r.n()), r.kind() is Value,»
    {
        GraphId(GraphIdKind::Value, GraphId::get_unique_id(«c»))
    }
//@end
//@item impl GraphId :: fn new_computed
    pub fn new_computed(«c: &mut Counter») -> «(r:» GraphId «)
        requires old(c).next@ < u64::MAX,
        ensures given(*old(c), *final(c), r.n()), r.kind() is Computed,»
    {
        GraphId(GraphIdKind::Computed, GraphId::get_unique_id(«c»))
    }
//@end
//@item impl GraphId :: fn new_client
    pub fn new_client(«c: &mut Counter») -> «(r:» GraphId «)
        requires old(c).next@ < u64::MAX,
        ensures given(*old(c), *final(c), r.n()), r.kind() is Client,»
    {
        GraphId(GraphIdKind::Client, GraphId::get_unique_id(«c»))
    }
//@end
//@item impl GraphId :: fn id
    pub fn id(&self) -> «(r:» u64 «)
        ensures r == self.n(),»
    {
        self.1
    }
//@end
//@item impl GraphId :: fn get_type
    pub fn get_type(&self) -> «(r:» GraphIdKind «)
        ensures r == self.kind(),»
    {
        self.0
    }
//@end
}
}

// ---- caches and keyed maps ------------------------------------------------------------------------------------------------
mod cache {
use super::*;
//@file crates/vertigo/src/fetch/lazy_cache.rs
//@item fn get_unique_id
fn get_unique_id(«c: &mut Counter») -> «(r:» u64 «)
    requires old(c).next@ < u64::MAX,
    ensures given(*old(c), *final(c), r),»
{
    ⟦use std::sync::atomic::{AtomicU64, Ordering};⇒⟧
    ⟦static COUNTER: AtomicU64 = AtomicU64::new(⇒vx_static(c, ⟧1);
    ⟦COUNTER⇒c⟧.fetch_add(1⟦, Ordering::Relaxed⇒⟧)
}
//@end
}
mod map {
use super::*;
//@file crates/vertigo/src/computed/auto_map.rs
//@item fn get_unique_id
fn get_unique_id(«c: &mut Counter») -> «(r:» u64 «)
    requires old(c).next@ < u64::MAX,
    ensures given(*old(c), *final(c), r),»
{
    ⟦use std::sync::atomic::{AtomicU64, Ordering};⇒⟧
    ⟦static COUNTER: AtomicU64 = AtomicU64::new(⇒vx_static(c, ⟧1);
    ⟦COUNTER⇒c⟧.fetch_add(1⟦, Ordering::Relaxed⇒⟧)
}
//@end
}
} // verus!
fn main() {}
