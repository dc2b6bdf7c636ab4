#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::collections::VecDeque;
use std::collections::HashMap;
verus! {

broadcast use {vstd::std_specs::vec::group_vec_axioms};

#[verifier::external_body] fn vx_string() -> String { String::new() }
//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item enum JsJson
«pub» enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end
//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
//@item enum JsValue
«pub» enum JsValue {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F64(f64),

    True,
    False,
    Null,
    Undefined,

    Vec(Vec<u8>),       // type, length, sequence of bytes
    String(String),     // type, length, sequence of chars
    List(Vec<JsValue>), // type, length
    Object(HashMap<String, JsValue>),

    Json(JsJson),
}
//@end
//@include decoder.inc
}
fn main(){}
