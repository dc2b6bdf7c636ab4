//! Wire encoding: layout and round trip, on the compiled library
use hx_vertigo::wire::*;
use hx_vertigo::{Rd, W};
use vertigo::{JsValue, MemoryBlock};

fn check(input: &str) -> hx_core::Res {
    let w: W = P::new(input).value();
    let v = to_lib(&w);
    let b = v.to_snapshot().convert_to_vec();
    let mut rd = Rd { b: &b, p: 0 };
    let d = rd.w();
    if d.as_ref() != Some(&w) {
        return Err("the bytes are not the documented encoding of the value".into());
    }
    if rd.p > b.len() {
        return Err("encoding runs past the block".into());
    }
    match JsValue::from_block(MemoryBlock::from_slice(&b[..rd.p])) {
        Ok(x) if from_lib(&x) == w => {}
        Ok(_) => return Err("decoding the snapshot gives a different value".into()),
        Err(e) => return Err(format!("decoding the snapshot fails: {}", e.chars().take(200).collect::<String>())),
    }
    let js = bytes(&w);
    match JsValue::from_block(MemoryBlock::from_slice(&js)) {
        Ok(x) if from_lib(&x) == w => Ok(()),
        Ok(_) => Err("decoding what the JavaScript half writes gives a different value".into()),
        Err(e) => Err(format!("decoding what the JavaScript half writes fails: {}", e.chars().take(200).collect::<String>())),
    }
}

fn main() {
    hx_core::main(generate, check)
}
