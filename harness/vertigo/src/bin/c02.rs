//! Size of snapshots, on the compiled library
use hx_vertigo::wire::*;

fn check(input: &str) -> hx_core::Res {
    let w = P::new(input).value();
    let v = to_lib(&w);
    let block = v.to_snapshot(); // an encoding longer than the block panics here
    let (_, size) = block.get_ptr_and_size();
    let want = bytes(&w).len();
    if size as usize != want {
        return Err(format!("allocated {size} bytes for an encoding of {want}"));
    }
    Ok(())
}

fn main() {
    hx_core::main(generate, check)
}
