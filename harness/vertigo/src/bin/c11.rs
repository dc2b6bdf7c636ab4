use hx_vertigo::net::{main as net_main, Checks};
fn main() {
    net_main(|| Checks { tx: true, ..Checks { stale: false, tx: false, notify: false, connect: false } }, 40_000, 3_000_000)
}
