fn main() { hx_host::pages::main(hx_host::pages::Of::Page) }
