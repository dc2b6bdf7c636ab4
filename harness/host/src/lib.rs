//! The server's rendering of one request, compiled from /repo's files as they stand, over stand-ins for the
//! WebAssembly engine, the HTTP client and the async runtime; the guest is the client library in this process.
#![allow(dead_code, unused_imports)]
pub use hx_vertigo;
pub mod pages;
pub mod serve {
    #[path = "/repo/crates/vertigo-cli/src/serve/html/mod.rs"]
    pub mod html;
    #[path = "/repo/crates/vertigo-cli/src/serve/mount_path.rs"]
    pub mod mount_path;
    #[path = "/repo/crates/vertigo-cli/src/serve/request_state.rs"]
    pub mod request_state;
    #[path = "/repo/crates/vertigo-cli/src/serve/response_state.rs"]
    pub mod response_state;
    #[path = "/repo/crates/vertigo-cli/src/serve/server_state.rs"]
    pub mod server_state;
    #[path = "/repo/crates/vertigo-cli/src/serve/wasm/mod.rs"]
    pub mod wasm;
}
/// the host's access to the guest's memory, on its own
#[path = "/repo/crates/vertigo-cli/src/serve/wasm/data_context.rs"]
pub mod data_context;
pub mod commons {
    #[path = "/repo/crates/vertigo-cli/src/commons/spawn.rs"]
    pub mod spawn;
    pub mod models {
        // as in commons/models.rs, whose other type needs the command line parser
        #[derive(serde::Serialize, serde::Deserialize, Debug)]
        pub struct IndexModel {
            pub run_js: String,
            pub wasm: String,
        }
    }
}
use serve::request_state::RequestState;
use serve::wasm::{Message, WasmInstance};
use std::cell::RefCell;
use std::rc::Rc;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

type Script = Box<dyn FnOnce()>;
/// the guest: its entry function runs a script, its callbacks are the library's
#[derive(Default)]
pub struct App {
    script: RefCell<Option<Script>>,
}
impl App {
    /// an app whose entry function runs this
    pub fn running(f: impl FnOnce() + 'static) -> Rc<App> {
        let a = App::default();
        *a.script.borrow_mut() = Some(Box::new(f));
        Rc::new(a)
    }
}
impl wasmtime::Guest for App {
    fn call(&self, name: &str, params: &[u64], bytes: &dyn Fn(u64) -> Vec<u8>) -> u64 {
        match name {
            "vertigo_entry_function" => {
                if let Some(s) = self.script.borrow_mut().take() {
                    s();
                }
                0
            }
            "wasm_callback" => {
                let ptr = if params[1] == 0 { 0 } else { vertigo::verif_hooks::stash(&bytes(params[1])) };
                vertigo::wasm_callback(params[0], ptr)
            }
            other => panic!("the guest has no function {other}"),
        }
    }
}
pub struct Session {
    pub app: Rc<App>,
    pub sender: UnboundedSender<Message>,
    pub receiver: UnboundedReceiver<Message>,
    pub inst: Option<WasmInstance>,
}
impl Session {
    pub fn new(url: &str, env: &[(String, String)]) -> Session {
        let app = Rc::new(App::default());
        wasmtime::set_guest(app.clone());
        vertigo::verif_hooks::set_host(|b| wasmtime::host_call(1, b));
        let (sender, receiver) = unbounded_channel();
        let request = RequestState { url: url.into(), env: env.iter().cloned().collect() };
        let inst = WasmInstance::new(sender.clone(), &wasmtime::Engine, &wasmtime::Module, request);
        Session { app, sender, receiver, inst: Some(inst) }
    }
    /// runs a script in the guest
    pub fn guest<T: 'static>(&mut self, f: impl FnOnce() -> T + 'static) -> T {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        *self.app.script.borrow_mut() = Some(Box::new(move || *o.borrow_mut() = Some(f())));
        self.inst.as_mut().unwrap().call_vertigo_entry_function();
        let r = out.borrow_mut().take();
        r.unwrap()
    }
    pub fn told(&mut self) -> Vec<Message> {
        let mut l = Vec::new();
        while let Ok(m) = self.receiver.try_recv() {
            l.push(m);
        }
        l
    }
}
