//! The server's HTML modules, compiled from /repo's files as they stand (building the whole server would add a minute)
#![allow(dead_code, unused_imports)]
pub mod gen;
pub mod html {
    #[path = "/repo/crates/vertigo-cli/src/serve/html/dom_command.rs"]
    pub mod dom_command;
    #[path = "/repo/crates/vertigo-cli/src/serve/html/element.rs"]
    pub mod element;
    #[path = "/repo/crates/vertigo-cli/src/serve/html/element_children.rs"]
    pub mod element_children;
    #[path = "/repo/crates/vertigo-cli/src/serve/html/html_element.rs"]
    pub mod html_element;
    #[path = "/repo/crates/vertigo-cli/src/serve/html/ordered_map.rs"]
    pub mod ordered_map;
    pub use dom_command::DomCommand;
    pub use html_element::HtmlNode;
}
pub mod commons {
    pub mod models {
        // as in commons/models.rs, whose other type needs the command line parser
        #[derive(serde::Serialize, serde::Deserialize, Debug)]
        pub struct IndexModel {
            pub run_js: String,
            pub wasm: String,
        }
    }
}
#[path = "/repo/crates/vertigo-cli/src/serve/mount_path.rs"]
pub mod mount_path;
