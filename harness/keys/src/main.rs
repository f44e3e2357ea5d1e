#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
extern crate static_assertions;

#[path = "/verif/harness/support/support.rs"]
mod support;

mod common {
    #[path = "/repo/src/rust/src/common/slice.rs"]
    pub mod slice;
}
mod lite {
    pub mod call_links {
        #[path = "/repo/src/rust/src/lite/call_links/base16.rs"]
        pub mod base16;
        #[path = "/repo/src/rust/src/lite/call_links/root_key.rs"]
        pub mod root_key;
        // the one field of the server's response that root keys look at
        pub struct CallLinkResponse {
            pub epoch: Option<u32>,
        }
    }
}
mod w_keys;

fn main() {
    let mut run = support::Run::from_args();
    match run.property.clone().as_str() {
        "K01" => w_keys::k01(&mut run),
        "K02" => w_keys::k02(&mut run),
        "K03" => w_keys::k03(&mut run),
        p => panic!("no harness for {p}"),
    }
    run.finish()
}
