#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
extern crate log;
#[macro_use]
extern crate static_assertions;

#[path = "/verif/harness/support/support.rs"]
mod support;

mod common {
    #[path = "/repo/src/rust/src/common/slice.rs"]
    pub mod slice;
    pub type Result<T> = anyhow::Result<T>;
}
mod core {
    #[path = "/repo/src/rust/src/core/crypto.rs"]
    pub mod crypto;
}
mod oracle;
mod w_crypto;

fn main() {
    let mut run = support::Run::from_args();
    match run.property.clone().as_str() {
        "F01" => w_crypto::f01(&mut run),
        "F02" => w_crypto::f02(&mut run),
        "F03" => w_crypto::f03(&mut run),
        "F04" => w_crypto::f04(&mut run),
        "F05" => w_crypto::f05(&mut run),
        "F07" => w_crypto::f07(&mut run),
        p => panic!("no harness for {p}"),
    }
    run.finish()
}
