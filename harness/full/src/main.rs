#![allow(dead_code, unused_imports)]
#[path = "/verif/harness/crypto/src/oracle.rs"]
mod oracle;
mod c_model;
mod c_rig;
mod model;
mod rig;
#[path = "/verif/harness/support/support.rs"]
mod support;
mod w_call;
mod w_client;
mod w_group;
mod w_small;

fn main() {
    let mut run = support::Run::from_args();
    match run.property.clone().as_str() {
        "F06" => w_group::f06(&mut run),
        "G02" => w_small::g02(&mut run),
        "C06" => w_small::c06(&mut run),
        "U01" => w_small::u01(&mut run),
        "U03" => w_small::u03(&mut run),
        p @ ("G01" | "G03" | "G04" | "G05" | "G06" | "G07" | "G08" | "G09" | "G10") => w_client::histories(&mut run, Box::leak(p.to_string().into_boxed_str())),
        p @ ("C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C08") => w_call::histories(&mut run, Box::leak(p.to_string().into_boxed_str())),
        p => panic!("no harness for {p}"),
    }
    run.finish()
}
