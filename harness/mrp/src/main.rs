#![allow(dead_code, unused_imports)]
#[path = "/verif/harness/support/support.rs"]
mod support;
#[path = "/repo/mrp/src/window.rs"]
mod window;

mod w_window;
mod w_stream;

fn main() {
    let mut run = support::Run::from_args();
    match run.property.clone().as_str() {
        "R01" => w_window::r01(&mut run),
        "R02" => w_stream::r02(&mut run),
        "R03" => w_stream::r03(&mut run),
        "R04" => w_stream::r04(&mut run),
        "R05" => w_stream::r05(&mut run),
        p => panic!("no harness for {p}"),
    }
    run.finish()
}
