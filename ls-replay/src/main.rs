//! Runs one language server entry natively on a recorded model.
#[path = "../../ls/src/lib.rs"]
mod harness;
#[path = "../../replay/src/native.rs"]
mod native;
include!(concat!(env!("OUT_DIR"), "/mods.rs"));

fn main() {
    native::main(harness::ENTRIES)
}
