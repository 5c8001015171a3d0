//! Runs one command line tool entry natively on a recorded model.
#[path = "../../cli/src/lib.rs"]
mod harness;
#[path = "../../replay/src/native.rs"]
mod native;

fn main() {
    native::set_on_exit(|c| harness::symex_on_exit(c));
    native::main(harness::ENTRIES)
}
