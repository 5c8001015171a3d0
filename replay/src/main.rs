//! Runs one harness entry natively on a recorded model (counterexample or sampled path).
#[path = "../../harness/src/lib.rs"]
mod harness;
#[path = "native.rs"]
mod native;

fn main() {
    native::main(harness::ENTRIES)
}
