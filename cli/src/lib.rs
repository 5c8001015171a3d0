//! Harness entries for the command line tool (see /verif/DESIGN.md): the real `main`, from the
//! command line to the exit code and the output.
#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/sx.rs"]
pub mod sx;
mod entries;
#[allow(dead_code, unused_imports)]
mod tool {
    include!("/repo/ginko/src/main.rs");

    pub fn run() -> ! {
        // as std does with what `main` returns
        let c = std::process::Termination::report(main());
        std::process::exit(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 })
    }
}

macro_rules! entries {
    ($($name:ident => $f:path;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    };
}

entries! {
    h_cli => entries::run;
}

/// called when the tool exits
#[no_mangle]
pub extern "C" fn symex_on_exit(code: i32) {
    entries::exited(code)
}
