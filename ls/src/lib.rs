//! Harness entries for the language server (see /verif/DESIGN.md): the real `server.rs`, driven
//! through the real tower-lsp service.
#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/sx.rs"]
pub mod sx;
#[cfg(not(gv_replay))]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../../harness/src/spec.rs"]
mod spec;
#[path = "../../harness/src/shapes.rs"]
mod shapes;
#[path = "../../harness/src/ast.rs"]
mod ast;
#[path = "../../harness/src/sem.rs"]
mod sem;
#[allow(dead_code)]
#[path = "../../harness/src/grammar.rs"]
mod grammar;
#[allow(dead_code)]
#[path = "../../harness/src/multi.rs"]
mod multi;
mod drive;
mod entries;

macro_rules! entries {
    ($($name:ident => $f:path;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    };
}

entries! {
    h_ls_sequences => entries::sequences;
    h_ls_interleaved => entries::interleaved;
    h_ls_cursor => entries::cursor;
    h_ls_outline => entries::outline;
    h_ls_chars => entries::chars;
    h_ls_scale => entries::scale;
    h_ls_any => entries::any;
    h_ls_names => entries::names;
    h_ls_places => entries::places;
    h_ls_includes => entries::includes;
}
