//! Harness entries (see /verif/DESIGN.md).  Compiled twice: to LLVM bitcode for the
//! symbolic executor, and natively (by /verif/replay) to replay models.
pub mod sx;
pub mod common;
mod ast;
mod grammar;
mod lex;
mod multi;
mod query;
mod sem;
mod spec;
mod scale;
mod shapes;
mod total;
mod values;

/// Declares the entries: `h_name` for the executor, a table for the replay binary.
macro_rules! entries {
    ($($name:ident => $f:path;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    };
}

entries! {
    h_scale => scale::scale;
    h_scale_tokens => scale::tokens;
    h_scale_render => scale::render;
    h_scale_cursor => scale::cursor;
    h_total_bytes => total::bytes;
    h_total_slots => total::slots;
    h_total_holes => total::holes;
    h_total_tails => total::tails;
    h_total_nesting => total::nesting;
    h_grammar_slots => grammar::slots;
    h_grammar_bodies => grammar::bodies;
    h_grammar_files => grammar::files;
    h_grammar_holes => grammar::holes;
    h_grammar_chars => grammar::chars;
    h_grammar_words => grammar::words;
    h_grammar_tails => grammar::tails;
    h_unterminated => grammar::unterminated;
    h_trivia => grammar::trivia;
    h_trivia_bytes => grammar::trivia_bytes;
    h_graphs => multi::graphs;
    h_chains => multi::chains;
    h_many => multi::many;
    h_long_histories => multi::long_histories;
    h_histories => multi::histories;
    h_edits => multi::edits;
    h_include_paths => multi::include_paths;
    h_include_nested => multi::include_nested;
    h_references => multi::references;
    h_directives => multi::directives;
    h_positions => query::positions;
    h_position_holes => query::position_holes;
    h_cursor => query::cursor;
    h_rendering => query::rendering;
    h_rendering_kinds => query::rendering_kinds;
    h_rendering_texts => query::rendering_texts;
    h_hash_seeds => query::hash_seeds;
    h_hash_cycles => query::hash_cycles;
    h_guard => query::guard;
    h_lex_bytes => lex::bytes;
    h_lex_heads => lex::heads;
    h_lex_frags => lex::frags;
    h_numbers => values::numbers;
    h_number_limits => values::limits;
    h_bytestrings => values::bytestrings;
    h_strings => values::strings;
    h_names => values::names;
}
