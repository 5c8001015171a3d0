//! Totality: no input makes analysis, rendering or queries panic.
use super::common::*;
use super::sx;
use ginko::dts::*;

/// everything a user can do with one analysed file
fn exercise(r: &Run, cursors: bool) {
    let d: Vec<Diagnostic> = r.diags().into_iter().cloned().collect();
    if d.is_empty() {
        sx::reach("clean");
    } else {
        sx::reach("diagnostics");
        let code = text_lines(&r.text);
        let s = format!("{}", DiagnosticPrinter { diagnostics: &d, code, severity_map: SeverityMap::default() });
        sx::check(!s.is_empty(), "rendering is not empty");
    }
    if cursors {
        let p = Position::new(sx::choose("line", 2) as u32, sx::choose("character", 8) as u32 * 2);
        if let Some(i) = r.project.find_at_pos(&r.path, &p) {
            sx::reach("item");
            if let ItemAtCursor::Reference(x) = i {
                let _ = r.project.get_node_position(&r.path, x);
                let _ = r.project.document_reference(&r.path, x);
            }
        }
    }
}

/// any text of exactly n ASCII bytes
pub fn bytes() {
    let n = sx::param("n", 5) as usize;
    let t = sym_text("b", n, false);
    exercise(&analyze("a.dts", t), false);
}

/// tokens and token fragments; every one is followed by blanks up to the slot width
const TOK: &[&str] = &[
    "/dts-v1/", ";", "/", "{", "}", "=", "<", ">", "[", "]", "(", ")", ",", "foo", "foo@1", "l:", "\"s\"", "12",
    "0xZ", "99999999999", "&l", "&{/foo}", "&{}", "&", "/plugin/", "/memreserve/", "/bits/", "/delete-node/",
    "/delete-property/", "/omit-if-no-ref/", "/include/", "#include", "/other/", "\"", "&{/x", "/*", "*/", "//", "\n", "?",
    "\\", "+1", "\"\n\"", "compatible",
];

/// any sequence of k tokens / token fragments
pub fn slots() {
    let k = sx::param("k", 4) as usize;
    let mut t = vec![];
    for _ in 0..k {
        sx::slot("t", TOK, 17, &mut t);
    }
    exercise(&analyze("a.dts", t), false);
}

/// the contexts in which a hole is placed: before, after
const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("/dts-v1/;", "\n/ { a; };"),
    ("/dts-v1/;\n/ {", "};"),
    ("/dts-v1/;\n/ { a", "; };"),
    ("/dts-v1/;\n/ { a = ", "; };"),
    ("/dts-v1/;\n/ { a = <", ">; };"),
    ("/dts-v1/;\n/ { a = [", "]; };"),
    ("/dts-v1/;\n/ { a = \"", "\"; };"),
    ("/dts-v1/;\n/ { a = <1>, ", "<2>; };"),
    ("/dts-v1/;\n/ { a = &", "; b = \"\"; };"),
    ("/dts-v1/;\n/ { n {", "}; };"),
    ("/dts-v1/;\n/ { n", " { }; };"),
    ("/dts-v1/;\n/ { l", ": n { }; };"),
    ("/dts-v1/;\n/ { n@", " { }; };"),
    ("/dts-v1/;\n/ { n { } ", "; a; };"),
    ("/dts-v1/;\n/", "/;"),
    ("/dts-v1/;\n/memreserve/ ", " 0x10;"),
    ("/dts-v1/;\n/memreserve/ 0x10 ", "; / { };"),
    ("/dts-v1/;\n/ { x: n { }; };\n&", "{ };"),
    ("/dts-v1/;\n/ { n { }; };\n&{/n", "} { };"),
    ("/dts-v1/;\n/include/ ", "\n/ { };"),
    ("/dts-v1/;\n/delete-node/ &", ";"),
    ("/dts-v1/;\n/ { /delete-node/ ", "; };"),
    ("/dts-v1/;\n/ { /*", "*/ a; };"),
    ("/dts-v1/;\n/ { //", "\n a; };"),
    ("/dts-v1/;\n/ { a = (1 ", "); };"),
    ("/dts-v1/;\n/ { compatible = ", "; };"),
    ("/dts-v1/;\n/ { a = /bits/ ", " <1>; };"),
    ("/dts-v1/;\n/ { /omit-if-no-ref/ ", "n { }; };"),
];

/// a hole of n arbitrary bytes (UTF-8, up to three-byte characters) in each syntactic context
pub fn holes() {
    let n = sx::param("n", 2) as usize;
    let c = sx::choose("context", CTX.len());
    let h = sym_behind("b", n, CTX[c].0, true);
    let t = cat(&[CTX[c].0.as_bytes(), &h, CTX[c].1.as_bytes()]);
    exercise(&analyze("a.dts", t), false);
}

/// the same at the end of the file
pub fn tails() {
    let n = sx::param("n", 2) as usize;
    let c = sx::choose("context", CTX.len());
    let h = sym_behind("b", n, CTX[c].0, true);
    exercise(&analyze("a.dts", cat(&[CTX[c].0.as_bytes(), &h])), false);
}

/// nested nodes, unterminated or not, and other repeated openings
pub fn nesting() {
    const DEPTH: &[usize] = &[1, 2, 40, 127, 128, 129, 400, 3000, 30000];
    const OPEN: &[(&str, &str)] = &[("n { ", "}; "), ("a = <", ">; "), ("a = (", "); "), ("/ { ", "}; "), ("l: n@1 { a = <1>; ", "b; }; "), ("&l { ", "}; "), ("/* ", "*/ "), ("a = [", "]; ")];
    let d = DEPTH[sx::choose("depth", DEPTH.len())];
    let o = sx::choose("opening", OPEN.len());
    let cut = sx::flip("cut off");
    let mut t = b"/dts-v1/;\n/ { ".to_vec();
    for _ in 0..d {
        t.extend_from_slice(OPEN[o].0.as_bytes());
    }
    if !cut {
        for _ in 0..d {
            t.extend_from_slice(OPEN[o].1.as_bytes());
        }
        t.extend_from_slice(b"};");
    }
    let r = analyze("a.dts", t);
    if !cut && d <= 40 && (o == 0 || o == 4 && d == 1) {
        sx::check(r.diags().is_empty(), "nested nodes are accepted");
    }
    // thousands of diagnostics of one long line take long to render
    if r.diags().len() < 500 {
        exercise(&r, false);
    }
}
