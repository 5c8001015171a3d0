//! Comparison of the implementation with the reference reading (`spec`).
use super::common::*;
use super::spec::{self, Spec, Why};
use super::sx;
use super::ast;
use super::sem;
use ginko::dts::*;

/// The outcome of reading `r.text` must be what the reference says: same tree, same
/// diagnostics; or at least one error at the place of the first syntax error.
pub fn conform(r: &Run) {
    if sx::param("print", 0) == 1 {
        return printed(r);
    }
    let mut s = Spec::new(&r.text);
    let res = s.file();
    let map = Map::new(&r.text);
    let di = r.diags();
    let root = r.project.get_root(&r.path);
    match res {
        Ok(()) => {
            sx::reach("accepted");
            let name = r.path.to_string_lossy();
            let sem = sem::analyze(0, sem::type_of(&name), &s.ev, &|_| sem::Included::Missing);
            s.di.extend(sem.di);
            if !s.di.is_empty() {
                sx::reach("accepted with diagnostics");
            }
            same_diags(&map, &s.di, &di);
            same_tree(&map, &s.ev, root);
        }
        Err(e) => {
            let first = di.iter().filter(|d| is_error(d)).filter(|d| !from_names(d)).next();
            sx::check(first.is_some(), "a text that is not well-formed gets an error");
            // nothing before the offending place is blamed
            let from = map.at(e.after);
            let to = match &e.why {
                Why::Bad(t) | Why::Semi(Some(t)) => map.at(t.e),
                _ => map.at(r.text.len()),
            };
            match e.why {
                Why::Bad(_) => sx::reach("rejected: token"),
                Why::Semi(_) => sx::reach("rejected: semicolon"),
                Why::Eof => sx::reach("rejected: end"),
            }
            if let Some(d) = first {
                // the parenthesis that is never closed may be blamed instead of the end of the file
                let paren = matches!(e.why, Why::Eof) && d.kind == ErrorCode::UnbalancedParentheses;
                sx::check(paren || d.span.start() >= from, "the first syntax error is not reported before the end of the valid part");
                sx::check(d.span.start() <= to, "the first syntax error is not reported behind the offending place");
            }
        }
    }
}

/// The printed tree of a well-formed text is read back as the same tree.
fn printed(r: &Run) {
    if Spec::new(&r.text).file().is_err() {
        return;
    }
    let Some(tree) = r.project.get_root(&r.path) else {
        sx::check(false, "a well-formed text has a syntax tree");
        return;
    };
    let text = format!("{tree}");
    sx::note("printed", text.as_bytes());
    let back = analyze("printed.dtsi", text.clone().into_bytes());
    let syntax = back.diags().iter().any(|d| is_error(d) && !from_names(d));
    sx::check(!syntax, "a printed tree has no syntax error");
    let Some(tree2) = back.project.get_root(&back.path) else {
        sx::check(false, "a printed tree is read back");
        return;
    };
    // (a group that is no byte string is reported, and holds no bytes)
    let mut a = ast::events(tree);
    let all = a.len();
    a.retain(|x| x.what != "bytestring" || !x.text.is_empty());
    let b = ast::events(tree2);
    for (x, y) in a.iter().zip(b.iter()) {
        sx::check(x.what == y.what, "a printed tree has the elements of the tree, in order");
        sx::check(x.text == y.text, "names and strings are printed as they are");
        sx::check(x.num == y.num, "numbers are printed with their values");
    }
    sx::check(a.len() == b.len(), "a printed tree has as many elements as the tree");
    sx::check(a.len() < all || format!("{tree2}") == text, "a tree that was read back is printed the same way");
    sx::reach("printed and read back");
}

pub fn is_error(d: &Diagnostic) -> bool {
    d.severity(&SeverityMap::default()) == Severity::Error
}
/// kinds that a well-formed text can get too
fn from_names(d: &Diagnostic) -> bool {
    use ErrorCode::*;
    !matches!(d.kind, Expected | UnexpectedEOF | UnbalancedParentheses | ParserError)
}

pub fn same_diags(map: &Map, want: &[spec::D], got: &[&Diagnostic]) {
    let mut used = vec![false; got.len()];
    for w in want {
        // one character wide, also when that character is a line end
        let sp = if w.e > w.s && matches!(w.kind, "illegal_char" | "expected") { map.at(w.s).as_char_span() } else { Span::new(map.at(w.s), map.at(w.e)) };
        let mut found = false;
        for (i, g) in got.iter().enumerate() {
            if !used[i] && g.kind.as_ref() == w.kind && g.span == sp {
                used[i] = true;
                found = true;
                break;
            }
        }
        if !found && !w.opt {
            sx::note("missing", format!("{} {:?}", w.kind, sp).as_bytes());
        }
        sx::check(found || w.opt, "every violated rule is reported with its kind, at its place");
    }
    for (i, g) in got.iter().enumerate() {
        if !used[i] {
            sx::note("unexpected", format!("{} {:?}", g.kind.as_ref(), g.span).as_bytes());
        }
        sx::check(used[i], "nothing is reported where no rule is violated");
    }
}

pub fn same_tree(map: &Map, want: &[spec::Ev], root: Option<&ginko::dts::verif_hooks::DtsFile>) {
    let Some(f) = root else {
        sx::check(false, "a well-formed text has a syntax tree");
        return;
    };
    let got = ast::events(f);
    for (w, g) in want.iter().zip(got.iter()) {
        if w.what != g.what {
            sx::note("tree", format!("expected {} found {}", w.what, g.what).as_bytes());
        }
        sx::check(w.what == g.what, "the syntax tree has the elements of the text, in order");
        sx::check(w.text == g.text, "names and strings in the tree are those in the text");
        sx::check(w.num == g.num, "numbers in the tree have the value of their literals");
        if w.e > 0 {
            if let Some(sp) = g.span {
                sx::check(sp == Span::new(map.at(w.s), map.at(w.e)), "tree elements have the position of their text");
            }
        }
    }
    sx::check(want.len() == got.len(), "the syntax tree has as many elements as the text");
}

/// alphabets by context; every token is followed by a blank
const TOP: &[&str] = &[
    "/dts-v1/", ";", "/", "{", "}", "<", "&l", "&{/n}", "&{}", "&", "/plugin/", "/memreserve/", "/delete-node/", "/delete-property/",
    "/omit-if-no-ref/", "#include", "\"s\"", "12", "0x10", "010", "99999999999", "n", "l:", "=", "/*c*/", "//\n",
];
const BODY: &[&str] = &[
    ";", "{", "}", "=", "<", "\"s\"", "1", "&l", "n", "p,q", "#a", "n@1", "n@1?", "l:", "a,b:", "/delete-node/", "/delete-property/",
    "/omit-if-no-ref/", "/bits/", "compatible", ",", "/", "//\n", "__symbols__",
];
const VALUE: &[&str] = &[
    ";", ",", "<", ">", "[", "]", "\"s\"", "\"\\\"\"", "1", "0x1f", "08", "4294967296", "&l", "&{/n@1/m}", "&{/n?}", "&", "ab", "abc", "l:", "/bits/", "(", ")",
    "}", "=", "{", "#", "/*x*/", "a@b",
];
struct Ctx {
    pre: &'static str,
    post: &'static str,
    rows: &'static [&'static str],
}
const CTX: &[Ctx] = &[
    Ctx { pre: "", post: "", rows: TOP },
    Ctx { pre: "/ { ", post: "};", rows: BODY },
    Ctx { pre: "/ { m { }; ", post: "};", rows: BODY },
    Ctx { pre: "/ { m { ", post: "}; q; };", rows: BODY },
    Ctx { pre: "/ { p = ", post: "; q; };", rows: VALUE },
    Ctx { pre: "/ { compatible = ", post: "; };", rows: VALUE },
    Ctx { pre: "/ { p = <", post: ">; };", rows: VALUE },
    Ctx { pre: "/ { p = [", post: "], \"s\"; };", rows: VALUE },
    Ctx { pre: "/ { }; &l {", post: "};", rows: BODY },
    Ctx { pre: "/ { }; /memreserve/ ", post: "; / { };", rows: TOP },
];

pub fn width(rows: &[&str]) -> usize {
    let mut w = 0;
    for r in rows {
        if r.len() > w {
            w = r.len()
        }
    }
    w + 1
}

pub const FILES: &[&str] = &["a.dtsi", "a.dts", "a.dtso"];

/// any k tokens in each context
pub fn slots() {
    let k = sx::param("k", 3) as usize;
    let only = sx::param("only", 99) as usize;
    let c = if only < CTX.len() { only } else { sx::choose("context", CTX.len()) };
    let c = &CTX[c];
    let mut t = c.pre.as_bytes().to_vec();
    for _ in 0..k {
        sx::slot("t", c.rows, width(c.rows), &mut t);
    }
    t.extend_from_slice(c.post.as_bytes());
    conform(&analyze(FILES[sx::choose("type", sx::param("types", 1) as usize)], t));
}

/// whole statements (a trailing ';' may be dropped by `unterminated`)
pub const STMT: &[&str] = &[
    "a;",
    "#p-q = <1>;",
    "l: b = \"s\";",
    "compatible = \"x,y\", \"z\";",
    "compatible = \"x\", <1>, [00 11], &l;",
    "c = <&l 0x10 (1 + 2) &{/n}>, [ab 01], &m;",
    "d = /bits/ 8 <1 2>, k: <m: 1>;",
    "e = \"\\\"\\\\\", [];",
    "n { };",
    "l: n { a; };",
    "m: n@1 { p: o { }; };",
    "/omit-if-no-ref/ k: r { x = <&k>; };",
    "/omit-if-no-ref/ x;",
    "/delete-node/ n@1;",
    "/delete-property/ a;",
    "n { q = <&{/n/n}>; n { }; };",
    "__symbols__ { };",
    "w = &{/r/n@1};",
];
/// whole top-level statements
pub const TOPS: &[&str] = &[
    "/dts-v1/;",
    "/plugin/;",
    "/memreserve/ 0x10 017;",
    "/ { };",
    "/ { l: n { }; };",
    "/ { m: n { o@1 { }; }; };",
    "/ { q = &l, <&m>, &{/n/o@1}; };",
    "&l { x { }; k: y { }; };",
    "&{/n} { a = &k; z { }; };",
    "&{/n/x} { };",
    "&{/} { n { }; };",
    "/delete-node/ &l;",
    "/delete-node/ &{/n/z};",
    "/omit-if-no-ref/ &k;",
    "#include \"f.h\"",
    "&k { };",
    "/ { l: p; };",
];

/// bodies of k statements, at three places of a file
pub fn bodies() {
    let k = sx::param("k", 2) as usize;
    let file = FILES[sx::choose("type", sx::param("types", 3) as usize)];
    let mut t = match sx::choose("place", 3) {
        0 => b"/dts-v1/; / { ".to_vec(),
        1 => b"/dts-v1/; / { n { ".to_vec(),
        _ => b"/dts-v1/; / { l: n { }; }; &l { ".to_vec(),
    };
    let two = t.ends_with(b"n { ");
    for _ in 0..k {
        sx::slot("s", STMT, width(STMT), &mut t);
    }
    t.extend_from_slice(if two { b"}; };" } else { b"};" });
    conform(&analyze(file, t));
}

/// files of k top-level statements
pub fn files() {
    let k = sx::param("k", 3) as usize;
    let file = FILES[sx::choose("type", sx::param("types", 3) as usize)];
    let mut t = vec![];
    for _ in 0..k {
        sx::slot("s", TOPS, width(TOPS), &mut t);
    }
    conform(&analyze(file, t));
}

/// the contexts in which a hole is placed: before, after, file
const HOLE: &[(&str, &str)] = &[
    ("", ""),
    ("/ {", "};"),
    ("/ { a", "; };"),
    ("/ { a = ", "; };"),
    ("/ { a = <", ">; };"),
    ("/ { a = [", "]; };"),
    ("/ { a = \"", "\"; };"),
    ("/ { a = <1>, ", "<2>; };"),
    ("/ { a = &", "; b = \"\"; };"),
    ("/ { n {", "}; };"),
    ("/ { n", " { }; };"),
    ("/ { l", ": n { }; };"),
    ("/ { n@", " { }; };"),
    ("/ { n { } ", "; a; };"),
    ("/ { a ", "; b; };"),
    ("/", "/;"),
    ("/dts-v1", "; / { };"),
    ("/dts-v1/", "/ { };"),
    ("/memreserve/ ", " 0x10;"),
    ("/memreserve/ 0x10 ", "; / { };"),
    ("/ { x: n { }; };\n&", "{ };"),
    ("/ { n { }; };\n&{/n", "} { };"),
    ("/delete-node/ &", ";"),
    ("/ { /delete-node/ ", "; };"),
    ("/ { /delete-property/ ", "; };"),
    ("/ { /*", "*/ a; };"),
    ("/ { //", "\n a; };"),
    ("/ { a = <(1 ", ")>; };"),
    ("/ { compatible = ", "; };"),
    ("/ { a = /bits/ ", " <1>; };"),
    ("/ { /omit-if-no-ref/ ", "n { }; };"),
    ("/ { a = <0", ">; };"),
    ("/ { a = <0x", " 2>; };"),
    ("/ { a = <1", "&l>; };"),
    ("/ { a = [1", "2]; };"),
    ("#include", "\"s\" / { };"),
    ("/ { }; /plugin", "/;"),
    ("/ { a = /bits", "/ 8 <1>; };"),
];

/// a hole of n arbitrary bytes (UTF-8, up to three-byte characters) in each syntactic context
pub fn holes() {
    let n = sx::param("n", 2) as usize;
    let only = sx::param("only", 99) as usize;
    let c = if only < HOLE.len() { only } else { sx::choose("context", HOLE.len()) };
    let h = sym_behind("b", n, HOLE[c].0, sx::param("multi", 1) == 1);
    conform(&analyze("a.dtsi", cat(&[HOLE[c].0.as_bytes(), &h, HOLE[c].1.as_bytes()])));
}

/// any n characters (of the whole of Unicode) in each syntactic context
pub fn chars() {
    let n = sx::param("n", 1) as usize;
    let only = sx::param("only", 99) as usize;
    let c = if only < HOLE.len() { only } else { sx::choose("context", HOLE.len()) };
    // (in a path every character becomes a path of its own: one of up to two bytes there)
    let h = if HOLE[c].0.ends_with("&{/n") { sym_chars("b", 1, 2) } else { sym_chars("b", n, 4) };
    conform(&analyze("a.dtsi", cat(&[HOLE[c].0.as_bytes(), &h, HOLE[c].1.as_bytes()])));
}

const NAME: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,._+-#";
const ALPHA: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const DIRECTIVE: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789-";
const HEX: &[u8] = b"0123456789abcdefABCDEF";
/// every ASCII character but '"', '\\' and '*'
const ANY: &[u8] = b"\t\r !#$%&'()+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~";
const WORD: &[(&str, &[u8], &str, usize)] = &[
    ("#include \"", ANY, "\"\n/dts-v1/;\n/ { a = &x; };", 99),
    ("/dts-v1/;\n/ { a", NAME, " = <1>, [00]; b = &x; };", 99),
    ("/dts-v1/;\n/ { ", ALPHA, "; b = &x; };", 99),
    ("/dts-v1/;\n/ { ", ALPHA, " = <1>, \"v\"; n { }; };", 99),
    ("/dts-v1/;\n/ { n { }; ", ALPHA, "; };", 99),
    ("/dts-v1/;\n/ { a = \"", ANY, "\", <&x>; b; };", 99),
    ("/dts-v1/;\n/ { compatible = <1>, \"", ANY, "\", &x; b; };", 99),
    ("/dts-v1/;\n/ { a = [", HEX, " 00]; b = &x; };", 3),
    ("/dts-v1/;\n/ { a = <1", b"0123456789", " &x>; b; };", 3),
    ("/dts-v1/;\n/memreserve/ 0x", HEX, " 1;\n/ { a = &x; };", 3),
    ("/dts-v1/;\n/*", ANY, "*/ / { a = &x; };", 99),
    ("/dts-v1/;\n//", ANY, "\n/ { a = &x; };", 99),
    ("/dts-v1/;\n/ { /delete-property/ a", NAME, "; b = &x; };", 99),
    ("/dts-v1/;\n/ { /delete-node/ ", ALPHA, "; b = &x; };", 99),
    ("/dts-v1/;\n/d", DIRECTIVE, "/;\n/ { a = &x; };", 99),
    ("/dts-v1/;\n/ { /d", DIRECTIVE, "/ b; };", 99),
];

/// words of n characters (numbers: up to three) in places where they are kept as they are
pub fn words() {
    let n = sx::param("n", 8) as usize;
    let only = sx::param("only", 99) as usize;
    let c = if only < WORD.len() { only } else { sx::choose("context", WORD.len()) };
    let mut t = WORD[c].0.as_bytes().to_vec();
    for _ in 0..n.min(WORD[c].3) {
        t.push(sx::oneof("c", WORD[c].1));
    }
    t.extend_from_slice(WORD[c].2.as_bytes());
    conform(&analyze("a.dts", t));
}

/// the same at the end of the file
pub fn tails() {
    let n = sx::param("n", 2) as usize;
    let c = sx::choose("context", HOLE.len());
    let h = sym_behind("b", sx::choose("length", n + 1), HOLE[c].0, sx::param("multi", 1) == 1);
    conform(&analyze("a.dtsi", cat(&[HOLE[c].0.as_bytes(), &h])));
}

/// Exactly one statement lacks its ';': one diagnostic there, and everything else is read as if it was there.
pub fn unterminated() {
    let k = sx::param("k", 2) as usize;
    let body = sx::flip("body");
    let rows = if body { STMT } else { TOPS };
    let mut t = if body { b"/ { first = <1>; ".to_vec() } else { vec![] };
    for _ in 0..k {
        t.extend_from_slice(rows[sx::choose("s", rows.len())].as_bytes());
        t.extend_from_slice([&b" "[..], b"\n", b" /* c */ // d\n", b"/*\n*/\t"][sx::param("lines", 1) as usize]);
    }
    if body {
        t.extend_from_slice(b"last; };");
    }
    // the terminating semicolons
    let mut semis = vec![];
    let mut lex = spec::Lex::new(&t);
    while let Some(x) = lex.next() {
        if x.k == spec::K::Semi {
            semis.push(x.s);
        }
    }
    if semis.is_empty() {
        return;
    }
    t[semis[sx::choose("semicolon", semis.len())]] = b' ';
    if sx::flip("cut") {
        while t.last().is_some_and(|b| b" \n\t".contains(b)) {
            t.pop();
        }
    }
    let r = analyze("a.dtsi", t);
    let mut s = Spec::new(&r.text);
    s.recover = true;
    let res = s.file();
    let mut di = r.diags();
    let map = Map::new(&r.text);
    sx::check(di.iter().any(|d| is_error(d)), "a missing ';' is an error");
    if res.is_err() || s.missing.len() != 1 {
        sx::reach("other");
        return;
    }
    sx::reach("recovered");
    let at = map.at(s.missing[0]);
    let n = di.iter().filter(|d| d.kind == ErrorCode::Expected).count();
    sx::check(n == 1, "one missing ';' is reported once");
    let i = di.iter().position(|d| d.kind == ErrorCode::Expected && d.span.start() == at);
    sx::check(i.is_some(), "a missing ';' is reported directly behind the statement");
    if let Some(i) = i {
        sx::check(di[i].message == "Expected ';'", "a missing ';' is named");
        di.remove(i);
    }
    let sem = sem::analyze(0, sem::Type::Include, &s.ev, &|_| sem::Included::Missing);
    s.di.extend(sem.di);
    same_diags(&map, &s.di, &di);
    same_tree(&map, &s.ev, r.project.get_root(&r.path));
}

// ---- white space and comments ----

const SEP: &[&str] = &[" ", "\n", "\t", "\r\n", "/**/", "/* ; } \" */", "// { ;\n", "  /*\n*/  ", "//\n"];
/// documents as token lists; a token that must not be glued to its successor is followed by a blank
const DOCS: &[&[&str]] = &[
    &["/dts-v1/", ";", "/plugin/", ";", "/memreserve/", "0x10 ", "017", ";", "#include ", "\"f.h\"", "/ ", "{", "}", ";"],
    &["/ ", "{", "l:", "n@1", "{", "compatible", "=", "\"a\\\"b\"", ",", "<", "1 ", "&l", "(", "1 ", "+", "2", ")", ">", ";", "}", ";", "}", ";"],
    &["/ ", "{", "a", "=", "[", "01 ", "ab ", "]", ",", "&{/n@1}", ",", "/bits/", "8 ", "<", "1 ", ">", ";", "#b", ";", "}", ";"],
    &["&l", "{", "/delete-node/", "n@1", ";", "/delete-property/", "#p", ";", "/omit-if-no-ref/", "m", "{", "}", ";", "}", ";", "/delete-node/", "&l", ";", "/omit-if-no-ref/", "&{/n}", ";"],
    &["/ ", "{", "n", "{", "q", "=", "l:", "<", "m:", "0x1f ", "k:", "&l", ">", "o:", ",", "j:", "\"s\"", ";", "}", ";", "p", ";", "n?", "{", "}", ";", "}", ";"],
];

/// the same tokens, separated differently in up to `gaps` places: same tree, same diagnostics
pub fn trivia() {
    let gaps = sx::param("gaps", 1) as usize;
    let doc = DOCS[sx::choose("document", DOCS.len())];
    let mut sep = vec![""; doc.len() + 1];
    let mut from = 0;
    for _ in 0..gaps {
        if from > doc.len() {
            break;
        }
        let g = from + sx::choose("gap", doc.len() + 1 - from);
        sep[g] = SEP[sx::choose("separator", SEP.len())];
        from = g + 1;
    }
    let mut base = vec![];
    let mut t = vec![];
    for (i, d) in doc.iter().enumerate() {
        t.extend_from_slice(sep[i].as_bytes());
        t.extend_from_slice(d.as_bytes());
        base.extend_from_slice(d.as_bytes());
    }
    t.extend_from_slice(sep[doc.len()].as_bytes());
    let b = analyze("a.dts", base);
    let r = analyze("b.dts", t);
    // as the reference says, including all positions
    conform(&r);
    // and independent of the reference: as without the separators
    let (db, dr) = (b.diags(), r.diags());
    sx::check(db.len() == dr.len() && db.iter().zip(dr.iter()).all(|(a, b)| a.kind == b.kind && a.message == b.message), "white space and comments do not change the diagnostics");
    let (Some(fb), Some(fr)) = (b.project.get_root(&b.path), r.project.get_root(&r.path)) else {
        sx::check(false, "white space and comments do not make a file unreadable");
        return;
    };
    let (eb, er) = (ast::events(fb), ast::events(fr));
    sx::check(eb.len() == er.len() && eb.iter().zip(er.iter()).all(|(a, b)| a.what == b.what && a.text == b.text && a.num == b.num), "white space and comments do not change the tree");
    sx::reach("compared");
}
/// any comment or white space of n bytes in one gap
pub fn trivia_bytes() {
    let n = sx::param("n", 3) as usize;
    let doc = DOCS[sx::choose("document", DOCS.len())];
    let g = sx::choose("gap", doc.len() + 1);
    let fill = match sx::choose("trivia", 3) {
        0 => cat(&[b"/*", &sym_text("b", n, true), b"*/"]),
        1 => cat(&[b"//", &sym_text("b", n, true), b"\n"]),
        _ => (0..n).map(|_| sx::oneof("b", b" \t\r\n\x0c")).collect(),
    };
    // what is inserted must be one piece of trivia
    if fill.len() > 3 && fill[0] == b'/' && fill[1] == b'*' {
        let body = &fill[2..fill.len() - 2];
        for i in 0..body.len() {
            let end = body[i] == b'*' && (i + 1 == body.len() || body[i + 1] == b'/');
            sx::assume(!(end && i + 1 < body.len()));
        }
    } else if fill[0] == b'/' {
        for b in &fill[2..fill.len() - 1] {
            sx::assume(*b != b'\n');
        }
    }
    let mut t = vec![];
    let mut base = vec![];
    for (i, d) in doc.iter().enumerate() {
        if i == g {
            t.extend_from_slice(&fill);
        }
        t.extend_from_slice(d.as_bytes());
        base.extend_from_slice(d.as_bytes());
    }
    if g == doc.len() {
        t.extend_from_slice(&fill);
    }
    let b = analyze("a.dts", base);
    let r = analyze("b.dts", t);
    conform(&r);
    let (db, dr) = (b.diags(), r.diags());
    sx::check(db.len() == dr.len() && db.iter().zip(dr.iter()).all(|(a, b)| a.kind == b.kind && a.message == b.message), "white space and comments do not change the diagnostics");
    sx::reach("compared");
}
