//! Positions, what is under a cursor, rendering, hash seeds, import cycles.
use super::ast;
use super::common::*;
use super::grammar::{self, is_error, width};
use super::multi;
use super::spec::{self, Spec};
use super::sx;
use ginko::dts::verif_hooks::*;
use ginko::dts::*;
use std::path::Path as StdPath;
use std::sync::Arc;

// ---- positions ----

/// `s` lies in the text; it may end one character behind the end of a line (where something is missing)
pub fn within(lines: &[u32], s: Span) -> bool {
    let (a, b) = (s.start(), s.end());
    let inside = |p: Position, slack: u32| (p.line() as usize) < lines.len() && p.character() <= lines[p.line() as usize] + slack;
    a <= b && inside(a, 0) && inside(b, 1)
}

fn covers(a: Span, b: Span) -> bool {
    a.start() <= b.start() && b.end() <= a.end()
}

fn node_nested(n: &Node) -> bool {
    let s = n.span();
    if !covers(s, n.name.span()) || n.label.as_ref().is_some_and(|l| !covers(s, l.span())) {
        return false;
    }
    payload_nested(&n.payload, s)
}
fn payload_nested(p: &NodePayload, s: Span) -> bool {
    let mut last = s.start();
    for i in &p.items {
        let (x, ok) = match i {
            NodeItem::Node(n) => (n.span(), node_nested(n)),
            NodeItem::Property(q) => (
                q.span(),
                covers(q.span(), q.name.span())
                    && q.values.iter().all(|v| covers(q.span(), v.span()))
                    && q.values.windows(2).all(|w| w[0].span().end() <= w[1].span().start()),
            ),
            NodeItem::DeletedNode(t, n) => (Span::new(t.start(), n.end()), t.end() <= n.start()),
            NodeItem::DeletedProperty(t, n) => (Span::new(t.start(), n.end()), t.end() <= n.start()),
        };
        if !ok || !covers(s, x) || x.start() < last {
            return false;
        }
        last = x.end();
    }
    last <= s.end()
}

pub fn positions_ok(r: &Run) {
    let map = Map::new(&r.text);
    let lines = map.lines();
    let file: Arc<StdPath> = r.path.clone().into();
    for d in r.diags() {
        sx::reach("diagnostic");
        if !within(&lines, d.span) {
            sx::note("span", format!("{} {:?}", d.kind.as_ref(), d.span).as_bytes());
        }
        sx::check(within(&lines, d.span), "a diagnostic points into the text");
        sx::check(d.source == file, "a diagnostic names the file it is about");
    }
    if let Some(f) = r.project.get_root(&r.path) {
        sx::reach("tree");
        for e in ast::events(f) {
            if let Some(s) = e.span {
                sx::check(within(&lines, s) && s.start() < s.end() || e.what.starts_with("end"), "an element of the tree is at a place in the text");
            }
        }
        let mut last = Position::zero();
        for p in &f.elements {
            let s = match p {
                Primary::Root(n) => {
                    sx::check(node_nested(n), "what a node contains lies within the node, in order");
                    n.span()
                }
                Primary::ReferencedNode(n) => {
                    let s = n.span();
                    sx::check(payload_nested(&n.payload, s), "what a node contains lies within the node, in order");
                    s
                }
                Primary::Directive(AnyDirective::Include(i)) => i.span(),
                _ => continue,
            };
            sx::check(s.start() >= last, "top-level elements lie behind each other");
            last = s.end();
        }
    }
}

const TOK: &[&str] = &[
    "/", "{", "}", ";", "=", "<", ">", "[", ",", "a", "l:", "n@\u{e9}", "\"\u{e9}\u{20ac}\"", "\"\n\u{e9}\"", "/*\u{20ac}\n*/", "//\u{e9}\n", "\u{20ac}", "\u{e9}\t", "\n", "&l", "&{/\u{e9}?}", "&",
    "12", "0xZ", "/dts-v1/", "/delete-node/", "/omit-if-no-ref/", "/memreserve/", "(", "\"", "/*", "/include/", "compatible",
];
const PRE: &[(&str, &str)] = &[("", ""), ("/ {", "};"), ("/ { a = \"\u{e9}\", ", "; b; };\n"), ("/ { a = <", "\n>;\n};"), ("/ { n {", "} a; };")];

/// k tokens, glued together, some outside ASCII, in several contexts
pub fn positions() {
    let k = sx::param("k", 2) as usize;
    let c = sx::choose("context", PRE.len());
    let mut t = PRE[c].0.as_bytes().to_vec();
    let glue = sx::flip("glue");
    for _ in 0..k {
        if glue {
            t.extend_from_slice(TOK[sx::choose("t", TOK.len())].as_bytes());
        } else {
            sx::slot("t", TOK, width(TOK), &mut t);
        }
    }
    t.extend_from_slice(PRE[c].1.as_bytes());
    positions_ok(&analyze("a.dts", t));
}

/// any n characters in several contexts
pub fn position_holes() {
    let n = sx::param("n", 2) as usize;
    let c = sx::choose("context", PRE.len());
    let t = cat(&[PRE[c].0.as_bytes(), &sym_text("b", n, true), PRE[c].1.as_bytes()]);
    positions_ok(&analyze("a.dts", t));
}

// ---- what is under the cursor ----

const CURSOR: &[&str] = &[
    "/ { k: a = <&l 1 &{/n}>,\n  &m; l: n@1 { }; };",
    "&l { /delete-node/ x;\n m: n { b = <&m>; }; };",
    "/delete-node/ &l;\n/omit-if-no-ref/ &{/n};\n\n&{/n} { };",
    "/include/ \"x.dtsi\"\n/dts-v1/; /memreserve/ 1 2;",
    "/ { a = \"\u{e9}&l\", &l; /omit-if-no-ref/\n o: p { }; };",
    "#include \"y.h\"\n/ { c = [01 q: 02], q: &m; };\n",
];

/// any cursor on any of the documents
pub fn cursor() {
    let mut t = vec![];
    let d = sx::choose("document", CURSOR.len());
    t.extend_from_slice(CURSOR[d].as_bytes());
    let w = sx::param("stmts", 0) as usize;
    if w > 0 {
        t.extend_from_slice(b"\n/ { ");
        for _ in 0..w {
            sx::slot("s", grammar::STMT, width(grammar::STMT), &mut t);
        }
        t.extend_from_slice(b"};");
    }
    let r = analyze("a.dtsi", t);
    let (l, c) = (sx::u8("line") as u32, sx::u8("character") as u32);
    sx::assume(l < 6);
    let cur = Position::new(l, c);
    let got = r.project.find_at_pos(&r.path, &cur);
    let mut s = Spec::new(&r.text);
    if s.file().is_err() {
        sx::check(got.is_none() || r.project.get_root(&r.path).is_some(), "nothing is under a cursor where there is no tree");
        return;
    }
    let map = Map::new(&r.text);
    let mut want: Option<&spec::Ev> = None;
    for e in &s.ev {
        if matches!(e.what, "label" | "ref" | "path" | "include") && map.at(e.s) <= cur && cur < map.at(e.e) {
            want = Some(e);
        }
    }
    match (want, got) {
        (None, None) => sx::reach("nothing"),
        (Some(e), Some(i)) => {
            let (what, ok) = match i {
                ItemAtCursor::Label(l) => ("label", l.item().as_bytes() == e.text),
                ItemAtCursor::Reference(Reference::Label(l)) => ("ref", l.as_bytes() == e.text),
                ItemAtCursor::Reference(Reference::Path(p)) => ("path", format!("{p}").as_bytes() == e.text),
                ItemAtCursor::Include(i) => ("include", i.file_name.item().as_bytes() == e.text),
                _ => ("other", false),
            };
            sx::reach(what);
            sx::check(what == e.what && ok, "the item under the cursor is the one whose text the cursor is in");
        }
        (None, Some(_)) => sx::check(false, "nothing is found beside labels, references and includes"),
        (Some(_), None) => sx::check(false, "labels, references and includes are found under the cursor"),
    }
}

// ---- rendering ----

const KINDS: &[(ErrorCode, bool)] = &[
    (ErrorCode::UnexpectedEOF, true), (ErrorCode::Expected, true), (ErrorCode::ExpectedName, true), (ErrorCode::OddNumberOfBytestringElements, true), (ErrorCode::IntError, true),
    (ErrorCode::NonDtsV1, true), (ErrorCode::NameTooLong, false), (ErrorCode::IllegalChar, true), (ErrorCode::IllegalStart, true), (ErrorCode::UnresolvedReference, true),
    (ErrorCode::PropertyReferencedByNode, true), (ErrorCode::NonStringInCompatible, false), (ErrorCode::PathCannotBeEmpty, true), (ErrorCode::PropertyAfterNode, true),
    (ErrorCode::UnbalancedParentheses, true), (ErrorCode::MisplacedDtsHeader, true), (ErrorCode::DuplicateDirective, false), (ErrorCode::IncorrectDirective, true),
    (ErrorCode::ParserError, true), (ErrorCode::IOError, true), (ErrorCode::ErrorsInInclude, true), (ErrorCode::CyclicDependencyError, true),
];

/// any span in any text of `n` characters per line
pub fn rendering() {
    let n = sx::param("n", 3) as usize;
    let nl = sx::param("lines", 2) as usize;
    let mut lines: Vec<Vec<u8>> = vec![];
    for _ in 0..nl {
        let len = sx::choose("length", n + 1);
        let mut l = vec![];
        for _ in 0..len {
            if sx::flip("wide") {
                l.extend_from_slice("\u{20ac}".as_bytes());
            } else {
                let c = sx::u8("c");
                sx::assume(c < 0x80 && c != b'\n');
                l.push(c);
            }
        }
        lines.push(l);
    }
    let chars = |l: &Vec<u8>| l.iter().filter(|c| *c & 0xC0 != 0x80).count();
    let far = sx::flip("far");
    let a = sx::choose("line", nl);
    let ac = sx::choose("character", chars(&lines[a]) + 1);
    let b = a + sx::choose("end line", nl - a);
    let from = if b == a { ac } else { 0 };
    let bc = from + sx::choose("end character", chars(&lines[b]) + 2 - from);
    if far {
        // line numbers of two digits
        for _ in 0..9 {
            lines.insert(0, b"x".to_vec());
        }
    }
    let off = if far { 9 } else { 0 };
    let span = Span::new(Position::new((a + off) as u32, ac as u32), Position::new((b + off) as u32, bc as u32));
    let src: Arc<StdPath> = StdPath::new("/w/a b.dts").into();
    let d = [Diagnostic::new(span, src.clone(), ErrorCode::Expected, "some message")];
    let code = lines.iter().map(|l| unsafe { String::from_utf8_unchecked(l.clone()) }).collect();
    let got = format!("{}", DiagnosticPrinter { diagnostics: &d, code, severity_map: SeverityMap::default() });
    let mut want = vec![];
    block(&mut want, &lines, true, "/w/a b.dts", span, "some message");
    sx::reach("rendered");
    sx::check(got.as_bytes() == want, "a rendered diagnostic shows its severity, place, line, underline and message");
}

/// several diagnostics of any kind: one block each, in order
pub fn rendering_kinds() {
    let k = sx::param("k", 2) as usize;
    let lines = vec![b"ab\tc".to_vec(), b"".to_vec()];
    let src: Arc<StdPath> = StdPath::new("/w/a.dts").into();
    let mut d = vec![];
    let mut want = vec![];
    for i in 0..k {
        let (kind, error) = KINDS[sx::choose("kind", KINDS.len())];
        let span = Span::new(Position::new(0, i as u32), Position::new(0, i as u32 + 1));
        let m = ["first", "second", "third"][i % 3];
        sx::check((SeverityMap::default()[kind] == Severity::Error) == error, "every kind has its severity");
        d.push(Diagnostic::new(span, src.clone(), kind, m));
        sx::check(is_error(&d[i]) == error, "a diagnostic has the severity of its kind");
        block(&mut want, &lines, error, "/w/a.dts", span, m);
    }
    let code = lines.iter().map(|l| String::from_utf8(l.clone()).unwrap()).collect();
    let got = format!("{}", DiagnosticPrinter { diagnostics: &d, code, severity_map: SeverityMap::default() });
    sx::reach("rendered");
    sx::check(got.as_bytes() == want, "several diagnostics are rendered one after the other");
}

/// the diagnostics of real texts, rendered
pub fn rendering_texts() {
    let n = sx::param("n", 2) as usize;
    let c = sx::choose("context", PRE.len());
    let t = cat(&[b"/dts-v1/;\n", PRE[c].0.as_bytes(), &sym_text("b", n, true), PRE[c].1.as_bytes()]);
    let r = analyze("a.dts", t);
    renders(&r);
}

/// the diagnostics of a file, rendered
pub fn renders(r: &Run) {
    let lines: Vec<Vec<u8>> = text_lines(&r.text).into_iter().map(|s| s.into_bytes()).collect();
    let d: Vec<Diagnostic> = r.diags().into_iter().cloned().collect();
    let mut want = vec![];
    for x in &d {
        block(&mut want, &lines, is_error(x), r.path.to_str().unwrap(), x.span, &x.message);
    }
    let code = text_lines(&r.text);
    let got = format!("{}", DiagnosticPrinter { diagnostics: &d, code, severity_map: SeverityMap::default() });
    if !d.is_empty() {
        sx::reach("rendered");
    }
    sx::check(got.as_bytes() == want, "a rendered diagnostic shows its severity, place, line, underline and message");
}

// ---- hash seeds ----

const SEEDS: &[u64] = &[0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610, 987];
const H_TOPS: &[&str] = &[
    "/ { l: n { }; m: o { }; };",
    "/ { n { }; l: p; };",
    "/ { k: n { l: o { }; }; };",
    "&l { l: x { }; };",
    "&m { m: n { }; };",
    "/ { q = <&l &m &k>, &{/n/o}, &{/n/x}; };",
    "&{/n} { m: o { }; };",
    "/include/ \"b.dtsi\"",
    "/include/ \"c.dtsi\"",
];

/// the same files under two hash seeds: everything observable is the same
pub fn hash_seeds() {
    let k = sx::param("k", 3) as usize;
    let seed = SEEDS[1 + sx::choose("seed", (sx::param("seeds", 4) as usize).min(SEEDS.len() - 1))];
    let mut t = b"/dts-v1/;\n".to_vec();
    for _ in 0..k {
        sx::slot("s", H_TOPS, width(H_TOPS), &mut t);
    }
    let dir = sx::fs_root();
    sx::fs_add(&format!("{dir}/a.dts"), &t);
    sx::fs_add(&format!("{dir}/b.dtsi"), b"/include/ \"c.dtsi\"\n/ { k: b { }; };");
    sx::fs_add(&format!("{dir}/c.dtsi"), b"/ { k: c { }; m: n { }; };");
    let run = |s: u64| {
        sx::hash_seed(s);
        let mut p = Project::default();
        let _ = p.add_file(format!("{dir}/a.dts"));
        let mut v = vec![];
        for f in ["a.dts", "b.dtsi", "c.dtsi"] {
            let path = multi::path_of(f);
            let text = p.get_file(&path).map(|f| f.source().clone()).unwrap_or_default();
            v.push(multi::snapshot(&p, &path, text.as_bytes()));
        }
        v
    };
    let (a, b) = (run(SEEDS[0]), run(seed));
    if a != b {
        sx::note("seed 0", format!("{a:?}").as_bytes());
        sx::note("other seed", format!("{b:?}").as_bytes());
    }
    sx::reach("compared");
    sx::check(a == b, "results do not depend on the hash seed");
}

/// cyclic includes under two hash seeds
pub fn hash_cycles() {
    let seed = SEEDS[1 + sx::choose("seed", (sx::param("seeds", 6) as usize).min(SEEDS.len() - 1))];
    const I: &[&str] = &["", "/include/ \"a.dts\"", "/include/ \"b.dtsi\"", "/include/ \"c.dtsi\"", "/include/ \"b.dtsi\" /include/ \"c.dtsi\""];
    let dir = sx::fs_root();
    for f in ["a.dts", "b.dtsi", "c.dtsi"] {
        let mut t = b"/dts-v1/;\n".to_vec();
        sx::slot(f, I, width(I), &mut t);
        t.extend_from_slice(format!("\n/ {{ {}: n {{ }}; x = <&a &b &c>; }};", &f[..1]).as_bytes());
        sx::fs_add(&format!("{dir}/{f}"), &t);
    }
    let run = |s: u64| {
        sx::hash_seed(s);
        let mut p = Project::default();
        let _ = p.add_file(format!("{dir}/a.dts"));
        let mut v = vec![];
        for f in ["a.dts", "b.dtsi", "c.dtsi"] {
            let path = multi::path_of(f);
            let text = p.get_file(&path).map(|f| f.source().clone()).unwrap_or_default();
            v.push(multi::snapshot(&p, &path, text.as_bytes()));
        }
        v
    };
    let (a, b) = (run(SEEDS[0]), run(seed));
    if a != b {
        sx::note("seed 0", format!("{a:?}").as_bytes());
        sx::note("other seed", format!("{b:?}").as_bytes());
    }
    sx::reach("compared");
    sx::check(a == b, "results do not depend on the hash seed");
}

// ---- import guard ----

/// k dependencies among n elements, added one by one
pub fn guard() {
    let k = sx::param("k", 3) as usize;
    let n = sx::param("n", 3) as usize;
    let mut g: ImportGuard<u8> = ImportGuard::default();
    let mut e = vec![vec![false; n]; n];
    for _ in 0..k {
        let f = sx::choose("from", n);
        let t = sx::choose("to", n);
        e[f][t] = true;
        // everything that can be reached from `f`
        let mut reach = e[f].clone();
        for _ in 0..n {
            for a in 0..n {
                for b in 0..n {
                    if reach[a] && e[a][b] {
                        reach[b] = true;
                    }
                }
            }
        }
        match g.add(f as u8, &[t as u8]) {
            Ok(()) => {
                sx::reach("accepted");
                sx::check(!reach[f], "a dependency that closes a cycle is refused");
            }
            Err(x) => {
                sx::reach("refused");
                sx::check(reach[f], "only a dependency that closes a cycle is refused");
                let c = x.cycle();
                sx::check(c.len() >= 2 && c[0] == c[c.len() - 1], "the reported cycle is closed");
                sx::check(c.windows(2).all(|w| e[w[0] as usize][w[1] as usize]), "the reported cycle consists of dependencies");
            }
        }
    }
}
