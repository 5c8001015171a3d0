use super::common::*;
use super::drive::{Event, Server};
use super::multi;
use super::spec;
use super::sx;
use ginko::dts::{Diagnostic, FileType, Project, Severity, SeverityMap, HasSpan};
use std::path::{Path, PathBuf};
use tower_lsp::lsp_types::*;

const A: &[&str] = &[
    "/dts-v1/;\n/include/ \"b b.dtsi\"\n/ { x = &b; };",
    "/dts-v1/;\n/ { b: m { }; y = <&b &c>; };",
    "/dts-v1/;\n/ { /*\u{1d11e}*/compatible = <1>; };",
    "/ {",
    "/dts-v1/;\n/ { };",
];
const B: &[&str] = &["/ { /*\u{1d11e}\u{e9}*/ b: n { }; };", "/ { b: q { }; }", "/ { b: = };"];
const C: &[&str] = &["/ { c: k { }; };", "/ { };\n/ { /*\u{1d11e}*/ c: j", ""];
/// with a third file
const A3: &[&str] = &["/dts-v1/;\n/include/ \"b b.dtsi\"\n/ { x = &b, &c; };", "/dts-v1/;\n/include/ \"c.dtsi\"\n/ { y = <&b &c>; };", "/ {"];
const B3: &[&str] = &["/include/ \"c.dtsi\"\n/ { b: n { p = &c; }; };", "/include/ \"a.dts\"\n/ { b: q { }; };", "/ { b: m { } };\n"];
/// with include directories
const A4: &[&str] = &["/dts-v1/;\n/include/ \"b b.dtsi\"\n/ { x = &b, &d; };", "/dts-v1/;\n/include/ \"d.dtsi\"\n/ { y = <&b &d> };"];
const B4: &[&str] = &["/include/ \"d.dtsi\"\n/ { b: n { p = &d; }; };", "/ { b: q { }; };", "/ {"];
const NAMES: &[&str] = &["a.dts", "b b.dtsi", "c.dtsi"];

fn path_of(n: &str) -> PathBuf {
    PathBuf::from(format!("{}/{n}", sx::fs_root()))
}
fn pick(name: &str, rows: &[&str]) -> Vec<u8> {
    let mut v = vec![];
    sx::slot(name, rows, rows.iter().map(|r| r.len()).max().unwrap(), &mut v);
    v
}
fn st(v: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}
/// as the protocol counts: UTF-16 code units
fn units(t: &[u8], p: ginko::dts::Position) -> Position {
    let (mut line, mut chars, mut units) = (0, 0, 0);
    for b in t {
        if line == p.line() {
            // the first byte of a character
            if b & 0xC0 != 0x80 {
                if chars == p.character() || *b == b'\n' {
                    break;
                }
                chars += 1;
                units += if *b >= 0xF0 { 2 } else { 1 };
            }
        } else if *b == b'\n' {
            line += 1;
        }
    }
    Position::new(p.line(), units + p.character() - chars)
}
fn expected(p: &Project, path: &Path) -> Vec<(u32, u32, u32, u32, u8, String, String)> {
    let t = p.get_file(path).map(|f| f.source().as_bytes()).unwrap_or(b"");
    p.get_diagnostics(path)
        .map(|d: &Diagnostic| {
            let sev = match d.severity(&SeverityMap::default()) {
                Severity::Error => 1,
                Severity::Warning => 2,
                Severity::Hint => 4,
            };
            let (s, e) = (units(t, d.span().start()), units(t, d.span().end()));
            (s.line, s.character, e.line, e.character, sev, d.message.clone(), d.kind.as_ref().to_string())
        })
        .collect()
}
fn published(s: &Server, uri: &Url) -> Option<Vec<(u32, u32, u32, u32, u8, String, String)>> {
    let p = s.published.get(uri.as_str())?;
    Some(
        p.diagnostics
            .iter()
            .map(|d| {
                let sev = match d.severity {
                    Some(DiagnosticSeverity::ERROR) => 1,
                    Some(DiagnosticSeverity::WARNING) => 2,
                    Some(DiagnosticSeverity::INFORMATION) => 3,
                    Some(DiagnosticSeverity::HINT) => 4,
                    _ => 0,
                };
                let code = match &d.code {
                    Some(NumberOrString::String(s)) => s.clone(),
                    _ => String::new(),
                };
                (d.range.start.line, d.range.start.character, d.range.end.line, d.range.end.character, sev, d.message.clone(), code)
            })
            .collect(),
    )
}

/// the files that are open or included by them, directly or not; the others are as on disk
fn in_use(open: &[Option<Vec<u8>>; 3], texts: &[&[&str]; 3]) -> [bool; 3] {
    let mut used = [open[0].is_some(), open[1].is_some(), open[2].is_some()];
    for _ in 0..3 {
        for f in 0..3 {
            let t = match &open[f] {
                Some(t) => &t[..],
                None => texts[f][0].as_bytes(),
            };
            for g in 0..3 {
                let inc = format!("/include/ \"{}\"", NAMES[g]);
                if used[f] && t.windows(inc.len()).any(|w| w == inc.as_bytes()) {
                    used[g] = true;
                }
            }
        }
    }
    used
}

/// What the server published last, compared with a fresh project of the open files
fn compare(s: &Server, uris: &[Url], open: &[Option<Vec<u8>>; 3], texts: &[&[&str]; 3], nf: usize, incl: Vec<String>) -> Project {
    let mut q = Project::default();
    q.set_include_paths(incl);
    let used = in_use(open, texts);
    for f in 0..nf {
        if let Some(t) = &open[f] {
            q.add_file_with_text(path_of(NAMES[f]), st(t), FileType::from(path_of(NAMES[f]).as_path()));
        }
    }
    for f in 0..nf {
        let path = path_of(NAMES[f]);
        let got = published(&s, &uris[f]);
        if used[f] {
            let want = expected(&q, &path);
            if want.is_empty() {
                sx::reach("clean")
            } else {
                sx::reach("diagnostics")
            }
            sx::check(got == Some(want), "the diagnostics published last are those of the last text");
        }
    }
    sx::check(s.other == 0, "no message is shown");
    q
}

/// any sequence of k notifications
pub fn sequences() {
    let k = sx::param("k", 2) as usize;
    let nf = sx::param("files", 2) as usize;
    let dirs = sx::param("dirs", 0) as usize;
    let texts = if nf == 3 { [A3, B3, C] } else if dirs > 0 { [A4, B4, C] } else { [A, B, C] };
    if dirs > 0 {
        for (d, t) in [("i1", &b"/ { d: e { }; };"[..]), ("i2", b"/ { };\n/ { d: f { } };")] {
            sx::fs_mkdir(path_of(d).to_str().unwrap());
            sx::fs_add(path_of(&format!("{d}/d.dtsi")).to_str().unwrap(), t);
        }
    }
    let mut incl: Vec<String> = vec![];
    let uris: Vec<Url> = NAMES.iter().map(|n| Url::from_file_path(path_of(n)).unwrap()).collect();
    for (i, n) in NAMES.iter().enumerate() {
        // (the first document may never have been saved)
        if i == 0 && dirs > 0 && sx::flip("not saved") {
            continue;
        }
        // as long as the texts of the editor
        let mut t = texts[i][0].as_bytes().to_vec();
        t.resize(texts[i].iter().map(|r| r.len()).max().unwrap(), b' ');
        sx::fs_add(path_of(n).to_str().unwrap(), &t);
    }
    let mut s = Server::new(&[]);
    let mut open: [Option<Vec<u8>>; 3] = [None, None, None];
    for _ in 0..k {
        let f = sx::choose("file", nf + (dirs > 0) as usize);
        if f == nf {
            sx::reach("directories");
            incl = ["i1", "i2"][..sx::choose("directories", 1 + dirs)].iter().rev().map(|d| path_of(d).to_string_lossy().into_owned()).collect();
            s.configure(&incl);
            continue;
        }
        let what = if open[f].is_some() { 1 + sx::choose("event", 4) } else { 0 };
        match what {
            0 => {
                let t = pick("text", texts[f]);
                s.open(&uris[f], st(&t));
                open[f] = Some(t);
            }
            1 => {
                let t = pick("text", texts[f]);
                s.change(&uris[f], vec![st(&t)]);
                open[f] = Some(t);
            }
            2 => {
                let t = pick("text", texts[f]);
                s.change(&uris[f], vec!["/ { ?".to_string(), st(&t)]);
                open[f] = Some(t);
            }
            3 => s.save(&uris[f]),
            _ => {
                sx::reach("close");
                s.close(&uris[f]);
                open[f] = None;
                let used = in_use(&open, &texts);
                for g in 0..nf {
                    if !used[g] {
                        sx::check(published(&s, &uris[g]).is_none_or(|p| p.is_empty()), "a file that is neither open nor included has no diagnostics after a close");
                    }
                }
            }
        }
    }
    let q = compare(&s, &uris, &open, &texts, nf, incl);
    if dirs == 0 {
        let files: Vec<multi::File> = (0..3).map(|f| multi::File { name: NAMES[f], text: open[f].clone().unwrap_or(texts[f][0].as_bytes().to_vec()) }).collect();
        multi::all_targets(&q, &files, &[open[0].is_some(), open[1].is_some(), open[2].is_some()]);
    }
    // definitions and hovers
    for f in 0..nf {
        let Some(t) = &open[f] else { continue };
        let path = path_of(NAMES[f]);
        let map = Map::new(t);
        for (i, b) in t.iter().enumerate() {
            if *b == b'&' {
                let at = map.at(i);
                let want = match q.find_at_pos(&path, &at) {
                    Some(ginko::dts::ItemAtCursor::Reference(r)) => q.get_node_position(&path, r),
                    _ => None,
                };
                let got = s.definition(&uris[f], units(t, at));
                match (want, got) {
                    (None, None) => {}
                    (Some((sp, src)), Some(l)) => {
                        sx::reach("definition");
                        sx::check(l.uri.to_file_path().ok().as_deref() == Some(&*src), "a definition is in the file that defines the node");
                        let to = q.get_file(&src).unwrap().source().as_bytes();
                        sx::check((l.range.start, l.range.end) == (units(to, sp.start()), units(to, sp.end())), "a definition is at the name of the node");
                    }
                    _ => sx::check(false, "a definition is found where the reference resolves"),
                }
            }
        }
    }
}

fn range(t: &[u8], map: &Map, s: usize, e: usize) -> (Position, Position) {
    (units(t, map.at(s)), units(t, map.at(e)))
}

// ---- what is under the cursor ----

const DOCS: &[&str] = &[
    "/dts-v1/;\n/ { k: a = <&l 1 &{/n@1}>,\n  &m; l: n@1 { q: o { }; }; };",
    "/dts-v1/;\n/ { l: n { m: o@2 { }; }; };\n&l { /delete-node/ x;\n k: n { b = <&m &k>; }; };",
    "/dts-v1/;\n/ { l: n { a = &{/n@1}, &{/o}; }; n@2 { a = &{/n@2}; }; o@1 { b = <&{/o@2} &{/n@2/o@1}>; }; };\n&{/n@2} { o@1 { }; };\n&{/n} { };",
    "/dts-v1/; / { l: n { }; };\n/delete-node/ &l;\n/omit-if-no-ref/ &{/n};\n&{/n} { };",
    "/dts-v1/;\n/include/ \"x.dtsi\"\n/include/ \"none.dtsi\"\n/ { a = &x, <&y>; };",
    "/dts-v1/; / { a = \"\u{e9}&l\", &l; \n l: p { \u{e9}; }; };",
    "/dts-v1/; / { a = \"\u{e9}&l\", /*\u{20ac}*/ &l; \n l: p { }; };",
    "/dts-v1/; /*\u{1d11e}*/ / { a = \"\u{1d11e}\u{e9}\u{1d11e}\", &l, <&x>;\n \t/*\u{1f600}*/l: p { k: q; }; };\n/include/ \"\u{1d11e}.dtsi\" /*\u{1d11e}*/ /include/ \"x.dtsi\"",
];

const X: &str = "\n/ {\n x: y { /*\u{1d11e}\u{e9}*/ y: x@7 { }; }; };";

const SHORT_A: &[&str] = &["/dts-v1/;\n/include/ \"b b.dtsi\"\n/ { x = &b; };", "/dts-v1/;\n/ { b: m { }; y = <&b &c>; };", ""];
const SHORT_B: &[&str] = &["/ { b: n { } };", "", "/ { b: = };"];

/// k notifications whose handlers run interleaved, in any order in which the server may run them
pub fn interleaved() {
    let k = sx::param("k", 2) as usize;
    let nt = sx::param("texts", 3) as usize;
    let texts = [SHORT_A, SHORT_B, C];
    let uris: Vec<Url> = NAMES.iter().map(|n| Url::from_file_path(path_of(n)).unwrap()).collect();
    for (i, n) in NAMES.iter().enumerate() {
        sx::fs_add(path_of(n).to_str().unwrap(), texts[i][0].as_bytes());
    }
    let mut s = Server::new(&[]);
    let mut open: [Option<Vec<u8>>; 3] = [None, None, None];
    for f in 0..sx::choose("open", 3) {
        s.open(&uris[f], texts[f][0].to_string());
        open[f] = Some(texts[f][0].as_bytes().to_vec());
    }
    let mut events = vec![];
    let mut closed = false;
    for _ in 0..k {
        let f = sx::choose("file", 2);
        let uri = uris[f].clone();
        closed = false;
        if open[f].is_some() && sx::flip("close") {
            events.push(Event::Close(uri));
            open[f] = None;
            closed = true;
            continue;
        }
        let t = texts[f][sx::choose("text", nt)].to_string();
        let was = open[f].replace(t.as_bytes().to_vec());
        events.push(if was.is_some() { Event::Change(uri, vec![t]) } else { Event::Open(uri, t) });
    }
    s.concurrently(events, |n| sx::choose("next", n));
    compare(&s, &uris, &open, &texts, 2, vec![]);
    // the last notification is a close
    if closed {
        sx::reach("close");
        let used = in_use(&open, &texts);
        for g in 0..2 {
            sx::check(used[g] || published(&s, &uris[g]).is_none_or(|p| p.is_empty()), "a file that is neither open nor included has no diagnostics after a close");
        }
    }
}

/// definition and hover at any position
pub fn cursor() {
    let d = sx::choose("document", DOCS.len());
    let t = DOCS[d].as_bytes().to_vec();
    sx::fs_add(path_of("a.dts").to_str().unwrap(), b"");
    sx::fs_add(path_of("x.dtsi").to_str().unwrap(), X.as_bytes());
    let uri = Url::from_file_path(path_of("a.dts")).unwrap();
    let path = path_of("a.dts");
    let mut s = Server::new(&[]);
    s.open(&uri, st(&t));
    let (l, c) = (sx::u8("line") as u32, sx::u8("character") as u32);
    sx::assume(l < 6);
    let def = s.definition(&uri, Position::new(l, c));
    let hov = s.hover(&uri, Position::new(l, c));
    let mut sp = spec::Spec::new(&t);
    if sp.file().is_err() {
        sx::check(def.is_none() && hov.is_none(), "nothing is found in a file without a tree");
        sx::reach("broken");
        return;
    }
    let map = Map::new(&t);
    let at = Position::new(l, c);
    let mut q = Project::default();
    q.add_file_with_text(path.clone(), st(&t), FileType::DtSource);
    let want = sp.ev.iter().rfind(|e| matches!(e.what, "label" | "ref" | "path" | "include") && units(&t, map.at(e.s)) <= at && at < units(&t, map.at(e.e)));
    let Some(e) = want else {
        sx::reach("nothing");
        sx::check(def.is_none(), "no definition where nothing is");
        sx::check(hov.is_none(), "no hover where nothing is");
        return;
    };
    sx::reach(e.what);
    multi::all_targets(&q, &[multi::File { name: "a.dts", text: t.clone() }, multi::File { name: "x.dtsi", text: X.as_bytes().to_vec() }], &[true, false]);
    let name = String::from_utf8_lossy(&e.text).into_owned();
    match e.what {
        "label" => {
            sx::check(def.is_none(), "a label is no reference");
            sx::check(hov == Some(name), "hovering over a label shows it");
        }
        "include" => {
            let file = path_of(&name);
            let there = name == "x.dtsi";
            match def {
                None => sx::check(!there, "an include leads to the included file"),
                Some(l) => {
                    sx::check(there && l.uri.to_file_path().ok() == Some(file), "an include leads to the included file");
                    sx::check(l.range.start == Position::new(0, 0) && l.range.end == Position::new(0, 0), "an include leads to the start of the file");
                }
            }
            sx::check(hov == Some(name), "hovering over an include shows the file name");
        }
        _ => {
            let target = match q.find_at_pos(&path, &map.at(e.s)) {
                Some(ginko::dts::ItemAtCursor::Reference(r)) => q.get_node_position(&path, r).map(|p| (p, q.document_reference(&path, r))),
                _ => None,
            };
            match (target, def) {
                (None, None) => sx::check(hov.is_none(), "hovering over an unresolved reference shows nothing"),
                (Some(((span, src), doc)), Some(l)) => {
                    sx::reach("resolved");
                    let text = if src.ends_with("x.dtsi") { X.as_bytes().to_vec() } else { t.clone() };
                    sx::check(l.uri.to_file_path().ok().as_deref() == Some(&*src), "a definition is in the file that defines the node");
                    sx::check((l.range.start, l.range.end) == (units(&text, span.start()), units(&text, span.end())), "a definition is at the name of the node");
                    // the hover names that node
                    let m2 = Map::new(&text);
                    let mut o = 0;
                    while o < text.len() && m2.at(o) != span.start() {
                        o += 1;
                    }
                    let mut n = o;
                    while n < text.len() && (spec::name_char(text[n])) {
                        n += 1;
                    }
                    let nm = st(&text[o..n]);
                    sx::check(hov.as_deref().is_some_and(|h| h.contains(&nm)), "hovering over a reference shows the node it leads to");
                    sx::check(hov == doc, "hovering over a reference shows what the project says");
                }
                _ => sx::check(false, "a definition is found where the reference resolves"),
            }
        }
    }
}

// ---- outline ----

const TOP: &[&str] = &[
    "/include/ \"x y.dtsi\"\n",
    "/ { };",
    "/ { a; l: b = <1>, \"\u{e9}\u{1d11e}\"; n@1 { }; };",
    "&l { c = \"x;\"; };",
    "&{/n@1/o} { m: o { p { q; }; /delete-node/ r@2; }; };",
    "/delete-node/ &l;",
    "/omit-if-no-ref/ &{/n@1};\n",
    "/memreserve/ 1 2;",
    "/plugin/;",
    "#include \"x.h\"\n",
];
const BODY: &[&str] = &[
    "a = <(1 + 2) &l>, [00 1f];",
    "l: b;",
    "n@1,0 { a; };",
    "/*;\u{1d11e}*/ m:\n n { o { }; p; };",
    "/delete-node/ n@1;",
    "/delete-property/ #x-cells;",
    "/omit-if-no-ref/ k: s { };",
];

/// k statements at the top, n inside a node
pub fn outline() {
    let k = sx::param("k", 2) as usize;
    let n = sx::param("n", 2) as usize;
    let mut t = b"/dts-v1/;\n".to_vec();
    for _ in 0..k {
        t.extend(pick("top", TOP));
    }
    if n > 0 {
        t.extend_from_slice(b"/ { w: n@0 { ");
        for _ in 0..n {
            t.extend(pick("body", BODY));
        }
        t.extend_from_slice(b"}; };");
    }
    sx::fs_add(path_of("a.dts").to_str().unwrap(), b"");
    let uri = Url::from_file_path(path_of("a.dts")).unwrap();
    let mut s = Server::new(&[]);
    s.open(&uri, st(&t));
    let mut sp = spec::Spec::new(&t);
    let ok = sp.file().is_ok();
    sx::check(ok, "the reference accepts the text");
    let Some(got) = s.symbols(&uri) else {
        sx::check(false, "a file with a syntax tree has an outline");
        return;
    };
    sx::reach("outline");
    let map = Map::new(&t);
    let mut i = 0;
    let want = symbols(&sp.ev, &mut i, &t);
    sx::check(i == sp.ev.len(), "oracle reads all events");
    same(&t, &want, &got, &map);
}

struct Sym {
    name: Vec<u8>,
    full: Vec<u8>,
    kind: u8,
    deleted: bool,
    at: (usize, usize),
    sel: (usize, usize),
    children: Vec<Sym>,
}

fn symbols(ev: &[spec::Ev], i: &mut usize, t: &[u8]) -> Vec<Sym> {
    let mut v = vec![];
    let refname = |e: &spec::Ev| -> Vec<u8> {
        if e.what == "ref" {
            [b"&", &e.text[..]].concat()
        } else {
            [b"&{", &e.text[..], b"}"].concat()
        }
    };
    while *i < ev.len() {
        let e = &ev[*i];
        *i += 1;
        match e.what {
            "end" => {
                *i -= 1;
                return v;
            }
            "root" | "node" | "reference-node" => {
                let (mut at, mut sel, name, full);
                if e.what == "reference-node" {
                    let r = &ev[*i];
                    *i += 1;
                    name = refname(r);
                    full = name.clone();
                    at = (r.s, 0);
                    sel = (r.s, r.e);
                } else {
                    at = (e.s, 0);
                    sel = (e.s, e.e);
                    full = e.text.clone();
                    name = match e.text.iter().position(|b| *b == b'@') {
                        Some(p) => e.text[..p].to_vec(),
                        None => e.text.clone(),
                    };
                }
                while *i < ev.len() && matches!(ev[*i].what, "label" | "omit") {
                    if ev[*i].what == "label" {
                        at.0 = ev[*i].s;
                    }
                    *i += 1;
                }
                let children = symbols(ev, i, t);
                at.1 = ev[*i].e;
                *i += 1;
                let _ = &mut sel;
                v.push(Sym { name, full, kind: 2, deleted: false, at, sel, children });
            }
            "property" => {
                let mut at = (e.s, 0);
                while ev[*i].what != "end-property" {
                    if ev[*i].what == "label" && at.0 == e.s {
                        at.0 = ev[*i].s;
                    }
                    *i += 1;
                }
                at.1 = ev[*i].e;
                *i += 1;
                v.push(Sym { name: e.text.clone(), full: e.text.clone(), kind: 7, deleted: false, at, sel: (e.s, e.e), children: vec![] });
            }
            "delete-node" | "delete-property" => {
                let n = &ev[*i];
                *i += 1;
                v.push(Sym { name: n.text.clone(), full: n.text.clone(), kind: if e.what == "delete-node" { 2 } else { 7 }, deleted: true, at: (e.s, n.e), sel: (n.s, n.e), children: vec![] });
            }
            "delete" | "omit" => {
                let n = &ev[*i];
                *i += 1;
                v.push(Sym { name: refname(n), full: refname(n), kind: if e.what == "delete" { 2 } else { 8 }, deleted: e.what == "delete", at: (e.s, n.e), sel: (n.s, n.e), children: vec![] });
            }
            "include" => {
                let q = e.s + t[e.s..].iter().position(|b| *b == b'"').unwrap();
                let name = [b"include ", &e.text[..]].concat();
                v.push(Sym { name: name.clone(), full: name, kind: 1, deleted: false, at: (e.s, e.e), sel: (q, e.e), children: vec![] });
            }
            _ => {}
        }
    }
    v
}

fn same(t: &[u8], want: &[Sym], got: &[DocumentSymbol], map: &Map) {
    if want.len() != got.len() {
        for g in got {
            sx::note("symbol", g.name.as_bytes());
        }
        for w in want {
            sx::note("wanted", &w.name);
        }
        sx::check(false, "the outline has exactly the elements of the file");
        return;
    }
    for (w, g) in want.iter().zip(got) {
        sx::check(g.name.as_bytes() == w.name || g.name.as_bytes() == w.full, "elements of the outline have their names");
        sx::check((g.range.start, g.range.end) == range(t, map, w.at.0, w.at.1), "the range of an outline element is that of the element");
        sx::check((g.selection_range.start, g.selection_range.end) == range(t, map, w.sel.0, w.sel.1), "the selection range of an outline element is its name");
        let kind = match g.kind {
            SymbolKind::FILE => 1,
            SymbolKind::MODULE => 2,
            SymbolKind::PROPERTY => 7,
            SymbolKind::FIELD => 8,
            _ => 0,
        };
        sx::check(kind == w.kind, "nodes, properties and files have their own kinds");
        sx::check(g.tags.as_ref().is_some_and(|t| t.contains(&SymbolTag::DEPRECATED)) == w.deleted, "deletions are marked");
        same(t, &w.children, g.children.as_deref().unwrap_or(&[]), map);
    }
}

// ---- characters and sizes ----

/// published diagnostics, outline, definitions and hovers of one text
fn answers(t: Vec<u8>, most: usize) {
    sx::fs_add(path_of("a.dts").to_str().unwrap(), b"");
    let (uri, path) = (Url::from_file_path(path_of("a.dts")).unwrap(), path_of("a.dts"));
    let mut s = Server::new(&[]);
    s.open(&uri, st(&t));
    let mut q = Project::default();
    q.add_file_with_text(path.clone(), st(&t), FileType::DtSource);
    let want = expected(&q, &path);
    sx::reach(if want.is_empty() { "clean" } else { "diagnostics" });
    sx::check(published(&s, &uri) == Some(want), "the diagnostics published last are those of the last text");
    let got = s.symbols(&uri);
    sx::check(got.is_some() == q.get_root(&path).is_some(), "there is an outline where there is a syntax tree");
    let mut sp = spec::Spec::new(&t);
    if sp.file().is_err() {
        sx::reach("broken");
        return;
    }
    let map = Map::new(&t);
    let mut i = 0;
    let want = symbols(&sp.ev, &mut i, &t);
    same(&t, &want, &got.unwrap_or_default(), &map);
    if most > 3 {
        multi::all_targets(&q, &[multi::File { name: "a.dts", text: t.clone() }], &[true]);
    }
    let ev: Vec<_> = sp.ev.iter().filter(|e| matches!(e.what, "label" | "ref" | "path" | "include")).collect();
    for (i, e) in ev.iter().enumerate() {
        if i >= most && i + most < ev.len() {
            continue;
        }
        sx::reach(e.what);
        let (from, to) = range(&t, &map, e.s, e.e);
        let name = st(&e.text);
        for at in [from, Position::new(to.line, to.character - 1)] {
            let (def, hov) = (s.definition(&uri, at), s.hover(&uri, at));
            if matches!(e.what, "label" | "include") {
                sx::check(hov.as_ref() == Some(&name), "hovering over a label or an include shows it");
                continue;
            }
            let target = match q.find_at_pos(&path, &map.at(e.s)) {
                Some(ginko::dts::ItemAtCursor::Reference(r)) => q.get_node_position(&path, r).map(|p| (p, q.document_reference(&path, r))),
                _ => None,
            };
            match (target, def) {
                (None, None) => sx::check(hov.is_none(), "hovering over an unresolved reference shows nothing"),
                (Some(((span, _), doc)), Some(l)) => {
                    sx::reach("resolved");
                    sx::check(l.uri == uri && (l.range.start, l.range.end) == (units(&t, span.start()), units(&t, span.end())), "a definition is at the name of the node");
                    sx::check(hov == doc, "hovering over a reference shows what the project says");
                }
                _ => sx::check(false, "a definition is found where the reference resolves"),
            }
        }
        let behind = s.definition(&uri, to).is_none();
        sx::check(behind || ev.iter().any(|x| x.s == e.e), "no definition behind a reference");
    }
}

const AROUND: &[(&str, &str)] = &[
    ("/dts-v1/;\n/ { l: n { }; /*", "*/ a = <&l>, \"s\", &k; m: o@1 { }; b = &{/n}; };"),
    ("/dts-v1/;\n/ { l: n { }; a = \"", "\", <&l 1 &k>; m: o@1 { }; b = &{/n}; };"),
    ("/dts-v1/;\n//", "\n/ { a = \"\u{1d11e}\", &l; l: o@1 { }; };"),
    ("/dts-v1/; / { l: n { };", " a = &l; };"),
    ("/dts-v1/; / { l: n { a = &k", "; }; b = &l; };"),
    ("/dts-v1/; / { l: n { }; a = <&l ", ">, &l; };"),
    ("/dts-v1/; /include/ \"", "x.dtsi\" / { l: n { b = &l, \"\n\u{1f600}\"; c = &l; }; };"),
];

/// any n characters in 7 places
pub fn chars() {
    let n = sx::param("n", 1) as usize;
    let (a, b) = AROUND[sx::choose("place", AROUND.len())];
    // (a file name is compared with those on disk: one byte there)
    let max = if a.contains("include") { 1 } else { 4 };
    let t = cat(&[a.as_bytes(), &sym_chars("c", n, max), b.as_bytes()]);
    answers(t, 9);
}

/// large documents
pub fn scale() {
    answers(super::shapes::doc(), 3);
}

// ---- any text, any request ----

const TOK: &[&str] = &[
    "/dts-v1/", ";", "/", "{", "}", "=", "<", ">", "[", "]", "(", ",", "foo", "n@1", "l:", "\"s\"", "12", "&l", "&{/n}", "&", "/include/", "\"a.dts\"", "\"b b.dtsi\"",
    "/delete-node/", "\"", "/*", "\u{20ac}", "/*\u{1d11e}*/", "\n",
];

/// any k tokens; the server answers everything
pub fn any() {
    let k = sx::param("k", 3) as usize;
    let mut t = b"/dts-v1/;/ {".to_vec();
    if sx::flip("top") {
        t.truncate(9);
    }
    for _ in 0..k {
        t.extend(pick("t", TOK));
    }
    for (i, n) in NAMES[..2].iter().enumerate() {
        sx::fs_add(path_of(n).to_str().unwrap(), [A, B][i][0].as_bytes());
    }
    let uri = Url::from_file_path(path_of("a.dts")).unwrap();
    let mut s = Server::new(&[]);
    s.open(&uri, st(&t));
    let mut q = Project::default();
    q.add_file_with_text(path_of("a.dts"), st(&t), FileType::DtSource);
    sx::check(published(&s, &uri) == Some(expected(&q, &path_of("a.dts"))), "the diagnostics published last are those of the last text");
    let p = Position::new(sx::choose("line", 2) as u32, sx::choose("character", 5) as u32 * 5);
    let _ = s.definition(&uri, p);
    let _ = s.hover(&uri, p);
    let o = s.symbols(&uri);
    sx::check(o.is_some() == q.get_root(&path_of("a.dts")).is_some(), "there is an outline where there is a syntax tree");
    sx::reach(if o.is_some() { "outline" } else { "no outline" });
    let mut sp = spec::Spec::new(&t);
    if sp.file().is_ok() {
        let mut i = 0;
        let want = symbols(&sp.ev, &mut i, &t);
        same(&t, &want, &o.unwrap_or_default(), &Map::new(&t));
    }
    s.close(&uri);
}

/// documents that are no files, or not on disk
pub fn places() {
    const URI: &[&str] = &["untitled:Untitled-1", "http://host/a.dts", "git:/w/own/a.dts?x", "data:,x"];
    let other = sx::choose("place", URI.len() + 2);
    let mut s = Server::new(&[]);
    sx::fs_mkdir(path_of("own").to_str().unwrap());
    sx::fs_add(path_of("own/b.dtsi").to_str().unwrap(), b"/ { b: n { }; };");
    let text = "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { x = &b, &c; };";
    if other < URI.len() {
        let uri = Url::parse(URI[other]).unwrap();
        s.open(&uri, text.to_string());
        sx::check(s.other == 1, "a message says that the document is no file");
        s.change(&uri, vec![text.to_string()]);
        s.save(&uri);
        let p = Position::new(2, 9);
        sx::check(s.definition(&uri, p).is_none() && s.hover(&uri, p).is_none() && s.symbols(&uri).is_none(), "a document that is no file has no answers");
        s.close(&uri);
        sx::check(s.published.values().all(|p| p.diagnostics.is_empty()), "nothing is published for a document that is no file");
        sx::reach("no file");
        return;
    }
    // not saved yet: its directory exists, or not
    let path = path_of(if other == URI.len() { "own/new file.dts" } else { "none/new.dts" });
    let uri = Url::from_file_path(&path).unwrap();
    s.open(&uri, text.to_string());
    let n = published(&s, &uri).map(|v| v.len());
    sx::check(n == Some(if other == URI.len() { 1 } else { 3 }), "a file that is not on disk is analysed");
    sx::check(s.definition(&uri, Position::new(2, 9)).is_some() == (other == URI.len()), "references of a file that is not on disk are followed");
    s.close(&uri);
    sx::check(published(&s, &uri).is_some_and(|v| v.is_empty()), "a closed file has no diagnostics");
    sx::reach("not on disk");
}

/// `u` with all characters encoded that need not be a part of the syntax
fn encoded(u: &Url) -> Url {
    let mut t = "file://".to_string();
    for b in u.to_file_path().unwrap().to_str().unwrap().bytes() {
        if b.is_ascii_alphabetic() || b == b'/' {
            t.push(b as char);
        } else {
            t.push_str(&format!("%{b:02x}"));
        }
    }
    Url::parse(&t).unwrap()
}

/// names of files and directories that are special in some way, and documents named differently by the client
pub fn names() {
    const DIR: &[&str] = &["d", "d e", "d%41#", "\u{e4}\u{1d11e}"];
    const NAME: &[&str] = &["a", "a b", "a%20b", "a#b", "a?b", "a+b,c;d=e&f@g", "[a]", "\u{e4}\u{20ac}\u{1d11e}", "a'b", ".a", "a.b"];
    let dir = DIR[sx::choose("directory", DIR.len())];
    let name = NAME[sx::choose("name", NAME.len())];
    let inc = NAME[sx::choose("included", NAME.len())];
    let (main, incl) = (format!("{dir}/{name}.dts"), format!("{dir}/{inc}.dtsi"));
    let text = format!("/dts-v1/;\n/include/ \"{inc}.dtsi\"\n/ {{ x = &b; }};");
    let lib = "\n/ { b: n { } };";
    sx::fs_mkdir(path_of(dir).to_str().unwrap());
    sx::fs_add(path_of(&incl).to_str().unwrap(), lib.as_bytes());
    let saved = sx::flip("saved");
    if saved {
        sx::fs_add(path_of(&main).to_str().unwrap(), text.as_bytes());
    }
    let plain = Url::from_file_path(path_of(&main)).unwrap();
    let uri = match sx::choose("spelling", 3) {
        0 => plain,
        1 => encoded(&plain),
        _ => Url::parse(&plain.to_string().replace("/d", "/./d")).unwrap(),
    };
    let mut s = Server::new(&[]);
    s.open(&uri, text.clone());
    let of = |s: &Server, p: &Path| {
        // (its name may be spelled differently than by the client)
        let v: Vec<_> = s.published.values().filter(|d| d.uri.to_file_path().is_ok_and(|q| q == p)).collect();
        if v.is_empty() { None } else { Some(v.iter().map(|d| d.diagnostics.len()).sum()) }
    };
    sx::check(of(&s, &path_of(&main)) == Some(1) && of(&s, &path_of(&incl)) == Some(1), "diagnostics are published for the file and what it includes");
    sx::check(s.definition(&uri, Position::new(2, 9)).and_then(|l| l.uri.to_file_path().ok()) == Some(path_of(&incl)), "a definition is in the file that defines the node");
    sx::check(s.definition(&uri, Position::new(1, 11)).and_then(|l| l.uri.to_file_path().ok()) == Some(path_of(&incl)), "an include leads to the included file");
    sx::check(s.hover(&uri, Position::new(1, 11)) == Some(format!("{inc}.dtsi")), "hovering over an include shows the file name");
    sx::check(s.symbols(&uri).is_some_and(|v| v.len() == 2 && v[0].name == format!("include {inc}.dtsi")), "a file with a syntax tree has an outline");
    // the included file as well
    let other = encoded(&Url::from_file_path(path_of(&incl)).unwrap());
    s.open(&other, "/ { b: n { }; };".to_string());
    sx::check(of(&s, &path_of(&main)) == Some(0) && of(&s, &path_of(&incl)) == Some(0), "diagnostics are published for the file and what it includes");
    s.close(&other);
    sx::check(of(&s, &path_of(&main)) == Some(1) && of(&s, &path_of(&incl)) == Some(1), "diagnostics are published for the file and what it includes");
    s.close(&uri);
    sx::check(of(&s, &path_of(&main)) == Some(0) && of(&s, &path_of(&incl)) == Some(0), "a closed file has no diagnostics");
    sx::reach(if saved { "saved" } else { "not saved" });
}

/// include directories from the configuration
pub fn includes() {
    let root = sx::fs_root();
    for d in ["own", "i1", "i2"] {
        sx::fs_mkdir(&format!("{root}/{d}"));
    }
    let mut at = vec![];
    for d in ["own", "i1", "i2"] {
        let there = sx::flip(d);
        if there {
            sx::fs_add(&format!("{root}/{d}/x.dtsi"), b"/ { l: n { }; };");
        }
        at.push(there);
    }
    let order = sx::choose("include paths", 4);
    let (i1, i2) = (format!("{root}/i1"), format!("{root}/i2"));
    let incl = [vec![], vec![i1.clone()], vec![i1.clone(), i2.clone()], vec![i2, i1]];
    let search: &[usize] = [&[0][..], &[0, 1], &[0, 1, 2], &[0, 2, 1]][order];
    let when = sx::choose("configured", 3);
    // a ';' may be missing
    let flaw = sx::choose("flaw", 2);
    let mut s = Server::new(if when > 0 { &[] } else { &incl[order] });
    if when == 1 {
        s.configure(&incl[order]);
    }
    let path = PathBuf::from(format!("{root}/own/a.dts"));
    let uri = Url::from_file_path(&path).unwrap();
    s.open(&uri, ["/dts-v1/;\n/include/ \"x.dtsi\"\n/ { x = &l; };", "/dts-v1/;\n/include/ \"x.dtsi\"\n/ { x = &l };"][flaw].to_string());
    if when == 2 {
        s.configure(&incl[order]);
    }
    let want = search.iter().copied().find(|i| at[*i]).map(|i| PathBuf::from(format!("{root}/{}/x.dtsi", ["own", "i1", "i2"][i])));
    let def = s.definition(&uri, Position::new(2, 9)).and_then(|l| l.uri.to_file_path().ok());
    sx::check(def == want, "includes are taken from the configured directories");
    let n = published(&s, &uri).map(|v| v.len());
    sx::check(n == Some(flaw + if want.is_some() { 0 } else { 2 }), "a file whose includes are found has no diagnostics");
    sx::reach(if want.is_some() { "found" } else { "missing" });
}
