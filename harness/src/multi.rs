//! Several files: include graphs, resolution across files, edit histories, include paths.
use super::ast;
use super::common::*;
use super::grammar::{is_error, same_diags, same_tree, width};
use super::sem::{self, Env, Included};
use super::spec::{self, Spec};
use super::sx;
use ginko::dts::*;
use std::path::{Path as StdPath, PathBuf};

pub struct File {
    pub name: &'static str,
    pub text: Vec<u8>,
}

/// what the reference says about one file
pub struct Want {
    pub ok: bool,
    pub ev: Vec<spec::Ev>,
    pub di: Vec<spec::D>,
    pub env: Env,
    pub errors: bool,
}

const WARNINGS: &[&str] = &["name_too_long", "non_string_in_compatible", "duplicate_directive"];

/// the reference's view of an acyclic set of files; None when a cycle is reached
pub fn reference(files: &[File], i: usize, stack: &mut Vec<usize>, done: &mut Vec<Option<Want>>) -> bool {
    if done[i].is_some() {
        return true;
    }
    if stack.contains(&i) {
        return false;
    }
    stack.push(i);
    let f = &files[i];
    let mut s = Spec::new(&f.text);
    // a file that only lacks some ';' is read all the same
    s.recover = true;
    let ok = s.file().is_ok();
    let mut w = Want { ok, ev: vec![], di: vec![], env: Env::default(), errors: !ok };
    // "./" and "sub/../" do not matter
    fn plain(t: &[u8]) -> &[u8] {
        let t = t.strip_prefix(b"./").unwrap_or(t);
        t.strip_prefix(b"sub/../").unwrap_or(t)
    }
    let find = |e: &spec::Ev| files.iter().position(|f| f.name.as_bytes() == plain(&e.text));
    let mut acyclic = true;
    if ok {
        for e in s.ev.iter().filter(|e| e.what == "include") {
            if let Some(j) = find(e) {
                acyclic = acyclic && reference(files, j, stack, done);
            }
        }
        if acyclic {
            let sem = sem::analyze(i, sem::type_of(f.name), &s.ev, &|e| match find(e) {
                None => Included::Missing,
                Some(j) => {
                    let w = done[j].as_ref().unwrap();
                    Included::Known(&w.env, w.errors)
                }
            });
            w.di = s.di;
            for m in s.missing {
                let e = if (spec::Lex { t: &f.text, p: m, names: true }).next().is_none() { m } else { m + 1 };
                w.di.push(spec::D { kind: "expected", s: m, e, opt: false });
            }
            w.di.extend(sem.di);
            w.env = sem.env;
            w.errors = w.di.iter().any(|d| !d.opt && !WARNINGS.contains(&d.kind));
            w.ev = s.ev;
        }
    }
    stack.pop();
    if acyclic {
        done[i] = Some(w);
    }
    acyclic
}

pub fn path_of(name: &str) -> PathBuf {
    PathBuf::from(format!("{}/{}", sx::fs_root(), name))
}

/// the project agrees with the reference on file `i`, including where its references lead
pub fn file_conforms(p: &Project, files: &[File], i: usize, done: &[Option<Want>]) {
    let f = &files[i];
    let w = done[i].as_ref().unwrap();
    let path = path_of(f.name);
    let di: Vec<&Diagnostic> = p.get_diagnostics(&path).collect();
    if !w.ok {
        sx::check(di.iter().any(|d| is_error(d)), "a file that is not well-formed has an error");
        return;
    }
    let map = Map::new(&f.text);
    same_diags(&map, &w.di, &di);
    same_tree(&map, &w.ev, p.get_root(&path));
    targets(p, files, i, done);
}

/// every reference in file `i` leads to a node that it means, in the file that defines it
pub fn targets(p: &Project, files: &[File], i: usize, done: &[Option<Want>]) {
    let f = &files[i];
    let w = done[i].as_ref().unwrap();
    let path = path_of(f.name);
    let map = Map::new(&f.text);
    for e in w.ev.iter().filter(|e| matches!(e.what, "ref" | "path")) {
        let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&path, &map.at(e.s)) else {
            sx::check(false, "every reference is found at its position");
            continue;
        };
        let want = w.env.targets(e.what, &e.text);
        let got = p.get_node_position(&path, r);
        if w.env.vague && e.what == "path" || w.env.prop_label(&e.text) {
            continue;
        }
        match got {
            None => {
                // the root node has no name to go to but is a node all the same
                sx::check(want.is_empty(), "a reference to a known node leads to it");
            }
            Some((span, src)) => {
                sx::reach("target");
                let ok = want.iter().any(|d| {
                    let t = &files[d.file];
                    src == path_of(t.name).into() && span == {
                        let m = Map::new(&t.text);
                        Span::new(m.at(d.s), m.at(d.e))
                    }
                });
                if !ok {
                    sx::note("target", format!("{}:{:?}", src.display(), span).as_bytes());
                }
                sx::check(ok, "a reference leads to the name of a node that it means");
                sx::check(p.document_reference(&path, r).is_some(), "a known node has a description");
            }
        }
    }
}

/// the references of the given files, as far as the reference reads them, lead where they should
pub fn all_targets(p: &Project, files: &[File], of: &[bool]) {
    let mut done = fresh();
    for i in 0..files.len() {
        if of[i] && reference(files, i, &mut vec![], &mut done) {
            targets(p, files, i, &done);
        }
    }
}

fn on_disk(files: &[File]) {
    for f in files {
        sx::fs_add(path_of(f.name).to_str().unwrap(), &f.text);
    }
}
fn fresh() -> Vec<Option<Want>> {
    (0..64).map(|_| None).collect()
}

const INC: &[&str] = &[
    "",
    "/include/ \"b.dtsi\"\n",
    "/include/ \"c.dtsi\"\n",
    "/include/ \"b.dtsi\"\n/include/ \"c.dtsi\"\n",
    "/include/ \"c.dtsi\" /include/ \"b.dtsi\"\n",
    "/include/ \"a.dts\"\n",
    "/include/ \"missing.dtsi\"\n",
    "/include/ \"c.dtsi\"\n/include/ \"c.dtsi\"\n",
];
/// spelled differently
const SPELLED: &[&str] = &[
    "",
    "/include/ \"./b.dtsi\"\n",
    "/include/ \"sub/../c.dtsi\"\n",
    "/include/ \"b.dtsi\"\n/include/ \"./c.dtsi\"\n",
    "/include/ \"sub/../c.dtsi\" /include/ \"c.dtsi\"\n",
    "/include/ \"./a.dts\"\n",
    "/include/ \"./sub/../b.dtsi\"\n",
    "/include/ \"sub/b.dtsi\"\n",
];
const MAIN: &[&str] = &[
    "/ { x = &b, <&c>, &a; };",
    "/ { a: m { }; }; &b { d: e { }; }; / { y = <&d &{/m} &{/n/e}>; };",
    "&c { p = &c; }; &{/n/o} { }; /delete-node/ &b; /omit-if-no-ref/ &c;",
];
const LIB: &[&str] = &["/ { b: n { o { }; }; };", "/ { c: k { }; };", "&b { c: o { }; };", "/ { n { } };", "/ { compatible = <1>; };", "/ { a = [0]; b: n { }; };", "/ { ="];

/// one of the rows, as a symbolic text
fn pick(name: &str, rows: &[&str], out: &mut Vec<u8>) {
    sx::slot(name, rows, width(rows), out);
}

/// all include graphs over three files
pub fn graphs() {
    let mut a = b"/dts-v1/;\n".to_vec();
    let (mut b, mut c) = (vec![], vec![]);
    let inc = if sx::param("spelled", 0) == 1 { SPELLED } else { INC };
    sx::fs_mkdir(&format!("{}/sub", sx::fs_root()));
    pick("a includes", inc, &mut a);
    pick("a", &MAIN[..sx::param("mains", MAIN.len() as u64) as usize], &mut a);
    pick("b includes", inc, &mut b);
    pick("b", LIB, &mut b);
    pick("c includes", &inc[..sx::param("c_includes", INC.len() as u64) as usize], &mut c);
    pick("c", &LIB[..sx::param("libs", LIB.len() as u64) as usize], &mut c);
    let files = [File { name: "a.dts", text: a }, File { name: "b.dtsi", text: b }, File { name: "c.dtsi", text: c }];
    on_disk(&files);
    let mut p = Project::default();
    if p.add_file(path_of("a.dts").to_str().unwrap().to_string()).is_err() {
        sx::check(false, "a file on disk can be added");
        return;
    }
    graph_conforms(&p, &files);
}

fn graph_conforms(p: &Project, files: &[File]) {
    let mut done = fresh();
    let acyclic = reference(files, 0, &mut vec![], &mut done);
    let cyclic = p.all_diagnostics().filter(|d| d.kind == ErrorCode::CyclicDependencyError).count();
    if !acyclic {
        sx::reach("cyclic");
        sx::check(cyclic > 0, "an include cycle is reported");
        return;
    }
    sx::reach("acyclic");
    sx::check(cyclic == 0, "no cycle is reported where there is none");
    let mut n = 0;
    for i in 0..files.len() {
        if done[i].is_some() {
            n += 1;
            sx::check(p.get_file(&path_of(files[i].name)).is_some(), "every included file is part of the project");
            file_conforms(p, files, i, &done);
        }
    }
    sx::check(p.files().count() == n, "only included files are part of the project");
}

/// chains of depth k: names defined at the end are visible at the top
pub fn chains() {
    let k = sx::param("k", 4) as usize;
    const N: &[&str] = &["a.dts", "z.dtsi", "b.dtsi", "y.dtsi", "c.dtsi", "x.dtsi", "d.dtsi"];
    let depth = 1 + sx::choose("depth", k);
    let back = sx::choose("back edge", depth + 2);
    let mut files = vec![];
    for i in 0..=depth {
        let mut t = if i == 0 { b"/dts-v1/;\n".to_vec() } else { vec![] };
        if i < depth {
            t.extend_from_slice(format!("/include/ \"{}\"\n", N[i + 1]).as_bytes());
        } else if back <= depth {
            t.extend_from_slice(format!("/include/ \"{}\"\n", N[back]).as_bytes());
        }
        t.extend_from_slice(format!("/ {{ l{i}: n{i} {{ }}; }};\n").as_bytes());
        if i == 0 {
            t.extend_from_slice(format!("/ {{ p = <&l{depth} &{{/n{depth}}}>, &l0, &l9; }};").as_bytes());
        }
        files.push(File { name: N[i], text: t });
    }
    on_disk(&files);
    let mut p = Project::default();
    let start = sx::choose("start", 2);
    if start == 1 {
        let _ = p.add_file(path_of(N[depth]).to_str().unwrap().to_string());
    }
    let _ = p.add_file(path_of(N[0]).to_str().unwrap().to_string());
    graph_conforms(&p, &files);
}

/// n files beside the first one: all included by it, in a row, or each including the next two
pub fn many() {
    const N: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40];
    let n = N[sx::choose("files", N.len())];
    let shape = sx::choose("shape", 5);
    // file names in an order unlike that of the includes
    let name = |i: usize| if i == 0 { "a.dts".to_string() } else { format!("f{}.dtsi", (i * 23) % 41) };
    let mut files = vec![];
    // a back edge from any of some files
    let back = sx::choose("back edge", 4);
    for i in 0..=n {
        let mut t = if i == 0 { b"/dts-v1/;\n".to_vec() } else { vec![] };
        let to: Vec<usize> = match shape {
            // all in the first one, forwards and backwards
            0 => if i == 0 { (1..=n).collect() } else { vec![] },
            1 => if i == 0 { (1..=n).rev().collect() } else { vec![] },
            // in a row
            2 => if i < n { vec![i + 1] } else { vec![] },
            // each the next two
            3 => (i + 1..=n).take(2).collect(),
            // a tree
            _ => [2 * i + 1, 2 * i + 2].into_iter().filter(|j| *j <= n).collect(),
        };
        let extra = match back {
            1 if i == n => vec![n / 2],
            2 if i == n => vec![n],
            3 if i == n / 2 => vec![0],
            _ => vec![],
        };
        for j in to.iter().chain(&extra) {
            t.extend_from_slice(format!("/include/ \"{}\"\n", name(*j)).as_bytes());
        }
        t.extend_from_slice(format!("/ {{ l{i}: n{i} {{ }}; }};\n").as_bytes());
        if i == 0 {
            t.extend_from_slice(format!("/ {{ p = <&l{n} &{{/n{n}}} &{{/n{}}}>, &l0, &l{}, &l99; }};", n / 2, n / 2 + 1).as_bytes());
        } else if i == n {
            t.extend_from_slice(b"/ { p = &l0, &l1; };");
        }
        files.push(File { name: Box::leak(name(i).into_boxed_str()), text: t });
    }
    on_disk(&files);
    let mut p = Project::default();
    let start = sx::choose("start", 3);
    if start > 0 {
        let _ = p.add_file(path_of(files[if start == 1 { n } else { n / 2 }].name).to_str().unwrap().to_string());
    }
    let _ = p.add_file(path_of(files[0].name).to_str().unwrap().to_string());
    graph_conforms(&p, &files);
}

// ---- edit histories ----

const TEXT_A: &[&str] = &[
    "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { x = &b; a: n { }; };",
    "/dts-v1/;\n/ { b: m { }; y = <&b &c>; a: n { }; };",
    "/dts-v1/;\n/include/ \"c.dtsi\"\n&c { };",
    "/dts-v1/;\n/include/ \"c.dtsi\"\n/include/ \"b.dtsi\"\n/ { z = <&{/m} &b &c> };",
    "/ {",
];
const TEXT_B: &[&str] = &["/ { b: n { }; };", "/include/ \"c.dtsi\"\n/ { m { q = <&a &c>; }; };", "/ { b: q { }; }", "/ { b: = };", "/include/ \"a.dts\"\n/ { w = &a; };"];
const TEXT_C: &[&str] = &["/ { c: k { }; };", "/ { };\n\n&c { c: j { }; };", "/include/ \"d.dtsi\"\n"];
const NAMES: &[&str] = &["a.dts", "b.dtsi", "c.dtsi"];

fn texts(f: usize) -> &'static [&'static str] {
    [TEXT_A, TEXT_B, TEXT_C][f]
}
/// a text as `pick` makes it
fn padded(f: usize, i: usize) -> Vec<u8> {
    let mut t = texts(f)[i].as_bytes().to_vec();
    t.resize(width(texts(f)), b' ');
    t
}

/// what a file that is not open contains
fn on_disk_is(f: usize) -> Vec<u8> {
    padded(f, if f == 1 { sx::param("disk", 0) as usize } else { 0 })
}

/// observable state of a file
pub fn snapshot(p: &Project, path: &StdPath, text: &[u8]) -> Vec<String> {
    let mut v = vec![];
    for d in p.get_diagnostics(path) {
        v.push(format!("{} {:?} {} {}", d.kind.as_ref(), d.span, d.source.display(), d.message));
    }
    match p.get_root(path) {
        None => v.push("no tree".to_string()),
        Some(f) => {
            for e in ast::events(f) {
                v.push(format!("{} {:?} {:?} {}", e.what, e.span, e.text, e.num));
            }
        }
    }
    let map = Map::new(text);
    for (i, b) in text.iter().enumerate() {
        if *b == b'&' {
            if let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(path, &map.at(i)) {
                match p.get_node_position(path, r) {
                    Some((s, src)) => v.push(format!("target {:?} {}", s, src.display())),
                    None => v.push("no target".to_string()),
                }
            }
        }
    }
    v
}

/// any history of k opens, edits and closes leaves the project as if only the last texts had been opened
pub fn histories() {
    let k = sx::param("k", 3) as usize;
    for (i, n) in NAMES.iter().enumerate() {
        // (the first file need not be saved, the last one may come later)
        if i > 0 && i < 2 || i == 0 && sx::param("unsaved", 0) == 0 || i == 2 && sx::param("late", 0) == 0 {
            sx::fs_add(path_of(n).to_str().unwrap(), &on_disk_is(i));
        }
    }
    // what cannot be read is not part of the project
    if sx::param("unreadable", 0) == 1 {
        sx::fs_add(path_of(NAMES[1]).to_str().unwrap(), b"/ { b: n { }; }; /*\xe9*/");
    }
    let st = |v: &Vec<u8>| unsafe { String::from_utf8_unchecked(v.clone()) };
    let nf = sx::param("files", 2) as usize;
    // the caller may spell the same path in several ways
    let spelled = sx::param("spelled", 0) == 1;
    if spelled {
        sx::fs_mkdir(&format!("{}/sub", sx::fs_root()));
    }
    let dirs = sx::param("dirs", 0) as usize;
    if dirs > 0 {
        let root = sx::fs_root();
        sx::fs_mkdir(&format!("{root}/inc"));
        sx::fs_add(&format!("{root}/inc/d.dtsi"), b"/ { c: z { }; };");
        sx::fs_mkdir(&format!("{root}/inc2"));
        sx::fs_add(&format!("{root}/inc2/d.dtsi"), b"/include/ \"b.dtsi\"\n/ { m { }; k { } };");
    }
    let mut incl = vec![];
    let mut p = Project::default();
    let mut open: [Option<Vec<u8>>; 3] = [None, None, None];
    let mut disk: [Vec<u8>; 3] = [on_disk_is(0), on_disk_is(1), on_disk_is(2)];
    // the history may begin with all files open
    let start = if sx::param("start", 0) == 1 { nf } else { 0 };
    let late = if sx::param("late", 0) == 1 { sx::choose("late", start + k) } else { usize::MAX };
    for step in 0..start + k {
        if step == late {
            sx::reach("late");
            sx::fs_add(path_of(NAMES[2]).to_str().unwrap(), &disk[2]);
        }
        let f = if step < start { step } else { sx::choose("file", nf + (dirs > 0) as usize) };
        if f == nf {
            sx::reach("directories");
            incl = match sx::choose("directories", 1 + dirs) {
                0 => vec![],
                1 => vec![format!("{}/inc", sx::fs_root())],
                _ => vec![format!("{}/inc2", sx::fs_root()), format!("{}/inc", sx::fs_root())],
            };
            p.set_include_paths(incl.clone());
            continue;
        }
        let mut path = path_of(NAMES[f]);
        if spelled && sx::flip("spelling") {
            path = path_of(&format!("sub/../{}", NAMES[f]));
        }
        if open[f].is_some() && sx::flip("close") {
            sx::reach("close");
            // (the editor may have saved the file)
            if sx::param("saved", 0) == 1 && sx::flip("save") {
                sx::reach("saved");
                disk[f] = open[f].clone().unwrap();
                sx::fs_add(path.to_str().unwrap(), &disk[f]);
            }
            p.remove_file(&path);
            open[f] = None;
        } else {
            let mut t = vec![];
            if spelled {
                // and so may the files
                let rows: Vec<String> = texts(f).iter().map(|r| r.replace("\"b.", "\"sub/../b.").replace("\"c.", "\"./c.")).collect();
                pick("text", &rows.iter().map(|r| &r[..]).collect::<Vec<_>>(), &mut t);
            } else {
                pick("text", texts(f), &mut t);
            }
            p.add_file_with_text(path, st(&t), file_type(NAMES[f]));
            open[f] = Some(t);
        }
    }
    as_fresh(&p, &open, &disk, nf, incl);
}

/// a project with the same texts has the same state
fn as_fresh(p: &Project, open: &[Option<Vec<u8>>; 3], disk: &[Vec<u8>; 3], nf: usize, incl: Vec<String>) {
    let st = |v: &Vec<u8>| unsafe { String::from_utf8_unchecked(v.clone()) };
    let mut q = Project::default();
    let no_dirs = incl.is_empty();
    q.set_include_paths(incl);
    let backwards = sx::flip("backwards");
    for j in 0..nf {
        let f = if backwards { nf - 1 - j } else { j };
        if let Some(t) = &open[f] {
            q.add_file_with_text(path_of(NAMES[f]), st(t), file_type(NAMES[f]));
        }
    }
    // everything in use that a fresh project knows is known, and known to be the same
    // (opening a file may also leave dependencies that nobody includes any more)
    let includes = |f: usize, g: usize| {
        let (t, i) = (open[f].clone().unwrap_or(disk[f].clone()), format!("/include/ \"{}\"", NAMES[g]));
        t.windows(i.len()).any(|w| w == i.as_bytes())
    };
    let mut used: Vec<bool> = open.iter().map(|o| o.is_some()).collect();
    for _ in 0..2 {
        for f in 0..9 {
            used[f % 3] = used[f % 3] || used[f / 3] && includes(f / 3, f % 3);
        }
    }
    for f in 0..3 {
        let path = path_of(NAMES[f]);
        // (a dependency may also come from an include directory)
        if (used[f] || sx::param("disk", 0) == 0) && q.get_file(&path).is_some() {
            let t = open[f].clone().unwrap_or(disk[f].clone());
            let src = p.get_file(&path).map(|x| x.source().as_bytes().to_vec());
            sx::check(src.is_some_and(|s| s == t), "the current text of a file is its last text");
            if sx::param("spelled", 0) == 1 {
                let other = path_of(&format!("sub/../{}", NAMES[f]));
                let map = Map::new(&t);
                let same = p.get_diagnostics(&other).count() == p.get_diagnostics(&path).count()
                    && p.get_file(&other).map(|x| x.source().clone()) == p.get_file(&path).map(|x| x.source().clone())
                    && p.get_root(&other).is_some() == p.get_root(&path).is_some()
                    && p.get_analysis(&other).is_some() == p.get_analysis(&path).is_some()
                    && (0..t.len()).all(|i| p.find_at_pos(&other, &map.at(i)).is_some() == p.find_at_pos(&path, &map.at(i)).is_some());
                sx::check(same, "a file is the same under another spelling of its path");
                sx::reach("other spelling");
            }
            let (a, b) = (snapshot(p, &path, &t), snapshot(&q, &path, &t));
            if a != b {
                sx::note("history", format!("{a:?}").as_bytes());
                sx::note("fresh", format!("{b:?}").as_bytes());
            }
            sx::check(a == b, "after a history of edits everything is as in a fresh project with the last texts");
            sx::reach("compared");
        }
    }
    if open.iter().all(|o| o.is_none()) {
        sx::reach("all closed");
    }
    if sx::param("unreadable", 0) == 1 || sx::param("unsaved", 0) == 1 || backwards || !no_dirs {
        return;
    }
    // and as the reference says
    let files: Vec<File> = (0..3).map(|f| File { name: NAMES[f], text: open[f].clone().unwrap_or(disk[f].clone()) }).collect();
    let mut done = fresh();
    for f in 0..nf {
        if open[f].is_some() && reference(&files, f, &mut vec![], &mut done) {
            sx::reach("as the reference says");
            file_conforms(p, &files, f, &done);
        }
    }
}

/// a cycle of m edits and closes, run through many times, and what follows it
pub fn long_histories() {
    let m = sx::param("m", 2) as usize;
    const N: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 32, 33];
    for (i, n) in NAMES.iter().enumerate() {
        sx::fs_add(path_of(n).to_str().unwrap(), &on_disk_is(i));
    }
    let n = N[sx::choose("times", N.len())];
    let mut steps = vec![];
    for _ in 0..m + sx::param("tail", 1) as usize {
        let f = sx::choose("file", 3);
        let mut t = vec![];
        let close = sx::flip("close");
        if !close {
            t = padded(f, sx::choose("text", texts(f).len()));
        }
        steps.push((f, close, t));
    }
    let mut p = Project::default();
    let mut open: [Option<Vec<u8>>; 3] = [None, None, None];
    for i in 0..n * m + steps.len() - m {
        let (f, close, t) = &steps[if i < n * m { i % m } else { m + i - n * m }];
        let path = path_of(NAMES[*f]);
        if *close {
            p.remove_file(&path);
            open[*f] = None;
        } else {
            p.add_file_with_text(path, unsafe { String::from_utf8_unchecked(t.clone()) }, file_type(NAMES[*f]));
            open[*f] = Some(t.clone());
        }
    }
    as_fresh(&p, &open, &[on_disk_is(0), on_disk_is(1), on_disk_is(2)], 3, vec![]);
}

/// one edit of n symbolic bytes: as if the file had been opened with that text
pub fn edits() {
    let n = sx::param("n", 1) as usize;
    const T: &[(&str, &str)] = &[("/dts-v1/;\n/include/ \"b.dtsi\"\n/ { x = &", "; l: n { }; };"), ("/dts-v1/;\n/include/ \"b.dtsi", "\"\n/ { x = &b; };"), ("/dts-v1/;\n/ { b", ": n { }; y = &b; };")];
    sx::fs_add(path_of("b.dtsi").to_str().unwrap(), b"/ { b: n { }; };");
    sx::fs_add(path_of("a.dts").to_str().unwrap(), b"");
    let t = T[sx::choose("text", T.len())];
    let old = T[sx::choose("old", T.len())];
    let new = cat(&[t.0.as_bytes(), &sym_text("b", n, false), t.1.as_bytes()]);
    let before = cat(&[old.0.as_bytes(), b"b", old.1.as_bytes()]);
    let st = |v: &Vec<u8>| unsafe { String::from_utf8_unchecked(v.clone()) };
    let path = path_of("a.dts");
    let mut p = Project::default();
    p.add_file_with_text(path.clone(), st(&before), FileType::DtSource);
    p.add_file_with_text(path.clone(), st(&new), FileType::DtSource);
    let mut q = Project::default();
    q.add_file_with_text(path.clone(), st(&new), FileType::DtSource);
    sx::check(snapshot(&p, &path, &new) == snapshot(&q, &path, &new), "after a history of edits everything is as in a fresh project with the last texts");
    sx::reach("compared");
}

// ---- where includes are looked for ----

fn cat_diags(a: &[spec::D], b: &[spec::D]) -> Vec<spec::D> {
    a.iter().chain(b).cloned().collect()
}

/// own directory first, then the include paths in order, then nothing
pub fn include_paths() {
    let root = sx::fs_root();
    for d in ["own", "i1", "i2", "own/sub"] {
        sx::fs_mkdir(&format!("{root}/{d}"));
    }
    let sub = sx::flip("in subdirectory");
    let name = if sub { "sub/x.dtsi" } else { "x.dtsi" };
    let dirs = ["own", "i1", "i2"];
    if sub {
        sx::fs_mkdir(&format!("{root}/i1/sub"));
        sx::fs_mkdir(&format!("{root}/i2/sub"));
    }
    let mut at = vec![];
    let mut unreadable = false;
    for (i, d) in dirs.iter().enumerate() {
        let there = sx::choose(d, if i == 0 { 3 } else { 2 });
        if there > 0 {
            let mut t = format!("/ {{ l: n{i} {{ }}; }};").into_bytes();
            if there == 2 {
                // no text
                unreadable = true;
                t.push(0xE9);
            }
            sx::fs_add(&format!("{root}/{d}/{name}"), &t);
        }
        at.push(there > 0);
    }
    let absolute = sx::choose("absolute", 5);
    let spelled = match absolute {
        0 => name.to_string(),
        1 => format!("{root}/i2/{name}"),
        2 => format!("../own/{name}"),
        // nothing is at the root of the file system
        3 => format!("/{name}"),
        _ => format!("./{name}"),
    };
    // the working directory is the root
    let cwd = sx::flip("in working directory");
    if cwd {
        if sub {
            sx::fs_mkdir(&format!("{root}/sub"));
        }
        sx::fs_add(&format!("{root}/{name}"), b"/ { l: n3 { }; };");
    }
    at.push(cwd);
    let order = sx::choose("include paths", 6);
    let incl: Vec<String> = match order {
        0 => vec![],
        1 => vec![format!("{root}/i1")],
        2 => vec![format!("{root}/i1"), format!("{root}/i2")],
        3 => vec![format!("{root}/i2"), format!("{root}/i1/../i1")],
        4 => vec![format!("{root}/none"), format!("{root}/i1")],
        _ => vec!["i2".to_string(), "./i1".to_string()],
    };
    // (a ';' may be missing)
    let flaw = sx::flip("flaw");
    let text = format!("/dts-v1/;\n/include/ \"{spelled}\"\n/ {{ x = &l{}}};", [";", ""][flaw as usize]);
    let path = PathBuf::from(format!("{root}/own/a.dts"));
    sx::fs_add(path.to_str().unwrap(), text.as_bytes());
    let mut p = Project::default();
    // the directories may also change when the file is already there
    let when = sx::choose("when", 3);
    if when > 0 {
        p.set_include_paths(if when == 1 { vec![] } else { vec![format!("{root}/i1")] });
        let _ = p.add_file(path.to_str().unwrap().to_string());
    }
    p.set_include_paths(incl);
    if when == 0 {
        let _ = p.add_file(path.to_str().unwrap().to_string());
    }
    // which file should be taken
    let search: &[usize] = match order {
        0 => &[0, 3],
        1 | 4 => &[0, 1, 3],
        2 => &[0, 1, 2, 3],
        _ => &[0, 2, 1, 3],
    };
    let want = match absolute {
        1 => if at[2] { Some(2) } else { None },
        // relative to any of the directories, this names the same file
        2 => if at[0] { Some(0) } else { None },
        3 => None,
        _ => search.iter().copied().find(|i| at[*i]),
    };
    let di: Vec<&Diagnostic> = p.get_diagnostics(&path).collect();
    let map = Map::new(text.as_bytes());
    let s = text.find("/include/").unwrap();
    let e = text.find("\"\n").unwrap() + 1;
    let r = text.find("&l").unwrap();
    let expected: &[spec::D] = if flaw { &[spec::D { kind: "expected", s: r + 2, e: r + 3, opt: false }] } else { &[] };
    let want = if unreadable && want == Some(0) {
        sx::reach("unreadable");
        None
    } else {
        want
    };
    match want {
        None => {
            sx::reach("missing");
            same_diags(&map, &cat_diags(expected, &[spec::D { kind: "io_error", s, e, opt: false }, spec::D { kind: "unresolved_reference", s: r, e: r + 2, opt: false }]), &di);
        }
        Some(i) => {
            sx::reach("found");
            same_diags(&map, expected, &di);
            let Some(ItemAtCursor::Reference(x)) = p.find_at_pos(&path, &map.at(r)) else {
                sx::check(false, "every reference is found at its position");
                return;
            };
            let to = p.get_node_position(&path, x).map(|x| x.1.to_path_buf());
            sx::check(to == Some(PathBuf::from(if i == 3 { format!("{root}/{name}") } else { format!("{root}/{}/{name}", dirs[i]) })), "an include is taken from the first directory that has it");
        }
    }
}

/// a file that was found in one of the directories includes another one
pub fn include_nested() {
    let root = sx::fs_root();
    let dirs = ["/own", "/i1", "/i2", ""];
    for d in dirs {
        sx::fs_mkdir(&format!("{root}{d}"));
    }
    let order = sx::choose("include paths", 4);
    let incl: Vec<String> = [&[][..], &[1], &[1, 2], &[2, 1]][order].iter().map(|i: &usize| format!("{root}{}", dirs[*i])).collect();
    let search: &[usize] = [&[0, 3][..], &[0, 1, 3], &[0, 1, 2, 3], &[0, 2, 1, 3]][order];
    let x = search[sx::choose("x", search.len())];
    let text = "/dts-v1/;\n/include/ \"x.dtsi\"\n/ { x = &l; };";
    let inner = "/include/ \"y.dtsi\"\n";
    let (path, xpath) = (PathBuf::from(format!("{root}/own/a.dts")), PathBuf::from(format!("{root}{}/x.dtsi", dirs[x])));
    sx::fs_add(path.to_str().unwrap(), text.as_bytes());
    sx::fs_add(xpath.to_str().unwrap(), inner.as_bytes());
    let mut at = vec![];
    for d in dirs {
        let there = sx::flip("y");
        if there {
            sx::fs_add(&format!("{root}{d}/y.dtsi"), b"/ { l: n { }; };");
        }
        at.push(there);
    }
    let mut p = Project::default();
    // the directories may also change when the file is already there
    let when = sx::choose("when", 3);
    if when > 0 {
        p.set_include_paths(if when == 1 { vec![] } else { vec![format!("{root}/i2")] });
        let _ = p.add_file(path.to_str().unwrap().to_string());
    }
    p.set_include_paths(incl);
    if when == 0 {
        let _ = p.add_file(path.to_str().unwrap().to_string());
    }
    // next to the file that includes it, which is not the first one
    let want = std::iter::once(x).chain(search[1..].iter().copied()).find(|i| at[*i]);
    let (di, dx): (Vec<&Diagnostic>, Vec<&Diagnostic>) = (p.get_diagnostics(&path).collect(), p.get_diagnostics(&xpath).collect());
    let (map, mx) = (Map::new(text.as_bytes()), Map::new(inner.as_bytes()));
    let r = text.find("&l").unwrap();
    match want {
        None => {
            sx::reach("missing");
            same_diags(&map, &[spec::D { kind: "errors_in_include", s: 10, e: 28, opt: false }, spec::D { kind: "unresolved_reference", s: r, e: r + 2, opt: false }], &di);
            same_diags(&mx, &[spec::D { kind: "io_error", s: 0, e: inner.len() - 1, opt: false }], &dx);
        }
        Some(i) => {
            sx::reach("found");
            same_diags(&map, &[], &di);
            same_diags(&mx, &[], &dx);
            let Some(ItemAtCursor::Reference(q)) = p.find_at_pos(&path, &map.at(r)) else {
                sx::check(false, "every reference is found at its position");
                return;
            };
            let to = p.get_node_position(&path, q).map(|x| x.1.to_path_buf());
            sx::check(to == Some(PathBuf::from(format!("{root}{}/y.dtsi", dirs[i]))), "an include is taken from the first directory that has it");
        }
    }
}

// ---- one file: references and directives ----

const REFS: &[&str] = &[
    "/ { l: n { }; };",
    "/ { m: n { o@1 { k: o { }; }; }; };",
    "/ { q = &l, <&m>, &{/n/o@1}; };",
    "/ { r = <1 &k 2>, &{/n/o@1/o}, &{/n/o}; };",
    "&l { x { }; k: y { }; };",
    "&m { l: z { j: x { }; }; };",
    "&{/n} { a = &k; m: z { }; };",
    "&{/n/x} { l: p; };",
    "&{/} { n { }; };",
    "/delete-node/ &l;",
    "/delete-node/ &{/n/z};",
    "/omit-if-no-ref/ &k;",
    "/ { s = <&j>, &{/n/z/x}, &{/}; };",
    "/ { __symbols__ { l: o { }; }; t = &{/__symbols__}; };",
    "&{/__symbols__/o} { u = &{/__symbols__/p}, &{/n/o}, &{/n@1}; };",
];

/// k top-level statements of a source file: every reference leads to a node that it means
pub fn references() {
    let k = sx::param("k", 3) as usize;
    let mut t = b"/dts-v1/;\n".to_vec();
    for _ in 0..k {
        pick("s", REFS, &mut t);
    }
    let files = [File { name: "a.dts", text: t }];
    on_disk(&files);
    let mut p = Project::default();
    let _ = p.add_file(path_of("a.dts").to_str().unwrap().to_string());
    graph_conforms(&p, &files);
}

const DIRECTIVES: &[&str] = &[
    "", "/dts-v1/;", "/plugin/;", "/memreserve/ 1 2;", "#include \"f.h\"", "/include/ \"b.dtsi\"", "/ { x = &u; };", "&u { };", "/delete-node/ &u;", "/ { };", "/omit-if-no-ref/ &{/u};",
    "/include/ \"none.dtsi\"", "/ { compatible = <1>; u0: v { }; };",
];
const INCLUDED: &[&str] = &["", "/dts-v1/;", "/plugin/;", "/ { u: n { }; };", "/ { x = &w; };", "/dts-v1/;\n&w { };", "/ { compatible = <1>; };", "/ { y }; };"];

/// k directives and other statements in each type of file, which may include another one
pub fn directives() {
    let k = sx::param("k", 3) as usize;
    let (main, inc) = [("a.dts", "b.dtsi"), ("a.dtsi", "b.dts"), ("a.dtso", "b.dtso"), ("a.overlay", "b.dtsi"), ("a.dts", "b.dts")][sx::choose("type", 5)];
    let (mut a, mut b) = (vec![], vec![]);
    let rows: Vec<String> = DIRECTIVES.iter().map(|r| r.replace("b.dtsi", inc)).collect();
    let rows: Vec<&str> = rows.iter().map(|r| &r[..]).collect();
    for _ in 0..k {
        pick("s", &rows, &mut a);
    }
    pick("included", INCLUDED, &mut b);
    let files = [File { name: main, text: a }, File { name: inc, text: b }];
    on_disk(&files);
    let mut p = Project::default();
    let _ = p.add_file(path_of(main).to_str().unwrap().to_string());
    graph_conforms(&p, &files);
}
