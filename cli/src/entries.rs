use super::common::*;
use super::sx;
use ginko::dts::*;
use std::sync::Mutex;

struct Plan {
    file: String,
    includes: Vec<String>,
    usage: bool,
}
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

const A: &[&str] = &[
    "/include/ \"b.dtsi\"\n",
    "/include/ \"c.dtsi\"\n",
    "/include/ \"none.dtsi\"\n",
    "/ { x = &b; };",
    "/ {\t\u{e9} ; }\n;",
    "/ { compatible = <1>; };",
    "/ { y = <099>,\n \"\n\" }; ",
    "/ { ok; };",
    "/dts-v1/;",
];
const B: &[&str] = &["/ { b: n { }; };", "/ { b: n { } };", "/ { compatible = <1>; b: k { }; };", "/include/ \"a.dts\"\n/ { b", "/include/ \"c.dtsi\"\n/ { b: n { }; };"];

fn pick(name: &str, rows: &[&str], out: &mut Vec<u8>) {
    sx::slot(name, rows, rows.iter().map(|r| r.len()).max().unwrap(), out);
}

/// the tool, with k statements in the file it is given
pub fn run() {
    let k = sx::param("k", 2) as usize;
    let root = sx::fs_root();
    let mut a = vec![];
    if sx::flip("header") {
        a.extend_from_slice(b"/dts-v1/;\n");
    }
    let mut b = vec![];
    let how = sx::choose("arguments", 12);
    // (of names that may be misread)
    let (i1, i2) = (format!("{root}/i,1"), format!("{root}/i 2=\u{e9}"));
    let f = format!("{root}/a.dts");
    let st = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    let (args, file, includes, usage) = match how {
        0 => (st(&[&f]), f.clone(), vec![], false),
        1 => (st(&["./a.dts"]), f.clone(), vec![], false),
        2 => (st(&[&f, "-i", &i1]), f.clone(), vec![i1.clone()], false),
        3 => (st(&["--include", &i2, &f, "--include", &i1]), f.clone(), vec![i2.clone(), i1.clone()], false),
        4 => (st(&[&format!("--include={i1}"), "-i", &i2, "a.dts"]), f.clone(), vec![i1.clone(), i2.clone()], false),
        5 => (st(&[&format!("-i{i2}"), "--", &f]), f.clone(), vec![i2.clone()], false),
        6 => (st(&[&format!("{root}/none.dts")]), format!("{root}/none.dts"), vec![], false),
        7 => (st(&[&i1]), i1.clone(), vec![], false),
        8 => (st(&[]), String::new(), vec![], true),
        9 => (st(&[&f, "--bogus"]), String::new(), vec![], true),
        10 => (st(&[&f, "-i"]), String::new(), vec![], true),
        _ => (st(&[&f, &f]), String::new(), vec![], true),
    };
    let plain = how < 6;
    sx::fs_mkdir(&i1);
    sx::fs_mkdir(&i2);
    // where the included files are
    if plain {
        for _ in 0..k {
            pick("a", A, &mut a);
        }
        pick("b", B, &mut b);
        let place = sx::choose("included files", 3);
        sx::fs_add(&format!("{root}{}/b.dtsi", ["", "/i,1", "/i 2=\u{e9}"][place]), &b);
        sx::fs_add(&format!("{i1}/c.dtsi"), b"/ { c: n { }; };");
        sx::fs_add(&format!("{i2}/c.dtsi"), b"/ { b: n { } };");
    }
    sx::fs_add(&f, &a);
    *PLAN.lock().unwrap() = Some(Plan { file, includes, usage });
    let mut all = vec!["ginko".to_string()];
    all.extend(args);
    sx::args(&all);
    super::tool::run()
}

fn without_blank_lines(t: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in t.split(|b| *b == b'\n') {
        if !l.is_empty() {
            v.extend_from_slice(l);
            v.push(b'\n');
        }
    }
    v
}

pub fn exited(code: i32) {
    let Some(plan) = PLAN.lock().unwrap().take() else {
        sx::check(false, "the tool does not exit before it starts");
        return;
    };
    let out = sx::output(1);
    let err = sx::output(2);
    if plan.usage {
        sx::reach("usage");
        sx::check(code != 0, "wrong arguments are an error");
        sx::check(out.is_empty() && !err.is_empty(), "wrong arguments are reported");
        return;
    }
    let mut q = Project::default();
    q.set_include_paths(plan.includes);
    if q.add_file(plan.file).is_err() {
        sx::reach("unreadable");
        sx::check(code != 0, "a file that cannot be read is an error");
        sx::check(!err.is_empty(), "a file that cannot be read is reported");
        sx::check(!without_blank_lines(&out).starts_with(b"OK"), "nothing is said to be OK when a file cannot be read");
        return;
    }
    let mut want: Vec<Vec<u8>> = vec![];
    for file in q.project_files() {
        let lines: Vec<Vec<u8>> = text_lines(file.source().as_bytes()).into_iter().map(|s| s.into_bytes()).collect();
        let mut w = vec![];
        for d in file.diagnostics() {
            block(&mut w, &lines, d.severity(&SeverityMap::default()) == Severity::Error, &d.source.to_string_lossy(), d.span(), &d.message);
            w.push(b'\n');
        }
        if !w.is_empty() {
            want.push(without_blank_lines(&w));
        }
    }
    let out = without_blank_lines(&out);
    if want.is_empty() {
        sx::reach("ok");
        sx::check(code == 0, "the exit code is zero when there are no diagnostics");
        sx::check(out == b"OK; No issues found\n", "a file without diagnostics is said to be OK");
        return;
    }
    sx::reach(if want.len() > 1 { "several files" } else { "one file" });
    sx::check(code != 0, "the exit code is not zero when there are diagnostics");
    let mut rest = &out[..];
    while !want.is_empty() {
        match want.iter().position(|w| rest.starts_with(w)) {
            Some(i) => {
                rest = &rest[want[i].len()..];
                want.remove(i);
            }
            None => {
                sx::note("output", rest);
                sx::note("expected", &want[0]);
                sx::check(false, "all diagnostics of all files are printed");
                return;
            }
        }
    }
    sx::check(rest.is_empty(), "nothing but the diagnostics is printed");
}
