//! symex: symbolic execution of LLVM bitcode with an SMT solver.
mod env;
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn viol_json(v: &Violation) -> String {
    let m: Vec<String> = v
        .model
        .iter()
        .map(|(n, b)| format!("[{},{:?}]", js(n), b))
        .collect();
    let n: Vec<String> = v.notes.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&String::from_utf8_lossy(b)))).collect();
    let st: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
    format!(
        "{{\"kind\":{},\"msg\":{},\"model\":[{}],\"notes\":[{}],\"stack\":[{}]}}",
        js(&v.kind),
        js(&v.msg),
        m.join(","),
        n.join(","),
        st.join(",")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let bc = get("--bc").expect("--bc");
    let t0 = Instant::now();
    let m = match llvm::load(&bc) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("load error: {e}");
            std::process::exit(2);
        }
    };
    let load_t = t0.elapsed().as_secs_f64();
    if args.iter().any(|a| a == "--list") {
        for f in &m.funcs {
            println!("{} {} {}", if f.decl { "declare" } else { "define" }, f.code.len(), f.name);
        }
        return;
    }
    let prof = args.iter().any(|a| a == "--prof");
    let entry = get("--entry").expect("--entry");
    let mut params = HashMap::new();
    for (i, a) in args.iter().enumerate() {
        if a == "--param" {
            let (k, v) = args[i + 1].split_once('=').expect("k=v");
            params.insert(k.to_string(), v.parse().expect("param value"));
        }
    }
    let root = get("--root").unwrap_or("/w".into());
    env::ROOT.set(root.clone()).expect("root");
    // every ancestor of the root is a directory
    let mut dirs = BTreeSet::from([b"/".to_vec()]);
    for (i, _) in root.match_indices('/').skip(1) {
        dirs.insert(root.as_bytes()[..i].to_vec());
    }
    dirs.insert(root.as_bytes().to_vec());
    let threads = get("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let o = Opts {
        entry: entry.clone(),
        threads,
        steps: get("--steps").map(|x| x.parse().unwrap()).unwrap_or(50_000_000),
        deadline: get("--time").map(|x| Instant::now() + Duration::from_secs_f64(x.parse().unwrap())),
        params,
        z3all: args.iter().any(|a| a == "--z3all"),
        maxviol: get("--maxviol").map(|x| x.parse().unwrap()).unwrap_or(5),
        trace: false,
        grace: get("--grace").map(|x| x.parse().unwrap()),
        stop_first: args.iter().any(|a| a == "--stop-first"),
        samples: get("--samples").map(|x| x.parse().unwrap()).unwrap_or(0),
        seed: get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1),
        maxdepth: get("--maxdepth").map(|x| x.parse().unwrap()).unwrap_or(4000),
    };
    let z3p = solver::default_z3();
    let z = solver::load_z3(&z3p).expect("z3");
    let Some(fid) = m.fmap.get(&entry).copied() else {
        eprintln!("no entry {entry}");
        std::process::exit(2);
    };
    let s0 = State {
        top: Frame {
            func: fid,
            pc: 0,
            regs: vec![expr::V::C(1, 0); m.funcs[fid as usize].nregs as usize],
            obj: 0,
            dynobj: vec![],
        },
        stack: vec![],
        mem: mem::Mem::new(&m),
        pc: solver::Pc::new(),
        env: Env {
            files: Arc::new(BTreeMap::new()),
            dirs: Arc::new(dirs),
            fds: Arc::new(vec![]),
            out: Arc::new(vec![]),
            err: Arc::new(vec![]),
            errno: 0,
            notes: Arc::new(vec![]),
            trace: Arc::new(vec![]),
            seed: 0,
            keys: Arc::new(HashMap::new()),
            nextkey: 0,
        },
        steps: 0,
    };
    let mut s0 = s0;
    let fr = m.funcs[fid as usize].frame;
    if fr > 0 {
        s0.top.obj = s0.mem.alloc(fr);
    }
    let sh = Shared {
        m: &m,
        o: &o,
        q: Mutex::new(VecDeque::from([s0])),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        endless: AtomicU64::new(0),
        grace: AtomicU64::new(u64::MAX),
        start: Instant::now(),
        paths: AtomicU64::new(0),
    };
    let spec = specs(&m);
    let t1 = Instant::now();
    let mut reps: Vec<(Report, Vec<bool>, solver::Stats)> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let sh = &sh;
            let spec = spec.clone();
            let z = z.clone();
            let m = &m;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ex = Exec {
                            sh,
                            m,
                            spec,
                            slv: solver::Solver::new(z, 20_000),
                            st: solver::Stats { dom_decisions: 0, fd_decisions: 0, cache_hits: 0, crosscheck: 0, crosscheck_bad: 0 },
                            local: VecDeque::new(),
                            rep: Report { rng: sh.o.seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(t as u64 + 1) | 1, ..Report::default() },
                            seen: vec![false; m.funcs.len()],
                            mv: vec![],
                            pool: vec![],
                            prof,
                        };
                        ex.worker();
                        let mut rep = ex.rep;
                        rep.queries = ex.slv.queries;
                        rep.sat = ex.slv.sat;
                        rep.unsat = ex.slv.unsat;
                        rep.unknown += ex.slv.unknown;
                        rep.solver_time = ex.slv.time;
                        (rep, ex.seen, ex.st)
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            match h.join() {
                Ok(r) => reps.push(r),
                Err(_) => {
                    eprintln!("worker crashed");
                    std::process::exit(2);
                }
            }
        }
    });
    let mut t = Report::default();
    let mut seen = vec![false; m.funcs.len()];
    seen[fid as usize] = true;
    for (r, sn, st) in reps {
        t.paths += r.paths;
        t.assumed += r.assumed;
        t.failed += r.failed;
        t.forks += r.forks;
        t.steps += r.steps;
        t.maxsteps = t.maxsteps.max(r.maxsteps);
        t.queries += r.queries;
        t.sat += r.sat;
        t.unsat += r.unsat;
        t.unknown += r.unknown;
        t.solver_time += r.solver_time;
        t.dom += st.dom_decisions;
        t.fd += st.fd_decisions;
        t.cache += st.cache_hits;
        t.crosscheck += st.crosscheck;
        t.crosscheck_bad += st.crosscheck_bad;
        t.checks += r.checks;
        t.maxvars = t.maxvars.max(r.maxvars);
        t.timeout |= r.timeout;
        t.pending += r.pending;
        for (k, v) in r.viol {
            let e = t.viol.entry(k).or_default();
            e.extend(v);
        }
        for (k, v) in r.unsupported {
            *t.unsupported.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.unsup_model {
            t.unsup_model.entry(k).or_insert(v);
        }
        t.samples.extend(r.samples);
        for (k, v) in r.reach {
            *t.reach.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.forksites {
            *t.forksites.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.qsites {
            let q = t.qsites.entry(k).or_insert((0, 0));
            q.0 += v.0;
            q.1 += v.1;
        }
        for (k, v) in r.hot {
            *t.hot.entry(k).or_insert(0) += v;
        }
        for (i, b) in sn.iter().enumerate() {
            seen[i] |= *b;
        }
    }
    if prof {
        let mut v: Vec<_> = t.forksites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        eprintln!("-- fork sites");
        for ((f, pc), n) in v.iter().take(25) {
            eprintln!("{n:8} {}+{} {}", demangle(&m.funcs[*f as usize].name), pc, format!("{:?}", m.funcs[*f as usize].code[*pc as usize]).chars().take(100).collect::<String>());
        }
        let mut v: Vec<_> = t.qsites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
        eprintln!("-- solver sites");
        for ((f, pc), (n, us)) in v.iter().take(25) {
            eprintln!("{n:8} {:8.1} ms {}+{}", *us as f64 / 1000.0, demangle(&m.funcs[*f as usize].name), pc);
        }
        let mut v: Vec<_> = t.hot.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        eprintln!("-- hot functions");
        for (f, n) in v.iter().take(25) {
            eprintln!("{n:10} {}", demangle(&m.funcs[**f as usize].name));
        }
    }
    let mut vs = vec![];
    for (k, v) in &mut t.viol {
        v.sort_by_key(|x| x.model.iter().map(|m| m.1.len()).sum::<usize>());
        let cnt: u64 = v.iter().map(|x| x.count).sum();
        let ex: Vec<String> = v.iter().take(o.maxviol).map(viol_json).collect();
        vs.push(format!("{{\"key\":{},\"count\":{},\"examples\":[\n    {}]}}", js(k), cnt, ex.join(",\n    ")));
    }
    let us: Vec<String> = t
        .unsupported
        .iter()
        .map(|(k, v)| format!("{{\"what\":{},\"count\":{},\"example\":{}}}", js(k), v, t.unsup_model.get(k).map(viol_json).unwrap_or("null".into())))
        .collect();
    let sm: Vec<String> = t.samples.iter().map(viol_json).collect();
    let rs: Vec<String> = t.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let mut fns: BTreeMap<String, usize> = BTreeMap::new();
    for (i, b) in seen.iter().enumerate() {
        if *b && !m.funcs[i].decl {
            *fns.entry(demangle(&m.funcs[i].name)).or_insert(0) += m.funcs[i].code.len();
        }
    }
    let fs: Vec<String> = fns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let ps: Vec<String> = o.params.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let complete = !t.timeout && t.pending == 0 && t.unsupported.is_empty();
    let out = format!(
        "{{\"entry\":{},\"complete\":{},\"timeout\":{},\"pending\":{},\"paths\":{},\"assumed_away\":{},\"failed\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_seconds\":{:.3},\"domain_decisions\":{},\"finite_domain_searches\":{},\"cache_hits\":{},\"crosschecked\":{},\"crosscheck_bad\":{},\"checks\":{},\"max_symbolic_bytes\":{},\"load_seconds\":{:.2},\"explore_seconds\":{:.2},\"z3\":{},\"params\":{{{}}},\n \"reach\":{{{}}},\n \"violations\":[{}],\n \"samples\":[{}],\n \"unsupported\":[{}],\n \"functions\":{{{}}}}}\n",
        js(&entry), complete, t.timeout, t.pending, t.paths, t.assumed, t.failed, t.forks, t.steps, t.maxsteps, t.queries, t.sat, t.unsat, t.unknown,
        t.solver_time, t.dom, t.fd, t.cache, t.crosscheck, t.crosscheck_bad, t.checks, t.maxvars, load_t, t1.elapsed().as_secs_f64(), js(&solver::version(&z)),
        ps.join(","), rs.join(","), vs.join(",\n"), sm.join(",\n"), us.join(",\n"), fs.join(",")
    );
    match get("--out") {
        Some(p) => std::fs::write(p, out).expect("write out"),
        None => print!("{out}"),
    }
    // skip the (long) teardown
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(0);
}
