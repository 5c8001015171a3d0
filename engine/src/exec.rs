//! Symbolic execution of the module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub obj: u64,
    pub dynobj: Vec<u64>,
}

#[derive(Clone)]
pub struct Env {
    pub files: Arc<BTreeMap<Vec<u8>, Arc<Vec<V>>>>,
    pub dirs: Arc<BTreeSet<Vec<u8>>>,
    pub fds: Arc<Vec<Option<(Arc<Vec<V>>, usize)>>>,
    pub out: Arc<Vec<V>>,
    pub err: Arc<Vec<V>>,
    pub errno: u64,
    pub notes: Arc<Vec<(String, Vec<V>)>>,
    pub trace: Arc<Vec<String>>,
    pub seed: u64,
    pub keys: Arc<HashMap<u64, u64>>,
    pub nextkey: u64,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Arc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub env: Env,
    pub steps: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assumed,
    Fail { kind: String, msg: String },
    Unsupported(String),
    Unknown,
}
pub type R<T> = Result<T, End>;

pub struct Opts {
    pub entry: String,
    pub threads: usize,
    pub steps: u64,
    pub deadline: Option<Instant>,
    pub params: HashMap<String, u64>,
    pub z3all: bool,
    pub maxviol: usize,
    pub trace: bool,
    pub stop_first: bool,
    /// seconds for which the exploration goes on after the first failure
    pub grace: Option<u64>,
    pub samples: u64,
    pub seed: u64,
    pub maxdepth: usize,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub model: Vec<(String, Vec<u8>)>,
    pub notes: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
    pub count: u64,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub assumed: u64,
    pub failed: u64,
    pub forks: u64,
    pub steps: u64,
    pub maxsteps: u64,
    pub viol: BTreeMap<String, Vec<Violation>>,
    pub unsupported: BTreeMap<String, u64>,
    pub unsup_model: BTreeMap<String, Violation>,
    pub reach: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_time: f64,
    pub dom: u64,
    pub fd: u64,
    pub cache: u64,
    pub crosscheck: u64,
    pub crosscheck_bad: u64,
    pub checks: u64,
    pub maxvars: u32,
    pub timeout: bool,
    pub pending: u64,
    pub forksites: HashMap<(u32, u32), u64>,
    pub qsites: HashMap<(u32, u32), (u64, u64)>,
    pub samples: Vec<Violation>,
    pub rng: u64,
    pub hot: HashMap<u32, u64>,
}

pub struct Shared<'a> {
    pub m: &'a Module,
    pub o: &'a Opts,
    pub q: Mutex<VecDeque<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub endless: AtomicU64,
    /// milliseconds since the start at which the exploration ends, once a path has failed
    pub grace: AtomicU64,
    pub start: Instant,
    pub paths: AtomicU64,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Spec {
    None,
    Panic,
}

pub struct Exec<'a> {
    pub sh: &'a Shared<'a>,
    pub m: &'a Module,
    pub spec: Vec<Spec>,
    pub slv: Solver,
    pub st: Stats,
    pub local: VecDeque<State>,
    pub rep: Report,
    pub seen: Vec<bool>,
    pub mv: Vec<V>,
    pub pool: Vec<Vec<V>>,
    pub prof: bool,
}

pub fn specs(m: &Module) -> Vec<Spec> {
    m.funcs
        .iter()
        .map(|f| {
            let n = &f.name;
            let pan = n.contains("9panicking") && (n.contains("panic_fmt") || n.contains("panic_nounwind") || n.contains("panic_cannot_unwind") || n.contains("panic_in_cleanup") || n.contains("panic_bounds_check") || n.contains("begin_panic") || n.contains("panic_display") || n.contains("assert_failed"))
                || n.contains("rust_begin_unwind")
                || n.contains("panic_access_error")
                || n.contains("option13unwrap_failed")
                || n.contains("option13expect_failed")
                || n.contains("result13unwrap_failed")
                || n.contains("rust_foreign_exception")
                || n.contains("slice_index_fail")
                || n.contains("slice_error_fail");
            if pan {
                Spec::Panic
            } else {
                Spec::None
            }
        })
        .collect()
}

macro_rules! unsup {
    ($($a:tt)*) => { return Err(End::Unsupported(format!($($a)*))) };
}

impl<'a> Exec<'a> {
    // ---------- branching ----------
    pub fn cond(&mut self, s: &mut State, c: &V) -> R<bool> {
        let e = match c {
            V::C(_, k) => return Ok(*k & 1 == 1),
            V::S(e) => e,
            _ => unsup!("cond on {c:?}"),
        };
        if e.vars & !s.pc.fixed == 0 {
            return Ok(eval(e, &s.pc.model) & 1 == 1);
        }
        let (q0, t0) = (self.slv.queries, std::time::Instant::now());
        let dec = decide(&s.pc, e, &mut self.slv, &mut self.st, self.sh.o.z3all);
        if self.prof && self.slv.queries != q0 {
            let q = self.rep.qsites.entry((s.top.func, s.top.pc)).or_insert((0, 0));
            q.0 += 1;
            q.1 += t0.elapsed().as_micros() as u64;
        }
        match dec {
            Dec::Only(b) => Ok(b),
            Dec::Both(cur, nm) => {
                let nc = not(c);
                let mut o = s.clone();
                o.pc.model = nm;
                o.pc.add(if cur { &nc } else { c });
                self.rep.forks += 1;
                if self.prof {
                    *self.rep.forksites.entry((s.top.func, s.top.pc)).or_insert(0) += 1;
                }
                self.push(o);
                s.pc.add(if cur { c } else { &nc });
                Ok(cur)
            }
            Dec::Unknown => Err(End::Unknown),
        }
    }
    pub fn push(&mut self, o: State) {
        self.local.push_back(o);
        if self.sh.idle.load(Ordering::Relaxed) > 0 && self.local.len() > 1 {
            if let Some(x) = self.local.pop_front() {
                self.sh.q.lock().unwrap().push_back(x);
                self.sh.cv.notify_one();
            }
        }
    }
    pub fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(_, k) => return Ok(*k),
            V::W(_, k) => return Ok(**k as u64),
            V::A(_) => unsup!("conc agg"),
            V::S(_) => {}
        }
        let v = s.pc.norm(v.clone());
        if let Some(k) = v.k128() {
            return Ok(k as u64);
        }
        let V::S(e) = &v else { unreachable!() };
        let k = eval(e, &s.pc.model);
        let c = bin(Op::Eq, &v, &V::c128(e.w, k));
        let r = self.cond(s, &c)?;
        if !r {
            unsup!("concretise");
        }
        Ok(k as u64)
    }
    /// fork until every byte of the expression is fixed
    pub fn conc_vars(&mut self, s: &mut State, vars: u128) -> R<()> {
        let mut x = vars & !s.pc.fixed;
        while x != 0 {
            let i = x.trailing_zeros();
            x &= x - 1;
            self.conc(s, &var(i))?;
        }
        Ok(())
    }

    // ---------- memory ----------
    pub fn where_(&self, s: &State) -> String {
        let f = &self.m.funcs[s.top.func as usize];
        format!("{}+{}", demangle(&f.name), s.top.pc)
    }
    pub fn load(&mut self, s: &mut State, addr: &V, t: &Ty) -> R<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {}
            Ty::Arr(e, n, sz) | Ty::Vec(e, n, sz) => {
                if *sz == 0 {
                    if e.w() != 1 || *n > 64 {
                        unsup!("load of sub-byte vector");
                    }
                    let nb = (*n as u8 + 7) / 8 * 8;
                    let r = self.load(s, addr, &Ty::Int(nb))?;
                    return Ok(V::A(Arc::new((0..*n).map(|i| extract(&r, i as u8, 1)).collect())));
                }
                let a = self.conc(s, addr)?;
                let mut o = vec![];
                for i in 0..*n {
                    o.push(self.load(s, &V::C(64, a + i * sz), e)?);
                }
                return Ok(V::A(Arc::new(o)));
            }
            Ty::Struct(f, _) => {
                let a = self.conc(s, addr)?;
                let mut o = vec![];
                for (off, ft) in f.iter() {
                    o.push(self.load(s, &V::C(64, a + off), ft)?);
                }
                return Ok(V::A(Arc::new(o)));
            }
            _ => unsup!("load type {t:?}"),
        }
        let w = t.w();
        let n = (w as u32 + 7) / 8;
        if let V::C(_, a) = addr {
            let Some((l, o)) = s.mem.find(self.m, *a, n as u64) else {
                return Err(self.badmem(s, *a, n));
            };
            let v = o.read(l.off, n);
            return Ok(if let V::S(_) = v {
                let v = if w as u32 != n * 8 { extract(&v, 0, w) } else { v };
                s.pc.norm(v)
            } else if w as u32 != n * 8 {
                extract(&v, 0, w)
            } else {
                v
            });
        }
        let addr = s.pc.norm(addr.clone());
        let V::S(e) = &addr else {
            return self.load(s, &addr, t);
        };
        if e.vars.count_ones() == 1 {
            let vi = e.vars.trailing_zeros();
            let d = s.pc.dom[vi as usize];
            let mut model = [0u8; 128];
            let mut vals: Vec<V> = vec![V::C(1, 0); 256];
            for x in s_iter(&d) {
                model[vi as usize] = x;
                let a = eval(e, &model) as u64;
                let Some((l, o)) = s.mem.find(self.m, a, n as u64) else {
                    // a value that other constraints may rule out: one address after the other
                    let a = self.conc(s, &addr)?;
                    return self.load(s, &V::C(64, a), t);
                };
                let v = o.read(l.off, n);
                vals[x as usize] = if w as u32 != n * 8 { extract(&v, 0, w) } else { v };
            }
            let r = table(vi, &d, w, &|x| vals[x as usize].clone());
            return Ok(r);
        }
        let a = self.conc(s, &addr)?;
        self.load(s, &V::C(64, a), t)
    }
    fn badmem(&self, s: &State, a: u64, n: u32) -> End {
        End::Unsupported(format!("invalid access of {n} bytes at {a:#x} in {}", self.where_(s)))
    }
    pub fn store(&mut self, s: &mut State, addr: &V, v: &V, t: &Ty) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {}
            Ty::Arr(e, n, sz) | Ty::Vec(e, n, sz) => {
                if *sz == 0 {
                    // <n x i1>: packed, element 0 in the lowest bit
                    let V::A(x) = v else { unsup!("store agg") };
                    if e.w() != 1 || *n > 64 {
                        unsup!("store of sub-byte vector");
                    }
                    let mut r = x[0].clone();
                    for b in &x[1..] {
                        r = concat(b, &r);
                    }
                    let nb = (*n as u8 + 7) / 8 * 8;
                    let r = zext(&r, nb);
                    return self.store(s, addr, &r, &Ty::Int(nb));
                }
                let a = self.conc(s, addr)?;
                let V::A(x) = v else { unsup!("store agg") };
                for i in 0..*n {
                    self.store(s, &V::C(64, a + i * sz), &x[i as usize], e)?;
                }
                return Ok(());
            }
            Ty::Struct(f, _) => {
                let a = self.conc(s, addr)?;
                let V::A(x) = v else { unsup!("store agg") };
                for (i, (off, ft)) in f.iter().enumerate() {
                    self.store(s, &V::C(64, a + off), &x[i], ft)?;
                }
                return Ok(());
            }
            _ => unsup!("store type {t:?}"),
        }
        let n = (t.w() as u32 + 7) / 8;
        let a = match addr {
            V::C(_, a) => *a,
            o => self.conc(s, o)?,
        };
        let Some((l, o)) = s.mem.find(self.m, a, n as u64) else {
            return Err(self.badmem(s, a, n));
        };
        if o.ro {
            return Err(End::Unsupported(format!("write to constant in {}", self.where_(s))));
        }
        s.mem.get_mut(l).write(l.off, n, v);
        Ok(())
    }
    pub fn memcpy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let Some((ls, os)) = s.mem.find(self.m, src, n) else { return Err(self.badmem(s, src, n as u32)) };
        let so = ls.off as usize;
        let data = os.data[so..so + n as usize].to_vec();
        let syms: Vec<(u32, V)> = if os.has_sym(ls.off, n as u32) {
            os.sym.range(ls.off..ls.off + n as u32).map(|(k, v)| (*k - ls.off, v.clone())).collect()
        } else {
            vec![]
        };
        let Some((ld, od)) = s.mem.find(self.m, d, n) else { return Err(self.badmem(s, d, n as u32)) };
        if od.ro {
            return Err(End::Unsupported(format!("memcpy to constant in {}", self.where_(s))));
        }
        let o = s.mem.get_mut(ld);
        o.clear_sym(ld.off, n as u32);
        o.data[ld.off as usize..ld.off as usize + n as usize].copy_from_slice(&data);
        for (k, v) in syms {
            o.sym.insert(ld.off + k, v);
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, s: &State, a: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let Some((l, o)) = s.mem.find(self.m, a, n) else { return Err(self.badmem(s, a, n as u32)) };
        Ok((0..n as u32).map(|i| s.pc.norm(o.byte(l.off + i))).collect())
    }
    pub fn write_bytes(&mut self, s: &mut State, a: u64, b: &[V]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let Some((l, _)) = s.mem.find(self.m, a, b.len() as u64) else { return Err(self.badmem(s, a, b.len() as u32)) };
        let o = s.mem.get_mut(l);
        for (i, v) in b.iter().enumerate() {
            o.set_byte(l.off + i as u32, v.clone());
        }
        Ok(())
    }
    pub fn conc_bytes(&mut self, s: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        let v = self.read_bytes(s, a, n)?;
        let mut o = vec![];
        for x in v {
            o.push(self.conc(s, &x)? as u8);
        }
        Ok(o)
    }
    pub fn cstr(&mut self, s: &mut State, a: u64) -> R<Vec<u8>> {
        let mut o = vec![];
        loop {
            let b = self.conc_bytes(s, a + o.len() as u64, 1)?[0];
            if b == 0 {
                return Ok(o);
            }
            o.push(b);
        }
    }

    // ---------- operands ----------
    #[inline]
    fn op(s: &State, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => s.top.regs[*r as usize].clone(),
            Opnd::K(k) => k.clone(),
        }
    }
    #[inline]
    fn set(s: &mut State, d: u32, v: V) {
        s.top.regs[d as usize] = v;
    }
    #[inline]
    fn jump(&mut self, s: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = Self::op(s, &e.moves[0].1);
                s.top.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                self.mv.clear();
                for (_, o) in e.moves.iter() {
                    self.mv.push(Self::op(s, o));
                }
                for (i, (d, _)) in e.moves.iter().enumerate() {
                    s.top.regs[*d as usize] = std::mem::replace(&mut self.mv[i], V::C(1, 0));
                }
            }
        }
        s.top.pc = e.pc;
    }
    pub fn enter(&mut self, s: &mut State, f: u32, args: Vec<V>) -> R<()> {
        let fu = &self.m.funcs[f as usize];
        self.seen[f as usize] = true;
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.extend(args);
        regs.resize(fu.nregs as usize, V::C(1, 0));
        let obj = if fu.frame > 0 { s.mem.alloc(fu.frame) } else { 0 };
        let nf = Frame { func: f, pc: 0, regs, obj, dynobj: vec![] };
        let old = std::mem::replace(&mut s.top, nf);
        s.stack.push(Arc::new(old));
        if s.stack.len() > self.sh.o.maxdepth {
            return Err(End::Fail { kind: "stack".into(), msg: format!("call depth exceeds {}", self.sh.o.maxdepth) });
        }
        Ok(())
    }

    fn icmp(p: Pred, a: &V, b: &V) -> V {
        match p {
            Pred::Eq => bin(Op::Eq, a, b),
            Pred::Ne => not(&bin(Op::Eq, a, b)),
            Pred::Ult => bin(Op::Ult, a, b),
            Pred::Ugt => bin(Op::Ult, b, a),
            Pred::Ule => not(&bin(Op::Ult, b, a)),
            Pred::Uge => not(&bin(Op::Ult, a, b)),
            Pred::Slt => bin(Op::Slt, a, b),
            Pred::Sgt => bin(Op::Slt, b, a),
            Pred::Sle => not(&bin(Op::Slt, b, a)),
            Pred::Sge => not(&bin(Op::Slt, a, b)),
        }
    }

    /// run until the path ends
    pub fn run(&mut self, s: &mut State) -> End {
        let limit = self.sh.o.steps;
        loop {
            if s.steps & 0xfff == 0 {
                if self.sh.stop.load(Ordering::Relaxed) {
                    return End::Assumed;
                }
                if self.sh.start.elapsed().as_millis() as u64 > self.sh.grace.load(Ordering::Relaxed) {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    return End::Assumed;
                }
                if let Some(d) = self.sh.o.deadline {
                    if Instant::now() > d {
                        self.sh.stop.store(true, Ordering::Relaxed);
                        self.rep.timeout = true;
                        return End::Assumed;
                    }
                }
            }
            s.steps += 1;
            if s.steps > limit {
                return End::Fail { kind: "budget".into(), msg: format!("no termination within {limit} instructions") };
            }
            if self.prof {
                *self.rep.hot.entry(s.top.func).or_insert(0) += 1;
            }
            match self.step(s) {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
        }
    }

    #[inline]
    fn step(&mut self, s: &mut State) -> R<bool> {
        let m = self.m;
        let f = &m.funcs[s.top.func as usize];
        let ins = &f.code[s.top.pc as usize];
        match ins {
            I::Bin(d, op, a, b) => {
                let (x, y) = (Self::op(s, a), Self::op(s, b));
                let r = match (&x, &y) {
                    (V::C(..), V::C(..)) => bin(*op, &x, &y),
                    _ => {
                        let r = s.pc.norm(bin(*op, &s.pc.norm(x), &s.pc.norm(y)));
                        if let V::S(e) = &r {
                            if e.size > 1500 && e.w == 64 && matches!(op, Op::Add | Op::Mul | Op::Xor) {
                                let vs = e.vars;
                                self.conc_vars(s, vs)?;
                                s.pc.norm(r)
                            } else {
                                r
                            }
                        } else {
                            r
                        }
                    }
                };
                Self::set(s, *d, r);
            }
            I::VBin(d, op, a, b) => {
                let (V::A(x), V::A(y)) = (Self::op(s, a), Self::op(s, b)) else { unsup!("vbin") };
                let r = V::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| bin(*op, p, q)).collect()));
                Self::set(s, *d, r);
            }
            I::FBin(d, op, t, a, b) => {
                let (x, y) = (Self::op(s, a), Self::op(s, b));
                let (Some(x), Some(y)) = (x.k(), y.k()) else { unsup!("symbolic float") };
                let r = if *t == Ty::F64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    V::C(64, fop(*op, x, y).to_bits())
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match op {
                        FOp::Add => x + y,
                        FOp::Sub => x - y,
                        FOp::Mul => x * y,
                        FOp::Div => x / y,
                        FOp::Rem => x % y,
                    };
                    V::C(32, r.to_bits() as u64)
                };
                Self::set(s, *d, r);
            }
            I::FNeg(d, t, a) => {
                let Some(x) = Self::op(s, a).k() else { unsup!("symbolic float") };
                let w = t.w();
                Self::set(s, *d, V::C(w, x ^ (1 << (w - 1))));
            }
            I::Icmp(d, p, a, b) => {
                let (x, y) = (Self::op(s, a), Self::op(s, b));
                let r = Self::icmp(*p, &x, &y);
                let r = s.pc.norm(r);
                Self::set(s, *d, r);
            }
            I::VIcmp(d, p, a, b) => {
                let (V::A(x), V::A(y)) = (Self::op(s, a), Self::op(s, b)) else { unsup!("vicmp") };
                let r = V::A(Arc::new(x.iter().zip(y.iter()).map(|(u, v)| Self::icmp(*p, u, v)).collect()));
                Self::set(s, *d, r);
            }
            I::Fcmp(d, p, t, a, b) => {
                let (x, y) = (Self::op(s, a), Self::op(s, b));
                let (Some(x), Some(y)) = (x.k(), y.k()) else { unsup!("symbolic float") };
                let (x, y) = if *t == Ty::F64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let uno = x.is_nan() || y.is_nan();
                let r = match p & 7 {
                    0 => false,
                    1 => x == y,
                    2 => x > y,
                    3 => x >= y,
                    4 => x < y,
                    5 => x <= y,
                    6 => x != y && !uno,
                    _ => !uno,
                };
                let r = if *p == 15 { true } else if *p & 8 != 0 { r || uno } else { r };
                Self::set(s, *d, V::b(r));
            }
            I::Cast(d, k, a, ft, t) => {
                let x = Self::op(s, a);
                let r = self.cast(*k, x, ft, t)?;
                Self::set(s, *d, r);
            }
            I::Gep(d, b, off, dy) => {
                let mut r = Self::op(s, b);
                if *off != 0 {
                    r = bin(Op::Add, &r, &V::C(64, *off as u64));
                }
                for (o, sc) in dy.iter() {
                    let x = Self::op(s, o);
                    let x = if x.w() < 64 { sext(&x, 64) } else if x.w() > 64 { extract(&x, 0, 64) } else { x };
                    let x = if *sc == 1 { x } else { bin(Op::Mul, &x, &V::C(64, *sc as u64)) };
                    r = bin(Op::Add, &r, &x);
                }
                let r = s.pc.norm(r);
                Self::set(s, *d, r);
            }
            I::Load(d, p, t) => {
                let a = Self::op(s, p);
                let v = self.load(s, &a, t)?;
                Self::set(s, *d, v);
            }
            I::Store(v, p, t) => {
                let a = Self::op(s, p);
                let v = Self::op(s, v);
                self.store(s, &a, &v, t)?;
            }
            I::Alloca(d, off) => {
                let a = s.top.obj + off;
                Self::set(s, *d, V::C(64, a));
            }
            I::DynAlloca(d, n, sz) => {
                let n = Self::op(s, n);
                let n = self.conc(s, &n)?;
                let a = s.mem.alloc(n * sz);
                s.top.dynobj.push(a);
                Self::set(s, *d, V::C(64, a));
            }
            I::Select(d, c, a, b) => {
                let c = Self::op(s, c);
                let c = s.pc.norm(c);
                let r = match c.k() {
                    Some(1) => Self::op(s, a),
                    Some(_) => Self::op(s, b),
                    None => {
                        let (x, y) = (Self::op(s, a), Self::op(s, b));
                        // selecting between different pointers: fork instead of building an address ite
                        if x.w() == 64 && x.is_const() && y.is_const() && is_addr(&x) && is_addr(&y) && !x.same(&y) {
                            if self.cond(s, &c)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            ite(&c, &x, &y)
                        }
                    }
                };
                Self::set(s, *d, r);
            }
            I::VSelect(d, c, a, b) => {
                let (V::A(c), V::A(x), V::A(y)) = (Self::op(s, c), Self::op(s, a), Self::op(s, b)) else { unsup!("vsel") };
                let r = V::A(Arc::new((0..c.len()).map(|i| ite(&c[i], &x[i], &y[i])).collect()));
                Self::set(s, *d, r);
            }
            I::Call(c) => return self.call(s, c),
            I::Br(e) => {
                self.jump(s, e);
                return Ok(true);
            }
            I::CondBr(c, a, b) => {
                let r = match c {
                    Opnd::R(r) => match &s.top.regs[*r as usize] {
                        V::C(_, k) => *k == 1,
                        _ => {
                            let v = Self::op(s, c);
                            self.cond(s, &v)?
                        }
                    },
                    Opnd::K(k) => k.k() == Some(1),
                };
                self.jump(s, if r { a } else { b });
                return Ok(true);
            }
            I::Switch(v, dflt, cases) => {
                let x = Self::op(s, v);
                let x = s.pc.norm(x);
                if let Some(k) = x.k128() {
                    let e = cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(dflt);
                    self.jump(s, e);
                    return Ok(true);
                }
                // group cases by target (pc and moves identical by pc only if no moves)
                let w = x.w();
                let mut i = 0;
                while i < cases.len() {
                    let (k, e) = &cases[i];
                    let mut c = bin(Op::Eq, &x, &V::c128(w, *k));
                    let mut j = i + 1;
                    while j < cases.len() && cases[j].1.pc == e.pc && e.moves.is_empty() && cases[j].1.moves.is_empty() {
                        c = bor(&c, &bin(Op::Eq, &x, &V::c128(w, cases[j].0)));
                        j += 1;
                    }
                    // later non-adjacent cases with the same bare target
                    if e.moves.is_empty() {
                        for cs in &cases[j..] {
                            if cs.1.pc == e.pc {
                                c = bor(&c, &bin(Op::Eq, &x, &V::c128(w, cs.0)));
                            }
                        }
                    }
                    if self.cond(s, &c)? {
                        let e = e.clone();
                        self.jump(s, &e);
                        return Ok(true);
                    }
                    i = j;
                }
                self.jump(s, dflt);
                return Ok(true);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::op(s, o));
                return self.ret(s, v);
            }
            I::Unreachable => unsup!("unreachable executed in {}", self.where_(s)),
            I::ExtractV(d, a, ix) => {
                let mut v = Self::op(s, a);
                for i in ix.iter() {
                    let V::A(x) = &v else { unsup!("extractvalue") };
                    v = x[*i as usize].clone();
                }
                Self::set(s, *d, v);
            }
            I::InsertV(d, a, v, ix) => {
                let a = Self::op(s, a);
                let v = Self::op(s, v);
                fn ins(a: &V, ix: &[u32], v: V) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    let V::A(x) = a else { panic!("insertvalue") };
                    let mut x = x.as_ref().clone();
                    x[ix[0] as usize] = ins(&x[ix[0] as usize].clone(), &ix[1..], v);
                    V::A(Arc::new(x))
                }
                let r = ins(&a, ix, v);
                Self::set(s, *d, r);
            }
            I::ExtractE(d, a, i) => {
                let i = Self::op(s, i);
                let i = self.conc(s, &i)?;
                let V::A(x) = Self::op(s, a) else { unsup!("extractelement") };
                Self::set(s, *d, x[i as usize].clone());
            }
            I::InsertE(d, a, v, i) => {
                let i = Self::op(s, i);
                let i = self.conc(s, &i)?;
                let v = Self::op(s, v);
                let V::A(x) = Self::op(s, a) else { unsup!("insertelement") };
                let mut x = x.as_ref().clone();
                x[i as usize] = v;
                Self::set(s, *d, V::A(Arc::new(x)));
            }
            I::Shuffle(d, a, b, mk) => {
                let (V::A(x), V::A(y)) = (Self::op(s, a), Self::op(s, b)) else { unsup!("shuffle") };
                let n = x.len();
                let r: Vec<V> = mk
                    .iter()
                    .map(|k| {
                        let k = *k;
                        if k < 0 {
                            V::c128(x[0].w(), 0)
                        } else if (k as usize) < n {
                            x[k as usize].clone()
                        } else {
                            y[k as usize - n].clone()
                        }
                    })
                    .collect();
                Self::set(s, *d, V::A(Arc::new(r)));
            }
            I::Freeze(d, a) => {
                let v = Self::op(s, a);
                Self::set(s, *d, v);
            }
            I::Rmw(d, o, p, v, t) => {
                let a = Self::op(s, p);
                let a = V::C(64, self.conc(s, &a)?);
                let old = self.load(s, &a, t)?;
                let v = Self::op(s, v);
                let n = match o {
                    0 => v,
                    1 => bin(Op::Add, &old, &v),
                    2 => bin(Op::Sub, &old, &v),
                    3 => bin(Op::And, &old, &v),
                    5 => bin(Op::Or, &old, &v),
                    6 => bin(Op::Xor, &old, &v),
                    7 => ite(&bin(Op::Slt, &old, &v), &v, &old),
                    8 => ite(&bin(Op::Slt, &old, &v), &old, &v),
                    9 => ite(&bin(Op::Ult, &old, &v), &v, &old),
                    10 => ite(&bin(Op::Ult, &old, &v), &old, &v),
                    _ => unsup!("rmw {o}"),
                };
                self.store(s, &a, &n, t)?;
                Self::set(s, *d, old);
            }
            I::CmpXchg(d, p, e, n, t) => {
                let a = Self::op(s, p);
                let a = V::C(64, self.conc(s, &a)?);
                let old = self.load(s, &a, t)?;
                let e = Self::op(s, e);
                let n = Self::op(s, n);
                let c = bin(Op::Eq, &old, &e);
                let ok = self.cond(s, &c)?;
                if ok {
                    self.store(s, &a, &n, t)?;
                }
                Self::set(s, *d, V::A(Arc::new(vec![old, V::b(ok)])));
            }
            I::Fence => {}
            I::Unsupported(x) => unsup!("instruction {x} in {}", self.where_(s)),
        }
        s.top.pc += 1;
        Ok(true)
    }

    fn ret(&mut self, s: &mut State, v: Option<V>) -> R<bool> {
        if s.top.obj != 0 {
            s.mem.dealloc(s.top.obj);
        }
        for a in std::mem::take(&mut s.top.dynobj) {
            s.mem.dealloc(a);
        }
        let Some(up) = s.stack.pop() else { return Ok(false) };
        if up.func == u32::MAX {
            return Ok(false);
        }
        let up = Arc::try_unwrap(up).unwrap_or_else(|a| (*a).clone());
        let old = std::mem::replace(&mut s.top, up);
        if self.pool.len() < 64 {
            self.pool.push(old.regs);
        }
        let m = self.m;
        let I::Call(c) = &m.funcs[s.top.func as usize].code[s.top.pc as usize] else { unsup!("return to non-call") };
        self.finish_call(s, c, v);
        Ok(true)
    }
    fn finish_call(&mut self, s: &mut State, c: &CallI, v: Option<V>) {
        if let Some(d) = c.dst {
            Self::set(s, d, v.unwrap_or(V::C(1, 0)));
        }
        match &c.normal {
            None => s.top.pc += 1,
            Some(e) => self.jump(s, e),
        }
    }

    fn cast(&mut self, k: Cast, x: V, ft: &Ty, t: &Ty) -> R<V> {
        if let (V::A(v), Ty::Vec(et, _, _)) = (&x, t) {
            if k == Cast::Bit {
                if let Ty::Vec(fe, n, _) = ft {
                    let Ty::Vec(te, tn, _) = t else { unreachable!() };
                    if n == tn && fe.w() == te.w() {
                        return Ok(x.clone());
                    }
                    // through a wide integer only for constants
                    unsup!("vector bitcast {ft:?} {t:?}");
                }
            }
            let Ty::Vec(fe, _, _) = ft else { unsup!("vcast") };
            let mut o = vec![];
            for e in v.iter() {
                o.push(self.cast(k, e.clone(), fe, et)?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        Ok(match k {
            Cast::Trunc => extract(&x, 0, t.w()),
            Cast::ZExt => zext(&x, t.w()),
            Cast::SExt => sext(&x, t.w()),
            Cast::Bit => match (&x, t) {
                (V::A(v), _) if t.scalar() => {
                    let mut r = v[0].clone();
                    for e in &v[1..] {
                        r = concat(e, &r);
                    }
                    r
                }
                (_, Ty::Vec(e, n, _)) => {
                    let ew = e.w();
                    V::A(Arc::new((0..*n).map(|i| extract(&x, (i as u8) * ew, ew)).collect()))
                }
                _ => x,
            },
            _ => {
                let Some(b) = x.k() else { unsup!("symbolic float cast") };
                let fw = ft.w();
                let f = || if *ft == Ty::F64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                let mk = |d: f64| if *t == Ty::F64 { V::C(64, d.to_bits()) } else { V::C(32, (d as f32).to_bits() as u64) };
                match k {
                    Cast::UiToFp => {
                        if *t == Ty::F64 {
                            V::C(64, (b as f64).to_bits())
                        } else {
                            V::C(32, (b as f32).to_bits() as u64)
                        }
                    }
                    Cast::SiToFp => {
                        let i = sext64(b, fw);
                        if *t == Ty::F64 {
                            V::C(64, (i as f64).to_bits())
                        } else {
                            V::C(32, (i as f32).to_bits() as u64)
                        }
                    }
                    Cast::FpToUi => V::c(t.w(), f() as u64),
                    Cast::FpToSi => V::c(t.w(), f() as i64 as u64),
                    _ => mk(f()),
                }
            }
        })
    }

    fn call(&mut self, s: &mut State, c: &CallI) -> R<bool> {
        let fid = match &c.callee {
            Callee::F(f) => *f,
            Callee::Nat(n) => {
                let r = self.native(s, n, c)?;
                return match r {
                    crate::env::NatRes::Val(v) => {
                        self.finish_call(s, c, Some(v));
                        Ok(true)
                    }
                    crate::env::NatRes::Void => {
                        self.finish_call(s, c, None);
                        Ok(true)
                    }
                    crate::env::NatRes::Entered => Ok(true),
                };
            }
            Callee::Ind(o) => {
                let v = Self::op(s, o);
                let a = self.conc(s, &v)?;
                if a < FBASE + 16 || a >= FBASE + 16 * (self.m.funcs.len() as u64 + 1) || a % 16 != 0 {
                    unsup!("indirect call to {a:#x} in {}", self.where_(s));
                }
                let f = ((a - FBASE) / 16 - 1) as u32;
                if let Some(n) = &self.m.funcs[f as usize].nat {
                    let n = n.clone();
                    let r = self.native(s, &n, c)?;
                    let v = match r {
                        crate::env::NatRes::Val(v) => Some(v),
                        crate::env::NatRes::Entered => return Ok(true),
                        _ => None,
                    };
                    self.finish_call(s, c, v);
                    return Ok(true);
                }
                f
            }
        };
        let args: Vec<V> = c.args.iter().map(|o| Self::op(s, o)).collect();
        if self.spec[fid as usize] == Spec::Panic {
            let msg = self.panic_loc(s, &args);
            return Err(End::Fail { kind: "panic".into(), msg });
        }
        self.enter(s, fid, args)?;
        Ok(true)
    }
    fn panic_loc(&mut self, s: &mut State, args: &[V]) -> String {
        // the last argument of the panic entry points is &'static Location
        for a in args.iter().rev() {
            let Some(p) = a.k() else { continue };
            let Some((l, o)) = s.mem.find(self.m, p, 24) else { continue };
            let (Some(fp), Some(fl)) = (o.read(l.off, 8).k(), o.read(l.off + 8, 8).k()) else { continue };
            let (Some(li), Some(co)) = (o.read(l.off + 16, 4).k(), o.read(l.off + 20, 4).k()) else { continue };
            if fl == 0 || fl > 300 {
                continue;
            }
            let Some((l2, o2)) = s.mem.find(self.m, fp, fl) else { continue };
            let b = &o2.data[l2.off as usize..(l2.off as u64 + fl) as usize];
            if let Ok(t) = std::str::from_utf8(b) {
                if t.ends_with(".rs") {
                    return format!("{t}:{li}:{co}");
                }
            }
        }
        format!("panic in {}", self.where_(s))
    }
    pub fn stack_names(&self, s: &State) -> Vec<String> {
        let mut v = vec![demangle(&self.m.funcs[s.top.func as usize].name)];
        for f in s.stack.iter().rev() {
            if f.func == u32::MAX {
                continue;
            }
            v.push(demangle(&self.m.funcs[f.func as usize].name));
            if v.len() >= 12 {
                break;
            }
        }
        v
    }
    pub fn mkviol(&self, s: &State, model: &[u8; 128], kind: &str, msg: &str) -> Violation {
        let mut mo = vec![];
        let mut i = 0usize;
        for (n, k) in s.pc.names.iter() {
            mo.push((n.clone(), model[i..i + *k as usize].to_vec()));
            i += *k as usize;
        }
        let notes = s
            .env
            .notes
            .iter()
            .map(|(n, v)| (n.clone(), v.iter().map(|x| eval_v(x, model) as u8).collect()))
            .collect();
        Violation { kind: kind.into(), msg: msg.into(), model: mo, notes, stack: self.stack_names(s), count: 1 }
    }
    pub fn record(&mut self, v: Violation) {
        let key = format!("{}: {}", v.kind, v.msg);
        let maxv = self.sh.o.maxviol;
        let e = self.rep.viol.entry(key).or_default();
        if e.len() < maxv {
            e.push(v);
        } else {
            // prefer short witnesses
            let sz = |x: &Violation| x.model.iter().map(|m| m.1.len()).sum::<usize>();
            e[0].count += 1;
            if let Some(w) = e.iter_mut().skip(1).max_by_key(|x| sz(x)) {
                if sz(&v) < sz(w) {
                    *w = v;
                }
            }
        }
        if let Some(g) = self.sh.o.grace {
            let end = self.sh.start.elapsed().as_millis() as u64 + g * 1000;
            self.sh.grace.fetch_min(end, Ordering::Relaxed);
        }
        if self.sh.o.stop_first {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    /// reservoir sample of completed paths, for replay against the native build
    fn sample(&mut self, s: &State) {
        let k = self.sh.o.samples;
        if k == 0 {
            return;
        }
        let r = &mut self.rep.rng;
        *r ^= *r << 13;
        *r ^= *r >> 7;
        *r ^= *r << 17;
        let x = *r % self.rep.paths;
        if (self.rep.samples.len() as u64) < k {
            let v = self.mkviol(s, &s.pc.model, "path", &s.env.trace.join("|"));
            self.rep.samples.push(v);
        } else if x < k {
            let v = self.mkviol(s, &s.pc.model, "path", &s.env.trace.join("|"));
            self.rep.samples[x as usize] = v;
        }
    }

    pub fn worker(&mut self) {
        loop {
            let mut s = match self.local.pop_back() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.q.lock().unwrap();
                    loop {
                        if let Some(s) = q.pop_front() {
                            break s;
                        }
                        if self.sh.stop.load(Ordering::Relaxed) {
                            self.sh.cv.notify_all();
                            return;
                        }
                        let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                        if n == self.sh.o.threads {
                            self.sh.stop.store(true, Ordering::SeqCst);
                            self.sh.cv.notify_all();
                            return;
                        }
                        q = self.sh.cv.wait(q).unwrap();
                        self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                    }
                }
            };
            if self.sh.stop.load(Ordering::Relaxed) {
                self.rep.pending += 1 + self.local.len() as u64;
                self.local.clear();
                continue;
            }
            let s0 = s.steps;
            let end = self.run(&mut s);
            self.rep.steps += s.steps - s0;
            self.rep.maxsteps = self.rep.maxsteps.max(s.steps);
            self.rep.maxvars = self.rep.maxvars.max(s.pc.nvars);
            match end {
                End::Done => {
                    self.rep.paths += 1;
                    self.sample(&s);
                }
                End::Assumed => {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        self.rep.pending += 1;
                    } else {
                        self.rep.assumed += 1;
                    }
                }
                End::Fail { kind, msg } => {
                    self.rep.failed += 1;
                    if kind == "budget" || kind == "stack" {
                        // paths without an end are expensive, and a few of them are enough
                        if self.sh.endless.fetch_add(1, Ordering::Relaxed) + 1 >= 32 {
                            self.sh.stop.store(true, Ordering::Relaxed);
                        }
                    }
                    // confirm the whole path condition with the solver
                    let all: u128 = if s.pc.nvars == 128 { !0 } else { (1u128 << s.pc.nvars) - 1 };
                    let (cs, ds) = s.pc.slice(all);
                    let r: Vec<&V> = cs.iter().collect();
                    match self.slv.check(&r, &ds) {
                        Res::Sat(m) => {
                            let v = self.mkviol(&s, &m, &kind, &msg);
                            self.record(v);
                        }
                        Res::Unsat => {
                            *self.rep.unsupported.entry("ENGINE: path condition unsat at failure".into()).or_insert(0) += 1;
                        }
                        Res::Unknown => self.rep.unknown += 1,
                    }
                }
                End::Unsupported(x) => {
                    let v = self.mkviol(&s, &s.pc.model, "unsupported", &x);
                    *self.rep.unsupported.entry(x.clone()).or_insert(0) += 1;
                    self.rep.unsup_model.entry(x).or_insert(v);
                }
                End::Unknown => {
                    *self.rep.unsupported.entry("solver returned unknown".into()).or_insert(0) += 1;
                }
            }
        }
    }
}

fn is_addr(v: &V) -> bool {
    match v.k() {
        Some(k) => k >= GBASE,
        None => false,
    }
}

fn fop(op: FOp, x: f64, y: f64) -> f64 {
    match op {
        FOp::Add => x + y,
        FOp::Sub => x - y,
        FOp::Mul => x * y,
        FOp::Div => x / y,
        FOp::Rem => x % y,
    }
}

/// readable function name from a v0 or legacy mangled symbol (identifiers only)
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !(n.starts_with("_ZN") || n.starts_with("_R")) {
        return n.to_string();
    }
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            let mut j = i;
            if n.starts_with("_R") && j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k >= 2 && k < 200 && j + k <= b.len() && std::str::from_utf8(&b[j..j + k]).map(|s| s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '$' || c == '.' || c == '{' || c == '}')).unwrap_or(false) {
                let s = String::from_utf8_lossy(&b[j..j + k]).into_owned();
                let is_hash = s.len() == 17 && s.starts_with('h');
                if !is_hash {
                    parts.push(s);
                }
                i = j + k;
            } else {
                i = st + 1;
            }
        } else if b[i] == b's' && n.starts_with("_R") {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    parts.join("::")
}
