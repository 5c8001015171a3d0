//! Z3 through its C API (dlopen), and the path condition.
use crate::api;
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::Arc;
use std::time::Instant;

type P = *mut c_void;
api!(Z {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(P, *const c_char, *const c_char);
    fn Z3_del_config(P);
    fn Z3_mk_context(P) -> P;
    fn Z3_del_context(P);
    fn Z3_mk_simple_solver(P) -> P;
    fn Z3_solver_inc_ref(P, P);
    fn Z3_solver_dec_ref(P, P);
    fn Z3_solver_push(P, P);
    fn Z3_solver_pop(P, P, c_uint);
    fn Z3_solver_assert(P, P, P);
    fn Z3_solver_check(P, P) -> c_int;
    fn Z3_solver_get_model(P, P) -> P;
    fn Z3_solver_set_params(P, P, P);
    fn Z3_mk_params(P) -> P;
    fn Z3_params_set_uint(P, P, P, c_uint);
    fn Z3_params_inc_ref(P, P);
    fn Z3_params_dec_ref(P, P);
    fn Z3_mk_string_symbol(P, *const c_char) -> P;
    fn Z3_mk_int_symbol(P, c_int) -> P;
    fn Z3_mk_bv_sort(P, c_uint) -> P;
    fn Z3_mk_const(P, P, P) -> P;
    fn Z3_mk_unsigned_int64(P, u64, P) -> P;
    fn Z3_mk_numeral(P, *const c_char, P) -> P;
    fn Z3_mk_true(P) -> P;
    fn Z3_mk_false(P) -> P;
    fn Z3_mk_eq(P, P, P) -> P;
    fn Z3_mk_not(P, P) -> P;
    fn Z3_mk_ite(P, P, P, P) -> P;
    fn Z3_mk_and(P, c_uint, *const P) -> P;
    fn Z3_mk_or(P, c_uint, *const P) -> P;
    fn Z3_mk_xor(P, P, P) -> P;
    fn Z3_mk_bvadd(P, P, P) -> P;
    fn Z3_mk_bvsub(P, P, P) -> P;
    fn Z3_mk_bvmul(P, P, P) -> P;
    fn Z3_mk_bvudiv(P, P, P) -> P;
    fn Z3_mk_bvsdiv(P, P, P) -> P;
    fn Z3_mk_bvurem(P, P, P) -> P;
    fn Z3_mk_bvsrem(P, P, P) -> P;
    fn Z3_mk_bvand(P, P, P) -> P;
    fn Z3_mk_bvor(P, P, P) -> P;
    fn Z3_mk_bvxor(P, P, P) -> P;
    fn Z3_mk_bvshl(P, P, P) -> P;
    fn Z3_mk_bvlshr(P, P, P) -> P;
    fn Z3_mk_bvashr(P, P, P) -> P;
    fn Z3_mk_bvult(P, P, P) -> P;
    fn Z3_mk_bvule(P, P, P) -> P;
    fn Z3_mk_bvslt(P, P, P) -> P;
    fn Z3_mk_concat(P, P, P) -> P;
    fn Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    fn Z3_mk_zero_ext(P, c_uint, P) -> P;
    fn Z3_mk_sign_ext(P, c_uint, P) -> P;
    fn Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    fn Z3_get_numeral_uint64(P, P, *mut u64) -> bool;
    fn Z3_get_error_code(P) -> c_int;
    fn Z3_set_error_handler(P, P);
    fn Z3_get_full_version() -> *const c_char;
});

pub enum Res {
    Sat([u8; 128]),
    Unsat,
    Unknown,
}

pub struct Solver {
    z: Arc<Z>,
    ctx: P,
    slv: P,
    memo: HashMap<u128, P>,
    in_ctx: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    timeout_ms: u32,
}
unsafe impl Send for Solver {}

pub fn default_z3() -> String {
    if let Ok(p) = std::env::var("SYMEX_Z3") {
        return p;
    }
    "/usr/lib/x86_64-linux-gnu/libz3.so".into()
}

pub fn load_z3(path: &str) -> Result<Arc<Z>, String> {
    Ok(Arc::new(Z::load(crate::llvm::open_lib(path)?)))
}
pub fn version(z: &Z) -> String {
    unsafe { std::ffi::CStr::from_ptr((z.Z3_get_full_version)()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(z: Arc<Z>, timeout_ms: u32) -> Solver {
        let mut s = Solver {
            z,
            ctx: std::ptr::null_mut(),
            slv: std::ptr::null_mut(),
            memo: HashMap::new(),
            in_ctx: 0,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            timeout_ms,
        };
        s.fresh();
        s
    }
    fn fresh(&mut self) {
        let z = &self.z;
        unsafe {
            if !self.ctx.is_null() {
                (z.Z3_solver_dec_ref)(self.ctx, self.slv);
                (z.Z3_del_context)(self.ctx);
            }
            let cfg = (z.Z3_mk_config)();
            self.ctx = (z.Z3_mk_context)(cfg);
            (z.Z3_del_config)(cfg);
            (z.Z3_set_error_handler)(self.ctx, std::ptr::null_mut());
            self.slv = (z.Z3_mk_simple_solver)(self.ctx);
            (z.Z3_solver_inc_ref)(self.ctx, self.slv);
            let p = (z.Z3_mk_params)(self.ctx);
            (z.Z3_params_inc_ref)(self.ctx, p);
            let n = CString::new("timeout").unwrap();
            let sy = (z.Z3_mk_string_symbol)(self.ctx, n.as_ptr());
            (z.Z3_params_set_uint)(self.ctx, p, sy, self.timeout_ms);
            (z.Z3_solver_set_params)(self.ctx, self.slv, p);
            (z.Z3_params_dec_ref)(self.ctx, p);
        }
        self.memo.clear();
        self.in_ctx = 0;
    }
    fn bv(&self, w: u32) -> P {
        unsafe { (self.z.Z3_mk_bv_sort)(self.ctx, w) }
    }
    fn num(&self, w: u8, k: u128) -> P {
        unsafe {
            if w <= 64 {
                (self.z.Z3_mk_unsigned_int64)(self.ctx, k as u64, self.bv(w as u32))
            } else {
                let s = CString::new(k.to_string()).unwrap();
                (self.z.Z3_mk_numeral)(self.ctx, s.as_ptr(), self.bv(w as u32))
            }
        }
    }
    fn var(&self, i: u32) -> P {
        unsafe {
            let s = (self.z.Z3_mk_int_symbol)(self.ctx, i as c_int);
            (self.z.Z3_mk_const)(self.ctx, s, self.bv(8))
        }
    }
    fn set_ast(&self, v: P, s: &Set) -> P {
        let z = &self.z;
        let c = self.ctx;
        let mut parts = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if s_has(s, i as u8) {
                    let mut j = i;
                    while j + 1 < 256 && s_has(s, (j + 1) as u8) {
                        j += 1;
                    }
                    let lo = self.num(8, i as u128);
                    let hi = self.num(8, j as u128);
                    parts.push(if i == j {
                        (z.Z3_mk_eq)(c, v, lo)
                    } else {
                        let a = (z.Z3_mk_bvule)(c, lo, v);
                        let b = (z.Z3_mk_bvule)(c, v, hi);
                        (z.Z3_mk_and)(c, 2, [a, b].as_ptr())
                    });
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            if parts.is_empty() {
                (z.Z3_mk_false)(c)
            } else {
                (z.Z3_mk_or)(c, parts.len() as u32, parts.as_ptr())
            }
        }
    }
    /// width-1 values are Bool, all others bit-vectors
    fn tr(&mut self, v: &V) -> P {
        let z = self.z.clone();
        let c = self.ctx;
        unsafe {
            let e = match v {
                V::C(1, k) => return if *k == 1 { (z.Z3_mk_true)(c) } else { (z.Z3_mk_false)(c) },
                V::C(w, k) => return self.num(*w, *k as u128),
                V::W(w, k) => return self.num(*w, **k),
                V::S(e) => e.clone(),
                V::A(_) => panic!("aggregate in query"),
            };
            if let Some(p) = self.memo.get(&e.h) {
                return *p;
            }
            let k = &e.kids;
            let as_bv = |me: &mut Self, v: &V| -> P {
                let p = me.tr(v);
                if v.w() == 1 {
                    let one = me.num(1, 1);
                    let zero = me.num(1, 0);
                    (z.Z3_mk_ite)(c, p, one, zero)
                } else {
                    p
                }
            };
            let r = match e.op {
                Op::Var(i) => self.var(i),
                Op::InSet => {
                    let v = self.var(e.vars.trailing_zeros());
                    self.set_ast(v, e.set.as_ref().unwrap())
                }
                Op::Ite => {
                    let a = self.tr(&k[0]);
                    let b = self.tr(&k[1]);
                    let d = self.tr(&k[2]);
                    (z.Z3_mk_ite)(c, a, b, d)
                }
                Op::Concat => {
                    let a = as_bv(self, &k[0]);
                    let b = as_bv(self, &k[1]);
                    (z.Z3_mk_concat)(c, a, b)
                }
                Op::Extract(lo) => {
                    let a = as_bv(self, &k[0]);
                    let x = (z.Z3_mk_extract)(c, lo as u32 + e.w as u32 - 1, lo as u32, a);
                    if e.w == 1 {
                        (z.Z3_mk_eq)(c, x, self.num(1, 1))
                    } else {
                        x
                    }
                }
                Op::ZExt | Op::SExt => {
                    let a = as_bv(self, &k[0]);
                    let n = (e.w - k[0].w()) as u32;
                    if e.op == Op::ZExt {
                        (z.Z3_mk_zero_ext)(c, n, a)
                    } else {
                        (z.Z3_mk_sign_ext)(c, n, a)
                    }
                }
                Op::And | Op::Or | Op::Xor | Op::Eq if k[0].w() == 1 => {
                    let a = self.tr(&k[0]);
                    let b = self.tr(&k[1]);
                    match e.op {
                        Op::And => (z.Z3_mk_and)(c, 2, [a, b].as_ptr()),
                        Op::Or => (z.Z3_mk_or)(c, 2, [a, b].as_ptr()),
                        Op::Xor => (z.Z3_mk_xor)(c, a, b),
                        _ => (z.Z3_mk_eq)(c, a, b),
                    }
                }
                op => {
                    let a = as_bv(self, &k[0]);
                    let b = as_bv(self, &k[1]);
                    match op {
                        Op::Add => (z.Z3_mk_bvadd)(c, a, b),
                        Op::Sub => (z.Z3_mk_bvsub)(c, a, b),
                        Op::Mul => (z.Z3_mk_bvmul)(c, a, b),
                        Op::UDiv => (z.Z3_mk_bvudiv)(c, a, b),
                        Op::SDiv => (z.Z3_mk_bvsdiv)(c, a, b),
                        Op::URem => (z.Z3_mk_bvurem)(c, a, b),
                        Op::SRem => (z.Z3_mk_bvsrem)(c, a, b),
                        Op::And => (z.Z3_mk_bvand)(c, a, b),
                        Op::Or => (z.Z3_mk_bvor)(c, a, b),
                        Op::Xor => (z.Z3_mk_bvxor)(c, a, b),
                        Op::Shl => (z.Z3_mk_bvshl)(c, a, b),
                        Op::LShr => (z.Z3_mk_bvlshr)(c, a, b),
                        Op::AShr => (z.Z3_mk_bvashr)(c, a, b),
                        Op::Eq => (z.Z3_mk_eq)(c, a, b),
                        Op::Ult => (z.Z3_mk_bvult)(c, a, b),
                        Op::Slt => (z.Z3_mk_bvslt)(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.memo.insert(e.h, r);
            r
        }
    }
    pub fn check(&mut self, cons: &[&V], doms: &[(u32, Set)]) -> Res {
        let t0 = Instant::now();
        if self.in_ctx > 3000 {
            self.fresh();
        }
        self.in_ctx += 1;
        self.queries += 1;
        let z = self.z.clone();
        unsafe {
            let c = self.ctx;
            (z.Z3_solver_push)(c, self.slv);
            // the non-rc context ties ASTs to the scope level: do not keep them across pop
            self.memo.clear();
            for (v, s) in doms {
                if *s != FULL {
                    let x = self.var(*v);
                    let a = self.set_ast(x, s);
                    (z.Z3_solver_assert)(c, self.slv, a);
                }
            }
            for k in cons {
                let a = self.tr(k);
                (z.Z3_solver_assert)(c, self.slv, a);
            }
            let r = (z.Z3_solver_check)(c, self.slv);
            let out = match r {
                1 => {
                    let m = (z.Z3_solver_get_model)(c, self.slv);
                    let mut model = [0u8; 128];
                    for (v, s) in doms {
                        let x = self.var(*v);
                        let mut o: P = std::ptr::null_mut();
                        let mut n = 0u64;
                        if (z.Z3_model_eval)(c, m, x, true, &mut o) && (z.Z3_get_numeral_uint64)(c, o, &mut n) {
                            model[*v as usize] = n as u8;
                        } else {
                            model[*v as usize] = s_first(s);
                        }
                    }
                    self.sat += 1;
                    Res::Sat(model)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            if (z.Z3_get_error_code)(c) != 0 {
                self.unknown += 1;
                self.fresh();
                self.time += t0.elapsed().as_secs_f64();
                return Res::Unknown;
            }
            (z.Z3_solver_pop)(c, self.slv, 1);
            self.time += t0.elapsed().as_secs_f64();
            out
        }
    }
}

#[derive(Clone)]
pub struct Pc {
    pub nvars: u32,
    pub dom: Arc<Vec<Set>>,
    pub cons: Arc<Vec<V>>,
    pub entangled: u128,
    pub fixed: u128,
    pub model: [u8; 128],
    pub names: Arc<Vec<(String, u32)>>, // name, number of bytes
}

impl Pc {
    pub fn new() -> Pc {
        Pc {
            nvars: 0,
            dom: Arc::new(vec![]),
            cons: Arc::new(vec![]),
            entangled: 0,
            fixed: 0,
            model: [0; 128],
            names: Arc::new(vec![]),
        }
    }
    pub fn fresh(&mut self) -> Option<V> {
        if self.nvars >= 128 {
            return None;
        }
        let i = self.nvars;
        self.nvars += 1;
        Arc::make_mut(&mut self.dom).push(FULL);
        Some(var(i))
    }
    /// replace expressions over fixed bytes by constants
    pub fn norm(&self, v: V) -> V {
        if let V::S(e) = &v {
            if e.vars & !self.fixed == 0 {
                return V::c128(e.w, eval(e, &self.model));
            }
        }
        v
    }
    pub fn slice(&self, vars: u128) -> (Vec<V>, Vec<(u32, Set)>) {
        let mut vs = vars;
        let mut used = vec![false; self.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in self.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let V::S(e) = c else { continue };
                if e.vars & vs != 0 {
                    used[i] = true;
                    out.push(c.clone());
                    if e.vars & !vs != 0 {
                        vs |= e.vars;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut d = vec![];
        for i in 0..self.nvars {
            if vs >> i & 1 == 1 {
                d.push((i, self.dom[i as usize]));
            }
        }
        (out, d)
    }
    /// add a constraint known to be satisfied by the current model
    pub fn add(&mut self, c: &V) {
        match c {
            V::C(_, k) => debug_assert!(*k == 1),
            V::S(e) => match e.op {
                Op::InSet => {
                    let v = e.vars.trailing_zeros() as usize;
                    let s = s_and(&self.dom[v], e.set.as_ref().unwrap());
                    if s != self.dom[v] {
                        Arc::make_mut(&mut self.dom)[v] = s;
                        if s.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                            self.fixed |= 1 << v;
                        }
                    }
                }
                Op::And if e.w == 1 => {
                    self.add(&e.kids[0]);
                    self.add(&e.kids[1]);
                }
                _ => {
                    if !self.cons.iter().any(|x| x.same(c)) {
                        Arc::make_mut(&mut self.cons).push(c.clone());
                        self.entangled |= e.vars;
                    }
                }
            },
            _ => panic!(),
        }
    }
}

/// Largest product of domain sizes which is decided by finite-domain search instead of Z3.
const FD_LIMIT: u64 = 6000;

/// Complete search over the (small, finite) product of the byte domains.
/// `Some(Some(model))` = satisfiable, `Some(None)` = unsatisfiable, `None` = too large.
fn fd_search(base: &[u8; 128], cons: &[&V], ds: &[(u32, Set)]) -> Option<Option<[u8; 128]>> {
    let mut prod = 1u64;
    let mut vals: Vec<(usize, Vec<u8>)> = vec![];
    for (v, s) in ds {
        let l: Vec<u8> = (0..=255u8).filter(|b| s_has(s, *b)).collect();
        prod = prod.saturating_mul(l.len() as u64);
        vals.push((*v as usize, l));
    }
    if prod > FD_LIMIT {
        return None;
    }
    vals.sort_by_key(|x| x.1.len());
    // constraints are tested as soon as their last variable has a value
    let mut at: Vec<Vec<&E>> = vec![vec![]; vals.len() + 1];
    let mut seen = 0u128;
    let mut left: Vec<&E> = vec![];
    for c in cons {
        match c {
            V::C(_, 1) => {}
            V::C(..) => return Some(None),
            V::S(e) => left.push(e),
            _ => return None,
        }
    }
    let known: u128 = vals.iter().fold(0, |a, x| a | 1u128 << x.0);
    if left.iter().any(|e| e.vars & !known != 0) {
        return None;
    }
    for (i, (v, _)) in vals.iter().enumerate() {
        seen |= 1u128 << *v;
        left.retain(|e| {
            if e.vars & !seen == 0 {
                at[i].push(e);
                false
            } else {
                true
            }
        });
    }
    fn go(i: usize, vals: &[(usize, Vec<u8>)], at: &[Vec<&E>], m: &mut [u8; 128]) -> bool {
        if i == vals.len() {
            return true;
        }
        for b in &vals[i].1 {
            m[vals[i].0] = *b;
            if at[i].iter().all(|e| eval(e, m) & 1 == 1) && go(i + 1, vals, at, m) {
                return true;
            }
        }
        false
    }
    let mut m = *base;
    Some(if go(0, &vals, &at, &mut m) { Some(m) } else { None })
}

pub struct Stats {
    pub dom_decisions: u64,
    pub fd_decisions: u64,
    pub cache_hits: u64,
    pub crosscheck: u64,
    pub crosscheck_bad: u64,
}

/// outcome of a branch decision
pub enum Dec {
    Only(bool),
    /// both feasible; model of the state satisfies `bool`; model for the other side
    Both(bool, [u8; 128]),
    Unknown,
}

pub fn decide(pc: &Pc, e: &E, slv: &mut Solver, st: &mut Stats, z3all: bool) -> Dec {
    let cur = eval(e, &pc.model) & 1 == 1;
    if e.op == Op::InSet {
        let v = e.vars.trailing_zeros() as usize;
        let s = e.set.as_ref().unwrap();
        let d = &pc.dom[v];
        let t = s_and(d, s);
        let f = s_and(d, &s_not(s));
        let quick = if s_empty(&t) {
            Some(Dec::Only(false))
        } else if s_empty(&f) {
            Some(Dec::Only(true))
        } else if pc.entangled >> v & 1 == 0 {
            let mut m = pc.model;
            m[v] = s_first(if cur { &f } else { &t });
            Some(Dec::Both(cur, m))
        } else {
            None
        };
        if let Some(q) = quick {
            st.dom_decisions += 1;
            if z3all {
                // the other side must be exactly as the domain layer says
                let other = if cur { not(&V::S(e.clone())) } else { V::S(e.clone()) };
                let (cs, ds) = pc.slice(e.vars);
                let mut r: Vec<&V> = cs.iter().collect();
                r.push(&other);
                st.crosscheck += 1;
                let got = slv.check(&r, &ds);
                let ok = matches!((&q, &got), (Dec::Only(_), Res::Unsat) | (Dec::Both(..), Res::Sat(_)));
                if !ok {
                    st.crosscheck_bad += 1;
                }
            }
            return q;
        }
    }
    let c = V::S(e.clone());
    let nc = not(&c);
    for x in pc.cons.iter() {
        if x.same(&c) {
            st.cache_hits += 1;
            return Dec::Only(true);
        }
        if x.same(&nc) {
            st.cache_hits += 1;
            return Dec::Only(false);
        }
    }
    let other = if cur { nc } else { c };
    let (cs, ds) = pc.slice(e.vars);
    let mut r: Vec<&V> = cs.iter().collect();
    r.push(&other);
    {
        if let Some(res) = fd_search(&pc.model, &r, &ds) {
            st.fd_decisions += 1;
            if z3all {
                st.crosscheck += 1;
                let got = slv.check(&r, &ds);
                if !matches!((&res, &got), (None, Res::Unsat) | (Some(_), Res::Sat(_))) {
                    st.crosscheck_bad += 1;
                }
            }
            return match res {
                None => Dec::Only(cur),
                Some(nm) => Dec::Both(cur, nm),
            };
        }
    }
    match slv.check(&r, &ds) {
        Res::Unsat => Dec::Only(cur),
        Res::Sat(m) => {
            let mut nm = pc.model;
            for (v, _) in &ds {
                nm[*v as usize] = m[*v as usize];
            }
            Dec::Both(cur, nm)
        }
        Res::Unknown => Dec::Unknown,
    }
}
