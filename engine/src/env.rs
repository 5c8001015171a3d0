//! Models of intrinsics, libc and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::sync::Arc;

pub enum NatRes {
    Val(V),
    Void,
    /// control was transferred to another frame
    Entered,
}
use NatRes::*;

macro_rules! unsup {
    ($($a:tt)*) => { return Err(End::Unsupported(format!($($a)*))) };
}

/// the directory below which the harness keeps its (modelled) files
pub static ROOT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn root() -> &'static str {
    ROOT.get_or_init(|| "/w".into())
}

fn normpath(p: &[u8]) -> Vec<Vec<u8>> {
    let full: Vec<u8> = if p.first() == Some(&b'/') {
        p.to_vec()
    } else {
        let mut v = root().as_bytes().to_vec();
        v.push(b'/');
        v.extend_from_slice(p);
        v
    };
    let mut out: Vec<Vec<u8>> = vec![];
    for c in full.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            x => out.push(x.to_vec()),
        }
    }
    out
}
fn join(c: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![];
    for x in c {
        v.push(b'/');
        v.extend_from_slice(x);
    }
    if v.is_empty() {
        v.push(b'/');
    }
    v
}

enum Look {
    File(Vec<u8>),
    Dir(Vec<u8>),
    No(i32),
}
/// lookup without symbolic links; every intermediate component must be a directory
fn lookup(e: &Env, p: &[u8]) -> Look {
    if p.is_empty() {
        return Look::No(2);
    }
    // walk component by component, so that `file/..` fails like on a real system
    let full: Vec<u8> = if p[0] == b'/' {
        p.to_vec()
    } else {
        let mut v = root().as_bytes().to_vec();
        v.push(b'/');
        v.extend_from_slice(p);
        v
    };
    let mut cur: Vec<Vec<u8>> = vec![];
    let mut isfile = false;
    let comps: Vec<&[u8]> = full.split(|b| *b == b'/').collect();
    for (i, c) in comps.iter().enumerate() {
        if i > 0 && c.is_empty() && i + 1 == comps.len() && isfile {
            return Look::No(20);
        }
        if c.is_empty() {
            continue;
        }
        if isfile {
            return Look::No(20);
        }
        if c.len() > 255 {
            return Look::No(36);
        }
        match *c {
            b"." => {}
            b".." => {
                cur.pop();
            }
            x => {
                cur.push(x.to_vec());
                let j = join(&cur);
                if e.files.contains_key(&j) {
                    isfile = true;
                } else if !e.dirs.contains(&j) {
                    return Look::No(2);
                }
            }
        }
    }
    let j = join(&cur);
    if isfile {
        Look::File(j)
    } else {
        Look::Dir(j)
    }
}

impl<'a> Exec<'a> {
    fn arg(s: &State, c: &CallI, i: usize) -> V {
        match &c.args[i] {
            Opnd::R(r) => s.top.regs[*r as usize].clone(),
            Opnd::K(k) => k.clone(),
        }
    }
    fn argk(&mut self, s: &mut State, c: &CallI, i: usize) -> R<u64> {
        let v = Self::arg(s, c, i);
        self.conc(s, &v)
    }
    fn strarg(&mut self, s: &mut State, c: &CallI, i: usize) -> R<String> {
        let p = self.argk(s, c, i)?;
        let n = self.argk(s, c, i + 1)?;
        let b = self.conc_bytes(s, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn set_errno(&mut self, s: &mut State, e: i32) -> R<()> {
        if s.env.errno == 0 {
            s.env.errno = s.mem.alloc(4);
        }
        let a = V::C(64, s.env.errno);
        self.store(s, &a, &V::C(32, e as u64), &Ty::Int(32))
    }
    fn lanes1(v: &V, f: &mut dyn FnMut(&V) -> R<V>) -> R<V> {
        match v {
            V::A(x) => {
                let mut o = vec![];
                for e in x.iter() {
                    o.push(f(e)?);
                }
                Ok(V::A(Arc::new(o)))
            }
            o => f(o),
        }
    }
    fn lanes2(a: &V, b: &V, f: &dyn Fn(&V, &V) -> V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => V::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
            _ => f(a, b),
        }
    }

    pub fn native(&mut self, s: &mut State, n: &Nat, c: &CallI) -> R<NatRes> {
        Ok(match n {
            Nat::Nop => {
                if c.dst.is_some() {
                    if !c.args.is_empty() {
                        Val(Self::arg(s, c, 0))
                    } else {
                        Val(crate::llvm::zero(&c.retty))
                    }
                } else {
                    Void
                }
            }
            Nat::Memcpy => {
                let len = self.argk(s, c, 2)?;
                let d = if len > 0 { self.argk(s, c, 0)? } else { 0 };
                let sr = if len > 0 { self.argk(s, c, 1)? } else { 0 };
                let dv = if c.dst.is_some() { Some(Self::arg(s, c, 0)) } else { None };
                self.memcpy(s, d, sr, len)?;
                match dv {
                    Some(v) => Val(v),
                    None => Void,
                }
            }
            Nat::Memset => {
                let len = self.argk(s, c, 2)?;
                let dv = Self::arg(s, c, 0);
                if len > 0 {
                    let d = self.argk(s, c, 0)?;
                    let v = Self::arg(s, c, 1);
                    let v = extract(&v, 0, 8);
                    let Some((l, _)) = s.mem.find(self.m, d, len) else { unsup!("memset at {d:#x}") };
                    let o = s.mem.get_mut(l);
                    match v {
                        V::C(_, k) => {
                            o.clear_sym(l.off, len as u32);
                            o.data[l.off as usize..l.off as usize + len as usize].fill(k as u8);
                        }
                        v => {
                            for i in 0..len as u32 {
                                o.set_byte(l.off + i, v.clone());
                            }
                        }
                    }
                }
                if c.dst.is_some() {
                    Val(dv)
                } else {
                    Void
                }
            }
            Nat::Assume => Void,
            Nat::Expect => Val(Self::arg(s, c, 0)),
            Nat::Trap => return Err(End::Fail { kind: "trap".into(), msg: format!("trap in {}", self.where_(s)) }),
            Nat::Min(sg) | Nat::Max(sg) => {
                let (a, b) = (Self::arg(s, c, 0), Self::arg(s, c, 1));
                let op = if *sg { Op::Slt } else { Op::Ult };
                let mn = matches!(n, Nat::Min(_));
                Val(Self::lanes2(&a, &b, &|x, y| {
                    let l = bin(op, x, y);
                    if mn {
                        ite(&l, x, y)
                    } else {
                        ite(&l, y, x)
                    }
                }))
            }
            Nat::Ovf(op, sg) => {
                let (a, b) = (s.pc.norm(Self::arg(s, c, 0)), s.pc.norm(Self::arg(s, c, 1)));
                let w = a.w();
                let r = bin(*op, &a, &b);
                let o = if a.is_const() && b.is_const() || *op != Op::Mul || w > 63 {
                    match (op, sg) {
                        (Op::Add, false) => bin(Op::Ult, &r, &a),
                        (Op::Sub, false) => bin(Op::Ult, &a, &b),
                        (Op::Add, true) => {
                            // overflow iff operands have the same sign and the result differs
                            let sa = extract(&a, w - 1, 1);
                            let sb = extract(&b, w - 1, 1);
                            let sr = extract(&r, w - 1, 1);
                            band(&not(&bin(Op::Xor, &sa, &sb)), &bin(Op::Xor, &sa, &sr))
                        }
                        (Op::Sub, true) => {
                            let sa = extract(&a, w - 1, 1);
                            let sb = extract(&b, w - 1, 1);
                            let sr = extract(&r, w - 1, 1);
                            band(&bin(Op::Xor, &sa, &sb), &bin(Op::Xor, &sa, &sr))
                        }
                        (Op::Mul, false) => {
                            if w <= 64 {
                                let x = bin(Op::Mul, &zext(&a, 2 * w), &zext(&b, 2 * w));
                                not(&bin(Op::Eq, &extract(&x, w, w), &V::c(w, 0)))
                            } else {
                                match (a.k128(), b.k128()) {
                                    (Some(x), Some(y)) => V::b(x.checked_mul(y).is_none()),
                                    _ => unsup!("symbolic 128-bit mul overflow"),
                                }
                            }
                        }
                        _ => {
                            let x = bin(Op::Mul, &sext(&a, 2 * w), &sext(&b, 2 * w));
                            not(&bin(Op::Eq, &x, &sext(&r, 2 * w)))
                        }
                    }
                } else if *sg {
                    let x = bin(Op::Mul, &sext(&a, 2 * w), &sext(&b, 2 * w));
                    not(&bin(Op::Eq, &x, &sext(&r, 2 * w)))
                } else {
                    let x = bin(Op::Mul, &zext(&a, 2 * w), &zext(&b, 2 * w));
                    not(&bin(Op::Eq, &extract(&x, w, w), &V::c(w, 0)))
                };
                Val(V::A(Arc::new(vec![r, s.pc.norm(o)])))
            }
            Nat::Sat(op, sg) => {
                let (a, b) = (Self::arg(s, c, 0), Self::arg(s, c, 1));
                if *sg {
                    unsup!("signed saturation");
                }
                Val(Self::lanes2(&a, &b, &|x, y| {
                    let w = x.w();
                    let r = bin(*op, x, y);
                    if *op == Op::Add {
                        ite(&bin(Op::Ult, &r, x), &V::c128(w, !0), &r)
                    } else {
                        ite(&bin(Op::Ult, x, y), &V::c128(w, 0), &r)
                    }
                }))
            }
            Nat::Cmp3(sg) => {
                let (a, b) = (Self::arg(s, c, 0), Self::arg(s, c, 1));
                let op = if *sg { Op::Slt } else { Op::Ult };
                let w = c.retty.w();
                let l = bin(op, &a, &b);
                let e = bin(Op::Eq, &a, &b);
                Val(ite(&l, &V::c128(w, !0), &ite(&e, &V::c128(w, 0), &V::c128(w, 1))))
            }
            Nat::Ctlz | Nat::Cttz | Nat::Ctpop | Nat::Bswap | Nat::Bitrev => {
                let a = Self::arg(s, c, 0);
                let r = Self::lanes1(&a, &mut |x| {
                    let x = s.pc.norm(x.clone());
                    let w = x.w();
                    if let Some(k) = x.k128() {
                        let r = match n {
                            Nat::Ctlz => (k.leading_zeros() - (128 - w as u32)) as u128,
                            Nat::Cttz => k.trailing_zeros().min(w as u32) as u128,
                            Nat::Ctpop => k.count_ones() as u128,
                            Nat::Bswap => k.swap_bytes() >> (128 - w as u32),
                            _ => k.reverse_bits() >> (128 - w as u32),
                        };
                        return Ok(V::c128(w, r));
                    }
                    Ok(match n {
                        Nat::Ctlz => {
                            let mut r = V::c(w, w as u64);
                            for i in 0..w {
                                r = ite(&extract(&x, i, 1), &V::c(w, (w - 1 - i) as u64), &r);
                            }
                            r
                        }
                        Nat::Cttz => {
                            let mut r = V::c(w, w as u64);
                            for i in (0..w).rev() {
                                r = ite(&extract(&x, i, 1), &V::c(w, i as u64), &r);
                            }
                            r
                        }
                        Nat::Ctpop => {
                            let mut r = V::c(w, 0);
                            for i in 0..w {
                                r = bin(Op::Add, &r, &zext(&extract(&x, i, 1), w));
                            }
                            r
                        }
                        Nat::Bswap => {
                            let mut r = extract(&x, 0, 8);
                            for i in 1..w / 8 {
                                r = concat(&r, &extract(&x, 8 * i, 8));
                            }
                            r
                        }
                        _ => {
                            let mut r = extract(&x, 0, 1);
                            for i in 1..w {
                                r = concat(&r, &extract(&x, i, 1));
                            }
                            r
                        }
                    })
                })?;
                Val(r)
            }
            Nat::Abs => {
                let a = Self::arg(s, c, 0);
                let w = a.w();
                let neg = bin(Op::Sub, &V::c128(w, 0), &a);
                Val(ite(&bin(Op::Slt, &a, &V::c128(w, 0)), &neg, &a))
            }
            Nat::Fsh(left) => {
                let (a, b, k) = (Self::arg(s, c, 0), Self::arg(s, c, 1), Self::arg(s, c, 2));
                let w = a.w();
                let k = self.conc(s, &k)? % w as u64;
                // result = high/low w bits of (a:b) shifted by k
                let k = k as u8;
                Val(if *left {
                    if k == 0 {
                        a
                    } else {
                        concat(&extract(&a, 0, w - k), &extract(&b, w - k, k))
                    }
                } else if k == 0 {
                    b
                } else {
                    concat(&extract(&a, 0, k), &extract(&b, k, w - k))
                })
            }
            Nat::IsConst => Val(V::b(false)),
            Nat::Reduce(op) => {
                let V::A(x) = Self::arg(s, c, 0) else { unsup!("reduce") };
                let mut r = x[0].clone();
                for e in &x[1..] {
                    r = bin(*op, &r, e);
                }
                Val(r)
            }
            Nat::Tls => Val(Self::arg(s, c, 0)),
            Nat::LoadRel => {
                let p = self.argk(s, c, 0)?;
                let off = Self::arg(s, c, 1);
                let a = bin(Op::Add, &V::C(64, p), &sext(&off, 64));
                let v = self.load(s, &a, &Ty::Int(32))?;
                Val(bin(Op::Add, &V::C(64, p), &sext(&v, 64)))
            }
            Nat::ObjSize => {
                let w = c.retty.w();
                Val(V::c(w, !0))
            }
            Nat::FUn(f) => {
                let a = Self::arg(s, c, 0);
                let Some(k) = a.k() else { unsup!("symbolic float") };
                let d = f64::from_bits(k);
                let r = match *f {
                    "ceil" => d.ceil(),
                    "floor" => d.floor(),
                    _ => d.abs(),
                };
                Val(V::C(64, r.to_bits()))
            }
            Nat::Intr(x) => unsup!("intrinsic {x} in {}", self.where_(s)),
            Nat::Ext(name) => return self.ext(s, name, c),
        })
    }

    fn ext(&mut self, s: &mut State, name: &str, c: &CallI) -> R<NatRes> {
        let ok32 = |v: i64| Val(V::c(32, v as u64));
        let ok64 = |v: i64| Val(V::C(64, v as u64));
        Ok(match name {
            "malloc" => {
                let n = self.argk(s, c, 0)?;
                if n > 64 << 20 {
                    return Err(End::Fail { kind: "alloc".into(), msg: format!("allocation of {n} bytes") });
                }
                ok64(s.mem.alloc(n) as i64)
            }
            "calloc" => {
                let n = self.argk(s, c, 0)?.saturating_mul(self.argk(s, c, 1)?);
                if n > 64 << 20 {
                    return Err(End::Fail { kind: "alloc".into(), msg: format!("allocation of {n} bytes") });
                }
                ok64(s.mem.alloc(n) as i64)
            }
            "posix_memalign" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 2)?;
                if n > 64 << 20 {
                    return Err(End::Fail { kind: "alloc".into(), msg: format!("allocation of {n} bytes") });
                }
                let a = s.mem.alloc(n);
                self.store(s, &V::C(64, p), &V::C(64, a), &Ty::Ptr)?;
                ok32(0)
            }
            "free" => {
                let p = self.argk(s, c, 0)?;
                if p != 0 && !s.mem.dealloc(p) {
                    return Err(End::Fail { kind: "memory".into(), msg: format!("invalid free in {}", self.where_(s)) });
                }
                Void
            }
            "realloc" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 1)?;
                if n > 64 << 20 {
                    return Err(End::Fail { kind: "alloc".into(), msg: format!("allocation of {n} bytes") });
                }
                let a = s.mem.alloc(n);
                if p != 0 {
                    let Some(old) = s.mem.size(p) else { unsup!("realloc of {p:#x}") };
                    self.memcpy(s, a, p, old.min(n))?;
                    s.mem.dealloc(p);
                }
                ok64(a as i64)
            }
            "bcmp" => {
                let n = self.argk(s, c, 2)?;
                let (a, b) = (self.argk(s, c, 0)?, self.argk(s, c, 1)?);
                let x = self.read_bytes(s, a, n)?;
                let y = self.read_bytes(s, b, n)?;
                if x.iter().zip(&y).any(|(p, q)| p.is_const() && q.is_const() && !p.same(q)) {
                    return Ok(Val(V::C(32, 1)));
                }
                let mut eq = V::b(true);
                for (p, q) in x.iter().zip(&y) {
                    eq = band(&eq, &bin(Op::Eq, p, q));
                }
                Val(ite(&eq, &V::C(32, 0), &V::C(32, 1)))
            }
            "memcmp" => {
                let n = self.argk(s, c, 2)?;
                let (a, b) = (self.argk(s, c, 0)?, self.argk(s, c, 1)?);
                let x = self.read_bytes(s, a, n)?;
                let y = self.read_bytes(s, b, n)?;
                let mut r = V::C(32, 0);
                for (p, q) in x.iter().zip(&y).rev() {
                    let e = bin(Op::Eq, p, q);
                    let l = bin(Op::Ult, p, q);
                    r = ite(&e, &r, &ite(&l, &V::c(32, !0), &V::C(32, 1)));
                }
                Val(r)
            }
            "strlen" => {
                let p = self.argk(s, c, 0)?;
                let mut k = 0u64;
                loop {
                    let b = self.read_bytes(s, p + k, 1)?[0].clone();
                    let z = bin(Op::Eq, &b, &V::C(8, 0));
                    if self.cond(s, &z)? {
                        break;
                    }
                    k += 1;
                }
                ok64(k as i64)
            }
            "memchr" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 2)?;
                let v = Self::arg(s, c, 1);
                let v = extract(&v, 0, 8);
                let bs = self.read_bytes(s, p, n)?;
                for (i, b) in bs.iter().enumerate() {
                    let z = bin(Op::Eq, b, &v);
                    if self.cond(s, &z)? {
                        return Ok(ok64((p + i as u64) as i64));
                    }
                }
                ok64(0)
            }
            "memrchr" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 2)?;
                let v = Self::arg(s, c, 1);
                let v = extract(&v, 0, 8);
                let bs = self.read_bytes(s, p, n)?;
                for (i, b) in bs.iter().enumerate().rev() {
                    let z = bin(Op::Eq, b, &v);
                    if self.cond(s, &z)? {
                        return Ok(ok64((p + i as u64) as i64));
                    }
                }
                ok64(0)
            }
            "abort" => return Err(End::Fail { kind: "abort".into(), msg: format!("abort in {}", self.where_(s)) }),
            "__errno_location" | "__errno" => {
                if s.env.errno == 0 {
                    s.env.errno = s.mem.alloc(4);
                }
                ok64(s.env.errno as i64)
            }
            "exit" | "_exit" => {
                let code = self.argk(s, c, 0)? as i32;
                return self.do_exit(s, code);
            }
            "getenv" | "secure_getenv" => ok64(0),
            "sched_getaffinity" => {
                // two processors
                let n = self.argk(s, c, 1)?;
                let p = self.argk(s, c, 2)?;
                let mut v = vec![V::C(8, 0); n as usize];
                v[0] = V::C(8, 3);
                self.write_bytes(s, p, &v)?;
                ok32(0)
            }
            "gettid" | "getpid" => ok32(4242),
            "__cxa_thread_atexit_impl" | "atexit" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" | "pthread_setspecific"
            | "pthread_key_delete" | "close" | "munmap" | "sigaltstack" | "sigaction" | "pthread_attr_destroy" => ok32(0),
            "pthread_key_create" => {
                let p = self.argk(s, c, 0)?;
                s.env.nextkey += 1;
                let k = s.env.nextkey;
                self.store(s, &V::C(64, p), &V::C(32, k), &Ty::Int(32))?;
                ok32(0)
            }
            "pthread_getspecific" => ok64(0),
            "pthread_self" => ok64(0x7001),
            "poll" => ok32(0),
            "statx" => {
                self.set_errno(s, 38)?;
                ok32(-1)
            }
            "syscall" => {
                let n = self.argk(s, c, 0)?;
                match n {
                    318 => {
                        let p = self.argk(s, c, 1)?;
                        let n = self.argk(s, c, 2)?;
                        self.fill_random(s, p, n)?;
                        ok64(n as i64)
                    }
                    202 => {
                        // futex: a single-threaded program can only wake
                        let op = self.argk(s, c, 2)?;
                        if op & 0x7f == 0 || op & 0x7f == 9 {
                            return Err(End::Fail { kind: "deadlock".into(), msg: format!("futex wait in {}", self.where_(s)) });
                        }
                        ok64(0)
                    }
                    186 => ok64(4242),
                    _ => unsup!("syscall {n}"),
                }
            }
            "getrandom" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 1)?;
                self.fill_random(s, p, n)?;
                ok64(n as i64)
            }
            "getauxval" => ok64(0),
            "sysconf" => ok64(4096),
            "isatty" => ok32(0),
            "ioctl" | "fcntl" | "fcntl64" => {
                self.set_errno(s, 25)?;
                ok32(-1)
            }
            "dlsym" => ok64(0),
            "clock_gettime" => {
                let p = self.argk(s, c, 1)?;
                self.store(s, &V::C(64, p), &V::C(64, 1_700_000_000), &Ty::Int(64))?;
                self.store(s, &V::C(64, p + 8), &V::C(64, 0), &Ty::Int(64))?;
                ok32(0)
            }
            "mmap64" | "mmap" => {
                let n = self.argk(s, c, 1)?;
                ok64(s.mem.alloc(n) as i64)
            }
            "__xpg_strerror_r" => {
                let e = self.argk(s, c, 0)?;
                let p = self.argk(s, c, 1)?;
                let t: &[u8] = match e {
                    2 => b"No such file or directory\0",
                    20 => b"Not a directory\0",
                    21 => b"Is a directory\0",
                    36 => b"File name too long\0",
                    _ => b"Error\0",
                };
                let v: Vec<V> = t.iter().map(|b| V::C(8, *b as u64)).collect();
                self.write_bytes(s, p, &v)?;
                ok32(0)
            }
            // ----- file system -----
            "getcwd" => {
                let p = self.argk(s, c, 0)?;
                let mut t: Vec<V> = root().bytes().map(|b| V::C(8, b as u64)).collect();
                t.push(V::C(8, 0));
                self.write_bytes(s, p, &t)?;
                ok64(p as i64)
            }
            "realpath" => {
                let p = self.argk(s, c, 0)?;
                let path = self.cstr(s, p)?;
                match lookup(&s.env, &path) {
                    Look::File(j) | Look::Dir(j) => {
                        let a = s.mem.alloc(j.len() as u64 + 1);
                        let mut t: Vec<V> = j.iter().map(|b| V::C(8, *b as u64)).collect();
                        t.push(V::C(8, 0));
                        self.write_bytes(s, a, &t)?;
                        ok64(a as i64)
                    }
                    Look::No(e) => {
                        self.set_errno(s, e)?;
                        ok64(0)
                    }
                }
            }
            "readlink" => {
                self.set_errno(s, 22)?;
                ok64(-1)
            }
            "open64" | "open" => {
                let p = self.argk(s, c, 0)?;
                let path = self.cstr(s, p)?;
                match lookup(&s.env, &path) {
                    Look::File(j) => {
                        let f = s.env.files[&j].clone();
                        let fds = Arc::make_mut(&mut s.env.fds);
                        fds.push(Some((f, 0)));
                        ok32(fds.len() as i64 - 1 + 10)
                    }
                    Look::Dir(_) => {
                        let fds = Arc::make_mut(&mut s.env.fds);
                        fds.push(None);
                        ok32(fds.len() as i64 - 1 + 10)
                    }
                    Look::No(e) => {
                        self.set_errno(s, e)?;
                        ok32(-1)
                    }
                }
            }
            "read" => {
                let fd = self.argk(s, c, 0)? as usize;
                let p = self.argk(s, c, 1)?;
                let n = self.argk(s, c, 2)? as usize;
                match s.env.fds.get(fd.wrapping_sub(10)).cloned() {
                    Some(Some((f, pos))) => {
                        let k = n.min(f.len() - pos);
                        let d: Vec<V> = f[pos..pos + k].to_vec();
                        self.write_bytes(s, p, &d)?;
                        Arc::make_mut(&mut s.env.fds)[fd - 10] = Some((f, pos + k));
                        ok64(k as i64)
                    }
                    Some(None) => {
                        self.set_errno(s, 21)?;
                        ok64(-1)
                    }
                    None => unsup!("read from fd {fd}"),
                }
            }
            "lseek64" => {
                let fd = self.argk(s, c, 0)? as usize;
                match s.env.fds.get(fd.wrapping_sub(10)) {
                    Some(Some((_, pos))) => ok64(*pos as i64),
                    _ => ok64(0),
                }
            }
            "stat64" | "stat" | "lstat64" | "fstat64" => {
                let b = self.argk(s, c, 1)?;
                let r = if name == "fstat64" {
                    let fd = self.argk(s, c, 0)? as usize;
                    match s.env.fds.get(fd.wrapping_sub(10)) {
                        Some(Some((f, _))) => Ok((0o100644u64, f.len() as u64)),
                        Some(None) => Ok((0o040755, 4096)),
                        None => Ok((0o010644, 0)),
                    }
                } else {
                    let p = self.argk(s, c, 0)?;
                    let path = self.cstr(s, p)?;
                    match lookup(&s.env, &path) {
                        Look::File(j) => Ok((0o100644, s.env.files[&j].len() as u64)),
                        Look::Dir(_) => Ok((0o040755, 4096)),
                        Look::No(e) => Err(e),
                    }
                };
                match r {
                    Ok((mode, size)) => {
                        let z: Vec<V> = vec![V::C(8, 0); 144];
                        self.write_bytes(s, b, &z)?;
                        self.store(s, &V::C(64, b + 24), &V::C(32, mode), &Ty::Int(32))?;
                        self.store(s, &V::C(64, b + 48), &V::C(64, size), &Ty::Int(64))?;
                        ok32(0)
                    }
                    Err(e) => {
                        self.set_errno(s, e)?;
                        ok32(-1)
                    }
                }
            }
            "write" => {
                let fd = self.argk(s, c, 0)?;
                let p = self.argk(s, c, 1)?;
                let n = self.argk(s, c, 2)?;
                let b = self.read_bytes(s, p, n)?;
                match fd {
                    1 => Arc::make_mut(&mut s.env.out).extend(b),
                    2 => Arc::make_mut(&mut s.env.err).extend(b),
                    _ => unsup!("write to fd {fd}"),
                }
                ok64(n as i64)
            }
            "writev" => {
                let fd = self.argk(s, c, 0)?;
                let p = self.argk(s, c, 1)?;
                let k = self.argk(s, c, 2)?;
                let mut tot = 0;
                let mut all = vec![];
                for i in 0..k {
                    let b = self.load(s, &V::C(64, p + 16 * i), &Ty::Ptr)?;
                    let l = self.load(s, &V::C(64, p + 16 * i + 8), &Ty::Int(64))?;
                    let (b, l) = (self.conc(s, &b)?, self.conc(s, &l)?);
                    all.extend(self.read_bytes(s, b, l)?);
                    tot += l;
                }
                match fd {
                    1 => Arc::make_mut(&mut s.env.out).extend(all),
                    2 => Arc::make_mut(&mut s.env.err).extend(all),
                    _ => unsup!("write to fd {fd}"),
                }
                ok64(tot as i64)
            }
            // ----- harness interface -----
            "symex_u8" => {
                let nm = self.strarg(s, c, 0)?;
                let Some(v) = s.pc.fresh() else { unsup!("more than 128 symbolic bytes") };
                Arc::make_mut(&mut s.pc.names).push((nm, 1));
                Val(v)
            }
            "symex_oneof" => {
                let nm = self.strarg(s, c, 0)?;
                let p = self.argk(s, c, 2)?;
                let n = self.argk(s, c, 3)?;
                let b = self.conc_bytes(s, p, n)?;
                if b.is_empty() {
                    unsup!("empty oneof");
                }
                let Some(v) = s.pc.fresh() else { unsup!("more than 128 symbolic bytes") };
                Arc::make_mut(&mut s.pc.names).push((nm, 1));
                let mut set = [0u64; 4];
                for x in &b {
                    set[(*x / 64) as usize] |= 1 << (*x % 64);
                }
                let i = s.pc.nvars - 1;
                s.pc.model[i as usize] = b[0];
                let e = inset(i, set);
                s.pc.add(&e);
                Val(v)
            }
            "symex_make" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 1)?;
                let nm = self.strarg(s, c, 2)?;
                let mut b = vec![];
                for _ in 0..n {
                    let Some(v) = s.pc.fresh() else { unsup!("more than 128 symbolic bytes") };
                    b.push(v);
                }
                Arc::make_mut(&mut s.pc.names).push((nm, n as u32));
                self.write_bytes(s, p, &b)?;
                Void
            }
            "symex_slot" => {
                // one symbolic index i < n; writes row i of the n x w table to out; returns i
                let nm = self.strarg(s, c, 0)?;
                let tp = self.argk(s, c, 2)?;
                let n = self.argk(s, c, 3)?;
                let w = self.argk(s, c, 4)?;
                let out = self.argk(s, c, 5)?;
                if n == 0 || n > 256 {
                    unsup!("slot of {n} entries");
                }
                let t = self.conc_bytes(s, tp, n * w)?;
                let Some(v) = s.pc.fresh() else { unsup!("more than 128 symbolic bytes") };
                Arc::make_mut(&mut s.pc.names).push((nm, 1));
                let i = s.pc.nvars - 1;
                s.pc.model[i as usize] = 0;
                let mut set = [0u64; 4];
                for x in 0..n as usize {
                    set[x / 64] |= 1 << (x % 64);
                }
                let e = inset(i, set);
                s.pc.add(&e);
                let mut b = vec![];
                for k in 0..w {
                    b.push(s.pc.norm(table(i, &set, 8, &|x| V::C(8, t[(x as u64 * w + k) as usize] as u64))));
                }
                self.write_bytes(s, out, &b)?;
                Val(s.pc.norm(v))
            }
            "symex_choose" => {
                let n = self.argk(s, c, 2)?;
                if n == 0 || n > 256 {
                    unsup!("choose {n}");
                }
                // the instruction is re-executed by forked states: the variable is created only once
                let key = (s.stack.len() as u64) << 48 | (s.top.func as u64) << 24 | s.top.pc as u64;
                let vi = match s.env.keys.get(&key) {
                    Some(v) => *v as u32,
                    None => {
                        let nm = self.strarg(s, c, 0)?;
                        if s.pc.fresh().is_none() {
                            unsup!("more than 128 symbolic bytes");
                        }
                        Arc::make_mut(&mut s.pc.names).push((nm, 1));
                        let i = s.pc.nvars - 1;
                        s.pc.model[i as usize] = 0;
                        let mut set = [0u64; 4];
                        for x in 0..n as usize {
                            set[x / 64] |= 1 << (x % 64);
                        }
                        let e = inset(i, set);
                        s.pc.add(&e);
                        Arc::make_mut(&mut s.env.keys).insert(key, i as u64);
                        i
                    }
                };
                let v = s.pc.norm(var(vi));
                let k = self.conc(s, &v)?;
                Arc::make_mut(&mut s.env.keys).remove(&key);
                Val(V::C(32, k))
            }
            "symex_assume" => {
                let v = Self::arg(s, c, 0);
                let b = extract(&v, 0, 1);
                let b = s.pc.norm(b);
                match &b {
                    V::C(_, 1) => {}
                    V::C(..) => return Err(End::Assumed),
                    V::S(_) => {
                        // no fork: keep only the true side
                        use crate::solver::{decide, Dec};
                        let V::S(e) = &b else { unreachable!() };
                        match decide(&s.pc, e, &mut self.slv, &mut self.st, self.sh.o.z3all) {
                            Dec::Only(true) => {}
                            Dec::Only(false) => return Err(End::Assumed),
                            Dec::Both(cur, m) => {
                                if !cur {
                                    s.pc.model = m;
                                }
                                s.pc.add(&b);
                            }
                            Dec::Unknown => return Err(End::Unknown),
                        }
                    }
                    _ => unsup!("assume"),
                }
                Void
            }
            "symex_check" => {
                let v = Self::arg(s, c, 0);
                let msg = self.strarg(s, c, 1)?;
                self.rep.checks += 1;
                let b = s.pc.norm(extract(&v, 0, 1));
                match &b {
                    V::C(_, 1) => {}
                    V::C(..) => {
                        // fails on the whole path: confirm the path with the solver, record, go on
                        use crate::solver::Res;
                        self.rep.failed += 1;
                        let all: u128 = if s.pc.nvars == 128 { !0 } else { (1u128 << s.pc.nvars) - 1 };
                        let (cs, ds) = s.pc.slice(all);
                        let r: Vec<&V> = cs.iter().collect();
                        match self.slv.check(&r, &ds) {
                            Res::Sat(m) => {
                                let v = self.mkviol(s, &m, "check", &msg);
                                self.record(v);
                            }
                            Res::Unsat => unsup!("ENGINE: path condition unsat at failed check"),
                            Res::Unknown => return Err(End::Unknown),
                        }
                    }
                    V::S(e) => {
                        use crate::solver::Res;
                        let (cs, ds) = s.pc.slice(e.vars);
                        let nb = not(&b);
                        let mut r: Vec<&V> = cs.iter().collect();
                        r.push(&nb);
                        match self.slv.check(&r, &ds) {
                            Res::Unsat => s.pc.add(&b),
                            Res::Unknown => return Err(End::Unknown),
                            Res::Sat(m) => {
                                let mut nm = s.pc.model;
                                for (v, _) in &ds {
                                    nm[*v as usize] = m[*v as usize];
                                }
                                let v = self.mkviol(s, &nm, "check", &msg);
                                self.record(v);
                                self.rep.failed += 1;
                                // continue where the check holds
                                let mut r: Vec<&V> = cs.iter().collect();
                                r.push(&b);
                                match self.slv.check(&r, &ds) {
                                    Res::Unsat => {}
                                    Res::Unknown => return Err(End::Unknown),
                                    Res::Sat(m) => {
                                        for (v, _) in &ds {
                                            s.pc.model[*v as usize] = m[*v as usize];
                                        }
                                        s.pc.add(&b);
                                    }
                                }
                            }
                        }
                    }
                    _ => unsup!("check"),
                }
                Void
            }
            "symex_reach" => {
                let l = self.strarg(s, c, 0)?;
                Arc::make_mut(&mut s.env.trace).push(l.clone());
                *self.rep.reach.entry(l).or_insert(0) += 1;
                Void
            }
            "symex_param" => {
                let nm = self.strarg(s, c, 0)?;
                let d = self.argk(s, c, 2)?;
                Val(V::C(64, self.sh.o.params.get(&nm).copied().unwrap_or(d)))
            }
            "symex_concrete" => {
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 1)?;
                let b = self.conc_bytes(s, p, n)?;
                let v: Vec<V> = b.iter().map(|b| V::C(8, *b as u64)).collect();
                self.write_bytes(s, p, &v)?;
                Void
            }
            "symex_note" => {
                let nm = self.strarg(s, c, 0)?;
                let p = self.argk(s, c, 2)?;
                let n = self.argk(s, c, 3)?;
                let b = self.read_bytes(s, p, n)?;
                Arc::make_mut(&mut s.env.notes).push((nm, b));
                Void
            }
            "symex_end" => return Err(End::Done),
            "symex_exit_code" => {
                // set by do_exit through the continuation; kept for symmetry with the native run-time
                ok32(0)
            }
            "symex_hash_seed" => {
                s.env.seed = self.argk(s, c, 0)?;
                Void
            }
            "symex_fs_root" => {
                let p = self.argk(s, c, 0)?;
                let t: Vec<V> = root().bytes().map(|b| V::C(8, b as u64)).collect();
                self.write_bytes(s, p, &t)?;
                ok64(t.len() as i64)
            }
            "symex_fs_add" => {
                let nm = self.strarg(s, c, 0)?;
                let p = self.argk(s, c, 2)?;
                let n = self.argk(s, c, 3)?;
                let b = self.read_bytes(s, p, n)?;
                let comps = normpath(nm.as_bytes());
                for i in 0..comps.len() {
                    let d = join(&comps[..i]);
                    Arc::make_mut(&mut s.env.dirs).insert(d);
                }
                Arc::make_mut(&mut s.env.files).insert(join(&comps), Arc::new(b));
                Void
            }
            "symex_fs_del" => {
                let nm = self.strarg(s, c, 0)?;
                let k = join(&normpath(nm.as_bytes()));
                Arc::make_mut(&mut s.env.files).remove(&k);
                Void
            }
            "symex_fs_mkdir" => {
                let nm = self.strarg(s, c, 0)?;
                let comps = normpath(nm.as_bytes());
                for i in 0..=comps.len() {
                    let d = join(&comps[..i]);
                    Arc::make_mut(&mut s.env.dirs).insert(d);
                }
                Void
            }
            "symex_args" => {
                // NUL-terminated arguments, one behind the other: what the start-up code would hand to std
                let p = self.argk(s, c, 0)?;
                let n = self.argk(s, c, 1)?;
                let b = self.read_bytes(s, p, n)?;
                let text = s.mem.alloc(b.len() as u64);
                self.write_bytes(s, text, &b)?;
                let mut ptrs = vec![];
                let mut start = 0u64;
                for (i, v) in b.iter().enumerate() {
                    if matches!(v, V::C(_, 0)) {
                        ptrs.push(text + start);
                        start = i as u64 + 1;
                    }
                }
                let argc = ptrs.len() as u64;
                ptrs.push(0);
                let pb: Vec<V> = ptrs.iter().flat_map(|p| p.to_le_bytes()).map(|b| V::C(8, b as u64)).collect();
                let argv = s.mem.alloc(pb.len() as u64);
                self.write_bytes(s, argv, &pb)?;
                let find = |x: &str| self.m.globals.iter().find(|g| g.name.contains("3sys4args") && (g.name.ends_with(x) || g.name.ends_with(&format!("{x}.0")))).map(|g| g.addr);
                let (Some(gc), Some(gv)) = (find("4ARGC"), find("4ARGV")) else { unsup!("command line arguments: no std globals") };
                for (a, v) in [(gc, argc), (gv, argv)] {
                    let b: Vec<V> = v.to_le_bytes().iter().map(|b| V::C(8, *b as u64)).collect();
                    self.write_bytes(s, a, &b)?;
                }
                Void
            }
            "symex_output" => {
                // captured bytes of fd 1 or 2: copies at most cap bytes, returns the length
                let fd = self.argk(s, c, 0)?;
                let p = self.argk(s, c, 1)?;
                let cap = self.argk(s, c, 2)? as usize;
                let o = if fd == 1 { s.env.out.clone() } else { s.env.err.clone() };
                let k = cap.min(o.len());
                let d: Vec<V> = o[..k].to_vec();
                self.write_bytes(s, p, &d)?;
                ok64(o.len() as i64)
            }
            _ => unsup!("external function {name} in {}", self.where_(s)),
        })
    }

    fn fill_random(&mut self, s: &mut State, p: u64, n: u64) -> R<()> {
        let mut x = s.env.seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x1234_5678_9abc_def1);
        let mut v = vec![];
        for _ in 0..n {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.push(V::C(8, (x >> 24) & 255));
        }
        self.write_bytes(s, p, &v)
    }

    fn do_exit(&mut self, s: &mut State, code: i32) -> R<NatRes> {
        // the harness may define `symex_on_exit(code)`
        if let Some(f) = self.m.fmap.get("symex_on_exit") {
            let a = vec![V::c(32, code as u32 as u64)];
            s.stack.clear();
            s.top.pc = 0;
            self.enter(s, *f, a)?;
            // bottom of the stack: make the return end the path
            if let Some(b) = s.stack.last_mut() {
                Arc::make_mut(b).func = u32::MAX;
            }
            return Ok(Entered);
        }
        let _ = code;
        Err(End::Done)
    }
}
