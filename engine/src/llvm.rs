//! Loads an LLVM bitcode file through the C API of the libLLVM that ships with rustc.
use crate::expr::{Op, V};
use crate::ir::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Arc;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
type P = *mut c_void;

pub fn open_lib(path: &str) -> Result<P, String> {
    let c = CString::new(path).unwrap();
    unsafe {
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            return Err(CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
        }
        Ok(h)
    }
}
pub fn sym(h: P, name: &str) -> P {
    let c = CString::new(name).unwrap();
    let p = unsafe { dlsym(h, c.as_ptr()) };
    if p.is_null() {
        panic!("symbol {name} not found");
    }
    p
}

#[macro_export]
macro_rules! api {
    ($name:ident { $( fn $f:ident($($t:ty),*) $(-> $r:ty)? ; )* }) => {
        #[allow(non_snake_case)]
        pub struct $name { $( pub $f: unsafe extern "C" fn($($t),*) $(-> $r)?, )* }
        impl $name {
            pub fn load(h: *mut std::ffi::c_void) -> Self {
                unsafe { $name { $( $f: std::mem::transmute(crate::llvm::sym(h, stringify!($f))), )* } }
            }
        }
    };
}

api!(L {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(*const c_char, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(P, P, *mut P) -> c_int;
    fn LLVMGetModuleDataLayout(P) -> P;
    fn LLVMABISizeOfType(P, P) -> u64;
    fn LLVMABIAlignmentOfType(P, P) -> c_uint;
    fn LLVMOffsetOfElement(P, P, c_uint) -> u64;
    fn LLVMGetFirstFunction(P) -> P;
    fn LLVMGetNextFunction(P) -> P;
    fn LLVMGetFirstGlobal(P) -> P;
    fn LLVMGetNextGlobal(P) -> P;
    fn LLVMGetFirstGlobalAlias(P) -> P;
    fn LLVMGetNextGlobalAlias(P) -> P;
    fn LLVMAliasGetAliasee(P) -> P;
    fn LLVMGetValueName2(P, *mut usize) -> *const u8;
    fn LLVMIsDeclaration(P) -> c_int;
    fn LLVMGlobalGetValueType(P) -> P;
    fn LLVMGetInitializer(P) -> P;
    fn LLVMIsGlobalConstant(P) -> c_int;
    fn LLVMGetFirstBasicBlock(P) -> P;
    fn LLVMGetNextBasicBlock(P) -> P;
    fn LLVMGetFirstInstruction(P) -> P;
    fn LLVMGetNextInstruction(P) -> P;
    fn LLVMGetInstructionOpcode(P) -> c_int;
    fn LLVMGetNumOperands(P) -> c_int;
    fn LLVMGetOperand(P, c_uint) -> P;
    fn LLVMTypeOf(P) -> P;
    fn LLVMGetTypeKind(P) -> c_int;
    fn LLVMGetIntTypeWidth(P) -> c_uint;
    fn LLVMGetArrayLength2(P) -> u64;
    fn LLVMGetVectorSize(P) -> c_uint;
    fn LLVMGetElementType(P) -> P;
    fn LLVMCountStructElementTypes(P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(P, c_uint) -> P;
    fn LLVMCountParams(P) -> c_uint;
    fn LLVMGetParam(P, c_uint) -> P;
    fn LLVMIsConstant(P) -> c_int;
    fn LLVMIsAConstantInt(P) -> P;
    fn LLVMIsAConstantFP(P) -> P;
    fn LLVMConstIntGetZExtValue(P) -> u64;
    fn LLVMConstRealGetDouble(P, *mut c_int) -> f64;
    fn LLVMIsAGlobalVariable(P) -> P;
    fn LLVMIsAGlobalAlias(P) -> P;
    fn LLVMIsAFunction(P) -> P;
    fn LLVMIsAConstantExpr(P) -> P;
    fn LLVMIsAConstantDataSequential(P) -> P;
    fn LLVMIsUndef(P) -> c_int;
    fn LLVMIsPoison(P) -> c_int;
    fn LLVMIsNull(P) -> c_int;
    fn LLVMGetRawDataValues(P, *mut usize) -> *const u8;
    fn LLVMGetAggregateElement(P, c_uint) -> P;
    fn LLVMGetConstOpcode(P) -> c_int;
    fn LLVMGetGEPSourceElementType(P) -> P;
    fn LLVMPrintValueToString(P) -> *mut c_char;
    fn LLVMGetICmpPredicate(P) -> c_int;
    fn LLVMGetFCmpPredicate(P) -> c_int;
    fn LLVMGetAllocatedType(P) -> P;
    fn LLVMIsACondBrInst(P) -> P;
    fn LLVMIsAUncondBrInst(P) -> P;
    fn LLVMGetCondition(P) -> P;
    fn LLVMGetNumSuccessors(P) -> c_uint;
    fn LLVMGetSuccessor(P, c_uint) -> P;
    fn LLVMGetSwitchCaseValue(P, c_uint) -> P;
    fn LLVMGetSwitchDefaultDest(P) -> P;
    fn LLVMCountIncoming(P) -> c_uint;
    fn LLVMGetIncomingValue(P, c_uint) -> P;
    fn LLVMGetIncomingBlock(P, c_uint) -> P;
    fn LLVMGetCalledValue(P) -> P;
    fn LLVMGetNumArgOperands(P) -> c_uint;
    fn LLVMGetNormalDest(P) -> P;
    fn LLVMIsAInlineAsm(P) -> P;
    fn LLVMGetInlineAsmAsmString(P, *mut usize) -> *const u8;
    fn LLVMGetNumIndices(P) -> c_uint;
    fn LLVMGetIndices(P) -> *const c_uint;
    fn LLVMGetNumMaskElements(P) -> c_uint;
    fn LLVMGetMaskValue(P, c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(P) -> c_int;
    fn LLVMGetDebugLocLine(P) -> c_uint;
});

pub fn llvm_path() -> String {
    if let Ok(p) = std::env::var("SYMEX_LIBLLVM") {
        return p;
    }
    let out = std::process::Command::new("rustc").args(["--print", "sysroot"]).output().expect("rustc");
    let root = String::from_utf8_lossy(&out.stdout).trim().to_string();
    let lib = format!("{root}/lib");
    for e in std::fs::read_dir(&lib).expect("sysroot lib") {
        let n = e.unwrap().file_name().to_string_lossy().into_owned();
        if n.starts_with("libLLVM.so.") {
            return format!("{lib}/{n}");
        }
    }
    panic!("libLLVM not found in {lib}");
}

struct Ld {
    l: L,
    td: P,
    tys: std::cell::RefCell<HashMap<P, Ty>>,
    gaddr: HashMap<P, u64>,
}

impl Ld {
    fn name(&self, v: P) -> String {
        unsafe {
            let mut n = 0usize;
            let p = (self.l.LLVMGetValueName2)(v, &mut n);
            String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
        }
    }
    fn print(&self, v: P) -> String {
        unsafe { CStr::from_ptr((self.l.LLVMPrintValueToString)(v)).to_string_lossy().into_owned() }
    }
    fn ty(&self, t: P) -> Ty {
        if let Some(x) = self.tys.borrow().get(&t) {
            return x.clone();
        }
        let l = &self.l;
        let r = unsafe {
            match (l.LLVMGetTypeKind)(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => {
                    let w = (l.LLVMGetIntTypeWidth)(t);
                    if w > 128 {
                        Ty::Other
                    } else {
                        Ty::Int(w as u8)
                    }
                }
                10 => {
                    let n = (l.LLVMCountStructElementTypes)(t);
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(((l.LLVMOffsetOfElement)(self.td, t, i), self.ty((l.LLVMStructGetTypeAtIndex)(t, i))));
                    }
                    Ty::Struct(Arc::new(v), (l.LLVMABISizeOfType)(self.td, t))
                }
                11 => {
                    let e = (l.LLVMGetElementType)(t);
                    Ty::Arr(Arc::new(self.ty(e)), (l.LLVMGetArrayLength2)(t), (l.LLVMABISizeOfType)(self.td, e))
                }
                12 => Ty::Ptr,
                13 => {
                    let e = (l.LLVMGetElementType)(t);
                    let et = self.ty(e);
                    let sz = if et == Ty::Int(1) { 0 } else { (l.LLVMABISizeOfType)(self.td, e) };
                    Ty::Vec(Arc::new(et), (l.LLVMGetVectorSize)(t) as u64, sz)
                }
                _ => Ty::Other,
            }
        };
        self.tys.borrow_mut().insert(t, r.clone());
        r
    }
    fn vty(&self, v: P) -> Ty {
        self.ty(unsafe { (self.l.LLVMTypeOf)(v) })
    }
    fn zero(&self, t: &Ty) -> V {
        zero(t)
    }
    fn int128(&self, v: P) -> u128 {
        let w = self.vty(v).w();
        if w <= 64 {
            return unsafe { (self.l.LLVMConstIntGetZExtValue)(v) as u128 };
        }
        let s = self.print(v);
        let d = s.split_whitespace().last().unwrap().to_string();
        if let Some(x) = d.strip_prefix('-') {
            (x.parse::<u128>().unwrap()).wrapping_neg()
        } else {
            d.parse::<u128>().unwrap()
        }
    }
    fn konst(&self, v: P) -> Result<V, String> {
        let l = &self.l;
        unsafe {
            let t = self.vty(v);
            if !(l.LLVMIsAConstantInt)(v).is_null() && t.scalar() {
                return Ok(V::c128(t.w(), self.int128(v)));
            }
            if let Some(a) = self.gaddr.get(&v) {
                return Ok(V::C(64, *a));
            }
            if !(l.LLVMIsAGlobalAlias)(v).is_null() {
                return self.konst((l.LLVMAliasGetAliasee)(v));
            }
            if (l.LLVMIsUndef)(v) != 0 || (l.LLVMIsPoison)(v) != 0 || (l.LLVMIsNull)(v) != 0 {
                return Ok(self.zero(&t));
            }
            if !(l.LLVMIsAConstantFP)(v).is_null() {
                let mut lo = 0;
                let d = (l.LLVMConstRealGetDouble)(v, &mut lo);
                return Ok(match t {
                    Ty::F32 => V::C(32, (d as f32).to_bits() as u64),
                    _ => V::C(64, d.to_bits()),
                });
            }
            if !(l.LLVMIsAConstantExpr)(v).is_null() {
                let op = (l.LLVMGetConstOpcode)(v);
                let k = |i: u32| self.konst((l.LLVMGetOperand)(v, i));
                return match op {
                    29 => {
                        let (base, off, dynv) = self.gep(v)?;
                        if !dynv.is_empty() {
                            return Err("dyn const gep".into());
                        }
                        let b = self.konst(base)?.k().unwrap();
                        Ok(V::C(64, b.wrapping_add(off as u64)))
                    }
                    39 | 40 | 41 | 30 | 31 | 69 => {
                        let x = k(0)?;
                        let w = t.w();
                        Ok(V::c128(w, x.k128().ok_or("const cast")?))
                    }
                    8 | 10 | 12 | 25 => {
                        let o = match op {
                            8 => Op::Add,
                            10 => Op::Sub,
                            12 => Op::Mul,
                            _ => Op::Xor,
                        };
                        Ok(crate::expr::bin(o, &k(0)?, &k(1)?))
                    }
                    _ => Err(format!("constexpr op {op}: {}", self.print(v))),
                };
            }
            match &t {
                Ty::Struct(f, _) => {
                    let mut o = vec![];
                    for i in 0..f.len() {
                        o.push(self.konst((l.LLVMGetAggregateElement)(v, i as u32))?);
                    }
                    Ok(V::A(Arc::new(o)))
                }
                Ty::Arr(_, n, _) | Ty::Vec(_, n, _) => {
                    let mut o = vec![];
                    for i in 0..*n {
                        o.push(self.konst((l.LLVMGetAggregateElement)(v, i as u32))?);
                    }
                    Ok(V::A(Arc::new(o)))
                }
                _ => Err(format!("const {}", self.print(v).chars().take(200).collect::<String>())),
            }
        }
    }
    /// serialise a constant initialiser
    fn init(&self, v: P, t: &Ty, out: &mut [u8]) -> Result<(), String> {
        let l = &self.l;
        unsafe {
            if (l.LLVMIsNull)(v) != 0 || (l.LLVMIsUndef)(v) != 0 || (l.LLVMIsPoison)(v) != 0 {
                return Ok(());
            }
            if !(l.LLVMIsAConstantDataSequential)(v).is_null() {
                let mut n = 0usize;
                let p = (l.LLVMGetRawDataValues)(v, &mut n);
                out[..n].copy_from_slice(std::slice::from_raw_parts(p, n));
                return Ok(());
            }
            match t {
                Ty::Struct(f, _) => {
                    for (i, (off, ft)) in f.iter().enumerate() {
                        self.init((l.LLVMGetAggregateElement)(v, i as u32), ft, &mut out[*off as usize..])?;
                    }
                    Ok(())
                }
                Ty::Arr(e, n, sz) | Ty::Vec(e, n, sz) => {
                    for i in 0..*n {
                        self.init((l.LLVMGetAggregateElement)(v, i as u32), e, &mut out[(i * sz) as usize..])?;
                    }
                    Ok(())
                }
                _ => {
                    let k = self.konst(v)?;
                    let x = k.k128().ok_or("init")?;
                    let n = (t.w() as usize + 7) / 8;
                    out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
                    Ok(())
                }
            }
        }
    }
    fn gep(&self, v: P) -> Result<(P, i64, Vec<(P, i64)>), String> {
        let l = &self.l;
        unsafe {
            let n = (l.LLVMGetNumOperands)(v) as u32;
            let base = (l.LLVMGetOperand)(v, 0);
            let mut t = (l.LLVMGetGEPSourceElementType)(v);
            let mut off = 0i64;
            let mut dynv = vec![];
            for i in 1..n {
                let idx = (l.LLVMGetOperand)(v, i);
                let sz: i64;
                if i == 1 {
                    sz = (l.LLVMABISizeOfType)(self.td, t) as i64;
                } else {
                    match (l.LLVMGetTypeKind)(t) {
                        10 => {
                            let k = (l.LLVMConstIntGetZExtValue)(idx) as u32;
                            off += (l.LLVMOffsetOfElement)(self.td, t, k) as i64;
                            t = (l.LLVMStructGetTypeAtIndex)(t, k);
                            continue;
                        }
                        11 | 13 => {
                            t = (l.LLVMGetElementType)(t);
                            sz = (l.LLVMABISizeOfType)(self.td, t) as i64;
                        }
                        k => return Err(format!("gep kind {k}")),
                    }
                }
                if !(l.LLVMIsAConstantInt)(idx).is_null() {
                    let w = self.vty(idx).w();
                    let k = crate::expr::sext64((l.LLVMConstIntGetZExtValue)(idx), w);
                    off = off.wrapping_add(k.wrapping_mul(sz));
                } else {
                    dynv.push((idx, sz));
                }
            }
            Ok((base, off, dynv))
        }
    }
}

pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Int(w) => V::c128(*w, 0),
        Ty::Ptr | Ty::F64 => V::C(64, 0),
        Ty::F32 => V::C(32, 0),
        Ty::Arr(e, n, _) | Ty::Vec(e, n, _) => V::A(Arc::new((0..*n).map(|_| zero(e)).collect())),
        Ty::Struct(f, _) => V::A(Arc::new(f.iter().map(|x| zero(&x.1)).collect())),
        Ty::Void => V::C(1, 0),
        Ty::Other => V::C(1, 0),
    }
}

fn native(name: &str) -> Nat {
    let Some(n) = name.strip_prefix("llvm.") else {
        return match name {
            "memcpy" | "memmove" => Nat::Memcpy,
            "memset" => Nat::Memset,
            _ => Nat::Ext(name.to_string()),
        };
    };
    let st = |p: &str| n.starts_with(p);
    if st("lifetime.") || st("experimental.noalias") || st("dbg.") || st("donothing") || st("x86.sse2.pause") || st("prefetch") || st("invariant.") || st("va_") {
        return Nat::Nop;
    }
    if st("memcpy.") || st("memmove.") {
        return Nat::Memcpy;
    }
    if st("memset.") {
        return Nat::Memset;
    }
    if st("assume") {
        return Nat::Assume;
    }
    if st("expect") || st("ssa.copy") || st("launder.") || st("strip.") {
        return Nat::Expect;
    }
    if st("trap") || st("debugtrap") || st("ubsantrap") {
        return Nat::Trap;
    }
    for (p, r) in [
        ("umin.", Nat::Min(false)),
        ("smin.", Nat::Min(true)),
        ("umax.", Nat::Max(false)),
        ("smax.", Nat::Max(true)),
        ("sadd.with.overflow", Nat::Ovf(Op::Add, true)),
        ("uadd.with.overflow", Nat::Ovf(Op::Add, false)),
        ("ssub.with.overflow", Nat::Ovf(Op::Sub, true)),
        ("usub.with.overflow", Nat::Ovf(Op::Sub, false)),
        ("smul.with.overflow", Nat::Ovf(Op::Mul, true)),
        ("umul.with.overflow", Nat::Ovf(Op::Mul, false)),
        ("uadd.sat", Nat::Sat(Op::Add, false)),
        ("usub.sat", Nat::Sat(Op::Sub, false)),
        ("sadd.sat", Nat::Sat(Op::Add, true)),
        ("ssub.sat", Nat::Sat(Op::Sub, true)),
        ("ucmp.", Nat::Cmp3(false)),
        ("scmp.", Nat::Cmp3(true)),
        ("ctlz.", Nat::Ctlz),
        ("cttz.", Nat::Cttz),
        ("ctpop.", Nat::Ctpop),
        ("bswap.", Nat::Bswap),
        ("bitreverse.", Nat::Bitrev),
        ("abs.", Nat::Abs),
        ("fshl.", Nat::Fsh(true)),
        ("fshr.", Nat::Fsh(false)),
        ("is.constant", Nat::IsConst),
        ("vector.reduce.or", Nat::Reduce(Op::Or)),
        ("vector.reduce.and", Nat::Reduce(Op::And)),
        ("vector.reduce.add", Nat::Reduce(Op::Add)),
        ("vector.reduce.xor", Nat::Reduce(Op::Xor)),
        ("threadlocal.address", Nat::Tls),
        ("load.relative", Nat::LoadRel),
        ("objectsize", Nat::ObjSize),
        ("ceil.", Nat::FUn("ceil")),
        ("floor.", Nat::FUn("floor")),
        ("fabs.", Nat::FUn("fabs")),
    ] {
        if st(p) {
            return r;
        }
    }
    Nat::Intr(name.to_string())
}

fn binop(o: i32) -> Option<Op> {
    Some(match o {
        8 => Op::Add,
        10 => Op::Sub,
        12 => Op::Mul,
        14 => Op::UDiv,
        15 => Op::SDiv,
        17 => Op::URem,
        18 => Op::SRem,
        20 => Op::Shl,
        21 => Op::LShr,
        22 => Op::AShr,
        23 => Op::And,
        24 => Op::Or,
        25 => Op::Xor,
        _ => return None,
    })
}

pub fn load(path: &str) -> Result<Module, String> {
    unsafe {
        let l = L::load(open_lib(&llvm_path())?);
        let ctx = (l.LLVMContextCreate)();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let cp = CString::new(path).unwrap();
        if (l.LLVMCreateMemoryBufferWithContentsOfFile)(cp.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {path}"));
        }
        let mut m: P = std::ptr::null_mut();
        if (l.LLVMParseBitcodeInContext2)(ctx, buf, &mut m) != 0 {
            return Err(format!("cannot parse {path}"));
        }
        let td = (l.LLVMGetModuleDataLayout)(m);
        let mut ld = Ld { l, td, tys: Default::default(), gaddr: HashMap::new() };
        // functions
        let mut fl: Vec<P> = vec![];
        let mut f = (ld.l.LLVMGetFirstFunction)(m);
        while !f.is_null() {
            ld.gaddr.insert(f, FBASE + 16 * (fl.len() as u64 + 1));
            fl.push(f);
            f = (ld.l.LLVMGetNextFunction)(f);
        }
        // globals
        let mut gl: Vec<(P, Ty, u64)> = vec![];
        let mut addr = GBASE + 0x1000;
        let mut g = (ld.l.LLVMGetFirstGlobal)(m);
        while !g.is_null() {
            let tp = (ld.l.LLVMGlobalGetValueType)(g);
            let t = ld.ty(tp);
            let sz = (ld.l.LLVMABISizeOfType)(td, tp);
            let al = ((ld.l.LLVMABIAlignmentOfType)(td, tp) as u64).max(64);
            addr = (addr + al - 1) / al * al;
            ld.gaddr.insert(g, addr);
            gl.push((g, t, sz));
            addr += sz.max(1) + 16;
            g = (ld.l.LLVMGetNextGlobal)(g);
        }
        let mut globals = vec![];
        let mut gmap = vec![0u32; ((addr - GBASE) / 16 + 2) as usize];
        for (i, (g, t, sz)) in gl.iter().enumerate() {
            let mut data = vec![0u8; *sz as usize];
            let init = if (ld.l.LLVMIsDeclaration)(*g) != 0 { std::ptr::null_mut() } else { (ld.l.LLVMGetInitializer)(*g) };
            if !init.is_null() {
                ld.init(init, t, &mut data).map_err(|e| format!("{e} in global {}", ld.name(*g)))?;
            }
            let a = ld.gaddr[g];
            for k in (a - GBASE) / 16..=(a + sz - GBASE) / 16 {
                gmap[k as usize] = i as u32 + 1;
            }
            globals.push(Global {
                name: ld.name(*g),
                addr: a,
                size: *sz,
                data,
                constant: (ld.l.LLVMIsGlobalConstant)(*g) != 0,
            });
        }
        let mut funcs = vec![];
        let mut fmap = HashMap::new();
        for (i, f) in fl.iter().enumerate() {
            let name = ld.name(*f);
            fmap.insert(name.clone(), i as u32);
            let decl = (ld.l.LLVMIsDeclaration)(*f) != 0;
            let nargs = (ld.l.LLVMCountParams)(*f);
            if decl {
                let nat = Some(native(&name));
                funcs.push(Func { name, nargs, nregs: nargs, frame: 0, code: vec![], decl, nat, line: vec![] });
                continue;
            }
            funcs.push(load_fn(&ld, *f, name, nargs)?);
        }
        // resolve direct calls to declarations
        let nats: Vec<Option<Nat>> = funcs.iter().map(|f: &Func| f.nat.clone()).collect();
        for f in funcs.iter_mut() {
            for i in f.code.iter_mut() {
                if let I::Call(c) = i {
                    if let Callee::F(id) = c.callee {
                        if let Some(n) = &nats[id as usize] {
                            c.callee = Callee::Nat(n.clone());
                        }
                    }
                }
            }
        }
        Ok(Module { funcs, globals, fmap, gmap })
    }
}

unsafe fn load_fn(ld: &Ld, f: P, name: String, nargs: u32) -> Result<Func, String> {
    let l = &ld.l;
    let mut regs: HashMap<P, u32> = HashMap::new();
    for i in 0..nargs {
        regs.insert((l.LLVMGetParam)(f, i), i);
    }
    let mut nregs = nargs;
    // pass 1: number registers, block pcs
    let mut bpc: HashMap<P, u32> = HashMap::new();
    let mut phis: HashMap<P, Vec<P>> = HashMap::new();
    let mut pc = 0u32;
    let mut b = (l.LLVMGetFirstBasicBlock)(f);
    while !b.is_null() {
        bpc.insert(b, pc);
        let mut i = (l.LLVMGetFirstInstruction)(b);
        let mut ph = vec![];
        while !i.is_null() {
            if ld.vty(i) != Ty::Void {
                regs.insert(i, nregs);
                nregs += 1;
            }
            if (l.LLVMGetInstructionOpcode)(i) == 44 {
                ph.push(i);
            } else {
                pc += 1;
            }
            i = (l.LLVMGetNextInstruction)(i);
        }
        phis.insert(b, ph);
        b = (l.LLVMGetNextBasicBlock)(b);
    }
    let opnd = |v: P| -> Result<Opnd, String> {
        if let Some(r) = regs.get(&v) {
            return Ok(Opnd::R(*r));
        }
        Ok(Opnd::K(ld.konst(v)?))
    };
    let edge = |from: P, to: P| -> Result<Edge, String> {
        let mut mv = vec![];
        for p in &phis[&to] {
            let n = (l.LLVMCountIncoming)(*p);
            let mut found = false;
            for k in 0..n {
                if (l.LLVMGetIncomingBlock)(*p, k) == from {
                    let val = (l.LLVMGetIncomingValue)(*p, k);
                    let o = match opnd(val) {
                        Ok(o) => o,
                        Err(e) => return Err(e),
                    };
                    if !matches!(&o, Opnd::R(r) if *r == regs[p]) {
                        mv.push((regs[p], o));
                    }
                    found = true;
                    break;
                }
            }
            if !found {
                return Err("phi edge".into());
            }
        }
        Ok(Edge { pc: bpc[&to], moves: mv.into_boxed_slice() })
    };
    let mut code: Vec<I> = vec![];
    let mut line: Vec<u32> = vec![];
    let mut frame = 0u64;
    let mut b = (l.LLVMGetFirstBasicBlock)(f);
    while !b.is_null() {
        let mut i = (l.LLVMGetFirstInstruction)(b);
        while !i.is_null() {
            let op = (l.LLVMGetInstructionOpcode)(i);
            if op == 44 {
                i = (l.LLVMGetNextInstruction)(i);
                continue;
            }
            let d = regs.get(&i).copied().unwrap_or(u32::MAX);
            let o = |k: u32| opnd((l.LLVMGetOperand)(i, k));
            let r: Result<I, String> = (|| {
                let t = ld.vty(i);
                if t == Ty::Other && op != 59 && op != 45 && op != 5 {
                    return Err(format!("type {}", ld.print(i)));
                }
                if let Some(bo) = binop(op) {
                    return Ok(if t.scalar() { I::Bin(d, bo, o(0)?, o(1)?) } else { I::VBin(d, bo, o(0)?, o(1)?) });
                }
                if !(l.LLVMIsACondBrInst)(i).is_null() {
                    let a = edge(b, (l.LLVMGetSuccessor)(i, 0))?;
                    let e = edge(b, (l.LLVMGetSuccessor)(i, 1))?;
                    return Ok(I::CondBr(opnd((l.LLVMGetCondition)(i))?, a, e));
                }
                if !(l.LLVMIsAUncondBrInst)(i).is_null() {
                    return Ok(I::Br(edge(b, (l.LLVMGetSuccessor)(i, 0))?));
                }
                Ok(match op {
                    1 => I::Ret(if (l.LLVMGetNumOperands)(i) > 0 { Some(o(0)?) } else { None }),
                    3 => {
                        let n = (l.LLVMGetNumSuccessors)(i);
                        let mut cs = vec![];
                        for k in 1..n {
                            let cv = (l.LLVMGetSwitchCaseValue)(i, k);
                            cs.push((ld.int128(cv), edge(b, (l.LLVMGetSuccessor)(i, k))?));
                        }
                        I::Switch(o(0)?, edge(b, (l.LLVMGetSwitchDefaultDest)(i))?, cs.into_boxed_slice())
                    }
                    7 => I::Unreachable,
                    66 => I::FNeg(d, t, o(0)?),
                    9 | 11 | 13 | 16 | 19 => {
                        let fo = match op {
                            9 => FOp::Add,
                            11 => FOp::Sub,
                            13 => FOp::Mul,
                            16 => FOp::Div,
                            _ => FOp::Rem,
                        };
                        if !t.scalar() {
                            return Err("vector float".into());
                        }
                        I::FBin(d, fo, t, o(0)?, o(1)?)
                    }
                    26 => {
                        let at = (l.LLVMGetAllocatedType)(i);
                        let sz = (l.LLVMABISizeOfType)(ld.td, at);
                        match o(0)? {
                            Opnd::K(k) => {
                                let n = k.k().unwrap();
                                let al = 16.max((l.LLVMABIAlignmentOfType)(ld.td, at) as u64);
                                frame = (frame + al - 1) / al * al;
                                let off = frame;
                                frame += sz * n;
                                I::Alloca(d, off)
                            }
                            x => I::DynAlloca(d, x, sz),
                        }
                    }
                    27 => I::Load(d, o(0)?, t),
                    28 => I::Store(o(0)?, o(1)?, ld.vty((l.LLVMGetOperand)(i, 0))),
                    29 => {
                        let (base, off, dy) = ld.gep(i)?;
                        let mut v = vec![];
                        for (p, s) in dy {
                            v.push((opnd(p)?, s));
                        }
                        if !t.scalar() {
                            return Err("vector gep".into());
                        }
                        I::Gep(d, opnd(base)?, off, v.into_boxed_slice())
                    }
                    30..=41 | 69 => {
                        let k = match op {
                            30 => Cast::Trunc,
                            31 => Cast::ZExt,
                            32 => Cast::SExt,
                            33 => Cast::FpToUi,
                            34 => Cast::FpToSi,
                            35 => Cast::UiToFp,
                            36 => Cast::SiToFp,
                            37 => Cast::FpTrunc,
                            38 => Cast::FpExt,
                            _ => Cast::Bit,
                        };
                        let ft = ld.vty((l.LLVMGetOperand)(i, 0));
                        let k = if op == 39 || op == 40 || op == 69 {
                            let (a, z) = (ft.w(), t.w());
                            if a == z {
                                Cast::Bit
                            } else if a > z {
                                Cast::Trunc
                            } else {
                                Cast::ZExt
                            }
                        } else {
                            k
                        };
                        I::Cast(d, k, o(0)?, ft, t)
                    }
                    42 => {
                        let p = match (l.LLVMGetICmpPredicate)(i) {
                            32 => Pred::Eq,
                            33 => Pred::Ne,
                            34 => Pred::Ugt,
                            35 => Pred::Uge,
                            36 => Pred::Ult,
                            37 => Pred::Ule,
                            38 => Pred::Sgt,
                            39 => Pred::Sge,
                            40 => Pred::Slt,
                            41 => Pred::Sle,
                            _ => return Err("pred".into()),
                        };
                        if t.scalar() {
                            I::Icmp(d, p, o(0)?, o(1)?)
                        } else {
                            I::VIcmp(d, p, o(0)?, o(1)?)
                        }
                    }
                    43 => I::Fcmp(d, (l.LLVMGetFCmpPredicate)(i) as u32, ld.vty((l.LLVMGetOperand)(i, 0)), o(0)?, o(1)?),
                    46 => {
                        if ld.vty((l.LLVMGetOperand)(i, 0)).scalar() {
                            I::Select(d, o(0)?, o(1)?, o(2)?)
                        } else {
                            I::VSelect(d, o(0)?, o(1)?, o(2)?)
                        }
                    }
                    45 | 5 => {
                        let cv = (l.LLVMGetCalledValue)(i);
                        let n = (l.LLVMGetNumArgOperands)(i);
                        let mut args = vec![];
                        let mut argtys = vec![];
                        let callee = if !(l.LLVMIsAInlineAsm)(cv).is_null() {
                            let mut n = 0usize;
                            let p = (l.LLVMGetInlineAsmAsmString)(cv, &mut n);
                            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
                            if s.trim().is_empty() {
                                Callee::Nat(Nat::Nop)
                            } else {
                                Callee::Nat(Nat::Ext(format!("asm:{s}")))
                            }
                        } else if !(l.LLVMIsAFunction)(cv).is_null() {
                            let a = ld.gaddr[&cv];
                            Callee::F(((a - FBASE) / 16 - 1) as u32)
                        } else {
                            Callee::Ind(opnd(cv)?)
                        };
                        for k in 0..n {
                            let a = (l.LLVMGetOperand)(i, k);
                            let ty = ld.vty(a);
                            if ty == Ty::Other {
                                args.push(Opnd::K(V::C(1, 0))); // metadata
                            } else {
                                args.push(opnd(a)?);
                            }
                            argtys.push(ty);
                        }
                        let normal = if op == 5 { Some(edge(b, (l.LLVMGetNormalDest)(i))?) } else { None };
                        I::Call(Box::new(CallI {
                            dst: if t == Ty::Void { None } else { Some(d) },
                            callee,
                            args: args.into_boxed_slice(),
                            argtys: argtys.into_boxed_slice(),
                            retty: t,
                            normal,
                        }))
                    }
                    50 => I::ExtractE(d, o(0)?, o(1)?),
                    51 => I::InsertE(d, o(0)?, o(1)?, o(2)?),
                    52 => {
                        let n = (l.LLVMGetNumMaskElements)(i);
                        let m: Vec<i32> = (0..n).map(|k| (l.LLVMGetMaskValue)(i, k)).collect();
                        I::Shuffle(d, o(0)?, o(1)?, m.into_boxed_slice())
                    }
                    53 | 54 => {
                        let n = (l.LLVMGetNumIndices)(i) as usize;
                        let ix: Box<[u32]> = std::slice::from_raw_parts((l.LLVMGetIndices)(i), n).to_vec().into_boxed_slice();
                        if op == 53 {
                            I::ExtractV(d, o(0)?, ix)
                        } else {
                            I::InsertV(d, o(0)?, o(1)?, ix)
                        }
                    }
                    68 => I::Freeze(d, o(0)?),
                    55 => I::Fence,
                    56 => I::CmpXchg(d, o(0)?, o(1)?, o(2)?, ld.vty((l.LLVMGetOperand)(i, 1))),
                    57 => I::Rmw(d, (l.LLVMGetAtomicRMWBinOp)(i) as u32, o(0)?, o(1)?, t),
                    _ => return Err(format!("opcode {op}: {}", ld.print(i))),
                })
            })();
            code.push(match r {
                Ok(x) => x,
                Err(e) => I::Unsupported(e),
            });
            line.push((l.LLVMGetDebugLocLine)(i));
            i = (l.LLVMGetNextInstruction)(i);
        }
        b = (l.LLVMGetNextBasicBlock)(b);
    }
    Ok(Func { name, nargs, nregs, frame, code, decl: false, nat: None, line })
}
