//! Compact internal representation of the LLVM module that is executed symbolically.
use crate::expr::{Op, V};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    F32,
    F64,
    Arr(Arc<Ty>, u64, u64),             // elem, count, elem size
    Vec(Arc<Ty>, u64, u64),             // elem, count, elem size (bytes; 0 = sub-byte)
    Struct(Arc<Vec<(u64, Ty)>>, u64),   // (offset, ty), size
    Other,
}
impl Ty {
    /// scalar width in bits
    pub fn w(&self) -> u8 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {self:?}"),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Nat(Nat),
    Ind(Opnd),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Box<[Opnd]>,
    pub argtys: Box<[Ty]>,
    pub retty: Ty,
    pub normal: Option<Edge>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, Op, Opnd, Opnd),
    VBin(u32, Op, Opnd, Opnd),
    FBin(u32, FOp, Ty, Opnd, Opnd),
    FNeg(u32, Ty, Opnd),
    Icmp(u32, Pred, Opnd, Opnd),
    VIcmp(u32, Pred, Opnd, Opnd),
    Fcmp(u32, u32, Ty, Opnd, Opnd),
    Cast(u32, Cast, Opnd, Ty, Ty),
    Gep(u32, Opnd, i64, Box<[(Opnd, i64)]>),
    Load(u32, Opnd, Ty),
    Store(Opnd, Opnd, Ty),
    Alloca(u32, u64),
    DynAlloca(u32, Opnd, u64),
    Select(u32, Opnd, Opnd, Opnd),
    VSelect(u32, Opnd, Opnd, Opnd),
    Call(Box<CallI>),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(Opnd, Edge, Box<[(u128, Edge)]>),
    Ret(Option<Opnd>),
    Unreachable,
    ExtractV(u32, Opnd, Box<[u32]>),
    InsertV(u32, Opnd, Opnd, Box<[u32]>),
    ExtractE(u32, Opnd, Opnd),
    InsertE(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Box<[i32]>),
    Freeze(u32, Opnd),
    Rmw(u32, u32, Opnd, Opnd, Ty),
    CmpXchg(u32, Opnd, Opnd, Opnd, Ty),
    Fence,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    pub frame: u64,
    pub code: Vec<I>,
    pub decl: bool,
    pub nat: Option<Nat>,
    pub line: Vec<u32>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fmap: HashMap<String, u32>,
    pub gmap: Vec<u32>, // (addr-GBASE)/16 -> global id + 1
}

pub const GBASE: u64 = 1 << 32;
pub const FBASE: u64 = 2 << 32;
pub const OBASE: u64 = 16; // object i is at (i+OBASE)<<32 | OOFF
pub const OOFF: u64 = 0x1000;

/// externals: intrinsics and libc
#[derive(Clone, Debug, PartialEq)]
pub enum Nat {
    Nop,
    Memcpy,
    Memset,
    Assume,
    Expect,
    Trap,
    Min(bool), // signed
    Max(bool),
    Ovf(Op, bool), // op, signed
    Sat(Op, bool),
    Cmp3(bool),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    Fsh(bool), // left?
    IsConst,
    Reduce(Op),
    Tls,
    LoadRel,
    ObjSize,
    FUn(&'static str),
    Ext(String),
    Intr(String),
}
