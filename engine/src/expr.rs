//! Bit-vector expressions over symbolic input bytes.
//!
//! Every symbolic variable is one input byte.  Boolean (width 1) expressions that depend on
//! exactly one byte are kept in canonical form as a set of byte values (`Op::InSet`).
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

pub type E = Arc<Node>;
pub type Set = [u64; 4];

/// Runtime value: constant of width 1..=64, wide constant, symbolic expression, aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u8, u64),
    W(u8, Arc<u128>),
    S(E),
    A(Arc<Vec<V>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Var(u32),
    InSet, // kid 0 is Var, `set` in node
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat, // hi, lo
    Extract(u8),
    ZExt,
    SExt,
}

pub struct Node {
    pub op: Op,
    pub w: u8,
    pub h: u128,
    pub vars: u128,
    pub size: u32,
    pub kids: Vec<V>,
    pub set: Option<Arc<Set>>,
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.op {
            Op::Var(i) => write!(f, "v{i}"),
            Op::InSet => write!(f, "InSet({:?},{})", self.kids[0], set_str(self.set.as_ref().unwrap())),
            _ => {
                write!(f, "{:?}:{}(", self.op, self.w)?;
                for k in &self.kids {
                    write!(f, "{k:?},")?;
                }
                write!(f, ")")
            }
        }
    }
}

pub fn set_str(s: &Set) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < 256 {
        if s[i / 64] >> (i % 64) & 1 == 1 {
            let mut j = i;
            while j + 1 < 256 && s[(j + 1) / 64] >> ((j + 1) % 64) & 1 == 1 {
                j += 1;
            }
            if !out.is_empty() {
                out.push(' ');
            }
            out += &if i == j { format!("{i:02x}") } else { format!("{i:02x}-{j:02x}") };
            i = j + 1;
        } else {
            i += 1;
        }
    }
    out
}

pub const FULL: Set = [!0; 4];
pub fn s_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn s_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn s_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn s_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn s_has(a: &Set, v: u8) -> bool {
    a[(v / 64) as usize] >> (v % 64) & 1 == 1
}
pub fn s_first(a: &Set) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    panic!("empty set")
}
pub fn s_iter(a: &Set) -> impl Iterator<Item = u8> + '_ {
    (0..256u32).map(|i| i as u8).filter(move |i| s_has(a, *i))
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask128(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn sext128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mix(h: u128, v: u128) -> u128 {
    let x = (h ^ v).wrapping_mul(0xd6e8feb86659fd93_a0761d6478bd642f);
    (x ^ (x >> 61)).wrapping_mul(0x9e3779b97f4a7c15_f39cc0605cedc835).rotate_left(47) ^ v.rotate_left(17)
}

impl V {
    pub fn w(&self) -> u8 {
        match self {
            V::C(w, _) => *w,
            V::W(w, _) => *w,
            V::S(e) => e.w,
            V::A(_) => 0,
        }
    }
    pub fn c(w: u8, v: u64) -> V {
        debug_assert!(w <= 64);
        V::C(w, v & mask(w))
    }
    pub fn b(v: bool) -> V {
        V::C(1, v as u64)
    }
    pub fn c128(w: u8, v: u128) -> V {
        let v = v & mask128(w);
        if w <= 64 {
            V::C(w, v as u64)
        } else {
            V::W(w, Arc::new(v))
        }
    }
    pub fn is_const(&self) -> bool {
        matches!(self, V::C(..) | V::W(..))
    }
    pub fn k(&self) -> Option<u64> {
        if let V::C(_, v) = self {
            Some(*v)
        } else {
            None
        }
    }
    pub fn k128(&self) -> Option<u128> {
        match self {
            V::C(_, v) => Some(*v as u128),
            V::W(_, v) => Some(**v),
            _ => None,
        }
    }
    fn h(&self) -> u128 {
        match self {
            V::C(w, v) => mix(0x1234567 + *w as u128, *v as u128),
            V::W(w, v) => mix(0x7654321 + *w as u128, **v),
            V::S(e) => e.h,
            V::A(_) => panic!("agg in expr"),
        }
    }
    fn vars(&self) -> u128 {
        if let V::S(e) = self {
            e.vars
        } else {
            0
        }
    }
    fn size(&self) -> u32 {
        if let V::S(e) = self {
            e.size
        } else {
            1
        }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::C(a, b), V::C(c, d)) => a == c && b == d,
            (V::W(a, b), V::W(c, d)) => a == c && b == d,
            (V::S(a), V::S(b)) => Arc::ptr_eq(a, b) || (a.h == b.h && a.w == b.w),
            _ => false,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.k128() == Some(0)
    }
    fn is_ones(&self) -> bool {
        self.k128() == Some(mask128(self.w()))
    }
}

fn opcode_id(op: Op) -> u128 {
    match op {
        Op::Var(i) => 1000 + i as u128,
        Op::Extract(l) => 2000 + l as u128,
        Op::InSet => 1,
        Op::Add => 2,
        Op::Sub => 3,
        Op::Mul => 4,
        Op::UDiv => 5,
        Op::SDiv => 6,
        Op::URem => 7,
        Op::SRem => 8,
        Op::And => 9,
        Op::Or => 10,
        Op::Xor => 11,
        Op::Shl => 12,
        Op::LShr => 13,
        Op::AShr => 14,
        Op::Eq => 15,
        Op::Ult => 16,
        Op::Slt => 17,
        Op::Ite => 18,
        Op::Concat => 19,
        Op::ZExt => 20,
        Op::SExt => 21,
    }
}

fn raw(op: Op, w: u8, kids: Vec<V>) -> V {
    let mut h = mix(opcode_id(op), w as u128 + 77);
    let mut vars = 0;
    let mut size = 1u32;
    for k in &kids {
        h = mix(h, k.h());
        vars |= k.vars();
        size = size.saturating_add(k.size());
    }
    if let Op::Var(i) = op {
        vars = 1u128 << i;
    }
    V::S(Arc::new(Node { op, w, h, vars, size, kids, set: None }))
}

pub fn var(i: u32) -> V {
    assert!(i < 128);
    raw(Op::Var(i), 8, vec![])
}

pub fn inset(v: u32, s: Set) -> V {
    if s_empty(&s) {
        return V::b(false);
    }
    if s == FULL {
        return V::b(true);
    }
    let mut h = mix(opcode_id(Op::InSet), 1000 + v as u128);
    for x in s {
        h = mix(h, x as u128);
    }
    V::S(Arc::new(Node {
        op: Op::InSet,
        w: 1,
        h,
        vars: 1u128 << v,
        size: 2,
        kids: vec![var(v)],
        set: Some(Arc::new(s)),
    }))
}

thread_local! {
    static TT: RefCell<HashMap<u128, Arc<Set>>> = RefCell::new(HashMap::new());
}

/// finish a node: canonicalise single-byte booleans
fn fin(op: Op, w: u8, kids: Vec<V>) -> V {
    let v = raw(op, w, kids);
    if w == 1 {
        if let V::S(e) = &v {
            if e.vars.count_ones() == 1 {
                let s = truth(e);
                return inset(e.vars.trailing_zeros(), *s);
            }
        }
    }
    v
}

pub fn truth(e: &E) -> Arc<Set> {
    if let Op::InSet = e.op {
        return e.set.clone().unwrap();
    }
    if let Some(s) = TT.with(|t| t.borrow().get(&e.h).cloned()) {
        return s;
    }
    let v = e.vars.trailing_zeros() as usize;
    let mut s = [0u64; 4];
    let mut model = [0u8; 128];
    for i in 0..256usize {
        model[v] = i as u8;
        if eval(e, &model) & 1 == 1 {
            s[i / 64] |= 1 << (i % 64);
        }
    }
    let s = Arc::new(s);
    TT.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() > 1_000_000 {
            t.clear();
        }
        t.insert(e.h, s.clone())
    });
    s
}

pub fn eval_v(v: &V, m: &[u8]) -> u128 {
    match v {
        V::C(_, k) => *k as u128,
        V::W(_, k) => **k,
        V::S(e) => eval(e, m),
        V::A(_) => panic!("eval agg"),
    }
}

pub fn eval(e: &E, m: &[u8]) -> u128 {
    if e.size > 400 {
        let mut memo = HashMap::new();
        return eval_memo(e, m, &mut memo);
    }
    let mut f = |v: &V| eval_v(v, m);
    eval_op(e, &mut f, m)
}

fn eval_memo(e: &E, m: &[u8], memo: &mut HashMap<*const Node, u128>) -> u128 {
    let p = Arc::as_ptr(e);
    if let Some(v) = memo.get(&p) {
        return *v;
    }
    let r = {
        let mut f = |v: &V| match v {
            V::S(e) => eval_memo(e, m, memo),
            o => eval_v(o, m),
        };
        eval_op(e, &mut f, m)
    };
    memo.insert(p, r);
    r
}

fn eval_op(e: &E, f: &mut dyn FnMut(&V) -> u128, m: &[u8]) -> u128 {
    let k = &e.kids;
    match e.op {
        Op::Var(i) => m[i as usize] as u128,
        Op::InSet => s_has(e.set.as_ref().unwrap(), f(&k[0]) as u8) as u128,
        Op::Ite => {
            if f(&k[0]) & 1 == 1 {
                f(&k[1])
            } else {
                f(&k[2])
            }
        }
        Op::Concat => {
            let h = f(&k[0]);
            let l = f(&k[1]);
            (h << k[1].w()) | l
        }
        Op::Extract(lo) => (f(&k[0]) >> lo) & mask128(e.w),
        Op::ZExt => f(&k[0]),
        Op::SExt => (sext128(f(&k[0]), k[0].w()) as u128) & mask128(e.w),
        op => {
            let a = f(&k[0]);
            let b = f(&k[1]);
            fold(op, k[0].w(), a, b)
        }
    }
}

/// constant folding of binary operators on operands of width w
pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                m
            } else {
                (sext128(a, w).wrapping_div(sext128(b, w)) as u128) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sext128(a, w).wrapping_rem(sext128(b, w)) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext128(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        _ => panic!("fold {op:?}"),
    }
}

fn res_w(op: Op, w: u8) -> u8 {
    match op {
        Op::Eq | Op::Ult | Op::Slt => 1,
        _ => w,
    }
}

/// upper bound of the number of low bits that may be nonzero
fn ubits(v: &V) -> u8 {
    match v {
        V::C(_, k) => 64 - k.leading_zeros() as u8,
        V::W(_, k) => 128 - k.leading_zeros() as u8,
        V::S(e) => match e.op {
            Op::ZExt => ubits(&e.kids[0]),
            Op::And => ubits(&e.kids[0]).min(ubits(&e.kids[1])),
            Op::Or | Op::Xor => ubits(&e.kids[0]).max(ubits(&e.kids[1])),
            Op::Ite => ubits(&e.kids[1]).max(ubits(&e.kids[2])),
            Op::Add => (ubits(&e.kids[0]).max(ubits(&e.kids[1])) + 1).min(e.w),
            Op::Concat => {
                let h = ubits(&e.kids[0]);
                if h == 0 {
                    ubits(&e.kids[1])
                } else {
                    h + e.kids[1].w()
                }
            }
            Op::LShr => {
                let u = ubits(&e.kids[0]);
                match e.kids[1].k128() {
                    Some(s) => u.saturating_sub(s.min(128) as u8),
                    None => u,
                }
            }
            Op::Shl => match e.kids[1].k128() {
                Some(s) if s < 128 => (ubits(&e.kids[0]).saturating_add(s as u8)).min(e.w),
                _ => e.w,
            },
            Op::Mul => (ubits(&e.kids[0]).saturating_add(ubits(&e.kids[1]))).min(e.w),
            Op::Extract(lo) => {
                let u = ubits(&e.kids[0]);
                u.saturating_sub(lo).min(e.w)
            }
            _ => e.w,
        },
        V::A(_) => panic!(),
    }
}

fn node(v: &V) -> Option<&E> {
    if let V::S(e) = v {
        Some(e)
    } else {
        None
    }
}

pub fn not(a: &V) -> V {
    debug_assert!(a.w() == 1);
    match a {
        V::C(_, v) => V::C(1, v ^ 1),
        V::S(e) => {
            if let Op::InSet = e.op {
                return inset(e.vars.trailing_zeros(), s_not(e.set.as_ref().unwrap()));
            }
            if e.op == Op::Xor && e.kids[1].k() == Some(1) {
                return e.kids[0].clone();
            }
            fin(Op::Xor, 1, vec![a.clone(), V::C(1, 1)])
        }
        _ => panic!(),
    }
}

/// ite tree whose leaves are all constants
fn const_leaves(v: &V, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    match v {
        V::C(..) | V::W(..) => true,
        V::S(e) if e.op == Op::Ite => const_leaves(&e.kids[1], budget) && const_leaves(&e.kids[2], budget),
        _ => false,
    }
}
fn is_kite(v: &V) -> bool {
    if let V::S(e) = v {
        if e.op == Op::Ite {
            let mut b = 64;
            return const_leaves(v, &mut b);
        }
    }
    false
}
fn map_leaves(v: &V, f: &dyn Fn(&V) -> V) -> V {
    match v {
        V::S(e) if e.op == Op::Ite => {
            let a = map_leaves(&e.kids[1], f);
            let b = map_leaves(&e.kids[2], f);
            ite(&e.kids[0], &a, &b)
        }
        o => f(o),
    }
}

pub fn bin(op: Op, a: &V, b: &V) -> V {
    let w = a.w();
    debug_assert!(w == b.w(), "width mismatch {op:?} {a:?} {b:?}");
    if let (V::C(_, x), V::C(_, y)) = (a, b) {
        // fast path
        let (x, y) = (*x, *y);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => (x == y) as u64,
            Op::Ult => (x < y) as u64,
            Op::Slt => (sext64(x, w) < sext64(y, w)) as u64,
            Op::Mul => x.wrapping_mul(y),
            _ => fold(op, w, x as u128, y as u128) as u64,
        };
        let rw = res_w(op, w);
        return V::C(rw, r & mask(rw));
    }
    if let (Some(x), Some(y)) = (a.k128(), b.k128()) {
        return V::c128(res_w(op, w), fold(op, w, x, y));
    }
    // const to the right for commutative
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    let (a, b) = if comm && a.is_const() { (b, a) } else { (a, b) };
    // ite-of-constants with constant
    if w > 1 || matches!(op, Op::Eq | Op::Ult | Op::Slt) {
        if b.is_const() && is_kite(a) {
            return map_leaves(a, &|l| bin(op, l, b));
        }
        if a.is_const() && is_kite(b) {
            return map_leaves(b, &|l| bin(op, a, l));
        }
    }
    if w == 1 {
        match op {
            Op::And | Op::Mul => return band(a, b),
            Op::Or => return bor(a, b),
            Op::Xor | Op::Add | Op::Sub => {
                if let Some(k) = b.k() {
                    return if k == 1 { not(a) } else { a.clone() };
                }
                if let Some(k) = a.k() {
                    return if k == 1 { not(b) } else { b.clone() };
                }
                if a.same(b) {
                    return V::b(false);
                }
                return fin(Op::Xor, 1, vec![a.clone(), b.clone()]);
            }
            Op::Eq => {
                if let Some(k) = b.k() {
                    return if k == 1 { a.clone() } else { not(a) };
                }
                if a.same(b) {
                    return V::b(true);
                }
                return not(&fin(Op::Xor, 1, vec![a.clone(), b.clone()]));
            }
            Op::Ult => return band(&not(a), b),
            Op::Slt => return band(a, &not(b)),
            _ => {}
        }
    }
    let kb = b.k128();
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a.clone();
            }
            if let (Some(k), Some(e)) = (kb, node(a)) {
                if e.op == Op::Add {
                    if let Some(k2) = e.kids[1].k128() {
                        return bin(Op::Add, &e.kids[0], &V::c128(w, k.wrapping_add(k2)));
                    }
                }
            }
        }
        Op::Sub => {
            if kb == Some(0) {
                return a.clone();
            }
            if a.same(b) {
                return V::c128(w, 0);
            }
            if let Some(k) = kb {
                return bin(Op::Add, a, &V::c128(w, 0u128.wrapping_sub(k)));
            }
        }
        Op::Mul => {
            if kb == Some(0) {
                return b.clone();
            }
            if kb == Some(1) {
                return a.clone();
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, &V::c128(w, k.trailing_zeros() as u128));
                }
            }
        }
        Op::UDiv => {
            if kb == Some(1) {
                return a.clone();
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, &V::c128(w, k.trailing_zeros() as u128));
                }
            }
        }
        Op::URem => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, &V::c128(w, k - 1));
                }
            }
        }
        Op::And => {
            if kb == Some(0) {
                return b.clone();
            }
            if b.is_ones() || a.same(b) {
                return a.clone();
            }
            if let Some(k) = kb {
                let u = ubits(a);
                let um = mask128(u);
                if k & um == 0 {
                    return V::c128(w, 0);
                }
                if k & um == um {
                    return a.clone();
                }
                // low mask: zext(extract)
                if (k & um).wrapping_add(1).is_power_of_two() {
                    let n = (k & um).trailing_ones() as u8;
                    return zext(&extract(a, 0, n), w);
                }
                if let Some(e) = node(a) {
                    if let Op::ZExt = e.op {
                        let iw = e.kids[0].w();
                        return zext(&bin(Op::And, &e.kids[0], &V::c128(iw, k & mask128(iw))), w);
                    }
                    if e.op == Op::And {
                        if let Some(k2) = e.kids[1].k128() {
                            return bin(Op::And, &e.kids[0], &V::c128(w, k & k2));
                        }
                    }
                }
            }
        }
        Op::Or => {
            if kb == Some(0) || a.same(b) {
                return a.clone();
            }
            if b.is_ones() {
                return b.clone();
            }
            if a.is_zero() {
                return b.clone();
            }
            // disjoint or: hi part shifted left with low zero bits
            for (x, y) in [(a, b), (b, a)] {
                if let Some(e) = node(x) {
                    if e.op == Op::Concat && e.kids[1].is_zero() {
                        let lw = e.kids[1].w();
                        if ubits(y) <= lw {
                            return concat(&e.kids[0], &extract(y, 0, lw));
                        }
                    }
                }
            }
        }
        Op::Xor => {
            if kb == Some(0) {
                return a.clone();
            }
            if a.same(b) {
                return V::c128(w, 0);
            }
            if let (Some(k), Some(e)) = (kb, node(a)) {
                if e.op == Op::Xor {
                    if let Some(k2) = e.kids[1].k128() {
                        return bin(Op::Xor, &e.kids[0], &V::c128(w, k ^ k2));
                    }
                }
            }
        }
        Op::Shl => {
            if let Some(k) = kb {
                if k == 0 {
                    return a.clone();
                }
                if k >= w as u128 {
                    return V::c128(w, 0);
                }
                let k = k as u8;
                return concat(&extract(a, 0, w - k), &V::c128(k, 0));
            }
        }
        Op::LShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a.clone();
                }
                if k >= w as u128 {
                    return V::c128(w, 0);
                }
                let k = k as u8;
                return zext(&extract(a, k, w - k), w);
            }
        }
        Op::AShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a.clone();
                }
                if ubits(a) < w {
                    return bin(Op::LShr, a, b);
                }
                if k < w as u128 {
                    let k = k as u8;
                    return sext(&extract(a, k, w - k), w);
                }
            }
        }
        Op::Eq => {
            if a.same(b) {
                return V::b(true);
            }
            if let Some(k) = kb {
                let u = ubits(a);
                if k & !mask128(u) != 0 {
                    return V::b(false);
                }
                if let Some(e) = node(a) {
                    match e.op {
                        Op::ZExt => {
                            let iw = e.kids[0].w();
                            return bin(Op::Eq, &e.kids[0], &V::c128(iw, k));
                        }
                        Op::SExt => {
                            let iw = e.kids[0].w();
                            let lo = k & mask128(iw);
                            if (sext128(lo, iw) as u128) & mask128(w) != k {
                                return V::b(false);
                            }
                            return bin(Op::Eq, &e.kids[0], &V::c128(iw, lo));
                        }
                        Op::Concat => {
                            let lw = e.kids[1].w();
                            let l = bin(Op::Eq, &e.kids[1], &V::c128(lw, k & mask128(lw)));
                            let h = bin(Op::Eq, &e.kids[0], &V::c128(w - lw, k >> lw));
                            return band(&h, &l);
                        }
                        Op::Add => {
                            if let Some(k2) = e.kids[1].k128() {
                                return bin(Op::Eq, &e.kids[0], &V::c128(w, k.wrapping_sub(k2)));
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = e.kids[1].k128() {
                                return bin(Op::Eq, &e.kids[0], &V::c128(w, k ^ k2));
                            }
                            if k == 0 {
                                return bin(Op::Eq, &e.kids[0], &e.kids[1]);
                            }
                        }
                        Op::Sub if k == 0 => return bin(Op::Eq, &e.kids[0], &e.kids[1]),
                        Op::Or if k == 0 => {
                            let x = bin(Op::Eq, &e.kids[0], &V::c128(w, 0));
                            let y = bin(Op::Eq, &e.kids[1], &V::c128(w, 0));
                            return band(&x, &y);
                        }
                        _ => {}
                    }
                }
            } else if let (Some(x), Some(y)) = (node(a), node(b)) {
                if x.op == Op::Concat && y.op == Op::Concat && x.kids[1].w() == y.kids[1].w() {
                    let l = bin(Op::Eq, &x.kids[1], &y.kids[1]);
                    let h = bin(Op::Eq, &x.kids[0], &y.kids[0]);
                    return band(&h, &l);
                }
                if x.op == Op::ZExt && y.op == Op::ZExt && x.kids[0].w() == y.kids[0].w() {
                    return bin(Op::Eq, &x.kids[0], &y.kids[0]);
                }
            }
        }
        Op::Ult => {
            if a.same(b) || kb == Some(0) {
                return V::b(false);
            }
            if kb == Some(1) {
                return bin(Op::Eq, a, &V::c128(w, 0));
            }
            if let Some(k) = kb {
                let u = ubits(a);
                if u < w && k > mask128(u) {
                    return V::b(true);
                }
                if let Some(e) = node(a) {
                    if let Op::ZExt = e.op {
                        let iw = e.kids[0].w();
                        if k <= mask128(iw) {
                            return bin(Op::Ult, &e.kids[0], &V::c128(iw, k));
                        }
                        return V::b(true);
                    }
                }
            }
            if let Some(k) = a.k128() {
                let u = ubits(b);
                if k >= mask128(u) {
                    return V::b(false);
                }
                if k == mask128(w) {
                    return V::b(false);
                }
                if let Some(e) = node(b) {
                    if let Op::ZExt = e.op {
                        let iw = e.kids[0].w();
                        if k <= mask128(iw) {
                            return bin(Op::Ult, &V::c128(iw, k), &e.kids[0]);
                        }
                        return V::b(false);
                    }
                }
            }
        }
        Op::Slt => {
            if a.same(b) {
                return V::b(false);
            }
            // both non-negative -> unsigned
            if ubits(a) < w && ubits(b) < w {
                return bin(Op::Ult, a, b);
            }
            // a non-negative, b negative constant
            if let Some(k) = kb {
                if ubits(a) < w && k >> (w - 1) == 1 {
                    return V::b(false);
                }
            }
            if let Some(k) = a.k128() {
                if ubits(b) < w && k >> (w - 1) == 1 {
                    return V::b(true);
                }
            }
        }
        _ => {}
    }
    fin(op, res_w(op, w), vec![a.clone(), b.clone()])
}

pub fn band(a: &V, b: &V) -> V {
    if let Some(k) = a.k() {
        return if k == 1 { b.clone() } else { V::b(false) };
    }
    if let Some(k) = b.k() {
        return if k == 1 { a.clone() } else { V::b(false) };
    }
    if a.same(b) {
        return a.clone();
    }
    let (ea, eb) = (node(a).unwrap(), node(b).unwrap());
    if ea.vars == eb.vars && ea.op == Op::InSet && eb.op == Op::InSet {
        return inset(
            ea.vars.trailing_zeros(),
            s_and(ea.set.as_ref().unwrap(), eb.set.as_ref().unwrap()),
        );
    }
    fin(Op::And, 1, vec![a.clone(), b.clone()])
}

pub fn bor(a: &V, b: &V) -> V {
    if let Some(k) = a.k() {
        return if k == 0 { b.clone() } else { V::b(true) };
    }
    if let Some(k) = b.k() {
        return if k == 0 { a.clone() } else { V::b(true) };
    }
    if a.same(b) {
        return a.clone();
    }
    let (ea, eb) = (node(a).unwrap(), node(b).unwrap());
    if ea.vars == eb.vars && ea.op == Op::InSet && eb.op == Op::InSet {
        return inset(
            ea.vars.trailing_zeros(),
            s_or(ea.set.as_ref().unwrap(), eb.set.as_ref().unwrap()),
        );
    }
    fin(Op::Or, 1, vec![a.clone(), b.clone()])
}

pub fn ite(c: &V, a: &V, b: &V) -> V {
    if let Some(k) = c.k() {
        return if k == 1 { a.clone() } else { b.clone() };
    }
    if let (V::A(x), V::A(y)) = (a, b) {
        return V::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| ite(c, p, q)).collect()));
    }
    if a.same(b) {
        return a.clone();
    }
    let w = a.w();
    debug_assert!(w == b.w(), "ite width {a:?} {b:?}");
    if w == 1 {
        if let Some(k) = a.k() {
            return if k == 1 { bor(c, b) } else { band(&not(c), b) };
        }
        if let Some(k) = b.k() {
            return if k == 1 { bor(&not(c), a) } else { band(c, a) };
        }
    }
    fin(Op::Ite, w, vec![c.clone(), a.clone(), b.clone()])
}

pub fn extract(a: &V, lo: u8, w: u8) -> V {
    let aw = a.w();
    if lo == 0 && w == aw {
        return a.clone();
    }
    if let Some(k) = a.k128() {
        return V::c128(w, if lo >= 128 { 0 } else { k >> lo });
    }
    let e = node(a).unwrap();
    match e.op {
        Op::Extract(l2) => return extract(&e.kids[0], lo + l2, w),
        Op::Concat => {
            let lw = e.kids[1].w();
            if lo + w <= lw {
                return extract(&e.kids[1], lo, w);
            }
            if lo >= lw {
                return extract(&e.kids[0], lo - lw, w);
            }
            let l = extract(&e.kids[1], lo, lw - lo);
            let h = extract(&e.kids[0], 0, lo + w - lw);
            return concat(&h, &l);
        }
        Op::ZExt => {
            let iw = e.kids[0].w();
            if lo >= iw {
                return V::c128(w, 0);
            }
            if lo + w <= iw {
                return extract(&e.kids[0], lo, w);
            }
            return zext(&extract(&e.kids[0], lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = e.kids[0].w();
            if lo + w <= iw {
                return extract(&e.kids[0], lo, w);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(e.op, &extract(&e.kids[0], lo, w), &extract(&e.kids[1], lo, w));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(e.op, &extract(&e.kids[0], 0, w), &extract(&e.kids[1], 0, w));
        }
        Op::Ite => {
            let x = extract(&e.kids[1], lo, w);
            let y = extract(&e.kids[2], lo, w);
            return ite(&e.kids[0], &x, &y);
        }
        _ => {}
    }
    if lo >= ubits(a) {
        return V::c128(w, 0);
    }
    fin(Op::Extract(lo), w, vec![a.clone()])
}

pub fn concat(h: &V, l: &V) -> V {
    let w = h.w() + l.w();
    if let (Some(x), Some(y)) = (h.k128(), l.k128()) {
        return V::c128(w, (x << l.w()) | y);
    }
    if h.is_zero() {
        return zext(l, w);
    }
    if let (Some(x), Some(y)) = (node(h), node(l)) {
        if let (Op::Extract(a), Op::Extract(b)) = (x.op, y.op) {
            if x.kids[0].same(&y.kids[0]) && a == b + l.w() {
                return extract(&x.kids[0], b, w);
            }
        }
    }
    // right-nest: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if let Some(x) = node(h) {
        if x.op == Op::Concat {
            return concat(&x.kids[0], &concat(&x.kids[1], l));
        }
    }
    // adjacent merging with the top of a right-nested concat
    if let (Some(x), Some(y)) = (node(h), node(l)) {
        if y.op == Op::Concat {
            if let (Op::Extract(a), V::S(y0)) = (x.op, &y.kids[0]) {
                if let Op::Extract(b) = y0.op {
                    if x.kids[0].same(&y0.kids[0]) && a == b + y0.w {
                        let m = extract(&x.kids[0], b, x.w + y0.w);
                        return concat(&m, &y.kids[1]);
                    }
                }
            }
        }
    }
    fin(Op::Concat, w, vec![h.clone(), l.clone()])
}

pub fn zext(a: &V, w: u8) -> V {
    let aw = a.w();
    if aw == w {
        return a.clone();
    }
    debug_assert!(aw < w);
    if let Some(k) = a.k128() {
        return V::c128(w, k);
    }
    if let Some(e) = node(a) {
        if e.op == Op::ZExt {
            return zext(&e.kids[0], w);
        }
        if is_kite(a) {
            return map_leaves(a, &|l| zext(l, w));
        }
    }
    fin(Op::ZExt, w, vec![a.clone()])
}

pub fn sext(a: &V, w: u8) -> V {
    let aw = a.w();
    if aw == w {
        return a.clone();
    }
    if let Some(k) = a.k128() {
        return V::c128(w, sext128(k, aw) as u128);
    }
    if ubits(a) < aw {
        return zext(a, w);
    }
    if is_kite(a) {
        return map_leaves(a, &|l| sext(l, w));
    }
    if aw == 1 {
        return ite(a, &V::c128(w, !0), &V::c128(w, 0));
    }
    fin(Op::SExt, w, vec![a.clone()])
}

/// lookup table over one byte variable: value(v) = f(v); used for loads at symbolic addresses
pub fn table(var_id: u32, dom: &Set, w: u8, f: &dyn Fn(u8) -> V) -> V {
    // group the domain by value
    let mut groups: Vec<(V, Set)> = vec![];
    for x in s_iter(dom) {
        let v = f(x);
        if let Some(g) = groups.iter_mut().find(|g| g.0.same(&v)) {
            g.1[(x / 64) as usize] |= 1 << (x % 64);
        } else {
            let mut s = [0u64; 4];
            s[(x / 64) as usize] |= 1 << (x % 64);
            groups.push((v, s));
        }
    }
    if groups.is_empty() {
        return V::c128(w, 0);
    }
    let (last, _) = groups.pop().unwrap();
    let mut r = last;
    for (v, s) in groups.into_iter().rev() {
        r = ite(&inset(var_id, s), &v, &r);
    }
    r
}

#[cfg(test)]
mod test {
    use super::*;
    // random differential test: smart constructors against plain evaluation
    #[test]
    fn simplifier_is_sound() {
        let mut seed = 0x1234_5678_9abc_def0u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for _ in 0..20000 {
            let m: Vec<u8> = (0..128).map(|_| rnd() as u8).collect();
            let mut pool: Vec<(V, u128)> = vec![];
            for i in 0..3 {
                pool.push((var(i), m[i as usize] as u128));
                let k = [0, 1, 2, 8, 127, 128, 255, rnd() & 255][(rnd() % 8) as usize];
                pool.push((V::c(8, k), k as u128));
            }
            for _ in 0..25 {
                let pick = |r: u64, p: &Vec<(V, u128)>| p[(r % p.len() as u64) as usize].clone();
                let (a, av) = pick(rnd(), &pool);
                let (b, bv) = pick(rnd(), &pool);
                let r = rnd() % 23;
                let ops = [
                    Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor,
                    Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Slt,
                ];
                let (nv, nx) = if r < 16 {
                    let (b, bv) = if b.w() != a.w() {
                        let w = a.w();
                        if b.w() < w { (zext(&b, w), bv) } else { (extract(&b, 0, w), bv & mask128(w)) }
                    } else {
                        (b.clone(), bv)
                    };
                    let op = ops[r as usize];
                    (bin(op, &a, &b), fold(op, a.w(), av, bv))
                } else if r == 16 {
                    if a.w() + b.w() > 64 { continue; }
                    (concat(&a, &b), (av << b.w()) | bv)
                } else if r == 17 || r == 18 {
                    let lo = (rnd() % a.w() as u64) as u8;
                    let w = 1 + (rnd() % (a.w() - lo) as u64) as u8;
                    (extract(&a, lo, w), (av >> lo) & mask128(w))
                } else if r == 19 {
                    let w = a.w() + (rnd() % (65 - a.w() as u64)) as u8;
                    (zext(&a, w), av)
                } else if r == 20 {
                    let w = a.w() + (rnd() % (65 - a.w() as u64)) as u8;
                    (sext(&a, w), (sext128(av, a.w()) as u128) & mask128(w))
                } else {
                    let c = pool.iter().rev().find(|x| x.0.w() == 1).cloned();
                    let Some((c, cv)) = c else { continue };
                    let (b, bv) = if b.w() != a.w() {
                        let w = a.w();
                        if b.w() < w { (zext(&b, w), bv) } else { (extract(&b, 0, w), bv & mask128(w)) }
                    } else {
                        (b.clone(), bv)
                    };
                    (ite(&c, &a, &b), if cv == 1 { av } else { bv })
                };
                assert_eq!(eval_v(&nv, &m), nx, "{r} {a:?} {b:?} -> {nv:?}");
                pool.push((nv, nx));
            }
        }
    }
}
