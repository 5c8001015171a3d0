//! Object memory with copy-on-write sharing between states.
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, V>,
    pub ro: bool,
}

const CH: usize = 32;
type Chunk = [Option<Arc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    obj: Vec<Arc<Chunk>>,
    glob: Vec<Arc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    pub live: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Loc {
    pub glob: bool,
    pub id: u32,
    pub off: u32,
}

fn empty() -> Arc<Chunk> {
    Arc::new(std::array::from_fn(|_| None))
}

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut s = Mem { obj: vec![], glob: vec![], free: vec![], next: 0, live: 0 };
        for (i, g) in m.globals.iter().enumerate() {
            if i % CH == 0 {
                s.glob.push(empty());
            }
            let c = Arc::make_mut(&mut s.glob[i / CH]);
            c[i % CH] = Some(Arc::new(Obj { data: g.data.clone(), sym: BTreeMap::new(), ro: g.constant }));
        }
        s
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        let (c, k) = (id as usize / CH, id as usize % CH);
        while self.obj.len() <= c {
            self.obj.push(empty());
        }
        Arc::make_mut(&mut self.obj[c])[k] =
            Some(Arc::new(Obj { data: vec![0; size as usize], sym: BTreeMap::new(), ro: false }));
        self.live += 1;
        ((id as u64 + OBASE) << 32) | OOFF
    }
    pub fn dealloc(&mut self, addr: u64) -> bool {
        let hi = addr >> 32;
        if hi < OBASE || addr & 0xffff_ffff != OOFF {
            return false;
        }
        let id = (hi - OBASE) as usize;
        let (c, k) = (id / CH, id % CH);
        if c >= self.obj.len() || self.obj[c][k].is_none() {
            return false;
        }
        Arc::make_mut(&mut self.obj[c])[k] = None;
        self.free.push(id as u32);
        self.live -= 1;
        true
    }
    pub fn size(&self, addr: u64) -> Option<u64> {
        let hi = addr >> 32;
        if hi < OBASE {
            return None;
        }
        let id = (hi - OBASE) as usize;
        self.obj.get(id / CH)?[id % CH].as_ref().map(|o| o.data.len() as u64)
    }
    #[inline]
    pub fn find(&self, m: &Module, addr: u64, n: u64) -> Option<(Loc, &Obj)> {
        let hi = addr >> 32;
        if hi >= OBASE {
            let id = (hi - OBASE) as usize;
            let o = self.obj.get(id / CH)?[id % CH].as_deref()?;
            let off = (addr & 0xffff_ffff).wrapping_sub(OOFF);
            if off.checked_add(n)? > o.data.len() as u64 {
                return None;
            }
            Some((Loc { glob: false, id: id as u32, off: off as u32 }, o))
        } else if hi == 1 {
            let g = *m.gmap.get(((addr - GBASE) / 16) as usize)?;
            if g == 0 {
                return None;
            }
            let id = g as usize - 1;
            let off = addr.checked_sub(m.globals[id].addr)?;
            let o = self.glob[id / CH][id % CH].as_deref()?;
            if off + n > o.data.len() as u64 {
                return None;
            }
            Some((Loc { glob: true, id: id as u32, off: off as u32 }, o))
        } else {
            None
        }
    }
    #[inline]
    pub fn get_mut(&mut self, l: Loc) -> &mut Obj {
        let id = l.id as usize;
        let t = if l.glob { &mut self.glob } else { &mut self.obj };
        Arc::make_mut(Arc::make_mut(&mut t[id / CH])[id % CH].as_mut().unwrap())
    }
}

impl Obj {
    #[inline]
    pub fn has_sym(&self, off: u32, n: u32) -> bool {
        !self.sym.is_empty() && self.sym.range(off..off + n).next().is_some()
    }
    pub fn byte(&self, off: u32) -> V {
        if !self.sym.is_empty() {
            if let Some(v) = self.sym.get(&off) {
                return v.clone();
            }
        }
        V::C(8, self.data[off as usize] as u64)
    }
    /// little-endian read of n <= 16 bytes
    #[inline]
    pub fn read(&self, off: u32, n: u32) -> V {
        if !self.has_sym(off, n) {
            let o = off as usize;
            return match n {
                1 => V::C(8, self.data[o] as u64),
                8 => V::C(64, u64::from_le_bytes(self.data[o..o + 8].try_into().unwrap())),
                4 => V::C(32, u32::from_le_bytes(self.data[o..o + 4].try_into().unwrap()) as u64),
                _ => {
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&self.data[o..o + n as usize]);
                    V::c128(8 * n as u8, u128::from_le_bytes(b))
                }
            };
        }
        let mut r = self.byte(off);
        for i in 1..n {
            r = concat(&self.byte(off + i), &r);
        }
        r
    }
    pub fn clear_sym(&mut self, off: u32, n: u32) {
        if self.sym.is_empty() {
            return;
        }
        let ks: Vec<u32> = self.sym.range(off..off + n).map(|x| *x.0).collect();
        for k in ks {
            self.sym.remove(&k);
        }
    }
    pub fn set_byte(&mut self, off: u32, v: V) {
        match v {
            V::C(_, k) => {
                self.data[off as usize] = k as u8;
                if !self.sym.is_empty() {
                    self.sym.remove(&off);
                }
            }
            v => {
                self.sym.insert(off, v);
            }
        }
    }
    #[inline]
    pub fn write(&mut self, off: u32, n: u32, v: &V) {
        match v {
            V::C(_, k) => {
                self.clear_sym(off, n);
                let b = k.to_le_bytes();
                if n <= 8 {
                    self.data[off as usize..(off + n) as usize].copy_from_slice(&b[..n as usize]);
                } else {
                    let mut x = [0u8; 16];
                    x[..8].copy_from_slice(&b);
                    self.data[off as usize..(off + n) as usize].copy_from_slice(&x[..n as usize]);
                }
            }
            V::W(_, k) => {
                self.clear_sym(off, n);
                self.data[off as usize..(off + n) as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]);
            }
            V::S(e) => {
                let v = if e.w as u32 != n * 8 { zext(v, (n * 8) as u8) } else { v.clone() };
                for i in 0..n {
                    self.set_byte(off + i, extract(&v, (8 * i) as u8, 8));
                }
            }
            V::A(_) => panic!("aggregate write"),
        }
    }
}
