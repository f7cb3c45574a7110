//! Memory objects: concrete bytes with an overlay of symbolic cells.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub data: Vec<u8>,
    /// sorted, non-overlapping symbolic cells (offset, length in bytes, expression)
    pub sym: Vec<(u32, u8, E)>,
}

#[derive(Clone)]
pub enum V {
    C(u64),
    S(E),
    X(Rc<X>),
}
pub enum X {
    Wide(u128),
    Agg(Vec<V>),
}

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        Obj { size, kind, data: vec![0; size as usize], sym: vec![] }
    }
    fn first_overlap(&self, off: u32, n: u32) -> Option<usize> {
        // first cell whose end is > off
        let i = self.sym.partition_point(|c| c.0 + c.1 as u32 <= off);
        if i < self.sym.len() && self.sym[i].0 < off + n {
            Some(i)
        } else {
            None
        }
    }
    #[inline]
    pub fn conc(&self, off: u64, n: u64) -> u64 {
        let o = off as usize;
        match n {
            8 => u64::from_le_bytes(self.data[o..o + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(self.data[o..o + 4].try_into().unwrap()) as u64,
            1 => self.data[o] as u64,
            _ => {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&self.data[o..o + n as usize]);
                u64::from_le_bytes(b)
            },
        }
    }
    pub fn byte(&self, off: u32) -> V {
        if let Some(i) = self.first_overlap(off, 1) {
            let (o, n, e) = self.sym[i];
            if n == 1 {
                return norm(e);
            }
            return norm(cx().extract(e, (off - o) * 8, 8));
        }
        V::C(self.data[off as usize] as u64)
    }
    /// load n (<= 8) bytes
    #[inline]
    pub fn load(&self, off: u64, n: u64) -> V {
        if self.sym.is_empty() {
            return V::C(self.conc(off, n));
        }
        self.load_slow(off as u32, n as u32)
    }
    fn load_slow(&self, off: u32, n: u32) -> V {
        let Some(i) = self.first_overlap(off, n) else {
            return V::C(self.conc(off as u64, n as u64));
        };
        let (o, l, e) = self.sym[i];
        if o == off && l as u32 == n {
            return norm(e);
        }
        if o <= off && o + l as u32 >= off + n {
            return norm(cx().extract(e, (off - o) * 8, n * 8));
        }
        let mut r: Option<E> = None;
        for k in 0..n {
            let b = match self.byte(off + k) {
                V::C(x) => cx().k(x, 8),
                V::S(e) => e,
                _ => unreachable!(),
            };
            r = Some(match r {
                None => b,
                Some(p) => cx().concat(b, p),
            });
        }
        norm(r.unwrap())
    }
    fn clear(&mut self, off: u32, n: u32) {
        while let Some(i) = self.first_overlap(off, n) {
            let (o, l, e) = self.sym[i];
            self.sym.remove(i);
            if o >= off && o + l as u32 <= off + n {
                continue;
            }
            // keep the bytes outside [off, off+n)
            let mut j = i;
            for k in 0..l as u32 {
                let p = o + k;
                if p >= off && p < off + n {
                    continue;
                }
                let x = cx().extract(e, k * 8, 8);
                match norm(x) {
                    V::C(v) => self.data[p as usize] = v as u8,
                    _ => {
                        self.sym.insert(j, (p, 1, x));
                        j += 1;
                    },
                }
            }
        }
    }
    #[inline]
    pub fn store_c(&mut self, off: u64, n: u64, v: u64) {
        if !self.sym.is_empty() {
            self.clear(off as u32, n as u32);
        }
        let o = off as usize;
        match n {
            8 => self.data[o..o + 8].copy_from_slice(&v.to_le_bytes()),
            _ => self.data[o..o + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]),
        }
    }
    pub fn store_e(&mut self, off: u64, n: u64, e: E) {
        if let Some(k) = cx().is_const(e) {
            return self.store_c(off, n, k);
        }
        // a cell holds full bytes
        let w = cx().w(e);
        let e = if (w as u64) < n * 8 { cx().zext(e, n as u32 * 8) } else { e };
        self.clear(off as u32, n as u32);
        let i = self.sym.partition_point(|c| c.0 < off as u32);
        self.sym.insert(i, (off as u32, n as u8, e));
    }
    pub fn copy_out(&self, off: u64, n: u64) -> (Vec<u8>, Vec<(u32, u8, E)>) {
        let d = self.data[off as usize..(off + n) as usize].to_vec();
        let mut s = vec![];
        if !self.sym.is_empty() {
            let (a, b) = (off as u32, (off + n) as u32);
            let mut i = self.sym.partition_point(|c| c.0 + c.1 as u32 <= a);
            while i < self.sym.len() && self.sym[i].0 < b {
                let (o, l, e) = self.sym[i];
                if o >= a && o + l as u32 <= b {
                    s.push((o - a, l, e));
                } else {
                    for k in 0..l as u32 {
                        let p = o + k;
                        if p >= a && p < b {
                            let x = cx().extract(e, k * 8, 8);
                            s.push((p - a, 1, x));
                        }
                    }
                }
                i += 1;
            }
        }
        (d, s)
    }
    pub fn copy_in(&mut self, off: u64, d: &[u8], s: &[(u32, u8, E)]) {
        if !self.sym.is_empty() {
            self.clear(off as u32, d.len() as u32);
        }
        self.data[off as usize..off as usize + d.len()].copy_from_slice(d);
        for (o, l, e) in s {
            self.store_e(off + *o as u64, *l as u64, *e);
        }
    }
}

/// symbolic value, or the constant it denotes
#[inline]
pub fn norm(e: E) -> V {
    match cx().is_const(e) {
        Some(k) => V::C(k),
        None => V::S(e),
    }
}
