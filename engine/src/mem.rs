//! Copy-on-write paged memory with a symbolic byte overlay.
use crate::term::*;
use std::collections::HashMap;
use std::sync::Arc;

pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;

#[derive(Clone)]
pub struct SymPg { pub bits: [u64; PS / 64], pub m: HashMap<u16, (T, u8)> }
#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<SymPg>> }
#[derive(Clone)]
pub struct Mem { pub pages: Vec<Option<Arc<Page>>>, pub size: u64 }

impl Page {
    fn sym(&self, o: usize) -> bool { match &self.s { Some(s) => s.bits[o >> 6] >> (o & 63) & 1 == 1, None => false } }
}

impl Mem {
    pub fn new(size: u64) -> Mem { Mem { pages: vec![None; (size >> PB) as usize], size } }
    pub fn grow(&mut self, bytes: u64) { self.size += bytes; self.pages.resize((self.size >> PB) as usize, None); }
    #[inline]
    fn pg_mut(&mut self, p: usize) -> &mut Page {
        let e = &mut self.pages[p];
        if e.is_none() { *e = Some(Arc::new(Page { d: [0; PS], s: None })); }
        Arc::make_mut(e.as_mut().unwrap())
    }
    pub fn ok(&self, a: u64, n: u64) -> bool { a.checked_add(n).map_or(false, |e| e <= self.size) }

    /// concrete fast path
    #[inline]
    pub fn load_c(&self, a: u64, n: usize) -> Option<u64> {
        let o = a as usize & (PS - 1);
        if o + n > PS { return None; }
        match &self.pages[(a >> PB) as usize] {
            None => Some(0),
            Some(p) => {
                if p.s.is_some() { return None; }
                let mut v = [0u8; 8];
                v[..n].copy_from_slice(&p.d[o..o + n]);
                Some(u64::from_le_bytes(v))
            }
        }
    }
    pub fn byte(&self, a: u64) -> V {
        let o = a as usize & (PS - 1);
        match &self.pages[(a >> PB) as usize] {
            None => V::C(0),
            Some(p) => if p.sym(o) {
                let (t, k) = &p.s.as_ref().unwrap().m[&(o as u16)];
                extract(&V::S(t.clone()), t.w, k * 8, 8)
            } else { V::C(p.d[o] as u64) }
        }
    }
    fn raw(&self, a: u64) -> Option<(T, u8)> {
        let o = a as usize & (PS - 1);
        match &self.pages[(a >> PB) as usize] {
            None => None,
            Some(p) => if p.sym(o) { Some(p.s.as_ref().unwrap().m[&(o as u16)].clone()) } else { None }
        }
    }
    pub fn load(&self, a: u64, n: usize) -> V {
        if let Some(v) = self.load_c(a, n) { return V::C(v); }
        if let Some((t, 0)) = self.raw(a) {
            if t.w as usize == 8 * n {
                let mut all = true;
                for i in 1..n {
                    match self.raw(a + i as u64) { Some((u, k)) if k as usize == i && Arc::ptr_eq(&t, &u) => {} _ => { all = false; break; } }
                }
                if all { return V::S(t); }
            }
        }
        let mut v = self.byte(a + n as u64 - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte(a + i as u64);
            v = concat(&v, 8 * (n - 1 - i) as u8, &b, 8);
        }
        v
    }
    fn set_c(&mut self, a: u64, v: u8) {
        let o = a as usize & (PS - 1);
        let p = self.pg_mut((a >> PB) as usize);
        p.d[o] = v;
        clear(p, o, 1);
    }
    fn set_s(&mut self, a: u64, t: T, k: u8) {
        let o = a as usize & (PS - 1);
        let p = self.pg_mut((a >> PB) as usize);
        let s = p.s.get_or_insert_with(|| Box::new(SymPg { bits: [0; PS / 64], m: HashMap::new() }));
        s.bits[o >> 6] |= 1 << (o & 63);
        s.m.insert(o as u16, (t, k));
    }
    pub fn store(&mut self, a: u64, n: usize, v: &V) {
        match v {
            V::C(c) => {
                let o = a as usize & (PS - 1);
                if o + n <= PS {
                    let p = self.pg_mut((a >> PB) as usize);
                    p.d[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    clear(p, o, n);
                } else {
                    for i in 0..n { self.set_c(a + i as u64, (c >> (8 * i)) as u8); }
                }
            }
            V::S(t) => {
                // constant high parts are kept concrete so that zero-extended bytes stay cheap
                for i in 0..n {
                    match extract(v, t.w, 8 * i as u8, 8) {
                        V::C(c) => self.set_c(a + i as u64, c as u8),
                        V::S(b) => {
                            if n > 1 && b.sz > 2 { self.set_s(a + i as u64, t.clone(), i as u8) } else { self.set_s(a + i as u64, b, 0) }
                        }
                    }
                }
            }
        }
    }
    pub fn set_byte(&mut self, a: u64, v: &V) { self.store(a, 1, v) }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return; }
        // whole range through a temporary keeps overlap semantics right
        let mut tmp = vec![0u8; n as usize];
        let mut syms: Vec<(u64, T, u8)> = vec![];
        let mut i = 0u64;
        while i < n {
            let a = s + i;
            let o = a as usize & (PS - 1);
            let k = (PS - o).min((n - i) as usize);
            if let Some(p) = &self.pages[(a >> PB) as usize] {
                tmp[i as usize..i as usize + k].copy_from_slice(&p.d[o..o + k]);
                if p.s.is_some() {
                    for j in 0..k { if p.sym(o + j) { let (t, b) = p.s.as_ref().unwrap().m[&((o + j) as u16)].clone(); syms.push((i + j as u64, t, b)); } }
                }
            }
            i += k as u64;
        }
        self.write(d, &tmp);
        for (i, t, b) in syms { self.set_s(d + i, t, b); }
    }
    pub fn write(&mut self, d: u64, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let a = d + i as u64;
            let o = a as usize & (PS - 1);
            let k = (PS - o).min(b.len() - i);
            let p = self.pg_mut((a >> PB) as usize);
            p.d[o..o + k].copy_from_slice(&b[i..i + k]);
            clear(p, o, k);
            i += k;
        }
    }
    pub fn fill(&mut self, d: u64, v: &V, n: u64) {
        match v {
            V::C(c) => { let t = vec![*c as u8; n as usize]; self.write(d, &t); }
            V::S(_) => for i in 0..n { self.set_byte(d + i, v); }
        }
    }
}
fn clear(p: &mut Page, o: usize, n: usize) {
    if let Some(s) = &mut p.s {
        for j in o..o + n {
            if s.bits[j >> 6] >> (j & 63) & 1 == 1 { s.bits[j >> 6] &= !(1 << (j & 63)); s.m.remove(&(j as u16)); }
        }
        if s.m.is_empty() { p.s = None; }
    }
}
