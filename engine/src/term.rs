//! Bit-vector terms. A term is an immutable DAG node with a 128-bit structural
//! hash and the set of symbolic variables it mentions. Concrete values never
//! become terms; `V::C` carries them.
use std::sync::Arc;

pub type T = Arc<Term>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Concat,
}

pub enum Op {
    Var(u32),
    Const(u64),
    Bin(B, T, T),
    Not(T),              // width 1
    ZExt(T),
    SExt(T),
    Extract(T, u8),      // low bit; width from node
    Ite(T, T, T),
}

pub const MASKW: usize = 4;
pub type Mask = [u64; MASKW];

pub struct Term {
    pub op: Op,
    pub w: u8,
    /// tree size (saturating), to decide when evaluation needs a memo table
    pub sz: u32,
    pub h: u128,
    pub m: Mask,
}

#[derive(Clone)]
pub enum V {
    C(u64),
    S(T),
}

fn mix(a: u128, b: u128) -> u128 {
    const K1: u128 = 0x9E3779B97F4A7C15F39CC0605CEDC835;
    const K2: u128 = 0xC2B2AE3D27D4EB4F165667B19E3779F9;
    let mut x = a.wrapping_mul(K1) ^ b.rotate_left(61).wrapping_mul(K2);
    x ^= x >> 59;
    x = x.wrapping_mul(K2);
    x ^= x >> 67;
    x.wrapping_add(K1)
}
pub fn hmix(a: u128, b: u128) -> u128 { mix(a, b) }

fn mor(a: &Mask, b: &Mask) -> Mask {
    let mut r = *a;
    for i in 0..MASKW { r[i] |= b[i]; }
    r
}
pub fn mand(a: &Mask, b: &Mask) -> bool {
    for i in 0..MASKW { if a[i] & b[i] != 0 { return true; } }
    false
}
pub fn mor_in(a: &mut Mask, b: &Mask) -> bool {
    let mut ch = false;
    for i in 0..MASKW { let n = a[i] | b[i]; if n != a[i] { ch = true; a[i] = n; } }
    ch
}

pub fn wmask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

fn node(op: Op, w: u8) -> T {
    let (h, m) = match &op {
        Op::Var(i) => {
            let mut m = [0; MASKW];
            let k = (*i as usize) % (MASKW * 64);
            m[k / 64] = 1 << (k % 64);
            (mix(1, *i as u128), m)
        }
        Op::Const(c) => (mix(2, *c as u128), [0; MASKW]),
        Op::Bin(b, x, y) => (mix(mix(100 + *b as u128, x.h), y.h), mor(&x.m, &y.m)),
        Op::Not(x) => (mix(3, x.h), x.m),
        Op::ZExt(x) => (mix(4, x.h), x.m),
        Op::SExt(x) => (mix(5, x.h), x.m),
        Op::Extract(x, lo) => (mix(mix(6, x.h), *lo as u128), x.m),
        Op::Ite(c, x, y) => (mix(mix(mix(7, c.h), x.h), y.h), mor(&mor(&c.m, &x.m), &y.m)),
    };
    let sz = match &op {
        Op::Var(_) | Op::Const(_) => 1,
        Op::Bin(_, x, y) => x.sz.saturating_add(y.sz).saturating_add(1),
        Op::Not(x) | Op::ZExt(x) | Op::SExt(x) | Op::Extract(x, _) => x.sz.saturating_add(1),
        Op::Ite(c, x, y) => c.sz.saturating_add(x.sz).saturating_add(y.sz).saturating_add(1),
    };
    Arc::new(Term { op, w, sz, h: mix(h, 1000 + w as u128), m })
}

pub fn var(id: u32, w: u8) -> T { node(Op::Var(id), w) }
pub fn cst(c: u64, w: u8) -> T { node(Op::Const(c & wmask(w)), w) }

pub fn same(a: &T, b: &T) -> bool { Arc::ptr_eq(a, b) || a.h == b.h }

impl V {
    pub fn t(&self, w: u8) -> T {
        match self {
            V::C(c) => cst(*c, w),
            V::S(t) => { debug_assert_eq!(t.w, w); t.clone() }
        }
    }
    pub fn c(&self) -> Option<u64> { if let V::C(c) = self { Some(*c) } else { None } }
}

pub fn fold(b: B, x: u64, y: u64, w: u8) -> u64 {
    let m = wmask(w);
    (match b {
        B::Add => x.wrapping_add(y),
        B::Sub => x.wrapping_sub(y),
        B::Mul => x.wrapping_mul(y),
        B::UDiv => if y == 0 { m } else { x / y },
        B::URem => if y == 0 { x } else { x % y },
        B::SDiv => { let (a, c) = (sx(x, w), sx(y, w)); if c == 0 { if a >= 0 { m } else { 1 } } else { a.wrapping_div(c) as u64 } }
        B::SRem => { let (a, c) = (sx(x, w), sx(y, w)); if c == 0 { x } else { a.wrapping_rem(c) as u64 } }
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => if y >= w as u64 { 0 } else { x << y },
        B::LShr => if y >= w as u64 { 0 } else { x >> y },
        B::AShr => { let s = if y >= w as u64 { w as u64 - 1 } else { y }; (sx(x, w) >> s) as u64 }
        B::Eq => (x == y) as u64,
        B::Ult => (x < y) as u64,
        B::Slt => (sx(x, w) < sx(y, w)) as u64,
        B::Concat => unreachable!(),
    }) & (if matches!(b, B::Eq | B::Ult | B::Slt) { 1 } else { m })
}

/// number of high bits known to be zero
fn known_width(t: &T) -> u8 {
    match &t.op {
        Op::ZExt(x) => known_width(x).min(x.w),
        Op::Const(c) => 64 - c.leading_zeros() as u8,
        Op::Bin(B::And, x, y) => known_width(x).min(known_width(y)),
        Op::Bin(B::Or, x, y) | Op::Bin(B::Xor, x, y) => known_width(x).max(known_width(y)),
        Op::Bin(B::LShr, x, y) => if let Op::Const(s) = y.op { known_width(x).saturating_sub(s.min(255) as u8) } else { known_width(x) },
        Op::Bin(B::Shl, x, y) => if let Op::Const(s) = y.op { (known_width(x) as u64 + s).min(t.w as u64) as u8 } else { t.w },
        Op::Ite(_, x, y) => known_width(x).max(known_width(y)),
        Op::Bin(B::Concat, x, y) => { let k = known_width(x); if k == 0 { known_width(y) } else { k + y.w } }
        _ => t.w,
    }
}

pub fn not(a: &V) -> V {
    match a {
        V::C(c) => V::C((c & 1) ^ 1),
        V::S(t) => match &t.op {
            Op::Not(x) => V::S(x.clone()),
            _ => V::S(node(Op::Not(t.clone()), 1)),
        },
    }
}

pub fn zext(a: &V, from: u8, to: u8) -> V {
    match a {
        V::C(c) => V::C(c & wmask(from)),
        V::S(t) => {
            if from == to { return a.clone(); }
            if let Op::ZExt(x) = &t.op { return V::S(node(Op::ZExt(x.clone()), to)); }
            V::S(node(Op::ZExt(t.clone()), to))
        }
    }
}
pub fn sext(a: &V, from: u8, to: u8) -> V {
    match a {
        V::C(c) => V::C((sx(*c, from) as u64) & wmask(to)),
        V::S(t) => {
            if from == to { return a.clone(); }
            if known_width(t) < from { return zext(a, from, to); }
            V::S(node(Op::SExt(t.clone()), to))
        }
    }
}
pub fn extract(a: &V, w: u8, lo: u8, len: u8) -> V {
    match a {
        V::C(c) => V::C((c >> lo) & wmask(len)),
        V::S(t) => {
            if lo == 0 && len == w { return a.clone(); }
            match &t.op {
                Op::ZExt(x) => {
                    if lo >= x.w { return V::C(0); }
                    if lo + len <= x.w { return extract(&V::S(x.clone()), x.w, lo, len); }
                    if lo == 0 { return zext(&V::S(x.clone()), x.w, len); }
                    return zext(&extract(&V::S(x.clone()), x.w, lo, x.w - lo), x.w - lo, len);
                }
                Op::SExt(x) => {
                    if lo + len <= x.w { return extract(&V::S(x.clone()), x.w, lo, len); }
                    if lo == 0 { return sext(&V::S(x.clone()), x.w, len); }
                }
                Op::Extract(x, lo2) => return extract(&V::S(x.clone()), x.w, lo + lo2, len),
                Op::Bin(B::Concat, hi, l) => {
                    if lo + len <= l.w { return extract(&V::S(l.clone()), l.w, lo, len); }
                    if lo >= l.w { return extract(&V::S(hi.clone()), hi.w, lo - l.w, len); }
                }
                Op::Const(c) => return V::C((c >> lo) & wmask(len)),
                Op::Bin(b @ (B::And | B::Or | B::Xor), x, y) => {
                    return bin(*b, &extract(&V::S(x.clone()), w, lo, len), &extract(&V::S(y.clone()), w, lo, len), len);
                }
                Op::Bin(b @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                    return bin(*b, &extract(&V::S(x.clone()), w, 0, len), &extract(&V::S(y.clone()), w, 0, len), len);
                }
                Op::Bin(B::LShr, x, y) => if let Op::Const(s) = y.op {
                    if s + lo as u64 + len as u64 <= w as u64 { return extract(&V::S(x.clone()), w, lo + s as u8, len); }
                },
                Op::Bin(B::Shl, x, y) => if let Op::Const(s) = y.op {
                    if (lo as u64) >= s { return extract(&V::S(x.clone()), w, lo - s as u8, len); }
                    if s >= lo as u64 + len as u64 { return V::C(0); }
                },
                Op::Ite(c, x, y) => {
                    return ite(&V::S(c.clone()), &extract(&V::S(x.clone()), w, lo, len), &extract(&V::S(y.clone()), w, lo, len), len);
                }
                _ => {}
            }
            V::S(node(Op::Extract(t.clone(), lo), len))
        }
    }
}
fn lift(t: &T) -> V { if let Op::Const(c) = t.op { V::C(c) } else { V::S(t.clone()) } }

pub fn concat(hi: &V, wh: u8, lo: &V, wl: u8) -> V {
    match (hi, lo) {
        (V::C(a), V::C(b)) => V::C((a << wl) | (b & wmask(wl))),
        (V::C(0), _) => zext(lo, wl, wh + wl),
        _ => {
            // adjacent extracts of the same term
            if let (V::S(h), V::S(l)) = (hi, lo) {
                if let (Op::Extract(x, a), Op::Extract(y, b)) = (&h.op, &l.op) {
                    if same(x, y) && *a == b + wl { return extract(&V::S(x.clone()), x.w, *b, wh + wl); }
                }
            }
            V::S(node(Op::Bin(B::Concat, hi.t(wh), lo.t(wl)), wh + wl))
        }
    }
}
pub fn ite(c: &V, x: &V, y: &V, w: u8) -> V {
    match c {
        V::C(k) => if k & 1 == 1 { x.clone() } else { y.clone() },
        V::S(ct) => {
            match (x, y) {
                (V::C(a), V::C(b)) if a == b => return V::C(*a),
                (V::S(a), V::S(b)) if same(a, b) => return x.clone(),
                (V::C(a), V::C(b)) if w == 1 => return if *a == 1 && *b == 0 { c.clone() } else { not(c) },
                (V::C(1), V::C(0)) => return zext(c, 1, w),
                (V::C(0), V::C(1)) => return zext(&not(c), 1, w),
                _ => {}
            }
            if let Op::Not(n) = &ct.op { return ite(&V::S(n.clone()), y, x, w); }
            V::S(node(Op::Ite(ct.clone(), x.t(w), y.t(w)), w))
        }
    }
}

/// w = operand width. Comparisons give width 1.
pub fn bin(b: B, x: &V, y: &V, w: u8) -> V {
    if let (V::C(a), V::C(c)) = (x, y) { return V::C(fold(b, *a, *c, w)); }
    if let (V::S(a), V::S(c)) = (x, y) {
        if same(a, c) {
            match b {
                B::Eq => return V::C(1),
                B::Ult | B::Slt | B::Sub | B::Xor => return V::C(0),
                B::And | B::Or => return x.clone(),
                _ => {}
            }
        }
    }
    // normalise constants to the right for commutative operators
    if let (V::C(_), V::S(_)) = (x, y) {
        if matches!(b, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) { return bin(b, y, x, w); }
    }
    let m = wmask(w);
    if let (V::S(t), V::C(c)) = (x, y) {
        let c = *c & m;
        match b {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if c == 0 => return x.clone(),
            B::Mul if c == 0 => return V::C(0),
            B::Mul if c == 1 => return x.clone(),
            B::Mul if c.is_power_of_two() => return bin(B::Shl, x, &V::C(c.trailing_zeros() as u64), w),
            B::UDiv if c == 1 => return x.clone(),
            B::UDiv if c.is_power_of_two() => return bin(B::LShr, x, &V::C(c.trailing_zeros() as u64), w),
            B::URem if c.is_power_of_two() => return bin(B::And, x, &V::C(c - 1), w),
            B::And if c == 0 => return V::C(0),
            B::And if c == m => return x.clone(),
            B::Or if c == m => return V::C(m),
            B::Xor if c == 1 && w == 1 => return not(x),
            B::Sub => return bin(B::Add, x, &V::C(c.wrapping_neg() & m), w),
            B::Shl | B::LShr if c >= w as u64 => return V::C(0),
            B::Ult if c == 0 => return V::C(0),
            _ => {}
        }
        let kw = known_width(t);
        match b {
            B::And => {
                if c & wmask(kw) == wmask(kw) { return x.clone(); }
                if c & wmask(kw) == 0 { return V::C(0); }
                // low mask -> extract
                if c.wrapping_add(1).is_power_of_two() {
                    let l = c.trailing_ones() as u8;
                    return zext(&extract(x, w, 0, l), l, w);
                }
                if let Op::ZExt(z) = &t.op { return zext(&bin(B::And, &V::S(z.clone()), &V::C(c & wmask(z.w)), z.w), z.w, w); }
                if let Op::Bin(B::And, p, q) = &t.op { if let Op::Const(k) = q.op { return bin(B::And, &V::S(p.clone()), &V::C(k & c), w); } }
            }
            B::LShr if c >= kw as u64 => return V::C(0),
            B::LShr => if let Op::ZExt(z) = &t.op { return zext(&bin(B::LShr, &V::S(z.clone()), &V::C(c), z.w), z.w, w); },
            B::Add => {
                if let Op::Bin(B::Add, p, q) = &t.op {
                    if let Op::Const(k) = q.op { return bin(B::Add, &V::S(p.clone()), &V::C(k.wrapping_add(c) & m), w); }
                }
            }
            B::Eq => {
                if w == 1 { return if c == 1 { x.clone() } else { not(x) }; }
                if c > wmask(kw) { return V::C(0); }
                match &t.op {
                    Op::ZExt(z) => return bin(B::Eq, &V::S(z.clone()), &V::C(c), z.w),
                    Op::Bin(B::Xor, p, q) => {
                        if let Op::Const(k) = q.op { return bin(B::Eq, &V::S(p.clone()), &V::C(k ^ c), w); }
                        if c == 0 { return bin(B::Eq, &lift(p), &lift(q), w); }
                    }
                    Op::Bin(B::Add, p, q) => if let Op::Const(k) = q.op {
                        return bin(B::Eq, &V::S(p.clone()), &V::C(c.wrapping_sub(k) & m), w);
                    },
                    Op::Bin(B::Concat, h, l) => {
                        let a = bin(B::Eq, &lift(h), &V::C(c >> l.w), h.w);
                        if let V::C(0) = a { return a; }
                        let e = bin(B::Eq, &lift(l), &V::C(c & wmask(l.w)), l.w);
                        return and1(&a, &e);
                    }
                    Op::Ite(cc, p, q) => {
                        if let (Op::Const(i), Op::Const(j)) = (&p.op, &q.op) {
                            return ite(&V::S(cc.clone()), &V::C((*i == c) as u64), &V::C((*j == c) as u64), 1);
                        }
                        if let Op::Const(i) = p.op {
                            let r = bin(B::Eq, &V::S(q.clone()), &V::C(c), w);
                            return if i == c { or1(&V::S(cc.clone()), &r) } else { and1(&not(&V::S(cc.clone())), &r) };
                        }
                        if let Op::Const(j) = q.op {
                            let r = bin(B::Eq, &V::S(p.clone()), &V::C(c), w);
                            return if j == c { or1(&not(&V::S(cc.clone())), &r) } else { and1(&V::S(cc.clone()), &r) };
                        }
                    }
                    Op::Bin(B::Shl, p, q) => if let Op::Const(s) = q.op {
                        if known_width(p) as u64 + s <= w as u64 {
                            if c & wmask(s as u8) != 0 { return V::C(0); }
                            return bin(B::Eq, &V::S(p.clone()), &V::C(c >> s), w);
                        }
                    },
                    _ => {}
                }
            }
            B::Ult => {
                if c > wmask(kw) { return V::C(1); }
                if let Op::ZExt(z) = &t.op { return bin(B::Ult, &V::S(z.clone()), &V::C(c), z.w); }
                if c == 1 { return bin(B::Eq, x, &V::C(0), w); }
            }
            B::Slt => {
                if kw < w {
                    if sx(c, w) <= 0 { return V::C(0); }
                    return bin(B::Ult, x, y, w);
                }
            }
            _ => {}
        }
    }
    if let (V::C(c), V::S(t)) = (x, y) {
        let c = *c & m;
        match b {
            B::Ult => {
                let kw = known_width(t);
                if c >= wmask(kw) { return V::C(0); }
                if c == 0 { return not(&bin(B::Eq, y, &V::C(0), w)); }
                if let Op::ZExt(z) = &t.op { return bin(B::Ult, &V::C(c), &V::S(z.clone()), z.w); }
            }
            B::Slt => {
                if known_width(t) < w {
                    if sx(c, w) < 0 { return V::C(1); }
                    return bin(B::Ult, x, y, w);
                }
            }
            B::Shl | B::LShr if c == 0 => return V::C(0),
            _ => {}
        }
    }
    if let (V::S(p), V::S(q)) = (x, y) {
        if matches!(b, B::Eq | B::Ult) {
            if let (Op::ZExt(a), Op::ZExt(c)) = (&p.op, &q.op) {
                if a.w == c.w { return bin(b, &V::S(a.clone()), &V::S(c.clone()), a.w); }
            }
        }
        if b == B::Slt && known_width(p) < w && known_width(q) < w { return bin(B::Ult, x, y, w); }
        if b == B::Eq && p.h > q.h { return V::S(node(Op::Bin(b, q.clone(), p.clone()), 1)); }
        // or of disjoint shifted bytes is left to the solver
    }
    let rw = if matches!(b, B::Eq | B::Ult | B::Slt) { 1 } else { w };
    V::S(node(Op::Bin(b, x.t(w), y.t(w)), rw))
}
pub fn and1(a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(0), _) | (_, V::C(0)) => V::C(0),
        (V::C(_), x) | (x, V::C(_)) => x.clone(),
        _ => bin(B::And, a, b, 1),
    }
}
pub fn or1(a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(1), _) | (_, V::C(1)) => V::C(1),
        (V::C(_), x) | (x, V::C(_)) => x.clone(),
        _ => bin(B::Or, a, b, 1),
    }
}

/// Evaluate under an assignment (missing variables read as 0).
pub fn eval(t: &T, env: &[u64]) -> u64 {
    if t.sz > 3000 {
        let mut memo = std::collections::HashMap::new();
        return eval_m(t, env, &mut memo);
    }
    ev(t, env, &mut |x, e| eval_small(x, e))
}
fn eval_small(t: &T, env: &[u64]) -> u64 { ev(t, env, &mut |x, e| eval_small(x, e)) }
fn eval_m(t: &T, env: &[u64], memo: &mut std::collections::HashMap<u128, u64>) -> u64 {
    if t.sz <= 8 { return eval_small(t, env); }
    if let Some(v) = memo.get(&t.h) { return *v; }
    let v = ev(t, env, &mut |x, e| eval_m(x, e, memo));
    memo.insert(t.h, v);
    v
}
#[inline(always)]
fn ev(t: &T, env: &[u64], f: &mut dyn FnMut(&T, &[u64]) -> u64) -> u64 {
    match &t.op {
        Op::Var(i) => env.get(*i as usize).copied().unwrap_or(0) & wmask(t.w),
        Op::Const(c) => *c,
        Op::Not(x) => f(x, env) ^ 1,
        Op::ZExt(x) => f(x, env),
        Op::SExt(x) => (sx(f(x, env), x.w) as u64) & wmask(t.w),
        Op::Extract(x, lo) => (f(x, env) >> lo) & wmask(t.w),
        Op::Ite(c, x, y) => if f(c, env) == 1 { f(x, env) } else { f(y, env) },
        Op::Bin(B::Concat, x, y) => (f(x, env) << y.w) | f(y, env),
        Op::Bin(b, x, y) => fold(*b, f(x, env), f(y, env), x.w),
    }
}

/// Structural hash with variables numbered by first occurrence.
pub fn shape(t: &T, vars: &mut Vec<u32>) -> u128 {
    let h = match &t.op {
        Op::Var(i) => { let k = vars.iter().position(|x| x == i).unwrap_or_else(|| { vars.push(*i); vars.len() - 1 }); mix(1, k as u128) }
        Op::Const(c) => mix(2, *c as u128),
        Op::Bin(b, x, y) => { let p = shape(x, vars); let q = shape(y, vars); mix(mix(100 + *b as u128, p), q) }
        Op::Not(x) => mix(3, shape(x, vars)),
        Op::ZExt(x) => mix(4, shape(x, vars)),
        Op::SExt(x) => mix(5, shape(x, vars)),
        Op::Extract(x, lo) => mix(mix(6, shape(x, vars)), *lo as u128),
        Op::Ite(c, x, y) => { let p = shape(c, vars); let q = shape(x, vars); let r = shape(y, vars); mix(mix(mix(7, p), q), r) }
    };
    mix(h, 1000 + t.w as u128)
}
