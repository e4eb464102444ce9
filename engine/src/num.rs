//! Numeric instructions on concrete values and on terms.
use crate::term::*;

pub fn concrete(o: u16, a: u64, b: u64) -> Result<u64, &'static str> {
    let (x, y) = (a as u32, b as u32);
    let f = |v: u64| f32::from_bits(v as u32);
    let d = f64::from_bits;
    let fo = |v: f32| v.to_bits() as u64;
    let q = |v: f64| v.to_bits();
    Ok(match o {
        0x45 => (x == 0) as u64, 0x46 => (x == y) as u64, 0x47 => (x != y) as u64,
        0x48 => ((x as i32) < y as i32) as u64, 0x49 => (x < y) as u64,
        0x4A => ((x as i32) > y as i32) as u64, 0x4B => (x > y) as u64,
        0x4C => ((x as i32) <= y as i32) as u64, 0x4D => (x <= y) as u64,
        0x4E => ((x as i32) >= y as i32) as u64, 0x4F => (x >= y) as u64,
        0x50 => (a == 0) as u64, 0x51 => (a == b) as u64, 0x52 => (a != b) as u64,
        0x53 => ((a as i64) < b as i64) as u64, 0x54 => (a < b) as u64,
        0x55 => ((a as i64) > b as i64) as u64, 0x56 => (a > b) as u64,
        0x57 => ((a as i64) <= b as i64) as u64, 0x58 => (a <= b) as u64,
        0x59 => ((a as i64) >= b as i64) as u64, 0x5A => (a >= b) as u64,
        0x5B => (f(a) == f(b)) as u64, 0x5C => (f(a) != f(b)) as u64, 0x5D => (f(a) < f(b)) as u64,
        0x5E => (f(a) > f(b)) as u64, 0x5F => (f(a) <= f(b)) as u64, 0x60 => (f(a) >= f(b)) as u64,
        0x61 => (d(a) == d(b)) as u64, 0x62 => (d(a) != d(b)) as u64, 0x63 => (d(a) < d(b)) as u64,
        0x64 => (d(a) > d(b)) as u64, 0x65 => (d(a) <= d(b)) as u64, 0x66 => (d(a) >= d(b)) as u64,
        0x67 => x.leading_zeros() as u64, 0x68 => x.trailing_zeros() as u64, 0x69 => x.count_ones() as u64,
        0x6A => x.wrapping_add(y) as u64, 0x6B => x.wrapping_sub(y) as u64, 0x6C => x.wrapping_mul(y) as u64,
        0x6D => { if y == 0 { return Err("division by zero"); } if x == 0x8000_0000 && y == !0 { return Err("overflow"); } ((x as i32) / (y as i32)) as u32 as u64 }
        0x6E => { if y == 0 { return Err("division by zero"); } (x / y) as u64 }
        0x6F => { if y == 0 { return Err("division by zero"); } (x as i32).wrapping_rem(y as i32) as u32 as u64 }
        0x70 => { if y == 0 { return Err("division by zero"); } (x % y) as u64 }
        0x71 => (x & y) as u64, 0x72 => (x | y) as u64, 0x73 => (x ^ y) as u64,
        0x74 => x.wrapping_shl(y) as u64, 0x75 => (x as i32).wrapping_shr(y) as u32 as u64, 0x76 => x.wrapping_shr(y) as u64,
        0x77 => x.rotate_left(y & 31) as u64, 0x78 => x.rotate_right(y & 31) as u64,
        0x79 => a.leading_zeros() as u64, 0x7A => a.trailing_zeros() as u64, 0x7B => a.count_ones() as u64,
        0x7C => a.wrapping_add(b), 0x7D => a.wrapping_sub(b), 0x7E => a.wrapping_mul(b),
        0x7F => { if b == 0 { return Err("division by zero"); } if a == 1 << 63 && b == !0 { return Err("overflow"); } ((a as i64) / (b as i64)) as u64 }
        0x80 => { if b == 0 { return Err("division by zero"); } a / b }
        0x81 => { if b == 0 { return Err("division by zero"); } (a as i64).wrapping_rem(b as i64) as u64 }
        0x82 => { if b == 0 { return Err("division by zero"); } a % b }
        0x83 => a & b, 0x84 => a | b, 0x85 => a ^ b,
        0x86 => a.wrapping_shl(b as u32), 0x87 => (a as i64).wrapping_shr(b as u32) as u64, 0x88 => a.wrapping_shr(b as u32),
        0x89 => a.rotate_left((b & 63) as u32), 0x8A => a.rotate_right((b & 63) as u32),
        0x8B => fo(f(a).abs()), 0x8C => fo(-f(a)), 0x8D => fo(f(a).ceil()), 0x8E => fo(f(a).floor()), 0x8F => fo(f(a).trunc()), 0x90 => fo(f(a).round_ties_even()), 0x91 => fo(f(a).sqrt()),
        0x92 => fo(f(a) + f(b)), 0x93 => fo(f(a) - f(b)), 0x94 => fo(f(a) * f(b)), 0x95 => fo(f(a) / f(b)), 0x96 => fo(f(a).min(f(b))), 0x97 => fo(f(a).max(f(b))), 0x98 => fo(f(a).copysign(f(b))),
        0x99 => q(d(a).abs()), 0x9A => q(-d(a)), 0x9B => q(d(a).ceil()), 0x9C => q(d(a).floor()), 0x9D => q(d(a).trunc()), 0x9E => q(d(a).round_ties_even()), 0x9F => q(d(a).sqrt()),
        0xA0 => q(d(a) + d(b)), 0xA1 => q(d(a) - d(b)), 0xA2 => q(d(a) * d(b)), 0xA3 => q(d(a) / d(b)), 0xA4 => q(d(a).min(d(b))), 0xA5 => q(d(a).max(d(b))), 0xA6 => q(d(a).copysign(d(b))),
        0xA7 => a as u32 as u64,
        0xA8 => f(a) as i32 as u32 as u64, 0xA9 => f(a) as u32 as u64, 0xAA => d(a) as i32 as u32 as u64, 0xAB => d(a) as u32 as u64,
        0xAC => x as i32 as i64 as u64, 0xAD => x as u64,
        0xAE => f(a) as i64 as u64, 0xAF => f(a) as u64, 0xB0 => d(a) as i64 as u64, 0xB1 => d(a) as u64,
        0xB2 => fo(x as i32 as f32), 0xB3 => fo(x as f32), 0xB4 => fo(a as i64 as f32), 0xB5 => fo(a as f32), 0xB6 => fo(d(a) as f32),
        0xB7 => q(x as i32 as f64), 0xB8 => q(x as f64), 0xB9 => q(a as i64 as f64), 0xBA => q(a as f64), 0xBB => q(f(a) as f64),
        0xBC | 0xBE => x as u64, 0xBD | 0xBF => a,
        0xC0 => x as i8 as i32 as u32 as u64, 0xC1 => x as i16 as i32 as u32 as u64,
        0xC2 => a as i8 as i64 as u64, 0xC3 => a as i16 as i64 as u64, 0xC4 => a as i32 as i64 as u64,
        0x300 => f(a) as i32 as u32 as u64, 0x301 => f(a) as u32 as u64, 0x302 => d(a) as i32 as u32 as u64, 0x303 => d(a) as u32 as u64,
        0x304 => f(a) as i64 as u64, 0x305 => f(a) as u64, 0x306 => d(a) as i64 as u64, 0x307 => d(a) as u64,
        _ => return Err("numeric opcode"),
    })
}

/// None: the instruction has no term encoding here (floats, symbolic rotate amounts); the
/// caller splits on the operand's values instead.
pub fn symbolic(o: u16, a: &V, b: &V) -> Option<V> {
    let z = |v: V| Some(zext(&v, 1, 32));
    let cmp = |k: u16, w: u8| -> Option<V> {
        z(match k {
            0 => bin(B::Eq, a, b, w), 1 => not(&bin(B::Eq, a, b, w)),
            2 => bin(B::Slt, a, b, w), 3 => bin(B::Ult, a, b, w),
            4 => bin(B::Slt, b, a, w), 5 => bin(B::Ult, b, a, w),
            6 => not(&bin(B::Slt, b, a, w)), 7 => not(&bin(B::Ult, b, a, w)),
            8 => not(&bin(B::Slt, a, b, w)), _ => not(&bin(B::Ult, a, b, w)),
        })
    };
    let ar = |k: u16, w: u8| -> Option<V> {
        let sh = |b: &V| bin(B::And, b, &V::C(w as u64 - 1), w);
        Some(match k {
            0 => bin(B::Add, a, b, w), 1 => bin(B::Sub, a, b, w), 2 => bin(B::Mul, a, b, w),
            3 => bin(B::SDiv, a, b, w), 4 => bin(B::UDiv, a, b, w), 5 => bin(B::SRem, a, b, w), 6 => bin(B::URem, a, b, w),
            7 => bin(B::And, a, b, w), 8 => bin(B::Or, a, b, w), 9 => bin(B::Xor, a, b, w),
            10 => bin(B::Shl, a, &sh(b), w), 11 => bin(B::AShr, a, &sh(b), w), 12 => bin(B::LShr, a, &sh(b), w),
            _ => {
                let k2 = b.c()? % w as u64;
                if k2 == 0 { return Some(a.clone()); }
                let (l, r) = if k == 13 { (k2, w as u64 - k2) } else { (w as u64 - k2, k2) };
                bin(B::Or, &bin(B::Shl, a, &V::C(l), w), &bin(B::LShr, a, &V::C(r), w), w)
            }
        })
    };
    let bits = |k: u16, w: u8| -> V {
        let bit = |i: u8| extract(a, w, i, 1);
        match k {
            0 => { let mut v = V::C(w as u64); for i in 0..w { v = ite(&bit(i), &V::C((w - 1 - i) as u64), &v, w); } v }
            1 => { let mut v = V::C(w as u64); for i in (0..w).rev() { v = ite(&bit(i), &V::C(i as u64), &v, w); } v }
            _ => { let mut v = V::C(0); for i in 0..w { v = bin(B::Add, &v, &zext(&bit(i), 1, w), w); } v }
        }
    };
    match o {
        0x45 => z(bin(B::Eq, a, &V::C(0), 32)),
        0x46..=0x4F => cmp(o - 0x46, 32),
        0x50 => z(bin(B::Eq, a, &V::C(0), 64)),
        0x51..=0x5A => cmp(o - 0x51, 64),
        0x67..=0x69 => Some(bits(o - 0x67, 32)),
        0x6A..=0x78 => ar(o - 0x6A, 32),
        0x79..=0x7B => Some(bits(o - 0x79, 64)),
        0x7C..=0x8A => ar(o - 0x7C, 64),
        0xA7 => Some(extract(a, 64, 0, 32)),
        0xAC => Some(sext(a, 32, 64)),
        0xAD => Some(zext(a, 32, 64)),
        0xC0 => Some(sext(&extract(a, 32, 0, 8), 8, 32)),
        0xC1 => Some(sext(&extract(a, 32, 0, 16), 16, 32)),
        0xC2 => Some(sext(&extract(a, 64, 0, 8), 8, 64)),
        0xC3 => Some(sext(&extract(a, 64, 0, 16), 16, 64)),
        0xC4 => Some(sext(&extract(a, 64, 0, 32), 32, 64)),
        _ => None,
    }
}
