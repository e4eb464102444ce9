//! Stand-in for `sha2`. In the wasm build the digest is the input itself, so that two digests
//! are equal exactly if the inputs are (no collisions); natively it is SHA-256.
use std::fmt;
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self { self.update(data); self }
    fn finalize(self) -> Output;
    fn digest(data: impl AsRef<[u8]>) -> Output { let mut d = Self::new(); d.update(data); d.finalize() }
}
#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Output(Vec<u8>);
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl fmt::LowerHex for Output {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let digit = |n: u8| n + b'0' + (n > 9) as u8 * (b'a' - b'0' - 10);
        let mut s = Vec::with_capacity(self.0.len() * 2);
        for b in &self.0 { s.push(digit(b >> 4)); s.push(digit(b & 15)) }
        f.write_str(unsafe { std::str::from_utf8_unchecked(&s) })
    }
}
impl Digest for Sha256 {
    fn new() -> Self { Sha256(vec![]) }
    fn update(&mut self, data: impl AsRef<[u8]>) { self.0.extend_from_slice(data.as_ref()) }
    #[cfg(target_family = "wasm")]
    fn finalize(self) -> Output { Output(self.0) }
    #[cfg(not(target_family = "wasm"))]
    fn finalize(self) -> Output { Output(real(&self.0).to_vec()) }
}
#[cfg(not(target_family = "wasm"))]
fn real(data: &[u8]) -> [u8; 32] {
    // constants: fractional parts of the roots of the first primes
    let primes: Vec<u32> = (2..312u32).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    let root = |p: u32, cube: bool| -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            let over = if cube { m * m * m > (p as u128) << 96 } else { m * m > (p as u128) << 64 };
            if over { hi = m } else { lo = m }
        }
        lo as u32
    };
    let k: Vec<u32> = primes.iter().map(|p| root(*p, true)).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| root(*p, false)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0) }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    let mut o = [0; 32];
    for i in 0..8 { o[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes()) }
    o
}
