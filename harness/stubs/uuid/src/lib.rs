//! Stand-in for `uuid`: v4 identifiers come from a counter, so each is fresh.
use std::sync::atomic::{AtomicU32, Ordering};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Uuid(u32);
static NEXT: AtomicU32 = AtomicU32::new(1);
impl Uuid { pub fn new_v4() -> Uuid { Uuid(NEXT.fetch_add(1, Ordering::Relaxed)) } }
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut b = [b'0'; 8];
        for i in 0..8 { b[7 - i] = b"0123456789abcdef"[(self.0 >> (4 * i)) as usize & 15]; }
        f.write_str(std::str::from_utf8(&b).unwrap())
    }
}
