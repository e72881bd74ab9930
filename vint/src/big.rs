//! Reference arithmetic: plain little-endian bit strings, no shared code with the library.
#[derive(Clone, Debug, PartialEq)]
pub struct Bits(pub Vec<u64>); // little-endian limbs, no fixed size
impl Bits {
    pub fn zero() -> Self { Bits(vec![]) }
    pub fn from(x: u128) -> Self { let mut b = Bits(vec![x as u64, (x >> 64) as u64]); b.trim(); b }
    fn trim(&mut self) { while self.0.last() == Some(&0) { self.0.pop(); } }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn len(&self) -> i64 { match self.0.last() { None => 0, Some(t) => self.0.len() as i64 * 64 - t.leading_zeros() as i64 } }
    pub fn bit(&self, i: i64) -> bool { if i < 0 { return false } let i = i as usize; self.0.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1) }
    /// any bit strictly below i
    pub fn any_below(&self, i: i64) -> bool { if i <= 0 { return false } let w = (i / 64) as usize; self.0.iter().take(w).any(|x| *x != 0) || (i % 64 != 0 && self.0.get(w).is_some_and(|x| x & ((1u64 << (i % 64)) - 1) != 0)) }
    pub fn shl4_add(&mut self, d: u64) { let mut c = d; for w in self.0.iter_mut() { let n = *w >> 60; *w = *w << 4 | c; c = n; } if c != 0 { self.0.push(c) } }
    /// bits i .. i+128 (bits outside are zero), i may be negative
    pub fn window(&self, i: i64) -> u128 { let mut r = 0u128; for k in 0..128 { if self.bit(i + k) { r |= 1u128 << k } } r }
}
