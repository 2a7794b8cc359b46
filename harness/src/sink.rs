//! An output that keeps what is written, and fails when it is full.
use core::fmt;
pub struct Sink<const N: usize> { pub b: [u8; N], pub n: usize, pub cap: usize, pub failed: bool }
impl<const N: usize> Sink<N> {
    pub fn new() -> Self { Sink { b: [0; N], n: 0, cap: N, failed: false } }
    pub fn failing_after(cap: usize) -> Self { Sink { b: [0; N], n: 0, cap, failed: false } }
    /// Same content: compared at one arbitrary position.
    pub fn same(&self, o: &Self) -> bool {
        let i = crate::nd::below(N as u8) as usize;
        self.n == o.n && self.b[i] == o.b[i] && self.failed == o.failed
    }
}
impl<const N: usize> fmt::Write for Sink<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if self.n >= self.cap { self.failed = true; return Err(fmt::Error) }
            self.b[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
