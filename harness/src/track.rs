//! Payloads whose clones and destructor runs are counted.
use crate::nd;
static mut DROPS: [u32; 4] = [0; 4];
static mut CLONES: u32 = 0;
pub fn reset() { unsafe { DROPS = [0; 4]; CLONES = 0; } }
pub fn drops() -> u32 { unsafe { DROPS[0] + DROPS[1] + DROPS[2] + DROPS[3] } }
pub fn drops_of(i: usize) -> u32 { unsafe { DROPS[i] } }
/// No slot was dropped twice (slot 3 is shared by the zero-sized payloads).
pub fn at_most_once() -> bool { unsafe { DROPS[0] <= 1 && DROPS[1] <= 1 && DROPS[2] <= 1 } }
pub fn clones() -> u32 { unsafe { CLONES } }

/// Owning payload: the slot says which value's drop is counted.
#[derive(Debug, PartialEq, PartialOrd)]
pub struct D<const SLOT: u8>(pub u32);
impl<const S: u8> Drop for D<S> { fn drop(&mut self) { unsafe { DROPS[(S & 3) as usize] += 1 } } }
impl<const S: u8> Clone for D<S> { fn clone(&self) -> Self { unsafe { CLONES += 1 } D(self.0) } }

/// Zero-sized owning payload, counted in slot 3.
#[derive(Debug, PartialEq, PartialOrd)]
pub struct Z;
impl Drop for Z { fn drop(&mut self) { unsafe { DROPS[3] += 1 } } }
impl Clone for Z { fn clone(&self) -> Self { unsafe { CLONES += 1 } Z } }
/// Zero-sized, over-aligned owning payload, counted in slot 3.
#[derive(Debug, PartialEq, PartialOrd)]
#[repr(align(32))]
pub struct ZA;
impl Drop for ZA { fn drop(&mut self) { unsafe { DROPS[3] += 1 } } }
impl Clone for ZA { fn clone(&self) -> Self { unsafe { CLONES += 1 } ZA } }

/// The destructor of an enum itself, counted in slot 3.
pub fn enum_dropped() { unsafe { DROPS[3] += 1 } }

/// Counts its clones, and has no destructor.
#[derive(Debug, PartialEq, PartialOrd)]
pub struct N(pub u32);
impl Clone for N { fn clone(&self) -> Self { unsafe { CLONES += 1 } N(self.0) } }
/// Zero-sized and plain.
pub struct Zn;
