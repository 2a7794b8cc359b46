//! Enums of several sizes whose own Clone, comparisons and printing are any functions at all of
//! the values.
use crate::{ck, nd, track};
use core::{cmp::Ordering::{self, *}, fmt::{self, Write}};
use tagged_box::{TaggableContainer, TaggableInner};

pub trait Shape: TaggableInner {
    type C: TaggableContainer<Inner = Self> + From<Self>;
    /// Tells any two values apart
    fn img(&self) -> u64;
    fn of(v: u8, a: u8, b: u32) -> Self;
    fn any() -> Self { Self::of(nd::u8(), nd::u8(), nd::u32()) }
    fn twin(&self) -> Self;
    /// Destructor runs of dropping it
    const OWNED: u32 = 0;
}
/// The answers about two values; asking about anything else is a failure.
pub struct Table {
    pub v: [u64; 2],
    pub eq: [[bool; 2]; 2],
    pub part: [[Option<Ordering>; 2]; 2],
    pub tot: [[Ordering; 2]; 2],
    pub clones: u32,
    pub text: [[u8; 3]; 2],
    /// Pieces written, and whether an error follows
    pub pieces: u8,
    pub fails: bool,
    pub seen: Option<u64>,
}
pub static mut T: Table = Table { v: [0; 2], eq: [[false; 2]; 2], part: [[None; 2]; 2], tot: [[Equal; 2]; 2], clones: 0, text: [[0; 3]; 2], pieces: 0, fails: false, seen: None };
pub fn at(i: u64) -> usize { unsafe {
    ck!(i == T.v[0] || i == T.v[1], "only the stored values are looked at");
    (i != T.v[0]) as usize
} }
fn ord() -> Ordering { match nd::below(3) { 0 => Less, 1 => Equal, _ => Greater } }
/// Two values and any answers about them
pub fn pair<S: Shape>() -> (S, S) { unsafe {
    let (x, y) = (S::any(), S::any());
    T.v = [x.img(), y.img()];
    T.clones = 0;
    let mut i = 0;
    while i < 4 {
        T.eq[i / 2][i % 2] = nd::bool();
        T.part[i / 2][i % 2] = if nd::bool() { Some(ord()) } else { None };
        T.tot[i / 2][i % 2] = ord();
        i += 1;
    }
    (x, y)
} }
/// A value and any way of printing it
pub fn printed<S: Shape>() -> S { unsafe {
    let mut i = 0;
    while i < 6 { let c = nd::u8(); nd::assume(c < 0x80); T.text[i / 3][i % 3] = c; i += 1; }
    T.pieces = nd::below(3);
    T.fails = nd::bool();
    T.seen = None;
    let x = S::any();
    T.v = [x.img(); 2];
    x
} }
pub fn text(i: u64, f: &mut fmt::Formatter<'_>, k: usize) -> fmt::Result { unsafe {
    T.seen = Some(i);
    let t = &T.text[k];
    let mut i = 0;
    while i < T.pieces {
        if i == 0 { f.write_str(core::str::from_utf8_unchecked(&t[..2]))? } else { f.write_char(t[2] as char)? }
        i += 1;
    }
    if T.fails { Err(fmt::Error) } else { Ok(()) }
} }
macro_rules! shapes { ($($m:ident $e:ident { $($def:tt)* } owned $n:literal img |$s:ident| $img:expr; of |$v:ident, $a:ident, $b:ident| $of:expr;)*) => { $(
    mod $m {
        use super::*;
        tagged_box::tagged_box! { pub struct C, pub enum $e { $($def)* } }
        impl Shape for $e {
            type C = C;
            const OWNED: u32 = $n;
            fn img(&self) -> u64 { use $e::*; let $s = self; $img }
            fn of($v: u8, $a: u8, $b: u32) -> Self { use $e::*; $of }
            fn twin(&self) -> Self { let i = self.img(); Self::of((i >> 40) as u8, (i >> 32) as u8, i as u32) }
        }
        impl Clone for $e { fn clone(&self) -> Self { at(self.img()); unsafe { T.clones += 1 } self.twin() } }
        impl PartialEq for $e { fn eq(&self, o: &Self) -> bool { unsafe { T.eq[at(self.img())][at(o.img())] } } }
        impl Eq for $e {}
        impl PartialOrd for $e { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unsafe { T.part[at(self.img())][at(o.img())] } } }
        impl Ord for $e { fn cmp(&self, o: &Self) -> Ordering { unsafe { T.tot[at(self.img())][at(o.img())] } } }
        impl fmt::Debug for $e { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { text(self.img(), f, 0) } }
        impl fmt::Display for $e { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { text(self.img(), f, 1) } }
    }
    pub use $m::$e;
)* } }
/// Variant and fields in one number
const fn im(v: u8, a: u8, b: u32) -> u64 { (v as u64) << 40 | (a as u64) << 32 | b as u64 }
shapes! {
    two Two { A(u8), B(u8, u32), } owned 0
        img |s| match s { A(x) => im(0, *x, 0), B(x, y) => im(1, *x, *y) };
        of |v, a, b| if v & 1 == 0 { A(a) } else { B(a, b) };
    mix Mix { U, S { x: u16, y: u8 }, } owned 0
        img |s| match s { U => im(0, 0, 0), S { x, y } => im(1, *y, *x as u32) };
        of |v, a, b| if v & 1 == 0 { U } else { S { x: b as u16, y: a } };
    // Of size zero
    empty Empty { A(track::Zn), } owned 0
        img |_s| 0; of |_v, _a, _b| A(track::Zn);
    unit Unit { U, } owned 0
        img |_s| 0; of |_v, _a, _b| U;
    gone Gone { S { z: track::Z }, } owned 1
        img |_s| 0; of |_v, _a, _b| S { z: track::Z };
    byte Byte { A(u8), } owned 0
        img |s| match s { A(x) => im(0, *x, 0) }; of |_v, a, _b| A(a);
    own Own { A(track::D<0>), B(track::D<1>, u8), } owned 1
        img |s| match s { A(x) => im(0, 0, x.0), B(x, y) => im(1, *y, x.0) };
        of |v, a, b| if v & 1 == 0 { A(track::D(b)) } else { B(track::D(b), a) };
}
#[macro_export]
macro_rules! shape_types { ($($gen:ident as $md:ident $attrs:tt)*) => { $( pub mod $md { use super::*; use $crate::shape::*;
    #[cfg(not(feature = "lite"))] $crate::grid! { $gen as each $attrs { two: Two, mix: Mix, empty: Empty, unit: Unit, gone: Gone, byte: Byte, own: Own } }
    #[cfg(feature = "lite")] $crate::grid! { $gen as each $attrs { two: Two, mix: Mix, empty: Empty } }
    #[cfg(not(kani))] pub fn list() -> Vec<(&'static str, fn())> { each::LIST.to_vec() }
} )* } }
