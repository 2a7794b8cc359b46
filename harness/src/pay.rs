//! The grid of payload types.
use crate::nd;
use core::{cmp::Ordering, mem::MaybeUninit, num::{NonZeroU8, NonZeroU64}, ptr::NonNull};

/// A payload: any value of it, and an image of the value to compare with.
pub trait Pay: Sized + 'static {
    type Img: Copy + PartialEq;
    fn sym() -> Self;
    fn img(&self) -> Self::Img;
}
macro_rules! prim { ($($t:ident)*) => { $(impl Pay for $t { type Img = $t; fn sym() -> Self { nd::$t() } fn img(&self) -> $t { *self } })* } }
prim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize bool char);
impl Pay for f32 { type Img = u32; fn sym() -> Self { f32::from_bits(nd::u32()) } fn img(&self) -> u32 { self.to_bits() } }
impl Pay for f64 { type Img = u64; fn sym() -> Self { f64::from_bits(nd::u64()) } fn img(&self) -> u64 { self.to_bits() } }
impl Pay for () { type Img = (); fn sym() {} fn img(&self) {} }
impl<T: Pay, const N: usize> Pay for [T; N] {
    type Img = [T::Img; N];
    fn sym() -> Self {
        let mut a: [MaybeUninit<T>; N] = unsafe { MaybeUninit::uninit().assume_init() };
        let mut i = 0;
        while i < N { a[i].write(T::sym()); i += 1; }
        unsafe { core::mem::transmute_copy(&a) }
    }
    fn img(&self) -> Self::Img {
        let mut a: [MaybeUninit<T::Img>; N] = unsafe { MaybeUninit::uninit().assume_init() };
        let mut i = 0;
        while i < N { a[i].write(self[i].img()); i += 1; }
        unsafe { core::mem::transmute_copy(&a) }
    }
}
impl<A: Pay, B: Pay> Pay for (A, B) { type Img = (A::Img, B::Img); fn sym() -> Self { (A::sym(), B::sym()) } fn img(&self) -> Self::Img { (self.0.img(), self.1.img()) } }
impl<A: Pay, B: Pay, C: Pay> Pay for (A, B, C) { type Img = (A::Img, B::Img, C::Img); fn sym() -> Self { (A::sym(), B::sym(), C::sym()) } fn img(&self) -> Self::Img { (self.0.img(), self.1.img(), self.2.img()) } }
impl Pay for Option<NonZeroU8> { type Img = u8; fn sym() -> Self { NonZeroU8::new(nd::u8()) } fn img(&self) -> u8 { self.map_or(0, |v| v.get()) } }
impl Pay for NonZeroU64 { type Img = u64; fn sym() -> Self { let v = nd::u64(); nd::assume(v != 0); NonZeroU64::new(v).unwrap() } fn img(&self) -> u64 { self.get() } }
impl Pay for Option<u32> { type Img = Option<u32>; fn sym() -> Self { if nd::bool() { Some(nd::u32()) } else { None } } fn img(&self) -> Option<u32> { *self } }
static BYTES: [u8; 4] = [1, 2, 3, 4];
impl Pay for Option<&'static u8> { type Img = usize; fn sym() -> Self { if nd::bool() { Some(&BYTES[nd::below(4) as usize]) } else { None } } fn img(&self) -> usize { self.map_or(0, |r| r as *const u8 as usize) } }
impl Pay for &'static [u8] { type Img = (usize, usize); fn sym() -> Self { &BYTES[..nd::below(4) as usize] } fn img(&self) -> Self::Img { (self.as_ptr() as usize, self.len()) } }
impl Pay for NonNull<u16> { type Img = usize; fn sym() -> Self { let v = nd::usize(); nd::assume(v != 0); NonNull::new(v as *mut u16).unwrap() } fn img(&self) -> usize { self.as_ptr() as usize } }
impl Pay for Ordering { type Img = i8; fn sym() -> Self { match nd::below(3) { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } } fn img(&self) -> i8 { *self as i8 } }
fn f1(x: u8) -> u8 { x ^ 1 } fn f2(x: u8) -> u8 { x ^ 2 }
impl Pay for fn(u8) -> u8 { type Img = u8; fn sym() -> Self { if nd::bool() { f1 } else { f2 } } fn img(&self) -> u8 { self(0) } }
pub trait Tr { fn get(&self) -> u8; }
impl Tr for u8 { fn get(&self) -> u8 { *self } }
impl Tr for (u8, u8) { fn get(&self) -> u8 { self.1 } }
static PAIR: (u8, u8) = (9, 8);
impl Pay for &'static dyn Tr { type Img = u8; fn sym() -> Self { if nd::bool() { &BYTES[2] } else { &PAIR } } fn img(&self) -> u8 { self.get() } }
/// Owning payloads
impl Pay for Box<u16> { type Img = u16; fn sym() -> Self { Box::new(nd::u16()) } fn img(&self) -> u16 { **self } }
impl Pay for Option<Box<u32>> { type Img = Option<u32>; fn sym() -> Self { if nd::bool() { Some(Box::new(nd::u32())) } else { None } } fn img(&self) -> Self::Img { self.as_ref().map(|b| **b) } }
impl Pay for Vec<u8> { type Img = (usize, u8, u8); fn sym() -> Self { let mut v = Vec::with_capacity(2); v.push(nd::u8()); v.push(nd::u8()); v } fn img(&self) -> Self::Img { (self.len(), self[0], self[1]) } }
/// A structure with padding
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Pad { pub a: u8, pub b: u64, pub c: u16 }
impl Pay for Pad { type Img = (u8, u64, u16); fn sym() -> Self { Pad { a: nd::u8(), b: nd::u64(), c: nd::u16() } } fn img(&self) -> Self::Img { (self.a, self.b, self.c) } }
#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct Packed { a: u8, b: u32 }
impl Pay for Packed { type Img = (u8, u32); fn sym() -> Self { Packed { a: nd::u8(), b: nd::u32() } } fn img(&self) -> Self::Img { (self.a, self.b) } }
macro_rules! al { ($($n:ident $z:ident $a:literal)*) => { $(
    #[derive(Clone, Copy)] #[repr(align($a))] pub struct $n(pub u32);
    impl Pay for $n { type Img = u32; fn sym() -> Self { $n(nd::u32()) } fn img(&self) -> u32 { self.0 } }
    #[derive(Clone, Copy)] #[repr(align($a))] pub struct $z;
    impl Pay for $z { type Img = (); fn sym() -> Self { $z } fn img(&self) {} }
)* } }
al!(Al16 Za16 16 Al32 Za32 32 Al64 Za64 64 Al256 Za256 256 Al1024 Za1024 1024 Al4096 Za4096 4096 Al65536 Za65536 65536);
#[derive(Clone, Copy)] pub struct Zst;
impl Pay for Zst { type Img = (); fn sym() -> Self { Zst } fn img(&self) {} }
/// Zero-sized, aligned array
impl Pay for core::marker::PhantomData<u64> { type Img = (); fn sym() -> Self { core::marker::PhantomData } fn img(&self) {} }
/// A tagged box inside a tagged box
impl Pay for tagged_box::TaggedBox<u8> {
    type Img = (tagged_box::Discriminant, u16);
    fn sym() -> Self { let v = nd::u16(); tagged_box::TaggedBox::new(v, nd::disc()) }
    fn img(&self) -> Self::Img { (self.discriminant(), unsafe { *self.as_ref::<u16>() }) }
}
impl Pay for tagged_box::TaggedPointer {
    type Img = u64;
    fn sym() -> Self { let p = nd::addr(); tagged_box::TaggedPointer::new(p, nd::disc()) }
    fn img(&self) -> u64 { self.as_raw_u64() }
}
/// A large value, any at four places.
#[derive(Clone, Copy)]
pub struct Large<const N: usize>(pub [u64; N]);
/// Sizes that are not a multiple of a word or of their alignment's double.
#[derive(Clone, Copy)]
pub struct Odd<T, const N: usize>(pub [T; N]);
/// A few elements are arbitrary, the others a pattern; natively all are.
#[cfg(kani)]
macro_rules! long_pay { ($($t:ident $l:ident($($g:tt)*);)*) => { $(
    impl<const N: usize> Pay for $l<$($g)*> {
        type Img = ($t, $t, $t, $t);
        fn sym() -> Self {
            let mut v = [7; N];
            v[0] = nd::$t();
            v[N / 3] = nd::$t();
            v[N - 2] = nd::$t();
            v[N - 1] = nd::$t();
            $l(v)
        }
        fn img(&self) -> Self::Img { (self.0[0], self.0[N / 3], self.0[N - 2], self.0[N - 1]) }
    }
)* } }
#[cfg(not(kani))]
macro_rules! long_pay { ($($t:ident $l:ident($($g:tt)*);)*) => { $(
    impl<const N: usize> Pay for $l<$($g)*> {
        /// Positional sum over all elements
        type Img = (u64, u64);
        fn sym() -> Self {
            let mut x = nd::u64();
            $l(core::array::from_fn(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x = x.wrapping_add(0x9E37_79B9_7F4A_7C15); (x >> 11) as $t }))
        }
        fn img(&self) -> Self::Img { self.0.iter().fold((1, 0), |(a, b), &e| (a.wrapping_mul(0x100_0000_01B3) ^ e as u64, b.rotate_left(5).wrapping_add(e as u64))) }
    }
)* } }
long_pay! { u64 Large(N); u8 Odd(u8, N); u16 Odd(u16, N); u32 Odd(u32, N); }
/// Several hundred bytes for the verifier, many pages for the bounded layer.
pub type Huge = Large<{ if cfg!(not(kani)) { 9000 } else if cfg!(feature = "full") { 160 } else { 40 } }>;
/// The alignments a verifier does not reach in time are left to the bounded layer.
#[cfg(kani)]
pub type AlBig = Al1024;
#[cfg(not(kani))]
pub type AlBig = Al65536;
#[cfg(all(kani, feature = "c03"))]
pub type ZaBig = Za4096;
#[cfg(not(all(kani, feature = "c03")))]
pub type ZaBig = Za65536;
