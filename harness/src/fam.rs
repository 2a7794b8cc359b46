//! What the laws know about an enum made with `tagged_box!`.
use crate::{nd, pay::*, track::*};
use core::num::NonZeroU8;
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

/// A field: any image, the value of an image, the image of a value.
pub trait Fld: Sized + 'static {
    type I: Copy + PartialEq;
    /// How many destructor runs dropping it makes
    const OWNED: u32 = 0;
    const CLONED: u32 = Self::OWNED;
    /// Whether dropping it releases every block it owns (containers never do, see C12)
    const RELEASES: bool = true;
    fn any() -> Self::I;
    fn of(i: Self::I) -> Self;
    fn img(&self) -> Self::I;
}
pub type Im<T> = <T as Fld>::I;
macro_rules! prim { ($($t:ty = $f:ident)*) => { $(impl Fld for $t { type I = $t; fn any() -> $t { nd::$f() } fn of(i: $t) -> $t { i } fn img(&self) -> $t { *self } })* } }
prim!(u8 = u8 u16 = u16 u32 = u32 u64 = u64 u128 = u128 usize = usize i8 = i8 i64 = i64 bool = bool char = char);
macro_rules! pod { ($($t:ty)*) => { $(impl Fld for $t { type I = <$t as Pay>::Img; fn any() -> Self::I { Pay::img(&<$t as Pay>::sym()) } fn of(i: Self::I) -> $t { <$t as OfImg>::of_img(i) } fn img(&self) -> Self::I { Pay::img(self) } })* } }
trait OfImg: Pay { fn of_img(i: Self::Img) -> Self; }
impl OfImg for f32 { fn of_img(i: u32) -> f32 { f32::from_bits(i) } }
impl OfImg for f64 { fn of_img(i: u64) -> f64 { f64::from_bits(i) } }
impl OfImg for () { fn of_img(_: ()) {} }
impl OfImg for [u8; 3] { fn of_img(i: [u8; 3]) -> Self { i } }
impl OfImg for [u32; 0] { fn of_img(i: [u32; 0]) -> Self { i } }
impl OfImg for Option<u32> { fn of_img(i: Option<u32>) -> Self { i } }
impl OfImg for Option<NonZeroU8> { fn of_img(i: u8) -> Self { NonZeroU8::new(i) } }
impl OfImg for (u8, u16) { fn of_img(i: (u8, u16)) -> Self { i } }
impl OfImg for Al16 { fn of_img(i: u32) -> Self { Al16(i) } }
impl OfImg for Al64 { fn of_img(i: u32) -> Self { Al64(i) } }
pod! { () [u8; 3] [u32; 0] f32 f64 Option<u32> Option<NonZeroU8> Al16 Al64 }
pod! { (u8, u16) }
static TEN: [u8; 4] = [0, 1, 2, 3];
impl Fld for &'static u8 { type I = u8; fn any() -> u8 { nd::below(4) } fn of(i: u8) -> Self { &TEN[i as usize] } fn img(&self) -> u8 { **self } }
fn g0(x: u8) -> u8 { x } fn g1(x: u8) -> u8 { x ^ 1 }
impl Fld for fn(u8) -> u8 { type I = u8; fn any() -> u8 { nd::below(2) } fn of(i: u8) -> Self { if i == 0 { g0 } else { g1 } } fn img(&self) -> u8 { self(0) } }
impl Fld for Box<u16> { type I = u16; fn any() -> u16 { nd::u16() } fn of(i: u16) -> Self { Box::new(i) } fn img(&self) -> u16 { **self } }
impl Fld for Option<Box<u32>> { type I = Option<u32>; fn any() -> Self::I { <Option<u32> as Fld>::any() } fn of(i: Self::I) -> Self { i.map(Box::new) } fn img(&self) -> Self::I { self.as_ref().map(|b| **b) } }
impl<const S: u8> Fld for D<S> { type I = u32; const OWNED: u32 = 1; fn any() -> u32 { nd::u32() } fn of(i: u32) -> Self { D(i) } fn img(&self) -> u32 { self.0 } }
impl Fld for N { type I = u32; const CLONED: u32 = 1; fn any() -> u32 { nd::u32() } fn of(i: u32) -> Self { N(i) } fn img(&self) -> u32 { self.0 } }
impl Fld for Z { type I = (); const OWNED: u32 = 1; fn any() {} fn of(_: ()) -> Self { Z } fn img(&self) {} }
impl Fld for ZA { type I = (); const OWNED: u32 = 1; fn any() {} fn of(_: ()) -> Self { ZA } fn img(&self) {} }
/// A container inside another enum.
mod inner {
    tagged_box::tagged_box! { pub struct Inner, pub enum InnerEnum { A(u8), B(u16, u8), } }
}
pub use inner::Inner;
use inner::InnerEnum;
impl Fld for Inner {
    const RELEASES: bool = false;
    type I = (bool, u16, u8);
    fn any() -> Self::I { if nd::bool() { (true, 0, nd::u8()) } else { (false, nd::u16(), nd::u8()) } }
    fn of(i: Self::I) -> Self { if i.0 { Inner::from(i.2) } else { Inner::from((i.1, i.2)) } }
    fn img(&self) -> Self::I {
        // Looked at through a copy of the word
        let c: Inner = unsafe { core::mem::transmute_copy(self) };
        match c.into_inner() { InnerEnum::A(x) => (true, 0, x), InnerEnum::B(y, x) => (false, y, x) }
    }
}

/// What a stored value needs of the heap.
#[derive(Clone, Copy)]
pub struct Need { pub exact: bool, pub size: usize, pub most: usize, pub align: usize }
pub fn lay<T>() -> (usize, usize) { (core::mem::size_of::<T>(), core::mem::align_of::<T>()) }
impl Need {
    pub const NONE: Need = Need { exact: true, size: 0, most: 0, align: 1 };
    pub fn one<T>() -> Need { Need { exact: true, size: core::mem::size_of::<T>(), most: core::mem::size_of::<T>(), align: core::mem::align_of::<T>() } }
    pub fn many(l: &[(usize, usize)]) -> Need {
        let (mut size, mut most, mut align, mut i) = (0, 0, 1, 0);
        while i < l.len() { size += l[i].0; if l[i].1 > align { align = l[i].1 } i += 1; }
        i = 0;
        while i < l.len() { most += (l[i].0 + align - 1) / align * align; i += 1; }
        Need { exact: false, size, most, align }
    }
}

pub trait Fam: TaggableInner + 'static {
    type C: TaggableContainer<Inner = Self> + From<Self>;
    /// Plain image of a value
    type R: Copy + PartialEq;
    const N: u32;
    /// Any value of one variant
    fn any_of(variant: u32) -> Self::R;
    /// Any value
    fn sym() -> Self::R { Self::any_of(nd::variant(Self::N)) }
    fn make(r: Self::R) -> Self;
    fn img(&self) -> Self::R;
    fn variant(r: &Self::R) -> u32;
    fn from_payload(r: Self::R) -> Option<Self::C>;
    fn need(r: &Self::R) -> Need;
    /// How many destructor runs dropping the value makes
    fn owned(r: &Self::R) -> u32;
    /// How many of its fields count their clones.
    fn cloned(r: &Self::R) -> u32;
    /// Whether dropping the value releases every block it owns
    fn releases(r: &Self::R) -> bool;
}
/// The box in a container, and the container of a box (both are one word, see C22).
pub fn unwrap<F: Fam>(c: F::C) -> TaggedBox<F> { let c = core::mem::ManuallyDrop::new(c); unsafe { core::mem::transmute_copy(&*c) } }
pub fn wrap<F: Fam>(b: TaggedBox<F>) -> F::C { let b = core::mem::ManuallyDrop::new(b); unsafe { core::mem::transmute_copy(&*b) } }
/// The word of a box.
pub fn bits<F: Fam>(b: &TaggedBox<F>) -> u64 { unsafe { core::mem::transmute_copy(b) } }
/// The law for every value, variant by variant (which keeps the proof obligations small).
pub fn each<F: Fam>(law: impl Fn(F::R)) {
    if F::N > 16 { law(F::sym()) }
    else {
        let mut v = 0;
        while v < F::N { law(F::any_of(v)); v += 1; }
    }
}
