//! C12: no heap block is left behind. The allocator is the ghost heap of heap.rs.
use crate::{ck, end, fam::*, grid, heap, hs, nd, pay::*};
use core::{mem, num::*};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

fn make<P>(v: P) -> TaggedBox<()> { let d = nd::disc(); if nd::bool() { TaggedBox::new(v, d) } else { unsafe { TaggedBox::new_unchecked(v, d) } } }
fn looked<P: Pay>() -> TaggedBox<()> {
    let v = P::sym();
    let mut b = make(v);
    if nd::bool() {
        let p: *mut P = TaggedBox::into_raw(b);
        b = unsafe { TaggedBox::from_raw(p, nd::disc()) };
    }
    let _ = unsafe { (b.discriminant(), b.as_ref::<P>().img(), b.as_mut_ref::<P>().img(), b.as_mut_ptr::<P>()) };
    b
}
/// Ways out that release everything.
fn released<P: Pay>() {
    heap::reset();
    let b = looked::<P>();
    if nd::bool() { drop(unsafe { TaggedBox::into_box::<P>(b) }) } else { drop(unsafe { Box::from_raw(TaggedBox::into_raw::<P>(b)) }) }
    ck!(heap::live() == 0 && heap::sane(), "every heap block has been released");
    heap::stop();
    end!()
}
/// Taking the value out: at most the block that held the value stays.
fn rest<P: Pay>() {
    heap::reset();
    let b = looked::<P>();
    drop(unsafe { TaggedBox::into_inner::<P>(b) });
    ck!(heap::live() <= (mem::size_of::<P>() > 0) as usize && heap::sane(), "at most the block that held the value is left");
    heap::stop();
    end!()
}
fn enums_rest<F: Fam>() {
    heap::reset();
    let r = F::sym();
    let (v, made) = (F::make(r), heap::allocs());
    let b = v.into_tagged_box();
    unsafe { F::ref_from_tagged_box(&b, |_| ()) }
    ck!(heap::live() <= made + (F::need(&r).size > 0) as usize, "boxing and borrowing leave nothing but the block of the value");
    let v = if nd::bool() { F::from_tagged_box(b) } else { wrap::<F>(b).into_inner() };
    drop(v);
    ck!(!F::releases(&r) || heap::live() <= (F::need(&r).size > 0) as usize, "at most the block that held the value is left");
    heap::stop();
    end!()
}
fn payload_rest<F: Fam>() {
    heap::reset();
    let r = F::sym();
    if let Some(c) = F::from_payload(r) {
        drop(c.into_inner());
        ck!(!F::releases(&r) || heap::live() <= (F::need(&r).size > 0) as usize, "at most the block that held the value is left");
    }
    heap::stop();
    end!()
}
fn pair_rest<F: Fam + Clone + PartialEq + PartialOrd>() {
    let (r, s) = (F::sym(), F::sym());
    let (a, b) = (F::make(r).into_tagged_box(), F::make(s).into_tagged_box());
    heap::reset();
    let _ = (a == b, a.partial_cmp(&b));
    ck!(heap::live() == 0, "comparing leaves nothing behind");
    let c = a.clone();
    ck!(heap::live() == (F::need(&r).size > 0) as usize, "cloning leaves nothing but the block of the clone");
    core::mem::forget(c);
    heap::stop();
    end!()
}

macro_rules! types { ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs { t_u8: u8, t_u64: u64, t_a3: [u8; 3], t_pad: Pad, t_al32: Al32, t_optnz: Option<NonZeroU8>, t_unit: (), t_za16: Za16, t_box: Box<u16>, t_two: (Box<u16>, u8, Box<u16>), } )* } } }
macro_rules! with_heap { ($mac:ident { $($gen:ident as $md:ident)* }) => { crate::$mac! { $( $gen as $md [
    kani::unwind(26), kani::stub(std::alloc::alloc, heap::galloc), kani::stub(alloc::alloc::alloc_zeroed, heap::galloc_zeroed),
    kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc), kani::stub(alloc::alloc::handle_alloc_error, heap::goom)] )* } } }
macro_rules! with_heap_l { ($mac:ident { $($gen:ident as $md:ident)* }) => { $mac! { $( $gen as $md [
    kani::unwind(26), kani::stub(std::alloc::alloc, heap::galloc), kani::stub(alloc::alloc::alloc_zeroed, heap::galloc_zeroed),
    kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc), kani::stub(alloc::alloc::handle_alloc_error, heap::goom)] )* } } }
with_heap_l! { types { released as boxes rest as others } }
with_heap! { some_fams { enums_rest as enums payload_rest as payloads } }
with_heap! { copy_fams { pair_rest as pairs } }

/// What playXE/tagged-box does not do: the known findings. Each of these releases no heap block.
pub mod leaks {
    use super::*;
    tagged_box::tagged_box! { pub struct C, pub enum E { A(u32), B(u8, u64), } }
    hs! {
        #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
        fn box_into_inner() {
            heap::reset();
            let b = make(nd::u32());
            let _ = unsafe { TaggedBox::into_inner::<u32>(b) };
            ck!(heap::live() == 0, "the block that held the value has been released by TaggedBox::into_inner");
            heap::stop();
            end!()
        }
        #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
        fn box_dropped() {
            heap::reset();
            let b = E::A(nd::u32()).into_tagged_box();
            drop(b);
            ck!(heap::live() == 0, "the block that held the value has been released by dropping a TaggedBox");
            heap::stop();
            end!()
        }
        #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
        fn enum_from_box() {
            heap::reset();
            let v = if nd::bool() { E::A(nd::u32()) } else { E::B(nd::u8(), nd::u64()) };
            let _ = E::from_tagged_box(v.into_tagged_box());
            ck!(heap::live() == 0, "the block that held the value has been released by from_tagged_box");
            heap::stop();
            end!()
        }
        #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
        fn container_into_inner() {
            heap::reset();
            let c = if nd::bool() { C::from(nd::u32()) } else { C::from((nd::u8(), nd::u64())) };
            let _ = c.into_inner();
            ck!(heap::live() == 0, "the block that held the value has been released by into_inner of a container");
            heap::stop();
            end!()
        }
        #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
        fn container_dropped() {
            heap::reset();
            drop(C::from(nd::u32()));
            ck!(heap::live() == 0, "the block that held the value has been released by dropping a container");
            heap::stop();
            end!()
        }
    }
}
/// Looking at a boxed enum through its traits.
#[cfg(feature = "v4")]
mod seen {
    use core::{cmp::Ordering, fmt};
    tagged_box::tagged_box! { pub struct C, pub enum E { A(Box<u8>), B(u8, u64), U, } }
    impl Clone for E { fn clone(&self) -> E { match self { E::A(x) => E::A(Box::new(**x)), E::B(x, y) => E::B(*x, *y), E::U => E::U } } }
    impl PartialEq for E { fn eq(&self, o: &E) -> bool { core::mem::discriminant(self) == core::mem::discriminant(o) } }
    impl Eq for E {}
    impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for E { fn cmp(&self, _: &E) -> Ordering { Ordering::Less } }
    impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("D") } }
    impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("X") } }
    impl E {
        pub fn any() -> E { match super::nd::below(3) { 0 => E::A(Box::new(super::nd::u8())), 1 => E::B(super::nd::u8(), super::nd::u64()), _ => E::U } }
    }
}
#[cfg(feature = "v4")]
fn traits(k: u8) {
    use core::fmt::Write;
    use seen::E;
    let (a, b) = (E::any().into_tagged_box(), E::any().into_tagged_box());
    heap::reset();
    let mut s = crate::sink::Sink::<4>::failing_after(nd::below(3) as usize);
    let _ = match k {
        0 => a == b || a != b,
        1 => a.partial_cmp(&b).is_some() || a.cmp(&b).is_eq() || a < b,
        2 => s.write_fmt(format_args!("{:?}", a)).is_ok(),
        _ => s.write_fmt(format_args!("{}", a)).is_ok(),
    };
    ck!(heap::live() == 0 && heap::frees() == heap::allocs() && heap::sane(), "looking at a box leaves no block behind");
    heap::stop();
    end!()
}
#[cfg(feature = "v4")]
pub mod looks {
    use super::*;
    macro_rules! looks { ($($n:ident $k:literal)*) => { hs! { $(
        #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::alloc_zeroed, heap::galloc_zeroed)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
        fn $n() { traits($k) }
    )* } } }
    looks! { equal 0 ordered 1 debug 2 display 3 }
}
#[cfg(not(feature = "v4"))]
pub mod looks { crate::hs! {} }
hs! {}
