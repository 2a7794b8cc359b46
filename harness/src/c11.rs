//! C11: heap blocks and their layouts. The allocator is the ghost heap of heap.rs, which fails
//! an obligation when a block is released that is not live, or with another layout.
use crate::{ck, end, fam::*, grid, heap, hs, must_panic, nd, pay::*};
use core::{cmp::Ordering, marker::PhantomData, mem, num::*, ptr::NonNull};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

fn make<P>(v: P) -> TaggedBox<()> { let d = nd::disc(); if nd::bool() { TaggedBox::new(v, d) } else { unsafe { TaggedBox::new_unchecked(v, d) } } }
fn boxed<P: Pay>() {
    let v = P::sym();
    heap::reset();
    let mut b = make(v);
    if mem::size_of::<P>() == 0 {
        ck!(heap::allocs() == 0, "a zero-sized value needs no heap block");
    } else {
        ck!(heap::allocs() == 1, "one heap block is requested");
        let k = heap::last();
        ck!(k.size == mem::size_of::<P>(), "the block has exactly the size of the value");
        ck!(k.align == mem::align_of::<P>(), "the block has exactly the alignment of the value");
        ck!(k.addr == b.as_ptr::<P>() as usize, "the value is in that block");
    }
    let _ = unsafe { (b.discriminant(), b.as_ref::<P>().img(), b.as_mut_ref::<P>().img(), b.as_mut_ptr::<P>()) };
    ck!(heap::frees() == 0 && heap::sane(), "nothing is released while the box lives");
    let n = heap::allocs();
    match nd::below(3) {
        0 => {
            let x = unsafe { TaggedBox::into_box::<P>(b) };
            ck!(heap::frees() == 0 && heap::allocs() == n, "a standard box takes over the same block");
            drop(x);
            ck!(heap::live() == 0 && heap::frees() == n && heap::sane(), "dropping the standard box releases that block once, with its layout");
        }
        1 => {
            let p: *mut P = TaggedBox::into_raw(b);
            ck!(heap::frees() == 0 && heap::allocs() == n, "the raw pointer owns the same block");
            drop(unsafe { Box::from_raw(p) });
            ck!(heap::live() == 0 && heap::frees() == n && heap::sane(), "a standard box of the raw pointer releases that block once");
        }
        _ => {
            let _ = unsafe { TaggedBox::into_inner::<P>(b) }.img();
            ck!(heap::frees() <= n && heap::sane(), "taking out releases nothing else");
        }
    }
    heap::stop();
    end!()
}
/// Values that own blocks of their own.
fn owning<P: Pay>() {
    heap::reset();
    let v = P::sym();
    let i = v.img();
    let n = heap::allocs();
    let b = make(v);
    ck!(heap::allocs() == n + 1 && heap::last().size == mem::size_of::<P>(), "one heap block of the size of the value is requested");
    ck!(heap::frees() == 0, "nothing is released");
    if nd::bool() {
        let x = unsafe { TaggedBox::into_box::<P>(b) };
        ck!(x.img() == i && heap::frees() == 0, "the value's own blocks are kept");
        drop(x);
        ck!(heap::live() == 0 && heap::sane(), "every block is released once");
    } else {
        let x = unsafe { TaggedBox::into_inner::<P>(b) };
        ck!(x.img() == i && heap::frees() <= 1, "the value's own blocks are kept");
        let f = heap::frees();
        drop(x);
        ck!(heap::frees() == f + n && heap::sane(), "the value's own blocks are released once");
    }
    heap::stop();
    end!()
}
fn failed<P: Pay>() {
    let v = P::sym();
    heap::reset();
    let u = nd::bool();
    let d = nd::disc();
    heap::fail_next();
    must_panic(move || if u { TaggedBox::<()>::new(v, d) } else { unsafe { TaggedBox::new_unchecked(v, d) } })
}
fn enums<F: Fam>() {
    let r = F::sym();
    heap::reset();
    let v = F::make(r);
    let n = heap::allocs();
    let need = F::need(&r);
    let b = if nd::bool() { v.into_tagged_box() } else { unwrap::<F>(F::C::from(v)) };
    if need.size == 0 {
        ck!(heap::allocs() == n, "a variant without content needs no heap block");
    } else {
        ck!(heap::allocs() == n + 1, "one heap block is requested");
        let k = heap::last();
        ck!(k.size >= need.size && k.size <= need.most && (!need.exact || k.size == need.size), "the block has the size of the fields");
        ck!(k.align == need.align, "the block has the alignment of the fields");
        ck!(k.addr == b.as_ptr::<u8>() as usize, "the fields are in that block");
    }
    unsafe { F::ref_from_tagged_box(&b, |_| ()) }
    ck!(heap::frees() == 0, "borrowing releases nothing");
    let v = if nd::bool() { F::from_tagged_box(b) } else { wrap::<F>(b).into_inner() };
    ck!(v.img() == r, "the blocks owned by the fields are kept");
    ck!(heap::frees() <= 1 && heap::allocs() <= n + 1, "taking out releases nothing else");
    let f = heap::frees();
    drop(v);
    ck!(heap::frees() <= f + n && (heap::frees() == f + n || !F::releases(&r)) && heap::sane(), "the blocks owned by the fields are released once");
    heap::stop();
    end!()
}
fn cloned<F: Fam + Clone + PartialEq>() {
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    heap::reset();
    let _ = b == b;
    ck!(heap::allocs() == 0 && heap::frees() == 0, "comparing requests and releases nothing");
    let c = b.clone();
    let need = F::need(&r);
    ck!(heap::allocs() == (need.size > 0) as usize && heap::frees() == 0, "cloning requests one heap block");
    if need.size > 0 {
        let k = heap::last();
        ck!(k.size >= need.size && k.size <= need.most && k.align == need.align && k.addr == c.as_ptr::<u8>() as usize, "the clone is in a block of its own layout");
    }
    heap::stop();
    end!()
}
fn enum_failed<F: Fam>() {
    let r = F::sym();
    let v = F::make(r);
    heap::reset();
    if F::need(&r).size > 0 { heap::fail_next() }
    must_panic(move || {
        if F::need(&r).size == 0 { panic!("a variant without a heap block") }
        v.into_tagged_box()
    })
}
macro_rules! with_heap { ($mac:ident { $($gen:ident as $md:ident [$($m:meta),*])* }) => { crate::$mac! { $( $gen as $md [
    kani::unwind(34), kani::stub(std::alloc::alloc, heap::galloc), kani::stub(alloc::alloc::alloc_zeroed, heap::galloc_zeroed),
    kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc), kani::stub(alloc::alloc::handle_alloc_error, heap::goom) $(, $m)* ] )* } } }
with_heap! { pod_types { boxed as pods [] } }
#[cfg(feature = "full")]
with_heap! { fams { enums as variants [] } }
#[cfg(not(feature = "full"))]
with_heap! { some_fams { enums as variants [] } }
with_heap! { copy_fams { cloned as clones [] } }
with_heap! { few_fams { enum_failed as oom_enum [kani::should_panic] } }
macro_rules! own_types { ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs { t_box: Box<u16>, t_optbox: Option<Box<u32>>, t_two: (Box<u16>, u8, Box<u16>), } )* } } }
macro_rules! sized_types { ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs { t_u8: u8, t_u64: u64, t_u128: u128, t_a3: [u8; 3], t_pad: Pad, t_al32: Al32, t_optnz: Option<NonZeroU8>, } )* } } }
own_types! { owning as own [kani::unwind(34), kani::stub(std::alloc::alloc, heap::galloc), kani::stub(alloc::alloc::alloc_zeroed, heap::galloc_zeroed),
    kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc), kani::stub(alloc::alloc::handle_alloc_error, heap::goom)] }
sized_types! { failed as oom [kani::unwind(34), kani::should_panic, kani::stub(std::alloc::alloc, heap::galloc), kani::stub(alloc::alloc::alloc_zeroed, heap::galloc_zeroed),
    kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc), kani::stub(alloc::alloc::handle_alloc_error, heap::goom)] }
hs! {
    // The ghost heap really stands in for the allocator
    #[kani::stub(std::alloc::alloc, heap::galloc)] #[kani::stub(alloc::alloc::dealloc_nonnull, heap::gdealloc)] #[kani::unwind(14)]
    fn ghost() {
        heap::reset();
        let b = Box::new(nd::u32());
        ck!(heap::allocs() == 1 && heap::last().size == 4 && heap::last().align == 4 && heap::last().addr == &*b as *const u32 as usize, "the ghost heap sees allocations");
        drop(b);
        ck!(heap::live() == 0 && heap::sane(), "the ghost heap sees releases");
        heap::stop();
        end!()
    }
}
