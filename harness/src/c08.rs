//! C08: discriminant and address are kept.
use crate::{ck, end, few_types, grid, hs, nd, pay::*, pod_types};
use core::{cmp::Ordering, marker::PhantomData, mem, num::*, ptr::NonNull};
use tagged_box::{Discriminant, TaggedBox};
type B = TaggedBox<()>;

/// An arbitrary state of a box of `P`: its value anywhere, any discriminant. Every reachable
/// state is one of these, so what holds after one operation holds after any sequence.
fn any_state<P: Pay>() -> (B, Discriminant, u64, P::Img) {
    let v = P::sym();
    let i = v.img();
    let d = nd::disc();
    if nd::bool() {
        let b: B = TaggedBox::new(v, d);
        let a = b.as_ptr::<P>() as u64;
        (b, d, a, i)
    } else {
        let p = Box::into_raw(Box::new(v));
        nd::assume(p as u64 <= nd::PMAX);
        (unsafe { B::from_raw(p, d) }, d, p as u64, i)
    }
}
fn unchanged<P: Pay>(b: &mut B, d: Discriminant, a: u64, i: P::Img) {
    ck!(b.discriminant() == d, "the discriminant is kept");
    ck!(b.as_ptr::<P>() as u64 == a && b.as_mut_ptr::<P>() as u64 == a, "the address is kept");
    ck!(a != 0 && a % mem::align_of::<P>() as u64 == 0, "the address is aligned");
    ck!(unsafe { (*(a as *const P)).img() } == i, "the value is at the address");
}
/// A value next to others of its kind, so at any multiple of its alignment.
fn in_a_row<P: Pay>() -> (B, Discriminant, u64, P::Img) {
    let (v, d) = (P::sym(), nd::disc());
    let i = v.img();
    let row: &'static mut [mem::MaybeUninit<P>; 3] = Box::leak(Box::new([const { mem::MaybeUninit::uninit() }; 3]));
    let p: *mut P = if cfg!(kani) { row[1].write(v) } else { row[nd::below(3) as usize].write(v) };
    nd::assume(p as u64 <= nd::PMAX);
    (unsafe { B::from_raw(p, d) }, d, p as u64, i)
}
fn step<P: Pay>() {
    let (mut b, d, a, mut i) = if nd::below(3) == 0 { in_a_row::<P>() } else { any_state::<P>() };
    unchanged::<P>(&mut b, d, a, i);
    match nd::below(6) {
        0 => { ck!(unsafe { b.as_ref::<P>() } as *const P as u64 == a, "shared reference is at the address"); }
        1 => {
            let w = P::sym();
            i = w.img();
            let r = unsafe { b.as_mut_ref::<P>() };
            ck!(r as *mut P as u64 == a, "mutable reference is at the address");
            *r = w;
        }
        2 => { let w = P::sym(); i = w.img(); unsafe { b.as_mut_ptr::<P>().write(w) } }
        3 => { let c = [b]; let [m] = c; b = m; }
        4 => { let mut o: B = B::dangling::<u64>(nd::disc()); mem::swap(&mut b, &mut o); mem::swap(&mut o, &mut b); mem::forget(o); }
        _ => { let _ = unsafe { (*b.as_ptr::<P>()).img() }; }
    }
    unchanged::<P>(&mut b, d, a, i);
    end!()
}
fn retagged<P: Pay>() {
    let (b, _, a, i) = any_state::<P>();
    let p: *mut P = B::into_raw(b);
    ck!(p as u64 == a, "the raw pointer is the address");
    let e = nd::disc();
    let mut b = unsafe { TaggedBox::<u64>::from_raw(p, e) };
    ck!(b.discriminant() == e, "the new discriminant is the one given");
    ck!(b.as_mut_ptr::<P>() as u64 == a, "the address survives re-tagging");
    ck!(unsafe { TaggedBox::into_inner::<P>(b) }.img() == i, "the value survives re-tagging");
    end!()
}
#[cfg(kani)]
few_types! { step as keep [kani::unwind(26)] }
/// Bounded: more types than the verifier can take here
#[cfg(not(kani))]
crate::all_types! { step as keep [] }
pod_types! { retagged as retag [kani::unwind(26)] }

/// Without a value behind it: every address that may hold a `P`, every discriminant.
fn at_any_address<P>() {
    let (p, d) = (nd::addr(), nd::disc());
    #[cfg(not(kani))] let p = p & !(mem::align_of::<P>() as u64 - 1);
    nd::assume(p != 0 && p % mem::align_of::<P>() as u64 == 0);
    let mut b = unsafe { B::from_raw(p as *mut P, d) };
    ck!(b.discriminant() == d, "the discriminant is kept");
    ck!(b.as_ptr::<P>() as u64 == p && b.as_mut_ptr::<P>() as u64 == p, "the address is kept");
    let e = nd::disc();
    let b = unsafe { B::from_raw(B::into_raw::<P>(b), e) };
    ck!(b.discriminant() == e && b.as_ptr::<P>() as u64 == p, "address kept and discriminant replaced");
    ck!(B::into_raw::<P>(b) as u64 == p, "the raw pointer is the address");
    end!()
}
/// A zero-sized value takes no memory, but its address is kept all the same.
fn zero_sized_anywhere<P: Pay>() {
    let (p, d) = (nd::addr(), nd::disc());
    #[cfg(not(kani))] let p = p & !(mem::align_of::<P>() as u64 - 1);
    nd::assume(p != 0 && p % mem::align_of::<P>() as u64 == 0);
    let mut b = unsafe { B::from_raw(p as *mut P, d) };
    ck!(unsafe { b.as_ref::<P>() } as *const P as u64 == p, "shared reference is at the address");
    ck!(unsafe { b.as_mut_ref::<P>() } as *mut P as u64 == p, "mutable reference is at the address");
    ck!(b.discriminant() == d && b.as_ptr::<P>() as u64 == p, "looking changes nothing");
    let o = unsafe { TaggedBox::into_box::<P>(b) };
    ck!(&*o as *const P as u64 == p, "the Box is at the address");
    ck!(Box::into_raw(o) as u64 == p, "the Box is at the address");
    end!()
}
/// Every trait of a box, on a macro-made enum.
#[cfg(feature = "v4")]
pub mod looks {
    use super::*;
    use core::{cmp::Ordering, fmt::{self, Write}};
    use tagged_box::TaggableInner;
    tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B(u8, u64), U, } }
    impl Clone for E { fn clone(&self) -> E { match self { E::A(x) => E::A(*x), E::B(x, y) => E::B(*x, *y), E::U => E::U } } }
    impl PartialEq for E { fn eq(&self, _: &E) -> bool { nd::bool() } }
    impl Eq for E {}
    impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { if nd::bool() { None } else { Some(self.cmp(o)) } } }
    impl Ord for E { fn cmp(&self, _: &E) -> Ordering { match nd::below(3) { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } } }
    impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("D") } }
    impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("X") } }
    fn any() -> (E, (u8, u8, u64)) { let (x, y) = (nd::u8(), nd::u64()); match nd::below(3) { 0 => (E::A(x), (0, x, 0)), 1 => (E::B(x, y), (1, x, y)), _ => (E::U, (2, 0, 0)) } }
    fn look(k: u8) {
        let ((x, i), (y, j)) = (any(), any());
        let (a, b) = (x.into_tagged_box(), y.into_tagged_box());
        let word = |b: &TaggedBox<E>| -> u64 { unsafe { mem::transmute_copy(b) } };
        let (v, w, p) = (word(&a), word(&b), a.as_ptr::<u8>());
        let mut s = crate::sink::Sink::<4>::failing_after(nd::below(3) as usize);
        match k {
            0 => { let _ = (a == b, a != b, a == a); }
            1 => { let _ = (a.partial_cmp(&b), a.cmp(&b), a < b, a >= b); }
            2 => { let _ = s.write_fmt(format_args!("{:?}", a)); }
            3 => { let _ = s.write_fmt(format_args!("{}", a)); }
            4 => { mem::forget(if nd::bool() { a.clone() } else { b.clone() }); }
            _ => unsafe { E::ref_from_tagged_box(&a, |_| ()) },
        }
        ck!(word(&a) == v && word(&b) == w, "looking at a box keeps its word");
        ck!(a.discriminant() as u8 == i.0 && b.discriminant() as u8 == j.0 && a.as_ptr::<u8>() == p, "looking at a box keeps its discriminant and its address");
        for (b, i) in [(a, i), (b, j)] {
            ck!(match E::from_tagged_box(b) { E::A(x) => (0, x, 0), E::B(x, y) => (1, x, y), E::U => (2, 0, 0) } == i, "looking at a box keeps its value");
        }
        end!()
    }
    hs! {
        #[kani::unwind(8)]
        fn compared() { look(nd::below(2)) }
        #[kani::unwind(8)]
        fn debug() { look(2) }
        #[kani::unwind(8)]
        fn display() { look(3) }
        #[kani::unwind(8)]
        fn cloned_and_borrowed() { look(4 + nd::below(2)) }
    }
}
#[cfg(not(feature = "v4"))]
pub mod looks { crate::hs! {} }
hs! {
    fn every_address() { at_any_address::<u16>() }
    fn every_address_byte() { at_any_address::<u8>() }
    fn every_address_wide() { at_any_address::<[u64; 5]>() }
    fn every_address_aligned() { at_any_address::<Al256>() }
    fn every_address_unit() { at_any_address::<()>() }
    fn every_address_zero_sized() { at_any_address::<Za16>() }
    fn unit_anywhere() { zero_sized_anywhere::<()>() }
    fn zero_sized_aligned_anywhere() { zero_sized_anywhere::<Za16>() }
    fn dangling_boxes() {
        let d = nd::disc();
        let mut b = B::dangling::<Al64>(d);
        ck!(b.discriminant() == d, "the discriminant is kept");
        let a = b.as_ptr::<Al64>() as u64;
        ck!(a != 0 && a % 64 == 0 && b.as_mut_ptr::<Al64>() as u64 == a, "the address is non-null and aligned");
        const C: Discriminant = { const X: TaggedBox<u8> = TaggedBox::dangling::<u8>((nd::SMAX / 2) as Discriminant); X.discriminant() };
        ck!(C as u64 == nd::SMAX / 2, "the discriminant is kept in constants");
        end!()
    }
}
