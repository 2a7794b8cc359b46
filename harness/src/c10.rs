//! C10: owned exactly once.
use crate::{ck, end, fam::*, hs, nd, track::{self, D, Z, ZA}};
use tagged_box::{Discriminant, TaggableContainer, TaggableInner, TaggedBox};

fn enums<F: Fam>() {
    track::reset();
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    ck!(track::drops() == 0, "boxing drops nothing");
    unsafe { F::ref_from_tagged_box(&b, |_| ()) }
    let _ = (b.discriminant(), b.as_ptr::<u8>());
    ck!(track::drops() == 0, "borrowing drops nothing");
    let v = F::from_tagged_box(b);
    ck!(track::drops() == 0, "taking out drops nothing");
    ck!(v.img() == r, "the value taken out is live");
    drop(v);
    ck!(track::drops() == F::owned(&r) && track::at_most_once(), "the taker drops the value exactly once");
    end!()
}
fn containers<F: Fam>() {
    track::reset();
    let r = F::sym();
    let c = match F::from_payload(r) { Some(c) if nd::bool() => c, other => { drop(other.map(|c| c.into_inner())); track::reset(); F::C::from(F::make(r)) } };
    ck!(track::drops() == 0, "making a container drops nothing");
    let v = c.into_inner();
    ck!(track::drops() == 0, "taking out drops nothing");
    ck!(v.img() == r, "the value taken out is live");
    drop(v);
    ck!(track::drops() == F::owned(&r) && track::at_most_once(), "the taker drops the value exactly once");
    end!()
}
fn compared<F: Fam + Clone + PartialEq + PartialOrd>() {
    track::reset();
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    let _ = b == b;
    let _ = b.partial_cmp(&b);
    ck!(track::drops() == 0, "comparing drops nothing");
    let c = b.clone();
    ck!(track::drops() == 0, "cloning drops nothing");
    drop(F::from_tagged_box(b));
    ck!(track::drops() == F::owned(&r), "the original is dropped once");
    drop(F::from_tagged_box(c));
    ck!(track::drops() == 2 * F::owned(&r), "the clone is dropped once");
    end!()
}
crate::owning_fams! {
    enums as boxes [kani::unwind(26)]
    containers as conts [kani::unwind(26)]
}
crate::owning_pair_fams! { compared as comps [kani::unwind(26)] }

#[repr(align(64))] struct DA(D<0>);
struct DW([u32; 6], D<0>);
struct DB(Box<u32>, D<0>);
/// The box of one payload, through every way in, look and way out.
fn raw<P>(mk: fn(u32) -> P, image: fn(&P) -> u32) {
    track::reset();
    let x = nd::u32();
    let d = nd::disc();
    let v = mk(x);
    let want = image(&v);
    let mut b: TaggedBox<()> = match nd::below(3) {
        0 => TaggedBox::new(v, d),
        1 => unsafe { TaggedBox::new_unchecked(v, d) },
        _ => {
            let p = Box::into_raw(Box::new(v));
            nd::assume(p as u64 <= nd::PMAX);
            unsafe { TaggedBox::from_raw(p, d) }
        }
    };
    ck!(track::drops() == 0, "boxing drops nothing");
    let _ = (b.discriminant(), b.as_ptr::<P>(), b.as_mut_ptr::<P>());
    ck!(unsafe { image(b.as_ref::<P>()) } == want && unsafe { image(b.as_mut_ref::<P>()) } == want, "the value is live");
    ck!(track::drops() == 0, "looking drops nothing");
    let mut written = 0;
    let mut want = want;
    if nd::bool() {
        // Assignment drops the value that is replaced
        let v = mk(nd::u32());
        want = image(&v);
        unsafe { *b.as_mut_ref::<P>() = v };
        written = 1;
        ck!(track::drops() == 1, "assignment drops the replaced value only");
    }
    if nd::bool() {
        // Replaced without looking, by a raw write
        let e = nd::disc();
        let p: *mut P = TaggedBox::into_raw(b);
        b = unsafe { TaggedBox::from_raw(p, e) };
        ck!(track::drops() == written, "taking the raw pointer drops nothing");
    }
    match nd::below(3) {
        0 => { let v = unsafe { TaggedBox::into_inner::<P>(b) }; ck!(track::drops() == written && image(&v) == want, "taking out drops nothing"); drop(v) }
        1 => { let v = unsafe { TaggedBox::into_box::<P>(b) }; ck!(track::drops() == written && image(&v) == want, "taking out drops nothing"); drop(v) }
        _ => { let v = unsafe { Box::from_raw(TaggedBox::into_raw::<P>(b)) }; ck!(track::drops() == written && image(&v) == want, "taking out drops nothing"); drop(v) }
    }
    ck!(track::drops() == written + 1, "the taker drops the value exactly once");
    end!()
}
hs! {
    #[kani::unwind(8)]
    fn sized() { raw(|x| D::<0>(x), |v| v.0) }
    #[kani::unwind(8)]
    fn zero_sized() { raw(|_| Z, |_| 0) }
    #[kani::unwind(8)]
    fn zero_sized_aligned() { raw(|_| ZA, |_| 0) }
    #[kani::unwind(8)]
    fn over_aligned() { raw(|x| DA(D(x)), |v| v.0.0) }
    #[kani::unwind(8)]
    fn wide() { raw(|x| DW([!x; 6], D(x)), |v| v.1.0 ^ v.0[5] ^ v.0[0]) }
    #[kani::unwind(8)]
    fn boxed() { raw(|x| DB(Box::new(x), D(x)), |v| *v.0 ^ v.1.0) }
    #[kani::unwind(8)]
    fn optional() { raw(|x| Some(D::<0>(x)), |v| v.as_ref().map_or(0, |d| d.0)) }
    #[kani::unwind(8)]
    fn dangling() {
        track::reset();
        let b = TaggedBox::<D<0>>::dangling::<D<0>>(nd::disc());
        let _ = b.discriminant();
        core::mem::forget(b);
        ck!(track::drops() == 0, "a dangling box owns nothing");
        end!()
    }
}
/// Every trait of a box, on an enum that owns something.
#[cfg(feature = "v8")]
pub mod every {
    use super::*;
    use crate::sink::Sink;
    use core::{cmp::Ordering, fmt::{self, Write}};
    tagged_box::tagged_box! { pub struct C, pub enum E { A(D<0>), B(D<0>, D<1>), S { x: D<0>, y: u8 }, Y(Z), U, } }
    impl E {
        pub fn any() -> (E, u32) { match nd::below(5) { 0 => (E::A(D(nd::u32())), 1), 1 => (E::B(D(1), D(2)), 2), 2 => (E::S { x: D(3), y: 4 }, 1), 3 => (E::Y(Z), 1), _ => (E::U, 0) } }
    }
    impl Clone for E { fn clone(&self) -> E { match self { E::A(x) => E::A(x.clone()), E::B(x, y) => E::B(x.clone(), y.clone()), E::S { x, y } => E::S { x: x.clone(), y: *y }, E::Y(z) => E::Y(z.clone()), E::U => E::U } } }
    impl PartialEq for E { fn eq(&self, _: &E) -> bool { nd::bool() } }
    impl Eq for E {}
    impl PartialOrd for E { fn partial_cmp(&self, _: &E) -> Option<Ordering> { if nd::bool() { None } else { Some(Ordering::Less) } } }
    impl Ord for E { fn cmp(&self, _: &E) -> Ordering { if nd::bool() { Ordering::Equal } else { Ordering::Greater } } }
    impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("D") } }
    impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("X") } }
    pub fn out(a: fmt::Arguments<'_>) { let mut s = Sink::<4>::failing_after(nd::below(3) as usize); let _ = s.write_fmt(a); }
    pub fn looks(k: u8) {
        track::reset();
        let ((x, n), (y, m)) = (E::any(), E::any());
        let (mut a, b) = (x.into_tagged_box(), y.into_tagged_box());
        let mut cloned = 0;
        match k {
            0 => { let c = a.clone(); ck!(track::drops() == 0, "cloning drops nothing"); drop(E::from_tagged_box(c)); cloned = n; }
            1 => { let _ = (a == b, a != b); }
            2 => { let _ = (a.partial_cmp(&b), a < b, a >= b); }
            3 => { let _ = a.cmp(&b); }
            4 => out(format_args!("{:?}", a)),
            5 => out(format_args!("{}", a)),
            6 => { let r = &mut a; let s = core::mem::replace(r, E::U.into_tagged_box()); *r = s; }
            _ => { let c = if nd::bool() { a.clone() } else { b.clone() }; ck!(track::drops() == 0, "cloning drops nothing"); core::mem::forget(c); }
        }
        ck!(track::drops() == cloned, "looking drops nothing");
        drop(E::from_tagged_box(a));
        ck!(track::drops() == cloned + n, "the taker drops the value exactly once");
        drop(E::from_tagged_box(b));
        ck!(track::drops() == cloned + n + m, "the takers drop their values exactly once");
        end!()
    }
    hs! {
        #[kani::unwind(8)]
        fn cloned() { looks(if nd::bool() { 0 } else { 7 }) }
        #[kani::unwind(8)]
        fn compared() { looks(1 + nd::below(3)) }
        #[kani::unwind(8)]
        fn debug() { looks(4) }
        #[kani::unwind(8)]
        fn display() { looks(5) }
        #[kani::unwind(8)]
        fn replaced() { looks(6) }
    }
}
#[cfg(not(feature = "v8"))]
pub mod every { crate::hs! {} }
/// Bounded stand-in: panics unwind natively only.
#[cfg(not(kani))]
pub mod panics {
    use super::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    fn quiet<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
    fn callback<F: Fam>() {
        track::reset();
        let r = F::sym();
        let b = F::make(r).into_tagged_box();
        let w = bits(&b);
        let mut n = 0;
        ck!(quiet(|| unsafe { F::ref_from_tagged_box(&b, |_| { n += 1; panic!("callback") }) }), "the panic goes through");
        ck!(n == 1, "the callback ran once");
        ck!(track::drops() == 0 && bits(&b) == w, "a panic in the callback drops nothing");
        let v = F::from_tagged_box(b);
        ck!(v.img() == r, "the value can still be taken out");
        drop(v);
        ck!(track::drops() == F::owned(&r) && track::at_most_once(), "the taker drops the value exactly once");
    }
    macro_rules! all { ($($n:ident : $t:ty),*) => { pub const LIST: &[(&str, fn())] = &[$((concat!(module_path!(), "::", stringify!($n)), callback::<$t> as fn())),*]; } }
    use crate::family::*;
    all! { o1: O1, o2: O2, o3: O3, o4: O4, m4: M4, o8: O8, f4: F4, g4: G4, a3: A3, n2: N2 }

    tagged_box::tagged_box! { pub struct C, pub enum E { A(D<0>), B(D<0>, D<1>), S { x: D<0>, y: u8 }, Y(Z), U, } }
    impl E {
        fn any() -> (E, u32) { match nd::below(5) { 0 => (E::A(D(nd::u32())), 1), 1 => (E::B(D(1), D(2)), 2), 2 => (E::S { x: D(3), y: 4 }, 1), 3 => (E::Y(Z), 1), _ => (E::U, 0) } }
    }
    impl Clone for E { fn clone(&self) -> E { panic!("clone") } }
    impl PartialEq for E { fn eq(&self, _: &E) -> bool { panic!("eq") } }
    impl Eq for E {}
    impl PartialOrd for E { fn partial_cmp(&self, _: &E) -> Option<core::cmp::Ordering> { panic!("partial_cmp") } }
    impl Ord for E { fn cmp(&self, _: &E) -> core::cmp::Ordering { panic!("cmp") } }
    impl core::fmt::Debug for E { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { panic!("debug") } }
    impl core::fmt::Display for E { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { panic!("display") } }
    fn traits() {
        track::reset();
        let ((x, n), (y, m)) = (E::any(), E::any());
        let (a, b) = (x.into_tagged_box(), y.into_tagged_box());
        let p = match nd::below(6) {
            0 => quiet(|| a.clone()),
            1 => quiet(|| a == b),
            2 => quiet(|| a.partial_cmp(&b)),
            3 => quiet(|| a.cmp(&b)),
            4 => quiet(|| format!("{:?}", a)),
            _ => quiet(|| format!("{}", a)),
        };
        ck!(p, "the panic goes through");
        ck!(track::drops() == 0, "a panic in a trait implementation drops nothing");
        drop(E::from_tagged_box(a));
        drop(E::from_tagged_box(b));
        ck!(track::drops() == n + m, "the takers drop their values exactly once");
    }
    /// A rejected discriminant: the value is dropped once, while unwinding.
    #[cfg(feature = "baddisc")]
    fn rejected() {
        track::reset();
        let d = nd::baddisc();
        let p = match nd::below(3) {
            0 => quiet(|| TaggedBox::<()>::new(D::<0>(1), d)),
            1 => quiet(|| TaggedBox::<()>::new(Z, d)),
            _ => quiet(|| unsafe { TaggedBox::<()>::new_unchecked(ZA, d) }),
        };
        ck!(p && track::drops() <= 1, "a rejected value is dropped at most once");
    }
    #[cfg(not(feature = "baddisc"))]
    fn rejected() {}
    pub const MORE: &[(&str, fn())] = &[("c10::panics::traits", traits as fn()), ("c10::panics::rejected", rejected as fn())];
    pub fn list() -> Vec<(&'static str, fn())> { let mut v = LIST.to_vec(); v.extend_from_slice(MORE); v }
}
