//! C15: borrowing shows the stored value, once.
use crate::{ck, end, fam::*, nd};
use core::mem::{ManuallyDrop, MaybeUninit};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};
/// Borrows, counts the callback's runs, and returns the image of what the callback saw.
fn seen<F: Fam>(b: &TaggedBox<F>, n: &mut u32) -> F::R {
    let mut s = MaybeUninit::<ManuallyDrop<F>>::uninit();
    unsafe { F::ref_from_tagged_box(b, |e| { *n += 1; core::ptr::copy_nonoverlapping(e as *const F as *const ManuallyDrop<F>, s.as_mut_ptr(), 1); }) }
    ck!(*n == 1, "the callback runs exactly once, before the borrow returns");
    unsafe { s.assume_init() }.img()
}
fn look<F: Fam>() {
    if F::N > 64 && !cfg!(feature = "full") {
        // Only the variant, for the large enums: the fields are left to the thorough tier
        let r = F::sym();
        let b = F::make(r).into_tagged_box();
        let w = bits(&b);
        let (mut n, mut d) = (0, None);
        unsafe { F::ref_from_tagged_box(&b, |e| { n += 1; d = Some(core::mem::discriminant(e)); }) }
        ck!(n == 1, "the callback runs exactly once, before the borrow returns");
        ck!(d == Some(core::mem::discriminant(&F::make(r))), "the callback sees the stored variant");
        ck!(bits(&b) == w, "the box is unchanged");
    } else { each::<F>(|r| {
        let b = F::make(r).into_tagged_box();
        let w = bits(&b);
        ck!(seen::<F>(&b, &mut 0) == r, "the callback sees the stored value");
        ck!(bits(&b) == w, "the box is unchanged");
    }) }
    end!()
}
fn again<F: Fam>() {
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    let w = bits(&b);
    ck!(seen::<F>(&b, &mut 0) == r && seen::<F>(&b, &mut 0) == r, "a repeated borrow sees the stored value");
    ck!(bits(&b) == w, "the box is unchanged");
    let v = F::from_tagged_box(b);
    ck!(v.img() == r, "the value can still be taken out");
    end!()
}
/// A borrow inside the callback of a borrow of the same box.
fn inside<F: Fam>() {
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    let (mut n, mut m, mut same) = (0, 0, false);
    unsafe { F::ref_from_tagged_box(&b, |e| { n += 1; same = seen::<F>(&b, &mut m) == r && e.img() == r; }) }
    ck!(n == 1 && m == 1, "nested borrows call their callbacks once");
    ck!(same, "both see the stored value");
    ck!(F::from_tagged_box(b).img() == r, "the value can still be taken out");
    end!()
}
crate::fams! { look as borrow [kani::unwind(26)] }
crate::some_fams! { again as repeat [kani::unwind(26)] }
crate::few_fams! { inside as nested [kani::unwind(26)] }
crate::hs! {}
/// Bounded stand-in: a callback that panics. Panics unwind natively only.
#[cfg(not(kani))]
pub mod panics {
    use super::*;
    use crate::{family::*, track};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    struct Mark;
    fn callback<F: Fam>() {
        track::reset();
        let r = F::sym();
        let b = F::make(r).into_tagged_box();
        let w = bits(&b);
        let mut n = 0;
        let mut times = 1 + nd::below(3);
        while times > 0 {
            times -= 1;
            n = 0;
            let e = catch_unwind(AssertUnwindSafe(|| unsafe { F::ref_from_tagged_box(&b, |e| { n += 1; if e.img() == r { std::panic::panic_any(Mark) } }) }));
            ck!(e.is_err() && e.err().unwrap().is::<Mark>(), "the callback sees the stored value and its own panic goes through");
            ck!(n == 1, "the callback ran once");
            ck!(bits(&b) == w && track::drops() == 0, "a panic in the callback leaves box and value as they were");
        }
        ck!(seen::<F>(&b, &mut 0) == r, "a repeated borrow sees the stored value");
        let v = F::from_tagged_box(b);
        ck!(v.img() == r, "the value can still be taken out");
        drop(v);
        ck!(track::drops() == F::owned(&r) && track::at_most_once(), "the borrow left the value to its owner");
    }
    macro_rules! all { ($($n:ident : $t:ty),*) => { pub fn list() -> Vec<(&'static str, fn())> { vec![$((concat!(module_path!(), "::", stringify!($n)), callback::<$t> as fn())),*] } } }
    all! { o1: O1, o2: O2, o3: O3, o4: O4, m4: M4, o8: O8, f4: F4, g4: G4, a3: A3, n2: N2 }
}
