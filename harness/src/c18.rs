//! C18: an enum with exactly as many variants as there are discriminants works.
//! (More variants than that: see bin/extras.py.)
use crate::{ck, end, fam::*, hs, nd};
use tagged_box::{TaggableContainer, TaggableInner};
fn full<F: Fam>() {
    ck!(F::N as u64 == nd::SMAX + 1, "the enum uses every discriminant");
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    ck!(b.discriminant() as u64 == F::variant(&r) as u64, "each variant has its own discriminant");
    let mut n = 0;
    unsafe { F::ref_from_tagged_box(&b, |v| { n += 1; ck!(F::variant(&v.img()) == F::variant(&r), "borrowing yields that variant") }) }
    ck!(n == 1, "the callback runs once");
    let v = if nd::bool() { F::from_tagged_box(b) } else { wrap::<F>(b).into_inner() };
    ck!(v.img() == r, "every variant comes back");
    end!()
}
fn apart<F: Fam>() {
    let (r, s) = (F::sym(), F::sym());
    let (a, b) = (F::make(r).into_tagged_box(), F::make(s).into_tagged_box());
    ck!((a.discriminant() == b.discriminant()) == (F::variant(&r) == F::variant(&s)), "two variants never share a discriminant");
    end!()
}
crate::exact_fams! { full as each [kani::unwind(26)] apart as pairs [kani::unwind(26)] }
hs! {}
