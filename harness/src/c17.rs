//! C17: variants and discriminants.
use crate::{ck, end, fam::*, forbidden, must_panic, nd};
use tagged_box::{Discriminant, TaggableContainer, TaggableInner, TaggedBox};
fn number<F: Fam>() {
    each::<F>(|r| {
        let b = F::make(r).into_tagged_box();
        let d = b.discriminant();
        ck!(d as u32 == F::variant(&r), "variants are numbered in declaration order");
        ck!(d as u64 <= nd::SMAX, "the discriminant is in range");
    });
    end!()
}
fn number_c<F: Fam>() {
    let r = F::sym();
    let b = unwrap::<F>(F::C::from(F::make(r)));
    ck!(b.discriminant() as u32 == F::variant(&r), "a container uses the same discriminant");
    end!()
}
/// A box with a discriminant of no variant and any address.
fn unknown<F: Fam>() -> TaggedBox<F> {
    let d = nd::disc();
    nd::assume(d as u32 >= F::N);
    unsafe { TaggedBox::from_raw(nd::addr() as *mut u8, d) }
}
/// Where every discriminant belongs to a variant there is nothing to reject.
fn rejects<F: Fam, R>(f: impl FnOnce(TaggedBox<F>) -> R) {
    if F::N as u64 > nd::SMAX { must_panic(|| panic!("every discriminant belongs to a variant")) }
    else { let b = unknown::<F>(); must_panic(move || f(b)) }
}
fn extract<F: Fam>() { rejects::<F, _>(|b| wrap::<F>(b).into_inner()) }
fn rebuild<F: Fam>() { rejects::<F, _>(|b| F::from_tagged_box(b)) }
fn borrow<F: Fam>() { rejects::<F, _>(|b| unsafe { F::ref_from_tagged_box(&b, |_| forbidden()) }) }
crate::fams! { number as numbers [kani::unwind(26)] }
crate::some_fams! {
    number_c as container [kani::unwind(26)]
    extract as no_extract [kani::unwind(26), kani::should_panic]
    rebuild as no_rebuild [kani::unwind(26), kani::should_panic]
    borrow as no_borrow [kani::unwind(26), kani::should_panic]
}
crate::hs! {}
