//! C14: enum to box and back is the identity, in agreement with the container.
use crate::{ck, end, fam::*, nd};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};
fn round<F: Fam>() {
    each::<F>(|r| {
        let v = F::from_tagged_box(F::make(r).into_tagged_box());
        ck!(v.img() == r, "the box yields the value it was made from");
    });
    end!()
}
fn agree<F: Fam>() {
    let r = F::sym();
    let v = F::make(r);
    let w = match nd::below(3) {
        0 => F::from_tagged_box(F::from_tagged_box(v.into_tagged_box()).into_tagged_box()),
        1 => F::from_tagged_box(unwrap::<F>(F::C::from(v))),
        _ => wrap::<F>(v.into_tagged_box()).into_inner(),
    };
    ck!(w.img() == r, "a second trip, the box of a container and a container around the box yield the same value");
    end!()
}
crate::fams! { round as boxed [kani::unwind(26)] }
crate::some_fams! { agree as same [kani::unwind(26)] }
crate::hs! {}
