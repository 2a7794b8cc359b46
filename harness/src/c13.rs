//! C13: enum to container and back is the identity.
use crate::{ck, end, fam::*, nd};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};
fn round<F: Fam>() {
    each::<F>(|r| {
        let c = F::C::from(F::make(r));
        let v = c.into_inner();
        ck!(v.img() == r, "the container yields the value it was made from");
    });
    end!()
}
fn twice<F: Fam>() {
    let r = F::sym();
    let v = F::C::from(F::make(r)).into_inner();
    let w = F::C::from(v).into_inner();
    ck!(w.img() == r, "a second trip yields the value again");
    end!()
}
crate::fams! { round as container [kani::unwind(26)] }
crate::some_fams! { twice as chain [kani::unwind(26)] }
crate::hs! {}
