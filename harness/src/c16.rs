//! C16: From conversions.
use crate::{ck, end, fam::*, nd};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};
fn conv<F: Fam>() {
    each::<F>(|r| {
        if let Some(c) = F::from_payload(r) {
            let v = c.into_inner();
            ck!(v.img() == r, "the container holds that variant with those fields");
        }
    });
    end!()
}
crate::fams! { conv as from [kani::unwind(26)] }
crate::hs! {}
