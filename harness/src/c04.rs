//! C04: what each setting of the reserved width publishes. The oracle (nd::W) reads the setting.
use crate::{ck, end, hs, nd};
use core::mem;
use tagged_box::{discriminant as pb, Discriminant, TaggedPointer};
hs! {
    fn published() {
        ck!(pb::POINTER_WIDTH as u128 == nd::W as u128, "the published pointer width is the one set");
        ck!(pb::DISCRIMINANT_BITS as u128 == 64 - nd::W as u128, "the discriminant has the remaining bits");
        ck!(pb::MAX_DISCRIMINANT as u128 == (1u128 << (64 - nd::W)) - 1, "the maximum discriminant is 2^(64-W)-1");
        ck!(pb::MAX_POINTER_VALUE as u128 == (1u128 << nd::W) - 1, "the maximum pointer value is 2^W-1");
        ck!(pb::DISCRIMINANT_MASK as u128 == (1u128 << nd::W) - 1, "the address mask is 2^W-1");
        ck!(Discriminant::MIN as i128 == 0 && mem::size_of::<Discriminant>() as u32 * 8 >= 64 - nd::W, "the discriminant type is wide enough");
        end!()
    }
    fn holds_every_discriminant() {
        let x = nd::u64() % (nd::SMAX as u128 + 1) as u64;
        ck!(x as Discriminant as u64 == x && (x as Discriminant) <= pb::MAX_DISCRIMINANT, "every discriminant up to the maximum can be expressed");
        end!()
    }
    fn in_effect() {
        let (a, d) = (nd::addr(), nd::disc());
        let w = TaggedPointer::store_discriminant(a, d);
        ck!(w == nd::word(a, d), "the split is the one in effect");
        ck!(TaggedPointer::fetch_discriminant(w) == d && TaggedPointer::strip_discriminant(w) == a, "the split is the one in effect");
        end!()
    }
}
