//! C22: one machine word.
use crate::{ck, end, fam::*, grid, hs, nd, pay::*};
use core::{cmp::Ordering, marker::PhantomData, mem, num::*, ptr::NonNull};
use tagged_box::{TaggableInner, TaggedBox, TaggedPointer};

fn one_word<T>() { ck!(mem::size_of::<T>() == 8 && mem::align_of::<T>() == mem::align_of::<u64>(), "exactly as large and as aligned as a 64-bit word") }
fn boxed<P: Pay>() {
    one_word::<TaggedBox<P>>();
    one_word::<TaggedBox<[P; 3]>>();
    let v = P::sym();
    let i = v.img();
    let d = nd::disc();
    let b = TaggedBox::<P>::new(v, d);
    let a = b.as_ptr::<P>() as u64;
    let w: u64 = unsafe { mem::transmute_copy(&b) };
    ck!(w == nd::word(a, d), "the word is the discriminant and the address combined");
    ck!(unsafe { &*(nd::addr_of(w) as *const P) }.img() == i, "the value is at the address in the word");
    end!()
}
fn family<F: Fam>() {
    one_word::<F::C>();
    one_word::<TaggedBox<F>>();
    let r = F::sym();
    let c = F::C::from(F::make(r));
    let w: u64 = unsafe { mem::transmute_copy(&c) };
    ck!(nd::tag_of(w) == F::variant(&r) as u64, "the tag of the word is the variant");
    let b = unwrap::<F>(c);
    ck!(nd::addr_of(w) == b.as_ptr::<u8>() as u64, "the rest of the word is the address");
    let w: u64 = bits(&F::from_tagged_box(b).into_tagged_box());
    ck!(nd::tag_of(w) == F::variant(&r) as u64, "the tag of the word of the box is the variant");
    end!()
}
crate::pod_types! { boxed as words [kani::unwind(26)] }
crate::fams! { family as containers [kani::unwind(26)] }
hs! {
    fn pointer() {
        one_word::<TaggedPointer>();
        let (a, d) = (nd::addr(), nd::disc());
        let p = TaggedPointer::new(a, d);
        let w: u64 = unsafe { mem::transmute(p) };
        ck!(w == nd::word(a, d), "the word is the discriminant and the address combined");
        ck!(p.as_raw_u64() == w, "the raw word is that word");
        let b = unsafe { TaggedBox::<u8>::from_raw(a as *mut u8, d) };
        ck!(unsafe { mem::transmute::<_, u64>(b) } == w, "a box made from the address is that word");
        end!()
    }
}
