//! C07: a boxed value comes back unchanged.
use crate::{all_types, ck, end, grid, hs, nd, pay::*};
use core::{cmp::Ordering, marker::PhantomData, mem, num::*, ptr::NonNull};
use tagged_box::TaggedBox;
type B = TaggedBox<()>;

fn roundtrip<P: Pay>() {
    let v = P::sym();
    let i = v.img();
    let d = nd::disc();
    let mut b: B = if nd::bool() { TaggedBox::new(v, d) } else { unsafe { TaggedBox::new_unchecked(v, d) } };
    unsafe {
        ck!(b.as_ref::<P>().img() == i, "shared reference sees the value");
        ck!((*b.as_ptr::<P>()).img() == i, "const pointer sees the value");
        ck!(b.as_mut_ref::<P>().img() == i, "mutable reference sees the value");
        ck!((*b.as_mut_ptr::<P>()).img() == i, "mutable pointer sees the value");
        let out: P = match nd::below(3) {
            0 => TaggedBox::into_inner::<P>(b),
            1 => *TaggedBox::into_box::<P>(b),
            _ => TaggedBox::into_raw::<P>(b).read(),
        };
        ck!(out.img() == i, "the value taken out is the value put in");
    }
    end!()
}
all_types! { roundtrip as rt [kani::unwind(26)] }

hs! {
    // Two live boxes of different types do not disturb each other.
    #[kani::unwind(10)]
    fn two_boxes() {
        let (x, y) = (nd::u64(), <[u8; 9] as Pay>::sym());
        let (d, e) = (nd::disc(), nd::disc());
        let (a, b): (B, B) = (TaggedBox::new(x, d), TaggedBox::new(y, e));
        if nd::bool() {
            ck!(unsafe { TaggedBox::into_inner::<u64>(a) } == x, "first box unaffected by the second");
            ck!(unsafe { TaggedBox::into_inner::<[u8; 9]>(b) } == y, "second box unaffected by the first");
        } else {
            ck!(unsafe { *TaggedBox::into_box::<[u8; 9]>(b) } == y, "second box unaffected by the first");
            ck!(unsafe { *TaggedBox::into_box::<u64>(a) } == x, "first box unaffected by the release of the second");
        }
        end!()
    }
    // A larger value; one arbitrary element stands for all of them.
    fn large_value() {
        let (at, x) = (nd::below(12) as usize, nd::u64());
        let mut v = [7u64; 12];
        v[at] = x;
        let b: B = TaggedBox::new(v, nd::disc());
        let j = nd::below(12) as usize;
        ck!(unsafe { b.as_ref::<[u64; 12]>() }[j] == if j == at { x } else { 7 }, "every part of a large value is kept");
        let w = unsafe { TaggedBox::into_inner::<[u64; 12]>(b) };
        ck!(w[j] == if j == at { x } else { 7 }, "every part of a large value is returned");
        end!()
    }
    // A box moved around and re-boxed keeps its value.
    #[kani::unwind(10)]
    fn nested_and_moved() {
        let x = nd::u32();
        let (d, e) = (nd::disc(), nd::disc());
        let inner: TaggedBox<u8> = TaggedBox::new(x, d);
        let outer: B = TaggedBox::new(inner, e);
        let mut slots = [Some(outer), None];
        slots.swap(0, 1);
        let outer = slots[1].take().unwrap();
        ck!(outer.discriminant() == e, "outer discriminant");
        let inner: TaggedBox<u8> = unsafe { TaggedBox::into_inner(outer) };
        ck!(inner.discriminant() == d, "inner discriminant");
        ck!(unsafe { TaggedBox::into_inner::<u32>(inner) } == x, "inner value");
        end!()
    }
}
