//! C09: writes change the stored value and nothing else.
use crate::{ck, end, grid, hs, nd, pay::*};
use core::{cmp::Ordering, marker::PhantomData, num::*, ptr::NonNull};
use tagged_box::{TaggedBox, TaggedPointer};
type B = TaggedBox<()>;

/// A value of any type overwritten by another.
fn writes<P: Pay>() {
    let d = nd::disc();
    let mut b: B = TaggedBox::new(P::sym(), d);
    let a = b.as_ptr::<P>() as u64;
    let w = P::sym();
    let i = w.img();
    if nd::bool() { unsafe { *b.as_mut_ref::<P>() = w } } else { unsafe { b.as_mut_ptr::<P>().write(w) } }
    ck!(unsafe { b.as_ref::<P>() }.img() == i, "the written value is read");
    ck!(unsafe { (*(a as *const P)).img() } == i, "the written value is where the value was");
    ck!(b.discriminant() == d && b.as_ptr::<P>() as u64 == a, "discriminant and address are not affected");
    let v = if nd::bool() { unsafe { TaggedBox::into_inner::<P>(b) } } else { unsafe { *TaggedBox::into_box::<P>(b) } };
    ck!(v.img() == i, "the written value is taken out");
    end!()
}
/// The same through a tagged pointer, with guards around the value.
fn writes_at<P: Pay>() {
    #[repr(C)] struct Guarded<P> { l: u64, v: P, r: u64 }
    let (l, r) = (nd::u64(), nd::u64());
    let mut g = Guarded { l, v: P::sym(), r };
    let at = &mut g.v as *mut P as u64;
    nd::assume(at <= nd::PMAX);
    let d = nd::disc();
    let mut t = TaggedPointer::new(at, d);
    let w = P::sym();
    let i = w.img();
    if nd::bool() { unsafe { *t.as_mut_ref::<P>() = w } } else { unsafe { t.as_mut_ptr::<P>().write(w) } }
    ck!(unsafe { t.as_ref::<P>() }.img() == i && g.v.img() == i, "the written value is read");
    ck!(g.l == l && g.r == r, "nothing else is written");
    ck!(t.discriminant() == d && t.as_u64() == at, "the tagged pointer is not affected");
    end!()
}
/// The same through a box, with other values of the type on both sides.
fn writes_in_a_row<P: Pay>() {
    let mut row = [P::sym(), P::sym(), P::sym()];
    let (l, r) = (row[0].img(), row[2].img());
    let d = nd::disc();
    let at = &mut row[1] as *mut P;
    nd::assume(at as u64 <= nd::PMAX);
    let mut b: B = unsafe { TaggedBox::from_raw(at, d) };
    let w = P::sym();
    let i = w.img();
    if nd::bool() { unsafe { *b.as_mut_ref::<P>() = w } } else { unsafe { b.as_mut_ptr::<P>().write(w) } }
    ck!(unsafe { b.as_ref::<P>() }.img() == i && unsafe { (*at).img() } == i, "the written value is read");
    ck!(row[0].img() == l && row[2].img() == r, "the values beside it are not written");
    ck!(b.discriminant() == d && b.as_ptr::<P>() == at as *const P, "discriminant and address are not affected");
    core::mem::forget(b);
    end!()
}
#[cfg(kani)]
crate::few_types! { writes as boxes [kani::unwind(26)] writes_at as pointers [kani::unwind(26)] writes_in_a_row as rows [kani::unwind(26)] }
/// Bounded: more types than the verifier can take here
#[cfg(not(kani))]
crate::all_types! { writes as boxes [] writes_at as pointers [] writes_in_a_row as rows [] }

hs! {
    #[kani::unwind(18)]
    fn one_byte_of_many() {
        let mut v = <[u8; 16] as Pay>::sym();
        let d = nd::disc();
        let mut b: B = TaggedBox::new(v, d);
        let a = b.as_ptr::<u8>() as u64;
        let (k, x, l, y) = (nd::below(16) as usize, nd::u8(), nd::below(16) as usize, nd::u8());
        unsafe { b.as_mut_ref::<[u8; 16]>()[k] = x };
        v[k] = x;
        let j = nd::below(16) as usize;
        ck!(unsafe { b.as_ref::<[u8; 16]>() }[j] == v[j], "a write through the reference changes that byte only");
        unsafe { (*b.as_mut_ptr::<[u8; 16]>())[l] = y };
        v[l] = y;
        ck!(unsafe { b.as_ref::<[u8; 16]>() }[j] == v[j], "a write through the pointer changes that byte only");
        ck!(b.discriminant() == d, "the discriminant is not affected");
        ck!(b.as_ptr::<u8>() as u64 == a, "the address is not affected");
        ck!(unsafe { TaggedBox::into_inner::<[u8; 16]>(b) }[j] == v[j], "the written value is taken out");
        end!()
    }
    fn whole_values() {
        let d = nd::disc();
        let mut b: B = TaggedBox::new((nd::u8(), nd::u64()), d);
        let w = (nd::u8(), nd::u64());
        unsafe { *b.as_mut_ref::<(u8, u64)>() = w };
        ck!(unsafe { *b.as_ref::<(u8, u64)>() } == w, "the written value is read");
        let z = nd::u64();
        unsafe { b.as_mut_ref::<(u8, u64)>().1 = z };
        ck!(unsafe { *b.as_ptr::<(u8, u64)>() } == (w.0, z), "a field write leaves the other field");
        ck!(unsafe { *TaggedBox::into_box::<(u8, u64)>(b) } == (w.0, z), "the written value is taken out");
        end!()
    }
    fn other_box_unaffected() {
        let (x, y, z) = (nd::u64(), nd::u64(), nd::u64());
        let (d, e) = (nd::disc(), nd::disc());
        let mut a: B = TaggedBox::new(x, d);
        let b: B = TaggedBox::new(y, e);
        if nd::bool() { unsafe { *a.as_mut_ref::<u64>() = z } } else { unsafe { a.as_mut_ptr::<u64>().write(z) } }
        ck!(unsafe { *b.as_ref::<u64>() } == y && b.discriminant() == e, "the other box is not affected");
        ck!(unsafe { *a.as_ref::<u64>() } == z && a.discriminant() == d, "the write is seen");
        end!()
    }
    fn owning_value() {
        let (x, y) = (nd::u16(), nd::u16());
        let d = nd::disc();
        let mut b: B = TaggedBox::new(Box::new(x), d);
        ck!(unsafe { **b.as_ref::<Box<u16>>() } == x, "the owned value is read");
        unsafe { *b.as_mut_ref::<Box<u16>>() = Box::new(y) };
        ck!(unsafe { **b.as_ref::<Box<u16>>() } == y, "the replacement is read");
        ck!(unsafe { *TaggedBox::into_inner::<Box<u16>>(b) } == y, "the replacement is taken out");
        end!()
    }
    #[kani::unwind(18)]
    fn through_a_tagged_pointer() {
        let mut o = <[u16; 4] as Pay>::sym();
        let mut v = o;
        let at = o.as_mut_ptr() as u64;
        nd::assume(at <= nd::PMAX);
        let d = nd::disc();
        let mut t = TaggedPointer::new(at, d);
        let (k, x, j) = (nd::below(4) as usize, nd::u16(), nd::below(4) as usize);
        if nd::bool() { unsafe { t.as_mut_ref::<[u16; 4]>()[k] = x } } else { unsafe { (*t.as_mut_ptr::<[u16; 4]>())[k] = x } }
        v[k] = x;
        ck!(unsafe { (*(at as *const [u16; 4]))[j] } == v[j], "the write changes that element only");
        ck!(t.discriminant() == d && t.as_u64() == at, "the tagged pointer is not affected");
        end!()
    }
}
