//! C01: address and discriminant stay apart.
use crate::{ck, end, grid, hs, nd, pay::*, pod_types};
use core::{cmp::Ordering, marker::PhantomData, num::*, ptr::NonNull};
use tagged_box::{Discriminant, TaggedPointer};

hs! {
    fn build_and_split() {
        let (p, d) = (nd::addr(), nd::disc());
        let t = TaggedPointer::new(p, d);
        ck!(t.discriminant() == d, "discriminant is the one given");
        ck!(t.as_u64() == p, "integer address is the one given");
        ck!(t.as_ptr::<u8>() as u64 == p, "const pointer is the address given");
        ck!(t.as_mut_ptr::<u8>() as u64 == p, "mutable pointer is the address given");
        ck!(t.as_ptr::<[u64; 3]>() as u64 == p, "const pointer of another type is the address given");
        ck!(t.as_mut_ptr::<()>() as u64 == p, "mutable pointer of another type is the address given");
        ck!(t.as_raw_u64() == nd::word(p, d), "raw word is discriminant above address");
        ck!(t.discriminant() == d, "discriminant is unchanged by reads");
        end!()
    }
    fn references_reach_the_object() {
        let mut x: u32 = nd::u32();
        let (x0, y) = (x, nd::u32());
        let at = &mut x as *mut u32 as u64;
        nd::assume(at <= nd::PMAX);
        let d = nd::disc();
        let mut t = TaggedPointer::new(at, d);
        ck!(unsafe { *t.as_ref::<u32>() } == x0, "shared reference reads the object");
        ck!(unsafe { t.as_ref::<u32>() } as *const u32 as u64 == at, "shared reference is at the address");
        unsafe { *t.as_mut_ref::<u32>() = y };
        ck!(unsafe { t.as_mut_ref::<u32>() } as *mut u32 as u64 == at, "mutable reference is at the address");
        ck!(unsafe { *(at as *const u32) } == y, "mutable reference writes the object");
        ck!(unsafe { *t.as_ref::<u32>() } == y, "the write is read back");
        ck!(t.discriminant() == d && t.as_u64() == at, "both parts unchanged by the write");
        end!()
    }
    fn references_of_a_wide_object() {
        let x: [u8; 24] = Pay::sym();
        let at = &x as *const _ as u64;
        nd::assume(at <= nd::PMAX);
        let t = TaggedPointer::new(at, nd::disc());
        let i = nd::below(24) as usize;
        ck!(unsafe { t.as_ref::<[u8; 24]>() }[i] == x[i], "every byte is reached through the reference");
        end!()
    }
    // Whatever pointers exist, the pair is recovered from the word alone.
    fn distinct_pairs_distinct_words() {
        let (p, d, q, e) = (nd::addr(), nd::disc(), nd::addr(), nd::disc());
        let (t, u) = (TaggedPointer::new(p, d), TaggedPointer::new(q, e));
        ck!((t.as_raw_u64() == u.as_raw_u64()) == (p == q && d == e), "words coincide only for equal pairs");
        end!()
    }
}
fn dang<P: Pay>() {
    let d = nd::disc();
    let t = TaggedPointer::dangling::<P>(d);
    ck!(t.discriminant() == d, "discriminant is the one given");
    ck!(t.as_u64() != 0, "address is not null");
    ck!(t.as_u64() % core::mem::align_of::<P>() as u64 == 0, "address is aligned for the type");
    ck!(t.as_ptr::<P>() as u64 == t.as_u64() && t.as_mut_ptr::<P>() as u64 == t.as_u64(), "pointers are that address");
    ck!(t.as_raw_u64() == nd::word(t.as_u64(), d), "raw word is discriminant above address");
    // At any address, and at that of a value
    let p = nd::addr();
    let t = TaggedPointer::new(p, d);
    ck!(t.as_ptr::<P>() as u64 == p && t.as_mut_ptr::<P>() as u64 == p, "pointers are the address given");
    let mut v = P::sym();
    let at = &mut v as *mut P as u64;
    nd::assume(at <= nd::PMAX);
    let mut t = TaggedPointer::new(at, d);
    ck!(t.as_ptr::<P>() as u64 == at && t.as_mut_ptr::<P>() as u64 == at, "pointers are the address of the value");
    ck!(unsafe { t.as_ref::<P>() } as *const P as u64 == at, "the shared reference is at the address");
    ck!(unsafe { t.as_mut_ref::<P>() } as *mut P as u64 == at, "the mutable reference is at the address");
    ck!(t.as_u64() == at && t.discriminant() == d, "both parts are unchanged");
    end!()
}
pod_types! { dang as dangling [] }
