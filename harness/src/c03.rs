//! C03: out-of-range parts are rejected, in-range parts never.
use crate::{ck, end, grid, hs, must_panic, nd, pay::*, pod_types};
use core::{cmp::Ordering, marker::PhantomData, num::*, ptr::NonNull};
use tagged_box::{Discriminant, TaggedBox, TaggedPointer};
type B = TaggedBox<()>;

fn badaddr() -> u64 { let p = nd::u64(); nd::assume(p > nd::PMAX); p }

#[cfg(feature = "baddisc")]
pub mod bd {
    use super::*;
    hs! {
        #[kani::should_panic]
        fn pointer_disc() { let (p, d) = (nd::u64(), nd::baddisc()); must_panic(|| TaggedPointer::new(p, d)) }
        #[kani::should_panic]
        fn from_raw_disc() { let (p, d) = (nd::u64(), nd::baddisc()); must_panic(|| unsafe { B::from_raw(p as *mut u32, d) }) }
    }
}
#[cfg(all(not(feature = "baddisc"), not(kani)))]
pub mod bd { pub const LIST: &[(&str, fn())] = &[]; }

hs! {
    #[kani::should_panic]
    fn pointer_addr() { let (p, d) = (badaddr(), nd::rawdisc()); must_panic(|| TaggedPointer::new(p, d)) }
    #[kani::should_panic]
    fn from_raw_addr() { let (p, d) = (badaddr(), nd::rawdisc()); must_panic(|| unsafe { B::from_raw(p as *mut [u8; 9], d) }) }
    fn pointer_in_range() { let (p, d) = (nd::addr(), nd::disc()); let t = TaggedPointer::new(p, d); ck!(t.as_raw_u64() == nd::word(p, d), "accepted"); end!() }
    fn from_raw_in_range() { let (p, d) = (nd::addr(), nd::disc()); let b = unsafe { B::from_raw(p as *mut u32, d) }; ck!(b.discriminant() == d, "accepted"); end!() }
}
#[cfg(feature = "baddisc")]
fn new_bad<P: Pay>() { let (v, d) = (P::sym(), nd::baddisc()); must_panic(move || B::new(v, d)) }
#[cfg(feature = "baddisc")]
fn dang_bad<P: Pay>() {
    let d = nd::baddisc();
    if nd::bool() { must_panic(|| B::dangling::<P>(d)) } else { must_panic(|| TaggedPointer::dangling::<P>(d)) }
}
fn new_ok<P: Pay>() {
    let d = nd::disc();
    let b = B::new(P::sym(), d);
    ck!(b.discriminant() == d, "accepted");
    let b = B::dangling::<P>(d);
    ck!(b.discriminant() == d, "accepted");
    end!()
}
#[cfg(feature = "baddisc")]
pod_types! { new_bad as newbad [kani::should_panic, kani::unwind(26)] dang_bad as dangbad [kani::should_panic] }
#[cfg(all(not(feature = "baddisc"), not(kani)))]
pub mod newbad { pub const LIST: &[(&str, fn())] = &[]; }
#[cfg(all(not(feature = "baddisc"), not(kani)))]
pub mod dangbad { pub const LIST: &[(&str, fn())] = &[]; }
pod_types! { new_ok as newok [kani::unwind(26)] }
