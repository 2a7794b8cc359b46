//! Proofs of the contracts that stand on /repo's functions, one obligation set per function
//! (and payload type). Built with `--cfg tagged_box_contracts`.
//!
//! Callers are checked against the contracts of their callees (`stub_verified`) wherever the
//! callee's contract carries everything the caller needs; functions that hand out memory are
//! checked with their callees' bodies.
use tagged_box::{discriminant::MAX_DISCRIMINANT, Discriminant, TaggedBox, TaggedPointer};
type B = TaggedBox<()>;

fn word() -> u64 { kani::any() }
fn ptr() -> TaggedPointer { unsafe { core::mem::transmute::<u64, TaggedPointer>(word()) } }
fn disc() -> Discriminant { let d = kani::any(); kani::assume(d as u64 <= crate::nd::SMAX); d }

macro_rules! h { ($($name:ident for $f:path [$($st:path),*] => $e:expr;)*) => { $(
    #[kani::proof_for_contract($f)] $(#[kani::stub_verified($st)])*
    fn $name() { let r = $e; core::mem::forget(r); kani::cover!(true, "END"); } )* } }
macro_rules! g { ($($md:ident for $f:path [$u:literal] $b:block)*) => { $( mod $md {
    use super::*;
    g! { @t $f, $u, $b, t_u8 u8, t_u16 u16, t_u64 u64, t_a3 [u8; 3], t_unit (), t_al16 crate::pay::Za16 }
} )* };
    (@t $f:path, $u:literal, $b:block, $($n:ident $t:ty),*) => { $(
        #[kani::proof_for_contract($f)] #[kani::unwind($u)]
        fn $n() { type P = $t; run::<P>(); kani::cover!(true, "END"); }
    )* fn run<P: crate::pay::Pay>() $b }
}

#[cfg(feature = "c01")]
pub mod pointer {
    use super::*;
    h! {
        new for TaggedPointer::new [TaggedPointer::store_discriminant] => TaggedPointer::new(kani::any(), kani::any());
        store for TaggedPointer::store_discriminant [] => TaggedPointer::store_discriminant(kani::any(), kani::any());
        fetch for TaggedPointer::fetch_discriminant [] => TaggedPointer::fetch_discriminant(kani::any());
        strip for TaggedPointer::strip_discriminant [] => TaggedPointer::strip_discriminant(kani::any());
        discriminant for TaggedPointer::discriminant [TaggedPointer::fetch_discriminant] => ptr().discriminant();
        as_u64 for TaggedPointer::as_u64 [TaggedPointer::strip_discriminant] => ptr().as_u64();
        as_raw_u64 for TaggedPointer::as_raw_u64 [] => ptr().as_raw_u64();
        as_ptr for TaggedPointer::as_ptr [TaggedPointer::strip_discriminant] => ptr().as_ptr::<u32>();
        as_mut_ptr for TaggedPointer::as_mut_ptr [TaggedPointer::strip_discriminant] => ptr().as_mut_ptr::<[u16; 7]>();
        dangling for TaggedPointer::dangling [TaggedPointer::store_discriminant] => TaggedPointer::dangling::<u64>(kani::any());
        dangling_1 for TaggedPointer::dangling [TaggedPointer::store_discriminant] => TaggedPointer::dangling::<u8>(kani::any());
        dangling_4096 for TaggedPointer::dangling [TaggedPointer::store_discriminant] => TaggedPointer::dangling::<crate::pay::Za4096>(kani::any());
    }
    // Real addresses: only where the verifier's addresses fit (see DESIGN.md)
    #[cfg(feature = "realaddr")]
    h! {
        as_ref for TaggedPointer::as_ref [] => { let x: u32 = kani::any(); let p = TaggedPointer::new(&x as *const u32 as u64, disc()); unsafe { p.as_ref::<u32>() as *const u32 } };
        as_mut_ref for TaggedPointer::as_mut_ref [] => { let mut x: u32 = kani::any(); let mut p = TaggedPointer::new(&mut x as *mut u32 as u64, disc()); unsafe { p.as_mut_ref::<u32>() as *mut u32 } };
    }
}
#[cfg(feature = "c02")]
pub mod raw {
    use super::*;
    h! {
        store for TaggedPointer::store_discriminant [] => TaggedPointer::store_discriminant(kani::any(), kani::any());
        fetch for TaggedPointer::fetch_discriminant [] => TaggedPointer::fetch_discriminant(kani::any());
        strip for TaggedPointer::strip_discriminant [] => TaggedPointer::strip_discriminant(kani::any());
    }
    // The round trips follow from the three contracts alone.
    #[kani::proof]
    #[kani::stub_verified(TaggedPointer::store_discriminant)]
    #[kani::stub_verified(TaggedPointer::fetch_discriminant)]
    #[kani::stub_verified(TaggedPointer::strip_discriminant)]
    fn lemma_round_trips() {
        let w = word();
        let (p, d) = (TaggedPointer::strip_discriminant(w), TaggedPointer::fetch_discriminant(w));
        let r = TaggedPointer::store_discriminant(p, d);
        assert!(r == w, "obligation: storing back rebuilds the word (from the contracts)");
        assert!(TaggedPointer::strip_discriminant(r) == p, "obligation: stripping gives the address back (from the contracts)");
        assert!(TaggedPointer::fetch_discriminant(r) == d, "obligation: fetching gives the discriminant back (from the contracts)");
        kani::cover!(true, "END");
    }
}
#[cfg(all(feature = "c07", feature = "realaddr"))]
pub mod value {
    use super::*;
    g! {
        new for TaggedBox::new [17] { let b = B::new::<P>(P::sym(), kani::any()); core::mem::forget(b) }
        new_unchecked for TaggedBox::new_unchecked [17] { let b = unsafe { B::new_unchecked::<P>(P::sym(), kani::any()) }; core::mem::forget(b) }
        into_inner for TaggedBox::into_inner [17] { let b = B::new::<P>(P::sym(), disc()); core::mem::forget(unsafe { B::into_inner::<P>(b) }) }
        into_box for TaggedBox::into_box [17] { let b = B::new::<P>(P::sym(), disc()); core::mem::forget(unsafe { B::into_box::<P>(b) }) }
    }
}
#[cfg(feature = "c08")]
pub mod keep {
    use super::*;
    fn any_box() -> B { unsafe { core::mem::transmute::<u64, B>(word()) } }
    h! {
        from_raw for TaggedBox::from_raw [TaggedPointer::new] => unsafe { B::from_raw(word() as *mut u32, kani::any()) };
        discriminant for TaggedBox::discriminant [TaggedPointer::discriminant] => any_box().discriminant();
        as_ptr for TaggedBox::as_ptr [] => any_box().as_ptr::<u32>();
        as_mut_ptr for TaggedBox::as_mut_ptr [] => any_box().as_mut_ptr::<[u16; 7]>();
        into_raw for TaggedBox::into_raw [] => B::into_raw::<[u8; 9]>(any_box());
        into_raw_unit for TaggedBox::into_raw [] => B::into_raw::<()>(any_box());
        into_raw_zst for TaggedBox::into_raw [] => B::into_raw::<crate::pay::Za16>(any_box());
        into_raw_word for TaggedBox::into_raw [] => B::into_raw::<u64>(any_box());
        as_ptr_unit for TaggedBox::as_ptr [] => any_box().as_ptr::<()>();
        as_ptr_zst for TaggedBox::as_ptr [] => any_box().as_ptr::<crate::pay::Za16>();
        as_mut_ptr_unit for TaggedBox::as_mut_ptr [] => any_box().as_mut_ptr::<()>();
        as_mut_ptr_zst for TaggedBox::as_mut_ptr [] => any_box().as_mut_ptr::<crate::pay::Za16>();
        from_raw_unit for TaggedBox::from_raw [TaggedPointer::new] => unsafe { B::from_raw(word() as *mut (), kani::any()) };
        from_raw_wide for TaggedBox::from_raw [TaggedPointer::new] => unsafe { B::from_raw(word() as *mut [u64; 5], kani::any()) };
        dangling_unit for TaggedBox::dangling [TaggedPointer::dangling] => B::dangling::<()>(kani::any());
        dangling_zst for TaggedBox::dangling [TaggedPointer::dangling] => B::dangling::<crate::pay::Za16>(kani::any());
        dangling for TaggedBox::dangling [TaggedPointer::dangling] => B::dangling::<u64>(kani::any());
        // Carriers of the callee contracts used above
        p_new for TaggedPointer::new [] => TaggedPointer::new(kani::any(), kani::any());
        p_discriminant for TaggedPointer::discriminant [] => ptr().discriminant();
        p_dangling for TaggedPointer::dangling [] => TaggedPointer::dangling::<u64>(kani::any());
    }
}
#[cfg(all(feature = "c09", feature = "realaddr"))]
pub mod write {
    use super::*;
    g! {
        as_ref for TaggedBox::as_ref [17] { let b = B::new::<P>(P::sym(), disc()); let _ = unsafe { b.as_ref::<P>() as *const P }; core::mem::forget(b) }
        as_mut_ref for TaggedBox::as_mut_ref [17] { let mut b = B::new::<P>(P::sym(), disc()); let _ = unsafe { b.as_mut_ref::<P>() as *mut P }; core::mem::forget(b) }
    }
}
