#![allow(dead_code, static_mut_refs, unused_imports, unused_macros, non_camel_case_types, unused_parens)]
#![cfg_attr(kani, feature(formatting_options))]
#![recursion_limit = "2048"]
extern crate alloc;
#[cfg(all(kani, feature = "ctr"))]
pub mod ctr;
pub mod heap;
pub mod nd;
pub mod pay;
pub mod sink;
pub mod track;
pub mod fam;
#[cfg(any(feature = "c19", feature = "c20", feature = "c21"))]
pub mod shape;
#[cfg(any(feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19", feature = "c20", feature = "c22"))]
pub mod family;

/// An obligation: a condition that must hold, named by its text.
#[macro_export]
macro_rules! ck { ($c:expr, $m:expr) => { assert!($c, concat!("obligation: ", $m)) } }
/// The end of a harness: must be reachable, or everything before it holds vacuously.
#[macro_export]
macro_rules! end { () => { { #[cfg(kani)] kani::cover!(true, "END"); } } }

/// A point of a `must_panic` body that must not be reached.
#[cfg(kani)]
pub fn forbidden() { kani::cover!(true, "RETURNED") }
#[cfg(not(kani))]
static mut FORBIDDEN: bool = false;
#[cfg(not(kani))]
pub fn forbidden() { unsafe { FORBIDDEN = true } }

/// What `f` does must end in a panic, for every input.
#[cfg(kani)]
pub fn must_panic<R>(f: impl FnOnce() -> R) {
    let r = f();
    kani::cover!(true, "RETURNED");
    core::mem::forget(r);
}
#[cfg(not(kani))]
pub fn must_panic<R>(f: impl FnOnce() -> R) {
    unsafe { FORBIDDEN = false }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if unsafe { FORBIDDEN } { panic!("obligation: must panic, but went on") }
    match r {
        Ok(r) => { core::mem::forget(r); panic!("obligation: must panic, but returned") }
        Err(e) => if e.is::<nd::native::Rejected>() { std::panic::resume_unwind(e) }
    }
}

/// Declares harnesses: proofs under Kani, plain functions in a table otherwise.
#[macro_export]
macro_rules! hs {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( #[cfg_attr(kani, kani::proof)] $(#[cfg_attr(kani, $m)])* pub fn $name() $body )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $((concat!(module_path!(), "::", stringify!($name)), $name as fn()),)* ];
    };
}
/// One harness per payload type: `grid! { generic_fn [attributes] { name: Type, ... } }`.
#[macro_export]
macro_rules! grid {
    ($($gen:ident as $md:ident $attrs:tt { $($n:ident : $t:ty),* $(,)? })*) => { $(
        pub mod $md {
            use super::*;
            $( grid! { @item $gen $attrs $n [$t] } )*
            #[cfg(not(kani))]
            pub const LIST: &[(&str, fn())] = &[ $((concat!(module_path!(), "::", stringify!($n)), $n as fn()),)* ];
        } )*
    };
    (@item $gen:ident [$($m:meta),*] $n:ident [$t:ty]) => {
        #[cfg_attr(kani, kani::proof)] $(#[cfg_attr(kani, $m)])* pub fn $n() { $gen::<$t>() }
    };
}
/// The whole type grid.
#[cfg(feature = "lite")]
pub use pod_types as all_types;
#[cfg(not(feature = "lite"))]
#[macro_export]
macro_rules! all_types {
    ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs {
        t_u8: u8, t_u16: u16, t_u32: u32, t_u64: u64, t_u128: u128, t_i8: i8, t_i64: i64, t_usize: usize,
        t_bool: bool, t_char: char, t_f32: f32, t_f64: f64,
        t_a3: [u8; 3], t_a5w: [u16; 5], t_w3: [u64; 3], t_a0: [u32; 0],
        t_pair: (u8, u32), t_triple: (u8, u64, u16), t_pad: Pad, t_packed: Packed,
        t_optnz: Option<NonZeroU8>, t_nz: NonZeroU64, t_opt: Option<u32>, t_optref: Option<&'static u8>, t_slice: &'static [u8],
        t_nonnull: NonNull<u16>, t_ord: Ordering, t_fn: fn(u8) -> u8, t_dyn: &'static dyn Tr,
        t_box: Box<u16>, t_optbox: Option<Box<u32>>, t_vec: Vec<u8>,
        t_al16: Al16, t_al64: Al64, t_al256: Al256, t_albig: AlBig,
        t_huge: Huge, t_odd8: Odd<u8, 67>, t_odd16: Odd<u16, 37>, t_odd32: Odd<u32, 21>,
        t_unit: (), t_zst: Zst, t_za16: Za16, t_za4096: Za4096, t_zabig: ZaBig, t_phantom: PhantomData<u64>,
        t_tbox: tagged_box::TaggedBox<u8>, t_tptr: tagged_box::TaggedPointer,
    } )* } };
}
#[cfg(not(feature = "lite"))]
#[macro_export]
macro_rules! pod_types {
    ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs {
        t_u8: u8, t_u32: u32, t_u64: u64, t_u128: u128, t_bool: bool, t_a3: [u8; 3], t_w3: [u64; 3],
        t_triple: (u8, u64, u16), t_pad: Pad, t_optnz: Option<NonZeroU8>, t_slice: &'static [u8],
        t_al32: Al32, t_albig: AlBig, t_huge: Huge, t_odd8: Odd<u8, 67>, t_unit: (), t_za16: Za16, t_za4096: Za4096, t_zabig: ZaBig, t_a0: [u32; 0],
    } )* } };
}
/// Hardly any types, for the many widths.
#[cfg(feature = "lite")]
#[macro_export]
macro_rules! pod_types {
    ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs { t_u64: u64, t_a3: [u8; 3], t_unit: (), } )* } };
}
/// A few types, for the costlier proofs (the whole grid with feature "full").
#[cfg(not(any(feature = "full", feature = "lite")))]
#[macro_export]
macro_rules! few_types {
    ($($gen:ident as $md:ident $attrs:tt)*) => { grid! { $( $gen as $md $attrs {
        t_u8: u8, t_u64: u64, t_a3: [u8; 3], t_optnz: Option<NonZeroU8>, t_slice: &'static [u8],
        t_al16: Al16, t_unit: (), t_za16: Za16,
    } )* } };
}
#[cfg(any(feature = "full", feature = "lite"))]
pub use pod_types as few_types;
macro_rules! props { ($($m:ident $f:literal [$($sub:ident)*] [$($fam:ident)*])*) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn all() -> Vec<(&'static str, fn())> {
        #[allow(unused_mut)] let mut v: Vec<(&'static str, fn())> = vec![];
        $( #[cfg(feature = $f)] { v.extend_from_slice($m::LIST); $( v.extend_from_slice($m::$sub::LIST); )* $( v.extend($m::$fam::list()); )* } )*
        v
    }
} }
props! {
    c01 "c01" [dangling] []
    c02 "c02" [] []
    c03 "c03" [bd newbad dangbad newok] []
    c04 "c04" [] []
    c05 "c05" [] []
    c06 "c06" [numeric options whole pointer] []
    c07 "c07" [rt] []
    c08 "c08" [keep retag looks] []
    c09 "c09" [boxes pointers rows] []
    c13 "c13" [] [container chain]
    c14 "c14" [] [boxed same]
    c15 "c15" [] [borrow repeat nested panics]
    c16 "c16" [] [from]
    c17 "c17" [] [numbers container no_extract no_rebuild no_borrow]
    c18 "c18" [] [each pairs]
    c19 "c19" [] [own_clone own_taken own_container own_clone_from pod_clone_from customs pod_clone pod_container pod_copy pod_copy_box float_clone float_copy]
    c20 "c20" [] [own_partial own_container own_itself pod_partial pod_operators pod_total float_partial float_operators float_container float_itself eqs partials totals]
    c22 "c22" [words] [containers]
    c10 "c10" [every] [boxes conts comps panics]
    c21 "c21" [long] [debugs displays]
    c11 "c11" [pods own oom] [variants clones oom_enum]
    c12 "c12" [boxes others leaks looks] [enums payloads pairs]
}
