//! C21: printing a box.
use crate::{ck, end, hs, nd, sink::Sink, track};
use core::fmt::{self, Write};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

use crate::shape::{printed, Shape, T};

fn print<const N: usize>(cap: usize, f: fmt::Arguments<'_>) -> (Sink<N>, bool) {
    let mut s = Sink::<N>::failing_after(cap);
    let r = s.write_fmt(f).is_ok();
    (s, r)
}
/// Any short text depending on the value, in any number of pieces, and maybe an error before,
/// between or after them.
fn custom<S: Shape + fmt::Debug + fmt::Display + Clone>(debug: bool) {
    let e = printed::<S>();
    let b = e.twin().into_tagged_box();
    track::reset();
    let cap = nd::below(5) as usize;
    let ((want, ok), (got, ok2)) = if debug { (print::<4>(cap, format_args!("{:?}", e)), { unsafe { T.seen = None }; print::<4>(cap, format_args!("{:?}", b)) }) }
        else { (print::<4>(cap, format_args!("{}", e)), { unsafe { T.seen = None }; print::<4>(cap, format_args!("{}", b)) }) };
    ck!(want.same(&got), "the box prints exactly what the enum prints");
    ck!(ok == ok2, "an error is reported exactly when the enum or the output reports one");
    ck!(unsafe { T.seen } == Some(e.img()), "the stored value is what is printed");
    ck!(track::drops() == 0, "printing drops nothing");
    ck!(S::from_tagged_box(b).img() == e.img(), "printing leaves the box unchanged");
    end!()
}
fn debug<S: Shape + fmt::Debug + fmt::Display + Clone>() { custom::<S>(true) }
fn display<S: Shape + fmt::Debug + fmt::Display + Clone>() { custom::<S>(false) }
crate::shape_types! {
    debug as debugs [kani::unwind(8)]
    display as displays [kani::unwind(8)]
}
mod derived {
    tagged_box::tagged_box! {
        #[derive(Clone, Debug, PartialEq)]
        pub struct C, pub enum E { Ab(bool), S { x: bool, yy: () }, }
    }
}
/// Bounded: long texts in many pieces, into an output that fails anywhere, with any options.
#[cfg(not(kani))]
pub mod long {
    use super::*;
    tagged_box::tagged_box! { #[derive(Clone, Debug, PartialEq)] pub struct C, pub enum E { Text(String), Pieces(Vec<String>, u32), } }
    impl fmt::Display for E {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                E::Text(s) => f.write_str(s),
                E::Pieces(v, n) => { for s in v { f.write_str(s)?; f.write_char('\u{1F980}')?; } write!(f, "{}", n) }
            }
        }
    }
    struct Out { s: String, room: usize }
    impl Write for Out {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            for c in s.chars() { if self.room == 0 { return Err(fmt::Error) } self.room -= 1; self.s.push(c) }
            Ok(())
        }
    }
    fn text() -> String {
        let n = match nd::below(4) { 0 => nd::below(20) as usize, 1 => nd::u16() as usize % 300, 2 => nd::u16() as usize % 5000, _ => nd::u16() as usize };
        let k = nd::u8();
        (0..n).map(|i| if i % 7 == 3 { '\u{e9}' } else { (b' ' + ((i as u8).wrapping_mul(k) % 90)) as char }).collect()
    }
    fn law() {
        let v = if nd::bool() { E::Text(text()) } else { E::Pieces((0..nd::below(6)).map(|_| text()).collect(), nd::u32()) };
        let b = v.clone().into_tagged_box();
        let room = if nd::bool() { usize::MAX } else { nd::u16() as usize % if nd::bool() { 40 } else { 3000 } };
        let p = |a: fmt::Arguments<'_>| { let mut o = Out { s: String::new(), room }; let r = o.write_fmt(a); (o.s, r.is_ok()) };
        ck!(p(format_args!("{:?}", v)) == p(format_args!("{:?}", b)), "the box prints exactly what the enum prints");
        ck!(p(format_args!("{}", v)) == p(format_args!("{}", b)), "the box prints exactly what the enum prints");
        ck!(E::from_tagged_box(b) == v, "printing leaves the box unchanged");
    }
    pub const LIST: &[(&str, fn())] = &[("c21::long::law", law as fn())];
}
hs! {
    #[kani::unwind(40)]
    fn derived_debug() {
        use derived::E;
        let x = nd::bool();
        let (e, f) = if nd::bool() { (E::Ab(x), E::Ab(x)) } else { (E::S { x, yy: () }, E::S { x, yy: () }) };
        let b = f.into_tagged_box();
        let (want, ok) = print::<40>(40, format_args!("{:?}", e));
        let (got, ok2) = print::<40>(40, format_args!("{:?}", b));
        ck!(want.same(&got) && ok == ok2, "the box prints exactly what the enum prints");
        ck!(E::from_tagged_box(b) == e, "printing leaves the box unchanged");
        end!()
    }
}
