//! C06: numeric and pointer formatting.
use crate::{ck, end, hs, nd, sink::Sink};
use core::fmt::Write;
use tagged_box::{TaggedBox, TaggedPointer};
mod e { tagged_box::tagged_box! { pub struct C, pub enum E { A(u32), U, } } }
use e::E;

fn print<const N: usize>(f: core::fmt::Arguments<'_>) -> (Sink<N>, bool) {
    let mut s = Sink::<N>::new();
    let r = s.write_fmt(f).is_ok();
    (s, r)
}
/// Equal to what the same formatting of the address prints.
macro_rules! law { ($f:literal $n:literal) => { {
    let (a, d) = (nd::addr(), nd::disc());
    let (want, ok) = print::<$n>(format_args!($f, a));
    if nd::bool() {
        let (got, ok2) = print::<$n>(format_args!($f, TaggedPointer::new(a, d)));
        ck!(ok == ok2 && want.same(&got), "a tagged pointer prints its address");
    } else {
        let b = unsafe { TaggedBox::<E>::from_raw(a as *mut u8, d) };
        let (got, ok2) = print::<$n>(format_args!($f, b));
        ck!(ok == ok2 && want.same(&got), "a tagged box prints its address");
    }
    end!()
} } }
/// In place of integer formatting: an arbitrary function of the integer, the trait and the
/// flags. What the real functions print is such a function, so equality under this one (which
/// tells all arguments apart) carries over to them.
#[cfg(kani)]
mod digits {
    use core::fmt::{Formatter, Result, Write};
    fn rec(kind: u8, v: u64, f: &mut Formatter<'_>) -> Result {
        let mut b = [0u8; 22];
        b[0] = kind;
        b[1] = f.alternate() as u8 | (f.sign_plus() as u8) << 1 | (f.sign_minus() as u8) << 2 | (f.sign_aware_zero_pad() as u8) << 3 | (f.width().is_some() as u8) << 4 | (f.precision().is_some() as u8) << 5;
        b[2] = f.align().map_or(0, |a| a as u8 + 1);
        let (w, p, c) = (f.width().unwrap_or(0) as u32, f.precision().unwrap_or(0) as u32, f.fill() as u32);
        (b[3], b[4]) = (w as u8, (w >> 8) as u8);
        (b[5], b[6]) = (p as u8, (p >> 8) as u8);
        (b[7], b[8], b[9]) = (c as u8, (c >> 8) as u8, (c >> 16) as u8);
        let v = v.to_le_bytes();
        let mut i = 0;
        while i < 8 { b[14 + i] = v[i]; i += 1; }
        f.write_str(unsafe { core::str::from_utf8_unchecked(&b) })
    }
    macro_rules! st { ($($n:ident $m:ident $k:literal)*) => { $(
        pub fn $n(v: &u64, f: &mut Formatter<'_>) -> Result { rec($k, *v, f) }
        pub fn $m(v: &usize, f: &mut Formatter<'_>) -> Result { rec($k, *v as u64, f) }
    )* } }
    st!(x64 xs 1 up64 ups 2 o64 os 3 b64 bs 4);
}
macro_rules! num { ($($name:ident $f:literal)*) => { hs! { $(
    #[kani::unwind(26)]
    #[kani::stub(<u64 as core::fmt::LowerHex>::fmt, digits::x64)] #[kani::stub(<usize as core::fmt::LowerHex>::fmt, digits::xs)]
    #[kani::stub(<u64 as core::fmt::UpperHex>::fmt, digits::up64)] #[kani::stub(<usize as core::fmt::UpperHex>::fmt, digits::ups)]
    #[kani::stub(<u64 as core::fmt::Octal>::fmt, digits::o64)] #[kani::stub(<usize as core::fmt::Octal>::fmt, digits::os)]
    #[kani::stub(<u64 as core::fmt::Binary>::fmt, digits::b64)] #[kani::stub(<usize as core::fmt::Binary>::fmt, digits::bs)]
    fn $name() { law!($f 80) }
)* } } }
pub mod numeric {
    use super::*;
    num! {
        lower_hex "{:x}"
        upper_hex "{:X}"
        octal "{:o}"
        binary "{:b}"
        lower_hex_alt "{:#x}"
        upper_hex_alt "{:#X}"
        octal_alt "{:#o}"
        binary_alt "{:#b}"
        lower_hex_pad "{:#020x}"
        upper_hex_pad "{:>20X}"
        octal_sign "{:+o}"
        binary_pad "{:*<70.3b}"
    }
}
/// All formatting options at once: flags, fill, alignment, width and precision are arbitrary.
pub mod options {
    use super::*;
    use core::fmt::{Binary, LowerHex, Octal, Pointer, UpperHex};
    #[cfg(kani)]
    fn any() -> core::fmt::FormattingOptions {
        use core::fmt::*;
        let mut o = FormattingOptions::new();
        o.sign(match nd::below(3) { 0 => None, 1 => Some(Sign::Plus), _ => Some(Sign::Minus) });
        o.sign_aware_zero_pad(nd::bool());
        o.alternate(nd::bool());
        o.fill(nd::char());
        o.align(match nd::below(4) { 0 => None, 1 => Some(Alignment::Left), 2 => Some(Alignment::Right), _ => Some(Alignment::Center) });
        o.width(if nd::bool() { Some(nd::u16()) } else { None });
        o.precision(if nd::bool() { Some(nd::u16()) } else { None });
        o
    }
    #[cfg(kani)]
    macro_rules! all { ($($name:ident $tr:ident)*) => { hs! {
        #[kani::unwind(26)]
        #[kani::stub(<u64 as core::fmt::LowerHex>::fmt, digits::x64)] #[kani::stub(<usize as core::fmt::LowerHex>::fmt, digits::xs)]
        fn pointer() {
            let (a, d, o) = (nd::addr(), nd::disc(), any());
            let (mut want, mut got) = (Sink::<80>::new(), Sink::<80>::new());
            let ok = Pointer::fmt(&(a as *const ()), &mut o.create_formatter(&mut want)).is_ok();
            let ok2 = Pointer::fmt(&TaggedPointer::new(a, d), &mut o.create_formatter(&mut got)).is_ok();
            ck!(ok == ok2 && want.same(&got), "prints what the same formatting of the address as a pointer prints");
            end!()
        } $(
        #[kani::unwind(26)]
        #[kani::stub(<u64 as core::fmt::LowerHex>::fmt, digits::x64)] #[kani::stub(<usize as core::fmt::LowerHex>::fmt, digits::xs)]
        #[kani::stub(<u64 as core::fmt::UpperHex>::fmt, digits::up64)] #[kani::stub(<usize as core::fmt::UpperHex>::fmt, digits::ups)]
        #[kani::stub(<u64 as core::fmt::Octal>::fmt, digits::o64)] #[kani::stub(<usize as core::fmt::Octal>::fmt, digits::os)]
        #[kani::stub(<u64 as core::fmt::Binary>::fmt, digits::b64)] #[kani::stub(<usize as core::fmt::Binary>::fmt, digits::bs)]
        fn $name() {
            let (a, d, o) = (nd::addr(), nd::disc(), any());
            let (mut want, mut got) = (Sink::<80>::new(), Sink::<80>::new());
            let ok = $tr::fmt(&a, &mut o.create_formatter(&mut want)).is_ok();
            let ok2 = if nd::bool() { $tr::fmt(&TaggedPointer::new(a, d), &mut o.create_formatter(&mut got)) }
                else { $tr::fmt(&unsafe { TaggedBox::<E>::from_raw(a as *mut u8, d) }, &mut o.create_formatter(&mut got)) }.is_ok();
            ck!(ok == ok2 && want.same(&got), "prints what the same formatting of the address prints");
            end!()
        }
    )* } } }
    /// Bounded: any width and precision, some flags.
    #[cfg(not(kani))]
    macro_rules! all { ($($name:ident $tr:ident)*) => {
        fn pointer() {
            let (a, d, w, p) = (nd::addr(), nd::disc(), nd::below(100) as usize, nd::below(100) as usize);
            let c = |x: &dyn Pointer| {
                struct By<'a>(&'a dyn Pointer);
                impl Pointer for By<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
                let b = By(x);
                format!("{b:p}|{b:#p}|{b:w$p}|{b:#w$p}|{b:.p$p}|{b:0w$p}|{b:é<#w$p}|{b:-^w$p}|{b:<w$p}|{b:+w$.p$p}")
            };
            ck!(c(&(a as *const ())) == c(&TaggedPointer::new(a, d)), "prints what the same formatting of the address as a pointer prints");
        }
        $(
        fn $name() {
            let (a, d, w, p) = (nd::addr(), nd::disc(), nd::below(100) as usize, nd::below(100) as usize);
            let c = |x: &dyn $tr| {
                let mut s = String::new();
                struct By<'a>(&'a dyn $tr);
                impl core::fmt::Display for By<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { $tr::fmt(self.0, f) } }
                let b = By(x);
                let _ = write!(s, "{b}|{b:#}|{b:w$}|{b:.p$}|{b:+#w$.p$}|{b:0w$}|{b:#0w$.p$}|{b:-^w$}|{b:é<#w$}|{b:🦀>+w$.p$}|{b:<w$}|{b:-}");
                s
            };
            let want = c(&a);
            ck!(want == c(&TaggedPointer::new(a, d)), "prints what the same formatting of the address prints");
            ck!(want == c(&unsafe { TaggedBox::<E>::from_raw(a as *mut u8, d) }), "prints what the same formatting of the address prints");
        } )*
        pub const LIST: &[(&str, fn())] = &[(concat!(module_path!(), "::pointer"), pointer as fn()), $((concat!(module_path!(), "::", stringify!($name)), $name as fn())),*];
    } }
    all! { lower_hex LowerHex upper_hex UpperHex octal Octal binary Binary }
}
/// With the real integer formatting
pub mod whole {
    use super::*;
    hs! {
        #[kani::unwind(20)]
        fn lower_hex() { law!("{:x}" 18) }
        #[kani::unwind(20)]
        fn upper_hex() { law!("{:X}" 18) }
    }
}
pub mod pointer {
    use super::*;
    hs! {
        #[kani::unwind(22)]
        fn pointer() {
            let (a, d) = (nd::addr(), nd::disc());
            let (want, ok) = print::<20>(format_args!("{:p}", a as *const ()));
            let (got, ok2) = print::<20>(format_args!("{:p}", TaggedPointer::new(a, d)));
            ck!(ok == ok2 && want.same(&got), "a tagged pointer prints its address as a pointer");
            end!()
        }
    }
}
/// Debug shows the raw word, the address and the discriminant.
struct Shown(u64, u64, tagged_box::Discriminant);
impl core::fmt::Debug for Shown {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_struct("TaggedPointer").field("raw", &(self.0 as *const ())).field("ptr", &(self.1 as *const ())).field("discriminant", &self.2).finish()
    }
}
hs! {
    #[kani::unwind(26)]
    #[kani::stub(<u64 as core::fmt::LowerHex>::fmt, digits::x64)] #[kani::stub(<usize as core::fmt::LowerHex>::fmt, digits::xs)]
    fn debug() {
        let (a, d) = (nd::addr(), nd::disc());
        let (want, ok) = print::<120>(format_args!("{:?}", Shown(nd::word(a, d), a, d)));
        let (got, ok2) = print::<120>(format_args!("{:?}", TaggedPointer::new(a, d)));
        ck!(ok == ok2 && want.same(&got), "debug output shows the raw word, the address and the discriminant");
        end!()
    }
}
