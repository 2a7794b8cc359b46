//! Inputs. Under Kani every value is symbolic (all values at once); natively it comes from a
//! pseudo-random stream (bounded stand-in) or from a recorded byte string (replay of a
//! counterexample).
use tagged_box::Discriminant;

const fn width() -> u32 {
    match option_env!("TAGGED_BOX_RESERVED_WIDTH") {
        Some(s) => {
            let b = s.as_bytes();
            let n = if b.len() == 6 && b[0] >= b'0' && b[0] <= b'9' && b[1] >= b'0' && b[1] <= b'9' { (b[0] - b'0') as u32 * 10 + (b[1] - b'0') as u32 } else { 0 };
            if n >= 48 && n <= 63 && b[2] == b'b' && b[3] == b'i' && b[4] == b't' && b[5] == b's' { n } else { 60 }
        }
        None => 60,
    }
}
/// The configured width, from the environment and not from the crate: the oracle.
pub const W: u32 = width();
/// Largest discriminant for that width.
pub const SMAX: u64 = ((1u128 << (64 - W)) - 1) as u64;
/// Largest address for that width.
pub const PMAX: u64 = ((1u128 << W) - 1) as u64;

pub fn tag_of(word: u64) -> u64 { (word as u128 / (1u128 << W)) as u64 }
pub fn addr_of(word: u64) -> u64 { (word as u128 % (1u128 << W)) as u64 }
pub fn word(addr: u64, d: Discriminant) -> u64 { (d as u128 * (1u128 << W) + addr as u128) as u64 }

macro_rules! prims { ($($t:ident)*) => { $(
    #[cfg(kani)] #[inline(always)] pub fn $t() -> $t { kani::any() }
    #[cfg(not(kani))] pub fn $t() -> $t {
        let mut b = [0u8; core::mem::size_of::<$t>()];
        native::fill(&mut b);
        <$t>::from_le_bytes(b)
    }
)* } }
prims!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize);

#[cfg(kani)] pub fn bool() -> bool { kani::any() }
#[cfg(not(kani))] pub fn bool() -> bool { u8() & 1 == 1 }
pub fn char() -> char {
    let c = u32();
    #[cfg(not(kani))] let c = if native::random() { c % 0xD800 } else { c };
    assume(c < 0xD800 || (c > 0xDFFF && c < 0x110000));
    unsafe { core::char::from_u32_unchecked(c) }
}
/// Any value of the discriminant type, valid or not.
#[cfg(kani)] pub fn rawdisc() -> Discriminant { kani::any() }
#[cfg(not(kani))] pub fn rawdisc() -> Discriminant {
    if core::mem::size_of::<Discriminant>() == 1 { u8() as Discriminant } else { u16() as Discriminant }
}
/// Any discriminant that fits.
pub fn disc() -> Discriminant {
    let d = rawdisc();
    #[cfg(not(kani))] let d = if native::random() { (d as u64 & SMAX) as Discriminant } else { d };
    assume(d as u64 <= SMAX);
    d
}
/// Any discriminant that does not fit.
pub fn baddisc() -> Discriminant {
    let d = rawdisc();
    assume(d as u64 > SMAX);
    d
}
/// Any address that fits.
pub fn addr() -> u64 {
    let p = u64();
    #[cfg(not(kani))] let p = if native::random() { p & PMAX } else { p };
    assume(p <= PMAX);
    p
}
pub fn below(n: u8) -> u8 {
    let v = u8();
    #[cfg(not(kani))] let v = if native::random() { v % n } else { v };
    assume(v < n);
    v
}
/// Any variant index below n.
pub fn variant(n: u32) -> u32 {
    let v = u16() as u32;
    #[cfg(not(kani))] let v = if native::random() { v % n } else { v };
    assume(v < n);
    v
}

#[cfg(kani)] #[inline(always)] pub fn assume(c: bool) { kani::assume(c) }
#[cfg(not(kani))] pub fn assume(c: bool) { if !c { std::panic::panic_any(native::Rejected) } }

#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    pub struct Rejected;
    pub enum Src { Rand(u64), Bytes(usize) }
    pub struct State { pub src: Src, pub log: [u8; 8192], pub n: usize }
    thread_local! { pub static S: RefCell<State> = RefCell::new(State { src: Src::Rand(1), log: [0; 8192], n: 0 }); }
    pub fn random() -> bool { S.with(|s| matches!(s.borrow().src, Src::Rand(_))) }
    fn mix(x: &mut u64) -> u64 {
        *x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn seed(v: u64) { S.with(|s| { let mut s = s.borrow_mut(); s.src = Src::Rand(v); s.n = 0; }) }
    pub fn bytes(v: &[u8]) { S.with(|s| { let mut s = s.borrow_mut(); s.log[..v.len()].copy_from_slice(v); s.src = Src::Bytes(v.len()); s.n = 0; }) }
    pub fn used() -> Vec<u8> { S.with(|s| { let s = s.borrow(); s.log[..s.n].to_vec() }) }
    pub fn fill(b: &mut [u8]) {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let n = s.n;
            let mut avail = usize::MAX;
            match s.src {
                Src::Bytes(len) => avail = len,
                Src::Rand(ref mut x) => {
                    let style = mix(x) % 8;
                    let k = mix(x);
                    for (i, o) in b.iter_mut().enumerate() {
                        *o = match style { 0 => 0, 1 => 0xff, 2 => if i == 0 { (k & 15) as u8 } else { 0 },
                            3 => if i as u64 == (k >> 3) % 16 { 1 << (k & 7) } else { 0 },
                            _ => (mix(x) & 0xff) as u8 };
                    }
                }
            }
            for (i, o) in b.iter_mut().enumerate() {
                if avail == usize::MAX { s.log[n + i] = *o } else { *o = if n + i < avail { s.log[n + i] } else { 0 } }
            }
            s.n = n + b.len();
        })
    }
}
