//! C02: the raw-word helpers.
use crate::{ck, end, hs, nd};
use tagged_box::{Discriminant, TaggedPointer as T};

hs! {
    fn every_word_splits_and_rebuilds() {
        let w = nd::u64();
        ck!(T::strip_discriminant(w) == nd::addr_of(w), "stripping leaves the low bits");
        ck!(T::fetch_discriminant(w) as u64 == nd::tag_of(w), "fetching gives the high bits");
        ck!(T::store_discriminant(T::strip_discriminant(w), T::fetch_discriminant(w)) == w, "storing back rebuilds the word");
        end!()
    }
    fn every_pair_is_stored() {
        let (p, d) = (nd::addr(), nd::disc());
        let w = T::store_discriminant(p, d);
        ck!(w == nd::word(p, d), "the stored word is discriminant above address");
        ck!(T::strip_discriminant(w) == p, "stripping gives the address back");
        ck!(T::fetch_discriminant(w) == d, "fetching gives the discriminant back");
        end!()
    }
    fn idempotent() {
        let w = nd::u64();
        let s = T::strip_discriminant(w);
        ck!(T::strip_discriminant(s) == s, "stripping twice is stripping once");
        ck!(T::fetch_discriminant(s) == 0, "a stripped word has no discriminant");
        ck!(T::store_discriminant(s, 0) == s, "storing discriminant zero changes nothing");
        end!()
    }
    // The same functions evaluated by the compiler.
    fn in_constants() {
        const P: u64 = nd::PMAX - 0x123;
        const D: Discriminant = (nd::SMAX / 3) as Discriminant;
        const WORD: u64 = T::store_discriminant(P, D);
        const S: u64 = T::strip_discriminant(WORD);
        const F: Discriminant = T::fetch_discriminant(WORD);
        const ALL: (u64, Discriminant) = (T::strip_discriminant(u64::MAX), T::fetch_discriminant(u64::MAX));
        const TP: T = T::dangling::<u64>(D);
        const TD: Discriminant = TP.discriminant();
        const TA: u64 = TP.as_u64();
        ck!(WORD == nd::word(P, D) && S == P && F == D, "constants agree with run time");
        ck!(ALL.0 == nd::PMAX && ALL.1 as u64 == nd::SMAX, "the all-ones word splits into both maxima");
        ck!(TD == D && TA != 0 && TA % 8 == 0 && TP.as_raw_u64() == nd::word(TA, D), "a constant dangling pointer is as at run time");
        end!()
    }
}
