//! C05: equality, order, hash, copy of tagged pointers.
use crate::{ck, end, hs, nd};
use core::{cmp::Ordering, hash::{Hash, Hasher}};
use tagged_box::TaggedPointer as T;

fn any() -> (u64, u64, T) { let (p, d) = (nd::addr(), nd::disc()); (d as u64, p, T::new(p, d)) }

/// A hasher that keeps what it is fed.
#[derive(Clone, Copy, PartialEq)]
struct Rec { h: u64, n: u64 }
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.h }
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.h = self.h.rotate_left(8) ^ b[i] as u64; self.n += 1; i += 1; } }
    fn write_u64(&mut self, x: u64) { self.h = self.h.rotate_left(1) ^ x; self.n += 8; }
}
fn hash(t: &T) -> Rec { let mut r = Rec { h: 0, n: 0 }; t.hash(&mut r); r }

hs! {
    #[kani::unwind(20)]
    fn eq_ord_hash_by_parts() {
        let (d, p, t) = any();
        let (e, q, u) = any();
        ck!((t == u) == (d == e && p == q), "equal exactly when both parts are");
        ck!((t != u) == !(d == e && p == q), "unequal is the negation");
        let o = (d, p).cmp(&(e, q));
        ck!(t.cmp(&u) == o, "ordered by discriminant, then address");
        ck!(t.partial_cmp(&u) == Some(o), "partial order agrees with the order");
        ck!((t < u) == (o == Ordering::Less) && (t > u) == (o == Ordering::Greater), "strict operators agree");
        ck!((t <= u) == (o != Ordering::Greater) && (t >= u) == (o != Ordering::Less), "weak operators agree");
        ck!(t.max(u) == if o == Ordering::Greater { t } else { u }, "max agrees");
        ck!(t.min(u) == if o == Ordering::Greater { u } else { t }, "min agrees");
        if o == Ordering::Less {
            let (f, r, v) = any();
            ck!(v.clamp(t, u) == if (f, r) < (d, p) { t } else if (f, r) > (e, q) { u } else { v }, "clamp agrees");
        }
        ck!(u.cmp(&t) == o.reverse(), "order is antisymmetric");
        if t == u { ck!(hash(&t) == hash(&u), "equal pointers hash equally"); }
        end!()
    }
    fn transitive() {
        let (_, _, t) = any(); let (_, _, u) = any(); let (_, _, v) = any();
        ck!(!(t <= u && u <= v) || t <= v, "order is transitive");
        ck!(!(t == u && u == v) || t == v, "equality is transitive");
        ck!(t == t && t.cmp(&t) == Ordering::Equal, "equality is reflexive");
        end!()
    }
    fn copies_are_equal_and_independent() {
        let (d, p, t) = any();
        let mut c = t;
        let k = Clone::clone(&t);
        ck!(c == t && k == t && k.as_raw_u64() == nd::word(p, d as _) && c.as_raw_u64() == nd::word(p, d as _), "copies and clones equal the original");
        let (e, q, u) = any();
        if nd::bool() { c = u } else { c.clone_from(&u) }
        ck!(c == u, "assignment and clone_from give the source");
        ck!(t.discriminant() as u64 == d && t.as_u64() == p, "the original is not affected by its copy");
        ck!(c.discriminant() as u64 == e && c.as_u64() == q, "the copy is its own");
        end!()
    }
}
