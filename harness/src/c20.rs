//! C20: comparisons agree with the enum's.
use crate::{ck, end, fam::*, hs, nd, track};
use core::cmp::Ordering::{self, *};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

/// Partial comparisons of all pairs of values, for an enum with derived ones.
fn partial<F: Fam + PartialEq + PartialOrd>() {
    track::reset();
    let (r, s) = (F::sym(), F::sym());
    let (x, y) = (F::make(r), F::make(s));
    let (want_eq, want_cmp) = (x == y, x.partial_cmp(&y));
    core::mem::forget((x, y));
    let (a, b) = (F::make(r).into_tagged_box(), F::make(s).into_tagged_box());
    let (v, w) = (bits(&a), bits(&b));
    ck!((a == b) == want_eq, "== agrees with the enum");
    ck!((a != b) == !want_eq, "!= agrees with the enum");
    ck!(a.partial_cmp(&b) == want_cmp, "partial_cmp agrees with the enum");
    ck!(bits(&a) == v && bits(&b) == w && track::drops() == 0, "comparing leaves both sides unchanged");
    ck!(F::from_tagged_box(a).img() == r && F::from_tagged_box(b).img() == s, "comparing leaves both values unchanged");
    end!()
}
fn operators<F: Fam + PartialOrd>() {
    let (r, s) = (F::sym(), F::sym());
    let want = F::make(r).partial_cmp(&F::make(s));
    let (a, b) = (F::make(r).into_tagged_box(), F::make(s).into_tagged_box());
    ck!((a < b) == (want == Some(Less)) && (a > b) == (want == Some(Greater)), "< and > agree with the enum");
    ck!((a <= b) == matches!(want, Some(Less | Equal)) && (a >= b) == matches!(want, Some(Greater | Equal)), "<= and >= agree with the enum");
    end!()
}
fn container<F: Fam + PartialEq + PartialOrd>() where F::C: PartialEq + PartialOrd {
    let (r, s) = (F::sym(), F::sym());
    let (x, y) = (F::make(r), F::make(s));
    let (a, b) = (F::C::from(F::make(r)), F::C::from(F::make(s)));
    ck!((a == b) == (x == y), "== of containers agrees with the enum");
    ck!(a.partial_cmp(&b) == x.partial_cmp(&y), "partial_cmp of containers agrees with the enum");
    ck!(a.into_inner().img() == r && b.into_inner().img() == s, "comparing leaves both values unchanged");
    end!()
}
fn itself<F: Fam + PartialEq + PartialOrd>() {
    let r = F::sym();
    let (x, b) = (F::make(r), F::make(r).into_tagged_box());
    ck!((b == b) == (x == x), "a box compares with itself as the enum does");
    ck!(b.partial_cmp(&b) == x.partial_cmp(&x), "a box orders with itself as the enum does");
    end!()
}
fn total<F: Fam + Ord>() where F::C: Ord {
    let (r, s) = (F::sym(), F::sym());
    let want = F::make(r).cmp(&F::make(s));
    if nd::bool() {
        let (a, b) = (F::make(r).into_tagged_box(), F::make(s).into_tagged_box());
        ck!(a.cmp(&b) == want && b.cmp(&a) == want.reverse(), "cmp agrees with the enum");
        let least = nd::bool();
        let (x, y) = (F::make(r), F::make(s));
        let want = (if least { x.min(y) } else { x.max(y) }).img();
        let got = F::from_tagged_box(if least { a.min(b) } else { a.max(b) });
        ck!(got.img() == want, "min and max agree with the enum");
    } else {
        let (a, b) = (F::C::from(F::make(r)), F::C::from(F::make(s)));
        ck!(a.cmp(&b) == want, "cmp of containers agrees with the enum");
    }
    end!()
}
crate::owning_pair_fams! {
    partial as own_partial [kani::unwind(26)]
    container as own_container [kani::unwind(26)]
    itself as own_itself [kani::unwind(26)]
}
crate::copy_fams! {
    partial as pod_partial [kani::unwind(26)]
    operators as pod_operators [kani::unwind(26)]
    total as pod_total [kani::unwind(26)]
}
crate::float_fams! {
    partial as float_partial [kani::unwind(26)]
    operators as float_operators [kani::unwind(26)]
    container as float_container [kani::unwind(26)]
    itself as float_itself [kani::unwind(26)]
}

use crate::shape::{pair, Shape};
/// Comparisons that are any functions at all of the two values
fn boxes<S: Shape + PartialEq>() -> (S, S, TaggedBox<S>, TaggedBox<S>) {
    let (x, y) = pair::<S>();
    let (a, b) = (x.twin().into_tagged_box(), y.twin().into_tagged_box());
    track::reset();
    (x, y, a, b)
}
fn unchanged<S: Shape>(x: S, y: S, a: TaggedBox<S>, b: TaggedBox<S>) {
    ck!(track::drops() == 0, "comparing drops nothing");
    ck!(S::from_tagged_box(a).img() == x.img() && S::from_tagged_box(b).img() == y.img(), "comparing leaves both values unchanged");
}
fn custom_eq<S: Shape + PartialEq>() {
    let (x, y, a, b) = boxes::<S>();
    match nd::below(5) {
        0 => ck!((a == b) == (x == y), "== is the enum's =="),
        1 => ck!((b == a) == (y == x), "== is the enum's ==, the other way round"),
        2 => ck!((a != b) == (x != y), "!= is the enum's !="),
        3 => ck!((b != a) == (y != x), "!= is the enum's !=, the other way round"),
        _ => ck!((a == a) == (x == x), "== with itself is the enum's =="),
    }
    unchanged(x, y, a, b);
    end!()
}
fn custom_partial<S: Shape + PartialOrd>() {
    let (x, y, a, b) = boxes::<S>();
    match nd::below(8) {
        0 => ck!(a.partial_cmp(&b) == x.partial_cmp(&y), "partial_cmp is the enum's"),
        1 => ck!(b.partial_cmp(&a) == y.partial_cmp(&x), "partial_cmp is the enum's, the other way round"),
        2 => ck!((a < b) == (x < y), "< is the enum's <"),
        3 => ck!((a <= b) == (x <= y), "<= is the enum's <="),
        4 => ck!((a > b) == (x > y), "> is the enum's >"),
        5 => ck!((a >= b) == (x >= y), ">= is the enum's >="),
        6 => ck!((b <= a) == (y <= x) && (b >= a) == (y >= x), "<= and >= are the enum's, the other way round"),
        _ => ck!(a.partial_cmp(&a) == x.partial_cmp(&x), "partial_cmp with itself is the enum's"),
    }
    unchanged(x, y, a, b);
    end!()
}
fn custom_total<S: Shape + Ord>() {
    let (x, y, a, b) = boxes::<S>();
    match nd::below(6) {
        0 => ck!(a.cmp(&b) == x.cmp(&y), "cmp is the enum's"),
        1 => ck!(b.cmp(&a) == y.cmp(&x), "cmp is the enum's, the other way round"),
        2 => ck!(a.cmp(&a) == x.cmp(&x), "cmp with itself is the enum's"),
        k => {
            let (i, j) = (x.img(), y.img());
            let want = match k { 3 => x.twin().max(y.twin()).img(), _ => x.twin().min(y.twin()).img() };
            track::reset();
            let got = match k { 3 => a.max(b), _ => a.min(b) };
            ck!(track::drops() == 0, "comparing drops nothing");
            ck!(i == j || S::from_tagged_box(got).img() == want, "max and min are the enum's");
            return;
        }
    }
    unchanged(x, y, a, b);
    end!()
}
crate::shape_types! {
    custom_eq as eqs [kani::unwind(8)]
    custom_partial as partials [kani::unwind(8)]
    custom_total as totals [kani::unwind(8)]
}
hs! {}
