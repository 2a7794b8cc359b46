//! C19: clones and copies.
use crate::{ck, end, fam::*, nd, track};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

fn cloned<F: Fam + Clone>() {
    track::reset();
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    let w = bits(&b);
    let c = b.clone();
    ck!(bits(&b) == w, "cloning leaves the box unchanged");
    ck!(c.discriminant() == b.discriminant(), "the clone has the same discriminant");
    ck!(track::clones() == F::cloned(&r), "the payload is cloned exactly once, through its own Clone");
    ck!(track::drops() == 0, "cloning drops nothing");
    let sized = F::need(&r).size > 0;
    ck!(!sized || b.as_ptr::<u8>() != c.as_ptr::<u8>(), "the clone has its own heap block");
    // Overwrite a byte of one side, then take the other out
    let (mut one, other) = if nd::bool() { (b, c) } else { (c, b) };
    if sized { unsafe { *one.as_mut_ptr::<u8>() = nd::u8(); } }
    core::mem::forget(one);
    ck!(F::from_tagged_box(other).img() == r, "changing one side does not affect the other");
    end!()
}
fn cloned_from<F: Fam + Clone>() where F::C: Clone {
    track::reset();
    let (r, s) = (F::sym(), F::sym());
    if nd::bool() {
        let b = F::make(r).into_tagged_box();
        let mut c = F::make(s).into_tagged_box();
        let w = bits(&b);
        c.clone_from(&b);
        ck!(bits(&b) == w, "clone_from leaves the source unchanged");
        ck!(c.discriminant() == b.discriminant(), "clone_from gives the source's discriminant");
        ck!(F::need(&r).size == 0 || b.as_ptr::<u8>() != c.as_ptr::<u8>(), "clone_from does not share the source's heap block");
        ck!(F::from_tagged_box(c).img() == r, "clone_from gives the source's value");
        ck!(F::from_tagged_box(b).img() == r, "the source keeps its value");
    } else {
        let b = F::C::from(F::make(r));
        let mut c = F::C::from(F::make(s));
        c.clone_from(&b);
        drop(c.into_inner());
        ck!(b.into_inner().img() == r, "the source of a container's clone_from keeps its value after the other was taken out");
    }
    end!()
}
fn taken<F: Fam + Clone>() {
    track::reset();
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    let c = b.clone();
    let (first, second) = if nd::bool() { (b, c) } else { (c, b) };
    let v = F::from_tagged_box(first);
    ck!(v.img() == r, "the first taken out is equal");
    drop(v);
    ck!(track::drops() == F::owned(&r), "taking one out owns one value");
    let v = F::from_tagged_box(second);
    ck!(v.img() == r, "the second taken out is equal, after the first is gone");
    drop(v);
    ck!(track::drops() == 2 * F::owned(&r), "both own their value");
    end!()
}
fn container<F: Fam + Clone>() where F::C: Clone {
    track::reset();
    let r = F::sym();
    let b = F::C::from(F::make(r));
    let c = b.clone();
    ck!(track::clones() == F::cloned(&r), "the payload is cloned exactly once, through its own Clone");
    let (first, second) = if nd::bool() { (b, c) } else { (c, b) };
    ck!(first.into_inner().img() == r, "the first taken out is equal");
    ck!(second.into_inner().img() == r, "the second taken out is equal, after the first is gone");
    ck!(track::drops() == 2 * F::owned(&r), "both own their value");
    end!()
}
fn copied<F: Fam + Copy>() where F::C: Copy {
    let r = F::sym();
    let c = F::C::from(F::make(r));
    let d = c;
    let e = d;
    ck!(e.into_inner().img() == r, "a copy yields the value");
    ck!(c.into_inner().img() == r, "the original yields the value after its copy was taken out");
    ck!(d.into_inner().img() == r, "another copy yields the value too");
    ck!(c.into_inner().img() == r, "taking out twice yields the value twice");
    end!()
}
fn copied_box<F: Fam + Copy>() {
    let r = F::sym();
    let b = F::make(r).into_tagged_box();
    let c = b;
    ck!(bits(&b) == bits(&c), "a copy is the same word");
    ck!(F::from_tagged_box(c).img() == r && F::from_tagged_box(b).img() == r, "both copies yield the value");
    end!()
}
crate::owning_fams! {
    cloned as own_clone [kani::unwind(26)]
    taken as own_taken [kani::unwind(26)]
    container as own_container [kani::unwind(26)]
    cloned_from as own_clone_from [kani::unwind(26)]
}
crate::copy_fams! {
    cloned_from as pod_clone_from [kani::unwind(26)]
    cloned as pod_clone [kani::unwind(26)]
    container as pod_container [kani::unwind(26)]
    copied as pod_copy [kani::unwind(26)]
    copied_box as pod_copy_box [kani::unwind(26)]
}
crate::float_fams! {
    cloned as float_clone [kani::unwind(26)]
    copied as float_copy [kani::unwind(26)]
}
use crate::shape::{pair, Shape, T};
/// Whatever the enum's own Clone is
fn custom<S: Shape + Clone>() {
    let (x, y) = pair::<S>();
    let (mut a, b) = (x.twin().into_tagged_box(), y.twin().into_tagged_box());
    track::reset();
    let from = nd::bool();
    let c = if from { a.clone_from(&b); a } else { b.clone() };
    ck!(unsafe { T.clones } == 1, "the enum's own Clone makes the clone, once");
    ck!(from || track::drops() == 0, "cloning drops nothing");
    ck!(c.discriminant() == b.discriminant(), "the clone has the same discriminant");
    let (first, second) = if nd::bool() { (b, c) } else { (c, b) };
    ck!(S::from_tagged_box(first).img() == y.img(), "the first taken out is equal");
    ck!(S::from_tagged_box(second).img() == y.img(), "the second taken out is equal, after the first is gone");
    end!()
}
crate::shape_types! { custom as customs [kani::unwind(8)] }
crate::hs! {}
