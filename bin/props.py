"""What each property's check runs."""
import extras

ALL_W = list(range(48, 64))
VARIANT_FEATURES = {"full", "lite"}
FULL_DISC = (48, 56)  # every value of the discriminant type is in range


def width_features(w):
    f = []
    if w not in FULL_DISC:
        f.append("baddisc")
    for n in (4, 8, 16, 32, 64, 128, 256, 260):
        if 2 ** (64 - w) >= n:
            f.append(f"v{n}")
    return f


TRUSTED = [
    "Kani 0.68 (translation of MIR to goto programs, models of the allocator and of intrinsics)",
    "CBMC and the CaDiCaL and MiniSat SAT solvers",
    "rustc's front end (Kani's nightly; the bounded layer uses the installed stable)",
]
ASSUMPTIONS = [
    "64-bit little-endian target",
    "Kani's panics abort: what happens while unwinding is only covered by the bounded layer",
    "termination is not proved",
    "generic functions are checked at the payload types of the grid (harness/src/lib.rs), not for all types at once",
]

TP = ["TaggedPointer::" + f for f in "new dangling discriminant as_ref as_mut_ref as_u64 as_raw_u64 as_ptr as_mut_ptr store_discriminant fetch_discriminant strip_discriminant".split()]
TB = ["TaggedBox::" + f for f in "new new_unchecked dangling as_ref as_mut_ref into_inner into_raw into_box from_raw discriminant as_ptr as_mut_ptr".split()]


def std(pid, quick=((60, True), (48, False)), ctr=(), jobs=4, lite=(), solver=None, thorough=None, **kw):
    """The usual runs: lemmas at some widths; contracts at some widths."""
    c = pid.lower()
    lite_jobs, rnd = kw.pop("lite_jobs", 2), kw.pop("rnd", False)

    def runs(tier, seed):
        r = []
        if tier == "quick":
            for w in ctr:
                r.append(dict(width=w, features=[c], layer="ctr", jobs=jobs))
            for w, d in quick:
                r.append(dict(width=w, debug=d, features=[c], jobs=jobs))
            for w, d in lite:
                r.append(dict(width=w, debug=d, features=[c, "lite"], jobs=lite_jobs))
        else:
            for w in ctr and ALL_W:
                r.append(dict(width=w, features=[c], layer="ctr", jobs=jobs, hto=600))
            for w in thorough or ALL_W:
                for d in ((True, False) if (w, True) in quick or (w, False) in quick else (True,)):
                    r.append(dict(width=w, debug=d, features=[c, "full"], jobs=jobs, hto=900))
            if rnd:
                r.append(dict(width=60, features=[c], jobs=jobs, hto=900, rnd=seed))
        for x in r:
            if x.get("layer") != "ctr":
                x["solver"] = solver
        return r
    kw.setdefault("level", "proof")
    return dict(runs=runs, **kw)


MACRO_TO = ["TaggableInner::into_tagged_box of every enum of the family (__taggable_into_box!)"]
MACRO_C = ["TaggableContainer::into_inner of every container of the family (__boxed_into_inner!)"]


def macro(pid, **kw):
    return std(pid, quick=((60, True),), jobs=6, solver="minisat", compile_decides=True, rnd=True, thorough=(48, 52, 55, 56, 57, 59, 60, 63), **kw)


def one(pid, **kw):
    """Width 60 in both build modes share one formula; the other widths run the small set."""
    kw.setdefault("lite", ((48, False), (63, True)))
    return std(pid, quick=((60, True),), jobs=6, solver="minisat", thorough=(48, 52, 55, 56, 57, 60, 63), **kw)


rest = [(w, w % 2 == 0) for w in ALL_W if w not in (60, 48)]
PROPS = {
    "C01": std("C01", solver="minisat", ctr=(60, 48, 53), lite=rest, functions=TP),
    "C02": std("C02", ctr=(60, 48, 53), lite=rest, functions=TP[-3:]),
    "C03": std("C03", solver="minisat", quick=((60, True),), lite=[(49, False), (52, True), (55, True), (57, False), (59, False), (61, True), (63, True), (60, False), (48, False), (56, True)], thorough=ALL_W, functions=["TaggedPointer::new", "TaggedPointer::dangling", "TaggedBox::new", "TaggedBox::new_unchecked", "TaggedBox::dangling", "TaggedBox::from_raw"]),
    "C04": dict(runs=lambda tier, seed: [], extra=extras.settings, level="proof", functions=["the constants and the type of tagged_box::discriminant, as build.rs selects them", "TaggedPointer::{store,fetch,strip}_discriminant"],
                assumptions=["cargo's rebuild logic: settings are changed in the sequences listed, not in all sequences"]),
    "C05": std("C05", lite=[(63, True), (56, True)], functions=["derived PartialEq, Eq, PartialOrd, Ord, Hash, Clone and Copy of TaggedPointer"]),
    "C06": one("C06", lite=((48, False), (63, True)), functions=["fmt::{LowerHex, UpperHex, Binary, Octal} of TaggedPointer and TaggedBox", "fmt::Pointer and fmt::Debug of TaggedPointer"],
               trusted=["core's formatting of u64, usize and pointers (the numeric impls are replaced by recorders that show which integer is formatted)"]),
    "C07": std("C07", quick=((60, True),), lite=((48, False), (63, True)), ctr=(60,), solver="minisat", functions=TB),
    "C08": std("C08", solver="minisat", ctr=(60, 48), lite=[(63, True), (56, True)], functions=TB),
    "C09": std("C09", ctr=(60,), functions=["TaggedBox::as_mut_ref", "TaggedBox::as_mut_ptr", "TaggedPointer::as_mut_ref", "TaggedPointer::as_mut_ptr", "TaggedBox::as_ref"]),
    "C10": one("C10", rnd=True, lite=((48, False), (63, True)), functions=TB + MACRO_TO + MACRO_C + ["TaggableInner::{from,ref_from}_tagged_box of the enums of the family", "clone, eq, partial_cmp of TaggedBox"],
               assumptions=["what a panic in a callback or in a trait implementation drops is covered by the bounded layer only (c10::panics)"]),
    "C11": one("C11", lite=((48, False), (63, True)), functions=TB + MACRO_TO + MACRO_C + ["TaggableInner::{from,ref_from}_tagged_box of the enums of the family", "clone and eq of TaggedBox"],
               trusted=["the allocator's contract, as written in harness/src/heap.rs: a request succeeds with fresh memory or returns null"]),
    "C12": one("C12", rnd=True, lite=((48, False), (63, True)), functions=TB + MACRO_TO + MACRO_C + ["TaggableInner::{from,ref_from}_tagged_box of the enums of the family", "clone, eq, partial_cmp of TaggedBox"],
               trusted=["the allocator's contract, as written in harness/src/heap.rs"]),
    "C13": macro("C13", lite=((48, False), (63, True)), functions=MACRO_TO + MACRO_C),
    "C14": macro("C14", lite=((48, False), (63, True)), functions=MACRO_TO + MACRO_C + ["TaggableInner::from_tagged_box of every enum of the family (__from_tagged_box!)"]),
    "C15": macro("C15", lite=((52, False), (63, True)), functions=["TaggableInner::ref_from_tagged_box of every enum of the family (__ref_from_tagged!)"],
                 assumptions=["what a borrow whose callback panics leaves behind is covered by the bounded layer only (c15::panics)"]),
    "C16": macro("C16", lite=((52, False), (63, True)), functions=["From impls of every container of the family (__derive_from!)"] + MACRO_C),
    "C17": macro("C17", lite=((48, False), (63, True)), functions=MACRO_TO + MACRO_C + ["unknown-discriminant arms of into_inner, from_tagged_box, ref_from_tagged_box"]),
    "C18": dict(runs=lambda tier, seed: [dict(width=w, debug=w % 2 == 0, features=["c18"] + (["full"] if tier != "quick" else []), jobs=3, solver="minisat", hto=300 if tier == "quick" else 1500) for w in ((63, 62, 61, 60, 59, 58) if tier == "quick" else (63, 62, 61, 60, 59, 58, 57, 56))],
                extra=extras.excess, level="proof", compile_decides=True, functions=MACRO_TO + MACRO_C + ["TaggableInner::{from,ref_from}_tagged_box of enums that use every discriminant"],
                assumptions=["enums with more variants than discriminants: the compiler rejects them, at the sizes and shapes listed under compiled_enums"]),
    "C19": one("C19", rnd=True, functions=["Clone and Copy of TaggedBox and of containers"] + MACRO_TO + MACRO_C),
    "C20": one("C20", rnd=True, lite=((48, False), (62, True)), functions=["PartialEq, Eq, PartialOrd, Ord of TaggedBox and of containers", "TaggableInner::ref_from_tagged_box"]),
    "C21": one("C21", functions=["Debug and Display of TaggedBox", "TaggableInner::ref_from_tagged_box"]),
    "C22": one("C22", functions=["TaggedBox, TaggedPointer and containers: size, alignment and word"] + MACRO_TO),
}
