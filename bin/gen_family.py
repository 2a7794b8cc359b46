#!/usr/bin/env python3
"""Writes harness/src/family.rs: a family of enums defined with tagged_box!, covering each
variant shape, tuple arity 0..=32, variant position, field order, size and alignment.
With a seed and a path as arguments, writes to that path the same file with a random family
where the law modules range over the whole family."""
import os, random, sys

MIX = ["u8", "u64", "u16", "bool", "u32", "u8", "i64", "[u8; 3]", "u16", "char", "()", "i8", "u128", "f32", "Option<u32>", "u8", "usize", "Al16"]


def field_t(v):
    return v[2]


class Enum:
    """variants: (name, kind, types) with kind unit / tuple / struct / structc (trailing comma)."""

    def __init__(self, name, variants, derive="", cfg=None, drops=False):
        """drops: the enum has a destructor of its own."""
        self.name, self.vs, self.derive, self.cfg, self.drops = name, variants, derive, cfg, drops

    def text(self):
        n, o = self.name, []
        c = f"#[cfg(feature = \"{self.cfg}\")] " if self.cfg else ""
        if self.cfg:
            o.append(f"{c}pub use self::m_{n.lower()}::{n};")
        o.append(f"{c}pub mod m_{n.lower()} {{ use super::*;")
        o.append("tagged_box! {")
        o.append(f"    {self.derive}pub struct C, pub enum {n} {{")
        for v, k, ts in self.vs:
            if k == "unit":
                o.append(f"        {v},")
            elif k == "tuple":
                o.append(f"        {v}({', '.join(ts)}),")
            else:
                o.append(f"        {v} {{ {', '.join(f'f{i}: {t}' for i, t in enumerate(ts))}{',' if k == 'structc' and ts else ''} }},")
        o.append("    }\n}")
        if self.drops:
            o.append(f"impl Drop for {n} {{ fn drop(&mut self) {{ enum_dropped() }} }}")
        o.append("#[derive(Clone, Copy, PartialEq)] pub enum R {")
        for v, k, ts in self.vs:
            imgs = ", ".join(f"Im<{t}>" for t in ts)
            o.append(f"    {v}({imgs})," if ts else f"    {v},")
        o.append("}")
        o.append(f"impl Fam for {n} {{ type C = C; type R = R; const N: u32 = {len(self.vs)};")
        o.append(f"    fn any_of(v: u32) -> R {{ match v {{")
        for i, (v, k, ts) in enumerate(self.vs):
            pat = str(i) if i + 1 < len(self.vs) else "_"
            e = f"R::{v}({', '.join(f'<{t} as Fld>::any()' for t in ts)})" if ts else f"R::{v}"
            o.append(f"        {pat} => {e},")
        o.append("    } }")
        o.append("    fn make(r: R) -> Self { match r {")
        for v, k, ts in self.vs:
            a = ", ".join(f"a{i}" for i in range(len(ts)))
            p = f"R::{v}({a})" if ts else f"R::{v}"
            if k == "unit":
                e = f"{n}::{v}"
            elif k == "tuple":
                e = f"{n}::{v}({', '.join(f'<{t} as Fld>::of(a{i})' for i, t in enumerate(ts))})"
            else:
                e = f"{n}::{v} {{ {', '.join(f'f{i}: <{t} as Fld>::of(a{i})' for i, t in enumerate(ts))} }}"
            o.append(f"        {p} => {e},")
        o.append("    } }")
        o.append("    fn img(&self) -> R { match self {")
        for v, k, ts in self.vs:
            if k == "unit":
                p = f"{n}::{v}"
            elif k == "tuple":
                p = f"{n}::{v}({', '.join(f'a{i}' for i in range(len(ts)))})"
            else:
                p = f"{n}::{v} {{ {', '.join(f'f{i}: a{i}' for i in range(len(ts)))} }}"
            e = f"R::{v}({', '.join(f'<{t} as Fld>::img(a{i})' for i, t in enumerate(ts))})" if ts else f"R::{v}"
            o.append(f"        {p} => {e},")
        o.append("    } }")
        o.append("    fn variant(r: &R) -> u32 { match r {")
        for i, (v, k, ts) in enumerate(self.vs):
            p = f"R::{v}(..)" if ts else f"R::{v}"
            o.append(f"        {p} => {i},")
        o.append("    } }")
        o.append("    fn from_payload(r: R) -> Option<C> { match r {")
        for v, k, ts in self.vs:
            a = ", ".join(f"a{i}" for i in range(len(ts)))
            p = f"R::{v}({a})" if ts else f"R::{v}"
            if k != "tuple":
                e = "None"
                p = f"R::{v}(..)" if ts else p
            elif len(ts) == 1:
                e = f"Some(C::from(<{ts[0]} as Fld>::of(a0)))"
            else:
                e = "Some(C::from((" + "".join(f"<{t} as Fld>::of(a{i}), " for i, t in enumerate(ts)) + ")))" if ts else "Some(C::from(()))"
            o.append(f"        {p} => {e},")
        o.append("    } }")
        o.append("    fn need(r: &R) -> Need { match r {")
        for v, k, ts in self.vs:
            p = f"R::{v}(..)" if ts else f"R::{v}"
            if not ts:
                e = "Need::NONE"
            elif len(ts) == 1:
                e = f"Need::one::<{ts[0]}>()" if k == "tuple" else f"Need::many(&[{', '.join(f'lay::<{t}>()' for t in ts)}])"
            else:
                e = f"Need::many(&[{', '.join(f'lay::<{t}>()' for t in ts)}])"
            o.append(f"        {p} => {e},")
        o.append("    } }")
        o.append("    fn owned(r: &R) -> u32 { match r {")
        for v, k, ts in self.vs:
            p = f"R::{v}(..)" if ts else f"R::{v}"
            e = " + ".join([f"<{t} as Fld>::OWNED" for t in ts] + ["1"] * self.drops) or "0"
            o.append(f"        {p} => {e},")
        o.append("    } }")
        o.append("    fn cloned(r: &R) -> u32 { match r {")
        for v, k, ts in self.vs:
            p = f"R::{v}(..)" if ts else f"R::{v}"
            e = " + ".join(f"<{t} as Fld>::CLONED" for t in ts) or "0"
            o.append(f"        {p} => {e},")
        o.append("    } }")
        o.append("    fn releases(r: &R) -> bool { match r {")
        for v, k, ts in self.vs:
            p = f"R::{v}(..)" if ts else f"R::{v}"
            e = " && ".join(f"<{t} as Fld>::RELEASES" for t in sorted(set(ts))) or "true"
            o.append(f"        {p} => {e},")
        o.append("    } }\n}\n}")
        if not self.cfg:
            o.append(f"pub use self::m_{n.lower()}::{n};")
        return "\n".join(o)


def mixed(n, off=0):
    return [MIX[(i * 5 + off * 7) % len(MIX)] for i in range(n)]


def standard():
    es = []
    ar = []
    for n in range(0, 33):
        h = ("H", "tuple", ["u8"] * n)
        m = ("M", "tuple", mixed(n, n))
        if n == 0:
            vs = [h, ("U", "unit", [])]
        elif n == 1:
            vs = [("U", "unit", []), h] if False else [h, ("M", "tuple", ["u64"])]
        elif n % 2:
            vs = [h, m]
        else:
            vs = [m, h]
        es.append(Enum(f"A{n}", vs))
        ar.append(f"A{n}")
    ar2 = []
    # every arity again with other mixes, in the largest position
    st = []
    for n in (1, 2, 3, 4, 5, 6, 9):
        es.append(Enum(f"S{n}", [("P", "struct", ["u8"] * n), ("Q", "structc", mixed(n, n + 3))]))
        es.append(Enum(f"T{n}", [("Q", "struct", mixed(n, n)), ("P", "structc", ["u16"] * n)]))
        st += [f"S{n}", f"T{n}"]
    sh = {}

    def add(e):
        es.append(e)
        sh.setdefault(e.cfg, []).append(e.name)
    add(Enum("Z2", [("A", "tuple", ["()"]), ("B", "tuple", ["ZA", "()"])]))
    add(Enum("X2", [("A", "tuple", ["Al64"]), ("B", "struct", ["u8", "Al16", "u8"])]))
    add(Enum("N1", [("Only", "tuple", ["u32"])]))
    add(Enum("N2", [("Only", "unit", [])]))
    add(Enum("N3", [("Only", "struct", ["u8", "u32"])]))
    add(Enum("N4", [("Only", "tuple", ["u16", "u64"])]))
    add(Enum("N5", [("Only", "tuple", ["ZA"])]))
    add(Enum("M4", [("U", "unit", []), ("A", "tuple", ["u32"]), ("B", "tuple", ["u8", "u64", "u8"]), ("S", "struct", ["u8", "u32"])], cfg="v4"))
    add(Enum("W4", [("S", "structc", ["u64", "u8"]), ("E", "tuple", []), ("B", "tuple", ["u64", "u8"]), ("U", "unit", [])], cfg="v4"))
    add(Enum("F4", [("A", "tuple", ["Option<Box<u32>>"]), ("B", "tuple", ["(u8, u16)"]), ("Dd", "tuple", ["&'static u8", "Option<NonZeroU8>"]), ("E", "structc", ["[u32; 0]", "fn(u8) -> u8"])], cfg="v4"))
    add(Enum("G4", [("A", "tuple", ["Inner"]), ("B", "tuple", ["u8", "Inner"]), ("Dd", "tuple", ["Box<u16>", "u8", "Box<u16>"]), ("E", "structc", ["Box<u16>", "f64"])], cfg="v4"))
    add(Enum("M8", [("A", "tuple", ["u8"]), ("U", "unit", []), ("B", "tuple", ["u16", "u8"]), ("S", "struct", ["u8", "u16"]), ("V", "unit", []), ("Dd", "tuple", ["u64"]), ("E", "tuple", []), ("F", "structc", ["u64", "u8", "u32"])], cfg="v8"))
    m16 = []
    for i in range(16):
        m16.append([(f"V{i}", "unit", []), (f"V{i}", "tuple", [["u8", "u16", "u32", "u64"][i // 4]]), (f"V{i}", "tuple", [["u8", "u64"], ["u16", "u8", "u8"], ["u8", "u8", "u64", "u16"], ["u32", "u8"]][i // 4]), (f"V{i}", ["struct", "structc"][i // 4 % 2], [["u8"], ["u8", "u64"], ["u16", "u16"], ["u64", "u8", "u8"]][i // 4])][(i + 1) % 4])
    add(Enum("M16", m16, cfg="v16"))
    add(Enum("L16", [(f"V{i}", "unit", []) for i in range(15)] + [("Last", "tuple", ["u64", "u8"])], cfg="v16"))
    for n in (32, 64, 128, 256):
        vs = [(f"V{i}", "unit", []) for i in range(n)]
        vs[0] = ("V0", "tuple", ["u64"])
        vs[n // 2] = (f"V{n // 2}", "tuple", ["u8", "u32"])
        vs[n - 1] = (f"V{n - 1}", "struct", ["u16", "u8"])
        add(Enum(f"L{n}", vs, cfg=f"v{n}"))
    vs = [(f"V{i}", "unit", []) for i in range(260)]
    vs[0], vs[3], vs[255], vs[256], vs[259] = ("V0", "tuple", ["u64"]), ("V3", "tuple", ["u16"]), ("V255", "tuple", ["u8"]), ("V256", "tuple", ["u8", "u32"]), ("V259", "struct", ["u16", "u8"])
    add(Enum("L260", vs, cfg="v260"))
    ow = []
    ow.append(Enum("O1", [("A", "tuple", ["D<0>"]), ("B", "tuple", ["D<0>", "D<1>"])]))
    ow.append(Enum("O2", [("A", "struct", ["D<0>", "u8", "D<1>"]), ("U", "unit", [])]))
    ow.append(Enum("O3", [("A", "tuple", ["Z"]), ("B", "tuple", ["Z", "D<0>", "D<1>"])]))
    ow.append(Enum("O4", [("A", "tuple", ["ZA"]), ("B", "structc", ["Z", "ZA"])]))
    ow.append(Enum("O5", [("A", "structc", ["u8", "N"]), ("B", "tuple", ["N"])]))
    ow.append(Enum("O6", [("A", "tuple", ["Z"])]))
    ow.append(Enum("O8", [("U", "unit", []), ("A", "tuple", ["D<0>"]), ("B", "tuple", ["u8", "D<0>"]), ("S", "struct", ["D<0>", "u64"]), ("T", "structc", ["u16", "D<0>", "D<1>"]), ("E", "tuple", []), ("Z", "tuple", ["Z"]), ("Dd", "tuple", ["D<0>", "u8", "D<1>", "D<2>"])], cfg="v8"))
    # Enums with a destructor of their own
    ow.append(Enum("Q1", [("A", "tuple", ["u32"]), ("B", "tuple", ["u8", "u64"])], drops=True))
    ow.append(Enum("Q2", [("U", "unit", []), ("S", "struct", ["u16", "u8"])], drops=True))
    ow.append(Enum("Q3", [("T", "structc", ["u8", "D<0>"]), ("E", "tuple", [])], drops=True))
    ow.append(Enum("Q4", [("A", "tuple", ["D<0>"]), ("B", "tuple", ["D<0>", "u8", "D<1>"])], drops=True))
    ow.append(Enum("Q8", [("U", "unit", []), ("A", "tuple", ["u64"]), ("B", "tuple", ["u8", "u16"]), ("S", "struct", ["u8", "u64"]), ("T", "structc", ["u16", "i8"]), ("E", "tuple", []), ("Z", "tuple", ["Z"]), ("V", "unit", [])], cfg="v8", drops=True))
    for e in ow:
        e.derive = "#[derive(Clone, Debug, PartialEq, PartialOrd)]\n    "
    es += ow
    cp = []
    cp.append(Enum("K1", [("A", "tuple", ["u32"]), ("B", "tuple", ["u8", "u64"])]))
    cp.append(Enum("K2", [("S", "structc", ["u64", "char", "bool"]), ("U", "unit", [])]))
    cp.append(Enum("K3", [("Z", "tuple", ["()"]), ("T", "tuple", ["Option<u32>", "i8", "u128"])]))
    cp.append(Enum("K5", [("Z", "tuple", ["()"])]))
    cp.append(Enum("K4", [("U", "unit", []), ("A", "tuple", ["i64"]), ("B", "tuple", ["u8", "[u8; 3]"]), ("S", "struct", ["u16", "i8"])], cfg="v4"))
    for e in cp:
        e.derive = "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]\n    "
    fl = []
    fl.append(Enum("P1", [("A", "tuple", ["f32"]), ("B", "tuple", ["f64", "u8"])]))
    fl.append(Enum("P2", [("S", "struct", ["u8", "f32"]), ("U", "unit", [])]))
    for e in fl:
        e.derive = "#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]\n    "
    es += cp + fl
    return es, ar, st, sh, ow, cp, fl


POOL = MIX + ["Option<Box<u32>>", "Box<u16>", "(u8, u16)", "Al64", "ZA", "Inner", "f64", "Option<NonZeroU8>", "[u32; 0]", "&'static u8"]
COPY = ["u8", "u16", "u32", "u64", "i8", "i64", "bool", "char", "u128", "[u8; 3]", "Option<u32>", "()"]
OWNS = ["N", "D<0>", "D<1>", "D<2>", "Z", "ZA", "u8", "u64"]


def randoms(seed):
    """Random enums: plain, owning and Copy ones."""
    r = random.Random(seed)
    es, kinds = [], {"plain": [], "own": [], "copy": []}
    for i in range(30):
        kind = ["plain", "plain", "plain", "own", "copy"][i % 5]
        pool = {"plain": POOL, "own": OWNS, "copy": COPY}[kind]
        cfg = [None, "v4", "v8", None, "v16"][r.randrange(5)]
        most = int(cfg[1:]) if cfg else 2
        n = r.randint(most // 2 + 1 if cfg else 1, most)
        seen, vs = set(), []
        while len(vs) < n:
            k = r.choice(["unit", "tuple", "tuple", "struct", "structc"])
            # each destructor-counting type at most once per variant: the counters are per type
            m = r.choice([0, 1, 1, 2, 3, 4, 5] + ([r.randint(6, 14)] if kind == "plain" and n <= 4 else []))
            ts = [] if k == "unit" else r.sample(pool, min(m, len(pool))) if kind == "own" else [r.choice(pool) for _ in range(m)]
            if k in ("struct", "structc") and not ts:
                continue
            boxes = [j for j, x in enumerate(ts) if "Box" in x or x == "Inner"]
            for j in boxes[1:]:
                ts[j] = "u32"
            if k == "tuple":
                key = ", ".join(ts) if len(ts) != 1 else ts[0].strip("()")
                if key in seen:
                    continue
                seen.add(key)
            vs.append((f"V{len(vs)}", k, ts))
        d = {"plain": "", "own": "#[derive(Clone, Debug, PartialEq, PartialOrd)]\n    ", "copy": "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]\n    "}[kind]
        es.append(Enum(f"R{i}", vs, d, cfg, drops=kind == "own" and r.random() < 0.4))
        kinds[kind].append(es[-1])
    return es, kinds


def names(l):
    return ", ".join(f"{n.lower()}: {n}" for n in l)


HEAD = """//! Generated by bin/gen_family.py. The family of enums the macro properties are proved for.
#![allow(non_camel_case_types)]
use crate::{nd, pay::*, track::*};
use core::num::NonZeroU8;
use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox};
pub use crate::fam::*;
"""


def main():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "family.rs")
    es, ar, st, sh, ow, cp, fl = standard()
    rnd = []
    if len(sys.argv) > 1:
        p = sys.argv[2]
        rnd, kinds = randoms(int(sys.argv[1]))
        es += rnd
        ow, cp, fl = kinds["own"], kinds["copy"], []
    o = [HEAD]
    o += [e.text() for e in es]

    def mac(name, groups, cfg=None):
        pass
    o.append("""
/// `fams! { law as module [attributes] }`: one harness per enum of the family.
#[macro_export]
macro_rules! fams { ($($gen:ident as $md:ident $attrs:tt)*) => { $( pub mod $md { use super::*; use $crate::family::*;""")
    gs = []

    def group(gname, cfgs, l):
        c = f'#[cfg({cfgs})] ' if cfgs else ""
        o.append(f"    {c}$crate::grid! {{ $gen as {gname} $attrs {{ {names(l)} }} }}")
        gs.append((gname, cfgs))
    if rnd:
        # only the random enums
        standard_group = group

        def group(gname, cfgs, l):
            if gname == "small":
                for c in (None, "v4", "v8", "v16"):
                    x = [e.name for e in rnd if e.cfg == c]
                    if x:
                        standard_group("r" + (c or ""), f'feature = "{c}"' if c else None, x)
    group("arity", 'not(feature = "lite")', ar)
    group("strct", 'not(feature = "lite")', st)
    group("bits", 'feature = "lite"', ["A0", "A2", "A3", "A6", "S1", "T2", "S4"])
    group("small", None, sh[None])
    group("owning", 'not(feature = "lite")', [e.name for e in ow if not e.cfg])
    group("litev4", 'all(feature = "lite", feature = "v4")', ["M4"])
    group("litev8", 'all(feature = "lite", feature = "v8")', ["M8"])
    group("litev16", 'all(feature = "lite", feature = "v16")', ["L16"])
    for k in ("v4", "v8", "v16", "v32", "v64", "v128", "v256", "v260"):
        l = sh.get(k, []) + [e.name for e in ow if e.cfg == k]
        if k in ("v32", "v64", "v128", "v256"):
            # only where the enum is exactly full, or everywhere in the full grid
            nxt = {"v32": "v64", "v64": "v128", "v128": "v256", "v256": "v260"}[k]
            group(k, f'all(feature = "{k}", any(not(feature = "{nxt}"), feature = "full"))', l)
        elif k == "v260":
            group(k, f'feature = "{k}"', l)
        else:
            group(k, f'all(feature = "{k}", not(feature = "lite"))', l)
    o.append("    #[cfg(not(kani))] pub fn list() -> Vec<(&'static str, fn())> { let mut v: Vec<(&'static str, fn())> = vec![];")
    for g, c in gs:
        o.append(f"        {'#[cfg(' + c + ')] ' if c else ''}v.extend_from_slice({g}::LIST);")
    o.append("        v }\n} )* } }")
    def subset(mac, es, more=""):
        o.append(f"""
#[macro_export]
macro_rules! {mac} {{ ($($gen:ident as $md:ident $attrs:tt)*) => {{ $( pub mod $md {{ use super::*; use $crate::family::*;""")
        base = [e.name for e in es if not e.cfg]
        o.append(f"    #[cfg(not(feature = \"lite\"))] $crate::grid! {{ $gen as base $attrs {{ {names(base)} }} }}")
        o.append(f"    #[cfg(feature = \"lite\")] $crate::grid! {{ $gen as base $attrs {{ {names(base[:2])} }} }}")
        ks = sorted({e.cfg for e in es if e.cfg}, key=lambda k: int(k[1:]))
        more += ', not(feature = "lite")'
        for k in ks:
            o.append(f"    #[cfg(all(feature = \"{k}\"{more}))] $crate::grid! {{ $gen as {k} $attrs {{ {names([e.name for e in es if e.cfg == k])} }} }}")
        o.append("    #[cfg(not(kani))] pub fn list() -> Vec<(&'static str, fn())> { let mut v: Vec<(&'static str, fn())> = vec![]; v.extend_from_slice(base::LIST);")
        for k in ks:
            o.append(f"        #[cfg(all(feature = \"{k}\"{more}))] v.extend_from_slice({k}::LIST);")
        o.append("        v }\n} )* } }")
    subset("owning_fams", ow)
    subset("owning_pair_fams", ow, ', feature = "full"')
    subset("copy_fams", cp)
    subset("float_fams", fl)
    # Enums with exactly as many variants as there are discriminants
    o.append("""
#[macro_export]
macro_rules! exact_fams { ($($gen:ident as $md:ident $attrs:tt)*) => { $( pub mod $md { use super::*; use $crate::family::*;""")
    ex = [("two", 'not(feature = "v4")', ["A2", "A3", "S1", "T2"])]
    ks = ["v4", "v8", "v16", "v32", "v64", "v128", "v256"]
    for i, k in enumerate(ks):
        ex.append((k, f'all(feature = "{k}", not(feature = "{(ks + ["v260"])[i + 1]}"))', sh[k]))
    for g, c, l in ex:
        o.append(f"    #[cfg({c})] $crate::grid! {{ $gen as {g} $attrs {{ {names(l)} }} }}")
    o.append("    #[cfg(not(kani))] pub fn list() -> Vec<(&'static str, fn())> { let mut v: Vec<(&'static str, fn())> = vec![];")
    for g, c, l in ex:
        o.append(f"        #[cfg({c})] v.extend_from_slice({g}::LIST);")
    o.append("        v }\n} )* } }")
    # A selection
    o.append("""
#[macro_export]
macro_rules! some_fams { ($($gen:ident as $md:ident $attrs:tt)*) => { $( pub mod $md { use super::*; use $crate::family::*;""")
    sel = ["A0", "A1", "A2", "A3", "A6", "A11", "S1", "T2", "S4"] + sh[None]
    o.append(f"    #[cfg(not(feature = \"lite\"))] $crate::grid! {{ $gen as base $attrs {{ {names(sel)} }} }}")
    o.append(f"    #[cfg(feature = \"lite\")] $crate::grid! {{ $gen as base $attrs {{ {names(['A0', 'A3', 'S1', 'T2', 'N1'])} }} }}")
    for k in ("v4", "v8", "v16"):
        o.append(f"    #[cfg(all(feature = \"{k}\", not(feature = \"lite\")))] $crate::grid! {{ $gen as {k} $attrs {{ {names(sh[k])} }} }}")
    o.append("    #[cfg(not(kani))] pub fn list() -> Vec<(&'static str, fn())> { let mut v: Vec<(&'static str, fn())> = vec![]; v.extend_from_slice(base::LIST);")
    for k in ("v4", "v8", "v16"):
        o.append(f"        #[cfg(all(feature = \"{k}\", not(feature = \"lite\")))] v.extend_from_slice({k}::LIST);")
    o.append("        v }\n} )* } }")
    o.append("""
#[macro_export]
macro_rules! few_fams { ($($gen:ident as $md:ident $attrs:tt)*) => { $( pub mod $md { use super::*; use $crate::family::*;""")
    o.append(f"    $crate::grid! {{ $gen as base $attrs {{ {names(['A0', 'A2', 'A3', 'S1', 'T2', 'X2', 'N1'])} }} }}")
    o.append(f"    #[cfg(feature = \"v4\")] $crate::grid! {{ $gen as v4 $attrs {{ {names(['M4', 'W4'])} }} }}")
    o.append("    #[cfg(not(kani))] pub fn list() -> Vec<(&'static str, fn())> { let mut v: Vec<(&'static str, fn())> = vec![]; v.extend_from_slice(base::LIST);")
    o.append("        #[cfg(feature = \"v4\")] v.extend_from_slice(v4::LIST);\n        v }\n} )* } }")
    open(p, "w").write("\n".join(o) + "\n")


main() if __name__ == "__main__" else None
