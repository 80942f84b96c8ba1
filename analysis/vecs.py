"""Growable vectors: capacity is unobservable, so every vector that ever grew is given room for everything.

`Vec` and `String` come from the standard library, which is trusted.  Their capacity influences no operation of
their API other than `capacity()`, so the models below replace the growth policy by one huge allocation.  Contents,
length and pointers stay those of the interpreted standard-library code.
"""
from absint import A, P, RUN, Undecided
from terms import *
from absmodels import UNIT


def inner(it, ty):
    """Offsets of pointer and capacity in the raw buffer type."""
    t = it.p.types[ty]
    while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["path"].split("::")[-1] != "RawVecInner"):
        if t["k"] in ("ref", "ptr"):
            t = it.p.types[t["to"]]
        else:
            fs = t["vars"][0]["fields"]
            nxt = [f for f in fs if "RawVec" in it.p.types[f[1]].get("path", "")]
            if not nxt:
                raise Undecided("raw vector layout")
            t = it.p.types[nxt[0][1]]
    fs = [f[0] for f in t["vars"][0]["fields"]]
    offs = t["l"]["offs"]
    return offs[fs.index("ptr")], offs[fs.index("cap")]


def huge(it, es):
    return (1 << (8 * it.p.ps - 16)) // max(1, es)


def lay_size(it, st, v, ty):
    """Size of a `Layout` value."""
    t = it.p.types[ty]
    fs = [f[0] for f in t["vars"][0]["fields"]]
    x = v.get(t["l"]["offs"][fs.index("size")], it.p.ps) if v.__class__ is A else None
    x = it.as_int(st, x) if x is not None else None
    if x is None or not isc(x):
        raise Undecided("layout of element")
    return x


def ensure(it, st, p, ty, es):
    po, co = inner(it, ty)
    ps = it.p.ps
    cap = it.as_int(st, it.read(st, p.aid, p.off + co, ps))
    n = huge(it, es)
    if isc(cap) and cap >= n:
        return
    old = it.to_ptr(st, it.read(st, p.aid, p.off + po, ps))
    aid = it.alloc(st, n * es, 16, "heap")
    if not (isc(cap) and cap == 0):
        if old.__class__ is not P or old.aid not in st.mem or not (isc(old.off) and old.off == 0):
            raise Undecided("growth of an unknown buffer")
        o = st.mem.pop(old.aid)
        a = st.w(aid)
        a.cells, a.base, a.log, a.blob, a.rel, a.undef = dict(o.cells), o.base, o.log, o.blob, o.rel, o.undef
    it.write(st, p.aid, p.off + po, ps, P(aid, 0))
    it.write(st, p.aid, p.off + co, ps, n)


def grow_one(it, st, f, a, rty, tys):
    ensure(it, st, a[0], tys[0], lay_size(it, st, a[1], tys[1]))
    return UNIT


def reserve(it, st, f, a, rty, tys):
    es = lay_size(it, st, a[3], tys[3])
    need = [it.as_int(st, x) for x in a[1:3]]
    hi = sum(st.facts.range(x)[1] if not isc(x) else x for x in need)
    if hi > huge(it, es):
        return RUN
    ensure(it, st, a[0], tys[0], es)
    return UNIT


def shrink(it, st, f, a, rty, tys):
    return UNIT


def with_capacity(it, st, f, a, rty, tys):
    es = lay_size(it, st, a[-1], tys[-1])
    n = it.as_int(st, a[0])
    hi = st.facts.range(n)[1] if not isc(n) else n
    if hi > huge(it, es):
        return RUN
    po, co = inner(it, rty)
    ps = it.p.ps
    aid = it.alloc(st, huge(it, es) * es, 16, "heap")
    return A(tuple(sorted([(po, ps, P(aid, 0)), (co, ps, huge(it, es))], key=lambda x: x[0])), it.p.size(rty))


MODELS = {
    "alloc::raw_vec::RawVecInner::<A>::grow_one": grow_one,
    "alloc::raw_vec::RawVecInner::<A>::reserve::do_reserve_and_handle": reserve,
    "alloc::raw_vec::RawVecInner::<A>::shrink_to_fit": shrink,
    "alloc::raw_vec::RawVecInner::<A>::with_capacity_in": with_capacity,
}
for _k in list(MODELS):
    MODELS["vpharness::" + _k] = MODELS[_k]


def find(p, ty, off=0):
    """Vectors held directly by a type: (offset, element size, pointer, capacity and length offsets)."""
    t = p.types[ty]
    if t["k"] == "adt" and t["path"].split("::")[-1] == "Vec" and "alloc::vec" in t["path"]:
        fs = t["vars"][0]["fields"]
        lo = [o for f, o in zip(fs, t["l"]["offs"]) if f[0] == "len"][0]
        bo = [(o, f[1]) for f, o in zip(fs, t["l"]["offs"]) if f[0] == "buf"][0]

        class X:
            pass
        x = X()
        x.p = p
        po, co = inner(x, bo[1])
        return [(off, p.size(ty), p.size(t["args"][0][1]), off + bo[0] + po, off + bo[0] + co, off + lo)]
    out = []
    if t["k"] == "adt" and t["ak"] == "struct" and "offs" in (t.get("l") or {}):
        for f, o in zip(t["vars"][0]["fields"], t["l"]["offs"]):
            out += find(p, f[1], off + o)
    return out


def warm(it, st, aid, vs, base=0):
    """Give the empty vectors of an object their room up front."""
    ps = it.p.ps
    for off, size, es, po, co, lo in vs:
        if it.as_int(st, it.read(st, aid, base + co, ps)) == 0:
            b = it.alloc(st, huge(it, es) * es, 16, "heap")
            it.write(st, aid, base + po, ps, P(b, 0))
            it.write(st, aid, base + co, ps, huge(it, es))


def unicode_class(it, st, f, a, rty, tys):
    """Membership in a class of the Unicode tables outside ASCII: an unknown predicate of the character."""
    c = it.as_int(st, a[0])
    return zext(fn("unicode " + f["path"].split("::")[-2], 1, c) if not isc(c) else var("unicode %s %x" % (f["path"].split("::")[-2], c), 1), 1, 8)


for _k in ("alphabetic", "n", "lowercase", "uppercase", "cased", "case_ignorable", "grapheme_extend", "cf", "cn_planes_0_3", "default_ignorable_code_point", "lt"):
    MODELS["core::unicode::unicode_data::%s::lookup" % _k] = unicode_class


def char_from_u32(it, st, f, a, rty, tys):
    """`char::from_u32` by ranges instead of the wrapping trick of the library."""
    v = it.as_int(st, a[0])
    l = it.p.types[rty]["l"]
    if l.get("enc") != "niche":
        return RUN
    ok = st.truth(ult(v, 0xd800, 32)) or (st.truth(ule(0xe000, v, 32)) and st.truth(ule(v, 0x10ffff, 32)))
    return v if ok else l["nstart"]


for _k in ("core::char::convert::from_u32", "core::char::convert::char_try_from_u32", "core::char::methods::<impl char>::from_u32"):
    MODELS[_k] = char_from_u32
