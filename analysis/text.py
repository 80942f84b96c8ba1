"""UTF-8 validation of the standard library as a predicate of the bytes."""
from absint import A, P, UB, Undecided
from terms import *


def result(it, st, rty, ok, valid=None):
    """A `Result<(), Utf8Error>`."""
    t = it.p.types[rty]
    tmp = it.alloc(st, it.p.size(rty), 16, "utf8")
    if not ok:
        ety = t["vars"][1]["fields"][0][1]
        e = it.p.types[ety]
        base = t["l"]["variants"][1][0]
        for f, o in zip(e["vars"][0]["fields"], e["l"]["offs"]):
            if f[0] == "valid_up_to":
                it.write(st, tmp, base + o, it.p.ps, var("utf8 valid", it.p.ptr) if valid is None else valid)
            else:
                it.set_discr(st, tmp, base + o, f[1], 0)
    it.set_discr(st, tmp, 0, rty, 0 if ok else 1)
    v = it.load(st, tmp, 0, rty)
    st.mem.pop(tmp, None)
    return v


def content(it, st, a):
    """The bytes of a slice, or None if its length is unknown."""
    p, n = it.to_ptr(st, a.get(0)), it.as_int(st, a.get(it.p.ps))
    if not isc(n) or n > 65536:
        return p, n, None
    return p, n, [it.as_int(st, it.read(st, p.aid, add(p.off, i, it.p.ptr) if not isc(p.off) else p.off + i, 1)) for i in range(n)]


def utf8(q, bs):
    """Length of the longest valid prefix."""
    i, n = 0, len(bs)
    rng = lambda b, lo, hi: q(ule(lo, b, 8)) and q(ule(b, hi, 8))
    while i < n:
        b = bs[i]
        if q(ult(b, 128, 8)):
            i += 1
            continue
        for lo, hi, k, l2, h2 in ((0xc2, 0xdf, 1, 0x80, 0xbf), (0xe0, 0xe0, 2, 0xa0, 0xbf), (0xe1, 0xec, 2, 0x80, 0xbf), (0xed, 0xed, 2, 0x80, 0x9f),
                                  (0xee, 0xef, 2, 0x80, 0xbf), (0xf0, 0xf0, 3, 0x90, 0xbf), (0xf1, 0xf3, 3, 0x80, 0xbf), (0xf4, 0xf4, 3, 0x80, 0x8f)):
            if rng(b, lo, hi):
                break
        else:
            return i
        for j in range(1, k + 1):
            if i + j >= n or not rng(bs[i + j], l2 if j == 1 else 0x80, h2 if j == 1 else 0xbf):
                return i
        i += k + 1
    return n


def validate(it, st, f, a, rty, tys):
    p, n, bs = content(it, st, a[0])
    if bs is not None and all(isc(b) for b in bs):
        try:
            bytes(bs).decode("utf-8")
            ok = True
        except UnicodeDecodeError:
            ok = False
    elif bs is not None and all(not isc(b) or b < 128 for b in bs) and all(isc(b) or st.facts.range(b)[1] < 128 for b in bs):
        ok = True
    else:
        key = ",".join(show(b) if not isc(b) else str(b) for b in bs) if bs is not None else "%s+%s" % (p, n)
        ok = st.truth(var("utf8 " + key, 1))
    st.emit("utf8", p, n, bs, ok)
    return result(it, st, rty, ok)


MODELS = {"core::str::validations::run_utf8_validation": validate}


def exact(it, st, f, a, rty, tys):
    """Partitions by the classes of RFC 3629."""
    p, n, bs = content(it, st, a[0])
    if bs is None:
        return validate(it, st, f, a, rty, tys)
    v = utf8(st.truth, bs)
    st.emit("utf8", p, n, bs, v == n)
    return result(it, st, rty, v == n, v)


def unchecked(it, st, f, a, rty, tys):
    """A conversion whose caller promises valid text."""
    p, n, bs = content(it, st, a[0])
    if bs is not None and utf8(st.truth, bs) != n:
        raise UB("text that is not valid UTF-8 is created without validation")
    return a[0]


EXACT = {"core::str::validations::run_utf8_validation": exact, "core::str::from_utf8_unchecked": unchecked, "core::str::<impl str>::from_utf8_unchecked": unchecked}


def memchr(it, st, f, a, rty, tys):
    """First occurrence of a byte."""
    x = it.as_int(st, a[0])
    p, n, bs = content(it, st, a[1])
    if bs is None:
        raise Undecided("search in a text of unknown length")
    hit = next((i for i, b in enumerate(bs) if st.truth(eq(b, x, 8))), None)
    return option(it, st, rty, hit)


def memrchr(it, st, f, a, rty, tys):
    """Last occurrence of a byte."""
    x = it.as_int(st, a[0])
    p, n, bs = content(it, st, a[1])
    if bs is None:
        raise Undecided("search in a text of unknown length")
    hit = next((i for i in range(n - 1, -1, -1) if st.truth(eq(bs[i], x, 8))), None)
    return option(it, st, rty, hit)


def option(it, st, rty, v):
    """An `Option<usize>`."""
    tmp = it.alloc(st, it.p.size(rty), 16, "option")
    if v is not None:
        it.write(st, tmp, it.p.types[rty]["l"]["variants"][1][0], it.p.ps, v)
    it.set_discr(st, tmp, 0, rty, 0 if v is None else 1)
    r = it.load(st, tmp, 0, rty)
    st.mem.pop(tmp, None)
    return r


SEARCH = {"core::slice::memchr::memchr": memchr, "core::slice::memchr::memchr_aligned": memchr, "core::slice::memchr::memrchr": memrchr}
EXACT.update(SEARCH)
