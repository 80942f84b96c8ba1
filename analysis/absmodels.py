"""Intrinsics and library models of the abstract interpreter."""
from terms import *
from terms import T
import terms as tm
from absint import (A, INTR, MODELS, P, RUN, SKIP, Alloc, Panic, Split, UB, Undecided, newid, bnot_lin)


def intr(*names):
    def deco(f):
        for n in names:
            INTR[n] = f
        return f
    return deco


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


UNIT = A((), 0)


def targ(it, f, i=0):
    ts = [a for a in f["args"] if a[0] == "t"]
    return ts[i][1]


def pointee_size(it, f, i=0):
    return it.p.size(targ(it, f, i))


@intr("likely", "unlikely", "black_box", "unchecked_funnel_none")
def _id(it, st, f, a, rty, tys):
    return a[0]


@intr("cold_path", "assume_nop", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "prefetch_read_data")
def _nop(it, st, f, a, rty, tys):
    return UNIT


@intr("assume")
def _assume(it, st, f, a, rty, tys):
    v = it.b1(it.as_int(st, a[0]))
    if not st.assume(v, True):
        raise UB("assume violated")
    return UNIT


@intr("is_val_statically_known")
def _isk(it, st, f, a, rty, tys):
    return 0


@intr("needs_drop")
def _nd(it, st, f, a, rty, tys):
    return 0


@intr("abort", "breakpoint", "unreachable")
def _abort(it, st, f, a, rty, tys):
    raise Panic("abort")


def size_align_val(it, st, ty, v):
    """(size, align) of the value behind a pointer value."""
    t = it.p.types[ty]
    k = t["k"]
    if k in ("slice", "str"):
        es = it.p.size(t["elem"]) if k == "slice" else 1
        al = it.p.align(t["elem"]) if k == "slice" else 1
        return mulc(v.get(it.p.ps), es, it.p.ptr), al
    if k == "dyn":
        vt = v.get(it.p.ps)
        return it.read(st, vt.aid, vt.off + it.p.ps, it.p.ps), it.read(st, vt.aid, vt.off + 2 * it.p.ps, it.p.ps)
    if v.__class__ is A and k in ("adt", "tuple") and v.get(it.p.ps) is not None:
        fs = t["vars"][0]["fields"] if k == "adt" else [[None, x] for x in t["fields"]]
        last = fs[-1][1]
        s, al = size_align_val(it, st, last, v)
        o = t["l"]["offs"][len(fs) - 1]
        ali = max(it.p.align(ty), al if isc(al) else 1)
        if isc(al):
            o = (o + al - 1) // al * al
        tot = add(s, o, it.p.ptr)
        # round up
        if ali > 1:
            tot = band(add(tot, ali - 1, it.p.ptr), mask(it.p.ptr) - (ali - 1), it.p.ptr)
        return tot, ali
    return it.p.size(ty), it.p.align(ty)


@intr("size_of_val")
def _sov(it, st, f, a, rty, tys):
    return size_align_val(it, st, targ(it, f), a[0])[0]


@intr("min_align_of_val", "align_of_val")
def _aov(it, st, f, a, rty, tys):
    return size_align_val(it, st, targ(it, f), a[0])[1]


@intr("size_of")
def _so(it, st, f, a, rty, tys):
    return it.p.size(targ(it, f))


@intr("min_align_of", "align_of", "pref_align_of")
def _ao(it, st, f, a, rty, tys):
    return it.p.align(targ(it, f))


@intr("vtable_size")
def _vs(it, st, f, a, rty, tys):
    return it.read(st, a[0].aid, a[0].off + it.p.ps, it.p.ps)


@intr("vtable_align")
def _va(it, st, f, a, rty, tys):
    return it.read(st, a[0].aid, a[0].off + 2 * it.p.ps, it.p.ps)


@intr("transmute", "transmute_unchecked")
def _tr(it, st, f, a, rty, tys):
    return it.transmute(st, a[0], tys[0], rty)


def chk(it, st, ty, *ptrs):
    if it.check_align:
        for q in ptrs:
            if q.__class__ is P:
                it.aligned(st, q.aid, q.off, ty)


@intr("copy", "volatile_copy_memory")
def _copy(it, st, f, a, rty, tys):
    chk(it, st, it.p.types[tys[0]]["to"], a[0], a[1])
    it.memcpy(st, a[0], a[1], a[2], pointee_size(it, f))
    return UNIT


@intr("copy_nonoverlapping", "volatile_copy_nonoverlapping_memory")
def _copyn(it, st, f, a, rty, tys):
    chk(it, st, it.p.types[tys[0]]["to"], a[0], a[1])
    it.memcpy(st, a[0], a[1], a[2], pointee_size(it, f))
    return UNIT


@intr("write_bytes", "volatile_set_memory")
def _wb(it, st, f, a, rty, tys):
    es = pointee_size(it, f)
    n = mulc(it.as_int(st, a[2]), es, it.p.ptr)
    fill(it, st, a[0], it.as_int(st, a[1]), n)
    return UNIT


def fill(it, st, dst, byte, n):
    if not isc(n):
        r = st.facts.range(n)
        if r[0] == r[1]:
            n = r[0]
    if isc(n) and n == 0:
        return
    d = it.to_ptr(st, dst)
    if d.__class__ is not P:
        if not isc(n) and st.truth(eq(n, 0, it.p.ptr)):
            return
        raise UB("write through invalid pointer")
    if isc(n) and n <= 4096 and isc(d.off):
        al = it.get_alloc(st, d.aid)
        it.bounds_n(st, al, d.off, n, "write")
        for i in range(n):
            it.write(st, d.aid, d.off + i, 1, byte)
        return
    al = it.get_alloc(st, d.aid)
    it.bounds_n(st, al, d.off, n, "write")
    al = st.w(d.aid)

    def g(it2, st2, off, size, byte=byte):
        if size == 1:
            return byte
        return concat([(byte, 8)] * size)
    g.src = ("fill", byte)
    al.log = al.log + (("r", d.off, n, g),)


@intr("volatile_load", "unaligned_volatile_load", "read_via_copy")
def _vl(it, st, f, a, rty, tys):
    p = it.to_ptr(st, a[0])
    if it.p.size(rty) == 0:
        return UNIT
    if p.__class__ is not P:
        raise UB("read through invalid pointer")
    if f.get("intr") != "unaligned_volatile_load":
        chk(it, st, rty, p)
    return it.load(st, p.aid, p.off, rty)


@intr("volatile_store", "unaligned_volatile_store", "write_via_move")
def _vst(it, st, f, a, rty, tys):
    p = it.to_ptr(st, a[0])
    n = it.p.size(tys[1])
    if n == 0:
        return UNIT
    if p.__class__ is not P:
        raise UB("write through invalid pointer")
    if f.get("intr") != "unaligned_volatile_store":
        chk(it, st, tys[1], p)
    it.store(st, p.aid, p.off, a[1], n)
    return UNIT


def bytes_of(it, st, ptr, n):
    p = it.to_ptr(st, ptr)
    if n == 0:
        return []
    if p.__class__ is not P:
        raise UB("read through invalid pointer")
    return [it.read(st, p.aid, add(p.off, i, it.p.ptr) if not isc(p.off) else p.off + i, 1) for i in range(n)]


@intr("compare_bytes")
@model("memcmp", "core::slice::cmp::memcmp")
def _cmpb(it, st, f, a, rty, tys):
    n = it.as_int(st, a[2])
    if not isc(n):
        r = st.facts.range(n)
        if r[0] == r[1]:
            n = r[0]
        elif r[1] - r[0] <= 64:
            raise Split([(eq(n, i, it.p.ptr), True) for i in range(r[0], r[1] + 1)])
        else:
            raise Undecided("comparison of unbounded length")
    x, y = bytes_of(it, st, a[0], n), bytes_of(it, st, a[1], n)
    for p, q in zip(x, y):
        p, q = it.as_int(st, p), it.as_int(st, q)
        if not st.truth(eq(p, q, 8)):
            return mask(32) if st.truth(ult(p, q, 8)) else 1
    return 0


@intr("raw_eq")
def _raweq(it, st, f, a, rty, tys):
    n = pointee_size(it, f)
    x, y = bytes_of(it, st, a[0], n), bytes_of(it, st, a[1], n)
    r = 1
    for p, q in zip(x, y):
        r = and1(r, eq(it.as_int(st, p), it.as_int(st, q), 8))
    return r


def iw(it, f):
    return it.p.bits(targ(it, f))


@intr("bswap")
def _bswap(it, st, f, a, rty, tys):
    return bswap(it.as_int(st, a[0]), it.p.bits(tys[0])[0])


@intr("bitreverse")
def _bitrev(it, st, f, a, rty, tys):
    w = it.p.bits(tys[0])[0]
    v = it.as_int(st, a[0])
    return concat([(ext(v, w - 1 - i, 1), 1) for i in range(w)])


@intr("rotate_left")
def _rotl(it, st, f, a, rty, tys):
    w = it.p.bits(tys[0])[0]
    return rotl(it.as_int(st, a[0]), cnt(it, st, a[1], w), w)


@intr("rotate_right")
def _rotr(it, st, f, a, rty, tys):
    w = it.p.bits(tys[0])[0]
    c = cnt(it, st, a[1], w)
    return rotl(it.as_int(st, a[0]), (w - c) % w if isc(c) else sub(w, c, 32), w)


def cnt(it, st, v, w):
    v = it.as_int(st, v)
    if isc(v):
        return v % w
    r = st.facts.range(v)
    if r[0] == r[1]:
        return r[0] % w
    raise Undecided("rotation by an unknown count")


@intr("ctpop")
def _ctpop(it, st, f, a, rty, tys):
    v = it.as_int(st, a[0])
    return bin(v).count("1") if isc(v) else fn("ctpop", 32, v)


@intr("ctlz", "ctlz_nonzero")
def _ctlz(it, st, f, a, rty, tys):
    w = it.p.bits(tys[0])[0]
    v = it.as_int(st, a[0])
    return w - v.bit_length() if isc(v) else fn("ctlz%d" % w, 32, v)


@intr("cttz", "cttz_nonzero")
def _cttz(it, st, f, a, rty, tys):
    w = it.p.bits(tys[0])[0]
    v = it.as_int(st, a[0])
    if isc(v):
        return (v & -v).bit_length() - 1 if v else w
    return fn("cttz%d" % w, 32, v)


@intr("saturating_add")
def _sata(it, st, f, a, rty, tys):
    w, s = it.p.bits(tys[0])
    x, y = it.as_int(st, a[0]), it.as_int(st, a[1])
    v, o = it.overflowing("Add", x, y, w, s, st)
    if st.truth(o):
        if not s:
            return mask(w)
        return (1 << (w - 1)) if st.truth(slt(y, 0, w)) else mask(w - 1)
    return v


@intr("saturating_sub")
def _sats(it, st, f, a, rty, tys):
    w, s = it.p.bits(tys[0])
    x, y = it.as_int(st, a[0]), it.as_int(st, a[1])
    v, o = it.overflowing("Sub", x, y, w, s, st)
    if st.truth(o):
        if not s:
            return 0
        return mask(w - 1) if st.truth(slt(y, 0, w)) else (1 << (w - 1))
    return v


@intr("exact_div")
def _exd(it, st, f, a, rty, tys):
    return it.arith(st, "Div", a[0], a[1], tys[0], tys[0])


@intr("disjoint_bitor")
def _dbo(it, st, f, a, rty, tys):
    return it.arith(st, "BitOr", a[0], a[1], tys[0], tys[0])


for _n, _o in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"), ("unchecked_sub", "Sub"),
               ("unchecked_mul", "Mul"), ("unchecked_div", "Div"), ("unchecked_rem", "Rem"), ("unchecked_shl", "Shl"), ("unchecked_shr", "Shr")):
    def _ar(it, st, f, a, rty, tys, _o=_o):
        return it.arith(st, _o, a[0], a[1], tys[0], tys[1])
    INTR[_n] = _ar


for _n, _o in (("add_with_overflow", "Add"), ("sub_with_overflow", "Sub"), ("mul_with_overflow", "Mul")):
    def _ao2(it, st, f, a, rty, tys, _o=_o):
        w, s = it.p.bits(tys[0])
        v, o = it.overflowing(_o, it.as_int(st, a[0]), it.as_int(st, a[1]), w, s, st)
        l = it.p.types[rty]["l"]["offs"]
        return A(tuple(sorted(((l[0], w // 8, v), (l[1], 1, zext(o, 1, 8) if not isc(o) else o)), key=lambda c: c[0])), it.p.size(rty))
    INTR[_n] = _ao2


@intr("ptr_offset_from", "ptr_offset_from_unsigned")
def _pof(it, st, f, a, rty, tys):
    es = pointee_size(it, f)
    x, y = it.to_ptr(st, a[0]), it.to_ptr(st, a[1])
    w = it.p.ptr
    if x.__class__ is P and y.__class__ is P and x.aid == y.aid:
        d = sub(x.off & mask(w) if isc(x.off) else x.off, y.off & mask(w) if isc(y.off) else y.off, w)
    else:
        d = sub(it.as_int(st, x), it.as_int(st, y), w)
    if es <= 1:
        return d
    if isc(d):
        return (sgn(d, w) // es) & mask(w)
    q = div_lin(d, es, w)
    return q if q is not None else sdiv(d, es, w)


def div_lin(d, es, w):
    """d / es when every coefficient is a multiple of es (no wrap: pointer distances)."""
    if d.op == "lin" and sgn(d.a[0], w) % es == 0 and all(sgn(k, w) % es == 0 for t, k in d.a[1]):
        r = (sgn(d.a[0], w) // es) & mask(w)
        for t, k in d.a[1]:
            r = add(r, mulc(t, (sgn(k, w) // es) & mask(w), w), w)
        return r
    return None


@intr("arith_offset", "offset")
def _aoff(it, st, f, a, rty, tys):
    es = pointee_size(it, f)
    return it.ptr_off(st, a[0], mulc(it.as_int(st, a[1]), es, it.p.ptr))


@intr("ptr_mask")
def _pm(it, st, f, a, rty, tys):
    v = it.band(st, it.as_int(st, a[0]), it.as_int(st, a[1]), it.p.ptr)
    return it.to_ptr(st, v)


@intr("ptr_guaranteed_cmp")
def _pgc(it, st, f, a, rty, tys):
    return 2


@intr("caller_location")
def _cl(it, st, f, a, rty, tys):
    return P(("loc", 0), 0)


@intr("select_unpredictable")
def _selu(it, st, f, a, rty, tys):
    return a[1] if st.truth(it.b1(it.as_int(st, a[0]))) else a[2]


@intr("three_way_compare")
def _twc(it, st, f, a, rty, tys):
    w, s = it.p.bits(tys[0])
    return it.arith2(st, "Cmp", it.as_int(st, a[0]), it.as_int(st, a[1]), w, s)


@intr("type_id")
def _tid(it, st, f, a, rty, tys):
    raise Undecided("type_id")


@intr("const_eval_select")
def _ces(it, st, f, a, rty, tys):
    raise Undecided("const_eval_select")


def atomic(name):
    return name.startswith("atomic_")


def _at_load(it, st, f, a, rty, tys):
    return _vl(it, st, f, a, rty, tys)


def _at_store(it, st, f, a, rty, tys):
    return _vst(it, st, f, a, rty, tys)


def _at_rmw(op):
    def g(it, st, f, a, rty, tys):
        p = it.to_ptr(st, a[0])
        n = it.p.size(rty)
        v = it.load(st, p.aid, p.off, rty)
        x = it.as_int(st, a[1])
        w = n * 8
        y = it.as_int(st, v)
        r = {"xadd": lambda: add(y, x, w), "xsub": lambda: sub(y, x, w), "xchg": lambda: x, "and": lambda: band(y, x, w),
             "or": lambda: bor(y, x, w), "xor": lambda: xor(y, x, w)}[op]()
        it.store(st, p.aid, p.off, r, n)
        return v
    return g


def _at_cxchg(it, st, f, a, rty, tys):
    p = it.to_ptr(st, a[0])
    n = it.p.size(tys[1])
    v = it.as_int(st, it.load(st, p.aid, p.off, tys[1]))
    ok = st.truth(eq(v, it.as_int(st, a[1]), n * 8))
    if ok:
        it.store(st, p.aid, p.off, a[2], n)
    l = it.p.types[rty]["l"]["offs"]
    return A(tuple(sorted(((l[0], n, v), (l[1], 1, int(ok))), key=lambda c: c[0])), it.p.size(rty))


for _n in ("load", "store", "xadd", "xsub", "xchg", "and", "or", "xor", "cxchg", "cxchgweak", "fence", "singlethreadfence"):
    INTR["atomic_" + _n] = {"load": _at_load, "store": _at_store, "cxchg": _at_cxchg, "cxchgweak": _at_cxchg,
                            "fence": _nop, "singlethreadfence": _nop}.get(_n) or _at_rmw(_n)


# --- allocation --------------------------------------------------------------------
def do_alloc(it, st, size, align, zero=False):
    al = align if isc(align) else 1
    aid = it.alloc(st, size, al, "heap")
    if zero:
        a = st.w(aid)
        a.base = lambda i: 0
    return P(aid, 0)


def no_memory(it, st, size):
    """Allocations beyond `it.oom` bytes fail."""
    oom = getattr(it, "oom", None)
    return oom is not None and st.truth(ult(oom, size, it.p.ptr))


@model("alloc::alloc::__rust_alloc", "__rust_alloc")
def _ra(it, st, f, a, rty, tys):
    if no_memory(it, st, it.as_int(st, a[0])):
        return 0
    return do_alloc(it, st, it.as_int(st, a[0]), it.align_int(st, a[1]) if hasattr(it, "align_int") else scal(it, st, a[1]))


def scal(it, st, v):
    if v.__class__ is A:
        v = it.agg_scalar(st, v, v.size)
    return it.as_int(st, v)


@model("alloc::alloc::__rust_alloc_zeroed", "__rust_alloc_zeroed")
def _raz(it, st, f, a, rty, tys):
    return do_alloc(it, st, it.as_int(st, a[0]), scal(it, st, a[1]), True)


@model("alloc::alloc::__rust_dealloc", "__rust_dealloc")
def _rd(it, st, f, a, rty, tys):
    p = it.to_ptr(st, a[0])
    if p.__class__ is P:
        if p.aid not in st.mem or not isc(p.off) or p.off != 0:
            raise UB("invalid free of %s" % (p,))
        st.mem.pop(p.aid)
    return UNIT


@model("alloc::alloc::__rust_realloc", "__rust_realloc")
def _rr(it, st, f, a, rty, tys):
    p = it.agg_scalar(st, a[0], a[0].size) if a[0].__class__ is A else a[0]
    p = it.to_ptr(st, p)
    if p.__class__ is not P or p.aid not in st.mem:
        raise UB("invalid realloc")
    if no_memory(it, st, it.as_int(st, a[3])):
        return 0
    old = st.mem.pop(p.aid)
    n = old.copy()
    n.owner = st.tok
    n.size = it.as_int(st, a[3])
    aid = newid("heap")
    st.mem[aid] = n
    return P(aid, 0)


@model("alloc::alloc::__rust_no_alloc_shim_is_unstable_v2", "__rust_no_alloc_shim_is_unstable_v2")
def _rns(it, st, f, a, rty, tys):
    return UNIT


@model("core::ptr::align_offset")
def _alo(it, st, f, a, rty, tys):
    es = pointee_size(it, f)
    al = it.as_int(st, a[1])
    if it.check_align and isc(al) and a[0].__class__ is P and a[0].aid[0] != "int":
        k = it.get_alloc(st, a[0].aid).align
        if k < al or not isc(a[0].off):
            return (1 << it.p.ptr) - 1      # the documented answer if nothing is known
    v = it.as_int(st, a[0])
    low = it.band(st, v, al - 1, it.p.ptr)
    if isc(low) and es == 1:
        return (al - low) % al
    if es == 1:
        return band(sub(al, low, it.p.ptr), al - 1, it.p.ptr)
    raise Undecided("align_offset")
