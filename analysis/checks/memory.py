"""C12: byte-level memory helpers; C13: tagged pointers; C14: smart-pointer conversions; C15: packed and ABI wrappers;
C20: field and container pointers."""
from absint import A, P
from sem import Sem
from terms import *
import terms as tm
from vp import check

CFGS = ("host", "i686", "s390x")


def pointee(s, ty):
    return s.p.types[ty]["to"]


@check("C12", "Value numbering with bounds and alignment checks of every memory access: for a grid of source and destination sizes "
              "and alignments and arbitrary contents, the bytes of the result are compared with the bytes of the source.")
def c12(c):
    for cfg in CFGS:
        s = Sem(c, cfg, "memory")
        s.it.check_align = True
        ps = s.p.ps
        for root in sorted(s.names):
            op = root.split("::")[-1][2:]
            tys, rty = s.sig(root)
            st = s.state()
            if op.startswith("slice"):
                st0, p = st, None
                n = var("n", s.p.ptr, 0, 1 << 40 if s.p.ptr == 64 else 1 << 20)
                es = s.p.size(s.p.types[pointee(s, tys[0])]["elem"])
                aid = s.it.alloc(st, mulc(n, es, s.p.ptr), s.p.align(s.p.types[pointee(s, tys[0])]["elem"]), "v", base="v")
                for o in s.rets("views", root, [s.wide(P(aid, 0), n)], st):
                    s.same("views", root, o.st, [(o.val.get(0), P(aid, 0)), (o.val.get(ps), n)], "pointer and length")
                continue
            sty = pointee(s, tys[0])
            n = s.p.size(sty)
            src = s.buf(st, "v", n, s.p.align(sty))
            vb = [s.it.read(st, src.aid, i, 1) for i in range(n)]
            args = [src]
            rule = "views"
            if op.startswith("eq_"):
                m = s.p.size(pointee(s, tys[1]))
                b = s.buf(st, "w", m, s.p.align(pointee(s, tys[1])))
                wb = [s.it.read(st, b.aid, i, 1) for i in range(m)]
                args.append(b)
                want = int(n == m)
                if want:
                    for x, y in zip(vb, wb):
                        want = and1(want, eq(x, y, 8))
                for o in s.rets("equality", root, args, st):
                    s.same("equality", root, o.st, [(s.it.b1(o.val), want)], "result")
                continue
            if op.startswith("tc_"):
                rule = "reinterpret"
                m = s.p.size(rty)
                k = min(n, m)
                if m > n and s.p.scalar(rty):
                    continue        # a partly initialised integer: outside of the caller's promise
                for o in s.rets(rule, root, args, st):
                    got = s.bytes(o.st, o.val, m)[:k] if m else []
                    s.same(rule, root, o.st, list(zip(got, vb)), "leading bytes")
                    intact(s, rule, root, o, src, vb)
                continue
            if op == "bswap":
                rule = "byte swap"
                for o in s.rets(rule, root, args, st):
                    got = s.bytes(o.st, o.val, n) if n else []
                    s.same(rule, root, o.st, list(zip(got, vb[::-1])), "reversed bytes")
                    intact(s, rule, root, o, src, vb)
                continue
            for o in s.rets(rule, root, args, st):
                if op.startswith("as_bytes"):
                    pairs = [(o.val.get(0), src), (o.val.get(ps), n)]
                else:
                    pairs = [(o.val, src)]
                s.same(rule, root, o.st, pairs, "view of the object")
                intact(s, rule, root, o, src, vb)
        s.done()
    c.floor("byte swap", 37 * 3)
    c.floor("reinterpret", 1700)
    c.floor("views", 37 * 8 * 3)
    c.floor("equality", 37 * 3 * 3)


def intact(s, rule, root, o, src, vb):
    now = [s.it.read(o.st, src.aid, i, 1) for i in range(len(vb))]
    bad = [i for i, (a, b) in enumerate(zip(now, vb)) if a is not b]
    if bad:
        s.same(rule, root, o.st, [(now[i], vb[i]) for i in bad], "source left unchanged")


@check("C13", "Value numbering at bit level over an arbitrary address: the stored word splits into address and tag bits, every "
              "operation changes exactly its own part.")
def c13(c):
    for cfg in CFGS:
        s = Sem(c, cfg, "ptrs")
        for root in sorted(s.names):
            if root.startswith("t_"):
                tagged(s, root)
        s.done()
    c.floor("accessor", 7 * 5 * 3)
    c.floor("modifier", 7 * 5 * 3)
    c.floor("construction", 7 * 2 * 3)


def tagged(s, root):
    w, ps = s.p.ptr, s.p.ps
    op = root.split("::")[-1][2:]
    tys, rty = s.sig(root)
    # address above the tag bits is arbitrary but not zero
    hi = var("hi", w - 2, 1)
    tag = var("tag", 2)
    word = concat([(tag, 2), (hi, w - 2)])
    addr4 = concat([(0, 2), (hi, w - 2)])
    meta = var("vmeta", w)

    def val(word, m=meta):
        return s.wide(word, m) if wide else word

    if op in ("new", "new_unchecked"):
        wide = s.p.size(tys[0]) == 2 * ps
        if op == "new_unchecked":
            for o in s.rets("construction", root, [val(addr4)]):
                parts(s, "construction", root, o.st, o.val, addr4, meta if wide else None)
            return
        a = var("a", w, 1)
        ok = eq(ext(a, 0, 2), 0, 2)
        for o in s.rets("construction", root, [val(a)]):
            some = niche_some(s, o.st, o.val)
            if some is None:
                s.c.unk("construction", s.key(root), "variant of the result")
                continue
            s.same("construction", root, o.st, [(some, ok)], "accepted exactly if aligned")
            if o.st.decide(some) is True:
                parts(s, "construction", root, o.st, o.val, a, meta if wide else None)
        return
    wide = s.p.size(pointee(s, tys[0])) == 2 * ps
    st = s.state()
    p = s.place(st, val(word), pointee(s, tys[0]))
    args = [p]
    bit = None
    if op in ("meta_bit", "set_meta_bit"):
        # both tag bits; other positions are not tag bits
        for b in (0, 1):
            st2 = st.fork()
            tagop(s, root, op, st2, [p, b] + ([zext(var("f", 1), 1, 8)] if op == "set_meta_bit" else []), word, addr4, tag, meta if wide else None, b, p)
        return
    if op == "set_ptr":
        hi2 = var("hi2", w - 2, 1)
        n = concat([(0, 2), (hi2, w - 2)])
        m2 = var("vmeta2", w)
        for o in s.rets("modifier", root, [p, s.wide(n, m2) if wide else n], st):
            parts(s, "modifier", root, o.st, s.it.snapshot(o.st, p.aid, 0, 2 * ps if wide else ps), concat([(tag, 2), (hi2, w - 2)]), m2 if wide else None)
        return
    if op == "set_meta":
        m = var("m", w)
        for o in s.rets("modifier", root, [p, m], st):
            parts(s, "modifier", root, o.st, s.it.snapshot(o.st, p.aid, 0, 2 * ps if wide else ps), concat([(ext(m, 0, 2), 2), (hi, w - 2)]), meta if wide else None)
        return
    b = {"get0": 0, "get1": 1, "set0": 0, "set1": 1}.get(op)
    extra = [zext(var("f", 1), 1, 8)] if op.startswith("set") else []
    tagop(s, root, op, st, [p] + extra, word, addr4, tag, meta if wide else None, b, p)


def tagop(s, root, op, st, args, word, addr4, tag, meta, bit, p):
    w, ps = s.p.ptr, s.p.ps
    hi = ext(word, 2, w - 2)
    f = var("f", 1)
    rule = "modifier" if op.startswith("set") else "accessor"
    for o in s.rets(rule, root, args, st):
        snap = s.it.snapshot(o.st, p.aid, 0, 2 * ps if meta is not None else ps)
        if rule == "accessor":
            if op == "ptr":
                parts(s, rule, root, o.st, o.val, addr4, meta)
            elif op == "meta":
                s.same(rule, root, o.st, [(o.val, zext(tag, 2, w))], "tag bits")
            else:
                s.same(rule, root, o.st, [(s.it.b1(o.val), ext(tag, bit, 1))], "tag bit %d" % bit)
            parts(s, rule, root, o.st, snap, word, meta)
        else:
            t = concat([(f, 1), (ext(tag, 1, 1), 1)]) if bit == 0 else concat([(ext(tag, 0, 1), 1), (f, 1)])
            parts(s, rule, root, o.st, snap, concat([(t, 2), (hi, w - 2)]), meta)


def parts(s, rule, root, st, v, word, meta):
    if v.__class__ is A:
        got = [v.get(0)] + ([v.get(s.p.ps)] if meta is not None else [])
    else:
        got = [v]
    want = [word] + ([meta] if meta is not None else [])
    s.same(rule, root, st, list(zip(got, want)), "stored pointer")


def niche_some(s, st, v):
    """An optional non-null pointer is present exactly if its address is not zero."""
    x = v.get(0) if v.__class__ is A else v
    if x is None:
        return None
    if x.__class__ is P:
        return 1
    x = s.it.as_int(st, x)
    e = eq(x, 0, s.p.ptr)
    return bnot(e, 1)


@check("C14", "Abstract interpretation of the conversions with observable destructors and reference counts: the pointer and its "
              "metadata come out unchanged, no destructor runs, no count changes and nothing is freed or allocated.")
def c14(c):
    for cfg in CFGS:
        ev = []
        s = Sem(c, cfg, "ptrs", drops=True, foreign={"x_drop": on_drop})
        for root in sorted(s.names):
            top = root.split("::")[0]
            if top.startswith(("ref_", "mut_", "box_", "rc_", "arc_")):
                convert(s, root)
            elif "::" not in root:
                identity(s, root)
        s.done()
    c.floor("conversion", 16 * 7 * 3)
    c.floor("wrapper", 25 * 3)


def on_drop(it, st, args, rty):
    st.emit("drop", args[0])
    return A((), 0)


def convert(s, root):
    rule = "conversion"
    ps, w = s.p.ps, s.p.ptr
    kind, shape = root.split("::")[0].split("_")
    op = root.split("::")[-1][2:]
    tys, rty = s.sig(root)
    st = s.state()
    cnt = 2 * ps if kind in ("rc", "arc") else 0
    n = 8 if shape in ("sized", "dyn") else None
    ln = var("len", w, 0, 1 << 20)
    size = 8 if n else mulc(ln, 2 if shape == "slice" else 1, w)
    al = 8 if n else 2
    if cnt:
        al = 8
        size = 8 + cnt if n else add(size, cnt, w)
    aid = s.it.alloc(st, size, al, "obj", base="obj")
    if cnt:
        # reference counts of a live object
        s.it.write(st, aid, 0, ps, var("strong", w, 2, 1000))
        s.it.write(st, aid, ps, ps, var("weak", w, 2, 1000))
    meta = None if shape == "sized" else ln if shape in ("slice", "str") else var("vtable", w, 8)
    own = P(aid, 0)
    raw = P(aid, cnt)
    v = s.wide(own, meta) if meta is not None else own
    r = s.wide(raw, meta) if meta is not None else raw
    arg = v
    if op in ("from", "pin_from"):
        arg = r
    if op == "deref":
        arg = s.place(st, v, pointee(s, tys[0]))
    before = image(s, st, aid, cnt + 8 if n else cnt)
    live = set(st.mem)
    for o in s.rets(rule, root, [arg], st):
        if o.val.__class__ is A and op in ("into", "pin_into", "from"):
            k = 2 * ps if meta is not None else ps
            first, second = sub_(o.val, 0, k), sub_(o.val, k, k)
            # tuple fields may be laid out in either order; both are checked against the same expectations
            want = [r, r] if op != "from" else [r, v]
            got = [first, second]
            if op == "from":
                offs = s.p.types[rty]["l"]["offs"]
                got = [sub_(o.val, offs[0], k), sub_(o.val, offs[1], k)]
        elif op == "deref":
            got, want = [o.val], [r]
        else:
            got, want = [o.val], [v]
        pairs = []
        for g, x in zip(got, want):
            pairs += flat(s, g, x, meta is not None)
        ok = s.same(rule, root, o.st, pairs, "pointer")
        ev = [e for e in o.st.events() if e[0] == "drop"]
        if ev:
            s.c.bad(rule, s.key(root), s.where(root), "a destructor runs during the conversion")
        dead = [x for x in live if x not in o.st.mem and x[0] != "l" and x == aid]
        if dead:
            s.c.bad(rule, s.key(root), s.where(root), "the object is freed during the conversion")
            continue
        fresh_ = [x for x in o.st.mem if x not in live and x[0] not in ("g", "l")]
        if fresh_:
            s.c.bad(rule, s.key(root), s.where(root), "memory is allocated and kept by the conversion")
        after = image(s, o.st, aid, cnt + 8 if n else cnt)
        if any(a is not b for a, b in zip(before, after)):
            s.same(rule, root, o.st, list(zip(after, before)), "reference counts and object")


def image(s, st, aid, n):
    return [s.it.read(st, aid, i, 8 if n % 8 == 0 else 4) for i in range(0, n, 8 if n % 8 == 0 else 4)] if n else []


def sub_(v, off, n):
    if n == v.size and off == 0:
        return v
    cs = tuple((o - off, k, x) for o, k, x in v.cells if off <= o < off + n)
    if len(cs) == 1 and cs[0][1] == n:
        return cs[0][2]
    return A(cs, n)


def flat(s, g, x, wide):
    if wide:
        ps = s.p.ps
        if g.__class__ is not A:
            return [(g, x.get(0))]
        return [(g.get(0), x.get(0)), (g.get(ps), x.get(ps))]
    if g.__class__ is A:
        g = g.get(0)
    return [(g, x)]


def identity(s, root):
    """Wrappers that hand out the address they were given."""
    tys, rty = s.sig(root)
    st = s.state()
    aid = s.it.alloc(st, 8, 8, "obj", base="obj")
    p = P(aid, 0)
    arg = p
    t = s.p.types[tys[0]]
    if t["k"] == "ref" and s.p.types[t["to"]]["k"] == "adt" and s.p.size(t["to"]) == s.p.ps and s.p.types[t["to"]]["n"].startswith("osi::"):
        arg = s.place(st, p, t["to"])
    for o in s.rets("wrapper", root, [arg], st):
        v = o.val.get(0) if o.val.__class__ is A else o.val
        s.same("wrapper", root, o.st, [(v, p)], "pointer")
        if [e for e in o.st.events() if e[0] == "drop"]:
            s.c.bad("wrapper", s.key(root), s.where(root), "a destructor runs")


@check("C20", "Value numbering over an arbitrary container address for every field of representative structures on each target, "
              "compared with the compiler's own place projection; compile-fail witnesses for wrong field types.")
def c20(c):
    for cfg in ("host", "i686", "s390x", "x32"):
        s = Sem(c, cfg, "ptrs")
        for root in sorted(s.names):
            top = root.split("::")[0]
            if top not in ("c_repr", "rust_repr", "aligned"):
                continue
            field(s, root)
        s.done()
    c.floor("offset", 14 * 4)
    c.floor("pointer", 14 * 3 * 4)
    c.floor("reference", 14 * 2 * 4)
    import witness
    fieldtypes(c)


def field(s, root):
    w = s.p.ptr
    base, op = root.rsplit("::", 1)
    op = op[2:]
    a = var("a", w, 1)
    if op in ("offset", "place"):
        if op == "offset":
            off = proj(s, base)
            for o in s.rets("offset", root, []):
                s.same("offset", root, o.st, [(o.val, off)], "offset")
        return
    off = proj(s, base)
    if op in ("field_of", "field_of_mut"):
        st = s.state()
        cty = pointee(s, s.sig(root)[0][0])
        aid = s.it.alloc(st, s.p.size(cty), s.p.align(cty), "c", base="c")
        for o in s.rets("reference", root, [P(aid, 0)], st):
            s.same("reference", root, o.st, [(o.val, P(aid, off))], "field reference")
        return
    want = {"field_of_ptr": add(a, off, w), "container_of_ptr": sub(a, off, w), "round": a}[op]
    for o in s.rets("pointer", root, [a]):
        s.same("pointer", root, o.st, [(o.val, want)], "address")


def proj(s, base):
    """Field offset according to the compiler's place projection."""
    a = var("a", s.p.ptr, 1)
    o = s.run(base + "::r_place", [a])
    v = o[0].val
    return sub(v, a, s.p.ptr)


def fieldtypes(c):
    import witness
    head = "pub struct S { pub a: u8, pub b: u64, pub c: [u8; 4], pub d: &'static str, pub e: *const u8 }\n"

    def w(t, f):
        return head + "pub const O: usize = osi::mem::typed_offset_of!(S, %s, %s);\n" % (f, t)
    good = {"a": "u8", "b": "u64", "c": "[u8; 4]", "d": "&'static str", "e": "*const u8"}
    bad = [("a", "i8"), ("a", "u16"), ("b", "u32"), ("b", "i64"), ("c", "[u8; 3]"), ("c", "u32"), ("d", "&'static [u8]"), ("e", "*mut u8"),
           ("b", "core::num::Wrapping<u64>"), ("a", "bool"), ("c", "[u8]"),
           ("b", "dyn core::fmt::Debug")]
    wits = []
    where = "typed_offset_of (lib/osi/src/mem.rs)"
    for f, t in bad:
        wits.append(("field %s is not of type %s" % (f, t), where, w(t, f), w(good[f], f), ("E0308", "E0271", "E0277")))
    wits.append(("field must exist", where, head + "pub const O: usize = osi::mem::typed_offset_of!(S, z, u8);\n", w("u8", "a"), ("E0609",)))
    witness.run(c, "field type", wits)
    c.floor("field type", 10)


@check("C15", "Value numbering with alignment checks and observable destructors: what is stored in a wrapper comes back unchanged "
              "for arbitrary values, each value is dropped exactly once, and every access honours the wrapper's own alignment.")
def c15(c):
    for cfg in CFGS:
        s = Sem(c, cfg, "packed", drops=True, foreign={"x_drop": on_drop})
        s.it.check_align = True
        for root in sorted(s.names):
            top = root.split("::")[0]
            if top.startswith("n_") or top.startswith("f_"):
                address(s, root)
            elif top.startswith(("be_", "le_", "ne_")):
                ordered(s, root, top[:2])
            else:
                wrapper(s, root)
        s.done()
    c.floor("wrapper", 600)
    c.floor("address", 150)
    c.floor("byte order", 7 * 4 * 3)


def leafbytes(s, ty):
    return [i for o, n in s.it.leaves(ty) for i in range(o, o + n)]


def pick(s, st, v, ty, size):
    b = s.bytes(st, v, size)
    return [b[i] for i in leafbytes(s, ty)]


def wrapper(s, root):
    """Operations of one wrapper type; `old` is the value inside, `x` the value passed in."""
    rule = "wrapper"
    base, op = root.rsplit("::", 1)
    op = op[2:]
    tys, rty = s.sig(root)
    if op == "default_value":
        return
    new = base + "::r_new"
    st = s.state()
    if new in s.names:
        vty = s.sig(new)[0][0]
        n = s.p.size(vty)
    else:
        vty = n = None

    def value(name):
        return s.sym(vty, name)

    def inside(o, v, wty):
        """the wrapper's leading bytes are those of the value"""
        return list(zip(pick(s, o.st, v, vty, s.p.size(wty)), pick(s, o.st, x, vty, n)))

    def drops(o):
        return [e[1] for e in o.st.events() if e[0] == "drop"]

    def nodrop(o, want=()):
        got = drops(o)
        if len(got) != len(want):
            s.c.bad(rule, s.key(root), s.where(root), "%d destructor calls, expected %d" % (len(got), len(want)))
        elif want:
            s.same(rule, root, o.st, list(zip(got, want)), "dropped value")

    isdrop = "drop" in root
    if op in ("new", "from"):
        x = value("x")
        for o in s.rets(rule, root, [x], st):
            s.same(rule, root, o.st, inside(o, o.val, rty), "stored value")
            nodrop(o)
        return
    if vty is None and op in ("take", "default"):
        dv = base + "::r_default_value"
        vty = s.sig(dv)[1]
        n = s.p.size(vty)
        d = s.run(dv, [])[0].val
        if op == "default":
            x = d
            for o in s.rets(rule, root, [], st):
                s.same(rule, root, o.st, inside(o, o.val, rty), "default value")
            return
    if vty is None:
        # pointer wrappers without constructor in the same group
        wty = pointee(s, tys[0])
        ity = rty if op == "get" else None
        n = s.p.size(wty)
        w = s.sym(wty, "old")
        p = s.place(st, w, wty)
        for o in s.rets(rule, root, [p], st):
            s.same(rule, root, o.st, list(zip(s.bytes(o.st, o.val, n), s.bytes(o.st, w, n))), "value")
        return
    old = value("old")
    byval = s.p.types[tys[0]]["k"] not in ("ref", "ptr")
    wty = tys[0] if byval else pointee(s, tys[0])
    wn = s.p.size(wty)
    w = A(old.cells, wn) if old.__class__ is A else A(((0, n, old),), wn) if wn != n else old
    if byval:
        args = [w]
        p = None
    else:
        p = s.place(st, w, wty)
        args = [p]
    x = value("x")
    if op in ("set", "replace"):
        args.append(x)
    oldv = pick(s, st, old, vty, n)
    for o in s.rets(rule, root, args, st):
        dropped = ()
        if op in ("into_inner", "get", "replace", "take"):
            s.same(rule, root, o.st, list(zip(pick(s, o.st, o.val, vty, n), oldv)), "value read back")
        elif op in ("clone", "cast", "cast_into"):
            s.same(rule, root, o.st, list(zip(pick(s, o.st, o.val, vty, s.p.size(rty)), oldv)), "copied value")
        elif op in ("as_ptr", "as_mut_ptr", "address"):
            s.same(rule, root, o.st, [(o.val, p)], "address of the value")
        elif op in ("set", "drop"):
            if isdrop:
                dropped = (old.get(0),)
        else:
            s.c.unk(rule, s.key(root), "unknown operation")
        if p is not None:
            now = s.it.snapshot(o.st, p.aid, 0, wn)
            want = x if op in ("set", "replace") else d if op == "take" else old
            s.same(rule, root, o.st, list(zip(pick(s, o.st, now, vty, wn), pick(s, o.st, want, vty, n))), "value left in the wrapper")
        nodrop(o, dropped)


def address(s, root):
    rule = "address"
    op = root.split("::")[-1][2:]
    tys, rty = s.sig(root)
    w, ps = s.p.ptr, s.p.ps
    st = s.state()
    a = var("a", w, 1 if op in ("from_usize_unchecked", "round") else 0)
    if op == "dangling":
        for o in s.rets(rule, root, []):
            s.same(rule, root, o.st, [(o.val, 4)], "address")
        return
    if op in ("from_usize_unchecked", "round"):
        for o in s.rets(rule, root, [a], st):
            s.same(rule, root, o.st, [(s.word(o.st, o.val, ps), a)], "address")
        return
    if op in ("from_ref", "from_mut", "ref", "mut", "tref", "tmut"):
        aid = s.it.alloc(st, 4, 4, "t", base="t")
        for o in s.rets(rule, root, [P(aid, 0)], st):
            s.same(rule, root, o.st, [(o.val, P(aid, 0))], "address")
        return
    if op in ("from_usize", "try_ptr", "try_mut", "try_usize"):
        for o in s.rets(rule, root, [a], st):
            l = s.p.types[rty]["l"]
            d = o.val.get(0)
            payload = [x for off, k, x in o.val.cells if off != 0]
            some = eq(d, 1, 64 if ps == 8 else 32)
            s.same(rule, root, o.st, [(some, bnot(eq(a, 0, w), 1))], "refused exactly for zero")
            if o.st.decide(some) is True:
                s.same(rule, root, o.st, [(payload[0], a)], "address")
        return
    v = var("v", w, 1)
    arg = v
    if s.p.types[tys[0]]["k"] == "ref":
        arg = s.place(st, v, pointee(s, tys[0]))
    for o in s.rets(rule, root, [arg], st):
        s.same(rule, root, o.st, [(o.val, v)], "address")


def ordered(s, root, order):
    rule = "byte order"
    op = root.split("::")[-1][2:]
    (aty,), rty = s.sig(root)
    if op.startswith("from"):
        n = s.p.size(aty)
        v = s.sym(aty, "v")
    else:
        n = s.p.size(rty)
        v0 = var("v", 8 * n)
        v = A(((0, n, v0),), s.p.size(aty))
    swap = not op.endswith("raw") and order != "ne" and (order == "be") != s.p.big
    for o in s.rets(rule, root, [v]):
        ib = s.bytes(o.st, v, s.p.size(aty))[:n]
        ob = s.bytes(o.st, o.val, s.p.size(rty))[:n]
        s.same(rule, root, o.st, list(zip(ob, ib[::-1] if swap else ib)), "bytes")
