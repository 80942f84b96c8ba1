"""C16: equality, ordering and hashing."""
from absint import A, P
from sem import Sem
from terms import *
from vp import check, parallel

CFGS = ("host", "s390x", "i686")
OPS = ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "pcmp")


def on_write(it, st, args, rty):
    p, n = args
    if not isc(n):
        st.emit("hash", None)
        return A((), 0)
    p = it.to_ptr(st, p)
    for i in range(n):
        st.emit("hash", it.read(st, p.aid, p.off + i if isc(p.off) else add(p.off, i, it.p.ptr), 1))
    return A((), 0)


def want(op, lt, e):
    """Result of an operation for two values that are ordered this way."""
    if op in ("cmp", "pcmp"):
        return 255 if lt else 0 if e else 1
    return int({"eq": e, "ne": not e, "lt": lt, "le": lt or e, "gt": not (lt or e), "ge": not lt}[op])


@check("C16", "Value numbering over two arbitrary logical values: each comparison operator of each type is evaluated for the three "
              "possible orders of the values and compared with the order of the native values or addresses; the bytes fed to a "
              "hasher may depend on the logical value only.")
def c16(c):
    for cfg in CFGS:
        s = Sem(c, cfg, "cmpeq", foreign={"x_write": on_write})
        for root in sorted(s.names):
            one(s, root)
        s.done()
    from checks import signature
    parallel(c, [lambda c, cfg=cfg, i=i, k=k: signature.job_orders(c, cfg, i, k) for cfg, k in (("host", 8), ("i686", 4)) for i in range(k)])
    c.floor("comparison", 40 * 8 * 3)
    c.floor("hash", 40 * 3)


def one(s, root):
    top, op = root.split("::")
    op = op[2:]
    tys, rty = s.sig(root)
    st = s.state()
    a, b = [s.word(st, s.sym(tys[0], n), s.p.size(tys[0])) for n in "ab"]
    ty = s.p.types[tys[0]]
    w = s.p.size(tys[0]) * 8
    unit = top.startswith("unit_")
    if op.startswith("hash"):
        if op == "hash2":
            return
        rule = "hash"
        h1 = hashes(s, rule, root, a)
        h2 = hashes(s, rule, root + "2", a)
        if not h1 or not h2:
            return
        # both ways to hold the value feed the same bytes on every path
        for st1, e1 in h1:
            for st2, e2 in h2:
                if None in e1 or None in e2:
                    s.c.unk(rule, s.key(root), "hash input of unknown length")
                elif len(e1) != len(e2):
                    s.c.bad(rule, s.key(root), s.where(root), "equal values feed %d and %d bytes to the hasher" % (len(e1), len(e2)))
                else:
                    s.same(rule, root, st1, list(zip(e1, e2)), "bytes fed to the hasher by two equal values")
        # and nothing but the value
        for st1, e1 in h1:
            for e in e1:
                e = s.it.as_int(st1, e)
                for x in atoms_of(e):
                    if x is not a and not unit or unit:
                        s.c.bad(rule, s.key(root), s.where(root), "hash depends on %s rather than on the compared value alone" % show(x))
                        return
        return
    rule = "comparison"
    args = [a, b]
    signed = ty["k"] == "int" and ty.get("signed", ty["n"].startswith("i"))
    lt0 = slt(a, b, w) if signed else ult(a, b, w)
    e0 = eq(a, b, w)
    for o in s.rets(rule, root, args, st):
        for lt, e in ((True, False), (False, True), (False, False)):
            if unit and not e:
                lt, e = False, True
            st2 = o.st.fork()
            if not unit:
                if not st2.assume(lt0, lt) or not st2.assume(e0, e):
                    continue
            w_ = want(op, lt, e)
            got = s.it.b1(o.val) if op not in ("cmp", "pcmp") else s.word(st2, o.val, 1)
            s.same(rule, root, st2, [(got, w_)], "%s of values with first %s second" % (op, "<" if lt else "=" if e else ">"))


def atoms_of(e):
    import terms as tm
    return [] if isc(e) else [x for x in tm.atoms(e) if x.op in ("var", "addr", "sel", "fn")]


def hashes(s, rule, root, a):
    out = []
    for o in s.rets(rule, root, [a], s.state()):
        out.append((o.st, [e[1] for e in o.st.events() if e[0] == "hash"]))
    return out
