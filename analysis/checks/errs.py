"""C45: byte views of file headers.  C46: type-erased errors."""
import itertools

from absint import A, P
from sem import Sem
from terms import *
from vp import check

CFGS = ("host", "i686", "s390x")


def on_drop(it, st, args, rty):
    st.emit("drop", args[0])
    return A((), 0)


@check("C45", "Value numbering over arbitrary bytes on each target: importing keeps every byte at its place, the view has the address and the size of the header, "
              "and both in sequence are the identity; accesses are checked for alignment and bounds.")
def c45(c):
    for cfg in CFGS:
        s = Sem(c, cfg, "errs")
        s.it.check_align = True
        for root in sorted(s.names):
            if not root.startswith("v_"):
                continue
            op = root.split("::")[-1][2:]
            tys, rty = s.sig(root)
            n = s.p.size(s.p.types[tys[0]]["to"])
            st = s.state()
            p = P(s.it.alloc(st, n, s.p.align(s.p.types[tys[0]]["to"]), "v", base="v"), 0)
            b = [s.it.read(st, p.aid, i, 1) for i in range(n)]
            for o in s.rets("view", root, [p], st):
                if op == "as":
                    s.same("view", root, o.st, [(o.val, p)], "address of the view")
                    c.expect("view", s.p.size(s.p.types[rty]["to"]) == n, s.key(root), s.where(root), "the view has not the size of the header")
                else:
                    s.same("view", root, o.st, list(zip(s.bytes(o.st, o.val, n), b)), "bytes of the header" if op == "from" else "bytes viewed")
                s.same("view", root, o.st, [(s.it.read(o.st, p.aid, i, 1), b[i]) for i in range(n)], "bytes of the input")
        s.done()
    c.floor("view", 3 * 7 * 3)


@check("C46", "Value numbering with observable destructors: each constructor yields the alternative of its name with the same object behind it, no destructor runs before "
              "the container is dropped, and dropping it runs the destructor exactly once and frees the object.")
def c46(c):
    for cfg in CFGS + ("std",):
        s = Sem(c, cfg, "errs", drops=True, foreign={"x_drop": on_drop})
        for root in sorted(s.names):
            if root.startswith("e"):
                erased(s, root)
        s.done()
    c.floor("erased error", 4 * 4 * 7)


def erased(s, root):
    rule = "erased error"
    k = int(root[1])
    op = root.split("::")[-1][2:]
    tys, rty = s.sig(root)
    st = s.state()
    v = s.it.alloc(st, 8, 8, "v", base="v")
    val = s.it.read(st, v, 0, 8)
    arg = s.it.snapshot(st, v, 0, 8) if op in ("box", "drop") else P(v, 0)
    live = set(st.mem)
    for o in s.rets(rule, root, [arg], st):
        drops = [e[1] for e in o.st.events() if e[0] == "drop"]
        want = [val] if op.startswith("drop") else []
        if len(drops) != len(want):
            s.c.bad(rule, s.key(root), s.where(root), "%d destructor calls, expected %d" % (len(drops), len(want)))
        elif want:
            s.same(rule, root, o.st, list(zip(drops, want)), "dropped value")
            left = [x for x in o.st.mem if x[0] not in ("g", "l") and (x not in live or x == v and op == "drop_fold")]
            s.c.expect(rule, not left, s.key(root), s.where(root), "the object is not freed")
        else:
            got = sorted(o.val.cells)
            num = [x for off, n, x in got if n == 4 and x.__class__ is int]
            ptr = [x for off, n, x in got if x.__class__ is P]
            if not s.c.expect(rule, num == [k + 4 * (op == "static")] and len(ptr) == 1, s.key(root), s.where(root), "kept as another kind of error"):
                continue
            if op == "box":
                s.same(rule, root, o.st, [(s.it.read(o.st, ptr[0].aid, 0, 8), val)], "stored value")
            else:
                s.same(rule, root, o.st, [(ptr[0], P(v, 0))], "object")


@check("C47", "Value numbering of the bridges in the configuration with the standard library: texts of unknown bytes keep address and length, and text is written through an arbitrary "
              "writer whose answers (all, some, nothing, interrupted, failed) are enumerated for the first calls.")
def c47(c):
    calls = itertools.product(("all", 1, 2, 0, "fail", "again"), repeat=4)
    s = Sem(c, "std", "bridge", foreign={"x_write": on_write, "x_source": lambda it, st, a, rty: int(a[0] == 7)})
    for root in ("r_from_osstr", "r_from_conv", "r_as_osstr", "r_as_ref"):
        for n in (0, 1, 2, 5, 17, 300):
            st = s.state()
            p = s.buf(st, "v", n)
            for o in s.rets("operating system strings", root, [s.wide(p, n)], st):
                s.same("operating system strings", root, o.st, [(o.val.get(0), p), (o.val.get(s.p.ps), n)], "%d bytes" % n)
    for script in calls:
        for n in (0, 1, 3, 4):
            written(s, script, n)
    for k, has in itertools.product((1, 2, 3, 4), (True, False)):
        st = s.state()
        p = P(s.it.alloc(st, 16, 8, "e", base="e"), 0)
        s.it.store(st, p.aid, 0, 7 if has else 5, 8)
        root = "r_source%d" % k
        for o in s.rets("source", root, [p], st):
            s.same("source", root, o.st, [(o.val, P(p.aid, 8) if has and k == 4 else 0)], "source")
    s.done()
    c.floor("operating system strings", 24)
    c.floor("written text", 500)
    c.floor("source", 8)


def on_write(it, st, a, rty):
    i = st.user.get("i", 0)
    st.user["i"] = i + 1
    st.emit("write", (a[0], a[1]))
    k = st.user["script"][i] if i < len(st.user["script"]) else "all"
    if k == "fail":
        return (1 << 64) - 1
    if k == "again":
        return (1 << 64) - 2
    return a[1] if k == "all" or k > a[1] else k


def written(s, script, n):
    rule, root = "written text", "r_write"
    st = s.state()
    p = P(s.it.alloc(st, n, 1, "v", base="v"), 0)
    st.user["script"] = script
    for o in s.rets(rule, root, [P(s.it.alloc(st, 0, 1, "out"), 0), s.wide(p, n)], st):
        what = "writer answers %s, %d bytes" % (" ".join(map(str, script)), n)
        at, ok = 0, True
        pairs = []
        for i, (_, (ptr, size)) in enumerate(e for e in o.st.events() if e[0] == "write"):
            if not ok:
                s.c.bad(rule, s.key(root), s.where(root), what + ": written to again after a failure")
            pairs.append((ptr, P(p.aid, at)))
            if not isc(size) or size > n - at:
                s.c.bad(rule, s.key(root), s.where(root), what + ": more written than there is")
                break
            k = script[i] if i < len(script) else "all"
            if k == "fail" or k == 0 and size:
                ok = False
            elif k != "again":
                at += size if k == "all" else min(size, k)
        s.same(rule, root, o.st, pairs + [(o.val, int(ok))], what)
        if ok and at != n:
            s.c.bad(rule, s.key(root), s.where(root), what + ": only %d bytes written" % at)
