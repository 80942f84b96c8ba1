"""C11: byte-order annotated numbers."""
from sem import Sem
from terms import *
from vp import check

CFGS = ("host", "i686", "s390x", "aarch64", "aarch64be", "ppc", "win64", "x32")


@check("C11", "Value numbering over every conversion of every supported primitive on little- and big-endian targets: the bytes "
              "in memory are compared with the declared order for an arbitrary value.")
def c11(c):
    for cfg in CFGS:
        s = Sem(c, cfg, "endian")
        for root in sorted(s.names):
            kind = root.split("::")[-1][2:].split("_")          # be|le|ne, [t|f], from|to, native|raw
            order, op = kind[0], "_".join(kind[-2:])
            (aty,), rty = s.sig(root)
            n = s.p.size(rty)
            st = s.state()
            if op == "clone_raw":
                v = s.sym(rty, "v")
                arg = s.place(st, v, rty)
            else:
                arg = v = s.sym(aty, "v")
            for o in s.rets(order + " " + op, root, [arg], st):
                ib, ob = s.bytes(o.st, v, n), s.bytes(o.st, o.val, n)
                if op.endswith("_raw") or order == "ne":
                    want = ib
                else:
                    want = ib if (order == "be") == s.p.big else ib[::-1]
                s.same(order + " " + op, root, o.st, list(zip(ob, want)), "stored bytes")
        s.done()
    for o in ("be", "le"):
        for op in ("from_native", "to_native", "from_raw", "to_raw"):
            c.floor(o + " " + op, 24 * 3 * 2)
