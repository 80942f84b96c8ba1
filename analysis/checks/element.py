"""C34: D-Bus type elements and the metadata of types."""
from absint import A, P
from sem import Sem
from terms import *
from vp import check

# code, pair, D-Bus alignment, D-Bus fixed size (0: none), GVariant alignment, GVariant fixed size, classes
ROWS = [
    ("y", 0, 1, 1, 1, 1, "PB"), ("q", 0, 2, 2, 2, 2, "PB"), ("n", 0, 2, 2, 2, 2, "PB"), ("u", 0, 4, 4, 4, 4, "PB"), ("i", 0, 4, 4, 4, 4, "PB"),
    ("t", 0, 8, 8, 8, 8, "PB"), ("x", 0, 8, 8, 8, 8, "PB"), ("d", 0, 8, 8, 8, 8, "PB"), ("b", 0, 4, 4, 1, 1, "PB"),
    ("s", 0, 4, 0, 1, 0, "PBD"), ("o", 0, 4, 0, 1, 0, "PBD"), ("g", 0, 1, 0, 1, 0, "PBD"), ("h", 0, 4, 4, 4, 4, "PBH"),
    ("v", 0, 1, 0, 8, 0, "PDV"), ("a", 0, 4, 0, None, 0, "PDO"), ("m", 0, None, 0, None, 0, "PDOU"),
    ("(", ")", 8, 0, None, 0, "PO"), (")", "(", None, 0, None, 0, "C"), ("{", "}", 8, 0, None, 0, "PO"), ("}", "{", None, 0, None, 0, "C"),
]
FLAGS = "POCBDVHU"
IDX = {r[0]: i for i, r in enumerate(ROWS)}
FILE = "element table (lib/tmp/src/fmt/dbus/element.rs)"


def exp(al):
    return al.bit_length() - 1


def dal(t):
    return exp(ROWS[IDX[t[0]]][2]) if t[0] != "m" else None


def split(t):
    """Complete types of a valid signature."""
    out, i = [], 0
    while i < len(t):
        j, d = i, 0
        while True:
            ch = t[j]
            d += (ch in "({") - (ch in ")}")
            j += 1
            if d == 0 and ch not in "am":
                break
        out.append((i, t[i:j]))
        i = j
    return out


def gal(t):
    """GVariant alignment of a complete type."""
    if t[0] in "am":
        return gal(t[1:])
    if t[0] in "({":
        return max([0] + [gal(x) for _, x in split(t[1:-1])])
    return exp(ROWS[IDX[t[0]]][4])


def positions(t, base=0):
    """Every position of a signature that starts a complete type, with that type."""
    for i, x in split(t):
        yield base + i, x
        if x[0] in "am":
            yield from positions(x[1:], base + i + 1)
        elif x[0] in "({":
            yield from positions(x[1:-1], base + i + 1)


def sigs():
    basic = "yqnuitxdbsogh"
    for x in basic + "v":
        yield x
        yield from ("a" + x, "m" + x, "aa" + x, "(%s)" % x, "a(%s)" % x, "(y%s)" % x, "(%sy)" % x, "(t%s)" % x, "(a%sq)" % x, "((%s)y)" % x,
                    "{s%s}" % x, "a{y%s}" % x, "(y(q%s)u)" % x, "(m%sy(t))" % x)
        if x != "v":
            yield from ("{%sv}" % x, "a{%sy}" % x, "({%s(q)}y)" % x)
    yield from ("()", "a()", "(()())", "(y(n(i(x))))", "((((x)i)n)y)", "(ynixdubosg)", "(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyt)",
                "(" * 20 + "q" + ")" * 20, "a" * 40 + "u")


@check("C34", "Exhaustive constant evaluation of the element functions (symbolic code byte, all elements, all attribute masks) against the "
              "D-Bus and GVariant type tables; alignments reported for every position of a family of composed types against the rules of both formats.")
def c34(c):
    for cfg in ("host", "i686", "s390x"):
        s = Sem(c, cfg, "element")
        # codes: every byte
        seen = set()
        st = s.state()
        code = var("code", 8)
        for o in s.rets("codes", "r_from_code", [code], st):
            lo, hi = o.st.facts.range(code)
            ne = o.st.facts.ne.get(code) or ()
            v = o.val
            if not isc(v):
                c.unk("codes", s.key("r_from_code"), "result not constant: " + show(v))
                continue
            for b in range(lo, hi + 1):
                if b not in ne:
                    want = IDX.get(chr(b), -1) + 1
                    seen.add(b)
                    c.expect("codes", v == want, "code %#04x [%s]" % (b, cfg), s.where("r_from_code"), "byte %#04x maps to element %s, expected %s" % (
                        b, ROWS[v - 1][0] if v else "none", ROWS[want - 1][0] if want else "none"))
        if len(seen) != 256:
            c.unk("codes", "coverage [%s]" % cfg, "only %d codes decided" % len(seen))

        def one(root, *args):
            r = None
            for o in s.rets("elements", root, list(args)):
                r = o
            return r
        ids = set()
        for i, (ch, pair, da, ds, ga, gs, cls) in enumerate(ROWS):
            def ex(root, want, what, *a):
                o = one(root, i, *a)
                if o is None:
                    return None
                v = o.val
                if v.__class__ is A:
                    p, n = v.get(0), v.get(s.p.ps)
                    v = bytes(s.it.as_int(o.st, s.it.read(o.st, p.aid, p.off + k, 1)) for k in range(n))
                v = s.it.as_int(o.st, v) if not isinstance(v, bytes) else v
                if not isc(v) and not isinstance(v, bytes):
                    c.unk("elements", "%s of `%s` [%s]" % (what, ch, cfg), show(v))
                    return None
                if want is not None:
                    c.expect("elements", v == want, "%s of `%s` [%s]" % (what, ch, cfg), s.where(root), "%s of element `%s` is %r, expected %r" % (what, ch, v, want))
                return v
            ids.add(ex("r_id", None, "id"))
            ex("r_from_id", i + 1, "element of the id")
            ex("r_code", ord(ch), "code")
            ex("r_char", ord(ch), "character")
            ex("r_str", ch.encode(), "string")
            ex("r_pair", IDX[pair] + 1 if pair else 0, "counterpart")
            for al, sz, f in ((da, ds, "dvar"), (ga, gs, "gvar")):
                if al is not None:
                    ex("r_%s_al" % f, exp(al), "%s alignment exponent" % ("D-Bus" if f == "dvar" else "GVariant"))
                ex("r_%s_sz" % f, sz, "%s size" % ("D-Bus" if f == "dvar" else "GVariant"))
            masks = [one("r_flag", k).val for k in range(len(FLAGS))]
            for a in range(len(FLAGS)):
                for b in range(a, len(FLAGS)):
                    x, y = FLAGS[a] in cls, FLAGS[b] in cls
                    m = masks[a] | masks[b]
                    ex("r_all", int(x and y), "all of classes %s%s" % (FLAGS[a], FLAGS[b]), m)
                    ex("r_any", int(x or y), "any of classes %s%s" % (FLAGS[a], FLAGS[b]), m)
        c.expect("elements", len(ids) == 20, "ids distinct [%s]" % cfg, FILE, "element ids are not distinct: %s" % sorted(ids, key=str))
        types(c, s, cfg)
        s.done()
    c.floor("codes", 3 * 256)
    c.floor("elements", 3 * 20 * 70)
    c.floor("types", 2000)


def types(c, s, cfg):
    for t in sigs():
        if cfg != "host" and len(t) > 6:
            continue
        n = one_size(s, len(t))
        st = s.state()
        buf = s.it.alloc(st, n * 8, 8, "sig")
        txt = s.it.alloc(st, len(t), 1, "text")
        for i, ch in enumerate(t):
            s.it.store(st, txt, i, ord(ch), 1)
        out = s.it.alloc(st, 24, 8, "out")
        for o in s.rets("types", "r_parse", [s.wide(P(buf, 0), n), s.wide(P(txt, 0), len(t))], st):
            if o.val != 1:
                c.bad("types", "signature %s [%s]" % (t, cfg), s.where("r_parse"), "valid signature %s is rejected" % t)
                continue
            for pos, x in positions(t):
                st2 = o.st.fork()
                for q in s.rets("types", "r_meta", [s.wide(P(buf, 0), n), pos, P(out, 0)], st2):
                    got = [s.it.as_int(q.st, s.it.read(q.st, out, k, 8)) for k in (0, 8, 16)]
                    want = [IDX[x[0]] + 1, dal(x), gal(x)]
                    for k, (g, w) in enumerate(zip(got, want)):
                        if w is not None:
                            c.expect("types", g == w, "%s at %d of %s [%s]" % (("element", "D-Bus alignment", "GVariant alignment")[k], pos, t, cfg), s.where("r_meta"),
                                     "%s of the type %s at position %d of %s is %s, expected %s" % (
                                         ("element", "D-Bus alignment exponent", "GVariant alignment exponent")[k], x, pos, t, show(g), w))


def one_size(s, n):
    r = s.run("r_size", [n])
    return r[0].val
