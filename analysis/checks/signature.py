"""C35: parsing of D-Bus signatures; C36: signature cursors."""
import random

import vecs
from absint import A, P
from consts import consts
from sem import Sem
from terms import *
from vp import Ctx, check, parallel

BASIC = b"yqnuitxdbsogh"
CODES = BASIC + b"vam(){}"
PAIR = {ord(")"): ord("("), ord("}"): ord("{")}
NONE = (1 << 64) - 1
KINDS = ["success", "buffer too small", "empty", "sequence", "incomplete", "non-ASCII", "unknown code", "unpaired", "mispaired", "invalid dictionary"]


class Tree:
    """Reference parser: result, and for valid text the container, position and length of every element."""

    def __init__(self, w):
        self.w = w
        n = len(w)
        self.up = [None] * n
        self.pos = [0] * n
        self.len = [1] * n
        self.res = self.go()
        self.live = self.res[0] == 4 or n == 0

    def go(self):
        w, st = self.w, []
        if not w:
            return (2, 0, 0, 0)
        for i, ch in enumerate(w):
            if ch >= 128:
                return (5, i, ch, 0)
            if ch not in CODES:
                return (6, i, ch, 0)
            if st:
                self.up[i], self.pos[i] = st[-1][0], st[-1][1]
            if ch in b"am({":
                st.append([i, 0, True])
                continue
            t = i
            if ch in b")}":
                if not st:
                    return (7, i, 0, 0)
                o, cnt, basic = st[-1]
                if w[o] != PAIR[ch]:
                    return (8, o, i, PAIR[ch])
                if ch == ord("}") and not (cnt == 2 and basic):
                    return (9, o, 0, 0)
                st.pop()
                t = o
                self.len[t] = i + 1 - t
            while st and w[st[-1][0]] in b"am":
                t = st.pop()[0]
                self.len[t] = i + 1 - t
            if st:
                if st[-1][1] == 0:
                    st[-1][2] = w[t] in BASIC
                st[-1][1] += 1
            else:
                return (0, 0, 0, 0) if i + 1 == len(w) else (3, i + 1, 0, 0)
        return (4, st[-1][0], 0, 0)


def live_words(alpha, depth):
    """Every word of which each proper prefix is an incomplete type."""
    level = [b""]
    yield b""
    for _ in range(depth):
        nxt = []
        for w in level:
            for ch in alpha:
                x = w + bytes([ch])
                yield x
                if Tree(x).live:
                    nxt.append(x)
        level = nxt


def gen(rnd, n):
    """A valid signature of about n elements."""
    if n <= 1:
        return bytes([rnd.choice(BASIC + b"v")])
    k = rnd.randrange(6)
    if k == 0:
        return rnd.choice((b"a", b"m")) + gen(rnd, n - 1)
    if k == 1 and n >= 4:
        return b"{" + bytes([rnd.choice(BASIC)]) + gen(rnd, n - 3) + b"}"
    out, left = b"", n - 2
    while left > 0:
        m = rnd.randint(1, max(1, left if rnd.randrange(3) else left // 3))
        x = gen(rnd, m)
        out += x
        left -= len(x)
    return b"(" + out + b")"


def longs(lens, count, seed=7, plain=()):
    rnd = random.Random(seed)
    out = [b"(" + b"y" * (n - 2) + b")" for n in plain]
    for n in lens:
        # exact lengths: a structure padded with basic types
        for inner in (b"y" * (n - 2), b"a{sv}" * ((n - 2) // 5) + b"t" * ((n - 2) % 5)):
            if n > 2:
                out.append(b"(" + inner + b")")
        out.append(b"a" * (n - 1) + b"s")
        d = (n - 1) // 2
        out.append(b"(" * d + b"q" * (n - 2 * d) + b")" * d)
    for _ in range(count):
        out.append(gen(rnd, rnd.randrange(8, 60)))
    return [w for w in out if Tree(w).res[0] == 0], rnd


class Box:
    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.s = Sem(c, cfg, "sig", models=vecs.MODELS, foreign={"x_hash": self.x_hash})
        self.s.it.check_align = True
        self.s.it.loop_bound = 3000
        self.s.it.max_steps = 4000000

    def x_hash(self, it, st, a, rty):
        p, n = it.to_ptr(st, a[0]), it.as_int(st, a[1])
        st.emit("hash", tuple(it.as_int(st, it.read(st, p.aid, p.off + i, 1)) for i in range(n)) if isc(n) else None)
        return A((), 0)

    def size(self, n):
        return self.s.run("r_size", [n])[0].val

    def text(self, st, w):
        a = self.s.it.alloc(st, len(w), 1, "text")
        for i, ch in enumerate(w):
            self.s.it.store(st, a, i, ch, 1)
        return self.s.wide(P(a, 0), len(w))

    def out(self, st, n=4):
        return self.s.it.alloc(st, 8 * n, 8, "out")

    def words(self, o, a, n=4):
        return tuple(self.s.it.as_int(o.st, self.s.it.read(o.st, a, 8 * i, 8)) for i in range(n))

    def show(self, w):
        return "".join(chr(x) if 32 < x < 127 else "\\x%02x" % x for x in w) if len(w) < 70 else "%s... (%d elements)" % (w[:40].decode("latin1"), len(w))

    def chk(self, group, root, got, want, what):
        if got.__class__ is tuple and any(x is None for x in got):
            self.c.bad(group, what + " [%s]" % self.cfg, self.s.where(root), what + ": reads uninitialised memory")
        elif got.__class__ is tuple and not all(isc(x) for x in got) or got.__class__ is T:
            self.c.unk(group, what, "not constant: %s" % (got,))
        else:
            self.c.expect(group, got == want, what + " [%s]" % self.cfg, self.s.where(root), "%s: got %s, expected %s" % (what, got, want))

    def txt_of(self, o, a, n):
        if not isc(n) or n > 256:
            return None
        return bytes(self.s.it.as_int(o.st, self.s.it.read(o.st, a, i, 1)) for i in range(n))

    # --- parsing ---------------------------------------------------------
    def parse(self, w, extra=0, group="acceptance"):
        s, c = self.s, self.c
        t = Tree(w)
        st = s.state()
        n = max(0, self.size(len(w)) + extra)
        buf = s.it.alloc(st, n * 8, 8, "sig")
        out = self.out(st)
        want = t.res if extra >= 0 else (1, 0, 0, 0)
        good = None
        for o in s.rets(group, "r_parse", [s.wide(P(buf, 0), n), self.text(st, w), P(out, 0)], st):
            got = self.words(o, out)
            ok = all(x is not None and isc(x) for x in got) and (got[0] == 0) == (want[0] == 0)
            what = "signature `%s`%s" % (self.show(w), " with %+d words of buffer" % extra if extra else "")
            if not all(x is not None and isc(x) for x in got):
                c.unk(group, what, "result %s" % (got,))
            elif got != want and not ok:
                c.bad(group, what + " [%s]" % self.cfg, s.where("r_parse"), "%s: parser reports %s, expected %s" % (what, KINDS[got[0]], KINDS[want[0]]))
            elif got != want:
                c.bad(group, what + " [%s]" % self.cfg, s.where("r_parse"), "%s: parser reports %s at %s, expected %s at %s" % (
                    what, KINDS[got[0]], got[1:], KINDS[want[0]], want[1:]))
            else:
                c.ok(group, what)
            if got[0] == 0 and want[0] == 0:
                miss = [i for i in range(8 * n) if s.it.read(o.st, buf, i, 1) is None]
                c.expect("initialised", not miss, what + " [%s]" % self.cfg, s.where("r_parse"), "%s: %d bytes of the result stay uninitialised, first at %s" % (what, len(miss), miss[:1]))
                if not miss:
                    good = (o.st, buf, n)
        return good

    def back(self, w, good):
        """The parsed form converts back to its text."""
        s, c = self.s, self.c
        st, buf, n = good
        sig = s.wide(P(buf, 0), n)
        what = "text of `%s`" % self.show(w)
        for root in ("r_codes", "r_clone", "r_owned", "r_bclone"):
            s2 = st.fork()
            a = s.it.alloc(s2, 256, 1, "txt")
            for o in s.rets("round trip", root, [sig, P(a, 0)], s2):
                self.chk("round trip", root, self.txt_of(o, a, o.val), w, what)
        for o in s.rets("round trip", "r_len", [sig], st.fork()):
            self.chk("round trip", "r_len", o.val, len(w), "length of `%s`" % self.show(w))

    def string(self, w, good):
        s, c = self.s, self.c
        st, buf, n = good
        for o in s.rets("round trip", "r_string", [s.wide(P(buf, 0), n)], st.fork()):
            got = self.string_of(o)
            if got is None:
                c.unk("round trip", "string of `%s`" % self.show(w), "shape of the result")
            else:
                self.chk("round trip", "r_string", got, w, "string of `%s`" % self.show(w))

    def string_of(self, o):
        ps = self.s.p.ps
        v = [o.val.get(i * ps) for i in range(3)]
        for p in v:
            if p.__class__ is P:
                for n in v:
                    if n.__class__ is int and n <= 300:
                        try:
                            b = [self.s.it.as_int(o.st, self.s.it.read(o.st, p.aid, i, 1)) for i in range(n)]
                        except Exception:
                            continue
                        if all(x is not None and isc(x) for x in b):
                            return bytes(b)
        return None

    def made(self, w):
        s, c = self.s, self.c
        t = Tree(w)
        need = self.size(len(w))
        for root, n in (("r_make1", 1), ("r_make5", 5), ("r_make33", 33), ("r_make200", 200), ("r_arc", None)):
            if len(w) > 250:
                continue
            st = s.state()
            out = self.out(st)
            a = s.it.alloc(st, 256, 1, "txt")
            want = t.res if n is None or n >= need else (1, 0, 0, 0)
            for o in s.rets("round trip", root, [self.text(st, w), P(out, 0), P(a, 0)], st):
                got = self.words(o, out)
                self.chk("round trip", root, got[:1], want[:1], "%s of `%s`" % (root[2:], self.show(w)))
                if got[:1] == (0,) == want[:1]:
                    self.chk("round trip", root, self.txt_of(o, a, o.val), w, "text of %s of `%s`" % (root[2:], self.show(w)))

    def code(self, w):
        """One arbitrary byte after a prefix (and at its end another basic type)."""
        s, c = self.s, self.c
        st = s.state()
        n = self.size(len(w) + 1)
        buf = s.it.alloc(st, n * 8, 8, "sig")
        out = self.out(st)
        a = s.it.alloc(st, len(w) + 1, 1, "text")
        x = var("code", 8)
        for i, ch in enumerate(w):
            s.it.store(st, a, i, ch, 1)
        s.it.store(st, a, len(w), x, 1)
        seen = 0
        for o in s.rets("codes", "r_parse", [s.wide(P(buf, 0), n), s.wide(P(a, 0), len(w) + 1), P(out, 0)], st):
            lo, hi = o.st.facts.range(x)
            ne = o.st.facts.ne.get(x) or ()
            got = self.words(o, out)
            for b in range(lo, hi + 1):
                if b in ne:
                    continue
                seen += 1
                want = Tree(w + bytes([b])).res
                g = tuple(subst(v, {x: b}) if v is not None and not isc(v) else v for v in got)
                if not all(v is not None and isc(v) for v in g):
                    c.unk("codes", "`%s` and byte %#04x" % (self.show(w), b), "result %s" % (got,))
                    continue
                c.expect("codes", g == want, "`%s` and byte %#04x [%s]" % (self.show(w), b, self.cfg), s.where("r_parse"),
                         "`%s` followed by byte %#04x: parser reports %s %s, expected %s %s" % (self.show(w), b, KINDS[g[0]], g[1:], KINDS[want[0]], want[1:]))
        if seen != 256:
            c.unk("codes", "coverage", "%d of 256 bytes after `%s` decided" % (seen, self.show(w)))

    # --- cursors -----------------------------------------------------------
    def look(self, w, good, sub="", t=None):
        s, c = self.s, self.c
        st, buf, n = good
        sig = buf if buf.__class__ is A else s.wide(P(buf, 0), n)
        t = t or Tree(w)
        L = len(w)
        el = lambda i: w[i] if i is not None and 0 <= i < L else 0
        name = "`%s`%s" % (self.show(w), sub)
        for i in range(L + 2) if L < 29 else sorted({0, 1, 2, 3, L // 2, L // 2 + 1, L - 3, L - 2, L - 1, L, L + 1}):
            k = min(i, L)
            inside = k < L
            up = t.up[k] if inside else None
            down = k + 1 if inside and w[k] in b"am({" else None
            step = None
            if inside:
                if up is None or (w[up] in b"({" and w[k] not in b")}"):
                    step = k + t.len[k]
            opt = lambda v: NONE if v is None else v
            prefix = inside and w[k] not in b")}"
            want = (k, el(k), el(up), el(down), t.pos[k] if inside else NONE, t.len[k] if inside else NONE,
                    k + 1 if inside else NONE, k - 1 if k else NONE, opt(step), opt(down), opt(up),
                    L - k, L - k, t.len[k] if prefix else NONE, el(i), L)
            names = ("index", "element", "container", "content", "position", "length", "next", "previous", "step", "inner index", "outer index",
                     "lower size hint", "upper size hint", "length of the type", "element at index", "length of the signature")
            s2 = st.fork()
            out = self.out(s2, 16)
            for o in s.rets("look", "r_look", [sig, i, P(out, 0)], s2):
                got = self.words(o, out, 16)
                for q, (g, v) in enumerate(zip(got, want)):
                    if g != v:
                        self.chk("look", "r_look", (g,), (v,), "%s at %d of %s" % (names[q], i, name))
                        break
                else:
                    c.ok("look", "%d of %s" % (i, name))
            mv = lambda v: k if v is None else v
            want = (mv(k + 1 if inside else None), mv(k - 1 if k else None), mv(step), mv(down), mv(up), k, el(k), mv(k + 1 if inside else None), L - mv(k + 1 if inside else None))
            names = ("next", "previous", "over", "into", "out", "nowhere", "iterated element", "iterated index", "remaining length")
            s2 = st.fork()
            out = self.out(s2, 16)
            for o in s.rets("moves", "r_move", [sig, i, P(out, 0)], s2):
                got = self.words(o, out, 9)
                for q, (g, v) in enumerate(zip(got, want)):
                    if g != v:
                        self.chk("moves", "r_move", (g,), (v,), "moving %s at %d of %s" % (names[q], i, name))
                        break
                else:
                    c.ok("moves", "%d of %s" % (i, name))

    def anywhere(self, w, good):
        s, c = self.s, self.c
        st, buf, n = good
        sig = s.wide(P(buf, 0), n)
        L = len(w)
        x = var("to", s.p.ptr)
        for some in (0, 1):
            for frm in (0, L):
                for o in s.rets("moves", "r_move_to", [sig, frm, x, some], st.fork()):
                    got = s.it.as_int(o.st, o.val)
                    want = ite(ult(x, L, s.p.ptr), x, L, s.p.ptr)
                    if o.st.decide(ult(L, x, s.p.ptr)) is False:
                        want = x
                    elif o.st.decide(ult(x, L, s.p.ptr)) is False:
                        want = L
                    s.same("moves", "r_move_to", o.st, [(got, want)], "moving to an arbitrary index of `%s`" % self.show(w))
        # positions beyond the signature
        far = var("far", s.p.ptr, L + 1, mask(s.p.ptr))
        for root, want in (("r_at_any", (0, NONE, NONE, NONE)), ("r_far", (0, NONE, NONE, NONE, NONE, 0, 0))):
            s2 = st.fork()
            out = self.out(s2, 16)
            for o in s.rets("look", root, [sig, far, P(out, 0)], s2):
                self.chk("look", root, self.words(o, out, len(want)), want, "beyond the end of `%s`" % self.show(w))
        o0 = s.p.ps
        t = Tree(w)
        for i in range(L):
            for o in s.rets("look", "r_at", [sig, i], st.fork()):
                p, m = o.val.get(0), o.val.get(o0)
                if w[i] in b")}":
                    c.expect("look", p == 0, "sub-signature at %d of `%s` [%s]" % (i, self.show(w), self.cfg), s.where("r_at"), "a closing element yields a signature")
                elif p.__class__ is not P:
                    c.bad("look", "sub-signature at %d of `%s` [%s]" % (i, self.show(w), self.cfg), s.where("r_at"), "no signature at a complete type")
                elif i and (L < 6 or i % 7 == 1):
                    sub = w[i:i + t.len[i]]
                    self.look(sub, (o.st, s.wide(p, m), m), " within `%s`" % self.show(w))


def work(todo, n=8):
    return [todo[i::n] for i in range(n)]


def job_orders(c, cfg, i, k):
    """Equality, order and hash of signatures, parsed on their own or as part of another one."""
    b = Box(c, cfg)
    s = b.s
    sigs = {}
    # parsing is the subject of C35
    b.c = s.c = Ctx("C35", "")
    for w in WORDS if cfg == "host" else WORDS[::3]:
        good = b.parse(w)
        if good:
            sigs[w] = [(good, good[1], 0, good[2])]
    for w, at in PARTS:
        good = b.parse(w)
        part = w[at:at + Tree(w).len[at]]
        if not good or part not in sigs:
            continue
        for o in s.rets("comparison", "r_at", [s.wide(P(good[1], 0), good[2]), at], good[0].fork()):
            p, n = o.val.get(0), s.it.as_int(o.st, o.val.get(s.p.ps))
            if p.__class__ is P and isc(n):
                sigs[part].append(((o.st, good[1], good[2]), p.aid, p.off, n))
    b.c = s.c = c
    jobs = [(x, y) for x in sigs for y in sigs]
    for j, (x, y) in enumerate(jobs):
        if j % k != i:
            continue
        for gx in sigs[x]:
            for gy in sigs[y]:
                pair(b, x, gx, y, gy)
    s.done()


def pair(b, x, gx, y, gy):
    s, c = b.s, b.c
    # both in one memory
    st = gx[0][0].fork()
    st2 = gy[0][0]
    a2 = s.it.alloc(st, gy[0][2] * 8, 8, "sig")
    for i in range(gy[0][2]):
        s.it.store(st, a2, 8 * i, s.it.read(st2, gy[0][1], 8 * i, 8), 8)
    l = s.wide(P(gx[1], gx[2]), gx[3])
    r = s.wide(P(a2, gy[2]), gy[3])
    o3 = (x > y) - (x < y)
    what = "`%s` and `%s`" % (b.show(x), b.show(y))
    for root, want in (("r_eq", x == y), ("r_ne", x != y), ("r_lt", x < y), ("r_le", x <= y), ("r_cmp", o3 & 255), ("r_pcmp", o3 & 255)):
        for o in s.rets("comparison", root, [l, r], st.fork()):
            v = s.it.b1(o.val) if root in ("r_eq", "r_ne", "r_lt", "r_le") else s.it.as_int(o.st, o.val)
            if not isc(v):
                c.unk("comparison", what, "not constant")
            else:
                c.expect("comparison", v & 255 == int(want), "%s of signatures %s [%s]" % (root[2:], what, b.cfg), s.where(root), "%s of the signatures %s is %d, expected %d" % (root[2:], what, v, int(want)))
    if x == y:
        h = []
        for v in (l, r):
            z = s.it.alloc(st, 0, 1, "hasher")
            for o in s.rets("hash", "r_hash", [v, P(z, 0)], st.fork()):
                e = [e[1] for e in o.st.events() if e[0] == "hash"]
                h.append(None if None in e else [t for u in e for t in u])
        if None in h:
            c.unk("hash", what, "length of the hashed data")
        elif len(h) == 2:
            c.expect("hash", h[0] == h[1] and all(t is not None and isc(t) for t in h[0]), "signature %s [%s]" % (b.show(x), b.cfg), s.where("r_hash"), "equal signatures `%s` feed different data to the hasher" % b.show(x))


WORDS = [b"y", b"s", b"v", b"as", b"ay", b"aas", b"ms", b"a{sv}", b"a{sas}", b"(s)", b"(ss)", b"(sss)", b"()", b"(as)", b"((s)s)", b"(s(s))", b"a(ss)", b"(a{sv}(su)v)", b"(" + b"y" * 28 + b")",
         b"(" + b"y" * 29 + b")", b"(" + b"y" * 30 + b")", b"(" + b"y" * 29 + b"s)", b"(" + b"y" * 40 + b")", b"a" * 40 + b"s", b"a" * 40 + b"u", b"(" + b"y" * 28 + b"su)"]
PARTS = [(b"(sas)", 2), (b"a(ss)", 1), (b"aaas", 1), (b"(a{sv}" + b"y" * 40 + b")", 1), (b"(y(ss)" + b"u" * 50 + b")", 2), (b"a(" + b"y" * 29 + b")", 1), (b"((" + b"y" * 40 + b")u)", 1), (b"(" + b"y" * 35 + b"a{sv})", 36)]


@check("C35", "Abstract interpretation of the signature parser: an arbitrary byte after every incomplete prefix up to length 3, every word over one code per class "
              "of codes up to length 5 of which each proper prefix is incomplete, a family of long signatures (both representations, lengths around every "
              "constant of the code) and their single-element corruptions, with exact, larger and smaller buffers; oracle is the type grammar.")
def c35(c):
    jobs = []
    for cfg in ("host", "i686", "s390x"):
        host = cfg == "host"
        b = Box(c, cfg)
        pre = [w for w in live_words(b"ytav(){}", 3 if host else 2) if Tree(w).live and len(w) <= (2 if host else 1)]
        words = sorted(set(live_words(b"ysva(){}Z\xff", 4 if host else 3)) | set(live_words(b"yva(){}", 5 if host else 3)) | set(live_words(b"ymv(){}", 5 if host else 3)))
        # lengths around constants; those of container lengths and node fields are small powers of two
        crit = sorted({v + 1 for v in consts(b.s.p, limit=130) if v > 20} - set(range(29, 35)))
        good, rnd = longs(range(29, 35) if host else [31, 32], 16 if host else 4, plain=crit if host else ())
        bad = []
        for w in good:
            for _ in range(1):
                i = rnd.randrange(len(w))
                bad.append(w[:i] + bytes([rnd.choice(b"yv(){}a*")]) + w[i + 1:])
                i = rnd.randrange(len(w))
                if len(w) < 40:
                    bad.append(w[:i] + w[i + 1:])
            if len(w) < 40:
                bad.append(w + b"y")
        sizes = [w for w in words if Tree(w).res[0] == 0 and len(w) <= 4][::4] + good[::9]

        def job(d, cfg=cfg, pre=(), words=(), long=(), sizes=()):
            b = Box(d, cfg)
            for w in pre:
                b.code(w)
            for w in words:
                g = b.parse(w)
                if g and len(w) <= 5:
                    b.back(w, g)
            for w in long:
                g = b.parse(w)
                if g:
                    b.back(w, g)
                    if len(w) <= 33:
                        b.string(w, g)
            for w in sizes:
                for extra in (-1, 1, 2, 7):
                    g = b.parse(w, extra, "buffer")
                    if g:
                        b.back(w, g)
                b.made(w)
            b.s.done()
        for parts in zip(work(pre), work(words), work(good + bad), work(sizes)):
            jobs.append(lambda d, parts=parts, job=job: job(d, pre=parts[0], words=parts[1], long=parts[2], sizes=parts[3]))
    parallel(c, jobs)
    c.floor("codes", 256 * 6)
    c.floor("acceptance", 1500)
    c.floor("initialised", 300)
    c.floor("round trip", 700)
    c.floor("buffer", 100)


@check("C36", "Abstract interpretation of one cursor operation from every position of a family of signatures (all small complete types and long ones of both "
              "representations) and of jumps to an arbitrary index; since a cursor is its position, one step from every position covers every history.")
def c36(c):
    jobs = []
    for cfg in ("host", "i686", "s390x"):
        host = cfg == "host"
        words = sorted(w for w in live_words(b"yva(){}", 6 if host else 4) if Tree(w).res[0] == 0)
        good, _ = longs([31, 32] if host else [32], 8 if host else 2, 11)

        def job(d, ws, cfg=cfg):
            b = Box(d, cfg)
            for w in ws:
                g = b.parse(w, 0, "look")
                if g:
                    b.look(w, g)
                    if len(w) <= 6 or len(w) > 29:
                        b.anywhere(w, g)
            b.s.done()
        ws = words + good
        for part in work(ws):
            jobs.append(lambda d, part=part, job=job: job(d, part))
    parallel(c, jobs)
    c.floor("look", 2000)
    c.floor("moves", 2000)
