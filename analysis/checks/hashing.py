"""C08: SHA-256; C09: HMAC."""
import induct
import terms as tm
from absint import A, P, Undecided
from sem import Sem
from terms import *
from terms import T
from vp import check


# --- FIPS 180-4 ---------------------------------------------------------------
def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


H0 = [iroot(p << 64, 2) & mask(32) for p in primes(8)]
K = [iroot(p << 96, 3) & mask(32) for p in primes(64)]


def rotr(x, n):
    return rotl(x, 32 - n, 32)


def xor3(a, b, c):
    return xor(xor(a, b, 32), c, 32)


def sum_(*xs):
    r = 0
    for x in xs:
        r = add(r, x, 32)
    return r


def compress(h, m):
    """One application of the compression function to 64 bytes."""
    w = [concat([(m[4 * i + 3], 8), (m[4 * i + 2], 8), (m[4 * i + 1], 8), (m[4 * i], 8)]) for i in range(16)]
    for t in range(16, 64):
        x, y = w[t - 15], w[t - 2]
        w.append(sum_(w[t - 16], xor3(rotr(x, 7), rotr(x, 18), lshr(x, 3, 32)), w[t - 7],
                      xor3(rotr(y, 17), rotr(y, 19), lshr(y, 10, 32))))
    a, b, c, d, e, f, g, hh = h
    for t in range(64):
        s1 = xor3(rotr(e, 6), rotr(e, 11), rotr(e, 25))
        ch = xor(band(e, f, 32), band(bnot(e, 32), g, 32), 32)
        t1 = sum_(hh, s1, ch, K[t], w[t])
        s0 = xor3(rotr(a, 2), rotr(a, 13), rotr(a, 22))
        mj = xor3(band(a, b, 32), band(a, c, 32), band(b, c, 32))
        a, b, c, d, e, f, g, hh = sum_(t1, s0, mj), a, b, c, sum_(d, t1), e, f, g
    return [sum_(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def be(x, n):
    return [ext(x, 8 * (n - 1 - i), 8) if not isc(x) else x >> 8 * (n - 1 - i) & 255 for i in range(n)]


class Image:
    """Memory of an engine as a function of chaining value, number of blocks and pending bytes."""

    def __init__(self, cells, size, hs, k, pend, free):
        self.cells, self.size, self.hs, self.k, self.pend, self.free = cells, size, hs, k, pend, free

    def at(self, h, k, pend):
        m = dict(zip(self.hs, h))
        m[self.k] = k
        m.update(zip(self.pend, pend))
        memo = {}
        return A(tuple((o, s, tm.subst(v, m, memo) if v.__class__ is T else v) for o, s, v in self.cells), self.size)


class Sha:
    def __init__(self, c, cfg):
        self.c = c
        tm.NARROW = 2
        self.s = s = Sem(c, cfg, "hashing", max_steps=3000000, loop_bound=1000)
        self.ty = s.sig("sha::r_default")[1]
        self.size = s.p.size(self.ty)
        self.hs = [var("h%d" % i, 32) for i in range(8)]
        self.k = var("blocks", 64, 0, 1 << 52)
        self.ms = [sel("m", i) for i in range(200)]
        self.bs = [var("b%d" % i, 8) for i in range(64)]
        self.im = {}

    def run(self, rule, op, image, args=(), st=None, data=None):
        s = self.s
        st = st or s.state()
        p = s.place(st, image, self.ty, "engine")
        args = list(args)
        if data is not None:
            args = [s.wide(s.buf(st, "m", data), data)]
        return [(o, p) for o in s.rets(rule, "sha::r_" + op, [p] + args, st)]

    def cells(self, o, p):
        v = self.s.mem(o.st, p, self.ty)
        return list(v.cells)

    def learn(self):
        """Form of the engine's memory, from its constructor and from whole blocks."""
        s, c = self.s, self.c
        o = s.rets("initial", "sha::r_default", [])
        if len(o) != 1:
            return c.unk("initial", s.key("sha::r_default"), "%d outcomes" % len(o))
        base = list(o[0].val.cells)
        self.initial = o[0].val
        hit = {}
        for i, h in enumerate(H0):
            at = [o_ for o_, n, v in base if n == 4 and isc(v) and v == h]
            if len(at) != 1:
                cand = [v for o_, n, v in base if n == 4 and isc(v)]
                if len(cand) == 8 and not at:
                    c.bad("initial", s.key("H%d" % i), s.where("sha::r_default"), "initial chaining value has no word %#x" % h)
                else:
                    c.unk("initial", s.key("H%d" % i), "chaining value not found in the engine")
                return None
            hit[at[0]] = self.hs[i]
            c.ok("initial", s.key("H%d" % i))
        im0 = A(tuple((o_, n, hit.get(o_, v)) for o_, n, v in base), self.size)
        r1 = self.run("block", "push", im0, data=64)
        if len(r1) != 1:
            return c.unk("block", s.key("push"), "%d outcomes" % len(r1))
        c1 = self.cells(*r1[0])
        back = A(tuple((o_, n, hit.get(o_, v)) for o_, n, v in c1), self.size)
        r2 = self.run("block", "push", back, data=64)
        if len(r2) != 1:
            return c.unk("block", s.key("push"), "%d outcomes" % len(r2))
        c2 = dict((o_, v) for o_, n, v in self.cells(*r2[0]))
        d0 = {o_: v for o_, n, v in base}
        # single bytes that differ between ways to complete a block are meaningless while nothing is pending
        hold = set()
        for x, _ in self.run("block", "push", im0, data=1):
            for y, q in self.run("block", "push", self.s.mem(x.st, _, self.ty), data=63):
                ref = {o_: v for o_, n, v in c1}
                hold |= {o_ for o_, n, v in self.cells(y, q) if n == 1 and v is not ref.get(o_)}
        out, free = [], set()
        for o_, n, v in c1:
            v0, v2 = d0.get(o_), c2.get(o_)
            if o_ in hit:
                out.append((o_, n, hit[o_]))
            elif v.__class__ is T or o_ in hold:
                g = var("g%d" % o_, n * 8)
                free.add(g)
                out.append((o_, n, g))
            elif isc(v) and isc(v0) and isc(v2) and v != v0:
                d = v - v0
                if v2 - v != d:
                    return c.unk("block", s.key("push"), "field at offset %d is not linear in the number of blocks" % o_)
                out.append((o_, n, add(v0, mulc(self.k, d, 64) if n == 8 else mulc(ext(self.k, 0, n * 8), d, n * 8), n * 8)))
            else:
                out.append((o_, n, v))
        self.im[0] = Image(tuple(out), self.size, self.hs, self.k, [], free)
        for r in range(1, 64):
            x = self.run("buffering", "push", self.im[0].at(self.hs, self.k, []), data=r)
            if len(x) != 1:
                c.unk("buffering", s.key("push of %d bytes" % r), "%d outcomes" % len(x))
                return None
            cs = []
            seen = set()
            for o_, n, v in self.cells(*x[0]):
                if v in self.ms[:r]:
                    i = self.ms.index(v)
                    seen.add(i)
                    v = self.bs[i]
                elif n == 1 and o_ in d0 and v.__class__ is T and v in free:
                    pass
                cs.append((o_, n, v))
            self.im[r] = Image(tuple(cs), self.size, self.hs, self.k, self.bs[:r], free)
        return True

    def match(self, rule, root, o, p, want, what):
        """The engine's memory is the given image, apart from free bytes."""
        s = self.s
        got = s.mem(o.st, p, self.ty)
        free = self.im[0].free
        skip = {}
        for o_, n, v in want.cells:
            if v.__class__ is T and v in free:
                for i in range(n):
                    skip[o_ + i] = 1
        a, b = s.bytes(o.st, got, self.size), s.bytes(o.st, want, self.size)
        pairs = []
        # whole cells where both sides have the same shape, bytes elsewhere
        gc, wc = {o_: (n, v) for o_, n, v in got.cells}, {o_: (n, v) for o_, n, v in want.cells}
        i = 0
        while i < self.size:
            if i in gc and i in wc and gc[i][0] == wc[i][0]:
                if i not in skip:
                    pairs.append((gc[i][1], wc[i][1]))
                i += gc[i][0]
                continue
            if i not in skip and b[i] is not None:
                pairs.append((a[i], b[i]))
            i += 1
        return s.same(rule, root, o.st, pairs, what)

    def push(self, r, thin):
        """Feeding data to an engine with r pending bytes."""
        s = self.s
        h, k, pend = self.hs, self.k, self.bs[:r]
        start = self.im[r].at(h, k, pend)
        for op, rule in (("push", "buffering"), ("push_zero", "zero fill")):
            root = "sha::r_" + op
            src = self.ms if op == "push" else [0] * 200
            for n in range(0, 64 - r):
                if thin and n not in (0, 1, 63 - r):
                    continue
                x = self.run(rule, op, start, data=n) if op == "push" else self.run(rule, op, start, [n])
                for o, p in x:
                    self.match(rule, root, o, p, self.im[r + n].at(h, k, pend + src[:n]), "state after %d bytes on top of %d pending" % (n, r))
            # everything beyond: the first block is completed, the rest is like a call with the remaining data
            nxt = compress(h, pend + src[:64 - r])
            k1 = add(k, 1, 64)
            self.long(rule, op, root, r, start, nxt, k1)

    def long(self, rule, op, root, r, start, nxt, k1):
        s = self.s
        it = s.it
        w = s.p.ptr
        j = 64 - r
        n = var("n", w, j, 1 << (58 if w == 64 else 30))
        rest = sub(n, j, w)
        st = s.state()
        p = s.place(st, start, self.ty, "engine")
        buf = s.buf(st, "m", n) if op == "push" else None
        root_args = [p, s.wide(buf, n)] if op == "push" else [p, n]
        heads = induct.watch_loop(it, 2)
        outs = it.run(st, s.fi(root), root_args)
        induct.unwatch(it)
        ok = bool(heads)
        for o in outs:
            if o.kind == "undecided" and o.info == "cut":
                continue
            if o.kind == "ret" and o.st.decide(eq(n, j, w)) is True:
                self.match(rule, root, o, p, self.im[0].at(nxt, k1, []), "state after a completed block")
            elif o.kind in ("panic", "ub"):
                s.abnormal(rule, root, o)
            else:
                ok = False
        for st1 in heads:
            if not ok:
                break
            fr1 = st1.frames[-1]
            # reference: a fresh call with the remaining data
            st2 = s.state()
            st2.facts = st1.facts.copy()
            q = s.place(st2, self.im[0].at(nxt, k1, []), self.ty, "engine")
            amap = {p.aid: q.aid}
            if op == "push":
                b2 = s.buf(st2, "m", n)
                amap[buf.aid] = b2.aid
                args2 = [q, s.wide(P(b2.aid, j), rest)]
            else:
                args2 = [q, rest]
            refs = induct.watch_entry(it, 2, fr1.fi, fr1.bb)
            it.run(st2, s.fi(root), args2)
            induct.unwatch(it)
            if len(refs) != 1:
                ok = False
                break
            pairs = []
            try:
                induct.frames_pairs(it, st1, refs[0], amap, pairs, self.im[0].free)
                ok = s.equal(st1, pairs)
            except induct.Mismatch:
                ok = False
        if ok:
            self.c.ok(rule, s.key(root))
            self.c.saw("inputs of unbounded length, by induction over blocks")
            return
        self.c.saw("loops of another form, decided for up to three blocks")
        # the loop has another form: decide a few lengths that complete one and two blocks
        lows = {x.facts.range(n)[0] for x in heads} | {o.st.facts.range(n)[0] for o in outs}
        self.bounded(rule, op, root, r, start, sorted(x for x in lows if x < 5000)[:3] if r in (0, 1) else [])

    def bounded(self, rule, op, root, r, start, more):
        h, k, pend = self.hs, self.k, self.bs[:r]
        src = [sel("m", i) for i in range(5000)] if op == "push" else [0] * 5000
        ns = [64 - r] if r not in (0, 1, 63) else [64 - r, 65 - r, 127 - r, 128 - r, 129 - r, 193 - r]
        for n in ns + [x for x in more if x not in ns]:
            hh, kk, d = h, k, pend + src[:n]
            while len(d) >= 64:
                hh, kk, d = compress(hh, d[:64]), add(kk, 1, 64), d[64:]
            x = self.run(rule, op, start, data=n) if op == "push" else self.run(rule, op, start, [n])
            for o, p in x:
                self.match(rule, root, o, p, self.im[len(d)].at(hh, kk, d), "state after %d bytes on top of %d pending" % (n, r))

    def finish(self, r):
        s = self.s
        h, k, pend = self.hs, self.k, self.bs[:r]
        start = self.im[r].at(h, k, pend)
        bits = add(mulc(k, 512, 64), 8 * r, 64)
        d = pend + [0x80]
        while len(d) % 64 != 56:
            d.append(0)
        d += be(bits, 8)
        hh = h
        for i in range(0, len(d), 64):
            hh = compress(hh, d[i:i + 64])
        want = [y for x in hh for y in be(x, 4)]
        root = "sha::r_finalize"
        for o, p in self.run("digest", "finalize", start):
            s.same("digest", root, o.st, list(zip(s.bytes(o.st, o.val, 32), want)), "digest of a message with %d bytes in its last block" % r)
            self.match("reset", root, o, p, self.im[0].at(H0, 0, []), "state after reading the digest")
        for o, p in self.run("reset", "reset", start):
            self.match("reset", "sha::r_reset", o, p, self.im[0].at(H0, 0, []), "state after a reset")
        for o, p in self.run("reset", "is_reset", start):
            for z in (True, False):
                st2 = o.st.fork()
                if st2.assume(eq(k, 0, 64), z):
                    s.same("reset", "sha::r_is_reset", st2, [(s.it.b1(o.val), int(z and r == 0))], "whether the engine is empty")
            self.match("reset", "sha::r_is_reset", o, p, start, "state left alone")
        for o, p in self.run("reset", "clone", start):
            s.same("reset", "sha::r_clone", o.st, [(a, b) for a, b in zip(s.bytes(o.st, o.val, self.size), s.bytes(o.st, start, self.size)) if b is not None], "clone")


@check("C08", "Value numbering by induction over calls: the engine's memory is a function of chaining value, block count and pending "
              "bytes; every operation is compared with FIPS 180-4 for each number of pending bytes, arbitrary contents and "
              "arbitrary input length (loop cut at its head).")
def c08(c):
    try:
        for cfg in ("host", "s390x", "i686"):
            a = Sha(c, cfg)
            if a.learn():
                # the constructor yields the empty message
                st = a.s.state()
                p = a.s.place(st, a.initial, a.ty)
                from absint import Outcome
                a.match("initial", "sha::r_default", Outcome("ret", st), p, a.im[0].at(H0, 0, []), "new engine")
                rs = range(64) if cfg == "host" else (0, 1, 8, 31, 54, 55, 56, 57, 62, 63)
                for r in rs:
                    a.push(r, cfg != "host")
                    a.finish(r)
            a.s.done()
    finally:
        tm.NARROW = 1 << 30
    generic(c)
    c.floor("initial", 24)
    c.floor("buffering", 2000)
    c.floor("zero fill", 2000)
    c.floor("digest", 64)
    c.floor("reset", 64 * 4)


# --- engines that record what they are fed -------------------------------------
_digests = {}


def canon(st, content):
    """Content without empty pieces, adjacent bytes merged."""
    out = []
    for x in content:
        if x[0] == "z" and isc(x[1]):
            x = ("b", (0,) * x[1])
        if x[0] == "b":
            if not x[1]:
                continue
            if out and out[-1][0] == "b":
                out[-1] = ("b", out[-1][1] + x[1])
                continue
        elif not isc(x[-1]) and st.decide(eq(x[-1], 0, x[-1].w)) is True or x[-1] == 0:
            continue
        elif x[0] == "z" and out and out[-1][0] == "z":
            out[-1] = ("z", add(out[-1][1], x[1], x[1].w))
            continue
        elif x[0] == "s" and out and out[-1][0] == "s" and out[-1][1] == x[1]:
            y = out[-1]
            w = (y[3] if isc(x[3]) else x[3]).w
            if add(y[2], y[3], w) is x[2] or add(y[2], y[3], w) == x[2]:
                out[-1] = ("s", x[1], y[2], add(y[3], x[3], w))
                continue
        out.append(x)
    return tuple(out)


def digest(st, content, n):
    """The (unknown) hash of a content: the same content has the same hash."""
    k = (canon(st, content), n)
    if k not in _digests:
        _digests[k] = [var("H%d.%d" % (len(_digests), i), 8) for i in range(n)]
    return _digests[k]


def x_default(it, st, args, rty):
    st.user["content"] = ()
    return A((), 0)


def x_push(it, st, args, rty):
    p, n = args
    if isc(n):
        if n == 0:
            x = ("b", ())
        else:
            p = it.to_ptr(st, p)
            x = ("b", tuple(it.as_int(st, v) for v in (it.read(st, p.aid, add(p.off, i, it.p.ptr) if p.off.__class__ is T else p.off + i, 1) for i in range(n))))
    else:
        p = it.to_ptr(st, p)
        a = it.get_alloc(st, p.aid)
        if a.base is None or a.cells or a.log:
            raise Undecided("data of unknown length that is not an input")
        x = ("s", a.base, p.off, n)
    st.user["content"] = st.user.get("content", ()) + (x,)
    return A((), 0)


def x_push_zero(it, st, args, rty):
    st.user["content"] = st.user.get("content", ()) + (("z", args[0]),)
    return A((), 0)


def x_reset(it, st, args, rty):
    st.user["content"] = ()
    return A((), 0)


def x_is_reset(it, st, args, rty):
    for x in st.user.get("content", ()):
        if x[0] == "b":
            if x[1]:
                return 0
        elif not st.truth(eq(x[-1], 0, it.p.ptr)):
            return 0
    return 1


def x_finalize(it, st, args, rty):
    p, n = it.to_ptr(st, args[0]), args[1]
    for i, v in enumerate(digest(st, st.user.get("content", ()), n)):
        it.write(st, p.aid, p.off + i, 1, v)
    st.user["content"] = ()
    return A((), 0)


def x_str(it, st, args, rty):
    p, n = it.to_ptr(st, args[0]), args[1]
    st.emit("str", [it.read(st, p.aid, p.off + i, 1) for i in range(n)] if isc(n) else None)
    return A((), 0)


MOCK = dict(x_default=x_default, x_push=x_push, x_push_zero=x_push_zero, x_reset=x_reset, x_is_reset=x_is_reset, x_finalize=x_finalize, x_str=x_str)


def generic(c):
    s = Sem(c, "host", "hashing", foreign=MOCK, loop_bound=400)
    w = s.p.ptr
    n = var("n", w, 0, 1 << 40)
    # one call: everything goes into a new engine, once
    st = s.state()
    b = s.buf(st, "m", n)
    for o in s.rets("one-shot", "generic::r_hash", [s.wide(b, n)], st):
        s.same("one-shot", "generic::r_hash", o.st, list(zip(s.bytes(o.st, o.val, 32), digest(o.st, (("s", "m", 0, n),), 32))), "hash of the given data")
    # zero fill of engines that have no own way to do it
    ty = s.p.types[s.sig("generic::r_zero")[0][0]]["to"]
    for k in list(range(0, 140)) + [255, 256, 257, 383, 384, 385, 1000]:
        st = s.state()
        p = s.place(st, A((), 0) if not s.p.size(ty) else 0, ty)
        for o in s.rets("zero fill", "generic::r_zero", [p, k], st):
            got = canon(o.st, o.st.user.get("content", ()))
            c.expect("zero fill", got == canon(o.st, (("z", k),)), s.key("generic::r_zero"), s.where("generic::r_zero"),
                     "a request for %d zero bytes feeds %s" % (k, [len(x[1]) if x[0] == "b" else x for x in got]))
    # textual form
    hexd = b"0123456789abcdef"
    for root, k in (("generic::r_hex1", 1), ("generic::r_hex2", 2)):
        for sym in range(k):
            st = s.state()
            p = s.buf(st, "h", k)
            for i in range(k):
                if i != sym:
                    s.it.write(st, p.aid, i, 1, 0x3a)
            v = s.it.read(st, p.aid, sym, 1)
            for o in s.rets("text", root, [p], st):
                ev = [e[1] for e in o.st.events() if e[0] == "str"]
                if len(ev) != 1 or ev[0] is None:
                    c.unk("text", s.key(root), "text of unknown length")
                    continue
                if len(ev[0]) != 2 * k:
                    c.bad("text", s.key(root), s.where(root), "%d characters for %d bytes" % (len(ev[0]), k))
                    continue
                for d, lo in ((0, 4), (1, 0)):
                    for x in range(16):
                        st2 = o.st.fork()
                        if st2.assume(eq(ext(v, lo, 4), x, 4)):
                            s.same("text", root, st2, [(ev[0][2 * sym + d], hexd[x])], "digit %x" % x)
                for i in range(k):
                    if i != sym:
                        s.same("text", root, o.st, list(zip(ev[0][2 * i:2 * i + 2], b"3a")), "digits of 3a")
    for root in ("generic::r_from_bytes", "generic::r_from"):
        st = s.state()
        p = s.buf(st, "h", 32)
        vb = [s.it.read(st, p.aid, i, 1) for i in range(32)]
        for o in s.rets("text", root, [p], st):
            s.same("text", root, o.st, list(zip(s.bytes(o.st, o.val, 32), vb)), "bytes")
    st = s.state()
    p = s.buf(st, "h", 32)
    for o in s.rets("text", "generic::r_as_bytes", [p], st):
        s.same("text", "generic::r_as_bytes", o.st, [(o.val, p)], "bytes")
    s.done()
    c.floor("one-shot", 1)
    c.floor("text", 16)


# --- HMAC ----------------------------------------------------------------------
@check("C09", "Abstract interpretation with an arbitrary hash engine (its content is tracked, its digest is an uninterpreted function "
              "of the content): every tag is compared with RFC 2104 for all key lengths, messages of arbitrary length and sequences "
              "of calls; an invariant extends the argument to all histories.")
def c09(c):
    for cfg in ("host", "i686"):
        for m, chunk, hash_ in (("hm_8_4", 8, 4), ("hm_8_8", 8, 8), ("hm_64_32", 64, 32)):
            s = Sem(c, cfg, "hashing", foreign=MOCK, loop_bound=400)
            ks = list(range(chunk + 1)) + [None] if cfg == "host" else [0, 1, chunk - 1, chunk, None]
            for kl in ks:
                for ctor in ("r_new", "r_with_engine"):
                    deep = 3 if kl in (chunk - 3, None) and ctor == "r_new" and chunk == 8 else 1
                    hmac(s, m, chunk, hash_, kl, ctor, deep)
            s.done()
    c.floor("tag", 500)
    c.floor("key", 200)


def hmac(s, m, chunk, hl, kl, ctor, deep):
    c, it, w = s.c, s.it, s.p.ptr
    root = m + "::" + ctor
    ty = s.sig(root)[1]
    st = s.state()
    n = kl if kl is not None else var("klen", w, chunk + 1, 1 << 30)
    kb = s.buf(st, "key", n)
    if kl is None:
        key = None
    else:
        key = [it.read(st, kb.aid, i, 1) for i in range(kl)]
    for o in s.rets("key", root, [s.wide(kb, n)], st):
        k = key if key is not None else digest(o.st, (("s", "key", 0, n),), hl)
        k = k + [0] * (chunk - len(k))
        ipad = ("b", tuple(xor(x, 0x36, 8) for x in k))
        opad = ("b", tuple(xor(x, 0x5c, 8) for x in k))
        p = s.place(o.st, o.val, ty, "hmac")
        c.ok("key", s.key(root))
        im = s.bytes(o.st, o.val, s.p.size(ty))
        walk(s, m, hl, o.st, p, ty, ipad, opad, (), deep, im, 0)


def walk(s, m, hl, st, p, ty, ipad, opad, msg, deep, im, nth):
    """All sequences of calls up to a depth; each is ended by reading the tag."""
    c, it, w = s.c, s.it, s.p.ptr
    root = m + "::r_finalize"
    for o in s.rets("tag", root, [p], st.fork()):
        want = digest(o.st, (opad, ("b", tuple(digest(o.st, (ipad,) + msg, hl)))), hl)
        s.same("tag", root, o.st, list(zip(s.bytes(o.st, o.val, hl), want)), "tag after the calls " + story(msg))
        inv(s, o.st, p, ty, im, ipad, ())
        if deep:
            step(s, m, hl, o.st, p, ty, ipad, opad, (), deep - 1, im, nth + 1)
    if deep:
        step(s, m, hl, st, p, ty, ipad, opad, msg, deep - 1, im, nth + 1)


def step(s, m, hl, st, p, ty, ipad, opad, msg, deep, im, nth):
    w = s.p.ptr
    n = var("n%d" % nth, w, 0, 1 << 30)
    for op in ("push", "push_zero", "reset"):
        st2 = st.fork()
        if op == "push":
            b = s.buf(st2, "m%d" % nth, n)
            args, msg2 = [p, s.wide(b, n)], msg + (("s", "m%d" % nth, 0, n),)
        elif op == "push_zero":
            args, msg2 = [p, n], msg + (("z", n),)
        else:
            args, msg2 = [p], ()
        for o in s.rets("tag", m + "::r_" + op, args, st2):
            inv(s, o.st, p, ty, im, ipad, msg2)
            walk(s, m, hl, o.st, p, ty, ipad, opad, msg2, deep, im, nth)


def inv(s, st, p, ty, im, ipad, msg):
    """Key material untouched, and the engine holds nothing or the inner pad followed by the message: holds for all histories."""
    now = s.bytes(st, s.mem(st, p, ty), s.p.size(ty))
    want = canon(st, (ipad,) + msg)
    ok = s.equal(st, list(zip(now, im))) and (canon(st, st.user.get("content", ())) in (want, () if not canon(st, msg) else want))
    s.c.saw("steps that keep the invariant" if ok else "steps without an invariant (bounded histories only)")


def story(msg):
    return "+".join({"s": "data", "z": "zeros", "b": "bytes"}[x[0]] for x in msg) or "none"
