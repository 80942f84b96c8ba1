"""C01-C03: the JSON tokenizer against a transducer of RFC 8259, by induction over the input.

Every place of the language (inside a string, after the integer digits of a number, ...) is described by a few
logical values: the text so far, the digits so far, their counts.  The memory image of a tokenizer in that place is
hypothesised as a function of those values from a few short inputs, and then proved: from the image with arbitrary
values, every next character (each ASCII character and each other class on its own) and the end of input must lead to
the reports of the transducer and to the image of the transducer's next place.  Only reports, results and the effects
on later reports are ever judged; if the hypothesis does not fit the implementation, inputs are compared one by one.
"""
import time
from multiprocessing import Pool

import absint
import sem
import vecs
from sem import Sem
from absint import A, P, Split, Undecided
from terms import *
from terms import T
import terms as tm
from vp import check

F = var("flags", 32)
LIM = 1 << 40
NAMES = {0: "colon", 1: "comma", 2: "array open", 3: "array close", 4: "object open", 5: "object close", 6: "null", 7: "false",
         8: "true", 9: "whitespace", 10: "number", 11: "string", 20: "stray character", 21: "unknown keyword",
         22: "incomplete number", 23: "incomplete string", 24: "invalid string character", 25: "invalid escape",
         26: "incomplete escape", 27: "unpaired surrogate", 28: "comment"}
WHITE = (9, 10, 13, 32)
# white space of Unicode outside the JSON definition
STRAY = (0x0b, 0x0c, 0x85, 0xa0, 0x1680) + tuple(range(0x2000, 0x200b)) + (0x2028, 0x2029, 0x202f, 0x205f, 0x3000)
ENDKW = tuple(b":,[]{}\"-#/+=") + WHITE
# every other character, by the length of its encoding
CLASSES = ((0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff))


def others():
    out = []
    for n, (lo, hi) in enumerate(CLASSES):
        for w in STRAY:
            if lo < w <= hi:
                out.append((lo, w - 1)) if lo <= w - 1 else None
                lo = w + 1
            elif lo == w:
                lo = w + 1
        if lo <= hi:
            out.append((lo, hi))
    return out


# --- sequences ------------------------------------------------------------------------------------------------------
# tuple of ("s", base, start, length) and ("b", byte)

def slen(s):
    n = 0
    for x in s:
        n = add(n, x[3] if x[0] == "s" else 1, 64)
    return n


def app(s, bs):
    return s + tuple(("b", b) for b in bs)


def utf8(c):
    if isc(c):
        return list(chr(c).encode("utf-8", "surrogatepass"))
    raise NotImplementedError


def utf8_t(c, n):
    """Encoding of a symbolic scalar value of known length."""
    if isc(c):
        return utf8(c)
    b = lambda sh, w: zext(ext(c, sh, w), w, 8)
    if n == 1:
        return [ext(c, 0, 8)]
    if n == 2:
        return [bor(b(6, 5), 0xc0, 8), bor(b(0, 6), 0x80, 8)]
    if n == 3:
        return [bor(b(12, 4), 0xe0, 8), bor(b(6, 6), 0x80, 8), bor(b(0, 6), 0x80, 8)]
    return [bor(b(18, 3), 0xf0, 8), bor(b(12, 6), 0x80, 8), bor(b(6, 6), 0x80, 8), bor(b(0, 6), 0x80, 8)]


class Sp:
    """Place and logical values of the transducer."""
    __slots__ = ("q", "raw", "str", "num", "ni", "nf", "ne", "val", "lead")

    def __init__(self, q=("None",), raw=(), str=(), num=(), ni=0, nf=0, ne=0, val=0, lead=0):
        self.q, self.raw, self.str, self.num, self.ni, self.nf, self.ne, self.val, self.lead = q, raw, str, num, ni, nf, ne, val, lead

    def but(self, **kw):
        n = Sp()
        for k in Sp.__slots__:
            setattr(n, k, kw.get(k, getattr(self, k)))
        return n

    def seqs(self):
        return {"raw": self.raw, "str": self.str, "num": self.num}


START = Sp()
HEX = {ord(c): int(c, 16) for c in "0123456789abcdefABCDEF"}
DIG = {48 + i: i for i in range(10)}
ESC = {ord('"'): ord('"'), ord("\\"): ord("\\"), ord("/"): ord("/"), ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9}
O = ord


def r(kind, ch=0, a=(), b=(), c=(), d=(), s0=0, s1=0):
    return (kind, ch, (a, b, c, d), s0, s1)


class Char:
    """One input character; non-ASCII ones carry the length of their encoding."""

    def __init__(self, v, n=None):
        self.v = v
        self.k = v if isc(v) else None
        self.n = n if n else len(utf8(v))

    def enc(self):
        return utf8_t(self.v, self.n)


def number(sp, s, e=0):
    """Number token of a place."""
    num = sp.num
    return r(10, 0, sp.raw, cut(num, 0, sp.ni), cut(num, sp.ni, sp.nf), cut(num, add(sp.ni, sp.nf, 64), sp.ne), s, e)


def cut(num, start, n):
    return (("c", num, start, n),)


def step(sp, ch):
    """Cases [(conditions, reports, successor)] of one character (None: end of input)."""
    q = sp.q[0]
    c = ch.k if ch is not None else None
    more = ch is not None

    def then(pre):
        """Finish the current token with these reports, then start anew with the character."""
        if not more:
            return [([], pre, START)]
        return [(cs, pre + rs, n) for cs, rs, n in begin(ch)]

    if q == "None":
        return then([])
    if q == "Ws":
        if c in WHITE:
            return [([], [], sp.but(raw=app(sp.raw, ch.enc())))]
        if c in STRAY:
            return [([], [r(20, c)], sp)]
        return then([r(9, 0, sp.raw)])
    if q == "Cm":
        if not more:
            return [([], [r(28, 0, sp.raw)], START)]
        if c == 10:
            return then([r(28, 0, sp.raw)])
        return [([], [], sp.but(raw=app(sp.raw, ch.enc())))]
    if q == "Slash" and c == O("/"):
        return [([], [], sp.but(q=("Cm",), raw=app(sp.raw, [c])))]
    if q in ("Slash", "Kw"):
        if more and c not in ENDKW and c not in STRAY:
            return [([], [], sp.but(q=("Kw",), raw=app(sp.raw, ch.enc())))]
        out = []
        for conds, rs in keyword(sp.raw):
            out += [(conds + cs, rs2, n) for cs, rs2, n in then(rs)]
        return out
    if q in ("IN", "IS", "IZ", "FN", "FS", "EN", "EG", "ES"):
        return num_step(sp, ch, c, then)
    return str_step(sp, ch, c)


def keyword(raw):
    out, no = [], []
    for word, kind in ((b"null", 6), (b"false", 7), (b"true", 8)):
        out.append(([("is", raw, word)], [r(kind)]))
        no.append(("not", raw, word))
    out.append((no, [r(21, 0, raw)]))
    return out


def begin(ch):
    c = ch.k
    if c in (58, 44, 91, 93, 123, 125):
        return [([], [r({58: 0, 44: 1, 91: 2, 93: 3, 123: 4, 125: 5}[c])], START)]
    if c in WHITE:
        return [([], [], START.but(q=("Ws",), raw=app((), [c])))]
    if c == O("-"):
        return [([], [], START.but(q=("IN", 1), raw=app((), [c])))]
    if c in DIG:
        return [([], [], START.but(q=("IZ" if c == 48 else "IS", 0), raw=app((), [c]), num=app((), [c - 48]), ni=1))]
    if c == O('"'):
        return [([], [], START.but(q=("S",)))]
    if c == O("#"):
        return [([], [], START.but(q=("Cm",)))]
    if c == O("+"):
        bit = ext(F, 1, 1)
        return [([(bit, True)], [], START.but(q=("IN", 0), raw=app((), [c]))), ([(bit, False)], [r(20, c)], START)]
    if c == O("/"):
        return [([], [], START.but(q=("Slash",), raw=app((), [c])))]
    if c == O("="):
        return [([], [r(20, c), r(0)], START)]
    if c in STRAY:
        return [([], [r(20, c)], START.but(q=("Ws",)))]
    return [([], [], START.but(q=("Kw",), raw=app((), ch.enc())))]


def num_step(sp, ch, c, then):
    q, s = sp.q[0], sp.q[1]
    raw = app(sp.raw, [c]) if c is not None else None

    def dig(q2, part, n=None):
        kw = {"q": (q2, s) + sp.q[2:], "raw": raw, "num": app(sp.num, [c - 48])}
        kw[part] = add(getattr(sp, part), 1, 64)
        return sp.but(**kw)

    if q == "IN":
        if c in DIG:
            return [([], [], dig("IZ" if c == 48 else "IS", "ni"))]
        return then([r(22), number(sp, s)])
    if q in ("IS", "IZ"):
        if c in DIG:
            if q == "IS":
                return [([], [], dig("IS", "ni"))]
            bit = ext(F, 0, 1)
            return [([(bit, True)], [], dig("IS", "ni")), ([(bit, False)], [r(20, c)], dig("IS", "ni"))]
        if c == O("."):
            return [([], [], sp.but(q=("FN", s), raw=raw))]
        if c in (O("e"), O("E")):
            return [([], [], sp.but(q=("EN", s), raw=raw))]
        return then([number(sp, s)])
    if q == "FN":
        if c in DIG:
            return [([], [], dig("FS", "nf"))]
        return then([r(22), number(sp, s)])
    if q == "FS":
        if c in DIG:
            return [([], [], dig("FS", "nf"))]
        if c in (O("e"), O("E")):
            return [([], [], sp.but(q=("EN", s), raw=raw))]
        return then([number(sp, s)])
    if q == "EN":
        if c in (O("+"), O("-")):
            return [([], [], sp.but(q=("EG", s, int(c == O("-"))), raw=raw))]
        if c in DIG:
            return [([], [], sp.but(q=("ES", s, 0), raw=raw, num=app(sp.num, [c - 48]), ne=1))]
        return then([r(22), number(sp, s)])
    e = sp.q[2]
    if c in DIG:
        return [([], [], dig("ES", "ne"))]
    if q == "EG":
        return then([r(22), number(sp, s, e)])
    return then([number(sp, s, e)])


def str_step(sp, ch, c):
    q = sp.q[0]
    if ch is None:
        return [([], [r(23)], START)]
    S = ("S",)
    clean = dict(val=0, lead=0)

    def plain(pre, sp):
        if c == O('"'):
            return [([], pre + [r(11, 0, sp.raw, sp.str)], START)]
        if c == O("\\"):
            return [([], pre, sp.but(q=("SE",), raw=app(sp.raw, [c]), **clean))]
        n = sp.but(q=S, raw=app(sp.raw, ch.enc()), str=app(sp.str, ch.enc()), **clean)
        if c is not None and c < 32:
            return [([], pre + [r(24, c)], n)]
        return [([], pre, n)]

    def esc(pre):
        n = sp.but(q=S, raw=app(sp.raw, ch.enc()), **clean)
        if c in ESC:
            return [([], pre, n.but(str=app(sp.str, [ESC[c]])))]
        return [([], pre + [r(25, ch.v)], n.but(str=app(sp.str, ch.enc())))]

    if q == "S":
        return plain([], sp)
    if q == "SE":
        if c == O("u"):
            return [([], [], sp.but(q=("SU", 0), raw=app(sp.raw, [c]), val=0))]
        return esc([])
    if q == "SS":
        if c == O("\\"):
            return [([], [], sp.but(q=("SSE",), raw=app(sp.raw, [c])))]
        return plain([r(27)], sp)
    if q == "SSE":
        if c == O("u"):
            return [([], [], sp.but(q=("SSU", 0), raw=app(sp.raw, [c]), val=0))]
        return esc([r(27)])
    # four hexadecimal digits
    k = sp.q[1]
    if c not in HEX:
        return plain([r(26)], sp)
    v = bor(shl(sp.val, 4, 32), HEX[c], 32)
    n = sp.but(raw=app(sp.raw, [c]), val=v)
    if k < 3:
        return [([], [], n.but(q=(q, k + 1)))]
    done = n.but(q=S, **clean)
    lead = [(ule(0xd800, v, 32), True), (ule(v, 0xdbff, 32), True)]
    trail = [(ule(0xdc00, v, 32), True), (ule(v, 0xdfff, 32), True)]
    if q == "SU":
        out = [(lead, [], n.but(q=("SS",), lead=v, val=0)), (trail, [r(27)], done)]
        for cs, m in ([(ule(v, 0x7f, 32), True)], 1), ([(ule(0x80, v, 32), True), (ule(v, 0x7ff, 32), True)], 2), \
                ([(ule(0x800, v, 32), True), (ule(v, 0xd7ff, 32), True)], 3), ([(ule(0xe000, v, 32), True)], 3):
            out.append((cs, [], done.but(str=app(sp.str, utf8_t(v, m)))))
        return out
    out = []
    hi = add(shl(sub(sp.lead, 0xd800, 32), 10, 32), 0x10000, 32)
    pair = add(hi, sub(v, 0xdc00, 32), 32)
    out.append((trail, [], done.but(str=app(sp.str, utf8_t(pair, 4)))))
    out.append(([(ule(v, 0xdbff, 32), True)], [r(27)], done))
    out.append(([(ule(0xe000, v, 32), True)], [r(27)], done))
    return out


# --- the implementation -----------------------------------------------------------------------------------------------

def on_report(it, st, args, rty):
    kind, ch = [it.as_int(st, x) for x in args[:2]]
    seqs = []
    for i in range(4):
        n = it.as_int(st, args[3 + 2 * i])
        p = args[2 + 2 * i]
        if isc(n) and n == 0:
            seqs.append((None, 0, 0))
            continue
        p = it.to_ptr(st, p)
        if p.__class__ is not P:
            raise Undecided("report with unknown pointer")
        it.bounds_n(st, it.get_alloc(st, p.aid), p.off, n, "report")
        seqs.append((it.get_alloc(st, p.aid).copy(), p.off, n))
    mode = st.user.get("mode")
    j = len(st.events())
    if mode == "both":
        b = var("stop%d" % j, 1)
        stop = st.truth(b)
    else:
        stop = mode == j
    st.emit(kind, ch, seqs, it.as_int(st, args[10]), it.as_int(st, args[11]), stop)
    return concat([(1, 32), (var("value%d" % j, 32), 32)]) if stop else 0


class Gap(Exception):
    """The hypothesis does not cover this step."""


class Mach:
    def __init__(self, c):
        self.s = s = Sem(c, "host", "json", foreign={"x_rep": on_report}, models=vecs.MODELS)
        self.it = s.it
        self.ty = s.sig("r_flags")[1]
        self.size = s.p.size(self.ty)
        self.vecs = vecs.find(s.p, self.ty)
        self.inv = set()
        for off, size, es, po, co, lo in self.vecs:
            self.inv.update(range(off, off + size))
        self.img = {}
        self.end = s.p.types[s.sig("r_push")[0][1]]["l"]["nstart"]

    def fresh(self, root="r_flags", args=(F,)):
        outs = self.s.run(root, list(args))
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Gap("constructor: %s" % outs[:2])
        st = outs[0].st
        p = self.s.place(st, outs[0].val, self.ty, "tokenizer")
        vecs.warm(self.it, st, p.aid, self.vecs)
        return st, p.aid

    def push(self, st, aid, ch, mode="both", root="r_push"):
        st = st.fork()
        st.trace = ()
        st.user["mode"] = mode
        return self.s.run(root, [P(aid, 0), self.end if ch is None else ch.v], st)

    # --- sequences
    def norm(self, seq):
        out = []
        for x in seq:
            if x[0] == "c":
                _, num, start, n = x
                if isc(n) and n == 0:
                    continue
                if all(y[0] == "b" for y in num) and isc(start) and isc(n):
                    out += num[start:start + n]
                elif len(num) == 1 and num[0][0] == "s":
                    out.append(("s", num[0][1], add(num[0][2], start, 64), n))
                elif num and num[0][0] == "s" and all(y[0] == "b" for y in num[1:]):
                    # digits added to an arbitrary run: the end of the run is a known distance away, or lies behind the cut
                    _, base, b0, L = num[0]
                    ds, de = sub(start, L, 64), sub(add(start, n, 64), L, 64)
                    if isc(ds) and sgn(ds, 64) >= 0 and isc(n):
                        out += num[1 + ds:1 + ds + n]
                    elif isc(de) and sgn(de, 64) >= 0:
                        out.append(("s", base, add(b0, start, 64), sub(L, start, 64)))
                        out += num[1:1 + de]
                    else:
                        out.append(("s", base, add(b0, start, 64), n))
                else:
                    raise Gap("digits")
            elif x[0] == "s" and isc(x[3]) and x[3] == 0:
                continue
            else:
                out.append(x)
        return out

    def seq_pairs(self, st, al, off, n, seq):
        """Pairs that must be equal for the memory to hold the sequence; may add facts about an index to the state."""
        seq = self.norm(seq)
        pairs = [(n, slen(seq))]
        pos = off
        for x in seq:
            if x[0] == "b":
                pairs.append((("r", al, pos), x[1]))
                pos = add(pos, 1, 64)
            elif st.facts.range(x[3])[0] == st.facts.range(x[3])[1] <= 16:
                for i in range(st.facts.range(x[3])[0]):
                    pairs.append((("r", al, pos), sel(x[1], add(x[2], i, 64))))
                    pos = add(pos, 1, 64)
            else:
                i = fresh("i", 64, 0, LIM)
                if st.assume(ult(i, x[3], 64), True):
                    pairs.append((("r", al, add(pos, i, 64)), sel(x[1], add(x[2], i, 64))))
                pos = add(pos, x[3], 64)
        return pairs

    def get(self, st, x):
        if x.__class__ is tuple:
            _, al, pos = x
            try:
                v = self.it.read_slow(st, al, None, pos, 1)
            except Split as e:
                raise Gap("content depends on %s" % (show(e.alts[0][0])[:80],))
            return v
        return x

    def prove(self, st, pairs):
        """True, or (got, want) that is not proved equal."""
        n = pairs[0]
        for a, b in pairs:
            a = self.get(st, a)
            if a is None:
                return ("uninitialised", b)
            if not self.s.equal(st, [(a, b)]):
                return (a, b)
        return True

    # --- spec cases
    def cases(self, st, sp, ch):
        out = []
        for conds, reps, n in step(sp, ch):
            ws = [st.fork()]
            for cd in conds:
                nxt = []
                for s2 in ws:
                    nxt += self.cond(s2, cd)
                ws = nxt
            out += [(s2, reps, n) for s2 in ws]
        return out

    def cond(self, st, cd):
        if cd[0] in ("is", "not"):
            _, raw, word = cd
            raw = self.norm(raw)
            comps = [eq(slen(raw), len(word), 64)]
            if all(x[0] == "b" for x in raw):
                if len(raw) == len(word):
                    comps += [eq(x[1], w, 8) for x, w in zip(raw, word)]
            elif raw[0][0] == "s" and all(x[0] == "b" for x in raw[1:]):
                k = len(word) - len(raw) + 1
                if k >= 0:
                    comps += [eq(sel(raw[0][1], add(raw[0][2], i, 64)), w, 8) for i, w in enumerate(word[:k])]
                    comps += [eq(x[1], w, 8) for x, w in zip(raw[1:], word[k:])]
            else:
                raise Gap("keyword")
            if cd[0] == "is":
                return [st] if all(self.asm(st, x, True) for x in comps) else []
            out = []
            for j in range(len(comps)):
                s2 = st.fork()
                if all(self.asm(s2, x, True) for x in comps[:j]) and self.asm(s2, comps[j], False):
                    out.append(s2)
            return out
        return [st] if self.asm(st, *cd) else []

    def asm(self, st, t, v):
        d = st.decide(t)
        if d is not None:
            return d == v
        return st.assume(t, v)

    def advance(self, st, aid, sp, ch, mode, root="r_push"):
        """Pairs of implementation outcome and transducer case: (kind of difference or None, text, state, successor)."""
        out = []
        for o in self.push(st, aid, ch, mode, root):
            if o.kind == "undecided":
                out.append(("gap", "%s at %s" % (o.info, o.where), o.st, None))
                continue
            if o.kind != "ret":
                if not sem.feasible(o.st.facts):
                    out.append(("gap", "path with %s" % o.info, o.st, None))
                    continue
                out.append(("C01", "%s: %s at %s" % (o.kind, o.info, o.where), o.st, None))
                continue
            evs = o.st.events()
            vecs.warm(self.it, o.st, aid, self.vecs)
            for s2, reps, n in self.cases(o.st, sp, ch):
                out.append(self.judge(s2, evs, reps, n, o.val))
        return out

    def seq_cases(self, st, sp, chars):
        """Cases of a sequence of characters."""
        work_ = [(st, [], sp)]
        for ch in chars:
            nxt = []
            for s2, reps, n in work_:
                nxt += [(s3, reps + rs, n3) for s3, rs, n3 in self.cases(s2, n, ch)]
            work_ = nxt
        return work_

    def judge(self, st, evs, reps, n, val):
        stopped = evs and evs[-1][5]
        if any(ev[5] for ev in evs[:-1]):
            return ("C03", "reports go on after the callback asked to stop", st, None)
        for i, ev in enumerate(evs):
            kind, ch, seqs, s0, s1, _ = ev
            if i >= len(reps):
                return ("C01", "additional report of %s" % NAMES.get(kind, kind), st, None)
            k2, ch2, seqs2, t0, t1 = reps[i]
            if kind != k2:
                return ("C01", "report of %s instead of %s" % (NAMES.get(kind, kind), NAMES[k2]), st, None)
            d = self.prove(st, [(ch, ch2), (s0, t0), (s1, t1)])
            if d is not True:
                return ("C02", "%s carries a wrong character or sign" % NAMES[kind], st, (d,))
            for (al, off, m), want, nm in zip(seqs, seqs2, ("text", "decoded text or integer digits", "fraction digits", "exponent digits")):
                s3 = st.fork()
                d = self.prove(s3, self.seq_pairs(s3, al, off, m, want))
                if d is not True:
                    return ("C02", "%s carries a wrong %s" % (NAMES[kind], nm), st, (d,))
        if stopped:
            j = len(evs) - 1
            if self.prove(st, [(val, concat([(1, 32), (var("value%d" % j, 32), 32)]))]) is not True:
                return ("C03", "stop value of the callback is not what is returned", st, None)
            return (None, "stopped", st, START)
        if len(evs) < len(reps):
            return ("C01", "no report of %s" % NAMES[reps[len(evs)][0]], st, None)
        if self.prove(st, [(val, 0 if n.q == ("None",) else 2)]) is not True:
            return ("C03", "wrong status for a %s token" % ("completed" if n.q == ("None",) else "pending"), st, None)
        return (None, "", st, n)

    # --- images
    def raw(self, st, aid, off, size):
        try:
            v = self.it.read(st, aid, off, size)
        except Undecided:
            return None
        return self.it.as_int(st, v) if v is not None else None

    def values(self, sp):
        d = {"flags": (F, 4)}
        for k, v in (("raw", slen(sp.raw)), ("str", slen(sp.str)), ("ni", sp.ni), ("nf", sp.nf), ("ne", sp.ne),
                     ("nif", add(sp.ni, sp.nf, 64)), ("nums", slen(sp.num))):
            for w in (8, 4):
                d["%s/%d" % (k, w)] = (v, w)
        for k, v in (("val", sp.val), ("lead", sp.lead)):
            for w in (4, 2):
                d["%s/%d" % (k, w)] = (v if w == 4 or isc(v) else ext(v, 0, 16), w)
        return d

    def contents(self, sp):
        return {"raw": sp.raw, "str": sp.str, "num": sp.num, "empty": (), "int": cut(sp.num, 0, sp.ni), "frac": cut(sp.num, sp.ni, sp.nf),
                "exp": cut(sp.num, add(sp.ni, sp.nf, 64), sp.ne)}

    def learn(self, samples):
        """samples: {place: [(Sp, state, object)]}"""
        for q, ss in samples.items():
            groups = {}
            tmpl = self.template(ss)
            free = [b for b in tmpl[2] if b is not None]
            # split by bytes that take few values
            for b in free:
                vals = {self.raw(st, aid, b, 1) for sp, st, aid in ss}
                if 1 < len(vals) <= 3 and all(v is not None and isc(v) for v in vals):
                    groups.setdefault(b, vals)
            self.img[q] = [tmpl]

    def template(self, ss):
        cells, free = {}, []
        vals = [self.values(sp) for sp, st, aid in ss]
        used = set(self.inv)
        for k in vals[0]:
            w = vals[0][k][1]
            if k != "flags" and len({v[k][0] for v in vals}) < 2:
                continue
            for off in range(0, self.size - w + 1, w):
                if any(x in used for x in range(off, off + w)):
                    continue
                if all(self.raw(st, aid, off, w) == v[k][0] for (sp, st, aid), v in zip(ss, vals)):
                    cells[off] = (w, k)
                    used.update(range(off, off + w))
        for off in range(self.size):
            if off in used:
                continue
            xs = [self.raw(st, aid, off, 1) for sp, st, aid in ss]
            if all(x is None for x in xs):
                continue
            if all(x is not None and isc(x) and x == xs[0] for x in xs):
                cells[off] = (1, xs[0])
            else:
                free.append(off)
        cont = []
        for off, size, es, po, co, lo in self.vecs:
            got = []
            for sp, st, aid in ss:
                n = self.raw(st, aid, lo, 8)
                p = self.it.to_ptr(st, self.it.read(st, aid, po, 8))
                got.append([self.raw(st, p.aid, p.off + i, 1) for i in range(n)] if isc(n) and p.__class__ is P else None)
            hit = None
            for k in ("empty", "raw", "str", "num", "int", "frac", "exp"):
                want = [[x[1] for x in self.norm(self.contents(sp)[k])] for sp, st, aid in ss]
                if want == got:
                    hit = k
                    break
            cont.append(hit)
        return (cells, cont, free)

    def generic(self, q):
        """Place with arbitrary logical values."""
        n = lambda k, lo: var(k, 64, lo, LIM)
        raw = (("s", "raw", 0, n("raw.n", 0 if q[0] in ("Ws", "Cm", "S") else 1)),)
        kw = {}
        if q[0] == "None":
            return START
        if q[0] in ("IN", "IS", "IZ", "FN", "FS", "EN", "EG", "ES"):
            if q[0] == "IN":
                pass
            elif q[0] == "IZ":
                kw.update(num=app((), [0]), ni=1)
            else:
                ni, nf, ne = n("ni", 1), 0, 0
                if q[0] == "FS":
                    nf = n("nf", 1)
                elif q[0] in ("EN", "EG", "ES"):
                    nf = n("nf", 0)
                if q[0] == "ES":
                    ne = n("ne", 1)
                kw.update(num=(("s", "num", 0, add(add(ni, nf, 64), ne, 64)),), ni=ni, nf=nf, ne=ne)
        elif q[0] == "Slash":
            raw = app((), [O("/")])
        elif q[0][0] == "S":
            kw["str"] = (("s", "str", 0, n("str.n", 0)),)
            if q[0] in ("SU", "SSU"):
                k = q[1]
                kw["val"] = var("val%d" % k, 32, 0, 16 ** k - 1) if k else 0
            if q[0] in ("SS", "SSE", "SSU"):
                kw["lead"] = var("lead", 32, 0xd800, 0xdbff)
        return Sp(q, raw, **kw)

    def build(self, q, sp):
        cells, cont, free = self.img[q][0]
        st = self.s.state()
        it = self.it
        aid = it.alloc(st, self.size, 8, "tokenizer")
        vals = self.values(sp)
        for off, (w, k) in cells.items():
            it.write(st, aid, off, w, k if isc(k) else vals[k][0] if isc(vals[k][0]) or vals[k][0].w == 8 * w else ext(vals[k][0], 0, 8 * w))
        for off in free:
            it.write(st, aid, off, 1, fresh("free%d" % off, 8))
        for (off, size, es, po, co, lo), k in zip(self.vecs, cont):
            b = it.alloc(st, vecs.huge(it, es) * es, 16, "heap")
            a = st.w(b)
            n = 0
            if k is None:
                a.base = "free%d" % off
                n = fresh("free%d.n" % off, 64, 0, LIM)
            else:
                seq = self.norm(self.contents(sp)[k])
                n = slen(seq)
                if len(seq) == 1 and seq[0][0] == "s":
                    _, base, start, _ = seq[0]
                    a.base = base if isc(start) and start == 0 else (lambda i, base=base, start=start: sel(base, add(start, i, 64)))
                else:
                    for i, x in enumerate(seq):
                        if x[0] != "b":
                            raise Gap("content")
                        a.cells[i] = (1, x[1])
            it.write(st, aid, po, 8, P(b, 0))
            it.write(st, aid, co, 8, vecs.huge(it, es))
            it.write(st, aid, lo, 8, n)
        return st, aid

    def fits(self, st, aid, sp):
        """The object is the image of the place; True or what differs."""
        if sp.q not in self.img:
            raise Gap("place %s was not learned" % (sp.q,))
        cells, cont, free = self.img[sp.q][0]
        vals = self.values(sp)
        for off, (w, k) in cells.items():
            x = self.raw(st, aid, off, w)
            want = k if isc(k) else vals[k][0]
            if x is None or not self.s.equal(st, [(x, want)]):
                return "byte %d of the tokenizer" % off
        for (off, size, es, po, co, lo), k in zip(self.vecs, cont):
            if k is None:
                continue
            s2 = st.fork()
            p = self.it.to_ptr(s2, self.it.read(s2, aid, po, 8))
            n = self.raw(s2, aid, lo, 8)
            if p.__class__ is not P or n is None:
                return "buffer"
            d = self.prove(s2, self.seq_pairs(s2, self.it.get_alloc(s2, p.aid), p.off, n, self.contents(sp)[k]))
            if d is not True:
                return "buffer at %d: %s versus %s" % (off, show(d[0]) if d[0].__class__ is T else d[0], show(d[1]) if d[1].__class__ is T else d[1])
        return True


WORDS = [
    " \n", "\t \r\n ", "\u2003", "\u2003 \n", "#", "#ab", "# a\u00e9", "//", "//x", "///abc", "/", "n", "null", "nul", "nulla", "t", "true", "fals", "false",
    "abc", "a\u00e9\u4e2d", "/a", "_x1", "-", "-1", "-12", "-123", "12", "1", "345", "6789", "0", "-0", "0.", "-0.", "1.", "12.", "-12.", "0.5", "1.25", "12.125", "-0.5", "-12.75",
    "-123.4567", "0e", "1e", "12E", "1.5e", "12.25E", "-1e", "-12.5e", "-123.5678E", "1e+", "12e+", "1.5e+", "12.75e+", "1e-", "12.5e-", "-1e+",
    "-12.5e+", "-1e-", "-12.25e-", "-123.5e-", "-123.5e+", "123.5e-", "123.5e+", "1e1", "12e12", "12.5e123", "1e+1", "12.5e+123", "1e-1", "12e-12", "12.5e-123", "-1e1", "-12e123", "-12.5e+12", "-1e-1", "-12e-12",
    "-12.5e-123", "\"", "\"a", "\"ab\u00e9", "\"\\n\\u0041bc", "\"x\\", "\"\\", "\"ab\\ncd\\", "\"\\u", "\"ab\\u", "\"a\\nb\\u", "\"\\u1", "\"ab\\u2", "\"a\\nb\\uf", "\"\\u12", "\"ab\\u23",
    "\"\\n\\uf0", "\"\\u123", "\"ab\\u234", "\"\\n\\uf01", "\"\\ud800", "\"ab\\ud934", "\"\\nb\\udbff", "\"\\ud800\\", "\"ab\\ud934\\", "\"\\nb\\udbff\\",
    "\"\\ud800\\u", "\"ab\\ud934\\u", "\"\\nb\\udbff\\u", "\"\\ud800\\ud", "\"ab\\ud934\\ue", "\"\\nb\\udbff\\uf", "\"\\ud800\\udc", "\"ab\\ud934\\ue1", "\"\\nb\\udbff\\u00",
    "\"\\ud800\\udc0", "\"ab\\ud934\\ue12", "\"\\nb\\udbff\\u007", "+", "+1", "+12", "+0", "+1.", "+12.", "+1.5", "1 ", "null,", "\"a\":", "# x\n", "[", "12.5e3 ", "\"\\u0041\"", "-", "a=",
    "0,", "\"\\ud834\\udd1e\"",
]


def place_of(word):
    """Places of the transducer along a word, with the flags chosen to accept it."""
    sps = [START]
    for ch in word:
        got = None
        for conds, reps, n in step(sps[-1], Char(O(ch))):
            ok = True
            for cd in conds:
                if cd[0] in ("is", "not"):
                    b = bytes(x[1] for x in cd[1])
                    ok = ok and ((b == cd[2]) == (cd[0] == "is"))
                elif isc(cd[0]):
                    ok = ok and bool(cd[0]) == cd[1]
                else:
                    ok = ok and cd[1]
            if ok:
                got = n
                break
        sps.append(got)
    return sps


def prefixes(m):
    """Every prefix of the words, run through the implementation: {word: [(state, object, Sp)]}"""
    st, aid = m.fresh()
    runs = {"": [(st, aid, START)]}
    bad = []
    for w in WORDS:
        for i in range(1, len(w) + 1):
            if w[:i] in runs:
                continue
            out = []
            for st, aid, sp in runs[w[:i - 1]]:
                for kind, text, s2, n in m.advance(st, aid, sp, Char(O(w[i - 1])), None):
                    if kind == "gap":
                        raise Gap(text)
                    elif kind:
                        bad.append((kind, w[:i], text))
                    else:
                        out.append((s2, aid, n))
            runs[w[:i]] = out
    return runs, bad


def inputs():
    out = [None] + [Char(i) for i in range(128)] + [Char(w) for w in STRAY if w >= 128]
    for k, (lo, hi) in enumerate(others()):
        n = 2 if hi <= 0x7ff else 3 if hi <= 0xffff else 4
        out.append(Char(var("c%d" % k, 32, lo, hi), n))
    return out


_G = {}


LENS = ("raw.n", "str.n", "ni", "nf", "ne")


def least(st):
    """A length that the path needs."""
    return max([st.facts.range(var(k, 64, lo, LIM))[0] for k in LENS for lo in (0, 1)])


def text_of(st, q):
    """An unknown word that takes this path."""
    if q != ("Kw",):
        return None
    hs = sem.hist(st.facts)
    n = st.facts.range(var("raw.n", 64, 1, LIM))[0]
    if n > 40:
        return None
    for seed in range(60):
        env = sem.valuation(st.facts, seed)
        bs = []
        for i in range(n):
            t = sel("raw", i)
            lo, hi = st.facts.range(t)
            e = st.facts.ne.get(t) or ()
            pick = [b for b in list(range(97, 123)) + list(range(65, 91)) + list(range(32, 127)) if lo <= b <= hi and b not in e and b not in ENDKW]
            if not pick:
                return None
            bs.append(pick[seed % len(pick)])
        w = bytes(bs).decode("latin-1")
        if place_of(w)[-1].q == q:
            return w
    return None


def work(job):
    """All inputs from one place: ([done count], [(kind, place, input, text)])."""
    m, q = _G["m"], job
    gaps, n = [], 0
    try:
        sp = m.generic(q)
        st0, aid = m.build(q, sp)
    except Gap as e:
        return q, 0, [("gap", None, str(e), 0, None)]
    for ch in inputs():
        name = "end of input" if ch is None else repr(chr(ch.k)) if ch.k is not None else "U+%04X.." % m.s.state().facts.range(ch.v)[0]
        try:
            for kind, text, st, nx in m.advance(st0, aid, sp, ch, "both"):
                n += 1
                if kind:
                    gaps.append((kind, ch.k if ch is not None else "end", text, least(st), text_of(st, q)))
                    continue
                d = m.fits(st, aid, nx)
                if d is not True:
                    gaps.append(("image", ch.k if ch is not None else "end", "%s after %s: %s" % (nx.q, name, d), least(st), text_of(st, q)))
        except Gap as e:
            gaps.append(("gap", ch.k if ch is not None else "end", str(e), 0, None))
        except Exception as e:
            import traceback
            gaps.append(("gap", ch.k if ch is not None else "end", traceback.format_exc()[-600:], 0, None))
    return q, n, gaps


# --- inputs one by one ------------------------------------------------------------------------------------------------
END = "\x00end"
SUFFIX = {
    "S": ['"', 'x"', 'n"', '1234"', 'dc00"', '\\u0041"', '\\n"', "é\""],
    "N": [" ", "1 ", "0 ", ".5 ", "e5 ", "e-5 ", "+5 ", ",", ""],
    "K": [" ", "a ", "l ", "e,", ""],
    "W": ["1 ", " 1 ", "\n\"a\"", ""],
    "C": ["\n", "a\n", ""],
    "None": ["1 ", '"a"', "null ", " x ", "-2.5e+1 ", "//x\n"],
}


def suffixes(sp):
    q = sp.q[0]
    k = "None" if q == "None" else "S" if q in ("S", "SE", "SU", "SS", "SSE", "SSU") else "K" if q in ("Kw", "Slash") else \
        "W" if q == "Ws" else "C" if q == "Cm" else "N"
    return SUFFIX[k]


def spec_run(word):
    """Reports of the transducer for a word of characters (END: end of input), with permissive flags."""
    sp, out = START, []
    for ch in word:
        hit = None
        for conds, reps, n in step(sp, None if ch == END else Char(O(ch))):
            ok = True
            for cd in conds:
                if cd[0] in ("is", "not"):
                    b = bytes(x[1] for x in cd[1])
                    ok = ok and ((b == cd[2]) == (cd[0] == "is"))
                elif isc(cd[0]):
                    ok = ok and bool(cd[0]) == cd[1]
                else:
                    ok = ok and cd[1]
            if ok:
                hit = (reps, n)
                break
        out += hit[0]
        sp = hit[1]
    return out, sp


class Probe:
    """Follows concrete inputs through the implementation and compares each step."""

    def __init__(self, m):
        self.m = m
        self.cache = {}

    def states(self, word):
        """[(state, object, Sp)] after a word, or the first difference (kind, text, word)."""
        word = tuple(word)
        n = len(word)
        while n and word[:n] not in self.cache:
            n -= 1
        if not n:
            st, aid = self.m.fresh()
            r = [(st, aid, START)]
        else:
            r = self.cache[word[:n]]
        while n < len(word) and r.__class__ is list:
            n += 1
            r = self.one(r, word[:n], None)
            if n < 40 or n > len(word) - 3:
                self.cache[word[:n]] = r
        return r

    def one(self, states, word, mode):
        out = []
        ch = None if word[-1] == END else Char(O(word[-1]))
        for st, aid, sp in states:
            for kind, text, s2, n in self.m.advance(st, aid, sp, ch, mode):
                if kind == "gap":
                    raise Gap(text)
                if kind:
                    if self.differs(s2, n):
                        return (kind, text, word)
                    raise Gap(text)
                out.append((s2, aid, n))
        return out

    def differs(self, st, pairs):
        if pairs and pairs[0][0].__class__ is not str:
            pairs = [(self.m.it.as_int(st, a), b) for a, b in pairs]
            if not all(isc(a) and isc(b) and a != b for a, b in pairs):
                return sem.separate(st.facts, pairs) is not None
        return sem.feasible(st.facts)

    def deep(self, q, ch):
        """The same from an arbitrary text of a place whose inputs are all covered by the induction."""
        m = self.m
        out = []
        sp = m.generic(q)
        st0, aid = m.build(q, sp)
        for kind, text, st, nx in m.advance(st0, aid, sp, ch, None):
            if kind == "gap":
                continue
            if kind:
                if self.differs(st, nx):
                    out.append((kind, text))
                continue
            if m.fits(st, aid, nx) is True:
                continue
            for suf in suffixes(nx):
                y = [(st, aid, nx)]
                for c in tuple(suf) + (END,) + tuple('"b" 2 ') + (END,):
                    try:
                        y = self.one(y, (c,), None)
                    except Gap:
                        break
                    if y.__class__ is tuple:
                        out.append(y[:2])
                        if nx.q == ("None",) or ch is None:
                            out.append(("C03", y[1] + ", unlike on a new tokenizer"))
                        break
                if out:
                    break
            if out:
                break
        return out

    def look(self, word):
        """Difference on a word or its continuations."""
        out = []
        r = self.states(word)
        if r.__class__ is tuple:
            return [r]
        places = {sp.q: sp for st, aid, sp in r}
        for sp in places.values():
            for suf in suffixes(sp):
                w = tuple(word) + tuple(suf) + (END,) + tuple('"b" 2 ') + (END,)
                x = self.states(w)
                if x.__class__ is tuple:
                    out.append(x)
                    break
        # stopping at the reports of the last character
        prev = self.states(word[:-1])
        n = len(spec_run(word)[0]) - len(spec_run(word[:-1])[0])
        for j in range(n):
            x = self.one(prev, tuple(word), j)
            if x.__class__ is tuple:
                out.append(("C03" if x[0] == "C03" else x[0], x[1], x[2] + ("(stop)",)))
                continue
            for suf in SUFFIX["None"]:
                y = x
                for i, ch in enumerate(suf):
                    y = self.one(y, (ch,), None)
                    if y.__class__ is tuple:
                        out.append(("C03", "after a stop: " + y[1], tuple(word) + ("(stop)",) + tuple(suf[:i + 1])))
                        break
                if y.__class__ is tuple:
                    break
        # a difference that a new tokenizer does not show is one of leftovers
        for kind, text, w in list(out):
            if kind != "C03" and "(stop)" not in w:
                for k in range(1, len(w)):
                    a, b = spec_run(w[:k] + (END,))[0], spec_run(w[k:])[0]
                    if a + b == spec_run(w)[0] and len(a) <= len(spec_run(w[:-1])[0]) and self.states(w[k:]).__class__ is list:
                        out.append(("C03", text + ", unlike on a new tokenizer", w))
                        break
        return out


def show_word(w):
    return "".join("<end>" if x == END else "<stop>" if x == "(stop)" else x for x in w).encode("unicode_escape").decode()


def probe(job):
    """Confirm one open step with inputs that lead there."""
    words, cs = job
    if words.__class__ is tuple:
        q, n = words
        w = long_word(q, 3) or str(q)
        try:
            ch = None if cs[0] == "end" else Char(cs[0])
            return [(k, t, "%s.. of %d characters and more, then %s" % (show_word(w), n, show_word((END if ch is None else chr(ch.k),)))) for k, t in
                    _G.setdefault("probe", Probe(_G["m"])).deep(q, ch)], []
        except (Gap, Undecided, absint.UB) as e:
            return [], [str(e)]
    pr = _G.setdefault("probe", Probe(_G["m"]))
    out, gaps = [], []
    for w in words:
        for c in cs:
            ch = END if c == "end" else chr(c)
            try:
                out += [(k, t, show_word(x)) for k, t, x in pr.look(tuple(w) + (ch,))]
            except Gap as e:
                gaps.append(str(e))
            except (Undecided, absint.UB) as e:
                gaps.append(str(e))
        if out:
            break
    return out, gaps


def long_word(q, n):
    """An input that leads to a place with that much text."""
    sg = {1: "-", 0: ""}
    k = q[0]
    if k in ("Kw", "Ws"):
        return ("a" if k == "Kw" else " ") * n
    if k == "Cm":
        return "#" + "a" * n
    if k == "None":
        return None
    if k[0] == "S" and k != "Slash":
        tail = {"S": "", "SE": "\\", "SS": "\\ud800", "SSE": "\\ud800\\", "SU": "\\u" + "0123"[:q[1] if len(q) > 1 else 0], "SSU": "\\ud800\\u" + "dc00"[:q[1] if len(q) > 1 else 0]}[k]
        return '"' + "a" * n + tail
    d = "1" * n
    e = {0: "+", 1: "-"}
    return {"IS": lambda: sg[q[1]] + d, "FN": lambda: sg[q[1]] + d + ".", "FS": lambda: sg[q[1]] + "1." + d, "EN": lambda: sg[q[1]] + d + ".5e",
            "EG": lambda: sg[q[1]] + d + "e" + e[q[2]], "ES": lambda: sg[q[1]] + "1e" + e[q[2]] + d}.get(k, lambda: None)()


def tokenizer(c):
    """The whole induction; findings are kept for the three properties."""
    m = Mach(c)
    s = m.s
    diffs, gaps = [], []
    try:
        runs, bad = prefixes(m)
    except Gap as e:
        c.unk("induction", "prefixes", str(e))
        s.done()
        return [], m
    diffs += [(k, t, show_word(w)) for k, w, t in bad]
    samples, words = {}, {}
    for w, l in runs.items():
        for st, aid, sp in l:
            samples.setdefault(sp.q, []).append((sp, st, aid))
            words.setdefault(sp.q, []).append(w)
    need = {place_of(w[:i])[-1].q for w in WORDS for i in range(len(w) + 1)}
    for q in need:
        if q not in samples:
            gaps.append((q, [None], "place not reached"))
    for q, ss in samples.items():
        m.img[q] = [m.template(ss)]
    # base: both constructors yield the image of the start
    for root, args in (("r_flags", (F,)), ("r_new", ())):
        try:
            st, aid = m.fresh(root, args)
            sub_ = st
            if root == "r_new":
                st.assume(eq(F, 0, 32), True)
            d = m.fits(st, aid, START)
            if d is True:
                c.ok("base", root)
            else:
                # compare by behaviour
                c.unk("base", root, d)
        except Gap as e:
            c.unk("base", root, str(e))
    _G["m"] = m
    _G.pop("probe", None)
    order = sorted(samples, key=lambda q: q[0] not in ("Kw", "Ws"))
    with Pool(8) as pool:
        res = pool.map(work, order, 1)
    for q, n, gs in res:
        for _ in range(n - len(gs)):
            c.ok("step")
        c.saw("paths", n)
        for kind, ch, text, ln, w in gs:
            gaps.append((q, kind, ch, text, ln, w))
    c.saw("places", len(samples))
    c.saw("inputs per place", len(inputs()))
    if gaps:
        # look for inputs that show a difference
        jobs = []
        by = {}
        for g in gaps:
            if len(g) == 3:
                c.unk("step", str(g[0]), g[2])
            else:
                by.setdefault((g[0], g[2], g[4] > 12), []).append(g)
        for (q, ch, big), gs in by.items():
            ws = sorted(set(words.get(q, [])), key=len)
            ws = (ws[:3] + ws[len(ws) // 2:len(ws) // 2 + 1] + ws[-2:])
            ws = list(dict.fromkeys(g[5] for g in gs if g[5]))[:6] + ws
            # from arbitrary values, if the way there is covered by the induction
            w = long_word(q, 30) or (ws[-1] if ws else "")
            pl = place_of(w)
            cover = pl[-1].q == q and not any((pl[i].q, O(w[i]), b) in by for i in range(len(w)) for b in (True, False))
            own = any(g[1] == c.pid for g in gs)
            if cover and ch is not None and q != ("Kw",):
                jobs.append(((q, min(g[4] for g in gs)), [ch], (q, ch, gs), (not own, 0)))
            if not big:
                cs = [ch] if ch is not None else [0xe9, 0x4e2d, 0xfffd, 0x1f600]
                jobs.append((list(dict.fromkeys(ws)), cs, (q, ch, gs), (not own, 1 + (ch not in ("end", 32, 34, 48, 97)))))
            elif cover and ch is not None and q == ("Kw",):
                jobs.append(((q, min(g[4] for g in gs)), [ch], (q, ch, gs), (not own, 0)))
        jobs.sort(key=lambda j: j[3])
        pend = dict(enumerate(jobs))
        t0 = time.time()
        with Pool(8) as pool:
            it = pool.imap_unordered(_probe1, [(i, j[:2]) for i, j in enumerate(jobs)], 1)
            while pend:
                try:
                    i, (out, gp) = it.next(timeout=max(1, 300 - (time.time() - t0)))
                except Exception:
                    break
                q, ch, gs = pend.pop(i)[2]
                diffs += out
                if any(x[0] == c.pid for x in out):
                    break
                for g in gs if not out else ():
                    c.unk("step", "%s %s" % (q, ch), "%s: %s" % (g[1], g[3]))
                if time.time() - t0 > 300:
                    break
            pool.terminate()
        for i in pend:
            c.unk("step", "%s %s" % pend[i][2][:2], "%s: %s" % (pend[i][2][2][0][1], pend[i][2][2][0][3]))
    if not gaps:
        diffs += extra_all(c, m, words)
    s.done()
    return diffs, m


def _probe1(x):
    return x[0], probe(x[1])


def judge(c, pid, diffs, m):
    seen = set()
    for kind, text, w in sorted(diffs, key=lambda x: (len(x[2]), x[2])):
        if kind == pid and text not in seen:
            seen.add(text)
            c.bad("reports", text, m.s.where("r_push"), "%s (for input %s)" % (text, w))


# --- whole strings, ownership, reset and status -----------------------------------------------------------------------
STRINGS = ["", "a", "1", "\"", "\\", " ", "\u00e9", "\u4e2d", "\U0001f600", "12", "\"a", "a\u00e9", "\u4e2d\"", " 1", "\\n", ", ", "x\U0001f600\"", "1 2", "\"\u00e9\"", "[,]", "  =", "nul"]


def strings(job):
    """push_str and parse_str are the pushes of their characters, in order, with or without the end."""
    root, q = job
    m = _G["m"]
    n, out = 0, []
    sp0 = m.generic(q)
    st0, aid = m.build(q, sp0)
    ws = [([Char(O(x)) for x in w], w) for w in STRINGS]
    if q in (("None",), ("S",)):
        ws += [([ch, Char(O("x"))], chr(m.s.state().facts.range(ch.v)[0]) + "x") for ch in inputs() if ch is not None]
    for cl, w in ws:
        if q == ("Kw",) and w and O(w[0]) not in ENDKW:
            continue
        try:
            st = st0.fork()
            st.trace = ()
            st.user["mode"] = "both"
            bs = [b for ch in cl for b in ch.enc()]
            buf = m.it.alloc(st, len(bs), 1, "input")
            for i, b in enumerate(bs):
                m.it.write(st, buf, i, 1, b)
            chars = cl + ([None] if root == "r_parse_str" else [])
            for o in m.s.run(root, [P(aid, 0), m.s.wide(P(buf, 0), len(bs))], st):
                if o.kind == "undecided":
                    raise Gap("%s at %s" % (o.info, o.where))
                if o.kind != "ret":
                    if sem.feasible(o.st.facts):
                        out.append(("C01", "%s: %s at %s" % (o.kind, o.info, o.where), q, w))
                    continue
                n += 1
                evs = o.st.events()
                for s2, reps, nx in m.seq_cases(o.st, sp0, chars):
                    k, text, s3, nx2 = m.judge(s2, evs, reps, nx, o.val)
                    if k:
                        if sem.feasible(s3.facts):
                            env = sem.valuation(s3.facts, 0)
                            out.append((k, text, q, "".join(chr(ch.v if ch.k is not None else env(ch.v)) for ch in cl)))
                        continue
                    d = m.fits(s3, aid, nx2)
                    if d is not True:
                        env = sem.valuation(s3.facts, 0)
                        out.append(("image", d, q, "".join(chr(ch.v if ch.k is not None else env(ch.v)) for ch in cl)))
        except Gap as e:
            out.append(("gap", str(e), q, w))
    return root, n, out


def extras(job):
    """Reset, status and owned reports from one place."""
    q = job
    m = _G["m"]
    out, n = [], 0
    sp = m.generic(q)
    st0, aid = m.build(q, sp)
    done = q == ("None",)
    for o in m.s.run("r_status", [P(aid, 0)], st0.fork()):
        n += 1
        if o.kind != "ret" or not m.s.equal(o.st, [(o.val, int(done))]):
            out.append(("C03", "status", q, "wrong status while %s" % (q,)))
    for o in m.s.run("r_reset", [P(aid, 0)], st0.fork()):
        n += 1
        if o.kind != "ret" or m.fits(o.st, aid, START) is not True:
            out.append(("C03", "reset", q, "reset keeps something of the input in %s" % (q,)))
    for ch in (None, Char(32), Char(34), Char(10), Char(44)):
        try:
            for kind, text, st, nx in m.advance(st0, aid, sp, ch, None, "r_push_own"):
                n += 1
                if kind:
                    out.append((kind, "own", q, "owned report: " + text))
        except Gap as e:
            out.append(("gap", "own", q, str(e)))
    return n, out


def extra_all(c, m, words):
    """[(kind, text, input)] confirmed on inputs."""
    diffs = []
    with Pool(8) as pool:
        a = pool.map(extras, list(words), 1)
        b = pool.map(strings, [(r_, q) for r_ in ("r_push_str", "r_parse_str") for q in words], 1)
    for n, out in a:
        for _ in range(n - len(out)):
            c.ok("reset, status, own")
        for kind, what, q, text in out:
            hit = None
            if kind != "gap":
                hit = extra_confirm(m, what, words[q])
            if hit:
                diffs.append((hit[0], hit[1], hit[2]))
            else:
                c.unk("reset, status, own", "%s %s" % (what, q), text)
    for root, n, out in b:
        for _ in range(n):
            c.ok("whole strings")
        for kind, text, q, w in out:
            hit = str_confirm(m, root, words[q], w) if kind != "gap" else None
            if hit:
                diffs.append(hit)
            else:
                c.unk("whole strings", "%s %s %r" % (root, q, w), "%s: %s" % (kind, text))
    return diffs


def str_confirm(m, root, ws, w):
    """A difference of the string calls from a concrete prefix."""
    pr = _G.setdefault("probe", Probe(m))
    for pre in sorted(set(ws), key=len)[:4]:
        try:
            r_ = pr.states(pre)
            if r_.__class__ is tuple:
                return (r_[0], r_[1], show_word(r_[2]))
            for st0, aid, sp in r_:
                st = st0.fork()
                st.trace = ()
                st.user["mode"] = None
                bs = w.encode()
                buf = m.it.alloc(st, len(bs), 1, "input")
                for i, b in enumerate(bs):
                    m.it.write(st, buf, i, 1, b)
                chars = [Char(O(x)) for x in w] + ([None] if root == "r_parse_str" else [])
                for o in m.s.run(root, [P(aid, 0), m.s.wide(P(buf, 0), len(bs))], st):
                    if o.kind == "undecided":
                        return None
                    if o.kind != "ret":
                        return ("C01", "%s in whole-string call" % o.kind, show_word(tuple(pre) + tuple(w)))
                    for s2, reps, nx in m.seq_cases(o.st, sp, chars):
                        k, text, s3, nx2 = m.judge(s2, o.st.events(), reps, nx, o.val)
                        if k:
                            return (k, "whole-string call: " + text, show_word(tuple(pre) + tuple(w)))
                        ys = [(s3, aid, nx2)]
                        for ch in suffixes(nx2)[0]:
                            ys = pr.one(ys, (ch,), None)
                            if ys.__class__ is tuple:
                                return (ys[0], "after whole-string call: " + ys[1], show_word(tuple(pre) + tuple(w) + (ch,)))
        except Gap:
            continue
    return None


def extra_confirm(m, what, ws):
    pr = _G.setdefault("probe", Probe(m))
    for w in sorted(set(ws), key=len)[:4]:
        try:
            r_ = pr.states(w)
            if r_.__class__ is tuple:
                return (r_[0], r_[1], show_word(r_[2]))
            for st, aid, sp in r_:
                if what == "status":
                    for o in m.s.run("r_status", [P(aid, 0)], st.fork()):
                        if o.kind == "ret" and isc(o.val) and o.val != int(sp.q == ("None",)):
                            return ("C03", "wrong status", show_word(w))
                elif what == "reset":
                    for o in m.s.run("r_reset", [P(aid, 0)], st.fork()):
                        if o.kind != "ret":
                            continue
                        for suf in SUFFIX["None"]:
                            y = [(o.st, aid, START)]
                            for ch in suf:
                                y = pr.one(y, (ch,), None)
                                if y.__class__ is tuple:
                                    return ("C03", "after reset: " + y[1], show_word(tuple(w) + ("(reset)",) + tuple(suf)))
                else:
                    for ch in (None, Char(32), Char(34), Char(10), Char(44)):
                        for kind, text, s2, nx in m.advance(st, aid, sp, ch, None, "r_push_own"):
                            if kind == "gap":
                                continue
                            if kind:
                                return (kind, "owned report: " + text, show_word(w))
        except Gap:
            continue
    return None


RULE = ("Product of the tokenizer's code with a transducer of RFC 8259, by induction over the input: the tokenizer is "
        "interpreted from the memory image of every place of the grammar with arbitrary texts, digits and counts, on each "
        "character and the end of input, with the callback continuing or stopping; %s")


@check("C01", RULE % "the kinds and order of all reports must be those of the transducer.")
def c01(c):
    diffs, m = tokenizer(c)
    judge(c, "C01", diffs, m)
    c.floor("step", 20000)


@check("C02", RULE % "the text, decoded characters, digits and signs of all reports must be those of the transducer.")
def c02(c):
    diffs, m = tokenizer(c)
    judge(c, "C02", diffs, m)
    c.floor("step", 20000)


@check("C03", RULE % "after a completed token and after a stop the image must be that of a new tokenizer, and a stop value must be returned.")
def c03(c):
    diffs, m = tokenizer(c)
    judge(c, "C03", diffs, m)
    c.floor("step", 20000)


STOPS = ('1 ', '1,', '-0]', '1.5e3}', '"a"', '"\\\\"', '"x\\n"', 'true,', 'null', 'false ', '[', '{', ':', ',', ' x', '\n\t[', '?', '01', '-x', '1.x', '"\\q', 'trup', '"\x01',
         '"\\ud800x"', '"\\ud800\\u0041"', '"\\udc00"', '1', '"ab', 'tru', '1.', '2e', ' ', '"\\u12')


def stops(c, rule):
    """A stop at every report of selected inputs is obeyed and its value returned."""
    m = Mach(c)
    p = Probe(m)
    for w in STOPS:
        for full in (tuple(w), tuple(w) + (END,)):
            for i in range(1, len(full) + 1):
                word = full[:i]
                n = len(spec_run(word)[0]) - len(spec_run(word[:-1])[0])
                if not n:
                    continue
                try:
                    prev = p.states(word[:-1])
                    if prev.__class__ is tuple:
                        continue
                    for j in range(n):
                        x = p.one(prev, word, j)
                        if x.__class__ is tuple and x[0] == "C03":
                            c.bad(rule, "json %s report %d" % (show_word(word), j), m.s.where("r_push"), "JSON tokenizer on %s: %s" % (show_word(word), x[1]))
                        elif x.__class__ is list:
                            c.ok(rule, "stop at report %d of %s" % (j, show_word(word)))
                except Gap as e:
                    c.unk(rule, show_word(word), str(e))
    m.s.done()
