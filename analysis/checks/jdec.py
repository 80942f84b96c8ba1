"""C42: JSON stream decoder; C43: buffered JSON tokenizer."""
import itertools

import text
import vecs
from absint import A, P
from checks.args import explore
from consts import consts
from sem import Sem, possible
from text import utf8
from terms import *
from vp import check, parallel

MODELS = dict(vecs.MODELS)
MODELS.update(text.EXACT)

KIND = dict(enumerate(["no token", "whitespace", "`:`", "`,`", "`[`", "`]`", "`{`", "`}`", "`null`", "`false`", "`true`", "a number", "a string"]))
KIND.update({20: "buffer remaining", 21: "buffer changed", 22: "non-UTF-8 item", 23: "unknown item", 24: "incomplete number", 25: "leading zero", 26: "leading plus",
             27: "multiple signs", 28: "empty number part", 29: "incomplete string", 30: "non-UTF-8 string", 31: "unescaped character", 32: "unknown escape",
             33: "invalid escape", 34: "unpaired lead surrogate", 35: "unpaired trail surrogate"})
PUNCT = {58: 2, 44: 3, 91: 4, 93: 5, 123: 6, 125: 7}
WORDS = {b"null": 8, b"false": 9, b"true": 10}
ESC = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
BAD = list("�".encode())


class Ref:
    """Tokens of a text by RFC 8259, with the documented errors: (kind, raw range, text, code, parts, only after the end)."""

    def __init__(self, bs, q):
        self.bs, self.q, self.out = bs, q, []

    def at(self, i, *cs):
        return any(self.q(eq(self.bs[i], c, 8)) for c in cs)

    def rng(self, i, lo, hi):
        return self.q(ule(lo, self.bs[i], 8)) and self.q(ule(self.bs[i], hi, 8))

    def digit(self, i):
        return self.rng(i, 48, 57)

    def hex(self, i):
        return self.digit(i) or self.rng(i, 97, 102) or self.rng(i, 65, 70)

    def value(self, i):
        """Value of a hexadecimal digit."""
        b = self.bs[i]
        if not isc(b):
            b = next(v for v in b"0123456789abcdefABCDEF" if self.q(eq(b, v, 8)))
        return int(chr(b), 16)

    def code(self, i):
        return sum(self.value(i + j) << 4 * (3 - j) for j in range(4))

    def put(self, kind, raw=None, txt=None, code=0, parts=(), late=False):
        self.out.append((kind, raw, txt, code, parts, late))

    def run(self):
        i, n = 0, len(self.bs)
        while i < n:
            j = next((k for c, k in PUNCT.items() if self.at(i, c)), None)
            if j:
                self.put(j)
                i += 1
            elif self.at(i, 32, 10, 13, 9):
                j = i + 1
                while j < n and self.at(j, 32, 10, 13, 9):
                    j += 1
                self.put(1, (i, j), self.bs[i:j], late=j == n)
                i = j
            elif self.at(i, 34):
                i = self.string(i)
            elif self.digit(i) or self.at(i, 43, 45):
                i = self.number(i)
            else:
                i = self.item(i)
        return self.out

    def item(self, i):
        n, j = len(self.bs), i + 1
        while j < n and (self.at(j, 43, 45, 46) or self.digit(j) or self.rng(j, 97, 122) or self.rng(j, 65, 90)):
            j += 1
        t = self.bs[i:j]
        for w, k in WORDS.items():
            if len(w) == len(t) and all(self.q(eq(a, b, 8)) for a, b in zip(t, w)):
                self.put(k, late=j == n)
                return j
        v = utf8(self.q, t)
        if v == len(t):
            self.put(23, (i, j), t, late=j == n)
        else:
            self.put(22, (i, j), code=v, late=j == n)
        return j

    def digits(self, i):
        while i < len(self.bs) and self.digit(i):
            i += 1
        return i

    def number(self, i):
        n, start, neg = len(self.bs), i, 0
        signs = 0
        while i < n and self.at(i, 43, 45):
            neg = int(self.at(i, 45))
            signs += 1
            if signs == 1 and not neg:
                self.put(26)
            if signs == 2:
                self.put(27)
            i += 1
        j = self.digits(i)
        parts, bad = [(0, neg, i, j)], i == j
        zero = j - i > 1 and self.at(i, 48)
        i = j
        if i < n and self.at(i, 46):
            j = self.digits(i + 1)
            parts.append((1, 0, i + 1, j))
            bad |= j == i + 1
            i = j
        if i < n and self.at(i, 101, 69):
            i += 1
            neg = signs = 0
            while i < n and self.at(i, 43, 45):
                neg = int(self.at(i, 45))
                signs += 1
                if signs > 1:
                    self.put(27)
                i += 1
            j = self.digits(i)
            parts.append((2, neg, i, j))
            bad |= j == i
            i = j
        if bad:
            self.put(28, late=i == n)
        elif zero:
            self.put(25, late=i == n)
        self.put(11, (start, i), parts=tuple(parts), late=i == n)
        return i

    def string(self, i):
        n, start, out = len(self.bs), i, []
        lead = None
        i += 1
        while i < n:
            if self.at(i, 34):
                v = utf8(self.q, out)
                if v == len(out):
                    self.put(12, (start, i + 1), out)
                else:
                    self.put(30, (start, i + 1), out, code=v)
                return i + 1
            if self.at(i, 92):
                if i + 1 == n:
                    break
                e = next((v for k, v in ESC.items() if self.at(i + 1, k)), None)
                if e is not None:
                    out.append(e)
                    i += 2
                elif self.at(i + 1, 117):
                    i = self.unicode(i, out)
                    if i is None:
                        break
                else:
                    self.put(32, code=zext(self.bs[i + 1], 8, 32))
                    out.append(self.bs[i + 1])
                    i += 2
                continue
            if self.rng(i, 0, 31):
                self.put(31, code=zext(self.bs[i], 8, 32))
            out.append(self.bs[i])
            i += 1
        self.put(29, late=True)
        return n

    def unicode(self, i, out):
        """An escape at `i`: the end, or None if the text ends before."""
        n = len(self.bs)
        for k in range(4):
            if i + 2 + k >= n:
                return None
            if not self.hex(i + 2 + k):
                self.put(33)
                out += BAD
                return i + 2 + k
        c = self.code(i + 2)
        i += 6
        if 0xdc00 <= c <= 0xdfff:
            self.put(35, code=c)
            out += BAD
            return i
        while 0xd800 <= c <= 0xdbff:
            for k in range(6):
                if i + k >= n:
                    return None
                if not (self.at(i, 92) if k == 0 else self.at(i + 1, 117) if k == 1 else self.hex(i + k)):
                    self.put(34, code=c)
                    out += BAD
                    return i
            d = self.code(i + 2)
            i += 6
            if 0xdc00 <= d <= 0xdfff:
                c = 0x10000 + (c - 0xd800 << 10) + d - 0xdc00
                break
            self.put(34, code=c)
            out += BAD
            c = d
        out += list(chr(c).encode())
        return i


class Json:
    def __init__(self, c, cfg, rule):
        self.c, self.cfg, self.rule = c, cfg, rule
        self.s = Sem(c, cfg, "jdec", models=MODELS, drops=True, loop_bound=20000,
                     foreign={"x_smap": self.x_smap, "x_sadv": self.x_sadv, "x_more": self.x_more, "x_tok": self.x_tok, "x_part": self.x_part})
        self.s.it.check_align = True
        self.s.it.max_states = 40000
        self.s.it.max_steps = 8000000
        self.ps = self.s.p.ps

    # --- the stream --------------------------------------------------------
    def x_smap(self, it, st, a, rty):
        n, lim, mx = it.as_int(st, a[0]), it.as_int(st, a[1]), it.as_int(st, a[2])
        u = st.user
        have = u["avail"] - u["pos"]
        if not isc(n) or not isc(lim) or not isc(mx):
            raise ValueError("unknown request")
        if lim and mx < n:
            st.emit("fault", "asks the stream for at least %d but at most %d bytes" % (n, mx))
        if n > have:
            return 0
        out = it.to_ptr(st, a[3])
        it.store(st, out.aid, out.off, P(u["buf"], 0), self.ps)
        it.store(st, out.aid, out.off + self.ps, n if u["tight"] else have, self.ps)
        return 1

    def x_sadv(self, it, st, a, rty):
        n, u = it.as_int(st, a[0]), st.user
        if not isc(n):
            raise ValueError("unknown length")
        if u["pos"] + n > u["avail"]:
            st.emit("fault", "advances the stream by %d bytes, of which only %d are there" % (n, u["avail"] - u["pos"]))
        u["pos"] += n
        self.place(it, st)
        return A((), 0)

    def x_more(self, it, st, a, rty):
        st.emit("more", *[it.as_int(st, x) for x in a])
        return A((), 0)

    def txt(self, it, st, p, n):
        n = it.as_int(st, n)
        if n == 0:
            return []
        p = it.to_ptr(st, p)
        return [it.as_int(st, it.read(st, p.aid, p.off + i, 1)) for i in range(n)]

    def x_tok(self, it, st, a, rty):
        st.emit("tok", it.as_int(st, a[0]), self.txt(it, st, a[1], a[2]), self.txt(it, st, a[3], a[4]), it.as_int(st, a[5]))
        return A((), 0)

    def x_part(self, it, st, a, rty):
        st.emit("part", it.as_int(st, a[0]), it.as_int(st, a[1]), self.txt(it, st, a[2], a[3]))
        return A((), 0)

    def place(self, it, st):
        """The buffered bytes, moved to a new place whenever the buffer changes."""
        u = st.user
        st.mem.pop(u.get("buf"), None)
        n = max(u["avail"] - u["pos"], 0)
        u["buf"] = it.alloc(st, n, 1, "buffer")
        for i in range(n):
            it.store(st, u["buf"], i, u["bytes"][u["pos"] + i], 1)

    # --- helpers -------------------------------------------------------------
    def start(self, root, bs, avail, tight):
        s = self.s
        st = s.state()
        ty = s.sig(root)[0][0]
        ty = s.p.types[ty]["to"] if "to" in s.p.types[ty] else ty
        d = s.it.alloc(st, s.p.size(ty), s.p.align(ty), "decoder")
        st.user.update(bytes=bs, pos=0, avail=avail, tight=tight)
        self.place(s.it, st)
        z = P(s.it.alloc(st, 0, 1, "zst"), 0)
        return d, s.rets(self.rule, root, [P(d, 0), z], st)

    def bad(self, root, st, what):
        f = possible(st.facts)
        if f:
            self.c.bad(self.rule, "%s [%s]: %s" % (root, self.cfg, what), self.s.where(root), what)
        elif f is None:
            self.c.unk(self.rule, self.s.key(root), what + " on a path without sample valuation")
        return False

    broken = bad

    def show(self, st, bs):
        s = ""
        for x in bs[:60]:
            if not isc(x):
                lo, hi = st.facts.range(x)
                x = lo if lo == hi else None
            s += "?" if x is None else chr(x) if 32 <= x < 127 else "\\x%02x" % x
        return "`%s`%s" % (s, " ... (%d bytes)" % len(bs) if len(bs) > 60 else "")

    def new(self, st, k):
        """What was emitted after the first k events."""
        return st.events()[k:]

    # --- tokenizer -------------------------------------------------------------
    def tokens(self, t, fill, tight):
        """All tokens of a text that arrives in the given portions."""
        s = self.s
        bs = [var("b%d" % i, 8, 0, 255) if ch == "?" else var("b%d" % i, 8, *ch) if ch.__class__ is tuple else ord(ch) for i, ch in enumerate(t)]
        n = len(bs)
        d, outs = self.start("r_tdec", bs, n if fill is None else 0, tight)
        work = [(o.st, False, 0) for o in outs]
        while work:
            st, end, calls = work.pop()
            if calls > 4 * n + 8:
                explore(st, lambda x: self.broken("r_tpop", x, "%s: does not come to an end" % self.show(x, bs)))
                continue
            k = len(st.events())
            for o in s.rets(self.rule, "r_tend" if end else "r_tpop", [P(d, 0)], st):
                y = o.st
                ev = self.new(y, k)
                fault = next((e[1] for e in ev if e[0] == "fault"), None)
                if fault:
                    self.broken("r_tpop", y, "%s: %s" % (self.show(y, bs), fault))
                    continue
                if o.val == 1:
                    work.append((y, end, calls + 1))
                elif end:
                    explore(y, lambda x: self.judge(x, bs, fill, tight, d))
                else:
                    _, mn, lim, mx = next(e for e in ev if e[0] == "more")
                    u = y.user
                    if not isc(mn) or mn <= u["avail"] - u["pos"] or lim and mx < mn:
                        self.broken("r_tpop", y, "%s: asks for %s bytes while %d are there" % (self.show(y, bs), mn, u["avail"] - u["pos"]))
                        continue
                    if u["avail"] == n:
                        y.emit("end")
                        work.append((y, True, calls + 1))
                    else:
                        u["avail"] = min(n, max(u["avail"] + fill, u["pos"] + (mn if fill == 0 else 0)))
                        self.place(s.it, y)
                        work.append((y, False, calls + 1))

    def eq(self, st, a, b):
        return len(a) == len(b) and all(x is y or isc(x) and isc(y) and x == y or st.decide(eq(x, y, 8)) is True for x, y in zip(a, b))

    def judge(self, st, bs, fill, tight, d):
        c = self.c
        want = Ref(bs, st.truth).run()
        desc = "%s%s%s" % (self.show(st, bs), "" if fill is None else ", arriving in portions of %d" % fill if fill else ", arriving as requested", ", mapped tightly" if tight else "")
        got, late = [], False
        for e in st.events():
            if e[0] == "end":
                late = True
            elif e[0] == "tok":
                got.append(list(e[1:]) + [[], late])
            elif e[0] == "part":
                got[-1][4].append(e[1:])
        for i in range(max(len(got), len(want))):
            if i >= len(got):
                return self.bad("r_tpop", st, "%s: misses %s" % (desc, KIND[want[i][0]]))
            kind, raw, txt, code, parts, late = got[i]
            if i >= len(want):
                return self.bad("r_tpop", st, "%s: yields another %s at the end" % (desc, KIND.get(kind, kind)))
            wk, wr, wt, wc, wp, wl = want[i]
            if kind != wk:
                return self.bad("r_tpop", st, "%s: token %d is %s, expected %s" % (desc, i + 1, KIND.get(kind, kind), KIND[wk]))
            if wr and not self.eq(st, raw, bs[wr[0]:wr[1]]):
                return self.bad("r_tpop", st, "%s: raw data of token %d (%s) is not the data of the text" % (desc, i + 1, KIND[kind]))
            if wt is not None and not self.eq(st, txt, wt):
                return self.bad("r_tpop", st, "%s: content of token %d (%s) is %s, expected %s" % (desc, i + 1, KIND[kind], self.show(st, txt), self.show(st, wt)))
            if code is not wc and not (isc(code) and isc(wc) and code == wc) and st.decide(eq(code, wc, 32)) is not True:
                return self.bad("r_tpop", st, "%s: token %d (%s) has code %s, expected %s" % (desc, i + 1, KIND[kind], show(code), show(wc)))
            if kind == 11:
                ok = len(parts) == len(wp) and all(p[0] == w[0] and p[1] == w[1] and self.eq(st, p[2], bs[w[2]:w[3]]) for p, w in zip(parts, wp))
                if not ok:
                    return self.bad("r_tpop", st, "%s: parts of the number are %s, expected %s" % (
                        desc, [(p[0], p[1], self.show(st, p[2])) for p in parts], [(w[0], w[1], self.show(st, bs[w[2]:w[3]])) for w in wp]))
            if late and not wl:
                return self.bad("r_tpop", st, "%s: token %d (%s) is held back to the end" % (desc, i + 1, KIND[kind]))
            if wl and not late:
                return self.bad("r_tpop", st, "%s: token %d (%s) is yielded although it may continue" % (desc, i + 1, KIND[kind]))
        if st.user["pos"] != len(bs):
            return self.bad("r_tend", st, "%s: %d bytes were consumed at the end" % (desc, st.user["pos"]))
        c.ok(self.rule, 1)

    # --- stream decoder --------------------------------------------------------
    def feed(self, st, d, t):
        """Append text and pop all items it yields."""
        s = self.s
        y = st.fork()
        u = y.user
        u["bytes"] = u["bytes"] + [ord(ch) for ch in t]
        u["avail"] += len(t)
        self.place(s.it, y)
        items = []
        for _ in range(4 * len(t) + 4):
            outs = s.rets(self.rule, "r_spop", [P(d, 0)], y)
            if len(outs) != 1:
                return None, y
            y = outs[0].st
            if any(e[0] == "fault" for e in y.events()):
                self.bad("r_spop", y, next(e[1] for e in y.events() if e[0] == "fault"))
                return None, y
            v = outs[0].val
            if v == 0:
                y.trace = ()
                y.steps = 0
                return items, y
            items.append(v)
        self.bad("r_spop", y, "does not come to an end")
        return None, y


# --- texts -------------------------------------------------------------------
TOK = [" ", "\n\t", ":", ",", "[", "]", "{", "}", "null", "false", "true", "nul", "nullx", "-1", "0", "01", "1.5", "-0.5e-3", "2E+10", "+1", "--2", "-", "1.", "1e", "1e+-2",
       '""', '"a"', '"\\n"', '"\\u00e9x"', '"\\ud83d\\ude00"', '"\\ud800"', '"\\q"', '"\\u12"', '"\x01"', '"\xff"', "\xff", ".5", "x"]
SMALL = ["?", "??", "-?", "1?", "1.?", "0?", "1e?", "1e+?", "?1", "t?", '"?"', '"\\?"']
ANY = ["???", "-??", "1.??", "1e??", "0??", "+??", "1?2?3", "nul?", "?ull", "n?ll?", "tru?", "?alse", "fals??", '"??"', '"\\??"', '"\\?\\?"', '"a?\\n?b"', '"\\u#000"', '"\\u00#9"', '"\\u12#"', '"\\ud#00"',
       '"\\ud83d?ude00"', '"\\ud83d\\?de00"', '"\\ud83d\\u#e00"', '"\\ud83d\\ud#00"', '"\\ud83d\\ude0#"', '"\\udbff\\udff#"', '"\\ud83d\\ud83d\\ude00"', '"\\ud83d\\ud83d?"', '"\\ud800\\ud801\\ud802"',
       '"\\udc00\\ud800\\u0041"', '"a\\ud800\\u0041b"', '"\\ud800\\n"', '"\\ud800\\u12"', '"\\ud800\\', '"\\ud800\\u1', '"\\u1', '"\\', '"', '"abc', '"\xc3\xa9?"', '"\xf0\x9f\x98?"', '"?\x80"',
       '"\\\xc3\xa9"', '"\xc3\\n"', '"\xc3\\u0041\xa9"', '"a\x00?"', '"\\n\x1f?"', "[?,?]", '{"?":?}', "\xc3\xa9?", "?\xa9", "12?", "1.5?", "1.5e?3", "--?", "-+-?1", "1e-+?", "1.e?", "-.?", "1..2", "1e5.2", "1e5e3",
       "1-2", "1.2-3", "1e2-3", "00", "-00.1", "0.0", "1 ?", " ? ", "\t\r\n ?", "null,true:false", "nulltrue", "true-", "a.b+c", '"a""b"', '"\\n""b"', '"\\u0041" "x?"', '"\\ud800""\\udc00"', '"\xff" "ok"']


def expand(t):
    """`#` is a hexadecimal digit or not."""
    alts = [list("0123456789abcdefABCDEF") + [(0, 47), (58, 64), (71, 96), (103, 255)] if ch == "#" else [ch] for ch in t]
    return itertools.product(*alts)


def texts():
    for t in SMALL:
        yield t, 1
    for t in ANY:
        for x in expand(t):
            yield x, 0
    for a, b in itertools.product(TOK, TOK):
        yield a + b, 2


def modes(t, kind, cfg):
    if kind == 1:
        return [(None, False), (None, True), (1, False), (1, True), (3, False), (0, True)]
    if kind == 0:
        if t == ("?",) * 3:
            return [(1, True)] if cfg == "host" else []
        if cfg != "host":
            return [(2, False)]
        return [(None, False), (1, True), (2, False)]
    return [(1, False)]


def long(c, p):
    """Texts longer than the limits the library uses."""
    ns = sorted({n for n in consts(p, ("osi", "tmp"), 1 << 13) if 32 <= n <= 5000} | {300})
    out = []
    for n in ns:
        out += ['"%s" 1' % ("a" * n), '"\\n%s" "b\\t" "c" ' % ("a" * (n + 1)), "[" + " " * n + "]", "1" * n + ",", "1." + "0" * n + "e" + "1" * n + " ", "x" * n + ":"]
    return out


def job_tokens(c, cfg, i, k):
    j = Json(c, cfg, "tokens")
    n = 0
    for t, kind in texts():
        for fill, tight in modes(t, kind, cfg):
            n += 1
            if n % k == i:
                j.tokens(t, fill, tight)
    for t in long(c, j.s.p):
        for fill, tight in ((None, False), (700, False)):
            n += 1
            if n % k == i:
                j.tokens(t, fill, tight)
    j.s.done()


@check("C43", "Abstract interpretation of the tokenizer over texts with unknown bytes, which arrive at once, byte by byte, in portions and exactly as requested, in a buffer that "
              "moves whenever it changes; every token, its raw data, content and parts are compared with RFC 8259 and the documented errors.")
def c43(c):
    jobs = []
    for cfg, k in (("host", 24), ("i686", 8)):
        for i in range(k):
            jobs.append(lambda c, cfg=cfg, i=i, k=k: job_tokens(c, cfg, i, k))
    parallel(c, jobs)
    c.floor("tokens", 10000)


# --- grammar -------------------------------------------------------------------
ITEM = ["more data needed", "an error", "a value", "a key", "`[`", "`]`", "`{`", "`}`"]
VALUES = ["1", "null", "true", "false", "-0.5e1"]
# Texts of single tokens, and of tokens preceded by an error.
ALPHABET = [":", ",", "[", "]", "{", "}", '"a"', '"\\u0041"'] + VALUES
ERRORS = ["x", "nul", "\xff", '"\xff"']
TWICE = ["01", "1.", '"\\q"', '"\x01"']
LIVE = [":", ",", "[", "]", "{", "}", '"a"', "1"]


def step(place, stack, t):
    """Items of a token, and the place after it; a token that is not allowed leaves the place alone."""
    err = ([1], place, stack)
    value = place in ("root", "[", "[,", "{:")
    after = {"root": "done", "[": "[v", "[,": "[v", "{:": "{v"}.get(place)
    if t in ERRORS:
        return err
    if t in TWICE:
        v = step(place, stack, '"a"' if t[0] == '"' else "1")
        return [1] + v[0], v[1], v[2]
    if t[0] == '"':
        if place in ("{", "{,"):
            return [3], "{k", stack
        return ([2], after, stack) if value else err
    if t in VALUES:
        return ([2], after, stack) if value else err
    if t in "[{":
        return ([4 if t == "[" else 6], t, stack + (after,)) if value else err
    if t in "]}":
        o = "[" if t == "]" else "{"
        if place in (o, o + "v"):
            return [5 if t == "]" else 7], stack[-1], stack[:-1]
        return err
    if t == ",":
        return ([], place[0] + ",", stack) if place in ("[v", "{v") else err
    return ([], "{:", stack) if place == "{k" else err


def first(depth):
    """The first word that leads to each place."""
    out, level = {}, [((), "root", ())]
    for _ in range(depth):
        for w, p, s in level:
            out.setdefault((p, s[-2:]), w)
        level = [(w + (t,), p2, s2) for w, p, s in level for t in LIVE for i, p2, s2 in [step(p, s, t)] if 1 not in i]
    return out


FIRST = first(6)


class Stream(Json):
    def __init__(self, c, cfg):
        Json.__init__(self, c, cfg, "grammar")

    def begin(self):
        d, outs = self.start("r_sdec", [], 0, False)
        return d, outs[0].st

    def take(self, st, d, word, place, stack, t, sep=" "):
        """One more token: the state after it if the items are as expected."""
        want, place, stack = step(place, stack, t)
        got, y = self.feed(st, d, t + sep)
        if got is None:
            return None
        desc = "".join(w + " " for w in word[-30:]) + t
        if len(word) > 30:
            desc = "... " + desc
        if got != want:
            f = lambda l: " and ".join(ITEM[v] if isc(v) and v < 8 else str(v) for v in l) or "nothing"
            self.bad("r_spop", y, "`%s`: the last token yields %s, expected %s" % (desc, f(got), f(want)))
            return None
        self.c.ok(self.rule, 1)
        return y, place, stack

    def probe(self, st, d, word, place, stack):
        """Every token, allowed or not; after one that is not allowed, every token again."""
        for t in ALPHABET + ERRORS + TWICE:
            r = self.take(st, d, word, place, stack, t)
            if r is None or (1 in step(place, stack, t)[0]) is False:
                continue
            if FIRST.get((place, stack[-2:])) == word:
                for u in ALPHABET + ERRORS[:1] + TWICE[:1]:
                    self.take(r[0], d, word + (t,), r[1], r[2], u)

    def walk(self, st, d, word, place, stack, depth, pick):
        if pick and len(word) == 3 and not pick(word):
            return
        if not pick or len(word) >= 3 or pick(word):
            self.probe(st, d, word, place, stack)
        if depth:
            for t in LIVE:
                if 1 not in step(place, stack, t)[0]:
                    r = self.take(st, d, word, place, stack, t)
                    if r:
                        self.walk(r[0], d, word + (t,), r[1], r[2], depth - 1, pick)

    def nest(self, kinds, probe=True):
        """Containers in containers: opened, probed inside, and closed again."""
        d, st = self.begin()
        word, place, stack = (), "root", ()
        def go(t):
            nonlocal st, word, place, stack
            r = self.take(st, d, word, place, stack, t, "" if t in "[]{},:" else " ")
            if not r:
                return False
            st, place, stack = r
            word += (t,)
            return True
        for i, k in enumerate(kinds):
            pre = []
            if i and kinds[i - 1] == "{":
                pre = ['"a"', ":"]
            elif i % 3 == 2:
                pre = ["null", ","]
            if not all(go(t) for t in pre + [k]):
                return
        for k in reversed(kinds):
            if probe:
                self.probe(st, d, word, place, stack)
            if not go("]" if k == "[" else "}"):
                return
        if probe:
            self.probe(st, d, word, place, stack)
        if place != "done":
            raise ValueError("nesting")


def job_stream(c, cfg, i, k, depth):
    j = Stream(c, cfg)
    d, st = j.begin()
    j.walk(st, d, (), "root", (), depth, lambda w: hash_(w) % k == i)
    n = 0
    for m in range(1, 7):
        for kinds in itertools.product("[{", repeat=m):
            n += 1
            if n % k == i:
                j.nest(kinds, cfg == "host" or m < 5)
    # A nesting passes through all smaller depths.
    for m in (max([x for x in consts(j.s.p, ("osi", "tmp"), 600)] + [128]) + 2,):
        for kinds in ("[" * m, "{" * m, "[{" * (m // 2), "[{{" * (m // 3)):
            n += 1
            if n % k == i:
                j.nest(kinds, False)
    j.s.done()


def hash_(w):
    return sum((7 * i + 3) * (LIVE.index(t) + 1) for i, t in enumerate(w))


@check("C42", "Abstract interpretation of the stream decoder over all token sequences up to a length, all nestings up to a depth and deep nestings; at every place every token is "
              "tried, and after a token that is not allowed every token again; the items are compared with a pushdown automaton of the JSON grammar.")
def c42(c):
    jobs = []
    for cfg, k, depth in (("host", 16, 6), ("i686", 8, 4)):
        for i in range(k):
            jobs.append(lambda c, cfg=cfg, i=i, k=k, depth=depth: job_stream(c, cfg, i, k, depth))
    parallel(c, jobs)
    c.floor("grammar", 10000)
