"""C21: symbols; C22: natural comparison; C23: text only after validation."""
import itertools

import text
import vecs
from absint import A, P
from checks.args import FLAG_ARGS, PARAMS, PARSE, Cli, cases, enc, explore
from checks.jdec import Json
from consts import consts
from sem import Sem, possible
from text import utf8
from terms import *
from vp import check, parallel

# The tables of character classes are read as they are.
MODELS = {k: v for k, v in vecs.MODELS.items() if not k.startswith("core::unicode::")}
MODELS.update(text.EXACT)


class Strs:
    def __init__(self, c, cfg, rule, group="strs"):
        self.c, self.cfg, self.rule = c, cfg, rule
        self.s = Sem(c, cfg, group, models=MODELS, drops=True, foreign={"x_out": self.x_out}, loop_bound=2000)
        self.s.it.max_states = 40000
        self.s.it.max_steps = 8000000
        self.ties = range(len(TIES))

    def x_out(self, it, st, a, rty):
        n = it.as_int(st, a[2])
        p = it.to_ptr(st, a[1]) if n != 0 else None
        st.emit("out", p, n, [it.as_int(st, it.read(st, p.aid, p.off + i, 1)) for i in range(n)] if p else [])
        return A((), 0)

    def bad(self, root, st, what):
        f = possible(st.facts)
        if f:
            self.c.bad(self.rule, "%s [%s]: %s" % (root, self.cfg, what), self.s.where(root), what)
        elif f is None:
            self.c.unk(self.rule, self.s.key(root), what + " on a path without sample valuation")
        return False

    def template(self, t, tag="b"):
        """`~` is any ASCII character, `#` any digit, a range of bytes an unknown byte."""
        out = []
        for i, ch in enumerate(t):
            name = "%s%d" % (tag, i)
            if isinstance(ch, int):
                out.append(ch)
            elif ch == "~":
                out.append(var(name, 8, 0, 127))
            elif ch == "#":
                out.append(var(name, 8, 48, 57))
            elif ch == "?":
                out.append(var(name, 8, 0, 255))
            else:
                out += list(ch.encode())
        return out

    def text(self, st, bs):
        a = self.s.it.alloc(st, len(bs), 1, "text")
        for i, x in enumerate(bs):
            self.s.it.store(st, a, i, x, 1)
        return self.s.wide(P(a, 0), len(bs))

    def show(self, st, bs):
        s = ""
        for x in bs[:60]:
            if not isc(x):
                lo, hi = st.facts.range(x)
                x = lo if lo == hi else None
            s += "?" if x is None else chr(x) if 32 <= x < 127 else "\\x%02x" % x
        return "`%s`" % s

    def eq(self, st, a, b):
        return len(a) == len(b) and all(x is y or isc(x) and isc(y) and x == y or st.decide(eq(x, y, 8)) is True for x, y in zip(a, b))

    # --- symbols ---------------------------------------------------------------
    def symbol(self, word):
        s = self.s
        bs, chars = [], []
        for i, ch in enumerate(word):
            b = self.template(ch, "c%d." % i)
            chars.append((ch, b))
            bs += b
        st = s.state()
        for o in s.rets(self.rule, "r_symbol", [self.text(st, bs)], st):
            explore(o.st, lambda x: self.judge_symbol(x, bs, chars))

    def judge_symbol(self, st, bs, chars):
        q = st.truth
        rng = lambda b, lo, hi: q(ule(lo, b, 8)) and q(ule(b, hi, 8))
        out, num = [], True
        for i, (ch, b) in enumerate(chars):
            if ch == "~" or len(b) == 1:
                digit = rng(b[0], 48, 57)
                alnum = digit or rng(b[0], 65, 90) or rng(b[0], 97, 122)
            else:
                alpha, digit = CHARS[ch]
                alnum = alpha or digit
            if i == 0:
                num = digit
            out += b if alnum else [95]
        if num:
            out = [95] + out
        ev = [e for e in st.events() if e[0] == "out"]
        if not self.eq(st, ev[0][3], out):
            return self.bad("r_symbol", st, "%s becomes %s, expected %s" % (self.show(st, bs), self.show(st, ev[0][3]), self.show(st, out)))
        self.c.ok(self.rule, 1)

    # --- natural order -----------------------------------------------------------
    def compare(self, l, r):
        s = self.s
        lb, rb = self.template(l, "l"), self.template(r, "r")
        st = s.state()
        for o in s.rets(self.rule, "r_cmp", [self.text(st, lb), self.text(st, rb)], st):
            explore(o.st, lambda x: self.judge_compare(x, lb, rb, o.val))

    def judge_compare(self, st, lb, rb, got):
        wants = [natural(lb, rb, st.truth, tie) for tie in TIES]
        want = wants[0]
        got = self.s.it.as_int(st, got)
        if not isc(got):
            return self.c.unk(self.rule, "r_cmp", "result %s" % show(got))
        # One order of digits of the same value has to explain every result.
        left = [i for i in self.ties if (got & 255) == (wants[i] & 255)]
        if left and possible(st.facts):
            self.ties = left
        if not left:
            return self.bad("r_cmp", st, "%s is %s %s, expected %s" % (
                self.show(st, lb), {0: "equal to", 1: "greater than", 255: "less than"}.get(got & 255, got), self.show(st, rb), {0: "equal", 1: "greater", 255: "less"}[want & 255]))
        self.c.ok(self.rule, 1)


# Characters of every class: (alphabetic, numeric).
CHARS = {"é": (1, 0), "É": (1, 0), "ª": (1, 0), "ǅ": (1, 0), "ß": (1, 0), "中": (1, 0), "ก": (1, 0), "𐍈": (1, 0), "²": (0, 1), "½": (0, 1), "٣": (0, 1), "𝟙": (0, 1), "①": (0, 1),
         "Ⅷ": (1, 1), "—": (0, 0), "\xa0": (0, 0), "́": (0, 0), "‍": (0, 0), "﻿": (0, 0), "￿": (0, 0), "😀": (0, 0), "\U0010ffff": (0, 0), "€": (0, 0),
         "\x80": (0, 0), "‿": (0, 0), "·": (0, 0)}


def symbols():
    chars = ["~"] + list(CHARS)
    yield ()
    for n in (1, 2):
        yield from itertools.product(chars, repeat=n)
    yield from itertools.product(["~", "é", "²", "Ⅷ", "😀", "_"], repeat=3)
    yield ("~",) * 4
    for n in (15, 40, 63, 64, 65, 127, 255, 256, 300):
        yield ("a",) * n + ("~", "é")
        yield ("~",) + ("-",) * n


def job_symbols(c, cfg, i, k):
    j = Strs(c, cfg, "symbols")
    for n, w in enumerate(symbols()):
        if n % k == i:
            j.symbol(w)
    j.s.done()


@check("C21", "Abstract interpretation of the conversion over texts of unknown ASCII characters and one character of every class and encoded length; the result is compared with "
              "the text whose other characters are replaced, after an underscore if it is empty or starts with a number.")
def c21(c):
    jobs = [lambda c, cfg=cfg, i=i, k=k: job_symbols(c, cfg, i, k) for cfg, k in (("host", 8), ("i686", 4)) for i in range(k)]
    parallel(c, jobs)
    c.floor("symbols", 1000)


def runs(bs, q):
    """Pairs of other characters and digits."""
    out, i = [], 0
    digit = lambda b: q(ule(48, b, 8)) and q(ule(b, 57, 8))
    while i < len(bs):
        j = i
        while j < len(bs) and not digit(bs[j]):
            j += 1
        k = j
        while k < len(bs) and digit(bs[k]):
            k += 1
        out.append((bs[i:j], bs[j:k]))
        i = k
    return out


def lex(a, b, q):
    for x, y in zip(a, b):
        if x is y:
            continue
        if q(ult(x, y, 8)):
            return -1
        if q(ult(y, x, 8)):
            return 1
    return (len(a) > len(b)) - (len(a) < len(b))


# Orders of different digits of the same value, whose lengths differ: as text, shorter or longer ones first, at once or after everything else.
TIES = [(sign, late) for late in (False, True) for sign in (0, 1, -1)]


def natural(l, r, q, tie):
    """The pairs compared one after another: as text, by value, then by digits. A lexicographic order of total orders is total."""
    sign, late = tie
    last = 0
    for (lt, ln), (rt, rn) in itertools.zip_longest(runs(l, q), runs(r, q), fillvalue=([], [])):
        v = lex(lt, rt, q)
        if v:
            return v
        strip = lambda d: d[next((i for i, b in enumerate(d) if not q(eq(b, 48, 8))), len(d)):]
        lv, rv = strip(ln), strip(rn)
        v = (len(lv) > len(rv)) - (len(lv) < len(rv)) or lex(lv, rv, q)
        if v:
            return v
        v = (sign or (-1 if lv else 1)) * ((len(ln) > len(rn)) - (len(ln) < len(rn)))
        if v and not late:
            return v
        last = last or v
    return last


def orders(p):
    for a, b in itertools.product(["", "~", "~~"], repeat=2):
        yield a, b
    yield from (("~~~", "~"), ("~", "~~~"), ("~~~", "~~"), ("~~", "~~~"), ("~#~", "~#~"), ("~##", "~#"), ("~#", "~##"))
    d = ["", "#", "##", "###", "0#", "00#", "0", "00", "#0"]
    for a, b in itertools.product(d, repeat=2):
        yield a, b
        yield "x" + a, "x" + b
        yield a + "y", b + "y"
    for a, b in itertools.product(["", "a", "#", "a#", "#a", "é#", "é", "€#b", "a#é#", "#a#", "~"], repeat=2):
        yield a, b
    # Numbers that do not fit into any machine integer, and ones that just do.
    big = ["18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "4294967296", "65536", "9" * 60]
    for x in big:
        yield "a" + x[:-1] + "#", "a" + x
        yield "a" + x, "a0" + x[:-1] + "#"
        yield "#" + x, x + "#"
        yield "a" + x + "b", "a" + x + "#"
        yield "a" + "0" * 40 + "#", "a" + x
        yield x + "a#", "0" + x + "a#"
    for n in sorted({m for m in consts(p, ("osi",), 300) if m > 2}):
        yield "a" * n + "#", "a" * n + "##"
        yield "1" * n + "#", "1" * n
        yield "0" * n + "#", "#"
    # Characters that are numbers but no digits, and many pairs.
    for x in ("²", "½", "٣", "𝟙", "①", "Ⅷ", "é", "日", "😀", "\xa0", "\u0301"):
        for a, b in ((x, x), (x, "#"), ("#", x), ("a" + x, "a#"), ("#" + x, "#"), ("#" + x, "##"), (x + "#", x + "##"), ("1" + x + "#", "1" + x + "#"), (x + "~", x + "1")):
            yield a, b
    for n in (2, 7, 8, 9, 15, 16, 17, 31, 33, 65, 101):
        yield "a1" * n + "#", "a1" * n + "##"
        yield "a1" * n + "~", "a1" * n + "#"
        yield "a1" * n + "b#", "a1" * n + "b0#"


def job_orders(c, cfg, i, k):
    j = Strs(c, cfg, "natural order")
    for n, (a, b) in enumerate(orders(j.s.p)):
        if n % k == i:
            j.compare(a, b)
    j.s.done()


@check("C22", "Abstract interpretation of the comparison over pairs of texts of unknown characters and digits, numbers beyond all machine integers included; the result is "
              "compared with a lexicographic composition of total orders on the pairs of other characters and digits, which is a total order.")
def c22(c):
    jobs = [lambda c, cfg=cfg, i=i, k=k: job_orders(c, cfg, i, k) for cfg, k in (("host", 16), ("i686", 8)) for i in range(k)]
    parallel(c, jobs)
    c.floor("natural order", 3000)


# --- text --------------------------------------------------------------------
class Text(Strs):
    def convert(self, root, t):
        """A conversion of bytes: succeeds exactly if they are valid, and yields them unchanged."""
        s = self.s
        bs = self.template(t)
        st = s.state()
        data = bs
        if root == "r_dv_string":
            data = [len(bs), 0, 0, 0] + bs + [0]
        elif root == "r_dv_signature":
            data = [len(bs)] + bs + [0]
        arg = self.text(st, data)
        for o in s.rets(self.rule, root, [arg], st):
            explore(o.st, lambda x: self.judge(root, x, bs, arg.get(0), o.val))

    def judge(self, root, st, bs, p, got):
        valid = utf8(st.truth, bs)
        ok = valid == len(bs)
        out = [e for e in st.events() if e[0] == "out"]
        desc = self.show(st, bs)
        if root in ("r_os_from", "r_some"):
            want = [bs] * (2 if root == "r_os_from" else int(bool(bs)))
            if len(out) != len(want) or not all(self.eq(st, a[3], b) for a, b in zip(out, want)):
                return self.bad(root, st, "%s: text is changed" % desc)
            self.c.ok(self.rule, 1)
            return
        if root == "r_os_lossy":
            if not isc(got) or not out:
                return self.bad(root, st, "%s: no result" % desc)
            if utf8(st.truth, out[0][3]) != len(out[0][3]):
                return self.bad(root, st, "%s: yields text that is not valid" % desc)
            if ok and not self.eq(st, out[0][3], bs):
                return self.bad(root, st, "%s: valid text is changed to %s" % (desc, self.show(st, out[0][3])))
            if not ok and not self.eq(st, out[0][3], lossy(bs, st.truth)):
                return self.bad(root, st, "%s: yields %s, expected %s" % (desc, self.show(st, out[0][3]), self.show(st, lossy(bs, st.truth))))
            self.c.ok(self.rule, 1)
            return
        if not isc(got):
            return self.c.unk(self.rule, root, "result %s" % show(got))
        if (got == 0) != ok:
            return self.bad(root, st, "%s is %s as text" % (desc, "accepted" if got == 0 else "refused"))
        if got and got != (1 if root.startswith("r_dv") else 1 + valid):
            return self.bad(root, st, "%s: reports that %s bytes are valid, not %d" % (desc, got - 1, valid))
        if ok and (not out or not self.eq(st, out[0][3], bs)):
            return self.bad(root, st, "%s: text is changed" % desc)
        self.c.ok(self.rule, 1)


def lossy(bs, q):
    """Maximal invalid parts replaced, as the standard library documents it."""
    out, i = [], 0
    while i < len(bs):
        v = utf8(q, bs[i:])
        out += bs[i:i + v]
        i += v
        if i < len(bs):
            out += [0xef, 0xbf, 0xbd]
            # The longest prefix of a character.
            n = 1
            for k in range(2, 4):
                if i + k <= len(bs) and prefix(bs[i:i + k], q):
                    n = k
            i += n
    return out


def prefix(b, q):
    rng = lambda x, lo, hi: q(ule(lo, x, 8)) and q(ule(x, hi, 8))
    if len(b) == 2:
        return (rng(b[0], 0xe0, 0xe0) and rng(b[1], 0xa0, 0xbf) or rng(b[0], 0xe1, 0xec) and rng(b[1], 0x80, 0xbf) or rng(b[0], 0xed, 0xed) and rng(b[1], 0x80, 0x9f)
                or rng(b[0], 0xee, 0xef) and rng(b[1], 0x80, 0xbf) or rng(b[0], 0xf0, 0xf0) and rng(b[1], 0x90, 0xbf) or rng(b[0], 0xf1, 0xf3) and rng(b[1], 0x80, 0xbf)
                or rng(b[0], 0xf4, 0xf4) and rng(b[1], 0x80, 0x8f))
    return rng(b[0], 0xf0, 0xf4) and prefix(b[:2], q) and rng(b[2], 0x80, 0xbf)


class TextCli(Cli):
    """Text that typed sinks store, and what they refuse."""

    def judge(self, root, st, bs, out, schema):
        self.c.ok(self.rule, 1)

    def judge_sink(self, root, st, bs, out, mode, init):
        for e in st.events():
            if e[0] == "rep" and e[1] in (26, 28):
                t = self.bytes(st, e[4] if e[1] == 26 else e[3])
                if utf8(st.truth, t) == len(t):
                    return self.bad(root, st, "%s: valid text is refused" % self.describe(st, bs))
            elif e[0] == "dump" and "str" in root:
                t = self.bytes(st, e[2])
                if utf8(st.truth, t) != len(t):
                    return self.bad(root, st, "%s: text that is not valid is stored" % self.describe(st, bs))
        self.c.ok(self.rule, 1)


class TextJson(Json):
    """Text of tokens."""

    def broken(self, root, st, what):
        """Anything else is not about text."""

    def judge(self, st, bs, fill, tight, d):
        for e in st.events():
            if e[0] == "part" or e[0] == "tok" and e[1] in (1, 12, 23):
                t = e[3]
                if utf8(st.truth, t) != len(t):
                    return self.bad("r_tpop", st, "%s: yields text that is not valid" % self.show(st, bs))
            elif e[0] == "tok" and e[1] in (22, 30):
                t = e[2] if e[1] == 22 else e[3]
                if utf8(st.truth, t) == len(t):
                    return self.bad("r_tpop", st, "%s: valid text is refused" % self.show(st, bs))
        self.c.ok(self.rule, 1)


EDGES = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff]
BYTES = ["", "?", "??", "???", "????", "a?b", "é?", "?é", "a??é", "??a", "😀?", "?" + "a" * 20, "a" * 20 + "??"]


def job_text(c, cfg, i, k):
    j = Text(c, cfg, "conversions")
    n = 0
    for t in itertools.chain(*[itertools.product(EDGES, repeat=m) for m in (0, 1, 2)], [(a, b, x) for a in (0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xc2) for b in EDGES for x in (0x80, 0xbf, 0x7f)],
                             [(0xf0, 0x9f, a, b) for a in (0x80, 0x41) for b in (0xbf, 0x41, 0xf0)]):
        n += 1
        if n % k == i:
            j.convert("r_os_lossy", t)
    for root in ("r_os_utf8", "r_os_str", "r_dv_string", "r_dv_signature"):
        for t in BYTES:
            if t == "????" and (root != "r_os_str" or cfg != "host"):
                continue
            n += 1
            if n % k == i:
                j.convert(root, t)
    for root in ("r_os_from", "r_some"):
        for t in ("", "~", "~~", "é~", "~😀"):
            n += 1
            if n % k == i:
                j.convert(root, t)
    j.s.done()
    a = TextCli(c, cfg)
    a.rule = "arguments"
    for root, t in cases():
        if any("?" in x for x in t) and sum(x.count("?") for x in t) <= 2:
            n += 1
            if n % k == i:
                a.parse(root, enc(t))
    for kind in ("str", "ostr", "string", "ostring", "vstr", "vstring", "ovstr", "ovstring"):
        for t in FLAG_ARGS[PARSE][:7]:
            n += 1
            if n % k == i:
                a.sink("r_sf_" + kind, PARSE, b"old" if kind[0] != "v" else b"", enc(t))
    for kind in ("vstr", "vstring", "ovstr", "ovstring"):
        for t in PARAMS[:6]:
            n += 1
            if n % k == i:
                a.sink("r_sc_" + kind, None, b"", enc(t))
    a.s.done()
    b = TextJson(c, cfg, "tokens")
    for t in ('"?"', '"??"', '"\\?"', '"\\??"', '"\xc3\\n?"', '"?\\u0041?"', '"\xc3\\u0041\xa9"', '"\\ud83d?"', "??", "n?", "-?", "1.?", " ?", '"\\n\xf0\x9f\x98?"', '"a\x01?"'):
        for fill, tight in ((None, False), (1, True)):
            n += 1
            if n % k == i:
                b.tokens(t, fill, tight)
    b.s.done()


@check("C23", "Abstract interpretation of every conversion of bytes to text (operating-system strings, typed sinks behind the parser, JSON tokens, D-Bus strings) over unknown bytes "
              "partitioned by the classes of RFC 3629: it succeeds exactly if the bytes are valid and yields them unchanged, and unchecked conversions only see valid bytes.")
def c23(c):
    jobs = [lambda c, cfg=cfg, i=i, k=k: job_text(c, cfg, i, k) for cfg, k in (("host", 16), ("i686", 8)) for i in range(k)]
    parallel(c, jobs)
    c.floor("conversions", 500)
    c.floor("arguments", 500)
    c.floor("tokens", 300)
