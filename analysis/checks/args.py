"""C04: classification of arguments; C05: stopping; C06: typed sinks; C07: lookup; C44: help output."""
import itertools

import text
import vecs
from absint import A, P, Split
from sem import Sem, possible
from text import utf8
from terms import *
from vp import check, parallel

MODELS = dict(vecs.MODELS)
MODELS.update(text.EXACT)

SET, TOGGLE, PARSE = 0, 1, 2
KIND = {1: "set", 2: "toggle off", 3: "toggle on", 4: "value", 5: "parameter", 6: "end of parameters", 20: "uncaught", 21: "unknown shorts", 22: "unknown flag",
        23: "unexpected toggle", 24: "unexpected value", 25: "no value", 26: "value is not UTF-8", 27: "unexpected parameter", 28: "parameter is not UTF-8",
        40: "info", 41: "section", 42: "usage", 43: "flag", 44: "command"}

SCHEMAS = {
    "r_empty": {},
    "r_flat": {(): (0, {b"tog": (0, TOGGLE), b"set": (1, SET), b"no-neg": (2, TOGGLE), b"p": (3, PARSE), b"no-p": (4, PARSE), b"pa": (5, PARSE),
                        "é".encode(): (6, SET), b"no-": (7, TOGGLE)})},
    "r_tree": {(): (0, {b"v": (0, SET), b"w": (1, TOGGLE)}), (b"a",): (1, {b"v": (2, PARSE)}), (b"a", b"b"): (2, {b"w": (3, SET)}), (b"aa",): (3, {}),
               (b"c", b"d", b"e"): (4, {b"d": (4, SET)}), (b"c", b"z", b"y"): (5, {b"z": (5, TOGGLE)})},
    "r_forest": {(b"x", b"y"): (0, {b"f": (0, SET)}), (b"x", b"z"): (1, {}), (b"xa",): (2, {}), (b"m",): (3, {b"f": (1, TOGGLE)}), (b"m", b"n", b"o"): (4, {b"g": (2, PARSE)})},
    "r_help": {(): (0, {b"help": ("h", SET), b"a-long-flag": (0, PARSE), b"t": (1, TOGGLE)}), (b"a",): (1, {b"h": ("h", TOGGLE)}), (b"a", b"xyz"): (2, {}),
               ("bé".encode(),): (3, {"éé".encode(): (2, SET)}), (b"c", b"d"): (4, {}), (b"a", b"xyz", b"deep"): (5, {})},
    "r_help2": {(): (0, {b"zz": (0, SET), b"help": ("h", SET), b"middle-one": (1, TOGGLE)}), (b"k",): (1, {}), (b"k", b"a"): (2, {}), (b"k", b"long-name"): (3, {}),
                (b"k", b"z"): (4, {b"k": (2, PARSE), b"h": ("h", SET)}), (b"k", b"z", b"h"): (5, {b"last-flag": (3, TOGGLE)}), (b"kk",): (6, {}), (b"long", b"k"): (7, {}), (b"longest",): (8, {})},
}


def explore(st, f):
    """Run f on all refinements of the path that it needs to distinguish."""
    todo = [st]
    while todo:
        x = todo.pop()
        try:
            f(x)
        except Split as e:
            for t, v in e.alts:
                y = x.fork()
                if y.assume(t, v) is not False and y.decide(t) is v:
                    todo.append(y)


class Ref:
    """The documented behaviour; `q` decides conditions on the bytes of the arguments."""

    def __init__(self, schema, argv, q):
        self.schema, self.argv, self.q = schema, argv, q
        self.ev = []
        self.path = ()

    def is_(self, bs, word):
        return len(bs) == len(word) and all(self.q(eq(a, b, 8)) for a, b in zip(bs, word))

    def text(self, k, off=0, n=None):
        return (k, off, len(self.argv[k]) - off if n is None else n)

    def declared(self):
        """Declared prefixes of what was entered, innermost first."""
        return [self.path[:n] for n in range(len(self.path), -1, -1) if self.path[:n] in self.schema]

    def flag(self, bs):
        for p in self.declared():
            for name, (fid, mode) in self.schema[p][1].items():
                if self.is_(bs, name):
                    return p, fid, mode
        return None

    def run(self):
        q, argv = self.q, self.argv
        k = 0
        cmds = flags = True
        while k < len(argv):
            a, i = argv[k], k
            k += 1
            if not cmds and not flags:
                self.param(i)
                continue
            v = utf8(q, a)
            if flags and v >= 2 and q(eq(a[0], 45, 8)) and q(eq(a[1], 45, 8)):
                e = next((j for j in range(2, v) if q(eq(a[j], 61, 8))), None)
                if e is None and v < len(a):
                    self.ev.append((22, 0, ("any", self.text(i), self.text(i, 2)), None, None))
                elif e is None and v == 2:
                    cmds = flags = False
                else:
                    k = self.long(i, a[2:v if e is None else e], e, k)
                continue
            if flags and len(a) >= 2 and q(eq(a[0], 45, 8)):
                self.ev.append((21, 0, self.text(i, 1), None, None))
                continue
            if cmds and v == len(a):
                n = len(self.path)
                for name in sorted({p[n] for p in self.schema if len(p) > n and p[:n] == self.path}):
                    if self.is_(a, name):
                        self.path += (name,)
                        break
                else:
                    cmds = False
                    self.param(i)
                continue
            cmds = False
            self.param(i)
        if self.path in self.schema:
            self.ev.append((6, self.schema[self.path][0], None, None, None))
        return self

    def param(self, i):
        if self.path in self.schema:
            self.ev.append((5, self.schema[self.path][0], self.text(i), None, None))
        else:
            self.ev.append((27, 0, self.text(i), None, None))

    def long(self, i, name, e, k):
        f, off = self.flag(name), False
        t = self.text(i, 2, len(name))
        if f is None and len(name) >= 3 and self.is_(name[:3], b"no-"):
            f, off = self.flag(name[3:]), True
        if f is None:
            self.ev.append((22, 0, t, None, None))
            return k
        p, fid, mode = f
        cur = self.declared()[0]
        val = self.text(i, e + 1) if e is not None else None
        if off and mode != TOGGLE:
            self.ev.append((23, 0, t, None, None))
        elif mode == PARSE:
            if val is None and k < len(self.argv):
                val = self.text(k)
                k += 1
            if val is None:
                self.ev.append((25, 0, t, None, None))
            else:
                self.ev.append((4, fid, t, val, cur))
        elif val is not None:
            self.ev.append((24, 0, t, val, None))
        else:
            self.ev.append((1 if mode == SET else 2 + (not off), fid, t, None, cur))
        return k


class Cli:
    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.s = Sem(c, cfg, "args", models=MODELS, drops=True, foreign={"x_rep": self.x_rep, "x_arg": self.x_arg, "x_dump": self.x_dump})
        self.s.it.check_align = True
        self.s.it.max_states = 40000
        self.s.it.max_steps = 4000000
        self.ps = self.s.p.ps
        self.rule = None

    # --- the collaborators -------------------------------------------------
    def txt(self, it, st, p, n):
        n = it.as_int(st, n)
        t = (it.to_ptr(st, p) if not isc(n) or n else None, n)
        return t + (self.bytes(st, t),) if isc(n) else t

    def x_rep(self, it, st, a, rty):
        ev = (it.as_int(st, a[0]), it.as_int(st, a[1]), self.txt(it, st, a[2], a[3]), self.txt(it, st, a[4], a[5]), it.as_int(st, a[6]), a[4])
        j = st.user.get("reps", 0) + 1
        stop = st.user.get("stop") and st.truth(var("stop%d" % j, 1))
        st.emit("rep", *ev)
        st.user["reps"] = j
        if stop:
            st.emit("stopped", j)
            return var("stopval%d" % j, 32, 1)
        return 0

    def x_arg(self, it, st, a, rty):
        k = st.user["next"]
        if k >= len(st.user["argv"]):
            return 0
        st.user["next"] = k + 1
        aid, n = st.user["argv"][k]
        out = it.to_ptr(st, a[0])
        it.store(st, out.aid, out.off, P(aid, 0), self.ps)
        it.store(st, out.aid, out.off + self.ps, n, self.ps)
        return 1

    def x_dump(self, it, st, a, rty):
        st.emit("dump", it.as_int(st, a[0]), self.txt(it, st, a[1], a[2]))
        return A((), 0)

    # --- helpers -------------------------------------------------------------
    def argv(self, st, templates):
        """Arguments; `?` is an arbitrary byte."""
        out, bs = [], []
        for k, t in enumerate(templates):
            b = [var("arg%d[%d]" % (k, i), 8, 0, 255 if ch == 63 else 127) if ch in b"?~" else ch for i, ch in enumerate(t)]
            a = self.s.it.alloc(st, len(b), 1, "arg")
            for i, x in enumerate(b):
                self.s.it.store(st, a, i, x, 1)
            out.append((a, len(b)))
            bs.append(b)
        st.user["argv"], st.user["next"] = out, 0
        return bs

    def zst(self, st):
        return P(self.s.it.alloc(st, 0, 1, "zst"), 0)

    def string(self, st, bs):
        a = self.s.it.alloc(st, len(bs), 1, "str")
        for i, x in enumerate(bs):
            self.s.it.store(st, a, i, x, 1)
        return self.s.wide(P(a, 0), len(bs))

    def bytes(self, st, t):
        p, n = t[:2]
        if not n:
            return []
        if len(t) > 2:
            return t[2]
        return [self.s.it.as_int(st, self.s.it.read(st, p.aid, p.off + i, 1)) for i in range(n)]

    def paths(self, st):
        """The declared paths by index."""
        out = []
        for e in st.events():
            if e[0] == "dump" and e[1] == 50:
                out.append(())
            elif e[0] == "dump" and e[1] == 51:
                out[-1] += (bytes(self.bytes(st, e[2])),)
        return out

    def bad(self, root, st, what):
        """A mismatch on a path, reported if the path exists."""
        f = possible(st.facts)
        if f:
            self.c.bad(self.rule, "%s [%s]: %s" % (root, self.cfg, what), self.s.where(root), what)
        elif f is None:
            self.c.unk(self.rule, self.s.key(root), what + " on a path without sample valuation")
        return False

    def texteq(self, st, got, argv, want):
        """The reported text is the expected part of an argument."""
        if want is None:
            return got[1] == 0
        if want[0] == "any":
            return any(self.texteq(st, got, argv, w) for w in want[1:])
        k, off, n = want
        if got[1] != n:
            return False
        if n == 0 or got[0] == P(st.user["argv"][k][0], off):
            return True
        return all(a is b or isc(a) and isc(b) and a == b or st.decide(eq(a, b, 8)) is True for a, b in zip(self.bytes(st, got), argv[k][off:off + n]))

    def describe(self, st, bs):
        """The arguments of a path, unknown bytes as `?`."""
        out = []
        for b in bs:
            s = ""
            for x in b:
                if not isc(x):
                    lo, hi = st.facts.range(x)
                    x = lo if lo == hi else None
                s += "?" if x is None else chr(x) if 32 < x < 127 else "\\x%02x" % x
            out.append("`%s`" % s)
        return " ".join(out)

    def reports(self, root, st, argv, got, want, paths):
        """The reports are the expected ones, up to a stop."""
        desc = self.describe(st, argv)
        for i, g in enumerate(got):
            if i >= len(want):
                return self.bad(root, st, "%s: additional report: %s" % (desc, KIND.get(g[1], g[1])))
            kind, wid, a, b, n = want[i]
            if g[1] != kind:
                return self.bad(root, st, "%s: report %d is %s, expected %s" % (desc, i + 1, KIND.get(g[1], g[1]), KIND.get(kind, kind)))
            if g[2] != wid:
                return self.bad(root, st, "%s: %s is reported to number %s, expected %s" % (desc, KIND[kind], g[2], wid))
            if not self.texteq(st, g[3], argv, a) or not self.texteq(st, g[4], argv, b):
                return self.bad(root, st, "%s: %s is reported with a text that is not the given one" % (desc, KIND[kind]))
            if n is not None and (not isc(g[5]) or g[5] >= len(paths) or paths[g[5]] != n):
                return self.bad(root, st, "%s: %s names command %s as current, expected %s" % (desc, KIND[kind], paths[g[5]] if isc(g[5]) and g[5] < len(paths) else g[5], n))
        return True

    def parse(self, root, templates, stop=False):
        """All reports and the result for all arguments of the given form."""
        s, c = self.s, self.c
        st = s.state()
        bs = self.argv(st, templates)
        st.user["stop"] = stop
        out = s.it.alloc(st, 2 * self.ps, self.ps, "out")
        schema = SCHEMAS[root]
        for o in s.rets(self.rule, root, [self.zst(st), self.zst(st), P(out, 0)], st):
            explore(o.st, lambda x: self.judge(root, x, bs, out, schema))

    def judge(self, root, st, bs, out, schema):
        s, c = self.s, self.c
        ref = Ref(schema, bs, st.truth).run()
        got = [e for e in st.events() if e[0] == "rep"]
        stopped = [e[1] for e in st.events() if e[0] == "stopped"]
        paths = self.paths(st)
        if not self.reports(root, st, bs, got, ref.ev, paths):
            return
        res = [s.it.as_int(st, s.it.read(st, out, i * self.ps, self.ps)) for i in range(2)]
        desc = self.describe(st, bs)
        if stopped:
            if len(got) != stopped[0]:
                return self.bad(root, st, "%s: %d reports after the callback asked to stop" % (desc, len(got) - stopped[0]))
            want = [2, zext(var("stopval%d" % stopped[0], 32, 1), 32, s.p.ptr)]
            if res[0] != 2 or not s.equal(st, [(res[1], want[1])]):
                return self.bad(root, st, "%s: stop value of the callback is not returned" % desc)
            c.ok(self.rule, 1)
            return
        if len(got) < len(ref.ev):
            return self.bad(root, st, "%s: missing report: %s" % (desc, KIND[ref.ev[len(got)][0]]))
        if ref.path in schema:
            if res[0] != 0 or not isc(res[1]) or res[1] >= len(paths) or paths[res[1]] != ref.path:
                return self.bad(root, st, "%s: result %s, expected command %s" % (desc, res, ref.path))
        elif res[0] != 1:
            return self.bad(root, st, "%s: result %s although no declared command was selected" % (desc, res))
        c.ok(self.rule, 1)

    # --- sinks ---------------------------------------------------------------
    def sink(self, root, mode, init, templates):
        """Typed sinks: what is reported and what is stored, with each report stopping or not."""
        s = self.s
        st = s.state()
        bs = self.argv(st, templates)
        st.user["stop"] = True
        out = s.it.alloc(st, 2 * self.ps, self.ps, "out")
        flag = root.startswith("r_sf_")
        a = [init if isinstance(init, int) else self.string(st, init), self.zst(st), self.zst(st), P(out, 0)]
        for o in s.rets(self.rule, root, ([mode] if flag else []) + a, st):
            explore(o.st, lambda x: self.judge_sink(root, x, bs, out, mode, init))

    def judge_sink(self, root, st, bs, out, mode, init):
        s = self.s
        flag, kind = root.startswith("r_sf_"), root.split("_")[2]
        ref = Ref({(): (0, {b"f": (0, mode)} if flag else {})}, bs, st.truth).run()
        opt = kind[0] == "o" and kind != "os"
        base = {"cell": "bool", "refcell": "string"}.get(kind, kind[1:] if opt else kind)
        many = base[0] == "v"
        base = base[1:] if many else base
        if base in ("unit", "bool"):
            val = init
        elif many:
            val = None if opt and not init else [init] if init else []
        else:
            val = None if opt and not init else init
        want, states = [], [val]
        for e in ref.ev:
            if (flag and e[0] in (1, 2, 3, 4)) or (not flag and e[0] in (5, 6)):
                text = e[3] if flag else e[2]
                if flag and base in ("unit", "bool"):
                    if e[0] == 4:
                        want.append((None, None, None, None, None))
                        states.append(val)
                    else:
                        val = e[0] != 2
                elif flag and e[0] != 4:
                    want.append((None, None, None, None, None))
                    states.append(val)
                elif e[0] == 6:
                    pass
                elif base == "unit":
                    want.append((27, 0, text, None, None))
                    states.append(val)
                elif base != "os" and utf8(st.truth, bs[text[0]][text[1]:]) < text[2]:
                    want.append((26, 0, e[2], text, None) if flag else (28, 0, text, None, None))
                    states.append(val)
                else:
                    val = (val or []) + [text] if many else text
            else:
                want.append(e)
                states.append(val)
            states[-1] = val
        got = [e for e in st.events() if e[0] == "rep"]
        stopped = [e[1] for e in st.events() if e[0] == "stopped"]
        desc = self.describe(st, bs)
        for g, w in zip(got, want):
            if w[0] is None and not 20 <= g[1] <= 28:
                return self.bad(root, st, "%s: an unsupported report yields %s instead of an error" % (desc, KIND.get(g[1], g[1])))
        w2 = [(g[1], g[2]) + (None,) * 3 if w[0] is None else w for g, w in zip(got, want)] + want[len(got):]
        g2 = [(g[0], g[1], g[2], (None, 0), (None, 0), g[5], g[6]) if w[0] is None else g for g, w in zip(got, want)] + got[len(want):]
        if not self.reports(root, st, bs, g2, w2, [()]):
            return
        if stopped and len(got) != stopped[0] or not stopped and len(got) < len(want):
            return self.bad(root, st, "%s: %d reports, expected %d" % (desc, len(got), stopped[0] if stopped else len(want)))
        # the value is final before the report that stopped
        val = states[stopped[0] - 1] if stopped else states[-1]
        res = [s.it.as_int(st, s.it.read(st, out, i * self.ps, self.ps)) for i in range(2)]
        if stopped:
            if res[0] != 2 or not s.equal(st, [(res[1], zext(var("stopval%d" % stopped[0], 32, 1), 32, s.p.ptr))]):
                return self.bad(root, st, "%s: stop value of the callback is not returned" % desc)
        elif res != [0, 0]:
            return self.bad(root, st, "%s: result %s" % (desc, res))
        exp = []

        def put(tag, v):
            exp.append((tag, v))
        tag = {"os": 3, "str": 4, "string": 5}.get(base)
        if base == "unit" and flag:
            exp += [(7, None), (0, None)] if val else [(6, None)]
        elif base == "unit":
            put(0, None)
        elif base == "bool":
            put(1 + bool(val), None)
        else:
            if opt:
                put(6 if val is None else 7, None)
            if many and val is not None:
                put(8, None)
                for v in val:
                    put(tag, v)
                put(9, None)
            elif not many and val is not None:
                put(tag, val)
        dumps = [(e[1], e[2]) for e in st.events() if e[0] == "dump" and e[1] < 50]
        if [x[0] for x in dumps] != [x[0] for x in exp]:
            return self.bad(root, st, "%s: %s holds %s, expected %s%s" % (desc, kind, self.kinds(dumps), self.kinds(exp), " after the stop" if stopped else ""))
        for (t, g), (_, w) in zip(dumps, exp):
            if w is not None and not self.stored(st, g, bs, w):
                return self.bad(root, st, "%s: %s holds a value that was not given" % (desc, kind))
        self.c.ok(self.rule, 1)

    def kinds(self, l):
        return " ".join(("nothing", "false", "true", "string", "text", "text", "none", "some", "[", "]")[x[0]] for x in l)

    def stored(self, st, got, bs, want):
        if want.__class__ is bytes:
            return got[1] == len(want) and self.bytes(st, got) == list(want)
        return self.texteq(st, got, bs, want)

    # --- help ----------------------------------------------------------------
    def help(self, root, templates, stop=False):
        s = self.s
        st = s.state()
        bs = self.argv(st, templates)
        out = s.it.alloc(st, 2 * self.ps, self.ps, "out")
        st.user["stop"] = stop
        for o in s.rets(self.rule, root, [self.zst(st), self.zst(st), self.zst(st), P(out, 0)], st):
            explore(o.st, lambda x: self.judge_help(root, x, bs, out))

    def judge_help(self, root, st, bs, out):
        s = self.s
        name = root.replace("try_", "")
        schema = SCHEMAS[name]
        ref = Ref(schema, bs, st.truth).run()
        evs = [e for e in st.events() if e[0] in ("rep", "stopped")]
        stopped = [e for e in evs if e[0] == "stopped"]
        first = next((i for i, e in enumerate(evs) if e[0] == "rep" and e[1] >= 40), len(evs))
        if any(e[0] == "stopped" for e in evs[:first]):
            # parsing was ended early; what was seen so far counts
            n = sum(e[0] == "rep" for e in evs[:first])
            k = i = 0
            while i < len(ref.ev) and k < n:
                k += ref.ev[i][1] != "h"
                i += 1
            ref.ev = ref.ev[:i]
        cur = None
        for e in ref.ev:
            if e[1] == "h" and e[0] in (1, 2, 3):
                cur = e[4] if e[0] != 2 else None
        got = [e for e in evs[first:] if e[0] == "rep"]
        desc = self.describe(st, bs)
        res = [s.it.as_int(st, s.it.read(st, out, i * self.ps, self.ps)) for i in range(2)]
        if cur is None:
            if got or res != [0, 0]:
                return self.bad(root, st, "%s: help output although it was not requested" % desc)
            self.c.ok(self.rule, 1)
            return
        flags = {k: FLAGS[name][k] for k in schema[cur][1]}
        cmds = {p[-1]: COMMANDS[name][p] for p in schema if len(p) == len(cur) + 1 and p[:-1] == cur}
        want = [40, 41, 42] + ([41] + [43] * len(flags) if flags else []) + ([41] + [44] * len(cmds) if cmds else [])
        fw, cw = (max((len(k.decode()) for k in d), default=0) for d in (flags, cmds))
        stop_at = None
        for i, e in enumerate(evs[first:]):
            if e[0] == "stopped":
                stop_at = i
        if [e[1] for e in got] != want[:len(got)]:
            return self.bad(root, st, "%s: help consists of %s, expected %s" % (desc, [KIND.get(e[1]) for e in got], [KIND[x] for x in want]))
        seen = set()
        for e in got:
            name, info = bytes(self.bytes(st, e[3])), bytes(self.bytes(st, e[4]))
            if e[1] == 40 and name != b"about":
                return self.bad(root, st, "%s: information is %s" % (desc, name))
            if e[1] == 42:
                p = ()
                for i in range(e[5]):
                    q = s.it.to_ptr(st, e[6])
                    p += (bytes(self.bytes(st, (s.it.to_ptr(st, s.it.read(st, q.aid, q.off + 2 * i * self.ps, self.ps)), s.it.read(st, q.aid, q.off + (2 * i + 1) * self.ps, self.ps)))),)
                if name != b"prog" or p != cur:
                    return self.bad(root, st, "%s: usage is given for %s %s, expected %s" % (desc, name, p, cur))
            if e[1] in (43, 44):
                d = flags if e[1] == 43 else cmds
                if (e[1], name) in seen or name not in d:
                    return self.bad(root, st, "%s: %s %s is listed %s" % (desc, KIND[e[1]], name, "twice" if name in d else "but does not belong to the command"))
                seen.add((e[1], name))
                mode, txt = d[name]
                if e[2] != mode + 10 * (txt is not None) or info != (txt or b""):
                    return self.bad(root, st, "%s: %s %s is listed with a wrong mode or text" % (desc, KIND[e[1]], name))
                if e[5] != (fw if e[1] == 43 else cw):
                    return self.bad(root, st, "%s: width of %ss is %s, expected %d" % (desc, KIND[e[1]], e[5], fw if e[1] == 43 else cw))
        if stop_at is not None:
            if stop_at != len(evs[first:]) - 1:
                return self.bad(root, st, "%s: help output goes on after the callback asked to stop" % desc)
            j = evs[first + stop_at][1]
            if res[0] != 2 or not s.equal(st, [(res[1], zext(var("stopval%d" % j, 32, 1), 32, s.p.ptr))]):
                return self.bad(root, st, "%s: stop value of the callback is not returned" % desc)
        elif len(got) != len(want) or res != [1, 0]:
            return self.bad(root, st, "%s: help ends after %d of %d items with result %s" % (desc, len(got), len(want), res))
        self.c.ok(self.rule, 1)

    def errors(self, templates):
        """The collecting error sink keeps every error in order."""
        s = self.s
        st = s.state()
        bs = self.argv(st, templates)
        for o in s.rets(self.rule, "r_errors", [self.zst(st)], st):
            explore(o.st, lambda x: self.judge_errors(x, bs, o.val))

    def judge_errors(self, st, bs, n):
        ref = Ref({(): (0, {})}, bs, st.truth).run()
        want = [(27, 0) + e[2:] if e[0] == 5 else e for e in ref.ev if e[0] != 6]
        got = [e for e in st.events() if e[0] == "rep"]
        if not self.reports("r_errors", st, bs, got, want, [()]):
            return
        if len(got) != len(want) or self.s.it.as_int(st, n) != len(want):
            return self.bad("r_errors", st, "%s: %d errors are collected, expected %d" % (self.describe(st, bs), len(got), len(want)))
        self.c.ok(self.rule, 1)

    # --- lookup ----------------------------------------------------------------
    def name(self, tag, n):
        return [var("%s[%d]" % (tag, i), 8, 0, 127) for i in range(n)]

    def spell(self, tag, n):
        """A name: an unknown one of the given length, or the given text."""
        return list(n.encode()) if isinstance(n, str) else self.name(tag, n)

    def flags(self, lens, probe):
        """All names of the given lengths in all orders."""
        s = self.s
        st = s.state()
        names = [self.spell("name%d" % k, n) for k, n in enumerate(lens)]
        ptrs = [self.string(st, b) for b in names]
        arr = s.it.alloc(st, 2 * self.ps * len(lens), self.ps, "names")
        for k, p in enumerate(ptrs):
            s.it.store(st, arr, 2 * k * self.ps, p, 2 * self.ps)
        key = self.spell("key", probe)
        out = s.it.alloc(st, 3 * self.ps, self.ps, "out")
        root = "r_flags%d" % len(lens)
        for o in s.rets(self.rule, root, [P(arr, 0), self.string(st, key), P(out, 0)], st):
            explore(o.st, lambda x: self.judge_flags(root, x, names, ptrs, key, out))

    def judge_flags(self, root, st, names, ptrs, key, out):
        s = self.s
        same = [len(b) == len(key) and all(st.truth(eq(x, y, 8)) for x, y in zip(b, key)) for b in names]
        found = s.it.as_int(st, s.it.read(st, out, 0, self.ps))
        v = s.it.read(st, out, self.ps, self.ps)
        n = s.it.as_int(st, s.it.read(st, out, 2 * self.ps, self.ps))
        if n != len(names):
            return self.bad(root, st, "a set of %d flags has length %s" % (len(names), n))
        if found != int(any(same)):
            return self.bad(root, st, "a declared flag is not found" if any(same) else "an undeclared flag is found")
        if found and not any(t and (b == [] or s.it.to_ptr(st, v) == p.get(0)) for t, b, p in zip(same, names, ptrs)):
            return self.bad(root, st, "lookup of a flag yields an entry of a different name")
        self.c.ok(self.rule, 1)

    def commands(self, shapes, probe):
        """Paths of the given numbers of one-letter (or longer) elements in all orders."""
        s = self.s
        st = s.state()

        def path(tag, shape):
            els = [self.spell("%s.%d" % (tag, i), n) for i, n in enumerate(shape)]
            a = s.it.alloc(st, max(1, 2 * self.ps * len(els)), self.ps, "path")
            for i, e in enumerate(els):
                s.it.store(st, a, 2 * i * self.ps, self.string(st, e), 2 * self.ps)
            return els, s.wide(P(a, 0), len(els))
        paths = [path("path%d" % k, sh) for k, sh in enumerate(shapes)]
        arr = s.it.alloc(st, 2 * self.ps * len(shapes), self.ps, "paths")
        for k, (els, p) in enumerate(paths):
            s.it.store(st, arr, 2 * k * self.ps, p, 2 * self.ps)
        key, kp = path("key", probe)
        out = s.it.alloc(st, 64 * self.ps, self.ps, "out")
        root = "r_cmds%d" % len(shapes)
        for o in s.rets(self.rule, root, [P(arr, 0), kp, P(out, 0)], st):
            explore(o.st, lambda x: self.judge_commands(root, x, paths, key, out))

    def judge_commands(self, root, st, paths, key, out):
        s = self.s

        def same(a, b):
            return len(a) == len(b) and all(len(x) == len(y) and all(st.truth(eq(i, j, 8)) for i, j in zip(x, y)) for x, y in zip(a, b))
        els = [e for e, p in paths]
        if any(same(a, b) for a, b in itertools.combinations(els, 2)):
            return  # not a set
        ids = [p.get(0) for e, p in paths]
        rd = lambda i: s.it.read(st, out, i * self.ps, self.ps)
        hit = [i for i, e in enumerate(els) if same(e, key)]
        found = s.it.as_int(st, rd(0))
        if found != len(hit):
            return self.bad(root, st, "a declared command is not found" if hit else "an undeclared command is found")
        if hit and s.it.to_ptr(st, rd(1)) != ids[hit[0]]:
            return self.bad(root, st, "lookup of a command yields an entry of a different path")
        seen = []
        for k in range(len(paths)):
            me = s.it.to_ptr(st, rd(2 + 2 * k))
            if me not in ids:
                return self.bad(root, st, "entry %d is not a declared command" % k)
            i = ids.index(me)
            seen.append(i)
            ups = [j for j, e in enumerate(els) if len(e) < len(els[i]) and same(e, els[i][:len(e)])]
            want = max(ups, key=lambda j: len(els[j]), default=None)
            v = rd(3 + 2 * k)
            got = None if isc(v) and v == 0 else s.it.to_ptr(st, v)
            if got != (None if want is None else ids[want]):
                return self.bad(root, st, "parent of a command with %d elements is %s, expected its longest declared prefix (%s)" % (
                    len(els[i]), "none" if got is None else "a command of %d elements" % len(els[ids.index(got)]) if got in ids else got,
                    "none" if want is None else "%d elements" % len(els[want])))
        if sorted(seen) != list(range(len(paths))):
            return self.bad(root, st, "commands are listed more than once or not at all")
        self.c.ok(self.rule, 1)


FLAGS = {"r_help": {b"help": (SET, b"show help"), b"a-long-flag": (PARSE, None), b"t": (TOGGLE, b"tog"), b"h": (TOGGLE, None), "éé".encode(): (SET, b"accents")},
         "r_help2": {b"zz": (SET, None), b"help": (SET, None), b"middle-one": (TOGGLE, b"middle"), b"k": (PARSE, b"key"), b"h": (SET, b"help"), b"last-flag": (TOGGLE, None)}}
COMMANDS = {"r_help": {("bé".encode(),): (0, b"be"), (b"a", b"xyz"): (0, b"ab"), (b"c", b"d"): (0, None), (b"a", b"xyz", b"deep"): (0, b"deep"), (b"a",): (0, None)},
            "r_help2": {(b"k",): (0, b"k"), (b"k", b"a"): (0, b"a"), (b"k", b"long-name"): (0, None), (b"k", b"z"): (0, b"z"), (b"k", b"z", b"h"): (0, None), (b"kk",): (0, b"kk"), (b"long", b"k"): (0, None), (b"longest",): (0, None)}}

# a schema with many entries, long names and empty texts (the harness has the same declarations)
FLAGS["r_help3"] = {b"help": (SET, None), b"flag-" + b"x" * 40: (SET, b"")}
FLAGS["r_help3"].update((b"f%02d" % i, ((SET, TOGGLE, PARSE)[i % 3], (b"", None, b"f%d" % i)[i % 3])) for i in range(20))
COMMANDS["r_help3"] = {(b"p",): (0, b""), (b"p", b"command-" + b"y" * 62): (0, b"t" * 90), (b"q", b"k"): (0, None), (b"r", b"k", b"two"): (0, None), (b"r", b"k", b"two", b"three"): (0, b""), (b"r", b"l"): (0, None)}
COMMANDS["r_help3"].update(((b"p", b"s%02d" % i), (0, (b"", None, b"text")[i % 3])) for i in range(40))
SCHEMAS["r_help3"] = {(): (0, {k: ("h" if k == b"help" else i, v[0]) for i, (k, v) in enumerate(FLAGS["r_help3"].items())})}
SCHEMAS["r_help3"].update((k, (i + 1, {})) for i, k in enumerate(COMMANDS["r_help3"]))

# `?` is an arbitrary byte, `~` an arbitrary ASCII character
ONE = ["", "?", "??", "???", "????", "--?", "--??", "--???", "--~~~~", "--tog?", "--tog??", "--se??", "--set=?", "--set??", "--tog=??", "--no-?", "--no-??", "--no-tog?", "--no-tog=?",
       "--no-set?", "--no-set=~", "--no-~~~", "--no-no-~~~", "--no-neg?", "--no-neg=", "--no-no-neg?", "--no-p?", "--no-p=?", "--no-pa?", "--no-pa=~", "--p=??", "--p=?=", "--pa?", "--pa=?", "--p?=",
       "--\xc3?", "--\xc3\xa9?", "--no-\xc3\xa9", "--no-\xc3?=", "--=?", "--=", "-?", "-???", "-~~~~~", "?--", "--no-", "--no-=", "--no", "--no?", "--No-tog", "--TOG", "-tog", "---tog", "--tog=no-",
       "~" * 17, "--" + "~" * 3 + "x" * 16, "--p=" + "x" * 20 + "??"]
TWO = [("--p", "??"), ("--p", "--~~~"), ("--p", ""), ("--p", "--"), ("--pa", "-?"), ("--p?", "~"), ("--no-p", "--~"), ("--no-pa", "~~"), ("--set", "--~~~"), ("--", "??"), ("--", "--~~~"), ("--", "--"), ("--~", "--set"),
       ("?", "--~~~"), ("?", "??"), ("--tog", "--no-tog"), ("--no-~~~", "--set"), ("-?", "??"), ("??", "--p"), ("~~", "--"), ("--=", "~"), ("--\xff", "--set"), ("--\xff=", "--set"), ("--p=", "??"), ("\xff?", "--tog")]
THREE = [("~", "--", "--~"), ("--", "~", "--~~~"), ("--p", "--", "--~~~"), ("--p", "--p", "~"), ("~", "--p", "--"), ("--set", "--p=~", "--tog"), ("--", "--", "??"), ("-~", "--", "-~"), ("--", "", "--set", "-x", "\xff")]
TREE = [("?",), ("??",), ("???",), ("?", "?"), ("~~", "~"), ("~", "~", "~"), ("?", "--?"), ("~", "~", "--~"), ("~", "--~", "~"), ("~", "--no-~"), ("~", "~", "--no-~"), ("--~", "~"), ("--~", "~", "--~"), ("--w", "~", "--w"),
        ("a", "~", "--~", "~"), ("c", "~", "~", "--~"), ("c", "~", "--~"), ("c", "~", "--no-~"), ("~", "--", "~"), ("a", "--", "b"), ("a", "--v", "b", "~"), ("a", "--v", "--", "~"), ("a", "x", "b", "--~"),
        ("x", "a", "--~"), ("c", "?"), ("c", "d", "?"), ("c", "z", "~", "~"), ("c", "c", "--d"), ("a", "aa"), ("aa", "b"), ("a", "?b"), ("a", "b", "c", "d", "--w"), ("c", "d", "e", "--~", "--no-z"), ("a", "-~", "b", "--v=?"),
        ("\xff", "a"), ("a", "\xff", "b"), ("", "a"), ("a", "", "b"), ("c", "x", "d", "e"), ("c", "--", "d"), ("--", "a", "--v"), ("a", "--w", "--no-w", "b", "--w", "--no-w"), ("c", "d", "--v", "e", "--d", "--v"), ("aa", "--v", "~")]
FOREST = [("?",), ("??",), ("~", "~"), ("x", "~", "--~"), ("x", "--~", "~"), ("m", "--~"), ("m", "--no-~"), ("m", "~", "--~"), ("m", "n", "--~"), ("m", "n", "--no-~"), ("m", "n", "~", "--~"), ("m", "n", "o", "--g", "~"), ("xa", "--~"),
          ("x", "--", "~"), ("m", "~", "~", "~"), ("x", "x"), ("--~", "x"), ("--", "m"), ("m", "n", "--f=~"), ("x",), ("xa", "y", "--f"), ("m", "--", "n"), ("q", "m"), ("", "m")]


def enc(t):
    return tuple(x.encode("latin-1") for x in t)


def cases():
    for x in ONE:
        yield "r_flat", (x,)
    for x in TWO + THREE:
        yield "r_flat", x
    for x in TREE:
        yield "r_tree", x
    for x in FOREST:
        yield "r_forest", x
    for x in [("?",), ("??",), ("--?",), ("--", "~"), ("~", "~"), (), ("",)]:
        yield "r_empty", x
    for r in ("r_flat", "r_tree", "r_forest"):
        yield r, ()


def batches(c, f, cfgs=(("host", 12), ("i686", 4))):
    jobs = []
    for cfg, k in cfgs:
        for i in range(k):
            jobs.append(lambda c, cfg=cfg, i=i, k=k: f(c, cfg, i, k))
    parallel(c, jobs)


def job_parse(c, cfg, i, k, stop=False, rule="classification"):
    a = Cli(c, cfg)
    a.rule = rule
    for n, (root, t) in enumerate(cases()):
        if n % k == i:
            a.parse(root, enc(t), stop)
    a.s.done()


RULE = ("Abstract interpretation of the argument parser over argument vectors of unknown bytes, partitioned by the comparisons the code makes, on schemas with prefix names, "
        "`no-` names, undeclared intermediate commands and no root; %s")


@check("C04", RULE % "every report and the result are compared with the documented rules.")
def c04(c):
    batches(c, job_parse)
    c.floor("classification", 9000)


@check("C05", RULE % "with every report stopping or not, no report may follow a stop and the stop value must be returned; the same for help output, typed sinks and JSON tokenizing.")
def c05(c):
    from checks import json
    jobs = []
    for i in range(8):
        jobs.append(lambda c, i=i: job_parse(c, "host", i, 8, True, "stopping the parser"))
        jobs.append(lambda c, i=i: job_help(c, "host", i, 8, "stopping help output"))
    for i in range(4):
        jobs.append(lambda c, i=i: job_sinks(c, "host", i, 4, "stopping in sinks"))
    jobs.append(lambda c: json.stops(c, "stopping the JSON tokenizer"))
    parallel(c, jobs)
    c.floor("stopping the parser", 9000)
    c.floor("stopping help output", 200)
    c.floor("stopping in sinks", 500)
    c.floor("stopping the JSON tokenizer", 60)


FLAG_ARGS = {SET: [("--f",), ("--f", "--f"), ("--f=?",)], TOGGLE: [("--f",), ("--no-f",), ("--f", "--no-f"), ("--no-f", "--f")],
             PARSE: [("--f=",), ("--f=?",), ("--f=??",), ("--f=???",), ("--f", "??"), ("--f=~", "--f=??"), ("--f=??", "--f=~"), ("--f=??", "--f=?"), ("--f", "\xf0\x9f??"), ("--f=" + "x" * 18 + "?",), ("--f=a", "--f=", "--f=~~"), ("--f",), ("--f=~", "--f=~"), ("--f=old", "--f", "old", "--f=~~~"),
                     ("--f=b", "--f=a", "--f=b", "--f=A", "--f=", "--f=", "--f=b", "--f=x=y", "--f= a ")]}
PARAMS = [(), ("?",), ("??",), ("???",), ("~", "??"), ("??", "~"), ("",), ("--", "--~"), ("?", "", "?"), ("x" * 18 + "?",), ("~", "~"), ("b", "a", "b", "A", "", "", "-", " a ", "--", "b", "old", "old"), ("old", "\xff", "old")]
SINKS = {"unit": (0, 1), "bool": (0, 1), "cell": (0, 1)}


def sinks(small):
    for k in ("unit", "bool", "os", "oos", "str", "ostr", "string", "ostring", "vos", "ovos", "vstr", "ovstr", "vstring", "ovstring", "cell", "refcell"):
        for init in SINKS.get(k, (b"", b"old")):
            for mode in (SET, TOGGLE, PARSE):
                for t in FLAG_ARGS[mode][:7 if small else None]:
                    if (small or k not in ("str", "ostr", "vstring")) and "???" in t[0]:
                        continue
                    yield "r_sf_" + k, mode, init, t
    for k in ("unit", "vos", "ovos", "vstr", "ovstr", "vstring", "ovstring"):
        for init in (b"", b"old") if k != "unit" else (b"",):
            for t in PARAMS[:6 if small else None]:
                if (small or k != "vstr") and "???" in t:
                    continue
                yield "r_sc_" + k, None, init, t


def job_sinks(c, cfg, i, k, rule="stored values"):
    a = Cli(c, cfg)
    a.rule = rule
    for n, (root, mode, init, t) in enumerate(sinks(cfg != "host" or rule != "stored values")):
        if n % k == i:
            a.sink(root, mode, init, enc(t))
    if i == 0 and rule == "stored values":
        for t in [(), ("?",), ("--??",), ("-?", "~"), ("--~", "-x", "~", "--", "--y"), ("--no-~", "--~=~", "", "?"), ("--", "?", "-?")]:
            a.errors(enc(t))
    a.s.done()


@check("C06", "Abstract interpretation of every typed sink behind the real parser, for flags of each mode and values of unknown bytes partitioned by UTF-8 validity, with errors stopping "
              "or not; the stored value and the reports are compared with a reference.")
def c06(c):
    batches(c, job_sinks, (("host", 10), ("i686", 4)))
    c.floor("stored values", 1500)


FLAG_SETS = [((0,), (0, 1)), ((1,), (0, 1, 2)), ((2,), (1, 2, 3)), ((1, 1), (1,)), ((1, 2), (1, 2)), ((2, 1), (1, 2)), ((0, 1), (0, 1)), ((2, 2), (2,)), ((1, 1, 1), (1,)), ((1, 2, 1), (1, 2)), ((2, 1, 2), (2,)), ((0, 1, 2), (0, 1, 2)),
             ((1, 1, 1, 1), (1,)), ((2, 1, 1, 2), (2,)), ((1, 1, 1, 1, 1), (1,))]
E1, E2 = (1,), (2,)
CMD_SETS = [([()], [(), E1]), ([E1], [(), E1, (1, 1)]), ([(), E1], [(), E1]), ([E1, ()], [(), E1]), ([E1, (1, 1)], [E1, (1, 1)]), ([(1, 1), E1], [(1, 1), E2]), ([(1, 1), (), E1], [E1]), ([E1, E2], [E1, E2]),
            ([(1, 1), E1, E1], [(1, 1)]), ([(1, 1, 1), E1, (1, 1)], [(1, 1)]), ([(1, 1, 1), (), (1, 1)], [E1, (1, 1)]), ([(1, 1, 1), E1, (1, 1), ()], [E1]), ([E1, E1, (1, 1), (1, 1)], [E1]),
            ([(1, 2), E1, (1, 1)], [(1, 1)]), ([(1, 1, 1, 1), (1, 1), ()], [()]), ([(1, 1), (1, 1, 1), E1, (), E1], [()])]


def chain(*names):
    """A command and all commands it is below of."""
    return [tuple(names[:n]) for n in range(len(names) + 1)]


NAMES = ["a", "aa", "ab", "b", "no-a", "a-b", "\xe9", "z", "help", "B", "", "aaa"]
WIDE = NAMES + [n + "x" for n in NAMES]
BIG_FLAGS = [(t, p) for t in (NAMES, NAMES[::-1], WIDE, WIDE[::-1], WIDE[::3] + WIDE[1::3] + WIDE[2::3]) for p in (1, 2, "aaa", "helpx", "no-ax", "aab", "\xe9x", "zxx")]
DEEP = chain("a", "b", "c", "d") + [("z",)]
BIG_CMDS = [(t, p) for t in (DEEP, DEEP[::-1], chain("a", "b", "c") + [("a", "z"), ("z",)], chain("a", "aa") + [("aa",), ("aa", "b"), ("aa", "b", "c")],
                             chain("m", "n", "o", "p", "q", "r", "s") + [("m", "n", "z"), ("m", "o"), ("n",), ("n", "n")],
                             (chain("m", "n", "o", "p", "q", "r", "s") + [("m", "n", "z"), ("m", "o"), ("n",), ("n", "n")])[::-1],
                             chain(*"abcdefghij") + chain(*"abcdexyz")[6:] + [("a", "b", "y"), ("a", "c"), ("b",), ("b", "b", "b", "b"), ("c",), ("c", "d"), ("z",), ("z", "y", "x"), ("z", "y", "x", "w"), ("zz",)])
            for p in ((1,), (1, 1), ("a", 1), ("m", 1), ("z",), ("a", "b", "c", "d"), ("a", "b", "d"), ())]


def job_lookup(c, cfg, i, k):
    a = Cli(c, cfg)
    a.rule = "lookup"
    n = 0
    for lens, probes in FLAG_SETS + [(t, [p]) for t, p in BIG_FLAGS]:
        for p in probes:
            n += 1
            if n % k == i:
                a.flags(lens, p)
    for shapes, probes in CMD_SETS + [(t, [p]) for t, p in BIG_CMDS]:
        for p in probes:
            n += 1
            if n % k == i:
                a.commands(shapes, p)
    a.s.done()


@check("C07", "Abstract interpretation of building flag and command sets of up to five entries with unknown names, in all orders the comparisons distinguish, and of lookups with unknown keys; "
              "found entries and parents are compared with equality and prefixes of the names.")
def c07(c):
    batches(c, job_lookup, (("host", 12), ("i686", 4)))
    c.floor("lookup", 1500)


HELP = [(), ("--~~~~",), ("--help",), ("a", "--~"), ("~", "--help"), ("a", "~~~", "--h"), ("a", "xyz", "--help"), ("a", "xyz", "deep", "--h"), ("a", "--h", "--no-h"), ("--help", "a"), ("--help", "a", "--no-h"),
        ("b\xc3\xa9", "--help"), ("c", "--help"), ("c", "d", "--help"), ("c", "~", "--help"), ("a", "--h", "xyz", "--help"), ("--help=x",), ("a", "--no-help"), ("~", "--", "--help"), ("--help", "--", "a"), ("x", "a", "--help")]

HELP2 = [("--help",), ("k", "--help"), ("k", "z", "--~"), ("~", "~", "--help"), ("k", "long-name", "--help"), ("k", "z", "h", "--h"), ("k", "z", "h", "--help"), ("k", "~", "h", "--h"), ("kk", "--help"), ("long", "k", "--help"),
         ("long", "--help"), ("longest", "--help"), ("k", "z", "--h", "h", "--help"), ("k", "z", "--help", "--h"), ("~~", "z", "--help"), ("k", "z", "--k", "--h"), ("k", "z", "--h", "--", "h")]
HELP3 = [("--help",), ("p", "--help"), ("p", "s17", "--help"), ("q", "k", "--help"), ("r", "k", "--help"), ("r", "k", "two", "--help"), ("r", "--help"), ("p", "command-" + "y" * 62, "--help"), ("p", "s~~", "--help"), ("r", "l", "--help")]



def job_help(c, cfg, i, k, rule="help output"):
    a = Cli(c, cfg)
    a.rule = rule
    n = 0
    for root, ts in (("r_help", HELP), ("r_try_help", HELP), ("r_help2", HELP2), ("r_try_help2", HELP2[:4]), ("r_help3", HELP3), ("r_try_help3", HELP3[:2])):
        for t in ts:
            n += 1
            if n % k == i:
                a.help(root, enc(t), rule != "help output")
    a.s.done()


@check("C44", "Abstract interpretation of help output for every command of three schemas, selected by arguments of partly unknown bytes; the listed flags, sub-commands, texts and widths are "
              "compared with the declarations.")
def c44(c):
    batches(c, job_help, (("host", 6), ("i686", 2)))
    c.floor("help output", 60)
