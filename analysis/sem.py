"""Helpers shared by the checks built on the abstract interpreter."""
import random

import absint
import extract
from absint import A, Interp, Outcome, P, Prog, Split, State, UB, Undecided
from terms import *
from terms import T
import terms as tm

_progs = {}


def prog(cfg, group):
    k = (cfg, group)
    if k not in _progs:
        _progs[k] = Prog(extract.mono(cfg, group))
    return _progs[k]


class NotEqual(Exception):
    pass


def hist(facts):
    out = []
    h = facts.hist
    while h:
        h, e = h
        out.append(e)
    out.reverse()
    return out


def valuation(facts, seed, terms=()):
    """A pseudo-random assignment of atoms within the intervals of the store."""
    rnd = random.Random(seed)
    env = {}

    def f(x):
        if x in env:
            return env[x]
        if x.__class__ is T:
            lo, hi = facts.range(x)
            if x.op == "addr":
                v = 0x10000 * (len(env) + 1)
            elif seed == 0:
                v = lo
            elif seed == 1:
                v = hi
            else:
                k = rnd.randrange(6)
                v = lo if k == 0 else hi if k == 1 else rnd.randint(lo, hi) if k < 5 else min(hi, lo + rnd.randrange(300))
            e = facts.ne.get(x)
            if e and v in e:
                v = rnd.randint(lo, hi)
        elif x.__class__ is tuple and len(x) == 2 and x[0] == "gf2":
            v = rnd.randrange(2)
        else:
            # byte of a sequence: honour known intervals of that byte
            t = tm._tab.get(("sel", 8) + x) if x.__class__ is tuple else None
            lo, hi = facts.range(t) if t is not None else (0, 255)
            v = rnd.randint(lo, hi) if lo <= hi else 0
        env[x] = v
        return v
    return f


def separate(facts, pairs, tries=400):
    """A valuation consistent with the path on which some pair of values differs, or None."""
    hs = hist(facts)
    for seed in range(tries):
        env = valuation(facts, seed)
        memo = {}
        try:
            if any(bool(tm.ev(c, env, memo)) != v for c, v in hs):
                continue
            for a, b in pairs:
                if tm.ev(a, env, memo) != tm.ev(b, env, memo):
                    return {show(k) if k.__class__ is T else str(k): v for k, v in [(k, env(k)) for k in _atoms(a, b)]}
        except (ZeroDivisionError, NotImplementedError):
            continue
    return None


def _atoms(*ts):
    out = []
    for t in ts:
        if not isc(t):
            for x in tm.atoms(t):
                if x.op in ("var", "addr") and x not in out:
                    out.append(x)
    return out[:8]


class Sem:
    """One dump, one interpreter, reports into a check context."""

    def __init__(self, c, cfg, group, **kw):
        self.c = c
        self.cfg = cfg
        self.group = group
        self.p = prog(cfg, group)
        self.it = Interp(self.p, **kw)
        self.names = self.p.roots
        self.outcomes = 0

    def state(self):
        return State()

    def fi(self, root):
        if root not in self.names:
            raise RuntimeError("root %s missing from %s/%s" % (root, self.cfg, self.group))
        return self.names[root]

    def sig(self, root):
        f = self.p.fns[self.fi(root)]
        return f["locals"][1:f["argc"] + 1], f["locals"][0]

    # --- symbolic values ---------------------------------------------------
    def sym(self, ty, name):
        p = self.p
        b = p.scalar(ty)
        lo, hi = self.valid(ty)
        if b:
            t = p.types[ty]
            if t["k"] == "bool":
                return zext(var(name, 1), 1, 8)
            return var(name, b, lo, hi)
        n = p.size(ty)
        if n == 0:
            return A((), 0)
        lv = self.it.leaves(ty)
        cells = []
        for o, s in lv:
            l2, h2 = 0, None
            if len(lv) == 1 and s == n:
                l2, h2 = lo, hi
            cells.append((o, s, var("%s.%d" % (name, o) if len(lv) > 1 else name, s * 8, l2, h2)))
        if not lv:
            cells = [(i, 1, var("%s.%d" % (name, i), 8)) for i in range(n)]
        return A(tuple(cells), n)

    def valid(self, ty):
        """Valid range of a single-scalar type (niches exclude values)."""
        l = self.p.types[ty].get("l") or {}
        s = l.get("scalar")
        if isinstance(s, list) and len(s) > 2 and s[2]:
            lo, hi = int(s[2][0]), int(s[2][1])
            if lo <= hi:
                return lo, hi
        return 0, None

    def place(self, st, v, ty, name="arg", align=None):
        """Put a value in memory and return a pointer to it."""
        n = self.p.size(ty)
        aid = self.it.alloc(st, n, align or self.p.align(ty), name)
        self.it.store(st, aid, 0, v, n)
        return P(aid, 0)

    def buf(self, st, name, size, align=1):
        """Byte buffer with symbolic contents."""
        aid = self.it.alloc(st, size, align, name, base=name)
        return P(aid, 0)

    def wide(self, p, n):
        ps = self.p.ps
        return A(((0, ps, p), (ps, ps, n)), 2 * ps)

    def mem(self, st, p, ty):
        return self.it.load(st, p.aid, p.off, ty)

    def bytes(self, st, v, n):
        """Memory-order bytes of a value."""
        if v.__class__ is A:
            al = absint.Alloc(n)
            al.cells = {o: (s, x) for o, s, x in v.cells}
        else:
            al = absint.Alloc(n)
            al.cells = {0: (n, v)}
        out = []
        for i in range(n):
            out.append(self.it.read_slow(st, al, None, i, 1))
        return out

    def word(self, st, v, n):
        """A value as one scalar of n bytes."""
        if v.__class__ is A:
            v = self.it.agg_scalar(st, v, n)
        return self.it.as_int(st, v)

    # --- running -------------------------------------------------------------
    def run(self, root, args, st=None):
        st = st or self.state()
        outs = self.it.run(st, self.fi(root), args)
        self.outcomes += len(outs)
        return outs

    def rets(self, rule, root, args, st=None, panics=False):
        """Normal outcomes; anything else is reported."""
        good = []
        for o in self.run(root, args, st):
            if o.kind == "ret":
                good.append(o)
            elif o.kind == "panic" and panics:
                good.append(o)
            else:
                self.abnormal(rule, root, o)
        return good

    def key(self, root):
        return "%s::%s [%s]" % (self.group, root, self.cfg)

    def abnormal(self, rule, root, o):
        if o.kind == "undecided":
            self.c.unk(rule, self.key(root), "%s at %s" % (o.info, o.where))
        elif not feasible(o.st.facts):
            self.c.unk(rule, self.key(root), "path with %s (%s) at %s has no sample valuation" % (o.kind, o.info, o.where))
        else:
            self.c.bad(rule, self.key(root) + ": " + o.kind, o.where, "%s: %s" % ({"ub": "invalid access", "panic": "panic"}.get(o.kind, o.kind), o.info))

    def equal(self, st, pairs):
        """All pairs provably denote equal values on this path."""
        for a, b in pairs:
            if a is None or b is None:
                if a is not b:
                    return False
                continue
            a, b = self.it.as_int(st, a), self.it.as_int(st, b)
            if a is b or (isc(a) and isc(b) and a == b):
                continue
            w = a.w if a.__class__ is T else b.w if b.__class__ is T else 64
            if st.decide(eq(a, b, w)) is not True:
                return False
        return True

    def same(self, rule, root, st, pairs, what, where=None):
        """All pairs denote equal values on this path."""
        diff = []
        for a, b in pairs:
            a = self.it.as_int(st, a) if a is not None else None
            b = self.it.as_int(st, b) if b is not None else None
            if a is None or b is None:
                if a is not b:
                    self.c.bad(rule, self.key(root), where or self.where(root), what + ": value is not initialised")
                    return False
                continue
            if a is b or (isc(a) and isc(b) and a == b):
                continue
            w = a.w if a.__class__ is T else b.w if b.__class__ is T else 64
            if w == 1:
                da, db = st.decide(a), st.decide(b)
                if da is not None and da is db:
                    continue
                a, b = a if da is None else int(da), b if db is None else int(db)
            e = eq(a, b, w)
            d = st.decide(e)
            if d is True:
                continue
            diff.append((a, b))
        if not diff:
            self.c.ok(rule, self.key(root))
            return True
        w = separate(st.facts, diff)
        if w is None:
            self.c.unk(rule, self.key(root), what + ": %s versus %s not separated" % (show(diff[0][0]), show(diff[0][1])))
            return None
        a, b = diff[0]
        self.c.bad(rule, self.key(root), where or self.where(root), "%s: got %s, expected %s (for %s)" % (what, show(a)[:300], show(b)[:300], w))
        return False

    def agree(self, rule, root, st, got, want, what):
        """Two truth values agree, decided separately where the expected one holds and where it does not."""
        got = self.it.b1(self.it.as_int(st, got))
        for v in (True, False):
            f = st.fork()
            if isc(want):
                if bool(want) != v:
                    continue
            elif f.assume(want, v) is False or f.decide(want) is not v:
                continue
            self.same(rule, root, f, [(got, int(v))], what)

    def done(self):
        """Record what was analysed."""
        self.c.saw("library functions interpreted", len({self.p.fns[i]["path"] for i in self.it.fns_seen if self.p.fns[i]["crate"] in ("osi", "sys", "tmp")}))
        self.c.saw("paths", self.outcomes)
        self.c.saw("MIR steps", self.it.total_steps)

    def where(self, root):
        """The library function a root exercises: the last one it calls, looking through wrappers of other crates."""
        todo, seen = [self.fi(root)], set()
        for _ in range(4):
            hits, nxt = [], []
            for fi in todo:
                for bb in self.p.fns[fi].get("bbs") or []:
                    t = bb[1]
                    if t[0] == "call" and isinstance(t[1], int) and t[1] not in seen:
                        seen.add(t[1])
                        nxt.append(t[1])
                        g = self.p.fns[t[1]]
                        if g["crate"] in ("osi", "sys", "tmp"):
                            hits.append("%s (%s)" % (g["n"].replace("vpharness::", ""), g["span"] if isinstance(g["span"], str) else self.span(g["span"])))
            if hits:
                return hits[-1]
            todo = nxt
        return root

    def span(self, sp):
        try:
            return "%s:%s" % (self.p.files[sp[0]].split("/repo/")[-1], sp[1])
        except Exception:
            return "?"


def feasible(facts, tries=200):
    hs = hist(facts)
    if not hs:
        return True
    for seed in range(tries):
        env = valuation(facts, seed)
        memo = {}
        try:
            if all(bool(tm.ev(c, env, memo)) == v for c, v in hs):
                return True
        except (ZeroDivisionError, NotImplementedError):
            continue
    return False


def ordering(facts):
    """For conditions that merely compare variables and constants: a valuation, False if there is none, None if other conditions occur."""
    eqs, nes, lts, les = [], [], [], []
    nodes = set()

    def leaf(x):
        return isc(x) or x.op == "var"
    for c, v in hist(facts):
        while not isc(c) and c.op == "not1":
            c, v = c.a[0], not v
        if isc(c) or c.op not in ("eq", "ult") or not all(leaf(x) for x in c.a[:2]):
            return None
        a, b = c.a[:2]
        nodes |= {a, b}
        if c.op == "eq":
            (eqs if v else nes).append((a, b))
        elif v:
            lts.append((a, b))
        else:
            les.append((b, a))
    for x in list(nodes):
        if not isc(x):
            lo, hi = facts.range(x)
            les += [(lo, x), (x, hi)]
            nodes |= {lo, hi}
    nodes = sorted(nodes, key=lambda x: (not isc(x), x if isc(x) else show(x)))
    ix = {x: i for i, x in enumerate(nodes)}
    n = len(nodes)
    NO = -1 << 30
    d = [[0 if i == j else NO for j in range(n)] for i in range(n)]  # d[i][j] = k: j >= i + k

    def put(a, b, k):
        i, j = ix[a], ix[b]
        d[i][j] = max(d[i][j], k)
    for a, b in eqs:
        put(a, b, 0)
        put(b, a, 0)
    for a, b in lts:
        put(a, b, 1)
    for a, b in les:
        put(a, b, 0)
    cs = [x for x in nodes if isc(x)]
    for a in cs:
        for b in cs:
            put(a, b, b - a)

    def close():
        for k in range(n):
            dk = d[k]
            for i in range(n):
                if d[i][k] > NO:
                    x = d[i][k]
                    di = d[i]
                    for j in range(n):
                        if dk[j] > NO and x + dk[j] > di[j]:
                            di[j] = x + dk[j]
        return all(d[i][i] == 0 for i in range(n))
    if not close():
        return False
    # equalities forced by the order, then values one after the other
    for a, b in nes:
        i, j = ix[a], ix[b]
        if d[i][j] == 0 and d[j][i] == 0:
            return False
        if d[i][j] == 0:
            d[i][j] = 1
            if not close():
                return False
        elif d[j][i] == 0:
            d[j][i] = 1
            if not close():
                return False
    return True


def possible(facts):
    """The path exists: shown by a valuation, or by the order of the values it compares."""
    o = ordering(facts)
    return o if o is not None else feasible(facts) or None
