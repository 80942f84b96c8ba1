"""Relational part of the abstract state: intervals per term, excluded values, and a
conjunction of integer linear inequalities (convex polyhedra, emptiness by
Fourier-Motzkin elimination over the rationals, which is a sound over-approximation)."""
from terms import *
from terms import T
import terms as tm

NEGL = {}


class Facts:
    __slots__ = ("rng", "ne", "cons", "bools", "hist", "_cache")

    def __init__(self):
        self.rng = {}
        self.ne = {}
        self.cons = ()
        self.bools = {}
        self.hist = ()
        self._cache = {}

    def copy(self):
        f = Facts()
        f.rng = dict(self.rng)
        f.ne = dict(self.ne)
        f.cons = self.cons
        f.bools = dict(self.bools)
        f.hist = self.hist
        return f

    # --- intervals ---------------------------------------------------------
    def range(self, t):
        if isc(t):
            return (t, t)
        r = self._cache.get(t)
        if r is None:
            r = self._range(t)
            self._cache[t] = r
        return r

    def _range(self, t):
        lo, hi = 0, mask(t.w)
        op = t.op
        if op == "var":
            lo, hi = t.rng
        elif op == "lin":
            il = self._ilin_sum(t)
            if il is not None:
                l, h = self._interval(il)
                if l >> t.w == h >> t.w:
                    # all values wrap around equally often
                    lo, hi = l & hi, h & hi
        elif op == "cat":
            l = h = pos = 0
            for s, o, n in t.a:
                if isc(s):
                    a = b = s
                else:
                    a, b = self._extr(s, o, n)
                l += a << pos
                h += b << pos
                pos += n
            lo, hi = l, h
        elif op == "ite":
            a, b = self.range(t.a[1]), self.range(t.a[2])
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
        elif op == "urem":
            b = self.range(t.a[1])
            a = self.range(t.a[0])
            if b[1] > 0:
                hi = min(b[1] - 1, a[1])
                if a[1] < b[0]:
                    lo = a[0]
        elif op == "udiv":
            a, b = self.range(t.a[0]), self.range(t.a[1])
            if b[0] > 0:
                lo, hi = a[0] // b[1], a[1] // b[0]
        elif op == "mul":
            a, b = self.range(t.a[0]), self.range(t.a[1])
            if a[1] * b[1] <= hi:
                lo, hi = a[0] * b[0], a[1] * b[1]
        elif op == "lshr":
            a = self.range(t.a[0])
            b = self.range(t.a[1])
            if b[0] < t.w:
                hi = a[1] >> b[0]
        elif op == "bits":
            tt, ats = t.a
            if len(ats) == 2 and tt == 8:
                hi = min(self.range(ats[0])[1], self.range(ats[1])[1])
            elif all(True for _ in ats) and not tt & 1:
                hi = (1 << max(self.range(x)[1].bit_length() for x in ats)) - 1
        elif op == "fn" and t.a[0] in FN_RANGE:
            lo, hi = FN_RANGE[t.a[0]](self, t)
        elif op == "addr":
            lo = 1
            hi = (1 << (t.w - 1)) - 1
        f = self.rng.get(t)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        e = self.ne.get(t)
        if e:
            while lo in e and lo <= hi:
                lo += 1
            while hi in e and lo <= hi:
                hi -= 1
        return (lo, hi)

    def _extr(self, s, o, n):
        a, b = self.range(s)
        e = self._raw(mk("cat", n, (s, o, n))) if not (o == 0 and n == s.w) else None
        a >>= o
        b >>= o
        if a >> n == b >> n:
            r = (a & mask(n), b & mask(n))
        else:
            r = (0, mask(n))
        if e:
            r = (max(r[0], e[0]), min(r[1], e[1]))
        return r

    def _raw(self, t):
        return self.rng.get(t)

    # --- integer linear forms ------------------------------------------------
    def _ilin_sum(self, t):
        """Integer linear form of a modular sum, ignoring wrap-around."""
        d = {1: sgn(t.a[0], t.w)}
        for x, k in t.a[1]:
            y = self.ilin(x)
            if y is None:
                return None
            for z, kz in y.items():
                d[z] = d.get(z, 0) + kz * k
        return {z: k for z, k in d.items() if k or z == 1}

    def _interval(self, d):
        lo = hi = d.get(1, 0)
        for t, k in d.items():
            if t == 1 and t.__class__ is int:
                continue
            a, b = self.range(t)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def ilin(self, t):
        """Integer linear form equal to the unsigned value of t, or the atom itself."""
        if isc(t):
            return {1: t}
        if t.op == "lin":
            d = self._ilin_sum(t)
            if d is not None:
                for c in (d.get(1, 0),) + ((d.get(1, 0) + (1 << t.w),) if d.get(1, 0) < 0 else ()):
                    e = dict(d)
                    e[1] = c
                    lo, hi = self._interval(e)
                    if lo >= 0 and hi <= mask(t.w):
                        return e
                if self.cons:
                    e = dict(d)
                    if self.implied(e) and self.implied(_sub({1: mask(t.w)}, e)):
                        return e
            return {t: 1, 1: 0}
        if t.op == "cat":
            d = {1: 0}
            pos = 0
            for s, lo, n in t.a:
                if isc(s):
                    d[1] += s << pos
                else:
                    if self.range(s)[1] < 1 << (lo + n):
                        # only the bits above `lo` matter
                        if lo == 0:
                            y = self.ilin(s)
                        else:
                            y = {mk("cat", s.w - lo, (s, lo, s.w - lo)): 1, 1: 0}
                    else:
                        y = {(s if lo == 0 and n == s.w else mk("cat", n, (s, lo, n))): 1, 1: 0}
                    for z, kz in y.items():
                        d[z] = d.get(z, 0) + (kz << pos)
                pos += n
            # reassemble x = hi*2^k + lo
            return d
        return {t: 1, 1: 0}

    # --- polyhedra -----------------------------------------------------------
    def implied(self, d):
        """Does the store imply  d >= 0 ?"""
        lo, hi = self._interval(d)
        if lo >= 0:
            return True
        if hi < 0 or not self.cons:
            return False
        n = {t: -k for t, k in d.items()}
        n[1] = n.get(1, 0) - 1
        return self._empty(n)

    def _empty(self, extra):
        """Is store + (extra >= 0) empty?"""
        # relevant constraints (connected component)
        vs = set(t for t in extra if t.__class__ is T)
        pool = list(self.cons)
        use = [dict(extra)]
        changed = True
        while changed and pool:
            changed = False
            rest = []
            for c in pool:
                cd = c
                if any(t in vs for t in cd if t.__class__ is T):
                    use.append(dict(cd))
                    for t in cd:
                        if t.__class__ is T and t not in vs:
                            vs.add(t)
                            changed = True
                    changed = True
                else:
                    rest.append(c)
            pool = rest
        if len(vs) > 14:
            pass
        sys_ = use
        for v in vs:
            a, b = self.range(v)
            sys_.append({v: 1, 1: -a})
            if b < 1 << 70:
                sys_.append({v: -1, 1: b})
        return _fm(sys_, vs)

    # --- decisions ------------------------------------------------------------
    def decide(self, c):
        if isc(c):
            return bool(c)
        op = c.op
        if op == "not1":
            r = self.decide(c.a[0])
            return None if r is None else not r
        v = self.bools.get(c)
        if v is not None:
            return v
        if op == "and1":
            r = True
            for x in c.a:
                y = self.decide(x)
                if y is False:
                    return False
                if y is None:
                    r = None
            return r
        if op == "eq":
            a, b = c.a
            return self._dec_eq(a, b)
        if op == "ult":
            a, b = c.a
            la, lb = self.range(a), self.range(b)
            if la[1] < lb[0]:
                return True
            if la[0] >= lb[1]:
                return False
            d = _sub(self.ilin(b), self.ilin(a))
            d[1] = d.get(1, 0) - 1
            if self.implied(d):
                return True
            n = {t: -k for t, k in d.items()}
            n[1] = n.get(1, 0) - 1
            if self.implied(n):
                return False
            return None
        if op == "slt":
            a, b = c.a
            w = a.w if a.__class__ is T else b.w
            h = 1 << (w - 1)
            ra, rb = self.range(a), self.range(b)
            pa = 0 if ra[1] < h else 1 if ra[0] >= h else None
            pb = 0 if rb[1] < h else 1 if rb[0] >= h else None
            if pa is not None and pb is not None:
                if pa != pb:
                    return bool(pa)
                if ra[1] < rb[0]:
                    return True
                if ra[0] >= rb[1]:
                    return False
                return self.decide(ult(a, b, w))
            return None
        if op == "cat":
            r = self._extr(*c.a[0]) if len(c.a) == 1 else (0, 1)
            if r[0] == r[1]:
                return bool(r[0])
            s, o, n = c.a[0]
            return None
        if op == "ite":
            x = self.decide(c.a[0])
            if x is not None:
                return self.decide(c.a[1] if x else c.a[2])
            p, q = self.decide(c.a[1]), self.decide(c.a[2])
            return p if p == q else None
        r = self.range(c)
        if r[0] == r[1]:
            return bool(r[0])
        return None

    def _dec_eq(self, a, b):
        ra, rb = self.range(a), self.range(b)
        if ra[1] < rb[0] or rb[1] < ra[0]:
            return False
        if ra[0] == ra[1] == rb[0] == rb[1]:
            return True
        if isc(b):
            e = self.ne.get(a)
            if e and b in e:
                return False
            if a.op == "lin":
                # parity / divisibility of even coefficients
                g = 0
                for x, k in a.a[1]:
                    g |= abs(k)
                low = g & -g
                if (b - a.a[0]) % low:
                    return False
        d = _sub(self.ilin(a), self.ilin(b))
        if all(k == 0 for t, k in d.items()):
            return True
        # gcd test
        n = {t: -k for t, k in d.items()}
        d1 = dict(d)
        d1[1] = d1.get(1, 0) - 1
        n1 = dict(n)
        n1[1] = n1.get(1, 0) - 1
        if self.implied(d1) or self.implied(n1):
            return False
        if self.implied(d) and self.implied(n):
            return True
        return None

    # --- assumptions -------------------------------------------------------------
    def _set_rng(self, t, lo, hi):
        if isc(t):
            return lo <= t <= hi
        a, b = self.range(t)
        lo, hi = max(a, lo), min(b, hi)
        if lo > hi:
            return False
        if (lo, hi) != (a, b):
            self.rng[t] = (lo, hi)
            self._cache.clear()
            # propagate into simple structure
            if t.op == "cat":
                nz = [p for p in t.a if not isc(p[0])]
                if len(nz) == 1:
                    pos = 0
                    for p in t.a:
                        if p is nz[0]:
                            break
                        pos += p[2]
                    s, o, n = nz[0]
                    kc = sum((p[0] << q) for p, q in _pos(t.a) if isc(p[0]))
                    if o == 0:
                        l2 = max(0, -((kc - lo) >> pos) if lo > kc else 0)
                        h2 = (hi - kc) >> pos
                        if h2 < 0:
                            return False
                        if n == s.w or self.range(s)[1] < 1 << n:
                            if not self._set_rng(s, l2, h2):
                                return False
                        else:
                            e = mk("cat", n, (s, o, n))
                            if e is not t and not self._set_rng(e, l2, h2):
                                return False
                    elif len(t.a) == 1 and o + n == s.w:
                        if not self._set_rng(s, lo << o, (hi << o) | mask(o)):
                            return False
                elif len(nz) > 1 and hi < mask(t.w):
                    # upper pieces bounded
                    pos = t.w
                    h = hi
                    s, o, n = t.a[-1]
                    if not isc(s) and o == 0 and n == s.w:
                        if not self._set_rng(s, 0, hi >> (t.w - n)):
                            return False
            elif t.op == "lin":
                il = self._ilin_sum(t)
                if il is not None and self.ilin(t) != {t: 1, 1: 0}:
                    if not self._add_cons(_shift(self.ilin(t), -lo)):
                        return False
                    if not self._add_cons(_shift({x: -k for x, k in self.ilin(t).items()}, hi)):
                        return False
            elif t.op == "sext":
                s = t.a[0]
                if hi < 1 << (t.w - 1):
                    if not self._set_rng(s, lo, min(hi, mask(s.w - 1))):
                        return False
        return True

    def _add_cons(self, d):
        """Add d >= 0 (integers); False if the store becomes empty."""
        d = {t: k for t, k in d.items() if k or t.__class__ is int}
        ts = [t for t in d if t.__class__ is T]
        c = d.get(1, 0)
        if not ts:
            return c >= 0
        if len(ts) == 1:
            t = ts[0]
            k = d[t]
            if k > 0:
                return self._set_rng(t, -(c // k), 1 << 200)
            return self._set_rng(t, -(1 << 200), c // -k)
        lo, hi = self._interval(d)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        if self.cons and self._empty(d):
            return False
        if d in self.cons:
            return True
        self.cons = self.cons + (d,)
        self._cache.clear()
        # interval propagation
        for t in ts:
            k = d[t]
            a, b = self.range(t)
            rest_hi = hi - (k * b if k > 0 else k * a)
            if k > 0:
                nlo = -(rest_hi // k)
                if nlo > a and not self._set_rng(t, nlo, b):
                    return False
            else:
                nhi = rest_hi // -k
                if nhi < b and not self._set_rng(t, a, nhi):
                    return False
        return True

    def assume(self, c, v=True):
        """Restrict by c == v; False when contradictory."""
        if isc(c):
            return bool(c) == v
        if c.op == "not1":
            return self.assume(c.a[0], not v)
        d = self.decide(c)
        if d is not None:
            return d == v
        op = c.op
        self._cache.clear()
        self.hist = (self.hist, (c, v))
        if op == "and1":
            if v:
                for x in c.a:
                    if not self.assume(x, True):
                        return False
                return True
            und = [x for x in c.a if self.decide(x) is None]
            if len(und) == 1:
                return self.assume(und[0], False)
            self.bools[c] = False
            return True
        if op == "eq":
            a, b = c.a
            if v:
                self.bools[c] = True
                if isc(b):
                    if not self._set_rng(a, b, b):
                        return False
                    if a.op == "lin":
                        return self._eq_lin(a, b)
                    return self._recheck()
                ra, rb = self.range(a), self.range(b)
                lo, hi = max(ra[0], rb[0]), min(ra[1], rb[1])
                if not self._set_rng(a, lo, hi) or not self._set_rng(b, lo, hi):
                    return False
                d = _sub(self.ilin(a), self.ilin(b))
                if not self._add_cons(d):
                    return False
                return self._add_cons({t: -k for t, k in d.items()})
            if isc(b):
                self.ne[a] = self.ne.get(a, frozenset()) | {b}
                self._cache.clear()
                r = self.range(a)
                if r[0] > r[1]:
                    return False
                if a.op == "lin":
                    # single-atom sums exclude one value of the atom
                    pass
                d = self.ilin(a)
                return self._ne_tight(d, b)
            self.bools[c] = False
            d = _sub(self.ilin(a), self.ilin(b))
            return self._ne_tight(d, 0)
        if op == "ult":
            a, b = c.a
            d = _sub(self.ilin(b), self.ilin(a))
            if v:
                d[1] = d.get(1, 0) - 1
            else:
                d = {t: -k for t, k in d.items()}
            self.bools[c] = v
            ra, rb = self.range(a), self.range(b)
            if v:
                if not self._set_rng(a, 0, rb[1] - 1) or not self._set_rng(b, ra[0] + 1, 1 << 200):
                    return False
            else:
                if not self._set_rng(b, 0, ra[1]) or not self._set_rng(a, rb[0], 1 << 200):
                    return False
            return self._add_cons(d)
        if op == "cat" and c.w == 1:
            s, o, n = c.a[0]
            self.bools[c] = v
            self.rng[c] = (int(v), int(v))
            if o == s.w - 1:
                if v:
                    return self._set_rng(s, 1 << o, mask(s.w))
                return self._set_rng(s, 0, mask(o))
            return True
        if op == "slt":
            self.bools[c] = v
            a, b = c.a
            w = a.w if a.__class__ is T else b.w
            h = 1 << (w - 1)
            ra, rb = self.range(a), self.range(b)
            pa = 0 if ra[1] < h else 1 if ra[0] >= h else None
            pb = 0 if rb[1] < h else 1 if rb[0] >= h else None
            if pa is not None and pa == pb:
                return self.assume(ult(a, b, w), v)
            if v:        # a < b
                if pb == 1:
                    return self._set_rng(a, h, mask(w)) and self.assume(ult(a, b, w), True)
                if pa == 0:
                    return self._set_rng(b, 0, h - 1) and self.assume(ult(a, b, w), True)
            else:        # a >= b
                if pb == 0:
                    return self._set_rng(a, 0, h - 1) and self.assume(ult(a, b, w), False)
                if pa == 1:
                    return self._set_rng(b, h, mask(w)) and self.assume(ult(a, b, w), False)
            return True
        if op == "ite":
            p, q = self.decide(c.a[1]), self.decide(c.a[2])
            if p is not None and p != v:
                return self.assume(c.a[0], False) and self.assume(c.a[2], v)
            if q is not None and q != v:
                return self.assume(c.a[0], True) and self.assume(c.a[1], v)
        if c.w == 1:
            self.rng[c] = (int(v), int(v))
            self.bools[c] = v
        return self._recheck()

    def _eq_lin(self, a, b):
        c, its = a.a
        if len(its) == 1:
            t, k = its[0]
            # k*t + c == b (mod 2^w) with odd k: unique solution
            if k % 2:
                m = 1 << a.w
                x = (b - c) * pow(k, -1, m) % m
                return self._set_rng(t, x, x)
        d = self.ilin(a)
        if d != {a: 1, 1: 0}:
            d = _shift(d, -b)
            return self._add_cons(d) and self._add_cons({t: -k for t, k in d.items()})
        return True

    def _ne_tight(self, d, b):
        """d != b: if the store already implies d >= b (or <=) make it strict."""
        e = _shift(d, -b)
        ts = [t for t in e if t.__class__ is T and e[t]]
        if not ts:
            return e.get(1, 0) != 0
        if self.implied(e):
            return self._add_cons(_shift(e, -1))
        n = {t: -k for t, k in e.items()}
        if self.implied(n):
            return self._add_cons(_shift(n, -1))
        return True

    def _recheck(self):
        return True


def _pos(ps):
    pos = 0
    for p in ps:
        yield p, pos
        pos += p[2]


FN_RANGE = {}


def _sub(a, b):
    d = dict(a)
    for t, k in b.items():
        d[t] = d.get(t, 0) - k
    return {t: k for t, k in d.items() if k or t.__class__ is int}


def _shift(d, k):
    d = dict(d)
    d[1] = d.get(1, 0) + k
    return d


def _fm(cs, vs):
    """True if the system is infeasible over the rationals."""
    cs = [c for c in cs]
    vs = set(vs)
    while True:
        out = []
        seen = set()
        for c in cs:
            ts = [t for t in c if t.__class__ is T and c[t]]
            if not ts:
                if c.get(1, 0) < 0:
                    return True
                continue
            # normalise with gcd (integer tightening)
            g = 0
            for t in ts:
                g = _gcd(g, abs(c[t]))
            if g > 1:
                c = {t: c[t] // g for t in ts} | {1: c.get(1, 0) // g}
                ts = [t for t in c if t.__class__ is T]
            k = (tuple(sorted((t.id, c[t]) for t in ts)))
            if (k, c.get(1, 0)) in seen:
                continue
            seen.add((k, c.get(1, 0)))
            out.append(c)
        cs = out
        if not cs or not vs:
            return False
        if len(cs) > 400:
            return False
        best, bc = None, None
        for v in vs:
            p = n = 0
            for c in cs:
                k = c.get(v, 0)
                if k > 0:
                    p += 1
                elif k < 0:
                    n += 1
            cost = p * n - p - n
            if bc is None or cost < bc:
                best, bc = v, cost
        vs.discard(best)
        pos, negs, rest = [], [], []
        for c in cs:
            k = c.get(best, 0)
            (pos if k > 0 else negs if k < 0 else rest).append(c)
        for p in pos:
            for n in negs:
                a, b = p[best], -n[best]
                d = {}
                for t, k in p.items():
                    d[t] = d.get(t, 0) + k * b
                for t, k in n.items():
                    d[t] = d.get(t, 0) + k * a
                d.pop(best, None)
                rest.append({t: k for t, k in d.items() if k or t.__class__ is int})
        cs = rest


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
