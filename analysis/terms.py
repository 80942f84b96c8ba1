"""Value domain: hash-consed terms in a canonical form.

Constants are Python ints (unsigned, reduced modulo 2^w).  Everything else is an
interned `T`.  Two equal terms denote the same value (global value numbering); the
canonical forms are modular linear sums, bit concatenations and truth tables of
bitwise operations, so that different spellings of one computation meet."""

_tab = {}
_next = [1]


class T:
    __slots__ = ("op", "w", "a", "id", "rng", "_atoms")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, w, *a):
    k = (op, w) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a, t.id, t.rng, t._atoms = op, w, a, _next[0], None, None
        _next[0] += 1
        _tab[k] = t
    return t


_ranges = {}


def var(name, w, lo=0, hi=None):
    """An atom with an a-priori range (part of its identity)."""
    m = (1 << w) - 1
    if hi is None:
        hi = m
    t = mk("var", w, name, lo, hi)
    t.rng = (lo, hi)
    return t


_fresh = [0]


def fresh(name, w, lo=0, hi=None):
    _fresh[0] += 1
    return var("%s#%d" % (name, _fresh[0]), w, lo, hi)


def isc(x):
    return x.__class__ is int or x.__class__ is bool


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# --- linear ------------------------------------------------------------------
def lin_parts(t, w):
    """(const, {atom: coef})"""
    if isc(t):
        return t, ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mk_lin(w, c, d):
    m = mask(w)
    h = 1 << (w - 1)
    items = []
    for t, k in d.items():
        k &= m
        if k:
            if k > h or (k == h and w > 1 and False):
                k -= m + 1
            items.append((t, k))
    c &= m
    if not items:
        return c
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return mk("lin", w, c, tuple(items))


def add(a, b, w):
    if isc(a) and isc(b):
        return (a + b) & mask(w)
    if w == 1:
        return xor(a, b, 1)
    ca, da = lin_parts(a, w)
    cb, db = lin_parts(b, w)
    d = dict(da)
    for t, k in db:
        d[t] = d.get(t, 0) + k
    return mk_lin(w, ca + cb, d)


def neg(a, w):
    return mulc(a, -1, w)


def sub(a, b, w):
    if isc(b):
        return add(a, -b & mask(w), w)
    return add(a, mulc(b, -1, w), w)


def mulc(a, k, w):
    if isc(a):
        return (a * k) & mask(w)
    c, d = lin_parts(a, w)
    return mk_lin(w, c * k, {t: x * k for t, x in d})


def mul(a, b, w):
    if isc(a):
        a, b = b, a
    if isc(b):
        return mulc(a, b, w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, a, b)


# --- bit concatenation ---------------------------------------------------------
def pieces(t, w):
    """[(src, lo, n)] from the least significant bit; constants have lo == 0."""
    if isc(t):
        return ((t, 0, w),)
    if t.op == "cat":
        return t.a
    return ((t, 0, w),)


def gf2(rows):
    """Word whose bit i is the parity of the inputs selected by rows[i] (bit 0: constant one)."""
    if all(r < 2 for r in rows):
        return sum(r << i for i, r in enumerate(rows))
    return mk("gf2", len(rows), *rows)


def _rows(t, n):
    return tuple((t >> i) & 1 for i in range(n)) if isc(t) else t.a


def mk_cat(ps):
    out = []
    if any(not isc(s) and s.op == "gf2" for s, lo, n in ps):
        ps = list(ps)
        if all(isc(s) or s.op == "gf2" for s, lo, n in ps):
            return gf2(tuple(r for s, lo, n in ps for r in (_rows(s, lo + n)[lo:lo + n])))
    for s, lo, n in ps:
        if n == 0:
            continue
        if out:
            s0, lo0, n0 = out[-1]
            if isc(s) and isc(s0):
                out[-1] = (s0 | (s << n0), 0, n0 + n)
                continue
            if s is s0 and lo0 + n0 == lo:
                out[-1] = (s0, lo0, n0 + n)
                continue
        out.append((s, lo, n))
    w = sum(p[2] for p in out)
    if len(out) == 1:
        s, lo, n = out[0]
        if isc(s):
            return s
        if lo == 0 and s.w == n:
            return s
    return mk("cat", w, *out)


# sums of more summands than this are not narrowed when their low bits are taken
NARROW = 1 << 30


def ext(t, lo, n):
    """Bits [lo, lo+n) of t."""
    if isc(t):
        return (t >> lo) & mask(n)
    if lo == 0 and n == t.w:
        return t
    if t.op == "gf2":
        return gf2(t.a[lo:lo + n])
    if t.op == "bits":
        tt, ats = t.a
        return bits_op(tt, [ext(x, lo, n) for x in ats], n)
    if t.op == "lin" and lo == 0 and len(t.a[1]) <= NARROW:
        # low bits of a modular sum
        d = {}
        c = t.a[0] & mask(n)
        for x, k in t.a[1]:
            y = ext(x, 0, n)
            cy, dy = lin_parts(y, n)
            c += cy * k
            for z, kz in dy:
                d[z] = d.get(z, 0) + kz * k
        return mk_lin(n, c, d)
    if t.op == "sext" and lo + n <= t.a[0].w:
        return ext(t.a[0], lo, n)
    if t.op == "ite":
        return ite(t.a[0], ext(t.a[1], lo, n), ext(t.a[2], lo, n), n)
    out = []
    pos = 0
    for s, l, k in pieces(t, t.w):
        a, b = max(lo, pos), min(lo + n, pos + k)
        if a < b:
            if isc(s):
                out.append(((s >> (a - pos)) & mask(b - a), 0, b - a))
            elif lo <= pos and b == pos + k and l == 0 and s.w == k:
                out.append((s, 0, k))
            else:
                e = mk_ext(s, l + a - pos, b - a)
                out.extend(pieces(e, b - a))
        pos += k
    return mk_cat(out)


def mk_ext(s, lo, n):
    if lo == 0 and n == s.w:
        return s
    if s.op in ("lin", "bits", "sext", "ite") and not (s.op == "lin" and (lo or len(s.a[1]) > NARROW)):
        if s.op != "sext" or lo + n <= s.a[0].w:
            return ext(s, lo, n)
    return mk("cat", n, (s, lo, n))


def zext(t, w0, w):
    if isc(t) or w == w0:
        return t
    if t.op == "ite" and isc(t.a[1]) and isc(t.a[2]):
        return ite(t.a[0], t.a[1], t.a[2], w)
    return mk_cat(tuple(pieces(t, w0)) + ((0, 0, w - w0),))


def sext(t, w0, w):
    if w == w0:
        return t
    if isc(t):
        return sgn(t, w0) & mask(w)
    ps = pieces(t, w0)
    if isc(ps[-1][0]):
        s, _, n = ps[-1]
        top = s >> (n - 1)
        return mk_cat(tuple(ps) + ((mask(w - w0) if top else 0, 0, w - w0),))
    return mk("sext", w, t)


def trunc(t, w0, w):
    if isc(t):
        return t & mask(w)
    return ext(t, 0, w)


def concat(parts):
    """parts: [(term, width)] least significant first."""
    out = []
    for t, w in parts:
        out.extend(pieces(t, w))
    return mk_cat(out)


def shl(t, k, w):
    if isc(k):
        if k >= w:
            return 0
        if isc(t):
            return (t << k) & mask(w)
        if k == 0:
            return t
        if t.op == "lin":
            return mulc(t, 1 << k, w)
        return mk_cat(((0, 0, k),) + tuple(pieces(ext(t, 0, w - k), w - k)))
    return mk("shl", w, t, k)


def lshr(t, k, w):
    if isc(k):
        if k >= w:
            return 0
        if isc(t):
            return t >> k
        if k == 0:
            return t
        return mk_cat(tuple(pieces(ext(t, k, w - k), w - k)) + ((0, 0, k),))
    return mk("lshr", w, t, k)


def ashr(t, k, w):
    if isc(k):
        if isc(t):
            return (sgn(t, w) >> min(k, w - 1)) & mask(w)
        if k == 0:
            return t
        return sext(ext(t, k, w - k), w - k, w)
    return mk("ashr", w, t, k)


def rotl(t, k, w):
    if isc(k):
        k %= w
        if k == 0:
            return t
        return concat([(ext(t, w - k, k), k), (ext(t, 0, w - k), w - k)])
    return mk("rotl", w, t, k)


def bswap(t, w):
    n = w // 8
    return concat([(ext(t, 8 * (n - 1 - i), 8), 8) for i in range(n)])


# --- bitwise --------------------------------------------------------------------
def _split2(a, b, w):
    """Cut two values at common boundaries: [(a_piece, b_piece, n)]"""
    pa, pb = list(pieces(a, w)), list(pieces(b, w))
    out = []
    i = j = 0
    oa = ob = 0
    while i < len(pa) and j < len(pb):
        sa, la, na = pa[i]
        sb, lb, nb = pb[j]
        n = min(na - oa, nb - ob)
        xa = (sa >> oa) & mask(n) if isc(sa) else (sa, la + oa, n)
        xb = (sb >> ob) & mask(n) if isc(sb) else (sb, lb + ob, n)
        out.append((xa, xb, n))
        oa += n
        ob += n
        if oa == na:
            i, oa = i + 1, 0
        if ob == nb:
            j, ob = j + 1, 0
    return out


def _pt(x, n):
    """piece -> term"""
    if isc(x):
        return x
    s, lo, k = x
    return mk_ext(s, lo, k) if not (lo == 0 and s.w == k) else s


def _runs(c, n):
    out = []
    i = 0
    while i < n:
        b = (c >> i) & 1
        j = i
        while j < n and (c >> j) & 1 == b:
            j += 1
        out.append((i, j - i, b))
        i = j
    return out


_TT = {"and": 8, "or": 14, "xor": 6}    # index bit = b*2 + a


def _isbits(x):
    return not isc(x) and x.op == "bits"


def bitop(op, a, b, w):
    if isc(a):
        a, b = b, a
    if isc(a):
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    m = mask(w)
    if isc(b):
        if b == 0:
            return 0 if op == "and" else a
        if b == m:
            if op == "and":
                return a
            if op == "or":
                return m
            return bnot(a, w)
        out = []
        for pos, n, bit in _runs(b, w):
            e = ext(a, pos, n)
            if op == "and":
                e = e if bit else 0
            elif op == "or":
                e = mask(n) if bit else e
            elif bit:
                e = bnot(e, n)
            out.append((e, n))
        return concat(out)
    if a is b:
        return 0 if op == "xor" else a
    if a.op == "gf2" and b.op == "gf2":
        if op == "xor":
            return gf2(tuple(x ^ y for x, y in zip(a.a, b.a)))
        if op == "or" and all(not x or not y for x, y in zip(a.a, b.a)):
            return gf2(tuple(x | y for x, y in zip(a.a, b.a)))
    sp = _split2(a, b, w)
    if len(sp) > 1 and all(isc(x) or isc(y) for x, y, n in sp):
        return concat([(bitop(op, _pt(x, n), _pt(y, n), n), n) for x, y, n in sp])
    return bits_op(_TT[op], [a, b], w)


def bnot(a, w):
    if isc(a):
        return ~a & mask(w)
    if a.op == "gf2":
        return gf2(tuple(x ^ 1 for x in a.a))
    if w == 1:
        if a.op == "not1":
            return a.a[0]
        return mk("not1", 1, a)
    if a.op == "cat" and len(a.a) > 1:
        return concat([(bnot(_pt(p if not isc(p[0]) else p[0], p[2]), p[2]), p[2]) for p in a.a])
    return bits_op(1, [a], w)


def bits_op(tt, args, w):
    """Truth table over word operands, canonical: sorted relevant atoms."""
    # substitute nested tables
    ats = []
    for x in args:
        for y in (x.a[1] if _isbits(x) else [x] if not isc(x) else []):
            if y not in ats:
                ats.append(y)
    for x in args:
        if isc(x) and x not in (0, mask(w)):
            # mixed constant: push piecewise
            out = []
            for pos, n, bit in _runs(x, w):
                out.append((bits_op(tt, [ext(y, pos, n) for y in args], n), n))
            return concat(out)
    if len(ats) > 7:
        return mk("bitsx", w, tt, tuple(args))
    ats.sort(key=lambda y: y.id)
    idx = {y: i for i, y in enumerate(ats)}
    nt = 0
    for v in range(1 << len(ats)):
        k = 0
        for j, x in enumerate(args):
            if isc(x):
                bit = x & 1
            elif _isbits(x):
                q = 0
                for i2, y in enumerate(x.a[1]):
                    if v >> idx[y] & 1:
                        q |= 1 << i2
                bit = x.a[0] >> q & 1
            else:
                bit = v >> idx[x] & 1
            k |= bit << j
        if tt >> k & 1:
            nt |= 1 << v
    # drop irrelevant atoms
    i = 0
    while i < len(ats):
        n = len(ats)
        rel = False
        for v in range(1 << n):
            if not v >> i & 1 and (nt >> v & 1) != (nt >> (v | 1 << i) & 1):
                rel = True
                break
        if rel:
            i += 1
            continue
        t2 = 0
        for v in range(1 << (n - 1)):
            lowm = v & mask(i) if i else 0
            full = lowm | ((v >> i) << (i + 1))
            if nt >> full & 1:
                t2 |= 1 << v
        nt = t2
        del ats[i]
    if not ats:
        return mask(w) if nt & 1 else 0
    if len(ats) == 1 and nt == 2:
        return ats[0]
    if w == 1 and len(ats) == 1 and nt == 1:
        return bnot(ats[0], 1)
    return mk("bits", w, nt, tuple(ats))


def band(a, b, w):
    if w == 1:
        return and1(a, b)
    return bitop("and", a, b, w)


def bor(a, b, w):
    if w == 1:
        return bnot(and1(bnot(a, 1), bnot(b, 1)), 1)
    return bitop("or", a, b, w)


def xor(a, b, w):
    if w == 1:
        if isc(a):
            a, b = b, a
        if isc(b):
            return (a ^ 1 if isc(a) else bnot(a, 1)) if b else a
        if a is b:
            return 0
        return bnot(eq(a, b, 1), 1)
    return bitop("xor", a, b, w)


def and1(a, b):
    if isc(a):
        return b if a else 0
    if isc(b):
        return a if b else 0
    if a is b:
        return a
    s = []
    for x in (a, b):
        for y in (x.a if x.op == "and1" else (x,)):
            if y not in s:
                s.append(y)
    for x in s:
        if bnot(x, 1) in s:
            return 0
    s.sort(key=lambda y: y.id)
    return mk("and1", 1, *s)


def or1(a, b):
    return bnot(and1(bnot(a, 1), bnot(b, 1)), 1)


# --- comparisons ------------------------------------------------------------------
def eq(a, b, w):
    if isc(a) and isc(b):
        return int(a == b)
    if a is b:
        return 1
    if w == 1:
        if isc(a):
            a, b = b, a
        if isc(b):
            return a if b else bnot(a, 1)
    else:
        if isc(a):
            a, b = b, a
        if not isc(a) and a.op == "lin" or not isc(b) and b.op == "lin":
            d = sub(a, b, w)
            if isc(d):
                return int(d == 0)
            if d.op == "lin":
                c, its = d.a
                # canonical sign: first coefficient positive
                if its[0][1] < 0:
                    d = neg(d, w)
                    c, its = d.a if d.op == "lin" else (0, ((d, 1),))
                if len(its) == 1 and its[0][1] == 1:
                    a, b = its[0][0], -c & mask(w)
                elif len(its) == 2 and c == 0 and its[0][1] == 1 and its[1][1] == -1:
                    a, b = its[0][0], its[1][0]
                else:
                    a, b = mk_lin(w, 0, dict(its)), -c & mask(w)
            else:
                a, b = d, 0
        if isc(b) and not isc(a):
            if a.op == "cat":
                r = 1
                pos = 0
                for s, lo, n in a.a:
                    v = (b >> pos) & mask(n)
                    if isc(s):
                        if s != v:
                            return 0
                    else:
                        x = s if lo == 0 and s.w == n else mk("cat", n, (s, lo, n))
                        if n == 1 and x.w == 1:
                            e = x if v else bnot(x, 1)
                        else:
                            e = mk("eq", 1, x, v)
                        r = and1(r, e)
                    pos += n
                return r
            if a.op == "sext":
                w0 = a.a[0].w
                if sgn(b, w) != sgn(b & mask(w0), w0):
                    return 0
                return eq(a.a[0], b & mask(w0), w0)
            if a.op == "ite":
                return ite(a.a[0], eq(a.a[1], b, w), eq(a.a[2], b, w), 1)
            if a.op == "bits" and len(a.a[1]) == 1:
                return eq(a.a[1][0], ~b & mask(w), w)
    if isc(b):
        return mk("eq", 1, a, b)
    if a.op == "cat" or b.op == "cat":
        sp = _split2(a, b, w)
        if len(sp) > 1 and any(isc(x) or isc(y) for x, y, n in sp):
            r = 1
            for x, y, n in sp:
                r = and1(r, eq(_pt(x, n), _pt(y, n), n))
            return r
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, a, b)


def _common_zext(a, b, w):
    """Strip common zero upper bits."""
    def top(x):
        if isc(x):
            return x.bit_length()
        p = pieces(x, w)
        if isc(p[-1][0]) and p[-1][0] == 0:
            return w - p[-1][2]
        return w
    n = max(top(a), top(b), 1)
    if n < w:
        return ext(a, 0, n), ext(b, 0, n), n
    return a, b, w


def ult(a, b, w):
    if isc(a) and isc(b):
        return int(a < b)
    if a is b:
        return 0
    if isc(b) and b == 0:
        return 0
    if isc(a) and a == mask(w):
        return 0
    if isc(b) and b == 1:
        return eq(a, 0, w)
    if isc(a) and a == 0:
        return bnot(eq(b, 0, w), 1)
    if w == 1:
        return and1(bnot(a, 1), b)
    if not isc(b) and isc(a):
        return bnot(mk_ult(b, (a + 1) & mask(w), w), 1)     # a < b  <=>  !(b < a+1)
    return mk_ult(a, b, w)


def mk_ult(a, b, w):
    if isc(a) and isc(b):
        return int(a < b)
    if isc(b) and not isc(a) and a.op == "ite":
        return ite(a.a[0], ult(a.a[1], b, w), ult(a.a[2], b, w), 1)
    a, b, w = _common_zext(a, b, w)
    if isc(a) and isc(b):
        return int(a < b)
    if isc(b) and (b >> w):
        return 1
    return mk("ult", 1, a, b)


def ule(a, b, w):
    return bnot(ult(b, a, w), 1)


def slt(a, b, w):
    if isc(a) and isc(b):
        return int(sgn(a, w) < sgn(b, w))
    if a is b:
        return 0

    def nonneg(x):
        if isc(x):
            return not x >> (w - 1)
        p = pieces(x, w)
        return isc(p[-1][0]) and not p[-1][0] >> (p[-1][2] - 1)
    if nonneg(a) and nonneg(b):
        return ult(a, b, w)
    if isc(b) and b == 0 and not isc(a):
        return ext(a, w - 1, 1)
    h = 1 << (w - 1)
    # bias: signed order is the unsigned order of x + 2^(w-1)
    if not isc(a) and not isc(b) and a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0], a.a[0].w)
    return mk("slt", 1, a, b)


def sle(a, b, w):
    return bnot(slt(b, a, w), 1)


def ite(c, a, b, w):
    if isc(c):
        return a if c else b
    if a is b or (isc(a) and isc(b) and a == b):
        return a
    if c.op == "not1":
        return ite(c.a[0], b, a, w)
    if w == 1 and isc(a) and isc(b):
        return c if a else bnot(c, 1)
    return mk("ite", w, c, a, b)


def udiv(a, b, w):
    if isc(b) and b:
        if isc(a):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return mk("udiv", w, a, b)


def urem(a, b, w):
    if isc(b) and b:
        if isc(a):
            return a % b
        if b & (b - 1) == 0:
            return band(a, b - 1, w)
    return mk("urem", w, a, b)


def sdiv(a, b, w):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return mk("sdiv", w, a, b)


def srem(a, b, w):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return mk("srem", w, a, b)


def fn(name, w, *args):
    return mk("fn", w, name, *args)


def sel(base, idx):
    """Byte `idx` of the symbolic byte sequence `base` (any hashable)."""
    return mk("sel", 8, base, idx)


def addr(alloc, w):
    return mk("addr", w, alloc)


# --- utilities ------------------------------------------------------------------------
def subterms(t):
    if isc(t):
        return
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def atoms(t):
    if isc(t):
        return frozenset()
    if t._atoms is None:
        s = set()
        if t.op in ("var", "addr"):
            s.add(t)
        else:
            for x in subterms(t):
                s |= atoms(x)
        t._atoms = frozenset(s)
    return t._atoms


def subst(t, m, memo=None):
    """Replace terms per mapping `m` (term -> term/int), rebuilding canonically."""
    if isc(t):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    a = t.a
    w = t.w

    def S(x):
        return subst(x, m, memo) if isinstance(x, T) else x
    op = t.op
    if op in ("var", "addr"):
        r = t
    elif op == "lin":
        r = a[0]
        for x, k in a[1]:
            r = add(r, mulc(S(x), k, w), w)
    elif op == "cat":
        r = concat([(ext(S(s), lo, n) if isinstance(s, T) else s, n) for s, lo, n in a])
    elif op == "bits":
        r = bits_op(a[0], [S(x) for x in a[1]], w)
    elif op == "bitsx":
        r = bits_op(a[0], [S(x) for x in a[1]], w)
    elif op == "eq":
        x = S(a[0])
        r = eq(x, S(a[1]), a[0].w)
    elif op == "ult":
        ww = a[0].w if isinstance(a[0], T) else a[1].w
        r = ult(S(a[0]), S(a[1]), ww)
    elif op == "slt":
        ww = a[0].w if isinstance(a[0], T) else a[1].w
        r = slt(S(a[0]), S(a[1]), ww)
    elif op == "not1":
        r = bnot(S(a[0]), 1)
    elif op == "and1":
        r = 1
        for x in a:
            r = and1(r, S(x))
    elif op == "ite":
        r = ite(S(a[0]), S(a[1]), S(a[2]), w)
    elif op == "mul":
        r = mul(S(a[0]), S(a[1]), w)
    elif op == "sext":
        r = sext(S(a[0]), a[0].w, w)
    elif op in ("shl", "lshr", "ashr", "rotl", "udiv", "urem", "sdiv", "srem"):
        r = {"shl": shl, "lshr": lshr, "ashr": ashr, "rotl": rotl, "udiv": udiv, "urem": urem,
             "sdiv": sdiv, "srem": srem}[op](S(a[0]), S(a[1]), w)
    elif op == "sel":
        r = sel(a[0], S(a[1]))
    else:
        r = mk(op, w, *[S(x) for x in a])
    memo[t] = r
    return r


def show(t, depth=6):
    if isc(t):
        return str(t) if t < 4096 else hex(t)
    if depth == 0:
        return "…"
    a = t.a

    def s(x):
        return show(x, depth - 1) if isinstance(x, T) or isc(x) else str(x)
    if t.op == "var":
        return str(a[0])
    if t.op == "addr":
        return "&%s" % (a[0],)
    if t.op == "lin":
        out = []
        for x, k in a[1]:
            out.append(("%s" if k == 1 else "-%s" if k == -1 else str(k) + "*%s") % s(x))
        c = sgn(a[0], t.w)
        if c:
            out.append(str(c))
        return "(" + " + ".join(out) + ")"
    if t.op == "cat":
        return "{" + ",".join("%s:%d" % (s(x), n) if isc(x) else "%s[%d+%d]" % (s(x), lo, n) for x, lo, n in a) + "}"
    if t.op in ("bits", "bitsx"):
        return "bits<%x>(%s)" % (a[0], ", ".join(s(x) for x in a[1]))
    return "%s(%s)" % (t.op, ", ".join(s(x) for x in a))


def ev(t, env, memo=None):
    """Value of a term under a valuation of its atoms; env(atom) supplies atom values."""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if isc(x) or x in memo:
            st.pop()
            continue
        kids = [y for y in _kids(x) if not isc(y) and y not in memo]
        if kids:
            st.extend(kids)
            continue
        memo[x] = _ev1(x, env, memo)
        st.pop()
    return t if isc(t) else memo[t]


def _kids(x):
    op = x.op
    if op in ("var", "addr", "gf2"):
        return ()
    if op == "lin":
        return [y for y, k in x.a[1]]
    if op == "cat":
        return [p[0] for p in x.a]
    if op in ("bits", "bitsx"):
        return x.a[1]
    if op == "sel":
        return (x.a[1],)
    if op == "fn":
        return [y for y in x.a[1:] if isc(y) or y.__class__ is T]
    return [y for y in x.a if isc(y) or y.__class__ is T]


def _ev1(x, env, memo):
    def g(y):
        return y if isc(y) else memo[y]
    op, w, a = x.op, x.w, x.a
    m = mask(w)
    if op in ("var", "addr"):
        return env(x) & m
    if op == "sel":
        return env((a[0], g(a[1]))) & 255
    if op == "lin":
        return (a[0] + sum(g(y) * k for y, k in a[1])) & m
    if op == "cat":
        r = pos = 0
        for s, lo, n in a:
            r |= ((g(s) >> lo) & mask(n)) << pos
            pos += n
        return r
    if op in ("bits", "bitsx"):
        tt, ats = a
        r = 0
        vs = [g(y) for y in ats]
        for i in range(w):
            k = 0
            for j, v in enumerate(vs):
                k |= (v >> i & 1) << j
            r |= (tt >> k & 1) << i
        return r
    if op == "gf2":
        r = 0
        for i, row in enumerate(a):
            b = row & 1
            j = 1
            row >>= 1
            while row:
                if row & 1:
                    b ^= env(("gf2", j)) & 1
                row >>= 1
                j += 1
            r |= b << i
        return r
    if op == "not1":
        return g(a[0]) ^ 1
    if op == "and1":
        return int(all(g(y) for y in a))
    if op == "eq":
        return int(g(a[0]) == g(a[1]))
    if op == "ult":
        return int(g(a[0]) < g(a[1]))
    if op == "slt":
        ww = a[0].w if a[0].__class__ is T else a[1].w
        return int(sgn(g(a[0]), ww) < sgn(g(a[1]), ww))
    if op == "ite":
        return g(a[1]) if g(a[0]) else g(a[2])
    if op == "sext":
        return sgn(g(a[0]), a[0].w) & m
    if op == "mul":
        return g(a[0]) * g(a[1]) & m
    if op in ("udiv", "urem", "sdiv", "srem"):
        p, q = g(a[0]), g(a[1])
        if q == 0:
            raise ZeroDivisionError
        return {"udiv": lambda: p // q, "urem": lambda: p % q, "sdiv": lambda: sdiv(p, q, w), "srem": lambda: srem(p, q, w)}[op]()
    if op in ("shl", "lshr", "ashr", "rotl"):
        p, k = g(a[0]), g(a[1])
        if op == "shl":
            return (p << k) & m if k < w else 0
        if op == "lshr":
            return p >> k
        if op == "ashr":
            return (sgn(p, w) >> min(k, w - 1)) & m
        k %= w
        return ((p << k) | (p >> (w - k))) & m if k else p
    if op == "fn":
        vs = [g(y) if isc(y) or y.__class__ is T else y for y in a[1:]]
        if a[0] == "ctpop":
            return bin(vs[0]).count("1")
        if a[0].startswith("ctlz"):
            return int(a[0][4:]) - vs[0].bit_length()
        if a[0].startswith("cttz"):
            return (vs[0] & -vs[0]).bit_length() - 1 if vs[0] else int(a[0][4:])
        return hash((a[0],) + tuple(str(v) for v in vs)) & m
    raise NotImplementedError(op)
