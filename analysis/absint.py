"""Forward abstract interpretation of monomorphised MIR.

States are partitioned by the branches taken (disjunctive completion); within a
partition values are canonical terms (value numbering), constrained by intervals and
linear inequalities.  Memory is a set of allocations with byte-addressed cells and,
for sequences of unknown length, a symbolic base plus a log of updates."""
import sys

from terms import *
from terms import T, mk
import terms as tm
from dom import Facts

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class UB(Exception):
    pass


class Panic(Exception):
    pass


class Split(Exception):
    """The step needs to know one of several mutually exclusive facts."""

    def __init__(self, alts):
        self.alts = alts        # [(cond, bool)]


class P:
    """Pointer: allocation and byte offset."""
    __slots__ = ("aid", "off")

    def __init__(self, aid, off=0):
        self.aid = aid
        self.off = off

    def __eq__(self, o):
        return o.__class__ is P and self.aid == o.aid and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.aid, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.aid, self.off)


class A:
    """Aggregate value: cells (offset, size, value)."""
    __slots__ = ("cells", "size")

    def __init__(self, cells, size):
        self.cells = cells
        self.size = size

    def get(self, off, size=None):
        for o, s, v in self.cells:
            if o == off and (size is None or s == size):
                return v
        return None

    def __repr__(self):
        return "A%s" % (self.cells,)


class Alloc:
    __slots__ = ("size", "cells", "base", "log", "owner", "blob", "rel", "align", "ro", "name", "live", "undef")

    def __init__(self, size, align=1, name=None):
        self.size = size
        self.cells = {}
        self.base = None
        self.log = ()
        self.owner = None
        self.blob = None
        self.rel = None
        self.align = align
        self.ro = False
        self.name = name
        self.live = True
        self.undef = ()

    def copy(self):
        a = Alloc.__new__(Alloc)
        a.size, a.cells, a.base, a.log, a.blob, a.rel, a.align, a.ro, a.name, a.live, a.undef = (
            self.size, dict(self.cells), self.base, self.log, self.blob, self.rel, self.align, self.ro, self.name, self.live, self.undef)
        a.owner = None
        return a


class Frame:
    __slots__ = ("fi", "fn", "loc", "bb", "si", "dest", "target", "visits", "tag")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fi, f.fn, f.bb, f.si, f.dest, f.target, f.tag = self.fi, self.fn, self.bb, self.si, self.dest, self.target, self.tag
        f.loc = list(self.loc)
        f.visits = self.visits
        return f


class State:
    __slots__ = ("frames", "mem", "facts", "trace", "user", "tok", "steps", "notes")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.trace = ()
        self.user = {}
        self.tok = object()
        self.steps = 0
        self.notes = ()

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.user = dict(self.user)
        s.tok = object()
        self.tok = object()
        s.steps = self.steps
        s.notes = self.notes
        return s

    def w(self, aid):
        """Allocation for writing."""
        a = self.mem[aid]
        if a.owner is not self.tok:
            a = a.copy()
            a.owner = self.tok
            self.mem[aid] = a
        return a

    # --- facts
    def decide(self, c):
        if isc(c):
            return bool(c)
        return self.facts.decide(c)

    def truth(self, c):
        if isc(c):
            return bool(c)
        d = self.facts.decide(c)
        if d is None:
            raise Split([(c, True), (c, False)])
        return d

    def assume(self, c, v=True):
        return self.facts.assume(c, v)

    def emit(self, *ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t:
            t, e = t
            out.append(e)
        out.reverse()
        return out


class Outcome:
    __slots__ = ("kind", "st", "val", "info", "where")

    def __init__(self, kind, st, val=None, info=None, where=None):
        self.kind, self.st, self.val, self.info, self.where = kind, st, val, info, where

    def __repr__(self):
        return "Outcome(%s, %s, %s, %s)" % (self.kind, self.val, self.info, self.where)


_aid = [0]


def newid(tag="m"):
    _aid[0] += 1
    return (tag, _aid[0])


PRIM = {"int", "bool", "char", "float", "ptr", "ref", "fnptr"}


class Prog:
    """A mono dump prepared for interpretation."""

    def __init__(self, dump):
        self.d = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.allocs = dump["allocs"]
        self.files = dump["files"]
        self.ptr = dump["ptr"]
        self.ps = self.ptr // 8
        self.big = dump["big"]
        self.roots = {n.split("::", 1)[1].split("::", 1)[1] if n.count("::") >= 2 else n: i for n, i in dump["roots"]}
        self._const = {}
        self._sc = {}
        self._effect = {}
        for f in self.fns:
            for k in ("n", "path"):
                # names of crates the harness declares itself
                for x in ("alloc", "osi", "sys", "tmp"):
                    f[k] = f[k].replace("vpharness::%s::" % x, x + "::")
            for bb in f.get("bbs", ()):
                t = bb[1]
                if t[0] == "sw":
                    for b in t[2]:
                        b[0] = int(b[0])
        for t in self.types:
            l = t.get("l")
            if l and "nstart" in l:
                l["nstart"] = int(l["nstart"])
            for v in t.get("vars", ()):
                if v.get("discr") is not None:
                    v["discr"] = int(v["discr"])

    def size(self, ty):
        l = self.types[ty].get("l")
        return l["size"] if l else 0

    def align(self, ty):
        l = self.types[ty].get("l")
        return l["align"] if l else 1

    def scalar(self, ty):
        """Bit width if the type is handled as a single scalar, else 0."""
        r = self._sc.get(ty)
        if r is None:
            t = self.types[ty]
            k = t["k"]
            r = 0
            if k == "pat":
                r = self.scalar(t["base"])
            elif k in PRIM:
                s = self.size(ty)
                if k in ("ptr", "ref") and s != self.ps:
                    r = 0
                else:
                    r = s * 8
            self._sc[ty] = r
        return r

    def bits(self, ty):
        """(width, signed, value width) of an integer-like type."""
        t = self.types[ty]
        k = t["k"]
        if k == "int":
            return t["bits"], t["signed"]
        if k == "bool":
            return 8, False
        if k == "char":
            return 32, False
        if k == "pat":
            return self.bits(t["base"])
        if k in ("ptr", "ref", "fnptr"):
            return self.ptr, False
        if k == "float":
            return self.size(ty) * 8, False
        if k == "adt":
            return self.size(ty) * 8, False
        raise Undecided("bits of " + t["n"])

    def wide(self, ty):
        t = self.types[ty]
        return t["k"] in ("ptr", "ref") and self.size(ty) == 2 * self.ps

    def effectful(self, fi, seen=None):
        """Does the call graph below `fi` reach a harness callback?"""
        r = self._effect.get(fi)
        if r is not None:
            return r
        seen = set()
        todo = [fi]
        r = False
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.fns[x]
            if f.get("foreign") and f["crate"] == "vpharness":
                r = True
                break
            for bb in f.get("bbs", ()):
                t = bb[1]
                if t[0] == "call" and isinstance(t[1], int):
                    todo.append(t[1])
                elif t[0] == "drop" and t[3] is not None:
                    todo.append(t[3])
        self._effect[fi] = r
        return r

    def live(self, fi):
        """Locals that may be read from the start of each block on (backward dataflow)."""
        f = self.fns[fi]
        if "live" in f:
            return f["live"]
        bbs = f["bbs"]
        use, dfn, succ = [], [], []
        taken = set()

        def walk(x, out):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                    out.add(x[0])
                    for e in x[1]:
                        if isinstance(e, list) and e and e[0] in ("i", "idx", "index"):
                            out.update(y for y in e[1:] if isinstance(y, int))
                    return
                for y in x:
                    walk(y, out)

        for b in bbs:
            u, d = set(), set()
            for st in b[0]:
                if st[0] == "=":
                    r = set()
                    walk(st[2:3], r)
                    if st[2][0] in ("ref", "raw", "addr") and "d" not in st[2][-1][1]:
                        taken.add(st[2][-1][0])
                    u |= r - d
                    if st[1][1]:
                        if st[1][0] not in d:
                            u.add(st[1][0])
                    else:
                        d.add(st[1][0])
                elif st[0] in ("live", "dead"):
                    d.add(st[1])
                else:
                    r = set()
                    walk(st[1:], r)
                    u |= r - d
            t = b[1]
            r, ss = set(), []
            if t[0] == "goto":
                ss = [t[1]]
            elif t[0] == "sw":
                walk(t[1], r)
                ss = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "call":
                walk(t[2:4], r)
                if t[4][1]:
                    r.add(t[4][0])
                ss = [t[5]]
            elif t[0] == "ret":
                r.add(0)
            elif t[0] == "assert":
                walk(t[1], r)
                ss = [t[4]]
            elif t[0] == "drop":
                r.add(t[1][0])
                ss = [t[2]]
            u |= r - d
            if t[0] == "call" and not t[4][1]:
                d.add(t[4][0])
            use.append(u)
            dfn.append(d)
            succ.append([x for x in ss if isinstance(x, int)])
        live = [set() for _ in bbs]
        ch = True
        while ch:
            ch = False
            for i in range(len(bbs) - 1, -1, -1):
                o = set()
                for j in succ[i]:
                    o |= live[j]
                n = use[i] | (o - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        for l in live:
            l |= taken
        f["live"] = live
        return live

    def pathname(self, fi):
        return self.fns[fi]["path"].replace("vpharness::", "")


class Interp:
    def __init__(self, prog, foreign=None, models=None, max_steps=400000, max_states=4000, loop_bound=300, drops=False):
        self.p = prog
        self.foreign = foreign or {}
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.max_steps = max_steps
        self.max_states = max_states
        self.loop_bound = loop_bound
        self.drops = drops
        self.fns_seen = set()
        self.total_steps = 0
        self._modcache = {}
        self.loop_hook = None
        self.call_hook = None
        self.enter_hook = None
        self.check_align = False

    # --- memory ------------------------------------------------------------
    def alloc(self, st, size, align=1, name=None, base=None):
        aid = newid(name or "m")
        a = Alloc(size, align, name)
        a.base = base
        a.owner = st.tok
        st.mem[aid] = a
        return aid

    def get_alloc(self, st, aid):
        a = st.mem.get(aid)
        if a is None:
            if aid[0] == "g":
                a = self.load_global(aid[1])
                st.mem[aid] = a
            else:
                raise UB("access to dead allocation %s" % (aid,))
        return a

    def load_global(self, ix):
        g = self.p.allocs[ix]
        if "at" in g:
            return self.load_global(g["at"])
        if "b" not in g:
            raise Undecided("global alloc %s" % list(g))
        h = g["b"]
        a = Alloc(len(h) // 2, g["align"], "g%d" % ix)
        a.blob = bytes.fromhex(h.replace("__", "00"))
        if "_" in h:
            a.undef = frozenset(i for i in range(len(h) // 2) if h[2 * i] == "_")
        a.rel = {o: x for o, x in g["p"]}
        a.ro = not g["mut"]
        return a

    def rd_int(self, blob, off, n):
        return int.from_bytes(blob[off:off + n], "big" if self.p.big else "little")

    def relptr(self, blob, off, target):
        o = self.rd_int(blob, off, self.p.ps)
        return P(("g", target), o)

    def read(self, st, aid, off, size):
        """Scalar read of `size` bytes; value is int, T, P or None (undefined)."""
        a = self.get_alloc(st, aid)
        if off.__class__ is int and not a.log:
            c = a.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
        return self.read_slow(st, a, aid, off, size)

    def bounds(self, st, a, off, size, what="access"):
        """In-bounds check; raises UB / Split."""
        sz = a.size
        if off.__class__ is int and sz.__class__ is int:
            if off < 0 or off + size > sz:
                raise UB("out-of-bounds %s at %s+%d of %s" % (what, off, size, sz))
            return
        w = self.p.ptr
        c = and1(ule(off, sz, w), ule(size, sub(sz, off, w), w)) if not (isc(off) and off < 0) else 0
        d = st.decide(c)
        if d is True:
            return
        if d is False:
            raise UB("out-of-bounds %s at %s+%d of %s" % (what, show(off), size, show(sz)))
        raise Split([(c, True), (c, False)])

    def read_slow(self, st, a, aid, off, size):
        if size == 0:
            return None
        if a.size is not None:
            self.bounds(st, a, off, size, "read")
        if off.__class__ is not int:
            r = st.facts.range(off)
            if r[0] == r[1]:
                off = r[0]
        if a.log:
            for ent in reversed(a.log):
                v = self.log_lookup(st, ent, off, size)
                if v is not NOHIT:
                    return v
        if off.__class__ is int:
            c = a.cells.get(off)
            if c is not None:
                if c[0] == size:
                    return c[1]
            if a.blob is not None:
                return self.read_blob(a, off, size)
            # assemble
            parts = []
            pos = off
            end = off + size
            while pos < end:
                c = a.cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    if c[1] is None:
                        return None
                    parts.append((c[1], c[0]))
                    pos += c[0]
                    continue
                hit = None
                for back in range(0, 16):
                    c = a.cells.get(pos - back)
                    if c is not None:
                        if c[0] > back:
                            hit = (pos - back, c)
                        break
                if hit is not None:
                    o, (cs, cv) = hit
                    if cv is None:
                        return None
                    n = min(o + cs, end) - pos
                    cv = self.as_int(st, cv)
                    if self.p.big:
                        lo = (cs - (pos - o) - n) * 8
                    else:
                        lo = (pos - o) * 8
                    parts.append((ext(cv, lo, n * 8) if not isc(cv) else (cv >> lo) & mask(n * 8), n))
                    pos += n
                    continue
                if a.base is None:
                    return None
                parts.append((self.base_sel(a.base, pos), 1))
                pos += 1
            if len(parts) == 1:
                return parts[0][0]
            ps = [(self.as_int(st, v), n * 8) for v, n in parts]
            if self.p.big:
                ps.reverse()
            return concat(ps)
        # symbolic offset
        if a.base is not None and not a.cells:
            bs = [(self.base_sel(a.base, add(off, i, self.p.ptr)), 8) for i in range(size)]
            if self.p.big:
                bs.reverse()
            return concat(bs) if size > 1 else bs[0][0]
        # enumerate candidate offsets
        lo, hi = st.facts.range(off)
        if a.base is not None:
            # may hit one of the concrete cells
            for o, (cs, cv) in sorted(a.cells.items()):
                if o + cs > lo and o < hi + size:
                    for k in range(-size + 1, cs):
                        e = eq(off, (o + k) & mask(self.p.ptr), self.p.ptr)
                        if st.decide(e) is None:
                            raise Split([(e, True), (e, False)])
            bs = [(self.base_sel(a.base, add(off, i, self.p.ptr)), 8) for i in range(size)]
            if self.p.big:
                bs.reverse()
            return concat(bs) if size > 1 else bs[0][0]
        if a.size.__class__ is int:
            hi = min(hi, a.size - size)
        cand = []
        stride = self.stride_of(off)
        start = lo
        if stride > 1:
            k = self.residue_of(off, stride)
            start = lo + (k - lo) % stride
        n = 0
        x = start
        while x <= hi:
            e = eq(off, x, self.p.ptr)
            if st.decide(e) is not False:
                cand.append((e, True))
            x += stride
            n += 1
            if n > 1024:
                raise Undecided("symbolic index into %s-byte table" % a.size)
        if not cand:
            raise UB("no feasible index")
        raise Split(cand)

    def base_sel(self, base, idx):
        if callable(base):
            return base(idx)
        return sel(base, idx)

    def stride_of(self, off):
        if off.op == "lin":
            g = 0
            for t, k in off.a[1]:
                g |= abs(k)
            return g & -g
        if off.op == "cat" and isc(off.a[0][0]) and off.a[0][0] == 0:
            return 1 << off.a[0][2]
        return 1

    def residue_of(self, off, stride):
        if off.op == "lin":
            return off.a[0] % stride
        return 0

    def read_blob(self, a, off, size):
        if a.rel:
            if size == self.p.ps and off in a.rel:
                return self.relptr(a.blob, off, a.rel[off])
        if a.undef and any(i in a.undef for i in range(off, off + size)):
            return None
        return self.rd_int(a.blob, off, size)

    def log_lookup(self, st, ent, off, size):
        w = self.p.ptr
        kind = ent[0]
        if kind == "w":
            _, o, s, v = ent
            d = sub(off, o, w)
            if isc(d):
                k = sgn(d, w)
                if k == 0 and s == size:
                    return v
                if k >= s or k <= -size:
                    return NOHIT
                if k >= 0 and k + size <= s:
                    vv = self.as_int(st, v)
                    lo = (s - k - size) * 8 if self.p.big else k * 8
                    return ext(vv, lo, size * 8)
                raise Undecided("partially overlapping access")
            # decide relation
            for k in range(-size + 1, s):
                e = eq(d, k & mask(w), w)
                r = st.decide(e)
                if r is True:
                    return self.log_lookup(st, ("w", sub(off, k & mask(w), w), s, v), off, size)
                if r is None:
                    raise Split([(e, True), (e, False)])
            return NOHIT
        # range entries: covers [o, o+n)
        _, o, n, f = ent
        before = ule(add(off, size, w), o, w)
        r = st.decide(before)
        if r is None:
            raise Split([(before, True), (before, False)])
        if r:
            return NOHIT
        after = ule(add(o, n, w), off, w)
        r = st.decide(after)
        if r is None:
            raise Split([(after, True), (after, False)])
        if r:
            return NOHIT
        if size > 1:
            ins = and1(ule(o, off, w), ule(add(off, size, w), add(o, n, w), w))
            r = st.decide(ins)
            if r is None:
                raise Split([(ins, True), (ins, False)])
            if not r:
                raise Undecided("access straddles a copied range")
        return f(self, st, sub(off, o, w), size)

    def write(self, st, aid, off, size, v):
        if size == 0:
            return
        a = self.get_alloc(st, aid)
        if a.owner is not st.tok:
            a = st.w(aid)
        if a.ro:
            raise UB("write to read-only memory")
        if off.__class__ is int and not a.log and a.blob is None:
            c = a.cells.get(off)
            if c is not None and c[0] == size:
                a.cells[off] = (size, v)
                return
        if a.size is not None:
            self.bounds(st, a, off, size, "write")
        if off.__class__ is not int:
            r = st.facts.range(off)
            if r[0] == r[1]:
                off = r[0]
        if a.blob is not None:
            self.unblob(a)
        if off.__class__ is int and not a.log:
            self.clear_range(a, off, size)
            a.cells[off] = (size, v)
        else:
            if a.log and a.log[-1][0] == "w" and a.log[-1][1] == off and a.log[-1][2] == size:
                a.log = a.log[:-1]
            a.log = a.log + (("w", off, size, v),)

    def unblob(self, a):
        for i in range(len(a.blob)):
            if i not in a.undef:
                a.cells[i] = (1, a.blob[i])
        for o, x in (a.rel or {}).items():
            p = self.relptr(a.blob, o, x)
            self.clear_range(a, o, self.p.ps)
            a.cells[o] = (self.p.ps, p)
        a.blob = None

    def clear_range(self, a, off, size):
        cells = a.cells
        if not cells:
            return
        end = off + size
        # partial overlap from the left
        for back in range(1, 16):
            c = cells.get(off - back)
            if c is not None:
                if c[0] > back:
                    o = off - back
                    self.split_cell(a, o)
                break
        if size <= 64 or size < len(cells):
            for o in range(off, end):
                c = cells.get(o)
                if c is not None:
                    if o + c[0] > end:
                        self.split_cell(a, o)
                    cells.pop(o, None)
        else:
            for o in [o for o in cells if off <= o < end]:
                if o + cells[o][0] > end:
                    self.split_cell(a, o)
                del cells[o]

    def split_cell(self, a, o):
        s, v = a.cells.pop(o)
        if v is not None and v.__class__ is P:
            v = self.ptr_int(v)
        for i in range(s):
            if v is None:
                a.cells[o + i] = (1, None)
            else:
                k = (s - 1 - i) if self.p.big else i
                a.cells[o + i] = (1, ext(v, 8 * k, 8) if not isc(v) else (v >> 8 * k) & 255)

    def ptr_int(self, p):
        return add(addr(p.aid, self.p.ptr), p.off & mask(self.p.ptr) if isc(p.off) else p.off, self.p.ptr)

    def as_int(self, st, v):
        if v.__class__ is P:
            return self.ptr_int(v)
        if v is None:
            raise UB("use of uninitialised value")
        return v

    def to_ptr(self, st, v):
        """Recover a pointer from an integer value."""
        if v.__class__ is P:
            return v
        if v is None:
            raise UB("uninitialised pointer")
        if v.__class__ is A:
            return self.to_ptr(st, self.agg_scalar(st, v, v.size))
        if isc(v):
            return v
        if v.op == "addr":
            return P(v.a[0], 0)
        if v.op == "lin":
            ads = [(t, k) for t, k in v.a[1] if t.op == "addr" and k == 1]
            if len(ads) == 1:
                t = ads[0][0]
                o = sub(v, t, self.p.ptr)
                return P(t.a[0], sgn(o, self.p.ptr) if isc(o) else o)
        return v

    def copy_range(self, st, src, soff, dst, doff, n):
        """Untyped copy of n bytes (memmove semantics)."""
        if isc(n) and n == 0:
            return
        sa = self.get_alloc(st, src)
        self.bounds_n(st, sa, soff, n, "read")
        da = self.get_alloc(st, dst)
        self.bounds_n(st, da, doff, n, "write")
        if isc(n) and soff.__class__ is int and not sa.log and (sa.base is None or n <= 4096):
            cells = self.snapshot(st, src, soff, n)
            for o, s, v in cells.cells:
                if v is not None:
                    pass
            self.write_cells(st, dst, doff, cells)
            return
        if isc(n) and n <= 64:
            vals = [self.read(st, src, add(soff, i, self.p.ptr) if soff.__class__ is not int else soff + i, 1) for i in range(n)]
            a = st.w(dst)
            for i, v in enumerate(vals):
                self.write(st, dst, add(doff, i, self.p.ptr) if doff.__class__ is not int else doff + i, 1, v)
            return
        snap = sa.copy()
        snap_soff = soff

        def f(it, st2, d, size, snap=snap, so=snap_soff):
            key = newid("snap")
            st2.mem[key] = snap
            try:
                return it.read(st2, key, add(so, d, it.p.ptr), size)
            finally:
                st2.mem.pop(key, None)
        f.src = (snap, soff)
        a = st.w(dst)
        if a.ro:
            raise UB("write to read-only memory")
        a.log = a.log + (("r", doff, n, f),)

    def bounds_n(self, st, a, off, n, what):
        if a.size is None:
            return
        if isc(n) and off.__class__ is int and a.size.__class__ is int:
            if off < 0 or off + n > a.size:
                raise UB("out-of-bounds %s of %d bytes at %d of %d" % (what, n, off, a.size))
            return
        w = self.p.ptr
        c = and1(ule(off, a.size, w), ule(n, sub(a.size, off, w), w))
        d = st.decide(c)
        if d is None:
            raise Split([(c, True), (c, False)])
        if not d:
            raise UB("out-of-bounds %s of %s bytes at %s of %s" % (what, show(n), show(off), show(a.size)))

    def snapshot(self, st, aid, off, size):
        """Aggregate of `size` bytes."""
        a = self.get_alloc(st, aid)
        if size == 0:
            return A((), 0)
        if off.__class__ is not int:
            r = st.facts.range(off)
            if r[0] == r[1]:
                off = r[0]
        if off.__class__ is int and not a.log:
            if a.size.__class__ is int and (off < 0 or off + size > a.size):
                raise UB("out-of-bounds read")
            if a.blob is not None:
                return self.blob_agg(a.blob, a.rel, a.undef, off, size)
            out = []
            cells = a.cells
            if len(cells) == 1 and off in cells:
                c = cells[off]
                if c[0] <= size and a.base is None:
                    return A(((0, c[0], c[1]),), size)
            end = off + size
            pos = off
            # left partial
            while pos < end:
                c = cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    out.append((pos - off, c[0], c[1]))
                    pos += c[0]
                    continue
                if c is not None:
                    v = self.read_slow(st, a, aid, pos, end - pos)
                    out.append((pos - off, end - pos, v))
                    pos = end
                    continue
                cov = False
                if pos == off:
                    for back in range(1, 16):
                        c = cells.get(pos - back)
                        if c is not None:
                            cov = c[0] > back
                            n = min(pos - back + c[0], end) - pos
                            break
                if cov:
                    v = self.read_slow(st, a, aid, pos, n)
                    out.append((0, n, v))
                    pos += n
                elif a.base is not None:
                    out.append((pos - off, 1, self.base_sel(a.base, pos)))
                    pos += 1
                else:
                    pos += 1
            return A(tuple(out), size)
        # symbolic offset: read bytes
        if size > 256:
            raise Undecided("large aggregate at a symbolic offset")
        # try to find an aligned log entry group
        out = []
        pos = 0
        while pos < size:
            o = add(off, pos, self.p.ptr) if off.__class__ is not int else off + pos
            hit = None
            for ent in reversed(a.log):
                if ent[0] == "w":
                    d = sub(o, ent[1], self.p.ptr)
                    if isc(d) and d == 0 and ent[2] <= size - pos:
                        hit = ent
                        break
                    e = None
                    if not isc(d):
                        break
                    k = sgn(d, self.p.ptr)
                    if -size < k < ent[2]:
                        if k < 0:
                            continue
                        break
                else:
                    break
            if hit is not None:
                out.append((pos, hit[2], hit[3]))
                pos += hit[2]
            else:
                if not a.log and a.cells and a.base is None:
                    # table of cells at symbolic index: resolve the index
                    self.read(st, aid, o, 1)
                out.append((pos, 1, self.read(st, aid, o, 1)))
                pos += 1
        return A(tuple(out), size)

    def blob_agg(self, blob, rel, undef, off, size):
        out = []
        pos = off
        end = off + size
        ps = self.p.ps
        while pos < end:
            if rel and pos in rel:
                out.append((pos - off, ps, self.relptr(blob, pos, rel[pos])))
                pos += ps
            elif undef and pos in undef:
                pos += 1
            else:
                out.append((pos - off, 1, blob[pos]))
                pos += 1
        return A(tuple(out), size)

    def write_cells(self, st, aid, off, agg):
        a = self.get_alloc(st, aid)
        if agg.size == 0:
            return
        if a.owner is not st.tok:
            a = st.w(aid)
        if a.ro:
            raise UB("write to read-only memory")
        if off.__class__ is not int:
            r = st.facts.range(off)
            if r[0] == r[1]:
                off = r[0]
        if a.blob is not None:
            self.unblob(a)
        if off.__class__ is int and not a.log:
            if a.size.__class__ is int:
                if off < 0 or off + agg.size > a.size:
                    raise UB("out-of-bounds write")
            elif a.size is not None:
                self.bounds(st, a, off, agg.size, "write")
            self.clear_range(a, off, agg.size)
            cells = a.cells
            for o, s, v in agg.cells:
                cells[off + o] = (s, v)
            return
        if a.size is not None:
            self.bounds(st, a, off, agg.size, "write")
        w = self.p.ptr
        lg = list(a.log)
        for o, s, v in agg.cells:
            lg.append(("w", add(off, o, w) if off.__class__ is not int else off + o, s, v))
        a.log = tuple(lg)

    # --- values ---------------------------------------------------------------
    def load(self, st, aid, off, ty):
        b = self.p.scalar(ty)
        if b:
            return self.read(st, aid, off, b >> 3)
        n = self.p.size(ty)
        if n == 0:
            return A((), 0)
        return self.snapshot(st, aid, off, n)

    def store(self, st, aid, off, v, size):
        if v.__class__ is A:
            if v.size:
                self.write_cells(st, aid, off, v)
        elif size:
            self.write(st, aid, off, size, v)

    def const(self, k):
        c = self.p._const.get(id(k))
        if c is not None:
            return c[0]
        ty = k["ty"]
        if "z" in k:
            v = A((), 0)
        elif "b" in k:
            h = k["b"]
            n = len(h) // 2
            rel = {o: x for o, x in k["p"]}
            undef = frozenset(i for i in range(n) if h[2 * i] == "_")
            blob = bytes.fromhex(h.replace("_", "0"))
            b = self.p.scalar(ty)
            if b:
                if 0 in rel:
                    v = self.relptr(blob, 0, rel[0])
                else:
                    v = self.rd_int(blob, 0, n) if not undef else None
            else:
                v = self.blob_agg(blob, rel, undef, 0, n)
                v = self.regroup(v, ty)
        else:
            raise Undecided("constant " + str(k.get("unk")))
        self.p._const[id(k)] = (v, k)
        return v

    def regroup(self, v, ty):
        """Merge byte cells of a constant along the scalar fields of its type."""
        if len(v.cells) < 2:
            return v
        leaves = self.leaves(ty)
        if not leaves:
            return v
        by = {o: (s, x) for o, s, x in v.cells}
        out = []
        done = set()
        for o, n in leaves:
            if all(by.get(o + i, (0,))[0] == 1 for i in range(n)):
                x = 0
                for i in range(n):
                    k = (n - 1 - i) if self.p.big else i
                    x |= by[o + i][1] << (8 * k)
                out.append((o, n, x))
                done.update(range(o, o + n))
        for o, s, x in v.cells:
            if o not in done:
                out.append((o, s, x))
        out.sort(key=lambda c: c[0])
        return A(tuple(out), v.size)

    def leaves(self, ty, off=0, depth=0):
        t = self.p.types[ty]
        b = self.p.scalar(ty)
        if b:
            return [(off, b // 8)]
        k = t["k"]
        l = t.get("l")
        if not l or depth > 8:
            return []
        if k in ("ptr", "ref"):
            return [(off, self.p.ps), (off + self.p.ps, self.p.ps)]
        if k == "array":
            n = t["len"]
            es = self.p.size(t["elem"])
            out = []
            if n * es > 4096 * 4:
                return []
            sub_ = self.leaves(t["elem"], 0, depth + 1)
            for i in range(n):
                out += [(off + i * es + o, s) for o, s in sub_]
            return out
        if k == "tuple" or k == "closure":
            out = []
            for i, f in enumerate(t["fields"]):
                out += self.leaves(f, off + l["offs"][i], depth + 1)
            return out
        if k == "adt":
            if t["ak"] == "struct":
                out = []
                for i, f in enumerate(t["vars"][0]["fields"]):
                    if "offs" in l:
                        out += self.leaves(f[1], off + l["offs"][i], depth + 1)
                return out
            if t["ak"] == "enum" and "tag" in l and all(not v["fields"] for v in t["vars"]):
                return [(off, l["size"])]
        return []

    # --- places -----------------------------------------------------------------
    def local(self, st, fr, i):
        aid = fr.loc[i]
        if aid is None:
            ty = fr.fn["locals"][i]
            aid = newid("l")
            a = Alloc(self.p.size(ty), self.p.align(ty))
            a.owner = st.tok
            st.mem[aid] = a
            fr.loc[i] = aid
        return aid

    def aligned(self, st, aid, off, ty):
        """The address must be known to be aligned for the accessed type."""
        n = self.p.align(ty)
        if n <= 1 or aid[0] == "int":
            return
        a = self.get_alloc(st, aid)
        k = a.align
        if off.__class__ is int:
            if off:
                k = min(k, off & -off)
        else:
            k = min(k, self.stride_align(off))
        if k < n:
            # the path may have looked at the address
            v = self.as_int(st, P(aid, off))
            if st.decide(eq(self.band(st, v, n - 1, self.p.ptr), 0, self.p.ptr)) is not True:
                raise UB("access with alignment %d to memory aligned to %d" % (n, k))

    def stride_align(self, x):
        if isc(x):
            return x & -x if x else 1 << 60
        if x.op == "lin":
            r = self.stride_align(x.a[0])
            for t, k in x.a[1]:
                r = min(r, k & -k)
            return r
        return 1

    def place(self, st, fr, pl, raw=False):
        """-> (aid, off, ty, meta)"""
        i, proj = pl
        ty = fr.fn["locals"][i]
        aid = self.local(st, fr, i)
        if not proj:
            return aid, 0, ty, None
        off = 0
        meta = None
        var = None
        types = self.p.types
        for e in proj:
            if e == "d":
                t = types[ty]
                if t["k"] in ("ptr", "ref"):
                    to = t["to"]
                elif t["k"] == "adt" and t.get("box"):
                    to = self.box_target(t)
                else:
                    raise Undecided("deref of " + t["n"])
                p = self.read(st, aid, off, self.p.ps)
                p = self.to_ptr(st, p)
                if self.p.size(ty) == 2 * self.p.ps:
                    meta = self.read(st, aid, off + self.p.ps if off.__class__ is int else add(off, self.p.ps, self.p.ptr), self.p.ps)
                else:
                    meta = None
                ty = to
                var = None
                if p.__class__ is not P:
                    aid, off = ("int", p), 0
                else:
                    aid, off = p.aid, p.off
                    if self.check_align and not raw:
                        self.aligned(st, aid, off, ty)
                continue
            k = e[0]
            t = types[ty]
            if k == "f":
                o = self.field_off(ty, e[1], var, aid, off, meta, st)
                off = off + o if off.__class__ is int and o.__class__ is int else add(off, o, self.p.ptr)
                ty = e[2]
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                ix = self.read(st, self.local(st, fr, e[1]), 0, self.p.ps)
                ty = t["elem"]
                es = self.p.size(ty)
                if isc(ix) and off.__class__ is int:
                    off = off + ix * es
                else:
                    off = add(off, mulc(ix, es, self.p.ptr), self.p.ptr)
                meta = None
            elif k == "c":
                ety = t["elem"]
                es = self.p.size(ety)
                if e[3]:
                    n = t["len"] if t["k"] == "array" else meta
                    ix = n - e[1] if isc(n) else sub(n, e[1], self.p.ptr)
                else:
                    ix = e[1]
                if isc(ix) and off.__class__ is int:
                    off = off + ix * es
                else:
                    off = add(off, mulc(ix, es, self.p.ptr), self.p.ptr)
                ty = ety
                meta = None
            elif k == "s":
                es = self.p.size(t["elem"])
                off = off + e[1] * es if off.__class__ is int else add(off, e[1] * es, self.p.ptr)
                if t["k"] == "array":
                    meta = None
                    raise Undecided("array subslice")
                if e[3]:
                    meta = meta - e[1] - e[2] if isc(meta) else sub(meta, e[1] + e[2], self.p.ptr)
                else:
                    meta = e[2] - e[1]
            elif k == "o":
                ty = e[1]
            else:
                raise Undecided("projection " + str(e))
        if var is not None:
            pass
        return aid, off, ty, meta

    def box_target(self, t):
        return t["args"][0][1]

    def field_off(self, ty, i, var, aid=None, off=None, meta=None, st=None):
        t = self.p.types[ty]
        l = t.get("l")
        if var is not None and l and "variants" in l:
            return l["variants"][var][i]
        if l and "offs" in l:
            o = l["offs"]
            if i < len(o):
                # unsized tail whose alignment is dynamic is not supported
                return o[i]
        if l and "union" in l:
            return 0
        if t["k"] == "adt" and t["ak"] == "enum":
            return l["offs"][i]
        if t["k"] == "pat":
            return 0
        raise Undecided("field %d of %s" % (i, t["n"]))

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            return self.const(o[1])
        if k == "r":
            return 0
        pl = o[1]
        if not pl[1]:
            i = pl[0]
            aid = fr.loc[i]
            ty = fr.fn["locals"][i]
            if aid is None:
                return A((), 0) if self.p.size(ty) == 0 else None
            return self.load(st, aid, 0, ty)
        aid, off, ty, meta = self.place(st, fr, pl)
        return self.load(st, aid, off, ty)

    def op_ty(self, fr, o):
        k = o[0]
        if k == "k":
            return o[1]["ty"]
        if k == "r":
            return None
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, pl):
        ty = fr.fn["locals"][pl[0]]
        for e in pl[1]:
            t = self.p.types[ty]
            if e == "d":
                ty = t["to"] if t["k"] in ("ptr", "ref") else self.box_target(t)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in "ic":
                ty = t["elem"]
            elif e[0] == "o":
                ty = e[1]
        return ty

    # --- discriminants -------------------------------------------------------------
    def tag_loc(self, ty):
        l = self.p.types[ty]["l"]
        return l["offs"][l["tag_field"]] if "offs" in l else 0, l

    def tag_size(self, l):
        s = l["tag"]
        return s["bytes"] if isinstance(s, dict) and "bytes" in s else None

    def discr(self, st, aid, off, ty):
        t = self.p.types[ty]
        l = t["l"]
        if t["k"] != "adt" or t["ak"] != "enum":
            return 0
        if "single" in l:
            return t["vars"][l["single"]]["discr"] & mask(128) if t["vars"] else 0
        if "tag" not in l:
            raise Undecided("discriminant of " + t["n"])
        to = l["offs"][l["tag_field"]]
        ts = self.scalar_size(l["tag"])
        v = self.read(st, aid, off + to if off.__class__ is int else add(off, to, self.p.ptr), ts)
        if v is None:
            raise UB("discriminant of uninitialised value " + t["n"])
        w = ts * 8
        if l["enc"] == "direct":
            if isc(v):
                for x in t["vars"]:
                    if x["discr"] & mask(w) == v:
                        return x["discr"]
                raise UB("invalid discriminant %d of %s" % (v, t["n"]))
            # width of discriminants is that of the tag for our purposes
            return ("tag", v, w)
        n = l["nv1"] - l["nv0"] + 1
        if v.__class__ is P:
            # niche in a pointer: null or low addresses
            return t["vars"][l["untagged"]]["discr"]
        for i in range(n):
            x = (l["nstart"] + i) & mask(w)
            if l["nv0"] + i == l["untagged"]:
                continue
            if st.truth(eq(v, x, w)):
                return t["vars"][l["nv0"] + i]["discr"]
        return t["vars"][l["untagged"]]["discr"]

    def scalar_size(self, s):
        """Byte size of a dumped scalar description."""
        if isinstance(s, dict):
            if "bits" in s:
                return s["bits"] // 8
            if "size" in s:
                return s["size"]
            if "ptr" in s:
                return self.p.ps
        if isinstance(s, list):
            return s[1] // 8 if isinstance(s[1], int) and s[1] else self.p.ps
        raise Undecided("scalar %r" % (s,))

    def set_discr(self, st, aid, off, ty, var):
        t = self.p.types[ty]
        l = t["l"]
        if "tag" not in l:
            return
        to = l["offs"][l["tag_field"]]
        ts = self.scalar_size(l["tag"])
        o = off + to if off.__class__ is int else add(off, to, self.p.ptr)
        if l["enc"] == "direct":
            self.write(st, aid, o, ts, t["vars"][var]["discr"] & mask(ts * 8))
        elif var != l["untagged"]:
            self.write(st, aid, o, ts, (l["nstart"] + var - l["nv0"]) & mask(ts * 8))

    # --- rvalues ------------------------------------------------------------------
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            aid, off, ty, meta = self.place(st, fr, r[2], k == "addr")
            p = self.mkptr(aid, off)
            if meta is not None and self.p.size(dty) == 2 * self.p.ps:
                return A(((0, self.p.ps, p), (self.p.ps, self.p.ps, meta)), 2 * self.p.ps)
            return p
        if k == "reborrow":
            aid, off, ty, meta = self.place(st, fr, r[3])
            return self.load(st, aid, off, r[1])
        if k == "bin":
            return self.binop(st, fr, r[1], r[2], r[3])
        if k == "chk":
            x = self.as_int(st, self.operand(st, fr, r[2]))
            y = self.as_int(st, self.operand(st, fr, r[3]))
            ty = self.op_ty(fr, r[2])
            w, s = self.p.bits(ty)
            v, o = self.overflowing(r[1], x, y, w, s, st)
            n = w // 8
            l = self.p.types[dty]["l"]["offs"]
            return A(tuple(sorted(((l[0], n, v), (l[1], 1, zext(o, 1, 8) if not isc(o) else o)), key=lambda c: c[0])), self.p.size(dty))
        if k == "un":
            return self.unop(st, fr, r)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "agg":
            return self.aggregate(st, fr, r, dty)
        if k == "disc":
            aid, off, ty, meta = self.place(st, fr, r[1])
            d = self.discr(st, aid, off, ty)
            w, s = self.p.bits(dty)
            if d.__class__ is tuple:
                _, v, tw = d
                if tw < w:
                    return sext(v, tw, w) if s else zext(v, tw, w)
                return trunc(v, tw, w) if tw > w else v
            return d & mask(w)
        if k == "len":
            aid, off, ty, meta = self.place(st, fr, r[1])
            t = self.p.types[ty]
            return t["len"] if t["k"] == "array" else meta
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = r[2]
            es = self.p.size(self.p.types[dty]["elem"])
            if es == 0 or n == 0:
                return A((), 0)
            out = []
            for i in range(n):
                if v.__class__ is A:
                    out += [(i * es + o, s, x) for o, s, x in v.cells]
                else:
                    out.append((i * es, es, v))
            return A(tuple(out), n * es)
        raise Undecided("rvalue " + k)

    def mkptr(self, aid, off):
        if aid[0] == "int":
            v = aid[1]
            if isc(v) and off.__class__ is int:
                return v + off
            return add(v, off & mask(self.p.ptr) if off.__class__ is int else off, self.p.ptr)
        return P(aid, off)

    def overflowing(self, op, x, y, w, s, st):
        if op == "Add":
            v = add(x, y, w)
            if s:
                # overflow iff operands have the same sign and the result differs
                if isc(x) and isc(y):
                    z = sgn(x, w) + sgn(y, w)
                    o = int(not -(1 << (w - 1)) <= z < (1 << (w - 1)))
                else:
                    a = zext0(ext(x, w - 1, 1))
                    b = ext(y, w - 1, 1)
                    r = ext(v, w - 1, 1)
                    o = and1(eq(ext(x, w - 1, 1), b, 1), bnot(eq(b, r, 1), 1))
            else:
                if isc(x):
                    x, y = y, x
                if isc(x):
                    o = int(x + y >= 1 << w)
                elif isc(y):
                    o = ult(mask(w) - y, x, w)
                else:
                    o = ult(bnot_lin(x, w), y, w)
            return v, o
        if op == "Sub":
            v = sub(x, y, w)
            if s:
                if isc(x) and isc(y):
                    z = sgn(x, w) - sgn(y, w)
                    o = int(not -(1 << (w - 1)) <= z < (1 << (w - 1)))
                else:
                    a, b, r = ext(x, w - 1, 1), ext(y, w - 1, 1), ext(v, w - 1, 1)
                    o = and1(bnot(eq(a, b, 1), 1), bnot(eq(a, r, 1), 1))
            else:
                o = ult(x, y, w)
            return v, o
        if op == "Mul":
            v = mul(x, y, w)
            if isc(x) and isc(y):
                if s:
                    z = sgn(x, w) * sgn(y, w)
                    o = int(not -(1 << (w - 1)) <= z < (1 << (w - 1)))
                else:
                    o = int(x * y >= 1 << w)
            elif isc(x) or isc(y):
                c, t = (x, y) if isc(x) else (y, x)
                if s:
                    o = fn("smulo", 1, t, c)
                elif c == 0:
                    o = 0
                else:
                    o = ult(mask(w) // c, t, w)
            else:
                a, b = st.facts.range(x), st.facts.range(y)
                o = 0 if a[1] * b[1] < 1 << w and not s else fn("mulo", 1, x, y)
            return v, o
        raise Undecided("overflowing " + op)

    def binop(self, st, fr, op, ox, oy):
        x = self.operand(st, fr, ox)
        y = self.operand(st, fr, oy)
        ty = self.op_ty(fr, ox)
        if ty is None:
            ty = self.op_ty(fr, oy)
        t = self.p.types[ty]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp") and t["k"] in ("ptr", "ref", "fnptr"):
            return self.ptr_cmp(st, op, x, y, ty)
        if op == "Offset":
            es = self.p.size(t["to"])
            return self.ptr_off(st, x, mulc(self.as_int(st, y), es, self.p.ptr))
        if x.__class__ is A or y.__class__ is A:
            raise Undecided("binary op on aggregate")
        return self.arith(st, op, x, y, ty, self.op_ty(fr, oy))

    def ptr_off(self, st, p, d):
        """p + d bytes (d modular)"""
        if p.__class__ is A:
            return A(((0, self.p.ps, self.ptr_off(st, p.get(0), d)),) + tuple(c for c in p.cells if c[0]), p.size)
        p = self.to_ptr(st, p)
        w = self.p.ptr
        if p.__class__ is P:
            if isc(p.off) and isc(d):
                return P(p.aid, p.off + sgn(d, w))
            r = add(p.off & mask(w) if isc(p.off) else p.off, d, w)
            return P(p.aid, sgn(r, w) if isc(r) else r)
        return add(p, d, w)

    def ptr_cmp(self, st, op, x, y, ty):
        if x.__class__ is A or y.__class__ is A:
            xs = [x.get(0), x.get(self.p.ps)]
            ys = [y.get(0), y.get(self.p.ps)]
            e = and1(self.ptr_cmp1(st, "Eq", xs[0], ys[0]), eq(self.as_int(st, xs[1]), self.as_int(st, ys[1]), self.p.ptr))
            if op == "Eq":
                return e
            if op == "Ne":
                return bnot(e, 1)
            raise Undecided("wide pointer order")
        return self.ptr_cmp1(st, op, x, y)

    def ptr_cmp1(self, st, op, x, y):
        w = self.p.ptr
        x, y = self.to_ptr(st, x), self.to_ptr(st, y)
        if x.__class__ is P and y.__class__ is P:
            if x.aid == y.aid:
                return self.arith2(st, op, x.off & mask(w) if isc(x.off) else x.off, y.off & mask(w) if isc(y.off) else y.off, w, False)
            if op in ("Eq", "Ne"):
                ax, ay = st.mem.get(x.aid), st.mem.get(y.aid)
                if x.aid[0] in ("f", "g") or y.aid[0] in ("f", "g"):
                    if x.aid[0] != y.aid[0] or x.aid[0] == "f":
                        return int(op == "Ne")
                if x.aid[0] == "ext" or y.aid[0] == "ext":
                    pass
                else:
                    return int(op == "Ne")
        if x.__class__ is P and isc(y) and y == 0 or y.__class__ is P and isc(x) and x == 0:
            p = x if x.__class__ is P else y
            if op in ("Eq", "Ne"):
                return int(op == "Ne")
        return self.arith2(st, op, self.as_int(st, x), self.as_int(st, y), w, False)

    def arith(self, st, op, x, y, ty, yty):
        w, s = self.p.bits(ty)
        if x.__class__ is P or y.__class__ is P:
            if op == "Sub" and x.__class__ is P and y.__class__ is P and x.aid == y.aid:
                return self.arith2(st, op, x.off & mask(w) if isc(x.off) else x.off, y.off & mask(w) if isc(y.off) else y.off, w, s)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return self.ptr_cmp1(st, op, x, y)
            x, y = self.as_int(st, x), self.as_int(st, y)
        if x is None or y is None:
            raise UB("arithmetic on uninitialised value")
        if self.p.types[ty]["k"] == "float":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return fn("f" + op, 1, x, y)
            return fn("f" + op, w, x, y)
        if self.p.types[ty]["k"] == "bool":
            x = self.b1(x)
            y = self.b1(y)
            if op in ("BitAnd", "BitOr", "BitXor"):
                r = {"BitAnd": and1, "BitOr": or1, "BitXor": lambda a, b: xor(a, b, 1)}[op](x, y)
                return zext(r, 1, 8)
            return self.arith2(st, op, x, y, 1, False)
        if op.startswith("Sh"):
            yw, ys = self.p.bits(yty)
            if isc(y):
                y &= w - 1
            else:
                y = trunc(y, yw, w) if yw > w else zext(y, yw, w) if yw < w else y
                if not op.endswith("Unchecked"):
                    y = band(y, w - 1, w)
                r = st.facts.range(y)
                if r[0] == r[1]:
                    y = r[0] & (w - 1)
        return self.arith2(st, op, x, y, w, s)

    def b1(self, v):
        """bool byte -> 1-bit term"""
        if isc(v):
            return v & 1
        if v.w == 1:
            return v
        return ext(v, 0, 1)

    def arith2(self, st, op, x, y, w, s):
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Add":
            return add(x, y, w)
        if op == "Sub":
            return sub(x, y, w)
        if op == "Mul":
            return mul(x, y, w)
        if op == "BitAnd":
            return self.band(st, x, y, w)
        if op == "BitOr":
            return self.bor(st, x, y, w)
        if op == "BitXor":
            return xor(x, y, w)
        if op == "Shl":
            return shl(x, y, w)
        if op == "Shr":
            return ashr(x, y, w) if s else lshr(x, y, w)
        if op == "Eq":
            return eq(x, y, w)
        if op == "Ne":
            return bnot(eq(x, y, w), 1)
        if op == "Lt":
            return slt(x, y, w) if s else ult(x, y, w)
        if op == "Gt":
            return slt(y, x, w) if s else ult(y, x, w)
        if op == "Le":
            return bnot(slt(y, x, w) if s else ult(y, x, w), 1)
        if op == "Ge":
            return bnot(slt(x, y, w) if s else ult(x, y, w), 1)
        if op == "Cmp":
            l = slt(x, y, w) if s else ult(x, y, w)
            if st.truth(l):
                return 255
            return 0 if st.truth(eq(x, y, w)) else 1
        if op in ("Div", "Rem"):
            if isc(y) and y == 0:
                raise UB("division by zero")
            if s:
                a, b = st.facts.range(x), st.facts.range(y)
                h = 1 << (w - 1)
                if a[1] < h and b[1] < h:
                    s = False
            f = {("Div", False): udiv, ("Rem", False): urem, ("Div", True): sdiv, ("Rem", True): srem}[(op, bool(s))]
            return f(x, y, w)
        raise Undecided("operator " + op)

    def band(self, st, x, y, w):
        if isc(x):
            x, y = y, x
        if isc(y) and not isc(x):
            # known alignment of addresses
            tz = self.tz(st, x)
            if tz and (y & ~mask(tz)) == 0:
                return 0
            if tz and (y | mask(tz)) == mask(w):
                return x
            c = self.addr_low(st, x, w)
            if c is not None:
                a, lo, k = c
                if y <= mask(k):
                    return band(lo, y, w)
                if (~y & mask(w)) <= mask(k):
                    return add(a, band(lo, y, w), w)
            hi = st.facts.range(x)[1]
            if y & (y + 1) == 0 and hi <= y:
                return x
        return band(x, y, w)

    def bor(self, st, x, y, w):
        for a, b in ((x, y), (y, x)):
            if not isc(a):
                tz = self.tz(st, a)
                if tz:
                    hi = b if isc(b) else st.facts.range(b)[1]
                    if hi <= mask(tz):
                        return add(a, b, w)
        return bor(x, y, w)

    def tz(self, st, x):
        """Number of low bits known to be zero because of allocation alignment."""
        if isc(x):
            return (x & -x).bit_length() - 1 if x else 128
        if x.op == "addr":
            a = st.mem.get(x.a[0])
            al = a.align if a else 1
            return al.bit_length() - 1
        if x.op == "lin" and any(t.op == "addr" for t, k in x.a[1]):
            r = self.tz(st, x.a[0]) if x.a[0] else 128
            for t, k in x.a[1]:
                r = min(r, self.tz(st, t) + (k & -k).bit_length() - 1)
            return r
        return 0

    def addr_low(self, st, x, w):
        """x = aligned + small  ->  (aligned, small, bits)"""
        if isc(x) or x.op != "lin":
            return None
        hi, lo = {}, {}
        bits = 128
        for t, k in x.a[1]:
            z = self.tz(st, t)
            if z >= 2:
                hi[t] = k
                bits = min(bits, z + (k & -k).bit_length() - 1)
            else:
                lo[t] = k
        if not hi:
            return None
        c = x.a[0]
        cl = c & mask(bits)
        low = mk_lin(w, cl, lo)
        if isc(low) or st.facts.range(low)[1] <= mask(bits):
            return mk_lin(w, c - cl, hi), low, bits
        return None

    def unop(self, st, fr, r):
        v = self.operand(st, fr, r[2])
        ty = self.op_ty(fr, r[2])
        if r[1] == "PtrMetadata":
            if v.__class__ is A:
                return v.get(self.p.ps)
            return A((), 0)
        t = self.p.types[ty]
        w, s = self.p.bits(ty)
        v = self.as_int(st, v)
        if r[1] == "Not":
            if t["k"] == "bool":
                return zext(bnot(self.b1(v), 1), 1, 8)
            return bnot(v, w)
        if r[1] == "Neg":
            if t["k"] == "float":
                return xor(v, 1 << (w - 1), w)
            return neg(v, w)
        raise Undecided("unop " + r[1])

    def cast(self, st, fr, r):
        kind, op, ty, sty, extra = r[1:6]
        v = self.operand(st, fr, op)
        if kind in ("Transmute", "Subtype", "BoxDerefTransmute"):
            return self.transmute(st, v, sty, ty)
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return P(("f", extra), 0)
            if "Unsize" in kind:
                return self.unsize(st, v, sty, ty, extra)
            if "UnsafeFnPointer" in kind or "MutToConstPointer" in kind or "ArrayToPointer" in kind:
                return v
        if kind == "IntToInt":
            return self.int_cast(st, v, sty, ty)
        if kind == "PtrToPtr" or kind == "FnPtrToPtr":
            if v.__class__ is A and self.p.size(ty) == self.p.ps:
                return v.get(0)
            return v
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            if v.__class__ is A:
                v = v.get(0)
            return v
        if kind in ("PointerWithExposedProvenance", "PointerFromExposedAddress"):
            return self.to_ptr(st, v)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return fn(kind + self.p.types[sty]["n"], self.p.bits(ty)[0], v)
        raise Undecided("cast " + kind)

    def int_cast(self, st, v, sty, ty):
        if v.__class__ is P:
            if self.p.size(ty) == self.p.ps:
                return v
            v = self.ptr_int(v)
        if v is None:
            raise UB("cast of uninitialised value")
        t = self.p.types[sty]
        if t["k"] == "adt":
            # enum discriminant cast
            if v.__class__ is A:
                v = self.agg_scalar(st, v, self.p.size(sty))
            w0 = self.p.size(sty) * 8
            s = False
            l = t["l"]
        else:
            w0, s = self.p.bits(sty)
        w, _ = self.p.bits(ty)
        if t["k"] == "bool" and not isc(v):
            return zext(self.b1(v), 1, w)
        if w == w0:
            return v
        if w < w0:
            return trunc(v, w0, w)
        if s:
            if not isc(v) and st.facts.range(v)[1] < 1 << (w0 - 1):
                return zext(v, w0, w)
            return sext(v, w0, w)
        return zext(v, w0, w)

    def agg_scalar(self, st, v, n):
        """Single scalar covering n bytes of an aggregate."""
        if v.__class__ is not A:
            return v
        if len(v.cells) == 1 and v.cells[0][:2] == (0, n):
            return v.cells[0][2]
        a = Alloc(n)
        a.cells = {o: (s, x) for o, s, x in v.cells}
        return self.read_slow(st, a, None, 0, n)

    def transmute(self, st, v, sty, ty):
        n = self.p.size(ty)
        b = self.p.scalar(ty)
        if b:
            v = self.agg_scalar(st, v, n) if v.__class__ is A else v
            if self.p.types[ty]["k"] in ("ptr", "ref") and v is not None:
                v = self.to_ptr(st, v)
            return v
        if v.__class__ is A:
            return v
        if n == 0:
            return A((), 0)
        return A(((0, n, v),), n)

    def unsize(self, st, v, sty, ty, extra):
        ps = self.p.ps
        s, d = self.p.types[sty], self.p.types[ty]
        if s["k"] in ("ptr", "ref"):
            m = self.unsize_meta(s["to"], d["to"], extra, v)
            p = v.get(0) if v.__class__ is A else v
            return A(((0, ps, p), (ps, ps, m)), 2 * ps)
        # smart pointer: single pointer field somewhere inside
        if s["k"] == "adt":
            if v.__class__ is A and len(v.cells) >= 1 and self.p.size(ty) == 2 * ps:
                a, b = self.inner_ptr(sty), self.inner_ptr(ty)
                if a is not None and b is not None:
                    m = self.unsize_meta(a, b, extra, v)
                    return A(((0, ps, v.get(0)), (ps, ps, m)), 2 * ps)
        raise Undecided("unsize %s -> %s" % (s["n"], d["n"]))

    def inner_ptr(self, ty, depth=0):
        t = self.p.types[ty]
        if t["k"] in ("ptr", "ref"):
            return t["to"]
        if t["k"] == "pat":
            return self.inner_ptr(t["base"], depth + 1)
        if t["k"] == "adt" and t["ak"] == "struct" and depth < 8:
            for f in t["vars"][0]["fields"]:
                if self.p.size(f[1]):
                    r = self.inner_ptr(f[1], depth + 1)
                    if r is not None:
                        return r
        return None

    def unsize_meta(self, a, b, extra, v):
        x, y = self.p.types[a], self.p.types[b]
        if y["k"] == "slice" and x["k"] == "array":
            return x["len"]
        if y["k"] == "dyn":
            if extra is not None:
                return P(("g", extra), 0)
            if v.__class__ is A:
                return v.get(self.p.ps)     # dyn upcast
        if x["k"] == "adt" and y["k"] == "adt":
            return self.unsize_meta(x["vars"][0]["fields"][-1][1], y["vars"][0]["fields"][-1][1], extra, v)
        raise Undecided("unsize metadata %s -> %s" % (x["n"], y["n"]))

    def aggregate(self, st, fr, r, dty):
        kk = r[1]
        k = kk[0]
        vals = [self.operand(st, fr, o) for o in r[2]]
        tys = [self.op_ty(fr, o) for o in r[2]]
        n = self.p.size(dty)
        if k == "rawptr":
            if vals[1].__class__ is A and not vals[1].cells:
                return vals[0]
            vals = [self.agg_scalar(st, v, self.p.ps) if v.__class__ is A else v for v in vals]
            return A(((0, self.p.ps, vals[0]), (self.p.ps, self.p.ps, vals[1])), 2 * self.p.ps)
        if k == "arr":
            es = self.p.size(self.p.types[dty]["elem"])
            offs = [i * es for i in range(len(vals))]
        elif k in ("tup", "clos"):
            offs = self.p.types[dty]["l"].get("offs", [0] * len(vals))
        elif k == "adt":
            ty, var, uf = kk[1], kk[2], kk[3]
            t = self.p.types[ty]
            l = t["l"]
            if t["ak"] == "union":
                offs = [0]
            elif "variants" in l:
                offs = l["variants"][var]
            else:
                offs = l.get("offs", [0] * len(vals))
        else:
            raise Undecided("aggregate " + k)
        out = []
        for v, ty, o in zip(vals, tys, offs):
            if v.__class__ is A:
                for c in v.cells:
                    out.append((o + c[0], c[1], c[2]))
            else:
                s = self.p.size(ty)
                if s:
                    out.append((o, s, v))
        if k == "adt" and "variants" in l:
            self.agg_tag(out, t, l, var)
        out.sort(key=lambda c: c[0])
        v = A(tuple(out), n)
        b = self.p.scalar(dty)
        if b:
            return self.agg_scalar(st, v, n)
        return v

    def construct(self, st, f, vals, rty, tys):
        """A tuple constructor used as a function."""
        t = self.p.types[rty]
        name = f["path"].split("::")[-1]
        hit = [i for i, x in enumerate(t["vars"]) if x["name"] == name and len(x["fields"]) == len(vals)] if t["k"] == "adt" and "vars" in t else []
        if len(hit) != 1:
            raise Undecided("no body: " + f["n"])
        var, l = hit[0], t["l"]
        offs = l["variants"][var] if "variants" in l else l.get("offs", [0] * len(vals))
        out = []
        for v, ty, o in zip(vals, tys, offs):
            if v.__class__ is A:
                out += [(o + c[0], c[1], c[2]) for c in v.cells]
            elif self.p.size(ty):
                out.append((o, self.p.size(ty), v))
        if "variants" in l:
            self.agg_tag(out, t, l, var)
        out.sort(key=lambda c: c[0])
        v = A(tuple(out), self.p.size(rty))
        return self.agg_scalar(st, v, v.size) if self.p.scalar(rty) else v

    def agg_tag(self, out, t, l, var):
        to = l["offs"][l["tag_field"]]
        ts = self.scalar_size(l["tag"])
        if l["enc"] == "direct":
            out.append((to, ts, t["vars"][var]["discr"] & mask(ts * 8)))
        elif var != l["untagged"]:
            out.append((to, ts, (l["nstart"] + var - l["nv0"]) & mask(ts * 8)))

    # --- control -------------------------------------------------------------------
    def where(self, st):
        for fr in reversed(st.frames):
            if fr.fn["crate"] in ("osi", "sys", "tmp"):
                sp = fr.fn["bbs"][fr.bb][2]
                f = self.p.files[sp[0]] if sp and isinstance(sp[0], int) else "?"
                return "%s (%s:%s)" % (self.p.pathname(fr.fi), f.split("/repo/")[-1], sp[1] if sp else "?")
        fr = st.frames[-1] if st.frames else None
        return fr.fn["n"] if fr else "?"

    def push(self, st, fi, args, dest, target, tag=None):
        fn = self.p.fns[fi]
        if "bbs" not in fn:
            raise Undecided("no body for " + fn["n"])
        self.fns_seen.add(fi)
        fr = Frame.__new__(Frame)
        fr.fi, fr.fn, fr.bb, fr.si, fr.dest, fr.target, fr.visits, fr.tag = fi, fn, 0, 0, dest, target, None, tag
        fr.loc = [None] * len(fn["locals"])
        argc = fn["argc"]
        if len(args) != argc:
            if args and args[-1].__class__ is A and len(args) < argc + (1 if fn["spread"] else 1) + 64:
                args = self.untuple(args, fn, argc)
        st.frames.append(fr)
        for i, v in enumerate(args):
            ty = fn["locals"][i + 1]
            if self.p.size(ty):
                if v is None:
                    continue
                self.store(st, self.local(st, fr, i + 1), 0, v, self.p.size(ty))
        if len(st.frames) > 400:
            raise Undecided("recursion depth")

    def untuple(self, args, fn, argc):
        """rust-call ABI: the last argument is a tuple of the remaining ones."""
        head, tup = args[:-1], args[-1]
        tys = fn["locals"][len(head) + 1:argc + 1]
        # offsets: find tuple layout by matching a tuple type with these fields
        for t in self.p.types:
            if t["k"] == "tuple" and t["fields"] == tys:
                offs = t["l"].get("offs", [])
                out = list(head)
                for ty, o in zip(tys, offs):
                    n = self.p.size(ty)
                    cells = tuple((a - o, s, v) for a, s, v in tup.cells if o <= a < o + n)
                    if self.p.scalar(ty):
                        out.append(self.agg_scalar(None, A(cells, n), n))
                    else:
                        out.append(A(cells, n))
                return out
        if len(tys) == 0:
            return list(head)
        raise Undecided("rust-call argument shape of " + fn["n"])

    def run(self, st, fi, args, user=None):
        """All outcomes of calling function `fi` in `st` (which is consumed)."""
        base = len(st.frames)
        out = []
        self.push(st, fi, args, None, None)
        work = [st]
        total = 0
        while work:
            s = work.pop()
            try:
                r = self.go(s, base)
            except Split as e:
                n = 0
                for c, v in e.alts:
                    s2 = s.fork()
                    if s2.assume(c, v):
                        work.append(s2)
                        n += 1
                total += max(0, n - 1)
                if total > self.max_states:
                    out.append(Outcome("undecided", s, None, "more than %d partitions" % self.max_states, self.where(s)))
                    break
                continue
            except UB as e:
                out.append(Outcome("ub", s, None, str(e), self.where(s)))
                continue
            except Panic as e:
                out.append(Outcome("panic", s, None, str(e), self.where(s)))
                continue
            except Undecided as e:
                out.append(Outcome("undecided", s, None, str(e), self.where(s)))
                continue
            out.append(r)
        return out

    def go(self, st, base):
        while True:
            fr = st.frames[-1]
            fn = fr.fn
            bbs = fn["bbs"]
            bb = bbs[fr.bb]
            stmts = bb[0]
            n = len(stmts)
            while fr.si < n:
                s = stmts[fr.si]
                k = s[0]
                if k == "=":
                    self.assign(st, fr, s[1], s[2])
                elif k == "live":
                    aid = fr.loc[s[1]]
                    if aid is not None:
                        st.mem.pop(aid, None)
                        fr.loc[s[1]] = None
                elif k == "dead":
                    aid = fr.loc[s[1]]
                    if aid is not None:
                        st.mem.pop(aid, None)
                        fr.loc[s[1]] = None
                elif k == "sd":
                    aid, off, ty, meta = self.place(st, fr, s[1])
                    self.set_discr(st, aid, off, ty, s[2])
                elif k == "assume":
                    v = self.b1(self.as_int(st, self.operand(st, fr, s[1])))
                    if not st.assume(v, True):
                        raise UB("assume violated")
                elif k == "cpy":
                    src, dst, cnt = [self.operand(st, fr, o) for o in s[1:4]]
                    ety = self.p.types[self.op_ty(fr, s[1])]["to"]
                    es = self.p.size(ety)
                    if self.check_align:
                        for q in (src, dst):
                            if q.__class__ is P:
                                self.aligned(st, q.aid, q.off, ety)
                    self.memcpy(st, src, dst, cnt, es)
                else:
                    raise Undecided("statement " + k)
                fr.si += 1
                st.steps += 1
            r = self.terminator(st, fr, bb[1], base)
            st.steps += 1
            self.total_steps += n + 1
            if r is not None:
                return r
            if st.steps > self.max_steps:
                raise Undecided("step limit")

    def assign(self, st, fr, pl, rv):
        if not pl[1]:
            i = pl[0]
            dty = fr.fn["locals"][i]
            v = self.rvalue(st, fr, rv, dty)
            n = self.p.size(dty)
            if n == 0:
                return
            if v.__class__ is T and v.w == 1 and n == 1:
                v = zext(v, 1, 8)
            aid = self.local(st, fr, i)
            a = st.mem[aid]
            if a.owner is not st.tok:
                a = st.w(aid)
            if v.__class__ is A:
                a.cells = {o: (s, x) for o, s, x in v.cells}
            else:
                a.cells = {0: (n, v)}
            a.log = ()
            return
        # evaluate the value first: both may split, neither mutates
        dty = self.place_ty(fr, pl)
        v = self.rvalue(st, fr, rv, dty)
        aid, off, ty, meta = self.place(st, fr, pl)
        n = self.p.size(ty)
        if v.__class__ is T and v.w == 1 and n == 1:
            v = zext(v, 1, 8)
        self.store(st, aid, off, v, n)

    def jump(self, st, fr, bb):
        if self.enter_hook is not None:
            self.enter_hook(self, st, fr, bb)
        if bb <= fr.bb:
            v = fr.visits
            v = dict(v) if v else {}
            v[bb] = v.get(bb, 0) + 1
            fr.visits = v
            if v[bb] > self.loop_bound:
                raise Undecided("loop not closed after %d iterations" % self.loop_bound)
            fr.bb = bb
            fr.si = 0
            if self.loop_hook is not None:
                self.loop_hook(self, st, fr, bb, v[bb])
            return
        fr.bb = bb
        fr.si = 0

    def terminator(self, st, fr, t, base):
        k = t[0]
        if k == "goto":
            self.jump(st, fr, t[1])
            return None
        if k == "sw":
            v = self.operand(st, fr, t[1])
            ty = t[4]
            if v.__class__ is P:
                v = self.ptr_int(v)
            if v is None:
                raise UB("branch on uninitialised value")
            if isc(v):
                for c, b in t[2]:
                    if c == v:
                        self.jump(st, fr, b)
                        return None
                self.jump(st, fr, t[3])
                return None
            w = v.w
            r = st.facts.range(v)
            if self.p.types[ty]["k"] == "bool":
                x = self.b1(v)
                val = int(st.truth(x))
                for c, b in t[2]:
                    if c == val:
                        self.jump(st, fr, b)
                        return None
                self.jump(st, fr, t[3])
                return None
            if len(t[2]) > 2 and r[0] != r[1]:
                # multi-way: split at once
                alts = []
                rest = 1
                for c, b in t[2]:
                    e = eq(v, c, w)
                    d = st.decide(e)
                    if d is True:
                        self.jump(st, fr, b)
                        return None
                    if d is None:
                        alts.append((e, True))
                        rest = and1(rest, bnot(e, 1))
                if alts:
                    if not isc(rest):
                        alts.append((rest, True))
                    raise Split(alts)
                self.jump(st, fr, t[3])
                return None
            for c, b in t[2]:
                if st.truth(eq(v, c, w)):
                    self.jump(st, fr, b)
                    return None
            self.jump(st, fr, t[3])
            return None
        if k == "call":
            return self.call(st, fr, t, base)
        if k == "ret":
            return self.ret(st, fr, base)
        if k == "assert":
            v = self.b1(self.as_int(st, self.operand(st, fr, t[1])))
            if st.truth(v) == t[2]:
                self.jump(st, fr, t[4])
                return None
            m = t[3]
            raise Panic("%s%s" % (m[0], " " + m[1] if m[0] == "overflow" else ""))
        if k == "drop":
            f = t[3]
            if f is not None and (self.drops or self.p.effectful(f)):
                aid, off, ty, meta = self.place(st, fr, t[1])
                p = self.mkptr(aid, off)
                if meta.__class__ is P and self.p.types[ty]["k"] == "dyn":
                    slot = self.read(st, meta.aid, meta.off, self.p.ps)
                    if slot == 0:
                        self.jump(st, fr, t[2])
                        return None
                    f = self.fnptr(slot)
                elif meta is not None:
                    p = A(((0, self.p.ps, p), (self.p.ps, self.p.ps, meta)), 2 * self.p.ps)
                fr.bb, fr.si = t[2], 0
                self.push(st, f, [p], None, None, "drop")
                st.frames[-1].target = True
                return None
            self.jump(st, fr, t[2])
            return None
        if k == "unreach":
            raise UB("unreachable code reached")
        if k in ("resume", "abort"):
            raise Panic(k)
        raise Undecided("terminator " + k)

    def ret(self, st, fr, base):
        rty = fr.fn["locals"][0]
        v = None
        aid = fr.loc[0]
        if self.p.size(rty) == 0:
            v = A((), 0)
        elif aid is not None:
            v = self.load(st, aid, 0, rty)
        st.frames.pop()
        mem = st.mem
        for x in fr.loc:
            if x is not None:
                mem.pop(x, None)
        if len(st.frames) == base:
            if self.call_hook is not None:
                self.call_hook(self, st, "ret", fr, v)
            return Outcome("ret", st, v)
        if self.call_hook is not None:
            self.call_hook(self, st, "ret", fr, v)
        if fr.tag == "drop":
            return None
        c = st.frames[-1]
        self.put_dest(st, c, fr.dest, v, rty)
        return None

    def put_dest(self, st, c, dest, v, rty):
        """Finish a call: store into the (already resolved) destination."""
        daid, doff = dest
        if v is not None and self.p.size(rty):
            if v.__class__ is T and v.w == 1:
                v = zext(v, 1, 8)
            if daid.__class__ is int:
                daid = self.local(st, c, daid)
            self.store(st, daid, doff, v, self.p.size(rty))

    def model_for(self, f, fi):
        if fi in self._modcache:
            return self._modcache[fi]
        m = None
        p = f["path"]
        m = self.models.get(p)
        if m is None:
            q = p.split("::<impl at")[0] if "<impl at" in p else p
            m = self.models.get(simplify(p))
        self._modcache[fi] = m
        return m

    def call(self, st, fr, t, base):
        fi, fo, oargs, dest, target = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in oargs]
        if fi is None:
            p = self.operand(st, fr, fo)
            fi = self.fnptr(p)
        if not isinstance(fi, int):
            raise Undecided("unresolved call " + str(fi))
        f = self.p.fns[fi]
        while f["kind"] == "virtual":
            vt = args[0].get(self.p.ps)
            slot = self.read(st, vt.aid, vt.off + f["vidx"] * self.p.ps, self.p.ps)
            args = [args[0].get(0)] + args[1:]
            fi = self.fnptr(slot)
            f = self.p.fns[fi]
        rty = self.place_ty(fr, dest)
        m = self.model_for(f, fi)
        if target is None:
            # diverging: a panic unless it is a callback
            if not (f.get("foreign") and f["crate"] == "vpharness"):
                raise Panic(f["path"])
        if f.get("foreign") and f["crate"] == "vpharness":
            name = f["path"].split("::")[-1]
            h = self.foreign.get(name)
            if h is None:
                raise Undecided("callback " + name)
            v = h(self, st, args, rty)
        elif m is not None:
            tys = [self.op_ty(fr, o) for o in oargs]
            v = m(self, st, f, args, rty, tys)
            if v is RUN:
                m = None
        elif f["kind"] == "intrinsic" and ("bbs" not in f or f["intr"] in INTR):
            h = INTR.get(f["intr"])
            if h is None:
                raise Undecided("intrinsic " + f["intr"])
            tys = [self.op_ty(fr, o) for o in oargs]
            v = h(self, st, f, args, rty, tys)
        elif "bbs" not in f:
            v = self.construct(st, f, args, rty, [self.op_ty(fr, o) for o in oargs])
        if m is None and "bbs" in f and not (f.get("foreign") and f["crate"] == "vpharness") and not (f["kind"] == "intrinsic" and ("bbs" not in f or f["intr"] in INTR)):
            if not dest[1]:
                d = (dest[0], 0)
            else:
                aid, off, ty, meta = self.place(st, fr, dest)
                d = (aid, off)
            if self.call_hook is not None:
                self.call_hook(self, st, "call", f, args)
            if target <= fr.bb:
                # call edge that is also a back edge
                self.jump(st, fr, target)
            fr.bb, fr.si = target, 0
            self.push(st, fi, args, d, None)
            return None
        if v is SKIP:
            raise Panic("callback stops")
        if not dest[1]:
            d = (dest[0], 0)
        else:
            aid, off, ty, meta = self.place(st, fr, dest)
            d = (aid, off)
        self.put_dest(st, fr, d, v, rty)
        self.jump(st, fr, target)
        return None

    def fnptr(self, p):
        if p.__class__ is P:
            if p.aid[0] == "f":
                return p.aid[1]
            if p.aid[0] == "g" and "fn" in self.p.allocs[p.aid[1]]:
                return self.p.allocs[p.aid[1]]["fn"]
        raise Undecided("indirect call of %s" % (p,))

    def memcpy(self, st, src, dst, cnt, es):
        n = mulc(self.as_int(st, cnt), es, self.p.ptr)
        if isc(n) and n == 0:
            return
        if not isc(n):
            r = st.facts.range(n)
            if r[0] == r[1]:
                n = r[0]
                if n == 0:
                    return
        s, d = self.to_ptr(st, src), self.to_ptr(st, dst)
        if s.__class__ is not P or d.__class__ is not P:
            if not isc(n) and st.truth(eq(n, 0, self.p.ptr)):
                return
            raise UB("copy through invalid pointer %s -> %s" % (s, d))
        self.copy_range(st, s.aid, s.off, d.aid, d.off, n)


def zext0(x):
    return x


def bnot_lin(x, w):
    """2^w - 1 - x as a linear term"""
    return sub(mask(w), x, w)


def simplify(p):
    """Path without generic arguments."""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<" :
            depth += 1
        elif ch == ">" and p[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    return "".join(out).replace("::::", "::")


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NOHIT = _Tok("nohit")
SKIP = _Tok("skip")
RUN = _Tok("run")
MODELS = {}
INTR = {}

import absmodels  # noqa: E402,F401  (fills MODELS and INTR)
