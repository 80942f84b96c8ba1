"""Comparison of program states at the head of a loop, for arguments by induction over iterations."""
from absint import A, P, Undecided
from terms import *
from terms import T


class Reached(Undecided):
    """Execution arrived at the watched place; ends the path only."""


def watch_loop(it, depth):
    """Collect states that come back to the head of a loop of a library function at this call depth."""
    got = []

    def hook(it_, st, fr, bb, v):
        if len(st.frames) == depth and it_.p.fns[fr.fi]["crate"] in ("osi", "sys", "tmp"):
            got.append(st.fork())
            raise Reached("cut")
    it.loop_hook = hook
    return got


def watch_entry(it, depth, fi, bb0):
    """Collect states on their first arrival at a block."""
    got = []

    def hook(it_, st, fr, bb):
        if fr.fi == fi and bb == bb0 and len(st.frames) == depth:
            f = st.fork()
            f.frames[-1].bb, f.frames[-1].si = bb, 0
            got.append(f)
            raise Reached("cut")
    it.enter_hook = hook
    return got


def unwatch(it):
    it.loop_hook = it.enter_hook = None


class Mismatch(Exception):
    pass


def frames_pairs(it, st1, st2, amap, pairs, free):
    """Pairs of values that have to agree for the two states to continue alike."""
    if len(st1.frames) != len(st2.frames):
        raise Mismatch("call depth")
    todo = []
    for f1, f2 in zip(st1.frames, st2.frames):
        if f1.fi != f2.fi or f1.bb != f2.bb or f1.si != f2.si:
            raise Mismatch("program point")
        live = it.p.live(f1.fi)[f1.bb]
        for i in sorted(live):
            a1, a2 = f1.loc[i], f2.loc[i]
            if a1 is None and a2 is None:
                continue
            if a1 is None or a2 is None:
                raise Mismatch("local %d" % i)
            amap[a1] = a2
            todo.append((a1, a2))
        for a1, a2 in zip(f1.loc, f2.loc):
            if a1 is not None and a2 is not None:
                amap.setdefault(a1, a2)
    seen = set()
    for k, v in list(amap.items()):
        if (k, v) not in todo and k in st1.mem and v in st2.mem and k[0] != "l":
            todo.append((k, v))
    while todo:
        a1, a2 = todo.pop()
        if (a1, a2) in seen:
            continue
        seen.add((a1, a2))
        x, y = st1.mem.get(a1), st2.mem.get(a2)
        if x is None or y is None:
            continue
        if x.base != y.base or x.blob is not y.blob and x.blob != y.blob:
            raise Mismatch("contents of %s" % (a1,))
        if x.log or y.log:
            if x.log != y.log:
                raise Mismatch("writes to %s" % (a1,))
        for o in sorted(set(x.cells) | set(y.cells)):
            c, d = x.cells.get(o), y.cells.get(o)
            if d is not None and d[1].__class__ is T and d[1] in free:
                continue
            if c is None or d is None or c[0] != d[0]:
                n = (c or d)[0]
                v1, v2 = it.read(st1, a1, o, n), it.read(st2, a2, o, n)
            else:
                v1, v2 = c[1], d[1]
            pair(v1, v2, amap, pairs, todo)


def pair(v1, v2, amap, pairs, todo):
    if v1 is None and v2 is None:
        return
    if v1.__class__ is P and v2.__class__ is P:
        if v1.aid != v2.aid:
            if v1.aid[0] == "g" or v2.aid[0] == "g":
                raise Mismatch("pointer")
            m = amap.setdefault(v1.aid, v2.aid)
            if m != v2.aid:
                raise Mismatch("pointer")
            todo.append((v1.aid, v2.aid))
        pairs.append((v1.off, v2.off))
        return
    if v1 is None or v2 is None or v1.__class__ is P or v2.__class__ is P:
        raise Mismatch("kinds of values")
    pairs.append((v1, v2))
