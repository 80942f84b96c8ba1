"""C40: mapped I/O; C41: streaming I/O."""
from absint import A, P
from sem import Sem
from terms import *
from terms import T
import terms as tm
from vp import check

MODES = ("exact", "longer", "one", "two")


class Io:
    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.s = s = Sem(c, cfg, "io", foreign={
            "x_map": self.x_map, "x_commit": self.x_commit, "x_more": self.x_more, "x_pred": self.x_pred, "x_next": self.x_next, "x_left": self.x_left})
        s.it.check_align = True
        s.it.oom = 1 << 40 if s.p.ptr == 64 else 1 << 28
        s.it.loop_bound = 20000
        s.it.max_steps = 4000000
        self.ps = s.p.ps
        self.w = s.p.ptr

    # --- the collaborator --------------------------------------------------
    def x_map(self, it, st, a, rty):
        """Window of one logical memory; `plan` names the window sizes and the call that fails."""
        idx, n = it.as_int(st, a[0]), it.as_int(st, a[1])
        k = st.user["calls"] = st.user.get("calls", 0) + 1
        fail = st.user.get("fail")
        if fail and fail[0] == k:
            st.emit("fail", fail[1])
            return fail[1]
        mode = st.user["mode"]
        got = {"exact": n, "longer": add(n, 3, self.w), "one": 1, "two": 2}[mode]
        if mode == "two" and st.decide(ult(n, 2, self.w)) is not False:
            got = n
        st.emit("map", idx, n, got)
        out = it.to_ptr(st, a[2])
        it.store(st, out.aid, out.off, P(st.user["mem"], idx), self.ps)
        it.store(st, out.aid, add(out.off, self.ps, self.w) if out.off.__class__ is not int else out.off + self.ps, got, self.ps)
        return 0

    def x_commit(self, it, st, a, rty):
        st.emit("commit", it.as_int(st, a[0]))
        return A((), 0)

    def x_more(self, it, st, a, rty):
        mn, has, mx = it.as_int(st, a[0]), it.b1(a[1]), it.as_int(st, a[2])
        k = st.user["calls"] = st.user.get("calls", 0) + 1
        out = it.to_ptr(st, a[3])
        have = st.user["have"]
        st.emit("more", mn, has, mx)
        if k == st.user.get("grow"):
            have = st.user["have"] = have + 2
        if st.user.get("min_only"):
            have_now = mn if isc(mn) and mn <= have else have
        else:
            have_now = have
        if st.truth(ule(mn, have, self.w)):
            it.store(st, out.aid, out.off, P(st.user["mem"], 0), self.ps)
            it.store(st, out.aid, out.off + self.ps, have_now, self.ps)
            return 0
        st.emit("short")
        it.store(st, out.aid, out.off, 77, self.ps)
        it.store(st, out.aid, out.off + self.ps, 99, self.ps)
        return 1

    def x_pred(self, it, st, a, rty):
        i, v = it.as_int(st, a[0]), it.as_int(st, a[1])
        r = st.truth(var("pred%s" % (i if isc(i) else show(i)), 1))
        st.emit("pred", i, v, r)
        return int(r)

    def x_next(self, it, st, a, rty):
        left = st.user["left"]
        if not left:
            return 256
        st.user["left"] = left[1:]
        return zext(left[0], 8, 32)

    def x_left(self, it, st, a, rty):
        return len(st.user["left"])

    # --- helpers -----------------------------------------------------------
    def zst(self, st):
        return P(self.s.it.alloc(st, 0, 1, "zst"), 0)

    def cell(self, st, v):
        a = self.s.it.alloc(st, self.ps, self.ps, "idx")
        self.s.it.store(st, a, 0, v, self.ps)
        return a

    def get(self, o, a, off=0, n=None):
        return self.s.it.as_int(o.st, self.s.it.read(o.st, a, off, n or self.ps))

    def cond(self, rule, root, st, conds, what):
        """Boolean terms that have to hold on the path."""
        return self.s.same(rule, root, st, [(t, 1) for t in conds], what)

    def opt(self, ty, v):
        """An `Option<usize>` argument."""
        ps = self.ps
        l = self.s.p.types[ty]["l"]
        if v is None:
            return A(((0, ps, 0),), 2 * ps)
        return A(((0, ps, 1), (ps, ps, v)), 2 * ps)

    def vec(self, st, L, C):
        """A vector of L committed bytes and capacity C."""
        s = self.s
        import vecs
        ty = s.p.types[s.sig("r_vec_map")[0][0]]["to"]
        (off, size, es, po, co, lo), = vecs.find(s.p, ty)
        a = s.it.alloc(st, size, s.p.align(ty), "vec")
        b = s.it.alloc(st, C, 1, "heap", base="c") if C != 0 else None
        s.it.store(st, a, po, P(b, 0) if b else 1, self.ps)
        s.it.store(st, a, co, C, self.ps)
        s.it.store(st, a, lo, L, self.ps)
        return a, po, co, lo

    def vec_now(self, o, v):
        a, po, co, lo = v
        p = self.s.it.to_ptr(o.st, self.s.it.read(o.st, a, po, self.ps))
        return p, self.get(o, a, co), self.get(o, a, lo)

    # --- mapped reads ------------------------------------------------------
    def reads(self):
        s, c, w = self.s, self.c, self.w
        st = s.state()
        L = var("L", w, 0, mask(w) >> 1)
        idx, n = var("idx", w), var("len", w)
        aid = s.it.alloc(st, L, 1, "v", base="v")
        out = s.it.alloc(st, 2 * self.ps, self.ps, "out")
        end = add(idx, n, w)
        ovf = ult(sub(mask(w), idx, w), n, w)
        for o in s.rets("mapped reads", "r_slice_map", [s.wide(P(aid, 0), L), idx, n, P(out, 0)], st):
            if not isc(o.val):
                c.unk("mapped reads", s.key("r_slice_map"), "result " + show(o.val))
            elif o.val == 0:
                self.cond("mapped reads", "r_slice_map", o.st, [not1(ovf), not1(ult(L, end, w))], "a range out of bounds is served")
                s.same("mapped reads", "r_slice_map", o.st, [(s.it.read(o.st, out, 0, self.ps), P(aid, idx)), (self.get(o, out, self.ps), n)], "mapped range")
            elif o.val == 1:
                self.cond("mapped reads", "r_slice_map", o.st, [ovf], "overflow reported for a range that does not overflow")
            elif o.val == 2:
                self.cond("mapped reads", "r_slice_map", o.st, [or1(ovf, ult(L, end, w))], "a range within bounds is refused")
            else:
                c.bad("mapped reads", s.key("r_slice_map") + ": no error", s.where("r_slice_map"), "a refused range carries no error")
        i0 = var("i0", w, 0, 1 << 20)
        for root in ("r_read", "r_read_uninit", "r_slice_read"):
            for m in (0, 1, 2, 3, 4, 5, 8, 9):
                for mode in MODES:
                    if root == "r_slice_read" and mode != "exact":
                        continue
                    for fail in [None] + [(k, e) for k in (1, 2, 3) for e in (1, 2, 3) if root != "r_slice_read"]:
                        st = s.state()
                        mem = s.it.alloc(st, 1 << 24, 1, "in", base="in")
                        st.user.update(mode=mode, mem=mem, fail=fail)
                        ic = self.cell(st, i0)
                        dst = s.it.alloc(st, m, 1, "dst", base="old")
                        me = self.zst(st) if root != "r_slice_read" else s.wide(P(mem, 0), 1 << 24)
                        for o in s.rets("mapped reads", root, [me, P(ic, 0), s.wide(P(dst, 0), m)], st):
                            hit = [e for e in o.st.events() if e[0] == "fail"]
                            if hit:
                                s.same("mapped reads", root, o.st, [(o.val, hit[0][1])], "failure of the map is passed on")
                                continue
                            s.same("mapped reads", root, o.st, [(o.val, 0), (self.get(o, ic), add(i0, m, w))]
                                   + [(s.it.read(o.st, dst, i, 1), sel("in", add(i0, i, w))) for i in range(m)], "reading %d bytes in windows (%s)" % (m, mode))

        from consts import lengths
        for root in ("r_read", "r_read_uninit", "r_write", "r_write_iter", "r_fill", "r_zero"):
            for m in lengths(s.p, 12, 9000):
                for mode in ("exact", "longer"):
                    if m > 9 and (m < 200 or root != "r_write_iter"):
                        self.big(root, m, mode)

    def big(self, root, m, mode):
        """Lengths around the constants of the code, compared at the ends and around those constants."""
        s, w = self.s, self.w
        from consts import lengths
        st = s.state()
        mem = s.it.alloc(st, m + 64, 1, "mem", base="mem")
        ic = self.cell(st, 16)
        buf = s.it.alloc(st, m, 1, "buf", base="buf")
        st.user.update(mode=mode, mem=mem, left=[sel("buf", i) for i in range(m)] if root == "r_write_iter" else ())
        args = [self.zst(st), P(ic, 0)]
        if root in ("r_read", "r_read_uninit", "r_write"):
            args.append(s.wide(P(buf, 0), m))
        elif root == "r_fill":
            args += [m, 0x5a]
        elif root == "r_zero":
            args.append(m)
        at = sorted({i for k in lengths(s.p, 3, 9000) for i in (k - 1, k, m - k, m - k - 1) if 0 <= i < m})
        rule = "mapped reads" if "read" in root else "mapped writes"
        for o in s.rets(rule, root, args, st):
            pairs = [(o.val, 0), (self.get(o, ic), 16 + m)]
            if "read" in root:
                pairs += [(s.it.read(o.st, buf, i, 1), sel("mem", 16 + i)) for i in at]
            else:
                val = {"r_fill": lambda i: 0x5a, "r_zero": lambda i: 0}.get(root, lambda i: sel("buf", i))
                pairs += [(s.it.read(o.st, mem, 16 + i, 1), val(i)) for i in at]
                pairs += [(s.it.read(o.st, mem, i, 1), sel("mem", i)) for i in (0, 15, 16 + m, 17 + m, 18 + m, 19 + m)]
            s.same(rule, root, o.st, pairs, "%d bytes in windows (%s)" % (m, mode))

    # --- mapped writes -----------------------------------------------------
    def writes(self):
        s, c, w = self.s, self.c, self.w
        for root in ("r_write", "r_write_iter", "r_fill", "r_zero"):
            for m in (0, 1, 2, 3, 4, 5, 8, 9):
                for mode in MODES:
                    for fail in [None] + [(k, e) for k in (1, 2, 3) for e in (1, 2, 3)]:
                        for i0 in (0, 1, 7, 24):
                            if fail and i0 != 7:
                                continue
                            self.write(root, m, mode, fail, i0)
        for exp in range(7):
            for mode in ("exact", "longer", "one"):
                for r in sorted({0, 1, (1 << exp) - 1, (1 << exp) // 2 + 1, 5 % (1 << exp)}):
                    for i0 in (r, 3 * (1 << exp) + r, 1000 * (1 << exp) + r):
                        self.write("r_align", (-i0) % (1 << exp), mode, None, i0, exp)
        for exp in (1, 2, 3):
            st = s.state()
            mem = s.it.alloc(st, 64, 1, "out", base="junk")
            st.user.update(mode="exact", mem=mem)
            ic = self.cell(st, mask(w))
            for o in s.rets("alignment", "r_align", [self.zst(st), P(ic, 0), exp], st):
                s.same("alignment", "r_align", o.st, [(o.val, 1), (int(any(e[0] == "map" for e in o.st.events())), 0)], "alignment beyond the address space")

    def write(self, root, m, mode, fail, i0, exp=None):
        s, c, w = self.s, self.c, self.w
        rule = "alignment" if root == "r_align" else "mapped writes"
        st = s.state()
        N = i0 + m + 16
        lo = max(0, i0 - 8)
        mem = s.it.alloc(st, N, 1, "out", base="junk")
        data = [var("d%d" % i, 8) for i in range(m)]
        st.user.update(mode=mode, mem=mem, fail=fail, left=list(data))
        ic = self.cell(st, i0)
        args = [self.zst(st), P(ic, 0)]
        if root == "r_write":
            src = s.it.alloc(st, m, 1, "src")
            for i, v in enumerate(data):
                s.it.store(st, src, i, v, 1)
            args.append(s.wide(P(src, 0), m))
        elif root == "r_fill":
            args += [m, var("fill", 8)]
            data = [var("fill", 8)] * m
        elif root == "r_zero":
            args.append(m)
            data = [0] * m
        elif root == "r_align":
            args.append(exp)
            data = [0] * m
        for o in s.rets(rule, root, args, st):
            ev = o.st.events()
            hit = [e for e in ev if e[0] == "fail"]
            what = "writing %d bytes at %d in windows (%s)" % (m, i0, mode)
            if any(e[0] == "commit" for e in ev):
                c.bad(rule, s.key(root) + ": commit", s.where(root), "a write publishes data")
            if hit:
                s.same(rule, root, o.st, [(o.val, hit[0][1])], "failure of the map is passed on")
                pairs = []
                for i in range(lo, N):
                    if not i0 <= i < i0 + m:
                        pairs.append((s.it.read(o.st, mem, i, 1), sel("junk", i)))
                s.same(rule, root, o.st, pairs, what + ": surrounding bytes")
                continue
            pairs = [(o.val, 0), (self.get(o, ic), i0 + m)]
            for i in range(lo, N):
                pairs.append((s.it.read(o.st, mem, i, 1), data[i - i0] if i0 <= i < i0 + m else sel("junk", i)))
            s.same(rule, root, o.st, pairs, what)

    # --- vectors -----------------------------------------------------------
    def vectors(self):
        s, c, w = self.s, self.c, self.w
        idx, n = var("idx", w), var("len", w)
        end = add(idx, n, w)
        ovf = ult(sub(mask(w), idx, w), n, w)
        mx = mask(w) >> 1
        for L, C in ((0, 0), (0, 8), (3, 3), (3, 8), (5, 64), (64, 64)):
            st = s.state()
            v = self.vec(st, L, C)
            out = s.it.alloc(st, 2 * self.ps, self.ps, "out")
            for o in s.rets("vector writes", "r_vec_map", [P(v[0], 0), idx, n, P(out, 0)], st):
                p, cap, ln = self.vec_now(o, v)
                if o.val == 0:
                    need = add(end, L, w)
                    self.cond("vector writes", "r_vec_map", o.st, [not1(ovf), not1(ult(mask(w) - L, end, w))], "an overflowing range is served")
                    zero = o.st.decide(eq(n, 0, w)) is True
                    s.same("vector writes", "r_vec_map", o.st, ([] if zero or p.__class__ is not P else [
                        (s.it.read(o.st, out, 0, self.ps), P(p.aid, add(idx, L, w)))]) + [(self.get(o, out, self.ps), n), (ln, L)],
                           "window of a vector with %d committed bytes and room for %d" % (L, C))
                    if p.__class__ is P:
                        size = o.st.mem[p.aid].size
                        self.cond("vector writes", "r_vec_map", o.st, [not1(ult(size, need, w)), not1(ult(cap, need, w))], "window exceeds the capacity of the vector")
                        s.same("vector writes", "r_vec_map", o.st, [(s.it.read(o.st, p.aid, i, 1), sel("c", i)) for i in range(L)], "committed bytes")
                elif o.val == 1:
                    self.cond("vector writes", "r_vec_map", o.st, [ovf], "overflow reported for a range that does not overflow")
                elif o.val == 2:
                    self.cond("vector writes", "r_vec_map", o.st, [or1(ovf, ult(s.it.oom // 2 - 64, end, w))], "a range that fits memory is refused")
                    s.same("vector writes", "r_vec_map", o.st, [(ln, L)], "length after a refused range")
                else:
                    c.bad("vector writes", s.key("r_vec_map") + ": no error", s.where("r_vec_map"), "a refused range carries no error (%s)" % (o.val,))
            # write at an offset, then publish
            for i0 in (0, 1, 4, 100):
                for m in (0, 1, 3, 70):
                    st = s.state()
                    v = self.vec(st, L, C)
                    src = s.it.alloc(st, m, 1, "src", base="d")
                    ic = self.cell(st, i0)
                    for o in s.rets("vector writes", "r_vec_write", [P(v[0], 0), P(ic, 0), s.wide(P(src, 0), m)], st):
                        p, cap, ln = self.vec_now(o, v)
                        pairs = [(o.val, 0), (self.get(o, ic), i0 + m), (ln, L)]
                        if p.__class__ is P:
                            pairs += [(s.it.read(o.st, p.aid, i, 1), sel("c", i)) for i in range(L)]
                            pairs += [(s.it.read(o.st, p.aid, L + i0 + i, 1), sel("d", i)) for i in range(m)]
                        s.same("vector writes", "r_vec_write", o.st, pairs, "writing %d bytes at %d of a vector with %d committed bytes" % (m, i0, L))
                        if i0 == 0:
                            for q in s.rets("vector writes", "r_vec_commit", [P(v[0], 0), m], o.st.fork()):
                                p2, cap, ln = self.vec_now(q, v)
                                s.same("vector writes", "r_vec_commit", q.st, [(ln, L + m)]
                                       + ([(s.it.read(q.st, p2.aid, i, 1), sel("c", i) if i < L else sel("d", i - L)) for i in range(L + m)] if p2.__class__ is P else []),
                                       "published bytes")

    # --- streaming ---------------------------------------------------------
    def stream(self):
        s, c, w, ps = self.s, self.c, self.w, self.ps
        rule = "stream maps"
        mn, mx = var("min", w), var("max", w)
        for has in (0, 1):
            oty = s.sig("r_s_map")[0][2]
            arg = self.opt(oty, mx if has else None)
            st = s.state()
            L = var("L", w, 0, mask(w) >> 1)
            aid = s.it.alloc(st, L, 1, "v", base="v")
            out = s.it.alloc(st, 3 * ps, ps, "out")
            for o in s.rets(rule, "r_s_map", [s.wide(P(aid, 0), L), mn, arg, P(out, 0)], st):
                self.more(rule, "r_s_map", o, out, mn, has, mx, P(aid, 0), L, ult(L, mn, w))
            for Lc, C in ((0, 0), (0, 8), (3, 3), (3, 64)):
                st = s.state()
                v = self.vec(st, Lc, C)
                out = s.it.alloc(st, 3 * ps, ps, "out")
                for o in s.rets(rule, "r_s_vec_map", [P(v[0], 0), mn, arg, P(out, 0)], st):
                    p, cap, ln = self.vec_now(o, v)
                    at = P(p.aid, Lc) if p.__class__ is P else None
                    size = sub(o.st.mem[p.aid].size, Lc, w) if p.__class__ is P else 0
                    self.more(rule, "r_s_vec_map", o, out, mn, has, mx, at, size, ult(s.it.oom // 2 - 64, mn, w))
                    s.same(rule, "r_s_vec_map", o.st, [(ln, Lc)] + ([(s.it.read(o.st, p.aid, i, 1), sel("c", i)) for i in range(Lc)] if p.__class__ is P else []), "committed bytes")
        # position
        n = var("n", w, 0, 1 << 20)
        st = s.state()
        L = var("L", w, 1 << 20, 1 << 24)
        aid = s.it.alloc(st, L, 1, "v", base="v")
        ref = s.it.alloc(st, 2 * ps, ps, "ref")
        s.it.store(st, ref, 0, P(aid, 0), ps)
        s.it.store(st, ref, ps, L, ps)
        for o in s.rets("stream position", "r_s_advance", [P(ref, 0), n], st):
            s.same("stream position", "r_s_advance", o.st, [(s.it.read(o.st, ref, 0, ps), P(aid, n)), (self.get(o, ref, ps), sub(L, n, w))], "rest of the stream")
        for Lc, C in ((0, 8), (3, 8), (3, 64)):
            st = s.state()
            v = self.vec(st, Lc, C)
            k = var("k", w, 0, C - Lc)
            for o in s.rets("stream position", "r_s_vec_commit", [P(v[0], 0), k], st):
                p, cap, ln = self.vec_now(o, v)
                s.same("stream position", "r_s_vec_commit", o.st, [(ln, add(k, Lc, w))], "length after publishing")
            for m in (0, 1, 5, 70):
                st = s.state()
                v = self.vec(st, Lc, C)
                src = s.it.alloc(st, m, 1, "src", base="d")
                out = s.it.alloc(st, 3 * ps, ps, "out")
                for o in s.rets("stream writes", "r_s_vec_write", [P(v[0], 0), s.wide(P(src, 0), m), P(out, 0)], st):
                    p, cap, ln = self.vec_now(o, v)
                    s.same("stream writes", "r_s_vec_write", o.st, [(o.val, 0), (ln, Lc + m)]
                           + [(s.it.read(o.st, p.aid, i, 1), sel("c", i) if i < Lc else sel("d", i - Lc)) for i in range(Lc + m)], "writing %d bytes" % m)
                st = s.state()
                v = self.vec(st, Lc, C)
                out = s.it.alloc(st, 3 * ps, ps, "out")
                for o in s.rets("stream maps", "r_s_vec_unchecked", [P(v[0], 0), m, P(out, 0)], st):
                    p, cap, ln = self.vec_now(o, v)
                    s.same("stream maps", "r_s_vec_unchecked", o.st, [(o.val, 0), (self.get(o, out, ps), m), (ln, Lc), (s.it.read(o.st, out, 0, ps), P(p.aid, Lc))], "window")
        # helpers over an arbitrary stream
        for m in (0, 1, 2, 5):
            for have in (0, 1, 2, 5, 9):
                st = s.state()
                mem = s.it.alloc(st, have, 1, "mem", base="junk")
                st.user.update(mem=mem, have=have)
                src = s.it.alloc(st, m, 1, "src", base="d")
                out = s.it.alloc(st, 3 * ps, ps, "out")
                for o in s.rets("stream writes", "r_s_write", [self.zst(st), s.wide(P(src, 0), m), P(out, 0)], st):
                    com = [e[1] for e in o.st.events() if e[0] == "commit"]
                    if have < m:
                        s.same("stream writes", "r_s_write", o.st, [(o.val, 1), (len(com), 0), (self.get(o, out), 77), (self.get(o, out, ps), 1), (self.get(o, out, 2 * ps), 99)]
                               + [(s.it.read(o.st, mem, i, 1), sel("junk", i)) for i in range(have)], "a short stream")
                    else:
                        s.same("stream writes", "r_s_write", o.st, [(o.val, 0), (sum(com) if all(map(isc, com)) else None, m), (int(len(com) == 1), 1)]
                               + [(s.it.read(o.st, mem, i, 1), sel("d", i) if i < m else sel("junk", i)) for i in range(have)], "writing %d bytes" % m)
                st = s.state()
                mem = s.it.alloc(st, have, 1, "mem", base="junk")
                st.user.update(mem=mem, have=have)
                out = s.it.alloc(st, 3 * ps, ps, "out")
                for o in s.rets("stream maps", "r_s_unchecked", [self.zst(st), m, P(out, 0)], st):
                    if have < m:
                        s.same("stream maps", "r_s_unchecked", o.st, [(o.val, 1), (self.get(o, out), 77), (self.get(o, out, ps), 1), (self.get(o, out, 2 * ps), 99)], "a short stream")
                    else:
                        s.same("stream maps", "r_s_unchecked", o.st, [(o.val, 0), (s.it.read(o.st, out, 0, ps), P(mem, 0)), (self.get(o, out, ps), m)], "window")

    def more(self, rule, root, o, out, mn, has, mx, at, size, short):
        s, c, w, ps = self.s, self.c, self.w, self.ps
        if o.val == 0:
            got = self.get(o, out, ps)
            self.cond(rule, root, o.st, [not1(ult(got, mn, w)), not1(ult(size, got, w))], "a window shorter than requested or larger than the buffer")
            if at is not None:
                s.same(rule, root, o.st, [(s.it.read(o.st, out, 0, ps), at)], "start of the window")
        elif o.val == 1:
            self.cond(rule, root, o.st, [short], "a request that can be served is refused")
            s.same(rule, root, o.st, [(self.get(o, out), mn), (self.get(o, out, ps), has)] + ([(self.get(o, out, 2 * ps), mx)] if has else []), "what is missing")

    def scan(self):
        s, c, w, ps = self.s, self.c, self.w, self.ps
        rule = "scanning"
        oty = s.sig("r_while")[0][2]
        for root in ("r_while", "r_dyn_while"):
            for have in range(5):
                for n0 in range(have + 2):
                    for mx in (None, 0, 1, 2, 3, 6, mask(w)):
                        for mo in (0, 1):
                            for grow in (None, 2) if root == "r_while" else (None,):
                                self.scan1(rule, root, oty, have, n0, mx, mo, grow)

    def scan1(self, rule, root, oty, have, n0, mx, mo, grow):
        s, c, w, ps = self.s, self.c, self.w, self.ps
        st = s.state()
        mem = s.it.alloc(st, have + 2, 1, "in", base="in")
        st.user.update(mem=mem, have=have, min_only=mo, grow=grow)
        nc = self.cell(st, n0)
        out = s.it.alloc(st, 3 * ps, ps, "out")
        me = self.zst(st)
        if root == "r_dyn_while":
            r = s.run("r_use_dyn", [], st.fork())
            vt = r[0].val.get(ps)
            me = A(((0, ps, me), (ps, ps, vt)), 2 * ps)
        top = mask(w) if mx is None else mx
        for o in s.rets(rule, root, [me, P(nc, 0), self.opt(oty, mx), P(out, 0)], st):
            ev = o.st.events()
            preds = [e for e in ev if e[0] == "pred"]
            what = "scanning %d bytes from %d up to %s" % (have, n0, mx)
            at = n0
            for e in preds:
                s.same(rule, root, o.st, [(e[1], at), (e[2], sel("in", at))], what + ": byte looked at")
                if e[3]:
                    at += 1
                elif e is not preds[-1]:
                    c.bad(rule, s.key(root) + ": continues", s.where(root), what + ": scanning continues after the predicate failed")
            stop = preds and not preds[-1][3]
            short = any(e[0] == "short" for e in ev)
            have2 = o.st.user["have"]
            if stop:
                s.same(rule, root, o.st, [(o.val, 0), (self.get(o, nc), at), (s.it.read(o.st, out, 0, ps), P(mem, 0))], what + ": stop")
                g = self.get(o, out, ps)
                self.cond(rule, root, o.st, [ule(at + 1, g, w), ule(g, min(top, have2), w)], what + ": window at stop")
            elif short:
                need = [e for e in ev if e[0] == "more"][-1]
                s.same(rule, root, o.st, [(o.val, 1), (self.get(o, nc), at), (self.get(o, out), 77), (self.get(o, out, ps), 1), (self.get(o, out, 2 * ps), 99),
                                          (need[1], min(at + 1, top))], what + ": short")
            else:
                # every byte up to the maximum passed
                s.same(rule, root, o.st, [(o.val, 0), (self.get(o, nc), at), (s.it.read(o.st, out, 0, ps), P(mem, 0))], what + ": end")
                g = self.get(o, out, ps)
                self.cond(rule, root, o.st, [ule(top, max(at, n0), w), eq(g, top, w)], what + ": window at the maximum")


def not1(t):
    return xor(t, 1, 1) if not isc(t) else 1 - t


@check("C40", "Value numbering of the mapped I/O traits: ranges of slices and vectors for arbitrary offsets and lengths; the provided helpers over an "
              "arbitrary implementation of the trait (window sizes exact, longer, one and two bytes, failing at any of the first calls) with symbolic data.")
def c40(c):
    for cfg in ("host", "i686"):
        io = Io(c, cfg)
        io.reads()
        io.writes()
        io.vectors()
        io.s.done()
    c.floor("mapped reads", 600)
    c.floor("mapped writes", 1500)
    c.floor("alignment", 200)
    c.floor("vector writes", 250)


@check("C41", "Value numbering of the streaming I/O traits for arbitrary minimum, maximum and position; the provided helpers over an arbitrary "
              "implementation of the trait; the scanning helper for all buffer states up to five bytes with an arbitrary predicate.")
def c41(c):
    for cfg in ("host", "i686"):
        io = Io(c, cfg)
        io.stream()
        io.scan()
        io.s.done()
    c.floor("stream maps", 100)
    c.floor("stream position", 5)
    c.floor("stream writes", 50)
    c.floor("scanning", 1000)
