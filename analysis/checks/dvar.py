"""C37: D-Bus wire format; C38: failing operations change nothing; C39: decoding untrusted data."""
import text
import vecs
from absint import A, P
from checks.signature import Tree, gen
from consts import consts
from sem import Sem
from terms import *
from vp import check, parallel
import random

ALIGN = dict(zip("ybnqiuxtdsoghva({", (1, 4, 2, 2, 4, 4, 8, 8, 8, 4, 4, 1, 4, 1, 4, 8, 8)))
OPS = {"u16": "q", "u32": "u", "u64": "t", "string": "s", "object": "o", "signature": "g", "variant": "v", "array": "a", "structure": "(", "dict": "{"}
BY = {v: k for k, v in OPS.items()}
DOPS = {"u16": "q", "string": "s", "signature": "g", "array": "a"}
CODE = ["success", "a type mismatch", "a pending error", "a data overflow", "invalid text", "an I/O overflow", "an exceeded input", "a break without error"]


def first(sig):
    """Length of the single complete type at the start."""
    if sig[0] == "a":
        return 1 + first(sig[1:])
    if sig[0] in "({":
        i = 1
        while sig[i] not in ")}":
            i += first(sig[i:])
        return i + 1
    return 1


def parts(sig):
    out = []
    while sig:
        n = first(sig)
        out.append(sig[:n])
        sig = sig[n:]
    return out


class Plan:
    """Operations that encode a value of a type, the reference bytes, and what is possible before each operation."""

    def __init__(self, be, w, counts=(1,), lens=(3,), sub=(), variants=("u",), abandon=False, ops=OPS):
        self.be, self.w, self.counts, self.lens, self.sub, self.variants, self.abandon, self.ops = be, w, counts, lens, sub, variants, abandon, ops
        self.out, self.steps, self.at, self.cur = [], [], [], 0
        self.nv = self.nc = self.nl = self.nx = self.ns = 0

    def pad(self, n):
        while len(self.out) % n:
            self.out.append(0)

    def num(self, v, n):
        b = [ext(v, 8 * i, 8) if not isc(v) else v >> 8 * i & 255 for i in range(n)]
        return b[::-1] if self.be else b

    def step(self, elem, whole, close, done, op, *args, more=None):
        if op in ("close", "commit", "up", "enc", "try"):
            self.cur = len(self.out)
        self.steps.append((elem, whole, close, done, op, args, more))
        self.at.append(self.cur)
        self.cur = len(self.out)

    def top(self, sig):
        self.step_type(sig, False, None)
        self.step(None, None, False, True, "commit")
        return self

    def step_type(self, sig, close, end):
        """Emit one complete type; `close`: the container may be closed instead; `end`: how to tell whether an array has more."""
        ch = sig[0]
        ctx = (ch, sig, close, False)
        self.ns += 1
        if self.ns in self.sub or "all" in self.sub:
            if self.abandon:
                self.step(*ctx, "try", sig, more=end)
            self.step(*ctx, "enc", sig, more=end)
            was, self.sub = self.sub, tuple(x for x in self.sub if x != "all") if "all" in self.sub and "deep" not in self.sub else self.sub
            self.value(sig, (ch, sig, False, False), None)
            self.sub = was
            self.step(None, None, False, True, "up")
            return
        self.value(sig, ctx, end)

    def value(self, sig, ctx, end):
        ch = sig[0]
        op = BY.get(ch)
        self.cur = len(self.out)
        if op in ("u16", "u32", "u64"):
            n = {"u16": 2, "u32": 4, "u64": 8}[op]
            v = var("v%d" % self.nv, 8 * n)
            self.nv += 1
            self.pad(n)
            self.step(*ctx, op, v, more=end)
            self.out += self.num(v, n)
        elif op in ("string", "object", "signature"):
            n = self.lens[self.nl % len(self.lens)]
            self.nl += 1
            base = "s%d" % self.nv
            self.nv += 1
            self.pad(ALIGN[ch])
            self.step(*ctx, op, base, n, more=end)
            self.out += self.num(n, 1 if op == "signature" else 4)
            self.out += [sel(base, i) for i in range(n)] + [0]
        elif op == "variant":
            x = self.variants[self.nx % len(self.variants)]
            self.nx += 1
            self.step(*ctx, "variant", x, more=end)
            self.out += [len(x)] + list(x.encode()) + [0]
            self.step_type(x, False, None)
            self.step(None, None, True, False, "close")
        elif op == "array":
            el = sig[1:]
            n = self.counts[self.nc % len(self.counts)] if self.possible(el) else 0
            self.nc += 1
            self.pad(4)
            self.step(*ctx, "array", more=end)
            at = len(self.out)
            self.out += [0] * 4
            self.pad(ALIGN[el[0]])
            start = len(self.out)
            mark = [start]
            for _ in range(n):
                self.step_type(el, True, mark)
            self.out[at:at + 4] = self.num(len(self.out) - start, 4)
            mark.append(len(self.out))
            self.step(el[0], el, True, False, "close", more=mark)
        elif op in ("structure", "dict"):
            self.pad(8)
            self.step(*ctx, op, more=end)
            for x in parts(sig[1:-1]):
                self.step_type(x, False, None)
            self.step(None, None, True, False, "close")
        else:
            raise ValueError(sig)

    def possible(self, sig):
        """Values of the type can be built from the available operations."""
        if sig[0] in "({":
            return BY[sig[0]] in self.ops and all(self.possible(x) for x in parts(sig[1:-1]))
        return BY.get(sig[0]) in self.ops


class Coder:
    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.way = ""
        m = dict(vecs.MODELS)
        m.update(text.MODELS)
        self.s = Sem(c, cfg, "dvar", models=m, foreign={"x_map": self.x_map, "x_commit": self.x_commit})
        self.s.it.check_align = True
        self.s.it.loop_bound = 3000
        self.ps, self.w = self.s.p.ps, self.s.p.ptr
        self.sigs = {}
        self.ety = self.pointee("r_enc")
        self.dty = self.pointee("r_dec")
        sty = self.s.p.types[self.s.sig("r_d_string")[0][1]]["to"]
        self.sty = sty
        self.slay = vecs.find(self.s.p, sty)[0]

    def pointee(self, root):
        return self.s.p.types[self.s.sig(root)[0][0]]["to"]

    # --- the collaborator ----------------------------------------------------
    def x_map(self, it, st, a, rty):
        idx, n = it.as_int(st, a[0]), it.as_int(st, a[1])
        st.user["calls"] = k = st.user.get("calls", 0) + 1
        fail = st.user.get("fail")
        if fail and fail[0] == k:
            return fail[1]
        size = st.user.get("size")
        if size is not None:
            end = add(idx, n, self.w)
            if st.truth(ult(sub(mask(self.w), idx, self.w), n, self.w)):
                return 1
            if st.truth(ult(size, end, self.w)):
                return 2
        mode = st.user.get("mode", "exact")
        got = n
        if mode == "longer":
            got = add(n, 3, self.w)
            if size is not None:
                got = sub(size, idx, self.w)
        elif mode == "one":
            got = 1 if st.truth(ult(0, n, self.w)) else 0
        elif mode == "two":
            got = 2 if st.truth(ult(2, n, self.w)) else n
        out = it.to_ptr(st, a[2])
        it.store(st, out.aid, out.off, P(st.user["mem"], idx), self.ps)
        it.store(st, out.aid, out.off + self.ps, got, self.ps)
        return 0

    def x_commit(self, it, st, a, rty):
        st.emit("commit", it.as_int(st, a[0]))
        return A((), 0)

    # --- pieces ----------------------------------------------------------------
    def sig(self, st, txt):
        """A parsed signature; parsing happens once per text, its memory is shared."""
        if txt not in self.sigs:
            s = self.s
            st0 = s.state()
            a = s.it.alloc(st0, len(txt), 1, "text")
            for i, ch in enumerate(txt.encode()):
                s.it.store(st0, a, i, ch, 1)
            o = s.run("r_sig", [s.wide(P(a, 0), len(txt))], st0)
            if len(o) != 1 or o[0].kind != "ret" or o[0].val.__class__ is not A or o[0].val.get(0).__class__ is not P:
                raise ValueError("signature %s is not parsed" % txt)
            self.sigs[txt] = (o[0].val, o[0].val.get(0).aid, o[0].st.mem[o[0].val.get(0).aid])
        v, aid, mem = self.sigs[txt]
        if aid not in st.mem:
            st.mem[aid] = mem
        return v

    def zst(self, st):
        return P(self.s.it.alloc(st, 0, 1, "zst"), 0)

    def string(self, st, base, n):
        a = self.s.it.alloc(st, n, 1, "str", base=base)
        return self.s.wide(P(a, 0), n)

    def obj(self, st, ty):
        return self.s.it.alloc(st, self.s.p.size(ty), self.s.p.align(ty), "coder")

    def new(self, root, ty, sig, be, mode, mem):
        st = self.s.state()
        a = self.obj(st, ty)
        v = self.sig(st, sig)
        st.user.update(mode=mode)
        st.user["mem"] = mem(st)
        o, = self.s.rets("setup", root, [P(a, 0), v, int(be), self.zst(st)], st)
        return a, o.st

    def same_mem(self, a, b, skip):
        """Both states hold the same coder: nothing but the output differs."""
        for aid, x in a.mem.items():
            if aid in skip:
                continue
            y = b.mem.get(aid)
            if y is None:
                return False
            if x is not y and (x.cells != y.cells or x.log != y.log or x.base is not y.base or x.size != y.size):
                return False
        return True

    def say(self, k, root, o, got, want, what):
        if not isc(got):
            self.c.unk(k, what, "result %s" % show(got))
            return False
        self.c.expect(k, got == want, "%s: %s [%s]" % (root, what, self.cfg), self.s.where(root),
                      "%s: %s, expected %s" % (what, CODE[got] if got < 8 else got, CODE[want]))
        return got == want


class Enc(Coder):
    # --- one operation -----------------------------------------------------------
    def call(self, st, e, op, args):
        """Run an operation on a fork of the state."""
        s = self.s
        st = st.fork()
        st.user["calls"] = 0
        a = [P(e, 0)]
        if op in ("u16", "u32", "u64"):
            a.append(args[0])
        elif op in ("string", "object", "signature"):
            a.append(self.string(st, *args))
        elif op == "variant":
            a.append(self.sig(st, args[0]))
        elif op in ("enc", "enc_with"):
            sub = self.obj(st, self.ety)
            if op == "enc_with":
                a.append(self.sig(st, args[0]))
            a.append(P(sub, 0))
            st.user["sub"] = sub
        return s.rets(self.group, "r_e_" + op, a, st)

    def expect(self, st, e, op, args, want, what):
        """The states after an operation with the expected result."""
        out = []
        for o in self.call(st, e, op, args):
            if self.say(self.group, "r_e_" + op, o, o.val, want, what):
                out.append(o.st)
        return out

    def walk(self, plan, st, stack, i, sig, probe=None):
        """Run the operations from i on; returns the final states, None on a mismatch."""
        for k in range(i, len(plan.steps)):
            elem, whole, close, done, op, args, more = plan.steps[k]
            what = "`%s`, step %d (%s)" % (sig, k, op)
            if probe:
                probe(plan, st, stack, k, sig)
            e = stack[-1]
            if op == "try":
                # a nested encoder that is given up
                r = self.expect(st, e, "enc", (), 0, what)
                if not r:
                    return None
                q = r[0]
                sub = q.user["sub"]
                nxt = [x for x in plan.steps[k + 2:]][0]
                r = self.expect(q, sub, nxt[4], nxt[5], 0, what) if nxt[4] in OPS else [q]
                if not r:
                    return None
                st = r[0]
                continue
            if op == "enc":
                use = "enc" if k % 2 else "enc_with"
                r = self.expect(st, e, use, args, 0, what)
                if not r:
                    return None
                st = r[0]
                stack = stack + [st.user["sub"]]
                continue
            if op == "up":
                r = self.expect(st, e, "commit", (), 0, what)
                if r and k % 3 == 0:
                    r = self.expect(r[0], e, "commit", (), 0, what + " again")
                if not r:
                    return None
                st = r[0]
                stack = stack[:-1]
                continue
            r = self.expect(st, e, op, args, 0, what)
            if not r:
                return None
            st = r[0]
        return st

    def finish(self, plan, st, e, sig, what=""):
        """Compare what was published."""
        s = self.s
        if st is None:
            return
        com = [x[1] for x in st.events() if x[0] == "commit"]
        what = "`%s`%s" % (sig, what)
        self.c.expect(self.group, len(com) == 1 and com[0] == len(plan.out), "published %s [%s]" % (what, self.cfg), s.where("r_e_commit"),
                      "%s: published %s bytes, expected %d once" % (what, com, len(plan.out)))
        mem = st.user["mem"]
        s.same(self.group, "r_e_commit", st, [(s.it.read(st, mem, i, 1), b) for i, b in enumerate(plan.out)], what + ": bytes")

    def start(self, sig, be, mode):
        return self.new("r_enc" + self.way, self.ety, sig, be, mode, lambda st: self.s.it.alloc(st, 1 << 20, 8, "out", base="junk"))

    def encode(self, sig, be, mode="exact", probe=None, **kw):
        plan = Plan(be, self.w, **kw).top(sig)
        e, st = self.start(sig, be, mode)
        st = self.walk(plan, st, [e], 0, sig, probe)
        self.finish(plan, st, e, sig)

    # --- failing operations --------------------------------------------------------
    def wrong(self, plan, st, stack, k, sig):
        """Everything the signature does not allow here is refused and changes nothing."""
        elem, whole, close, done, op, args, more = plan.steps[k]
        e = stack[-1]
        what = "`%s`, before step %d (%s)" % (sig, k, op)
        tries = [(x, {"u16": (1,), "u32": (1,), "u64": (1,), "string": ("w", 2), "object": ("w", 2), "signature": ("w", 1), "variant": ("s",)}.get(x, ()), 1)
                 for x, ch in OPS.items() if ch != elem]
        if elem == "g":
            tries.append(("signature", ("w", 256), 3))
        if elem == "v":
            tries.append(("variant", ("(" + "q" * 254 + ")",), 3))
        if not close:
            tries.append(("close", (), 1))
        if not done:
            tries.append(("commit", (), 2))
        if elem is None:
            tries.append(("enc", (), 1))
        for x in ("s", "ag", sig):
            if x != whole:
                tries.append(("enc_with", (x,), 1))
        for x, a, want in tries:
            for o in self.call(st, e, x, a):
                if self.say(self.group, "r_e_" + x, o, o.val, want, what + ": " + x):
                    self.unchanged(plan, st, o.st, stack, k, sig, what + ": refused " + x, "r_e_" + x)

    def failing(self, plan, st, stack, k, sig):
        """Failures of the output at any point of an operation change nothing."""
        elem, whole, close, done, op, args, more = plan.steps[k]
        if op not in OPS and op != "close":
            return
        e = stack[-1]
        r = self.call(st, e, op, args)
        n = max((o.st.user["calls"] for o in r), default=0)
        for j in range(1, n + 1):
            code = 1 + (j + k) % 3
            st2 = st.fork()
            st2.user["fail"] = (j, code)
            what = "`%s`, step %d (%s), output fails at access %d" % (sig, k, op, j)
            for o in self.call(st2, e, op, args):
                if self.say(self.group, "r_e_" + op, o, o.val, {1: 5, 2: 6, 3: 7}[code], what):
                    o.st.user["fail"] = None
                    self.unchanged(plan, st, o.st, stack, k, sig, what, "r_e_" + op, r)

    def unchanged(self, plan, st, st2, stack, k, sig, what, root, good=()):
        s, c = self.s, self.c
        if any(x[0] == "commit" for x in st2.events()) and not any(x[0] == "commit" for x in st.events()):
            c.bad(self.group, "%s: %s [%s]" % (root, what, self.cfg), s.where(root), what + ": publishes output")
            return
        mem = st.user["mem"]
        if self.same_mem(st, st2, {mem}):
            self.c.ok(self.group, 1)
            if st.mem[mem] is st2.mem[mem]:
                return
            # earlier output may only hold what the operation would have put there
            n = plan.at[k]
            for i in range(n):
                x, y = s.it.read(st2, mem, i, 1), s.it.read(st, mem, i, 1)
                if x != y and not (good and x == s.it.read(good[0].st, mem, i, 1)):
                    s.same(self.group, root, st2, [(x, y)], what + ": output so far")
            return
        r = self.walk(plan, st2.fork(), stack, k, sig + " after failure")
        if r is None:
            c.bad(self.group, "%s: %s [%s]" % (root, what, self.cfg), s.where(root), what + ": the operation cannot be repeated")
        else:
            self.finish(plan, r, stack[0], sig, " after failure of step %d" % k)
        if plan.steps[k][2] and plan.steps[k][4] != "close":
            self.closing(plan, st, st2, stack, k, sig, what, root)

    def closing(self, plan, st, st2, stack, k, sig, what, root):
        """Going on with the end of the container gives the same output with and without the failed operation."""
        s, c = self.s, self.c
        depth, j = 0, k
        while j < len(plan.steps):
            op = plan.steps[j][4]
            if op in ("try", "enc", "up", "commit"):
                return
            if op in ("array", "structure", "dict", "variant"):
                depth += 1
            elif op == "close":
                if depth == 0:
                    break
                depth -= 1
            j += 1
        else:
            return
        a, b = (self.walk(plan, x.fork(), stack, j, sig + ", closed early") for x in (st, st2))
        if a is None or b is None:
            c.expect(self.group, a is b, "%s: %s, closed early [%s]" % (root, what, self.cfg), s.where(root), what + ": closing the container afterwards has a different result")
            return
        x, y = ([e[1] for e in q.events() if e[0] == "commit"] for q in (a, b))
        if x != y:
            c.bad(self.group, "%s: %s, closed early [%s]" % (root, what, self.cfg), s.where(root), "%s: closing the container afterwards publishes %s bytes instead of %s" % (what, y, x))
            return
        mem = st.user["mem"]
        for i in range(x[0] if x and isc(x[0]) else 0):
            s.same(self.group, root, b, [(s.it.read(b, mem, i, 1), s.it.read(a, mem, i, 1))], what + ": output after closing the container")


class Dec(Coder):
    def call(self, st, d, op, args=()):
        s = self.s
        st = st.fork()
        st.user["calls"] = 0
        a = [P(d, 0)]
        if op == "u16":
            v = s.it.alloc(st, 2, 2, "out")
            s.it.store(st, v, 0, var("before", 16), 2)
            a.append(P(v, 0))
            st.user["out"] = v
        elif op in ("string", "signature"):
            off, size, es, po, co, lo = self.slay
            v = s.it.alloc(st, s.p.size(self.sty), self.ps, "out")
            s.it.store(st, v, po, 1, self.ps)
            s.it.store(st, v, co, 0, self.ps)
            s.it.store(st, v, lo, 0, self.ps)
            a.append(P(v, 0))
            st.user["out"] = v
        elif op in ("dec", "dec_with"):
            sub = self.obj(st, self.dty)
            if op == "dec_with":
                a.append(self.sig(st, args[0]))
            a.append(P(sub, 0))
            st.user["sub"] = sub
        return s.rets(self.group, "r_d_" + op, a, st)

    def expect(self, st, d, op, args, want, what):
        out = []
        for o in self.call(st, d, op, args):
            if self.say(self.group, "r_d_" + op, o, o.val, want, what):
                out.append(o.st)
        return out

    def start(self, sig, be, mode, data, size=None):
        def mem(st):
            a = self.s.it.alloc(st, len(data) if size is None else size, 8, "in", base="in")
            for i, b in enumerate(data):
                if b is not None:
                    self.s.it.store(st, a, i, b, 1)
            st.user["size"] = len(data) if size is None else size
            return a
        return self.new("r_dec" + self.way, self.dty, sig, be, mode, mem)

    def decode(self, sig, be, mode="exact", probe=None, **kw):
        plan = Plan(be, self.w, ops=DOPS, **kw).top(sig)
        d, st = self.start(sig, be, mode, plan.out)
        self.walk(plan, st, [d], 0, sig, probe)

    def walk(self, plan, st, stack, i, sig, probe=None):
        s = self.s
        for k in range(i, len(plan.steps)):
            elem, whole, close, done, op, args, more = plan.steps[k]
            what = "`%s`, step %d (%s)" % (sig, k, op)
            d = stack[-1]
            if more is not None:
                for o in self.call(st, d, "more"):
                    s.same("more elements" if self.group != "failing operations" else self.group, "r_d_more", o.st, [(o.val, int(plan.at[k] < more[1]))], what + ": more elements")
            if probe:
                probe(plan, st, stack, k, sig)
            if op in ("try", "enc"):
                r = self.expect(st, d, "dec" if k % 2 else "dec_with", args, 0, what)
                if not r:
                    return None
                st = r[0]
                if op == "enc":
                    stack = stack + [st.user["sub"]]
                continue
            if op == "up" or op == "commit":
                r = self.expect(st, d, "commit", (), 0, what)
                if not r:
                    return None
                st = r[0]
                if op == "up":
                    stack = stack[:-1]
                continue
            good = []
            for o in self.call(st, d, op):
                if op in ("string", "signature") and o.val == 4:
                    u = [e for e in o.st.events() if e[0] == "utf8"]
                    if not u or u[-1][4] is not False:
                        self.c.bad(self.group, "r_d_%s: %s [%s]" % (op, what, self.cfg), s.where("r_d_" + op), what + ": valid text is refused")
                    elif probe:
                        self.unchanged(plan, st, o.st, stack, k, sig, what + ": invalid text", "r_d_" + op)
                    continue
                if self.say(self.group, "r_d_" + op, o, o.val, 0, what):
                    self.value(o.st, op, args, what)
                    good.append(o.st)
            if not good:
                return None
            st = good[0]
        return st

    def value(self, st, op, args, what):
        s = self.s
        if op == "u16":
            s.same(self.group, "r_d_u16", st, [(s.it.read(st, st.user["out"], 0, 2), args[0])], what + ": value")
        elif op in ("string", "signature"):
            off, size, es, po, co, lo = self.slay
            v = st.user["out"]
            base, n = args
            p = s.it.to_ptr(st, s.it.read(st, v, po, self.ps))
            s.same(self.group, "r_d_" + op, st, [(s.it.read(st, v, lo, self.ps), n)], what + ": length")
            if n and p.__class__ is P:
                s.same(self.group, "r_d_" + op, st, [(s.it.read(st, p.aid, i, 1), sel(base, i)) for i in range(n)], what + ": text")

    def wrong(self, plan, st, stack, k, sig):
        elem, whole, close, done, op, args, more = plan.steps[k]
        d = stack[-1]
        what = "`%s`, before step %d (%s)" % (sig, k, op)
        tries = [(x, (), 1) for x, ch in DOPS.items() if ch != elem]
        if not close:
            tries.append(("close", (), 1))
        if not done:
            tries.append(("commit", (), 2))
        if elem is None:
            tries.append(("dec", (), 1))
        for x in ("s", "ag", sig):
            if x != whole:
                tries.append(("dec_with", (x,), 1))
        for x, a, want in tries:
            for o in self.call(st, d, x, a):
                if self.say(self.group, "r_d_" + x, o, o.val, want, what + ": " + x):
                    self.unchanged(plan, st, o.st, stack, k, sig, what + ": refused " + x, "r_d_" + x)

    def failing(self, plan, st, stack, k, sig):
        elem, whole, close, done, op, args, more = plan.steps[k]
        if op not in DOPS and op != "close":
            return
        d = stack[-1]
        n = max((o.st.user["calls"] for o in self.call(st, d, op)), default=0)
        for j in range(1, n + 1):
            code = 1 + (j + k) % 3
            st2 = st.fork()
            st2.user["fail"] = (j, code)
            what = "`%s`, step %d (%s), input fails at access %d" % (sig, k, op, j)
            for o in self.call(st2, d, op):
                if self.say(self.group, "r_d_" + op, o, o.val, {1: 5, 2: 6, 3: 7}[code], what):
                    o.st.user["fail"] = None
                    self.unchanged(plan, st, o.st, stack, k, sig, what, "r_d_" + op)

    def unchanged(self, plan, st, st2, stack, k, sig, what, root):
        if self.same_mem(st, st2, ()):
            self.c.ok(self.group, 1)
            return
        st2 = st2.fork()
        if self.walk(plan, st2, stack, k, sig + " after failure") is None:
            self.c.bad(self.group, "%s: %s [%s]" % (root, what, self.cfg), self.s.where(root), what + ": the operation cannot be repeated")

    # --- hostile input ---------------------------------------------------------
    def alloc_hook(self):
        """Record the sizes of all allocations."""
        it = self.s.it

        def with_capacity(i, st, f, a, rty, tys):
            st.emit("alloc", i.as_int(st, a[0]))
            return vecs.with_capacity(i, st, f, a, rty, tys)

        def reserve(i, st, f, a, rty, tys):
            st.emit("alloc", i.as_int(st, a[2]))
            return vecs.reserve(i, st, f, a, rty, tys)
        for k in list(it.models):
            if it.models[k] is vecs.with_capacity:
                it.models[k] = with_capacity
            elif it.models[k] is vecs.reserve:
                it.models[k] = reserve

    def hostile(self, sig, be, mode, pre, ops, size, what):
        """Fixed bytes `pre`, then arbitrary input up to `size` bytes; run the operations along all paths."""
        s, c = self.s, self.c
        rule = "untrusted input"
        d, st = self.start(sig, be, mode, pre, size)
        live = [(st, 0)]
        n = 0
        while live and n < 400:
            st, k = live.pop()
            if k >= len(ops):
                continue
            for o in self.call(st, d, ops[k]):
                n += 1
                if ops[k] == "more":
                    live.append((o.st, k + 1))
                    continue
                if not isc(o.val):
                    c.unk(rule, what, "result " + show(o.val))
                    continue
                al = [e[1] for e in o.st.events() if e[0] == "alloc"]
                for x in al:
                    s.same(rule, "r_d_" + ops[k], o.st, [(not1(ult(size, x, self.w)), 1)], "%s: allocates for a length taken from the input without knowing the data exists" % what)
                if not al:
                    c.ok(rule, 1)
                if o.val == 0:
                    live.append((o.st, k + 1))
                else:
                    c.expect(rule, o.val in (3, 4, 5, 6), "%s %s [%s]" % (what, ops[k], self.cfg), s.where("r_d_" + ops[k]),
                             "%s: %s reports %s for input that ends early" % (what, ops[k], CODE[o.val] if o.val < 8 else o.val))

    def loop(self, sig, op, be, elem, size, width):
        """`more` for an arbitrary array length."""
        s, c, w = self.s, self.c, self.w
        d, st = self.start(sig, be, "exact", words(be, 1), size)
        for o in self.call(st, d, "array"):
            if o.val != 0:
                if isc(o.val):
                    # on small address spaces the announced end may overflow
                    c.expect("more elements", o.val == 5 and w == 32, "array of arbitrary length [%s]" % self.cfg, s.where("r_d_array"),
                             "array() of `%s` reports %s" % (sig, CODE[o.val]))
                continue
            n = zext(var("len0", 32), 32, w)
            head = 8 if ALIGN[elem] == 8 else 4
            pos = head
            cur = [o.st]
            for k in range(5):
                nxt = []
                for st2 in cur:
                    for q in self.call(st2, d, "more"):
                        s.agree("more elements", "r_d_more", q.st, q.val, ult(pos - head, n, w), "`%s` after %d bytes" % (sig, pos - head))
                        if op and q.st is not None:
                            for r in self.call(q.st, d, op):
                                if r.val == 0:
                                    nxt.append(r.st)
                if not op or not nxt:
                    break
                cur = nxt[:1]
                pos += width


def words(be, n):
    """Arbitrary 32-bit words."""
    out = []
    for k in range(n):
        b = [ext(var("len%d" % k, 32), 8 * i, 8) for i in range(4)]
        out += b[::-1] if be else b
    return out


def not1(t):
    return xor(t, 1, 1) if not isc(t) else 1 - t


def sigs_all():
    """Every type at every offset from an eight-byte boundary."""
    for el in "ybnqiuxtdsoghv":
        yield "a" + el
    for x in ("aas", "at", "a(q)", "a{sv}", "a{qau}", "aat", "a(t)", "av", "ag", "ao"):
        yield x


def residue(r):
    """A string length after which the position is r modulo 8."""
    return (r - 5) % 8


@check("C37", "Value numbering of encoder and decoder operations with symbolic values over families of signatures: every type at every offset modulo eight, "
              "all nestings up to depth three, arrays of zero to three elements, nested coders, both byte orders; compared with a reference encoding.")
def c37(c):
    jobs = []
    for cfg in ("host", "i686"):
        for be in (0, 1):
            for part in range(4 if cfg == "host" and not be else 1):
                jobs.append(lambda c, cfg=cfg, be=be, part=part: enc_offsets(c, cfg, be, part))
            jobs.append(lambda c, cfg=cfg, be=be: enc_nested(c, cfg, be))
    for cfg in ("host", "i686"):
        for be in (0, 1):
            jobs.append(lambda c, cfg=cfg, be=be: dec_all(c, cfg, be))
    parallel(c, jobs)
    c.floor("encoding", 3000)
    c.floor("decoding", 500)
    c.floor("more elements", 200)


DSIGS = ("q", "s", "g", "aq", "as", "ag", "aaq", "aas", "aag", "aaaq", "ay", "at", "a(q)", "a{sv}", "aat", "aa(s)", "ax", "ad", "av", "ai", "au", "ab", "an", "ao", "ah")


def dec_all(c, cfg, be):
    d = Dec(c, cfg)
    d.group = "decoding"
    for x in DSIGS:
        for cnt in ((0,), (2, 3, 1), (3, 0, 2))[:3 if "aa" in x else 2]:
            for mode in ("exact", "two", "longer"):
                d.way = "_as" if mode == "two" else ""
                for sub in ((), (2,), (1, 3), ("all",), ("all", "deep")):
                    if mode == "exact" and (cfg == "host") != be or not sub:
                        d.decode(x, be, mode, lens=(3, 0, 1, 6, 5, 2, 4, 7), counts=cnt, sub=sub, abandon=bool(sub))
    for x in ("s", "g", "as", "ag"):
        for n in (8, 127, 128, 254, 255, 300):
            if "g" not in x or n < 256:
                d.decode(x, 0, "exact", lens=(n,), counts=(1,))
    d.s.done()


def enc_offsets(c, cfg, be, part):
    e = Enc(c, cfg)
    e.group = "encoding"
    types = list("qutsogv") + list(sigs_all()) + ["(q)", "(t)", "(ay)", "((u)q)"]
    full = cfg == "host" and not be
    for i, x in enumerate(types):
        if full and i % 4 != part:
            continue
        for r in range(8) if full else (1, 4, 6):
            for cnt in ((0,), (2, 1)) if "a" in x else ((1,),):
                e.encode("(s%sq)" % x, be, lens=(residue(r), 2, 0, 5), counts=cnt, variants=("q",))
    for x in ("q", "t", "s", "au", "a(qs)", "v", "g")[part::4 if full else 3]:
        for v in ("q", "u", "t", "s", "as", "(qt)", "v", "g", "a{sv}", "at"):
            e.encode("(s%sv)" % x, be, lens=(1, 3, 2), counts=(1, 2), variants=(v, "q", "u"))
    e.s.done()


def enc_nested(c, cfg, be):
    e = Enc(c, cfg)
    e.group = "encoding"
    rnd = random.Random(5)
    for x in ("as", "a{sv}", "(sas)", "a(qas)", "aas", "(v)", "a{s(qau)}", "aaau", "(a(t)s)"):
        for sub in ((), (1,), (2,), (3,), (2, 4), ("all",), ("all", "deep")):
            for mode in ("exact", "one", "longer", "two")[:4 if cfg == "host" else 2]:
                e.way = "_as" if mode == "one" else ""
                e.encode(x, be, mode, lens=(3, 1, 8), counts=(2, 1, 0, 3), variants=("s", "at", "(qv)"), sub=sub, abandon=sub and sub[0] != 1)
    n = 0
    while n < (60 if cfg == "host" else 20):
        x = gen(rnd, rnd.randrange(3, 12)).decode()
        if set(x) - set("qutsogva(){}"):
            continue
        n += 1
        e.encode(x, be, rnd.choice(("exact", "one", "longer")), lens=(rnd.randrange(9), 0, 3), counts=(rnd.randrange(3), 1, 2, 0), variants=("q", "s", "a(u)", "v", "t"),
                 sub=tuple(rnd.sample(range(1, 9), 2)))
    for x in ("s", "o", "g", "ag", "as", "(sg)"):
        for n in (0, 1, 254, 255, 256, 300, 4095):
            if "g" not in x or n < 256:
                e.encode(x, be, lens=(n,), counts=(1,))
    e.s.done()


@check("C38", "Value numbering: at every step of encoding and decoding, every operation the signature does not allow, every length limit, invalid text and a failure "
              "of the I/O at every access; the coder's memory is the same afterwards, or the remaining operations have the same result.")
def c38(c):
    jobs = []
    for cfg in ("host", "i686"):
        for part in range(4):
            jobs.append(lambda c, cfg=cfg, part=part: enc_fail(c, cfg, part))
        for be in (0, 1):
            jobs.append(lambda c, cfg=cfg, be=be: dec_fail(c, cfg, be))
    parallel(c, jobs)
    c.floor("failing operations", 3000)


def dec_fail(c, cfg, be):
    d = Dec(c, cfg)
    d.group = "failing operations"

    def probe(*a):
        d.wrong(*a)
        d.failing(*a)
    for x in DSIGS:
        for mode in ("exact", "two"):
            d.decode(x, be, mode, probe=probe, lens=(3, 1, 0), counts=(2, 1))
        d.decode(x, be, "exact", probe=probe, lens=(3, 1, 0), counts=(2, 1), sub=("all", "deep"))
    d.s.done()


def enc_fail(c, cfg, part):
    e = Enc(c, cfg)
    e.group = "failing operations"

    def probe(*a):
        e.wrong(*a)
        e.failing(*a)
    fam = ["as", "a{sv}", "(sqt)", "(gv)", "a(qas)", "(sa(t)u)", "aat", "(ov)", "((q)g)", "q", "v", "a{s(qau)}"]
    for i, x in enumerate(fam):
        if i % 4 == part:
            for mode in ("exact", "two"):
                e.encode(x, i & 1, mode, probe=probe, lens=(2, 3), counts=(2, 1), variants=("s", "at"))
            e.encode(x, i & 1, "exact", probe=probe, lens=(2, 1), counts=(1, 1), variants=("q", "v", "u"), sub=("all", "deep"))
    e.s.done()


@check("C39", "Value numbering of the decoder over input of arbitrary content that ends anywhere, with arbitrary length fields: no panic, no access outside of the input, "
              "no allocation larger than the input; the end of arrays for arbitrary announced lengths.")
def c39(c):
    jobs = []
    for cfg in ("host", "i686"):
        for be in (0, 1):
            jobs.append(lambda c, cfg=cfg, be=be: hostile(c, cfg, be))
    parallel(c, jobs)
    c.floor("untrusted input", 200)
    c.floor("more elements", 20)


def hostile(c, cfg, be):
    d = Dec(c, cfg)
    d.group = "untrusted input"
    d.alloc_hook()
    for size in (0, 1, 2, 3, 4, 5, 6, 8, 11):
        for mode in ("exact", "two", "longer"):
            for sig, ops in (("q", ["u16"]), ("s", ["string", "commit"]), ("g", ["signature", "commit"]), ("as", ["array", "string", "string", "close"]),
                             ("aq", ["array", "u16", "u16", "u16", "close"]), ("ag", ["array", "signature", "signature", "close"]),
                             ("at", ["array", "close", "commit"]), ("aaq", ["array", "array", "u16", "close", "array", "close", "close", "commit"])):
                d.hostile(sig, be, mode, words(be, size // 4) if sig not in ("g", "q", "ag") else [], ops, size, "`%s` in %d bytes (%s)" % (sig, size, mode))
    for size in sorted({v + 5 for v in consts(d.s.p, ("tmp",), 9000) if v > 11}):
        for mode in ("exact", "longer"):
            d.hostile("s", be, mode, words(be, 1), ["string", "commit"], size, "`s` in %d bytes (%s)" % (size, mode))
    for sig, op, elem, width in (("aq", "u16", "q", 2), ("at", None, "t", 8), ("ay", None, "y", 1), ("aaq", None, "a", 4), ("a(q)", None, "(", 8), ("as", None, "s", 4)):
        d.loop(sig, op, be, elem, 64, width)
    d.s.done()
