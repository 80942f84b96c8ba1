"""C10: the generators against their published definitions."""
from sem import Sem, separate
from absint import A, P
from terms import *
from terms import T
import terms as tm
from vp import check

M = mask(64)
GAMMA = 0x9E3779B97F4A7C15


def mix64(z):
    z = mulc(xor(z, lshr(z, 30, 64), 64), 0xBF58476D1CE4E5B9, 64)
    z = mulc(xor(z, lshr(z, 27, 64), 64), 0x94D049BB133111EB, 64)
    return xor(z, lshr(z, 31, 64), 64)


def mix32(z):
    z = mulc(xor(z, lshr(z, 33, 64), 64), 0x62A9D9ED799705F5, 64)
    z = mulc(xor(z, lshr(z, 28, 64), 64), 0xCB24D0A5C88C35B3, 64)
    return ext(z, 32, 32)


def mixg(st, z):
    """MurmurHash3 finaliser, forced odd, with enough bit transitions."""
    z = mulc(xor(z, lshr(z, 33, 64), 64), 0xFF51AFD7ED558CCD, 64)
    z = mulc(xor(z, lshr(z, 33, 64), 64), 0xC4CEB9FE1A85EC53, 64)
    z = bor(xor(z, lshr(z, 33, 64), 64), 1, 64)
    n = xor(z, lshr(z, 1, 64), 64)
    few = ult(fn("ctpop", 32, n), 24, 32)
    d = st.decide(few)
    y = xor(z, 0xAAAAAAAAAAAAAAAA, 64)
    return y if d is True else z if d is False else ite(few, y, z, 64)


def step(s):
    s = list(s)
    t = shl(s[1], 17, 64)
    s[2] = xor(s[2], s[0], 64)
    s[3] = xor(s[3], s[1], 64)
    s[1] = xor(s[1], s[2], 64)
    s[0] = xor(s[0], s[3], 64)
    s[2] = xor(s[2], t, 64)
    s[3] = rotl(s[3], 45, 64)
    return s


def cells(v, n):
    return v.cells if v.__class__ is A else ((0, n, v),)


class Repr:
    """Memory image of a generator as a function of its logical state."""

    def __init__(self, cs, params, size):
        self.cs, self.params, self.size = cs, params, size

    def at(self, *vals):
        m = dict(zip(self.params, vals))
        return A(tuple((o, s, tm.subst(v, m) if v.__class__ is T else v) for o, s, v in self.cs), self.size)


def image_pairs(s, st, got, want, n):
    return list(zip(s.bytes(st, got, n), s.bytes(st, want, n)))


@check("C10", "Value numbering over the generators' code: outputs and successor states are compared as canonical terms with the "
              "published recurrences for an arbitrary state (induction over the number of steps), jumps in the GF(2)-affine "
              "domain with the 2^128-th and 2^192-th power of the step matrix.")
def c10(c):
    for cfg in ("host", "i686", "s390x"):
        one(c, cfg)
    c.floor("mix64", 3)
    c.floor("splitmix64", 6)
    c.floor("xoshiro256++", 6)
    c.floor("jump", 6)


def one(c, cfg):
    s = Sem(c, cfg, "rng", loop_bound=400, max_steps=2000000)
    tys, rty = s.sig("r_mix_with_seed")
    msz = s.p.size(rty)
    mty = rty
    sv, gv = var("seed", 64), var("gamma", 64)
    o = s.rets("mix64", "r_mix_with_seed", [sv])
    if len(o) != 1:
        return c.unk("mix64", "with_seed", "%d outcomes" % len(o))
    mix = Repr(cells(o[0].val, msz), [sv], msz)
    for root, f in (("r_mix_next32", mix32), ("r_mix_next64", mix64)):
        st = s.state()
        p = s.place(st, mix.at(sv), mty)
        for r in s.rets("mix64", root, [p], st):
            n = add(sv, GAMMA, 64)
            s.same("mix64", root, r.st, [(r.val, f(n))], "output")
            s.same("mix64", root, r.st, image_pairs(s, r.st, s.mem(r.st, p, mty), mix.at(n), msz), "next state")
    # splitting yields the general form of the split generator
    tys, sty = s.sig("r_mix_split")
    ssz = s.p.size(sty)
    st = s.state()
    p = s.place(st, mix.at(sv), mty)
    rep = None
    for r in s.rets("splitmix64", "r_mix_split", [p], st):
        n1, n2 = add(sv, GAMMA, 64), add(sv, 2 * GAMMA & M, 64)
        s.same("splitmix64", "r_mix_split", r.st, image_pairs(s, r.st, s.mem(r.st, p, mty), mix.at(n2), msz), "parent state after a split")
        a, g = mix64(n1), mixg(r.st, n2)
        if not (r.st.decide(ext(g, 0, 1)) is True or isc(g) and g & 1):
            if isc(ext(g, 0, 1)) and ext(g, 0, 1) == 1:
                pass
        gen = []
        hit = set()
        for o_, sz, v in cells(r.val, ssz):
            if sz == 8 and v.__class__ is T and s.it.as_int(r.st, v) is a:
                gen.append((o_, sz, sv))
                hit.add("seed")
            elif sz == 8 and v.__class__ is T and v is g:
                gen.append((o_, sz, gv))
                hit.add("gamma")
            else:
                gen.append((o_, sz, v))
        if hit == {"seed", "gamma"}:
            c.ok("splitmix64", s.key("r_mix_split"))
            rep = Repr(tuple(gen), [sv, gv], ssz)
        else:
            # which of the two is wrong?
            vals = [v for o_, sz, v in cells(r.val, ssz) if sz == 8 and v is not None]
            for nm, want in (("seed", a), ("increment", g)):
                w = all(separate(r.st.facts, [(v, want)]) is not None for v in vals) if nm[:4] not in hit and vals else False
                if w:
                    c.bad("splitmix64", s.key("r_mix_split") + " " + nm, s.where("r_mix_split"),
                          "the %s of a split generator is not the published function of the parent's state" % nm)
                    break
            else:
                c.unk("splitmix64", s.key("r_mix_split"), "state of the split generator not recognised")
    if rep is None:
        return
    for root in ("r_split_with_seed", "r_split_from_mix", "r_split_from_trait"):
        arg = sv if root == "r_split_with_seed" else mix.at(sv)
        for r in s.rets("splitmix64", root, [s_arg(s, root, arg)]):
            s.same("splitmix64", root, r.st, image_pairs(s, r.st, r.val, rep.at(sv, GAMMA), ssz), "initial state")
    for root, f in (("r_split_next32", mix32), ("r_split_next64", mix64)):
        st = s.state()
        p = s.place(st, rep.at(sv, gv), sty)
        for r in s.rets("splitmix64", root, [p], st):
            n = add(sv, gv, 64)
            s.same("splitmix64", root, r.st, [(r.val, f(n))], "output")
            s.same("splitmix64", root, r.st, image_pairs(s, r.st, s.mem(r.st, p, sty), rep.at(n, gv), ssz), "next state")
    st = s.state()
    p = s.place(st, rep.at(sv, gv), sty)
    for r in s.rets("splitmix64", "r_split_split", [p], st):
        n1, n2 = add(sv, gv, 64), add(sv, mulc(gv, 2, 64), 64)
        s.same("splitmix64", "r_split_split", r.st, image_pairs(s, r.st, s.mem(r.st, p, sty), rep.at(n2, gv), ssz), "parent state after a split")
        s.same("splitmix64", "r_split_split", r.st, image_pairs(s, r.st, r.val, rep.at(mix64(n1), mixg(r.st, n2)), ssz), "state of the split generator")
    # xoshiro256++
    (aty,), xty = s.sig("r_xo_with_seed")
    xsz = s.p.size(xty)
    xs = [var("s%d" % i, 64) for i in range(4)]
    zero_seed = [mix64(GAMMA * (i + 1) & M) for i in range(4)]
    xrep = None
    zeros = 0
    seedv = A(tuple((8 * i, 8, xs[i]) for i in range(4)), 32)
    for r in sorted(s.rets("xoshiro256++", "r_xo_with_seed", [seedv]), key=lambda r: sum(r.st.decide(eq(x, 0, 64)) is True for x in xs)):
        allz = all(r.st.decide(eq(x, 0, 64)) is True for x in xs)
        if allz:
            zeros += 1
            if xrep is not None:
                s.same("xoshiro256++", "r_xo_with_seed", r.st, image_pairs(s, r.st, r.val, xrep.at(*zero_seed), xsz), "state for an all-zero seed")
            continue
        if xrep is None:
            xrep = Repr(cells(r.val, xsz), xs, xsz)
            c.ok("xoshiro256++", s.key("r_xo_with_seed"))
        else:
            s.same("xoshiro256++", "r_xo_with_seed", r.st, image_pairs(s, r.st, r.val, xrep.at(*xs), xsz), "state is the seed")
    c.expect("xoshiro256++", zeros >= 1, s.key("r_xo_with_seed zero"), s.where("r_xo_with_seed"), "an all-zero seed is not treated specially")
    if xrep is None:
        return
    st = s.state()
    p = s.place(st, xrep.at(*xs), xty)
    for r in s.rets("xoshiro256++", "r_xo_next64", [p], st):
        want = add(rotl(add(xs[0], xs[3], 64), 23, 64), xs[0], 64)
        s.same("xoshiro256++", "r_xo_next64", r.st, [(r.val, want)], "output")
        s.same("xoshiro256++", "r_xo_next64", r.st, image_pairs(s, r.st, s.mem(r.st, p, xty), xrep.at(*step(xs)), xsz), "next state")
    for root in ("r_xo_from_split", "r_xo_from_trait"):
        st = s.state()
        p = s.place(st, rep.at(sv, gv), sty)
        ws = [mix64(add(sv, mulc(gv, i + 1, 64), 64)) for i in range(4)]
        for r in s.rets("xoshiro256++", root, [p if root == "r_xo_from_split" else rep.at(sv, gv)], st):
            if all(r.st.decide(eq(w, 0, 64)) is True for w in ws):
                continue
            if sum(r.st.decide(eq(w, 0, 64)) is True for w in ws) >= 1 and not separate_any(r.st):
                continue
            s.same("xoshiro256++", root, r.st, image_pairs(s, r.st, r.val, xrep.at(*ws), xsz), "state words are consecutive fresh values")
            if root == "r_xo_from_split":
                s.same("xoshiro256++", root, r.st, image_pairs(s, r.st, s.mem(r.st, p, sty), rep.at(add(sv, mulc(gv, 4, 64), 64), gv), ssz),
                       "source generator advanced once per state word")
    # jumps, in the GF(2)-affine domain over the 256 state bits
    ins = [tm.gf2(tuple(1 << (1 + 64 * i + b) for b in range(64))) for i in range(4)]
    mats = powers()
    for root, k in (("r_xo_jump128", 128), ("r_xo_jump192", 192)):
        st = s.state()
        p = s.place(st, xrep.at(*ins), xty)
        for r in s.rets("jump", root, [p], st):
            want = [tm.gf2(tuple(mats[k][64 * i:64 * i + 64])) for i in range(4)]
            s.same("jump", root, r.st, image_pairs(s, r.st, s.mem(r.st, p, xty), xrep.at(*want), xsz), "state after the jump")
            c.ok("jump", s.key(root) + " done")
    # clones are verbatim
    for root, im, ty, n in (("r_mix_clone", mix.at(sv), mty, msz), ("r_split_clone", rep.at(sv, gv), sty, ssz), ("r_xo_clone", xrep.at(*xs), xty, xsz)):
        st = s.state()
        p = s.place(st, im, ty)
        for r in s.rets("clone", root, [p], st):
            s.same("clone", root, r.st, image_pairs(s, r.st, r.val, im, n) + image_pairs(s, r.st, s.mem(r.st, p, ty), im, n), "clone")
    s.done()


def s_arg(s, root, v):
    (ty,), _ = s.sig(root)
    if s.p.scalar(ty) and v.__class__ is A:
        return s.it.agg_scalar(None, v, s.p.size(ty))
    return v


def separate_any(st):
    from sem import feasible
    return feasible(st.facts)


_pw = {}


def powers():
    """T^(2^128) and T^(2^192) for the step matrix T; rows as parity masks (inputs start at bit 1)."""
    if _pw:
        return _pw
    ins = [tm.gf2(tuple(1 << (1 + 64 * i + b) for b in range(64))) for i in range(4)]
    rows = [r >> 1 for w in step(ins) for r in w.a]
    for k in range(1, 193):
        out = []
        for r in rows:
            x = 0
            while r:
                low = r & -r
                x ^= rows[low.bit_length() - 1]
                r ^= low
            out.append(x)
        rows = out
        if k in (128, 192):
            _pw[k] = [r << 1 for r in rows]
    return _pw
