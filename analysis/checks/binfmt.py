"""C33: 16-bit checksum and the bundled DOS stub."""
import absmodels
from absint import P
from consts import consts, lengths
from sem import Sem
from terms import *
from vp import check


@check("C33", "Value numbering of the checksum over symbolic bytes for every length up to 400 and around every constant in the code; "
              "constant evaluation of the stub's header fields against its own size and checksum.")
def c33(c):
    for cfg in ("host", "i686", "s390x"):
        s = Sem(c, cfg, "binfmt")
        ls = lengths(s.p, 400 if cfg == "host" else 40, 1500)
        for n in ls:
            if c.violations:
                break       # one witness is enough, and wrong arithmetic tends to grow huge terms
            st = s.state()
            p = s.buf(st, "v", n)
            b = [s.it.read(st, p.aid, i, 1) for i in range(n)]
            want = 0
            for i in range(n):
                x = zext(b[i], 8, 16)
                want = add(want, shl(x, 8, 16) if i & 1 else x, 16)
            for o in s.rets("sum", "r_sum16", [s.wide(p, n)], st):
                s.same("sum", "r_sum16", o.st, [(s.it.as_int(o.st, o.val), want)], "sum of %d bytes" % n)
        for n in sorted(x for v in consts(s.p, limit=70000) if v > 1500 for x in (v - 1, v, v + 1)):
            # long strings: symbolic bytes at both ends and in the middle, zeros elsewhere
            st = s.state()
            aid = s.it.alloc(st, n, 1, "v")
            absmodels.fill(s.it, st, P(aid, 0), 0, n)
            want = 0
            for i in sorted({0, 1, 2, n // 2, n // 2 + 1, n - 3, n - 2, n - 1}):
                v = var("v%d" % i, 8)
                s.it.store(st, aid, i, v, 1)
                x = zext(v, 8, 16)
                want = add(want, shl(x, 8, 16) if i & 1 else x, 16)
            s.it.loop_bound = n
            s.it.max_steps = 10 ** 8
            for o in s.rets("sum", "r_sum16", [s.wide(P(aid, 0), n)], st):
                s.same("sum", "r_sum16", o.st, [(s.it.as_int(o.st, o.val), want)], "sum of %d bytes" % n)
        for o in s.rets("stub", "r_stub", []):
            p, n = o.val.get(0), o.val.get(s.p.ps)
            b = [s.it.as_int(o.st, s.it.read(o.st, p.aid, p.off + i, 1)) for i in range(n)]
            w = lambda i: b[i] | b[i + 1] << 8
            d = lambda i: w(i) | w(i + 2) << 16
            def ex(k, got, want):
                c.expect("stub", got == want, "%s [%s]" % (k, cfg), "STUB_X86 (lib/tmp/src/msdosmz.rs)", "%s: got %r, expected %r" % (k, got, want))
            ex("magic", bytes(b[:2]), b"MZ")
            ex("size described by page count and last page", (w(4) - 1) * 512 + (w(2) or 512), n)
            ex("size in paragraphs", n % 16, 0)
            ex("header within the file", 28 <= w(8) * 16 <= n, True)
            ex("relocation table within the file", 28 <= w(24) <= n and w(24) + 4 * w(6) <= max(w(8) * 16, w(24)), True)
            ex("offset of the extended header", d(60), n)
            ex("entry point within the code", w(20) < n - w(8) * 16, True)
            ex("complemented sum", ~sum(w(i) for i in range(0, n, 2)) & 0xffff, 0)
        s.done()
    c.floor("sum", 480)
    c.floor("stub", 24)
