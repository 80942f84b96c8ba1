"""C30: every feature set on every target."""
from concurrent.futures import ThreadPoolExecutor

import extract
import vp
from vp import check, items


@check("C30", "Each crate is type-checked in every feature combination on a Linux host and, without the standard library, "
              "on nine further targets of both byte orders and pointer widths; the resolved public surfaces are then "
              "compared: a feature may only add paths.")
def c30(c):
    surf = {}
    # one worker per build directory
    byd = {}
    for m in extract.MATRIX:
        byd.setdefault(extract.CONFIGS[m]["tdir"], []).append(m)

    def work(ms):
        out = []
        for m in ms:
            try:
                out.append((m, extract.facts(m)))
            except extract.CompileError as e:
                out.append((m, e))
        return out
    with ThreadPoolExecutor(6) as ex:
        for res in ex.map(work, byd.values()):
            for m, f in res:
                surf[m] = f
    for m, f in surf.items():
        c.saw("configurations")
        if isinstance(f, extract.CompileError):
            c.bad("compiles", "%s@%s" % (f.crate, m), f.crate + " in configuration " + m, f.text.split("\n\n")[0][:600])
            surf[m] = None
            continue
        d = {}
        for it in items(f):
            d.setdefault(it["path"], []).append(it)
        for k in f["crates"]:
            c.ok("compiles", "%s@%s" % (k["crate"], m))
        surf[m] = d
    def feats(m):
        s = m.split("-", 2)[2]
        return frozenset() if s == "base" else frozenset(s.split("+"))
    for m in surf:
        for n in surf:
            if m.split("-", 2)[1] != n.split("-", 2)[1] or not feats(m) < feats(n) or len(feats(n) - feats(m)) != 1:
                continue
            a, b = surf[m], surf[n]
            if a is None or b is None:
                continue
            feat = next(iter(feats(n) - feats(m)))
            for p, its in a.items():
                c.saw("public items compared")
                if p not in b:
                    c.bad("additive", "%s with %s@%s" % (p, feat, m), vp.where(its[0]), "public item disappears when %s is enabled" % feat)
                    continue
                ka = {i["kind"] for i in its}
                kb = {i["kind"] for i in b[p]}
                c.expect("additive", ka <= kb, "%s with %s@%s" % (p, feat, m), vp.where(its[0]),
                         "public item turns from %s into %s when %s is enabled" % (sorted(ka), sorted(kb), feat))
    c.floor("compiles", 75)
    c.floor("additive", 10000)
