"""Integer constants in the library's own functions: lengths at which behaviour may change."""


def consts(p, crates=("osi", "sys", "tmp"), limit=5000):
    out = set()

    def walk(x):
        if x.__class__ is list:
            if len(x) == 2 and x[0] == "k" and x[1].__class__ is dict:
                h = x[1].get("b")
                if h and not x[1].get("p") and "_" not in h and len(h) <= 32:
                    out.add(int.from_bytes(bytes.fromhex(h), "big" if p.big else "little"))
                return
            if x and x[0] == "sw":
                for v in x[1:]:
                    if v.__class__ is list:
                        for e in v:
                            if e.__class__ is list and e and isinstance(e[0], (int, str)):
                                try:
                                    out.add(int(e[0]))
                                except ValueError:
                                    pass
            for e in x:
                walk(e)
        elif x.__class__ is dict:
            for e in x.values():
                walk(e)
    for f in p.fns:
        if f["crate"] in crates and f.get("bbs"):
            walk(f["bbs"])
    return {v for v in out if 0 <= v <= limit}


def lengths(p, base, limit=2000, **kw):
    """0..base and the neighbourhoods of all constants."""
    s = set(range(base + 1))
    for v in consts(p, limit=limit, **kw):
        s |= {v - 1, v, v + 1, 2 * v, 2 * v + 1} if v else set()
    return sorted(x for x in s if 0 <= x <= limit + 1)
