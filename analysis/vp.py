"""Framework shared by all checks: obligations, findings, evidence, exit codes."""
import json
import os
import signal
import sys
import time
import traceback

import extract

VERIF = extract.VERIF
REGISTRY = {}


def check(pid, rule):
    """Register the deciding function of property `pid`; `rule` names what it applies."""
    def deco(fn):
        REGISTRY[pid] = (fn, rule)
        return fn
    return deco


class Ctx:
    """Collects what one run of a check looked at and what it found."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.groups = {}        # group -> [decided, undecided]
        self.violations = []    # {key, where, what}
        self.undecided = []
        self.analysed = {}
        self.assumptions = []
        self.samples = []
        self.t0 = time.time()

    # --- obligations -----------------------------------------------------
    def ok(self, group, what=None):
        self.groups.setdefault(group, [0, 0, 0])[0] += 1
        if what and len(self.samples) < 12:
            self.samples.append("%s: %s" % (group, what))

    def bad(self, group, key, where, what):
        self.groups.setdefault(group, [0, 0, 0])[2] += 1
        k = "%s/%s" % (group, key)
        if not any(v["key"] == k for v in self.violations):
            self.violations.append(dict(key=k, where=where, what=what))
        if len(self.violations) > 40 or self.groups[group][2] > 150:
            raise Enough("more than enough violations")

    def unk(self, group, key, why):
        """An obligation the analysis cannot decide on this tree: not a violation."""
        self.groups.setdefault(group, [0, 0, 0])[1] += 1
        if len(self.undecided) < 200:
            self.undecided.append("%s/%s: %s" % (group, key, why))

    def expect(self, group, cond, key, where, what):
        if cond:
            self.ok(group, key)
        else:
            self.bad(group, key, where, what)
        return cond

    def floor(self, group, n):
        """The group must have produced at least `n` obligations (counted by hand on
        the tree the check was written for); otherwise an anchor was lost."""
        have = sum(self.groups.get(group, [0, 0, 0]))
        if have < n and sum(g[1] for g in self.groups.values()):
            # follows from an obligation that could not be decided
            self.unk(group, "anchor-lost", "only %d of at least %d expected instances were reached" % (have, n))
        elif have < n:
            self.bad(group, "anchor-lost", group,
                     "only %d of at least %d expected instances were found; a public anchor of this rule vanished" % (have, n))

    def saw(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


BUDGET = 650    # seconds per check


class Enough(BaseException):
    """Stops a check early; what was found so far is reported."""


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                key, _, text = line[len("known: property=%s " % pid):].partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def run(pid):
    fn, rule = REGISTRY[pid]
    c = Ctx(pid, rule)
    def late(*_):
        raise Enough("time budget of %d s exhausted" % BUDGET)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(BUDGET)
    try:
        fn(c)
    except extract.ExtractError as e:
        print("check error: %s" % e)
        return 2
    except Enough as e:
        c.unk("completeness", "analysis stopped", str(e))
    except Exception:
        # whatever was decided so far stands
        traceback.print_exc()
        c.unk("completeness", "analysis failure", traceback.format_exc().strip().splitlines()[-1])
    finally:
        signal.alarm(0)
    known = known_findings(pid)
    news = []
    for v in c.violations:
        for key, text in known:
            if key == v["key"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, text or v["what"]))
                break
        else:
            news.append(v)
    decided = sum(g[0] for g in c.groups.values())
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = {
        "property": pid,
        "tier": c.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": rule,
            "analysed": c.analysed,
            "obligations": sum(sum(g) for g in c.groups.values()),
            "discharged": decided,
            "undecided": sum(g[1] for g in c.groups.values()),
            "groups": {k: {"holds": v[0], "undecided": v[1], "violated": v[2]} for k, v in sorted(c.groups.items())},
            "undecided_list": c.undecided[:60],
            "samples": c.samples,
        },
        "assumptions": c.assumptions,
        "violations": len(news),
        "wall_s": round(time.time() - c.t0, 3),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    rep = os.path.join(evdir, pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("%s: %s\n\n" % (pid, rule))
        for v in c.violations:
            f.write("violation %s\n  at   %s\n  what %s\n\n" % (v["key"], v["where"], v["what"]))
        for u in c.undecided:
            f.write("undecided %s\n" % u)
    for k, g in sorted(c.groups.items()):
        print("  %-34s holds=%d undecided=%d violated=%d" % (k, g[0], g[1], g[2]))
    for u in c.undecided[:20]:
        print("  undecided: %s" % u)
    if decided == 0:
        print("check error: nothing was decided")
        return 2
    if news:
        for v in news[:25]:
            print("  %s [%s]: %s" % (v["where"], v["key"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s holds: %d obligations over %s" % (pid, decided, ", ".join("%d %s" % (n, w) for w, n in c.analysed.items())))
    return 0


# --- helpers over facts ------------------------------------------------------
def items(facts, kind=None):
    for k in facts["crates"]:
        for it in k["items"]:
            if kind is None or it["kind"].startswith(kind):
                yield it


def impls(facts):
    for k in facts["crates"]:
        for im in k["impls"]:
            yield im


def where(it):
    sp = it.get("span")
    if not sp:
        return it.get("path", "?")
    return "%s (%s)" % (it.get("path", "?"), os.path.normpath(sp[0]))


def const_bytes(it):
    """Bytes of an evaluated constant in memory order, and whether it is a scalar."""
    v = it["val"]
    if "mem" in v:
        return bytes.fromhex(v["mem"]) if "_" not in v["mem"] else None
    return None


class MonoTypes:
    """Types and layouts of a mono dump, addressed by the harness root they appear in."""

    def __init__(self, dump):
        self.d = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.roots = {n.split("::")[-1]: i for n, i in dump["roots"]}

    def arg(self, root, i=0):
        f = self.fns[self.roots[root]]
        return self.types[f["locals"][1 + i]]

    def fields(self, t):
        """[(name, offset, type)] of a struct."""
        if t["k"] == "adt" and t["ak"] in ("struct", "Struct"):
            offs = t["l"].get("offs")
            return [(f[0], offs[j], self.types[f[1]]) for j, f in enumerate(t["vars"][0]["fields"])]
        return []


def parallel(c, jobs, procs=8):
    """Run jobs (functions of a context) in child processes and merge what they found."""
    import pickle
    left = max(1, int(BUDGET - (time.time() - c.t0)))
    pend = list(enumerate(jobs))
    live = {}
    res = {}
    sys.stdout.flush()
    sys.stderr.flush()

    def start():
        i, job = pend.pop(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            d = Ctx(c.pid, c.rule)
            d.t0 = c.t0
            signal.alarm(left)
            try:
                job(d)
            except Enough as e:
                d.unk("completeness", "analysis stopped", str(e))
            except extract.ExtractError as e:
                d.unk("completeness", "extraction", str(e))
            except Exception:
                traceback.print_exc()
                d.unk("completeness", "analysis failure", traceback.format_exc().strip().splitlines()[-1])
            signal.alarm(0)
            with os.fdopen(w, "wb") as f:
                pickle.dump((d.groups, d.violations, d.undecided, d.analysed, d.assumptions, d.samples), f)
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
        os.close(w)
        live[r] = (i, pid, [])
    import select
    while pend or live:
        while pend and len(live) < procs:
            start()
        for r in select.select(list(live), [], [])[0]:
            b = os.read(r, 1 << 20)
            i, pid, buf = live[r]
            if b:
                buf.append(b)
            else:
                os.close(r)
                del live[r]
                os.waitpid(pid, 0)
                try:
                    res[i] = pickle.loads(b"".join(buf))
                except Exception:
                    c.unk("completeness", "worker", "a worker process died")
    for i in sorted(res):
        groups, vio, und, ana, asm, smp = res[i]
        for k, g in groups.items():
            t = c.groups.setdefault(k, [0, 0, 0])
            for j in range(3):
                t[j] += g[j]
        for v in vio:
            if not any(x["key"] == v["key"] for x in c.violations):
                c.violations.append(v)
        c.undecided += und[:max(0, 200 - len(c.undecided))]
        for k, n in ana.items():
            c.analysed[k] = max(c.analysed.get(k, 0), n) if k.startswith("library functions") else c.analysed.get(k, 0) + n
        for s in asm:
            c.assume(s)
        c.samples += smp[:max(0, 12 - len(c.samples))]
