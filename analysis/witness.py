"""Compile-time witnesses: small programs that the compiler must accept or reject."""
import hashlib
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import extract


def _rustc(args, **kw):
    return subprocess.run(["rustc"] + args, env=extract.env(), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, **kw)


def libs():
    """Metadata of the analysed crates (no features), compiled from the current tree."""
    key = extract.tree_key("host")[:24]
    top = os.path.join(extract.BUILD, "witness")
    d = os.path.join(top, key)
    with extract.Lock("witness"):
        if not os.path.exists(d + "/ok"):
            if os.path.isdir(top):
                shutil.rmtree(top)
            os.makedirs(d)
            for crate, deps in (("osi", []), ("sys", ["osi"]), ("tmp", ["osi", "sys"])):
                a = ["--edition", "2021", "--crate-name", crate, "--crate-type", "lib", "--emit=metadata", "--cap-lints=allow",
                     "-o", "%s/lib%s.rmeta" % (d, crate), "%s/lib/%s/src/lib.rs" % (extract.REPO, crate)]
                for x in deps:
                    a += ["--extern", "%s=%s/lib%s.rmeta" % (x, d, x)]
                r = _rustc(a)
                if r.returncode:
                    raise extract.CompileError("witness", crate, r.stderr[:3000])
            open(d + "/ok", "w").close()
    return d


def compile(code, extra=()):
    """Returns (ok, [error codes], text)."""
    d = libs()
    h = hashlib.sha256((code + repr(extra)).encode()).hexdigest()[:20]
    src = "%s/w%s.rs" % (d, h)
    with open(src, "w") as f:
        f.write(code)
    a = ["--edition", "2021", "--crate-type", "lib", "--crate-name", "w" + h, "--emit=metadata", "--cap-lints=allow",
         "--error-format=json", "-o", "%s/w%s.rmeta" % (d, h), "-L", d]
    for x in ("osi", "sys", "tmp"):
        a += ["--extern", "%s=%s/lib%s.rmeta" % (x, d, x)]
    r = _rustc(a + list(extra) + [src])
    codes, text = [], []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error":
            codes.append((m.get("code") or {}).get("code"))
            text.append(m.get("message", ""))
    return r.returncode == 0, codes, "; ".join(text[:3])


def expand(code, extra=()):
    d = libs()
    h = hashlib.sha256((code + "x").encode()).hexdigest()[:20]
    src = "%s/x%s.rs" % (d, h)
    with open(src, "w") as f:
        f.write(code)
    a = ["--edition", "2021", "--crate-type", "lib", "--crate-name", "x" + h, "-Zunpretty=expanded", "--cap-lints=allow", "-L", d]
    for x in ("osi", "sys", "tmp"):
        a += ["--extern", "%s=%s/lib%s.rmeta" % (x, d, x)]
    r = _rustc(a + list(extra) + [src])
    return r.returncode == 0, r.stdout, r.stderr


PRE = "#![allow(unused)]\nuse osi::*; use core::ptr::NonNull; use core::mem::MaybeUninit; use core::cell::Cell; extern crate alloc;\n"


def run(c, group, wits):
    """wits: [(name, where, fail_code|None, pass_code|None, allowed error codes)]"""
    libs()
    jobs = []
    for name, where, fail, good, codes in wits:
        if fail is not None:
            jobs.append((name, where, "fail", fail, codes))
        if good is not None:
            jobs.append((name, where, "pass", good, codes))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile(PRE + j[3]), jobs))
    for (name, where, kind, code, codes), (ok, errs, text) in zip(jobs, res):
        c.saw("witness programs")
        if kind == "pass":
            c.expect(group, ok, name + " (accepted twin)", where, "a program that must compile is rejected: " + text)
        else:
            if ok:
                c.bad(group, name, where, "a program that must be rejected compiles: " + " ".join(code.split())[:300])
            elif any(e in codes for e in errs):
                c.ok(group, name)
            else:
                c.unk(group, name, "rejected for another reason (%s): %s" % (errs, text))
