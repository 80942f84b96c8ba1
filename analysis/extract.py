"""Runs the extraction driver over the current /repo tree and loads its output.

Every extraction is keyed by a hash over the analysed sources, the harness and
the driver, so a check never sees facts of an older tree.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "driver", "release", "vpdriver")

CONFIGS = {
    "host": dict(target="x86_64-unknown-linux-gnu", build_std="core,alloc", features=""),
    "i686": dict(target="i686-unknown-linux-gnu", build_std="core,alloc", features=""),
    "s390x": dict(target="s390x-unknown-linux-gnu", build_std="core,alloc", features=""),
    "aarch64": dict(target="aarch64-unknown-linux-gnu", build_std="core,alloc", features=""),
    "win64": dict(target="x86_64-pc-windows-msvc", build_std="core,alloc", features=""),
    "win32": dict(target="i686-pc-windows-msvc", build_std="core,alloc", features=""),
    "aarch64be": dict(target="aarch64_be-unknown-linux-gnu", build_std="core,alloc", features=""),
    "x32": dict(target="x86_64-unknown-linux-gnux32", build_std="core,alloc", features=""),
    "none": dict(target="x86_64-unknown-none", build_std="core,alloc", features=""),
    "ppc": dict(target="powerpc-unknown-linux-gnu", build_std="core,alloc", features=""),
    "std": dict(target="x86_64-unknown-linux-gnu", build_std=None, features="std,libc"),
}


# Feature matrix: an empty harness, so that only the analysed crates can fail to compile.
FEATURES = ["osi-std", "sys-std", "sys-libc"]
MATRIX = []
for _n in range(8):
    _f = [f for _i, f in enumerate(FEATURES) if _n >> _i & 1]
    _name = "m-gnu-" + ("+".join(_f) or "base")
    CONFIGS[_name] = dict(target="x86_64-unknown-linux-gnu", build_std=None, features=",".join(["bare"] + _f), tdir="std", matrix=True)
    MATRIX.append(_name)
for _c in [c for c in CONFIGS if CONFIGS[c].get("build_std")]:
    for _f in ([], ["sys-libc"]) if "linux" in CONFIGS[_c]["target"] else ([],):
        _name = "m-%s-%s" % (_c, "+".join(_f) or "base")
        CONFIGS[_name] = dict(CONFIGS[_c], features=",".join(["bare"] + _f), tdir=_c, matrix=True)
        MATRIX.append(_name)
MAIN = [c for c in CONFIGS if not CONFIGS[c].get("matrix")]


class ExtractError(Exception):
    pass


class CompileError(ExtractError):
    """An analysed crate (not the harness) does not compile in this configuration."""

    def __init__(self, cfg, crate, text):
        ExtractError.__init__(self, "%s does not compile (%s):\n%s" % (crate, cfg, text))
        self.cfg, self.crate, self.text = cfg, crate, text


def _files(top, exts):
    out = []
    for dp, dn, fn in os.walk(top):
        dn[:] = sorted(d for d in dn if d not in ("target", ".git", "build"))
        for f in sorted(fn):
            if f.endswith(exts):
                out.append(os.path.join(dp, f))
    return out


def source_files():
    return [f for f in _files(os.path.join(REPO, "lib"), (".rs", ".toml"))] + [
        os.path.join(REPO, "Cargo.toml")]


def tree_key(cfg):
    h = hashlib.sha256()
    h.update(json.dumps(CONFIGS[cfg], sort_keys=True).encode())
    fl = source_files()
    fl += _files(os.path.join(VERIF, "harness"), (".rs", ".toml"))
    fl += _files(os.path.join(VERIF, "driver", "src"), (".rs",))
    for f in fl:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def env(offline=True):
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "build", "--release", "--offline"],
                       cwd=os.path.join(VERIF, "driver"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ExtractError("driver build failed:\n" + r.stdout[-4000:])


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def rustflags(cfg):
    # cargo needs the warning about unsupported crate types on targets without an OS
    cap = "" if cfg == "none" else " --cap-lints=allow"
    return "-Zalways-encode-mir -Zmir-opt-level=1 -Zinline-mir=no -Cdebuginfo=1" + cap


def extract(cfg):
    """Ensure the dump for `cfg` matches the current tree; return its directory."""
    c = CONFIGS[cfg]
    out = os.path.join(BUILD, "out", cfg)
    tname = c.get("tdir", cfg)
    with Lock("extract-" + tname):
        with Lock("driver"):
            build_driver()
        key = tree_key(cfg)
        kf = os.path.join(out, "key")
        if os.path.exists(kf) and open(kf).read() == key:
            return out
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        tdir = os.path.join(BUILD, "t-" + tname)
        # The freshness cache is time based and would skip the driver; drop it for
        # the analysed crates only, the standard library stays cached.
        for prof in (os.path.join(tdir, c["target"], "debug"), os.path.join(tdir, "debug")):
            fp = os.path.join(prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.split("-")[0] in ("osi", "sys", "tmp", "vpharness"):
                        shutil.rmtree(os.path.join(fp, d))
        e = env()
        e["CARGO_TARGET_DIR"] = tdir
        e["RUSTFLAGS"] = rustflags(tname)
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["VP_OUT"] = out
        cmd = ["cargo", "check", "--offline", "--target", c["target"]]
        if c["build_std"]:
            cmd += ["-Zbuild-std=" + c["build_std"]]
        if c["features"]:
            cmd += ["--features", c["features"]]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(os.path.join(out, "facts.json")):
            m = re.search(r"could not compile `(osi|sys|tmp)`", r.stdout)
            if m:
                i = r.stdout.find("error")
                raise CompileError(cfg, m.group(1), r.stdout[i:i + 3000])
            raise ExtractError("extraction (%s) failed:\n%s" % (cfg, r.stdout[-6000:]))
        with open(kf, "w") as f:
            f.write(key)
    return out


def usable(c, cfgs):
    """Those of the configurations in which the analysed crates compile.  A target on
    which they do not is a matter of the portability check only."""
    out = []
    for cfg in cfgs:
        try:
            extract(cfg)
            out.append(cfg)
        except CompileError as e:
            if cfg == "host":
                raise
            c.unk("configuration", cfg, "%s does not compile" % e.crate)
    return out


def facts(cfg):
    with open(os.path.join(extract(cfg), "facts.json")) as f:
        return json.load(f)


def mono(cfg, group):
    p = os.path.join(extract(cfg), "mono-%s.json" % group)
    if not os.path.exists(p):
        raise ExtractError("no roots for group " + group)
    with open(p) as f:
        return json.load(f)


if __name__ == "__main__":
    for c in sys.argv[1:] or MAIN:
        print(c, extract(c))
