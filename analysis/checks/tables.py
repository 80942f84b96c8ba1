"""Checks that compare compiler-computed layouts and evaluated constants with tables
taken from the format specifications."""
import json
import os

import extract
import vp
from vp import check, items, where, const_bytes

SPEC = os.path.join(vp.VERIF, "spec")


def spec(name):
    with open(os.path.join(SPEC, name)) as f:
        return json.load(f)


class Types:
    def __init__(self, cfg):
        self.cfg = cfg
        self.d = extract.mono(cfg, "types")
        self.types = self.d["types"]
        self.ptr = self.d["ptr"]
        self.big = self.d["big"]
        self.roots = {}
        for n, i in self.d["roots"]:
            p = n.split("::")
            self.roots["::".join(p[2:-1] + [p[-1][2:]])] = self.d["fns"][i]

    def arg(self, root, i=0, deref=True):
        t = self.types[self.roots[root]["locals"][1 + i]]
        if deref and t["k"] == "ref":
            t = self.types[t["to"]]
        return t

    def leaf(self, t):
        """The one non-zero-sized primitive a wrapper consists of, and the endian
        wrappers passed on the way."""
        order = []
        seen = 0
        while t["k"] == "adt" and t["ak"] == "struct" and seen < 20:
            seen += 1
            p = t["path"]
            if p.endswith("::BigEndian"):
                order.append("big")
            elif p.endswith("::LittleEndian"):
                order.append("little")
            nz = [self.types[f[1]] for f in t["vars"][0]["fields"] if self.types[f[1]]["l"]["size"] != 0]
            if len(nz) != 1:
                return t, order
            t = nz[0]
        if t["k"] == "pat":
            t = self.types[t["base"]]
        return t, order


ALL = extract.MAIN
TARGETS = [c for c in extract.MAIN if c != "std"]


@check("C24", "Layout facts: for every alignment marker and every annotated type, the size and alignment the "
              "compiler computed on each target are compared with the advertised number, respectively with the "
              "alignment of the annotated type itself.")
def c24(c):
    for cfg in extract.usable(c, TARGETS):
        T = Types(cfg)
        c.saw("targets")
        for n in (1, 2, 4, 8, 16, 32, 64, 128):
            for pre in ("as", "mk"):
                l = T.arg("%s_%d" % (pre, n))["l"]
                nm = {"as": "AlignAs<%d>", "mk": "Align%d"}[pre] % n
                c.expect("marker", (l["size"], l["align"]) == (0, n), "%s@%s" % (nm, cfg), "osi::align " + nm,
                         "%s has size %d and alignment %d on %s, expected 0 and %d" % (nm, l["size"], l["align"], cfg, n))
            l = T.arg("embed_%d" % n)["l"]
            c.expect("embedding", (l["size"], l["align"]) == (n, n), "%d@%s" % (n, cfg), "osi::align::AlignAs<%d>" % n,
                     "structure of marker and one byte has layout %s on %s" % (l, cfg))
        l = T.arg("any")["l"]
        c.expect("marker", (l["size"], l["align"]) == (0, 1), "AlignAny@" + cfg, "osi::align::AlignAny", "layout %s" % l)
        l = T.arg("native")["l"]
        u = T.arg("usize")["l"]["align"]
        c.expect("marker", (l["size"], l["align"]) == (0, u), "AlignNative@" + cfg, "osi::align::AlignNative", "layout %s" % l)
        for r in sorted(T.roots):
            if not r.startswith("al_"):
                continue
            t = T.arg(r)
            real = t["l"]["align"]
            for i, what in ((1, "declared marker"), (2, "AlignOf")):
                l = T.arg(r, i)["l"]
                c.expect("annotated type", (l["size"], l["align"]) == (0, real), "%s %s@%s" % (t["n"], what, cfg),
                         "impl osi::align::Aligned for " + t["n"],
                         "%s has alignment %d on %s, but its %s has size %d and alignment %d" % (
                             t["n"], real, cfg, what, l["size"], l["align"]))
    # every declared annotation must be one of those instantiated above
    f = extract.facts("host")
    covered = {"[T; N]", "[T]", "&T", "&mut T", "*const T", "*mut T"} | {Types("host").arg(r)["n"] for r in Types("host").roots if r.startswith("al_")}
    for im in vp.impls(f):
        if im["trait"] == "osi::align::Aligned":
            if im["self"] in covered:
                c.ok("annotation covered", im["self"])
            else:
                c.unk("annotation covered", im["self"], "impl is not instantiated by the harness")
    c.floor("marker", 18)
    c.floor("annotated type", 30 * 2)
    c.floor("annotation covered", 32)


# name -> (bits, align, signed/float)
def abi_table(kind):
    p = 32 if kind in ("x86", "x86_win") else 64
    a64 = 4 if kind == "x86" else 8
    t = {}
    for b, al in ((8, 1), (16, 2), (32, 4), (64, a64), (128, 16)):
        t["i%d" % b] = (b, al, "signed")
        t["u%d" % b] = (b, al, "unsigned")
    t["isize"] = (p, p // 8, "signed")
    t["usize"] = (p, p // 8, "unsigned")
    t["f32"] = (32, 4, "float")
    t["f64"] = (64, a64, "float")
    for n in ("addr", "optaddr", "ptr", "optptr", "ptr64", "optptr64", "ptrptr"):
        t[n] = (p, p // 8, "unsigned")
    return t


@check("C26", "Layout facts: size, alignment, wrapped primitive and endian wrapper of every type of every ABI module on "
              "ten compilation targets are compared with the System V and Windows ABI tables and, for the aliases of the "
              "compilation target, with the layouts of the native primitives.")
def c26(c):
    for cfg in extract.usable(c, ALL):
        T = Types(cfg)
        c.saw("configurations")
        for mod in ("abi_aarch64", "abi_x86", "abi_x86_64", "abi_x86_win", "abi_x86_64_win", "abi_native",
                    "sysabi_aarch64", "sysabi_x86", "sysabi_x86_64"):
            kind = mod.split("_", 1)[1]
            names = [r.split("::")[1] for r in T.roots if r.startswith(mod + "::")]
            for n in sorted(names):
                t = T.arg(mod + "::" + n)
                l = t["l"]
                key = "%s::%s@%s" % (mod, n, cfg)
                wh = "osi::ffi::abi (%s) %s on %s" % (mod, n, cfg)
                if kind == "native":
                    if n in ("addr", "optaddr", "ptr", "optptr", "ptr64", "optptr64", "ptrptr"):
                        ok = l["size"] * 8 == T.ptr and l["align"] * 8 == T.ptr
                        c.expect("abi type", ok, key, wh, "layout %s" % l)
                    else:
                        c.expect("abi type", t["n"] == n, key, wh, "is %s rather than the primitive %s" % (t["n"], n))
                    continue
                bits, al, kind3 = abi_table(kind)[n]
                ok = l["size"] * 8 == bits and l["align"] == al
                c.expect("abi type", ok, key, wh, "has size %d and alignment %d, the platform has %d and %d" % (
                    l["size"], l["align"], bits // 8, al))
                if n.startswith("opt"):
                    continue
                leaf, order = T.leaf(t)
                if leaf["k"] not in ("int", "float"):
                    c.unk("primitive", key, "wrapper is not built around a single number: %s" % leaf["n"])
                    continue
                k = "float" if leaf["k"] == "float" else ("signed" if leaf.get("signed") else "unsigned")
                c.expect("primitive", k == kind3, key, wh, "wraps %s, expected a %s number" % (leaf["n"], kind3))
                if bits > 8:
                    c.expect("byte order", order == ["little"], key, wh, "byte order wrappers %s, platform is little-endian" % order)
                else:
                    c.expect("byte order", len(order) <= 1, key, wh, "byte order wrappers %s" % order)
        # the alias of the compilation target agrees with the native primitives
        f = extract.facts(cfg)
        lay = {}
        for it in items(f, "TyAlias"):
            if it.get("layout"):
                lay[it["path"]] = (it["layout"], it["ty"], it)
        for base, needs in (("osi::ffi::abi", ("host", "std", "i686", "aarch64", "win64", "win32")),
                            ("sys::ffi::linux", ("host", "std", "i686", "aarch64"))):
            mid = "::target::" if base.startswith("osi") else "::target::abi::"
            have = {p: v for p, v in lay.items() if p.startswith(base + mid)}
            if cfg in needs:
                c.expect("target alias", len(have) >= 15, "%s@%s" % (base, cfg), base + "::target", "no alias for the compilation target")
            if base.startswith("sys") and cfg not in needs:
                continue
            for p, (l, ty, it) in have.items():
                n = p.split("::")[-1]
                nat = lay["osi::ffi::abi::native::" + n]
                c.expect("target agrees with native", l == nat[0], "%s@%s" % (p, cfg), where(it),
                         "target alias has size and alignment %s on %s, native primitive has %s" % (l, cfg, nat[0]))
                if T.big and "LittleEndian" in ty or not T.big and "BigEndian" in ty:
                    c.bad("target agrees with native", "%s order@%s" % (p, cfg), where(it), "byte order differs from the target's")
    c.floor("abi type", 21 * 9)
    c.floor("target agrees with native", 15 * 2)


ELF = {
    "ident": [("i_magic", 4), ("i_class", 1), ("i_data", 1), ("i_version", 1), ("i_osabi", 1), ("i_abiversion", 1), ("i_pad", 7)],
    "ehdr": [("e_ident", 16), ("e_type", 2), ("e_machine", 2), ("e_version", 4), ("e_entry", "A"), ("e_phoff", "A"), ("e_shoff", "A"),
             ("e_flags", 4), ("e_ehsize", 2), ("e_phentsize", 2), ("e_phnum", 2), ("e_shentsize", 2), ("e_shnum", 2), ("e_shstrndx", 2)],
    "shdr": [("sh_name", 4), ("sh_type", 4), ("sh_flags", "A"), ("sh_addr", "A"), ("sh_offset", "A"), ("sh_size", "A"),
             ("sh_link", 4), ("sh_info", 4), ("sh_addralign", "A"), ("sh_entsize", "A")],
    "phdr32": [("p_type", 4), ("p_offset", 4), ("p_vaddr", 4), ("p_paddr", 4), ("p_filesz", 4), ("p_memsz", 4), ("p_flags", 4), ("p_align", 4)],
    "phdr64": [("p_type", 4), ("p_flags", 4), ("p_offset", 8), ("p_vaddr", 8), ("p_paddr", 8), ("p_filesz", 8), ("p_memsz", 8), ("p_align", 8)],
    "sym32": [("st_name", 4), ("st_value", 4), ("st_size", 4), ("st_info", 1), ("st_other", 1), ("st_shndx", 2)],
    "sym64": [("st_name", 4), ("st_info", 1), ("st_other", 1), ("st_shndx", 2), ("st_value", 8), ("st_size", 8)],
    "dyn": [("d_tag", "A"), ("d_val", "A")],
    "rel": [("r_offset", "A"), ("r_info", "A")],
    "rela": [("r_offset", "A"), ("r_info", "A"), ("r_addend", "S")],
}
MZ = {
    "mz_header": (28, 2, [("magic", 2)] + [(n, 2) for n in (
        "cblp", "cp", "crlc", "cparhdr", "minalloc", "maxalloc", "ss", "sp", "csum", "ip", "cs", "lfarlc", "ovno")]),
    "mz_headerext": (36, 4, [("res", 8), ("oemid", 2), ("oeminfo", 2), ("res2", 20), ("lfanew", 4)]),
    "mz_relocation": (4, 2, [("offset", 2), ("segment", 2)]),
}


def pe_tables():
    hdr = [("machine", 2), ("number_of_sections", 2), ("time_date_stamp", 4), ("pointer_to_symbol_table", 4),
           ("number_of_symbols", 4), ("size_of_optional_header", 2), ("characteristics", 2)]
    opt = [("magic", 2), ("major_linker_version", 1), ("minor_linker_version", 1), ("size_of_code", 4),
           ("size_of_initialized_data", 4), ("size_of_uninitialized_data", 4), ("address_of_entry_point", 4), ("base_of_code", 4)]

    def ext(w):
        return [("image_base", w), ("section_alignment", 4), ("file_alignment", 4)] + [(n, 2) for n in (
            "major_operating_system_version", "minor_operating_system_version", "major_image_version",
            "minor_image_version", "major_subsystem_version", "minor_subsystem_version")] + [
            ("win32_version_value", 4), ("size_of_image", 4), ("size_of_headers", 4), ("check_sum", 4), ("subsystem", 2),
            ("dll_characteristics", 2), ("size_of_stack_reserve", w), ("size_of_stack_commit", w),
            ("size_of_heap_reserve", w), ("size_of_heap_commit", w), ("loader_flags", 4), ("number_of_rva_and_sizes", 4)]
    sec = [("name", 8), ("virtual_size", 4), ("virtual_address", 4), ("size_of_raw_data", 4), ("pointer_to_raw_data", 4),
           ("pointer_to_relocations", 4), ("pointer_to_linenumbers", 4), ("number_of_relocations", 2),
           ("number_of_linenumbers", 2), ("characteristics", 4)]
    return {
        "pe_header": (20, 4, hdr), "pe_opt32": (28, 4, opt + [("base_of_data", 4)]), "pe_opt32p": (24, 4, opt),
        "pe_opt32p_alias": (24, 4, opt), "pe_ext32": (68, 4, ext(4)), "pe_ext32p": (88, 8, ext(8)),
        "pe_ext32p_alias": (88, 8, ext(8)), "pe_dir": (8, 4, [("virtual_address", 4), ("size", 4)]),
        "pe_section": (40, 4, sec),
    }


def layout_check(c, T, root, size, align, table, label, le=False):
    t = T.arg(root)
    l = t["l"]
    key = "%s@%s" % (label, T.cfg)
    wh = "%s on %s" % (t["n"], T.cfg)
    c.expect("structure", (l["size"], l["align"]) == (size, align), key, wh,
             "has size %d and alignment %d, the format has %d and %d" % (l["size"], l["align"], size, align))
    have = {}
    if t["k"] == "adt" and "offs" in l:
        for (n, ft), o in zip(t["vars"][0]["fields"], l["offs"]):
            have[n] = (o, T.types[ft])
    off = 0
    for n, w in table:
        signed = w == "S"
        w = {"A": align, "S": align}.get(w, w)
        # flatten one level of nesting is not needed: field names are public API
        if n not in have:
            c.bad("field", key + "." + n, wh, "public field %s is missing" % n)
        else:
            o, ft = have[n]
            c.expect("field", (o, ft["l"]["size"]) == (off, w), key + "." + n, wh,
                     "field %s is at offset %d with width %d, the format puts it at %d with width %d" % (n, o, ft["l"]["size"], off, w))
            if signed:
                leaf, _ = T.leaf(ft)
                c.expect("field", bool(leaf.get("signed")), key + "." + n + ".sign", wh, "field %s must be signed" % n)
            if le and w > 1 and ft["k"] != "array":
                leaf, order = T.leaf(ft)
                c.expect("byte order", order == ["little"], key + "." + n, wh, "field %s has byte order wrappers %s" % (n, order))
            elif le and w > 1:
                el = T.types[ft["elem"]]
                c.expect("byte order", el["l"]["size"] == 1, key + "." + n, wh, "field %s is not a byte array" % n)
        off += w
    for n, (o, ft) in have.items():
        if ft["l"]["size"] and n not in dict(table):
            c.bad("field", key + "." + n, wh, "has an additional field %s" % n)


@check("C27", "Layout facts: size, alignment and every field's offset and width of each ELF structure, as computed by the "
              "compiler on ten targets, are compared with the tables of the ELF specification.")
def c27(c):
    for cfg in extract.usable(c, TARGETS):
        T = Types(cfg)
        c.saw("targets")
        for mod in ("elf32", "elf64", "elfn"):
            w = {"elf32": 4, "elf64": 8, "elfn": T.ptr // 8}[mod]
            for st in ("ident", "ehdr", "shdr", "phdr", "sym", "dyn", "rel", "rela"):
                tab = ELF.get(st) or ELF["%s%d" % (st, w * 8)]
                size = sum({"A": w, "S": w}.get(x, x) for _, x in tab)
                al = 1 if st == "ident" else w
                layout_check(c, T, "%s::%s" % (mod, st), size, al, tab, "%s::%s" % (mod, st))
                c.saw("structures")
    c.floor("structure", 24)
    c.floor("field", 3 * 50)


@check("C31", "Layout facts: size, alignment and every field's offset, width and endian wrapper of each DOS and PE/COFF "
              "structure on ten targets are compared with the tables of the file formats.")
def c31(c):
    tabs = dict(MZ)
    tabs.update(pe_tables())
    for cfg in extract.usable(c, TARGETS):
        T = Types(cfg)
        c.saw("targets")
        for n, (size, al, tab) in tabs.items():
            layout_check(c, T, n, size, al, tab, n, le=True)
            c.saw("structures")
    c.floor("structure", 12)
    c.floor("field", 90)


def const_cmp(c, group, it, exp, label):
    v = it["val"]
    if isinstance(exp, list):
        b = const_bytes(it)
        if b is None:
            return c.bad(group, label, where(it), "is not a constant byte sequence")
        if len(b) == len(exp):
            got = list(b)
        elif len(b) % len(exp) == 0:
            n = len(b) // len(exp)
            got = [int.from_bytes(b[i * n:i * n + n], "little") for i in range(len(exp))]
            big = [int.from_bytes(b[i * n:i * n + n], "big") for i in range(len(exp))]
            got = exp if big == exp or got == exp else got
        else:
            got = list(b)
        return c.expect(group, got == exp, label, where(it), "is %s, the specification assigns %s" % (got, exp))
    if "int" in v:
        got = int(v["int"])
        bits = 8 * v["size"]
        return c.expect(group, got % (1 << bits) == exp % (1 << bits) and -(1 << (bits - 1)) <= exp < (1 << bits), label, where(it),
                        "is %#x, the specification assigns %#x" % (got, exp))
    b = const_bytes(it)
    if b is None:
        return c.bad(group, label, where(it), "cannot be evaluated to bytes")
    # foreign-order wrapper: the declared order is part of its type
    order = "big" if "BigEndian" in it["ty"] else "little"
    got = int.from_bytes(b, order)
    return c.expect(group, got == exp, label, where(it), "is %#x, the specification assigns %#x" % (got, exp))


@check("C28", "Every ELF constant the compiler evaluates on eleven configurations is compared, name by name, with a table "
              "merged from the glibc and Linux headers, two independent ELF libraries and the gABI/Solaris/BSD registries.")
def c28(c):
    tab = spec("elf_constants.json")
    for cfg in extract.usable(c, ALL):
        f = extract.facts(cfg)
        c.saw("configurations")
        seen = {m: set() for m in ("elf32", "elf64", "elfn")}
        for it in items(f, "Const"):
            p = it["path"].split("::")
            if not it["path"].startswith("sys::ffi::elf::") or len(p) < 5:
                continue
            c.saw("constants")
            n = p[-1]
            if p[3] in seen:
                seen[p[3]].add(n)
            if n not in tab:
                c.unk("constant", "%s@%s" % (it["path"], cfg), "not part of the specification table")
                continue
            const_cmp(c, "constant", it, tab[n]["value"], "%s@%s" % ("::".join(p[3:]), cfg))
        for m, s in seen.items():
            for n in sorted(set(tab) - s):
                c.bad("constant", "%s::%s@%s" % (m, n, cfg), "sys::ffi::elf::" + m, "constant %s is not exported" % n)
    c.floor("constant", 564 * 3)


@check("C32", "Every PE/COFF and DOS constant the compiler evaluates on eleven configurations is compared with the values of "
              "the PE/COFF specification.")
def c32(c):
    tab = spec("pe_constants.json")
    for cfg in extract.usable(c, ALL):
        f = extract.facts(cfg)
        c.saw("configurations")
        seen = set()
        for it in items(f, "Const"):
            if it["path"].startswith("tmp::pecoff::"):
                n = it["path"].split("::")[-1]
            elif it["path"].startswith("tmp::msdosmz::"):
                n = "msdosmz::" + it["path"].split("::")[-1]
                if n == "msdosmz::STUB_X86":
                    continue
            else:
                continue
            c.saw("constants")
            seen.add(n)
            if n not in tab:
                c.unk("constant", "%s@%s" % (n, cfg), "not part of the specification table")
                continue
            const_cmp(c, "constant", it, tab[n]["value"], "%s@%s" % (n, cfg))
        for n in sorted(set(tab) - seen):
            c.bad("constant", "%s@%s" % (n, cfg), "tmp::pecoff / tmp::msdosmz", "constant %s is not exported" % n)
    c.floor("constant", 100)


@check("C29", "Every error number of every platform module on eleven configurations (including the C-library based module, "
              "whose values the compiler evaluates from the libc crate) is compared with the kernel's generic errno "
              "table; the set of names must be the same in each module.")
def c29(c):
    tab = spec("errno.json")
    for cfg in extract.usable(c, ALL):
        f = extract.facts(cfg)
        c.saw("configurations")
        mods = {}
        for it in items(f, "Const"):
            p = it["path"].split("::")
            if p[0] == "sys" and len(p) >= 3 and p[-2] == "errno":
                mods.setdefault("::".join(p[:-1]), {})[p[-1]] = it
        arch = cfg not in ("s390x", "ppc")
        need = ["aarch64", "x86", "x86_64"] + (["native", "target"] if arch else []) + (["libc"] if cfg == "std" else [])
        for m in need:
            for base in ("sys::ffi::linux", "sys::linux::ffi"):
                c.expect("module", "%s::%s::errno" % (base, m) in mods, "%s::%s@%s" % (base, m, cfg), "%s::%s" % (base, m),
                         "platform module %s has no error numbers on %s" % (m, cfg))
        for m, d in sorted(mods.items()):
            c.saw("platform modules")
            for n in sorted(set(tab) | set(d)):
                key = "%s::%s@%s" % (m, n, cfg)
                if n not in d:
                    c.bad("error number", key, m, "error %s is missing from this platform module" % n)
                elif n not in tab:
                    c.bad("error number", key, where(d[n]), "error %s is not part of the kernel's table" % n)
                else:
                    const_cmp(c, "error number", d[n], tab[n], key)
    c.floor("error number", 133 * 10)
