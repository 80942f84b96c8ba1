"""Properties decided by the compiler's own judgement on witness programs, together with
facts of the type-checked program (signatures, impl predicates, variances)."""
import itertools
import re

import extract
import vp
import witness
from vp import check, items, impls, where

LT = ("E0521", "E0308", "E0597", "E0505", "E0499", "E0502", "E0310", "E0309", "E0716", "E0515", "E0621", None)


@check("C17", "Compile-fail witnesses with accepted twins for forging, copying, escaping and mixing brands, plus facts: no "
              "public constructor, Clone, Copy or Default of the unique token exists, no public field, and both brand types "
              "are invariant in their brand.")
def c17(c):
    w = "osi::brand"
    W = [
        ("unique is not Clone", w + "::Unique", "fn f() { brand::unique(|u| { let a = u.clone(); let b: brand::Unique<'_> = a; }); }",
         "fn f() { brand::unique(|u| { let a = brand::Id::from(u); let b = a.clone(); }); }", ("E0599", "E0308")),
        ("unique is not Copy", w + "::Unique", "fn f() { brand::unique(|u| { let a = u; let b = u; }); }",
         "fn f() { brand::unique(|u| { let a = u; }); }", ("E0382",)),
        ("unique does not implement Clone", w + "::Unique", "fn n<T: Clone>() {} fn f<'a>() { n::<brand::Unique<'a>>() }",
         "fn n<T: Clone>() {} fn f<'a>() { n::<brand::Id<'a>>() }", ("E0277",)),
        ("unique does not implement Copy", w + "::Unique", "fn n<T: Copy>() {} fn f<'a>() { n::<brand::Unique<'a>>() }",
         "fn n<T: Copy>() {} fn f<'a>() { n::<brand::Id<'a>>() }", ("E0277",)),
        ("unique does not implement Default", w + "::Unique", "fn n<T: Default>() {} fn f<'a>() { n::<brand::Unique<'a>>() }",
         "fn n<T: Eq>() {} fn f<'a>() { n::<brand::Unique<'a>>() }", ("E0277",)),
        ("id does not implement Default", w + "::Id", "fn n<T: Default>() {} fn f<'a>() { n::<brand::Id<'a>>() }",
         "fn n<T: Eq>() {} fn f<'a>() { n::<brand::Id<'a>>() }", ("E0277",)),
        ("unique is not made from an id", w + "::Unique", "fn f() { brand::unique(|u| { let i = brand::Id::from(u); let u2: brand::Unique = i.into(); }); }",
         "fn f() { brand::unique(|u| { let i: brand::Id = u.into(); }); }", ("E0277",)),
        ("literal construction of unique", w + "::Unique", "fn f<'a>(i: brand::Id<'a>) -> brand::Unique<'a> { brand::Unique { id: i } }",
         "fn f<'a>(i: brand::Unique<'a>) -> brand::Unique<'a> { i }", ("E0451", "E0063", "E0560", "E0423", "E0574")),
        ("tuple construction of unique", w + "::Unique", "fn f<'a>(i: brand::Id<'a>) -> brand::Unique<'a> { brand::Unique(i) }",
         None, ("E0423", "E0603", "E0618", "E0532")),
        ("literal construction of id", w + "::Id", "fn f<'a>() -> brand::Id<'a> { brand::Id { _brand: Default::default() } }",
         None, ("E0451", "E0560", "E0063")),
        ("unique escapes through return", w + "::unique", "fn f() { let u = brand::unique(|u| u); }",
         "fn f() { let u = brand::unique(|u| { let _u = u; 1 }); }", LT),
        ("unique escapes through environment", w + "::unique", "fn f() { let mut o = None; brand::unique(|u| { o = Some(u); }); }",
         "fn f() { let mut o = None; brand::unique(|u| { o = Some(1u8); }); }", LT),
        ("id escapes through return", w + "::unique", "fn f() { let u = brand::unique(|u| brand::Id::from(u)); }",
         "fn f() { brand::unique(|u| { let i = brand::Id::from(u); }); }", LT),
        ("id escapes through environment", w + "::unique", "fn f() { let mut o = None; brand::unique(|u| { o = Some(brand::Id::from(u)); }); }",
         None, LT),
        ("ids of two brands do not unify", w + "::Id",
         "fn same<'a>(a: brand::Id<'a>, b: brand::Id<'a>) {} fn f() { brand::unique(|a| brand::unique(|b| same(a.into(), b.into()))); }",
         "fn same<'a>(a: brand::Id<'a>, b: brand::Id<'a>) {} fn f() { brand::unique(|a| brand::unique(|b| { let x: brand::Id = a.into(); same(x, x) })); }", LT),
        ("uniques of two brands do not unify", w + "::Unique",
         "fn same<'a>(a: &brand::Unique<'a>, b: &brand::Unique<'a>) {} fn f() { brand::unique(|a| brand::unique(|b| same(&a, &b))); }",
         "fn same<'a>(a: &brand::Unique<'a>, b: &brand::Unique<'a>) {} fn f() { brand::unique(|a| brand::unique(|b| same(&a, &a))); }", LT),
        ("id and unique of different brands do not compare", w + "::Id", "fn f() { brand::unique(|a| brand::unique(|b| { let x: brand::Id = a.into(); let y: brand::Id = b.into(); x == y })); }",
         "fn f() { brand::unique(|a| { let x: brand::Id = a.into(); x == x }); }", LT),
        ("id brand is not covariant", w + "::Id", "fn f<'a: 'b, 'b>(v: brand::Id<'a>) -> brand::Id<'b> { v }", "fn f<'a>(v: brand::Id<'a>) -> brand::Id<'a> { v }", LT),
        ("id brand is not contravariant", w + "::Id", "fn f<'a: 'b, 'b>(v: brand::Id<'b>) -> brand::Id<'a> { v }", None, LT),
        ("unique brand is not covariant", w + "::Unique", "fn f<'a: 'b, 'b>(v: brand::Unique<'a>) -> brand::Unique<'b> { v }",
         "fn f<'a>(v: brand::Unique<'a>) -> brand::Unique<'a> { v }", LT),
        ("unique brand is not contravariant", w + "::Unique", "fn f<'a: 'b, 'b>(v: brand::Unique<'b>) -> brand::Unique<'a> { v }", None, LT),
        ("static brand cannot be chosen", w + "::unique", "fn f() { brand::unique(|u: brand::Unique<'static>| ()); }",
         "fn f() { brand::unique(|u: brand::Unique<'_>| ()); }", LT),
        ("borrowed unique does not yield an owned one", w + "::Unique", "fn f<'a>(u: &brand::Unique<'a>) -> brand::Unique<'a> { *u }",
         "fn f<'a, 'b>(u: &'b brand::Unique<'a>) -> &'b brand::Unique<'a> { u }", ("E0507",)),
        ("unique cannot be moved into id twice", w + "::Unique", "fn f() { brand::unique(|u| { let a = brand::Id::from(u); let b = brand::Id::from(u); }); }",
         None, ("E0382",)),
    ]
    witness.run(c, "witness", W)
    f = extract.facts("std")
    for it in items(f):
        if it["path"] in ("osi::brand::Id", "osi::brand::Unique") and it["kind"] == "Struct":
            c.expect("invariant brand", it["variances"] == ["o"], it["path"], where(it), "brand parameter has variance %s" % it["variances"])
            for fl in it.get("fields", []):
                c.expect("no public field", not fl[5], it["path"] + "." + fl[0], where(it), "field is public, so tokens can be forged")
    # no safe function of the library other than the scoped constructor hands out a unique token it was not given
    for it in items(f):
        sig = it.get("sig")
        if not sig or it.get("unsafe"):
            continue
        ins, _, out = sig.rpartition("->")
        if "osi::brand::Unique<" in out:
            given = re.findall(r"(?:^|[^&\w ])\s*osi::brand::Unique<('\w+)>", ins)
            lts = re.findall(r"osi::brand::Unique<('\w+)>", out)
            c.expect("no other source", all(lt in given for lt in lts) and bool(lts), it["path"], where(it),
                     "safe public function returns a unique token: " + sig)
        elif "osi::brand::Id<" in out and "brand" not in ins:
            c.bad("no other source", it["path"], where(it), "safe public function makes up an identifier: " + sig)
    for im in impls(f):
        if im["self"].startswith("osi::brand::Unique<") and im["trait"] in (
                "core::clone::Clone", "core::marker::Copy", "core::default::Default", "core::convert::From", "core::borrow::BorrowMut"):
            c.bad("no duplicating impl", "%s for %s" % (im["ref"], im["self"]), im["self"], "implements " + im["ref"])
        elif im["self"].startswith("osi::brand::"):
            c.ok("no duplicating impl", "%s for %s" % (im["trait"], im["self"]))
    c.floor("invariant brand", 2)
    c.floor("witness", 40)


@check("C18", "Compile-fail witnesses with accepted twins (thread-safety, lifetime, variance, duplication) plus the impl "
              "predicates and variances of the type-checked program.")
def c18(c):
    W = []
    for ty in ("Ptr", "OnceRef"):
        w = "osi::ptr::" + ty
        P = "osi::ptr::%s<'a, %%s>" % ty
        H = "fn send<T: Send>() {} fn sync<T: Sync>() {} "
        W += [
            (ty + " of non-Sync is not Send", w, H + "fn f<'a>() { send::<%s>() }" % (P % "Cell<u8>"), H + "fn f<'a>() { send::<%s>() }" % (P % "u8"), ("E0277",)),
            (ty + " of non-Send is not Send", w, H + "fn f<'a>() { send::<%s>() }" % (P % "std::sync::MutexGuard<'static, u8>"), None, ("E0277",)),
            (ty + " of neither is not Send", w, H + "fn f<'a>() { send::<%s>() }" % (P % "std::rc::Rc<u8>"), None, ("E0277",)),
            (ty + " of raw pointer is not Send", w, H + "fn f<'a>() { send::<%s>() }" % (P % "*mut u8"), None, ("E0277",)),
            (ty + " of unsized non-Sync is not Send", w, H + "fn f<'a>() { send::<%s>() }" % (P % "[Cell<u8>]"), H + "fn f<'a>() { send::<%s>() }" % (P % "[u8]"), ("E0277",)),
            (ty + " of non-Sync is not Sync", w, H + "fn f<'a>() { sync::<%s>() }" % (P % "Cell<u8>"), H + "fn f<'a>() { sync::<%s>() }" % (P % "u8"), ("E0277",)),
            (ty + " of neither is not Sync", w, H + "fn f<'a>() { sync::<%s>() }" % (P % "std::rc::Rc<u8>"), None, ("E0277",)),
            (ty + " of dyn is not Send", w, H + "fn f<'a>() { send::<%s>() }" % (P % "dyn Fn()"), H + "fn f<'a>() { send::<%s>() }" % (P % "(dyn Fn() + Send + Sync)"), ("E0277",)),
            (ty + " of dyn is not Sync", w, H + "fn f<'a>() { sync::<%s>() }" % (P % "dyn Fn()"), H + "fn f<'a>() { sync::<%s>() }" % (P % "(dyn Fn() + Sync)"), ("E0277",)),
            (ty + " does not outlive its borrow", w, "fn f() -> osi::ptr::%s<'static, u8> { let v = 1u8 + %d; osi::ptr::%s::from_ref(&v) }" % (ty, len(ty), ty),
             "fn f<'a>(v: &'a u8) -> osi::ptr::%s<'a, u8> { osi::ptr::%s::from_ref(v) }" % (ty, ty), LT),
            (ty + " From keeps the borrow", w, "fn f<'a>(v: &'a u8) -> osi::ptr::%s<'static, u8> { v.into() }" % ty,
             "fn f<'a>(v: &'a u8) -> osi::ptr::%s<'a, u8> { v.into() }" % ty, LT),
            (ty + " keeps the borrow alive", w, "fn f() { let mut v = 1u8; let p = osi::ptr::%s::from_ref(&v); v = 2; drop(p); }" % ty,
             "fn f() { let mut v = 1u8; let p = osi::ptr::%s::from_ref(&v); drop(p); v = 2; }" % ty, ("E0506",)),
            (ty + " lifetime does not grow", w, "fn f<'a: 'b, 'b>(v: osi::ptr::%s<'b, u8>) -> osi::ptr::%s<'a, u8> { v }" % (ty, ty),
             "fn f<'a: 'b, 'b>(v: osi::ptr::%s<'a, u8>) -> osi::ptr::%s<'b, u8> { v }" % (ty, ty), LT),
            (ty + " pointee is not covariant", w, "fn f<'a, 'b>(v: osi::ptr::%s<'a, &'static u8>) -> osi::ptr::%s<'a, &'b u8> { v }" % (ty, ty),
             "fn f<'a>(v: osi::ptr::%s<'a, &'static u8>) -> osi::ptr::%s<'a, &'static u8> { v }" % (ty, ty), LT),
            (ty + " pointee is not contravariant", w, "fn f<'a, 'b>(v: osi::ptr::%s<'a, &'b u8>) -> osi::ptr::%s<'a, &'static u8> { v }" % (ty, ty), None, LT),
            (ty + " as_ref lifetime", w, "fn f<'a>() -> &'a u8 { let v = 3u8; let p = osi::ptr::%s::from_ref(&v); unsafe { p.into_ref() } }" % ty,
             "fn f<'a>(v: &'a u8) -> &'a u8 { let p = osi::ptr::%s::from_ref(v); unsafe { p.into_ref() } }" % ty, LT),
        ]
    w = "osi::ptr::OnceRef"
    W += [
        ("OnceRef is not Clone", w, "fn n<T: Clone>() {} fn f<'a>() { n::<osi::ptr::OnceRef<'a, u8>>() }", "fn n<T: Clone>() {} fn f<'a>() { n::<osi::ptr::Ptr<'a, u8>>() }", ("E0277",)),
        ("OnceRef is not Copy", w, "fn f<'a>(v: osi::ptr::OnceRef<'a, u8>) { let a = v; let b = v; }", "fn f<'a>(v: osi::ptr::Ptr<'a, u8>) { let a = v; let b = v; }", ("E0382",)),
        ("OnceRef into_ref consumes", w, "fn f<'a>(v: osi::ptr::OnceRef<'a, u8>) { let a = v.into_ref(); let b = v.into_ref(); }",
         "fn f<'a>(v: osi::ptr::OnceRef<'a, u8>) { let a = v.as_ref(); let b = v.as_ref(); }", ("E0382",)),
        ("OnceRef into_mut consumes", w, "fn f<'a>(v: osi::ptr::OnceRef<'a, u8>) { unsafe { let a = v.into_mut(); let b = v.into_mut(); } }",
         "fn f<'a>(v: osi::ptr::OnceRef<'a, u8>) { unsafe { let a = v.into_mut(); } }", ("E0382",)),
        ("OnceRef as_mut is exclusive", w, "fn f<'a>(mut v: osi::ptr::OnceRef<'a, u8>) { unsafe { let a = v.as_mut(); let b = v.as_mut(); *a = 1; } }",
         "fn f<'a>(mut v: osi::ptr::OnceRef<'a, u8>) { unsafe { let a = v.as_mut(); *a = 1; let b = v.as_mut(); } }", ("E0499",)),
        ("OnceRef as_mut versus as_ref", w, "fn f<'a>(mut v: osi::ptr::OnceRef<'a, u8>) { unsafe { let b = v.as_ref(); let a = v.as_mut(); let c = *b; } }",
         None, ("E0502",)),
        ("OnceRef from_mut keeps exclusivity", w, "fn f() { let mut v = 1u8; let p = osi::ptr::OnceRef::from_mut(&mut v); let q = v; drop(p); }",
         "fn f() { let mut v = 1u8; let p = osi::ptr::OnceRef::from_mut(&mut v); drop(p); let q = v; }", ("E0503", "E0502", "E0505")),
        ("OnceRef as_ref is bounded by the wrapper", w, "fn f<'a>(v: osi::ptr::OnceRef<'a, u8>) -> &'a u8 { v.as_ref() }",
         "fn f<'a, 'b>(v: &'b osi::ptr::OnceRef<'a, u8>) -> &'b u8 { v.as_ref() }", ("E0515", "E0597")),
        ("Ptr as_mut is exclusive", "osi::ptr::Ptr", "fn f<'a>(mut v: osi::ptr::Ptr<'a, u8>) { unsafe { let a = v.as_mut(); let b = v.as_mut(); *a = 1; } }",
         "fn f<'a>(mut v: osi::ptr::Ptr<'a, u8>) { unsafe { let a = v.as_mut(); *a = 1; let b = v.as_mut(); } }", ("E0499",)),
        ("NonNull4 is not Send", "osi::ptr::NonNull4", "fn n<T: Send>() {} fn f() { n::<osi::ptr::NonNull4<u8>>() }", "fn n<T: Copy>() {} fn f() { n::<osi::ptr::NonNull4<u8>>() }", ("E0277",)),
        ("NonNull4 is not Sync", "osi::ptr::NonNull4", "fn n<T: Sync>() {} fn f() { n::<osi::ptr::NonNull4<u8>>() }", None, ("E0277",)),
        ("converted reference keeps its borrow", "osi::convert::IntoDeref", "fn f<'x>(b: &'x u8) -> osi::ptr::OnceRef<'static, u8> { osi::convert::IntoDeref::into_deref(b) }",
         "fn f<'x>(b: &'x u8) -> osi::ptr::OnceRef<'x, u8> { osi::convert::IntoDeref::into_deref(b) }", LT),
    ]
    W = [(n, wh, None if a is None else "extern crate std;\n" + a, None if b is None else "extern crate std;\n" + b, e) for n, wh, a, b, e in W]
    witness.run(c, "witness", W)
    f = extract.facts("std")
    seen = set()
    for im in impls(f):
        for ty in ("Ptr", "OnceRef", "NonNull4"):
            if not im["self"].startswith("osi::ptr::%s<" % ty):
                continue
            if im["trait"] == "core::marker::Send" and not im["neg"]:
                ok = {"T: core::marker::Send", "T: core::marker::Sync"} <= set(im["preds"]) and ty != "NonNull4"
                c.expect("impl predicate", ok, "Send for " + ty, "impl Send for " + im["self"], "Send requires only %s" % im["preds"])
                seen.add(ty)
            elif im["trait"] == "core::marker::Sync" and not im["neg"]:
                ok = "T: core::marker::Sync" in im["preds"] and ty != "NonNull4"
                c.expect("impl predicate", ok, "Sync for " + ty, "impl Sync for " + im["self"], "Sync requires only %s" % im["preds"])
            elif ty == "OnceRef" and im["trait"] in ("core::clone::Clone", "core::marker::Copy", "alloc::borrow::ToOwned"):
                c.bad("impl predicate", im["trait"] + " for OnceRef", "impl for " + im["self"], "the single-owner wrapper can be duplicated")
    for it in items(f, "Struct"):
        if it["path"] in ("osi::ptr::Ptr", "osi::ptr::OnceRef"):
            c.expect("variance", it["variances"][0] == "+" and it["variances"][1] == "o", it["path"], where(it),
                     "variance of (lifetime, pointee) is %s, expected covariant and invariant" % it["variances"])
            for fl in it.get("fields", []):
                c.expect("no public field", not fl[5], it["path"] + "." + fl[0], where(it), "raw field is public")
        if it["path"] == "osi::marker::PhantomInvariant" or it["path"] == "osi::marker::PhantomInvariantLifetime":
            c.expect("variance", it["variances"] == ["o"], it["path"], where(it), "invariance marker has variance %s" % it["variances"])
    c.floor("variance", 4)
    c.floor("witness", 60)


@check("C25", "The compiler expands the cascade macro for every truth assignment of up to six predicates, with and without a "
              "final block; the set of surviving blocks in the expanded program must be exactly the selected one.")
def c25(c):
    mods, exp = [], {}

    def pred(v, k):
        t = ["all()", "not(any())", "any(all(), any())", "vp_on", "vp_kv = \"x\"", "all(vp_on, not(vp_off))"]
        f = ["any()", "not(all())", "all(all(), any())", "vp_off", "vp_kv = \"y\"", "all(vp_on, vp_off)"]
        return (t if v else f)[k % 6]
    n_mod = 0
    for n in range(1, 7):
        for els in (False, True):
            for asg in itertools.product((False, True), repeat=n):
                for shape in ((0,) if n > 3 else (0, 1, 2, 3)):
                    n_mod += 1
                    m = "m%d" % n_mod
                    blocks = []
                    for i, v in enumerate(asg):
                        blocks.append("(%s) { pub const B%d: u8 = 0; pub struct S%d; }," % (pred(v, shape + i * (shape % 2)), i, i))
                    if els:
                        blocks.append("{ pub const BE: u8 = 0; pub struct SE; },")
                    mods.append("pub mod %s { osi::cfg::cond! { %s } }" % (m, " ".join(blocks)))
                    sel = next((str(i) for i, v in enumerate(asg) if v), "E" if els else None)
                    exp[m] = (sel, "%s%s" % (["FT"[v] for v in asg], " else" if els else ""))
    # statement position, as used by the library itself
    for n in range(1, 5):
        for els in (False, True):
            for asg in itertools.product((False, True), repeat=n):
                n_mod += 1
                m = "m%d" % n_mod
                blocks = ["(%s) { let b%d = S%d; }," % (pred(v, i), i, i) for i, v in enumerate(asg)]
                if els:
                    blocks.append("{ let be = SE; },")
                mods.append("pub mod %s { struct S; pub fn f() { %s osi::cfg::cond! { %s } } }" % (
                    m, "struct S0; struct S1; struct S2; struct S3; struct SE;", " ".join(blocks)))
                sel = next((str(i) for i, v in enumerate(asg) if v), "E" if els else None)
                exp[m] = (sel, "stmt %s%s" % (["FT"[v] for v in asg], " else" if els else ""))
    ok, out, err = witness.expand("#![allow(unused)]\n" + "\n".join(mods), ["--cfg", "vp_on", "--cfg", 'vp_kv="x"'])
    c.saw("truth assignments", len(exp))
    if not ok:
        c.bad("cascade", "does not expand", "osi::cfg::cond!", err[:500])
        return
    parts = re.split(r"pub mod (m\d+) \{", out)
    for i in range(1, len(parts), 2):
        m, body = parts[i], parts[i + 1]
        sel, desc = exp[m]
        if desc.startswith("stmt"):
            hit = [h.upper() if h == "e" else h for h in re.findall(r"let b(\w) =", body)]
        else:
            hit = re.findall(r"pub const B(\w):", body)
            st = re.findall(r"pub struct S(\w);", body)
            if hit != st:
                hit = hit + st
        c.expect("cascade", hit == ([sel] if sel else []), desc, "osi::cfg::cond!",
                 "predicates %s expand blocks %s instead of %s" % (desc, hit, sel))
    c.floor("cascade", len(exp))


UNSAFE_FNS = """
osi::compat::OsStr::from_encoded_bytes_unchecked
osi::convert::FromDeref::from_deref osi::convert::FromDeref::pin_from_deref
osi::ffi::pointer::NativeAddress::from_usize_unchecked osi::ffi::pointer::NativeAddress::as_ref osi::ffi::pointer::NativeAddress::as_mut
osi::ffi::pointer::Pointer::from_usize_unchecked osi::ffi::pointer::Pointer::as_ref osi::ffi::pointer::Pointer::as_mut
osi::marker::phantom_unsafe
osi::mem::transmute_copy_uninit osi::mem::bswap_copy osi::mem::assume_init osi::mem::assume_init_mut
osi::mem::slice_assume_init osi::mem::slice_assume_init_mut osi::mem::as_bytes osi::mem::as_bytes_mut osi::mem::eq
osi::pin::as_inner osi::pin::map_unchecked
osi::ptr::Ptr::new osi::ptr::Ptr::from_ptr osi::ptr::Ptr::into_ref osi::ptr::Ptr::into_mut osi::ptr::Ptr::as_ref osi::ptr::Ptr::as_mut
osi::ptr::NonNull4::new_unchecked osi::ptr::NonNull4::set_ptr_unchecked
osi::ptr::OnceRef::from_nonnull osi::ptr::OnceRef::from_ptr osi::ptr::OnceRef::into_mut osi::ptr::OnceRef::as_mut
tmp::fmt::dbus::element::Element::from_id
tmp::io::map::Write::commit tmp::io::stream::Write::commit tmp::io::stream::Write::map_unchecked
""".split()
UNSAFE_TRAITS = "osi::align::Aligned osi::convert::IntoDeref osi::convert::FromDeref osi::ffi::NativeEndian osi::meta::Field".split()
# types whose invariant is relied upon by unsafe code
GUARDED = ("osi::ptr::Ptr", "osi::ptr::OnceRef", "osi::ptr::NonNull4", "osi::compat::OsStr", "osi::ffi::Pointer",
           "tmp::fmt::dbus::Element", "tmp::fmt::dbus::Sig", "osi::brand::Id", "osi::brand::Unique")


@check("C19", "Every operation with caller obligations is declared unsafe in the type-checked program; calling one without an "
              "unsafe block is rejected (witnesses with twins); no safe public signature or trait impl turns raw pointers, "
              "wrapped addresses or uninitialised memory into references, and guarded types expose no field.")
def c19(c):
    for cfg in ("std", "host"):
        f = extract.facts(cfg)
        fns = {}
        for it in items(f):
            fns.setdefault(it["path"], it)
            if it.get("def"):
                fns.setdefault(it["def"], it)
        for p in UNSAFE_FNS:
            it = fns.get(p)
            c.saw("public operations with obligations")
            if it is None:
                c.bad("declared unsafe", p, p, "public operation not found (anchor lost)")
            else:
                c.expect("declared unsafe", bool(it.get("unsafe")), p, where(it), "operation relies on a caller promise but is callable from safe code: %s" % it.get("sig"))
        for p in UNSAFE_TRAITS:
            it = fns.get(p)
            if it is None:
                c.bad("unsafe trait", p, p, "public trait not found (anchor lost)")
            else:
                c.expect("unsafe trait", bool(it.get("unsafe")), p, where(it), "trait whose implementations are trusted by unsafe code is safe to implement")
        # every safe public signature
        for it in items(f):
            sig = it.get("sig")
            if it["kind"] == "Struct" and it["path"] in GUARDED:
                for fl in it.get("fields", []):
                    c.expect("guarded field", not fl[5], it["path"] + "." + fl[0], where(it), "field of a guarded type is public")
            if not sig or it.get("unsafe"):
                continue
            c.saw("safe public functions")
            ins, _, out = sig.rpartition("->")
            key = it["path"]
            raw = re.search(r"\*const |\*mut |core::ptr::NonNull<|osi::ptr::Ptr<|osi::ptr::NonNull4<|osi::ffi::Pointer<", ins)
            if raw and "::address" not in key and re.search(r"&|osi::ptr::OnceRef<|Box<|Rc<|Arc<", out):
                c.bad("safe signature", key, where(it), "safe function turns a raw address into a reference or owner: " + sig)
                continue
            if raw and re.search(r"osi::ptr::Ptr<", out) and not re.search(r"osi::ptr::Ptr<", ins):
                c.bad("safe signature", key, where(it), "safe function wraps a raw address: " + sig)
                continue
            if raw and re.search(r"osi::ptr::NonNull4<", out) and "Option" not in out and "Result" not in out and "NonNull4" not in ins:
                c.bad("safe signature", key, where(it), "safe function skips the alignment check: " + sig)
                continue
            m = re.search(r"MaybeUninit<(\w+)>", ins)
            if m and not re.search(r"MaybeUninit", out) and re.search(r"&('\w+ )?(mut )?\[?%s\b|^ ?%s$" % (m.group(1), m.group(1)), out):
                c.bad("safe signature", key, where(it), "safe function presumes initialisation: " + sig)
                continue
            if "OnceRef<" in ins and "&'a mut" in out.replace("&'b mut", "&'a mut") and "OnceRef" in key:
                c.bad("safe signature", key, where(it), "safe function hands out a mutable reference: " + sig)
                continue
            if "[u8]" in ins and "osi::compat::OsStr" in out and "Result<" not in out and "Option<" not in out:
                c.bad("safe signature", key, where(it), "safe function accepts unvalidated encoded bytes: " + sig)
                continue
            if "Pin<T>" in ins and re.search(r"(&('\w+ )?mut |^ )T$", out):
                c.bad("safe signature", key, where(it), "safe function removes the pin: " + sig)
                continue
            c.ok("safe signature", key)
        for im in impls(f):
            if im["neg"]:
                continue
            t = im["trait"].split("::")[-1]
            s = im["self"]
            bad = None
            if t in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "Index", "IndexMut"):
                if s.startswith(("osi::ptr::Ptr<", "osi::ptr::NonNull4<", "osi::ffi::Pointer<", "osi::ffi::Packed<")):
                    bad = "safe trait dereferences a wrapped raw pointer or unaligned field"
                if s.startswith("osi::ptr::OnceRef<") and t in ("DerefMut", "AsMut", "BorrowMut", "IndexMut"):
                    bad = "safe trait hands out mutable access through a shared wrapper"
            elif t in ("From", "TryFrom", "Into", "FromStr"):
                arg = re.search(r"<(.*)> ?>$", im["ref"]) and im["ref"].rsplit("From<", 1)[-1]
                if s.startswith(("osi::ptr::Ptr<", "osi::ptr::OnceRef<")) and re.match(r"\*|core::ptr::NonNull|usize|osi::ptr::Ptr", arg or ""):
                    bad = "safe conversion wraps a raw address"
                if s.startswith("core::ptr::") or s.startswith("*"):
                    bad = None
                if s.startswith("&") and re.search(r"osi::ptr::Ptr<|NonNull4<|osi::ffi::Pointer<", im["ref"]):
                    bad = "safe conversion dereferences a wrapped raw pointer"
                if "osi::compat::OsStr" in s and "[u8]" in im["ref"]:
                    bad = "safe conversion accepts unvalidated encoded bytes"
                if s == "tmp::fmt::dbus::Element" and arg and arg.startswith("u8") and t == "From":
                    bad = "safe infallible conversion bypasses validation"
            if t in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "From", "TryFrom", "Index", "IndexMut"):
                c.expect("safe impl", bad is None, im["ref"], "impl " + im["ref"], bad or "")
    U = ("E0133",)

    def w(name, where_, head, call):
        return (name, where_, "%s { %s }" % (head, call), "%s { unsafe { %s } }" % (head, call), U)
    W = [
        w("Ptr::new", "osi::ptr::Ptr::new", "fn f<'a>(p: NonNull<u8>) -> ptr::Ptr<'a, u8>", "ptr::Ptr::new(p)"),
        w("Ptr::from_ptr", "osi::ptr::Ptr::from_ptr", "fn f<'a>(p: *mut u8) -> ptr::Ptr<'a, u8>", "ptr::Ptr::from_ptr(p)"),
        w("Ptr::into_ref", "osi::ptr::Ptr::into_ref", "fn f<'a>(p: ptr::Ptr<'a, u8>) -> &'a u8", "p.into_ref()"),
        w("Ptr::into_mut", "osi::ptr::Ptr::into_mut", "fn f<'a>(p: ptr::Ptr<'a, u8>) -> &'a mut u8", "p.into_mut()"),
        w("Ptr::as_ref", "osi::ptr::Ptr::as_ref", "fn f<'b>(p: &'b ptr::Ptr<'_, u8>) -> &'b u8", "p.as_ref()"),
        w("Ptr::as_mut", "osi::ptr::Ptr::as_mut", "fn f<'b>(p: &'b mut ptr::Ptr<'_, u8>) -> &'b mut u8", "p.as_mut()"),
        w("OnceRef::from_nonnull", "osi::ptr::OnceRef::from_nonnull", "fn f<'a>(p: NonNull<u8>) -> ptr::OnceRef<'a, u8>", "ptr::OnceRef::from_nonnull(p)"),
        w("OnceRef::from_ptr", "osi::ptr::OnceRef::from_ptr", "fn f<'a>(p: *mut u8) -> ptr::OnceRef<'a, u8>", "ptr::OnceRef::from_ptr(p)"),
        w("OnceRef::into_mut", "osi::ptr::OnceRef::into_mut", "fn f<'a>(p: ptr::OnceRef<'a, u8>) -> &'a mut u8", "p.into_mut()"),
        w("OnceRef::as_mut", "osi::ptr::OnceRef::as_mut", "fn f<'b>(p: &'b mut ptr::OnceRef<'_, u8>) -> &'b mut u8", "p.as_mut()"),
        w("NonNull4::new_unchecked", "osi::ptr::NonNull4::new_unchecked", "fn f(p: NonNull<u32>) -> ptr::NonNull4<u32>", "ptr::NonNull4::new_unchecked(p)"),
        w("NonNull4::set_ptr_unchecked", "osi::ptr::NonNull4::set_ptr_unchecked", "fn f(p: NonNull<u32>, v: &mut ptr::NonNull4<u32>)", "v.set_ptr_unchecked(p)"),
        w("mem::assume_init", "osi::mem::assume_init", "fn f(p: &MaybeUninit<u32>) -> &u32", "mem::assume_init(p)"),
        w("mem::assume_init_mut", "osi::mem::assume_init_mut", "fn f(p: &mut MaybeUninit<u32>) -> &mut u32", "mem::assume_init_mut(p)"),
        w("mem::slice_assume_init", "osi::mem::slice_assume_init", "fn f(p: &[MaybeUninit<u32>]) -> &[u32]", "mem::slice_assume_init(p)"),
        w("mem::slice_assume_init_mut", "osi::mem::slice_assume_init_mut", "fn f(p: &mut [MaybeUninit<u32>]) -> &mut [u32]", "mem::slice_assume_init_mut(p)"),
        w("mem::as_bytes", "osi::mem::as_bytes", "fn f(p: &u32) -> &[u8]", "mem::as_bytes(p)"),
        w("mem::as_bytes_mut", "osi::mem::as_bytes_mut", "fn f(p: &mut u32) -> &mut [u8]", "mem::as_bytes_mut(p)"),
        w("mem::eq", "osi::mem::eq", "fn f(p: &u32) -> bool", "mem::eq(p, p)"),
        w("mem::bswap_copy", "osi::mem::bswap_copy", "fn f(p: &u32) -> u32", "mem::bswap_copy(p)"),
        w("mem::transmute_copy_uninit", "osi::mem::transmute_copy_uninit", "fn f(p: &u32) -> [u8; 4]", "mem::transmute_copy_uninit(p)"),
        w("pin::as_inner", "osi::pin::as_inner", "fn f<'b>(p: &'b core::pin::Pin<&'b mut u32>) -> &'b &'b mut u32", "pin::as_inner(p)"),
        w("pin::map_unchecked", "osi::pin::map_unchecked", "fn f<'b>(p: core::pin::Pin<&'b mut u32>) -> core::pin::Pin<&'b u32>", "pin::map_unchecked(p, |v: &'b mut u32| -> &'b u32 { v })"),
        w("OsStr::from_encoded_bytes_unchecked", "osi::compat::OsStr", "fn f<'b>(p: &'b [u8]) -> &'b compat::OsStr", "compat::OsStr::from_encoded_bytes_unchecked(p)"),
        w("FromDeref::from_deref", "osi::convert::FromDeref", "fn f<'b>(p: ptr::OnceRef<'b, u8>) -> &'b u8", "convert::FromDeref::from_deref(p)"),
        w("FromDeref::pin_from_deref", "osi::convert::FromDeref", "fn f<'b>(p: core::pin::Pin<ptr::OnceRef<'b, u8>>) -> core::pin::Pin<&'b u8>", "convert::FromDeref::pin_from_deref(p)"),
        w("phantom_unsafe", "osi::marker::phantom_unsafe", "fn f()", "marker::phantom_unsafe()"),
        w("polonius::coerce_unsafe!", "osi::polonius::coerce_unsafe!", "fn f<'a, 'b>(v: &'a u8) -> &'b u8", "polonius::coerce_unsafe!(&'a u8, &'b u8, v)"),
        w("Pointer::as_ref", "osi::ffi::Pointer::as_ref", "fn f<'a>(v: &ffi::Pointer<core::num::NonZeroUsize, u8>) -> &'a u8", "v.as_ref()"),
        w("Pointer::as_mut", "osi::ffi::Pointer::as_mut", "fn f<'a>(v: &ffi::Pointer<core::num::NonZeroUsize, u8>) -> &'a mut u8", "v.as_mut()"),
        w("Pointer::from_usize_unchecked", "osi::ffi::Pointer", "fn f(v: usize) -> ffi::Pointer<core::num::NonZeroUsize, u8>", "ffi::Pointer::from_usize_unchecked(v)"),
        w("dbus Element::from_id", "tmp::fmt::dbus::Element", "fn f(v: u8) -> tmp::fmt::dbus::Element", "tmp::fmt::dbus::Element::from_id(v)"),
        w("io::map Write::commit", "tmp::io::map::Write", "fn f<W: tmp::io::map::Write + ?Sized>(w: &mut W)", "w.commit(4)"),
        w("io::stream Write::commit", "tmp::io::stream::Write", "fn f<W: tmp::io::stream::Write + ?Sized>(w: &mut W)", "w.commit(4)"),
        w("io::stream Write::map_unchecked", "tmp::io::stream::Write", "fn f<W: tmp::io::stream::Write + ?Sized>(w: &mut W)", "w.map_unchecked(4);"),
    ]
    for tr, body in (("align::Aligned", "type Align = align::Align1;"), ("meta::Field<0, u8>", "")):
        W.append((tr + " needs unsafe impl", "osi::" + tr, "struct X(u8); impl osi::%s for X { %s }" % (tr, body), None, ("E0200", "E0046")))
    W += [
        ("packed field reference", "osi::ffi::Packed", "fn f(p: &ffi::Packed<u64>) -> &u64 { &p.0 }", "fn f(p: &ffi::Packed<u64>) -> u64 { p.get() }", ("E0616", "E0793")),
        ("OsStr from arbitrary bytes", "osi::compat::OsStr", "fn f(p: &[u8]) -> &compat::OsStr { p.into() }", "fn f(p: &str) -> &compat::OsStr { p.into() }", ("E0277",)),
        ("dereferencing a Ptr", "osi::ptr::Ptr", "fn f(p: ptr::Ptr<'_, u8>) -> u8 { *p }", "fn f(p: ptr::OnceRef<'_, u8>) -> u8 { *p }", ("E0614",)),
        ("dereferencing a Pointer", "osi::ffi::Pointer", "fn f(p: ffi::Pointer<core::num::NonZeroUsize, u8>) -> u8 { *p }", None, ("E0614",)),
        ("dereferencing a NonNull4", "osi::ptr::NonNull4", "fn f(p: ptr::NonNull4<u32>) -> u32 { *p }", None, ("E0614",)),
        ("mutating through OnceRef", "osi::ptr::OnceRef", "fn f(mut p: ptr::OnceRef<'_, u8>) { *p = 1; }", None, ("E0594", "E0596")),
    ]
    witness.run(c, "witness", W)
    c.floor("witness", 70)
    c.floor("safe signature", 200)
