//! Public surface of the analysed crates: paths, signatures, safety, layouts,
//! constant values and trait implementations, as seen through the crate metadata.
use crate::json::{a, i, s, J};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CrateNum, DefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::ConstValue;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashSet;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    items: Vec<J>,
    seen: HashSet<(DefId, String)>,
    adts: HashSet<DefId>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }

    fn span(&self, d: DefId) -> J {
        let sp = self.tcx.def_span(d);
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        a(vec![
            s(format!("{}", loc.file.name.prefer_local_unconditionally())),
            i(loc.line),
        ])
    }

    fn is_mono(&self, d: DefId) -> bool {
        !self.tcx.generics_of(d).requires_monomorphization(self.tcx)
    }

    fn layout(&self, t: Ty<'tcx>) -> Option<J> {
        let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        Some(a(vec![
            i(l.size.bytes() as usize),
            i(l.align.abi.bytes() as usize),
        ]))
    }

    // Expand the fields of a (possibly nested) type: [name, type, offset, size]
    fn fields(&self, t: Ty<'tcx>) -> J {
        let mut v = vec![];
        if let ty::Adt(def, args) = t.kind() {
            if !def.is_enum() {
                if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                    for (ix, f) in def.non_enum_variant().fields.iter().enumerate() {
                        let ft = self
                            .tcx
                            .normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                        let off = l.fields.offset(ix).bytes() as usize;
                        let fl = self.tcx.layout_of(self.env.as_query_input(ft)).ok();
                        v.push(a(vec![
                            s(f.name),
                            s(self.tystr(ft)),
                            i(off),
                            fl.map(|x| i(x.size.bytes() as usize)).unwrap_or(J::Null),
                            fl.map(|x| i(x.align.abi.bytes() as usize)).unwrap_or(J::Null),
                            J::B(self.tcx.visibility(f.did).is_public()),
                        ]));
                    }
                }
            }
        }
        a(v)
    }

    fn const_val(&self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(Scalar::Int(x)) => J::O(vec![
                ("int", s(x.to_bits_unchecked())),
                ("size", i(x.size().bytes() as usize)),
                ("ty", s(self.tystr(t))),
            ]),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                // reference to memory
                let (prov, off) = p.prov_and_relative_offset();
                self.mem(prov.alloc_id(), off.bytes() as usize, None, t)
            }
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true)), ("ty", s(self.tystr(t)))]),
            ConstValue::Slice { alloc_id, meta } => self.mem(alloc_id, 0, Some(meta as usize), t),
            ConstValue::Indirect { alloc_id, offset } => {
                self.mem(alloc_id, offset.bytes() as usize, None, t)
            }
        }
    }

    fn mem(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: usize,
        len: Option<usize>,
        t: Ty<'tcx>,
    ) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(al) => {
                let al = al.inner();
                let n = al.len();
                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off..n);
                J::O(vec![
                    ("mem", s(hex(b))),
                    ("len", len.map(i).unwrap_or(J::Null)),
                    ("ptrs", i(al.provenance().ptrs().len())),
                    ("ty", s(self.tystr(t))),
                ])
            }
            _ => J::O(vec![("opaque", J::B(true)), ("ty", s(self.tystr(t)))]),
        }
    }

    fn preds(&self, d: DefId) -> J {
        let p = self.tcx.clauses_of(d);
        let v = p
            .clauses
            .iter()
            .map(|(c, _)| s(with_no_trimmed_paths!(c.to_string())))
            .collect();
        a(v)
    }

    fn item(&mut self, d: DefId, kind: DefKind, path: &str) {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(path)),
            ("def", s(self.path(d))),
            ("kind", s(format!("{kind:?}"))),
            ("span", self.span(d)),
        ];
        match kind {
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", s(self.tystr(t))));
                if self.is_mono(d) {
                    match tcx.const_eval_poly(d) {
                        Ok(v) => o.push(("val", self.const_val(v, t))),
                        Err(_) => o.push(("val", J::Null)),
                    }
                }
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", s(self.tystr(t))));
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                o.push(("sig", s(with_no_trimmed_paths!(sig.to_string()))));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                o.push(("const", J::B(tcx.is_const_fn(d))));
                o.push(("generics", i(tcx.generics_of(d).count())));
                o.push(("preds", self.preds(d)));
            }
            DefKind::TyAlias | DefKind::AssocTy => {
                if self.is_mono(d) && matches!(kind, DefKind::TyAlias) {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(t));
                    o.push(("ty", s(self.tystr(t))));
                    if let Some(l) = self.layout(t) {
                        o.push(("layout", l));
                        o.push(("fields", self.fields(t)));
                    }
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let r = def.repr();
                o.push(("repr_c", J::B(r.c())));
                o.push(("repr_transparent", J::B(r.transparent())));
                o.push(("repr_packed", J::B(r.packed())));
                o.push((
                    "variances",
                    a(tcx
                        .variances_of(d)
                        .iter()
                        .map(|v| s(format!("{v:?}")))
                        .collect()),
                ));
                let mut vs = vec![];
                for v in def.variants() {
                    let fs = v
                        .fields
                        .iter()
                        .map(|f| {
                            a(vec![
                                s(f.name),
                                s(self.tystr(
                                    tcx.type_of(f.did).instantiate_identity().skip_norm_wip(),
                                )),
                                J::B(tcx.visibility(f.did).is_public()),
                            ])
                        })
                        .collect();
                    vs.push(a(vec![s(v.name), a(fs)]));
                }
                o.push(("vars", a(vs)));
                if def.is_enum() && self.is_mono(d) {
                    o.push((
                        "discrs",
                        a(def
                            .discriminants(tcx)
                            .map(|(_, x)| s(x.val.to_string()))
                            .collect()),
                    ));
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("drop", J::B(t.needs_drop(tcx, ty::TypingEnv::post_analysis(tcx, d)))));
                if self.is_mono(d) {
                    if let Some(l) = self.layout(t) {
                        o.push(("layout", l));
                        o.push(("fields", self.fields(t)));
                    }
                }
                if self.adts.insert(d) {
                    for im in tcx.inherent_impls(d) {
                        self.impl_items(*im, path);
                    }
                }
            }
            DefKind::Trait => {
                o.push(("unsafe", J::B(!tcx.trait_def(d).safety.is_safe())));
                let base = path.to_string();
                for it in tcx.associated_items(d).in_definition_order() {
                    let p = format!("{base}::{}", it.name());
                    self.item(it.def_id, tcx.def_kind(it.def_id), &p);
                }
            }
            _ => {}
        }
        self.items.push(J::O(o));
    }

    fn impl_items(&mut self, im: DefId, path: &str) {
        let tcx = self.tcx;
        let st = self.tystr(tcx.type_of(im).instantiate_identity().skip_norm_wip());
        for it in tcx.associated_items(im).in_definition_order() {
            if !tcx.visibility(it.def_id).is_public() {
                continue;
            }
            let p = format!("{path}::{}", it.name());
            let _ = &st;
            self.item(it.def_id, tcx.def_kind(it.def_id), &p);
        }
    }

    fn module(&mut self, m: DefId, path: &str, depth: usize) {
        if depth > 12 {
            return;
        }
        let tcx = self.tcx;
        for c in tcx.module_children(m).iter() {
            if !c.vis.is_public() {
                continue;
            }
            if let Res::Def(kind, d) = c.res {
                let p = format!("{path}::{}", c.ident);
                if !self.seen.insert((d, p.clone())) {
                    continue;
                }
                let local = ["osi", "sys", "tmp"]
                    .contains(&tcx.crate_name(d.krate).as_str());
                if kind == DefKind::Mod {
                    if local {
                        self.items.push(J::O(vec![
                            ("path", s(&p)),
                            ("def", s(self.path(d))),
                            ("kind", s("Mod")),
                        ]));
                        self.module(d, &p, depth + 1);
                    }
                    continue;
                }
                if !local && !matches!(kind, DefKind::TyAlias) {
                    self.items.push(J::O(vec![
                        ("path", s(&p)),
                        ("def", s(self.path(d))),
                        ("kind", s(format!("{kind:?}"))),
                        ("foreign", J::B(true)),
                    ]));
                    continue;
                }
                self.item(d, kind, &p);
            }
        }
    }

    fn impls(&mut self, k: CrateNum) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for im in tcx.trait_impls_in_crate(k) {
            let h = tcx.impl_trait_header(*im);
            let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
            let mut its = vec![];
            for it in tcx.associated_items(*im).in_definition_order() {
                let mut val = J::Null;
                if matches!(it.kind, ty::AssocKind::Const { .. }) && self.is_mono(it.def_id) {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    if let Ok(cv) = tcx.const_eval_poly(it.def_id) {
                        val = self.const_val(cv, t);
                    }
                }
                if matches!(it.kind, ty::AssocKind::Type { .. }) {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    val = s(self.tystr(t));
                }
                its.push(a(vec![s(it.name()), s(self.path(it.def_id)), val]));
            }
            v.push(J::O(vec![
                ("trait", s(self.path(tr.def_id))),
                ("ref", s(with_no_trimmed_paths!(tr.to_string()))),
                ("self", s(self.tystr(tr.self_ty()))),
                ("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))),
                ("unsafe", J::B(!h.safety.is_safe())),
                ("derived", J::B(tcx.is_automatically_derived(*im))),
                ("preds", self.preds(*im)),
                ("items", a(its)),
                ("span", self.span(*im)),
            ]));
        }
        a(v)
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut o = vec![];
    for k in tcx.crates(()).iter().copied() {
        let n = tcx.crate_name(k).to_string();
        if !["osi", "sys", "tmp"].contains(&n.as_str()) {
            continue;
        }
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            items: vec![],
            seen: HashSet::new(),
            adts: HashSet::new(),
        };
        cx.module(k.as_def_id(), &n, 0);
        let im = cx.impls(k);
        let items = std::mem::take(&mut cx.items);
        o.push(J::O(vec![
            ("crate", s(&n)),
            ("items", a(items)),
            ("impls", im),
        ]));
    }
    let mut b = String::new();
    J::O(vec![("crates", a(o))]).write(&mut b);
    std::fs::write(format!("{out}/facts.json"), b).unwrap();
}
