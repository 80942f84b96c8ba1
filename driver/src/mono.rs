use crate::json::{a, i, s, J};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, LayoutShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap};

#[derive(Default)]
pub struct Cx {
    types: Vec<J>,
    type_ix: HashMap<Ty, usize>,
    fns: Vec<J>,
    fn_ix: HashMap<Instance, usize>,
    fn_todo: Vec<Instance>,
    allocs: Vec<J>,
    alloc_ix: HashMap<AllocId, usize>,
    static_ix: HashMap<String, usize>,
    files: Vec<String>,
    file_ix: HashMap<String, usize>,
}

fn scalar(v: &Scalar) -> J {
    let (p, r) = match v {
        Scalar::Initialized { value, valid_range } => (
            value,
            a(vec![
                J::S(valid_range.start.to_string()),
                J::S(valid_range.end.to_string()),
            ]),
        ),
        Scalar::Union { value } => (value, J::Null),
    };
    let (k, bits) = match p {
        Primitive::Int { length, signed } => {
            (if *signed { "i" } else { "u" }, length.bits())
        }
        Primitive::Float { length } => ("f", length.bits()),
        Primitive::Pointer(_) => ("p", 0),
    };
    a(vec![s(k), i(bits), r])
}

pub fn layout_json(l: &LayoutShape) -> J {
    let mut o: Vec<(&'static str, J)> = vec![
        ("size", i(l.size.bytes())),
        ("align", i(l.abi_align as usize)),
    ];
    match &l.fields {
        FieldsShape::Primitive => {}
        FieldsShape::Union(n) => o.push(("union", i(n.get()))),
        FieldsShape::Array { stride, count } => {
            o.push(("array", a(vec![i(stride.bytes()), i(*count as usize)])))
        }
        FieldsShape::Arbitrary { offsets } => o.push((
            "offs",
            a(offsets.iter().map(|v| i(v.bytes())).collect()),
        )),
    }
    match &l.variants {
        VariantsShape::Empty => o.push(("empty", J::B(true))),
        VariantsShape::Single { index } => o.push(("single", i(index.to_index()))),
        VariantsShape::Multiple {
            tag,
            tag_encoding,
            tag_field,
            variants,
        } => {
            o.push(("tag", scalar(tag)));
            o.push(("tag_field", i(*tag_field)));
            o.push((
                "variants",
                a(variants
                    .iter()
                    .map(|v| a(v.offsets.iter().map(|x| i(x.bytes())).collect()))
                    .collect()),
            ));
            match tag_encoding {
                TagEncoding::Direct => o.push(("enc", s("direct"))),
                TagEncoding::Niche {
                    untagged_variant,
                    niche_variants,
                    niche_start,
                } => {
                    o.push(("enc", s("niche")));
                    o.push(("untagged", i(untagged_variant.to_index())));
                    o.push(("nv0", i(niche_variants.start().to_index())));
                    o.push(("nv1", i(niche_variants.end().to_index())));
                    o.push(("nstart", J::S(niche_start.to_string())));
                }
            }
        }
    }
    if let rustc_public::abi::ValueRepr::Scalar(sc) = &l.value_repr {
        o.push(("scalar", scalar(sc)));
    }
    J::O(o)
}

impl Cx {
    fn span(&mut self, sp: Span) -> J {
        let f = sp.get_filename().to_string();
        let l = sp.get_lines().start_line;
        let n = self.files.len();
        let ix = *self.file_ix.entry(f.clone()).or_insert(n);
        if ix == n {
            self.files.push(f);
        }
        a(vec![i(ix), i(l)])
    }

    fn args(&mut self, args: &GenericArgs) -> J {
        let mut v = vec![];
        for g in &args.0 {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(a(vec![s("t"), i(self.ty(*t))])),
                GenericArgKind::Const(c) => v.push(a(vec![
                    s("c"),
                    match c.eval_target_usize() {
                        Ok(n) => J::I(n as i128),
                        Err(_) => s(format!("{c:?}")),
                    },
                ])),
            }
        }
        a(v)
    }

    pub fn ty(&mut self, t: Ty) -> usize {
        if let Some(ix) = self.type_ix.get(&t) {
            return *ix;
        }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, ix);
        let mut o: Vec<(&'static str, J)> = vec![("n", s(format!("{t}")))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(v) => {
                    o.push(("k", s("int")));
                    o.push(("bits", i(v.num_bytes() * 8)));
                    o.push(("signed", J::B(true)));
                }
                RigidTy::Uint(v) => {
                    o.push(("k", s("int")));
                    o.push(("bits", i(v.num_bytes() * 8)));
                    o.push(("signed", J::B(false)));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("path", s(def.name())));
                    o.push((
                        "ak",
                        s(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Union => "union",
                            AdtKind::Struct => "struct",
                        }),
                    ));
                    o.push(("box", J::B(def.is_box())));
                    let ga = self.args(&args);
                    o.push(("args", ga));
                    let isenum = matches!(def.kind(), AdtKind::Enum);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = self.ty(f.ty_with_args(&args));
                            fs.push(a(vec![s(&f.name), i(fty)]));
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name())),
                            (
                                "discr",
                                if isenum {
                                    J::S(def.discriminant_for_variant(v.idx()).val.to_string())
                                } else {
                                    J::Null
                                },
                            ),
                            ("fields", a(fs)),
                        ]));
                    }
                    o.push(("vars", a(vs)));
                }
                RigidTy::Foreign(_) => o.push(("k", s("foreign"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, n) => {
                    o.push(("k", s("array")));
                    let e = self.ty(e);
                    o.push(("elem", i(e)));
                    o.push(("len", J::I(n.eval_target_usize().unwrap_or(0) as i128)));
                }
                RigidTy::Pat(b, _) => {
                    o.push(("k", s("pat")));
                    let b = self.ty(b);
                    o.push(("base", i(b)));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    let e = self.ty(e);
                    o.push(("elem", i(e)));
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("k", s("ptr")));
                    let e = self.ty(e);
                    o.push(("to", i(e)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    let e = self.ty(e);
                    o.push(("to", i(e)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef")));
                    o.push(("path", s(def.name())));
                    if let Ok(inst) = Instance::resolve(def, &args) {
                        let f = self.func(inst);
                        o.push(("fn", i(f)));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure")));
                    o.push(("path", s(def.name())));
                    let mut fs = vec![];
                    if let Some(GenericArgKind::Type(up)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = up.kind() {
                            for x in ts {
                                fs.push(i(self.ty(x)));
                            }
                        }
                    }
                    o.push(("fields", a(fs)));
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Tuple(ts) => {
                    o.push(("k", s("tuple")));
                    let fs = ts.iter().map(|x| i(self.ty(*x))).collect();
                    o.push(("fields", a(fs)));
                }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("nonrigid"))),
        }
        if let Ok(l) = t.layout() {
            o.push(("l", layout_json(&l.shape())));
        }
        self.types[ix] = J::O(o);
        ix
    }

    pub fn func(&mut self, f: Instance) -> usize {
        if let Some(ix) = self.fn_ix.get(&f) {
            return *ix;
        }
        let ix = self.fns.len();
        self.fns.push(J::Null);
        self.fn_ix.insert(f, ix);
        self.fn_todo.push(f);
        ix
    }

    fn static_alloc(&mut self, d: StaticDef) -> usize {
        let name = d.name().to_string();
        if let Some(v) = self.static_ix.get(&name) {
            return *v;
        }
        let ix = self.allocs.len();
        self.allocs.push(J::Null);
        self.static_ix.insert(name.clone(), ix);
        let v = match d.eval_initializer() {
            Ok(al) => {
                let mut m = self.alloc_body(&al);
                m.push(("static", s(name)));
                J::O(m)
            }
            Err(_) => J::O(vec![("static", s(name))]),
        };
        self.allocs[ix] = v;
        ix
    }

    fn alloc_body(&mut self, al: &Allocation) -> Vec<(&'static str, J)> {
        let mut h = String::new();
        for b in &al.bytes {
            match b {
                Some(v) => h.push_str(&format!("{v:02x}")),
                None => h.push_str("__"),
            }
        }
        let mut pv = vec![];
        for (off, p) in &al.provenance.ptrs {
            let x = self.alloc(p.0);
            pv.push(a(vec![i(*off), i(x)]));
        }
        vec![
            ("b", J::S(h)),
            ("p", a(pv)),
            ("align", i(al.align as usize)),
            ("mut", J::B(al.mutability == Mutability::Mut)),
        ]
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(ix) = self.alloc_ix.get(&id) {
            return *ix;
        }
        let g: GlobalAlloc = id.into();
        if let GlobalAlloc::Static(d) = g {
            let ix = self.static_alloc(d);
            self.alloc_ix.insert(id, ix);
            return ix;
        }
        let ix = self.allocs.len();
        self.allocs.push(J::Null);
        self.alloc_ix.insert(id, ix);
        let v = match g {
            GlobalAlloc::Function(f) => J::O(vec![("fn", i(self.func(f)))]),
            GlobalAlloc::VTable(t, ref _tr) => {
                let t = self.ty(t);
                match g.vtable_allocation() {
                    Some(x) => {
                        let x = self.alloc(x);
                        J::O(vec![("vtable", i(t)), ("at", i(x))])
                    }
                    None => J::O(vec![("vtable", i(t))]),
                }
            }
            GlobalAlloc::Static(_) => unreachable!(),
            GlobalAlloc::Memory(al) => J::O(self.alloc_body(&al)),
            GlobalAlloc::TypeId { ty } => J::O(vec![("typeid", i(self.ty(ty)))]),
        };
        self.allocs[ix] = v;
        ix
    }

    fn konst(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(al) => {
                let mut m = self.alloc_body(al);
                m.push(("ty", i(t)));
                J::O(m)
            }
            ConstantKind::ZeroSized => J::O(vec![("ty", i(t)), ("z", J::B(true))]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, al) => {
                    let mut m = self.alloc_body(al);
                    m.push(("ty", i(t)));
                    J::O(m)
                }
                TyConstKind::ZSTValue(_) => J::O(vec![("ty", i(t)), ("z", J::B(true))]),
                _ => J::O(vec![("ty", i(t)), ("unk", s(format!("{tc:?}")))]),
            },
            k => J::O(vec![("ty", i(t)), ("unk", s(format!("{k:?}")))]),
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("d"),
                ProjectionElem::Field(ix, t) => a(vec![s("f"), i(*ix), i(self.ty(*t))]),
                ProjectionElem::Index(l) => a(vec![s("i"), i(*l)]),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => a(vec![
                    s("c"),
                    i(*offset as usize),
                    i(*min_length as usize),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => a(vec![
                    s("s"),
                    i(*from as usize),
                    i(*to as usize),
                    J::B(*from_end),
                ]),
                ProjectionElem::Downcast(v) => a(vec![s("v"), i(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => a(vec![s("o"), i(self.ty(*t))]),
            });
        }
        a(vec![i(p.local), a(v)])
    }

    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => a(vec![s("c"), self.place(p)]),
            Operand::Move(p) => a(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => a(vec![s("k"), self.konst(&c.const_)]),
            Operand::RuntimeChecks(c) => a(vec![s("r"), s(format!("{c:?}"))]),
        }
    }

    fn pointee(t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::RawPtr(e, _)) | TyKind::RigidTy(RigidTy::Ref(_, e, _)) => {
                Some(e)
            }
            TyKind::RigidTy(RigidTy::Pat(b, _)) => Self::pointee(b),
            TyKind::RigidTy(RigidTy::Adt(_, args)) => match args.0.first() {
                Some(GenericArgKind::Type(e)) => Some(*e),
                _ => None,
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(k, p) => a(vec![s("addr"), s(format!("{k:?}")), self.place(p)]),
            Rvalue::Ref(_, k, p) => a(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "Shared",
                    BorrowKind::Fake(_) => "Fake",
                    BorrowKind::Mut { .. } => "Mut",
                }),
                self.place(p),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => a(vec![s("arr"), i(self.ty(*t))]),
                    AggregateKind::Tuple => a(vec![s("tup")]),
                    AggregateKind::Adt(d, v, g, _, f) => a(vec![
                        s("adt"),
                        i(self.ty(d.ty_with_args(g))),
                        i(v.to_index()),
                        match f {
                            Some(x) => i(*x),
                            None => J::Null,
                        },
                    ]),
                    AggregateKind::Closure(d, g) => a(vec![
                        s("clos"),
                        i(self.ty(Ty::new_closure(d.clone(), g.clone()))),
                    ]),
                    AggregateKind::RawPtr(t, _) => a(vec![s("rawptr"), i(self.ty(*t))]),
                    _ => a(vec![s("unsup")]),
                };
                let ops = ops.iter().map(|x| self.op(x)).collect();
                a(vec![s("agg"), kk, a(ops)])
            }
            Rvalue::BinaryOp(o, x, y) => {
                a(vec![s("bin"), s(format!("{o:?}")), self.op(x), self.op(y)])
            }
            Rvalue::CheckedBinaryOp(o, x, y) => {
                a(vec![s("chk"), s(format!("{o:?}")), self.op(x), self.op(y)])
            }
            Rvalue::UnaryOp(o, x) => a(vec![s("un"), s(format!("{o:?}")), self.op(x)]),
            Rvalue::Cast(k, x, t) => {
                let src = x.ty(locals).ok();
                let mut extra = J::Null;
                if let (CastKind::PointerCoercion(pc), Some(src)) = (k, src) {
                    match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, g)) = src.kind() {
                                if let Ok(f) = Instance::resolve_for_fn_ptr(d, &g) {
                                    extra = i(self.func(f));
                                }
                            }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::Closure(d, g)) = src.kind() {
                                if let Ok(f) =
                                    Instance::resolve_closure(d, &g, ClosureKind::FnOnce)
                                {
                                    extra = i(self.func(f));
                                }
                            }
                        }
                        PointerCoercion::Unsize => {
                            if let (Some(sp), Some(dp)) = (Self::pointee(src), Self::pointee(*t)) {
                                if let TyKind::RigidTy(RigidTy::Dynamic(..)) = dp.kind() {
                                    if !matches!(sp.kind(), TyKind::RigidTy(RigidTy::Dynamic(..)))
                                    {
                                        let pr = dp.kind().trait_principal();
                                        let g = GlobalAlloc::VTable(sp, pr);
                                        if let Some(v) = g.vtable_allocation() {
                                            extra = i(self.alloc(v));
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                let st = match src {
                    Some(v) => i(self.ty(v)),
                    None => J::Null,
                };
                let o = self.op(x);
                a(vec![s("cast"), s(format!("{k:?}")), o, i(self.ty(*t)), st, extra])
            }
            Rvalue::CopyForDeref(p) => a(vec![s("use"), a(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => a(vec![s("disc"), self.place(p)]),
            Rvalue::Len(p) => a(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(x, n) => a(vec![
                s("rep"),
                self.op(x),
                J::I(n.eval_target_usize().unwrap_or(0) as i128),
            ]),
            Rvalue::Use(x, _) => a(vec![s("use"), self.op(x)]),
            Rvalue::ThreadLocalRef(_) => a(vec![s("unsup"), s("tls")]),
            Rvalue::Reborrow(t, m, p) => a(vec![
                s("reborrow"),
                i(self.ty(*t)),
                s(format!("{m:?}")),
                self.place(p),
            ]),
        }
    }

    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(*b),
            _ => J::Null,
        }
    }

    fn body(&mut self, b: &Body) -> Vec<(&'static str, J)> {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt = locals.iter().map(|l| i(self.ty(l.ty))).collect();
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r, &locals);
                        let sp = self.span(x.source_info.span);
                        Some(a(vec![s("="), pj, rj, sp]))
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => Some(a(vec![
                        s("sd"),
                        self.place(place),
                        i(variant_index.to_index()),
                    ])),
                    StatementKind::StorageDead(l) => Some(a(vec![s("dead"), i(*l)])),
                    StatementKind::StorageLive(l) => Some(a(vec![s("live"), i(*l)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        Some(a(vec![s("assume"), self.op(o)]))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        Some(a(vec![
                            s("cpy"),
                            self.op(&c.src),
                            self.op(&c.dst),
                            self.op(&c.count),
                        ]))
                    }
                    _ => None,
                };
                if let Some(j) = j {
                    st.push(j);
                }
            }
            let t = &bb.terminator;
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => a(vec![s("goto"), i(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets
                        .branches()
                        .map(|(v, t)| a(vec![J::S(v.to_string()), i(t)]))
                        .collect();
                    let dt = discr.ty(&locals).ok().map(|t| i(self.ty(t))).unwrap_or(J::Null);
                    a(vec![
                        s("sw"),
                        self.op(discr),
                        a(br),
                        i(targets.otherwise()),
                        dt,
                    ])
                }
                TerminatorKind::Resume => a(vec![s("resume")]),
                TerminatorKind::Abort => a(vec![s("abort")]),
                TerminatorKind::Return => a(vec![s("ret")]),
                TerminatorKind::Unreachable => a(vec![s("unreach")]),
                TerminatorKind::Drop {
                    place,
                    target,
                    unwind,
                } => {
                    let t = place.ty(&locals).unwrap();
                    let inst = Instance::resolve_drop_in_place(t);
                    let f = if inst.is_empty_shim() {
                        J::Null
                    } else {
                        i(self.func(inst))
                    };
                    a(vec![
                        s("drop"),
                        self.place(place),
                        i(*target),
                        f,
                        Self::unwind(unwind),
                    ])
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    unwind,
                } => {
                    let mut f = J::Null;
                    if let Ok(ft) = func.ty(&locals) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, g)) = ft.kind() {
                            match Instance::resolve(d, &g) {
                                Ok(inst) => f = i(self.func(inst)),
                                Err(_) => f = s(d.name()),
                            }
                        }
                    }
                    let fo = if matches!(f, J::Null) {
                        self.op(func)
                    } else {
                        J::Null
                    };
                    let ar = args.iter().map(|x| self.op(x)).collect();
                    a(vec![
                        s("call"),
                        f,
                        fo,
                        a(ar),
                        self.place(destination),
                        match target {
                            Some(t) => i(*t),
                            None => J::Null,
                        },
                        Self::unwind(unwind),
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    unwind,
                } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            a(vec![s("bounds"), self.op(len), self.op(index)])
                        }
                        AssertMessage::Overflow(o, _, _) => {
                            a(vec![s("overflow"), s(format!("{o:?}"))])
                        }
                        AssertMessage::OverflowNeg(_) => a(vec![s("overflow"), s("Neg")]),
                        AssertMessage::DivisionByZero(_) => a(vec![s("div0")]),
                        AssertMessage::RemainderByZero(_) => a(vec![s("rem0")]),
                        m => a(vec![s("other"), s(format!("{m:?}"))]),
                    };
                    a(vec![
                        s("assert"),
                        self.op(cond),
                        J::B(*expected),
                        m,
                        i(*target),
                        Self::unwind(unwind),
                    ])
                }
                TerminatorKind::InlineAsm { .. } => a(vec![s("asm")]),
            };
            let sp = self.span(t.source_info.span);
            bbs.push(a(vec![a(st), tj, sp]));
        }
        vec![
            ("locals", a(lt)),
            ("argc", i(b.arg_locals().len())),
            (
                "spread",
                match b.spread_arg() {
                    Some(x) => i(x),
                    None => J::Null,
                },
            ),
            ("bbs", a(bbs)),
        ]
    }

    fn emit_fn(&mut self, f: Instance) -> J {
        let krate = f.def.krate().name.to_string();
        let mut o: Vec<(&'static str, J)> = vec![
            ("n", s(f.name())),
            ("path", s(f.def.name())),
            ("crate", s(&krate)),
        ];
        let ga = self.args(&f.args());
        o.push(("args", ga));
        let kind = match f.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { idx } => {
                o.push(("vidx", i(idx)));
                "virtual"
            }
            InstanceKind::Shim => "shim",
        };
        o.push(("kind", s(kind)));
        if f.is_foreign_item() {
            o.push(("foreign", J::B(true)));
        }
        if kind == "intrinsic" {
            o.push(("intr", s(f.intrinsic_name().unwrap())));
        }
        if f.requires_caller_location() {
            o.push(("track", J::B(true)));
        }
        let sp = self.span(f.def.span());
        o.push(("span", sp));
        let ft = f.ty();
        if let Some(sig) = ft.kind().fn_sig() {
            let sig = sig.skip_binder();
            o.push(("unsafe", J::B(matches!(sig.safety, Safety::Unsafe))));
        }
        if kind != "virtual" && kind != "intrinsic" || (kind == "intrinsic" && f.has_body()) {
            if f.has_body() || kind == "shim" {
                if let Some(b) = f.body() {
                    o.extend(self.body(&b));
                }
            }
        }
        J::O(o)
    }

    fn run(&mut self, roots: &[Instance]) {
        for r in roots {
            self.func(*r);
        }
        while let Some(f) = self.fn_todo.pop() {
            let ix = self.fn_ix[&f];
            let j = self.emit_fn(f);
            self.fns[ix] = j;
        }
    }
}

pub fn dump(_tcx: TyCtxt<'_>, out: &str) {
    let mut groups: BTreeMap<String, Vec<Instance>> = BTreeMap::new();
    for it in rustc_public::all_local_items() {
        if it.kind() != rustc_public::ItemKind::Fn || it.requires_monomorphization() {
            continue;
        }
        let name = it.name().to_string();
        // vpharness::<group>::root_<name>
        let segs: Vec<&str> = name.split("::").collect();
        let n = segs.len();
        if n < 2 || !segs[n - 1].starts_with("r_") {
            continue;
        }
        let g = if n >= 3 { segs[1] } else { "main" };
        if let Ok(inst) = Instance::try_from(it) {
            groups.entry(g.to_string()).or_default().push(inst);
        }
    }
    let only = std::env::var("VP_GROUPS").ok();
    for (g, roots) in groups {
        if let Some(o) = &only {
            if !o.split(',').any(|x| x == g) {
                continue;
            }
        }
        let mut cx = Cx::default();
        cx.run(&roots);
        let rj = roots
            .iter()
            .map(|r| a(vec![s(r.def.name()), i(cx.fn_ix[r])]))
            .collect();
        let j = J::O(vec![
            ("roots", a(rj)),
            ("types", a(std::mem::take(&mut cx.types))),
            ("fns", a(std::mem::take(&mut cx.fns))),
            ("allocs", a(std::mem::take(&mut cx.allocs))),
            ("files", a(cx.files.iter().map(s).collect())),
            (
                "ptr",
                i(rustc_public::target::MachineInfo::target_pointer_width().bits()),
            ),
            (
                "big",
                J::B(matches!(
                    rustc_public::target::MachineInfo::target_endianness(),
                    rustc_public::target::Endian::Big
                )),
            ),
        ]);
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(format!("{out}/mono-{g}.json"), o).unwrap();
    }
}
