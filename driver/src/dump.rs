use crate::json::{J, n, s};
use rustc_abi::{FieldsShape, Size, Variants};
use rustc_ast::InlineAsmTemplatePiece;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::BTreeMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, Ty<'tcx>>,
    adt_defs: BTreeMap<String, DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn name(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)));
    p
}

fn tys(t: Ty<'_>) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{t}")))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // The outermost expansion site: the line a person would look at.
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        s(format!("{f}:{}", loc.line))
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for arg in t.walk() {
            if let Some(t) = arg.as_type()
                && let TyKind::Adt(def, _) = t.kind()
            {
                let key = path(self.tcx, def.did());
                self.adt_defs.entry(key).or_insert(def.did());
                if !t.has_param() && !t.has_aliases() && !t.has_escaping_bound_vars() {
                    let e = self.tcx.erase_and_anonymize_regions(t);
                    self.adts.entry(tys(e)).or_insert(e);
                }
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        self.note_ty(t);
        s(tys(t))
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![n(p.local.as_usize())];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let nm = match pty.ty.kind() {
                        TyKind::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && pty.variant_index.is_none() {
                                f.as_usize().to_string()
                            } else {
                                def.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    J::Arr(vec![s("f"), n(f.as_usize()), s(nm)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    s("ci"),
                    J::Uint(offset as u128),
                    J::Uint(min_length as u128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    s("sub"),
                    J::Uint(from as u128),
                    J::Uint(to as u128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    let nm = match pty.ty.kind() {
                        TyKind::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    J::Arr(vec![s("v"), n(vi.as_usize()), s(nm)])
                }
                _ => s("?"),
            };
            v.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::Arr(v)
    }

    fn value(&mut self, val: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Null;
        }
        match (t.kind(), &val) {
            (TyKind::Bool | TyKind::Char | TyKind::Uint(_), ConstValue::Scalar(Scalar::Int(i))) => {
                return J::Uint(i.to_bits(i.size()));
            }
            (TyKind::Int(_), ConstValue::Scalar(Scalar::Int(i))) => {
                return J::Int(i.to_int(i.size()));
            }
            (TyKind::FnDef(..), _) => return s(tys(t)),
            (TyKind::Ref(_, inner, _), _) if inner.is_str() => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::Obj(vec![("str", s(String::from_utf8_lossy(b)))]);
                }
            }
            (TyKind::Ref(_, inner, _), ConstValue::Slice { .. }) if matches!(inner.kind(), TyKind::Slice(e) if e.is_integral() && tys(*e) == "u8") => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| n(*x as usize)).collect()))]);
                }
            }
            (TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _), ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => return J::Obj(vec![("static", s(path(tcx, d)))]),
                    Some(GlobalAlloc::Memory(_)) if inner.is_sized(tcx, env) => {
                        let v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let j = self.value(v, *inner, env, depth + 1);
                        return J::Obj(vec![("ref", j)]);
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        return J::Obj(vec![("fn", s(path(tcx, instance.def_id())))]);
                    }
                    _ => return J::Null,
                }
            }
            (TyKind::FnPtr(..), ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, _) = p.prov_and_relative_offset();
                if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    return J::Obj(vec![("fn", s(path(tcx, instance.def_id())))]);
                }
                return J::Null;
            }
            (TyKind::Uint(_) | TyKind::Int(_) | TyKind::Bool | TyKind::Char, ConstValue::Indirect { alloc_id, offset }) => {
                if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(*alloc_id)
                    && let Ok(l) = tcx.layout_of(env.as_query_input(t))
                {
                    let a = a.inner();
                    let st = offset.bytes_usize();
                    let en = st + l.size.bytes_usize();
                    if en <= a.len() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..en);
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        if t.is_signed() {
                            return J::Int(l.size.sign_extend(x));
                        }
                        return J::Uint(x);
                    }
                }
                return J::Null;
            }
            _ => {}
        }
        if t.has_param() || t.has_aliases() {
            return J::Null;
        }
        match t.kind() {
            TyKind::Adt(def, _) if !def.is_union() => {
                if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                    if l.is_uninhabited() || l.size > Size::from_bytes(8192) {
                        return J::Null;
                    }
                } else {
                    return J::Null;
                }
                if def.repr().simd() {
                    return J::Null;
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                    let var = def.variant(vi);
                    let mut fs = vec![];
                    for (i, (v, ft)) in d.fields.iter().enumerate() {
                        let fname = var.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                        fs.push((fname, self.value(*v, *ft, env, depth + 1)));
                    }
                    return J::Obj(vec![
                        ("adt", s(path(tcx, def.did()))),
                        ("var", s(var.name.to_string())),
                        ("vi", n(vi.as_usize())),
                        ("fields", J::Map(fs)),
                    ]);
                }
                J::Null
            }
            TyKind::Tuple(_) | TyKind::Array(..) => {
                if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                    if l.size > Size::from_bytes(65536) {
                        return J::Null;
                    }
                } else {
                    return J::Null;
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let v = d.fields.iter().map(|(v, ft)| self.value(*v, *ft, env, depth + 1)).collect();
                    return J::Obj(vec![(if matches!(t.kind(), TyKind::Tuple(_)) { "tuple" } else { "array" }, J::Arr(v))]);
                }
                J::Null
            }
            _ => J::Null,
        }
    }

    fn fn_ref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut v = vec![("id", s(path(tcx, d))), ("name", s(name(tcx, d)))];
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type().map(|t| s(tys(t))).or_else(|| a.as_const().map(|c| s(format!("{c}"))))).collect();
        for a in args.types() {
            self.note_ty(a);
        }
        if !targs.is_empty() {
            v.push(("targs", J::Arr(targs)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..))
            && let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(args))
        {
            match inst.def {
                ty::InstanceKind::Item(r) => {
                    if r != d {
                        v.push(("rid", s(path(tcx, r))));
                        v.push(("rname", s(name(tcx, r))));
                    }
                }
                ty::InstanceKind::Virtual(..) => v.push(("virtual", J::Bool(true))),
                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                    v.push(("rid", s(path(tcx, closure))));
                }
                _ => {}
            }
        }
        // A call of a closure type through the Fn* traits.
        if let Some(t0) = args.types().next()
            && let TyKind::Closure(c, _) = t0.kind()
        {
            v.push(("closure", s(path(tcx, *c))));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(path(tcx, tr))));
        }
        v
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let TyKind::FnDef(d, args) = t.kind() {
            o.push(("fn", J::Obj(self.fn_ref(*d, args.no_bound_vars().unwrap(), env))));
            return J::Obj(o);
        }
        if let TyKind::Closure(d, _) = t.kind() {
            o.push(("closure", s(path(tcx, *d))));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}::promoted[{}]", path(tcx, u.def), p.as_usize()))));
            } else {
                o.push(("named", s(path(tcx, u.def))));
            }
        }
        if let Const::Ty(_, ct) = c {
            o.push(("param", s(format!("{ct}"))));
        }
        if !c.has_param() {
            if let Ok(v) = c.eval(tcx, env, sp) {
                let j = self.value(v, t, env, 0);
                if !matches!(j, J::Null) {
                    o.push(("v", j));
                }
            }
        }
        J::Obj(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::Arr(vec![s("k"), self.konst(&c.const_, env, c.span)]),
            Operand::RuntimeChecks(_) => J::Arr(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![s("use"), self.operand(body, o, env)]),
            Rvalue::Repeat(o, c) => J::Arr(vec![s("repeat"), self.operand(body, o, env), s(format!("{c}"))]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                s("ref"),
                self.place(body, p),
                s(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shr" }),
            ]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), self.place(body, p), s("raw")]),
            Rvalue::Cast(k, o, t) => {
                let kind = format!("{k:?}");
                J::Arr(vec![s("cast"), s(kind), self.operand(body, o, env), self.ty(*t)])
            }
            Rvalue::BinaryOp(op, b) => J::Arr(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(body, &b.0, env),
                self.operand(body, &b.1, env),
            ]),
            Rvalue::UnaryOp(op, o) => J::Arr(vec![s("un"), s(format!("{op:?}")), self.operand(body, o, env)]),
            Rvalue::Discriminant(p) => J::Arr(vec![s("discr"), self.place(body, p), {
                let t = p.ty(body, tcx).ty;
                self.ty(t)
            }]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        self.adt_defs.entry(path(tcx, *d)).or_insert(*d);
                        let var = def.variant(*vi);
                        let fields: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        J::Arr(vec![s("adt"), s(path(tcx, *d)), n(vi.as_usize()), s(var.name.to_string()), J::Arr(fields)])
                    }
                    AggregateKind::Closure(d, _) => {
                        let ups: Vec<J> = d
                            .as_local()
                            .map(|l| tcx.closure_captures(l).iter().map(|c| s(c.var_ident.name.to_string())).collect())
                            .unwrap_or_default();
                        J::Arr(vec![s("closure"), s(path(tcx, *d)), J::Arr(ups)])
                    }
                    AggregateKind::RawPtr(..) => J::Arr(vec![s("rawptr")]),
                    _ => J::Arr(vec![s("other")]),
                };
                let ops = ops.iter().map(|o| self.operand(body, o, env)).collect();
                J::Arr(vec![s("agg"), kj, J::Arr(ops)])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(body, p)])]),
            Rvalue::Reborrow(_, _, p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(body, p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![s("use"), self.operand(body, o, env)]),
        }
    }

    fn body(&mut self, d: DefId, id: String, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(body, p);
                names.push(J::Arr(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for stm in &bb.statements {
                match &stm.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1, env);
                        st.push(J::Arr(vec![s("="), p, r, self.span(stm.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::Arr(vec![s("setd"), p, n(variant_index.as_usize()), self.span(stm.source_info.span)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let txt = format!("{i:?}");
                        st.push(J::Arr(vec![s("intr"), s(txt)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets.iter().map(|(v, b)| J::Arr(vec![J::Uint(v), n(b.as_usize())])).collect();
                    let dt = discr.ty(body, tcx);
                    J::Arr(vec![
                        s("switch"),
                        self.operand(body, discr, env),
                        J::Arr(ts),
                        n(targets.otherwise().as_usize()),
                        sp,
                        s(tys(dt)),
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreach")]),
                TerminatorKind::UnwindResume => J::Arr(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    J::Arr(vec![s("drop"), self.place(body, place), n(target.as_usize()), sp, self.ty(pt)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, env);
                    let a = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    J::Arr(vec![
                        s("call"),
                        f,
                        J::Arr(a),
                        self.place(body, destination),
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                        sp,
                    ])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(body, func, env);
                    let a = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    J::Arr(vec![s("tailcall"), f, J::Arr(a), sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::Arr(vec![
                    s("assert"),
                    self.operand(body, cond, env),
                    J::Bool(*expected),
                    n(target.as_usize()),
                    s(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        k => format!("{:?}", std::mem::discriminant(k)),
                    }),
                    sp,
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::InlineAsm { template, operands, targets, .. } => {
                    let mut text = String::new();
                    for p in template.iter() {
                        match p {
                            InlineAsmTemplatePiece::String(x) => text.push_str(x),
                            InlineAsmTemplatePiece::Placeholder { operand_idx, .. } => {
                                text.push_str(&format!("{{{operand_idx}}}"))
                            }
                        }
                    }
                    let ops = operands
                        .iter()
                        .map(|o| match o {
                            InlineAsmOperand::Const { value } => self.konst(&value.const_, env, value.span),
                            InlineAsmOperand::SymFn { value } => self.konst(&value.const_, env, value.span),
                            _ => J::Null,
                        })
                        .collect();
                    J::Arr(vec![s("asm"), s(text), J::Arr(ops), J::Arr(targets.iter().map(|t| n(t.as_usize())).collect()), sp])
                }
                _ => J::Arr(vec![s("other")]),
            };
            blocks.push(J::Arr(vec![J::Arr(st), term, J::Bool(bb.is_cleanup)]));
        }
        let mut generics = vec![];
        let g = tcx.generics_of(d);
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                generics.push(s(p.name.to_string()));
            }
        }
        let mut o = vec![
            ("id", s(id)),
            ("name", s(name(tcx, d))),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("span", self.span(tcx.def_span(d))),
            ("args", n(body.arg_count)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
            ("generics", J::Arr(generics)),
        ];
        // Everything in a macro-generated item reports its macro as well.
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("abi", s(format!("{:?}", sig.abi()))));
            o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
            let cg = tcx.codegen_fn_attrs(d);
            if let Some(x) = cg.symbol_name {
                o.push(("symbol", s(x.to_string())));
            }
            if cg.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) {
                o.push(("no_mangle", J::Bool(true)));
            }
            o.push(("ret", s(tys(sig.output()))));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            o.push(("const", J::Bool(tcx.is_const_fn(d))));
        }
        if let Some(p) = tcx.opt_parent(d)
            && matches!(tcx.def_kind(p), DefKind::Impl { .. })
        {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", self.ty(st)));
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                let tr = tcx.impl_trait_header(p).trait_ref.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(path(tcx, tr.def_id))));
                o.push(("impl_trait_str", s(ty::print::with_no_trimmed_paths!(format!("{tr}")))));
            }
        }
        if let Some(p) = tcx.opt_parent(d)
            && tcx.def_kind(p) == DefKind::Trait
        {
            o.push(("in_trait", s(path(tcx, p))));
        }
        J::Obj(o)
    }

    fn layout(&mut self, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::Null };
        let mut o = vec![
            ("ty", s(tys(t))),
            ("size", J::Uint(l.size.bytes() as u128)),
            ("align", J::Uint(l.align.abi.bytes() as u128)),
        ];
        if let TyKind::Adt(def, args) = t.kind()
            && def.is_struct()
            && let FieldsShape::Arbitrary { .. } = l.fields
        {
            let var = def.non_enum_variant();
            let mut fs = vec![];
            for (i, f) in var.fields.iter_enumerated() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                let off = l.fields.offset(i.as_usize());
                let sub = if depth > 0 { self.layout(ft, depth - 1) } else { J::Null };
                fs.push(J::Obj(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", s(tys(ft))),
                    ("off", J::Uint(off.bytes() as u128)),
                    ("layout", sub),
                ]));
            }
            o.push(("fields", J::Arr(fs)));
        }
        if let TyKind::Adt(def, _) = t.kind()
            && def.is_enum()
            && let Variants::Multiple { tag_field, .. } = &l.variants
        {
            o.push(("tag_off", J::Uint(l.fields.offset(tag_field.as_usize()).bytes() as u128)));
        }
        J::Obj(o)
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx { tcx, adts: BTreeMap::new(), adt_defs: BTreeMap::new() };
    let mut bodies = vec![];
    let mut statics = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| path(tcx, k.to_def_id()));
    for k in keys {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(d) {
                    continue;
                }
                let b = tcx.optimized_mir(d);
                bodies.push(cx.body(d, path(tcx, d), b));
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                    bodies.push(cx.body(d, format!("{}::promoted[{}]", path(tcx, d), i.as_usize()), p));
                }
            }
            DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } | DefKind::AnonConst => {
                let b = tcx.mir_for_ctfe(d);
                bodies.push(cx.body(d, path(tcx, d), b));
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if t.has_param() || tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let env = TypingEnv::fully_monomorphized();
                if let DefKind::Static { .. } = kind {
                    if tcx.is_thread_local_static(d) {
                        statics.push(J::Obj(vec![("id", s(path(tcx, d))), ("ty", cx.ty(t)), ("tls", J::Bool(true))]));
                        continue;
                    }
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let a = a.inner();
                        let mut o = vec![("id", s(path(tcx, d))), ("ty", cx.ty(t)), ("span", cx.span(tcx.def_span(d)))];
                        if a.len() <= 1 << 20 && a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            let mut h = String::with_capacity(b.len() * 2);
                            for x in b {
                                h.push_str(&format!("{x:02x}"));
                            }
                            o.push(("bytes", s(h)));
                        }
                        statics.push(J::Obj(o));
                    }
                } else if let DefKind::Const | DefKind::AssocConst = kind
                    && let Ok(v) = tcx.const_eval_poly(d)
                {
                    let et = tcx.erase_and_anonymize_regions(t);
                    let j = cx.value(v, et, env, 0);
                    statics.push(J::Obj(vec![("id", s(path(tcx, d))), ("ty", cx.ty(t)), ("v", j), ("span", cx.span(tcx.def_span(d)))]));
                }
            }
            _ => {}
        }
    }
    // Local ADTs, whether or not a body mentions them.
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).instantiate_identity().skip_norm_wip());
            cx.note_ty(t);
        }
    }
    // Foreign items and impls.
    let mut impls = vec![];
    let mut foreign = vec![];
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(d);
                let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                impls.push(J::Obj(vec![
                    ("id", s(path(tcx, d))),
                    ("trait", s(path(tcx, tr.def_id))),
                    ("self", s(tys(tr.self_ty()))),
                    ("polarity", s(format!("{:?}", h.polarity))),
                    ("unsafe", J::Bool(h.safety.is_unsafe())),
                    ("span", cx.span(tcx.def_span(d))),
                    (
                        "items",
                        J::Arr(
                            tcx.associated_items(d)
                                .in_definition_order()
                                .map(|i| {
                                    J::Arr(vec![
                                        s(i.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                                        s(path(tcx, i.def_id)),
                                    ])
                                })
                                .collect(),
                        ),
                    ),
                ]));
            }
            DefKind::Fn if tcx.is_foreign_item(d) => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                foreign.push(J::Obj(vec![
                    ("id", s(path(tcx, d))),
                    ("name", s(tcx.item_name(d).to_string())),
                    ("inputs", J::Arr(sig.inputs().iter().map(|t| s(tys(*t))).collect())),
                    ("ret", s(tys(sig.output()))),
                ]));
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let defs: Vec<_> = cx.adt_defs.iter().map(|(k, v)| (k.clone(), *v)).collect();
    for (k, d) in defs {
        let def = tcx.adt_def(d);
        let mut vars = vec![];
        for (vi, var) in def.variants().iter_enumerated() {
            let disc = if def.is_enum() { J::Uint(def.discriminant_for_variant(tcx, vi).val) } else { J::Null };
            let fs = var
                .fields
                .iter()
                .map(|f| {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::Arr(vec![s(f.name.to_string()), s(tys(ft))])
                })
                .collect();
            vars.push(J::Obj(vec![("name", s(var.name.to_string())), ("discr", disc), ("fields", J::Arr(fs))]));
        }
        let dropi = tcx.adt_destructor(d).map(|x| s(path(tcx, x.did))).unwrap_or(J::Null);
        let r = def.repr();
        adts.push((
            k,
            J::Obj(vec![
                ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                ("variants", J::Arr(vars)),
                ("drop", dropi),
                ("repr", s(format!("c={} transparent={} int={:?}", r.c(), r.transparent(), r.int))),
                ("span", if d.is_local() { cx.span(tcx.def_span(d)) } else { J::Null }),
            ]),
        ));
    }
    let mut layouts = vec![];
    let tl: Vec<_> = cx.adts.iter().map(|(k, v)| (k.clone(), *v)).collect();
    for (k, t) in tl {
        let keep = match t.kind() {
            TyKind::Adt(d, _) => d.did().is_local() || ["revm", "alloy", "ruint"].iter().any(|p| tcx.crate_name(d.did().krate).as_str().starts_with(p)),
            _ => false,
        };
        if keep {
            let j = cx.layout(t, 3);
            layouts.push((k, j));
        }
    }
    let mut out = String::new();
    J::Obj(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("bodies", J::Arr(bodies)),
        ("statics", J::Arr(statics)),
        ("adts", J::Map(adts)),
        ("layouts", J::Map(layouts)),
        ("impls", J::Arr(impls)),
        ("foreign", J::Arr(foreign)),
    ])
    .write(&mut out);
    out
}
