use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

const MAX_INSTANCES: usize = 60000;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    insts: Vec<(Instance<'tcx>, TypingEnv<'tcx>, Option<rustc_middle::mir::Promoted>)>,
    inst_ix: HashMap<(Instance<'tcx>, TypingEnv<'tcx>, Option<u32>), usize>,
    tys: Vec<J>,
    ty_ix: HashMap<(Ty<'tcx>, TypingEnv<'tcx>), usize>,
    adts: Vec<DefId>,
    adt_ix: HashMap<DefId, usize>,
}

fn follow(path: &str) -> bool {
    const OK: &[&str] = &[
        "core::option::", "core::result::", "core::convert::", "core::mem::replace",
        "core::mem::take", "core::mem::swap", "core::cmp::", "core::bool::", "core::clone::",
        "core::default::", "core::ops::", "core::tuple::", "core::borrow::", "core::hash::",
        "std::option::", "std::result::", "std::convert::", "std::mem::replace", "std::mem::take",
        "std::mem::swap", "std::cmp::", "std::clone::", "std::default::", "std::ops::",
        "std::borrow::", "std::hash::", "core::iter::", "std::iter::", "std::tuple::",
        "alloc::borrow::", "alloc::boxed::", "std::boxed::", "core::f32::", "std::f32::",
        "core::num::", "std::num::", "core::macros", "core::array::", "std::array::",
        "core::alloc", "core::any::",
    ];
    let p = path.trim_start_matches('<');
    // blanket impls: `<T as std::convert::Into<U>>::into`
    let p = match p.split_once(" as ") {
        Some((t, r)) if t.len() == 1 => r,
        _ => p,
    };
    OK.iter().any(|o| p.starts_with(o))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_crate_prefix!(self.tcx.def_path_str(d))
        )
    }
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", name, lo.line))
    }
    fn line(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        J::n(sm.lookup_char_pos(s.lo()).line)
    }

    fn has_body(&self, d: DefId) -> bool {
        (d.is_local() || follow(&self.path(d))) && self.tcx.is_mir_available(d)
    }

    fn adt(&mut self, d: DefId) -> usize {
        if let Some(i) = self.adt_ix.get(&d) {
            return *i;
        }
        let i = self.adts.len();
        self.adts.push(d);
        self.adt_ix.insert(d, i);
        i
    }

    fn env_for(&self, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> TypingEnv<'tcx> {
        use rustc_middle::ty::TypeVisitableExt;
        if args.has_param() {
            env
        } else {
            TypingEnv::fully_monomorphized()
        }
    }

    fn inst(
        &mut self,
        i: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        promoted: Option<rustc_middle::mir::Promoted>,
    ) -> usize {
        let env = self.env_for(i.args, env);
        let key = (i, env, promoted.map(|p| p.as_u32()));
        if let Some(x) = self.inst_ix.get(&key) {
            return *x;
        }
        let ix = self.insts.len();
        self.insts.push((i, env, promoted));
        self.inst_ix.insert(key, ix);
        ix
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        use rustc_middle::ty::TypeVisitableExt;
        let envk = if t.has_param() { env } else { TypingEnv::fully_monomorphized() };
        if let Some(i) = self.ty_ix.get(&(t, envk)) {
            return J::n(*i);
        }
        // reserve
        let ix = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ix.insert((t, envk), ix);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(x) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Uint(x) => {
                o.push(("k", J::s("uint")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Float(x) => {
                o.push(("k", J::s("float")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(d, args) => {
                o.push(("k", J::s("adt")));
                o.push(("def", J::s(self.path(d.did()))));
                self.adt(d.did());
                let a = self.args(args, envk);
                o.push(("args", a));
                let dp = self.path(d.did());
                if d.did().is_local()
                    || dp.starts_with("std::option::")
                    || dp.starts_with("std::result::")
                    || dp.starts_with("core::option::")
                    || dp.starts_with("core::result::")
                    || dp.starts_with("std::ops::ControlFlow")
                    || dp == "nom::Err"
                {
                    let mut vs = vec![];
                    for v in d.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(envk, ft)
                                .unwrap_or_else(|_| self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                            fs.push(self.ty(ft, envk));
                        }
                        vs.push(J::A(fs));
                    }
                    o.push(("ft", J::A(vs)));
                }
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let e = self.ty(e, envk);
                o.push(("e", e));
                o.push(("len", n.try_to_target_usize(self.tcx).map(J::n).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let e = self.ty(e, envk);
                o.push(("e", e));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                let e = self.ty(e, envk);
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", J::s("ptr")));
                let e = self.ty(e, envk);
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| self.ty(t, envk)).collect();
                o.push(("e", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(d.into(), args.skip_binder(), envk);
                o.push(("fn", c));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let d: DefId = d.into();
                o.push(("def", J::s(self.path(d))));
                if self.has_body(d) {
                    let i = Instance::new_raw(d, args);
                    let i = self.inst(i, envk, None);
                    o.push(("inst", J::n(i)));
                }
                let up: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let v = up.into_iter().map(|t| self.ty(t, envk)).collect();
                o.push(("up", J::A(v)));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name)));
                o.push(("i", J::n(p.index)));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.tys[ix] = J::O(o);
        J::n(ix)
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t, env));
            } else if let Some(c) = a.as_const() {
                v.push(J::O(vec![("const", J::s(c))]));
            }
        }
        J::A(v)
    }

    /// Description of a callee: path, args, trait it belongs to, resolved instance.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("path", J::s(self.path(d)))];
        let a = self.args(args, env);
        o.push(("args", a));
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(t))));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args).skip_norm_wip().skip_binder();
            let mu: Vec<J> = sig
                .inputs()
                .iter()
                .enumerate()
                .filter(|(_, t)| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()))
                .map(|(i, _)| J::n(i))
                .collect();
            if !mu.is_empty() {
                o.push(("mut", J::A(mu)));
            }
        }
        if self.tcx.intrinsic(d).is_some() {
            o.push(("intrinsic", J::s(self.tcx.item_name(d))));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = self.tcx.parent(d);
            let (adt, vidx) = match self.tcx.def_kind(p) {
                DefKind::Variant => {
                    let adt = self.tcx.parent(p);
                    let ad = self.tcx.adt_def(adt);
                    (adt, ad.variant_index_with_ctor_id(d).as_u32())
                }
                _ => (p, 0),
            };
            self.adt(adt);
            o.push(("ctor", J::s(self.path(adt))));
            o.push(("variant", J::n(vidx)));
            return J::O(o);
        }
        if let Ok(args2) = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) {
            match Instance::try_resolve(self.tcx, env, d, args2) {
                Ok(Some(i)) => {
                    let p = self.path(i.def_id());
                    o.push(("rpath", J::s(&p)));
                    o.push(("local", J::B(i.def_id().is_local())));
                    let a = self.args(i.args, env);
                    o.push(("rargs", a));
                    match i.def {
                        InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                        InstanceKind::Item(did) => {
                            let want = did.is_local() || follow(&p);
                            if want && self.tcx.is_mir_available(did) {
                                let ix = self.inst(i, env, None);
                                o.push(("inst", J::n(ix)));
                            }
                        }
                        _ => {
                            o.push(("shim", J::s(format!("{:?}", i.def).split('(').next().unwrap_or(""))));
                        }
                    }
                    if let Some(imp) = self.tcx.impl_of_assoc(i.def_id()) {
                        o.push(("impl", J::s(self.path(imp))));
                        #[allow(deprecated)]
                        o.push(("derived", J::B(self.tcx.is_automatically_derived(imp))));
                    }
                }
                _ => {}
            }
        }
        J::O(o)
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let ty = self.ty(t, env);
                J::O(vec![("c", J::s("int")), ("v", J::s(bits)), ("sz", J::n(i.size().bytes())), ("ty", ty)])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                let mut o = vec![("c", J::s("ptr")), ("off", J::n(off.bytes()))];
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => {
                        o.push(("static", J::s(self.path(d))));
                    }
                    GlobalAlloc::Function { instance } => {
                        o.push(("fn", J::s(self.path(instance.def_id()))));
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            o.push(("bytes", J::A(b.iter().map(|x| J::n(*x)).collect())));
                        }
                    }
                    _ => {}
                }
                let ty = self.ty(t, env);
                o.push(("ty", ty));
                J::O(o)
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        match *t.kind() {
            ty::FnDef(d, args) => {
                let f = self.callee(d.into(), args.skip_binder(), env);
                return J::O(vec![("c", J::s("fn")), ("fn", f)]);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let i = Instance::new_raw(u.def, u.args);
                let ix = self.inst(i, env, Some(p));
                let ty = self.ty(t, env);
                return J::O(vec![("c", J::s("body")), ("inst", J::n(ix)), ("promoted", J::B(true)), ("ty", ty)]);
            }
        }
        let mut name = J::Null;
        if let Const::Unevaluated(u, _) = c.const_ {
            name = J::s(self.path(u.def));
        }
        let ev = {
            use rustc_middle::ty::TypeVisitableExt;
            if c.const_.has_param() && !matches!(c.const_, Const::Val(..)) {
                None
            } else {
                c.const_.eval(self.tcx, env, c.span).ok()
            }
        };
        match ev {
            Some(ConstValue::Scalar(s)) => return self.scalar(s, t, env),
            Some(ConstValue::ZeroSized) => {
                let ty = self.ty(t, env);
                return J::O(vec![("c", J::s("zst")), ("ty", ty)]);
            }
            Some(v @ ConstValue::Slice { .. }) => {
                let ty = self.ty(t, env);
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if let Ok(s) = std::str::from_utf8(b) {
                        return J::O(vec![("c", J::s("str")), ("v", J::s(s)), ("name", name), ("ty", ty)]);
                    }
                    return J::O(vec![("c", J::s("bytes")), ("v", J::A(b.iter().map(|x| J::n(*x)).collect())), ("ty", ty)]);
                }
            }
            _ => {}
        }
        // fall back to interpretation of the const's body
        let ty = self.ty(t, env);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, u.def, u.args) {
                let p = self.path(i.def_id());
                if (i.def_id().is_local() || follow(&p)) && self.tcx.is_mir_available(i.def_id()) {
                    let ix = self.inst(i, env, None);
                    return J::O(vec![("c", J::s("body")), ("inst", J::n(ix)), ("name", name), ("ty", ty)]);
                }
            }
        }
        J::O(vec![("c", J::s("opaque")), ("name", name), ("s", J::s(format!("{}", c.const_))), ("ty", ty)])
    }

    fn place(&mut self, p: &Place<'tcx>, _env: TypingEnv<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => J::n(f.as_u32()),
                ProjectionElem::Index(l) => J::A(vec![J::s("idx"), J::n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    J::A(vec![J::s("ci"), J::n(offset), J::B(from_end), J::n(min_length)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("sub"), J::n(from), J::n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("as"), J::n(v.as_u32())]),
                _ => J::A(vec![J::s("noop")]),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p, env)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p, env)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(c, env)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("k"), J::O(vec![("c", J::s("opaque")), ("s", J::s("runtime check"))])]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(J::n).unwrap_or(J::Null);
                J::A(vec![J::s("repeat"), self.op(o, env), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                J::s("ref"),
                self.place(p, env),
                J::B(matches!(k, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(p, env), J::B(true)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let op = self.op(o, env);
                let ty = self.ty(*t, env);
                J::A(vec![J::s("cast"), J::s(format!("{:?}", k)), op, ty])
            }
            Rvalue::BinaryOp(b, ops) => {
                let l = self.op(&ops.0, env);
                let r = self.op(&ops.1, env);
                J::A(vec![J::s("bin"), J::s(format!("{:?}", b)), l, r])
            }
            Rvalue::UnaryOp(u, o) => {
                let l = self.op(o, env);
                J::A(vec![J::s("un"), J::s(format!("{:?}", u)), l])
            }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p, env)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        self.adt(*d);
                        let a = self.args(args, env);
                        J::A(vec![J::s("adt"), J::s(self.path(*d)), J::n(vi.as_u32()), a])
                    }
                    AggregateKind::Closure(d, args) => {
                        let ix = if self.has_body(*d) {
                            let i = Instance::new_raw(*d, args);
                            J::n(self.inst(i, env, None))
                        } else {
                            J::Null
                        };
                        J::A(vec![J::s("closure"), J::s(self.path(*d)), ix])
                    }
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(p, env)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.op(o, env)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, ix: usize) -> J {
        let (inst, env, promoted) = self.insts[ix];
        let tcx = self.tcx;
        let did = inst.def_id();
        let body: &Body<'tcx> = if let Some(p) = promoted {
            &tcx.promoted_mir(did)[p]
        } else {
            match tcx.def_kind(did) {
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst 
                | DefKind::Static { .. } => tcx.mir_for_ctfe(did),
                _ => tcx.instance_mir(inst.def),
            }
        };
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, body.clone()),
        );
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", J::s(self.path(did))));
        let a = self.args(inst.args, env);
        o.push(("args", a));
        o.push(("local", J::B(did.is_local())));
        o.push(("span", self.span(tcx.def_span(did))));
        o.push(("promoted", promoted.map(|p| J::n(p.as_u32())).unwrap_or(J::Null)));
        o.push(("argc", J::n(body.arg_count)));
        o.push(("spread", body.spread_arg.map(|l| J::n(l.as_u32())).unwrap_or(J::Null)));
        if let Some(imp) = tcx.impl_of_assoc(did) {
            o.push(("impl", J::s(self.path(imp))));
            #[allow(deprecated)]
            o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
        }
        let mut lt = vec![];
        for l in body.local_decls.iter() {
            lt.push(self.ty(l.ty, env));
        }
        o.push(("locals", J::A(lt)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p, env);
                        let rj = self.rvalue(r, env);
                        ss.push(J::A(vec![J::s("="), pj, rj, self.line(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, env);
                        ss.push(J::A(vec![J::s("setd"), pj, J::n(variant_index.as_u32())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(J::A(vec![J::s("intr"), J::s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, env);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::s(v), J::n(t.as_u32())]))
                        .collect();
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dty = self.ty(dty, env);
                    J::A(vec![J::s("switch"), d, J::A(v), J::n(targets.otherwise().as_u32()), dty])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![J::s("unwind")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place, env);
                    let t = self.ty(t, env);
                    J::A(vec![J::s("drop"), p, J::n(target.as_u32()), t])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, env);
                    let fty = func.ty(&body.local_decls, tcx);
                    let fty = match fty.kind() {
                        ty::FnDef(..) => J::Null,
                        _ => self.ty(fty, env),
                    };
                    let av: Vec<J> = args.iter().map(|a| self.op(&a.node, env)).collect();
                    let d = self.place(destination, env);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty, env);
                    let tg = target.map(|t| J::n(t.as_u32())).unwrap_or(J::Null);
                    let uw = match unwind {
                        UnwindAction::Cleanup(b) => J::n(b.as_u32()),
                        _ => J::Null,
                    };
                    J::A(vec![J::s("call"), f, J::A(av), d, tg, line, fty, dty, uw])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let m = format!("{:?}", msg);
                    J::A(vec![J::s("assert"), c, J::B(*expected), J::s(m), J::n(target.as_u32()), line])
                }
                other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
            };
            bbs.push(J::O(vec![("s", J::A(ss)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        o.push(("bbs", J::A(bbs)));
        J::O(o)
    }

    fn adt_json(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let ad = tcx.adt_def(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let kind = if ad.is_enum() {
            "enum"
        } else if ad.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", J::s(self.path(d))),
            ("kind", J::s(kind)),
            ("local", J::B(d.is_local())),
        ];
        if d.is_local() {
            o.push(("span", self.span(tcx.def_span(d))));
            o.push(("exported", J::B(tcx.effective_visibilities(()).is_exported(d.expect_local()))));
            let g = tcx.generics_of(d);
            let ps: Vec<J> = g.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| J::s(p.name)).collect();
            o.push(("params", J::A(ps)));
            let lts = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
            o.push(("lifetimes", J::n(lts)));
        }
        let mut vs = vec![];
        for (vi, v) in ad.variants().iter_enumerated() {
            let discr = if ad.is_enum() {
                ad.discriminant_for_variant(tcx, vi).val as i128
            } else {
                0
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tyj = if d.is_local() { self.ty(ft, env) } else { J::Null };
                fs.push(J::O(vec![
                    ("name", J::s(f.name)),
                    ("pub", J::B(f.vis.is_public())),
                    ("ty", tyj),
                ]));
            }
            vs.push(J::O(vec![
                ("name", J::s(v.name)),
                ("discr", J::I(discr)),
                ("fields", J::A(fs)),
                ("ctor", J::s(format!("{:?}", v.ctor_kind()))),
            ]));
        }
        o.push(("variants", J::A(vs)));
        J::O(o)
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx {
        tcx,
        insts: vec![],
        inst_ix: HashMap::new(),
        tys: vec![],
        ty_ix: HashMap::new(),
        adts: vec![],
        adt_ix: HashMap::new(),
    };
    let ev = tcx.effective_visibilities(());
    let mut roots = vec![];
    let mut items = vec![];
    // all local definitions
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.adt(d);
            }
            DefKind::Fn | DefKind::AssocFn => {
                let env = TypingEnv::post_analysis(tcx, d);
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let unsafe_ = !sig.safety().is_safe();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t, env)).collect();
                let out = cx.ty(sig.output(), env);
                let g = tcx.generics_of(d);
                let mut ps: Vec<J> = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        ps.push(J::s(p.name));
                    }
                }
                let mut o: Vec<(&'static str, J)> = vec![
                    ("path", J::s(cx.path(d))),
                    ("name", J::s(tcx.item_name(d))),
                    ("kind", J::s(format!("{:?}", kind))),
                    ("span", cx.span(tcx.def_span(d))),
                    ("exported", J::B(ev.is_exported(ld))),
                    ("reachable", J::B(ev.is_reachable(ld))),
                    ("pub", J::B(tcx.visibility(d).is_public())),
                    ("unsafe", J::B(unsafe_)),
                    ("params", J::A(ps)),
                    ("inputs", J::A(ins)),
                    ("output", out),
                    ("has_self", J::B(tcx.opt_associated_item(d).map(|a| a.is_method()).unwrap_or(false))),
                ];
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    o.push(("impl", J::s(cx.path(imp))));
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let stj = cx.ty(st, env);
                    o.push(("self", stj));
                    #[allow(deprecated)]
                    o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(cx.path(tr.def_id))));
                        let a = cx.args(tr.args, env);
                        o.push(("trait_args", a));
                    }
                }
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("of_trait", J::s(cx.path(t))));
                }
                if tcx.is_mir_available(d) {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let i = Instance::new_raw(d, args);
                    let ix = cx.inst(i, env, None);
                    roots.push(ix);
                    o.push(("inst", J::n(ix)));
                }
                items.push(J::O(o));
            }
            DefKind::Static { mutability, .. } => {
                let env = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(t, env);
                let fz = t.is_freeze(tcx, env);
                let ix = cx.inst(Instance::new_raw(d, ty::List::empty()), env, None);
                roots.push(ix);
                items.push(J::O(vec![
                    ("path", J::s(cx.path(d))),
                    ("kind", J::s("Static")),
                    ("inst", J::n(ix)),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(fz)),
                    ("tls", J::B(tcx.is_thread_local_static(d))),
                    ("span", cx.span(tcx.def_span(d))),
                    ("ty", tj),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let env = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(t, env);
                items.push(J::O(vec![
                    ("path", J::s(cx.path(d))),
                    ("kind", J::s("Const")),
                    ("span", cx.span(tcx.def_span(d))),
                    ("exported", J::B(ev.is_exported(ld))),
                    ("ty", tj),
                ]));
            }
            DefKind::Impl { .. } => {
                let env = TypingEnv::post_analysis(tcx, d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st, env);
                let mut o: Vec<(&'static str, J)> = vec![
                    ("path", J::s(cx.path(d))),
                    ("kind", J::s("Impl")),
                    ("span", cx.span(tcx.def_span(d))),
                    ("self", stj),
                    ("derived", {
                        #[allow(deprecated)]
                        J::B(tcx.is_automatically_derived(d))
                    }),
                ];
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(cx.path(tr.def_id))));
                    let a = cx.args(tr.args, env);
                    o.push(("trait_args", a));
                    o.push(("unsafe", J::B(!tcx.impl_trait_header(d).safety.is_safe())));
                    o.push(("neg", J::B(matches!(tcx.impl_polarity(d), ty::ImplPolarity::Negative))));
                    // map trait items to implementing items
                    let mut v = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(tid) = it.trait_item_def_id() {
                            if matches!(it.kind, ty::AssocKind::Type { .. }) {
                                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                                let tj = cx.ty(t, env);
                                v.push(J::A(vec![J::s(tcx.item_name(tid)), J::s("type"), tj]));
                            } else {
                                v.push(J::A(vec![J::s(tcx.item_name(tid)), J::s("item"), J::s(cx.path(it.def_id))]));
                            }
                        }
                    }
                    o.push(("items", J::A(v)));
                }
                items.push(J::O(o));
            }
            DefKind::Closure => {}
            _ => {
                items.push(J::O(vec![
                    ("path", J::s(cx.path(d))),
                    ("kind", J::s(format!("{:?}", kind))),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
        }
    }
    // unsafe blocks in local bodies
    let mut unsafes = vec![];
    for ld in tcx.hir_body_owners() {
        struct V<'a, 'tcx>(&'a Cx<'tcx>, &'a mut Vec<J>, String);
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                let foreign = b.span.from_expansion()
                    && b.span.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(false);
                if let (false, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) = (foreign, b.rules) {
                    let sp = self.0.span(b.span);
                    self.1.push(J::O(vec![("fn", J::s(&self.2)), ("span", sp)]));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
            let p = cx.path(ld.to_def_id());
            let mut v = V(&cx, &mut unsafes, p);
            rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
        }
    }
    // auto traits for exported local ADTs
    let mut auto = vec![];
    {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let adts = cx.adts.clone();
        for d in adts {
            if !d.is_local() {
                continue;
            }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let env = tcx.param_env(d);
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let mut o: Vec<(&'static str, J)> = vec![("path", J::s(cx.path(d)))];
            let chk = |tr: Option<DefId>| -> J {
                match tr {
                    Some(tr) => {
                        // assume the parameters satisfy the trait themselves
                        let g = tcx.generics_of(d);
                        let mut preds: Vec<ty::Clause<'tcx>> = env.caller_bounds().collect();
                        for p in g.own_params.iter() {
                            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                                let pt = Ty::new_param(tcx, p.index, p.name);
                                let tref = ty::TraitRef::new(tcx, tr, [pt]);
                                use rustc_middle::ty::Upcast;
                                let c: ty::Clause<'tcx> = tref.upcast(tcx);
                                preds.push(c);
                            }
                        }
                        let env2 = ty::ParamEnv::new(tcx, tcx.mk_clauses(&preds));
                        J::B(infcx.type_implements_trait(tr, [t], env2).must_apply_modulo_regions())
                    }
                    None => J::Null,
                }
            };
            o.push(("send", chk(send)));
            o.push(("sync", chk(sync)));
            let envt = TypingEnv::post_analysis(tcx, d);
            o.push(("freeze", J::B(t.is_freeze(tcx, envt))));
            auto.push(J::O(o));
        }
    }
    // bodies
    let mut bodies = vec![];
    let mut i = 0;
    while i < cx.insts.len() && i < MAX_INSTANCES {
        let b = cx.body(i);
        bodies.push(b);
        i += 1;
    }
    let truncated = cx.insts.len() > bodies.len();
    let mut adts = vec![];
    let mut k = 0;
    while k < cx.adts.len() {
        let d = cx.adts[k];
        let j = cx.adt_json(d);
        adts.push(j);
        k += 1;
    }
    // adt_json may add types referring to closures? (never for field types)
    while i < cx.insts.len() && i < MAX_INSTANCES {
        let b = cx.body(i);
        bodies.push(b);
        i += 1;
    }
    let mut crates = vec![J::s(tcx.crate_name(LOCAL_CRATE))];
    for c in tcx.crates(()) {
        crates.push(J::s(tcx.crate_name(*c)));
    }
    let tys = std::mem::take(&mut cx.tys);
    let o = J::O(vec![
        ("crates", J::A(crates)),
        ("truncated", J::B(truncated)),
        ("items", J::A(items)),
        ("roots", J::A(roots.into_iter().map(J::n).collect())),
        ("unsafe_blocks", J::A(unsafes)),
        ("auto", J::A(auto)),
        ("adts", J::A(adts)),
        ("tys", J::A(tys)),
        ("bodies", J::A(bodies)),
    ]);
    let mut s = String::new();
    o.write(&mut s);
    s
}
