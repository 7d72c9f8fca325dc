use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};

const WORKSPACE: &[&str] = &["huff", "huff_coding"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    ty_env: Vec<TypingEnv<'tcx>>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashMap<String, ()>,
    env: TypingEnv<'tcx>,
}

fn pp<T>(f: impl FnOnce() -> T) -> T {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(f())))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::i(self.tyid(t) as i128)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        self.ty_env.push(self.env);
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let u = ty::Unnormalized::new_wip(t);
        match self.tcx.try_normalize_erasing_regions(self.env, u) {
            Ok(x) => x,
            Err(_) => t,
        }
    }
    fn is_ws(&self, d: DefId) -> bool {
        WORKSPACE.contains(&self.tcx.crate_name(d.krate).as_str())
    }
    /// Library functions whose own MIR is dumped too, so that the analysis follows option/result
    /// combinators and iterator adaptors instead of needing a model for each of them.
    fn inline_std(&self, d: DefId) -> bool {
        let k = self.tcx.crate_name(d.krate);
        if k.as_str() != "core" {
            return false;
        }
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        const OK: &[&str] = &[
            "::option::",
            "::result::",
            "::ops::control_flow::",
            "::ops::try_trait::",
            "::ops::range::",
            "::ops::function::",
            "::ops::bit::",
            "::ops::arith::",
            "::iter::adapters::",
            "::iter::traits::",
            "::iter::sources::",
            "::iter::range::",
            "::cmp::",
            "::convert::",
            "::bool::",
            "::borrow::",
            "::default::",
            "::clone::",
            "::tuple::",
        ];
        OK.iter().any(|x| p.starts_with(x))
    }
    fn path(&self, d: DefId) -> String {
        pp(|| self.tcx.def_path_str(d))
    }
    fn path_args(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        pp(|| self.tcx.def_path_str_with_args(d, a))
    }
    fn span(&self, s: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s2 = s.source_callsite();
        let lo = sm.lookup_char_pos(s2.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        J::s(format!("{}:{}", f, lo.line))
    }

    fn ty_json(&mut self, i: usize) -> J {
        let t = self.ty_list[i];
        self.env = self.ty_env[i];
        let tcx = self.tcx;
        let name = pp(|| format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(&name))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", J::s("int")));
                let (sz, sg) = match t.kind() {
                    ty::Int(x) => (x.bit_width().unwrap_or(64), true),
                    ty::Uint(x) => (x.bit_width().unwrap_or(64), false),
                    _ => unreachable!(),
                };
                o.push(("bits", J::i(sz as i128)));
                o.push(("signed", J::Bool(sg)));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let e = self.ty(*e);
                o.push(("elem", e));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let e = self.ty(*e);
                o.push(("elem", e));
                let n = n.try_to_target_usize(tcx);
                o.push(("len", n.map(|x| J::i(x as i128)).unwrap_or(J::Null)));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                let e = self.ty(*e);
                o.push(("elem", e));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", J::s("ptr")));
                let e = self.ty(*e);
                o.push(("elem", e));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("elems", J::Arr(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::Arr(a)));
                o.push(("enum", J::Bool(def.is_enum())));
                let ws = self.is_ws(def.did());
                o.push(("ws", J::Bool(ws)));
                if ws || def.is_enum() || def.variants().iter().next().map_or(false, |v| v.fields.len() <= 3) && !def.is_box() && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            let ft = self.ty(ft);
                            fs.push(J::Obj(vec![("name", J::s(f.name)), ("ty", ft), ("vis", J::s(format!("{:?}", f.vis)))]));
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        vs.push(J::Obj(vec![("name", J::s(v.name)), ("discr", J::i(d)), ("fields", J::Arr(fs))]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.path(*d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::Arr(up)));
                let inst = Instance::new_raw(*d, args);
                let key = self.enqueue(inst);
                o.push(("body", key));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(*d, a);
                o.push(("callee", c));
            }
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            _ => o.push(("k", J::s("other"))),
        }
        J::Obj(o)
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        let base = self.path_args(inst.def_id(), inst.args);
        match inst.def {
            ty::InstanceKind::Item(_) => {
                // inherent items of the same name in different impls print alike only if their
                // self types match, closures carry their index; add the raw path to be unique
                format!("{} @{}", base, self.tcx.def_path(inst.def_id()).to_string_no_crate_verbose())
            }
            _ => format!("{} @shim {:?}", base, std::mem::discriminant(&inst.def)),
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> J {
        if let ty::InstanceKind::Item(d) = inst.def {
            if (self.is_ws(d) || self.inline_std(d)) && self.tcx.is_mir_available(d) && !matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
                let k = self.key(inst);
                if self.seen.insert(k.clone(), ()).is_none() {
                    self.queue.push_back((inst, self.env));
                }
                return J::s(k);
            }
        }
        J::Null
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", J::s(self.path(d))));
        o.push(("full", J::s(self.path_args(d, args))));
        o.push(("name", J::s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("krate", J::s(tcx.crate_name(d.krate))));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(t))));
        }
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::Arr(a)));
        let cs: Vec<J> = args
            .consts()
            .map(|c| c.try_to_target_usize(tcx).map(|x| J::i(x as i128)).unwrap_or(J::Null))
            .collect();
        if !cs.is_empty() {
            o.push(("cargs", J::Arr(cs)));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::Bool(true)));
        }
        let uns = tcx.fn_sig(d).skip_binder().skip_binder().safety();
        o.push(("unsafe", J::Bool(uns.is_unsafe())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            let n = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
            // iterator consumers: use the trait's own (next-based) body, not a specialised override
            if (tp == "core::iter::traits::iterator::Iterator" || tp == "core::iter::traits::double_ended::DoubleEndedIterator")
                && !["next", "next_back", "size_hint", "by_ref"].contains(&n.as_str())
                && tcx.is_mir_available(d)
            {
                let k = self.enqueue(Instance::new_raw(d, args));
                o.push(("default", k));
            }
            let mut aux = vec![];
            if ["next", "next_back", "len"].contains(&n.as_str()) {
                if let Some(st) = args.types().next() {
                    if let ty::Adt(_, ia) = self.norm(st).kind() {
                        for t in ia.types() {
                            aux.push(self.method_of(d, t));
                        }
                    }
                }
            }
            if n == "from_iter" || n == "extend" {
                if let Some(it) = args.types().last() {
                    let it = self.norm(it);
                    if let Some(ii) = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator) {
                        let into = tcx.associated_item_def_ids(ii).iter().copied().find(|x| tcx.opt_item_name(*x).map_or(false, |s| s.as_str() == "into_iter"));
                        let ity = tcx.associated_item_def_ids(ii).iter().copied().find(|x| tcx.opt_item_name(*x).map_or(false, |s| s.as_str() == "IntoIter"));
                        if let (Some(into), Some(ity)) = (into, ity) {
                            aux.push(self.method_of(into, it));
                            let pt = Ty::new_projection(tcx, ty::IsRigid::No, ity, [ty::GenericArg::from(it)]);
                            let pt = self.norm(pt);
                            if let Some(nx) = tcx.lang_items().next_fn() {
                                aux.push(self.method_of(nx, pt));
                            }
                        }
                    }
                }
            }
            if !aux.is_empty() {
                o.push(("aux", J::Arr(aux)));
            }
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            let rd = inst.def_id();
            let k = self.enqueue(inst);
            o.push(("rpath", J::s(self.path(rd))));
            o.push(("rfull", J::s(self.path_args(rd, inst.args))));
            o.push(("rkrate", J::s(tcx.crate_name(rd.krate))));
            o.push(("rkind", J::s(match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ref o if format!("{:?}", o).contains("ClosureOnce") => "closure_once",
                _ => "shim",
            })));
            // closure called through FnOnce/FnMut/Fn
            if tcx.is_closure_like(rd) || format!("{:?}", inst.def).contains("ClosureOnce") {
                if let Some(st) = args.types().next() {
                    let st = self.norm(st);
                    if let ty::Closure(cd, ca) = st.kind() {
                        let ck = self.enqueue(Instance::new_raw(*cd, ca));
                        o.push(("closure", ck));
                    }
                }
            }
            o.push(("body", k));
        } else {
            o.push(("unresolved", J::Bool(true)));
        }
        J::Obj(o)
    }

    /// callee json of trait method `d` (no generics of its own) for self type `t`, if `t` implements it
    fn method_of(&mut self, d: DefId, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let Some(tr) = tcx.trait_of_assoc(d) else { return J::Null };
        if tcx.generics_of(tr).own_counts().types != 1 || tcx.generics_of(d).own_counts().types != 0 {
            return J::Null;
        }
        if t.has_escaping_bound_vars() || matches!(t.kind(), ty::Error(_)) {
            return J::Null;
        }
        let args = tcx.mk_args(&[t.into()]);
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(_)) => self.callee(d, args),
            _ => J::Null,
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::Arr(vec![J::s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![J::s("field"), J::i(f.index() as i128), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("index"), J::i(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("cindex"),
                    J::i(offset as i128),
                    J::i(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("subslice"), J::i(from as i128), J::i(to as i128), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("downcast"), J::i(v.index() as i128)]),
                _ => J::Arr(vec![J::s("other")]),
            });
        }
        J::Arr(vec![J::i(p.local.index() as i128), J::Arr(pr)])
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, depth: usize) {
        let tcx = self.tcx;
        if depth < 4 && matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_param() {
            if let ty::Array(_, n) = t.kind() {
                if n.try_to_target_usize(tcx).map_or(true, |n| n > 64) {
                    o.push(("opaque", J::Bool(true)));
                    return;
                }
            }
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    let mut fo: Vec<(&'static str, J)> = vec![("ty", self.ty(*ft))];
                    self.const_value(*fv, *ft, &mut fo, depth + 1);
                    fs.push(J::Obj(vec![("const", J::Obj(fo))]));
                }
                o.push(("agg", J::Arr(vec![d.variant.map(|x| J::i(x.index() as i128)).unwrap_or(J::Null), J::Arr(fs)])));
                return;
            }
        }
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                let size = i.size();
                let signed = matches!(t.kind(), ty::Int(_));
                let val = if signed { size.sign_extend(bits) as i128 } else { bits as i128 };
                o.push(("int", J::s(val)));
            }
            ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match std::str::from_utf8(b) {
                        Ok(s) if matches!(t.kind(), ty::Ref(_, e, _) if e.is_str()) => o.push(("str", J::s(s))),
                        _ => o.push(("bytes", J::Arr(b.iter().map(|x| J::i(*x as i128)).collect()))),
                    }
                }
            }
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                // reference to a constant allocation: expose its bytes when it is plain data
                let (prov, off) = p.prov_and_relative_offset();
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                    let a = a.inner();
                    let n = a.len();
                    if a.provenance().ptrs().is_empty() && n <= 4096 {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n);
                        o.push(("refbytes", J::Arr(b.iter().map(|x| J::i(*x as i128)).collect())));
                    }
                } else if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                    o.push(("static", J::s(self.path(d))));
                }
            }
            ConstValue::Indirect { .. } => {
                o.push(("opaque", J::Bool(true)));
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, owner: Option<DefId>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let cal = self.callee(*d, a);
            o.push(("fn", cal));
            return J::Obj(vec![("const", J::Obj(o))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.index() as i128)));
                let _ = owner;
                return J::Obj(vec![("const", J::Obj(o))]);
            }
            o.push(("item", J::s(self.path(u.def))));
        }
        match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => self.const_value(v, t, &mut o, 0),
            Err(_) => {
                o.push(("sym", J::s(pp(|| format!("{}", c.const_)))));
            }
        }
        J::Obj(vec![("const", J::Obj(o))])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Obj(vec![("copy", self.place(p))]),
            Operand::Move(p) => J::Obj(vec![("move", self.place(p))]),
            Operand::Constant(c) => self.constant(c, None),
            #[allow(unreachable_patterns)]
            o => J::Obj(vec![("other", J::s(format!("{:?}", o)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![J::s("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::i(x as i128)).unwrap_or(J::Null);
                J::Arr(vec![J::s("repeat"), self.operand(o), n])
            }
            Rvalue::Ref(_, k, p) => J::Arr(vec![J::s("ref"), J::Bool(matches!(k, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let o2 = self.operand(o);
                let t = self.ty(*t);
                J::Arr(vec![J::s("cast"), J::s(format!("{:?}", k)), o2, t])
            }
            Rvalue::BinaryOp(op, deref!((a, b))) => {
                let a = self.operand(a);
                let b = self.operand(b);
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", op)), a, b])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a);
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", op)), a])
            }
            Rvalue::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(deref!(k), ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kind = match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::Arr(vec![J::s("array"), t])
                    }
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, ..) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        let t = self.ty(t);
                        J::Arr(vec![J::s("adt"), J::s(self.path(*d)), J::i(v.index() as i128), t])
                    }
                    AggregateKind::Closure(d, args) => {
                        let key = self.enqueue(Instance::new_raw(*d, args));
                        J::Arr(vec![J::s("closure"), key])
                    }
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kind, J::Arr(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![J::s("use"), J::Obj(vec![("copy", p)])])
            }
            o => J::Arr(vec![J::s("other"), J::s(format!("{:?}", o))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let l: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        o.push(("locals", J::Arr(l)));
        o.push(("argc", J::i(body.arg_count as i128)));
        o.push(("spread", body.spread_arg.map(|x| J::i(x.index() as i128)).unwrap_or(J::Null)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::Arr(vec![J::s(v.name), p]));
            }
        }
        o.push(("names", J::Arr(names)));
        o.push(("span", self.span(body.span)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(deref!((p, r))) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        let sp = self.span(s.source_info.span);
                        st.push(J::Arr(vec![J::s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![J::s("setdiscr"), p, J::i(variant_index.index() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("dead"), J::i(l.index() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::Arr(vec![J::s("intrinsic"), J::s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbj = |b: &BasicBlock| J::i(b.index() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), bbj(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(J::Arr(vec![J::s(val), bbj(&b)]));
                    }
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    J::Arr(vec![J::s("switch"), d, J::Arr(v), bbj(&targets.otherwise()), dt])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place);
                    let pt = self.ty(pt);
                    J::Arr(vec![J::s("drop"), p, bbj(target), pt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    J::Arr(vec![J::s("call"), f, J::Arr(a), d, target.as_ref().map(bbj).unwrap_or(J::Null)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len);
                            let i = self.operand(index);
                            J::Arr(vec![J::s("bounds"), l, i])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(a);
                            let b = self.operand(b);
                            J::Arr(vec![J::s("overflow"), J::s(format!("{:?}", op)), a, b])
                        }
                        AssertKind::OverflowNeg(_) => J::Arr(vec![J::s("overflowneg")]),
                        AssertKind::DivisionByZero(_) => J::Arr(vec![J::s("divzero")]),
                        AssertKind::RemainderByZero(_) => J::Arr(vec![J::s("remzero")]),
                        _ => J::Arr(vec![J::s("otherassert")]),
                    };
                    J::Arr(vec![J::s("assert"), c, J::Bool(*expected), m, bbj(target)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![J::s("goto"), bbj(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), bbj(real_target)]),
                _ => J::Arr(vec![J::s("otherterm")]),
            };
            bbs.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", term),
                ("sp", sp),
                ("cleanup", J::Bool(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::Arr(bbs)));
        J::Obj(o)
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let dummy = TypingEnv::fully_monomorphized();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_list: vec![],
        ty_env: vec![],
        queue: VecDeque::new(),
        seen: HashMap::new(),
        env: dummy,
    };
    let mut items = vec![];
    // every local body is a root, with its own generic parameters left as parameters
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let mut info: Vec<(&'static str, J)> = vec![];
        info.push(("path", J::s(cx.path(d))));
        info.push(("raw", J::s(tcx.def_path(d).to_string_no_crate_verbose())));
        info.push(("kind", J::s(format!("{:?}", kind))));
        cx.env = TypingEnv::post_analysis(tcx, d);
        if kind != DefKind::Closure {
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            info.push(("key", J::s(cx.key(inst))));
            cx.enqueue(inst);
            // concrete instances for one- and two-byte letters
            let mut monos = vec![];
            let g = tcx.generics_of(d);
            let mut n_ty = 0;
            let mut n_const = 0;
            for i in 0..g.count() {
                match g.param_at(i, tcx).kind {
                    ty::GenericParamDefKind::Type { .. } => n_ty += 1,
                    ty::GenericParamDefKind::Const { .. } => n_const += 1,
                    _ => {}
                }
            }
            if n_ty == 1 && n_const == 0 && tcx.trait_of_assoc(d).is_none() {
                let keep = cx.env;
                cx.env = dummy;
                for (n, t) in [("u8", tcx.types.u8), ("u16", tcx.types.u16)] {
                    let ma = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => t.into(),
                    });
                    if tcx.instantiate_and_check_impossible_clauses((d, ma)) {
                        continue;
                    }
                    let mi = Instance::new_raw(d, ma);
                    let k = cx.enqueue(mi);
                    monos.push(J::Arr(vec![J::s(n), k]));
                }
                cx.env = keep;
            }
            info.push(("mono", J::Arr(monos)));
            info.push(("vis", J::s(format!("{:?}", tcx.visibility(d)))));
            let ev = tcx.effective_visibilities(()).is_reachable(*ld);
            info.push(("exported", J::Bool(ev)));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|x| cx.ty(*x)).collect();
            info.push(("inputs", J::Arr(ins)));
            let out = sig.output();
            info.push(("output", cx.ty(out)));
            info.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                info.push(("self", cx.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    info.push(("trait", J::s(cx.path(tr.def_id))));
                }
            }
            let attrs = tcx.hir_attrs(tcx.local_def_id_to_hir_id(*ld));
            info.push(("derived", J::Bool(tcx.is_automatically_derived(tcx.impl_of_assoc(d).unwrap_or(d)))));
            let _ = attrs;
        }
        info.push(("span", cx.span(tcx.def_span(d))));
        items.push(J::Obj(info));
    }
    // data types of this crate
    let mut adts = vec![];
    let mut statics = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.env = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                adts.push(cx.ty(t));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::Obj(vec![
                    ("path", J::s(cx.path(d))),
                    ("mut", J::Bool(mutability.is_mut())),
                    ("ty", cx.ty(t)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }
    // trait implementations in this crate
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            cx.env = TypingEnv::post_analysis(tcx, d);
            let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            let st = tr.self_ty();
            impls.push(J::Obj(vec![
                ("trait", J::s(cx.path(tr.def_id))),
                ("self", cx.ty(st)),
                ("derived", J::Bool(tcx.is_automatically_derived(d))),
                ("span", cx.span(tcx.def_span(d))),
            ]));
        }
    }
    let mut bodies: Vec<(String, J)> = vec![];
    let mut done_ty = 0;
    let mut tys = vec![];
    loop {
        while let Some((inst, env)) = cx.queue.pop_front() {
            cx.env = env;
            let key = cx.key(inst);
            let raw = tcx.instance_mir(inst.def);
            let body = if inst.args.has_param() || true {
                let eb = ty::EarlyBinder::bind(tcx, raw.clone());
                inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, eb).unwrap_or_else(|_| raw.clone())
            } else {
                raw.clone()
            };
            let mut j = match cx.body(&body) {
                J::Obj(v) => v,
                _ => unreachable!(),
            };
            j.push(("path", J::s(cx.path(inst.def_id()))));
            j.push(("krate", J::s(tcx.crate_name(inst.def_id().krate))));
            let mut proms = vec![];
            for p in tcx.promoted_mir(inst.def_id()).iter() {
                let eb = ty::EarlyBinder::bind(tcx, p.clone());
                let pb = inst
                    .try_instantiate_mir_and_normalize_erasing_regions(tcx, env, eb)
                    .unwrap_or_else(|_| p.clone());
                proms.push(cx.body(&pb));
            }
            j.push(("promoted", J::Arr(proms)));
            bodies.push((key, J::Obj(j)));
        }
        if done_ty == cx.ty_list.len() {
            break;
        }
        while done_ty < cx.ty_list.len() {
            let t = cx.ty_json(done_ty);
            tys.push(t);
            done_ty += 1;
        }
    }
    let j = J::Obj(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE))),
        ("types", J::Arr(tys)),
        ("items", J::Arr(items)),
        ("adts", J::Arr(adts)),
        ("statics", J::Arr(statics)),
        ("impls", J::Arr(impls)),
        ("bodies", J::Map(bodies)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    s
}
