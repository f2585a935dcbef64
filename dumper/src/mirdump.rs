use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, VecDeque};

pub struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_out: Vec<J>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
}

/// Library modules whose bodies are never dumped: the analyzer has contracts
/// for what it needs from them (or treats the call as unknown).
fn opaque_path(krate: &str, path: &str) -> bool {
    match krate {
        "std" => true,
        "alloc" => {
            !(path.starts_with("borrow") || path.starts_with("boxed::{impl") && false)
        }
        "core" => {
            for p in ["fmt", "panicking", "str", "unicode", "num::flt2dec", "num::dec2flt", "alloc", "any", "hash", "char", "ffi", "intrinsics::const_eval"] {
                if path == p || path.starts_with(&format!("{p}::")) {
                    return true;
                }
            }
            false
        }
        "hashbrown" | "generic_array" | "ahash" | "foldhash" | "allocator_api2" => true,
        _ => false,
    }
}

fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    if sp.is_dummy() {
        return "?".into();
    }
    let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let name = format!("{}", lo.file.name.prefer_remapped_unconditionally());
    format!("{}:{}", name, lo.line)
}

fn def_path(tcx: TyCtxt<'_>, id: DefId) -> (String, String) {
    let k = tcx.crate_name(id.krate).to_string();
    let p = tcx.def_path(id).to_string_no_crate_verbose();
    (k, p.trim_start_matches("::").to_string())
}

impl<'tcx> Dumper<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(format!("{t}")))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::n(i.normalize(64).bit_width().unwrap() as usize)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("uint")));
                o.push(("bits", J::n(i.normalize(64).bit_width().unwrap() as usize)));
            }
            ty::Ref(_, p, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("to", J::n(self.ty(p))));
            }
            ty::RawPtr(p, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("to", J::n(self.ty(p))));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("fields", J::Arr(v)));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("to", J::n(self.ty(e))));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", J::n(n as usize)));
                }
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("to", J::n(self.ty(e))));
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let args = args.no_bound_vars().expect("late bound fndef");
                let c = self.callee(d, args, DUMMY_SP);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let (k, p) = def_path(self.tcx, d);
                o.push(("path", J::s(format!("{k}::{p}"))));
                let kind = args.as_closure().kind();
                o.push(("ckind", J::s(format!("{kind:?}"))));
                let inst = Instance::new_raw(d, args);
                let f = self.inst(inst);
                o.push(("body", J::n(f)));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("fields", J::Arr(ups)));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let (k, p) = def_path(self.tcx, def.did());
                o.push(("crate", J::s(k.clone())));
                o.push(("path", J::s(format!("{k}::{p}"))));
                o.push(("local", J::Bool(def.did().is_local())));
                let targs: Vec<J> = args.types().map(|x| { let x = self.norm(x); J::n(self.ty(x)) }).collect();
                o.push(("args", J::Arr(targs)));
                o.push(("has_dtor", J::Bool(def.destructor(self.tcx).is_some())));
                let opaque = opaque_path(&k, &p) && !p.starts_with("borrow");
                if !def.is_union() && (!opaque || def.is_enum()) {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            J::s(format!("{}", d.val))
                        } else {
                            J::Null
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                            let fi = self.ty(ft);
                            fs.push(J::Arr(vec![J::s(f.name.to_string()), J::n(fi)]));
                        }
                        vs.push(J::Obj(vec![("name", J::s(v.name.to_string())), ("discr", d), ("fields", J::Arr(fs))]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
            }
            _ => o.push(("k", J::s("other"))),
        }
        self.ty_out[id] = J::Obj(o);
        id
    }

    /// Resolve a callee and describe it.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, _sp: Span) -> J {
        let tcx = self.tcx;
        let args = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args));
        let mut o: Vec<(&'static str, J)> = vec![];
        let (k, p) = def_path(tcx, d);
        o.push(("decl", J::s(self.nice(d))));
        o.push(("declpath", J::s(format!("{k}::{p}"))));
        let targs: Vec<J> = args.types().map(|x| J::n(self.ty(x))).collect();
        o.push(("args", J::Arr(targs)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, vi) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let adt = tcx.parent(parent);
                let def = tcx.adt_def(adt);
                (adt, def.variant_index_with_ctor_id(d).as_usize())
            } else {
                (parent, 0)
            };
            let t = tcx.type_of(adt).instantiate(tcx, args);
            let t = tcx.normalize_erasing_regions(self.env, t);
            let ti = self.ty(t);
            o.push(("ctor", J::Arr(vec![J::n(ti), J::n(vi)])));
            return J::Obj(o);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let f = self.inst(i);
                o.push(("fn", J::n(f)));
            }
            _ => {}
        }
        J::Obj(o)
    }

    /// A readable name: `trait_path::method`, `adt_path::method` or the path.
    fn nice(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let (k, p) = def_path(tcx, d);
        if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::AssocConst { .. }) {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let (k, p) = def_path(tcx, tr);
                return format!("{k}::{p}::{}", tcx.item_name(d));
            }
            if let Some(ti) = tcx.trait_item_of(d) {
                if ti != d {
                    return self.nice(ti);
                }
            }
            if let Some(im) = tcx.inherent_impl_of_assoc(d) {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let base = match t.kind() {
                    ty::Adt(def, _) => {
                        let (k, p) = def_path(tcx, def.did());
                        format!("{k}::{p}")
                    }
                    ty::Slice(_) => "slice".into(),
                    ty::RawPtr(..) => "ptr".into(),
                    _ => format!("{t}"),
                };
                return format!("{base}::{}", tcx.item_name(d));
            }
        }
        format!("{k}::{p}")
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let id = self.fn_out.len();
        self.fns.insert(i, id);
        self.fn_out.push(J::Null);
        self.queue.push_back((id, i));
        id
    }

    fn do_fn(&mut self, id: usize, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = i.def_id();
        let (k, p) = def_path(tcx, d);
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("name", J::s(self.nice(d))));
        o.push(("crate", J::s(k.clone())));
        o.push(("path", J::s(format!("{k}::{p}"))));
        o.push(("span", J::s(span_str(tcx, tcx.def_span(d)))));
        o.push(("inst", J::s(format!("{i}"))));
        let targs: Vec<J> = i.args.types().map(|x| J::n(self.ty(x))).collect();
        o.push(("args", J::Arr(targs)));
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let t = tcx.type_of(im).instantiate(tcx, i.args);
                let t = tcx.normalize_erasing_regions(self.env, t);
                let ti = self.ty(t);
                o.push(("self", J::n(ti)));
            } else if let Some(_) = tcx.trait_of_assoc(d) {
                let t = i.args.type_at(0);
                let ti = self.ty(t);
                o.push(("self", J::n(ti)));
            }
        }
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
            _ => "shim",
        };
        o.push(("kind", J::s(kind)));
        if kind == "intrinsic" {
            o.push(("intrinsic", J::s(tcx.item_name(d).to_string())));
        }
        let has_body = match i.def {
            InstanceKind::Item(d) => {
                matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
                    && tcx.is_mir_available(d)
                    && !opaque_path(&k, &p)
                    && !tcx.is_foreign_item(d)
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        };
        // The abstract types' own functions are contracts.
        let is_abs = k == "veb_harness" && p.starts_with("abs::");
        o.push(("abs", J::Bool(is_abs)));
        if has_body && !is_abs {
            let body = tcx.instance_mir(i.def);
            let body = i.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            );
            let b = self.body(&body);
            o.push(("body", b));
        } else if !is_abs && opaque_path(&k, &p) {
            // A library function whose body is not read may drive an iterator of the
            // crate's: give the analyzer that iterator's own functions.
            let its: Vec<J> = i.args.types().map(|t| self.iterator(t)).collect();
            o.push(("iters", J::Arr(its)));
        }
        self.fn_out[id] = J::Obj(o);
    }

    /// `[into_iter, next]` for a type that can be iterated, else null.
    fn iterator(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (Some(into), Some(iter)) = (
            tcx.get_diagnostic_item(rustc_span::sym::IntoIterator),
            tcx.get_diagnostic_item(rustc_span::sym::Iterator),
        ) else {
            return J::Null;
        };
        let method = |tr: DefId, n: &str| {
            tcx.associated_items(tr).in_definition_order().find(|x| x.opt_name().is_some_and(|s| s.as_str() == n)).map(|x| x.def_id)
        };
        let (Some(mi), Some(mn)) = (method(into, "into_iter"), method(iter, "next")) else {
            return J::Null;
        };
        let Ok(Some(ii)) = Instance::try_resolve(tcx, self.env, mi, tcx.mk_args(&[t.into()])) else {
            return J::Null;
        };
        let sig = tcx.fn_sig(ii.def_id()).instantiate(tcx, ii.args);
        let out = tcx.normalize_erasing_regions(self.env, sig).skip_binder().output();
        let Ok(Some(ni)) = Instance::try_resolve(tcx, self.env, mn, tcx.mk_args(&[out.into()])) else {
            return J::Null;
        };
        let (a, b) = (self.inst(ii), self.inst(ni));
        J::Arr(vec![J::n(a), J::n(b)])
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(J::n(self.ty(l.ty)));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let pj = self.place(b, p);
                        let rj = self.rvalue(b, r);
                        J::Arr(vec![J::s("="), pj, rj, J::s(self.line(s.source_info.span))])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(b, place);
                        J::Arr(vec![J::s("setd"), pj, J::n(variant_index.as_usize())])
                    }
                    StatementKind::Intrinsic(x) => match &**x {
                        NonDivergingIntrinsic::Assume(op) => {
                            let oj = self.operand(b, op);
                            J::Arr(vec![J::s("assume"), oj])
                        }
                        _ => J::Arr(vec![J::s("unk"), J::s(format!("{:?}", s.kind))]),
                    },
                    StatementKind::StorageLive(_)
                    | StatementKind::StorageDead(_)
                    | StatementKind::Nop
                    | StatementKind::Coverage(_)
                    | StatementKind::ConstEvalCounter
                    | StatementKind::PlaceMention(_)
                    | StatementKind::FakeRead(_)
                    | StatementKind::AscribeUserType(..) => continue,
                    _ => J::Arr(vec![J::s("unk"), J::s(format!("{:?}", s.kind))]),
                };
                st.push(j);
            }
            let t = bb.terminator();
            let ln = J::s(self.line(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), J::n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let oj = self.operand(b, discr);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(J::Arr(vec![J::s(format!("{val}")), J::n(bb.as_usize())]));
                    }
                    J::Arr(vec![J::s("switch"), oj, J::Arr(v), J::n(targets.otherwise().as_usize()), ln])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable"), ln]),
                TerminatorKind::UnwindResume => J::Arr(vec![J::s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("abort")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(ty);
                    let pj = self.place(b, place);
                    J::Arr(vec![J::s("drop"), pj, J::n(target.as_usize()), J::n(ti)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = self.func(b, func);
                    let aj = args.iter().map(|a| self.operand(b, &a.node)).collect();
                    let dj = self.place(b, destination);
                    let tj = match target {
                        Some(t) => J::n(t.as_usize()),
                        None => J::Null,
                    };
                    J::Arr(vec![J::s("call"), fj, J::Arr(aj), dj, tj, ln])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let fj = self.func(b, func);
                    let aj = args.iter().map(|a| self.operand(b, &a.node)).collect();
                    J::Arr(vec![J::s("tailcall"), fj, J::Arr(aj), ln])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let oj = self.operand(b, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::Arr(vec![J::s("assert"), oj, J::Bool(*expected), J::n(target.as_usize()), J::s(m), ln])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![J::s("goto"), J::n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), J::n(real_target.as_usize())]),
                k => J::Arr(vec![J::s("unk"), J::s(format!("{k:?}"))]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", tj), ("c", J::Bool(bb.is_cleanup))]));
        }
        let spread = match b.spread_arg {
            Some(l) => J::n(l.as_usize()),
            None => J::Null,
        };
        J::Obj(vec![
            ("argc", J::n(b.arg_count)),
            ("spread", spread),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn line(&self, sp: Span) -> String {
        span_str(self.tcx, sp)
    }

    fn func(&mut self, b: &Body<'tcx>, f: &Operand<'tcx>) -> J {
        let t = f.ty(&b.local_decls, self.tcx);
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().expect("late bound fndef");
            return self.callee(d, args, DUMMY_SP);
        }
        let oj = self.operand(b, f);
        J::Obj(vec![("op", oj)])
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => J::n(f.as_usize()),
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::n(offset as usize),
                    J::n(min_length as usize),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("ss"), J::n(from as usize), J::n(to as usize), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("d"), J::n(v.as_usize())]),
                _ => {
                    pt = pt.projection_ty(self.tcx, e);
                    continue;
                }
            };
            pt = pt.projection_ty(self.tcx, e);
            v.push(j);
        }
        let _ = pt;
        J::Arr(v)
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let pj = self.place(b, p);
                J::Arr(vec![J::s("c"), pj])
            }
            Operand::Move(p) => {
                let pj = self.place(b, p);
                J::Arr(vec![J::s("m"), pj])
            }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = self.constant(&c.const_);
                J::Arr(vec![J::s("k"), J::n(ti), v])
            }
            Operand::RuntimeChecks(r) => {
                let v = match r {
                    RuntimeChecks::OverflowChecks => true,
                    _ => false,
                };
                let ti = self.ty(self.tcx.types.bool);
                J::Arr(vec![J::s("k"), J::n(ti), J::s(if v { "1" } else { "0" })])
            }
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> J {
        let t = c.ty();
        match t.kind() {
            ty::FnDef(..) => return J::Null,
            _ => {}
        }
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::Obj(vec![("unk", J::s(format!("{c}")))]),
        }
    }

    /// Constant values: "123" for scalars (unsigned bit pattern), {"f":[..],"v":variant}
    /// for aggregates, {"ref": value} for references, {"str":..}.
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Obj(vec![("unk", J::s("deep"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Pat(..) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return J::s(format!("{}", s.to_bits(s.size())));
                }
                if let ConstValue::Indirect { .. } = v {
                    return self.cval_indirect(v, t, depth);
                }
            }
            ty::Closure(_, args) => {
                if args.as_closure().upvar_tys().is_empty() {
                    return J::Obj(vec![("f", J::Arr(vec![]))]);
                }
            }
            ty::FnDef(..) => return J::Null,
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return J::Obj(vec![("unk", J::s("union"))]);
                    }
                }
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).map_or(true, |n| n > 64) {
                        return J::Obj(vec![("unk", J::s("array"))]);
                    }
                }
                if t.has_param() {
                    return J::Obj(vec![("unk", J::s("param"))]);
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return J::Obj(vec![
                        ("f", J::Arr(fs)),
                        ("v", match d.variant { Some(v) => J::n(v.as_usize()), None => J::Null }),
                    ]);
                }
            }
            ty::Ref(_, p, _) => {
                if let ty::Str = p.kind() {
                    if let ConstValue::Slice { .. } = v {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::Obj(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))]);
                        }
                    }
                    return J::Obj(vec![("str", J::s(""))]);
                }
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) = v {
                    let (prov, off) = ptr.into_raw_parts();
                    if p.is_sized(tcx, self.env) {
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) =
                            tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            // read scalars directly, aggregates through Indirect
                            let inner = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let j = self.cval_indirect(inner, *p, depth + 1);
                            return J::Obj(vec![("ref", j)]);
                        }
                    }
                }
            }
            _ => {}
        }
        J::Obj(vec![("unk", J::s(format!("{t}")))])
    }

    fn cval_indirect(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Pat(..) => {
                    let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        let r = rustc_middle::mir::interpret::alloc_range(offset, l.size);
                        if let Ok(s) = alloc.inner().read_scalar(&tcx, r, false) {
                            if let Some(i) = s.try_to_scalar_int().ok() {
                                return J::s(format!("{}", i.to_bits(i.size())));
                            }
                        }
                    }
                    return J::Obj(vec![("unk", J::s("indirect"))]);
                }
                _ => {}
            }
        }
        self.cval(v, t, depth)
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let oj = self.operand(b, o);
                J::Arr(vec![J::s("use"), oj])
            }
            Rvalue::Repeat(o, n) => {
                let oj = self.operand(b, o);
                let n = n.try_to_target_usize(self.tcx).unwrap_or(u64::MAX >> 1);
                J::Arr(vec![J::s("rep"), oj, J::n(n as usize)])
            }
            Rvalue::Ref(_, k, p) => {
                let pj = self.place(b, p);
                J::Arr(vec![J::s("ref"), pj, J::Bool(matches!(k, BorrowKind::Mut { .. }))])
            }
            Rvalue::RawPtr(_, p) => {
                let pj = self.place(b, p);
                J::Arr(vec![J::s("ref"), pj, J::Bool(true)])
            }
            Rvalue::Reborrow(_, m, p) => {
                let pj = self.place(b, p);
                J::Arr(vec![J::s("ref"), pj, J::Bool(m.is_mut())])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(b, p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), pj])])
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&b.local_decls, self.tcx);
                let fi = self.ty(ft);
                let oj = self.operand(b, o);
                let ti = self.ty(*t);
                J::Arr(vec![J::s("cast"), J::s(format!("{k:?}")), oj, J::n(fi), J::n(ti)])
            }
            Rvalue::BinaryOp(op, x) => {
                let t = x.0.ty(&b.local_decls, self.tcx);
                let ti = self.ty(t);
                let l = self.operand(b, &x.0);
                let r = self.operand(b, &x.1);
                let t2 = x.1.ty(&b.local_decls, self.tcx);
                let ti2 = self.ty(t2);
                J::Arr(vec![J::s("bin"), J::s(format!("{op:?}")), l, r, J::n(ti), J::n(ti2)])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&b.local_decls, self.tcx);
                let ti = self.ty(t);
                let oj = self.operand(b, o);
                J::Arr(vec![J::s("un"), J::s(format!("{op:?}")), oj, J::n(ti)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                let pj = self.place(b, p);
                J::Arr(vec![J::s("discr"), pj, J::n(ti)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(b, o));
                }
                let kj = match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(self.env, t);
                        let ti = self.ty(t);
                        J::Arr(vec![J::s("adt"), J::n(ti), J::n(vi.as_usize())])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        J::Arr(vec![J::s("closure"), J::n(ti)])
                    }
                    AggregateKind::RawPtr(..) => J::Arr(vec![J::s("rawptr")]),
                    _ => J::Arr(vec![J::s("unk")]),
                };
                J::Arr(vec![J::s("agg"), kj, J::Arr(v)])
            }
            _ => J::Arr(vec![J::s("unk"), J::s(format!("{r:?}"))]),
        }
    }
}

impl<'tcx> Dumper<'tcx> {
    /// Every public function of the analysed crate that needs no type argument.
    fn api(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let Some(cr) = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "veb_tree") else {
            return J::Arr(out);
        };
        let mut fns: Vec<DefId> = vec![];
        let mut mods = vec![cr.as_def_id()];
        let mut seen = std::collections::HashSet::new();
        while let Some(m) = mods.pop() {
            if !seen.insert(m) {
                continue;
            }
            for c in tcx.module_children(m) {
                let Some(id) = c.res.opt_def_id() else { continue };
                if id.krate != cr || !c.vis.is_public() {
                    continue;
                }
                match tcx.def_kind(id) {
                    DefKind::Mod => mods.push(id),
                    DefKind::Fn => fns.push(id),
                    DefKind::Struct | DefKind::Enum => {
                        for im in tcx.inherent_impls(id) {
                            for a in tcx.associated_item_def_ids(*im) {
                                if matches!(tcx.def_kind(*a), DefKind::AssocFn) && tcx.visibility(*a).is_public() {
                                    fns.push(*a);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        for im in tcx.trait_impls_in_crate(cr) {
            let Some(tr) = tcx.impl_opt_trait_ref(*im) else { continue };
            if !tcx.visibility(tr.skip_binder().def_id).is_public() {
                continue;
            }
            for a in tcx.associated_item_def_ids(*im) {
                if matches!(tcx.def_kind(*a), DefKind::AssocFn) {
                    fns.push(*a);
                }
            }
        }
        for f in fns {
            if !seen.insert(f) || tcx.generics_of(f).requires_monomorphization(tcx) {
                continue;
            }
            let inst = Instance::mono(tcx, f);
            let sig = tcx.fn_sig(f).instantiate_identity().skip_normalization();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let sig = tcx.erase_and_anonymize_regions(sig);
            let ins: Vec<Ty<'tcx>> = sig.inputs().iter().map(|t| self.norm(*t)).collect();
            let res = self.norm(sig.output());
            let ins: Vec<J> = ins.into_iter().map(|t| J::n(self.ty(t))).collect();
            let res = J::n(self.ty(res));
            let id = self.inst(inst);
            out.push(J::Arr(vec![J::s(tcx.def_path_str(f)), J::n(id), J::Arr(ins), res, J::s(span_str(tcx, tcx.def_span(f)))]));
        }
        J::Arr(out)
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = Dumper {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        ty_out: vec![],
        fns: HashMap::new(),
        fn_out: vec![],
        queue: VecDeque::new(),
    };
    let mut roots = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(id), DefKind::Fn) {
            continue;
        }
        let (_, p) = def_path(tcx, id.to_def_id());
        if !p.starts_with("roots::") {
            continue;
        }
        if tcx.generics_of(id).requires_monomorphization(tcx) {
            continue;
        }
        let i = Instance::mono(tcx, id.to_def_id());
        let f = d.inst(i);
        roots.push(J::Arr(vec![J::s(p.trim_start_matches("roots::").to_string()), J::n(f)]));
    }
    let api = d.api();
    while let Some((id, i)) = d.queue.pop_front() {
        d.do_fn(id, i);
    }
    let j = J::Obj(vec![("roots", J::Arr(roots)), ("api", api), ("types", J::Arr(d.ty_out)), ("fns", J::Arr(d.fn_out))]);
    let mut s = String::new();
    j.write(&mut s);
    s
}
