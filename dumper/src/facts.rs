//! Facts about the crate's own source: unsafe code, linked crates, loops, functions.
use crate::json::J;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use rustc_span::Span;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    owner: Vec<String>,
    uns: Vec<J>,
    loops: Vec<J>,
    paths: std::collections::BTreeMap<String, J>,
    typeck: Vec<Option<&'tcx rustc_middle::ty::TypeckResults<'tcx>>>,
    exprs: usize,
}

impl<'tcx> V<'tcx> {
    fn at(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.source_callsite().lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn rec(&self, what: &str, s: Span) -> J {
        let mac = match s.macro_backtrace().last() {
            Some(e) => match e.macro_def_id {
                Some(d) => self.tcx.crate_name(d.krate).to_string() + "::" + self.tcx.item_name(d).as_str(),
                None => "desugaring".to_string(),
            },
            None => String::new(),
        };
        J::Obj(vec![
            ("what", J::s(what)),
            ("in", J::s(self.owner.last().cloned().unwrap_or_default())),
            ("at", J::s(self.at(s))),
            ("macro", J::s(mac)),
        ])
    }
    /// A use of an item of another crate, or of a static.
    fn uses(&mut self, d: rustc_hir::def_id::DefId, s: Span) {
        // an immutable table is no shared mutable state
        let stat = match self.tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let te = rustc_middle::ty::TypingEnv::fully_monomorphized();
                mutability.is_mut() || !self.tcx.type_of(d).skip_binder().is_freeze(self.tcx, te)
            }
            _ => false,
        };
        if d.is_local() && !stat {
            return;
        }
        let n = if stat { format!("static {}", self.tcx.def_path_str(d)) } else { rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)) };
        let r = self.rec(&n, s);
        let body = matches!(self.typeck.last(), Some(Some(_)));
        if let J::Obj(mut f) = r {
            let mac = format!("{}", matches!(&f[3].1, J::Str(m) if m.is_empty()));
            f.push(("body", J::Bool(body)));
            self.paths.entry(format!("{n} {mac} {body}")).or_insert(J::Obj(f));
        }
    }
    fn name(&self, id: hir::OwnerId) -> String {
        self.tcx.def_path_str(id.to_def_id())
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        let n = self.name(i.owner_id);
        self.owner.push(n);
        self.typeck.push(None);
        match &i.kind {
            hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if matches!(t.safety, hir::Safety::Unsafe) {
                        let r = self.rec("unsafe impl", i.span);
                        self.uns.push(r);
                    }
                }
            }
            hir::ItemKind::Fn { sig, .. } => {
                if sig.header.is_unsafe() {
                    let r = self.rec("unsafe fn", i.span);
                    self.uns.push(r);
                }
            }
            hir::ItemKind::ForeignMod { .. } => {
                let r = self.rec("extern block", i.span);
                self.uns.push(r);
            }
            hir::ItemKind::Static(m, ..) => {
                if m.is_mut() {
                    let r = self.rec("static mut", i.span);
                    self.uns.push(r);
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
        self.typeck.pop();
        self.owner.pop();
    }
    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        let n = self.name(i.owner_id);
        self.owner.push(n);
        if let hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if sig.header.is_unsafe() {
                let r = self.rec("unsafe fn", i.span);
                self.uns.push(r);
            }
        }
        intravisit::walk_impl_item(self, i);
        self.owner.pop();
    }
    fn visit_trait_item(&mut self, i: &'tcx hir::TraitItem<'tcx>) {
        let n = self.name(i.owner_id);
        self.owner.push(n);
        intravisit::walk_trait_item(self, i);
        self.owner.pop();
    }
    fn visit_nested_body(&mut self, id: hir::BodyId) {
        self.typeck.push(Some(self.tcx.typeck_body(id)));
        intravisit::walk_body(self, self.tcx.hir_body(id));
        self.typeck.pop();
    }
    fn visit_path(&mut self, p: &hir::Path<'tcx>, _: hir::HirId) {
        if let hir::def::Res::Def(_, d) = p.res {
            self.uses(d, p.span);
        }
        intravisit::walk_path(self, p);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        self.exprs += 1;
        match &e.kind {
            hir::ExprKind::Loop(..) => {
                let r = self.rec("loop", e.span);
                self.loops.push(r);
            }
            hir::ExprKind::MethodCall(..) => {
                if let Some(Some(t)) = self.typeck.last() {
                    if let Some(d) = t.type_dependent_def_id(e.hir_id) {
                        self.uses(d, e.span);
                    }
                }
            }
            hir::ExprKind::Path(q) => {
                if let Some(Some(t)) = self.typeck.last() {
                    if let hir::def::Res::Def(_, d) = t.qpath_res(q, e.hir_id) {
                        self.uses(d, e.span);
                    }
                }
            }
            hir::ExprKind::InlineAsm(..) => {
                let r = self.rec("inline assembly", e.span);
                self.uns.push(r);
            }
            _ => {}
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let r = self.rec("unsafe block", b.span);
            self.uns.push(r);
        }
        intravisit::walk_block(self, b);
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut v = V { tcx, owner: vec![], uns: vec![], loops: vec![], paths: Default::default(), typeck: vec![], exprs: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let mut fns = vec![];
    let mut outs = vec![];
    let mut items = 0;
    for id in tcx.hir_crate_items(()).definitions() {
        items += 1;
        if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
            let s = v.at(tcx.def_span(id));
            let has = tcx.hir_maybe_body_owned_by(id).is_some();
            let out = tcx.fn_sig(id).instantiate_identity().skip_normalization().output().skip_binder();
            let mut muts = vec![];
            for t in out.walk() {
                if let Some(t) = t.as_type() {
                    if let rustc_middle::ty::Ref(_, inner, m) = t.kind() {
                        if m.is_mut() {
                            muts.push(J::s(rustc_middle::ty::print::with_no_trimmed_paths!(inner.to_string())));
                        }
                    }
                }
            }
            if !muts.is_empty() {
                // whose function it is: the type and the trait of the impl it stands in
                let (mut on, mut of, mut args) = (String::new(), String::new(), vec![]);
                let par = tcx.parent(id.to_def_id());
                if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                    if let rustc_middle::ty::Adt(a, g) = tcx.type_of(par).instantiate_identity().skip_normalization().kind() {
                        on = tcx.item_name(a.did()).to_string();
                        for t in g.types() {
                            args.push(J::s(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())));
                        }
                    }
                    if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                        of = tcx.item_name(tr.skip_binder().def_id).to_string();
                    }
                }
                outs.push(J::Arr(vec![J::s(tcx.def_path_str(id.to_def_id())), J::Arr(muts), J::Bool(tcx.visibility(id.to_def_id()).is_public()), J::s(v.at(tcx.def_span(id))), J::s(on), J::s(of), J::Arr(args)]));
            }
            fns.push(J::Arr(vec![J::s(tcx.def_path_str(id.to_def_id())), J::s(s), J::Bool(has)]));
        }
    }
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct) {
            let a = tcx.adt_def(id.to_def_id());
            let mut fields = vec![];
            for f in a.all_fields() {
                fields.push(J::Arr(vec![J::s(f.name.to_string()), J::Bool(f.vis.is_public())]));
            }
            adts.push(J::Obj(vec![
                ("name", J::s(tcx.def_path_str(id.to_def_id()))),
                ("public", J::Bool(tcx.visibility(id.to_def_id()).is_public())),
                ("fields", J::Arr(fields)),
                ("at", J::s(v.at(tcx.def_span(id)))),
            ]));
        }
    }
    let crates: Vec<J> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
    // the crate's prelude: `core` without `std` means the attribute is in force
    let no_std = !tcx.crates(()).iter().any(|c| tcx.crate_name(*c).as_str() == "std" && tcx.extern_crate(*c).map_or(false, |e| e.dependency_of == rustc_span::def_id::LOCAL_CRATE));
    let std_users: Vec<J> = tcx
        .crates(())
        .iter()
        .filter(|c| tcx.crate_name(**c).as_str() == "std")
        .filter_map(|c| tcx.extern_crate(*c))
        .map(|e| J::s(tcx.crate_name(e.dependency_of).to_string()))
        .collect();
    let j = J::Obj(vec![
        ("unsafe", J::Arr(v.uns)),
        ("loops", J::Arr(v.loops)),
        ("paths", J::Arr(v.paths.into_values().collect())),
        ("exprs", J::n(v.exprs)),
        ("items", J::n(items)),
        ("mut_results", J::Arr(outs)),
        ("structs", J::Arr(adts)),
        ("fns", J::Arr(fns)),
        ("crates", J::Arr(crates)),
        ("no_std", J::Bool(no_std)),
        ("std_users", J::Arr(std_users)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    s
}
