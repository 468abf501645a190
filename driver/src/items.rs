//! Items of the crate under analysis: data types with their attributes, impls, unsafe code,
//! statics, constants.
use rustc_attr_ir::{AttrArgs, Attribute};
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_span::def_id::{DefId, LocalDefId};
use serde_json::Value;

fn loc(tcx: TyCtxt<'_>, sp: Span) -> Value {
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.source_callsite().lo());
    let name = match &lo.file.name {
        rustc_span::FileName::Real(r) => {
            r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
        }
        _ => String::new(),
    };
    json!(format!("{name}:{}", lo.line))
}

fn attrs(tcx: TyCtxt<'_>, def: LocalDefId) -> Value {
    let id = tcx.local_def_id_to_hir_id(def);
    let mut v = vec![];
    for a in tcx.hir_attrs(id) {
        match a {
            Attribute::DeriveHelper(i) | Attribute::Tool(i) => {
                let path: Vec<String> = i.path.segments.iter().map(|s| s.to_string()).collect();
                let args = match &i.args {
                    AttrArgs::Empty => String::new(),
                    AttrArgs::Delimited(d) => {
                        tcx.sess.source_map().span_to_snippet(d.dspan.entire()).unwrap_or_default();
                        rustc_ast_pretty::pprust::tts_to_string(&d.tokens)
                    }
                    AttrArgs::Eq { expr, .. } => format!("= {}", expr.symbol),
                };
                v.push(json!({"path": path.join("::"), "args": args}));
            }
            Attribute::Parsed(_) => {}
        }
    }
    Value::Array(v)
}

/// What the compiler knows about sharing a type: [can be sent, can be shared, is changed only
/// through exclusive references]. Type parameters stand for plain numbers.
fn sharing<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Value {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let env = TypingEnv::fully_monomorphized();
    let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    let has = |d: Option<DefId>| {
        d.is_some_and(|d| icx.type_implements_trait(d, [ty], penv).must_apply_modulo_regions())
    };
    let send = has(tcx.get_diagnostic_item(rustc_span::sym::Send));
    let sync = has(tcx.lang_items().sync_trait());
    json!([send, sync, ty.is_freeze(tcx, env)])
}

/// A static item: its type, whether it can change, and the same for what it holds if it is a cell
/// that is filled once.
pub fn shared_static(tcx: TyCtxt<'_>, did: DefId) -> Value {
    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let held = match ty.kind() {
        ty::Adt(_, a) => a.types().next().map(|t| sharing(tcx, t)),
        _ => None,
    };
    json!({"ty": ty.to_string(), "share": sharing(tcx, ty), "held": held, "mut": tcx.is_mutable_static(did),
        "foreign": tcx.is_foreign_item(did), "thread": tcx.is_thread_local_static(did)})
}

/// The type an item declares, with numbers for its type parameters.
fn plain_type<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> Option<Ty<'tcx>> {
    let gs = tcx.generics_of(did);
    for i in 0..gs.count() {
        if matches!(gs.param_at(i, tcx).kind, ty::GenericParamDefKind::Const { .. }) {
            return None;
        }
    }
    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        _ => tcx.types.u32.into(),
    });
    Some(tcx.type_of(did).instantiate(tcx, args).skip_norm_wip())
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Value>,
    cur: Option<LocalDefId>,
    ops: Vec<Value>,
    uses: Vec<Value>,
}

impl<'tcx> UnsafeFinder<'tcx> {
    /// The unsafe operation performed by this expression itself, if any.
    fn op(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) -> Option<Value> {
        use rustc_hir::ExprKind;
        let tcx = self.tcx;
        let tr = tcx.typeck(self.cur.unwrap());
        let callee = match e.kind {
            ExprKind::Call(f, _) => match *tr.node_type(f.hir_id).kind() {
                rustc_middle::ty::TyKind::FnDef(d, a) => Some((d, format!("{a:?}"), f.hir_id)),
                _ => None,
            },
            ExprKind::MethodCall(..) => tr
                .type_dependent_def_id(e.hir_id)
                .map(|d| (d, format!("{:?}", tr.node_args(e.hir_id)), e.hir_id)),
            _ => None,
        };
        if let Some((d, args, id)) = callee {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            if sig.safety().is_unsafe() {
                let _ = id;
                let inputs: Vec<String> = match e.kind {
                    ExprKind::Call(_, a) => a.iter().map(|x| tr.expr_ty_adjusted(x).to_string()).collect(),
                    ExprKind::MethodCall(_, r, a, _) => std::iter::once(r)
                        .chain(a.iter())
                        .map(|x| tr.expr_ty_adjusted(x).to_string())
                        .collect(),
                    _ => vec![],
                };
                return Some(json!({"op": "call", "callee": tcx.def_path_str(d), "args": args, "in": inputs,
                    "out": tr.expr_ty(e).to_string(), "at": loc(tcx, e.span)}));
            }
            return None;
        }
        match e.kind {
            ExprKind::Unary(rustc_hir::UnOp::Deref, x) if tr.expr_ty_adjusted(x).is_raw_ptr() => {
                Some(json!({"op": "deref", "ty": tr.expr_ty_adjusted(x).to_string(), "at": loc(tcx, e.span)}))
            }
            ExprKind::Field(x, f) if tr.expr_ty_adjusted(x).is_union() => {
                Some(json!({"op": "union", "ty": f.to_string(), "at": loc(tcx, e.span)}))
            }
            ExprKind::InlineAsm(_) => Some(json!({"op": "asm", "at": loc(tcx, e.span)})),
            ExprKind::Path(ref q) => {
                if let rustc_hir::QPath::Resolved(_, p) = q {
                    if let rustc_hir::def::Res::Def(DefKind::Static { mutability, .. }, d) = p.res {
                        if format!("{mutability:?}") == "Mut" {
                            return Some(json!({"op": "static", "ty": tcx.def_path_str(d), "at": loc(tcx, e.span)}));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
}

impl<'tcx> Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let foreign = b.span.from_expansion()
                && b.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| !d.is_local());
            if matches!(src, rustc_hir::UnsafeSource::UserProvided) && !foreign {
                let f = self.tcx.def_path_str(self.cur.unwrap().to_def_id());
                let outer = std::mem::take(&mut self.ops);
                intravisit::walk_block(self, b);
                let ops = std::mem::replace(&mut self.ops, outer);
                self.out.push(json!({"kind": "block", "fn": f, "at": loc(self.tcx, b.span), "ops": ops}));
                return;
            }
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        if let Some(v) = self.op(e) {
            self.ops.push(v);
        }
        if let rustc_hir::ExprKind::Path(rustc_hir::QPath::Resolved(_, p)) = e.kind {
            if let rustc_hir::def::Res::Def(DefKind::Static { .. }, d) = p.res {
                let (tcx, cur) = (self.tcx, self.cur.unwrap().to_def_id());
                self.uses.push(json!([tcx.def_path_str(d), tcx.def_path_str(cur), loc(tcx, e.span)]));
            }
        }
        intravisit::walk_expr(self, e);
    }
}

/// Functions called by a body, before monomorphisation.
fn calls(tcx: TyCtxt<'_>, did: DefId) -> Value {
    if !tcx.is_mir_available(did) {
        return Value::Null;
    }
    let mut out = vec![];
    let body = tcx.optimized_mir(did);
    for b in body.basic_blocks.iter() {
        if let Some(t) = &b.terminator {
            if let rustc_middle::mir::TerminatorKind::Call { func, .. } = &t.kind {
                if let rustc_middle::ty::FnDef(d, args) = func.ty(&body.local_decls, tcx).kind() {
                    let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
                    out.push(json!([tcx.def_path_str(*d), args, loc(tcx, t.source_info.span)]));
                }
            }
        }
    }
    json!(out)
}

pub fn dump(tcx: TyCtxt<'_>, path: &str) {
    let mut adts = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let mut fns = vec![];
    let mut uf = UnsafeFinder { tcx, out: vec![], cur: None, ops: vec![], uses: vec![] };
    for def in tcx.hir_crate_items(()).definitions() {
        let did: DefId = def.to_def_id();
        let kind = tcx.def_kind(did);
        let name = if matches!(kind, DefKind::Use | DefKind::ExternCrate | DefKind::GlobalAsm | DefKind::ForeignMod) {
            String::new()
        } else {
            tcx.def_path_str(did)
        };
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let mut vars = vec![];
                for (i, v) in adt.variants().iter_enumerated() {
                    let discr = if adt.is_enum() {
                        json!(adt.discriminant_for_variant(tcx, i).val.to_string())
                    } else {
                        Value::Null
                    };
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(json!({"n": f.name.to_string(), "ty": ty.to_string(),
                            "vis": format!("{:?}", f.vis).contains("Public"),
                            "attrs": attrs(tcx, f.did.expect_local())}));
                    }
                    let va = if adt.is_enum() { attrs(tcx, v.def_id.expect_local()) } else { json!([]) };
                    vars.push(json!({"n": v.name.to_string(), "d": discr, "f": fs, "attrs": va}));
                }
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let freeze_text = ty.to_string();
                let share = plain_type(tcx, did).map(|t| sharing(tcx, t));
                adts.push(json!({"share": share, "name": name, "kind": format!("{kind:?}"), "ty": freeze_text, "at": loc(tcx, tcx.def_span(did)),
                    "vars": vars, "attrs": attrs(tcx, def), "pub": tcx.visibility(did).is_public(),
                    "repr": format!("{:?}", adt.repr())}));
            }
            DefKind::Impl { of_trait } => {
                let sty = tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string();
                let (tr, unsafe_) = if of_trait {
                    let h = tcx.impl_trait_header(did);
                    (
                        json!(tcx.def_path_str(h.trait_ref.skip_binder().def_id)),
                        h.safety.is_unsafe(),
                    )
                } else {
                    (Value::Null, false)
                };
                let full = if of_trait {
                    json!(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip().to_string())
                } else {
                    Value::Null
                };
                let derived = rustc_attr_ir::find_attr!(tcx, did, AutomaticallyDerived);
                let items: Vec<String> =
                    tcx.associated_item_def_ids(did).iter().map(|d| tcx.def_path_str(*d)).collect();
                if unsafe_ {
                    uf.out.push(json!({"kind": "impl", "fn": name, "at": loc(tcx, tcx.def_span(did)), "derived": derived, "text": full}));
                }
                impls.push(json!({"trait": tr, "ref": full, "self": sty, "derived": derived, "unsafe": unsafe_,
                    "at": loc(tcx, tcx.def_span(did)), "items": items}));
            }
            DefKind::Static { .. } => {
                let mut v = shared_static(tcx, did);
                v["name"] = json!(name);
                v["at"] = loc(tcx, tcx.def_span(did));
                statics.push(v);
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string();
                consts.push(json!({"name": name, "ty": ty, "at": loc(tcx, tcx.def_span(did))}));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let is_unsafe = sig.safety().is_unsafe();
                if is_unsafe {
                    uf.out.push(json!({"kind": "fn", "fn": name, "at": loc(tcx, tcx.def_span(did)), "text": sig.to_string()}));
                }
                fns.push(json!({"name": name, "sig": sig.to_string(), "pub": tcx.visibility(did).is_public(),
                    "at": loc(tcx, tcx.def_span(did)), "unsafe": is_unsafe, "calls": calls(tcx, did),
                    "args": tcx.fn_arg_idents(did).iter().map(|i| i.map(|i| i.name.to_string())).collect::<Vec<_>>()}));
            }
            DefKind::Closure => {
                fns.push(json!({"name": name, "sig": "", "pub": false, "at": loc(tcx, tcx.def_span(did)), "unsafe": false,
                    "calls": calls(tcx, did)}));
            }
            DefKind::ForeignMod => {
                uf.out.push(json!({"kind": "extern", "fn": "", "at": loc(tcx, tcx.def_span(did)), "text": ""}));
            }
            _ => {}
        }
    }
    for def in tcx.hir_body_owners() {
        if tcx.is_typeck_child(def.to_def_id()) {
            continue;
        }
        uf.cur = Some(def);
        uf.ops.clear();
        let body = tcx.hir_body_owned_by(def);
        uf.visit_body(body);
    }
    let v = json!({"adts": adts, "impls": impls, "statics": statics, "consts": consts, "fns": fns, "unsafe": uf.out,
        "static_uses": uf.uses});
    std::fs::write(path, serde_json::to_string(&v).unwrap()).unwrap();
}
