use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{Body, Operand, Place, Rvalue, StatementKind, TerminatorKind};
use rustc_public::rustc_internal;
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, FloatTy, FnDef, GenericArgKind, GenericArgs, IntTy,
    RigidTy, Span, Ty, TyKind, UintTy,
};
use rustc_public::{CrateDef, CrateDefType};
use serde_json::Value;

/// Library paths whose bodies are exported (everything else is modelled by name).
const INLINE: &[&str] = &[
    "std::option::", "std::result::", "std::convert::", "std::ops::", "std::iter::", "std::cmp::",
    "std::mem::", "std::clone::", "std::default::", "std::borrow::", "std::array::", "std::boxed::",
    "std::ptr::", "std::array::", "std::slice::",
    "core::", "ordered_float::", "num_enum::", "std::any::", "std::string::", "std::vec::", "std::str::",
    "alloc::", "std::io::Read", "std::io::Write", "std::io::Seek", "std::io::error::", "std::num::",
    "byteorder::", "indexmap::",
];

pub struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    target: String,
    types: BTreeMap<usize, Value>,
    ty_queue: VecDeque<Ty>,
    ty_seen: HashMap<Ty, usize>,
    inst_ids: HashMap<Instance, usize>,
    inst_queue: VecDeque<Instance>,
    insts: Vec<Value>,
    allocs: BTreeMap<usize, Value>,
    alloc_queue: VecDeque<AllocId>,
    alloc_seen: HashSet<usize>,
    spans: BTreeMap<usize, Value>,
}

/// JSON form of a compiler object; numbers beyond 64 bits become strings.
fn val<T: serde::Serialize>(t: T) -> Value {
    if let Ok(v) = serde_json::to_value(&t) {
        return v;
    }
    let Ok(text) = serde_json::to_string(&t) else {
        return Value::Null;
    };
    let mut out = String::new();
    let mut number = String::new();
    let (mut quoted, mut escaped) = (false, false);
    for c in text.chars() {
        if !quoted && c.is_ascii_digit() {
            number.push(c);
            continue;
        }
        if !number.is_empty() {
            if number.parse::<u64>().is_ok() {
                out.push_str(&number);
            } else {
                out.push('"');
                out.push_str(&number);
                out.push('"');
            }
            number.clear();
        }
        if quoted {
            quoted = escaped || c != '"';
            escaped = !escaped && c == '\\';
        } else if c == '"' {
            quoted = true;
        }
        out.push(c);
    }
    serde_json::from_str(&out).unwrap_or(Value::Null)
}

fn idx<T: serde::Serialize>(t: &T) -> usize {
    val(t).as_u64().unwrap() as usize
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(i) = self.ty_seen.get(&ty) {
            return *i;
        }
        let i = idx(&ty);
        self.ty_seen.insert(ty, i);
        self.ty_queue.push_back(ty);
        i
    }

    fn span(&mut self, sp: Span) -> usize {
        let i = idx(&sp);
        if !self.spans.contains_key(&i) {
            let internal = rustc_internal::internal(self.tcx, sp);
            let outer = internal.source_callsite();
            let sm = self.tcx.sess.source_map();
            let f = |s: rustc_span::Span| {
                let lo = sm.lookup_char_pos(s.lo());
                let name = match &lo.file.name {
                    rustc_span::FileName::Real(r) => {
                        r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
                    }
                    _ => String::new(),
                };
                (name, lo.line)
            };
            let (a, b) = (f(internal), f(outer));
            self.spans.insert(i, json!([a.0, a.1, b.0, b.1]));
        }
        i
    }

    fn inst(&mut self, inst: Instance) -> usize {
        if let Some(i) = self.inst_ids.get(&inst) {
            return *i;
        }
        let i = self.insts.len();
        self.inst_ids.insert(inst, i);
        self.insts.push(Value::Null);
        self.inst_queue.push_back(inst);
        i
    }

    fn args(&mut self, args: &GenericArgs) -> Value {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => {
                    let t = self.ty(*t);
                    v.push(json!(t))
                }
                GenericArgKind::Const(c) => {
                    v.push(json!({"const": c.eval_target_usize().ok()}))
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }

    fn alloc_ref(&mut self, a: &Allocation) {
        for (_, p) in &a.provenance.ptrs {
            let i = idx(&p.0);
            if self.alloc_seen.insert(i) {
                self.alloc_queue.push_back(p.0);
            }
        }
    }

    fn one_type(&mut self, ty: Ty) -> Value {
        let kind = ty.kind();
        let text = format!("{}", rustc_internal::internal(self.tcx, ty));
        let mut v = match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":true,"ptr":matches!(i,IntTy::Isize)}),
                RigidTy::Uint(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":false,"ptr":matches!(i,UintTy::Usize)}),
                RigidTy::Float(f) => json!({"k":"float","bits":match f {FloatTy::F16=>16,FloatTy::F32=>32,FloatTy::F64=>64,FloatTy::F128=>128}}),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for var in def.variants_iter() {
                        let d = if def.kind().is_enum() {
                            let d = def.discriminant_for_variant(var.idx());
                            let dt = self.ty(d.ty);
                            json!([d.val.to_string(), dt])
                        } else {
                            Value::Null
                        };
                        let mut fs = vec![];
                        for f in var.fields() {
                            let t = self.ty(f.ty_with_args(&args));
                            fs.push(json!({"n": f.name.to_string(), "t": t}));
                        }
                        vs.push(json!({"n": var.name(), "d": d, "f": fs}));
                    }
                    let a = self.args(&args);
                    let did = rustc_internal::internal(self.tcx, def.def_id());
                    let dtor = self.tcx.adt_destructor(did).map(|d| d.did);
                    let drop = match dtor {
                        Some(d) => {
                            let fd: FnDef = match rustc_internal::stable(self.tcx.type_of(d).instantiate_identity().skip_norm_wip()).kind() {
                                TyKind::RigidTy(RigidTy::FnDef(f, _)) => f,
                                _ => unreachable!(),
                            };
                            let name = fd.name();
                            if def.krate().name == self.target || def.krate().is_local {
                                match Instance::resolve(fd, &args) {
                                    Ok(i) => json!({"inst": self.inst(i), "name": name}),
                                    Err(_) => json!({"name": name}),
                                }
                            } else {
                                json!({"name": name})
                            }
                        }
                        None => Value::Null,
                    };
                    json!({"k":"adt","name":def.name(),"kind":def.kind().to_string(),"args":a,"vars":vs,"box":def.is_box(),"crate":def.krate().name,"drop":drop})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(t, c) => {
                    let t = self.ty(t);
                    json!({"k":"array","t":t,"len":c.eval_target_usize().ok()})
                }
                RigidTy::Slice(t) => {
                    let t = self.ty(t);
                    json!({"k":"slice","t":t})
                }
                RigidTy::RawPtr(t, m) => {
                    let t = self.ty(t);
                    json!({"k":"ptr","t":t,"mut":format!("{m:?}")=="Mut"})
                }
                RigidTy::Ref(_, t, m) => {
                    let t = self.ty(t);
                    json!({"k":"ref","t":t,"mut":format!("{m:?}")=="Mut"})
                }
                RigidTy::Tuple(ts) => {
                    let ts: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","ts":ts})
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.args(&a);
                    let inst = Instance::resolve(d, &a).ok().map(|i| self.inst(i));
                    json!({"k":"fndef","name":d.name(),"args":args,"inst":inst})
                }
                RigidTy::Closure(d, a) => {
                    let itn = rustc_internal::internal(self.tcx, ty);
                    let kind = if let rustc_middle::ty::TyKind::Closure(_, ca) = itn.kind() {
                        format!("{:?}", ca.as_closure().kind())
                    } else {
                        String::new()
                    };
                    let ck = match kind.as_str() {
                        "Fn" => ClosureKind::Fn,
                        "FnMut" => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let up: Vec<Ty> = if let rustc_middle::ty::TyKind::Closure(_, ca) = itn.kind() {
                        ca.as_closure().upvar_tys().iter().map(rustc_internal::stable).collect()
                    } else { vec![] };
                    let up: Vec<usize> = up.into_iter().map(|t| self.ty(t)).collect();
                    let inst = Instance::resolve_closure(d, &a, ck).ok().map(|i| self.inst(i));
                    json!({"k":"closure","name":d.name(),"kind":kind,"inst":inst,"up":up})
                }
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"other"}),
        };
        v["text"] = json!(text);
        if matches!(v["k"].as_str(), Some("adt" | "tuple" | "array")) {
            if let Ok(l) = ty.layout() {
                v["layout"] = val(l.shape());
            }
        }
        v
    }

    fn scan_operand(&mut self, o: &Operand) {
        match o {
            Operand::Constant(c) => {
                self.ty(c.const_.ty());
                if let ConstantKind::Allocated(a) = c.const_.kind() {
                    self.alloc_ref(a);
                }
            }
            Operand::Copy(p) | Operand::Move(p) => self.scan_place(p),
            _ => {}
        }
    }

    fn scan_place(&mut self, p: &Place) {
        for e in &p.projection {
            if let rustc_public::mir::ProjectionElem::Field(_, t) = e {
                self.ty(*t);
            }
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        self.scan_place(p);
                        let t = match rv.ty(b.locals()) {
                            Ok(t) => json!(self.ty(t)),
                            Err(_) => Value::Null,
                        };
                        match rv {
                            Rvalue::Aggregate(_, ops) => ops.iter().for_each(|o| self.scan_operand(o)),
                            Rvalue::BinaryOp(_, x, y) | Rvalue::CheckedBinaryOp(_, x, y) => {
                                self.scan_operand(x);
                                self.scan_operand(y);
                            }
                            Rvalue::Cast(_, o, t) => {
                                self.ty(*t);
                                self.scan_operand(o)
                            }
                            Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => {
                                self.scan_operand(o)
                            }
                            Rvalue::Ref(_, _, p)
                            | Rvalue::AddressOf(_, p)
                            | Rvalue::CopyForDeref(p)
                            | Rvalue::Discriminant(p)
                            | Rvalue::Len(p) => self.scan_place(p),
                            _ => {}
                        }
                        // operand types of binary operations and casts
                        let ot = match rv {
                            Rvalue::BinaryOp(_, x, _)
                            | Rvalue::CheckedBinaryOp(_, x, _)
                            | Rvalue::Cast(_, x, _)
                            | Rvalue::UnaryOp(_, x) => x.ty(b.locals()).ok().map(|t| self.ty(t)),
                            Rvalue::Discriminant(p) | Rvalue::Len(p) => {
                                p.ty(b.locals()).ok().map(|t| self.ty(t))
                            }
                            _ => None,
                        };
                        let cnt = match rv {
                            Rvalue::Repeat(_, c) => c.eval_target_usize().ok(),
                            _ => None,
                        };
                        let sp = self.span(s.source_info.span);
                        stmts.push(json!({"a": val(p), "rv": val(rv), "ty": t, "ot": ot, "sp": sp, "cnt": cnt}));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(json!({"setd": val(place), "v": idx(variant_index)}));
                    }
                    StatementKind::Intrinsic(i) => {
                        stmts.push(json!({"intr": val(i)}));
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    args.iter().for_each(|a| self.scan_operand(a));
                    self.scan_place(destination);
                    let dt = destination.ty(b.locals()).ok().map(|t| self.ty(t));
                    let mut callee = Value::Null;
                    if let Ok(ft) = func.ty(b.locals()) {
                        self.ty(ft);
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
                            let inst = Instance::resolve(d, &a).ok().map(|i| self.inst(i));
                            callee = json!({"def": d.name(), "inst": inst, "targs": self.args(&a)});
                        } else {
                            callee = json!({"fty": self.ty(ft)});
                        }
                    }
                    let ats: Vec<Value> = args
                        .iter()
                        .map(|a| a.ty(b.locals()).ok().map(|t| json!(self.ty(t))).unwrap_or(Value::Null))
                        .collect();
                    json!({"call": callee, "func": val(func), "args": val(args), "ats": ats, "dest": val(destination), "dt": dt, "target": target, "sp": sp})
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok().map(|t| self.ty(t));
                    json!({"drop": val(place), "pt": pt, "target": target, "sp": sp})
                }
                TerminatorKind::Goto { target } => json!({"goto": target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    self.scan_operand(discr);
                    let ot = discr.ty(b.locals()).ok().map(|t| self.ty(t));
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    json!({"switch": val(discr), "ot": ot, "br": br, "other": targets.otherwise(), "sp": sp})
                }
                TerminatorKind::Return => json!({"ret": true}),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    self.scan_operand(cond);
                    json!({"assert": val(cond), "exp": expected, "msg": val(msg), "target": target, "sp": sp})
                }
                TerminatorKind::Unreachable => json!({"unreachable": true}),
                TerminatorKind::Resume => json!({"resume": true}),
                other => json!({"other": format!("{other:?}")}),
            };
            blocks.push(json!({"s": stmts, "t": term}));
        }
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(json!([v.name, l, v.argument_index]));
            }
        }
        json!({"blocks": blocks, "locals": locals, "argc": b.arg_locals().len(), "names": names, "spread": b.spread_arg()})
    }

    fn run(&mut self) {
        loop {
            if let Some(i) = self.inst_queue.pop_front() {
                let id = self.inst_ids[&i];
                let name = i.name();
                let def = rustc_internal::internal(self.tcx, i.def.def_id());
                let defname = i.def.name();
                let krate = i.def.krate().name;
                let local = krate == self.target || krate == "vroots";
                let want = local
                    || INLINE.iter().any(|p| defname.starts_with(p) || defname.starts_with(&format!("<{p}")))
                    || matches!(i.kind, InstanceKind::Shim)
                    || defname.starts_with('<');
                let args = i.args();
                let args = self.args(&args);
                let span = i.def.span();
                let sp = self.span(span);
                let body = if want && !matches!(i.kind, InstanceKind::Virtual { .. }) && i.has_body() {
                    i.body().map(|b| self.body(&b)).unwrap_or(Value::Null)
                } else {
                    Value::Null
                };
                let t = i.ty();
                let sigt = self.ty(t);
                let derived = {
                    let mut p = Some(def);
                    let mut d = false;
                    while let Some(x) = p {
                        if matches!(self.tcx.def_kind(x), rustc_hir::def::DefKind::Impl { .. }) {
                            d = rustc_attr_ir::find_attr!(self.tcx, x, AutomaticallyDerived);
                            break;
                        }
                        p = self.tcx.opt_parent(x);
                    }
                    d
                };
                self.insts[id] = json!({"id": id, "name": name, "def": defname, "crate": krate, "args": args,
                    "kind": format!("{:?}", i.kind), "intr": i.intrinsic_name(), "sp": sp, "body": body, "ty": sigt, "derived": derived});
                continue;
            }
            if let Some(t) = self.ty_queue.pop_front() {
                let i = self.ty_seen[&t];
                let v = self.one_type(t);
                self.types.insert(i, v);
                continue;
            }
            if let Some(a) = self.alloc_queue.pop_front() {
                let v = match GlobalAlloc::from(a) {
                    GlobalAlloc::Memory(m) => {
                        self.alloc_ref(&m);
                        json!({"mem": val(&m)})
                    }
                    GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
                    GlobalAlloc::Static(s) => {
                        let d = rustc_internal::internal(self.tcx, rustc_public::CrateDef::def_id(&s));
                        let u = crate::items::shared_static(self.tcx, d);
                        let fixed = u["mut"] == false && u["foreign"] == false && u["thread"] == false && u["share"][2] == true;
                        match s.eval_initializer() {
                            Ok(m) if fixed => {
                                self.alloc_ref(&m);
                                json!({"static": s.name(), "use": u, "mem": val(&m)})
                            }
                            _ => json!({"static": s.name(), "use": u}),
                        }
                    }
                    _ => json!({"other": true}),
                };
                self.allocs.insert(idx(&a), v);
                continue;
            }
            break;
        }
    }
}

pub fn dump(tcx: TyCtxt<'_>, target: &str, path: &str) {
    let mut d = Dump {
        tcx,
        target: target.to_string(),
        types: Default::default(),
        ty_queue: Default::default(),
        ty_seen: Default::default(),
        inst_ids: Default::default(),
        inst_queue: Default::default(),
        insts: vec![],
        allocs: Default::default(),
        alloc_queue: Default::default(),
        alloc_seen: Default::default(),
        spans: Default::default(),
    };
    // without MIRDUMP_ALL only predicates of one value and functions without arguments are wanted
    let all = std::env::var("MIRDUMP_ALL").is_ok();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !all {
            break;
        }
        if let Ok(i) = Instance::try_from(it) {
            roots.push(d.inst(i));
        }
    }
    let mut fns = vec![];
    for k in rustc_public::find_crates(target) {
        for f in k.fn_defs() {
            let name = f.name();
            let def = rustc_internal::internal(tcx, f.def_id());
            let generic = tcx.generics_of(def).requires_monomorphization(tcx);
            let vis = tcx.visibility(def).is_public();
            let sp = d.span(f.span());
            let sig = tcx.fn_sig(def).skip_binder().skip_binder();
            let n = sig.inputs().len();
            let inst = if generic || !all && !(n == 0 || n == 1 && sig.output().is_bool()) {
                None
            } else {
                let args = rustc_middle::ty::GenericArgs::for_item(tcx, def, |_, _| {
                    tcx.lifetimes.re_erased.into()
                });
                let inst = rustc_middle::ty::Instance::new_raw(def, args);
                Some(d.inst(rustc_internal::stable(inst)))
            };
            fns.push(json!({"name": name, "generic": generic, "pub": vis, "inst": inst, "sp": sp}));
        }
    }
    d.run();
    let v = json!({"types": d.types, "insts": d.insts, "allocs": d.allocs, "spans": d.spans, "roots": roots, "fns": fns});
    std::fs::write(path, serde_json::to_string(&v).unwrap()).unwrap();
}
