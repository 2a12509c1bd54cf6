//! rustc driver that dumps the monomorphised MIR of one crate (and the call graph of everything
//! reachable from it) as JSON.  Used as RUSTC_WRAPPER: it passes every crate through to the real
//! compiler and only analyses the crate named by MIRDUMP_CRATE.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate serde;
extern crate serde_json;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, ConstOperand, StatementKind, TerminatorKind};
use rustc_public::rustc_internal;
use rustc_public::ty::{
    Allocation, ConstantKind, GenericArgKind, MirConst, RigidTy, Span, Ty, TyKind,
};
use rustc_public::ItemKind;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::process::Command;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER convention: argv[1] is the path of rustc.
    let rustc = args.remove(1);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is_target = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is_target = true;
        }
    }
    if !is_target {
        let st = Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let r = rustc_public::run_with_tcx!(&args, |tcx| -> ControlFlow<(), ()> {
        let v = dump(tcx);
        let mut v = v;
        let g = json!({"graph": v["graph"].take(), "index": v["graph_index"].take()});
        std::fs::write(format!("{out}.graph"), serde_json::to_vec(&g).unwrap()).unwrap();
        std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
        ControlFlow::Continue(())
    });
    if r.is_err() {
        std::process::exit(1)
    }
}

#[derive(Default)]
struct Cx {
    types: BTreeMap<usize, Value>,
    type_queue: VecDeque<Ty>,
    seen_ty: HashSet<usize>,
    allocs: BTreeMap<usize, Value>,
    fns: Map<String, Value>,
    /// instances waiting to be visited: (instance, hops from a local body)
    queue: VecDeque<(Instance, usize)>,
    later: VecDeque<Instance>,
    seen: HashSet<String>,
    /// hops of the body being visited (usize::MAX: call graph only)
    hops: usize,
}

fn ty_id(t: Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

fn span_str(s: Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        let id = ty_id(t);
        if self.seen_ty.insert(id) {
            self.type_queue.push_back(t);
        }
        id
    }

    fn push(&mut self, i: Instance, _c: bool) -> String {
        let key = i.mangled_name();
        if self.seen.insert(key.clone()) {
            let local = i.def.krate().is_local;
            if local {
                self.queue.push_back((i, 0));
            } else if self.hops < MAX_HOPS && wants_full(&i) {
                self.queue.push_back((i, self.hops + 1));
            } else {
                self.later.push_back(i);
            }
        } else if self.hops < MAX_HOPS && wants_full(&i) {
            // first met where only the call graph mattered: promote
            if let Some(p) = self.later.iter().position(|j| *j == i) {
                self.later.remove(p);
                self.queue.push_back((i, self.hops + 1));
            }
        }
        key
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        let n = serde_json::to_value(id).unwrap().as_u64().unwrap() as usize;
        if self.allocs.contains_key(&n) {
            return n;
        }
        self.allocs.insert(n, Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => json!({"kind":"mem","alloc":self.allocation(&a)}),
            GlobalAlloc::Function(i) => {
                let k = self.push(i, false);
                json!({"kind":"fn","fn":k})
            }
            GlobalAlloc::Static(s) => {
                let mut o = json!({"kind":"static","name":s.name()});
                o["ty"] = json!(self.ty(s.ty()));
                o
            }
            GlobalAlloc::VTable(t, _) => {
                let t = self.ty(t);
                json!({"kind":"vtable","ty":t})
            }
            _ => json!({"kind":"other"}),
        };
        self.allocs.insert(n, v);
        n
    }

    fn allocation(&mut self, a: &Allocation) -> Value {
        let big = a.bytes.len() > 200_000;
        let bytes: Vec<Value> = if big {
            vec![]
        } else {
            a.bytes.iter().map(|b| b.map_or(Value::Null, |x| json!(x))).collect()
        };
        let mut prov = vec![];
        if !big {
            for (off, p) in a.provenance.ptrs.iter() {
                let id = self.alloc(p.0);
                prov.push(json!([off, id]));
            }
        }
        json!({"bytes":bytes,"len":a.bytes.len(),"ptrs":prov})
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let ty = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => json!({"k":"alloc","ty":ty,"alloc":self.allocation(a)}),
            ConstantKind::ZeroSized => json!({"k":"zst","ty":ty}),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => json!({"k":"usize","ty":ty,"v":n}),
                Err(_) => json!({"k":"ty","ty":ty,"s":format!("{:?}",tc)}),
            },
            ConstantKind::Unevaluated(u) => {
                json!({"k":"uneval","ty":ty,"name":u.def.name()})
            }
            ConstantKind::Param(p) => json!({"k":"param","ty":ty,"s":format!("{:?}",p)}),
        }
    }

    fn type_info(&mut self, t: Ty) -> Value {
        let mut o = json!({"s": t.to_string()});
        let layout = t.layout().ok().map(|l| l.shape());
        if let Some(l) = &layout {
            o["layout"] = json!(serde_json::to_string(l).unwrap());
        }
        let k = t.kind();
        let TyKind::RigidTy(r) = k else {
            o["k"] = json!("other");
            return o;
        };
        match r {
            RigidTy::Bool => o["k"] = json!("bool"),
            RigidTy::Char => o["k"] = json!("char"),
            RigidTy::Str => o["k"] = json!("str"),
            RigidTy::Never => o["k"] = json!("never"),
            RigidTy::Int(i) => {
                o["k"] = json!("int");
                o["bits"] = json!(i.num_bytes() * 8);
                o["signed"] = json!(true);
            }
            RigidTy::Uint(i) => {
                o["k"] = json!("int");
                o["bits"] = json!(i.num_bytes() * 8);
                o["signed"] = json!(false);
            }
            RigidTy::Float(_) => o["k"] = json!("float"),
            RigidTy::Adt(d, args) => {
                o["k"] = json!("adt");
                o["def"] = json!(d.name());
                o["enum"] = json!(matches!(d.kind(), rustc_public::ty::AdtKind::Enum));
                o["union"] = json!(matches!(d.kind(), rustc_public::ty::AdtKind::Union));
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let fty = f.ty_with_args(&args);
                        fs.push(json!([f.name, self.ty(fty)]));
                    }
                    let discr = if d.kind() == rustc_public::ty::AdtKind::Enum {
                        json!(d.discriminant_for_variant(v.idx()).val.to_string())
                    } else {
                        Value::Null
                    };
                    vs.push(json!({"name":v.name(),"fields":fs,"discr":discr}));
                }
                o["variants"] = json!(vs);
                let mut ga = vec![];
                for a in args.0.iter() {
                    if let GenericArgKind::Type(t) = a {
                        ga.push(self.ty(*t));
                    }
                }
                o["args"] = json!(ga);
                o["local"] = json!(d.krate().is_local);
            }
            RigidTy::Ref(_, t2, m) => {
                o["k"] = json!("ref");
                o["to"] = json!(self.ty(t2));
                o["mut"] = json!(m == rustc_public::mir::Mutability::Mut);
            }
            RigidTy::RawPtr(t2, m) => {
                o["k"] = json!("ptr");
                o["to"] = json!(self.ty(t2));
                o["mut"] = json!(m == rustc_public::mir::Mutability::Mut);
            }
            RigidTy::Tuple(ts) => {
                o["k"] = json!("tuple");
                let ids: Vec<_> = ts.iter().map(|t| self.ty(*t)).collect();
                o["elems"] = json!(ids);
            }
            RigidTy::Array(t2, n) => {
                o["k"] = json!("array");
                o["of"] = json!(self.ty(t2));
                o["n"] = json!(n.eval_target_usize().ok());
            }
            RigidTy::Slice(t2) => {
                o["k"] = json!("slice");
                o["of"] = json!(self.ty(t2));
            }
            RigidTy::FnDef(d, args) => {
                o["k"] = json!("fndef");
                o["def"] = json!(d.name());
                if let Ok(i) = Instance::resolve(d, &args) {
                    o["inst"] = json!(self.push(i, false));
                }
            }
            RigidTy::Closure(d, args) => {
                o["k"] = json!("closure");
                o["def"] = json!(d.name());
                // upvars: the last generic arg is the tuple of captured types
                if let Some(GenericArgKind::Type(t2)) = args.0.last() {
                    o["upvars"] = json!(self.ty(*t2));
                }
                if let Ok(i) =
                    Instance::resolve_closure(d, &args, rustc_public::ty::ClosureKind::FnOnce)
                {
                    // FnOnce instance may be a shim; both are dumped
                    o["once"] = json!(self.push(i, true));
                }
                for (n, k) in [
                    ("mut", rustc_public::ty::ClosureKind::FnMut),
                    ("ref", rustc_public::ty::ClosureKind::Fn),
                ] {
                    if let Ok(i) = Instance::resolve_closure(d, &args, k) {
                        o[n] = json!(self.push(i, true));
                    }
                }
            }
            RigidTy::Dynamic(..) => o["k"] = json!("dyn"),
            RigidTy::FnPtr(_) => o["k"] = json!("fnptr"),
            RigidTy::Foreign(_) => o["k"] = json!("foreign"),
            _ => o["k"] = json!("other"),
        }
        o
    }
}

fn shared_mutable(tcx: rustc_middle::ty::TyCtxt<'_>, s: rustc_public::mir::mono::StaticDef) -> bool {
    let did = rustc_internal::internal(tcx, s.def_id());
    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    tcx.is_mutable_static(did)
        || !ty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
}

struct UnsafeFinder<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    owner: String,
    found: Vec<Value>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(json!([self.owner, span_str(rustc_internal::stable(b.span))]));
        }
        let _ = self.tcx;
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct V<'a, 'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    cx: &'a mut Cx,
    full: bool,
    consts: Vec<Value>,
    fnrefs: Vec<String>,
    statics: Vec<String>,
}

impl<'a, 'tcx> MirVisitor for V<'a, 'tcx> {
    fn visit_ty(&mut self, t: &Ty, _: Location) {
        if self.full {
            self.cx.ty(*t);
        }
        // closures / fn items mentioned as types: reachable code
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
            if let Ok(i) = Instance::resolve(d, &args) {
                let k = self.cx.push(i, false);
                self.fnrefs.push(k);
            }
        }
        if let TyKind::RigidTy(RigidTy::Closure(d, args)) = t.kind() {
            if let Ok(i) = Instance::resolve_closure(d, &args, rustc_public::ty::ClosureKind::FnOnce)
            {
                let k = self.cx.push(i, false);
                self.fnrefs.push(k);
            }
        }
        self.super_ty(t);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in a.provenance.ptrs.iter() {
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Static(s) => {
                        // "!": a shared value that can change
                        let m = if shared_mutable(self.tcx, s) { "!" } else { "" };
                        self.statics.push(format!("{m}{}", s.name()))
                    }
                    GlobalAlloc::Function(i) => {
                        let k = self.cx.push(i, false);
                        self.fnrefs.push(k);
                    }
                    _ => {}
                }
            }
        }
        if self.full {
            let id = serde_json::to_value(&c.const_).unwrap()["id"].clone();
            let mut v = self.cx.konst(&c.const_);
            v["id"] = id;
            self.consts.push(v);
        }
        self.super_const_operand(c, l);
    }
}

fn kind_name(k: InstanceKind) -> String {
    format!("{:?}", k)
}

const MAX_HOPS: usize = 8;

fn wants_full(i: &Instance) -> bool {
    if i.def.krate().is_local {
        return true;
    }
    let krate = i.def.krate().name.to_string();
    if !matches!(krate.as_str(), "core" | "alloc" | "std") {
        return false;
    }
    let name = i.def.name();
    !["::fmt::", "panicking", "drop_in_place", "alloc::alloc", "raw_vec", "precondition_check", "::error::", "std::io", "backtrace", "std::sys"]
        .iter()
        .any(|p| name.contains(p))
}

fn full_body(cx: &mut Cx, b: &Body, o: &mut Value) {
    let mut blocks = vec![];
    for bb in &b.blocks {
        let mut sts = vec![];
        for s in &bb.statements {
            match &s.kind {
                StatementKind::StorageLive(_)
                | StatementKind::Nop
                | StatementKind::ConstEvalCounter
                | StatementKind::Coverage(_)
                | StatementKind::AscribeUserType { .. }
                | StatementKind::FakeRead(..)
                | StatementKind::PlaceMention(_) => continue,
                _ => {}
            }
            let mut v = serde_json::to_value(&s.kind).unwrap();
            if !v.is_object() {
                v = json!({ v.as_str().unwrap_or("?"): null });
            }
            v["sp"] = json!(span_str(s.source_info.span));
            // static type of the assigned place and of operands is recomputed by the consumer
            sts.push(v);
        }
        let t = &bb.terminator;
        let mut tv = serde_json::to_value(&t.kind).unwrap();
        if !tv.is_object() {
            tv = json!({ tv.as_str().unwrap_or("?"): null });
        }
        tv["sp"] = json!(span_str(t.source_info.span));
        match &t.kind {
            TerminatorKind::Call { func, .. } => {
                if let Ok(ft) = func.ty(b.locals()) {
                    tv["fty"] = json!(cx.ty(ft));
                    if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = ft.kind() {
                        let mut targs = vec![];
                        for a in args.0.iter() {
                            if let GenericArgKind::Type(t) = a {
                                targs.push(cx.ty(*t));
                            }
                        }
                        tv["targs"] = json!(targs);
                        tv["fdef"] = json!(d.name());
                        match Instance::resolve(d, &args) {
                            Ok(i) => {
                                tv["callee"] = json!(cx.push(i, true));
                                tv["cname"] = json!(i.def.name());
                                tv["ckind"] = json!(kind_name(i.kind));
                            }
                            Err(e) => tv["unresolved"] = json!(format!("{:?}", e)),
                        }
                    }
                }
            }
            TerminatorKind::Drop { place, .. } => {
                if let Ok(t) = place.ty(b.locals()) {
                    let di = Instance::resolve_drop_in_place(t);
                    tv["drop_ty"] = json!(cx.ty(t));
                    if di.is_empty_shim() {
                        tv["drop_noop"] = json!(true);
                    } else {
                        tv["drop_fn"] = json!(cx.push(di, false));
                    }
                }
            }
            _ => {}
        }
        blocks.push(json!({"st": sts, "t": tv}));
    }
    o["blocks"] = json!(blocks);
    let locals: Vec<_> = b.locals().iter().map(|l| cx.ty(l.ty)).collect();
    o["locals"] = json!(locals);
    o["argc"] = json!(b.arg_locals().len());
    o["spread"] = json!(b.spread_arg());
    let names: Vec<_> = b
        .var_debug_info
        .iter()
        .map(|v| json!([v.name.to_string(), serde_json::to_value(&v.value).unwrap()]))
        .collect();
    o["names"] = json!(names);
    
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> Value {
    let mut cx = Cx::default();
    let mut roots = vec![];
    let mut items = vec![];
    let eff = tcx.effective_visibilities(());
    for item in rustc_public::all_local_items() {
        let did = rustc_internal::internal(tcx, item.def_id());
        let mut iv = json!({"name": item.name(), "kind": format!("{:?}", item.kind()), "span": span_str(item.span())});
        if let Some(l) = did.as_local() {
            iv["reachable_pub"] = json!(eff.is_exported(l));
        }
        if matches!(item.kind(), ItemKind::Fn) {
            let sk = tcx.def_kind(did);
            iv["def_kind"] = json!(format!("{:?}", sk));
            if matches!(sk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).skip_binder().skip_binder();
                iv["unsafe"] = json!(sig.safety().is_unsafe());
            }
            match Instance::try_from(item) {
                Ok(i) => {
                    let k = cx.push(i, true);
                    iv["inst"] = json!(k);
                    roots.push(k);
                }
                Err(_) => iv["generic"] = json!(true),
            }
        }
        items.push(iv);
    }

    // adts, impls and unsafety of the crate, from HIR / the type context
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let did = id.owner_id.to_def_id();
        let dk = tcx.def_kind(did);
        use rustc_hir::def::DefKind as D;
        match dk {
            D::Struct | D::Enum | D::Union => {
                let ad = tcx.adt_def(did);
                let mut fs = vec![];
                for v in ad.variants() {
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate_identity();
                        fs.push(json!([v.name.to_string(), f.name.to_string(), format!("{:?}", ft), format!("{:?}", f.vis)]));
                    }
                }
                adts.push(json!({"name": tcx.def_path_str(did), "fields": fs,
                    "exported": did.as_local().map(|l| eff.is_exported(l)), "span": span_str(rustc_internal::stable(tcx.def_span(did)))}));
            }
            D::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity();
                let mut o = json!({"self": format!("{:?}", st), "span": span_str(rustc_internal::stable(tcx.def_span(did)))});
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    o["trait"] = json!(tcx.def_path_str(tr.def_id));
                    let h = tcx.impl_trait_header(did);
                    o["unsafe"] = json!(format!("{:?}", h.safety));
                    o["polarity"] = json!(format!("{:?}", h.polarity));
                }
                impls.push(o);
            }
            _ => {}
        }
    }

    // unsafe blocks written in this crate, with the item that contains them
    let mut unsafes = vec![];
    for owner in tcx.hir_body_owners() {
        let body = tcx.hir_body_owned_by(owner);
        let mut f = UnsafeFinder { tcx, owner: tcx.def_path_str(owner.to_def_id()), found: vec![] };
        rustc_hir::intravisit::Visitor::visit_body(&mut f, body);
        unsafes.extend(f.found);
    }

    let mut n_full = 0;
    loop {
        let i;
        if let Some((j, h)) = cx.queue.pop_front() {
            i = j;
            cx.hops = h;
        } else if let Some(t) = cx.type_queue.pop_front() {
            // types may pull in closures
            cx.hops = 0;
            let id = ty_id(t);
            let info = cx.type_info(t);
            cx.types.insert(id, info);
            continue;
        } else if let Some(j) = cx.later.pop_front() {
            i = j;
            cx.hops = usize::MAX;
        } else {
            break;
        }
        let key = i.mangled_name();
        let name = i.def.name();
        let local = i.def.krate().is_local;
        let mut o = json!({
            "name": name, "inst": i.name(), "local": local, "kind": kind_name(i.kind),
            "crate": i.def.krate().name.to_string(), "foreign": i.is_foreign_item(),
            "span": span_str(i.def.span()),
        });
        if let Some(n) = i.intrinsic_name() {
            o["intrinsic"] = json!(n.to_string());
        }
        if matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_foreign_item() {
            cx.fns.insert(key, o);
            continue;
        }
        if let Some(b) = i.body() {
            let full = cx.hops != usize::MAX;
            let mut v = V { tcx, cx: &mut cx, full, consts: vec![], fnrefs: vec![], statics: vec![] };
            v.visit_body(&b);
            let V { consts, fnrefs, statics, .. } = v;
            let mut calls: Vec<String> = fnrefs;
            for bb in &b.blocks {
                match &bb.terminator.kind {
                    TerminatorKind::Call { func, .. } => {
                        if let Ok(ft) = func.ty(b.locals()) {
                            match ft.kind() {
                                TyKind::RigidTy(RigidTy::FnDef(d, args)) => match Instance::resolve(d, &args) {
                                    Ok(ci) => calls.push(cx.push(ci, false)),
                                    Err(_) => calls.push(format!("?unresolved {}", d.name())),
                                },
                                _ => calls.push("?indirect".to_string()),
                            }
                        }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        if let Ok(t) = place.ty(b.locals()) {
                            let di = Instance::resolve_drop_in_place(t);
                            if !di.is_empty_shim() {
                                calls.push(cx.push(di, false));
                            }
                        }
                    }
                    TerminatorKind::InlineAsm { .. } => calls.push("?asm".to_string()),
                    _ => {}
                }
                for s in &bb.statements {
                    if let StatementKind::Assign(_, rv) = &s.kind {
                        if let rustc_public::mir::Rvalue::ThreadLocalRef(i) = rv {
                            calls.push(format!("?tls {}", i.name()));
                        }
                    }
                }
            }
            calls.sort();
            calls.dedup();
            o["calls"] = json!(calls);
            o["statics"] = json!(statics);
            if full {
                n_full += 1;
                full_body(&mut cx, &b, &mut o);
                o["consts"] = json!(consts);
            }
        } else {
            o["nobody"] = json!(true);
        }
        cx.fns.insert(key, o);
    }
    let allocs: Map<String, Value> = cx.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let types: Map<String, Value> = cx.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    // the call graph goes to its own table, with functions numbered
    let index: BTreeMap<String, usize> =
        cx.fns.iter().enumerate().map(|(n, (k, _))| (k.clone(), n)).collect();
    let mut graph = vec![];
    let mut full = Map::new();
    for (k, v) in std::mem::take(&mut cx.fns) {
        let calls: Vec<Value> = v["calls"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|c| match index.get(c.as_str().unwrap()) {
                        Some(n) => json!(n),
                        None => c.clone(),
                    })
                    .collect()
            })
            .unwrap_or_default();
        let mut flags = String::new();
        if v["local"] == json!(true) {
            flags.push('l');
        }
        if v["foreign"] == json!(true) {
            flags.push('f');
        }
        if v["nobody"] == json!(true) {
            flags.push('n');
        }
        let mut g = json!([v["name"], v["crate"], flags, calls]);
        if v["statics"].as_array().is_some_and(|a| !a.is_empty()) {
            g.as_array_mut().unwrap().push(v["statics"].clone());
        }
        graph.push(g);
        if v["blocks"].is_array() || v["local"] == json!(true) {
            full.insert(k, v);
        }
    }
    let index: Map<String, Value> = index
        .into_iter()
        .filter(|(k, _)| full.contains_key(k))
        .map(|(k, n)| (k, json!(n)))
        .collect();
    json!({"items": items, "roots": roots, "fns": full, "types": types, "allocs": allocs,
        "adts": adts, "impls": impls, "unsafes": unsafes, "n_full": n_full, "graph": graph, "graph_index": index})
}
