// MIR dumper: a rustc wrapper which, for the crates named in PRV_CRATES, writes the
// type-checked program (instantiated MIR bodies with resolved callees, types, ADTs,
// impls, function list) as JSON to $PRV_OUT/<crate>.json and otherwise compiles as usual.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt as _;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::{PrintTraitRefExt as _, with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt as _;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

mod json;
use json::J;

macro_rules! pr {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!($e)))
    };
}

#[derive(Clone)]
struct Item<'tcx> {
    key: String,
    inst: Instance<'tcx>,
    env: TypingEnv<'tcx>,
    root: DefId,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<Option<J>>,
    adts: HashMap<DefId, String>,
    adt_queue: Vec<DefId>,
    queue: VecDeque<Item<'tcx>>,
    seen: HashSet<String>,
    consts: VecDeque<(String, DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>, DefId)>,
    env: TypingEnv<'tcx>,
    root: DefId,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> Cx<'tcx> {
    fn cpath(&self, def: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(def) {
            DefKind::Closure | DefKind::AnonConst => {
                let p = tcx.parent(def);
                let d = tcx.def_path(def);
                let last = d.data.last().unwrap();
                return format!("{}::{{{}#{}}}", self.cpath(p), if tcx.is_closure_like(def) { "closure" } else { "const" }, last.disambiguator);
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let p = tcx.parent(def);
                let name = tcx.item_name(def);
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let self_ty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let tr = pr!(tr.print_only_trait_path().to_string());
                        let st = pr!(self_ty.to_string());
                        return format!("<{} as {}>::{}", st, tr, name);
                    }
                    if let ty::Adt(adt, _) = self_ty.kind() {
                        return format!("{}::{}", self.cpath(adt.did()), name);
                    }
                    return format!("<{}>::{}", pr!(self_ty.to_string()), name);
                }
                return format!("{}::{}", self.cpath(p), name);
            }
            _ => {}
        }
        // Items nested in a function body keep the function's path.
        let krate = tcx.crate_name(def.krate).to_string();
        let mut out = krate;
        if let Some(p) = tcx.opt_parent(def) {
            if !p.is_crate_root() {
                out = self.cpath(p);
            }
            let d = tcx.def_path(def);
            if let Some(l) = d.data.last() {
                let _ = write!(out, "::{}", l.as_sym(false));
            }
        }
        out
    }

    fn args_str(&self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(pr!(t.to_string()));
            } else if let Some(c) = a.as_const() {
                v.push(pr!(c.to_string()));
            }
        }
        v.join(", ")
    }

    fn inst_key(&self, inst: Instance<'tcx>) -> String {
        let def = inst.def_id();
        let mut k = self.cpath(def);
        let args = inst.args;
        let a = self.args_str(args);
        if !a.is_empty() {
            let _ = write!(k, "[{}]", a);
        }
        match inst.def {
            InstanceKind::Item(_) => {}
            other => {
                let d = format!("{:?}", other);
                let d: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
                let d2 = if let InstanceKind::Shim(sk) = other {
                    let e = format!("{:?}", sk);
                    e.chars().take_while(|c| c.is_alphanumeric()).collect()
                } else {
                    d
                };
                let _ = write!(k, "#{}", d2);
            }
        }
        if args.has_param() {
            let _ = write!(k, "@{}", self.cpath(self.root));
        }
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t))
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(None);
        let mut o: Vec<(&'static str, J)> = Vec::new();
        let st = pr!(t.to_string());
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(adt, args) => {
                o.push(("k", s("adt")));
                let p = self.adt(adt.did());
                o.push(("n", s(p)));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", self.ty(*x)));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", self.ty(*x)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                o.push(("t", self.ty(*x)));
            }
            ty::Array(x, c) => {
                o.push(("k", s("array")));
                o.push(("t", self.ty(*x)));
                o.push(("len", s(c.to_string())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(def, args) => {
                o.push(("k", s("closure")));
                o.push(("n", s(self.cpath(*def))));
                let inst = Instance::new_raw(*def, args);
                let kind = format!("{:?}", args.as_closure().kind());
                o.push(("ck", s(kind)));
                let key = self.enqueue(inst);
                o.push(("key", key.map(s).unwrap_or(J::Null)));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(ups)));
            }
            ty::FnDef(def, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                let c = self.callee(*def, args);
                o.push(("c", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("n", s(self.cpath(p))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(st)));
        self.type_list[i] = Some(J::o(o));
        i
    }

    fn adt(&mut self, did: DefId) -> String {
        if let Some(p) = self.adts.get(&did) {
            return p.clone();
        }
        let p = self.cpath(did);
        self.adts.insert(did, p.clone());
        self.adt_queue.push(did);
        p
    }

    fn want_external(&self, def: DefId) -> bool {
        let tcx = self.tcx;
        if !tcx.is_mir_available(def) {
            return false;
        }
        let k = tcx.crate_name(def.krate);
        if !matches!(k.as_str(), "core" | "alloc") {
            return false;
        }
        let p = tcx.def_path(def).to_string_no_crate_verbose();
        for pre in ["::option::", "::result::", "::ops::control_flow::", "::convert::", "::bool::", "::borrow::"] {
            if p.starts_with(pre) {
                return true;
            }
        }
        p == "::ops::function::impls"
    }

    /// Returns the key if the instance has a body we dump.
    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let def = inst.def_id();
        let shim = match inst.def {
            InstanceKind::Item(_) => false,
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..)) => true,
            _ => return None,
        };
        let ok = if shim {
            true
        } else if def.is_local() {
            self.tcx.is_mir_available(def)
        } else {
            self.want_external(def)
        };
        if !ok {
            return None;
        }
        if inst.args.iter().any(|a| a.walk().count() > 200) {
            return None;
        }
        let key = self.inst_key(inst);
        if self.seen.insert(key.clone()) {
            self.queue.push_back(Item { key: key.clone(), inst, env: self.env, root: self.root });
        }
        Some(key)
    }

    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("n", s(self.cpath(def)))];
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(targs)));
        let cargs: Vec<J> = args.consts().map(|c| s(c.to_string())).collect();
        if !cargs.is_empty() {
            o.push(("ca", J::A(cargs)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            let p = tcx.parent(def);
            let (adt, variant) = if tcx.def_kind(p) == DefKind::Variant {
                let a = tcx.parent(p);
                let idx = tcx.adt_def(a).variant_index_with_id(p).as_usize();
                (a, idx)
            } else {
                (p, 0)
            };
            let an = self.adt(adt);
            o.push(("ctor", J::A(vec![s(an), n(variant)])));
            return J::o(o);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, def, args) {
            o.push(("r", s(self.cpath(inst.def_id()))));
            let kind = match inst.def {
                InstanceKind::Item(_) => "item".to_string(),
                InstanceKind::Shim(sk) => format!("{:?}", sk).chars().take_while(|c| c.is_alphanumeric()).collect(),
                other => format!("{:?}", other).chars().take_while(|c| c.is_alphanumeric()).collect(),
            };
            o.push(("rk", s(kind)));
            if let Some(key) = self.enqueue(inst) {
                o.push(("key", s(key)));
            }
        }
        J::o(o)
    }

    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file;
        format!("{}", f.name.prefer_local_unconditionally())
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        let _ = body;
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                other => J::A(vec![s("?"), s(format!("{:?}", other))]),
            };
            v.push(j);
        }
        J::A(v)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, named: Option<String>) -> Option<J> {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = Vec::new();
        match v {
            ConstValue::ZeroSized => o.push(("c", s("zst"))),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => {
                        o.push(("c", s("int")));
                        o.push(("v", J::N(i.size().sign_extend(bits))));
                    }
                    ty::Float(_) => {
                        o.push(("c", s("float")));
                        o.push(("v", s(format!("{}", bits))));
                    }
                    ty::Bool | ty::Char | ty::Uint(_) => {
                        o.push(("c", s("int")));
                        o.push(("v", s(format!("{}", bits))));
                    }
                    _ => {
                        o.push(("c", s("bits")));
                        o.push(("v", s(format!("{}", bits))));
                    }
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        o.push(("c", s("static")));
                        o.push(("v", s(self.cpath(d))));
                    }
                    GlobalAlloc::Memory(m) => {
                        let inner = m.inner();
                        let len = inner.len();
                        o.push(("c", s("mem")));
                        let start = off.bytes() as usize;
                        let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(start..len);
                        o.push(("v", s(hex(b))));
                    }
                    _ => return None,
                }
            }
            ConstValue::Slice { .. } => match t.kind() {
                ty::Ref(_, x, _) if x.is_str() => {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    o.push(("c", s("str")));
                    o.push(("v", s(String::from_utf8_lossy(b).into_owned())));
                }
                ty::Ref(_, x, _) if matches!(x.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    o.push(("c", s("bytes")));
                    o.push(("v", s(hex(b))));
                }
                _ => return None,
            },
            ConstValue::Indirect { .. } => {
                // Fat references (&str constants) may be stored indirectly.
                match t.kind() {
                    ty::Ref(_, x, _) if x.is_str() => {
                        let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                        o.push(("c", s("str")));
                        o.push(("v", s(String::from_utf8_lossy(b).into_owned())));
                    }
                    _ => return None,
                }
            }
        }
        o.push(("t", self.ty(t)));
        if let Some(nm) = named {
            o.push(("n", s(nm)));
        }
        Some(J::o(o))
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, bodykey: &str) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            return J::o(vec![("c", s("fn")), ("t", self.ty(t))]);
        }
        match c.const_ {
            mir::Const::Unevaluated(uv, t) => {
                if let Some(p) = uv.promoted {
                    let own = bodykey.to_string();
                    return J::o(vec![("c", s("promoted")), ("i", n(p.as_usize())), ("k", s(own)), ("t", self.ty(t))]);
                }
                let name = self.cpath(uv.def);
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    if let Some(j) = self.const_val(v, t, Some(name.clone())) {
                        return j;
                    }
                }
                let mut o = vec![("c", s("named")), ("n", s(name.clone())), ("t", self.ty(t))];
                // a resolvable constant item whose value has structure
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, uv.def, uv.args) {
                    let d = inst.def_id();
                    if d.is_local() && matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) {
                        let k = format!("const {}", self.inst_key(inst));
                        if self.seen.insert(k.clone()) {
                            self.consts.push_back((k.clone(), d, inst.args, self.env, self.root));
                        }
                        o.push(("key", s(k)));
                    }
                }
                J::o(o)
            }
            mir::Const::Val(v, t) => match self.const_val(v, t, None) {
                Some(j) => j,
                None => J::o(vec![("c", s("opaque")), ("s", s(pr!(c.const_.to_string()))), ("t", self.ty(t))]),
            },
            mir::Const::Ty(t, ct) => {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    if let Some(j) = self.const_val(v, t, None) {
                        return j;
                    }
                }
                J::o(vec![("c", s("cparam")), ("s", s(ct.to_string())), ("t", self.ty(t))])
            }
        }
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, op: &Operand<'tcx>, bk: &str) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.constant(c, bk)]),
            Operand::RuntimeChecks(r) => {
                let v = r.value(self.tcx.sess);
                J::A(vec![s("const"), J::o(vec![("c", s("int")), ("v", s(if v { "1" } else { "0" })), ("t", self.ty(self.tcx.types.bool))])])
            }
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, rv: &Rvalue<'tcx>, bk: &str) -> J {
        match rv {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o, bk)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(body, o, bk), s(c.to_string())]),
            Rvalue::Ref(_, bk_, p) => J::A(vec![s("ref"), J::B(matches!(bk_, mir::BorrowKind::Mut { .. })), self.place(body, p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("use"), J::A(vec![s(if m.is_mut() { "move" } else { "copy" }), self.place(body, p)])]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                J::A(vec![s("cast"), s(ks), self.operand(body, o, bk), self.ty(*t)])
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = (&b.0, &b.1);
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(body, x, bk), self.operand(body, y, bk)])
            }
            Rvalue::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(body, x, bk)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o, bk)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, vi, _, _, fi) => {
                        let p = self.adt(*d);
                        J::A(vec![s("adt"), s(p), n(vi.as_usize()), fi.map(|f| n(f.as_usize())).unwrap_or(J::Null)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(body, p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.cpath(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, o, bk)]),
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, bk: &str) -> Vec<(&'static str, J)> {
        let mut o: Vec<(&'static str, J)> = Vec::new();
        o.push(("file", s(self.file(body.span))));
        o.push(("line", n(self.line(body.span))));
        o.push(("argc", n(body.arg_count)));
        if body.spread_arg.is_some() {
            o.push(("spread", n(body.spread_arg.unwrap().as_usize())));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        o.push(("locals", J::A(locals)));
        let mut names = Vec::new();
        for d in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(d.name.to_string())]));
                }
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = (&b.0, &b.1);
                        let l = self.line(x.source_info.span);
                        st.push(J::A(vec![s("="), self.place(body, p), self.rvalue(body, rv, bk), n(l)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(body, place), n(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let tv: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match dt.kind() {
                                ty::Int(i) => {
                                    let bits = i.bit_width().unwrap_or(64);
                                    let sh = 128 - bits as u32;
                                    ((v << sh) as i128) >> sh
                                }
                                _ => v as i128,
                            };
                            J::A(vec![J::N(v), n(b.as_usize())])
                        })
                        .collect();
                    J::A(vec![s("switch"), self.operand(body, discr, bk), J::A(tv), n(targets.otherwise().as_usize()), n(l)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    J::A(vec![s("drop"), self.place(body, place), n(target.as_usize()), self.ty(pt)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, bk);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, bk)).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(body, destination),
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                        n(l),
                        s(self.file(t.source_info.span)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k: String = format!("{:?}", msg);
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(body, len, bk), self.operand(body, index, bk)])
                        }
                        mir::AssertKind::Overflow(op, a, b) => {
                            J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(body, a, bk), self.operand(body, b, bk)])
                        }
                        mir::AssertKind::OverflowNeg(a) => J::A(vec![s("negoverflow"), self.operand(body, a, bk)]),
                        mir::AssertKind::DivisionByZero(a) => J::A(vec![s("divzero"), self.operand(body, a, bk)]),
                        mir::AssertKind::RemainderByZero(a) => J::A(vec![s("remzero"), self.operand(body, a, bk)]),
                        _ => J::A(vec![s("other"), s(k)]),
                    };
                    J::A(vec![s("assert"), self.operand(body, cond, bk), J::B(*expected), kind, n(target.as_usize()), n(l)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::o(vec![("s", J::A(st)), ("t", tj), ("l", n(l))]));
        }
        o.push(("blocks", J::A(blocks)));
        o
    }
}

fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    o
}

/// Finds the unsafe blocks written by hand in a body.
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) && b.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |d| d.is_local()) {
            self.found.push(b.span);
        }
        intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let root0 = rustc_hir::def_id::CRATE_DEF_ID.to_def_id();
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_list: Vec::new(),
        adts: HashMap::new(),
        adt_queue: Vec::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        consts: VecDeque::new(),
        env: TypingEnv::fully_monomorphized(),
        root: root0,
    };
    let eff = tcx.effective_visibilities(());
    let mut fns = Vec::new();
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
    let mut roots = Vec::new();
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        if !tcx.is_mir_available(d) {
            continue;
        }
        roots.push(d);
    }
    // Generic roots after the rest, so that shared concrete instances are visited first.
    let gen_of = |d: DefId| ty::GenericArgs::identity_for_item(tcx, d).has_param();
    roots.sort_by_key(|d| gen_of(*d));
    for d in roots {
        cx.root = d;
        cx.env = TypingEnv::post_analysis(tcx, d);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(d, args);
        let key = cx.enqueue(inst);
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
        let outt = cx.ty(sig.output());
        let parent = tcx.parent(d);
        let mut o = vec![
            ("n", s(cx.cpath(d))),
            ("key", key.map(s).unwrap_or(J::Null)),
            ("name", s(tcx.item_name(d).to_string())),
            ("pub", J::B(eff.is_exported(d.expect_local()))),
            ("generic", J::B(args.has_param())),
            ("in", J::A(ins)),
            ("out", outt),
            ("file", s(cx.file(tcx.def_span(d)))),
            ("line", n(cx.line(tcx.def_span(d)))),
        ];
        if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            o.push(("self", cx.ty(st)));
            if of_trait {
                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(cx.cpath(tr.def_id))));
                o.push(("traits", s(pr!(tr.print_only_trait_path().to_string()))));
            }
        } else if tcx.def_kind(parent) == DefKind::Trait {
            o.push(("intrait", s(cx.cpath(parent))));
        }
        fns.push(J::o(o));
    }
    let mut bodies: Vec<(String, J)> = Vec::new();
    loop {
        if let Some(it) = cx.queue.pop_front() {
            cx.env = it.env;
            cx.root = it.root;
            let def = it.inst.def_id();
            let bodyref = tcx.instance_mir(it.inst.def);
            let body: mir::Body<'_> = match it.inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                it.env,
                ty::EarlyBinder::bind(tcx, bodyref.clone()),
            ) {
                Ok(b) => b,
                Err(_) => {
                    bodies.push((it.key, J::o(vec![("failed", J::B(true)), ("n", s(cx.cpath(def)))])));
                    continue;
                }
            };
            let mut o = vec![("n", s(cx.cpath(def)))];
            let args: Vec<J> = it.inst.args.types().map(|t| cx.ty(t)).collect();
            o.push(("a", J::A(args)));
            o.push(("local", J::B(def.is_local())));
            if tcx.is_closure_like(def) {
                o.push(("closure", J::B(true)));
            }
            o.extend(cx.body(&body, &it.key));
            if matches!(it.inst.def, InstanceKind::Item(_)) {
                let pm = tcx.promoted_mir(def);
                let mut ps = Vec::new();
                for p in pm.iter() {
                    match it.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, it.env, ty::EarlyBinder::bind(tcx, p.clone())) {
                        Ok(pb) => {
                            let b = cx.body(&pb, &it.key);
                            ps.push(J::o(b));
                        }
                        Err(_) => ps.push(J::Null),
                    }
                }
                if !ps.is_empty() {
                    o.push(("promoted", J::A(ps)));
                }
            }
            bodies.push((it.key, J::o(o)));
        } else if let Some((key, def, args, env, root)) = cx.consts.pop_front() {
            cx.env = env;
            cx.root = root;
            let b0 = tcx.mir_for_ctfe(def);
            let inst = Instance::new_raw(def, args);
            if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b0.clone())) {
                let mut o = vec![("n", s(cx.cpath(def))), ("const", J::B(true))];
                o.extend(cx.body(&b, &key));
                let pm = tcx.promoted_mir(def);
                let mut ps = Vec::new();
                for p in pm.iter() {
                    match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, p.clone())) {
                        Ok(pb) => {
                            let b = cx.body(&pb, &key);
                            ps.push(J::o(b));
                        }
                        Err(_) => ps.push(J::Null),
                    }
                }
                if !ps.is_empty() {
                    o.push(("promoted", J::A(ps)));
                }
                bodies.push((key, J::o(o)));
            }
        } else {
            break;
        }
    }
    // ADTs
    let mut adts: Vec<(String, J)> = Vec::new();
    // every local ADT, used or not
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.adt(d);
        }
    }
    while let Some(d) = cx.adt_queue.pop() {
        let name = cx.adts[&d].clone();
        let a = tcx.adt_def(d);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let mut vs = Vec::new();
        let rel = d.is_local() || a.is_enum() || matches!(tcx.crate_name(d.krate).as_str(), "prost" | "prost_types");
        for (vi, v) in a.variants().iter_enumerated() {
            let mut fs = Vec::new();
            if rel {
                for f in v.fields.iter() {
                    let t = f.ty(tcx, args).skip_norm_wip();
                    fs.push(J::A(vec![s(f.name.to_string()), cx.ty(t), J::B(f.vis.is_public())]));
                }
            }
            let dv = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val } else { 0 };
            let dv: i128 = if a.is_enum() {
                let dt = a.repr().discr_type();
                if dt.is_signed() { ((dv << 64) as i128) >> 64 } else { dv as i128 }
            } else { 0 };
            vs.push(J::o(vec![("n", s(v.name.to_string())), ("d", J::N(dv)), ("f", J::A(fs))]));
        }
        let mut o = vec![("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })), ("v", J::A(vs)), ("local", J::B(d.is_local()))];
        if d.is_local() {
            o.push(("pub", J::B(eff.is_exported(d.expect_local()))));
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if !st.has_param() {
                let env = tcx.param_env(d);
                let (infcx, env) = (tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis()), env);
                for (nm, tr) in [("send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("sync", tcx.lang_items().sync_trait())] {
                    if let Some(tr) = tr {
                        let ok = infcx.type_implements_trait(tr, [st], env).must_apply_modulo_regions();
                        o.push((nm, J::B(ok)));
                    }
                }
            }
            o.push(("file", s(cx.file(tcx.def_span(d)))));
            o.push(("line", n(cx.line(tcx.def_span(d)))));
        }
        adts.push((name, J::o(o)));
    }
    // trait impls, statics, unsafe uses
    let mut impls = Vec::new();
    let mut statics = Vec::new();
    let mut unsafes = Vec::new();
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let items: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|x| s(cx.cpath(*x))).collect();
                impls.push(J::o(vec![
                    ("trait", s(cx.cpath(tr.def_id))),
                    ("traits", s(pr!(tr.print_only_trait_path().to_string()))),
                    ("self", cx.ty(st)),
                    ("items", J::A(items)),
                    ("unsafe", J::B(tcx.impl_trait_header(d).safety.is_unsafe())),
                    ("line", n(cx.line(tcx.def_span(d)))),
                    ("file", s(cx.file(tcx.def_span(d)))),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::o(vec![
                    ("n", s(cx.cpath(d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("t", cx.ty(t)),
                    ("pub", J::B(eff.is_exported(d.expect_local()))),
                ]));
            }
            _ => {}
        }
    }
    let mut uns = Unsafe { tcx, found: Vec::new() };
    for owner in tcx.hir_body_owners() {
        let k = uns.found.len();
        uns.visit_body(tcx.hir_body_owned_by(owner));
        let _ = uns.tcx;
        if uns.found.len() > k {
            unsafes.push(s(cx.cpath(owner.to_def_id())));
        }
    }
    // ADT fields may have introduced new ADTs and types.
    while let Some(d) = cx.adt_queue.pop() {
        let name = cx.adts[&d].clone();
        adts.push((name, J::o(vec![("kind", s("opaque")), ("v", J::A(vec![])), ("local", J::B(false))])));
    }
    let types: Vec<J> = std::mem::take(&mut cx.type_list).into_iter().map(|t| t.unwrap_or(J::Null)).collect();
    let bj: Vec<J> = bodies.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect();
    let aj: Vec<J> = adts.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect();
    let top = J::o(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", J::A(types)),
        ("adts", J::A(aj)),
        ("fns", J::A(fns)),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("unsafe", J::A(unsafes)),
        ("bodies", J::A(bj)),
    ]);
    let mut buf = String::new();
    top.write(&mut buf);
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, buf).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = None;
    let mut test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned();
        }
        if a == "--test" {
            test = true;
        }
    }
    let wanted = std::env::var("PRV_CRATES").unwrap_or_default();
    let out = std::env::var("PRV_OUT").ok();
    let mut o = None;
    if let (Some(nm), Some(dir)) = (&name, &out) {
        if !test && wanted.split(',').any(|x| x == nm) {
            o = Some(format!("{}/{}.json", dir, nm));
            args.push("-Zmir-opt-level=0".into());
            args.push("-Cdebug-assertions=off".into());
            args.push("-Coverflow-checks=on".into());
        }
    }
    rustc_driver_impl::catch_with_exit_code(move || {
        let mut cb = Cb { out: o };
        rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
    })
}
