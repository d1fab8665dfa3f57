//! rustc driver: behaves as rustc, and after analysis writes the type-checked program (ADTs,
//! impls, signatures and MIR with resolved callees) of each workspace crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;

/// `unsafe` blocks written in this crate (not by the macros of others).
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Span>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                self.out.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
}

struct Dump {
    out: std::path::PathBuf,
}

fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}

fn id_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    // Items of the analysed workspace are always named by their definition path, whatever
    // re-export they are seen through.
    if tcx.crate_name(d.krate).as_str().starts_with("stylist") {
        return id_of(tcx, d);
    }
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        format!("{}::{}", tcx.crate_name(d.krate), p)
    } else {
        p
    }
}
fn tys(t: Ty<'_>) -> String {
    qualify(with_crate_prefix!(with_no_trimmed_paths!(format!("{t}"))))
}
/// `crate::x` (printed for local items) -> `<this crate>::x`
fn qualify(t: String) -> String {
    ty::tls::with(|tcx| {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut out = String::with_capacity(t.len());
        let mut rest = t.as_str();
        while let Some(i) = rest.find("crate::") {
            let prev = rest[..i].chars().last();
            out.push_str(&rest[..i]);
            if prev.map_or(true, |c| !(c.is_alphanumeric() || c == '_' || c == ':')) {
                out.push_str(&name);
                out.push_str("::");
            } else {
                out.push_str("crate::");
            }
            rest = &rest[i + 7..];
        }
        out.push_str(rest);
        out
    })
}

#[derive(Default)]
struct Owned<'tcx> {
    seen: std::collections::HashSet<Ty<'tcx>>,
    guards: std::collections::BTreeSet<(String, String)>,
    drops: std::collections::BTreeSet<String>,
    adts: std::collections::BTreeSet<String>,
    code: std::collections::BTreeSet<String>,
    flags: std::collections::BTreeSet<String>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            o => format!("{o:?}"),
        };
        J::A(vec![s(f), J::I(lo.line as i128)])
    }

    fn ty(&self, t: Ty<'tcx>, depth: u32) -> J {
        if depth == 0 {
            return J::A(vec![s("other"), s(tys(t))]);
        }
        let d = depth - 1;
        match t.kind() {
            ty::Adt(def, args) => J::A(vec![
                s("adt"),
                s(pretty(self.tcx, def.did())),
                J::A(args.types().map(|a| self.ty(a, d)).collect()),
            ]),
            ty::Ref(_, t, m) => J::A(vec![s("ref"), J::B(m.is_mut()), self.ty(*t, d)]),
            ty::RawPtr(t, m) => J::A(vec![s("ptr"), J::B(m.is_mut()), self.ty(*t, d)]),
            ty::Tuple(ts) => J::A(vec![s("tuple"), J::A(ts.iter().map(|a| self.ty(a, d)).collect())]),
            ty::Slice(t) => J::A(vec![s("slice"), self.ty(*t, d)]),
            ty::Array(t, _) => J::A(vec![s("array"), self.ty(*t, d)]),
            ty::Closure(def, _) => J::A(vec![s("closure"), s(id_of(self.tcx, *def))]),
            ty::FnDef(def, _) => J::A(vec![s("fndef"), s(pretty(self.tcx, *def))]),
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::Dynamic(..) => J::A(vec![s("dyn"), s(tys(t))]),
            ty::Str | ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Never => {
                J::A(vec![s("prim"), s(tys(t))])
            }
            _ => J::A(vec![s("other"), s(tys(t))]),
        }
    }

    fn callee(&self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", s(id_of(tcx, d))),
            ("path", s(pretty(tcx, d))),
            ("args", J::A(args.types().map(|a| s(tys(a))).collect())),
            ("targs", J::A(args.types().map(|a| self.ty(a, 5)).collect())),
            ("bounds", self.bounds(env, d, args)),
        ];
        if let Some(ai) = tcx.opt_associated_item(d) {
            o.push(("name", s(ai.name().to_string())));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(pretty(tcx, tr))));
            }
            if let Some(im) = tcx.inherent_impl_of_assoc(d) {
                o.push(("self", s(tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
            }
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", s(n.to_string())));
        }
        let args2 = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args2) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rid", s(id_of(tcx, rd))));
                    o.push(("rpath", s(pretty(tcx, rd))));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        o.push(("rself", s(tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                    }
                    o.push(("rargs", J::A(inst.args.types().map(|a| s(tys(a))).collect())));
                    o.push(("rtargs", J::A(inst.args.types().map(|a| self.ty(a, 5)).collect())));
                }
                match inst.def {
                    ty::InstanceKind::Item(_) => o.push(("resolved", J::B(true))),
                    _ => o.push(("ikind", s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string()))),
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            o.push(("ctor", s(pretty(tcx, p))));
            let (adt, var) = if tcx.def_kind(p) == DefKind::Variant {
                (tcx.parent(p), tcx.item_name(p).to_string())
            } else {
                (p, tcx.item_name(p).to_string())
            };
            o.push(("ctor_adt", s(pretty(tcx, adt))));
            o.push(("ctor_variant", s(var)));
        }
        J::O(o)
    }

    /// what a value of this type owns: lock guards, local destructors, captured code, caller-supplied parts
    fn owned(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>, o: &mut Owned<'tcx>) {
        let tcx = self.tcx;
        let t = match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        };
        if !o.seen.insert(t) || o.seen.len() > 4000 {
            return;
        }
        match t.kind() {
            ty::Adt(def, args) => {
                let path = pretty(tcx, def.did());
                let last = path.rsplit("::").next().unwrap_or("").to_string();
                if last.ends_with("Guard") && !path.starts_with("stylist") && last != "TerminateGuard"
                    || path == "std::cell::Ref"
                    || path == "std::cell::RefMut"
                {
                    let p: Vec<String> = args.types().map(tys).collect();
                    o.guards.insert((last, p.join(",")));
                    return;
                }
                if def.is_phantom_data() || def.is_manually_drop() || last == "Weak" || path == "std::ptr::NonNull" {
                    return;
                }
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if tcx.crate_name(def.did().krate).as_str().starts_with("stylist") {
                        o.drops.insert(id_of(tcx, d.did));
                    }
                }
                for f in def.all_fields() {
                    let ft = f.ty(tcx, args);
                    self.owned(env, ft.skip_norm_wip(), o);
                }
                if !tcx.crate_name(def.did().krate).as_str().starts_with("stylist") {
                    for a in args.types() {
                        self.owned(env, a, o);
                    }
                }
            }
            ty::Closure(d, args) => {
                o.code.insert(id_of(tcx, *d));
                for u in args.as_closure().upvar_tys() {
                    self.owned(env, u, o);
                }
            }
            ty::Tuple(ts) => ts.iter().for_each(|u| self.owned(env, u, o)),
            ty::Array(u, _) | ty::Slice(u) => self.owned(env, *u, o),
            ty::Param(_) | ty::Alias(..) => {
                o.flags.insert("param".into());
            }
            ty::Dynamic(..) => {
                o.flags.insert(tys(t));
            }
            _ => {}
        }
    }

    fn owned_j(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Option<J> {
        let mut o = Owned::default();
        self.owned(env, t, &mut o);
        if o.guards.is_empty() && o.drops.is_empty() && o.flags.is_empty() {
            return None;
        }
        Some(J::O(vec![
            ("guards", J::A(o.guards.iter().map(|(a, b)| J::A(vec![s(a.clone()), s(b.clone())])).collect())),
            ("drops", J::A(o.drops.iter().map(|a| s(a.clone())).collect())),
            ("flags", J::A(o.flags.iter().map(|a| s(a.clone())).collect())),
        ]))
    }

    /// everything named anywhere in a type, behind references too
    fn mentions(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>, o: &mut Owned<'tcx>) {
        let tcx = self.tcx;
        let t = match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        };
        let mut w = t.walk();
        while let Some(g) = w.next() {
            if let ty::GenericArgKind::Type(u) = g.kind() {
                match u.kind() {
                    ty::Adt(def, _) if tcx.crate_name(def.did().krate).as_str().starts_with("stylist") => {
                        o.adts.insert(pretty(tcx, def.did()));
                    }
                    ty::Closure(d, args) => {
                        o.code.insert(id_of(tcx, *d));
                        w.skip_current_subtree();
                        for v in args.as_closure().upvar_tys() {
                            self.mentions(env, v, o);
                        }
                    }
                    ty::FnDef(d, _) => {
                        o.code.insert(id_of(tcx, *d));
                    }
                    ty::Param(_) | ty::Alias(..) => {
                        o.flags.insert("param".into());
                    }
                    ty::Dynamic(..) => {
                        o.flags.insert(tys(u));
                        w.skip_current_subtree();
                    }
                    ty::FnPtr(..) => {
                        o.flags.insert("fnptr".into());
                        w.skip_current_subtree();
                    }
                    _ => {}
                }
            }
        }
    }

    /// the trait bounds of a callee, for the types it is called with
    fn bounds(&self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut ow = Owned::default();
        for a in args.types() {
            self.owned(env, a.peel_refs(), &mut ow);
        }
        if !ow.drops.is_empty() {
            out.push(J::A(vec![
                s("drop"),
                J::A(vec![]),
                J::A(ow.drops.iter().map(|a| s(a.clone())).collect()),
                J::A(vec![]),
            ]));
        }
        for (c, _) in tcx.clauses_of(d).instantiate(tcx, args) {
            let c = c.skip_norm_wip();
            if let Some(tc) = c.as_trait_clause() {
                let tr = tc.skip_binder().trait_ref;
                let path = pretty(tcx, tr.def_id);
                if path.starts_with("std::marker::") {
                    continue;
                }
                let mut o = Owned::default();
                for a in tr.args.types() {
                    if matches!(a.kind(), ty::Tuple(_)) && path.starts_with("std::ops::Fn") {
                        continue;
                    }
                    self.mentions(env, a, &mut o);
                }
                if o.adts.is_empty() && o.code.is_empty() && o.flags.is_empty() {
                    continue;
                }
                out.push(J::A(vec![
                    s(path),
                    J::A(o.adts.iter().map(|a| s(a.clone())).collect()),
                    J::A(o.code.iter().map(|a| s(a.clone())).collect()),
                    J::A(o.flags.iter().map(|a| s(a.clone())).collect()),
                ]));
            }
        }
        J::A(out)
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc) {
            let a = a.inner();
            if (off + len) as usize <= a.len() {
                return Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize)
                        .to_vec(),
                );
            }
        }
        None
    }

    fn constant(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", s(tys(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                o.push(("fn", self.callee(env, *d, args.skip_binder())));
                return J::O(o);
            }
            ty::Closure(d, _) => {
                o.push(("closure", s(id_of(tcx, *d))));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                o.push(("promoted", J::A(vec![s(id_of(tcx, uv.def)), J::I(p.as_u32() as i128)])));
                // small scalars / strings may still be evaluated below
            } else {
                o.push(("cdef", s(id_of(tcx, uv.def))));
                o.push(("cpath", s(pretty(tcx, uv.def))));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("ct", s(format!("{ct:?}"))));
        }
        let v = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        if let Some(v) = v {
            match v {
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    match t.kind() {
                        ty::Bool => o.push(("bool", J::B(bits != 0))),
                        ty::Char => o.push((
                            "char",
                            s(char::from_u32(bits as u32).unwrap_or('\u{fffd}').to_string()),
                        )),
                        ty::Int(_) => {
                            let sz = i.size();
                            o.push(("int", J::I(sz.sign_extend(bits) as i128)))
                        }
                        _ => o.push(("int", J::I(bits as i128))),
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    match tcx.global_alloc(aid) {
                        GlobalAlloc::Static(d) => {
                            o.push(("static", s(id_of(tcx, d))));
                            o.push(("spath", s(pretty(tcx, d))));
                        }
                        GlobalAlloc::Function { instance } => {
                            o.push(("fnptr", self.callee(env, instance.def_id(), instance.args)));
                        }
                        _ => {
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if let ty::Array(et, n) = inner.kind() {
                                    if *et == tcx.types.u8 {
                                        if let Some(n) = n.try_to_target_usize(tcx) {
                                            if let Some(b) = self.bytes_of(aid, off.bytes(), n) {
                                                o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() {
                                o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                            } else {
                                o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                            }
                        }
                    }
                }
                ConstValue::Indirect { .. } => {}
            }
        }
        J::O(o)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let (name, adt) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            (
                                def.variant(v).fields[f].name.to_string(),
                                pretty(tcx, def.did()),
                            )
                        }
                        ty::Closure(d, _) => {
                            let name = d
                                .as_local()
                                .and_then(|l| {
                                    tcx.closure_captures(l).get(f.as_usize()).map(|c| c.to_symbol().to_string())
                                })
                                .unwrap_or_else(|| f.as_usize().to_string());
                            (name, "closure".to_string())
                        }
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name), s(adt)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    J::A(vec![s("v"), s(n)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("o"), s(format!("{e:?}"))]),
            });
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(proj)])
    }

    fn operand(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(env, c)]),
            o => J::A(vec![s("o"), s(format!("{o:?}"))]),
        }
    }

    fn rvalue(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(env, body, o)]),
            Rvalue::Repeat(o, n) => {
                J::A(vec![s("repeat"), self.operand(env, body, o), s(format!("{n:?}"))])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(body, p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(id_of(tcx, *d)), s(pretty(tcx, *d))]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                self.operand(env, body, o),
                s(tys(*t)),
                s(format!("{k:?}")),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(env, body, &ops.0),
                self.operand(env, body, &ops.1),
            ]),
            Rvalue::UnaryOp(u, o) => {
                J::A(vec![s("un"), s(format!("{u:?}")), self.operand(env, body, o)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut tab = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(tcx) {
                            tab.push(J::A(vec![
                                J::S(d.val.to_string()),
                                s(def.variant(vi).name.to_string()),
                            ]));
                        }
                    }
                }
                J::A(vec![s("discr"), self.place(body, p), J::A(tab), s(tys(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        J::A(vec![
                            s("adt"),
                            s(pretty(tcx, *d)),
                            s(var.name.to_string()),
                            J::A(names),
                            J::B(def.is_enum()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        let names: Vec<J> = d
                            .as_local()
                            .map(|l| {
                                tcx.closure_captures(l).iter().map(|c| s(c.to_symbol().to_string())).collect()
                            })
                            .unwrap_or_default();
                        J::A(vec![s("closure"), s(id_of(tcx, *d)), J::A(names)])
                    }
                    o => J::A(vec![s("o"), s(format!("{o:?}"))]),
                };
                J::A(vec![
                    s("agg"),
                    kind,
                    J::A(ops.iter().map(|o| self.operand(env, body, o)).collect()),
                ])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            o => J::A(vec![s("o"), s(format!("{o:?}"))]),
        }
    }

    fn body(&self, d: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter()
            .enumerate()
            .map(|(i, l)| {
                J::A(vec![
                    s(tys(l.ty)),
                    names[i].clone().map(J::S).unwrap_or(J::N),
                ])
            })
            .collect();
        let blocks = body
            .basic_blocks
            .iter()
            .map(|b| {
                let stmts = b
                    .statements
                    .iter()
                    .filter_map(|st| match &st.kind {
                        StatementKind::Assign(x) => Some(J::A(vec![
                            s("="),
                            self.place(body, &x.0),
                            self.rvalue(env, body, &x.1),
                            self.span(st.source_info.span),
                        ])),
                        StatementKind::SetDiscriminant { place, variant_index } => Some(J::A(vec![
                            s("sd"),
                            self.place(body, place),
                            J::I(variant_index.as_usize() as i128),
                        ])),
                        _ => None,
                    })
                    .collect();
                let t = b.terminator();
                let bb = |x: BasicBlock| J::I(x.as_usize() as i128);
                let term = match &t.kind {
                    TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                    TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                        s("switch"),
                        self.operand(env, body, discr),
                        J::A(
                            targets
                                .iter()
                                .map(|(v, b)| J::A(vec![J::S(v.to_string()), bb(b)]))
                                .collect(),
                        ),
                        bb(targets.otherwise()),
                        s(tys(discr.ty(&body.local_decls, tcx))),
                    ]),
                    TerminatorKind::Return => J::A(vec![s("ret")]),
                    TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                    TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                    TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                    TerminatorKind::Drop { place, target, .. } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        J::A(vec![s("drop"), self.place(body, place), bb(*target), s(tys(t))])
                    }
                    TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                        let f = match func {
                            Operand::Constant(c) => match c.const_.ty().kind() {
                                ty::FnDef(d, a) => self.callee(env, *d, a.skip_binder()),
                                _ => J::O(vec![("dynop", self.operand(env, body, func))]),
                            },
                            _ => J::O(vec![("dynop", self.operand(env, body, func))]),
                        };
                        J::A(vec![
                            s("call"),
                            f,
                            J::A(args.iter().map(|a| self.operand(env, body, &a.node)).collect()),
                            self.place(body, destination),
                            target.map(bb).unwrap_or(J::N),
                            self.span(*fn_span),
                        ])
                    }
                    TerminatorKind::Assert { cond, expected, target, msg, .. } => J::A(vec![
                        s("assert"),
                        self.operand(env, body, cond),
                        J::B(*expected),
                        bb(*target),
                        s(format!("{msg:?}").chars().take(120).collect::<String>()),
                        self.span(t.source_info.span),
                    ]),
                    TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                    TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                    o => J::A(vec![s("o"), s(format!("{o:?}"))]),
                };
                J::O(vec![("s", J::A(stmts)), ("t", term), ("c", J::B(b.is_cleanup))])
            })
            .collect();
        let mut own = vec![];
        for (i, l) in body.local_decls.iter().enumerate() {
            if let Some(j) = self.owned_j(env, l.ty) {
                own.push(J::A(vec![J::A(vec![J::I(i as i128), J::A(vec![])]), j]));
            }
        }
        let mut seen = std::collections::HashSet::new();
        let mut part = |p: &Place<'tcx>, own: &mut Vec<J>| {
            if !p.projection.is_empty() && seen.insert(*p) {
                if let Some(j) = self.owned_j(env, p.ty(&body.local_decls, tcx).ty) {
                    own.push(J::A(vec![self.place(body, p), j]));
                }
            }
        };
        struct V<'tcx>(Vec<Place<'tcx>>);
        impl<'tcx> rustc_middle::mir::visit::Visitor<'tcx> for V<'tcx> {
            fn visit_operand(&mut self, o: &Operand<'tcx>, _: Location) {
                if let Operand::Move(p) = o {
                    self.0.push(*p);
                }
            }
            fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
                match &t.kind {
                    TerminatorKind::Drop { place, .. } => self.0.push(*place),
                    TerminatorKind::Call { destination, .. } => self.0.push(*destination),
                    _ => {}
                }
                self.super_terminator(t, l);
            }
        }
        let mut v = V(vec![]);
        rustc_middle::mir::visit::Visitor::visit_body(&mut v, body);
        for p in v.0.iter() {
            part(p, &mut own);
        }
        J::O(vec![
            ("own", J::A(own)),
            ("argc", J::I(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::N)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn impl_info(&self, im: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", s(id_of(tcx, im))),
            ("self", s(tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))),
            ("selfty", self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip(), 5)),
        ];
        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            o.push(("trait", s(pretty(tcx, tr.def_id))));
            o.push(("tref", s(qualify(with_crate_prefix!(with_no_trimmed_paths!(format!("{tr}")))))));
            o.push(("targs", J::A(tr.args.types().skip(1).map(|t| s(tys(t))).collect())));
        }
        o.push(("derived", J::B(tcx.is_automatically_derived(im))));
        J::O(o)
    }

    fn vis(&self, d: DefId) -> J {
        match tcx_vis(self.tcx, d) {
            Some(v) => s(v),
            None => J::N,
        }
    }

    fn item(&self, l: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let d = l.to_def_id();
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("id", s(id_of(tcx, d))),
            ("path", s(pretty(tcx, d))),
            ("kind", s(format!("{kind:?}").split(|c: char| c == ' ' || c == '(' || c == '{').next().unwrap_or("").to_string())),
            ("span", self.span(tcx.def_span(d))),
        ];
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", s(n.to_string())));
        }
        let ev = tcx.effective_visibilities(());
        if let Some(b) = tcx.hir_maybe_body_owned_by(l) {
            let mut v = Unsafe { tcx, out: vec![] };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
            if !v.out.is_empty() {
                o.push(("unsafe", J::A(v.out.iter().map(|sp| self.span(*sp)).collect())));
            }
        }
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                o.push(("vis", self.vis(d)));
                o.push(("reach", J::B(ev.is_reachable(l))));
                o.push(("exported", J::B(ev.is_exported(l))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("inputs", J::A(sig.inputs().iter().map(|t| self.ty(*t, 6)).collect())));
                o.push(("output", self.ty(sig.output(), 6)));
                o.push(("sig", s(qualify(with_crate_prefix!(with_no_trimmed_paths!(format!("{sig}")))))));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    o.push(("impl", self.impl_info(im)));
                }
                let gen = rustc_middle::ty::GenericArgs::identity_for_item(tcx, d);
                o.push(("generics", J::A(gen.types().map(|a| s(tys(a))).collect())));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("in_trait", s(pretty(tcx, tr))));
                }
                if !tcx.is_mir_available(d) {
                    o.push(("nobody", J::B(true)));
                    return Some(J::O(o));
                }
                let b = tcx.optimized_mir(d);
                o.push(("body", self.body(d, b)));
                let pr = tcx.promoted_mir(d);
                o.push(("promoted", J::A(pr.iter().map(|p| self.body(d, p)).collect())));
            }
            DefKind::Closure => {
                let b = tcx.optimized_mir(d);
                o.push(("parent", s(id_of(tcx, tcx.parent(d)))));
                o.push(("root", s(id_of(tcx, tcx.typeck_root_def_id(d)))));
                o.push((
                    "upvars",
                    J::A(tcx.closure_captures(l).iter().map(|c| s(c.to_symbol().to_string())).collect()),
                ));
                o.push(("body", self.body(d, b)));
                let pr = tcx.promoted_mir(d);
                o.push(("promoted", J::A(pr.iter().map(|p| self.body(d, p)).collect())));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                o.push(("vis", self.vis(d)));
                o.push(("ty", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip(), 6)));
                if tcx.is_mir_available(d) || matches!(kind, DefKind::Static { .. }) {
                    if matches!(kind, DefKind::Static { .. }) || tcx.generics_of(d).is_empty() {
                        let b = tcx.mir_for_ctfe(d);
                        o.push(("body", self.body(d, b)));
                        let pr = tcx.promoted_mir(d);
                        o.push(("promoted", J::A(pr.iter().map(|p| self.body(d, p)).collect())));
                    }
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                o.push(("vis", self.vis(d)));
                o.push(("reach", J::B(ev.is_reachable(l))));
                o.push(("exported", J::B(ev.is_exported(l))));
                let def = tcx.adt_def(d);
                let me = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let penv = tcx.param_env(d);
                let icx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                let mut auto = Vec::new();
                let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
                for (n, t) in [("Send", send), ("Sync", tcx.lang_items().sync_trait()), ("Freeze", tcx.lang_items().freeze_trait())] {
                    if let Some(t) = t {
                        if icx.type_implements_trait(t, [me], penv).must_apply_modulo_regions() {
                            auto.push(s(n));
                        }
                    }
                }
                o.push(("auto", J::A(auto)));
                let vars = def
                    .variants()
                    .iter()
                    .map(|v| {
                        J::O(vec![
                            ("name", s(v.name.to_string())),
                            (
                                "fields",
                                J::A(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                            J::O(vec![
                                                ("name", s(f.name.to_string())),
                                                ("ty", self.ty(t, 7)),
                                                ("tys", s(tys(t))),
                                                ("vis", self.vis(f.did)),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect();
                o.push(("variants", J::A(vars)));
            }
            DefKind::Impl { .. } => {
                o.push(("impl", self.impl_info(d)));
                if tcx.impl_opt_trait_ref(d).is_some() && tcx.impl_trait_header(d).safety.is_unsafe() {
                    o.push(("unsafe", J::A(vec![self.span(tcx.def_span(d))])));
                }
                let items = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|a| J::A(vec![s(a.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(id_of(tcx, a.def_id))]))
                    .collect();
                o.push(("items", J::A(items)));
            }
            DefKind::Trait | DefKind::TyAlias { .. } | DefKind::Mod | DefKind::Macro(..) => {
                o.push(("vis", self.vis(d)));
                o.push(("exported", J::B(ev.is_exported(l))));
            }
            _ => return None,
        }
        Some(J::O(o))
    }
}

fn tcx_vis(tcx: TyCtxt<'_>, d: DefId) -> Option<String> {
    Some(match tcx.visibility(d) {
        ty::Visibility::Public => "pub".to_string(),
        ty::Visibility::Restricted(m) => {
            if m.is_crate_root() {
                "crate".to_string()
            } else {
                format!("in {}", id_of(tcx, m.to_def_id()))
            }
        }
    })
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut items = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            if let Some(j) = cx.item(l) {
                items.push(j);
            }
        }
        for l in tcx.hir_body_owners() {
            if tcx.def_kind(l) == DefKind::Closure {
                if let Some(j) = cx.item(l) {
                    items.push(j);
                }
            }
        }
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = J::O(vec![("crate", s(name.clone())), ("items", J::A(items))]);
        let mut text = String::new();
        out.write(&mut text);
        std::fs::create_dir_all(&self.out).unwrap();
        let tmp = self.out.join(format!("{name}.json.tmp{}", std::process::id()));
        std::fs::write(&tmp, text).unwrap();
        std::fs::rename(&tmp, self.out.join(format!("{name}.json"))).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as `mirdump rustc ...` by cargo (RUSTC_WORKSPACE_WRAPPER)
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_print = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    // cargo asks for the target's cfg through the wrapper too: those answers must stay the real ones
    if !is_print {
        if let Ok(f) = std::env::var("MIRDUMP_FLAGS") {
            args.extend(f.split_whitespace().map(|x| x.to_string()));
        }
        // lints are no business of the analysis
        if !args.iter().any(|a| a.starts_with("--cap-lints")) {
            args.push("--cap-lints=allow".into());
        }
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    match out {
        Some(o) if !is_print && !crate_name.is_empty() && crate_name != "___" && crate_name != "build_script_build" => {
            let mut d = Dump { out: o.into() };
            return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut d));
        }
        _ => rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Plain)),
    }
}
