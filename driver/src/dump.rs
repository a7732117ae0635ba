use crate::json::{i, s, J};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: FxHashMap<Ty<'tcx>, usize>,
    tytab: Vec<J>,
    adts: FxHashMap<DefId, ()>,
    adt_out: Vec<J>,
    adt_queue: Vec<DefId>,
    files: FxHashMap<String, usize>,
}

fn o(v: Vec<(&'static str, J)>) -> J { J::O(v) }

impl<'tcx> Cx<'tcx> {
    fn seg(&self, d: DefId) -> String {
        let k = self.tcx.def_key(d);
        let dd = k.disambiguated_data;
        match dd.data.get_opt_name() {
            Some(n) => n.to_string(),
            None => {
                let t = with_no_trimmed_paths!(dd.as_sym(true).to_string());
                t
            }
        }
    }
    fn tyname(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.canon(a.did()),
            ty::Ref(_, x, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyname(*x)),
            ty::Slice(x) => format!("[{}]", self.tyname(*x)),
            ty::Array(x, _) => format!("[{};_]", self.tyname(*x)),
            _ => with_no_trimmed_paths!(t.to_string()),
        }
    }
    pub fn canon(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if d.is_crate_root() {
            return tcx.crate_name(d.krate).to_string();
        }
        let par = tcx.parent(d);
        match tcx.def_kind(par) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                if of_trait {
                    let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.tyname(t)).collect();
                    let ta = if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(",")) };
                    format!("<{} as {}{}>::{}", self.tyname(st), self.canon(tr.def_id), ta, self.seg(d))
                } else {
                    format!("{}::{}", self.tyname(st), self.seg(d))
                }
            }
            _ => {
                // Skip foreign-mod and impl segments
                format!("{}::{}", self.canon(par), self.seg(d))
            }
        }
    }
    fn span(&mut self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        let n = self.files.len();
        let id = *self.files.entry(f).or_insert(n);
        J::A(vec![i(id), i(loc.line)])
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { i(self.tyid(t)) }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.types.get(&t) {
            return *x;
        }
        let id = self.tytab.len();
        self.types.insert(t, id);
        self.tytab.push(J::Null);
        let name = with_no_trimmed_paths!(t.to_string());
        let mut v = vec![("s", s(name))];
        match t.kind() {
            ty::Bool => v.push(("k", s("bool"))),
            ty::Char => v.push(("k", s("char"))),
            ty::Int(x) => { v.push(("k", s("int"))); v.push(("n", s(x.name_str()))) }
            ty::Uint(x) => { v.push(("k", s("uint"))); v.push(("n", s(x.name_str()))) }
            ty::Float(x) => { v.push(("k", s("float"))); v.push(("n", s(x.name_str()))) }
            ty::Str => v.push(("k", s("str"))),
            ty::Never => v.push(("k", s("never"))),
            ty::Adt(a, args) => {
                v.push(("k", s("adt")));
                v.push(("p", s(self.canon(a.did()))));
                let ga = self.gargs(args);
                v.push(("a", ga));
                if self.adts.insert(a.did(), ()).is_none() {
                    self.adt_queue.push(a.did());
                }
            }
            ty::Array(x, n) => {
                v.push(("k", s("array")));
                let e = self.ty(*x);
                v.push(("e", e));
                let n = self.tyconst(*n);
                v.push(("n", n));
            }
            ty::Slice(x) => { v.push(("k", s("slice"))); let e = self.ty(*x); v.push(("e", e)) }
            ty::Ref(_, x, m) => {
                v.push(("k", s("ref")));
                let e = self.ty(*x);
                v.push(("e", e));
                v.push(("m", J::B(m.is_mut())));
            }
            ty::RawPtr(x, _) => { v.push(("k", s("ptr"))); let e = self.ty(*x); v.push(("e", e)) }
            ty::FnDef(d, args) => {
                v.push(("k", s("fndef")));
                let c = self.callee(*d, args.skip_binder(), None);
                v.push(("f", c));
            }
            ty::FnPtr(..) => v.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                v.push(("k", s("dyn")));
                let tr = preds.principal_def_id().map(|d| self.canon(d)).unwrap_or_default();
                v.push(("t", s(tr)));
            }
            ty::Closure(d, _) => { v.push(("k", s("closure"))); v.push(("p", s(self.canon(*d)))) }
            ty::Tuple(ts) => {
                v.push(("k", s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                v.push(("a", J::A(a)));
            }
            ty::Param(p) => { v.push(("k", s("param"))); v.push(("n", s(p.name.to_string()))) }
            _ => v.push(("k", s("other"))),
        }
        self.tytab[id] = o(v);
        id
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut out = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                out.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                let c = self.tyconst(c);
                out.push(o(vec![("c", c)]));
            }
        }
        J::A(out)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        let env = TypingEnv::fully_monomorphized();
        let _ = env;
        match c.kind() {
            ty::ConstKind::Param(p) => o(vec![("param", s(p.name.to_string()))]),
            ty::ConstKind::Value(_) => {
                if let Some(n) = c.try_to_target_usize(self.tcx) {
                    o(vec![("int", s(n.to_string()))])
                } else if let Some(sc) = c.try_to_scalar() {
                    self.scalar_any(sc)
                } else {
                    o(vec![("dbg", s(with_no_trimmed_paths!(c.to_string())))])
                }
            }
            ty::ConstKind::Alias(_, u) => {
                let d: DefId = match u.kind {
                    ty::AliasConstKind::Projection { def_id, .. } => def_id.into(),
                    ty::AliasConstKind::InherentSelf { def_id, .. } => def_id.into(),
                    ty::AliasConstKind::InherentImpl { def_id, .. } => def_id.into(),
                    ty::AliasConstKind::Free { def_id, .. } => def_id.into(),
                    ty::AliasConstKind::Anon { def_id, .. } => def_id.into(),
                };
                let env = TypingEnv::post_analysis(self.tcx, d);
                let u2 = UnevaluatedConst { def: d, args: u.args, promoted: None };
                let k = Const::Unevaluated(u2, self.tcx.types.usize);
                self.konst_in(k, env, rustc_span::DUMMY_SP)
            }
            _ => o(vec![("dbg", s(with_no_trimmed_paths!(c.to_string())))]),
        }
    }
    fn scalar_any(&mut self, sc: Scalar) -> J {
        match sc {
            Scalar::Int(n) => o(vec![("int", s(n.to_bits_unchecked().to_string()))]),
            Scalar::Ptr(..) => o(vec![("dbg", s("ptr"))]),
        }
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(n) => {
                let bits = n.to_bits_unchecked();
                match t.kind() {
                    ty::Bool => o(vec![("bool", J::B(bits != 0))]),
                    ty::Int(_) => {
                        let size = n.size();
                        let v = size.sign_extend(bits) as i128;
                        o(vec![("int", s(v.to_string()))])
                    }
                    ty::Uint(_) => o(vec![("int", s(bits.to_string()))]),
                    ty::Char => o(vec![("int", s(bits.to_string()))]),
                    ty::Float(ft) => {
                        let f = match ft.name_str() {
                            "f64" => f64::from_bits(bits as u64),
                            "f32" => f32::from_bits(bits as u32) as f64,
                            _ => f64::NAN,
                        };
                        o(vec![("float", s(f.to_bits().to_string())), ("d", s(format!("{f:?}")))])
                    }
                    _ => o(vec![("bits", s(bits.to_string()))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let aid = p.provenance.alloc_id();
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => {
                        let m = self.tcx.static_mutability(d);
                        let im = !self
                            .tcx
                            .type_of(d)
                            .instantiate_identity()
                            .skip_norm_wip()
                            .is_freeze(self.tcx, TypingEnv::fully_monomorphized());
                        o(vec![
                            ("static", s(self.canon(d))),
                            ("mutable", J::B(m.map(|m| m.is_mut()).unwrap_or(false) || im)),
                        ])
                    }
                    GlobalAlloc::Memory(al) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let Some(v) = self.read_mem(al.inner(), p.into_raw_parts().1.bytes() as usize, *inner) {
                                return o(vec![("refto", v)]);
                            }
                        }
                        o(vec![("dbg", s("mem"))])
                    }
                    GlobalAlloc::Function { instance } => {
                        o(vec![("fnptr", s(self.canon(instance.def_id())))])
                    }
                    _ => o(vec![("dbg", s("alloc"))]),
                }
            }
        }
    }
    fn read_mem(&mut self, al: &interpret::Allocation, off: usize, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)? as usize;
                if n > 4096 { return None; }
                let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*e)).ok()?.size.bytes() as usize;
                let mut out = vec![];
                for k in 0..n {
                    out.push(self.read_mem(al, off + k * sz, *e)?);
                }
                Some(o(vec![("array", J::A(out))]))
            }
            ty::Tuple(ts) if ts.is_empty() => Some(o(vec![("zst", J::B(true))])),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char => {
                let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?.size;
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off as u64), size: sz };
                let sc = al.read_scalar(&tcx, r, false).ok()?;
                Some(self.scalar(sc, t))
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                let ps = tcx.data_layout.pointer_size();
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off as u64), size: ps };
                let sc = al.read_scalar(&tcx, r, true).ok()?;
                let r2 = AllocRange { start: rustc_abi::Size::from_bytes(off as u64 + ps.bytes()), size: ps };
                let ln = al.read_scalar(&tcx, r2, false).ok()?;
                let n = match ln { Scalar::Int(x) => x.to_bits_unchecked() as usize, _ => return None };
                match sc {
                    Scalar::Ptr(p, _) => {
                        let aid = p.provenance.alloc_id();
                        let o2 = p.into_raw_parts().1.bytes() as usize;
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(aid) {
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o2..o2 + n);
                            return Some(o(vec![("str", s(String::from_utf8_lossy(b).to_string()))]));
                        }
                        None
                    }
                    _ => if n == 0 { Some(o(vec![("str", s(""))])) } else { None },
                }
            }
            _ => None,
        }
    }
    fn konst_in(&mut self, c: Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.skip_binder(), Some(env));
            return o(vec![("fn", f)]);
        }
        match c {
            Const::Ty(_, k) => return self.tyconst(k),
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return o(vec![("promoted", i(p.as_usize()))]);
                }
                // Local constants whose value does not depend on parameters are evaluated; others
                // are left to be evaluated from their body.
                let generic = rustc_middle::ty::TypeVisitableExt::has_param(&u.args);
                if !generic {
                    if let Ok(v) = c.eval(tcx, env, sp) {
                        let mut r = self.constval(v, t);
                        if let J::O(x) = &mut r {
                            x.push(("item", s(self.canon(u.def))));
                        }
                        return r;
                    }
                }
                let ga = self.gargs(u.args);
                return o(vec![("item", s(self.canon(u.def))), ("args", ga)]);
            }
            Const::Val(v, _) => self.constval(v, t),
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(sc) => self.scalar(sc, t),
            ConstValue::ZeroSized => o(vec![("zst", J::B(true))]),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if t.peel_refs().is_str() {
                        return o(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    return o(vec![("bytes", s(format!("{b:?}")))]);
                }
                o(vec![("dbg", s("slice"))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(al) = self.tcx.global_alloc(alloc_id) {
                    if let Some(j) = self.read_mem(al.inner(), offset.bytes() as usize, t) {
                        return j;
                    }
                }
                o(vec![("dbg", s("indirect"))])
            }
        }
    }
    /// A resolved reference to a function.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut v = vec![("p", s(self.canon(d)))];
        let ga = self.gargs(args);
        v.push(("a", ga));
        let par = tcx.opt_parent(d);
        if let Some(p) = par {
            if matches!(tcx.def_kind(p), DefKind::Trait) {
                v.push(("trait", s(self.canon(p))));
                v.push(("m", s(self.seg(d))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            if sig.safety().is_unsafe() {
                v.push(("unsafe", J::B(true)));
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            v.push(("ctor", J::B(true)));
            let par = tcx.parent(d);
            let (adt, var) = if tcx.def_kind(par) == DefKind::Variant {
                (tcx.parent(par), self.seg(par))
            } else {
                (par, self.seg(par))
            };
            v.push(("adt", s(self.canon(adt))));
            v.push(("variant", s(var)));
        } else if let Some(env) = env {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    _ => "shim",
                };
                v.push(("rk", s(k)));
                v.push(("r", s(self.canon(inst.def_id()))));
                v.push(("local", J::B(inst.def_id().is_local())));
                let ra = self.gargs(inst.args);
                v.push(("ra", ra));
            }
        }
        o(v)
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, tcx);
            pr.push(match e {
                ProjectionElem::Deref => {
                    let raw = bt.ty.is_raw_ptr();
                    J::A(vec![s(if raw { "rawderef" } else { "deref" })])
                }
                ProjectionElem::Field(f, fty) => {
                    let adt = match bt.ty.kind() { ty::Adt(a, _) => s(self.canon(a.did())), _ => J::Null };
                    let fty = self.ty(fty);
                    let (nm, un) = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_box() { (format!("{}", f.as_usize()), false) } else {
                            (a.variant(vi).fields[f].name.to_string(), a.is_union()) }
                        }
                        _ => (f.as_usize().to_string(), false),
                    };
                    J::A(vec![s(if un { "ufield" } else { "field" }), i(f.as_usize()), s(nm), adt, fty])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("cindex"), i(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let nm = match bt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    J::A(vec![s("down"), i(v.as_usize()), s(nm)])
                }
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let t = self.ty(t); let p = self.place(p, body); o(vec![("copy", p), ("t", t)]) }
            Operand::Move(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let t = self.ty(t); let p = self.place(p, body); o(vec![("move", p), ("t", t)]) }
            Operand::Constant(c) => {
                let k = self.konst_in(c.const_, env, c.span);
                let t = self.ty(c.const_.ty());
                o(vec![("const", k), ("t", t)])
            }
            _ => o(vec![("rt", J::B(true))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(x, _) => { let x = self.operand(x, b, env); J::A(vec![s("use"), x]) }
            Rvalue::Repeat(x, n) => {
                let x = self.operand(x, b, env);
                let n = self.tyconst(*n);
                J::A(vec![s("repeat"), x, n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let p = self.place(p, b);
                J::A(vec![s("ref"), p, J::B(m)])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p, b);
                J::A(vec![s("reborrow"), p, J::B(m.is_mut())])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.canon(*d))]),
            Rvalue::RawPtr(_, p) => { let p = self.place(p, b); J::A(vec![s("rawptr"), p]) }
            Rvalue::Cast(k, x, t) => {
                let from = x.ty(&b.local_decls, self.tcx);
                let x = self.operand(x, b, env);
                let ft = self.ty(from);
                let t = self.ty(*t);
                let kn = format!("{k:?}");
                J::A(vec![s("cast"), s(kn), x, ft, t])
            }
            Rvalue::BinaryOp(op, xy) => {
                let t = xy.0.ty(&b.local_decls, self.tcx);
                let x = self.operand(&xy.0, b, env);
                let y = self.operand(&xy.1, b, env);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{op:?}")), x, y, t])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&b.local_decls, self.tcx);
                let x = self.operand(x, b, env);
                let t = self.ty(t);
                J::A(vec![s("un"), s(format!("{op:?}")), x, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let p = self.place(p, b);
                let t = self.ty(t);
                J::A(vec![s("discr"), p, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let v = ops.iter().map(|x| self.operand(x, b, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => o(vec![("k", s("array"))]),
                    AggregateKind::Tuple => o(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        self.tyid(t);
                        let var = a.variant(*vi);
                        let names = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        o(vec![
                            ("k", s("adt")),
                            ("p", s(self.canon(*d))),
                            ("v", i(vi.as_usize())),
                            ("vn", s(var.name.to_string())),
                            ("f", J::A(names)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        o(vec![("k", s("closure")), ("p", s(self.canon(*d)))])
                    }
                    _ => o(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                let p = self.place(p, b);
                J::A(vec![s("use"), o(vec![("copy", p), ("t", t)])])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: FxHashMap<usize, String> = Default::default();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut e = vec![("t", t)];
            if let Some(n) = names.get(&l.as_usize()) {
                e.push(("n", s(n.clone())));
            }
            locals.push(o(e));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0, b);
                        let r = self.rvalue(&a.1, b, env);
                        let sp = self.span(x.source_info.span);
                        let xm = xmac(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp, J::B(xm)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("setdiscr"), p, i(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => o(vec![("k", s("goto")), ("to", i(target.as_usize()))]),
                TerminatorKind::FalseEdge { real_target, .. } => o(vec![("k", s("goto")), ("to", i(real_target.as_usize()))]),
                TerminatorKind::FalseUnwind { real_target, .. } => o(vec![("k", s("goto")), ("to", i(real_target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let size = self.tcx.layout_of(env.as_query_input(dt)).map(|l| l.size).ok();
                    let d = self.operand(discr, b, env);
                    let ts = targets.iter().map(|(v, t)| {
                        let v = match (dt.kind(), size) { (ty::Int(_), Some(z)) => z.sign_extend(v) as i128, _ => v as i128 };
                        J::A(vec![s(v.to_string()), i(t.as_usize())])
                    }).collect();
                    let dt = self.ty(dt);
                    o(vec![("k", s("switch")), ("d", d), ("t", J::A(ts)), ("o", i(targets.otherwise().as_usize())), ("ty", dt)])
                }
                TerminatorKind::Return => o(vec![("k", s("return"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, b);
                    o(vec![("k", s("drop")), ("p", p), ("to", i(target.as_usize()))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, b, env);
                    let a = args.iter().map(|x| self.operand(&x.node, b, env)).collect();
                    let d = self.place(destination, b);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    let to = match target { Some(t) => i(t.as_usize()), None => J::Null };
                    let mac = t.source_info.span.from_expansion();
                    o(vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("d", d), ("dt", dt), ("to", to), ("mac", J::B(mac)), ("xmac", J::B(xmac(t.source_info.span)))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, env);
                    let (mk, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, b, env);
                            let x = self.operand(index, b, env);
                            ("bounds".to_string(), vec![l, x])
                        }
                        AssertKind::Overflow(op, x, y) => {
                            let x = self.operand(x, b, env);
                            let y = self.operand(y, b, env);
                            (format!("overflow:{op:?}"), vec![x, y])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), vec![self.operand(x, b, env)]),
                        AssertKind::DivisionByZero(x) => ("divzero".to_string(), vec![self.operand(x, b, env)]),
                        AssertKind::RemainderByZero(x) => ("remzero".to_string(), vec![self.operand(x, b, env)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    o(vec![("k", s("assert")), ("c", c), ("e", J::B(*expected)), ("m", s(mk)), ("ops", J::A(ops)), ("to", i(target.as_usize()))])
                }
                TerminatorKind::Unreachable => o(vec![("k", s("unreachable"))]),
                TerminatorKind::UnwindResume => o(vec![("k", s("resume"))]),
                TerminatorKind::InlineAsm { .. } => o(vec![("k", s("asm"))]),
                _ => o(vec![("k", s("other"))]),
            };
            blocks.push(o(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let sp = self.span(b.span);
        vec![("argc", i(b.arg_count)), ("locals", J::A(locals)), ("blocks", J::A(blocks)), ("span", sp)]
    }
}

/// The code at this span was written in a macro of another crate.
fn xmac(sp: Span) -> bool {
    sp.from_expansion()
        && sp.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(false)
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let mut cx = Cx {
        tcx,
        types: Default::default(),
        tytab: vec![],
        adts: Default::default(),
        adt_out: vec![],
        adt_queue: vec![],
        files: Default::default(),
    };
    // Clone all promoted MIR first: evaluating constants below steals some of it.
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut bodies = vec![];
    for d in &owners {
        let k = tcx.def_kind(*d);
        let (b, p) = tcx.mir_promoted(*d);
        if b.is_stolen() || p.is_stolen() {
            continue;
        }
        let b = b.borrow().clone();
        let p = p.borrow().clone();
        bodies.push((*d, k, b, p));
    }
    let mut out = vec![];
    for (d, k, b, p) in &bodies {
        let did = d.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let mut v = vec![("id", s(cx.canon(did))), ("kind", s(format!("{k:?}")))];
        let g = tcx.generics_of(tcx.typeck_root_def_id(did));
        let mut gs = vec![];
        for x in 0..g.count() {
            let pd = g.param_at(x, tcx);
            match pd.kind {
                ty::GenericParamDefKind::Lifetime => {}
                ty::GenericParamDefKind::Const { .. } => gs.push(o(vec![("c", s(pd.name.to_string()))])),
                ty::GenericParamDefKind::Type { .. } => gs.push(o(vec![("t", s(pd.name.to_string()))])),
            }
        }
        v.push(("generics", J::A(gs)));
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            v.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(*d))));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            v.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let par = tcx.parent(did);
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(par) {
                let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                v.push(("trait", s(cx.canon(tr.def_id))));
                let st = cx.ty(tr.self_ty());
                v.push(("self", st));
                v.push(("m", s(cx.seg(did))));
            }
            if let DefKind::Trait = tcx.def_kind(par) {
                v.push(("provided", s(cx.canon(par))));
                v.push(("m", s(cx.seg(did))));
            }
        }
        let upv = if matches!(k, DefKind::Closure) { tcx.closure_captures(*d).len() } else { 0 };
        v.push(("upvars", i(upv)));
        v.extend(cx.body(b, env));
        let mut ps = vec![];
        for pb in p.iter() {
            ps.push(o(cx.body(pb, env)));
        }
        v.push(("promoted", J::A(ps)));
        out.push(o(v));
    }
    // ADTs met, local ADTs
    for x in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(x), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let t = tcx.type_of(x).instantiate_identity().skip_norm_wip();
            cx.tyid(t);
        }
    }
    while let Some(d) = cx.adt_queue.pop() {
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        let local = d.is_local();
        let name = cx.canon(d);
        let discrs: Vec<String> = if a.is_enum() { a.discriminants(tcx).map(|x| x.1.val.to_string()).collect() } else { vec!["0".to_string()] };
        for (vi, var) in a.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in var.fields.iter() {
                let mut e = vec![("n", s(f.name.to_string()))];
                if local || name.starts_with("core::option") || name.starts_with("core::result") {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    e.push(("t", t));
                    e.push(("pub", J::B(f.vis.is_public())));
                }
                fs.push(o(e));
            }
            let dv = discrs.get(vi.as_usize()).cloned().unwrap_or_default();
            vs.push(o(vec![("n", s(var.name.to_string())), ("d", s(dv)), ("f", J::A(fs))]));
        }
        let n = J::O(vec![("p", s(name)), ("local", J::B(local)), ("enum", J::B(a.is_enum())), ("union", J::B(a.is_union())), ("v", J::A(vs))]);
        cx.adt_out.push(n);
    }
    // impls and statics
    let mut impls = vec![];
    let mut statics = vec![];
    let mut foreign = vec![];
    for x in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(x) {
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(x.to_def_id()).instantiate_identity().skip_norm_wip();
                let unsafe_impl = tcx.trait_def(tr.def_id).safety.is_unsafe();
                let mut items = vec![];
                for it in tcx.associated_items(x.to_def_id()).in_definition_order() {
                    items.push(J::A(vec![s(cx.seg(it.def_id)), s(cx.canon(it.def_id))]));
                }
                let st = cx.ty(tr.self_ty());
                let ga = cx.gargs(tr.args);
                let sp = cx.span(tcx.def_span(x.to_def_id()));
                impls.push(o(vec![
                    ("trait", s(cx.canon(tr.def_id))), ("self", st), ("a", ga),
                    ("unsafe", J::B(unsafe_impl)), ("items", J::A(items)), ("span", sp),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(x.to_def_id()).instantiate_identity().skip_norm_wip();
                let im = !t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                let sp = cx.span(tcx.def_span(x.to_def_id()));
                statics.push(o(vec![("p", s(cx.canon(x.to_def_id()))), ("mut", J::B(mutability.is_mut() || im)), ("span", sp)]));
            }
            DefKind::ForeignMod => foreign.push(cx.span(tcx.def_span(x.to_def_id()))),
            _ => {}
        }
    }
    let mut files: Vec<(usize, String)> = cx.files.iter().map(|(a, b)| (*b, a.clone())).collect();
    files.sort();
    let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let kind = format!("{:?}", tcx.crate_types());
    let isbin = kind.contains("Executable");
    let j = o(vec![
        ("crate", s(name.clone())),
        ("bin", J::B(isbin)),
        ("files", J::A(files.into_iter().map(|x| s(x.1)).collect())),
        ("types", J::A(std::mem::take(&mut cx.tytab))),
        ("adts", J::A(std::mem::take(&mut cx.adt_out))),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("foreign", J::A(foreign)),
        ("bodies", J::A(out)),
    ]);
    let mut t = String::new();
    j.write(&mut t);
    let p = format!("{dir}/{name}{}.json", if isbin { ".bin" } else { "" });
    std::fs::write(&p, t).expect("write facts");
}
