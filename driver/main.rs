// Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER, exports the type-checked MIR of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_data_structures::steal::Steal;
use std::cell::RefCell;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- extraction
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    queue: VecDeque<(String, DefId, GenericArgsRef<'tcx>)>,
    seen: HashMap<String, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    // Names of variants and fields carry their type, so that they can be put into canonical form (rules/names.py).
    fn vname(&self, ad: ty::AdtDef<'tcx>, n: rustc_span::Symbol) -> String {
        if ad.did().is_local() {
            format!("@{}@{}", self.path(ad.did()), n)
        } else {
            n.to_string()
        }
    }
    fn fname(&self, ad: ty::AdtDef<'tcx>, v: &ty::VariantDef, n: rustc_span::Symbol) -> String {
        if ad.did().is_local() {
            format!("@{}@{}@{}", self.path(ad.did()), v.name, n)
        } else {
            n.to_string()
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{t}")))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter(|x| x.as_region().is_none())
                .map(|x| s(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{x}")))))
                .collect(),
        )
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn key(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let a = self.tcx.erase_and_anonymize_regions(a);
        let idx: Vec<u32> = self
            .tcx
            .def_path(d)
            .data
            .iter()
            .map(|x| x.disambiguator)
            .collect();
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}#{:?}{:?}", self.tcx.def_path_str(d), idx, a)))
    }
    fn want(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Option<String> {
        let ld = d.as_local()?;
        if !self.tcx.is_mir_available(d) && !matches!(self.tcx.def_kind(d), DefKind::Closure) {
            return None;
        }
        if !has_body(self.tcx, ld) {
            return None;
        }
        let a = self.tcx.erase_and_anonymize_regions(a);
        let k = self.key(d, a);
        if self.seen.insert(k.clone(), ()).is_none() {
            self.queue.push_back((k.clone(), d, a));
        }
        Some(k)
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, a: GenericArgsRef<'tcx>, v: T) -> T {
        match self.tcx.try_instantiate_and_normalize_erasing_regions(a, self.env, ty::EarlyBinder::bind(self.tcx, v.clone())) {
            Ok(x) => x,
            Err(_) => ty::EarlyBinder::bind(self.tcx, v).instantiate(self.tcx, a).skip_norm_wip(),
        }
    }
    fn resolve(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.path(d))), ("args", self.args(a)), ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()))];
        o.push(("local", J::B(d.is_local())));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let adt = tcx.parent(d);
            let (adt, variant) = if tcx.def_kind(adt) == DefKind::Variant {
                (tcx.parent(adt), tcx.item_name(adt).to_string())
            } else {
                (adt, tcx.item_name(adt).to_string())
            };
            o.push(("ctor", J::A(vec![s(self.path(adt)), s(variant)])));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("self_ty", s(self.ty(a.type_at(0)))));
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", s(self.ty(st))));
        }
        // error conversion performed by `?` / `.into()`
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        if name == "from_residual" && a.len() >= 2 {
            if let (Some(f), Some(e)) = (result_err(tcx, a.type_at(0)), result_err(tcx, a.type_at(1))) {
                o.push(("conv", self.from_impl(f, e)));
            }
        }
        if name == "into" && tcx.trait_of_assoc(d).map(|t| self.path(t).ends_with("convert::Into")).unwrap_or(false) {
            o.push(("conv", self.from_impl(a.type_at(1), a.type_at(0))));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a) {
            match inst.def {
                ty::InstanceKind::Item(rd) => {
                    o.push(("rdef", s(self.path(rd))));
                    o.push(("rargs", self.args(inst.args)));
                    if let Some(i) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(i).instantiate(tcx, inst.args.truncate_to(tcx, tcx.generics_of(i))).skip_norm_wip();
                        o.push(("rimpl_self", s(self.ty(st))));
                        if tcx.is_automatically_derived(i) {
                            o.push(("derived", J::B(true)));
                        }
                    } else if let Some(_) = tcx.trait_of_assoc(rd) {
                        o.push(("default_method", J::B(true)));
                    }
                    if let Some(k) = self.want(rd, inst.args) {
                        o.push(("key", s(k)));
                    }
                }
                ty::InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                k => o.push(("shim", s(format!("{:?}", std::mem::discriminant(&k))))),
            }
        }
        J::O(o)
    }
    fn from_impl(&mut self, to: Ty<'tcx>, from: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        if to == from {
            return s("id");
        }
        let tr = tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")).unwrap();
        let m = tcx.associated_items(tr).in_definition_order().next().unwrap().def_id;
        let a = tcx.mk_args(&[to.into(), from.into()]);
        self.resolve(m, a)
    }
    fn place(&self, body: &Body<'tcx>, a: GenericArgsRef<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let _ = a;
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let v = match pt.variant_index {
                                Some(v) => ad.variant(v),
                                None => ad.non_enum_variant(),
                            };
                            self.fname(*ad, v, v.fields[f].name)
                        }
                        _ => f.as_usize().to_string(),
                    };
                    J::A(vec![s("f"), s(name)])
                }
                ProjectionElem::Downcast(sym, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(ad, _) => self.vname(*ad, ad.variant(v).name),
                        _ => sym.map(|x| x.to_string()).unwrap_or(format!("{}", v.as_usize())),
                    };
                    J::A(vec![s("d"), s(n)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c"), J::N(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("?"), s(format!("{e:?}"))]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(pr)])
    }
    fn bytes_of_alloc(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            mir::interpret::GlobalAlloc::Memory(al) => {
                let al = al.inner();
                if off + len > al.len() as u64 {
                    return None;
                }
                Some(al.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_j(&self, ty: Ty<'tcx>, b: Vec<u8>) -> J {
        if ty.is_str() || matches!(ty.kind(), ty::Ref(_, t, _) if t.is_str()) {
            J::O(vec![("str", s(String::from_utf8_lossy(&b).to_string()))])
        } else {
            J::O(vec![("bytes", s(b.iter().map(|x| if (32..127).contains(x) && *x != b'\\' { (*x as char).to_string() } else { format!("\\x{x:02x}") }).collect::<String>()))])
        }
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let n = i.to_bits(i.size()) as i128;
                if t.is_bool() {
                    return J::O(vec![("bool", J::B(n != 0))]);
                }
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            if let Some(vi) = dc.variant {
                                let vn = self.vname(*ad, ad.variant(vi).name);
                                let mut fs = vec![];
                                for (c, ct) in dc.fields.iter() {
                                    fs.push(self.const_val(*c, *ct));
                                }
                                return J::O(vec![("variant", J::A(vec![s(self.path(ad.did())), s(vn)])), ("fields", J::A(fs))]);
                            }
                        }
                    }
                    return J::O(vec![("scalar", J::N(n)), ("ty", s(self.ty(t)))]);
                }
                if let ty::Array(..) = t.kind() {
                    return J::O(vec![("scalar", J::N(n)), ("ty", s(self.ty(t)))]);
                }
                J::O(vec![("int", J::N(n)), ("ty", s(self.ty(t)))])
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(et, n) = inner.kind() {
                        if *et == tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                if let Some(b) = self.bytes_of_alloc(prov.alloc_id(), off.bytes(), n) {
                                    return self.bytes_j(t, b);
                                }
                            }
                        }
                    }
                    if let Ok(lay) = tcx.layout_of(self.env.as_query_input(*inner)) {
                        let _ = lay;
                        let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        return self.const_val(cv, *inner);
                    }
                }
                J::O(vec![("ptr", s(self.ty(t)))])
            }
            ConstValue::ZeroSized => J::O(vec![("zst", s(self.ty(t)))]),
            ConstValue::Slice { alloc_id, meta } => match self.bytes_of_alloc(alloc_id, 0, meta) {
                Some(b) => self.bytes_j(t, b),
                None => J::O(vec![("slice", s(self.ty(t)))]),
            },
            ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Array(et, n) = t.kind() {
                    if *et == tcx.types.u8 {
                        if let Some(n) = n.try_to_target_usize(tcx) {
                            if let Some(b) = self.bytes_of_alloc(alloc_id, offset.bytes(), n) {
                                return self.bytes_j(t, b);
                            }
                        }
                    }
                }
                if let ty::Adt(..) | ty::Tuple(..) = t.kind() {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let mut fs = vec![];
                        for (c, ct) in dc.fields.iter() {
                            fs.push(self.const_val(*c, *ct));
                        }
                        if let ty::Adt(ad, _) = t.kind() {
                            let vn = match dc.variant {
                                Some(vi) if ad.is_enum() => self.vname(*ad, ad.variant(vi).name),
                                _ => self.vname(*ad, ad.non_enum_variant().name),
                            };
                            return J::O(vec![("variant", J::A(vec![s(self.path(ad.did())), s(vn)])), ("fields", J::A(fs))]);
                        }
                        return J::O(vec![("tuple", J::A(fs))]);
                    }
                }
                J::O(vec![("indirect", s(self.ty(t)))])
            }
        }
    }
    fn constant(&mut self, a: GenericArgsRef<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let _ = a;
        let k = c.const_;
        let t = k.ty();
        match t.kind() {
            ty::FnDef(d, fa) => {
                let r = self.resolve(*d, fa.no_bound_vars().unwrap_or_else(|| fa.skip_binder()));
                return J::O(vec![("fn", r)]);
            }
            ty::Closure(d, ca) => {
                let kk = self.want(*d, ca);
                return J::O(vec![("closure", kk.map(s).unwrap_or(J::Null)), ("fields", J::A(vec![]))]);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                if let Some(ld) = u.def.as_local() {
                    // export the promoted body itself when it cannot be evaluated generically
                    if let Ok(v) = k.eval(tcx, self.env, c.span) {
                        return self.const_val(v, t);
                    }
                    let _ = ld;
                    return J::O(vec![("promoted", J::A(vec![s(self.path(u.def)), J::N(p.as_usize() as i128)])), ("ty", s(self.ty(t)))]);
                }
            }
        }
        match k.eval(tcx, self.env, c.span) {
            Ok(v) => self.const_val(v, t),
            Err(_) => {
                let d = match k {
                    Const::Unevaluated(u, _) => {
                        let n = self.path(u.def);
                        format!("{}{:?}", n, u.args)
                    }
                    _ => format!("{k:?}"),
                };
                J::O(vec![("opaque", s(d)), ("ty", s(self.ty(t)))])
            }
        }
    }
    fn operand(&mut self, body: &Body<'tcx>, a: GenericArgsRef<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("p"), self.place(body, a, *p), J::B(false)]),
            Operand::Move(p) => J::A(vec![s("p"), self.place(body, a, *p), J::B(true)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(a, c)]),
            _ => J::A(vec![s("k"), J::O(vec![("bool", J::B(false))])]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, a: GenericArgsRef<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, a, o)]),
            Rvalue::Repeat(o, n) => {
                let x = self.operand(body, a, o);
                J::A(vec![s("repeat"), x, s(format!("{n}"))])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(body, a, *p), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(body, a, *p), J::B(true)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("p"), self.place(body, a, *p), J::B(false)])]),
            Rvalue::Cast(k, o, t) => {
                let x = self.operand(body, a, o);
                let from = o.ty(&body.local_decls, self.tcx);
                let kind = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    k => format!("{k:?}"),
                };
                J::A(vec![s("cast"), x, s(kind), s(self.ty(*t)), s(self.ty(from))])
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(body, a, &b.0);
                let y = self.operand(body, a, &b.1);
                J::A(vec![s("bin"), s(format!("{op:?}")), x, y])
            }
            Rvalue::UnaryOp(op, o) => {
                let x = self.operand(body, a, o);
                J::A(vec![s("un"), s(format!("{op:?}")), x])
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(body, a, *p);
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        for (vi, d) in ad.discriminants(self.tcx) {
                            vs.push(J::A(vec![J::N(d.val as i128), s(self.vname(*ad, ad.variant(vi).name))]));
                        }
                    }
                }
                J::A(vec![s("discr"), pl, J::A(vs)])
            }
            Rvalue::Aggregate(k, fs) => {
                let mut ops = vec![];
                for f in fs.iter() {
                    ops.push(self.operand(body, a, f));
                }
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array"), J::A(ops)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple"), J::A(ops)]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(self.fname(ad, var, var.fields[*f].name))],
                            None => var.fields.iter().map(|f| s(self.fname(ad, var, f.name))).collect(),
                        };
                        J::A(vec![s("adt"), s(self.path(*d)), s(self.vname(ad, var.name)), J::A(names), J::A(ops)])
                    }
                    AggregateKind::Closure(d, ca) => {
                        let k = self.want(*d, ca);
                        J::A(vec![s("closure"), k.map(s).unwrap_or(J::Null), J::A(ops)])
                    }
                    AggregateKind::Coroutine(d, ca) | AggregateKind::CoroutineClosure(d, ca) => {
                        let k = self.want(*d, ca);
                        J::A(vec![s("coroutine"), k.map(s).unwrap_or(J::Null), J::A(ops)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("tuple"), J::A(ops)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("p"), self.place(body, a, *p), J::B(false)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("static"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, a, o)]),
        }
    }
    fn body(&mut self, key: &str, d: DefId, a: GenericArgsRef<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let ld = d.as_local()?;
        let _ = tcx.mir_drops_elaborated_and_const_checked(ld);
        let snap: Option<Body<'tcx>> = SNAP.with(|m| m.borrow().get(&ld).map(|b| unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b.clone()) }));
        let body: Body<'tcx> = snap.unwrap_or_else(|| panic!("no MIR snapshot for {}", tcx.def_path_str(d)));
        let body = self.norm(a, body);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(s(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(&body, a, p)]));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in b.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let rv = self.rvalue(&body, a, r);
                        st.push(J::A(vec![s("="), self.place(&body, a, *p), rv, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(ad, _) => self.vname(*ad, ad.variant(*variant_index).name),
                            _ => format!("{variant_index:?}"),
                        };
                        st.push(J::A(vec![s("sd"), self.place(&body, a, **place), s(n)]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let bb = |x: BasicBlock| J::N(x.as_usize() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let x = self.operand(&body, a, discr);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let ts = targets.iter().map(|(v, t)| J::A(vec![J::N(v as i128), bb(t)])).collect();
                    J::A(vec![s("switch"), x, J::A(ts), bb(targets.otherwise()), s(self.ty(dty))])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(&body, a, *place), bb(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(&body, a, func);
                    let mut ar = vec![];
                    let mut at = vec![];
                    for x in args.iter() {
                        ar.push(self.operand(&body, a, &x.node));
                        at.push(s(self.ty(x.node.ty(&body.local_decls, tcx))));
                    }
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(ar),
                        self.place(&body, a, *destination),
                        target.map(bb).unwrap_or(J::Null),
                        self.span(t.source_info.span),
                        J::A(at),
                        s(self.ty(destination.ty(&body.local_decls, tcx).ty)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let x = self.operand(&body, a, cond);
                    J::A(vec![s("assert"), x, J::B(*expected), bb(*target), s(format!("{msg:?}")), self.span(t.source_info.span)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let x = self.operand(&body, a, value);
                    J::A(vec![s("yield"), x, bb(*resume), self.place(&body, a, *resume_arg)])
                }
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::TailCall { .. } => J::A(vec![s("unsupported"), s("tailcall")]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("unsupported"), s("asm")]),
                _ => J::A(vec![s("unreachable")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("l", self.span(t.source_info.span))]));
        }
        Some(J::O(vec![
            ("key", s(key)),
            ("def", s(self.path(d))),
            ("span", self.span(tcx.def_span(d))),
            ("argc", J::N(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]))
    }
}

fn result_err<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    if let ty::Adt(ad, a) = t.kind() {
        if tcx.is_diagnostic_item(rustc_span::Symbol::intern("Result"), ad.did()) {
            return Some(a.type_at(1));
        }
    }
    None
}

fn has_body(tcx: TyCtxt<'_>, d: LocalDefId) -> bool {
    match tcx.def_kind(d) {
        DefKind::Fn | DefKind::Closure => true,
        DefKind::AssocFn => tcx.hir_maybe_body_owned_by(d).is_some(),
        _ => false,
    }
}

struct Cb {
    out: String,
}

thread_local! {
    static SNAP: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
static ORIG: std::sync::OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>> = std::sync::OnceLock::new();

// Keeps a copy of each borrow-checked body before drop elaboration and the coroutine transform consume it.
fn snapshot<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    if !SNAP.with(|m| m.borrow().contains_key(&d)) {
        let b = tcx.mir_promoted(d).0.borrow().clone();
        let b = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(b) };
        SNAP.with(|m| m.borrow_mut().insert(d, b));
    }
    ORIG.get().unwrap()(tcx, d)
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
            p.queries.mir_drops_elaborated_and_const_checked = snapshot;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut fns = vec![];
        let mut roots: BTreeMap<String, J> = BTreeMap::new();
        let mut encodings: BTreeMap<String, J> = BTreeMap::new();
        let eff = tcx.effective_visibilities(());
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().filter(|d| has_body(tcx, *d) && !matches!(tcx.def_kind(*d), DefKind::Closure)).collect();
        owners.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
        for ld in owners.iter() {
            let d = ld.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            let mut cx = Cx { tcx, env, queue: VecDeque::new(), seen: HashMap::new() };
            let ident = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
            let key = cx.want(d, ident).unwrap();
            let mut info = vec![
                ("key", s(key.clone())),
                ("def", s(cx.path(d))),
                ("name", s(tcx.item_name(d).to_string())),
                ("span", cx.span(tcx.def_span(d))),
                ("public", J::B(eff.is_reachable(*ld))),
                ("exported", J::B(eff.is_exported(*ld))),
                ("vis", s(format!("{:?}", tcx.visibility(d)))),
                ("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
                ("asyncness", J::B(tcx.asyncness(d).is_async())),
                ("sig", s(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip()))))),
            ];
            let names: Vec<J> = tcx.fn_arg_idents(d).iter().map(|i| i.map(|i| s(i.name.to_string())).unwrap_or(J::Null)).collect();
            info.push(("argnames", J::A(names)));
            let mut derived = false;
            if let Some(i) = tcx.impl_of_assoc(d) {
                info.push(("impl_self", s(cx.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip()))));
                if let ty::Adt(ad, _) = tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() {
                    info.push(("impl_adt", s(cx.path(ad.did()))));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    info.push(("impl_trait", s(cx.path(tr.skip_binder().def_id))));
                }
                derived = tcx.is_automatically_derived(i);
            } else if let Some(t) = tcx.trait_of_assoc(d) {
                info.push(("in_trait", s(cx.path(t))));
            }
            info.push(("derived", J::B(derived)));
            let f = tcx.def_path_str(d);
            // what serde's derive macros wrote
            let encoding = f.contains("::_::")
                && tcx.opt_item_name(d).is_some_and(|n| ["serialize", "deserialize", "visit_seq", "visit_newtype_struct", "visit_enum"].contains(&n.as_str()));
            if encoding || !derived && !f.contains("::_::") {
                let mut insts = vec![];
                let mut count = 0;
                while let Some((k, dd, aa)) = cx.queue.pop_front() {
                    count += 1;
                    if count > 5000 {
                        panic!("too many bodies reachable from {key}");
                    }
                    if let Some(j) = cx.body(&k, dd, aa) {
                        insts.push(j);
                    }
                }
                if encoding { &mut encodings } else { &mut roots }.insert(key.clone(), J::A(insts));
            }
            fns.push(J::O(info));
        }
        // ADTs, traits, impls
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), queue: VecDeque::new(), seen: HashMap::new() };
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        let fs = v
                            .fields
                            .iter()
                            .map(|f| {
                                J::A(vec![
                                    s(f.name.to_string()),
                                    s(cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    s(vis_str(tcx, f.vis)),
                                    J::B(f.did.as_local().map(|l| eff.is_reachable(l)).unwrap_or(false)),
                                ])
                            })
                            .collect();
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
                    }
                    adts.push(J::O(vec![
                        ("path", s(cx.path(d))),
                        ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                        ("public", J::B(eff.is_reachable(id))),
                        ("exported", J::B(eff.is_exported(id))),
                        ("vis", s(vis_str(tcx, tcx.visibility(d)))),
                        ("span", cx.span(tcx.def_span(d))),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let mut o = vec![
                        ("self", s(cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if let ty::Adt(ad, _) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
                        o.push(("adt", s(cx.path(ad.did()))));
                    }
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        o.push(("trait", s(cx.path(tr.skip_binder().def_id))));
                        o.push(("unsafe", J::B(tcx.impl_trait_header(d).safety.is_unsafe())));
                        o.push(("trait_full", s(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip()))))));
                    }
                    let items: Vec<J> = tcx.associated_items(d).in_definition_order().map(|x| s(x.opt_name().map(|n| n.to_string()).unwrap_or_default())).collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let items: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|x| J::A(vec![s(x.opt_name().map(|n| n.to_string()).unwrap_or_default()), J::B(x.defaultness(tcx).has_value()), s(format!("{:?}", x.tag()))]))
                        .collect();
                    traits.push(J::O(vec![
                        ("path", s(cx.path(d))),
                        ("public", J::B(eff.is_reachable(id))),
                        ("items", J::A(items)),
                    ]));
                }
                _ => {}
            }
        }
        // unsafe blocks
        let mut unsafes = vec![];
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'a, 'tcx> {
                cx: &'a Cx<'tcx>,
                out: &'a mut Vec<J>,
                owner: String,
            }
            impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.cx.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                        self.out.push(J::O(vec![
                            ("owner", s(self.owner.clone())),
                            ("span", self.cx.span(b.span)),
                            ("user", J::B(matches!(src, rustc_hir::UnsafeSource::UserProvided)
                                && (!b.span.from_expansion() || b.span.ctxt().outer_expn_data().macro_def_id.map(|m| m.is_local()).unwrap_or(false)))),
                            ("expn", s(if b.span.from_expansion() { format!("{:?}", b.span.ctxt().outer_expn_data().macro_def_id.map(|m| self.cx.path(m))) } else { String::new() })),
                        ]));
                    }
                    intravisit::walk_block(self, b);
                }
            }
            for ld in owners.iter() {
                if let Some(b) = tcx.hir_maybe_body_owned_by(*ld) {
                    let mut v = V { cx: &cx, out: &mut unsafes, owner: cx.path(ld.to_def_id()) };
                    v.visit_body(b);
                }
            }
        }
        std::fs::create_dir_all(&self.out).unwrap();
        let wr = |n: &str, j: J| {
            let mut o = String::new();
            j.w(&mut o);
            std::fs::write(format!("{}/{}", self.out, n), o).unwrap();
        };
        let mut idx = vec![];
        for (i, (k, j)) in roots.into_iter().enumerate() {
            wr(&format!("r{i}.json"), j);
            idx.push(J::A(vec![s(k), s(format!("r{i}.json"))]));
        }
        let mut enc = vec![];
        for (i, (k, j)) in encodings.into_iter().enumerate() {
            wr(&format!("e{i}.json"), j);
            enc.push(J::A(vec![s(k), s(format!("e{i}.json"))]));
        }
        wr(
            "index.json",
            J::O(vec![
                ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
                ("fns", J::A(fns)),
                ("adts", J::A(adts)),
                ("impls", J::A(impls)),
                ("traits", J::A(traits)),
                ("unsafes", J::A(unsafes)),
                ("roots", J::A(idx)),
                ("encodings", J::A(enc)),
            ]),
        );
        Compilation::Continue
    }
}

fn vis_str<I: Into<DefId>>(tcx: TyCtxt<'_>, v: ty::Visibility<I>) -> String {
    match v {
        ty::Visibility::Public => "pub".into(),
        ty::Visibility::Restricted(m) => {
            let m: DefId = m.into();
            tcx.def_path_str(m)
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    args[0] = "rustc".into();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("MANUL_CRATE").unwrap_or("manul".into()));
    let out = std::env::var("MANUL_FACTS").unwrap_or_default();
    let code = rustc_driver::catch_with_exit_code(|| {
        if is_target && !out.is_empty() {
            let mut cb = Cb { out: out.clone() };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        } else {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        }
    });
    code
}
