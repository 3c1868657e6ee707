//! rustc driver (nightly, rustc_private): type-checks a crate of the analysed
//! workspace and writes its resolved MIR, ADTs and trait impls as JSON.
//! It runs no code of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{
    AggregateKind, BasicBlockData, Body, CastKind, Const, ConstOperand, ConstValue, Operand, Place,
    PlaceTy, ProjectionElem, Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

macro_rules! names {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e)))
    };
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    ext_queue: VecDeque<DefId>,
    ext_seen: HashSet<DefId>,
}

const EXT_PREFIX: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::control_flow::",
    "core::bool::",
    "core::ops::try_trait::",
    "<core::option::",
    "<core::result::",
    "<core::ops::control_flow::",
    "<core::option::Option",
    "<core::result::Result",
    "core::mem::replace",
    "core::mem::take",
    "core::mem::swap",
    "core::cmp::Ordering",
    "core::cmp::Ord",
    "core::str::<impl str>::strip_prefix",
    "core::ops::function::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        names!((self.tcx.def_path_str(d)))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        names!((t.to_string()))
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        match t.kind() {
            ty::Adt(d, args) => {
                let p = self.path(d.did());
                if self.adts.insert(p, d.did()).is_none() && d.did().is_local() {
                    let tys: Vec<Ty<'tcx>> = d
                        .all_fields()
                        .map(|f| self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                        .collect();
                    for t in tys {
                        self.note_ty(t);
                    }
                }
                for a in args.types() {
                    self.note_ty(a);
                }
            }
            ty::Ref(_, t, _) => self.note_ty(*t),
            ty::RawPtr(t, _) => self.note_ty(*t),
            ty::Array(t, _) | ty::Slice(t) => self.note_ty(*t),
            ty::Tuple(ts) => {
                for t in ts.iter() {
                    self.note_ty(t);
                }
            }
            _ => {}
        }
    }
    fn loc(&self, s: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }
    fn line(&self, s: Span) -> usize {
        self.loc(s).1
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let _ = write!(o, "[{}", p.local.as_usize());
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let ptr = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            d.is_box() || matches!(self.path(d.did()).as_str(), "core::ptr::unique::Unique" | "core::ptr::non_null::NonNull")
                        }
                        _ => false,
                    };
                    if ptr && f.as_usize() == 0 {
                        o.push_str("\"b\"");
                        pt = pt.projection_ty(tcx, e);
                        continue;
                    }
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => d.variant(v),
                                None if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_usize(0)),
                                None => d.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    let _ = write!(o, "[\"v\",{},{}]", v.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end as u8);
                }
                _ => o.push_str("[\"o\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        self.note_ty(pt.ty);
        o
    }

    fn fn_ref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let mut o = format!("{{\"fn\":{}", esc(&path));
        let gargs: Vec<String> = args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(esc(&self.tys(t)))
                } else {
                    a.as_const().map(|c| esc(&names!((c.to_string()))))
                }
            })
            .collect();
        let _ = write!(o, ",\"a\":[{}]", gargs.join(","));
        // closure arguments by definition path
        let clos: Vec<String> = args
            .types()
            .filter_map(|t| match t.kind() {
                ty::Closure(c, _) => Some(esc(&self.path(*c))),
                _ => None,
            })
            .collect();
        if !clos.is_empty() {
            let _ = write!(o, ",\"cl\":[{}]", clos.join(","));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.path(t)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let e_args = tcx.erase_and_anonymize_regions(args);
            if !e_args.has_escaping_bound_vars() {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, e_args) {
                    let rd = i.def_id();
                    let kind = match i.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Intrinsic(_) => "intrinsic",
                        _ => "shim",
                    };
                    let _ = write!(o, ",\"k\":\"{kind}\"");
                    if rd != d {
                        let rp = self.path(rd);
                        let _ = write!(o, ",\"r\":{}", esc(&rp));
                        let ra: Vec<String> = i
                            .args
                            .types()
                            .map(|t| esc(&self.tys(t)))
                            .collect();
                        let _ = write!(o, ",\"ra\":[{}]", ra.join(","));
                    }
                    if !rd.is_local() && kind == "item" {
                        let rp = self.path(rd);
                        if EXT_PREFIX.iter().any(|p| rp.starts_with(p)) && self.ext_seen.insert(rd) {
                            self.ext_queue.push_back(rd);
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn cval(&mut self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let none = |s: &Self| format!("{{\"?\":{}}}", esc(&s.tys(t)));
        if depth > 6 {
            return none(self);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    return match t.kind() {
                        ty::Int(_) => format!("{{\"i\":{},\"t\":{}}}", si.to_int(si.size()), esc(&self.tys(t))),
                        _ => format!("{{\"i\":{},\"t\":{}}}", si.to_uint(si.size()), esc(&self.tys(t))),
                    };
                }
                // read through an indirect allocation
                if let ConstValue::Indirect { alloc_id, offset } = v
                    && let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id)
                    && let Ok(l) = tcx.layout_of(env.as_query_input(t))
                    && let Ok(s) = a.inner().read_scalar(
                        &tcx,
                        rustc_middle::mir::interpret::alloc_range(offset, l.size),
                        false,
                    )
                    && let Ok(si) = s.try_to_scalar_int()
                {
                    return match t.kind() {
                        ty::Int(_) => format!("{{\"i\":{},\"t\":{}}}", si.to_int(si.size()), esc(&self.tys(t))),
                        _ => format!("{{\"i\":{},\"t\":{}}}", si.to_uint(si.size()), esc(&self.tys(t))),
                    };
                }
                none(self)
            }
            ty::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    return format!("{{\"i\":{},\"t\":{}}}", si.to_uint(si.size()), esc(&self.tys(t)));
                }
                none(self)
            }
            ty::Ref(_, inner, _) => {
                let inner = *inner;
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                        none(self)
                    }
                    ty::Slice(e) => {
                        let e = *e;
                        let (aid, off, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return none(self) };
                                let a = a.inner();
                                let ps = tcx.data_layout.pointer_size();
                                let Ok(p) = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true) else { return none(self) };
                                let Ok(l) = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false) else { return none(self) };
                                let p = p.to_pointer(&tcx); let Some(p) = Some(p) else { return none(self) };
                                let Some(l) = l.to_target_usize(&tcx).discard_err() else { return none(self) };
                                let (prov, off) = p.into_raw_parts();
                                let Some(prov) = prov else { return "{\"arr\":[]}".to_string() };
                                (prov.alloc_id(), off.bytes(), l)
                            }
                            _ => return none(self),
                        };
                        let Ok(l) = tcx.layout_of(env.as_query_input(e)) else { return none(self) };
                        let mut items = vec![];
                        for i in 0..len.min(4096) {
                            let off = rustc_abi::Size::from_bytes(off + i * l.size.bytes());
                            items.push(self.cval(env, ConstValue::Indirect { alloc_id: aid, offset: off }, e, depth + 1));
                        }
                        format!("{{\"arr\":[{}]}}", items.join(","))
                    }
                    ty::Dynamic(..) => none(self),
                    _ => {
                        let ptr = match v {
                            ConstValue::Scalar(s) => Some(s.to_pointer(&tcx)),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return none(self) };
                                let ps = tcx.data_layout.pointer_size();
                                a.inner()
                                    .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true)
                                    .ok()
                                    .map(|s| s.to_pointer(&tcx))
                            }
                            _ => None,
                        };
                        let Some(p) = ptr else { return none(self) };
                        let (prov, off) = p.into_raw_parts();
                        let Some(prov) = prov else { return none(self) };
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Static(d) => format!("{{\"static\":{}}}", esc(&self.path(d))),
                            GlobalAlloc::Memory(_) => {
                                let r = self.cval(env, ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, inner, depth + 1);
                                format!("{{\"ref\":{r}}}")
                            }
                            _ => none(self),
                        }
                    }
                }
            }
            ty::Array(..) | ty::Tuple(_) | ty::Adt(..) => {
                self.note_ty(t);
                if let ty::Adt(d, _) = t.kind() {
                    if d.variants().is_empty() || d.is_union() {
                        return none(self);
                    }
                }
                let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) else { return none(self) };
                let fs: Vec<String> = dc.fields.iter().map(|(v, t)| self.cval(env, *v, *t, depth + 1)).collect();
                match t.kind() {
                    ty::Adt(d, _) => {
                        let vn = dc.variant.map(|v| d.variant(v)).unwrap_or_else(|| d.non_enum_variant());
                        let names: Vec<String> = vn.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"adt\":{},\"v\":{},\"fs\":[{}],\"fn_\":[{}]}}",
                            esc(&self.path(d.did())),
                            esc(vn.name.as_str()),
                            fs.join(","),
                            names.join(",")
                        )
                    }
                    ty::Tuple(_) => format!("{{\"tup\":[{}]}}", fs.join(",")),
                    _ => format!("{{\"arr\":[{}]}}", fs.join(",")),
                }
            }
            ty::FnDef(d, a) => self.fn_ref(env, *d, a.skip_binder()),
            ty::Closure(d, _) => format!("{{\"closure\":{}}}", esc(&self.path(*d))),
            _ => none(self),
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return self.fn_ref(env, *d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
        }
        let mut name = None;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                    return self.cval(env, v, t, 0);
                }
                return format!("{{\"prom\":{}}}", p.as_usize());
            }
            name = Some(self.path(u.def));
        }
        let generic = c.const_.has_non_region_param();
        let v = if generic && !matches!(c.const_, Const::Val(..)) {
            None
        } else {
            c.const_.eval(tcx, env, c.span).ok()
        };
        let mut s = match v {
            Some(v) => self.cval(env, v, t, 0),
            None => format!("{{\"?\":{}}}", esc(&self.tys(t))),
        };
        if let Some(n) = name {
            s.pop();
            let _ = write!(s, ",\"name\":{}}}", esc(&n));
        }
        s
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(env, c)),
            _ => "[\"k\",{\"i\":0,\"t\":\"bool\"}]".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = with_no_trimmed_paths!(n.to_string());
                format!("[\"rep\",{},{}]", self.operand(env, body, o), esc(&n))
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, rustc_middle::mir::BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{m},{}]", self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, rustc_middle::mir::RawPtrKind::Mut) as u8;
                format!("[\"ref\",{m},{},1]", self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                let m = m.is_mut() as u8;
                format!("[\"ref\",{m},{}]", self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"use\",[\"k\",{{\"static\":{}}}]]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, tcx);
                self.note_ty(from);
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&ks),
                    self.operand(env, body, o),
                    esc(&self.tys(from)),
                    esc(&self.tys(*t))
                )
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{},{}]",
                esc(&format!("{op:?}")),
                self.operand(env, body, &b.0),
                self.operand(env, body, &b.1),
                esc(&self.tys(b.0.ty(body, tcx)))
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(env, body, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                self.note_ty(t);
                let adt = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), esc(&adt))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter().map(|o| self.operand(env, body, o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"arr\",\"\",[],{os}]"),
                    AggregateKind::Tuple => format!("[\"agg\",\"tup\",\"\",[],{os}]"),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adts.insert(p.clone(), *d);
                        let vr = ad.variant(*v);
                        let names: Vec<String> = if let Some(a) = active {
                            vec![esc(vr.fields[*a].name.as_str())]
                        } else {
                            vr.fields.iter().map(|f| esc(f.name.as_str())).collect()
                        };
                        format!(
                            "[\"agg\",{},{},[{}],{os}]",
                            esc(&p),
                            esc(vr.name.as_str()),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},[],{os}]", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",\"\",[],{os}]"),
                    _ => format!("[\"agg\",\"coroutine\",\"\",[],{os}]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(env, body, o)),
        }
    }

    fn block(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, b: &BasicBlockData<'tcx>) -> String {
        let mut ss = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(a) => {
                    let l = self.line(s.source_info.span);
                    let p = self.place(body, &a.0);
                    let r = self.rvalue(env, body, &a.1);
                    ss.push(format!("[{p},{r},{l}]"));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let l = self.line(s.source_info.span);
                    let p = self.place(body, place);
                    ss.push(format!("[{p},[\"setd\",{}],{l}]", variant_index.as_usize()));
                }
                _ => {}
            }
        }
        let t = b.terminator();
        let l = self.line(t.source_info.span);
        let ts = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dty = discr.ty(body, self.tcx);
                let tg: Vec<String> = targets.iter().map(|(v, b)| format!("[{v},{}]", b.as_usize())).collect();
                format!(
                    "[\"switch\",{},[{}],{},{},{l}]",
                    self.operand(env, body, discr),
                    tg.join(","),
                    targets.otherwise().as_usize(),
                    esc(&self.tys(dty))
                )
            }
            TerminatorKind::Return => "[\"ret\"]".to_string(),
            TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(body, self.tcx).ty;
                format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), esc(&self.tys(ty)))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => self.constant(env, c),
                    o => format!("{{\"op\":{}}}", self.operand(env, body, o)),
                };
                let rt = destination.ty(body, self.tcx).ty;
                self.note_ty(rt);
                let a = list(args.iter().map(|a| self.operand(env, body, &a.node)).collect::<Vec<_>>());
                let tys = list(args.iter().map(|a| esc(&self.tys(a.node.ty(body, self.tcx)))).collect::<Vec<_>>());
                format!(
                    "[\"call\",{f},{a},{},{},{l},{tys},{}]",
                    self.place(body, destination),
                    target.map_or("null".to_string(), |t| t.as_usize().to_string()),
                    esc(&self.tys(rt))
                )
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let m = format!("{msg:?}");
                let m = m.split(['(', '{', ' ']).next().unwrap_or("").to_string();
                let extra = match &**msg {
                    rustc_middle::mir::AssertKind::BoundsCheck { len, index } => {
                        format!("[{},{}]", self.operand(env, body, len), self.operand(env, body, index))
                    }
                    _ => "null".into(),
                };
                format!(
                    "[\"assert\",{},{},{},{},{extra},{l}]",
                    self.operand(env, body, cond),
                    *expected as u8,
                    target.as_usize(),
                    esc(&m)
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_usize())
            }
            _ => "[\"unreach\"]".to_string(),
        };
        format!("{{\"s\":[{}],\"t\":{ts},\"c\":{}}}", ss.join(","), b.is_cleanup as u8)
    }

    fn body(&mut self, d: DefId, body: &Body<'tcx>, kind: &str) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let (file, line) = self.loc(tcx.def_span(d));
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert_with(|| v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upv.entry(f.as_usize()).or_insert_with(|| v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, ld)| {
                let t = ld.ty;
                self.note_ty(t);
                let n = names.get(&l.as_usize()).map_or("null".to_string(), |n| esc(n));
                format!("[{},{n}]", esc(&self.tys(t)))
            })
            .collect();
        let blocks: Vec<String> = body.basic_blocks.iter().map(|b| self.block(env, body, b)).collect();
        let mut gens = vec![];
        let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(d)));
        let mut chain = vec![];
        while let Some(x) = g {
            chain.push(x);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        for x in chain.iter().rev() {
            for p in &x.own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    gens.push(esc(p.name.as_str()));
                }
            }
        }
        let ups: Vec<String> = upv.iter().map(|(i, n)| format!("[{i},{}]", esc(n))).collect();
        let vis = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            tcx.visibility(d).is_public()
        } else {
            false
        };
        let parent = tcx.opt_parent(d).map(|p| self.path(p)).unwrap_or_default();
        format!(
            "{{\"file\":{},\"line\":{line},\"kind\":{},\"argc\":{},\"pub\":{},\"parent\":{},\"gens\":[{}],\"ups\":[{}],\"locals\":[{}],\"blocks\":[{}]}}",
            esc(&file),
            esc(kind),
            body.arg_count,
            vis,
            esc(&parent),
            gens.join(","),
            ups.join(","),
            locals.join(","),
            blocks.join(",")
        )
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, adts: BTreeMap::new(), ext_queue: VecDeque::new(), ext_seen: HashSet::new() };
    let mut fns: BTreeMap<String, String> = BTreeMap::new();
    let mut consts: BTreeMap<String, String> = BTreeMap::new();
    let mut dup = BTreeSet::new();
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let mut key = cx.path(d);
        let kind = tcx.def_kind(d);
        let (k, body) = match kind {
            DefKind::Fn | DefKind::AssocFn => {
                ("fn", tcx.optimized_mir(d))
            }
            DefKind::Closure => {
                if tcx.is_coroutine(d) {
                    continue;
                }
                ("closure", tcx.optimized_mir(d))
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let env = TypingEnv::post_analysis(tcx, d);
                if !tcx.generics_of(d).requires_monomorphization(tcx) && !matches!(kind, DefKind::Static { .. }) {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let v = cx.cval(env, v, t, 0);
                        let (f, l) = cx.loc(tcx.def_span(d));
                        consts.insert(key.clone(), format!("{{\"v\":{v},\"file\":{},\"line\":{l}}}", esc(&f)));
                    }
                }
                ("const", tcx.mir_for_ctfe(d))
            }
            DefKind::Ctor(..) => {
                continue;
            }
            _ => continue,
        };
        if fns.contains_key(&key) {
            dup.insert(key.clone());
            let mut n = 2;
            while fns.contains_key(&format!("{key}#{n}")) {
                n += 1;
            }
            key = format!("{key}#{n}");
        }
        let s = cx.body(d, body, k);
        fns.insert(key, s);
    }
    // impls
    let mut impls = vec![];
    for (tr, ids) in tcx.all_local_trait_impls(()) {
        for id in ids {
            let did = id.to_def_id();
            let h = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            cx.note_ty(h.self_ty());
            let ms: Vec<String> = tcx
                .associated_items(did)
                .in_definition_order()
                .map(|a| format!("{}:{}", esc(&a.opt_name().map_or(String::new(), |n| n.to_string())), esc(&cx.path(a.def_id))))
                .collect();
            let (f, l) = cx.loc(tcx.def_span(did));
            let ta: Vec<String> = h.args.types().skip(1).map(|t| esc(&cx.tys(t))).collect();
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"ta\":[{}],\"items\":{{{}}},\"derived\":{},\"file\":{},\"line\":{l}}}",
                esc(&cx.path(*tr)),
                esc(&cx.tys(h.self_ty())),
                ta.join(","),
                ms.join(","),
                tcx.is_automatically_derived(did),
                esc(&f)
            ));
        }
    }
    impls.sort();
    // external bodies
    let mut ext: BTreeMap<String, String> = BTreeMap::new();
    while let Some(d) = cx.ext_queue.pop_front() {
        if !tcx.is_mir_available(d) {
            continue;
        }
        let key = cx.path(d);
        let b = tcx.optimized_mir(d);
        let s = cx.body(d, b, "ext");
        ext.insert(key, s);
        // closures inside ext bodies
    }
    // local ADTs
    for it in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(it), DefKind::Struct | DefKind::Enum) {
            let t = tcx.type_of(it.to_def_id()).instantiate_identity().skip_norm_wip();
            cx.note_ty(t);
        }
    }
    let adts = cx.adts.clone();
    let mut adtj = vec![];
    for (p, d) in adts {
        let ad = tcx.adt_def(d);
        let mut vs = vec![];
        let discs: Vec<(usize, u128)> = if ad.is_enum() {
            ad.discriminants(tcx).map(|(i, x)| (i.as_usize(), x.val)).collect()
        } else {
            vec![(0, 0)]
        };
        for (i, v) in ad.variants().iter().enumerate() {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!("[{},{},{}]", esc(f.name.as_str()), esc(&cx.tys(t)), f.vis.is_public())
                })
                .collect();
            let dv = discs.iter().find(|x| x.0 == i).map_or(0, |x| x.1);
            vs.push(format!("[{},{},[{}]]", esc(v.name.as_str()), dv, fs.join(",")));
        }
        let k = if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" };
        let (f, l) = if d.is_local() { cx.loc(tcx.def_span(d)) } else { (String::new(), 0) };
        let gens: Vec<String> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| esc(p.name.as_str()))
            .collect();
        adtj.push(format!("{}:{{\"kind\":\"{k}\",\"local\":{},\"gens\":[{}],\"vs\":[{}],\"file\":{},\"line\":{l}}}", esc(&p), d.is_local(), gens.join(","), vs.join(","), esc(&f)));
    }
    let m = |m: BTreeMap<String, String>| {
        let v: Vec<String> = m.into_iter().map(|(k, v)| format!("{}:{v}", esc(&k))).collect();
        format!("{{{}}}", v.join(",\n"))
    };
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let s = format!(
        "{{\"crate\":{},\"fns\":{},\n\"ext\":{},\n\"consts\":{},\n\"adts\":{{{}}},\n\"impls\":[{}]}}\n",
        esc(&name),
        m(fns),
        m(ext),
        m(consts),
        adtj.join(",\n"),
        impls.join(",\n")
    );
    let p = format!("{out}/{name}.json");
    let tmp = format!("{p}.{}.tmp", std::process::id());
    std::fs::write(&tmp, s).expect("write");
    std::fs::rename(&tmp, &p).expect("rename");
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("HEMTT_SA_OUT").ok();
    let is_test = args.iter().any(|a| a == "--test");
    let dump_it = match &name {
        Some(n) if n != "build_script_build" && n != "___" && !is_test => out,
        _ => None,
    };
    if dump_it.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out: dump_it });
    })
}
