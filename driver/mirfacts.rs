// Compiler driver that writes the type-checked program of a library crate as JSON facts.
//
// Used as RUSTC_WORKSPACE_WRAPPER: the first argument is the path of the real compiler and the
// remaining ones are its arguments. Facts are written to $MIRFACTS_OUT/<crate>[.<tag>].json and the
// argument list to $MIRFACTS_OUT/<crate>.args so that the crate can be analysed again with other features.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::fmt::Write as _;

struct J(String);

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn key(tcx: TyCtxt<'_>, id: DefId) -> String {
    format!("{}{}", tcx.crate_name(id.krate), tcx.def_path(id).to_string_no_crate_verbose())
}

/// prints with full, crate-qualified definition paths
macro_rules! full {
    ($e:expr) => {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e)))
    };
}

fn tstr(ty: Ty<'_>) -> String {
    full!(ty.to_string())
}

fn path(tcx: TyCtxt<'_>, id: DefId) -> String {
    full!(tcx.def_path_str(id))
}

fn loc(tcx: TyCtxt<'_>, sp: Span) -> (String, usize) {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => match r.local_path() {
            Some(p) => p.to_string_lossy().to_string(),
            None => String::from("?"),
        },
        _ => String::from("?"),
    };
    (f, lo.line)
}

fn scalar_json(s: Scalar, ty: Ty<'_>) -> Option<String> {
    let int = match s {
        Scalar::Int(i) => i,
        _ => return None,
    };
    let bits = int.to_bits(int.size());
    Some(match ty.kind() {
        ty::Bool => format!("{}", if bits != 0 { "true" } else { "false" }),
        ty::Int(_) => format!("{}", int.size().sign_extend(bits)),
        ty::Uint(_) => format!("{}", bits),
        ty::Char => format!("{}", bits),
        ty::Float(ty::FloatTy::F64) => format!("{{\"f64\":\"{:016x}\"}}", bits),
        ty::Float(ty::FloatTy::F32) => format!("{{\"f32\":\"{:08x}\"}}", bits),
        _ => format!("{{\"bits\":\"{}\"}}", bits),
    })
}

// value of an evaluated constant as JSON, when it can be expressed
fn const_json<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> Option<String> {
    if depth > 12 {
        return None;
    }
    match ty.kind() {
        ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => match v {
            ConstValue::Scalar(s) => scalar_json(s, ty),
            _ => {
                let s = v.try_to_scalar()?;
                scalar_json(s, ty)
            }
        },
        ty::Array(..) | ty::Tuple(_) | ty::Adt(..) => {
            if let ty::Adt(def, _) = ty.kind() {
                if def.is_union() || def.variants().is_empty() {
                    return None;
                }
            }
            let d = tcx.try_destructure_mir_constant_for_user_output(v, ty)?;
            let mut parts = Vec::new();
            for (fv, fty) in d.fields.iter() {
                parts.push(const_json(tcx, *fv, *fty, depth + 1).unwrap_or_else(|| "null".to_string()));
            }
            match ty.kind() {
                ty::Adt(def, _) => {
                    let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                    let var = &def.variants()[rustc_abi::VariantIdx::from_usize(vi)];
                    let fields: Vec<String> = var
                        .fields
                        .iter()
                        .zip(parts.iter())
                        .map(|(f, p)| format!("{}:{}", esc(f.name.as_str()), p))
                        .collect();
                    Some(format!(
                        "{{\"adt\":{},\"var\":{},\"fields\":{{{}}}}}",
                        esc(&path(tcx, def.did())),
                        esc(var.name.as_str()),
                        fields.join(",")
                    ))
                }
                _ => Some(format!("[{}]", parts.join(","))),
            }
        }
        ty::Ref(_, inner, _) => {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return Some(format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b))));
                }
                return None;
            }
            match v {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let alloc_id = prov.alloc_id();
                    match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(_) => {
                            if !inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                return None;
                            }
                            const_json(tcx, ConstValue::Indirect { alloc_id, offset: off }, *inner, depth + 1)
                        }
                        GlobalAlloc::Static(did) => Some(format!("{{\"static\":{}}}", esc(&key(tcx, did)))),
                        _ => None,
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let ty::Slice(e) = inner.kind() {
                        let aty = Ty::new_array(tcx, *e, meta);
                        return const_json(
                            tcx,
                            ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO },
                            aty,
                            depth + 1,
                        );
                    }
                    None
                }
                _ => None,
            }
        }
        _ => None,
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
    file: String,
}

impl<'tcx> Cx<'tcx> {
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(i, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                            if def.is_enum() && pt.variant_index.is_none() {
                                String::new()
                            } else {
                                def.variants()[vi].fields[i].name.to_string()
                            }
                        }
                        _ => String::new(),
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", i.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_usize(), esc(&nm));
                }
                _ => o.push_str(",[\"o\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"key\":{},\"path\":{}", esc(&key(tcx, did)), esc(&path(tcx, did)));
        let al: Vec<String> = args.iter().map(|a| esc(&full!(a.to_string()))).collect();
        let _ = write!(o, ",\"args\":[{}]", al.join(","));
        if let Some(t) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", esc(&path(tcx, t)));
            let _ = write!(o, ",\"self\":{}", esc(&full!(args.type_at(0).to_string())));
        }
        if tcx.is_foreign_item(did) {
            let _ = write!(o, ",\"foreign\":true");
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
            let (k, id) = match inst.def {
                InstanceKind::Item(d) => ("item", Some(d)),
                InstanceKind::Intrinsic(d) => ("intrinsic", Some(d)),
                InstanceKind::Virtual(d, _) => ("virtual", Some(d)),
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => ("closure_once", Some(closure)),
                _ => ("shim", None),
            };
            let _ = write!(o, ",\"rk\":{}", esc(k));
            if let Some(d) = id {
                let _ = write!(o, ",\"res\":{},\"rpath\":{}", esc(&key(tcx, d)), esc(&path(tcx, d)));
                let rl: Vec<String> = inst.args.iter().map(|a| esc(&full!(a.to_string()))).collect();
                let _ = write!(o, ",\"rargs\":[{}]", rl.join(","));
            }
        }
        o.push('}');
        o
    }

    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let mut o = format!("{{\"k\":{{\"ty\":{}", esc(&tstr(ty)));
                if let ty::FnDef(did, args) = ty.kind() {
                    let _ = write!(o, ",\"fn\":{}", self.callee(*did, args.skip_binder()));
                } else {
                    match c.const_ {
                        Const::Unevaluated(uv, _) => {
                            let _ = write!(o, ",\"named\":{}", esc(&key(self.tcx, uv.def)));
                            if let Some(p) = uv.promoted {
                                let _ = write!(o, ",\"promoted\":{}", p.as_usize());
                            }
                        }
                        _ => {}
                    }
                    if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                        if let Some(j) = const_json(self.tcx, v, ty, 0) {
                            let _ = write!(o, ",\"v\":{}", j);
                        } else if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                            let (prov, _) = p.into_raw_parts();
                            if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                                let _ = write!(o, ",\"static\":{}", esc(&key(self.tcx, d)));
                            }
                        }
                    }
                }
                o.push_str("}}");
                o
            }
            _ => "{\"k\":{\"ty\":\"bool\",\"v\":false}}".to_string(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let nn = n.try_to_target_usize(tcx);
                format!(
                    "[\"repeat\",{},{}]",
                    self.operand(body, o),
                    nn.map(|x| x.to_string()).unwrap_or_else(|| "null".into())
                )
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", esc(&format!("{:?}", k)), self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&key(tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(body, o),
                    esc(&tstr(from)),
                    esc(&tstr(*t))
                )
            }
            Rvalue::BinaryOp(b, ab) => format!(
                "[\"bin\",\"{:?}\",{},{},{}]",
                b,
                self.operand(body, &ab.0),
                self.operand(body, &ab.1),
                esc(&tstr(ab.0.ty(&body.local_decls, tcx)))
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "[\"un\",\"{:?}\",{},{}]",
                u,
                self.operand(body, o),
                esc(&tstr(o.ty(&body.local_decls, tcx)))
            ),
            Rvalue::Discriminant(p) => format!(
                "[\"discr\",{},{}]",
                self.place(body, p),
                esc(&tstr(p.ty(&body.local_decls, tcx).ty))
            ),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = tcx.adt_def(*d);
                        let var = &def.variants()[*v];
                        let names: Vec<String> = match af {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"adt\",{},{},{},[{}]]",
                            esc(&path(tcx, *d)),
                            esc(var.name.as_str()),
                            v.as_usize(),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&key(tcx, *d))),
                    _ => "[\"other\"]".to_string(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&self, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names = vec![String::new(); body.local_decls.len()];
        let mut upvars = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = v.name.to_string();
                } else {
                    upvars.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        let mut o = String::from("\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "[{},{}]", esc(&tstr(l.ty)), esc(&names[i]));
        }
        let _ = write!(o, "],\"upvars\":[{}],\"argc\":{},\"blocks\":[", upvars.join(","), body.arg_count);
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"c\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for st in bb.statements.iter() {
                let s = match &st.kind {
                    StatementKind::Assign(a) => {
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, &a.0),
                            self.rvalue(body, &a.1),
                            self.sline(st.source_info.span)
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", esc(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = self.sline(t.source_info.span);
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"switch\",{},{},[{}],{},{}]",
                        self.operand(body, discr),
                        esc(&tstr(discr.ty(&body.local_decls, tcx))),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "[\"drop\",{},{},{}]",
                    self.place(body, place),
                    target.as_usize(),
                    esc(&tstr(place.ty(&body.local_decls, tcx).ty))
                ),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let fs = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(did, ga) => self.callee(*did, ga.skip_binder()),
                            _ => "{\"ptr\":true}".to_string(),
                        },
                        _ => format!("{{\"ptr\":true,\"op\":{}}}", self.operand(body, func)),
                    };
                    let as_: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let uw = match unwind {
                        UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                        _ => "null".into(),
                    };
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        fs,
                        as_.join(","),
                        self.place(body, destination),
                        target.map(|b| b.as_usize().to_string()).unwrap_or_else(|| "null".into()),
                        ln,
                        uw
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, mo): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(body, len), self.operand(body, index)])
                        }
                        AssertKind::Overflow(b, x, y) => {
                            (format!("overflow:{:?}", b), vec![self.operand(body, x), self.operand(body, y)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(body, x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(body, x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(body, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{}]",
                        self.operand(body, cond),
                        expected,
                        esc(&mk),
                        mo.join(","),
                        target.as_usize(),
                        ln
                    )
                }
                _ => "[\"other\"]".to_string(),
            };
            o.push_str(&s);
            o.push('}');
        }
        o.push(']');
        o
    }

    fn sline(&self, sp: Span) -> String {
        let (f, l) = loc(self.tcx, sp);
        if f == self.file { l.to_string() } else { format!("[{},{}]", esc(&f), l) }
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut j = J(String::with_capacity(1 << 24));
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let _ = write!(j.0, "{{\"crate\":{},\"fns\":[\n", esc(&krate));
    let mut first = true;
    let mut bodies: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    bodies.sort_by_key(|d| d.local_def_index);
    for ld in bodies.iter() {
        let did = ld.to_def_id();
        let dk = tcx.def_kind(did);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn {
            continue;
        }
        let body = tcx.optimized_mir(did);
        let (file, ln) = loc(tcx, tcx.def_span(did));
        let env = TypingEnv::post_analysis(tcx, did);
        let cx = Cx { tcx, env, owner: did, file: file.clone() };
        let _ = cx.owner;
        if !first {
            j.0.push_str(",\n");
        }
        first = false;
        let _ = write!(
            j.0,
            "{{\"key\":{},\"path\":{},\"kind\":\"{:?}\",\"file\":{},\"line\":{}",
            esc(&key(tcx, did)),
            esc(&path(tcx, did)),
            dk,
            esc(&file),
            ln
        );
        if dk != DefKind::Closure {
            let vis = tcx.visibility(did).is_public();
            let eff = tcx.effective_visibilities(()).is_reachable(*ld);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&tstr(*t))).collect();
            let _ = write!(
                j.0,
                ",\"pub\":{},\"reach\":{},\"ins\":[{}],\"out\":{},\"unsafe\":{}",
                vis,
                eff,
                ins.join(","),
                esc(&tstr(sig.output())),
                !sig.safety().is_safe()
            );
            let anames: Vec<String> = tcx
                .fn_arg_idents(did)
                .iter()
                .map(|i| esc(&i.map(|x| x.to_string()).unwrap_or_default()))
                .collect();
            let _ = write!(j.0, ",\"anames\":[{}]", anames.join(","));
            let preds: Vec<String> = tcx
                .clauses_of(did)
                .instantiate_identity(tcx)
                .clauses
                .iter()
                .map(|p| esc(&full!(p.skip_norm_wip().to_string())))
                .collect();
            let _ = write!(j.0, ",\"preds\":[{}]", preds.join(","));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(j.0, ",\"impl_self\":{}", esc(&tstr(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let _ = write!(
                        j.0,
                        ",\"impl_trait\":{}",
                        esc(&path(tcx, tr.instantiate_identity().skip_norm_wip().def_id))
                    );
                }
            }
        } else {
            let parent = tcx.typeck_root_def_id(did);
            let _ = write!(j.0, ",\"parent\":{}", esc(&key(tcx, parent)));
        }
        let gnr = tcx.generics_of(did);
        let gps: Vec<String> = (0..gnr.count()).map(|i| esc(gnr.param_at(i, tcx).name.as_str())).collect();
        let _ = write!(j.0, ",\"gparams\":[{}]", gps.join(","));
        let _ = write!(j.0, ",{}", cx.body(body));
        // promoted constants that could not be evaluated are not needed
        j.0.push('}');
    }
    j.0.push_str("\n],\"consts\":[\n");
    first = true;
    for ld in bodies.iter() {
        let did = ld.to_def_id();
        let dk = tcx.def_kind(did);
        if !matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            continue;
        }
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let (file, ln) = loc(tcx, tcx.def_span(did));
        let v = tcx.const_eval_poly(did).ok().and_then(|v| const_json(tcx, v, ty, 0));
        if !first {
            j.0.push_str(",\n");
        }
        first = false;
        let _ = write!(
            j.0,
            "{{\"key\":{},\"path\":{},\"ty\":{},\"file\":{},\"line\":{},\"v\":{}}}",
            esc(&key(tcx, did)),
            esc(&path(tcx, did)),
            esc(&tstr(ty)),
            esc(&file),
            ln,
            v.unwrap_or_else(|| "null".into())
        );
    }
    j.0.push_str("\n],\"statics\":[\n");
    first = true;
    for ld in bodies.iter() {
        let did = ld.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Static { .. }) {
            continue;
        }
        let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let (file, ln) = loc(tcx, tcx.def_span(did));
        let m = tcx.static_mutability(did).map(|m| m.is_mut()).unwrap_or(false);
        let fr = ty.is_freeze(tcx, TypingEnv::fully_monomorphized());
        if !first {
            j.0.push_str(",\n");
        }
        first = false;
        let _ = write!(
            j.0,
            "{{\"key\":{},\"ty\":{},\"file\":{},\"line\":{},\"mut\":{},\"freeze\":{},\"tls\":{}}}",
            esc(&key(tcx, did)),
            esc(&tstr(ty)),
            esc(&file),
            ln,
            m,
            fr,
            tcx.is_thread_local_static(did)
        );
    }
    j.0.push_str("\n],\"foreign\":[\n");
    first = true;
    let items = tcx.hir_crate_items(());
    for fi in items.foreign_items() {
        let did = fi.owner_id.to_def_id();
        let (file, ln) = loc(tcx, tcx.def_span(did));
        if !first {
            j.0.push_str(",\n");
        }
        first = false;
        let nm = tcx.item_name(did);
        if matches!(tcx.def_kind(did), DefKind::Fn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&tstr(*t))).collect();
            let anames: Vec<String> = tcx
                .fn_arg_idents(did)
                .iter()
                .map(|i| esc(&i.map(|x| x.to_string()).unwrap_or_default()))
                .collect();
            let _ = write!(
                j.0,
                "{{\"key\":{},\"name\":{},\"kind\":\"fn\",\"ins\":[{}],\"anames\":[{}],\"out\":{},\"file\":{},\"line\":{}}}",
                esc(&key(tcx, did)),
                esc(nm.as_str()),
                ins.join(","),
                anames.join(","),
                esc(&tstr(sig.output())),
                esc(&file),
                ln
            );
        } else {
            let _ = write!(
                j.0,
                "{{\"key\":{},\"name\":{},\"kind\":\"other\",\"file\":{},\"line\":{}}}",
                esc(&key(tcx, did)),
                esc(nm.as_str()),
                esc(&file),
                ln
            );
        }
    }
    j.0.push_str("\n],\"adts\":[\n");
    first = true;
    let auto = [
        ("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)),
        ("Sync", tcx.lang_items().sync_trait()),
        ("Clone", tcx.lang_items().clone_trait()),
        ("Copy", tcx.lang_items().copy_trait()),
    ];
    for id in items.definitions() {
        let did = id.to_def_id();
        let dk = tcx.def_kind(did);
        if !matches!(dk, DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let (file, ln) = loc(tcx, tcx.def_span(did));
        let def = tcx.adt_def(did);
        if !first {
            j.0.push_str(",\n");
        }
        first = false;
        let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let _ = write!(
            j.0,
            "{{\"key\":{},\"path\":{},\"ty\":{},\"kind\":\"{:?}\",\"file\":{},\"line\":{},\"pub\":{},\"reach\":{},\"repr_c\":{}",
            esc(&key(tcx, did)),
            esc(&path(tcx, did)),
            esc(&tstr(ty)),
            dk,
            esc(&file),
            ln,
            tcx.visibility(did).is_public(),
            tcx.effective_visibilities(()).is_reachable(id),
            def.repr().c()
        );
        let pe = tcx.param_env(did);
        let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
        for (n, t) in auto.iter() {
            if let Some(t) = t {
                let r = infcx.type_implements_trait(*t, [ty], pe);
                let _ = write!(j.0, ",\"{}\":{}", n, r.may_apply());
            }
        }
        let _ = write!(j.0, ",\"Drop\":{}", tcx.adt_destructor(did).is_some());
        j.0.push_str(",\"variants\":[");
        for (vi, v) in def.variants().iter_enumerated() {
            if vi.as_usize() > 0 {
                j.0.push(',');
            }
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!(
                        "[{},{},{}]",
                        esc(f.name.as_str()),
                        esc(&tstr(t)),
                        tcx.visibility(f.did).is_public()
                    )
                })
                .collect();
            let dv = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
            let _ = write!(
                j.0,
                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                esc(v.name.as_str()),
                dv,
                fs.join(",")
            );
        }
        j.0.push_str("]}");
    }
    j.0.push_str("\n],\"impls\":[\n");
    first = true;
    for id in items.definitions() {
        let did = id.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
            continue;
        }
        let (file, ln) = loc(tcx, tcx.def_span(did));
        let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let tr = tcx.impl_opt_trait_ref(did).map(|t| t.instantiate_identity().skip_norm_wip());
        let uns = tr.is_some() && tcx.impl_trait_header(did).safety == rustc_hir::Safety::Unsafe;
        if !first {
            j.0.push_str(",\n");
        }
        first = false;
        let _ = write!(
            j.0,
            "{{\"key\":{},\"self\":{},\"trait\":{},\"unsafe\":{},\"file\":{},\"line\":{}}}",
            esc(&key(tcx, did)),
            esc(&tstr(st)),
            tr.map(|t| esc(&full!(t.print_only_trait_path().to_string())))
                .unwrap_or_else(|| "null".into()),
            uns,
            esc(&file),
            ln
        );
    }
    j.0.push_str("\n]}\n");
    std::fs::write(out, j.0).expect("cannot write facts");
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper, args[1] is the real compiler
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_lib = args
        .windows(2)
        .any(|w| w[0] == "--crate-type" && (w[1].contains("lib")))
        && name.as_deref() != Some("___");
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    match name {
        Some(n) if is_lib && !out.is_empty() && n != "build_script_build" => {
            let tag = std::env::var("MIRFACTS_TAG").unwrap_or_default();
            let stem = if tag.is_empty() { n.clone() } else { format!("{}.{}", n, tag) };
            if tag.is_empty() {
                let mut env = String::new();
                for (k, v) in std::env::vars() {
                    if k.starts_with("CARGO") || k == "OUT_DIR" {
                        let _ = write!(env, "{}\u{1}{}\u{0}", k, v);
                    }
                }
                std::fs::write(format!("{}/{}.args", out, stem), args[1..].join("\u{0}")).unwrap();
                std::fs::write(format!("{}/{}.env", out, stem), env).unwrap();
            }
            let mut cb = Cb { out: format!("{}/{}.json", out, stem) };
            rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
        }
        _ => rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Plain)),
    }
}
