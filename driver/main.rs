// MIR fact extractor for snapcd.  Runs as RUSTC_WORKSPACE_WRAPPER under
// `cargo +nightly check` and writes one JSON file per crate target of the
// workspace: every function body (MIR after drop elaboration, with resolved
// callees and constants), every ADT that occurs in one, and the trait impls.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Unsafes(usize);
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafes {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.from_expansion() {
                self.0 += 1;
            }
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    is_bin: bool,
    adts: BTreeMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let k = if d.krate == LOCAL_CRATE && self.is_bin {
            "bin".to_string()
        } else {
            self.tcx.crate_name(d.krate).to_string()
        };
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(a, _) = t.kind() {
                    let k = self.id(a.did());
                    self.adts.insert(k, a.did());
                }
            }
        }
        with_no_trimmed_paths!(t.to_string())
    }

    // Structured type: just what the analyses dispatch on.
    fn tyj(&mut self, t: Ty<'tcx>) -> String {
        let s = self.ty(t);
        match t.kind() {
            ty::Adt(a, args) => {
                let id = self.id(a.did());
                let args: Vec<_> = args.types().collect();
                let args: Vec<String> = args.into_iter().map(|t| self.ty(t)).collect();
                format!(
                    "{{\"s\":{},\"k\":\"adt\",\"adt\":{},\"a\":{}}}",
                    q(&s),
                    q(&id),
                    list(args.iter().map(|x| q(x)))
                )
            }
            ty::Ref(_, t, m) => format!(
                "{{\"s\":{},\"k\":\"ref\",\"m\":{},\"t\":{}}}",
                q(&s),
                m.is_mut(),
                self.tyj(*t)
            ),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx);
                let e = self.ty(*t);
                format!(
                    "{{\"s\":{},\"k\":\"array\",\"n\":{},\"e\":{}}}",
                    q(&s),
                    n.map_or("null".to_string(), |n| n.to_string()),
                    q(&e)
                )
            }
            ty::Closure(d, _) => {
                format!("{{\"s\":{},\"k\":\"closure\",\"id\":{}}}", q(&s), q(&self.id(*d)))
            }
            ty::FnDef(d, _) => {
                format!("{{\"s\":{},\"k\":\"fndef\",\"id\":{}}}", q(&s), q(&self.id(*d)))
            }
            _ => format!("{{\"s\":{},\"k\":\"o\"}}", q(&s)),
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut els = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    if pty.ty.is_box() {
                        "\"*b\"".to_string()
                    } else {
                        "\"*\"".to_string()
                    }
                }
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    let mut bx = false;
                    if let ty::Adt(a, _) = pty.ty.kind() {
                        let v = match pty.variant_index {
                            Some(v) => a.variant(v),
                            None if a.is_struct() || a.is_union() => a.non_enum_variant(),
                            None => a.variant(rustc_abi::VariantIdx::from_u32(0)),
                        };
                        name = v.fields[f].name.to_string();
                        bx = a.is_box() || {
                            let p = self.tcx.def_path_str(a.did());
                            p.ends_with("ptr::Unique") || p.ends_with("ptr::NonNull")
                        };
                    }
                    format!("[\"f\",{},{},{}]", f.as_u32(), q(&name), bx)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"d\",{},{}]",
                    v.as_u32(),
                    q(&n.map(|n| n.to_string()).unwrap_or_default())
                ),
                _ => "\"cast\"".to_string(),
            };
            els.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_u32(), list(els))
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"id\":{},\"path\":{}", q(&self.id(d)), q(&self.path(d)));
        let tys: Vec<_> = args.types().collect();
        let tys: Vec<String> = tys.into_iter().map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"args\":{}", list(tys.iter().map(|x| q(x))));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(
                o,
                ",\"trait\":{},\"method\":{}",
                q(&self.id(t)),
                q(tcx.item_name(d).as_str())
            );
        }
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = i.def_id();
            let kind = match i.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            let _ = write!(
                o,
                ",\"r\":{},\"rpath\":{},\"rk\":\"{}\"",
                q(&self.id(rd)),
                q(&self.path(rd)),
                kind
            );
        }
        o.push('}');
        o
    }

    // The item type, if `t` (or what it refers to) can be iterated.
    fn item_of(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        for (tr, m) in [
            (rustc_span::sym::Iterator, "next"),
            (rustc_span::sym::IntoIterator, "into_iter"),
        ] {
            let tr = tcx.get_diagnostic_item(tr)?;
            let mut next = None;
            let mut item = None;
            for a in tcx.associated_items(tr).in_definition_order() {
                if a.name().as_str() == m {
                    next = Some(a.def_id);
                }
                if a.name().as_str() == "Item" {
                    item = Some(a.def_id);
                }
            }
            let (next, item) = (next?, item?);
            let mut ts = vec![t];
            if m == "next" {
                if let ty::Ref(_, u, _) = t.kind() {
                    ts.push(*u);
                }
            }
            for t in ts {
                if matches!(t.kind(), ty::Ref(_, u, _) if matches!(u.kind(), ty::Closure(..) | ty::Str)) {
                    continue;
                }
                let t = tcx.erase_and_anonymize_regions(t);
                let args = tcx.mk_args(&[t.into()]);
                if let Ok(Some(_)) = Instance::try_resolve(tcx, env, next, args) {
                    let pr = Ty::new_projection_from_args(tcx, ty::IsRigid::No, item, args);
                    if let Ok(n) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(pr)) {
                        return Some(self.ty(n));
                    }
                }
            }
        }
        None
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("[\"fn\",{}]", self.fnref(env, *d, args.no_bound_vars().unwrap()));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("[\"promoted\",{},{}]", q(&self.id(u.def)), p.as_u32());
            }
        }
        let tys = self.tyj(t);
        let name = match c.const_ {
            Const::Unevaluated(u, _) => self.id(u.def),
            _ => String::new(),
        };
        if let Some(v) = c
            .const_
            .try_eval_scalar(tcx, env)
            .filter(|_| matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char))
        {
            if let Scalar::Int(i) = v {
                let n: String = match t.kind() {
                    ty::Int(_) => i.to_int(i.size()).to_string(),
                    _ => i.to_uint(i.size()).to_string(),
                };
                return format!("[\"int\",{},{},{}]", n, tys, q(&name));
            }
        }
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let b = b.to_vec();
                        return format!("[\"bytes\",{},{}]", q(&hexs(&b)), tys);
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, _off) = p.into_raw_parts();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Static(d)) => {
                            return format!("[\"static\",{},{}]", q(&self.id(d)), tys);
                        }
                        Some(GlobalAlloc::Memory(m)) => {
                            let a = m.inner();
                            let n = a.len();
                            if a.provenance().ptrs().is_empty() {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                return format!("[\"bytes\",{},{}]", q(&hexs(b)), tys);
                            }
                            // &&str: one level of indirection
                            if let Some((_, pr)) = a.provenance().ptrs().iter().next() {
                                if let Some(GlobalAlloc::Memory(m2)) =
                                    tcx.try_get_global_alloc(pr.alloc_id())
                                {
                                    let a2 = m2.inner();
                                    if a2.provenance().ptrs().is_empty() {
                                        let b = a2.inspect_with_uninit_and_ptr_outside_interpreter(
                                            0..a2.len(),
                                        );
                                        return format!("[\"bytes\",{},{}]", q(&hexs(b)), tys);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Indirect { alloc_id, .. } => {
                    if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                        let a = m.inner();
                        if a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            return format!("[\"blob\",{},{},{}]", q(&hexs(b)), tys, q(&name));
                        }
                    }
                }
                ConstValue::ZeroSized => return format!("[\"zst\",{}]", tys),
                _ => {}
            }
        }
        format!("[\"const\",{},{},{}]", q(&format!("{:?}", c.const_)), tys, q(&name))
    }

    fn op(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(env, c)),
            #[allow(unreachable_patterns)]
            o => format!("[\"rt\",{}]", q(&format!("{:?}", o))),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.op(body, env, o),
                n.try_to_target_usize(self.tcx).map_or("null".to_string(), |n| n.to_string())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                // conversions that can lose part of a number
                let from = o.ty(&body.local_decls, self.tcx);
                let bits = |t: Ty<'tcx>| match t.kind() {
                    ty::TyKind::Int(i) => i.bit_width().unwrap_or(64),
                    ty::TyKind::Uint(i) => i.bit_width().unwrap_or(64),
                    ty::TyKind::Char => 32,
                    _ => 0,
                };
                let num = |t: Ty<'tcx>| t.is_numeric() || t.is_char();
                let lossy = num(from)
                    && num(*t)
                    && from != self.tcx.types.isize
                    && (from.is_floating_point() || t.is_floating_point() || bits(from) > bits(*t));
                let k = if lossy { "Narrow".to_string() } else { format!("{:?}", k) };
                let t = self.tyj(*t);
                format!("[\"cast\",{},{},{}]", q(&k), self.op(body, env, o), t)
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                q(&format!("{:?}", b)),
                self.op(body, env, &ops.0),
                self.op(body, env, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.op(body, env, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let id = self.id(*d);
                        self.adts.insert(id.clone(), *d);
                        format!(
                            "[\"adt\",{},{},{}]",
                            q(&id),
                            v.as_u32(),
                            q(a.variant(*v).name.as_str())
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", q(&self.id(*d))),
                    k => format!("[\"other\",{}]", q(&format!("{:?}", k))),
                };
                let ops: Vec<String> = ops.iter().map(|o| self.op(body, env, o)).collect();
                format!("[\"agg\",{},{}]", ks, list(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            r => format!("[\"other\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!(
            "{}:{}",
            match &lo.file.name {
                rustc_span::FileName::Real(r) => r
                    .local_path()
                    .map(|p| p.display().to_string())
                    .unwrap_or_default(),
                f => format!("{:?}", f),
            },
            lo.line
        )
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.tyj(d.ty);
            locals.push(format!(
                "[{},{}]",
                t,
                names.get(&l.as_u32()).map_or("null".to_string(), |n| q(n))
            ));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut sts = vec![];
            for s in &bb.statements {
                let sp = q(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(body, &a.0);
                        let rv = self.rvalue(body, env, &a.1);
                        sts.push(format!("[\"=\",{},{},{}]", pl, rv, sp));
                    }
                    StatementKind::StorageDead(l) => {
                        sts.push(format!("[\"dead\",{}]", l.as_u32()));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, place);
                        sts.push(format!("[\"setd\",{},{}]", pl, variant_index.as_u32()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let tys = self.ty(dty);
                    let d = self.op(body, env, discr);
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        d,
                        list(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32()))),
                        targets.otherwise().as_u32(),
                        q(&tys),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(body, place);
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.tyj(t);
                    format!("[\"drop\",{},{},{}]", pl, target.as_u32(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(body, env, func);
                    let a: Vec<String> =
                        args.iter().map(|a| self.op(body, env, &a.node)).collect();
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.tyj(dty);
                    let d = self.place(body, destination);
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body.local_decls, tcx);
                            self.tyj(t)
                        })
                        .collect();
                    let items: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body.local_decls, tcx);
                            self.item_of(env, t).map_or("null".to_string(), |i| q(&i))
                        })
                        .collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{},{},{}]",
                        f,
                        list(a),
                        d,
                        target.map_or("null".to_string(), |t| t.as_u32().to_string()),
                        dt,
                        sp,
                        list(at),
                        list(items)
                    )
                }
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    let c = self.op(body, env, cond);
                    format!("[\"assert\",{},{},{},{}]", c, expected, target.as_u32(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".to_string()
                }
                t => format!("[\"other\",{}]", q(&format!("{:?}", t))),
            };
            blocks.push(format!("[{},{},{}]", bb.is_cleanup, list(sts), ts));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{}", body.arg_count, list(locals), list(blocks))
    }
}

fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("SNAPFACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| format!("{:?}", t) == "Executable");
        let mut cx = Cx { tcx, is_bin, adts: BTreeMap::new() };
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let k = match kind {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => continue,
                _ => continue,
            };
            let mut o = format!(
                "{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"span\":{}",
                q(&cx.id(d)),
                q(&cx.path(d)),
                k,
                q(&cx.span(tcx.def_span(d)))
            );
            if k == "static" {
                // can its value change while the program runs?
                let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mutable = tcx.is_mutable_static(d)
                    || !ty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                let _ = write!(o, ",\"mut\":{}", mutable);
                if let (Ok(a), false) = (tcx.eval_static_initializer(d), mutable) {
                    let a = a.inner();
                    if a.provenance().ptrs().is_empty() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        let _ = write!(o, ",\"bytes\":{}", q(&hexs(b)));
                    } else if a.provenance().ptrs().len() == 1 && a.len() <= 16 {
                        // a reference to bytes
                        if let Some((_, pr)) = a.provenance().ptrs().iter().next() {
                            if let Some(GlobalAlloc::Memory(m2)) = tcx.try_get_global_alloc(pr.alloc_id()) {
                                let a2 = m2.inner();
                                if a2.provenance().ptrs().is_empty() {
                                    let b = a2.inspect_with_uninit_and_ptr_outside_interpreter(0..a2.len());
                                    let _ = write!(o, ",\"bytes\":{}", q(&hexs(b)));
                                }
                            }
                        }
                    }
                }
                o.push('}');
                fns.push(o);
                continue;
            }
            let _ = write!(o, ",\"derived\":{}", {
                let p = tcx.opt_parent(d);
                p.map_or(false, |p| {
                    matches!(tcx.def_kind(p), DefKind::Impl { .. })
                        && (tcx.is_automatically_derived(p)
                            || tcx.def_span(p).from_expansion()
                            || tcx.def_span(d).from_expansion())
                })
            });
            let _ = write!(o, ",\"vis\":{}", tcx.visibility(if k == "closure" { tcx.typeck_root_def_id(d) } else { d }).is_public());
            {
                let mut u = Unsafes(0);
                if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                    rustc_hir::intravisit::Visitor::visit_body(&mut u, b);
                }
                let _ = write!(o, ",\"unsafe\":{}", u.0);
            }
            if let Some(p) = tcx.opt_parent(d) {
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"self\":{}", cx.tyj(st));
                    if let Some(t) = tcx.impl_opt_trait_ref(p) {
                        let t = t.instantiate_identity().skip_norm_wip();
                        let targs: Vec<_> = t.args.types().collect();
                        let targs: Vec<String> = targs.into_iter().map(|x| cx.ty(x)).collect();
                        let _ = write!(
                            o,
                            ",\"trait\":{},\"targs\":{},\"method\":{}",
                            q(&cx.id(t.def_id)),
                            list(targs.iter().map(|x| q(x))),
                            q(tcx.item_name(d).as_str())
                        );
                    }
                } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                    let _ = write!(
                        o,
                        ",\"intrait\":{},\"method\":{}",
                        q(&cx.id(p)),
                        q(tcx.item_name(d).as_str())
                    );
                }
            }
            {
                let mut gs: Vec<(u32, String)> = vec![];
                let mut g = Some(tcx.generics_of(d));
                while let Some(x) = g {
                    for p in &x.own_params {
                        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                            gs.push((p.index, p.name.to_string()));
                        }
                    }
                    g = x.parent.map(|p| tcx.generics_of(p));
                }
                gs.sort();
                let _ = write!(o, ",\"generics\":{}", list(gs.iter().map(|x| q(&x.1))));
            }
            if k == "closure" {
                let _ = write!(o, ",\"root\":{}", q(&cx.id(tcx.typeck_root_def_id(d))));
            }
            let body = tcx.optimized_mir(d);
            let _ = write!(o, ",{}", cx.body(d, body));
            let pr = tcx.promoted_mir(d);
            let prs: Vec<String> = pr.iter().map(|b| format!("{{{}}}", cx.body(d, b))).collect();
            let _ = write!(o, ",\"promoted\":{}}}", list(prs));
            fns.push(o);
        }
        // ADTs
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let k = cx.id(d);
                cx.adts.insert(k, d);
            }
        }
        let mut adts = vec![];
        for (k, d) in cx.adts.clone() {
            let a = tcx.adt_def(d);
            let mut vs = vec![];
            for (vi, v) in a.variants().iter_enumerated() {
                let dv = if a.is_enum() {
                    a.discriminant_for_variant(tcx, vi).val.to_string()
                } else {
                    "0".to_string()
                };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = with_no_trimmed_paths!(t.to_string());
                    fs.push(format!("[{},{}]", q(f.name.as_str()), q(&t)));
                }
                vs.push(format!("[{},{},{}]", q(v.name.as_str()), list(fs), dv));
            }
            adts.push(format!(
                "{}:{{\"enum\":{},\"path\":{},\"v\":{}}}",
                q(&k),
                a.is_enum(),
                q(&cx.path(d)),
                list(vs)
            ));
        }
        let name = if is_bin { "bin" } else { "lib" };
        let js = format!(
            "{{\"crate\":{},\"target\":\"{}\",\"fns\":[\n{}\n],\"adts\":{{\n{}\n}}}}\n",
            q(tcx.crate_name(LOCAL_CRATE).as_str()),
            name,
            fns.join(",\n"),
            adts.join(",\n")
        );
        std::fs::write(format!("{}/{}.json", out, name), js).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: driver <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    if name == "snapcd" {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
