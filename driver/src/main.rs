//! A rustc driver that writes the type-checked program (MIR with resolved callees, item tables,
//! impls, constants, type reachability) of the crate being compiled as JSON facts.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
//! MIRFACTS_CRATE = crate name to dump, MIRFACTS_OUT = output file.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone)]
enum J {
    S(String),
    N(i128),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    Null,
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => write!(o, "{n}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ext: std::cell::RefCell<Vec<DefId>>,
    seen: std::cell::RefCell<Vec<DefId>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique id of a definition
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![s(f), J::N(lo.line as i128)])
    }
    fn tyinfo(&self, t: Ty<'tcx>) -> J {
        let mut v = vec![("s", s(self.ty(t)))];
        let p = t.peel_refs();
        let mut refs = 0;
        let mut q = t;
        let mut m = false;
        while let ty::Ref(_, inner, mu) = q.kind() {
            refs += 1;
            m |= mu.is_mut();
            q = *inner;
        }
        v.push(("refs", J::N(refs)));
        v.push(("mut", J::B(m)));
        match p.kind() {
            ty::Adt(d, args) => {
                v.push(("adt", s(self.path(d.did()))));
                v.push((
                    "targs",
                    J::A(args.types().map(|t| s(self.ty(t))).collect()),
                ));
            }
            ty::Closure(d, _) => v.push(("closure", s(self.id(*d)))),
            _ => {}
        }
        J::O(v)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut out = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            out.push(match elem {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if d.is_struct() || d.is_enum() {
                                d.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        ty::Closure(..) => format!("up{}", f.as_usize()),
                        _ => f.as_usize().to_string(),
                    };
                    J::A(vec![s("f"), J::N(f.as_usize() as i128), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("ss"),
                    J::N(from as i128),
                    J::N(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(name, vi) => J::A(vec![
                    s("d"),
                    J::N(vi.as_usize() as i128),
                    s(name.map(|n| n.to_string()).unwrap_or_default()),
                ]),
                _ => s("?"),
            });
        }
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(out)])
    }
    /// bodies of a few core modules are dumped too (Option/Result combinators and the like)
    fn note_ext(&self, d: DefId) {
        if d.is_local() {
            return;
        }
        let id = self.id(d);
        const MODS: [&str; 9] = [
            "core::option::",
            "core::result::",
            "core::cmp::",
            "core::convert::",
            "core::bool::",
            "core::ops::try_trait::",
            "core::ops::range::",
            "core::ops::control_flow::",
            "core::ops::function::",
        ];
        if MODS.iter().any(|m| id.starts_with(m))
            && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && self.tcx.is_mir_available(d)
            && !self.seen.borrow().contains(&d)
        {
            self.seen.borrow_mut().push(d);
            self.ext.borrow_mut().push(d);
        }
    }
    fn callee(&self, env: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![
            ("path", s(self.path(d))),
            ("id", s(self.id(d))),
            ("local", J::B(d.is_local())),
            (
                "targs",
                J::A(args.types().map(|t| self.tyinfo(t)).collect()),
            ),
        ];
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(tr))));
        }
        let erased = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, erased) {
            let rd = inst.def_id();
            self.note_ext(rd);
            v.push(("rpath", s(self.path(rd))));
            v.push(("rid", s(self.id(rd))));
            v.push(("rlocal", J::B(rd.is_local())));
            v.push((
                "rkind",
                s(match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                }),
            ));
        }
        J::O(v)
    }
    fn constant(&self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut v = vec![("ty", s(self.ty(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                v.push(("fn", self.callee(env, *d, args)))
            }
            ty::Closure(d, _) => v.push(("closure", s(self.id(*d)))),
            _ => {
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(si) = c.const_.try_eval_scalar_int(self.tcx, env) {
                        let size = si.size();
                        let n = if t.is_signed() {
                            si.to_int(size)
                        } else {
                            si.to_uint(size) as i128
                        };
                        v.push(("v", J::N(n)));
                    }
                }
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        v.push(("promoted", J::B(true)));
                        if let Some(r) = self.promoted(env, u.def, p) {
                            v.push(("prom", r));
                        }
                    }
                    v.push(("item", s(self.path(u.def))));
                }
                v.push(("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
            }
        }
        J::O(v)
    }
    /// the steps that build a promoted constant, when they are plain
    fn promoted(&self, env: ty::TypingEnv<'tcx>, def: DefId, p: Promoted) -> Option<J> {
        let body = &self.tcx.promoted_mir(def)[p];
        if body.basic_blocks.len() != 1 {
            return None;
        }
        // every local is assigned whole and once, from constants and the locals before it
        let mut known: Vec<Local> = vec![];
        let mut out = vec![];
        for st in body.basic_blocks[START_BLOCK].statements.iter() {
            if let StatementKind::Assign(b) = &st.kind {
                let l = b.0.as_local()?;
                if known.contains(&l) {
                    return None;
                }
                let fine = |o: &Operand<'tcx>| match o {
                    Operand::Constant(_) => true,
                    Operand::Copy(p) | Operand::Move(p) => {
                        p.as_local().is_some_and(|l| known.contains(&l))
                    }
                    _ => false,
                };
                // `&*x` is `x`
                let again = match &b.1 {
                    Rvalue::Ref(_, BorrowKind::Shared, p) => match p.projection.as_slice() {
                        [ProjectionElem::Deref] => Some(p.local).filter(|l| known.contains(l)),
                        _ => None,
                    },
                    _ => None,
                };
                match &b.1 {
                    _ if again.is_some() => {}
                    Rvalue::Use(o, ..) if fine(o) => {}
                    Rvalue::Aggregate(_, os) if os.iter().all(fine) => {}
                    Rvalue::Ref(_, BorrowKind::Shared, p)
                        if p.as_local().is_some_and(|l| known.contains(&l)) => {}
                    _ => return None,
                }
                known.push(l);
                if let Some(from) = again {
                    let from = J::A(vec![J::N(from.as_usize() as i128), J::A(vec![])]);
                    let copy = J::A(vec![s("use"), J::A(vec![s("c"), from])]);
                    out.push(J::A(vec![J::N(l.as_usize() as i128), copy]));
                    continue;
                }
                out.push(J::A(vec![J::N(l.as_usize() as i128), self.rvalue(body, env, &b.1)]));
            }
        }
        if known.last() != Some(&RETURN_PLACE) {
            return None;
        }
        Some(J::A(out))
    }
    fn operand(&self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(env, c)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(body, env, o);
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), op(o), s(format!("{n}"))]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(body, p)]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(body, p)])
            }
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                op(o),
                s(self.ty(*t)),
                s(self.ty(o.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                op(&ops.0),
                op(&ops.1),
                s(self.ty(ops.0.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![
                s("un"),
                s(format!("{u:?}")),
                op(o),
                s(self.ty(o.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        for (vi, d) in ad.discriminants(self.tcx) {
                            vs.push(J::A(vec![
                                J::N(vi.as_usize() as i128),
                                s(ad.variant(vi).name.to_string()),
                                J::N(d.val as i128),
                            ]));
                        }
                    }
                }
                J::A(vec![
                    s("discr"),
                    self.place(body, p),
                    self.tyinfo(t),
                    J::A(vs),
                ])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                let mut names = vec![];
                match &**k {
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*vi);
                        v.push(("adt", s(self.path(*d))));
                        v.push(("variant", s(var.name.to_string())));
                        v.push(("vi", J::N(vi.as_usize() as i128)));
                        v.push(("enum", J::B(ad.is_enum())));
                        for (i, f) in var.fields.iter().enumerate() {
                            if active.is_none() || active.unwrap().as_usize() == i {
                                names.push(s(f.name.to_string()));
                            }
                        }
                    }
                    AggregateKind::Tuple => v.push(("tuple", J::B(true))),
                    AggregateKind::Array(t) => v.push(("array", s(self.ty(*t)))),
                    AggregateKind::Closure(d, _) => v.push(("closure", s(self.id(*d)))),
                    _ => v.push(("other", J::B(true))),
                }
                v.push(("names", J::A(names)));
                J::A(vec![s("agg"), J::O(v), J::A(ops.iter().map(op).collect())])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])])
            }
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn bb(&self, b: BasicBlock) -> J {
        J::N(b.as_usize() as i128)
    }
    fn body(&self, d: DefId, body: &Body<'tcx>) -> J {
        let env = ty::TypingEnv::post_analysis(self.tcx, d);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    upnames.push(J::A(vec![s(v.name.to_string()), self.place(body, &p)]));
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, dcl)| {
                J::O(vec![
                    ("ty", self.tyinfo(dcl.ty)),
                    (
                        "name",
                        names[l.as_usize()].clone().map(J::S).unwrap_or(J::Null),
                    ),
                ])
            })
            .collect();
        let blocks = body
            .basic_blocks
            .iter()
            .map(|bbd| {
                let mut st = vec![];
                for x in &bbd.statements {
                    match &x.kind {
                        StatementKind::Assign(b) => st.push(J::A(vec![
                            s("="),
                            self.place(body, &b.0),
                            self.rvalue(body, env, &b.1),
                            self.span(x.source_info.span),
                        ])),
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            st.push(J::A(vec![
                                s("setd"),
                                self.place(body, place),
                                J::N(variant_index.as_usize() as i128),
                                self.span(x.source_info.span),
                            ]))
                        }
                        _ => {}
                    }
                }
                let t = bbd.terminator();
                let span = self.span(t.source_info.span);
                let term = match &t.kind {
                    TerminatorKind::Goto { target, .. } => {
                        J::O(vec![("k", s("goto")), ("t", self.bb(*target))])
                    }
                    TerminatorKind::SwitchInt { discr, targets } => J::O(vec![
                        ("k", s("switch")),
                        ("d", self.operand(body, env, discr)),
                        ("dty", s(self.ty(discr.ty(&body.local_decls, self.tcx)))),
                        (
                            "ts",
                            J::A(
                                targets
                                    .iter()
                                    .map(|(v, b)| J::A(vec![J::N(v as i128), self.bb(b)]))
                                    .collect(),
                            ),
                        ),
                        ("o", self.bb(targets.otherwise())),
                        ("span", span),
                    ]),
                    TerminatorKind::Return => J::O(vec![("k", s("return")), ("span", span)]),
                    TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                    TerminatorKind::Drop { place, target, .. } => J::O(vec![
                        ("k", s("drop")),
                        ("p", self.place(body, place)),
                        (
                            "ty",
                            self.tyinfo(place.ty(&body.local_decls, self.tcx).ty),
                        ),
                        ("t", self.bb(*target)),
                        ("span", span),
                    ]),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        J::O(vec![
                            ("k", s("call")),
                            ("f", self.operand(body, env, func)),
                            (
                                "args",
                                J::A(args.iter().map(|a| self.operand(body, env, &a.node)).collect()),
                            ),
                            (
                                "atys",
                                J::A(
                                    args.iter()
                                        .map(|a| self.tyinfo(a.node.ty(&body.local_decls, self.tcx)))
                                        .collect(),
                                ),
                            ),
                            ("dst", self.place(body, destination)),
                            (
                                "dty",
                                self.tyinfo(destination.ty(&body.local_decls, self.tcx).ty),
                            ),
                            ("t", target.map(|t| self.bb(t)).unwrap_or(J::Null)),
                            ("span", span),
                        ])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => J::O(vec![
                        ("k", s("assert")),
                        ("c", self.operand(body, env, cond)),
                        ("e", J::B(*expected)),
                        (
                            "m",
                            s(match &**msg {
                                AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                                AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                                _ => "other".to_string(),
                            }),
                        ),
                        ("t", self.bb(*target)),
                        ("span", span),
                    ]),
                    TerminatorKind::FalseEdge { real_target, .. }
                    | TerminatorKind::FalseUnwind { real_target, .. } => {
                        J::O(vec![("k", s("goto")), ("t", self.bb(*real_target))])
                    }
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                        J::O(vec![("k", s("resume"))])
                    }
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::O(vec![
                    ("s", J::A(st)),
                    ("t", term),
                    ("cleanup", J::B(bbd.is_cleanup)),
                ])
            })
            .collect();
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("id", s(self.id(d))),
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
            ("kind", s(format!("{kind:?}"))),
            ("span", self.span(body.span)),
            ("argc", J::N(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upnames", J::A(upnames)),
            ("blocks", J::A(blocks)),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push((
                "vis",
                s(if tcx.visibility(d).is_public() { "pub" } else { "priv" }),
            ));
            if let Some(l) = d.as_local() {
                o.push((
                    "reach",
                    J::B(tcx.effective_visibilities(()).is_reachable(l)),
                ));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("impl_self", self.tyinfo(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", s(self.path(tr.instantiate_identity().skip_norm_wip().def_id))));
                    o.push(("impl_trait_full", s(with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip())))));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait_item", s(self.path(tr))));
            }
        }
        if kind == DefKind::Closure {
            o.push(("parent", s(self.id(tcx.typeck_root_def_id(d)))));
        }
        J::O(o)
    }
    /// every ADT / raw pointer / dyn reachable through the fields of `t` (type parameters stop)
    fn reach_types(&self, t: Ty<'tcx>, seen: &mut BTreeSet<String>, depth: usize) {
        if depth > 24 {
            seen.insert("!depth".into());
            return;
        }
        match t.kind() {
            ty::Adt(d, args) => {
                let key = self.ty(t);
                if !seen.insert(format!("adt {} | {}", self.path(d.did()), key)) {
                    return;
                }
                for f in d.all_fields() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    self.reach_types(ft, seen, depth + 1);
                }
            }
            ty::Ref(_, x, m) => {
                seen.insert(format!("ref {}", if m.is_mut() { "mut" } else { "shared" }));
                self.reach_types(*x, seen, depth + 1)
            }
            ty::RawPtr(x, _) => {
                seen.insert(format!("rawptr {}", self.ty(t)));
                self.reach_types(*x, seen, depth + 1)
            }
            ty::Slice(x) | ty::Array(x, _) => self.reach_types(*x, seen, depth + 1),
            ty::Tuple(ts) => {
                for x in ts.iter() {
                    self.reach_types(x, seen, depth + 1)
                }
            }
            ty::Dynamic(..) => {
                seen.insert(format!("dyn {}", self.ty(t)));
            }
            ty::FnPtr(..) => {
                seen.insert(format!("fnptr {}", self.ty(t)));
            }
            ty::Param(_) | ty::Alias(..) => {
                seen.insert(format!("param {}", self.ty(t)));
            }
            _ => {}
        }
    }
    fn dump(&self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut statics = vec![];
        let mut consts = vec![];
        for &l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_constructor(d) {
                        bodies.push(self.body(d, tcx.optimized_mir(d)));
                    }
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("span", self.span(tcx.def_span(d))),
                        ("ty", s(self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                    ]));
                }
                _ => {}
            }
        }
        let mut ext_bodies = vec![];
        loop {
            let Some(d) = self.ext.borrow_mut().pop() else { break };
            ext_bodies.push(self.body(d, tcx.optimized_mir(d)));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut aliases = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut seen = BTreeSet::new();
                    self.reach_types(t, &mut seen, 0);
                    let variants = ad
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.to_string())),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::O(vec![
                                                    ("name", s(f.name.to_string())),
                                                    (
                                                        "ty",
                                                        s(self.ty(
                                                            tcx.type_of(f.did)
                                                                .instantiate_identity()
                                                                .skip_norm_wip(),
                                                        )),
                                                    ),
                                                    ("pub", J::B(f.vis.is_public())),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("span", self.span(tcx.def_span(d))),
                        ("enum", J::B(ad.is_enum())),
                        ("variants", J::A(variants)),
                        ("reach", J::A(seen.into_iter().map(J::S).collect())),
                        (
                            "exported",
                            J::B(tcx.effective_visibilities(()).is_reachable(l)),
                        ),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![
                        ("id", s(self.id(d))),
                        ("span", self.span(tcx.def_span(d))),
                        (
                            "self",
                            self.tyinfo(tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                        ),
                    ];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("trait_full", s(with_no_trimmed_paths!(format!("{tr}")))));
                    }
                    o.push((
                        "items",
                        J::A(
                            tcx.associated_item_def_ids(d)
                                .iter()
                                .map(|x| s(self.id(*x)))
                                .collect(),
                        ),
                    ));
                    impls.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let mut o = vec![("path", s(self.path(d))), ("id", s(self.id(d)))];
                    if tcx.generics_of(d).is_empty() || tcx.def_kind(d) != DefKind::TyAlias {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        o.push(("ty", s(self.ty(t))));
                        if (t.is_integral() || t.is_bool())
                            && tcx.trait_of_assoc(d).is_none()
                        {
                            if let Ok(v) = tcx.const_eval_poly(d) {
                                if let Some(si) = v.try_to_scalar_int() {
                                    let n = if t.is_signed() {
                                        si.to_int(si.size())
                                    } else {
                                        si.to_uint(si.size()) as i128
                                    };
                                    o.push(("v", J::N(n)));
                                }
                            }
                        }
                    }
                    consts.push(J::O(o));
                }
                DefKind::TyAlias => {
                    aliases.push(J::O(vec![
                        ("path", s(self.path(d))),
                        (
                            "ty",
                            s(self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                        ),
                    ]));
                }
                _ => {}
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
            ("bodies", J::A(bodies)),
            ("ext_bodies", J::A(ext_bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("statics", J::A(statics)),
            ("aliases", J::A(aliases)),
        ])
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let j = Cx { tcx, ext: Default::default(), seen: Default::default() }.dump();
            let mut o = String::new();
            j.w(&mut o);
            std::fs::write(out, o).unwrap();
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("MIRFACTS_CRATE").ok();
    let out = if name.is_some() && name == want && !is_test {
        std::env::var("MIRFACTS_OUT").ok()
    } else {
        None
    };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
