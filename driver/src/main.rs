// MIR dumper: a rustc wrapper that writes the resolved MIR ("mir_built": before any
// optimisation, before drop elaboration) of every body of the crates named in
// MIRDUMP_CRATES to $MIRDUMP_OUT/<crate>.json, and then lets compilation go on.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};

mod json;
use json::J;

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_queue: VecDeque<DefId>,
    adt_out: Vec<(String, J)>,
    callees: Vec<DefId>,
    callee_seen: HashSet<DefId>,
    fn_out: HashMap<DefId, ()>,
    fn_tab: Vec<(String, J)>,
}

const EXT_ADTS: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::range::", "core::cmp::", "core::convert::",
    "core::iter::",
];
const EXT_BODIES: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::mem::", "core::cmp::", "core::convert::",
    "core::bool::", "core::range::", "core::clone::", "core::default::",
    "core::iter::",
];

impl<'tcx> Dumper<'tcx> {
    fn key(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate).to_string();
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() && !p.starts_with('<') {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn note_fn(&mut self, d: DefId) {
        if self.fn_out.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let mut o = vec![("pretty", s(self.pretty(d)))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.key(tr))));
            o.push(("name", s(tcx.item_name(d).to_string())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            o.push(("name", s(tcx.item_name(d).to_string())));
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let id = self.ty(st);
            o.push(("impl_self", n(id)));
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                let t = t.instantiate_identity().skip_normalization();
                o.push(("impl_trait", s(self.key(t.def_id))));
                // the trait's own default body, as a model of overriding std implementations
                if !d.is_local() {
                    let nm = tcx.item_name(d);
                    for it in tcx.associated_items(t.def_id).filter_by_name_unhygienic(nm) {
                        if it.is_fn() {
                            self.note_fn(it.def_id);
                        }
                    }
                }
            }
        }
        let k = self.key(d);
        self.fn_tab.push((k, J::obj(o)));
        if self.callee_seen.insert(d) {
            self.callees.push(d);
        }
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => {
                    let i = self.ty(t);
                    v.push(n(i))
                }
                ty::GenericArgKind::Const(c) => v.push(s(format!("{:?}", c))),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, id);
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Bool => J::obj(vec![("k", s("bool"))]),
            ty::Char => J::obj(vec![("k", s("char"))]),
            ty::Int(i) => J::obj(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Uint(i) => J::obj(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Float(_) => J::obj(vec![("k", s("float"))]),
            ty::Str => J::obj(vec![("k", s("str"))]),
            ty::Never => J::obj(vec![("k", s("never"))]),
            ty::Adt(a, args) => {
                let d = a.did();
                if self.adts.insert(d, ()).is_none() {
                    self.adt_queue.push_back(d);
                }
                let ar = self.args(args);
                J::obj(vec![("k", s("adt")), ("d", s(self.key(d))), ("a", ar)])
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                J::obj(vec![("k", s("ref")), ("t", n(i)), ("m", J::B(m.is_mut()))])
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                J::obj(vec![("k", s("ptr")), ("t", n(i)), ("m", J::B(m.is_mut()))])
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                J::obj(vec![("k", s("slice")), ("t", n(i))])
            }
            ty::Array(t, c) => {
                let i = self.ty(*t);
                let l = c.try_to_target_usize(tcx);
                J::obj(vec![
                    ("k", s("array")),
                    ("t", n(i)),
                    ("l", l.map(|x| n(x as usize)).unwrap_or(J::Null)),
                ])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                J::obj(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Closure(d, args) => {
                let up: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| n(self.ty(t)))
                    .collect();
                let kind = format!("{:?}", args.as_closure().kind());
                let par: Vec<J> = args
                    .as_closure()
                    .parent_args()
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| n(self.ty(t)))
                    .collect();
                J::obj(vec![
                    ("k", s("closure")),
                    ("d", s(self.key(*d))),
                    ("up", J::A(up)),
                    ("kind", s(kind)),
                    ("a", J::A(par)),
                ])
            }
            ty::FnDef(d, args) => {
                self.note_fn(*d);
                let ar = self.args(args.skip_binder());
                J::obj(vec![("k", s("fndef")), ("d", s(self.key(*d))), ("a", ar)])
            }
            ty::FnPtr(..) => J::obj(vec![("k", s("fnptr"))]),
            ty::Dynamic(preds, _) => {
                let tr = preds.principal_def_id().map(|d| self.key(d));
                J::obj(vec![("k", s("dyn")), ("d", tr.map(s).unwrap_or(J::Null))])
            }
            ty::Param(p) => J::obj(vec![
                ("k", s("param")),
                ("i", n(p.index as usize)),
                ("n", s(p.name.to_string())),
            ]),
            _ => J::obj(vec![("k", s("other")), ("s", s(format!("{}", t)))]),
        };
        self.types[id] = j;
        id
    }

    fn drain_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop_front() {
            let tcx = self.tcx;
            let a = tcx.adt_def(d);
            let key = self.key(d);
            let full = d.is_local() || EXT_ADTS.iter().any(|p| key.starts_with(p));
            let mut vs = vec![];
            if full && !a.is_union() {
                for (vi, v) in a.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                        let i = self.ty(t);
                        fs.push(J::obj(vec![
                            ("n", s(f.name.to_string())),
                            ("t", n(i)),
                            ("pub", J::B(tcx.visibility(f.did).is_public())),
                        ]));
                    }
                    let discr = if a.is_enum() {
                        J::N(a.discriminant_for_variant(tcx, vi).val as i128)
                    } else {
                        J::N(0)
                    };
                    vs.push(J::obj(vec![
                        ("n", s(v.name.to_string())),
                        ("d", discr),
                        ("f", J::A(fs)),
                    ]));
                }
            }
            self.adt_out.push((
                key,
                J::obj(vec![
                    ("enum", J::B(a.is_enum())),
                    ("box", J::B(a.is_box())),
                    (
                        "gen",
                        J::A(
                            tcx.generics_of(d)
                                .own_params
                                .iter()
                                .filter(|g| matches!(g.kind, ty::GenericParamDefKind::Type { .. }))
                                .map(|g| n(g.index as usize))
                                .collect(),
                        ),
                    ),
                    ("full", J::B(full)),
                    ("pretty", s(self.pretty(d))),
                    ("vis", J::B(!d.is_local() || tcx.visibility(d).is_public())),
                    ("v", J::A(vs)),
                ]),
            ));
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let i = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), n(i)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
                _ => J::A(vec![s("?")]),
            };
            v.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        let _ = pty;
        J::A(v)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o = vec![("t", n(tid))];
        if let ty::FnDef(..) = t.kind() {
            o.push(("fn", J::B(true)));
            return J::obj(o);
        }
        let mut cv: Option<ConstValue> = None;
        match c.const_ {
            Const::Val(v, _) => cv = Some(v),
            Const::Unevaluated(u, _) => {
                o.push(("def", s(self.key(u.def))));
                let ok = !rustc_middle::ty::TypeVisitableExt::has_param(&u.args);
                if ok {
                    if let Ok(v) = tcx.const_eval_resolve(env, u, c.span) {
                        cv = Some(v);
                    }
                }
            }
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    cv = Some(tcx.valtree_to_const_val(v));
                } else {
                    o.push(("ct", s(format!("{:?}", ct))));
                }
            }
        }
        if let Some(v) = cv {
            match v {
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let size = i.size();
                    let bits = i.to_bits(size);
                    let val: i128 = if let ty::Int(_) = t.kind() {
                        size.sign_extend(bits)
                    } else {
                        bits as i128
                    };
                    o.push(("int", J::N(val)));
                }
                ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                    let aid = p.provenance.alloc_id();
                    match tcx.global_alloc(aid) {
                        interpret::GlobalAlloc::Static(d) => {
                            o.push(("static", s(self.key(d))));
                        }
                        interpret::GlobalAlloc::Memory(a) => {
                            o.push(("ptr", J::B(true)));
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() && a.len() <= 512 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                o.push(("mem", s(b.iter().map(|x| format!("{:02x}", x)).collect::<String>())));
                            }
                        }
                        _ => o.push(("ptr", J::B(true))),
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        match std::str::from_utf8(b) {
                            Ok(x) => o.push(("str", s(x))),
                            Err(_) => o.push(("bytes", n(b.len()))),
                        }
                    }
                }
                ConstValue::Indirect { .. } => o.push(("indirect", J::B(true))),
            }
        }
        J::obj(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, env)]),
            _ => J::A(vec![s("?op")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, body, env)]),
            Rvalue::Repeat(o, c) => J::A(vec![
                s("repeat"),
                self.operand(o, body, env),
                c.try_to_target_usize(tcx).map(|x| n(x as usize)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    _ => "mut",
                }),
                self.place(p, body),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(o, body, env);
                let from = o.ty(&body.local_decls, tcx);
                let f = self.ty(from);
                let i = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), oj, n(f), n(i)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(&ops.0, body, env);
                let c = self.operand(&ops.1, body, env);
                let t = ops.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c, n(t)])
            }
            Rvalue::UnaryOp(u, o) => {
                let oj = self.operand(o, body, env);
                J::A(vec![s("un"), s(format!("{:?}", u)), oj])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let i = self.ty(t);
                J::A(vec![s("discr"), self.place(p, body), n(i)])
            }
            Rvalue::Aggregate(k, ops) => {
                let opj: Vec<J> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let i = self.ty(*t);
                        J::A(vec![s("array"), n(i)])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_normalization();
                        let i = self.ty(t);
                        J::A(vec![s("adt"), n(v.as_usize()), n(i)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        let i = self.ty(t);
                        J::A(vec![s("closure"), s(self.key(*d)), n(i)])
                    }
                    _ => J::A(vec![s("?agg")]),
                };
                J::A(vec![s("agg"), kj, J::A(opj)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body)])])
            }
            _ => J::A(vec![s("?rv"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, d: DefId, body: &Body<'tcx>, opt: bool) -> J {
        let tcx = self.tcx;
        let env = if opt {
            TypingEnv::post_analysis(tcx, d)
        } else {
            TypingEnv::non_body_analysis(tcx, d)
        };
        let locals: Vec<J> = body
            .local_decls
            .iter()
            .map(|l| n(self.ty(l.ty)))
            .collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in bb.statements.iter() {
                let j = match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        J::A(vec![s("="), p, r, self.span(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        J::A(vec![s("setd"), self.place(place, body), n(variant_index.as_usize())])
                    }
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), n(l.as_usize())]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets, .. } => {
                    let o = self.operand(discr, body, env);
                    let t = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(t);
                    let mut v = vec![];
                    for (val, bbk) in targets.iter() {
                        v.push(J::A(vec![J::N(val as i128), n(bbk.as_usize())]));
                    }
                    J::A(vec![
                        s("switch"),
                        o,
                        J::A(v),
                        n(targets.otherwise().as_usize()),
                        n(ti),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(place, body), n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fo = self.operand(func, body, env);
                    let ft = func.ty(&body.local_decls, tcx);
                    let mut res = J::Null;
                    if let ty::FnDef(fd, fargs) = ft.kind() {
                        let fargs = fargs.skip_binder();
                        self.note_fn(*fd);
                        let e = tcx.erase_and_anonymize_regions(fargs);
                        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, *fd, e) {
                            if let ty::InstanceKind::Item(rd) = inst.def {
                                if rd != *fd {
                                    self.note_fn(rd);
                                    let a = self.args(inst.args);
                                    res = J::A(vec![s(self.key(rd)), a]);
                                }
                            } else {
                                res = J::A(vec![s(format!("#{:?}", std::mem::discriminant(&inst.def)))]);
                                let _ = &res;
                                res = J::Null;
                            }
                        }
                    }
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    J::A(vec![
                        s("call"),
                        fo,
                        J::A(a),
                        self.place(destination, body),
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                        res,
                        sp.clone(),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, body, env);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div",
                        _ => "other",
                    };
                    J::A(vec![
                        s("assert"),
                        o,
                        J::B(*expected),
                        s(kind),
                        n(target.as_usize()),
                        sp.clone(),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                k => J::A(vec![s("?term"), s(format!("{:?}", k))]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        let gen = tcx.generics_of(d);
        let mut nparams = vec![];
        {
            let mut g = gen;
            loop {
                for p in g.own_params.iter() {
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        nparams.push(J::A(vec![n(p.index as usize), s(p.name.to_string())]));
                    }
                }
                match g.parent {
                    Some(p) => g = tcx.generics_of(p),
                    None => break,
                }
            }
        }
        let mut o = vec![
            ("key", s(self.key(d))),
            ("pretty", s(self.pretty(d))),
            ("argc", n(body.arg_count)),
            ("opt", J::B(opt)),
            ("span", self.span(body.span)),
            ("gen", J::A(nparams)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(sp) = body.spread_arg {
            o.push(("spread", n(sp.as_usize())));
        }
        J::obj(o)
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies: Vec<(DefId, Body<'tcx>)> = vec![];
        for ld in tcx.hir_body_owners() {
            let kind = tcx.def_kind(ld);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let b = tcx.mir_built(ld).borrow().clone();
            bodies.push((ld.to_def_id(), b));
        }
        let mut du = Dumper {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: HashMap::new(),
            adt_queue: VecDeque::new(),
            adt_out: vec![],
            callees: vec![],
            callee_seen: HashSet::new(),
            fn_out: HashMap::new(),
            fn_tab: vec![],
        };
        // all local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(id).instantiate_identity().skip_normalization();
                    du.ty(t);
                }
                _ => {}
            }
        }
        let mut out = vec![];
        for (d, b) in bodies.iter() {
            du.note_fn(*d);
            let j = du.body(*d, b, false);
            out.push(j);
        }
        // external bodies (option/result/... combinators) reachable from the local ones
        let mut i = 0;
        while i < du.callees.len() {
            let d = du.callees[i];
            i += 1;
            if d.is_local() {
                continue;
            }
            let k = du.key(d);
            if !EXT_BODIES.iter().any(|p| k.starts_with(p)) {
                continue;
            }
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            if tcx.is_mir_available(d) {
                let b = tcx.optimized_mir(d).clone();
                let j = du.body(d, &b, true);
                out.push(j);
            }
        }
        // impls and traits
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let sid = du.ty(st);
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| t.instantiate_identity().skip_normalization());
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() {
                            items.push((it.name().to_string(), s(du.key(it.def_id))));
                        }
                    }
                    let ta = match tr {
                        Some(t) => du.args(t.args),
                        None => J::Null,
                    };
                    impls.push(J::obj(vec![
                        ("key", s(du.key(d))),
                        ("trait", tr.map(|t| s(du.key(t.def_id))).unwrap_or(J::Null)),
                        ("targs", ta),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("self", n(sid)),
                        ("items", J::O(items)),
                    ]));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() {
                            items.push((
                                it.name().to_string(),
                                J::A(vec![
                                    s(du.key(it.def_id)),
                                    J::B(it.defaultness(tcx).has_value()),
                                ]),
                            ));
                        }
                    }
                    traits.push((du.key(d), J::O(items)));
                }
                _ => {}
            }
        }
        du.drain_adts();
        // publicly reachable functions
        let mut pubs = vec![];
        let ev = tcx.effective_visibilities(());
        for (d, _) in bodies.iter() {
            if let Some(l) = d.as_local() {
                if ev.is_reachable(l) {
                    pubs.push(s(du.key(*d)));
                }
            }
        }
        let top = J::obj(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("types", J::A(std::mem::take(&mut du.types))),
            ("adts", J::O(std::mem::take(&mut du.adt_out))),
            ("fns", J::O(std::mem::take(&mut du.fn_tab))),
            ("impls", J::A(impls)),
            ("traits", J::O(traits)),
            ("pub", J::A(pubs)),
            ("bodies", J::A(out)),
        ]);
        let mut text = String::new();
        top.write(&mut text);
        let path = format!("{}/{}.json", self.out, tcx.crate_name(LOCAL_CRATE));
        std::fs::write(&path, text).expect("cannot write MIR dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if !test && want.split(',').any(|c| c == name) {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
