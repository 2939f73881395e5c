//! Facts extractor: a rustc driver that dumps the type-checked program
//! (ADTs, impls, functions, MIR bodies with resolved callees) as JSON.
//! It is injected with RUSTC_WORKSPACE_WRAPPER and only acts on the target crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_infer;
extern crate rustc_session;
extern crate rustc_trait_selection;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ext_want: Vec<DefId>,
    ext_seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn id(&self, d: DefId) -> String {
        format!("{}:{}", d.krate.as_u32(), d.index.as_u32())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyi(t) as i128)
    }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let disp = with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")));
        let mut o = vec![("s", s(disp))];
        match t.kind() {
            ty::Adt(d, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.path(d.did()))));
                o.push(("a", self.gargs(args)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", self.ty(*inner)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", self.ty(*inner)));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                o.push(("t", self.ty(*inner)));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                o.push(("t", self.ty(*inner)));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(l as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(self.path(*d))));
                o.push(("id", s(self.id(*d))));
                o.push(("a", self.gargs(args.skip_binder())));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.path(*d))));
                o.push(("id", s(self.id(*d))));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", s("coroutine")));
                o.push(("d", s(self.path(*d))));
                o.push(("id", s(self.id(*d))));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("d", s(p.name.as_str())));
                o.push(("i", n(p.index as usize)));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("d", s(self.path(p))));
                }
            }
            ty::Alias(_, al) => {
                o.push(("k", s("alias")));
                if let ty::AliasTyKind::Projection { def_id } = al.kind {
                    let did: DefId = def_id.into();
                    o.push(("tr", s(self.path(self.tcx.parent(did)))));
                    o.push(("nm", s(self.tcx.item_name(did).as_str())));
                    o.push(("a", self.gargs(al.args)));
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[i] = J::O(o);
        i
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => {
                    {
                        let mut o = vec![("c", s(with_no_trimmed_paths!(format!("{c}"))))];
                        if let ty::ConstKind::Param(p) = c.kind() {
                            o.push(("pi", n(p.index as usize)));
                        }
                        v.push(J::O(o))
                    }
                }
                _ => v.push(J::Null),
            }
        }
        J::A(v)
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => J::A(vec![
                    s("dc"),
                    n(v.as_usize()),
                    nm.map(|x| s(x.as_str())).unwrap_or(J::Null),
                ]),
                _ => s("?"),
            });
        }
        J::A(v)
    }
    fn bytes_of(&self, id: mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let end = match len {
                    Some(l) => off + l,
                    None => m.size().bytes(),
                };
                if end > m.size().bytes() {
                    return None;
                }
                Some(
                    m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.ty();
        let mut o = vec![("k", s("const")), ("t", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            o.push(("fn", self.callee(*d, args.skip_binder(), env)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("def", s(self.path(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_usize())));
                o.push(("pid", s(self.id(u.def))));
            } else {
                o.push(("did", s(self.id(u.def))));
            }
        }
        if let Const::Ty(_, k) = c {
            o.push(("param", s(format!("{k}"))));
            if let ty::ConstKind::Param(p) = k.kind() {
                o.push(("pi", n(p.index as usize)));
            }
        }
        let val = match c {
            Const::Val(v, _) => Some(*v),
            Const::Unevaluated(u, _) if u.promoted.is_some() => None,
            _ => {
                let has_param = {
                    use rustc_middle::ty::TypeVisitableExt;
                    c.has_param()
                };
                if has_param {
                    None
                } else {
                    c.eval(self.tcx, env, rustc_span::DUMMY_SP).ok()
                }
            }
        };
        if let Some(v) = val {
            self.constval(v, t, &mut o);
        }
        J::O(o)
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let val: i128 = match t.kind() {
                    ty::Int(_) => i.to_int(sz),
                    _ => i.to_uint(sz) as i128,
                };
                o.push(("v", J::I(val)));
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => o.push(("static", s(self.path(d)))),
                    Some(GlobalAlloc::Function { instance }) => {
                        o.push(("fnptr", s(self.path(instance.def_id()))))
                    }
                    _ => {
                        // &[u8; N]
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(el, len) = inner.kind() {
                                if *el == self.tcx.types.u8 {
                                    let l = len.try_to_target_usize(self.tcx);
                                    if let Some(b) = self.bytes_of(id, off.bytes(), l) {
                                        o.push(("bytes", bytes_j(&b)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes_of(alloc_id, 0, Some(meta)) {
                    o.push(("bytes", bytes_j(&b)));
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Indirect { alloc_id, offset } => {
                // Raw bytes and outgoing pointers, for tables and newtype constants.
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let m = m.inner();
                    if m.size().bytes() <= 4096 {
                        let raw = m
                            .inspect_with_uninit_and_ptr_outside_interpreter(
                                offset.bytes() as usize..m.size().bytes() as usize,
                            )
                            .to_vec();
                        o.push(("raw", bytes_j(&raw)));
                        let mut ptrs = vec![];
                        for (off, prov) in m.provenance().ptrs().iter() {
                            if let Some(b) = self.bytes_of(prov.alloc_id(), 0, None) {
                                if b.len() <= 4096 {
                                    ptrs.push(J::A(vec![n(off.bytes() as usize), bytes_j(&b)]));
                                }
                            }
                        }
                        o.push(("ptrs", J::A(ptrs)));
                    }
                }
            }
        }
    }
    fn callee(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: ty::TypingEnv<'tcx>,
    ) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("p", s(self.path(d))),
            ("id", s(self.id(d))),
            ("a", self.gargs(args)),
            ("l", J::B(d.is_local())),
            ("nm", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.path(t))));
        }
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        let mut target = d;
        if is_fn {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                if rd != d || matches!(inst.def, ty::InstanceKind::Item(_)) {
                    o.push(("r", s(self.path(rd))));
                    o.push(("rid", s(self.id(rd))));
                    o.push(("ra", self.gargs(inst.args)));
                    o.push(("rl", J::B(rd.is_local())));
                    target = rd;
                }
            }
        }
        // The provided consumers of Iterator say what every override of them has to do.
        const CONSUMERS: &[&str] = &["for_each", "try_for_each", "fold", "try_fold", "any", "all", "find", "position", "find_map", "count", "last"];
        let dp = self.path(d);
        if let Some(x) = dp.strip_prefix("core::iter::traits::iterator::Iterator::") {
            let top = x.split("::").next().unwrap_or("");
            if CONSUMERS.contains(&top) && tcx.is_mir_available(d) && self.ext_seen.insert(d) {
                self.ext_want.push(d);
            }
        }
        if !target.is_local() && self.ext_interesting(target) && self.ext_seen.insert(target) {
            self.ext_want.push(target);
        }
        J::O(o)
    }
    fn ext_interesting(&self, d: DefId) -> bool {
        let p = self.path(d);
        const PRE: &[&str] = &[
            "core::num::<impl u8>",
            "core::char::",
            "core::option::Option",
            "<core::option::Option",
            "core::option::<impl",
            "core::result::Result",
            "<core::result::Result",
            "core::ops::control_flow",
            "<core::ops::control_flow",
            "core::bool::",
            "core::convert::",
            "<T as core::convert::",
            "<core::task::poll",
            "core::task::poll",
            "core::cmp::impls",
            "core::cmp::Ordering",
            "core::cmp::max",
            "core::cmp::min",
            "core::cmp::Ord::",
            "core::cmp::PartialOrd::",
            "core::alloc::layout",
            "core::ptr::non_null",
        ];
        PRE.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d)
    }
    fn operand(&mut self, op: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.constant(&c.const_, env),
            _ => J::O(vec![("k", s("rt"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::A(vec![s("use"), self.operand(op, env)]),
            Rvalue::Repeat(op, c) => J::A(vec![
                s("repeat"),
                self.operand(op, env),
                c.try_to_target_usize(self.tcx).map(|x| n(x as usize)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), J::B(!format!("{k:?}").contains("Const")), self.place(p)])
            }
            Rvalue::Cast(k, op, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                self.operand(op, env),
                self.ty(*t),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(&ops.0, env),
                self.operand(&ops.1, env),
            ]),
            Rvalue::UnaryOp(u, op) => {
                J::A(vec![s("un"), s(format!("{u:?}")), self.operand(op, env)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v = ops.iter().map(|x| self.operand(x, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(vi.as_usize()),
                            s(var.name.as_str()),
                            J::A(names),
                            self.gargs(args),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        if !d.is_local() && self.path(*d).starts_with("core::iter::traits::iterator::Iterator::") && self.tcx.is_mir_available(*d) && self.ext_seen.insert(*d) {
                            self.ext_want.push(*d);
                        }
                        J::A(vec![s("closure"), s(self.path(*d)), s(self.id(*d))])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        J::A(vec![s("coroutine"), s(self.path(*d)), s(self.id(*d))])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("coroutineclosure"), s(self.path(*d)), s(self.id(*d))])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![
                s("use"),
                J::O(vec![("k", s("copy")), ("p", self.place(p))]),
            ]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => J::Null,
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upvars: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pl = self.place(p);
                    upvars.push(J::A(vec![s(v.name.as_str()), pl]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let nm = names.get(&l.as_usize()).map(|x| s(x.as_str())).unwrap_or(J::Null);
            locals.push(J::A(vec![t, nm]));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let line = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, env);
                        st.push(J::A(vec![s("="), p, r, line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize()), line]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{i:?}")), J::Null, line]));
                    }
                    _ => (),
                }
            }
            let t = bb.terminator();
            let mut o = vec![("ln", self.line(t.source_info.span))];
            let k = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("t", n(target.as_usize())));
                    "goto"
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("t", n(real_target.as_usize())));
                    "goto"
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("d", self.operand(discr, env)));
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), n(b.as_usize())]))
                        .collect();
                    o.push(("v", J::A(v)));
                    o.push(("o", n(targets.otherwise().as_usize())));
                    "switch"
                }
                TerminatorKind::Return => "return",
                TerminatorKind::Unreachable => "unreachable",
                TerminatorKind::UnwindResume => "resume",
                TerminatorKind::UnwindTerminate(_) => "abort",
                TerminatorKind::CoroutineDrop => "cdrop",
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("p", self.place(place)));
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    o.push(("ty", self.ty(pt)));
                    o.push(("t", n(target.as_usize())));
                    o.push(("u", self.unwind(unwind)));
                    "drop"
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("f", self.operand(func, env)));
                    let v = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    o.push(("a", J::A(v)));
                    o.push(("d", self.place(destination)));
                    o.push(("t", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)));
                    o.push(("u", self.unwind(unwind)));
                    "call"
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    o.push(("f", self.operand(func, env)));
                    let v = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    o.push(("a", J::A(v)));
                    "tailcall"
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("c", self.operand(cond, env)));
                    o.push(("e", J::B(*expected)));
                    let (m, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![len, index])
                        }
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    o.push(("m", s(m)));
                    let v = ops.into_iter().map(|x| self.operand(x, env)).collect();
                    o.push(("mo", J::A(v)));
                    o.push(("t", n(target.as_usize())));
                    "assert"
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    o.push(("y", self.operand(value, env)));
                    o.push(("t", n(resume.as_usize())));
                    o.push(("d", self.place(resume_arg)));
                    "yield"
                }
                _ => "other",
            };
            o.insert(0, ("k", s(k)));
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        let mut o = vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("bbs", J::A(blocks)),
        ];
        if let Some(sp) = body.spread_arg {
            o.push(("spread", n(sp.as_usize())));
        }
        J::O(o)
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        J::I(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128)
    }
    /// Whether a type is `Send` and `Sync` when all its type parameters are,
    /// and which parameters have to be what for that.
    fn autos(&mut self, d: DefId) -> J {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        use ty::Upcast;
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let find = |n| tcx.all_traits_including_private().find(|x| self.path(*x) == n);
        let (Some(send), Some(sync)) = (find("core::marker::Send"), find("core::marker::Sync")) else {
            return J::Null;
        };
        let mut params = vec![];
        for i in 0..tcx.generics_of(d).count() {
            let p = tcx.generics_of(d).param_at(i, tcx);
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                params.push((p.name.to_string(), Ty::new_param(tcx, p.index, p.name)));
            }
        }
        let holds = |tr: DefId, omit: Option<(usize, DefId)>| {
            let mut extra: Vec<ty::Clause<'tcx>> = vec![];
            for (i, (_, p)) in params.iter().enumerate() {
                for m in [send, sync] {
                    if omit != Some((i, m)) {
                        extra.push(ty::TraitRef::new(tcx, m, [*p]).upcast(tcx));
                    }
                }
            }
            let base = tcx.param_env(d);
            let env = ty::ParamEnv::new(tcx, base.caller_bounds().chain(extra));
            let icx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            icx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
        };
        let mut o = vec![];
        let mut given = vec![];
        for (n, p) in &params {
            for (mn, m) in [("Send", send), ("Sync", sync)] {
                let icx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                if icx.type_implements_trait(m, [*p], tcx.param_env(d)).must_apply_modulo_regions() {
                    given.push(s(format!("{n}: {mn}")));
                }
            }
        }
        o.push(("given", J::A(given)));
        for (k, tr) in [("send", send), ("sync", sync)] {
            let ok = holds(tr, None);
            let mut needs = vec![];
            if ok {
                for i in 0..params.len() {
                    for (mn, m) in [("Send", send), ("Sync", sync)] {
                        if !holds(tr, Some((i, m))) {
                            needs.push(s(format!("{}: {mn}", params[i].0)));
                        }
                    }
                }
            }
            o.push((k, J::B(ok)));
            o.push((if k == "send" { "send_needs" } else { "sync_needs" }, J::A(needs)));
        }
        J::O(o)
    }
    fn preds(&mut self, d: DefId) -> J {
        let p = self.tcx.clauses_of(d);
        let v = p
            .clauses
            .iter()
            .map(|(c, _)| s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{c}")))))
            .collect();
        J::A(v)
    }
    fn fn_fact(&mut self, d: LocalDefId, body: J) -> J {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let mut o = vec![
            ("p", s(self.path(did))),
            ("id", s(self.id(did))),
            ("kind", s(format!("{kind:?}"))),
            ("sp", self.span(tcx.def_span(did))),
            ("nm", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("mod", s(self.path(tcx.parent_module_from_def_id(d).to_def_id()))),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            o.push(("in", J::A(ins)));
            o.push(("out", self.ty(sig.output())));
            let lt: Vec<J> = sig.inputs_and_output.iter().map(|t| s(format!("{:?}", t))).collect();
            o.push(("lt", J::A(lt)));
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push(("const", J::B(tcx.is_const_fn(did))));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            o.push(("preds", self.preds(did)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let vis = tcx.effective_visibilities(()).is_reachable(d);
            o.push(("reach", J::B(vis)));
            o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
        }
        let par = tcx.parent(did);
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            o.push(("parent", s(self.id(par))));
            o.push(("pk", s(format!("{:?}", tcx.def_kind(par)))));
        } else if matches!(kind, DefKind::Closure | DefKind::AnonConst) {
            o.push(("parent", s(self.id(par))));
            o.push(("pk", s("fn")));
            if tcx.is_coroutine(did) {
                o.push(("coroutine", J::B(true)));
            }
        }
        o.push(("body", body));
        J::O(o)
    }
    fn run(&mut self, coroutine_bodies: &[(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)]) -> J {
        let tcx = self.tcx;
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut consts = vec![];
        let mut fns = vec![];
        let mut promoted = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let mut vars = vec![];
                    for (vi, v) in a.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fs.push(J::O(vec![
                                ("n", s(f.name.as_str())),
                                ("t", self.ty(t)),
                                ("vis", s(format!("{:?}", f.vis))),
                                ("reach", J::B(f.vis.is_public() && tcx.effective_visibilities(()).is_reachable(d))),
                            ]));
                        }
                        let discr = if a.is_enum() {
                            J::I(a.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            J::Null
                        };
                        vars.push(J::O(vec![
                            ("n", s(v.name.as_str())),
                            ("discr", discr),
                            ("f", J::A(fs)),
                        ]));
                    }
                    let gp: Vec<J> = tcx
                        .generics_of(did)
                        .own_params
                        .iter()
                        .map(|p| s(p.name.as_str()))
                        .collect();
                    adts.push(J::O(vec![
                        ("p", s(self.path(did))),
                        ("id", s(self.id(did))),
                        ("k", s(format!("{:?}", tcx.def_kind(did)))),
                        ("repr", s(format!("{:?}", a.repr().flags))),
                        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(d))),
                        ("g", J::A(gp)),
                        ("auto", self.autos(did)),
                        ("vs", J::A(vars)),
                        ("sp", self.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("id", s(self.id(did))),
                        ("self", self.ty(st)),
                        ("sp", self.span(tcx.def_span(did))),
                        ("derived", J::B(tcx.is_automatically_derived(did))),
                        ("preds", self.preds(did)),
                    ];
                    if of_trait {
                        let h = tcx.impl_trait_header(did);
                        let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                        o.push(("tr", s(self.path(tr.def_id))));
                        o.push(("ta", self.gargs(tr.args)));
                        o.push((
                            "trs",
                            s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{tr}")))),
                        ));
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                        o.push(("pol", s(format!("{:?}", h.polarity))));
                    }
                    let items = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| {
                            J::A(vec![
                                s(i.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                                s(self.id(i.def_id)),
                                s(format!("{:?}", i.tag())),
                            ])
                        })
                        .collect();
                    o.push(("items", J::A(items)));
                    let at = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|i| i.is_type())
                        .map(|i| {
                            let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            J::A(vec![
                                s(i.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                                self.ty(t),
                            ])
                        })
                        .collect();
                    o.push(("at", J::A(at)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let items = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| {
                            J::A(vec![
                                s(i.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                                s(self.id(i.def_id)),
                                J::B(i.defaultness(tcx).has_value()),
                            ])
                        })
                        .collect();
                    let supers = self.preds(did);
                    traits.push(J::O(vec![
                        ("p", s(self.path(did))),
                        ("id", s(self.id(did))),
                        ("unsafe", J::B(tcx.trait_def(did).safety.is_unsafe())),
                        ("preds", supers),
                        ("items", J::A(items)),
                    ]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("p", s(self.path(did))),
                        ("id", s(self.id(did))),
                        ("nm", s(tcx.item_name(did).as_str())),
                        ("t", self.ty(t)),
                        ("sp", self.span(tcx.def_span(did))),
                        ("parent", s(self.id(tcx.parent(did)))),
                    ];
                    let no_generic = tcx.generics_of(did).is_empty()
                        || !tcx.generics_of(did).requires_monomorphization(tcx);
                    let has_body = tcx.hir_maybe_body_owned_by(d).is_some();
                    if has_body
                        && no_generic
                        && matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. })
                    {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            self.constval(v, t, &mut o);
                        }
                    }
                    consts.push(J::O(o));
                }
                _ => (),
            }
        }
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            let env = ty::TypingEnv::post_analysis(tcx, did);
            if let Some((_, b, ps)) = coroutine_bodies.iter().find(|x| x.0 == d) {
                let b = b.clone();
                let j = self.body(&b, env);
                fns.push(self.fn_fact(d, j));
                for (i, p) in ps.iter().enumerate() {
                    let j = self.body(p, env);
                    promoted.push(J::O(vec![("id", s(self.id(did))), ("i", n(i)), ("body", j)]));
                }
                continue;
            }
            let body = match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(did),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
                | DefKind::AnonConst => tcx.mir_for_ctfe(did),
                _ => continue,
            };
            let j = self.body(body, env);
            fns.push(self.fn_fact(d, j));
            for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                let j = self.body(p, env);
                promoted.push(J::O(vec![
                    ("id", s(self.id(did))),
                    ("i", n(i.as_usize())),
                    ("body", j),
                ]));
            }
        }
        let mut ext = vec![];
        while let Some(d) = self.ext_want.pop() {
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let b = tcx.optimized_mir(d);
            let j = self.body(b, env);
            ext.push(J::O(vec![("p", s(self.path(d))), ("id", s(self.id(d))), ("body", j)]));
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                let j = self.body(p, env);
                promoted.push(J::O(vec![
                    ("id", s(self.id(d))),
                    ("i", n(i.as_usize())),
                    ("body", j),
                ]));
            }
        }
        let types = std::mem::take(&mut self.ty_out);
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("types", J::A(types)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("consts", J::A(consts)),
            ("fns", J::A(fns)),
            ("promoted", J::A(promoted)),
            ("ext", J::A(ext)),
        ])
    }
}
fn bytes_j(b: &[u8]) -> J {
    J::A(b.iter().map(|x| J::I(*x as i128)).collect())
}

struct Dump {
    out: String,
}
impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        // Coroutine bodies are wanted before the state-machine transform.
        let mut co = vec![];
        for d in tcx.hir_body_owners() {
            if tcx.is_coroutine(d.to_def_id()) {
                let (b, p) = tcx.mir_promoted(d);
                co.push((
                    d,
                    b.borrow().clone(),
                    p.borrow().iter().cloned().collect::<Vec<_>>(),
                ));
            }
        }
        let _ = tcx.analysis(());
        tcx.dcx().abort_if_errors();
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            ext_want: vec![],
            ext_seen: HashSet::new(),
        };
        let j = cx.run(&co);
        let mut o = String::new();
        j.w(&mut o);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, &self.out).unwrap();
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1].
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|x| x == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("VZ_CRATE").unwrap_or_else(|_| "vinezombie".into());
    let out = std::env::var("VZ_OUT").ok();
    match out {
        Some(out) if name == want => {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
