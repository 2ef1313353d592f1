//! rl-extract: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that type-checks the
//! crate it is given and writes its type-checked program (THIR, MIR, items) to
//! $RL_OUT/<crate>-<kind>.json.  It executes nothing of the analysed crate.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_type_ir;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_infer;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::thir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: RefCell<(HashMap<String, usize>, Vec<String>)>,
    defs: RefCell<(HashMap<DefId, usize>, Vec<J>)>,
}

impl<'tcx> Cx<'tcx> {
    fn def_key(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(
                rustc_middle::ty::print::with_forced_impl_filename_line!(
                    self.tcx.def_path_str(d)
                )
            )
        )
    }
    /// interned description of a definition
    fn def(&self, d: DefId) -> J {
        if let Some(&i) = self.defs.borrow().0.get(&d) {
            return J::n(i);
        }
        let i = {
            let mut t = self.defs.borrow_mut();
            let i = t.1.len();
            t.0.insert(d, i);
            t.1.push(J::Null);
            i
        };
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("id", J::s(self.def_key(d))),
            ("kind", J::s(format!("{:?}", kind))),
            ("local", J::Bool(d.is_local())),
            (
                "name",
                match tcx.opt_item_name(d) {
                    Some(n) => J::s(n.to_string()),
                    None => J::Null,
                },
            ),
        ];
        if let DefKind::Ctor(_, _) = kind {
            let parent = tcx.parent(d);
            o.push(("ctor_of", J::s(self.def_key(parent))));
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(parent));
                    (adt, adt.variant_index_with_ctor_id(d).as_usize())
                }
                _ => (tcx.adt_def(parent), 0),
            };
            o.push(("adt", self.def(adt.did())));
            o.push(("variant", J::n(variant)));
        }
        if let Some(assoc) = tcx.opt_associated_item(d) {
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Trait => {
                    o.push(("trait", J::s(self.def_key(parent))));
                    o.push(("has_default", J::Bool(assoc.defaultness(tcx).has_value())));
                }
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", self.ty(self_ty)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).skip_binder();
                        o.push(("impl_trait", J::s(self.def_key(tr.def_id))));
                    }
                }
                _ => {}
            }
            o.push(("has_self", J::Bool(assoc.is_method())));
        }
        if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let adt = tcx.adt_def(d);
            let vs = adt
                .variants()
                .iter()
                .map(|v| {
                    J::obj(vec![
                        ("name", J::s(v.name.to_string())),
                        (
                            "fields",
                            J::arr(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ),
                    ])
                })
                .collect();
            o.push(("variants", J::arr(vs)));
            if let Some(p) = tcx.lang_items().from_def_id(d) {
                o.push(("lang", J::s(p.name().to_string())));
            }
        }
        if matches!(
            kind,
            DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Closure
        ) {
            let g = tcx.generics_of(d);
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                names.push(J::s(p.name.to_string()));
            }
            o.push(("generics", J::arr(names)));
        }
        let j = J::obj(o);
        self.defs.borrow_mut().1[i] = j;
        J::n(i)
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::arr(
            a.iter()
                .map(|x| match x.kind() {
                    ty::GenericArgKind::Type(t) => self.ty(t),
                    ty::GenericArgKind::Const(c) => {
                        J::arr(vec![J::s("const"), self.konst(c)])
                    }
                    _ => J::Null,
                })
                .collect(),
        )
    }
    fn konst(&self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::n(v as usize);
        }
        if let ty::ConstKind::Param(p) = c.kind() {
            return J::arr(vec![J::s("cparam"), J::n(p.index as usize), J::s(p.name.to_string())]);
        }
        J::s(format!("{:?}", c))
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let j = self.ty_inner(t);
        let s = j.to_string();
        let mut tab = self.types.borrow_mut();
        if let Some(&i) = tab.0.get(&s) {
            return J::n(i);
        }
        let i = tab.1.len();
        tab.0.insert(s.clone(), i);
        tab.1.push(s);
        J::n(i)
    }
    fn ty_inner(&self, t: Ty<'tcx>) -> J {
        use rustc_type_ir::TyKind::*;
        match t.kind() {
            Bool | Char | Int(_) | Uint(_) | Float(_) | Str => {
                J::arr(vec![J::s("prim"), J::s(t.to_string())])
            }
            Never => J::arr(vec![J::s("never")]),
            Adt(d, a) => J::arr(vec![J::s("adt"), self.def(d.did()), self.args(a)]),
            Ref(_, t, m) => J::arr(vec![J::s("ref"), J::Bool(m.is_mut()), self.ty(*t)]),
            RawPtr(t, m) => J::arr(vec![J::s("ptr"), J::Bool(m.is_mut()), self.ty(*t)]),
            Slice(t) => J::arr(vec![J::s("slice"), self.ty(*t)]),
            Array(t, n) => J::arr(vec![J::s("array"), self.ty(*t), self.konst(*n)]),
            Tuple(ts) => J::arr(vec![
                J::s("tuple"),
                J::arr(ts.iter().map(|t| self.ty(t)).collect()),
            ]),
            Param(p) => J::arr(vec![
                J::s("param"),
                J::n(p.index as usize),
                J::s(p.name.to_string()),
            ]),
            FnDef(d, a) => {
                let a = self.tcx.erase_and_anonymize_regions(*a);
                J::arr(vec![J::s("fndef"), self.def(*d), self.args(a.skip_binder())])
            }
            Closure(d, a) => J::arr(vec![
                J::s("closure"),
                self.def(*d),
                self.args(self.tcx.mk_args(a.as_closure().parent_args())),
            ]),
            FnPtr(sig, _) => {
                let sig = sig.skip_binder();
                J::arr(vec![
                    J::s("fnptr"),
                    J::arr(sig.inputs().iter().map(|t| self.ty(*t)).collect()),
                    self.ty(sig.output()),
                ])
            }
            Alias(_, a) => J::arr(vec![
                J::s("alias"),
                J::s(format!("{:?}", a.kind)),
                match self.alias_def(t) {
                    Some(d) => self.def(d),
                    None => J::Null,
                },
                self.args(a.args),
            ]),
            Dynamic(..) => J::arr(vec![J::s("dyn"), J::s(t.to_string())]),
            _ => J::arr(vec![J::s("other"), J::s(t.to_string())]),
        }
    }
    fn alias_def(&self, t: Ty<'tcx>) -> Option<DefId> {
        if let ty::TyKind::Alias(_, a) = t.kind() {
            use rustc_type_ir::AliasTyKind::*;
            return match a.kind {
                Projection { def_id, .. } => Some(def_id.into()),
                Inherent { def_id, .. } => Some(def_id.into()),
                Opaque { def_id, .. } => Some(def_id.into()),
                Free { def_id, .. } => Some(def_id.into()),
            };
        }
        None
    }
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::s(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }
    fn callee(&self, from: LocalDefId, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::TyKind::FnDef(d, a) => {
                let a = self.tcx.erase_and_anonymize_regions(*a).skip_binder();
                let mut o = vec![("def", self.def(*d)), ("args", self.args(a))];
                let env = ty::TypingEnv::post_analysis(self.tcx, from);
                if !a.has_escaping_bound_vars() {
                    if let Ok(Some(inst)) =
                        ty::Instance::try_resolve(self.tcx, env, *d, a)
                    {
                        let rd = inst.def_id();
                        if rd != *d {
                            o.push(("rdef", self.def(rd)));
                            o.push(("rargs", self.args(inst.args)));
                        }
                    }
                }
                J::obj(o)
            }
            _ => J::Null,
        }
    }
}

struct Th<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Th<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> J {
        J::s(format!("{}.{}", v.0.owner.def_id.local_def_index.as_usize(), v.0.local_id.as_usize()))
    }
    fn scope(&self, s: rustc_middle::middle::region::Scope) -> J {
        J::s(format!("{}", s.local_id.as_usize()))
    }
    fn e(&self, id: ExprId) -> J {
        let ex = &self.thir[id];
        let cx = self.cx;
        use ExprKind as K;
        // collapse transparent nodes
        if let K::Scope { value, region_scope, .. } = &ex.kind {
            let inner = self.e(*value);
            // keep the scope id for loops and blocks: labels refer to it
            let target = self.strip(*value);
            if matches!(self.thir[target].kind, K::Loop { .. } | K::Block { .. }) {
                return J::obj(vec![
                    ("k", J::s("Scope")),
                    ("scope", self.scope(*region_scope)),
                    ("v", inner),
                ]);
            }
            return inner;
        }
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match &ex.kind {
            K::Scope { .. } => unreachable!(),
            K::If { cond, then, else_opt, .. } => {
                o.push(("c", self.e(*cond)));
                o.push(("t", self.e(*then)));
                o.push(("f", else_opt.map_or(J::Null, |x| self.e(x))));
                "If"
            }
            K::Call { ty, fun, args, from_hir_call, .. } => {
                let c = cx.callee(self.owner, *ty);
                if let J::Null = c {
                    o.push(("fun", self.e(*fun)));
                } else {
                    o.push(("callee", c));
                }
                o.push(("args", J::arr(args.iter().map(|a| self.e(*a)).collect())));
                if !from_hir_call {
                    o.push(("op", J::Bool(true)));
                }
                "Call"
            }
            K::ByUse { expr, .. } => return self.e(*expr),
            K::Deref { arg } => {
                o.push(("v", self.e(*arg)));
                "Deref"
            }
            K::Binary { op, lhs, rhs } => {
                o.push(("op", J::s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "Binary"
            }
            K::LogicalOp { op, lhs, rhs } => {
                o.push(("op", J::s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "Logical"
            }
            K::Unary { op, arg } => {
                o.push(("op", J::s(format!("{:?}", op))));
                o.push(("v", self.e(*arg)));
                "Unary"
            }
            K::Cast { source } => {
                o.push(("v", self.e(*source)));
                "Cast"
            }
            K::ValueExpr { source } => return self.e(*source),
            K::NeverToAny { source } => {
                o.push(("v", self.e(*source)));
                "NeverToAny"
            }
            K::PointerCoercion { cast, source, .. } => {
                o.push(("cast", J::s(format!("{:?}", cast))));
                o.push(("v", self.e(*source)));
                "Coerce"
            }
            K::Loop { body } => {
                o.push(("body", self.e(*body)));
                "Loop"
            }
            K::Let { expr, pat } => {
                o.push(("v", self.e(*expr)));
                o.push(("pat", self.p(pat)));
                "Let"
            }
            K::Match { scrutinee, arms, match_source } => {
                o.push(("v", self.e(*scrutinee)));
                o.push(("src", J::s(format!("{:?}", match_source))));
                o.push((
                    "arms",
                    J::arr(
                        arms.iter()
                            .map(|a| {
                                let a = &self.thir[*a];
                                J::obj(vec![
                                    ("pat", self.p(&a.pattern)),
                                    ("guard", a.guard.map_or(J::Null, |g| self.e(g))),
                                    ("body", self.e(a.body)),
                                ])
                            })
                            .collect(),
                    ),
                ));
                "Match"
            }
            K::Block { block } => {
                o.push(("b", self.b(*block)));
                "Block"
            }
            K::Assign { lhs, rhs } => {
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "Assign"
            }
            K::AssignOp { op, lhs, rhs } => {
                o.push(("op", J::s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "AssignOp"
            }
            K::Field { lhs, variant_index, name } => {
                o.push(("v", self.e(*lhs)));
                o.push(("variant", J::n(variant_index.as_usize())));
                o.push(("field", J::n(name.as_usize())));
                "Field"
            }
            K::Index { lhs, index } => {
                o.push(("v", self.e(*lhs)));
                o.push(("i", self.e(*index)));
                "Index"
            }
            K::VarRef { id } => {
                o.push(("var", self.var(*id)));
                "Var"
            }
            K::UpvarRef { var_hir_id, .. } => {
                o.push(("var", self.var(*var_hir_id)));
                "Upvar"
            }
            K::Borrow { borrow_kind, arg } => {
                o.push((
                    "bk",
                    J::s(match borrow_kind {
                        mir::BorrowKind::Shared => "shared",
                        mir::BorrowKind::Fake(_) => "fake",
                        mir::BorrowKind::Mut { .. } => "mut",
                    }),
                ));
                o.push(("v", self.e(*arg)));
                "Borrow"
            }
            K::RawBorrow { arg, .. } => {
                o.push(("v", self.e(*arg)));
                "RawBorrow"
            }
            K::Break { label, value } => {
                o.push(("label", self.scope(*label)));
                o.push(("v", value.map_or(J::Null, |x| self.e(x))));
                "Break"
            }
            K::Continue { label } => {
                o.push(("label", self.scope(*label)));
                "Continue"
            }
            K::Return { value } => {
                o.push(("v", value.map_or(J::Null, |x| self.e(x))));
                "Return"
            }
            K::Repeat { value, count } => {
                o.push(("v", self.e(*value)));
                o.push(("n", cx.konst(*count)));
                "Repeat"
            }
            K::Array { fields } => {
                o.push(("fs", J::arr(fields.iter().map(|x| self.e(*x)).collect())));
                "Array"
            }
            K::Tuple { fields } => {
                o.push(("fs", J::arr(fields.iter().map(|x| self.e(*x)).collect())));
                "Tuple"
            }
            K::Adt(a) => {
                o.push(("adt", cx.def(a.adt_def.did())));
                o.push(("variant", J::n(a.variant_index.as_usize())));
                o.push(("targs", cx.args(a.args)));
                o.push((
                    "fs",
                    J::arr(
                        a.fields
                            .iter()
                            .map(|f| J::arr(vec![J::n(f.name.as_usize()), self.e(f.expr)]))
                            .collect(),
                    ),
                ));
                match &a.base {
                    AdtExprBase::None => {}
                    AdtExprBase::Base(b) => o.push(("base", self.e(b.base))),
                    AdtExprBase::DefaultFields(_) => o.push(("defbase", J::Bool(true))),
                }
                "Adt"
            }
            K::PlaceTypeAscription { source, .. } => return self.e(*source),
            K::ValueTypeAscription { source, .. } => return self.e(*source),
            K::Closure(c) => {
                o.push(("def", cx.def(c.closure_id.to_def_id())));
                o.push(("upvars", J::arr(c.upvars.iter().map(|x| self.e(*x)).collect())));
                "Closure"
            }
            K::Literal { lit, neg } => {
                use rustc_ast::LitKind as L;
                let (t, v) = match &lit.node {
                    L::Str(s, _) => ("str", J::s(s.to_string())),
                    L::Int(i, _) => ("int", J::s(i.to_string())),
                    L::Float(f, _) => ("float", J::s(f.to_string())),
                    L::Bool(b) => ("bool", J::Bool(*b)),
                    L::Char(c) => ("char", J::s(c.to_string())),
                    _ => ("other", J::Null),
                };
                o.push(("t", J::s(t)));
                o.push(("v", v));
                o.push(("neg", J::Bool(*neg)));
                "Lit"
            }
            K::NonHirLiteral { lit, .. } => {
                o.push(("t", J::s("int")));
                o.push(("v", J::s(lit.to_uint(lit.size()).to_string())));
                o.push(("neg", J::Bool(false)));
                "Lit"
            }
            K::ZstLiteral { .. } => {
                o.push(("callee", cx.callee(self.owner, ex.ty)));
                "Zst"
            }
            K::NamedConst { def_id, args, .. } => {
                o.push(("def", cx.def(*def_id)));
                o.push(("args", cx.args(args)));
                "Const"
            }
            K::ConstParam { param, .. } => {
                o.push(("idx", J::n(param.index as usize)));
                o.push(("name", J::s(param.name.to_string())));
                "ConstParam"
            }
            K::StaticRef { def_id, .. } => {
                o.push(("def", cx.def(*def_id)));
                "Static"
            }
            K::ConstBlock { did, .. } => {
                o.push(("def", cx.def(*did)));
                "ConstBlock"
            }
            K::ThreadLocalRef(d) => {
                o.push(("def", cx.def(*d)));
                "ThreadLocal"
            }
            other => {
                let s = format!("{:?}", other);
                o.push(("what", J::s(s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?"))));
                "Unsupported"
            }
        };
        let mut r = vec![("k", J::s(k)), ("ty", cx.ty(ex.ty)), ("sp", cx.span(ex.span))];
        r.extend(o);
        J::obj(r)
    }
    fn strip(&self, mut id: ExprId) -> ExprId {
        while let ExprKind::Scope { value, .. } = &self.thir[id].kind {
            id = *value;
        }
        id
    }
    fn b(&self, id: BlockId) -> J {
        let b = &self.thir[id];
        let mut o = vec![];
        let stmts = b
            .stmts
            .iter()
            .map(|s| match &self.thir[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    J::obj(vec![("k", J::s("Expr")), ("e", self.e(*expr))])
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => J::obj(vec![
                    ("k", J::s("Let")),
                    ("sp", self.cx.span(*span)),
                    ("pat", self.p(pattern)),
                    ("init", initializer.map_or(J::Null, |x| self.e(x))),
                    ("els", else_block.map_or(J::Null, |x| self.b(x))),
                ]),
            })
            .collect();
        o.push(("stmts", J::arr(stmts)));
        o.push(("e", b.expr.map_or(J::Null, |x| self.e(x))));
        if b.targeted_by_break {
            o.push(("scope", self.scope(b.region_scope)));
        }
        if let thir::BlockSafety::ExplicitUnsafe(_) = b.safety_mode {
            o.push(("unsafe", J::Bool(true)));
        }
        J::obj(o)
    }
    fn p(&self, p: &Pat<'tcx>) -> J {
        let cx = self.cx;
        let mut o = vec![];
        let sub = |fs: &Vec<FieldPat<'tcx>>| {
            J::arr(
                fs.iter()
                    .map(|f| J::arr(vec![J::n(f.field.as_usize()), self.p(&f.pattern)]))
                    .collect(),
            )
        };
        let k = match &p.kind {
            PatKind::Wild | PatKind::Missing => "Wild",
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("name", J::s(name.to_string())));
                o.push(("var", self.var(*var)));
                o.push((
                    "mode",
                    J::s(match mode.0 {
                        rustc_ast::ByRef::No => "val",
                        rustc_ast::ByRef::Yes(_, m) => {
                            if m.is_mut() {
                                "mut"
                            } else {
                                "ref"
                            }
                        }
                    }),
                ));
                if let Some(s) = subpattern {
                    o.push(("sub", self.p(s)));
                }
                "Bind"
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("adt", cx.def(adt_def.did())));
                o.push(("variant", J::n(variant_index.as_usize())));
                o.push(("fs", sub(subpatterns)));
                "Variant"
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("fs", sub(subpatterns)));
                "Leaf"
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("sub", self.p(subpattern)));
                "Deref"
            }
            PatKind::Constant { value } => {
                let s = value.try_to_scalar_int_str(cx.tcx);
                o.push(("v", s));
                "Const"
            }
            PatKind::Or { pats } => {
                o.push(("ps", J::arr(pats.iter().map(|p| self.p(p)).collect())));
                "Or"
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("pre", J::arr(prefix.iter().map(|p| self.p(p)).collect())));
                o.push(("mid", slice.as_ref().map_or(J::Null, |p| self.p(p))));
                o.push(("suf", J::arr(suffix.iter().map(|p| self.p(p)).collect())));
                "Slice"
            }
            PatKind::Range(r) => {
                let f = |b: &thir::PatRangeBoundary<'tcx>| match b {
                    thir::PatRangeBoundary::Finite(v) => match v.try_to_leaf() {
                        Some(l) => J::s(l.to_uint(l.size()).to_string()),
                        None => J::s("?"),
                    },
                    _ => J::Null,
                };
                o.push(("lo", f(&r.lo)));
                o.push(("hi", f(&r.hi)));
                o.push(("incl", J::Bool(matches!(r.end, rustc_hir::RangeEnd::Included))));
                "Range"
            }
            PatKind::Never => "Never",
            _ => "Unsupported",
        };
        let mut r = vec![("k", J::s(k)), ("ty", cx.ty(p.ty))];
        r.extend(o);
        J::obj(r)
    }
}

trait ScalarStr<'tcx> {
    fn try_to_scalar_int_str(&self, tcx: TyCtxt<'tcx>) -> J;
}
impl<'tcx> ScalarStr<'tcx> for ty::Value<'tcx> {
    fn try_to_scalar_int_str(&self, _tcx: TyCtxt<'tcx>) -> J {
        match self.valtree.try_to_leaf() {
            Some(l) => {
                let bits = l.to_uint(l.size());
                if let ty::TyKind::Bool = self.ty.kind() {
                    J::Bool(bits != 0)
                } else {
                    J::s(bits.to_string())
                }
            }
            None => J::s(format!("{:?}", self)),
        }
    }
}

fn dump_thir<'tcx>(cx: &Cx<'tcx>, d: LocalDefId) -> Option<J> {
    let (thir, root) = cx.tcx.thir_body(d).ok()?;
    let thir = thir.borrow();
    let th = Th { cx, thir: &thir, owner: d };
    let params = thir
        .params
        .iter()
        .map(|p| {
            J::obj(vec![
                ("ty", cx.ty(p.ty)),
                ("pat", p.pat.as_ref().map_or(J::Null, |q| th.p(q))),
            ])
        })
        .collect();
    Some(J::obj(vec![("params", J::arr(params)), ("root", th.e(root))]))
}

fn mir_place<'tcx>(_cx: &Cx<'tcx>, p: &mir::Place<'tcx>) -> J {
    let mut v = vec![J::n(p.local.as_usize())];
    for e in p.projection.iter() {
        v.push(match e {
            mir::ProjectionElem::Deref => J::s("*"),
            mir::ProjectionElem::Field(f, _) => J::n(f.as_usize()),
            mir::ProjectionElem::Downcast(_, v) => J::s(format!("v{}", v.as_usize())),
            mir::ProjectionElem::Index(l) => J::s(format!("[{}]", l.as_usize())),
            _ => J::s("?"),
        });
    }
    J::arr(v)
}

fn mir_operand<'tcx>(cx: &Cx<'tcx>, owner: LocalDefId, o: &mir::Operand<'tcx>) -> J {
    match o {
        mir::Operand::Copy(p) => J::obj(vec![("copy", mir_place(cx, p))]),
        mir::Operand::Move(p) => J::obj(vec![("move", mir_place(cx, p))]),
        mir::Operand::Constant(c) => {
            let t = c.const_.ty();
            let mut v = vec![("ty", cx.ty(t))];
            let ca = cx.callee(owner, t);
            if !matches!(ca, J::Null) {
                v.push(("callee", ca));
            }
            v.push(("s", J::s(format!("{}", c.const_))));
            if let Some(d) = c.check_static_ptr(cx.tcx) {
                v.push(("static", cx.def(d)));
            }
            J::obj(vec![("const", J::obj(v))])
        }
        #[allow(unreachable_patterns)]
        _ => J::obj(vec![("other", J::Bool(true))]),
    }
}

fn dump_mir<'tcx>(cx: &Cx<'tcx>, d: LocalDefId) -> Option<J> {
    let tcx = cx.tcx;
    let body = tcx.optimized_mir(d.to_def_id());
    let locals = body.local_decls.iter().map(|l| cx.ty(l.ty)).collect();
    let mut names = vec![];
    for v in body.var_debug_info.iter() {
        if let mir::VarDebugInfoContents::Place(p) = &v.value {
            names.push(J::arr(vec![J::s(v.name.to_string()), mir_place(cx, p)]));
        }
    }
    let mut blocks = vec![];
    for (_i, bb) in body.basic_blocks.iter_enumerated() {
        let mut st = vec![];
        for s in bb.statements.iter() {
            match &s.kind {
                mir::StatementKind::Assign(b) => {
                    let (p, r) = &**b;
                    let rv = match r {
                        mir::Rvalue::Use(o, ..) => {
                            vec![J::s("use"), mir_operand(cx, d, o)]
                        }
                        mir::Rvalue::Ref(_, k, pl) => vec![
                            J::s(if matches!(k, mir::BorrowKind::Mut { .. }) { "refmut" } else { "ref" }),
                            mir_place(cx, pl),
                        ],
                        mir::Rvalue::RawPtr(_, pl) => vec![J::s("rawptr"), mir_place(cx, pl)],
                        mir::Rvalue::Cast(k, o, t) => vec![
                            J::s("cast"),
                            mir_operand(cx, d, o),
                            J::s(format!("{:?}", k)),
                            cx.ty(*t),
                        ],
                        mir::Rvalue::Aggregate(k, ops) => {
                            let kind = match &**k {
                                mir::AggregateKind::Closure(cd, _) => {
                                    J::arr(vec![J::s("closure"), cx.def(*cd)])
                                }
                                mir::AggregateKind::Adt(ad, v, ..) => J::arr(vec![
                                    J::s("adt"),
                                    cx.def(*ad),
                                    J::n(v.as_usize()),
                                ]),
                                mir::AggregateKind::Tuple => J::arr(vec![J::s("tuple")]),
                                mir::AggregateKind::Array(_) => J::arr(vec![J::s("array")]),
                                _ => J::arr(vec![J::s("?")]),
                            };
                            vec![
                                J::s("agg"),
                                kind,
                                J::arr(ops.iter().map(|o| mir_operand(cx, d, o)).collect()),
                            ]
                        }
                        mir::Rvalue::BinaryOp(op, b) => vec![
                            J::s("bin"),
                            J::s(format!("{:?}", op)),
                            mir_operand(cx, d, &b.0),
                            mir_operand(cx, d, &b.1),
                        ],
                        mir::Rvalue::UnaryOp(op, o) => {
                            vec![J::s("un"), J::s(format!("{:?}", op)), mir_operand(cx, d, o)]
                        }
                        mir::Rvalue::Discriminant(pl) => vec![J::s("discr"), mir_place(cx, pl)],
                        mir::Rvalue::CopyForDeref(pl) => vec![
                            J::s("use"),
                            J::obj(vec![("copy", mir_place(cx, pl))]),
                        ],
                        mir::Rvalue::ThreadLocalRef(td) => {
                            vec![J::s("threadlocal"), cx.def(*td)]
                        }
                        other => vec![J::s("other"), J::s(format!("{:?}", other))],
                    };
                    st.push(J::arr(vec![
                        J::s("="),
                        mir_place(cx, p),
                        J::arr(rv),
                        cx.span(s.source_info.span),
                    ]));
                }
                mir::StatementKind::StorageDead(l) => {
                    st.push(J::arr(vec![J::s("dead"), J::n(l.as_usize())]))
                }
                mir::StatementKind::StorageLive(l) => {
                    st.push(J::arr(vec![J::s("live"), J::n(l.as_usize())]))
                }
                _ => {}
            }
        }
        let t = bb.terminator();
        let sp = cx.span(t.source_info.span);
        let tj = match &t.kind {
            mir::TerminatorKind::Goto { target, .. } => {
                vec![("k", J::s("goto")), ("to", J::arr(vec![J::n(target.as_usize())]))]
            }
            mir::TerminatorKind::SwitchInt { discr, targets } => vec![
                ("k", J::s("switch")),
                ("d", mir_operand(cx, d, discr)),
                (
                    "vals",
                    J::arr(targets.iter().map(|(v, _)| J::s(v.to_string())).collect()),
                ),
                (
                    "to",
                    J::arr(targets.all_targets().iter().map(|b| J::n(b.as_usize())).collect()),
                ),
            ],
            mir::TerminatorKind::Drop { place, target, .. } => vec![
                ("k", J::s("drop")),
                ("p", mir_place(cx, place)),
                (
                    "ty",
                    cx.ty(place.ty(&body.local_decls, tcx).ty),
                ),
                ("to", J::arr(vec![J::n(target.as_usize())])),
            ],
            mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                vec![
                    ("k", J::s("call")),
                    ("f", mir_operand(cx, d, func)),
                    ("callee", cx.callee(d, fty)),
                    (
                        "args",
                        J::arr(args.iter().map(|a| mir_operand(cx, d, &a.node)).collect()),
                    ),
                    ("dest", mir_place(cx, destination)),
                    (
                        "to",
                        J::arr(target.iter().map(|b| J::n(b.as_usize())).collect()),
                    ),
                ]
            }
            mir::TerminatorKind::Assert { target, .. } => {
                vec![("k", J::s("assert")), ("to", J::arr(vec![J::n(target.as_usize())]))]
            }
            mir::TerminatorKind::Return => vec![("k", J::s("return")), ("to", J::arr(vec![]))],
            other => vec![
                ("k", J::s("other")),
                ("what", J::s(other.name())),
                (
                    "to",
                    J::arr(t.successors().map(|b| J::n(b.as_usize())).collect()),
                ),
            ],
        };
        let mut tj = tj;
        tj.push(("sp", sp));
        blocks.push(J::obj(vec![
            ("s", J::arr(st)),
            ("t", J::obj(tj)),
            ("cleanup", J::Bool(bb.is_cleanup)),
        ]));
    }
    Some(J::obj(vec![
        ("nargs", J::n(body.arg_count)),
        ("locals", J::arr(locals)),
        ("names", J::arr(names)),
        ("blocks", J::arr(blocks)),
    ]))
}

fn generics_json<'tcx>(cx: &Cx<'tcx>, d: DefId) -> J {
    let tcx = cx.tcx;
    let g = tcx.generics_of(d);
    let mut v = vec![];
    for i in 0..g.count() {
        let p = g.param_at(i, tcx);
        v.push(J::arr(vec![
            J::s(p.name.to_string()),
            J::s(match p.kind {
                ty::GenericParamDefKind::Lifetime => "lt",
                ty::GenericParamDefKind::Type { .. } => "ty",
                ty::GenericParamDefKind::Const { .. } => "const",
            }),
        ]));
    }
    J::arr(v)
}

fn preds_json<'tcx>(cx: &Cx<'tcx>, d: DefId) -> J {
    let tcx = cx.tcx;
    let mut v = vec![];
    let preds = tcx.clauses_of(d).instantiate_identity(tcx);
    for (p, _) in preds {
        let p = p.skip_norm_wip();
        match p.kind().skip_binder() {
            ty::ClauseKind::Trait(t) => v.push(J::arr(vec![
                J::s("trait"),
                J::s(cx.def_key(t.trait_ref.def_id)),
                cx.args(t.trait_ref.args),
            ])),
            ty::ClauseKind::Projection(pr) => v.push(J::arr(vec![
                J::s("proj"),
                J::s(cx.def_key(pr.def_id())),
                cx.args(pr.projection_term.args),
                match pr.term.kind() {
                    ty::TermKind::Ty(t) => cx.ty(t),
                    _ => J::Null,
                },
            ])),
            _ => {}
        }
    }
    J::arr(v)
}

fn vis_json<'tcx>(cx: &Cx<'tcx>, d: DefId) -> J {
    match cx.tcx.visibility(d) {
        ty::Visibility::Public => J::s("pub"),
        ty::Visibility::Restricted(m) => J::s(cx.def_key(m.to_def_id())),
    }
}

/// does the type defined by `d` implement the auto trait, under its own where clauses?
fn auto_trait<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, name: &str) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let tr = if name == "Sync" {
        tcx.lang_items().sync_trait()
    } else {
        tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"))
    };
    let Some(tr) = tr else { return true };
    let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    infcx
        .type_implements_trait(tr, [ty], tcx.param_env(d))
        .must_apply_modulo_regions()
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let cx = Cx { tcx, types: Default::default(), defs: Default::default() };
    let mut fns = vec![];
    let mut consts = vec![];
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            DefKind::Const { .. }
            | DefKind::AssocConst { .. }
            | DefKind::Static { .. }
            => {
                let mut o = vec![
                    ("def", cx.def(did)),
                    ("id", J::s(cx.def_key(did))),
                    ("kind", J::s(format!("{:?}", kind))),
                    ("ty", cx.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                    ("sp", cx.span(tcx.def_span(did))),
                ];
                if let Some(t) = dump_thir(&cx, d) {
                    o.push(("thir", t));
                }
                consts.push(J::obj(o));
                continue;
            }
            _ => continue,
        }
        let mut o = vec![
            ("def", cx.def(did)),
            ("id", J::s(cx.def_key(did))),
            ("pretty", J::s(cx.pretty(did))),
            ("kind", J::s(format!("{:?}", kind))),
            ("sp", cx.span(tcx.def_span(did))),
            ("generics", generics_json(&cx, did)),
        ];
        if kind != DefKind::Closure {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("sig", J::arr(vec![
                J::arr(sig.inputs().iter().map(|t| cx.ty(*t)).collect()),
                cx.ty(sig.output()),
            ])));
            o.push(("unsafe", J::Bool(!sig.safety().is_safe())));
            o.push(("vis", vis_json(&cx, did)));
            o.push((
                "reachable",
                J::Bool(tcx.effective_visibilities(()).is_reachable(d)),
            ));
            o.push(("preds", preds_json(&cx, did)));
        } else {
            o.push(("parent", J::s(cx.def_key(tcx.typeck_root_def_id(did)))));
        }
        let attrs = tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)).len();
        o.push(("nattrs", J::n(attrs)));
        o.push(("thir", dump_thir(&cx, d).unwrap_or(J::Null)));
        fns.push(J::obj(o));
    }
    for d in tcx.hir_body_owners() {
        let _ = d;
    }
    // second pass: MIR (building it steals THIR unless -Zno-steal-thir is given)
    let mut mirs = vec![];
    for d in tcx.hir_body_owners() {
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                mirs.push(J::arr(vec![
                    J::s(cx.def_key(d.to_def_id())),
                    dump_mir(&cx, d).unwrap_or(J::Null),
                ]));
            }
            _ => {}
        }
    }
    let mut impls = vec![];
    let mut adts = vec![];
    let mut traits = vec![];
    let mut others = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let mut o = vec![
                    ("id", J::s(cx.def_key(d))),
                    ("sp", cx.span(tcx.def_span(d))),
                    ("generics", generics_json(&cx, d)),
                    ("self", cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                    ("preds", preds_json(&cx, d)),
                ];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    o.push(("trait", J::s(cx.def_key(tr.def_id))));
                    o.push(("targs", cx.args(tr.args)));
                    o.push(("unsafe", J::Bool(!h.safety.is_safe())));
                    o.push(("negative", J::Bool(matches!(h.polarity, ty::ImplPolarity::Negative))));
                }
                let mut items = vec![];
                for &i in tcx.associated_item_def_ids(d) {
                    let ai = tcx.associated_item(i);
                    let mut io = vec![
                        ("name", J::s(tcx.opt_item_name(i).map(|n| n.to_string()).unwrap_or_default())),
                        ("id", J::s(cx.def_key(i))),
                        ("kind", J::s(format!("{:?}", tcx.def_kind(i)))),
                    ];
                    if tcx.def_kind(i) == DefKind::AssocTy {
                        io.push(("ty", cx.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                    }
                    let _ = ai;
                    items.push(J::obj(io));
                }
                o.push(("items", J::arr(items)));
                let derived = tcx.is_automatically_derived(d);
                o.push(("derived", J::Bool(derived)));
                impls.push(J::obj(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(d);
                let mut vs = vec![];
                for v in adt.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        fs.push(J::obj(vec![
                            ("name", J::s(f.name.to_string())),
                            ("ty", cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                            ("vis", vis_json(&cx, f.did)),
                        ]));
                    }
                    vs.push(J::obj(vec![
                        ("name", J::s(v.name.to_string())),
                        ("fields", J::arr(fs)),
                    ]));
                }
                adts.push(J::obj(vec![
                    ("id", J::s(cx.def_key(d))),
                    ("def", cx.def(d)),
                    ("vis", vis_json(&cx, d)),
                    (
                        "reachable",
                        J::Bool(tcx.effective_visibilities(()).is_reachable(d.expect_local())),
                    ),
                    ("sp", cx.span(tcx.def_span(d))),
                    ("variants", J::arr(vs)),
                    ("ty", cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                    ("send", J::Bool(auto_trait(tcx, d, "Send"))),
                    ("sync", J::Bool(auto_trait(tcx, d, "Sync"))),
                ]));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for &i in tcx.associated_item_def_ids(d) {
                    let ai = tcx.associated_item(i);
                    items.push(J::obj(vec![
                        ("name", J::s(tcx.opt_item_name(i).map(|n| n.to_string()).unwrap_or_default())),
                        ("id", J::s(cx.def_key(i))),
                        ("kind", J::s(format!("{:?}", tcx.def_kind(i)))),
                        ("default", J::Bool(ai.defaultness(tcx).has_value())),
                    ]));
                }
                traits.push(J::obj(vec![
                    ("id", J::s(cx.def_key(d))),
                    ("vis", vis_json(&cx, d)),
                    (
                        "reachable",
                        J::Bool(tcx.effective_visibilities(()).is_reachable(d.expect_local())),
                    ),
                    ("unsafe", J::Bool(!tcx.trait_def(d).safety.is_safe())),
                    ("items", J::arr(items)),
                ]));
            }
            k => others.push(J::arr(vec![
                J::s(cx.def_key(d)),
                J::s(format!("{:?}", k)),
                cx.span(tcx.def_span(d)),
            ])),
        }
    }
    let types = cx.types.borrow();
    let defs = cx.defs.borrow();
    J::obj(vec![
        ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("types", J::arr(types.1.iter().map(|s| J::Raw(s.clone())).collect())),
        ("defs", J::arr(defs.1.iter().map(|j| J::Raw(j.to_string())).collect())),
        ("fns", J::arr(fns)),
        ("consts", J::arr(consts)),
        ("mir", J::arr(mirs)),
        ("impls", J::arr(impls)),
        ("adts", J::arr(adts)),
        ("traits", J::arr(traits)),
        ("others", J::arr(others)),
    ])
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("RL_OUT") {
            let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let j = dump(tcx).to_string();
            let path = format!("{}/{}-{}.json", dir, name, kind);
            std::fs::write(&path, j).expect("write");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // argv: rl-extract <rustc> <args...>
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let extract = args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a.starts_with("build_script"))
        && std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    if extract {
        args.push("-Zno-steal-thir".into());
        args.push("-Zmir-opt-level=0".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
