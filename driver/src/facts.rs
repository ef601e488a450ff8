use crate::json::{s, J};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::HashMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tindex: HashMap<Ty<'tcx>, usize>,
    ext: Vec<DefId>,
    ext_seen: std::collections::HashSet<DefId>,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx { tcx, types: vec![], tindex: HashMap::new(), ext: vec![], ext_seen: Default::default() };
    let j = cx.krate();
    let mut o = String::new();
    j.write(&mut o);
    o
}

impl<'tcx> Cx<'tcx> {
    fn uid(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn ty_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.qpath(a.did()),
            ty::Foreign(d) => self.qpath(*d),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_name(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_name(*t)),
            ty::Array(t, _) => format!("[{};_]", self.ty_name(*t)),
            ty::Param(p) => p.name.to_string(),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty_name(t)).collect::<Vec<_>>().join(",")),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.ty_name(*t)),
            ty::Dynamic(..) => "dyn".into(),
            _ => format!("{}", t),
        }
    }

    // Human readable path, stable under re-exports and under reordering of impls.
    fn qpath(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let parent = match key.parent {
            None => return tcx.crate_name(d.krate).to_string(),
            Some(p) => DefId { krate: d.krate, index: p },
        };
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = self.ty_name(self_ty);
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>", st, self.qpath(tr.def_id))
                } else {
                    st
                }
            }
            DefKind::ForeignMod => self.qpath(parent),
            DefKind::Ctor(..) => self.qpath(parent),
            _ => {
                let name = match tcx.opt_item_name(d) {
                    Some(n) => n.to_string(),
                    None => {
                        let dp = tcx.def_path(d);
                        dp.data.last().map(|x| format!("{}#{}", x.data, x.disambiguator)).unwrap_or_default()
                    }
                };
                format!("{}::{}", self.qpath(parent), name)
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::N(self.tyi(t) as i64)
    }

    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        self.gargs_slice(args.as_slice())
    }
    fn gargs_slice(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(s(format!("{}", c))),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tindex.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tindex.insert(t, i);
        let j = match t.kind() {
            ty::Adt(a, args) => {
                J::O(vec![("k", s("adt")), ("p", s(self.qpath(a.did()))), ("u", s(self.uid(a.did()))), ("a", self.gargs(args))])
            }
            ty::Ref(_, t, m) => J::O(vec![("k", s("ref")), ("t", self.ty(*t)), ("m", J::B(m.is_mut()))]),
            ty::RawPtr(t, m) => J::O(vec![("k", s("ptr")), ("t", self.ty(*t)), ("m", J::B(m.is_mut()))]),
            ty::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            ty::Array(t, n) => J::O(vec![("k", s("array")), ("t", self.ty(*t)), ("n", s(format!("{}", n)))]),
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            ty::Closure(d, args) => {
                J::O(vec![("k", s("closure")), ("u", s(self.uid(*d))), ("a", self.gargs_slice(args.as_closure().parent_args()))])
            }
            ty::FnDef(d, args) => {
                J::O(vec![("k", s("fndef")), ("p", s(self.qpath(*d))), ("u", s(self.uid(*d))), ("a", self.gargs((*args).no_bound_vars().unwrap_or(ty::List::empty())))])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("d", s(format!("{}", t)))]),
            ty::Dynamic(preds, ..) => {
                let v = preds
                    .iter()
                    .filter_map(|p| match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(tr) => Some(s(self.qpath(tr.def_id))),
                        _ => None,
                    })
                    .collect();
                J::O(vec![("k", s("dyn")), ("t", J::A(v))])
            }
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Alias(..) => self.alias(t),
            _ => J::O(vec![("k", s("prim")), ("n", s(format!("{}", t)))]),
        };
        self.types[i] = j;
        i
    }

    fn alias(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Alias(_, a) => {
                let d = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => Some((s("proj"), DefId::from(def_id))),
                    ty::AliasTyKind::Opaque { def_id } => Some((s("opaque"), DefId::from(def_id))),
                    _ => None,
                };
                match d {
                    Some((k, d)) => {
                        let args = self.gargs(a.args);
                        J::O(vec![("k", k), ("p", s(self.qpath(d))), ("u", s(self.uid(d))), ("a", args)])
                    }
                    None => J::O(vec![("k", s("other")), ("d", s(format!("{}", t)))]),
                }
            }
            _ => unreachable!(),
        }
    }

    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, l.line))
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        J::N(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i64)
    }

    fn krate(&mut self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| self.uid(k.to_def_id()));
        for k in keys {
            if let Some(b) = self.owner(k.to_def_id()) {
                bodies.push(b);
            }
        }
        let mut i = 0;
        while i < self.ext.len() {
            let d = self.ext[i];
            i += 1;
            if let Some(b) = self.owner(d) {
                bodies.push(b);
            }
        }
        let mut adts = vec![];
        let mut traits = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(self.adt(d)),
                DefKind::Trait => traits.push(self.trait_(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if let Some(c) = self.constitem(d) {
                        consts.push(c)
                    }
                }
                _ => {}
            }
        }
        let mut impls = vec![];
        for (_tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is.iter() {
                impls.push(self.impl_(i.to_def_id()));
            }
        }
        let types = std::mem::take(&mut self.types);
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("traits", J::A(traits)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("types", J::A(types)),
        ])
    }

    fn constitem(&mut self, d: DefId) -> Option<J> {
        let tcx = self.tcx;
        if tcx.generics_of(d).requires_monomorphization(tcx) {
            return None;
        }
        if !tcx.is_mir_available(d) && !d.is_local() {
            return None;
        }
        if matches!(tcx.def_kind(d), DefKind::AssocConst { .. }) {
            let assoc = tcx.associated_item(d);
            if !assoc.defaultness(tcx).has_value() {
                return None;
            }
        }
        let v = tcx.const_eval_poly(d).ok()?;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let cv = self.constval(v, t);
        Some(J::O(vec![("p", s(self.qpath(d))), ("ty", self.ty(t)), ("v", cv)]))
    }

    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        for v in a.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                fs.push(J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("ty", self.ty(t)),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
        }
        let drop = tcx.adt_destructor(d).map(|x| s(self.uid(x.did))).unwrap_or(J::Null);
        J::O(vec![
            ("u", s(self.uid(d))),
            ("p", s(self.qpath(d))),
            ("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
            ("generics", self.gnames(d)),
            ("packed", J::B(a.repr().packed())),
            ("repr_c", J::B(a.repr().c())),
            ("variants", J::A(vs)),
            ("drop", drop),
            ("pub", J::B(self.reachable(d))),
            ("loc", self.loc(tcx.def_span(d))),
        ])
    }

    fn reachable(&self, d: DefId) -> bool {
        match d.as_local() {
            Some(l) => self.tcx.effective_visibilities(()).is_reachable(l),
            None => false,
        }
    }
    fn exported(&self, d: DefId) -> bool {
        match d.as_local() {
            Some(l) => self.tcx.effective_visibilities(()).is_exported(l),
            None => false,
        }
    }

    fn gnames(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        fn rec<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, v: &mut Vec<J>) {
            let g = tcx.generics_of(d);
            if let Some(p) = g.parent {
                rec(tcx, p, v);
            }
            for p in g.own_params.iter() {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    v.push(s(p.name.to_string()));
                }
            }
        }
        rec(tcx, d, &mut v);
        J::A(v)
    }

    fn trait_(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut items = vec![];
        for it in tcx.associated_items(d).in_definition_order() {
            items.push(J::O(vec![
                ("n", s(it.opt_name().map(|n| n.to_string()).unwrap_or_default())),
                ("p", s(self.qpath(it.def_id))),
                ("u", s(self.uid(it.def_id))),
                ("default", J::B(it.defaultness(tcx).has_value())),
                ("fn", J::B(matches!(it.kind, ty::AssocKind::Fn { .. }))),
            ]));
        }
        J::O(vec![("p", s(self.qpath(d))), ("generics", self.gnames(d)), ("items", J::A(items))])
    }

    fn impl_(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
        let mut items = vec![];
        for it in tcx.associated_items(d).in_definition_order() {
            let titem = it.trait_item_def_id();
            let mut o = vec![
                ("n", s(it.opt_name().map(|n| n.to_string()).unwrap_or_default())),
                ("u", s(self.uid(it.def_id))),
                ("t", titem.map(|t| s(self.qpath(t))).unwrap_or(J::Null)),
            ];
            if matches!(it.kind, ty::AssocKind::Type { .. }) {
                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                o.push(("ty", self.ty(t)));
            }
            items.push(J::O(o));
        }
        let derived = tcx.is_automatically_derived(d);
        let header = tcx.impl_trait_header(d);
        let mut preds = vec![];
        for c in tcx.param_env(d).caller_bounds() {
            if let Some(t) = c.as_trait_clause() {
                let t = t.skip_binder();
                preds.push(J::A(vec![s(self.qpath(t.def_id())), self.ty(t.self_ty())]));
            }
        }
        J::O(vec![
            ("preds", J::A(preds)),
            ("u", s(self.uid(d))),
            ("trait", s(self.qpath(tr.def_id))),
            ("args", self.gargs(tr.args)),
            ("self", self.ty(tr.self_ty())),
            ("generics", self.gnames(d)),
            ("items", J::A(items)),
            ("derived", J::B(derived)),
            ("neg", J::B(matches!(header.polarity, ty::ImplPolarity::Negative))),
            ("unsafe", J::B(header.safety.is_unsafe())),
            ("loc", self.loc(tcx.def_span(d))),
        ])
    }

    fn owner(&mut self, d: DefId) -> Option<J> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let (kn, body): (&str, &Body<'tcx>) = match kind {
            DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
            DefKind::Closure => ("closure", tcx.optimized_mir(d)),
            DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
            _ => return None,
        };
        let mut parent = J::Null;
        let mut pimpl = J::Null;
        if let Some(p) = tcx.opt_parent(d) {
            parent = s(self.uid(p));
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                pimpl = s(self.uid(p));
            }
        }
        let mut abi = J::Null;
        let mut is_unsafe = J::Null;
        let mut detached = J::Null;
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let sig = sig.skip_binder();
            abi = s(format!("{:?}", sig.abi()));
            is_unsafe = J::B(sig.safety().is_unsafe());
            // lifetimes of the result that no argument has
            let regs = |t: Ty<'tcx>| -> Vec<String> {
                t.walk().filter_map(|a| a.as_region()).map(|r| format!("{:?}", r)).collect()
            };
            let ins: Vec<String> = sig.inputs().iter().flat_map(|t| regs(*t)).collect();
            detached = J::A(regs(sig.output()).into_iter().filter(|r| !ins.contains(r)).map(s).collect());
        }
        if let DefKind::Static { mutability, .. } = kind {
            is_unsafe = J::B(mutability.is_mut());
        }
        let blocks = self.body(d, body);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push((p.local.as_usize().to_string(), s(v.name.to_string())));
                }
            }
        }
        let mut promoted = vec![];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let ps = tcx.promoted_mir(d);
            for p in ps.iter() {
                let b = self.body(d, p);
                let mut pl = vec![];
                for l in p.local_decls.iter() {
                    pl.push(self.ty(l.ty));
                }
                promoted.push(J::O(vec![("locals", J::A(pl)), ("blocks", b)]));
            }
        }
        let upv = if matches!(kind, DefKind::Closure) && d.is_local() {
            let names: Vec<J> = tcx.closure_captures(d.expect_local()).iter().map(|c| s(c.to_string(tcx))).collect();
            J::A(names)
        } else {
            J::Null
        };
        Some(J::O(vec![
            ("u", s(self.uid(d))),
            ("p", s(self.qpath(d))),
            ("kind", s(kn)),
            ("parent", parent),
            ("impl", pimpl),
            ("generics", self.gnames(tcx.typeck_root_def_id(d))),
            ("abi", abi),
            ("unsafe", is_unsafe),
            ("detached", detached),
            ("pub", J::B(self.reachable(d))),
            ("exported", J::B(self.exported(d))),
            ("loc", self.loc(tcx.def_span(d))),
            ("argc", J::N(body.arg_count as i64)),
            ("locals", J::A(locals)),
            ("names", J::M(names)),
            ("upvars", upv),
            ("blocks", blocks),
            ("promoted", J::A(promoted)),
        ]))
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> J {
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                if let Some(j) = self.stmt(owner, body, x) {
                    st.push(j);
                }
            }
            let t = self.term(owner, body, bb.terminator());
            let mut o = vec![("s", J::A(st)), ("t", t)];
            if bb.is_cleanup {
                o.push(("c", J::B(true)));
            }
            bs.push(J::O(o));
        }
        J::A(bs)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::N(p.local.as_usize() as i64)];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_box() {
                                format!("{}", f.as_usize())
                            } else {
                                a.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![s("f"), J::N(f.as_usize() as i64), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::N(l.as_usize() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::N(offset as i64), J::N(min_length as i64), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::N(from as i64), J::N(to as i64), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, i) => J::A(vec![
                    s("d"),
                    J::N(i.as_usize() as i64),
                    s(n.map(|n| n.to_string()).unwrap_or_default()),
                ]),
                _ => s("?"),
            };
            v.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::A(v)
    }

    fn fnref(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut o = vec![("p", s(self.qpath(d))), ("u", s(self.uid(d))), ("a", self.gargs(args))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.qpath(tr))));
        }
        if tcx.intrinsic(d).is_some() {
            o.push(("intr", J::B(true)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
        }
        self.note_ext(d);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args)));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            self.note_ext(rd);
            if rd != d || tcx.trait_of_assoc(d).is_none() {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
                    _ => "other",
                };
                let ra = self.gargs(inst.args);
                o.push(("r", J::O(vec![("p", s(self.qpath(rd))), ("u", s(self.uid(rd))), ("a", ra), ("k", s(kind))])));
            } else {
                let ra = self.gargs(inst.args);
                let kind = if matches!(inst.def, ty::InstanceKind::Virtual(..)) { "virtual" } else { "default" };
                o.push(("r", J::O(vec![("p", s(self.qpath(rd))), ("u", s(self.uid(rd))), ("a", ra), ("k", s(kind))])));
            }
        }
        J::O(o)
    }

    // Bodies of the small std combinators are analysed like local code instead of being modelled.
    fn note_ext(&mut self, d: DefId) {
        if d.is_local() || self.ext_seen.contains(&d) {
            return;
        }
        let p = self.qpath(d);
        const PRE: [&str; 16] = [
            "core::option::Option::",
            "core::result::Result::",
            "<core::option::Option as core::ops::try_trait::",
            "<core::result::Result as core::ops::try_trait::",
            "core::option::Option as core::ops::try_trait::",
            "core::result::Result as core::ops::try_trait::",
            "core::ops::control_flow::ControlFlow::",
            "<T as core::convert::From>::from",
            "<T as core::convert::Into>::into",
            "<T as core::convert::TryFrom>::try_from",
            "<T as core::convert::TryInto>::try_into",
            "bool::then",
            "core::bool::",
            "<core::option::Option as core::convert::From>::",
            "<core::option::Option as core::default::Default>::",
            "<core::option::Option as core::clone::Clone>::",
        ];
        if PRE.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d) {
            self.ext_seen.insert(d);
            self.ext.push(d);
        }
    }

    fn allocbytes(&self, a: rustc_middle::mir::interpret::ConstAllocation<'tcx>) -> Option<Vec<u8>> {
        let a = a.inner();
        if a.provenance().ptrs().is_empty() {
            let n = a.size().bytes_usize();
            if n > 4096 {
                return None;
            }
            Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec())
        } else {
            None
        }
    }

    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let val = if t.is_signed() { format!("{}", i.to_int(sz)) } else { format!("{}", i.to_uint(sz)) };
                J::O(vec![("int", s(val))])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => J::O(vec![("static", s(self.qpath(d))), ("su", s(self.uid(d)))]),
                    GlobalAlloc::Memory(a) => match self.allocbytes(a) {
                        Some(b) if (off.bytes_usize()) <= b.len() => {
                            J::O(vec![("bytes", s(Self::hex(&b[off.bytes_usize()..])))])
                        }
                        _ => self.memptr(a),
                    },
                    GlobalAlloc::Function { instance, .. } => {
                        J::O(vec![("fnaddr", s(self.uid(instance.def_id()))), ("p", s(self.qpath(instance.def_id())))])
                    }
                    _ => J::O(vec![("ptr", J::B(true))]),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => {
                    let b = self.allocbytes(a).unwrap_or_default();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            return J::O(vec![("str", s(String::from_utf8_lossy(&b).to_string()))]);
                        }
                    }
                    J::O(vec![("bytes", s(Self::hex(&b))), ("len", J::N(meta as i64))])
                }
                _ => J::O(vec![("ptr", J::B(true))]),
            },
            ConstValue::Indirect { alloc_id, .. } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => match self.allocbytes(a) {
                    Some(b) => J::O(vec![("bytes", s(Self::hex(&b)))]),
                    None => self.memptr(a),
                },
                _ => J::O(vec![("ptr", J::B(true))]),
            },
        }
    }

    // memory holding pointers: report the byte strings it points to
    fn memptr(&mut self, a: rustc_middle::mir::interpret::ConstAllocation<'tcx>) -> J {
        use rustc_middle::mir::interpret::GlobalAlloc;
        let mut v = vec![];
        let ptrs: Vec<_> = a.inner().provenance().ptrs().iter().map(|(_, p)| p.alloc_id()).collect();
        for p in ptrs {
            if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(p) {
                if let Some(b) = self.allocbytes(m) {
                    v.push(s(String::from_utf8_lossy(&b).to_string()));
                }
            }
        }
        J::O(vec![("mem", J::A(v))])
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        let tcx = self.tcx;
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(d, args) = t.kind() {
                    let args = (*args).no_bound_vars().unwrap_or(ty::List::empty());
                    return J::O(vec![("fn", self.fnref(owner, *d, args))]);
                }
                let mut out = vec![];
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        out.push(("prom", J::N(p.as_usize() as i64)));
                    } else {
                        out.push(("cdef", s(self.qpath(u.def))));
                    }
                }
                let env = TypingEnv::post_analysis(tcx, owner);
                let generic = {
                    use rustc_middle::ty::TypeVisitableExt;
                    c.const_.has_non_region_param()
                };
                if !generic {
                    match c.const_.eval(tcx, env, c.span) {
                        Ok(v) => out.push(("v", self.constval(v, t))),
                        Err(_) => {}
                    }
                } else {
                    out.push(("gen", s(format!("{}", c.const_))));
                }
                out.push(("ty", self.ty(t)));
                J::O(vec![("k", J::O(out))])
            }
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("rt", s(format!("{:?}", o)))]),
        }
    }

    fn stmt(&mut self, owner: DefId, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pj = self.place(body, p);
                let rj = self.rvalue(owner, body, r);
                Some(J::A(vec![s("="), pj, rj, self.line(st.source_info.span)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(body, place);
                Some(J::A(vec![s("sd"), pj, J::N(variant_index.as_usize() as i64)]))
            }
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), J::N(l.as_usize() as i64)])),
            StatementKind::Intrinsic(i) => {
                if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i {
                    let a = self.operand(owner, body, &c.src);
                    let b = self.operand(owner, body, &c.dst);
                    let n = self.operand(owner, body, &c.count);
                    return Some(J::A(vec![s("cpy"), a, b, n]));
                }
                None
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(owner, body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("rep"), self.operand(owner, body, o), s(format!("{}", n))]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(body, p), J::B(m)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("addr"), self.place(body, p), J::B(matches!(k, RawPtrKind::Mut))])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.qpath(*d))]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(owner, body, o);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), oj, tj])
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                let xj = self.operand(owner, body, x);
                let yj = self.operand(owner, body, y);
                J::A(vec![s("bin"), s(format!("{:?}", op)), xj, yj])
            }
            Rvalue::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(owner, body, x)]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, tcx).ty;
                let mut map = vec![];
                if let ty::Adt(a, _) = pt.kind() {
                    if a.is_enum() {
                        for (vi, d) in a.discriminants(tcx) {
                            map.push((format!("{}", d.val), s(a.variant(vi).name.to_string())));
                        }
                    }
                }
                let pj = self.place(body, p);
                J::A(vec![s("discr"), pj, J::M(map), self.ty(pt)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(owner, body, o));
                }
                let kj = match &**k {
                    AggregateKind::Array(t) => J::O(vec![("k", s("array")), ("ty", self.ty(*t))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let a = tcx.adt_def(*d);
                        let var = a.variant(*vi);
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        let aj = self.gargs(args);
                        J::O(vec![
                            ("k", s("adt")),
                            ("p", s(self.qpath(*d))),
                            ("u", s(self.uid(*d))),
                            ("enum", J::B(a.is_enum())),
                            ("v", s(var.name.to_string())),
                            ("vi", J::N(vi.as_usize() as i64)),
                            ("n", J::A(names)),
                            ("a", aj),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        if !d.is_local() && self.ext_seen.insert(*d) && tcx.is_mir_available(*d) {
                            self.ext.push(*d);
                        }
                        let aj = self.gargs_slice(args.as_closure().parent_args());
                        J::O(vec![("k", s("closure")), ("u", s(self.uid(*d))), ("a", aj)])
                    }
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            #[allow(unreachable_patterns)]
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(body, p))])]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn bb(b: BasicBlock) -> J {
        J::N(b.as_usize() as i64)
    }
    fn unw(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => Self::bb(*b),
            _ => J::Null,
        }
    }

    fn term(&mut self, owner: DefId, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let l = self.line(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", Self::bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                o.push(("o", self.operand(owner, body, discr)));
                let v = targets.iter().map(|(v, b)| J::A(vec![s(format!("{}", v)), Self::bb(b)])).collect();
                o.push(("v", J::A(v)));
                o.push(("e", Self::bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", s("ret"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("k", s("abort"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                o.push(("k", s("drop")));
                o.push(("p", self.place(body, place)));
                let pt = place.ty(&body.local_decls, self.tcx).ty;
                o.push(("ty", self.ty(pt)));
                o.push(("t", Self::bb(*target)));
                o.push(("u", Self::unw(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                o.push(("k", s("call")));
                o.push(("f", self.operand(owner, body, func)));
                let v = args.iter().map(|a| self.operand(owner, body, &a.node)).collect();
                o.push(("a", J::A(v)));
                o.push(("d", self.place(body, destination)));
                o.push(("t", target.map(Self::bb).unwrap_or(J::Null)));
                o.push(("u", Self::unw(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                o.push(("k", s("assert")));
                o.push(("o", self.operand(owner, body, cond)));
                o.push(("x", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow:neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                };
                o.push(("m", s(m)));
                if let AssertKind::BoundsCheck { len, index } = &**msg {
                    let a = self.operand(owner, body, len);
                    let b = self.operand(owner, body, index);
                    o.push(("len", a));
                    o.push(("idx", b));
                }
                o.push(("t", Self::bb(*target)));
                o.push(("u", Self::unw(unwind)));
            }
            other => {
                o.push(("k", s("other")));
                o.push(("d", s(format!("{:?}", other))));
            }
        }
        o.push(("l", l));
        J::O(o)
    }
}
