//! Dumps the resolved program (MIR, types, trait implementations, auto-trait facts) of the crate being
//! compiled as JSON. Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;

use rustc_ast::attr::AttributeExt;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("TRANE_FACTS_OUT") {
            let j = dump(tcx);
            let mut s = String::new();
            j.write(&mut s);
            let kind = if tcx.crate_types().iter().any(|t| *t == rustc_structures::CrateType::Executable) {
                "bin"
            } else {
                "lib"
            };
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            let path = format!("{dir}/{name}.{kind}.json");
            std::fs::write(&path, s).unwrap();
        }
        Compilation::Continue
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn tys(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

fn span(tcx: TyCtxt<'_>, sp: Span) -> J {
    // Report the place the user wrote, i.e. the outermost macro call site.
    let sp = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => r
            .local_path()
            .map(|p| p.to_string_lossy().to_string())
            .unwrap_or_else(|| format!("{:?}", r)),
        o => format!("{:?}", o),
    };
    J::A(vec![J::s(f), J::I(lo.line as i128)])
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut unsafes = vec![];
    let mut consts = vec![];

    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(dump_adt(tcx, d)),
            DefKind::Impl { .. } => impls.push(dump_impl(tcx, ld)),
            DefKind::Trait => {
                let mut ms = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    ms.push(J::O(vec![
                        ("name", J::s(it.name().to_string())),
                        ("path", J::s(path(tcx, it.def_id))),
                        ("default", J::B(it.defaultness(tcx).has_value())),
                        ("is_fn", J::B(matches!(it.kind, ty::AssocKind::Fn { .. }))),
                    ]));
                }
                let supers = tcx
                    .explicit_super_clauses_of(d)
                    .iter_identity_copied()
                    .map(|c| J::s(with_no_trimmed_paths!(format!("{:?}", c))))
                    .collect();
                traits.push(J::O(vec![
                    ("path", J::s(path(tcx, d))),
                    ("methods", J::A(ms)),
                    ("supers", J::A(supers)),
                    ("span", span(tcx, tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if kind == DefKind::Closure && tcx.is_coroutine(d) {
                    continue;
                }
                let body = tcx.optimized_mir(d);
                fns.push(dump_body(tcx, d, body, None));
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                    fns.push(dump_body(tcx, d, p, Some(i.as_usize())));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let body = tcx.mir_for_ctfe(d);
                fns.push(dump_body(tcx, d, body, None));
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                    fns.push(dump_body(tcx, d, p, Some(i.as_usize())));
                }
                consts.push(J::O(vec![
                    ("path", J::s(path(tcx, d))),
                    ("kind", J::s(format!("{:?}", kind))),
                    ("ty", J::s(tys(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                ]));
            }
            _ => {}
        }
    }
    struct V<'a, 'tcx> {
        tcx: TyCtxt<'tcx>,
        out: &'a mut Vec<J>,
    }
    impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                self.out.push(J::O(vec![
                    ("kind", J::s("block")),
                    ("user", J::B(matches!(src, rustc_hir::UnsafeSource::UserProvided))),
                    ("expn", J::B(b.span.from_expansion())),
                    ("owner", J::s(path(self.tcx, b.hir_id.owner.to_def_id()))),
                    ("span", span(self.tcx, b.span)),
                ]));
            }
            rustc_hir::intravisit::walk_block(self, b);
        }
    }
    let mut v = V { tcx, out: &mut unsafes };
    tcx.hir_walk_toplevel_module(&mut v);

    let mut files = vec![];
    for f in tcx.sess.source_map().files().iter() {
        if let rustc_span::FileName::Real(r) = &f.name {
            if let Some(p) = r.local_path() {
                if f.cnum == rustc_hir::def_id::LOCAL_CRATE {
                    files.push(J::s(p.to_string_lossy().to_string()));
                }
            }
        }
    }
    J::O(vec![
        ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("unsafes", J::A(unsafes)),
        ("consts", J::A(consts)),
        ("files", J::A(files)),
    ])
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: ty::ParamEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    infcx.type_implements_trait(tr, [ty::GenericArg::from(t)], env).must_apply_modulo_regions()
}

fn send_sync<'tcx>(tcx: TyCtxt<'tcx>, env: ty::ParamEnv<'tcx>, t: Ty<'tcx>) -> (bool, bool) {
    let t = tcx.erase_and_anonymize_regions(t);
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap();
    let sync = tcx.lang_items().sync_trait().unwrap();
    (implements(tcx, env, t, send), implements(tcx, env, t, sync))
}

/// The helper attributes left on an item, as name(key=value;...).
fn attrs(tcx: TyCtxt<'_>, d: DefId) -> Vec<J> {
    let mut out = vec![];
    let Some(l) = d.as_local() else { return out };
    // Tuple struct constructors and the like have no attributes of their own.
    let hid = tcx.local_def_id_to_hir_id(l);
    for a in tcx.hir_attrs(hid) {
        let p: Vec<String> = a.path().iter().map(|s| s.to_string()).collect();
        if p.first().map(String::as_str) == Some("doc") || p.is_empty() {
            continue;
        }
        let mut txt = String::new();
        if let Some(items) = a.meta_item_list() {
            for it in items {
                let nm = it.name().map(|s| s.to_string()).unwrap_or_default();
                let val = it.value_str().map(|s| s.to_string()).unwrap_or_default();
                let nested = it.meta_item_list().map(|l| {
                    l.iter()
                        .map(|i| format!("{}:{}", i.name().map(|s| s.to_string()).unwrap_or_default(), i.value_str().map(|s| s.to_string()).unwrap_or_default()))
                        .collect::<Vec<_>>()
                        .join(",")
                });
                txt.push_str(&format!("{nm}={val}{};", nested.map(|n| format!("[{n}]")).unwrap_or_default()));
            }
        }
        out.push(J::s(format!("{}({})", p.join("::"), txt)));
    }
    out
}

fn dump_adt<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    let adt = tcx.adt_def(d);
    let env = tcx.param_env(d);
    let args = ty::GenericArgs::identity_for_item(tcx, d);
    let mut vs = vec![];
    for (vi, v) in adt.variants().iter_enumerated() {
        let mut fs = vec![];
        for f in v.fields.iter() {
            let t = f.ty(tcx, args).skip_norm_wip();
            let (snd, syn) = send_sync(tcx, env, t);
            let at = attrs(tcx, f.did);
            fs.push(J::O(vec![
                ("name", J::s(f.name.to_string())),
                ("ty", J::s(tys(t))),
                ("pub", J::B(tcx.visibility(f.did).is_public())),
                ("send", J::B(snd)),
                ("sync", J::B(syn)),
                ("attrs", J::A(at)),
            ]));
        }
        let discr = if adt.is_enum() { J::I(adt.discriminant_for_variant(tcx, vi).val as i128) } else { J::Null };
        vs.push(J::O(vec![("name", J::s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs)), ("attrs", J::A(attrs(tcx, v.def_id)))]));
    }
    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    let (snd, syn) = send_sync(tcx, env, t);
    J::O(vec![
        ("path", J::s(path(tcx, d))),
        ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
        ("pub", J::B(tcx.effective_visibilities(()).is_exported(d.expect_local()))),
        ("send", J::B(snd)),
        ("sync", J::B(syn)),
        ("variants", J::A(vs)),
        ("attrs", J::A(attrs(tcx, d))),
        ("span", span(tcx, tcx.def_span(d))),
    ])
}

fn dump_impl<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId) -> J {
    let d = ld.to_def_id();
    let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    let mut ms = vec![];
    for it in tcx.associated_items(d).in_definition_order() {
        ms.push(J::O(vec![
            ("name", J::s(it.name().to_string())),
            ("path", J::s(path(tcx, it.def_id))),
            ("is_fn", J::B(matches!(it.kind, ty::AssocKind::Fn { .. }))),
            (
                "trait_item",
                J::opt(it.trait_item_def_id().map(|t| J::s(path(tcx, t)))),
            ),
        ]));
    }
    let (tr, trfull, uns, neg) = if tcx.impl_is_of_trait(d) {
        let h = tcx.impl_trait_header(d);
        let t = h.trait_ref.instantiate_identity().skip_norm_wip();
        (
            J::s(path(tcx, t.def_id)),
            J::s(with_no_trimmed_paths!(t.to_string())),
            matches!(h.safety, rustc_hir::Safety::Unsafe),
            matches!(h.polarity, ty::ImplPolarity::Negative),
        )
    } else {
        (J::Null, J::Null, false, false)
    };
    let sadt = match self_ty.kind() {
        ty::Adt(a, _) => J::s(path(tcx, a.did())),
        _ => J::Null,
    };
    J::O(vec![
        ("self", J::s(tys(self_ty))),
        ("self_adt", sadt),
        ("trait", tr),
        ("trait_ref", trfull),
        ("unsafe", J::B(uns)),
        ("negative", J::B(neg)),
        ("derived", J::B(tcx.is_automatically_derived(d))),
        ("methods", J::A(ms)),
        ("span", span(tcx, tcx.def_span(d))),
    ])
}

struct Cx<'tcx, 'a> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> J {
    let env = TypingEnv::post_analysis(tcx, d);
    let cx = Cx { tcx, body, env };
    let mut locals = vec![];
    for l in body.local_decls.iter() {
        locals.push(J::s(tys(l.ty)));
    }
    let mut names = vec![];
    for v in body.var_debug_info.iter() {
        if let VarDebugInfoContents::Place(p) = v.value {
            names.push(J::A(vec![J::s(v.name.to_string()), cx.place(&p), span(tcx, v.source_info.span)]));
        }
    }
    let mut blocks = vec![];
    for (bb, b) in body.basic_blocks.iter_enumerated() {
        let _ = bb;
        if b.is_cleanup {
            // Unwind paths are not analysed; keep the numbering.
            blocks.push(J::Null);
            continue;
        }
        let mut st = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(bx) => {
                    let (p, r) = &**bx;
                    st.push(J::A(vec![J::s("="), cx.place(p), cx.rvalue(r), span(tcx, s.source_info.span)]));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    st.push(J::A(vec![
                        J::s("discr"),
                        cx.place(place),
                        J::I(variant_index.as_usize() as i128),
                        span(tcx, s.source_info.span),
                    ]));
                }
                StatementKind::StorageDead(l) => {
                    st.push(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128)]));
                }
                _ => {}
            }
        }
        let t = b.terminator();
        blocks.push(J::O(vec![("s", J::A(st)), ("t", cx.term(t))]));
    }
    let kind = tcx.def_kind(d);
    let parent_fn = if kind == DefKind::Closure { J::s(path(tcx, tcx.local_parent(d.expect_local()).to_def_id())) } else { J::Null };
    let (mut impl_trait, mut impl_self, mut trait_item) = (J::Null, J::Null, J::Null);
    if kind == DefKind::AssocFn {
        if let Some(i) = tcx.impl_of_assoc(d) {
            impl_self = J::s(tys(tcx.type_of(i).instantiate_identity().skip_norm_wip()));
            if tcx.impl_is_of_trait(i) {
                impl_trait = J::s(path(tcx, tcx.impl_trait_id(i)));
            }
        }
        if let Some(ti) = tcx.associated_item(d).trait_item_def_id() {
            trait_item = J::s(path(tcx, ti));
        }
    }
    let vis_pub = match kind {
        DefKind::Fn | DefKind::AssocFn => tcx.effective_visibilities(()).is_reachable(d.expect_local()),
        _ => false,
    };
    J::O(vec![
        ("path", J::s(path(tcx, d))),
        ("promoted", promoted.map(|p| J::I(p as i128)).unwrap_or(J::Null)),
        ("kind", J::s(format!("{:?}", kind))),
        ("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
        ("parent_fn", parent_fn),
        ("module", J::s(path(tcx, tcx.parent_module_from_def_id(d.expect_local()).to_def_id()))),
        ("impl_self", impl_self),
        ("impl_trait", impl_trait),
        ("trait_item", trait_item),
        ("pub", J::B(vis_pub)),
        ("derived", J::B(tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false))),
        ("argc", J::I(body.arg_count as i128)),
        ("locals", J::A(locals)),
        ("names", J::A(names)),
        ("blocks", J::A(blocks)),
        ("span", span(tcx, body.span)),
    ])
}

impl<'tcx, 'a> Cx<'tcx, 'a> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut out = vec![J::I(p.local.as_usize() as i128)];
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push(J::s("*")),
                ProjectionElem::Field(f, _) => {
                    let (nm, ad) = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pty.variant_index {
                                Some(v) => a.variant(v),
                                None if !a.is_enum() => a.non_enum_variant(),
                                _ => a.variant(rustc_abi::FIRST_VARIANT),
                            };
                            (v.fields[f].name.to_string(), path(self.tcx, a.did()))
                        }
                        ty::Closure(..) => (f.as_usize().to_string(), "closure".into()),
                        _ => (f.as_usize().to_string(), "tuple".into()),
                    };
                    out.push(J::A(vec![J::s("f"), J::s(nm), J::s(ad), J::I(f.as_usize() as i128)]));
                }
                ProjectionElem::Downcast(_, v) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    out.push(J::A(vec![J::s("v"), J::s(nm), J::I(v.as_usize() as i128)]));
                }
                ProjectionElem::Index(l) => out.push(J::A(vec![J::s("i"), J::I(l.as_usize() as i128)])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(J::A(vec![J::s("c"), J::I(offset as i128), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    out.push(J::A(vec![J::s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]))
                }
                _ => {
                    if let ProjectionElem::OpaqueCast(_) = e {}
                }
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(out)
    }

    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("C"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("M"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("K"), self.constant(c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("?")]),
        }
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", J::s(path(tcx, d)))];
        o.push(("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        let ga: Vec<J> = args.iter().map(|a| J::s(with_no_trimmed_paths!(a.to_string()))).collect();
        o.push(("args", J::A(ga)));
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, t))));
            if let Some(st) = args.types().next() {
                o.push(("selfty", J::s(tys(st))));
                if let ty::Closure(cd, _) = st.peel_refs().kind() {
                    o.push(("selfclosure", J::s(path(tcx, *cd))));
                }
            }
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            o.push(("selfty", J::s(tys(tcx.type_of(i).instantiate(tcx, args).skip_norm_wip()))));
        }
        if is_fn {
            let args_e = tcx.erase_and_anonymize_regions(args);
            match Instance::try_resolve(tcx, self.env, d, args_e) {
                Ok(Some(inst)) => {
                    let k = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    };
                    o.push(("rk", J::s(k)));
                    o.push(("res", J::s(path(tcx, inst.def_id()))));
                    o.push(("rlocal", J::B(inst.def_id().is_local())));
                }
                _ => {
                    o.push(("rk", J::s("none")));
                }
            }
        }
        o.push(("local", J::B(d.is_local())));
        // The types of closures and function items among the generic arguments: who may be called back.
        let mut cb = vec![];
        for t in args.types() {
            for w in t.walk() {
                if let Some(t) = w.as_type() {
                    match t.kind() {
                        ty::Closure(cd, _) => cb.push(J::s(path(tcx, *cd))),
                        ty::FnDef(fd, _) => cb.push(J::s(path(tcx, *fd))),
                        _ => {}
                    }
                }
            }
        }
        if !cb.is_empty() {
            o.push(("cb", J::A(cb)));
        }
        J::O(o)
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", J::s(tys(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            o.push(("fn", self.fnref(*d, args.skip_binder())));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("uneval", J::s(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                return J::O(o);
            }
        }
        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
            match t.kind() {
                ty::Bool => {
                    if let Some(b) = v.try_to_bool() {
                        o.push(("bool", J::B(b)));
                    }
                }
                ty::Int(_) | ty::Uint(_) | ty::Char => {
                    if let Some(si) = v.try_to_scalar_int() {
                        let n: i128 = if let ty::Int(_) = t.kind() {
                            si.to_int(si.size())
                        } else {
                            si.to_bits(si.size()) as i128
                        };
                        o.push(("int", J::I(n)));
                    }
                }
                ty::Float(ft) => {
                    if let Some(si) = v.try_to_scalar_int() {
                        let f = if ft.bit_width() == 32 {
                            format!("{:?}", f32::from_bits(si.to_u32()))
                        } else {
                            format!("{:?}", f64::from_bits(si.to_u64()))
                        };
                        o.push(("float", J::s(f)));
                    }
                }
                ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() {
                            o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                        } else {
                            o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
                ty::Ref(_, inner, _) => {
                    // &[u8; N] and the like, and references to statics.
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                        let aid = p.provenance.alloc_id();
                        match tcx.global_alloc(aid) {
                            mir::interpret::GlobalAlloc::Static(sd) => {
                                o.push(("static", J::s(path(tcx, sd))));
                            }
                            mir::interpret::GlobalAlloc::Memory(m) => {
                                if let ty::Array(e, _) = inner.kind() {
                                    if *e == tcx.types.u8 {
                                        let a = m.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                        o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                ty::RawPtr(..) => {
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                        if let mir::interpret::GlobalAlloc::Static(sd) = tcx.global_alloc(p.provenance.alloc_id()) {
                            o.push(("static", J::s(path(tcx, sd))));
                        }
                    }
                }
                ty::Adt(a, _) if a.is_enum() => {
                    if let Some(si) = v.try_to_scalar_int() {
                        o.push(("int", J::I(si.to_bits(si.size()) as i128)));
                        let bits = si.to_bits(si.size());
                        for (vi, dv) in a.discriminants(tcx) {
                            if dv.val == bits {
                                o.push(("variant", J::s(a.variant(vi).name.to_string())));
                            }
                        }
                    }
                }
                _ => {}
            }
            if let ConstValue::ZeroSized = v {
                o.push(("zst", J::B(true)));
            }
        }
        J::O(o)
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("repeat"), self.operand(o), J::s(n.to_string())]),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![J::s("cast"), self.operand(o), J::s(tys(*t)), J::s(format!("{:?}", k)), J::s(tys(o.ty(self.body, tcx)))])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1),
                J::s(tys(b.0.ty(self.body, tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                let mut m = vec![];
                let mut ad = J::Null;
                if let ty::Adt(a, _) = t.kind() {
                    ad = J::s(path(tcx, a.did()));
                    if a.is_enum() {
                        for (vi, dv) in a.discriminants(tcx) {
                            m.push(J::A(vec![J::I(dv.val as i128), J::s(a.variant(vi).name.to_string())]));
                        }
                    }
                }
                J::A(vec![J::s("discr"), self.place(p), ad, J::A(m)])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        let names: Vec<J> = vd.fields.iter().map(|f| J::s(f.name.to_string())).collect();
                        let _ = active;
                        J::A(vec![J::s("adt"), J::s(path(tcx, *d)), J::s(vd.name.to_string()), J::A(names), J::I(v.as_usize() as i128)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::s(path(tcx, *d))]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kk, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("C"), self.place(p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(path(tcx, *d))]),
            _ => J::A(vec![J::s("?")]),
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let bb = |b: &BasicBlock| J::I(b.as_usize() as i128);
        let sp = span(tcx, t.source_info.span);
        let mut o = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("t", bb(target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                o.push(("d", self.operand(discr)));
                o.push(("ty", J::s(tys(discr.ty(self.body, tcx)))));
                let ts = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(&b)])).collect();
                o.push(("ts", J::A(ts)));
                o.push(("o", bb(&targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", J::s("drop")));
                o.push(("p", self.place(place)));
                o.push(("ty", J::s(tys(place.ty(self.body, tcx).ty))));
                o.push(("t", bb(target)));
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                o.push(("k", J::s("call")));
                match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        ty::FnDef(d, ga) => o.push(("f", self.fnref(*d, ga.skip_binder()))),
                        _ => o.push(("fo", self.operand(func))),
                    },
                    _ => o.push(("fo", self.operand(func))),
                }
                o.push(("a", J::A(args.iter().map(|a| self.operand(&a.node)).collect())));
                o.push(("at", J::A(args.iter().map(|a| J::s(tys(a.node.ty(self.body, tcx)))).collect())));
                o.push(("d", self.place(destination)));
                o.push(("dt", J::s(tys(destination.ty(self.body, tcx).ty))));
                o.push(("t", J::opt(target.as_ref().map(|b| bb(b)))));
                o.push(("fsp", span(tcx, *fn_span)));
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                o.push(("k", J::s("assert")));
                o.push(("c", self.operand(cond)));
                o.push(("e", J::B(*expected)));
                o.push(("t", bb(target)));
                let m = format!("{:?}", msg);
                let m = m.split('(').next().unwrap_or("").to_string();
                o.push(("m", J::s(m)));
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", J::s("unwind"))),
            other => {
                o.push(("k", J::s("other")));
                o.push(("dbg", J::s(format!("{:?}", other))));
            }
        }
        o.push(("sp", sp));
        J::O(o)
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WORKSPACE_WRAPPER the first argument is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    if !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
