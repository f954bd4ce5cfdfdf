// Fact extractor: runs as rustc (RUSTC_WORKSPACE_WRAPPER), dumps the resolved, monomorphised MIR of
// the crate named by VELATO_FACTS_CRATE (and of the small dependency functions it reaches) as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_ast::ast::{LitKind, MetaItemInner, MetaItemKind};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt as _};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::I(x as i128)
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, usize>,
    adt_list: Vec<J>,
    inst_ids: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>, Option<DefId>)>,
    insts: Vec<J>,
    statics: HashMap<DefId, bool>,
    static_list: Vec<DefId>,
}

// Dependencies whose (small, generic or inline) bodies are followed.
const FOLLOW: &[&str] = &["core", "kurbo", "peniko", "color", "linebender_resource_handle"];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::A(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), u(lo.line)])
    }
    fn args(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(u(self.ty(env, root, t)));
            } else if let Some(c) = a.as_const() {
                v.push(s(format!("const {c}")));
            }
        }
        J::A(v)
    }
    fn instance(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, i: Instance<'tcx>) -> usize {
        let root = if i.args.has_param() || i.args.has_aliases() { root } else { None };
        if let Some(&x) = self.inst_ids.get(&(i, root)) {
            return x;
        }
        let id = self.insts.len();
        self.insts.push(J::Null);
        self.inst_ids.insert((i, root), id);
        self.queue.push_back((id, i, env, root));
        id
    }
    fn resolve(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, d: DefId, a: GenericArgsRef<'tcx>) -> Option<usize> {
        let a = self.tcx.erase_and_anonymize_regions(a);
        match Instance::try_resolve(self.tcx, env, d, a) {
            Ok(Some(i)) => Some(self.instance(env, root, i)),
            _ => None,
        }
    }
    fn ty(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, id);
        let name = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("adt", u(self.adt(*def))));
                o.push(("path", s(self.path(def.did()))));
                o.push(("args", self.args(env, root, args)));
                // instantiated field types
                let mut vs = vec![];
                let small = def.did().is_local() || !matches!(self.tcx.crate_name(def.did().krate).as_str(), "alloc" | "std" | "hashbrown" | "serde_json" | "wgpu");
                if small && !def.is_union() {
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            fs.push(u(self.ty(env, root, ft)));
                        }
                        vs.push(J::A(fs));
                    }
                }
                o.push(("fields", J::A(vs)));
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", u(self.ty(env, root, *t2))));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", u(self.ty(env, root, *t2))));
            }
            ty::Array(t2, n) => {
                o.push(("k", s("array")));
                o.push(("t", u(self.ty(env, root, *t2))));
                o.push(("n", match n.try_to_target_usize(self.tcx) { Some(n) => J::I(n as i128), None => J::Null }));
            }
            ty::Slice(t2) => {
                o.push(("k", s("slice")));
                o.push(("t", u(self.ty(env, root, *t2))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| u(self.ty(env, root, x))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                let args = args.no_bound_vars().unwrap_or_else(|| self.tcx.instantiate_bound_regions_with_erased(*args));
                o.push(("args", self.args(env, root, args)));
                let r = if matches!(self.tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) { self.resolve(env, root, *d, args) } else { None };
                o.push(("inst", r.map_or(J::Null, u)));
                if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                    o.push(("trait", s(self.path(tr))));
                }
                if matches!(self.tcx.def_kind(*d), DefKind::Ctor(..)) {
                    let p = self.tcx.parent(*d);
                    let (adt, vidx) = if self.tcx.def_kind(p) == DefKind::Variant {
                        let a = self.tcx.adt_def(self.tcx.parent(p));
                        (a, a.variant_index_with_id(p).as_usize())
                    } else { (self.tcx.adt_def(p), 0) };
                    o.push(("ctor", J::A(vec![u(self.adt(adt)), u(vidx)])));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let i = Instance::new_raw(*d, args);
                o.push(("inst", u(self.instance(env, root, i))));
                let v = args.as_closure().upvar_tys().iter().map(|x| u(self.ty(env, root, x))).collect();
                o.push(("up", J::A(v)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> usize {
        if let Some(&i) = self.adts.get(&def.did()) {
            return i;
        }
        let id = self.adt_list.len();
        self.adt_list.push(J::Null);
        self.adts.insert(def.did(), id);
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
        for (i, v) in def.variants().iter().enumerate() {
            let fs = v
                .fields
                .iter()
                .map(|f| {
                    let mut o = vec![("n", s(f.name.to_string())), ("vis", J::B(f.vis.is_public()))];
                    if def.did().is_local() {
                        o.push(("attrs", self.attrs(f.did)));
                        o.push(("ty", s(with_no_trimmed_paths!(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip())))));
                        o.push(("span", self.span(tcx.def_span(f.did))));
                    }
                    J::O(o)
                })
                .collect();
            let mut o = vec![("n", s(v.name.to_string())), ("d", J::I(discrs.get(i).copied().unwrap_or(0) as i128)), ("f", J::A(fs))];
            if def.did().is_local() && def.is_enum() {
                o.push(("attrs", self.attrs(v.def_id)));
            }
            o.push(("ctor", s(format!("{:?}", v.ctor_kind()))));
            vs.push(J::O(o));
        }
        let mut o = vec![
            ("path", s(self.path(def.did()))),
            ("local", J::B(def.did().is_local())),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("variants", J::A(vs)),
            ("box", J::B(def.is_box())),
        ];
        if def.did().is_local() {
            o.push(("attrs", self.attrs(def.did())));
            o.push(("span", self.span(tcx.def_span(def.did()))));
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(def.did().expect_local()))));
            if !self.path(def.did()).contains("::_::") {
                // thread-safety and interior mutability of the type with its parameters taken as f64
                let args = ty::GenericArgs::for_item(tcx, def.did(), |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => tcx.types.f64.into(),
                    ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
                });
                let t = Ty::new_adt(tcx, def, args);
                o.push(("send", self.implements(t, tcx.get_diagnostic_item(rustc_span::sym::Send))));
                o.push(("sync", self.implements(t, tcx.lang_items().sync_trait())));
                let mut seen = HashSet::new();
                let mut why = vec![];
                self.interior(t, &mut seen, &mut why, 0);
                why.sort();
                why.dedup();
                o.push(("interior", J::A(why.into_iter().map(s).collect())));
            }
            o.push(("generics", J::A(tcx.generics_of(def.did()).own_params.iter().map(|p| s(p.name.to_string())).collect())));
        }
        self.adt_list[id] = J::O(o);
        id
    }
    fn implements(&self, t: Ty<'tcx>, tr: Option<DefId>) -> J {
        use rustc_infer::infer::TyCtxtInferExt as _;
        use rustc_trait_selection::infer::InferCtxtExt as _;
        let Some(tr) = tr else { return J::Null };
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(TypingEnv::fully_monomorphized());
        J::B(infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions())
    }
    /// interior mutability anywhere inside a type (through boxes, collections and shared pointers)
    fn interior(&self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>, depth: usize) {
        let tcx = self.tcx;
        if depth > 60 || !seen.insert(t) {
            return;
        }
        match t.kind() {
            ty::Adt(def, args) => {
                if def.is_unsafe_cell() {
                    out.push(self.path(def.did()));
                    return;
                }
                let p = self.path(def.did());
                for a in args.types() {
                    self.interior(a, seen, out, depth + 1);
                }
                if p == "std::sync::Arc" || p == "std::rc::Rc" || p == "std::sync::Weak" || p == "std::rc::Weak" {
                    return;
                }
                let before = out.len();
                for f in def.all_fields() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                    self.interior(ft, seen, out, depth + 1);
                }
                if out.len() > before && !def.did().is_local() {
                    out.truncate(before);
                    out.push(p);
                }
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Array(x, _) | ty::Slice(x) => self.interior(*x, seen, out, depth + 1),
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    self.interior(x, seen, out, depth + 1);
                }
            }
            ty::Dynamic(..) | ty::FnPtr(..) => out.push(format!("{t}")),
            _ => {}
        }
    }
    fn meta(&self, m: &MetaItemInner) -> J {
        match m {
            MetaItemInner::Lit(l) => J::O(vec![("lit", s(format!("{}", l.symbol)))]),
            MetaItemInner::MetaItem(mi) => {
                let p = mi.path.segments.iter().map(|x| x.ident.name.to_string()).collect::<Vec<_>>().join("::");
                let v = match &mi.kind {
                    MetaItemKind::Word => J::Null,
                    MetaItemKind::NameValue(l) => match &l.kind {
                        LitKind::Str(x, _) => s(x.to_string()),
                        _ => s(format!("{}", l.symbol)),
                    },
                    MetaItemKind::List(l) => J::A(l.iter().map(|x| self.meta(x)).collect()),
                };
                J::O(vec![("p", s(p)), ("v", v)])
            }
        }
    }
    fn attrs(&self, d: DefId) -> J {
        use rustc_ast::attr::AttributeExt;
        let Some(l) = d.as_local() else { return J::A(vec![]) };
        let h = self.tcx.local_def_id_to_hir_id(l);
        let mut out = vec![];
        for a in self.tcx.hir_attrs(h) {
            let Some(name) = a.name() else { continue };
            if name.as_str() == "serde" || name.as_str() == "repr" {
                match a.meta_item_list() {
                    Some(ml) => {
                        for m in ml.iter() {
                            out.push(J::O(vec![("a", s(name.to_string())), ("m", self.meta(m))]));
                        }
                    }
                    None => out.push(J::O(vec![("a", s(name.to_string())), ("m", J::Null)])),
                }
            }
        }
        J::A(out)
    }

    // ---------------------------------------------------------------- constants
    fn cval(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(env, root, t);
        if depth > 12 {
            return J::O(vec![("c", s("deep")), ("t", u(tid))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { .. } => v.try_to_scalar().and_then(|x| x.try_to_scalar_int().ok()).or_else(|| self.read_scalar(env, v, t)),
                    _ => None,
                };
                if let Some(i) = sc {
                    let size = i.size();
                    let bits = i.to_bits(size);
                    return J::O(vec![("c", s("int")), ("t", u(tid)), ("bits", s(bits.to_string())), ("size", u(size.bytes_usize()))]);
                }
                J::O(vec![("c", s("opaque")), ("t", u(tid))])
            }
            ty::FnDef(..) | ty::Closure(..) => J::O(vec![("c", s("zst")), ("t", u(tid))]),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() {
                            return J::O(vec![("c", s("str")), ("t", u(tid)), ("v", s(String::from_utf8_lossy(bytes)))]);
                        }
                        if let ty::Slice(e) = inner.kind() {
                            if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                return J::O(vec![("c", s("bytes")), ("t", u(tid)), ("v", s(String::from_utf8_lossy(bytes)))]);
                            }
                        }
                    }
                    return J::O(vec![("c", s("opaque")), ("t", u(tid))]);
                }
                let sc = match v {
                    ConstValue::Scalar(x) => Some(x),
                    _ => v.try_to_scalar(),
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(_) => {
                            let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let x = self.cval(env, root, cv, *inner, depth + 1);
                            return J::O(vec![("c", s("ref")), ("t", u(tid)), ("v", x)]);
                        }
                        GlobalAlloc::Static(d) => {
                            if self.statics.insert(d, true).is_none() {
                                self.static_list.push(d);
                            }
                            return J::O(vec![("c", s("static")), ("t", u(tid)), ("path", s(self.path(d)))]);
                        }
                        GlobalAlloc::Function { instance } => {
                            let i = self.instance(env, root, instance);
                            return J::O(vec![("c", s("fn")), ("t", u(tid)), ("inst", u(i))]);
                        }
                        _ => {}
                    }
                }
                J::O(vec![("c", s("opaque")), ("t", u(tid))])
            }
            ty::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(p.into_raw_parts().0.alloc_id()) {
                        let i = self.instance(env, root, instance);
                        return J::O(vec![("c", s("fn")), ("t", u(tid)), ("inst", u(i))]);
                    }
                }
                J::O(vec![("c", s("opaque")), ("t", u(tid))])
            }
            ty::Adt(def, _) if !def.is_union() && !t.has_param() => match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                Some(d) => {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(env, root, *v, *t, depth + 1)).collect();
                    J::O(vec![("c", s("agg")), ("t", u(tid)), ("var", u(d.variant.map_or(0, |x| x.as_usize()))), ("f", J::A(fs))])
                }
                None => J::O(vec![("c", s("opaque")), ("t", u(tid))]),
            },
            ty::Tuple(_) | ty::Array(..) if !t.has_param() => match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                Some(d) => {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(env, root, *v, *t, depth + 1)).collect();
                    J::O(vec![("c", s("agg")), ("t", u(tid)), ("var", u(0)), ("f", J::A(fs))])
                }
                None => J::O(vec![("c", s("opaque")), ("t", u(tid))]),
            },
            _ => J::O(vec![("c", s("opaque")), ("t", u(tid))]),
        }
    }
    fn read_scalar(&self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<ty::ScalarInt> {
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
            let size = self.tcx.layout_of(env.as_query_input(t)).ok()?.size;
            let sc = a.inner().read_scalar(&self.tcx, mir::interpret::alloc_range(offset, size), false).ok()?;
            return sc.try_to_scalar_int().ok();
        }
        None
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, me: usize, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let tid = self.ty(env, root, t);
        if matches!(t.kind(), ty::FnDef(..)) {
            return J::O(vec![("c", s("zst")), ("t", u(tid))]);
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                // promoted bodies are dumped along with their owner
                return J::O(vec![("c", s("promoted")), ("t", u(tid)), ("inst", u(me)), ("i", u(p.as_usize())), ("def", s(self.path(uv.def))),
                    ("v", match c.eval(self.tcx, env, rustc_span::DUMMY_SP) { Ok(v) if !t.has_param() => self.cval(env, root, v, t, 0), _ => J::Null })]);
            }
        }
        match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let j = self.cval(env, root, v, t, 0);
                if let Const::Unevaluated(uv, _) = c {
                    return J::O(vec![("c", s("named")), ("t", u(tid)), ("path", s(self.path(uv.def))), ("v", j)]);
                }
                j
            }
            Err(_) => {
                if let Const::Unevaluated(uv, _) = c {
                    return J::O(vec![("c", s("uneval")), ("t", u(tid)), ("path", s(self.path(uv.def)))]);
                }
                J::O(vec![("c", s("param")), ("t", u(tid)), ("v", s(format!("{c:?}")))])
            }
        }
    }

    // ---------------------------------------------------------------- bodies
    fn place(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let t = self.ty(env, root, cur.ty);
                    J::A(vec![s("*"), u(t)])
                }
                ProjectionElem::Field(f, t) => {
                    let bt = self.ty(env, root, cur.ty);
                    let vi = cur.variant_index.map_or(J::Null, |x| u(x.as_usize()));
                    let ft = self.ty(env, root, t);
                    J::A(vec![s("."), u(f.as_usize()), vi, u(bt), u(ft)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("[c]"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("[..]"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("as"), u(vi.as_usize())]),
                _ => J::A(vec![s("cast")]),
            };
            cur = cur.projection_ty(self.tcx, e);
            v.push(j);
        }
        J::A(v)
    }
    fn op(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, me: usize, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(env, root, body, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(env, root, body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(env, root, me, &c.const_)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, me: usize, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(env, root, me, body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(env, root, me, body, o), n.try_to_target_usize(self.tcx).map_or(J::Null, |n| J::I(n as i128))]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), s(if matches!(bk, BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(env, root, body, p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), s(if m.is_mut() { "mut" } else { "shr" }), self.place(env, root, body, p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{k:?}")), self.place(env, root, body, p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(env, root, body, p)])]),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                let ft = self.ty(env, root, ft);
                let tt = self.ty(env, root, *t);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.op(env, root, me, body, o), u(ft), u(tt)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(env, root, t);
                J::A(vec![s("bin"), s(format!("{b:?}")), self.op(env, root, me, body, &ops.0), self.op(env, root, me, body, &ops.1), u(t)])
            }
            Rvalue::UnaryOp(b, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let t = self.ty(env, root, t);
                J::A(vec![s("un"), s(format!("{b:?}")), self.op(env, root, me, body, o), u(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(env, root, t);
                J::A(vec![s("discr"), self.place(env, root, body, p), u(t)])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops = J::A(fs.iter().map(|o| self.op(env, root, me, body, o)).collect());
                let t = r.ty(&body.local_decls, self.tcx);
                let tid = self.ty(env, root, t);
                let (kind, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, _) => ("adt", vi.as_usize()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    _ => ("other", 0),
                };
                J::A(vec![s("agg"), s(kind), u(tid), u(vi), ops])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(env, root, me, body, o)]),
        }
    }
    fn body(&mut self, env: TypingEnv<'tcx>, root: Option<DefId>, me: usize, body: &Body<'tcx>) -> J {
        let locals = body.local_decls.iter().map(|l| u(self.ty(env, root, l.ty))).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(env, root, body, &a.0);
                        let r = self.rvalue(env, root, me, body, &a.1);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(env, root, body, place);
                        st.push(J::A(vec![s("setd"), p, u(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let j = match &**i {
                            NonDivergingIntrinsic::Assume(_) => continue,
                            NonDivergingIntrinsic::CopyNonOverlapping(_) => J::A(vec![s("copy")]),
                        };
                        st.push(j);
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&body.local_decls, self.tcx);
                    let ty_ = self.ty(env, root, ty_);
                    let v = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), u(b.as_usize())])).collect();
                    J::A(vec![s("switch"), self.op(env, root, me, body, discr), J::A(v), u(targets.otherwise().as_usize()), u(ty_)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pt = self.ty(env, root, pt);
                    J::A(vec![s("drop"), self.place(env, root, body, place), u(target.as_usize()), u(pt)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(env, root, me, body, func);
                    let a = args.iter().map(|a| self.op(env, root, me, body, &a.node)).collect();
                    let d = self.place(env, root, body, destination);
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(env, root, dt);
                    let at = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); u(self.ty(env, root, t)) }).collect();
                    J::A(vec![s("call"), f, J::A(a), d, target.map_or(J::Null, |t| u(t.as_usize())), u(dt), J::A(at)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow {b:?}"), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow Neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let o = ops.into_iter().map(|o| self.op(env, root, me, body, o)).collect();
                    J::A(vec![s("assert"), self.op(env, root, me, body, cond), J::B(*expected), s(k), J::A(o), u(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp)]));
        }
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(env, root, body, p), v.argument_index.map_or(J::Null, |x| J::I(x as i128))]));
            }
        }
        J::O(vec![
            ("argc", u(body.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("dbg", J::A(dbg)),
            ("spread", body.spread_arg.map_or(J::Null, |l| u(l.as_usize()))),
        ])
    }
    fn callees(&mut self, body: &Body<'tcx>) -> J {
        let mut set = HashSet::new();
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { continue; }
            if let TerminatorKind::Call { func, .. } = &bb.terminator().kind {
                if let Some((d, _)) = func.const_fn_def() {
                    set.insert(self.path(d));
                }
            }
        }
        let mut v: Vec<_> = set.into_iter().collect();
        v.sort();
        J::A(v.into_iter().map(s).collect())
    }
    fn process(&mut self, id: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(_) => "shim",
            _ => "other",
        };
        let krate = tcx.crate_name(d.krate).to_string();
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(self.path(d))),
            ("kind", s(kind)),
            ("crate", s(krate.clone())),
            ("local", J::B(d.is_local())),
            ("full", s(with_no_trimmed_paths!(format!("{inst}")))),
        ];
        o.push(("args", self.args(env, root, inst.args)));
        let dk = tcx.def_kind(d);
        o.push(("dk", s(format!("{dk:?}"))));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if matches!(dk, DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
                }
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", s(with_no_trimmed_paths!(format!("{st}")))));
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            }
            o.push(("name", s(tcx.item_name(d).to_string())));
        } else if matches!(dk, DefKind::Fn) {
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        if d.is_local() && matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(d.expect_local()))));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        }
        if d.is_local() || krate == "kurbo" {
            o.push(("span", self.span(tcx.def_span(d))));
        }
        if matches!(inst.def, InstanceKind::Item(_)) && matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let derived = self.is_derived(d);
            let follow = d.is_local() || FOLLOW.contains(&krate.as_str());
            let keep = dk == DefKind::AssocFn && matches!(tcx.item_name(d).as_str(), "default");
            if derived && !keep && d.is_local() && tcx.is_mir_available(d) {
                let b = tcx.optimized_mir(d);
                o.push(("callees", self.callees(b)));
                o.push(("derived", J::B(true)));
            } else if follow && tcx.is_mir_available(d) {
                let b = tcx.instance_mir(inst.def);
                let b = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()));
                if let Ok(b) = b {
                    let small = d.is_local() || b.basic_blocks.len() <= 60;
                    let skip = !d.is_local() && self.skip(d);
                    if small && !skip {
                        let j = self.body(env, root, id, &b);
                        o.push(("body", j));
                        let mut pr = vec![];
                        for p in tcx.promoted_mir(d).iter() {
                            let p = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, p.clone()));
                            pr.push(match p {
                                Ok(p) => self.body(env, root, id, &p),
                                Err(_) => J::Null,
                            });
                        }
                        o.push(("promoted", J::A(pr)));
                    }
                }
            }
        }
        self.insts[id] = J::O(o);
    }
    fn is_derived(&self, d: DefId) -> bool {
        let mut p = d;
        loop {
            if matches!(self.tcx.def_kind(p), DefKind::Impl { .. }) {
                if self.tcx.is_automatically_derived(p) {
                    return true;
                }
            }
            match self.tcx.opt_parent(p) {
                Some(q) => p = q,
                None => return false,
            }
        }
    }
    // library modules that the analyser models instead of following
    fn skip(&self, d: DefId) -> bool {
        let p = self.path(d);
        ["core::fmt", "core::iter", "core::slice", "core::str", "core::panicking", "core::panic", "core::sync", "core::cell", "core::ptr", "core::alloc", "core::hash",
         "core::char", "core::ascii", "core::any", "core::unicode", "core::ffi", "core::time", "core::intrinsics", "core::array", "core::num::"]
            .iter()
            .any(|x| p.starts_with(x) || p.starts_with(&format!("<{x}")))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("VELATO_FACTS_CRATE").unwrap_or_default();
        let out = std::env::var("VELATO_FACTS_OUT").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want || out.is_empty() {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx, types: vec![], type_ids: HashMap::new(), adts: HashMap::new(), adt_list: vec![], inst_ids: HashMap::new(),
            queue: VecDeque::new(), insts: vec![], statics: HashMap::new(), static_list: vec![],
        };
        let mut roots = vec![];
        let mut impls = vec![];
        let mut items = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    cx.adt(tcx.adt_def(d));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| with_no_trimmed_paths!(format!("{}", t.skip_binder().print_only_trait_path())));
                    let trd = tcx.impl_opt_trait_ref(d).map(|t| cx.path(t.skip_binder().def_id));
                    let ad = st.ty_adt_def().map(|a| cx.path(a.did()));
                    let ms: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|x| s(cx.path(*x))).collect();
                    let safety = tcx.impl_opt_trait_ref(d).map_or(false, |_| tcx.impl_trait_header(d).safety.is_unsafe());
                    impls.push(J::O(vec![
                        ("self", s(with_no_trimmed_paths!(format!("{st}")))),
                        ("adt", ad.map_or(J::Null, s)),
                        ("trait", trd.map_or(J::Null, s)),
                        ("trait_ref", tr.map_or(J::Null, s)),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("expn", s(format!("{:?}", tcx.def_span(d).ctxt().outer_expn_data().kind))),
                        ("items", J::A(ms)),
                        ("unsafe", J::B(safety)),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    items.push(J::O(vec![
                        ("static", s(cx.path(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("ty", s(with_no_trimmed_paths!(format!("{t}")))),
                        ("tls", J::B(tcx.is_thread_local_static(d))),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                    cx.statics.insert(d, true);
                    cx.static_list.push(d);
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) && tcx.trait_of_assoc(d).is_some() {
                        continue;
                    }
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let i = Instance::new_raw(d, args);
                    let id = cx.instance(env, Some(d), i);
                    roots.push(u(id));
                }
                _ => {}
            }
        }
        let mut statics = vec![];
        let mut si = 0;
        loop {
            while let Some((id, i, env, root)) = cx.queue.pop_front() {
                cx.process(id, i, env, root);
            }
            if si >= cx.static_list.len() {
                break;
            }
            let d = cx.static_list[si];
            si += 1;
            if !d.is_local() {
                statics.push(J::O(vec![("path", s(cx.path(d))), ("body", J::Null)]));
                continue;
            }
            let b = tcx.mir_for_ctfe(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let j = cx.body(env, Some(d), usize::MAX >> 1, b);
            let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|p| cx.body(env, Some(d), usize::MAX >> 1, p)).collect();
            statics.push(J::O(vec![("path", s(cx.path(d))), ("body", j), ("promoted", J::A(pr))]));
        }
        // unsafe blocks in local bodies
        let mut unsafes = vec![];
        for l in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(l);
            struct V<'a, 'tcx>(&'a Cx<'tcx>, &'a mut Vec<J>, DefId);
            impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                        let x = J::O(vec![("fn", s(self.0.path(self.2))), ("span", self.0.span(b.span))]);
                        self.1.push(x);
                    }
                    rustc_hir::intravisit::walk_block(self, b);
                }
            }
            let mut v = V(&cx, &mut unsafes, l.to_def_id());
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
        }
        let j = J::M(vec![
            ("types".into(), J::A(cx.types)),
            ("adts".into(), J::A(cx.adt_list)),
            ("insts".into(), J::A(cx.insts)),
            ("roots".into(), J::A(roots)),
            ("impls".into(), J::A(impls)),
            ("items".into(), J::A(items)),
            ("statics".into(), J::A(statics)),
            ("unsafe".into(), J::A(unsafes)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver /path/to/rustc ARGS...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
