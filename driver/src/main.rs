//! rustc wrapper that dumps the per-instance MIR of the crate `tmf` (before the coroutine
//! transform) together with resolved callees, types and evaluated constants, as JSON.
//! Nothing of the analysed program is executed; constants are evaluated by the compiler.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
mod json;
use json::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("TMF_MIR_OUT") {
            let txt = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(Dump::run(tcx)));
            std::fs::write(out, txt).expect("write dump");
        }
        Compilation::Continue
    }
}

type Key<'tcx> = (DefId, GenericArgsRef<'tcx>);
struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<DefId, (Body<'tcx>, Vec<Body<'tcx>>)>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    types: Vec<J>,
    inst_ids: HashMap<Key<'tcx>, usize>,
    insts: Vec<Option<J>>,
    queue: VecDeque<(usize, Key<'tcx>, DefId)>,
    std_mods: HashSet<&'static str>,
    cur_root: DefId,
}

const STD_INLINE: &[&str] = &["option", "result", "convert", "bool", "cmp", "ops::control_flow", "ops::try_trait", "mem", "tuple", "default", "clone", "borrow", "iter::traits::collect", "ops::function", "ops::range", "unit"];

impl<'tcx> Dump<'tcx> {
    fn run(tcx: TyCtxt<'tcx>) -> String {
        let mut bodies = HashMap::new();
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        for d in &owners {
            let (b, p) = tcx.mir_promoted(*d);
            let (b, p) = if b.is_stolen() {
                // constants and const fns already evaluated by the compiler (array lengths, ...)
                (tcx.mir_for_ctfe(d.to_def_id()).clone(), tcx.promoted_mir(d.to_def_id()).iter().cloned().collect::<Vec<_>>())
            } else {
                (b.borrow().clone(), p.borrow().iter().cloned().collect::<Vec<_>>())
            };
            bodies.insert(d.to_def_id(), (b, p));
        }
        let mut me = Dump { tcx, bodies, ty_ids: HashMap::new(), types: vec![], inst_ids: HashMap::new(), insts: vec![], queue: VecDeque::new(), std_mods: STD_INLINE.iter().copied().collect(), cur_root: LOCAL_CRATE.as_def_id() };
        let mut roots = vec![];
        for d in &owners {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    me.cur_root = did;
                    let id = me.inst(did, args);
                    let vis = tcx.effective_visibilities(()).is_reachable(*d);
                    let exported = tcx.effective_visibilities(()).is_exported(*d);
                    let mut o = vec![("inst", i(id as i64)), ("path", s(tcx.def_path_str(did))), ("reach", J::B(vis)), ("exported", J::B(exported)), ("pub", J::B(tcx.visibility(did).is_public()))];
                    if let Some(im) = tcx.impl_of_assoc(did) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("self_ty", s(format!("{}", st))));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            o.push(("trait", s(format!("{}", tr.instantiate_identity().skip_norm_wip()))));
                        }
                    }
                    roots.push(J::O(o));
                    while let Some((id, key, root)) = me.queue.pop_front() {
                        me.cur_root = root;
                        let j = me.dump_inst(key);
                        me.insts[id] = Some(j);
                    }
                }
                _ => (),
            }
        }
        let unsafety = me.unsafe_blocks();
        let nbodies = owners.len();
        let out = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("nbodies", i(nbodies as i64)),
            ("roots", J::A(roots)),
            ("types", J::A(me.types)),
            ("insts", J::A(me.insts.into_iter().map(|x| x.unwrap_or(J::N)).collect())),
            ("unsafe", unsafety),
        ]);
        let mut o = String::new();
        out.w(&mut o);
        o
    }

    fn unsafe_blocks(&self) -> J {
        use rustc_hir as hir;
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, String)>, cur: DefId }
        impl<'tcx> Visitor<'tcx> for V<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
                if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push((self.tcx.def_path_str(self.cur), self.tcx.sess.source_map().span_to_diagnostic_string(b.span)));
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut v = V { tcx: self.tcx, out: vec![], cur: LOCAL_CRATE.as_def_id() };
        for d in self.tcx.hir_body_owners() {
            if matches!(self.tcx.def_kind(d), DefKind::Closure) { continue; }
            v.cur = d.to_def_id();
            let body = self.tcx.hir_body_owned_by(d);
            v.visit_body(body);
        }
        J::A(v.out.into_iter().map(|(a, b)| J::A(vec![s(a), s(b)])).collect())
    }

    fn env(&self) -> TypingEnv<'tcx> { TypingEnv::post_analysis(self.tcx, self.cur_root) }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match self.tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t)) { Ok(x) => x, Err(_) => t }
    }

    fn inst(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Some(x) = self.inst_ids.get(&(did, args)) { return *x; }
        let id = self.insts.len();
        self.insts.push(None);
        self.inst_ids.insert((did, args), id);
        self.queue.push_back((id, (did, args), self.cur_root));
        id
    }

    fn std_inlinable(&self, did: DefId) -> bool {
        let kr = self.tcx.crate_name(did.krate);
        let k = kr.as_str();
        if k != "core" && k != "std" && k != "alloc" { return false; }
        let p = self.tcx.def_path(did);
        let segs: Vec<String> = p.data.iter().map(|d| d.data.get_opt_name().map(|x| x.to_string()).unwrap_or_default()).take_while(|x| !x.is_empty()).collect();
        for n in 1..=segs.len() {
            if self.std_mods.contains(segs[..n].join("::").as_str()) { return true; }
        }
        false
    }

    fn dump_inst(&mut self, key: Key<'tcx>) -> J {
        let (did, args) = key;
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(tcx.def_path_str(did))));
        o.push(("full", s(tcx.def_path_str_with_args(did, args))));
        o.push(("krate", s(tcx.crate_name(did.krate).to_string())));
        o.push(("local", J::B(did.is_local())));
        if let Some(n) = tcx.opt_item_name(did) { o.push(("name", s(n.to_string()))); }
        let kind = tcx.def_kind(did);
        o.push(("kind", s(format!("{:?}", kind))));
        o.push(("args", J::A(args.iter().map(|a| self.garg(a)).collect())));
        if let Some(p) = tcx.opt_parent(did) { o.push(("parent", s(tcx.def_path_str(p)))); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("track_caller", J::B(tcx.codegen_fn_attrs(did).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER))));
            let sig = tcx.fn_sig(did).skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", s(format!("{}", st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { o.push(("impl_trait", s(format!("{}", tr.instantiate_identity().skip_norm_wip())))); }
                if tcx.is_automatically_derived(im) { o.push(("derived", J::B(true))); }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("trait", s(tcx.def_path_str(tr)))); }
            o.push(("is_async", J::B(tcx.asyncness(did).is_async())));
            // signature
            let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = self.norm(*t); let x = self.ty(t); i(x as i64) }).collect();
            o.push(("sig_in", J::A(ins)));
            let out = self.norm(sig.output());
            let x = self.ty(out);
            o.push(("sig_out", i(x as i64)));
        }
        if kind == DefKind::Closure {
            o.push(("coroutine", J::B(tcx.is_coroutine(did))));
        }
        if did.is_local() {
            if let Some((b, p)) = self.bodies.get(&did) {
                let (b, p) = (b.clone(), p.clone());
                let inst = Instance { def: InstanceKind::Item(did), args };
                let env = self.env();
                let ib = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b));
                let jb = self.body(&ib);
                o.push(("body", jb));
                let mut jp = vec![];
                for pb in p {
                    let ipb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb));
                    jp.push(self.body(&ipb));
                }
                o.push(("promoted", J::A(jp)));
            }
        } else if self.std_inlinable(did) && tcx.is_mir_available(did) && matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && !tcx.is_intrinsic(did, rustc_span::sym::size_of) {
            let inst = Instance { def: InstanceKind::Item(did), args };
            let b = tcx.instance_mir(inst.def).clone();
            let env = self.env();
            let ib = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b));
            let jb = self.body(&ib);
            o.push(("body", jb));
            let prom = tcx.promoted_mir(did).iter().cloned().collect::<Vec<_>>();
            let mut jp = vec![];
            for pb in prom {
                let ipb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb));
                jp.push(self.body(&ipb));
            }
            o.push(("promoted", J::A(jp)));
        }
        J::O(o)
    }

    fn garg(&mut self, a: ty::GenericArg<'tcx>) -> J {
        match a.kind() {
            ty::GenericArgKind::Type(t) => { let t = self.norm(t); i(self.ty(t) as i64) }
            ty::GenericArgKind::Const(c) => J::O(vec![("const", self.cnst_ty(c))]),
            _ => J::N,
        }
    }
    fn cnst_ty(&mut self, c: ty::Const<'tcx>) -> J {
        let c = self.tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(c)).unwrap_or(c);
        match c.try_to_target_usize(self.tcx) { Some(x) => i(x as i128), None => s(format!("{c}")) }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(x) = self.ty_ids.get(&t) { return *x; }
        let id = self.types.len();
        self.types.push(J::N);
        self.ty_ids.insert(t, id);
        let j = self.ty_json(t);
        self.types[id] = j;
        id
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> J { let t = self.norm(t); i(self.ty(t) as i64) }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($x:expr) => { o.push(("k", s($x))) } }
        let txt = format!("{t}");
        match t.kind() {
            ty::Bool => k!("bool"), ty::Char => k!("char"), ty::Str => k!("str"), ty::Never => k!("never"),
            ty::Int(it) => { k!("int"); o.push(("name", s(it.name_str()))); o.push(("signed", J::B(true))); o.push(("bits", i(it.bit_width().unwrap_or(64)))); }
            ty::Uint(it) => { k!("int"); o.push(("name", s(it.name_str()))); o.push(("signed", J::B(false))); o.push(("bits", i(it.bit_width().unwrap_or(64)))); }
            ty::Float(f) => { k!("float"); o.push(("bits", i(f.bit_width()))); }
            ty::Ref(_, x, m) => { k!("ref"); o.push(("mut", J::B(m.is_mut()))); let e = self.tyj(*x); o.push(("to", e)); }
            ty::RawPtr(x, m) => { k!("ptr"); o.push(("mut", J::B(m.is_mut()))); let e = self.tyj(*x); o.push(("to", e)); }
            ty::Slice(x) => { k!("slice"); let e = self.tyj(*x); o.push(("of", e)); }
            ty::Array(x, n) => { k!("array"); let e = self.tyj(*x); o.push(("of", e)); let n = self.cnst_ty(*n); o.push(("len", n)); }
            ty::Tuple(ts) => { k!("tuple"); let v: Vec<J> = ts.iter().map(|x| self.tyj(x)).collect(); o.push(("of", J::A(v))); }
            ty::Adt(def, args) => {
                k!("adt");
                let path = tcx.def_path_str(def.did());
                o.push(("path", s(path.clone())));
                o.push(("krate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.iter().map(|a| self.garg(a)).collect();
                o.push(("args", J::A(a)));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                if def.is_box() { o.push(("box", J::B(true))); }
                let kr = tcx.crate_name(def.did().krate);
                let expand = def.did().is_local() || ((kr.as_str() == "core") && {
                    let p = tcx.def_path(def.did());
                    let seg = p.data.first().and_then(|d| d.data.get_opt_name()).map(|x| x.to_string()).unwrap_or_default();
                    matches!(seg.as_str(), "option" | "result" | "ops" | "cmp" | "task" | "convert" | "num" | "mem") && !path.contains("Context") && !path.contains("Waker") && !path.contains("MaybeUninit")
                });
                o.push(("expanded", J::B(expand)));
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let fs: Vec<J> = v.fields.iter().map(|f| { let ft = f.ty(tcx, args); let ft = ft.skip_norm_wip(); let ft = self.tyj(ft); J::O(vec![("name", s(f.name.to_string())), ("ty", ft)]) }).collect();
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", i(d)), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                    if def.is_enum() {
                        let r = def.repr();
                        if let Some(it) = r.int { o.push(("repr", s(format!("{it:?}")))); }
                    }
                }
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if d.did.is_local() {
                        // Drop impl method with the impl args = adt args
                        let id = self.inst(d.did, args);
                        o.push(("drop", i(id as i64)));
                    }
                }
            }
            ty::Closure(d, args) => {
                k!("closure");
                let id = self.inst(*d, args); o.push(("inst", i(id as i64)));
                let ca = args.as_closure();
                let u: Vec<J> = ca.upvar_tys().iter().map(|x| self.tyj(x)).collect(); o.push(("upvars", J::A(u)));
                o.push(("ckind", s(format!("{:?}", ca.kind()))));
            }
            ty::Coroutine(d, args) => {
                k!("coroutine");
                let id = self.inst(*d, args); o.push(("inst", i(id as i64)));
                let ca = args.as_coroutine();
                let u: Vec<J> = ca.upvar_tys().iter().map(|x| self.tyj(x)).collect(); o.push(("upvars", J::A(u)));
                let r = self.tyj(ca.return_ty()); o.push(("ret", r));
            }
            ty::FnDef(d, args) => {
                k!("fndef");
                let x = self.resolve(*d, args.skip_binder()); o.push(("callee", x));
                let sig = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
                let at: Vec<J> = sig.inputs().iter().map(|x| self.tyj(*x)).collect(); o.push(("ins", J::A(at)));
                let rt = self.tyj(sig.output()); o.push(("ret", rt));
            }
            ty::FnPtr(..) => k!("fnptr"),
            ty::Param(p) => { k!("param"); o.push(("name", s(p.name.to_string()))); }
            ty::Alias(..) => k!("alias"),
            ty::Dynamic(..) => k!("dyn"),
            ty::Foreign(..) => k!("foreign"),
            _ => k!("other"),
        }
        if let Ok(l) = tcx.layout_of(self.env().as_query_input(t)) {
            if l.is_sized() { o.push(("size", i(l.size.bytes() as i128))); }
            let enumerable = match t.kind() { ty::Adt(d, _) => d.is_enum() || d.is_struct(), ty::Tuple(_) => true, _ => false };
            if l.is_sized() && enumerable {
                use rustc_abi::{Variants, TagEncoding, FieldsShape};
                let cx = rustc_middle::ty::layout::LayoutCx::new(tcx, self.env());
                let mut offs = vec![];
                let n = match &l.variants { Variants::Multiple { variants, .. } => variants.len(), Variants::Single { .. } => 1, _ => 0 };
                for v in 0..n {
                    let vl = if n > 1 || matches!(&l.variants, Variants::Multiple { .. }) { l.for_variant(&cx, rustc_abi::VariantIdx::from_usize(v)) } else { l };
                    let fs: Vec<J> = match &vl.fields { FieldsShape::Arbitrary { offsets, .. } => (0..offsets.len()).map(|k| i(vl.fields.offset(k).bytes() as i128)).collect(), _ => vec![] };
                    offs.push(J::A(fs));
                }
                o.push(("offs", J::A(offs)));
                match &l.variants {
                    Variants::Single { index } => { o.push(("single", i(index.as_u32()))); }
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let off = l.fields.offset(tag_field.as_usize()).bytes();
                        let sz = tag.size(&tcx).bytes();
                        let mut e = vec![("off", i(off as i128)), ("size", i(sz as i128))];
                        if let TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                            e.push(("untagged", i(untagged_variant.as_u32())));
                            e.push(("first", i(niche_variants.start.as_u32())));
                            e.push(("last", i(niche_variants.last.as_u32())));
                            e.push(("start", s(niche_start.to_string())));
                        }
                        o.push(("tag", J::O(e)));
                    }
                    _ => (),
                }
            }
        }
        o.push(("txt", s(txt)));
        J::O(o)
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(args)).unwrap_or(args);
        o.push(("path", s(tcx.def_path_str(d))));
        let kind = tcx.def_kind(d);
        if let Some(n) = tcx.opt_item_name(d) { o.push(("name", s(n.to_string()))); }
        o.push(("krate", s(tcx.crate_name(d.krate).to_string())));
        o.push(("args", J::A(args.iter().map(|a| self.garg(a)).collect())));
        if let DefKind::Ctor(of, _) = kind {
            let _ = of;
            o.push(("ctor", J::B(true)));
            return J::O(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(tcx.def_path_str(tr))));
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(inst)) => {
                match inst.def {
                    InstanceKind::Item(did) => {
                        let id = self.inst(did, inst.args);
                        o.push(("inst", i(id as i64)));
                        o.push(("rpath", s(tcx.def_path_str(did))));
                    }
                    InstanceKind::Intrinsic(did) => {
                        o.push(("intrinsic", s(tcx.item_name(did).to_string())));
                    }
                    InstanceKind::Virtual(..) => { o.push(("virtual", J::B(true))); }
                    other => { o.push(("shim", s(format!("{other:?}")))); }
                }
            }
            _ => { o.push(("unresolved", J::B(true))); }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("track_caller", J::B(tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER))));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        }
        J::O(o)
    }

    fn loc(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        J::A(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), i(lo.line as i64)])
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.tyj(t); J::A(vec![s("f"), i(f.as_u32()), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_u32())]),
                _ => J::A(vec![s("oc")]),
            };
            v.push(j);
        }
        J::A(v)
    }

    fn scalar_bits(&self, c: Scalar) -> Option<(u128, u64)> {
        match c { Scalar::Int(x) => Some((x.to_bits(x.size()), x.size().bytes())), _ => None }
    }

    fn read_alloc(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let n = m.len() as u64;
                if off + len > n { return None; }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_j(b: &[u8]) -> J { let mut h = String::with_capacity(b.len() * 2); for x in b { h.push_str(&format!("{x:02x}")); } J::S(h) }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let cty = self.norm(c.const_.ty());
        let tj = i(self.ty(cty) as i64);
        let mut o: Vec<(&'static str, J)> = vec![("t", tj)];
        if let ty::FnDef(d, a) = cty.kind() { let _ = (d, a); return J::O(vec![("c", J::O(o))]); }
        let k = c.const_;
        if let Const::Unevaluated(uv, _) = k {
            if let Some(p) = uv.promoted {
                let args = tcx.erase_and_anonymize_regions(uv.args);
                let id = self.inst(uv.def, args);
                o.push(("promoted", J::A(vec![i(id as i64), i(p.as_u32())])));
                return J::O(vec![("c", J::O(o))]);
            }
            o.push(("item", s(tcx.def_path_str(uv.def))));
        }
        match k.eval(tcx, self.env(), c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(sc) => {
                    if let Some((b, sz)) = self.scalar_bits(sc) { o.push(("bits", s(b.to_string()))); o.push(("sz", i(sz))); }
                    else if let Scalar::Ptr(p, _) = sc {
                        let (prov, off) = p.into_raw_parts();
                        // pointer to some allocation: dump its bytes if the pointee is bytes/ints
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(GlobalAlloc::Memory(m)) => {
                                let n = m.inner().len() as u64;
                                if let Some(bs) = self.read_alloc(prov.alloc_id(), off.bytes(), n - off.bytes()) { o.push(("ptr_bytes", Self::bytes_j(&bs))); }
                                let np = m.inner().provenance().ptrs().len();
                                o.push(("nprov", i(np as i64)));
                                let strs = self.alloc_strs(prov.alloc_id());
                                if !strs.is_empty() { o.push(("strs", J::A(strs))); }
                            }
                            Some(GlobalAlloc::Static(d)) => { o.push(("static", s(tcx.def_path_str(d)))); }
                            Some(GlobalAlloc::Function { instance }) => { o.push(("fnptr", s(tcx.def_path_str(instance.def_id())))); }
                            _ => (),
                        }
                    }
                }
                ConstValue::ZeroSized => { o.push(("zst", J::B(true))); }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(bs) = self.read_alloc(alloc_id, 0, meta) {
                        let is_str = matches!(cty.kind(), ty::Ref(_, t, _) if t.is_str());
                        if is_str { if let Ok(x) = std::str::from_utf8(&bs) { o.push(("str", s(x))); } else { o.push(("bytes", Self::bytes_j(&bs))); } }
                        else { o.push(("bytes", Self::bytes_j(&bs))); }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                        let n = m.inner().len() as u64;
                        if let Some(bs) = self.read_alloc(alloc_id, offset.bytes(), n - offset.bytes()) { o.push(("mem", Self::bytes_j(&bs))); }
                        o.push(("nprov", i(m.inner().provenance().ptrs().len() as i64)));
                        let strs = self.alloc_strs(alloc_id);
                        if !strs.is_empty() { o.push(("strs", J::A(strs))); }
                    }
                }
            },
            Err(_) => { o.push(("uneval", s(format!("{k}")))); }
        }
        J::O(vec![("c", J::O(o))])
    }

    fn alloc_strs(&self, a: rustc_middle::mir::interpret::AllocId) -> Vec<J> {
        // string slices directly referenced by an allocation: [offset, text]
        let mut out = vec![];
        if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(a) {
            for (off, prov) in m.inner().provenance().ptrs().iter() {
                if let Some(bs) = self.read_alloc(a, off.bytes() + 8, 8) {
                    let n = u64::from_le_bytes(bs.try_into().unwrap());
                    if let Some(txt) = self.read_alloc(prov.alloc_id(), 0, n) {
                        out.push(J::A(vec![i(off.bytes()), s(String::from_utf8_lossy(&txt).to_string())]));
                    }
                }
            }
        }
        out
    }

    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::O(vec![("cp", p)]) }
            Operand::Move(p) => { let p = self.place(p); J::O(vec![("mv", p)]) }
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(k) => J::O(vec![("rtc", s(format!("{k:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => { let o = self.op(o); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, n) => { let o = self.op(o); let n = self.cnst_ty(*n); J::A(vec![s("repeat"), o, n]) }
            Rvalue::Ref(_, k, p) => { let p = self.place(p); J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), p]) }
            Rvalue::RawPtr(k, p) => { let p = self.place(p); J::A(vec![s("rawptr"), s(format!("{k:?}")), p]) }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.tyj(*t); let kk = match k { CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"), k => format!("{k:?}") }; J::A(vec![s("cast"), s(kk), o, t]) }
            Rvalue::BinaryOp(b, ops) => { let a = self.op(&ops.0); let c = self.op(&ops.1); J::A(vec![s("bin"), s(format!("{b:?}")), a, c]) }
            Rvalue::UnaryOp(u, o) => { let o = self.op(o); J::A(vec![s("un"), s(format!("{u:?}")), o]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::A(vec![s("discr"), p]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::O(vec![("cp", p)])]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::A(vec![s("ref"), J::B(m.is_mut()), p]) }
            Rvalue::WrapUnsafeBinder(o, _) => { let o = self.op(o); J::A(vec![s("use"), o]) }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|f| self.op(f)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.tyj(*t); J::A(vec![s("array"), t]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tyj(t);
                        J::A(vec![s("adt"), t, i(v.as_u32()), match f { Some(f) => i(f.as_u32()), None => J::N }])
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, *d, args); let t = self.tyj(t); J::A(vec![s("closure"), t]) }
                    AggregateKind::Coroutine(d, args) => { let t = Ty::new_coroutine(self.tcx, *d, args); let t = self.tyj(t); J::A(vec![s("coroutine"), t]) }
                    AggregateKind::CoroutineClosure(..) => J::A(vec![s("coroutineclosure")]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
        }
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upvar_names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); }
                else if p.local.as_u32() == 1 { let pj = self.place(&p); upvar_names.push(J::A(vec![s(v.name.to_string()), pj])); }
            }
        }
        let locals: Vec<J> = b.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.tyj(d.ty);
            match names.get(&l.as_u32()) { Some(n) => J::A(vec![t, s(n.clone())]), None => J::A(vec![t]) }
        }).collect();
        let mut blocks = vec![];
        for (_bb, bd) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bd.statements {
                let j = match &x.kind {
                    StatementKind::Assign(pr) => { let p = self.place(&pr.0); let r = self.rvalue(&pr.1); Some(J::A(vec![s("="), p, r, self.loc(x.source_info.span)])) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); Some(J::A(vec![s("sd"), p, i(variant_index.as_u32())])) }
                    StatementKind::StorageLive(l) => Some(J::A(vec![s("live"), i(l.as_u32())])),
                    StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.op(o); Some(J::A(vec![s("assume"), o])) }
                        _ => Some(J::A(vec![s("copy_nonoverlapping")])),
                    },
                    _ => None,
                };
                if let Some(j) = j { st.push(j); }
            }
            let t = bd.terminator();
            let l = self.loc(t.source_info.span);
            let bbi = |x: BasicBlock| i(x.as_u32());
            let mut tj: Vec<(&'static str, J)> = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("to", bbi(*target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![s(v.to_string()), bbi(t)])).collect();
                    let dt = self.tyj(discr.ty(&b.local_decls, self.tcx));
                    vec![("k", s("switch")), ("on", d), ("t", dt), ("v", J::A(v)), ("else", bbi(targets.otherwise()))]
                }
                TerminatorKind::Return => vec![("k", s("ret"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(&b.local_decls, self.tcx).ty; let ty = self.tyj(ty); let p = self.place(place); vec![("k", s("drop")), ("p", p), ("t", ty), ("to", bbi(*target))] }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => {
                            let ct = self.norm(c.const_.ty());
                            match ct.kind() {
                                ty::FnDef(d, a) => self.resolve(*d, a.skip_binder()),
                                _ => J::O(vec![("op", self.op(func))]),
                            }
                        }
                        _ => J::O(vec![("op", self.op(func))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); self.tyj(t) }).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.tyj(dt);
                    vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("at", J::A(at)), ("d", d), ("dt", dt), ("to", match target { Some(t) => bbi(*t), None => J::N })]
                }
                TerminatorKind::TailCall { .. } => vec![("k", s("tailcall"))],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let a = self.op(len); let b = self.op(index); J::A(vec![s("bounds"), a, b]) }
                        AssertKind::Overflow(op, a, b) => { let a = self.op(a); let b = self.op(b); J::A(vec![s("overflow"), s(format!("{op:?}")), a, b]) }
                        AssertKind::OverflowNeg(a) => { let a = self.op(a); J::A(vec![s("overflow"), s("Neg"), a]) }
                        AssertKind::DivisionByZero(a) => { let a = self.op(a); J::A(vec![s("divzero"), a]) }
                        AssertKind::RemainderByZero(a) => { let a = self.op(a); J::A(vec![s("remzero"), a]) }
                        _ => J::A(vec![s("other")]),
                    };
                    vec![("k", s("assert")), ("c", c), ("exp", J::B(*expected)), ("m", m), ("to", bbi(*target))]
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => { let v = self.op(value); let ra = self.place(resume_arg); vec![("k", s("yield")), ("v", v), ("to", bbi(*resume)), ("ra", ra)] }
                TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("to", bbi(*real_target))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("to", bbi(*real_target))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => vec![("k", s("unwind"))],
                TerminatorKind::InlineAsm { .. } => vec![("k", s("asm"))],
            };
            tj.push(("l", l));
            let mut blk = vec![("s", J::A(st)), ("t", J::O(tj))];
            if bd.is_cleanup { blk.push(("cleanup", J::B(true))); }
            blocks.push(J::O(blk));
        }
        J::O(vec![("argc", i(b.arg_count as i64)), ("locals", J::A(locals)), ("upv", J::A(upvar_names)), ("blocks", J::A(blocks)), ("l", self.loc(b.span)), ("spread", match b.spread_arg { Some(l) => i(l.as_u32()), None => J::N })])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    args.remove(1);
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    struct N;
    impl Callbacks for N {}
    if name.as_deref() == Some("tmf") {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
