//! MIR extraction driver.
//!
//! Compiles the crate rooted at the given file with the real rustc front end and
//! dumps, as JSON, everything the verifier needs: the MIR of every function
//! reachable from the verification roots (instantiated with the roots' own
//! *generic parameters*, so the MIR stays polymorphic), the types, layouts,
//! constants, inline-asm blocks and global_asm blocks.
//!
//! Usage: driver <rustc args...>
//! Environment: VC_ROOTS = file appended (in memory) to the crate root,
//!              VC_CRATE_ROOT = the crate root it is appended to,
//!              VC_OUT = output JSON.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;
extern crate rustc_trait_selection;

use rustc_ast::InlineAsmTemplatePiece;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::util::IntTypeExt;
use rustc_middle::ty::{
    self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    S(String),
    N(i128),
    U(u128),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;
impl J {
    fn write(&self, out: &mut String) {
        match self {
            S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\t' => out.push_str("\\t"),
                        '\r' => out.push_str("\\r"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            N(n) => {
                let _ = write!(out, "{n}");
            }
            U(n) => {
                let _ = write!(out, "{n}");
            }
            B(b) => out.push_str(if *b { "true" } else { "false" }),
            Null => out.push_str("null"),
            A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{k}\":");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}
fn s(x: impl ToString) -> J {
    S(x.to_string())
}
fn n(x: usize) -> J {
    U(x as u128)
}

// ---------------------------------------------------------------- collector
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: Vec<J>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    work: Vec<Work<'tcx>>,
    consts: Vec<J>,
    const_ids: HashMap<UnevaluatedConst<'tcx>, usize>,
    allocs: Vec<(u64, J)>,
    alloc_seen: HashMap<AllocId, ()>,
    opaque: Vec<String>,
}
enum Work<'tcx> {
    Inst(usize, Instance<'tcx>),
    Const(usize, UnevaluatedConst<'tcx>),
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{t}")))
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(Null);
        self.type_ids.insert(t, id);
        let j = self.ty_json(t);
        self.types[id] = j;
        id
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty(t))
    }
    fn generic_args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.tyj(t));
            } else if let Some(c) = a.as_const() {
                v.push(s(format!("{c}")));
            }
        }
        A(v)
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("str", s(self.tystr(t)))];
        macro_rules! put { ($k:literal, $v:expr) => {{ let v = $v; o.push(($k, v)); }} }
        match *t.kind() {
            ty::Bool => put!("kind", s("bool")),
            ty::Char => put!("kind", s("char")),
            ty::Int(_) | ty::Uint(_) => {
                put!("kind", s("int"));
                put!("signed", B(t.is_signed()));
            }
            ty::Float(_) => put!("kind", s("float")),
            ty::Never => put!("kind", s("never")),
            ty::Str => put!("kind", s("str")),
            ty::Slice(e) => {
                put!("kind", s("slice"));
                put!("elem", self.tyj(e));
            }
            ty::Array(e, c) => {
                put!("kind", s("array"));
                put!("elem", self.tyj(e));
                put!("len", match c.try_to_target_usize(tcx) { Some(x) => U(x as u128), None => Null });
            }
            ty::RawPtr(p, m) => {
                put!("kind", s("ptr"));
                put!("mut", B(m.is_mut()));
                put!("to", self.tyj(p));
            }
            ty::Ref(_, p, m) => {
                put!("kind", s("ref"));
                put!("mut", B(m.is_mut()));
                put!("to", self.tyj(p));
            }
            ty::Tuple(ts) => {
                put!("kind", s("tuple"));
                let mut v = vec![];
                for x in ts {
                    v.push(self.tyj(x));
                }
                put!("fields", A(v));
            }
            ty::Param(p) => {
                put!("kind", s("param"));
                put!("name", s(p.name));
            }
            ty::Alias(..) => put!("kind", s("alias")),
            ty::Dynamic(..) => put!("kind", s("dyn")),
            ty::Foreign(d) => {
                put!("kind", s("foreign"));
                put!("path", s(self.path(d)));
            }
            ty::FnDef(d, args) => {
                put!("kind", s("fndef"));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                put!("path", s(self.path(d)));
                put!("args", self.generic_args(args));
                put!("callee", self.callee(d, args));
            }
            ty::FnPtr(sig, hdr) => {
                put!("kind", s("fnptr"));
                put!("abi", s(format!("{:?}", hdr.abi())));
                let sg = sig.with(hdr);
                let sg = tcx.instantiate_bound_regions_with_erased(sg);
                let mut v = vec![];
                for i in sg.inputs() {
                    v.push(self.tyj(*i));
                }
                put!("inputs", A(v));
                put!("output", self.tyj(sg.output()));
            }
            ty::Closure(d, args) => {
                put!("kind", s("closure"));
                put!("path", s(self.path(d)));
                let c = args.as_closure();
                let mut v = vec![];
                for x in c.upvar_tys() {
                    v.push(self.tyj(x));
                }
                put!("fields", A(v));
                put!("closure_kind", s(format!("{:?}", c.kind())));
                let inst = Instance::new_raw(d, args);
                put!("body", n(self.inst(inst)));
            }
            ty::Adt(def, args) => {
                put!("kind", s("adt"));
                put!("path", s(self.path(def.did())));
                put!("adt", s(if def.is_struct() { "struct" } else if def.is_union() { "union" } else { "enum" }));
                put!("repr_transparent", B(def.repr().transparent()));
                put!("repr_c", B(def.repr().c()));
                put!("is_box", B(def.is_box()));
                put!("is_manually_drop", B(def.is_manually_drop()));
                put!("is_phantom", B(def.is_phantom_data()));
                put!("local", B(def.did().is_local()));
                put!("args", self.generic_args(args));
                let mut vs = vec![];
                for (i, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let vis = if f.vis.is_public() { "pub" } else { "priv" };
                        fs.push(O(vec![("name", s(f.name)), ("ty", self.tyj(ft)), ("vis", s(vis))]));
                    }
                    let discr = if def.is_enum() {
                        U(def.discriminant_for_variant(tcx, i).val)
                    } else {
                        Null
                    };
                    vs.push(O(vec![("name", s(v.name)), ("fields", A(fs)), ("discr", discr)]));
                }
                put!("variants", A(vs));
                if def.is_enum() {
                    put!("discr_ty", self.tyj(def.repr().discr_type().to_ty(tcx)));
                }
                if let Some(d) = def.destructor(tcx) {
                    // <T as Drop>::drop
                    let inst = Instance::new_raw(d.did, args);
                    put!("drop_impl", n(self.inst(inst)));
                }
            }
            ty::Pat(b, _) => {
                put!("kind", s("pat"));
                put!("base", self.tyj(b));
            }
            _ => put!("kind", s("other")),
        }
        if !t.has_escaping_bound_vars() {
            put!("needs_drop", B(t.needs_drop(tcx, self.env)));
            put!("copy", B(tcx.type_is_copy_modulo_regions(self.env, t)));
            put!("freeze", B(t.is_freeze(tcx, self.env)));
            put!("has_param", B(t.has_param()));
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                put!("size", if l.is_unsized() { Null } else { U(l.size.bytes() as u128) });
                put!("align", U(l.align.abi.bytes() as u128));
                put!("uninhabited", B(l.is_uninhabited()));
                put!("offsets", fields_offsets(&l.fields));
                match &l.variants {
                    rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let mut vs = vec![];
                        for v in variants.iter() {
                            vs.push(O(vec![
                                ("size", U(v.size.bytes() as u128)),
                                ("offsets", A(v.field_offsets.iter().map(|x| U(x.bytes() as u128)).collect())),
                            ]));
                        }
                        let enc = match tag_encoding {
                            rustc_abi::TagEncoding::Direct => O(vec![("kind", s("direct"))]),
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => O(vec![
                                ("kind", s("niche")),
                                ("untagged", n(untagged_variant.as_usize())),
                                ("start_variant", n(niche_variants.start.as_usize())),
                                ("end_variant", n(niche_variants.last.as_usize())),
                                ("niche_start", U(*niche_start)),
                            ]),
                        };
                        put!("layout_variants", O(vec![
                            ("tag_size", U(tag.size(&tcx).bytes() as u128)),
                            ("tag_offset", match &l.fields {
                                f => U(f.offset(tag_field.as_usize()).bytes() as u128),
                            }),
                            ("enc", enc),
                            ("variants", A(vs)),
                        ]));
                    }
                    rustc_abi::Variants::Single { index } => put!("single_variant", n(index.as_usize())),
                    _ => {}
                }
            }
        }
        O(o)
    }

    // ------------------------------------------------------------ instances
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.push(Null);
        self.inst_ids.insert(i, id);
        self.work.push(Work::Inst(id, i));
        id
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let path = self.path(d);
        let pathj = s(&path);
        let argsj = self.generic_args(args);
        let mut o = vec![("path", pathj), ("args", argsj)];
        if tcx.intrinsic(d).is_some() {
            o.push(("kind", s("intrinsic")));
            o.push(("name", s(tcx.item_name(d))));
            // Intrinsics may have fallback bodies; record them when present.
            return O(o);
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("kind", s("ctor")));
            return O(o);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Virtual(d, idx) => {
                    o.push(("kind", s("virtual")));
                    o.push(("method", s(self.path(d))));
                    o.push(("index", n(idx)));
                }
                InstanceKind::Intrinsic(d) => {
                    o.push(("kind", s("intrinsic")));
                    o.push(("name", s(tcx.item_name(d))));
                }
                InstanceKind::Shim(ShimKind::DropGlue(_, _)) => {
                    o.push(("kind", s("dropglue")));
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, fty)) => {
                    o.push(("kind", s("fnptrshim")));
                    o.push(("fnty", self.tyj(fty)));
                }
                InstanceKind::Shim(ShimKind::Clone(_, cty)) => {
                    o.push(("kind", s("cloneshim")));
                    o.push(("cty", self.tyj(cty)));
                }
                _ => {
                    o.push(("kind", s("inst")));
                    o.push(("id", n(self.inst(i))));
                }
            },
            _ => {
                o.push(("kind", s("unresolved")));
                o.push(("trait_fn", B(tcx.trait_of_assoc(d).is_some())));
            }
        }
        O(o)
    }

    fn alloc(&mut self, a: AllocId) -> u64 {
        let k = a.0.get();
        if self.alloc_seen.insert(a, ()).is_some() {
            return k;
        }
        let j = match self.tcx.global_alloc(a) {
            GlobalAlloc::Function { instance } => {
                O(vec![("kind", s("fn")), ("inst", n(self.inst(instance)))])
            }
            GlobalAlloc::Static(d) => {
                let sym = self.tcx.symbol_name(Instance::mono(self.tcx, d)).name.to_string();
                let t = self.tcx.type_of(d).skip_binder();
                // initial value, where it is a plain integer of at most eight bytes
                let mut init = J::Null;
                if !self.tcx.is_foreign_item(d) && !self.tcx.is_thread_local_static(d) && matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Static { mutability: rustc_ast::Mutability::Not, .. }) {
                    if let Ok(m) = self.tcx.eval_static_initializer(d) {
                        let al = m.inner();
                        let sz = al.size().bytes_usize();
                        if sz <= 8 && al.provenance().ptrs().is_empty() && al.init_mask().is_range_initialized((rustc_abi::Size::ZERO..al.size()).into()).is_ok() {
                            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..sz);
                            init = U(b.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128));
                        }
                    }
                }
                O(vec![("kind", s("static")), ("init", init), ("path", s(self.path(d))), ("symbol", s(sym)),
                       ("foreign", B(self.tcx.is_foreign_item(d))), ("ty", self.tyj(t)),
                       ("thread_local", B(self.tcx.is_thread_local_static(d)))])
            }
            GlobalAlloc::VTable(t, _) => {
                O(vec![("kind", s("vtable")), ("ty", self.tyj(t))])
            }
            GlobalAlloc::TypeId { ty } => O(vec![("kind", s("typeid")), ("ty", self.tyj(ty))]),
            GlobalAlloc::Memory(m) => {
                let al = m.inner();
                let sz = al.size().bytes_usize();
                let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..sz);
                let hex: String = if sz <= 4096 { bytes.iter().map(|b| format!("{b:02x}")).collect() } else { String::new() };
                let mut rel = vec![];
                for (off, prov) in al.provenance().ptrs().iter() {
                    let id = self.alloc(prov.alloc_id());
                    rel.push(A(vec![U(off.bytes() as u128), U(id as u128)]));
                }
                O(vec![("kind", s("mem")), ("size", n(sz)), ("align", U(al.align.bytes() as u128)), ("bytes", s(hex)), ("rel", A(rel))])
            }
        };
        self.allocs.push((k, j));
        k
    }

    fn scalar(&mut self, x: Scalar) -> J {
        match x {
            Scalar::Int(i) => O(vec![("k", s("int")), ("v", U(i.to_bits(i.size()))), ("size", U(i.size().bytes() as u128))]),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = self.alloc(prov.alloc_id());
                O(vec![("k", s("ptr")), ("alloc", U(id as u128)), ("off", U(off.bytes() as u128))])
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.tyj(t);
        let mut o = vec![("ty", tj)];
        let tn = self.norm(t);
        if let ty::FnDef(d, args) = *tn.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.push(("k", s("fn")));
            let cal = self.callee(d, args);
            o.push(("callee", cal));
            return O(o);
        }
        let generic = match c.const_ {
            Const::Unevaluated(u, _) => u.args.has_param(),
            Const::Ty(_, c) => c.has_param(),
            _ => false,
        };
        let ev = if generic { None } else { c.const_.eval(tcx, self.env, DUMMY_SP).ok() };
        match ev {
            Some(ConstValue::Scalar(x)) => o.push(("k", s("scalar"))).then_(|| o.push(("v", self.scalar(x)))),
            Some(ConstValue::ZeroSized) => o.push(("k", s("zst"))),
            Some(ConstValue::Slice { alloc_id, meta }) => {
                let id = self.alloc(alloc_id);
                o.push(("k", s("slice")));
                o.push(("alloc", U(id as u128)));
                o.push(("len", U(meta as u128)));
            }
            Some(ConstValue::Indirect { alloc_id, offset }) => {
                let id = self.alloc(alloc_id);
                o.push(("k", s("indirect")));
                o.push(("alloc", U(id as u128)));
                o.push(("off", U(offset.bytes() as u128)));
            }
            None => match c.const_ {
                Const::Unevaluated(u, _) => {
                    o.push(("k", s("uneval")));
                    let id = self.const_body(u);
                    o.push(("id", n(id)));
                }
                _ => {
                    o.push(("k", s("unknown")));
                    o.push(("s", s(format!("{:?}", c.const_))));
                }
            },
        }
        O(o)
    }

    fn const_body(&mut self, u: UnevaluatedConst<'tcx>) -> usize {
        let tcx = self.tcx;
        let mut u = tcx.erase_and_anonymize_regions(u);
        // Resolve associated consts to their impl when possible.
        if u.promoted.is_none() {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, u.def, u.args) {
                u = UnevaluatedConst { def: i.def_id(), args: i.args, promoted: None };
            }
        }
        if let Some(i) = self.const_ids.get(&u) {
            return *i;
        }
        let id = self.consts.len();
        self.consts.push(Null);
        self.const_ids.insert(u, id);
        self.work.push(Work::Const(id, u));
        id
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => O(vec![("k", s("deref"))]),
                ProjectionElem::Field(f, t) => O(vec![("k", s("field")), ("i", n(f.as_usize())), ("ty", self.tyj(t))]),
                ProjectionElem::Index(l) => O(vec![("k", s("index")), ("local", n(l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => O(vec![
                    ("k", s("cindex")), ("off", U(offset as u128)), ("min", U(min_length as u128)), ("from_end", B(from_end))]),
                ProjectionElem::Subslice { from, to, from_end } => O(vec![
                    ("k", s("subslice")), ("from", U(from as u128)), ("to", U(to as u128)), ("from_end", B(from_end))]),
                ProjectionElem::Downcast(_, v) => O(vec![("k", s("downcast")), ("v", n(v.as_usize()))]),
                ProjectionElem::OpaqueCast(t) => O(vec![("k", s("cast")), ("ty", self.tyj(t))]),
                ProjectionElem::UnwrapUnsafeBinder(t) => O(vec![("k", s("cast")), ("ty", self.tyj(t))]),
                #[allow(unreachable_patterns)]
                _ => O(vec![("k", s("phantomderef"))]),
            });
        }
        O(vec![("l", n(p.local.as_usize())), ("p", A(pr))])
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => O(vec![("k", s("copy")), ("place", self.place(p))]),
            Operand::Move(p) => O(vec![("k", s("move")), ("place", self.place(p))]),
            Operand::Constant(c) => O(vec![("k", s("const")), ("c", self.constant(c))]),
            Operand::RuntimeChecks(r) => O(vec![
                ("k", s("rtcheck")),
                ("which", s(format!("{r:?}"))),
                ("v", B(r.value(self.tcx.sess))),
            ]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => O(vec![("k", s("use")), ("op", self.operand(o))]),
            Rvalue::Repeat(o, c) => O(vec![("k", s("repeat")), ("op", self.operand(o)),
                ("n", match c.try_to_target_usize(self.tcx) { Some(x) => U(x as u128), None => Null })]),
            Rvalue::Ref(_, bk, p) => O(vec![("k", s("ref")), ("bk", s(format!("{bk:?}"))), ("place", self.place(p))]),
            Rvalue::ThreadLocalRef(d) => O(vec![("k", s("tls")), ("path", s(self.path(*d)))]),
            Rvalue::RawPtr(k, p) => O(vec![("k", s("rawptr")), ("m", s(format!("{k:?}"))), ("place", self.place(p))]),
            Rvalue::Cast(ck, o, t) => {
                let mut v = vec![("k", s("cast")), ("ck", s(format!("{ck:?}"))), ("op", self.operand(o)), ("ty", self.tyj(*t))];
                if let CastKind::PointerCoercion(pc, _) = ck {
                    v.push(("pc", s(format!("{pc:?}"))));
                }
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _) = ck {
                    // handled through the FnDef operand constant
                }
                O(v)
            }
            Rvalue::BinaryOp(b, ops) => O(vec![("k", s("bin")), ("op", s(format!("{b:?}"))), ("a", self.operand(&ops.0)), ("b", self.operand(&ops.1))]),
            Rvalue::UnaryOp(u, o) => O(vec![("k", s("un")), ("op", s(format!("{u:?}"))), ("a", self.operand(o))]),
            Rvalue::Discriminant(p) => O(vec![("k", s("discr")), ("place", self.place(p))]),
            Rvalue::Aggregate(ak, fs) => {
                let mut v = vec![("k", s("agg"))];
                match &**ak {
                    AggregateKind::Array(t) => { v.push(("a", s("array"))); let x = self.tyj(*t); v.push(("ty", x)); }
                    AggregateKind::Tuple => v.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        v.push(("a", s("adt")));
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let x = self.tyj(t);
                        v.push(("ty", x));
                        v.push(("variant", n(vi.as_usize())));
                        if let Some(f) = active { v.push(("active", n(f.as_usize()))); }
                    }
                    AggregateKind::Closure(d, args) => {
                        v.push(("a", s("closure")));
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let x = self.tyj(t);
                        v.push(("ty", x));
                    }
                    AggregateKind::RawPtr(t, m) => {
                        v.push(("a", s("rawptr")));
                        let x = self.tyj(*t);
                        v.push(("ty", x));
                        v.push(("mut", B(m.is_mut())));
                    }
                    _ => v.push(("a", s("other"))),
                }
                let mut f = vec![];
                for o in fs.iter() {
                    f.push(self.operand(o));
                }
                v.push(("fields", A(f)));
                O(v)
            }
            Rvalue::CopyForDeref(p) => O(vec![("k", s("use")), ("op", O(vec![("k", s("copy")), ("place", self.place(p))]))]),
            Rvalue::Reborrow(_, _, p) => O(vec![("k", s("use")), ("op", O(vec![("k", s("copy")), ("place", self.place(p))]))]),
            Rvalue::WrapUnsafeBinder(o, _) => O(vec![("k", s("use")), ("op", self.operand(o))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => O(vec![("k", s("continue"))]),
            UnwindAction::Unreachable => O(vec![("k", s("unreachable"))]),
            UnwindAction::Terminate(r) => O(vec![("k", s("terminate")), ("r", s(format!("{r:?}")))]),
            UnwindAction::Cleanup(b) => O(vec![("k", s("cleanup")), ("bb", n(b.as_usize()))]),
        }
    }
    fn bb(b: Option<BasicBlock>) -> J {
        match b { Some(b) => n(b.as_usize()), None => Null }
    }
    fn reg(r: &impl std::fmt::Display) -> J {
        s(format!("{r}").trim_matches('"'))
    }

    fn template(&self, t: &[InlineAsmTemplatePiece]) -> J {
        let mut v = vec![];
        for p in t {
            v.push(match p {
                InlineAsmTemplatePiece::String(x) => s(x),
                InlineAsmTemplatePiece::Placeholder { operand_idx, modifier, .. } => O(vec![
                    ("op", n(*operand_idx)),
                    ("mod", match modifier { Some(c) => s(c), None => Null }),
                ]),
            });
        }
        A(v)
    }

    fn term(&mut self, t: &TerminatorKind<'tcx>) -> J {
        match t {
            TerminatorKind::Goto { target, .. } => O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut v = vec![];
                for (val, bb) in targets.iter() {
                    v.push(A(vec![U(val), n(bb.as_usize())]));
                }
                O(vec![("k", s("switch")), ("op", self.operand(discr)), ("targets", A(v)), ("otherwise", n(targets.otherwise().as_usize()))])
            }
            TerminatorKind::UnwindResume => O(vec![("k", s("resume"))]),
            TerminatorKind::UnwindTerminate(r) => O(vec![("k", s("terminate")), ("r", s(format!("{r:?}")))]),
            TerminatorKind::Return => O(vec![("k", s("return"))]),
            TerminatorKind::Unreachable => O(vec![("k", s("unreachable"))]),
            TerminatorKind::Drop { place, target, unwind, .. } => O(vec![
                ("k", s("drop")), ("place", self.place(place)), ("t", n(target.as_usize())), ("unwind", self.unwind(unwind))]),
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let mut a = vec![];
                for x in args.iter() { a.push(self.operand(&x.node)); }
                O(vec![("k", s("call")), ("func", self.operand(func)), ("args", A(a)), ("dest", self.place(destination)),
                    ("t", Self::bb(*target)), ("unwind", self.unwind(unwind))])
            }
            TerminatorKind::TailCall { .. } => O(vec![("k", s("tailcall"))]),
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => O(vec![
                ("k", s("assert")), ("cond", self.operand(cond)), ("expected", B(*expected)),
                ("msg", s(format!("{msg:?}"))), ("t", n(target.as_usize())), ("unwind", self.unwind(unwind))]),
            TerminatorKind::FalseEdge { real_target, .. } => O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
            TerminatorKind::FalseUnwind { real_target, .. } => O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
            TerminatorKind::InlineAsm { template, operands, options, targets, unwind, .. } => {
                let mut ops = vec![];
                for o in operands.iter() {
                    ops.push(match o {
                        mir::InlineAsmOperand::In { reg, value } => O(vec![("k", s("in")), ("reg", Self::reg(reg)), ("v", self.operand(value))]),
                        mir::InlineAsmOperand::Out { reg, late, place } => O(vec![("k", s("out")), ("reg", Self::reg(reg)), ("late", B(*late)),
                            ("place", match place { Some(p) => self.place(p), None => Null })]),
                        mir::InlineAsmOperand::InOut { reg, late, in_value, out_place } => O(vec![("k", s("inout")), ("reg", Self::reg(reg)), ("late", B(*late)),
                            ("v", self.operand(in_value)),
                            ("place", match out_place { Some(p) => self.place(p), None => Null })]),
                        mir::InlineAsmOperand::Const { value } => O(vec![("k", s("const")), ("c", self.constant(value))]),
                        mir::InlineAsmOperand::SymFn { value } => O(vec![("k", s("symfn")), ("c", self.constant(value))]),
                        mir::InlineAsmOperand::SymStatic { def_id } => O(vec![("k", s("symstatic")), ("path", s(self.path(*def_id)))]),
                        mir::InlineAsmOperand::Label { target_index } => O(vec![("k", s("label")), ("i", n(*target_index))]),
                    });
                }
                O(vec![("k", s("asm")), ("template", self.template(template)), ("operands", A(ops)),
                    ("options", s(format!("{options:?}"))),
                    ("targets", A(targets.iter().map(|b| n(b.as_usize())).collect())), ("unwind", self.unwind(unwind))])
            }
            _ => O(vec![("k", s("other")), ("s", s(format!("{t:?}")))]),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", loc.file.name.prefer_remapped_unconditionally(), loc.line))
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.tyj(l.ty));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(A(vec![s(v.name), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        st.push(O(vec![("k", s("assign")), ("place", self.place(&a.0)), ("rv", self.rvalue(&a.1))]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(O(vec![
                        ("k", s("setdiscr")), ("place", self.place(place)), ("v", n(variant_index.as_usize()))])),
                    StatementKind::StorageLive(l) => st.push(O(vec![("k", s("live")), ("l", n(l.as_usize()))])),
                    StatementKind::StorageDead(l) => st.push(O(vec![("k", s("dead")), ("l", n(l.as_usize()))])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(O(vec![("k", s("assume")), ("op", self.operand(o))])),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(O(vec![
                            ("k", s("copy")), ("src", self.operand(&c.src)), ("dst", self.operand(&c.dst)), ("n", self.operand(&c.count))])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = self.term(&t.kind);
            blocks.push(O(vec![("s", A(st)), ("t", tj), ("span", self.span(t.source_info.span)), ("cleanup", B(bb.is_cleanup))]));
        }
        O(vec![
            ("argc", n(b.arg_count)),
            ("spread", match b.spread_arg { Some(l) => n(l.as_usize()), None => Null }),
            ("locals", A(locals)),
            ("names", A(names)),
            ("blocks", A(blocks)),
            ("span", self.span(b.span)),
        ])
    }

    fn is_opaque(&self, path: &str, krate_local: bool) -> bool {
        !krate_local && self.opaque.iter().any(|p| path.starts_with(p.as_str()))
    }

    fn process(&mut self, w: Work<'tcx>) {
        let tcx = self.tcx;
        match w {
            Work::Inst(id, i) => {
                let d = i.def_id();
                let path = self.path(d);
                let mut o = vec![("path", s(&path)), ("def", s(format!("{:?}", i.def))), ("local", B(d.is_local()))];
                let a = self.generic_args(i.args);
                o.push(("args", a));
                let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
                if is_fn {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    o.push(("abi", s(format!("{:?}", sig.abi()))));
                    o.push(("unsafe", B(sig.safety().is_unsafe())));
                    o.push(("sig", s(format!("{sig}"))));
                    o.push(("attrs_inline", s(format!("{:?}", tcx.codegen_fn_attrs(d).inline))));
                }
                let foreign = tcx.is_foreign_item(d);
                o.push(("foreign", B(foreign)));
                if foreign {
                    o.push(("symbol", s(tcx.symbol_name(Instance::mono(tcx, d)).name)));
                }
                if !foreign && !self.is_opaque(&path, d.is_local()) {
                    let has = match i.def {
                        InstanceKind::Item(d) => tcx.is_mir_available(d),
                        InstanceKind::Shim(ShimKind::DropGlue(..)) => false,
                        InstanceKind::Shim(_) => true,
                        _ => false,
                    };
                    if has {
                        let b = tcx.instance_mir(i.def);
                        let b = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
                        match b {
                            Ok(b) => {
                                let j = self.body(&b);
                                o.push(("body", j));
                            }
                            Err(e) => o.push(("body_error", s(format!("{e:?}")))),
                        }
                    }
                }
                self.insts[id] = O(o);
            }
            Work::Const(id, u) => {
                let mut o = vec![("path", s(self.path(u.def)))];
                let body: Option<Body<'tcx>> = match u.promoted {
                    Some(p) => Some(tcx.promoted_mir(u.def)[p].clone()),
                    None => {
                        if tcx.trait_of_assoc(u.def).is_some() && !tcx.defaultness(u.def).has_value() {
                            None
                        } else {
                            Some(tcx.mir_for_ctfe(u.def).clone())
                        }
                    }
                };
                if let Some(b) = body {
                    let v = tcx.instantiate_and_normalize_erasing_regions(u.args, self.env, ty::EarlyBinder::bind(tcx, b));
                    let j = self.body(&v);
                    o.push(("body", j));
                }
                self.consts[id] = O(o);
            }
        }
    }
}

trait Then { fn then_(self, f: impl FnOnce()); }
impl Then for () { fn then_(self, f: impl FnOnce()) { f() } }

fn fields_offsets(f: &rustc_abi::FieldsShape<rustc_abi::FieldIdx>) -> J {
    match f {
        rustc_abi::FieldsShape::Arbitrary { offsets, .. } => A(offsets.iter().map(|x| U(x.bytes() as u128)).collect()),
        rustc_abi::FieldsShape::Union(c) => A((0..c.get()).map(|_| U(0)).collect()),
        rustc_abi::FieldsShape::Array { stride, .. } => O(vec![("stride", U(stride.bytes() as u128))]),
        _ => Null,
    }
}

// ---------------------------------------------------------------- driver
struct C;
struct Loader {
    root: std::path::PathBuf,
    append: String,
}
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, path: &std::path::Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &std::path::Path) -> std::io::Result<String> {
        let mut t = std::fs::read_to_string(path)?;
        if path == self.root {
            t.push_str("\n");
            t.push_str(&self.append);
        }
        Ok(t)
    }
    fn read_binary_file(&self, path: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> {
        std::fs::read(path).map(|v| v.into())
    }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> {
        std::env::current_dir()
    }
}

/// For every `never_<Trait>_*<params>(_: T)`: does any instantiation of the parameters (fresh
/// inference variables) possibly satisfy `T: Trait`?
fn judge(tcx: TyCtxt<'_>) {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    for d in tcx.hir_body_owners() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) || !tcx.def_path_str(d).contains("__verif_types::") {
            continue;
        }
        let name = tcx.item_name(d).as_str().to_string();
        let Some(rest) = name.strip_prefix("never_") else { continue };
        let tr = match rest.split('_').next().unwrap() {
            "Send" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")).unwrap(),
            "Sync" => tcx.lang_items().sync_trait().unwrap(),
            _ => continue,
        };
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        let args = infcx.fresh_args_for_item(DUMMY_SP, d);
        let t = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder().inputs()[0];
        let r = infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty());
        println!("JUDGE {name} {}", if r.may_apply() { "may-hold" } else { "never" });
    }
}

impl Callbacks for C {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        let root = std::env::var("VC_CRATE_ROOT").unwrap();
        let append = std::env::var("VC_ROOTS").map(|f| std::fs::read_to_string(f).unwrap()).unwrap_or_default();
        config.file_loader = Some(Box::new(Loader { root: root.into(), append }));
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            std::process::exit(3);
        }
        if std::env::var("VC_JUDGE").is_ok() {
            judge(tcx);
            return Compilation::Stop;
        }
        let roots: Vec<_> = tcx
            .hir_body_owners()
            .filter(|d| {
                matches!(tcx.def_kind(*d), DefKind::Fn)
                    && tcx.def_path_str(d.to_def_id()).contains("__verif_roots::")
                    && tcx.item_name(d.to_def_id()).as_str().starts_with("root")
            })
            .collect();
        let mut out: Vec<(&'static str, J)> = vec![];
        let opaque = std::env::var("VC_OPAQUE").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
        let mut rootj = vec![];
        for r in roots {
            let env = TypingEnv::post_analysis(tcx, r.to_def_id());
            let mut cx = Cx {
                tcx, env, types: vec![], type_ids: Default::default(), insts: vec![], inst_ids: Default::default(),
                work: vec![], consts: vec![], const_ids: Default::default(), allocs: vec![], alloc_seen: Default::default(),
                opaque: opaque.clone(),
            };
            let i = Instance::new_raw(r.to_def_id(), ty::GenericArgs::identity_for_item(tcx, r.to_def_id()));
            let rid = cx.inst(i);
            let mut count = 0;
            while let Some(w) = cx.work.pop() {
                cx.process(w);
                count += 1;
                if count > 20000 {
                    eprintln!("driver: too many instances");
                    std::process::exit(4);
                }
            }
            let mut allocs = vec![];
            for (k, j) in std::mem::take(&mut cx.allocs) {
                allocs.push(A(vec![U(k as u128), j]));
            }
            rootj.push(O(vec![
                ("root", s(tcx.def_path_str(r.to_def_id()))),
                ("id", n(rid)),
                ("types", A(cx.types)),
                ("insts", A(cx.insts)),
                ("consts", A(cx.consts)),
                ("allocs", A(allocs)),
            ]));
        }
        out.push(("roots", A(rootj)));
        // global_asm
        let mut ga = vec![];
        let env0 = TypingEnv::fully_monomorphized();
        let mut cx = Cx {
            tcx, env: env0, types: vec![], type_ids: Default::default(), insts: vec![], inst_ids: Default::default(),
            work: vec![], consts: vec![], const_ids: Default::default(), allocs: vec![], alloc_seen: Default::default(), opaque: vec![],
        };
        for id in tcx.hir_free_items() {
            let item = tcx.hir_item(id);
            if let rustc_hir::ItemKind::GlobalAsm { asm, .. } = item.kind {
                let mut ops = vec![];
                for (o, _) in asm.operands {
                    ops.push(s(format!("{o:?}")));
                }
                let t = cx.template(asm.template);
                ga.push(O(vec![("template", t), ("operands", A(ops)), ("options", s(format!("{:?}", asm.options))), ("span", cx.span(item.span))]));
            }
        }
        out.push(("global_asm", A(ga)));
        // All local functions (for coverage accounting) with their source span.
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let p = cx.path(d.to_def_id());
                let sp = cx.span(tcx.def_span(d));
                fns.push(A(vec![s(p), sp]));
            }
        }
        out.push(("local_fns", A(fns)));
        out.push(("target", s(tcx.sess.opts.target_triple.tuple())));
        out.push(("ptr_bytes", U(tcx.data_layout.pointer_size().bytes() as u128)));
        out.push(("debug_assertions", B(tcx.sess.opts.debug_assertions)));
        out.push(("overflow_checks", B(tcx.sess.overflow_checks())));
        out.push(("panic", s(format!("{:?}", tcx.sess.panic_strategy()))));
        let mut text = String::new();
        O(out).write(&mut text);
        std::fs::write(std::env::var("VC_OUT").unwrap(), text).unwrap();
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut C));
    let _ = code;
    use std::process::Termination;
    let _ = Termination::report(code);
    if !std::path::Path::new(&std::env::var("VC_OUT").unwrap()).exists() {
        std::process::exit(3);
    }
}
