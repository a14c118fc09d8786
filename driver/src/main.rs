//! rustc wrapper that dumps the monomorphic MIR reachable from the crate's
//! functions as JSON. It never runs the analysed program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::GlobalAlloc, ConstValue, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

/// Minimal JSON writer
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                if *i > i64::MAX as i128 || *i < i64::MIN as i128 {
                    write!(out, "\"{}\"", i).unwrap()
                } else {
                    write!(out, "{}", i).unwrap()
                }
            }
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write!(out, "\"{}\":", k).unwrap();
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

const OPAQUE: &[&str] = &[
    "alloc::", "std::", "core::fmt::", "core::slice::", "core::str::", "core::ptr::",
    "core::num::", "core::alloc::", "core::intrinsics::", "core::unicode::", "core::char::",
    "core::panicking::", "core::hint::", "core::array::", "core::hash::", "core::any::",
    "hashbrown::", "core::ascii::", "core::ffi::", "core::mem::", "core::clone::", "core::ub_checks::",
    "core::error::", "core::borrow::", "core::cell::", "core::time::", "core::sync::",
];

fn p_is_iter(p: &str) -> bool {
    p.starts_with("std::iter::Iterator::") || p.starts_with("std::iter::DoubleEndedIterator::")
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    fns: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    done: Vec<J>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "std".into()),
            _ => "?".into(),
        };
        s(format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(J::Null);
        let name = with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(it) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("n", J::I(l as i128)));
                }
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("f", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("local", J::B(tcx.crate_name(def.did().krate).as_str() == "mofmt")));
                let targs: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(targs)));
                if !def.is_union() {
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val as i128
                        } else {
                            0
                        };
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = tcx.try_normalize_erasing_regions(self.env, f.ty(tcx, args));
                            let ft = match ft {
                                Ok(x) => x,
                                Err(_) => continue,
                            };
                            let fi = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.as_str()), n(fi)]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.as_str())), ("d", J::I(d)), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let inst = Instance::new_raw(*d, args);
                let b = self.func(inst);
                o.push(("body", n(b)));
                let v = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("f", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(*d, args.skip_binder());
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[i] = J::O(o);
        i
    }

    /// Index of the instance in the function table (queueing it if it is new)
    fn func(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(i) = self.fns.get(&inst) {
            return *i;
        }
        let i = self.fns.len();
        self.fns.insert(inst, i);
        self.queue.push(inst);
        i
    }

    /// `from_iter` and `extend`: how the elements are drawn
    fn collecting(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let p = self.path(d);
        if p != "std::iter::FromIterator::from_iter" && p != "std::iter::Extend::extend" {
            return None;
        }
        let ts: Vec<Ty<'tcx>> = args.types().collect();
        if ts.len() != 3 {
            return None;
        }
        let ii = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator)?;
        let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let find = |t: DefId, n: &str| tcx.associated_items(t).in_definition_order().find(|x| x.name().as_str() == n).map(|x| x.def_id);
        let into_ty = find(ii, "IntoIter")?;
        let into_fn = find(ii, "into_iter")?;
        let item_ty = find(it, "Item")?;
        let next_fn = find(it, "next")?;
        let a1 = tcx.mk_args(&[ts[2].into()]);
        let proj = Ty::new_projection(tcx, ty::IsRigid::No, into_ty, a1);
        let iter = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(proj)).ok()?;
        let a2 = tcx.mk_args(&[iter.into()]);
        let proj = Ty::new_projection(tcx, ty::IsRigid::No, item_ty, a2);
        let item = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(proj)).ok()?;
        let opt = tcx.get_lang_items(()).option_type()?;
        let opt = Ty::new_adt(tcx, tcx.adt_def(opt), tcx.mk_args(&[item.into()]));
        let o = vec![
            ("self", n(self.ty(ts[0]))), ("iter", n(self.ty(iter))), ("item", n(self.ty(item))), ("opt", n(self.ty(opt))), ("src", n(self.ty(ts[2]))),
            ("into", self.callee(into_fn, a1)), ("next", self.callee(next_fn, a2)),
        ];
        Some(J::O(o))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("decl", s(self.path(d)))];
        if let Some(c) = self.collecting(d, args) {
            o.push(("loop", c));
        }
        let targs: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
        o.push(("dargs", J::A(targs)));
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let id = inst.def_id();
                let p = self.path(id);
                o.push(("path", s(p.clone())));
                if tcx.is_intrinsic(id, rustc_span::sym::abort) {
                    // fallthrough: never has a body of interest
                }
                let targs: Vec<J> = inst.args.types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(targs)));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "once",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    _ => "shim",
                };
                o.push(("kind", s(kind)));
                if let InstanceKind::Item(_) = inst.def {
                    let raw = with_no_trimmed_paths!(tcx.def_path_str(id));
                    let krate = tcx.crate_name(id.krate);
                    let full = format!("{}::{}", krate, tcx.def_path(id).to_string_no_crate_verbose().trim_start_matches("::"));
                    let _ = raw;
                    o.push(("full", s(full.clone())));
                    let opaque = OPAQUE.iter().any(|x| full.starts_with(x));
                    if !opaque && tcx.is_mir_available(id) && matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                        let i = self.func(inst);
                        o.push(("fn", n(i)));
                    } else if tcx.def_kind(id) == DefKind::Closure {
                        let i = self.func(inst);
                        o.push(("fn", n(i)));
                    } else if opaque && d != id && p_is_iter(&self.path(d)) && tcx.is_mir_available(d) {
                        // an overridden iterator method: the provided body means the same
                        let i = self.func(Instance::new_raw(d, args));
                        o.push(("fn", n(i)));
                    } else if let DefKind::Ctor(..) = tcx.def_kind(id) {
                        let parent = tcx.parent(id);
                        let out = tcx.fn_sig(id).instantiate(tcx, inst.args).skip_binder().output();
                        let out = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(out)).unwrap_or(out);
                        let rt = self.ty(out);
                        let mut vi = 0usize;
                        if let ty::Adt(def, _) = out.kind() {
                            if def.is_enum() {
                                let v = if tcx.def_kind(parent) == DefKind::Variant { parent } else { id };
                                vi = def.variants().iter_enumerated().find(|(_, x)| x.def_id == v).map(|(i, _)| i.as_usize()).unwrap_or(0);
                            }
                        }
                        o.push(("ctor", J::A(vec![n(rt), n(vi)])));
                    }
                } else {
                    let krate = tcx.crate_name(id.krate);
                    let full = format!("{}::{}", krate, tcx.def_path(id).to_string_no_crate_verbose().trim_start_matches("::"));
                    o.push(("full", s(full)));
                }
            }
            _ => {}
        }
        J::O(o)
    }

    fn place(&mut self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![s("*")]),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), n(t)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        let _ = body;
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }

    fn alloc_val(&mut self, id: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::O(vec![("c", s("?"))]);
        }
        match tcx.global_alloc(id) {
            GlobalAlloc::Memory(_) => {
                self.cv(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, t, depth)
            }
            GlobalAlloc::Static(d) => J::O(vec![("c", s("static")), ("path", s(self.path(d)))]),
            _ => J::O(vec![("c", s("?"))]),
        }
    }

    fn read(&self, id: mir::interpret::AllocId, off: u64, size: u64) -> Option<mir::interpret::Scalar> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return None };
        let r = mir::interpret::AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(size) };
        a.inner().read_scalar(&self.tcx, r, true).ok().or_else(|| a.inner().read_scalar(&self.tcx, r, false).ok())
    }

    /// Evaluated constant
    fn cv(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let ti = self.ty(t);
        let unk = J::O(vec![("c", s("?")), ("t", n(ti))]);
        if depth > 8 {
            return unk;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = tcx.layout_of(self.env.as_query_input(t)).unwrap().size.bytes();
                        self.read(alloc_id, offset.bytes(), sz)
                    }
                    _ => None,
                };
                if let Some(mir::interpret::Scalar::Int(i)) = sc {
                    let val = if let ty::Int(_) = t.kind() { i.to_int(i.size()) } else { i.to_uint(i.size()) as i128 };
                    return J::O(vec![("c", s("i")), ("v", J::I(val)), ("t", n(ti))]);
                }
                unk
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let inner = *inner;
                let (id, off, meta) = match v {
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, Some(meta)),
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        (prov.alloc_id(), off.bytes(), None)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let Some(mir::interpret::Scalar::Ptr(p, _)) = self.read(alloc_id, offset.bytes(), 8) else { return unk };
                        let (prov, off) = p.prov_and_relative_offset();
                        let fat = matches!(inner.kind(), ty::Str | ty::Slice(_));
                        let meta = if fat {
                            match self.read(alloc_id, offset.bytes() + 8, 8) {
                                Some(mir::interpret::Scalar::Int(i)) => Some(i.to_uint(i.size()) as u64),
                                _ => return unk,
                            }
                        } else {
                            None
                        };
                        (prov.alloc_id(), off.bytes(), meta)
                    }
                    _ => return unk,
                };
                match inner.kind() {
                    ty::Str => {
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return unk };
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + meta.unwrap_or(0)) as usize);
                        J::O(vec![("c", s("s")), ("v", s(String::from_utf8_lossy(b).to_string())), ("t", n(ti))])
                    }
                    ty::Slice(e) => {
                        let sz = tcx.layout_of(self.env.as_query_input(*e)).unwrap().size.bytes();
                        let mut els = Vec::new();
                        for k in 0..meta.unwrap_or(0) {
                            els.push(self.alloc_val(id, off + k * sz, *e, depth + 1));
                        }
                        J::O(vec![("c", s("r")), ("v", J::O(vec![("c", s("a")), ("v", J::A(els))])), ("t", n(ti))])
                    }
                    ty::Dynamic(..) => unk,
                    _ => {
                        let x = self.alloc_val(id, off, inner, depth + 1);
                        J::O(vec![("c", s("r")), ("v", x), ("t", n(ti))])
                    }
                }
            }
            ty::FnDef(..) => J::O(vec![("c", s("z")), ("t", n(ti))]),
            ty::Closure(..) => J::O(vec![("c", s("z")), ("t", n(ti))]),
            ty::Array(..) | ty::Adt(..) | ty::Tuple(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return unk;
                    }
                    let p = self.path(d.did());
                    if p.starts_with("core::fmt") {
                        return unk;
                    }
                }
                match rustc_const_eval_destructure(tcx, v, t) {
                    Some(dc) => {
                        let mut fs = Vec::new();
                        for (fv, ft) in dc.fields {
                            fs.push(self.cv(*fv, *ft, depth + 1));
                        }
                        let var = dc.variant.map(|x| x.as_usize()).unwrap_or(0);
                        let tag = if matches!(t.kind(), ty::Array(..)) { "a" } else { "d" };
                        J::O(vec![("c", s(tag)), ("x", n(var)), ("v", J::A(fs)), ("t", n(ti))])
                    }
                    None => unk,
                }
            }
            _ => unk,
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let known = match c.const_ {
            // promoted constants of other crates are not always there
            mir::Const::Unevaluated(u, _) => u.promoted.is_none_or(|p| self.tcx.promoted_mir(u.def).len() > p.index()),
            _ => true,
        };
        let v = if known {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(self.tcx, self.env, c.span).ok())).ok().flatten()
        } else {
            None
        };
        match v {
            Some(v) => self.cv(v, t, 0),
            None => {
                let ti = self.ty(t);
                J::O(vec![("c", s("?")), ("t", n(ti))])
            }
        }
    }

    fn op(&mut self, o: &mir::Operand<'tcx>, body: &mir::Body<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("cp"), self.place(p, body)]),
            mir::Operand::Move(p) => J::A(vec![s("mv"), self.place(p, body)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![s("use"), self.op(o, body)]),
            Repeat(o, c) => J::A(vec![s("rep"), self.op(o, body), c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)]),
            Ref(_, k, p) => J::A(vec![s("ref"), self.place(p, body), J::B(matches!(k, mir::BorrowKind::Mut { .. }))]),
            RawPtr(_, p) => J::A(vec![s("ref"), self.place(p, body), J::B(true)]),
            Reborrow(_, m, p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p, body)]), J::B(m.is_mut())]),
            Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(body, self.tcx);
                let fi = self.ty(from);
                let ks = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("ptr:{:?}", c),
                    x => format!("{:?}", x),
                };
                J::A(vec![s("cast"), s(ks), self.op(o, body), n(ti), n(fi)])
            }
            BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(&ops.0, body), self.op(&ops.1, body)]),
            UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o, body)]),
            Discriminant(p) => J::A(vec![s("disc"), self.place(p, body)]),
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p, body)])]),
            Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, body)).collect();
                let (kk, x) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, vi, _, _, None) => ("adt", vi.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    _ => ("?", 0),
                };
                let t = r.ty(body, self.tcx);
                let ti = self.ty(t);
                J::A(vec![s("agg"), s(kk), n(ti), n(x), J::A(v)])
            }
            ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let id = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        let mut locals = Vec::new();
        for l in body.local_decls.iter() {
            locals.push(n(self.ty(l.ty)));
        }
        let mut names = Vec::new();
        for d in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(d.name.as_str())]));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut sts = Vec::new();
            for st in &bb.statements {
                match &st.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let r = self.rvalue(r, &body);
                        sts.push(J::A(vec![s("="), self.place(p, &body), r, self.span(st.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(J::A(vec![s("sd"), self.place(place, &body), n(variant_index.as_usize()), self.span(st.source_info.span)]));
                    }
                    mir::StatementKind::StorageDead(l) => sts.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    mir::StatementKind::StorageLive(l) => sts.push(J::A(vec![s("live"), n(l.as_usize())])),
                    mir::StatementKind::Intrinsic(..) => sts.push(J::A(vec![s("intr")])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = Vec::new();
                    for (val, b) in targets.iter() {
                        v.push(J::A(vec![J::I(val as i128), n(b.as_usize())]));
                    }
                    let dt = discr.ty(&body, tcx);
                    let di = self.ty(dt);
                    J::A(vec![s("switch"), self.op(discr, &body), J::A(v), n(targets.otherwise().as_usize()), sp, n(di)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body, tcx).ty;
                    let pi = self.ty(pt);
                    J::A(vec![s("drop"), self.place(place, &body), n(target.as_usize()), sp, n(pi)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body, tcx);
                    let c = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => J::O(vec![("ptr", self.op(func, &body))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, &body)).collect();
                    let at: Vec<J> = args.iter().map(|x| n(self.ty(x.node.ty(&body, tcx)))).collect();
                    J::A(vec![
                        s("call"), c, J::A(a), self.place(destination, &body),
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null), sp, J::A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    J::A(vec![s("assert"), self.op(cond, &body), J::B(*expected), s(format!("{:?}", msg).split('(').next().unwrap_or("").to_string()), n(target.as_usize()), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                x => J::A(vec![s("?"), s(format!("{:?}", x))]),
            };
            blocks.push(J::O(vec![("s", J::A(sts)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let krate = tcx.crate_name(id.krate);
        let full = format!("{}::{}", krate, tcx.def_path(id).to_string_no_crate_verbose().trim_start_matches("::"));
        J::O(vec![
            ("path", s(self.path(id))),
            ("full", s(full)),
            ("crate", s(krate.as_str())),
            ("span", self.span(tcx.def_span(id))),
            ("args", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn rustc_const_eval_destructure<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<mir::DestructuredConstant<'tcx>> {
    tcx.try_destructure_mir_constant_for_user_output(v, t)
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.debug_assertions = true;
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let kname = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let mut d = Dump { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), type_out: vec![], fns: HashMap::new(), queue: vec![], done: vec![] };
        let mut statics = Vec::new();
        let mut unsafe_n = 0;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) || !tcx.is_mir_available(did) {
                        continue;
                    }
                    if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                        unsafe_n += 1;
                    }
                    d.func(Instance::mono(tcx, did));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(J::A(vec![s(d.path(did)), J::B(mutability.is_mut()), d.span(tcx.def_span(did))]));
                }
                _ => {}
            }
        }
        let mut out: HashMap<usize, J> = HashMap::new();
        while let Some(i) = d.queue.pop() {
            let ix = d.fns[&i];
            let b = d.body(i);
            out.insert(ix, b);
        }
        let total = d.fns.len();
        for i in 0..total {
            d.done.push(out.remove(&i).unwrap_or(J::Null));
        }
        let j = J::O(vec![
            ("crate", s(kname.clone())),
            ("bin", J::B(is_bin)),
            ("fns", J::A(std::mem::take(&mut d.done))),
            ("types", J::A(std::mem::take(&mut d.type_out))),
            ("statics", J::A(statics)),
            ("unsafe_fns", n(unsafe_n)),
        ]);
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(format!("{}/{}-{}.json", dir, kname, if is_bin { "bin" } else { "lib" }), o).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc first
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
