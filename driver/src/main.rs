//! rustc driver that dumps the type-checked program (MIR, ADTs, signatures) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::intravisit::{self, Visitor as _};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- json
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => {
                let _ = write!(o, "{b}");
            }
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::U(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => esc(o, s),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    bodies: Vec<(String, J)>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    queued: HashSet<String>,
    statics: HashSet<DefId>,
    coroutine_bodies: HashMap<DefId, Body<'tcx>>,
    static_q: Vec<DefId>,
}

const DESCEND: &[&str] = &[
    "core::option::", "std::option::", "core::result::", "std::result::", "core::bool::", "std::bool::",
    "core::mem::take", "core::mem::replace", "std::mem::take", "std::mem::replace",
    "core::ops::", "std::ops::", "core::convert::", "std::convert::", "core::iter::", "std::iter::",
    "core::cmp::", "std::cmp::", "core::array::", "std::array::", "core::borrow::", "std::borrow::",
    "core::default", "std::default", "core::tuple", "std::tuple", "core::clone", "std::clone",
    "core::hash", "std::hash",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(self.tcx.def_path_str(d)))
    }
    fn ipath(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let ident = ty::GenericArgs::identity_for_item(self.tcx, d);
        let base = self.path(d);
        if args == ident || self.tcx.erase_and_anonymize_regions(args) == self.tcx.erase_and_anonymize_regions(ident) {
            return base;
        }
        let mut parts = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                parts.push(self.tystr(t));
            } else if let Some(c) = a.as_const() {
                parts.push(format!("{c}"));
            }
        }
        if parts.is_empty() {
            return base;
        }
        format!("{base}@<{}>", parts.join(", "))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(format!("{t}")))
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}:{}", f, lo.line, lo.col.0 + 1)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ix.get(&t) {
            return J::U(*i as u128);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, i);
        let s = self.tystr(t);
        let targs = |cx: &mut Self, args: GenericArgsRef<'tcx>| -> J {
            J::A(args.iter().filter_map(|a| a.as_type()).map(|t| cx.ty(t)).collect())
        };
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(s))];
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", J::s("prim")));
            }
            ty::Adt(def, args) => {
                self.adt(def);
                o.push(("k", J::s("adt")));
                o.push(("p", J::S(self.path(def.did()))));
                let a = targs(self, args);
                o.push(("a", a));
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", J::s("ref")));
                let x = self.ty(t2);
                o.push(("t", x));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(t2);
                o.push(("t", x));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Slice(t2) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(t2);
                o.push(("t", x));
            }
            ty::Array(t2, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(t2);
                o.push(("t", x));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::U(n as u128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("e", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::S(self.path(d))));
                o.push(("key", J::S(self.ipath(d, args))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("up", J::A(ups)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("p", J::S(self.path(d))));
                let a = targs(self, args.skip_binder());
                o.push(("a", a));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("p", J::s(p.name.as_str())));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::O(o);
        J::U(i as u128)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) {
            return;
        }
        let p = self.path(def.did());
        let args = ty::GenericArgs::identity_for_item(self.tcx, def.did());
        let local = def.did().is_local();
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = f.ty(self.tcx, args).skip_normalization();
                let vis = self.tcx.visibility(f.did).is_public();
                let t = if local || p.starts_with("std::option") || p.starts_with("std::result") { self.ty(fty) } else { J::Null };
                fs.push(J::O(vec![("n", J::s(f.name.as_str())), ("t", t), ("ts", J::S(self.tystr(fty))), ("pub", J::B(vis))]));
            }
            let d = if def.is_enum() { J::S(format!("{}", def.discriminant_for_variant(self.tcx, vi).val)) } else { J::Null };
            vs.push(J::O(vec![("n", J::s(v.name.as_str())), ("d", d), ("f", J::A(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let sp = self.span(self.tcx.def_span(def.did()));
        let vis = self.tcx.visibility(def.did()).is_public();
        self.adts.insert(p, J::O(vec![("kind", J::s(kind)), ("local", J::B(local)), ("pub", J::B(vis)), ("span", J::S(sp)), ("variants", J::A(vs)),
            ("box", J::B(def.is_box()))]));
    }

    // ------------------------------------------------------------ constants
    fn scalar_json(&mut self, t: Ty<'tcx>, s: Scalar, env: TypingEnv<'tcx>) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Char => J::O(vec![("char", J::U(bits))]),
                    ty::Int(_) => {
                        let v = i.size().sign_extend(bits) as i128;
                        J::O(vec![("int", J::I(v))])
                    }
                    ty::Float(_) => J::O(vec![("float", J::S(format!("{bits:x}")))]),
                    _ => J::O(vec![("int", J::U(bits))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.ptr_json(t, prov.alloc_id(), off, None, env)
            }
        }
    }
    fn ptr_json(&mut self, t: Ty<'tcx>, id: interpret::AllocId, off: rustc_abi::Size, meta: Option<u64>, env: TypingEnv<'tcx>) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                if d.is_local() && self.statics.insert(d) {
                    self.static_q.push(d);
                }
                J::O(vec![("static", J::S(self.path(d)))])
            }
            GlobalAlloc::Function { instance } => {
                let k = self.ipath(instance.def_id(), instance.args);
                J::O(vec![("fnptr", J::S(k))])
            }
            GlobalAlloc::Memory(alloc) => {
                let pointee = match t.kind() {
                    ty::Ref(_, p, _) => *p,
                    ty::RawPtr(p, _) => *p,
                    _ => return J::O(vec![("opaque", J::s("ptr"))]),
                };
                match pointee.kind() {
                    ty::Str => {
                        let a = alloc.inner();
                        let n = meta.unwrap_or(0) as usize;
                        let o = off.bytes() as usize;
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        J::O(vec![("str", J::S(String::from_utf8_lossy(b).into_owned()))])
                    }
                    ty::Slice(el) => {
                        let n = meta.unwrap_or(0);
                        let at = Ty::new_array(self.tcx, *el, n);
                        let cv = ConstValue::Indirect { alloc_id: id, offset: off };
                        let v = self.cv_json(at, cv, env);
                        J::O(vec![("ref", v)])
                    }
                    ty::Dynamic(..) => J::O(vec![("opaque", J::s("dyn"))]),
                    _ => {
                        let cv = ConstValue::Indirect { alloc_id: id, offset: off };
                        let v = self.cv_json(pointee, cv, env);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            _ => J::O(vec![("opaque", J::s("alloc"))]),
        }
    }
    fn cv_json(&mut self, t: Ty<'tcx>, v: ConstValue, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => match *t.kind() {
                ty::FnDef(d, args) => self.fn_json(d, args.skip_binder(), env),
                ty::Tuple(_) => J::O(vec![("unit", J::B(true))]),
                ty::Closure(d, args) => {
                    let k = self.ipath(d, args);
                    self.enqueue(Instance::new_raw(d, args), env);
                    J::O(vec![("closure", J::S(k))])
                }
                ty::Adt(def, _) => {
                    self.adt(def);
                    J::O(vec![("zst", J::S(self.path(def.did())))])
                }
                ty::Array(..) => J::O(vec![("arr", J::A(vec![]))]),
                _ => J::O(vec![("opaque", J::S(self.tystr(t)))]),
            },
            ConstValue::Scalar(s) => match t.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destructure(t, v, env),
                _ => self.scalar_json(t, s, env),
            },
            ConstValue::Slice { alloc_id, meta } => self.ptr_json(t, alloc_id, rustc_abi::Size::ZERO, Some(meta), env),
            ConstValue::Indirect { alloc_id, offset } => {
                match t.kind() {
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destructure(t, v, env),
                    ty::Ref(..) | ty::RawPtr(..) | ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                        // read the scalar (pair)
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                            return J::O(vec![("opaque", J::s("ind"))]);
                        };
                        let a = a.inner();
                        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else {
                            return J::O(vec![("opaque", J::s("layout"))]);
                        };
                        let ps = tcx.data_layout.pointer_size();
                        let is_ptr = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..));
                        let sz = if is_ptr { ps } else { layout.size };
                        let r = a.read_scalar(&tcx, interpret::alloc_range(offset, sz), is_ptr);
                        let Ok(s) = r else {
                            return J::O(vec![("opaque", J::s("read"))]);
                        };
                        if is_ptr && layout.size > ps {
                            let m = a.read_scalar(&tcx, interpret::alloc_range(offset + ps, ps), false);
                            if let (Scalar::Ptr(p, _), Ok(Scalar::Int(mi))) = (s, m) {
                                let (prov, off) = p.into_raw_parts();
                                return self.ptr_json(t, prov.alloc_id(), off, Some(mi.to_bits(mi.size()) as u64), env);
                            }
                            return J::O(vec![("opaque", J::s("fat"))]);
                        }
                        self.scalar_json(t, s, env)
                    }
                    _ => J::O(vec![("opaque", J::S(self.tystr(t)))]),
                }
            }
        }
    }
    fn destructure(&mut self, t: Ty<'tcx>, v: ConstValue, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        if let ty::Array(el, n) = t.kind()
            && let Some(n) = n.try_to_target_usize(tcx)
            && n > 64
        {
            if let (ConstValue::Indirect { alloc_id, offset }, true) = (v, *el == tcx.types.u8)
                && let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id)
            {
                let o = offset.bytes() as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                return J::O(vec![("arr", J::A(b.iter().map(|x| J::O(vec![("int", J::U(*x as u128))])).collect()))]);
            }
        }
        let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) else {
            return J::O(vec![("opaque", J::S(self.tystr(t)))]);
        };
        let fields: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cv_json(*ft, *fv, env)).collect();
        match t.kind() {
            ty::Adt(def, _) => {
                self.adt(*def);
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                J::O(vec![("adt", J::S(self.path(def.did()))), ("v", J::U(vi as u128)), ("f", J::A(fields))])
            }
            ty::Tuple(_) => J::O(vec![("tup", J::A(fields))]),
            _ => J::O(vec![("arr", J::A(fields))]),
        }
    }
    fn fn_json(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("fn", J::S(self.path(d)))];
        let a: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect();
        o.push(("ga", J::A(a)));
        let nargs = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let nargs = tcx.erase_and_anonymize_regions(nargs);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
            o.push(("m", J::s(tcx.item_name(d).as_str())));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, nargs) {
            let (kind, rd) = match inst.def {
                InstanceKind::Item(x) => ("item", x),
                InstanceKind::Virtual(x, _) => ("virtual", x),
                InstanceKind::Intrinsic(x) => ("intrinsic", x),
                InstanceKind::Shim(_) => ("shim", inst.def_id()),
                _ => ("other", inst.def_id()),
            };
            o.push(("rk", J::s(kind)));
            o.push(("r", J::S(self.path(rd))));
            if kind == "item" {
                let key = self.ipath(rd, inst.args);
                o.push(("key", J::S(key)));
                o.push(("local", J::B(rd.is_local())));
                self.enqueue(inst, env);
            }
        }
        J::O(o)
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let InstanceKind::Item(d) = inst.def else { return };
        if !d.is_local() {
            let p = self.path(d);
            let q = p.trim_start_matches('<');
            let ok = DESCEND.iter().any(|x| q.starts_with(x)) || {
                // trait impls: look at the trait path / self type
                DESCEND.iter().any(|x| p.contains(&format!(" as {x}"))) && !p.contains("alloc::") && !p.contains("serde") && !p.contains("slice::")
            };
            if !ok || !self.tcx.is_mir_available(d) {
                return;
            }
        }
        let k = self.ipath(d, inst.args);
        if k.len() > 4000 {
            return;
        }
        if self.queued.insert(k) {
            self.queue.push_back((inst, env));
        }
    }
    fn const_json(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            return self.fn_json(d, args.skip_binder(), env);
        }
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", tj)];
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::U(p.as_usize() as u128)));
            } else {
                o.push(("item", J::S(self.path(u.def))));
            }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                let j = self.cv_json(t, v, env);
                o.push(("v", j));
            }
            Err(_) => {}
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("ct", J::S(format!("{ct}"))));
        }
        J::O(o)
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![J::U(p.local.as_usize() as u128)];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && pt.variant_index.is_none() {
                                format!("{}", f.as_usize())
                            } else {
                                def.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    let tj = self.ty(t);
                    J::A(vec![J::s("f"), J::U(f.as_usize() as u128), J::S(name), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::U(l.as_usize() as u128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("c"), J::U(offset as u128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::U(from as u128), J::U(to as u128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match (n, pt.ty.kind()) {
                        (_, ty::Adt(def, _)) => def.variant(vi).name.to_string(),
                        (Some(n), _) => n.to_string(),
                        _ => String::new(),
                    };
                    J::A(vec![J::s("d"), J::U(vi.as_usize() as u128), J::S(nm)])
                }
                _ => J::A(vec![J::s("?")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p, body))]),
            Operand::Constant(c) => {
                let j = self.const_json(c, env);
                J::O(vec![("k", j)])
            }
            _ => J::O(vec![("rt", J::S(format!("{o:?}")))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.op(o, body, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::U(n as u128)).unwrap_or(J::Null);
                J::A(vec![J::s("repeat"), self.op(o, body, env), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![J::s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p, body)]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::B(true), self.place(p, body)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::B(m.is_mut()), self.place(p, body)]),
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::O(vec![("c", self.place(p, body))])]),
            Rvalue::Cast(k, o, t) => {
                let tj = self.ty(*t);
                let st = o.ty(body, self.tcx);
                let sj = self.ty(st);
                J::A(vec![J::s("cast"), J::S(format!("{k:?}")), self.op(o, body, env), tj, sj])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(body, self.tcx);
                let tj = self.ty(t);
                J::A(vec![J::s("bin"), J::S(format!("{b:?}")), self.op(&ops.0, body, env), self.op(&ops.1, body, env), tj])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(body, self.tcx);
                let tj = self.ty(t);
                J::A(vec![J::s("un"), J::S(format!("{u:?}")), self.op(o, body, env), tj])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let tj = self.ty(t);
                J::A(vec![J::s("discr"), self.place(p, body), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let v = def.variant(*vi);
                        J::A(vec![
                            J::s("adt"),
                            J::S(self.path(*d)),
                            J::U(vi.as_usize() as u128),
                            J::s(v.name.as_str()),
                            J::A(v.fields.iter().map(|f| J::s(f.name.as_str())).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        self.enqueue(Instance::new_raw(*d, args), env);
                        J::A(vec![J::s("closure"), J::S(self.ipath(*d, args)), J::S(self.path(*d))])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        self.enqueue(Instance::new_raw(*d, args), env);
                        J::A(vec![J::s("closure"), J::S(self.ipath(*d, args)), J::S(self.path(*d))])
                    }
                    other => J::A(vec![J::s("other"), J::S(format!("{other:?}"))]),
                };
                J::A(vec![J::s("agg"), kj, J::A(ops)])
            }
            other => J::A(vec![J::s("unk"), J::S(format!("{other:?}"))]),
        }
    }
    fn body_json(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value
                && p.projection.is_empty()
            {
                names.entry(p.local.as_usize()).or_insert(v.name.to_string());
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                let n = names.get(&l.as_usize()).map(|s| J::s(s.clone())).unwrap_or(J::Null);
                J::A(vec![t, n])
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let rj = self.rvalue(r, body, env);
                        st.push(J::A(vec![J::s("="), self.place(p, body), rj, J::S(self.span(s.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![J::s("sd"), self.place(place, body), J::U(variant_index.as_usize() as u128)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = J::S(self.span(t.source_info.span));
            let bbj = |b: BasicBlock| J::U(b.as_usize() as u128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bbj(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, self.tcx);
                    let dtj = self.ty(dt);
                    let tg: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::S(v.to_string()), bbj(b)])).collect();
                    J::A(vec![J::s("switch"), self.op(discr, body, env), J::A(tg), bbj(targets.otherwise()), dtj, sp])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![J::s("drop"), self.place(place, body), bbj(*target)]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, body, env);
                    let a: Vec<J> = args.iter().map(|a| self.op(&a.node, body, env)).collect();
                    let ats: Vec<J> = args.iter().map(|a| { let t = a.node.ty(body, self.tcx); self.ty(t) }).collect();
                    let dt = destination.ty(body, self.tcx).ty;
                    let dtj = self.ty(dt);
                    J::A(vec![
                        J::s("call"), f, J::A(a), self.place(destination, body),
                        target.map(bbj).unwrap_or(J::Null), sp, J::A(ats), dtj,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    J::A(vec![J::s("assert"), self.op(cond, body, env), J::B(*expected), J::S(m), bbj(*target), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bbj(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bbj(*real_target)]),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    J::A(vec![J::s("yield"), self.op(value, body, env), bbj(*resume), self.place(resume_arg, body)])
                }
                other => J::A(vec![J::s("unk"), J::S(format!("{other:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cl", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("argc", J::U(body.arg_count as u128)), ("spread", body.spread_arg.map(|l| J::U(l.as_usize() as u128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)), ("blocks", J::A(blocks)), ("span", J::S(self.span(body.span)))])
    }
    fn do_instance(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let InstanceKind::Item(d) = inst.def else { return };
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) == false {
            return;
        }
        if d.is_local() && !tcx.is_mir_available(d) {
            return;
        }
        let cor: Option<Body<'tcx>> = if d.is_local() && tcx.is_coroutine(d) { self.coroutine_bodies.get(&d).cloned() } else { None };
        let raw: &Body<'tcx> = match &cor {
            Some(b) => b,
            None => tcx.optimized_mir(d),
        };
        let Ok(body) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) else {
            return;
        };
        let key = self.ipath(d, inst.args);
        let mut j = self.body_json(&body, env);
        let prom: Vec<J> = if d.is_local() || true {
            let ps = tcx.promoted_mir(d);
            let ps: Vec<Body<'tcx>> = ps.iter().cloned().collect();
            let mut out = vec![];
            for p in ps {
                match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, p)) {
                    Ok(b) => out.push(self.body_json(&b, env)),
                    Err(_) => out.push(J::Null),
                }
            }
            out
        } else {
            vec![]
        };
        if let J::O(ref mut v) = j {
            v.push(("path", J::S(self.path(d))));
            v.push(("local", J::B(d.is_local())));
            v.push(("promoted", J::A(prom)));
            v.push(("closure", J::B(kind == DefKind::Closure)));
            if kind == DefKind::Closure || kind == DefKind::AssocFn {
                let par = tcx.parent(d);
                v.push(("parent", J::S(self.path(par))));
            }
        }
        self.bodies.push((key, j));
    }
}

struct Cb;
thread_local! {
    static COR: std::cell::RefCell<HashMap<rustc_hir::def_id::LocalDefId, Body<'static>>> = Default::default();
}
type Promoted = for<'tcx> fn(
    TyCtxt<'tcx>,
    rustc_hir::def_id::LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted_, Body<'tcx>>>,
);
use rustc_middle::mir::Promoted as Promoted_;
static ORIG: std::sync::OnceLock<Promoted> = std::sync::OnceLock::new();
/// Coroutine bodies (async fns) are captured before the state-machine transform.
fn capture<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: rustc_hir::def_id::LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted_, Body<'tcx>>>,
) {
    let r = (ORIG.get().unwrap())(tcx, d);
    if tcx.def_kind(d) == DefKind::Closure && tcx.is_coroutine(d.to_def_id()) {
        let b: Body<'static> = unsafe { std::mem::transmute(r.0.borrow().clone()) };
        COR.with(|c| c.borrow_mut().insert(d, b));
    }
    r
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = capture;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ix: HashMap::new(),
        adts: BTreeMap::new(),
        adt_seen: HashSet::new(),
        bodies: vec![],
        queue: VecDeque::new(),
        queued: HashSet::new(),
        statics: HashSet::new(),
        coroutine_bodies: HashMap::new(),
        static_q: vec![],
    };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    for ld in &keys {
        let d = ld.to_def_id();
        if tcx.def_kind(d) == DefKind::Closure && tcx.is_coroutine(d) {
            let b = COR.with(|c| c.borrow().get(ld).cloned());
            if let Some(b) = b {
                // SAFETY: the clone was made in this very session; 'tcx outlives this call.
                let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                cx.coroutine_bodies.insert(d, b);
            }
        }
    }
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let env = TypingEnv::post_analysis(tcx, d);
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let inst = Instance::new_raw(d, args);
                let k = cx.ipath(d, args);
                if cx.queued.insert(k.clone()) {
                    cx.queue.push_back((inst, env));
                }
                if kind != DefKind::Closure {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                    let out = cx.ty(sig.output());
                    let reach = ev.is_reachable(ld);
                    let exported = ev.is_exported(ld);
                    let mut o = vec![
                        ("path", J::S(cx.path(d))),
                        ("key", J::S(k)),
                        ("name", J::s(tcx.item_name(d).as_str())),
                        ("in", J::A(ins)),
                        ("out", out),
                        ("outs", J::S(cx.tystr(sig.output()))),
                        ("reach", J::B(reach)),
                        ("exported", J::B(exported)),
                        ("pub", J::B(tcx.visibility(d).is_public())),
                        ("span", J::S(cx.span(tcx.def_span(d)))),
                    ];
                    let argn: Vec<J> = tcx.fn_arg_idents(d).iter().map(|i| i.map(|i| J::s(i.name.as_str())).unwrap_or(J::Null)).collect();
                    o.push(("argn", J::A(argn)));
                    if kind == DefKind::AssocFn {
                        let par = tcx.parent(d);
                        if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                            let st = tcx.type_of(par).instantiate_identity().skip_normalization();
                            o.push(("self", J::S(cx.tystr(st))));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_normalization();
                                o.push(("trait", J::S(cx.path(tr.def_id))));
                                o.push(("traitref", J::S(with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(format!("{}", tcx.erase_and_anonymize_regions(tr)))))));
                            }
                        } else if tcx.def_kind(par) == DefKind::Trait {
                            o.push(("intrait", J::S(cx.path(par))));
                        }
                        o.push(("hasself", J::B(tcx.associated_item(d).is_method())));
                    }
                    fns.push(J::O(o));
                }
            }
            DefKind::Static { .. } => {
                if cx.statics.insert(d) {
                    cx.static_q.push(d);
                }
            }
            _ => {}
        }
    }
    let mut statics = vec![];
    loop {
        if let Some((i, e)) = cx.queue.pop_front() {
            cx.do_instance(i, e);
            continue;
        }
        if let Some(d) = cx.static_q.pop() {
            if !d.is_local() {
                continue;
            }
            let env = TypingEnv::fully_monomorphized();
            let t = tcx.type_of(d).instantiate_identity().skip_normalization();
            if let Ok(a) = tcx.eval_static_initializer(d) {
                let id = tcx.reserve_and_set_memory_alloc(a);
                let v = cx.cv_json(t, ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, env);
                let tj = cx.ty(t);
                statics.push((cx.path(d), J::O(vec![("t", tj), ("v", v)])));
            }
            continue;
        }
        break;
    }
    // trait impl list
    let mut impls = vec![];
    for it in tcx.hir_crate_items(()).free_items() {
        let d = it.owner_id.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_normalization();
            let derived = tcx.is_automatically_derived(d);
            let items: Vec<J> = tcx.associated_items(d).in_definition_order().map(|i| J::s(i.opt_name().map(|n| n.to_string()).unwrap_or_default())).collect();
            impls.push(J::O(vec![
                ("trait", J::S(cx.path(tr.def_id))),
                ("ref", J::S(with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(format!("{}", tcx.erase_and_anonymize_regions(tr)))))),
                ("self", J::S(cx.tystr(tr.self_ty()))),
                ("derived", J::B(derived)),
                ("items", J::A(items)),
                ("span", J::S(cx.span(tcx.def_span(d)))),
            ]));
        } else if let DefKind::Struct | DefKind::Enum = tcx.def_kind(d) {
            let def = tcx.adt_def(d);
            cx.adt(def);
        }
    }
    // unsafe blocks, functions and impls written in this crate
    struct U<'tcx> {
        tcx: TyCtxt<'tcx>,
        out: Vec<(&'static str, Span, rustc_hir::def_id::LocalDefId)>,
        cur: rustc_hir::def_id::LocalDefId,
    }
    impl<'tcx> intravisit::Visitor<'tcx> for U<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                    self.out.push(("block", b.span, self.cur));
                }
            }
            intravisit::walk_block(self, b);
        }
    }
    let mut u = U { tcx, out: vec![], cur: rustc_hir::def_id::CRATE_DEF_ID };
    for ld in tcx.hir_body_owners() {
        u.cur = ld;
        if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
            u.visit_body(b);
        }
        if matches!(tcx.def_kind(ld), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(ld).skip_binder().safety().is_safe() {
            u.out.push(("fn", tcx.def_span(ld), ld));
        }
    }
    for it in tcx.hir_crate_items(()).free_items() {
        let ld = it.owner_id.def_id;
        match tcx.def_kind(ld) {
            DefKind::Impl { of_trait: true } => {
                if !tcx.impl_trait_header(ld.to_def_id()).safety.is_safe() {
                    u.out.push(("impl", tcx.def_span(ld), ld));
                }
            }
            DefKind::ForeignMod => u.out.push(("extern block", tcx.def_span(ld), ld)),
            DefKind::Static { mutability, .. } => {
                if mutability.is_mut() {
                    u.out.push(("static mut", tcx.def_span(ld), ld));
                }
            }
            _ => {}
        }
    }
    let unsafes: Vec<J> = u.out.iter().map(|(k, sp, d)| J::O(vec![("k", J::s(*k)), ("span", J::S(cx.span(*sp))), ("fn", J::S(cx.path(d.to_def_id())))])).collect();
    // auto traits of the public types
    let mut autos = vec![];
    for it in tcx.hir_crate_items(()).free_items() {
        let ld = it.owner_id.def_id;
        if let DefKind::Struct | DefKind::Enum = tcx.def_kind(ld) {
            let d = ld.to_def_id();
            let t = tcx.type_of(d).instantiate_identity().skip_normalization();
            let env = TypingEnv::post_analysis(tcx, d);
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
            let mut has = |s: rustc_span::Symbol| -> J {
                match tcx.get_diagnostic_item(s) {
                    Some(tr) => J::B(infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()),
                    None => J::Null,
                }
            };
            autos.push((cx.path(d), J::O(vec![
                ("exported", J::B(ev.is_exported(ld))),
                ("send", has(rustc_span::sym::Send)),
                ("sync", has(rustc_span::sym::Sync)),
                ("unwind", has(rustc_span::sym::unwind_safe_trait)),
                ("refunwind", has(rustc_span::sym::ref_unwind_safe_trait)),
                ("freeze", J::B(t.is_freeze(tcx, env))),
                ("unpin", J::B(t.is_unpin(tcx, env))),
                ("span", J::S(cx.span(tcx.def_span(d)))),
            ])));
        }
    }
    let feats: Vec<J> = std::env::var("MIRDUMP_TAG").map(|t| vec![J::S(t)]).unwrap_or_default();
    let bodies = std::mem::take(&mut cx.bodies);
    let adts: Vec<(String, J)> = std::mem::take(&mut cx.adts).into_iter().collect();
    let types = std::mem::take(&mut cx.types);
    let j = J::O(vec![
        ("crate", J::S(krate.clone())),
        ("tag", J::A(feats)),
        ("fns", J::A(fns)),
        ("impls", J::A(impls)),
        ("adts", J::M(adts)),
        ("statics", J::M(statics)),
        ("unsafes", J::A(unsafes)),
        ("autos", J::M(autos)),
        ("types", J::A(types)),
        ("bodies", J::M(bodies)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let ct = if tcx.crate_types().iter().any(|c| format!("{c:?}") == "Executable") { "bin" } else { "lib" };
    let f = format!("{dir}/{krate}-{ct}.json");
    std::fs::write(&f, o).unwrap();
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}
fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok() && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    if primary {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=warn".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}
