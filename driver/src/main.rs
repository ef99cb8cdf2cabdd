//! Dumps the type-checked, monomorphised MIR that is reachable from the functions of a crate.
//!
//! Used as RUSTC_WRAPPER: `mirdump <rustc> <args>`. For crates named in MIRDUMP_CRATES (comma
//! separated) the dump goes to $MIRDUMP_OUT/<crate>.json; other crates are compiled as usual.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<(Ty<'tcx>, usize), usize>,
    type_json: Vec<J>,
    envs: Vec<TypingEnv<'tcx>>,
    bodies: HashMap<(Instance<'tcx>, usize, Option<u32>), usize>,
    body_json: Vec<Option<J>>,
    queue: VecDeque<(usize, Instance<'tcx>, usize, Option<u32>)>,
    stops: Vec<String>,
    roots: Vec<J>,
    adts: Vec<J>,
    impls: Vec<J>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Dump<'tcx> {
    fn env_id(&mut self, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.envs.iter().position(|e| *e == env) {
            return i;
        }
        self.envs.push(env);
        self.envs.len() - 1
    }

    fn stopped(&self, p: &str) -> bool {
        self.stops.iter().any(|s| p.starts_with(s.as_str()))
    }

    fn norm(&self, ty: Ty<'tcx>, env: usize) -> Ty<'tcx> {
        let u = ty::Unnormalized::new(ty);
        self.tcx
            .try_normalize_erasing_regions(self.envs[env], u)
            .unwrap_or_else(|_| self.tcx.erase_and_anonymize_regions(ty))
    }

    fn args_json(&mut self, args: GenericArgsRef<'tcx>, env: usize) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(J::n(self.ty(t, env)));
            } else if let Some(c) = a.as_const() {
                v.push(J::o(vec![("const", self.tyconst(c))]));
            }
        }
        J::A(v)
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            J::n(v as usize)
        } else {
            J::s(with_no_trimmed_paths!(format!("{}", c)))
        }
    }

    /// Interns a type.
    fn ty(&mut self, ty: Ty<'tcx>, env: usize) -> usize {
        use ty::TypeVisitableExt;
        let env = if ty.has_param() || ty.has_aliases() { env } else { 0 };
        let ty = self.norm(ty, env);
        if let Some(&i) = self.types.get(&(ty, env)) {
            return i;
        }
        let id = self.type_json.len();
        self.types.insert((ty, env), id);
        self.type_json.push(J::Null);
        let mut o = vec![("s", J::s(with_no_trimmed_paths!(format!("{}", ty))))];
        let k = |o: &mut Vec<(&'static str, J)>, s: &str| o.push(("k", J::s(s)));
        match *ty.kind() {
            ty::Bool => k(&mut o, "bool"),
            ty::Char => k(&mut o, "char"),
            ty::Int(t) => {
                k(&mut o, "int");
                o.push(("bits", J::n(t.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(t) => {
                k(&mut o, "uint");
                o.push(("bits", J::n(t.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(t) => {
                k(&mut o, "float");
                o.push(("bits", J::n(t.bit_width() as usize)));
            }
            ty::Str => k(&mut o, "str"),
            ty::Never => k(&mut o, "never"),
            ty::Adt(def, args) => {
                k(&mut o, "adt");
                o.push(("path", J::s(path(self.tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push((
                    "adt",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                let args_j = self.args_json(args, env);
                o.push(("args", args_j));
                if let Some(d) = self.tcx.adt_destructor(def.did()) {
                    o.push(("drop", J::s(path(self.tcx, d.did))));
                    if d.did.is_local() {
                        if let Ok(Some(inst)) =
                            Instance::try_resolve(self.tcx, self.envs[env], d.did, args)
                        {
                            let b = self.body(inst, env, None);
                            o.push(("drop_body", b.map(J::n).unwrap_or(J::Null)));
                        }
                    }
                }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args).skip_norm_wip();
                        let fty = self.tcx.erase_and_anonymize_regions(fty);
                        let t = self.ty(fty, env);
                        fs.push(J::A(vec![J::s(f.name.as_str()), J::n(t)]));
                    }
                    let discr = if def.is_enum() {
                        J::s(def.discriminant_for_variant(self.tcx, vi).val.to_string())
                    } else {
                        J::Null
                    };
                    vs.push(J::o(vec![
                        ("name", J::s(v.name.as_str())),
                        ("discr", discr),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Array(t, n) => {
                k(&mut o, "array");
                let t = self.ty(t, env);
                o.push(("elem", J::n(t)));
                let n = self.tyconst(n);
                o.push(("len", n));
            }
            ty::Slice(t) => {
                k(&mut o, "slice");
                let t = self.ty(t, env);
                o.push(("elem", J::n(t)));
            }
            ty::RawPtr(t, m) => {
                k(&mut o, "rawptr");
                let t = self.ty(t, env);
                o.push(("to", J::n(t)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, t, m) => {
                k(&mut o, "ref");
                let t = self.ty(t, env);
                o.push(("to", J::n(t)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, args) => {
                k(&mut o, "fndef");
                if let Some(args) = args.no_bound_vars() {
                    let c = self.callee(d, args, env, false);
                    o.push(("callee", c));
                } else {
                    o.push(("path", J::s(path(self.tcx, d))));
                }
            }
            ty::FnPtr(..) => k(&mut o, "fnptr"),
            ty::Dynamic(preds, _) => {
                k(&mut o, "dyn");
                if let Some(d) = preds.principal_def_id() {
                    o.push(("trait", J::s(path(self.tcx, d))));
                }
            }
            ty::Closure(d, args) => {
                k(&mut o, "closure");
                o.push(("path", J::s(path(self.tcx, d))));
                o.push(("local", J::B(d.is_local())));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let mut v = vec![];
                for t in ups {
                    v.push(J::n(self.ty(t, env)));
                }
                o.push(("upvars", J::A(v)));
                let inst = Instance::new_raw(d, args);
                let b = self.body(inst, env, None);
                o.push(("body", b.map(J::n).unwrap_or(J::Null)));
                let kind = args.as_closure().kind();
                o.push(("ckind", J::s(format!("{:?}", kind))));
            }
            ty::Tuple(ts) => {
                k(&mut o, "tuple");
                let mut v = vec![];
                for t in ts.iter() {
                    v.push(J::n(self.ty(t, env)));
                }
                o.push(("elems", J::A(v)));
            }
            ty::Param(_) => k(&mut o, "param"),
            ty::Alias(..) => k(&mut o, "alias"),
            _ => k(&mut o, "other"),
        }
        self.type_json[id] = J::o(o);
        id
    }

    /// Reserves a body for an instance, to be dumped later. None if there is none or it is stopped.
    fn body(&mut self, inst: Instance<'tcx>, env: usize, promoted: Option<u32>) -> Option<usize> {
        use ty::TypeVisitableExt;
        let inst = Instance {
            def: inst.def,
            args: self.tcx.erase_and_anonymize_regions(inst.args),
        };
        let env = if inst.args.has_param() || inst.args.has_aliases() { env } else { 0 };
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if !matches!(
                    self.tcx.def_kind(d),
                    DefKind::Fn
                        | DefKind::AssocFn
                        | DefKind::Closure
                        | DefKind::Ctor(..)
                        | DefKind::Const { .. }
                        | DefKind::AssocConst { .. }
                       
                        | DefKind::AnonConst
                        | DefKind::Static { .. }
                ) {
                    return None;
                }
                if !self.tcx.is_mir_available(d) {
                    return None;
                }
                if promoted.is_none() && !d.is_local() && self.stopped(&path(self.tcx, d)) {
                    return None;
                }
            }
            InstanceKind::Shim(ref s) => match s {
                ShimKind::FnPtr(..)
                | ShimKind::ClosureOnce { .. }
                | ShimKind::Reify(..)
                | ShimKind::VTable(..)
                | ShimKind::Clone(..) => {}
                _ => return None,
            },
            _ => return None,
        }
        let key = (inst, env, promoted);
        if let Some(&i) = self.bodies.get(&key) {
            return Some(i);
        }
        let id = self.body_json.len();
        self.bodies.insert(key, id);
        self.body_json.push(None);
        self.queue.push_back((id, inst, env, promoted));
        Some(id)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: usize, _call: bool) -> J {
        let mut o = vec![("path", J::s(path(self.tcx, d)))];
        let a = self.args_json(args, env);
        o.push(("args", a));
        o.push(("krate", J::s(self.tcx.crate_name(d.krate).as_str())));
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(self.tcx, t))));
            o.push(("method", J::s(self.tcx.item_name(d).as_str())));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            // constructor function
            let parent = self.tcx.parent(d);
            let (adt_did, variant) = match self.tcx.def_kind(parent) {
                DefKind::Variant => (self.tcx.parent(parent), Some(parent)),
                _ => (parent, None),
            };
            let adt = self.tcx.adt_def(adt_did);
            let vi = match variant {
                Some(v) => adt.variant_index_with_id(v).as_usize(),
                None => 0,
            };
            o.push(("kind", J::s("ctor")));
            let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args).skip_norm_wip();
            let out = self.tcx.erase_and_anonymize_regions(sig.skip_binder().output());
            let t = self.ty(out, env);
            o.push(("ty", J::n(t)));
            o.push(("variant", J::n(vi)));
            return J::o(o);
        }
        match Instance::try_resolve(self.tcx, self.envs[env], d, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("kind", J::s(kind)));
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rpath", J::s(path(self.tcx, rd))));
                    let a = self.args_json(inst.args, env);
                    o.push(("rargs", a));
                }
                o.push(("rkrate", J::s(self.tcx.crate_name(rd.krate).as_str())));
                if let InstanceKind::Shim(ShimKind::Clone(_, t)) = inst.def {
                    let t = self.ty(t, env);
                    o.push(("clone_ty", J::n(t)));
                }
                if kind != "virtual" {
                    if let Some(b) = self.body(inst, env, None) {
                        o.push(("body", J::n(b)));
                    }
                }
            }
            _ => o.push(("kind", J::s("unresolved"))),
        }
        J::o(o)
    }

    // ---------------------------------------------------------------- constants

    /// Can a static have another value than its first?
    fn keeps_state(&self, d: DefId) -> bool {
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        self.tcx.is_mutable_static(d) || !t.is_freeze(self.tcx, ty::TypingEnv::fully_monomorphized())
    }

    fn scalar(&mut self, s: Scalar, ty: Ty<'tcx>, env: usize) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                J::o(vec![("int", J::s(bits.to_string()))])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let alloc_id = prov.alloc_id();
                let mut alloc_id = alloc_id;
                let mut global = self.tcx.global_alloc(alloc_id);
                if let GlobalAlloc::Static(d) = global {
                    if !self.keeps_state(d) && (d.is_local() || self.tcx.is_mir_available(d)) {
                        // as good as a constant
                        if let Ok(a) = self.tcx.eval_static_initializer(d) {
                            alloc_id = self.tcx.reserve_and_set_memory_alloc(a);
                            global = self.tcx.global_alloc(alloc_id);
                        }
                    }
                }
                match global {
                    GlobalAlloc::Function { instance } => {
                        let a = instance.args;
                        let c = self.callee(instance.def_id(), a, env, false);
                        J::o(vec![("fn", c)])
                    }
                    GlobalAlloc::Memory(_) => {
                        let inner = match *ty.kind() {
                            ty::Ref(_, t, _) | ty::RawPtr(t, _) => t,
                            _ => return J::o(vec![("unk", J::s("ptr"))]),
                        };
                        use ty::TypeVisitableExt;
                        if inner.has_param()
                            || !inner.is_sized(self.tcx, self.envs[env])
                        {
                            return J::o(vec![("unk", J::s("ptr to unsized"))]);
                        }
                        let v = self.constval(
                            ConstValue::Indirect { alloc_id, offset: off },
                            inner,
                            env,
                        );
                        let t = self.ty(inner, env);
                        J::o(vec![("ref", v), ("to", J::n(t))])
                    }
                    GlobalAlloc::Static(d) => J::o(vec![
                        ("static", J::s(path(self.tcx, d))),
                        ("state", J::B(self.keeps_state(d))),
                    ]),
                    _ => J::o(vec![("unk", J::s("alloc"))]),
                }
            }
        }
    }

    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>, env: usize) -> J {
        let ty = self.norm(ty, env);
        match v {
            ConstValue::ZeroSized => {
                let t = self.ty(ty, env);
                return J::o(vec![("zst", J::n(t))]);
            }
            ConstValue::Scalar(s) => {
                let simple = matches!(
                    ty.kind(),
                    ty::Bool
                        | ty::Char
                        | ty::Int(_)
                        | ty::Uint(_)
                        | ty::Float(_)
                        | ty::Ref(..)
                        | ty::RawPtr(..)
                        | ty::FnPtr(..)
                );
                if simple {
                    return self.scalar(s, ty, env);
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let alloc = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let bytes = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..alloc.inner().len());
                let inner = match *ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(t),
                    _ => None,
                };
                if let Some(t) = inner {
                    let is_u8s = matches!(*t.kind(), ty::Slice(e) if e == self.tcx.types.u8);
                    if t.is_str() || is_u8s {
                        let b = &bytes[..meta as usize];
                        let hex: String = b.iter().map(|b| format!("{:02x}", b)).collect();
                        return J::o(vec![
                            (if t.is_str() { "str" } else { "bytes" }, J::s(hex)),
                        ]);
                    }
                    if let ty::Slice(e) = *t.kind() {
                        return self.slice_const(alloc_id, 0, meta, e, env);
                    }
                }
                return J::o(vec![("unk", J::s("slice"))]);
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // wide pointers
                if let ty::Ref(_, t, _) | ty::RawPtr(t, _) = *ty.kind() {
                    use rustc_middle::mir::interpret::alloc_range;
                    let ptr_size = self.tcx.data_layout.pointer_size();
                    if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        let p = a.inner().read_scalar(&self.tcx, alloc_range(offset, ptr_size), true);
                        match (p, t.kind()) {
                            (Ok(p), ty::Str | ty::Slice(_)) => {
                                let m = a.inner().read_scalar(
                                    &self.tcx,
                                    alloc_range(offset + ptr_size, ptr_size),
                                    false,
                                );
                                if let (Scalar::Ptr(p, _), Ok(Scalar::Int(n))) = (p, m) {
                                    let n = n.to_bits(n.size()) as u64;
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let GlobalAlloc::Memory(b) = self.tcx.global_alloc(prov.alloc_id()) {
                                        let o = off.bytes() as usize;
                                        if t.is_str() {
                                            let by = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                            let hex: String = by.iter().map(|b| format!("{:02x}", b)).collect();
                                            return J::o(vec![("str", J::s(hex))]);
                                        }
                                        if let ty::Slice(e) = *t.kind() {
                                            return self.slice_const(prov.alloc_id(), off.bytes(), n, e, env);
                                        }
                                    }
                                }
                                return J::o(vec![("unk", J::s("wide"))]);
                            }
                            (Ok(p), _) => return self.scalar(p, ty, env),
                            _ => return J::o(vec![("unk", J::s("ptr read"))]),
                        }
                    }
                }
                if matches!(ty.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) {
                    if let Ok(layout) = self.tcx.layout_of(self.envs[env].as_query_input(ty)) {
                        use rustc_middle::mir::interpret::alloc_range;
                        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                            if let Ok(s) = a.inner().read_scalar(&self.tcx, alloc_range(offset, layout.size), false) {
                                return self.scalar(s, ty, env);
                            }
                        }
                    }
                }
            }
        }
        match ty.kind() {
            ty::Adt(d, _) if d.is_union() => return J::o(vec![("unk", J::s("union"))]),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                use ty::TypeVisitableExt;
                if ty.has_param() {
                    return J::o(vec![("unk", J::s("generic"))]);
                }
                if let ty::Array(_, n) = ty.kind() {
                    if n.try_to_target_usize(self.tcx).map_or(true, |n| n > 4096) {
                        return J::o(vec![("unk", J::s("big array"))]);
                    }
                }
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let t = self.ty(ty, env);
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        fs.push(self.constval(*fv, *ft, env));
                    }
                    return J::o(vec![
                        ("agg", J::A(fs)),
                        ("variant", d.variant.map(|v| J::n(v.as_usize())).unwrap_or(J::Null)),
                        ("ty", J::n(t)),
                    ]);
                }
            }
            _ => {}
        }
        J::o(vec![("unk", J::s(format!("{}", ty)))])
    }

    fn slice_const(&mut self, alloc_id: mir::interpret::AllocId, off: u64, n: u64, e: Ty<'tcx>, env: usize) -> J {
        if n > 4096 {
            return J::o(vec![("unk", J::s("big slice"))]);
        }
        let Ok(layout) = self.tcx.layout_of(self.envs[env].as_query_input(e)) else {
            return J::o(vec![("unk", J::s("layout"))]);
        };
        let mut v = vec![];
        for i in 0..n {
            let offset = rustc_abi::Size::from_bytes(off) + layout.size * i;
            v.push(self.constval(ConstValue::Indirect { alloc_id, offset }, e, env));
        }
        let t = self.ty(e, env);
        J::o(vec![("slice", J::A(v)), ("elem", J::n(t))])
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: usize) -> J {
        let ty = c.const_.ty();
        let t = self.ty(ty, env);
        let mut o = vec![("ty", J::n(t))];
        if let ty::FnDef(..) = ty.kind() {
            o.push(("v", J::o(vec![("zst", J::n(t))])));
            return J::o(vec![("const", J::o(o))]);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let inst = Instance::new_raw(u.def, u.args);
                if let Some(b) = self.body(inst, env, Some(p.as_u32())) {
                    o.push(("v", J::o(vec![("promoted", J::n(b))])));
                    return J::o(vec![("const", J::o(o))]);
                }
            }
        }
        match c.const_.eval(self.tcx, self.envs[env], Span::default()) {
            Ok(v) => {
                let v = self.constval(v, ty, env);
                o.push(("v", v));
            }
            Err(_) => {
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    o.push(("uneval", J::s(path(self.tcx, u.def))));
                    let a = self.args_json(u.args, env);
                    o.push(("args", a));
                    if let Ok(Some(inst)) =
                        Instance::try_resolve(self.tcx, self.envs[env], u.def, u.args)
                    {
                        if let Some(b) = self.body(inst, env, None) {
                            o.push(("body", J::n(b)));
                        }
                    }
                } else {
                    o.push(("param", J::s(with_no_trimmed_paths!(format!("{}", c.const_)))));
                }
                o.push(("v", J::Null));
            }
        }
        J::o(vec![("const", J::o(o))])
    }

    // ---------------------------------------------------------------- bodies

    fn place(&mut self, p: &mir::Place<'tcx>, env: usize) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref | mir::ProjectionElem::PhantomDeref => J::s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t, env);
                    J::A(vec![J::s("f"), J::n(f.as_usize()), J::n(t)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("c"),
                    J::n(offset as usize),
                    J::n(min_length as usize),
                    J::B(from_end),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("s"),
                    J::n(from as usize),
                    J::n(to as usize),
                    J::B(from_end),
                ]),
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::n(v.as_usize())]),
                mir::ProjectionElem::OpaqueCast(_) | mir::ProjectionElem::UnwrapUnsafeBinder(_) => {
                    J::s("cast")
                }
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, env: usize) -> J {
        match op {
            mir::Operand::Copy(p) => J::o(vec![("copy", self.place(p, env))]),
            mir::Operand::Move(p) => J::o(vec![("move", self.place(p, env))]),
            mir::Operand::Constant(c) => self.constant(c, env),
            mir::Operand::RuntimeChecks(r) => {
                J::o(vec![("rtcheck", J::s(format!("{:?}", r)))])
            }
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: usize) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::o(vec![("use", self.operand(o, env))]),
            Repeat(o, n) => {
                let n = self.tyconst(*n);
                J::o(vec![("repeat", self.operand(o, env)), ("n", n)])
            }
            Ref(_, k, p) => J::o(vec![
                ("ref", self.place(p, env)),
                ("bk", J::s(format!("{:?}", k))),
            ]),
            RawPtr(k, p) => J::o(vec![
                ("ref", self.place(p, env)),
                ("bk", J::s(format!("raw {:?}", k))),
            ]),
            Reborrow(_, m, p) => J::o(vec![
                ("use", J::o(vec![("copy", self.place(p, env))])),
                ("reborrow", J::B(m.is_mut())),
            ]),
            ThreadLocalRef(d) => J::o(vec![("tls", J::s(path(self.tcx, *d)))]),
            Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, self.tcx);
                let ot = self.ty(ot, env);
                let t = self.ty(*t, env);
                J::o(vec![
                    ("cast", J::s(format!("{:?}", k))),
                    ("op", self.operand(o, env)),
                    ("from", J::n(ot)),
                    ("ty", J::n(t)),
                ])
            }
            BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t, env);
                J::o(vec![
                    ("bin", J::s(format!("{:?}", b))),
                    ("a", self.operand(&ops.0, env)),
                    ("b", self.operand(&ops.1, env)),
                    ("ty", J::n(t)),
                ])
            }
            UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let t = self.ty(t, env);
                J::o(vec![
                    ("un", J::s(format!("{:?}", u))),
                    ("a", self.operand(o, env)),
                    ("ty", J::n(t)),
                ])
            }
            Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t, env);
                J::o(vec![("discr", self.place(p, env)), ("ty", J::n(t))])
            }
            Aggregate(k, ops) => {
                let mut fs = vec![];
                for o in ops.iter() {
                    fs.push(self.operand(o, env));
                }
                let (kind, vi, af) = match **k {
                    mir::AggregateKind::Array(_) => ("array", 0, None),
                    mir::AggregateKind::Tuple => ("tuple", 0, None),
                    mir::AggregateKind::Adt(_, v, _, _, f) => ("adt", v.as_usize(), f),
                    mir::AggregateKind::Closure(..) => ("closure", 0, None),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                let t = r.ty(&body.local_decls, self.tcx);
                let t = self.ty(t, env);
                let mut o = vec![
                    ("agg", J::s(kind)),
                    ("variant", J::n(vi)),
                    ("fields", J::A(fs)),
                    ("ty", J::n(t)),
                ];
                if let Some(f) = af {
                    o.push(("active", J::n(f.as_usize())));
                }
                J::o(o)
            }
            CopyForDeref(p) => {
                J::o(vec![("use", J::o(vec![("copy", self.place(p, env))]))])
            }
            WrapUnsafeBinder(o, _) => J::o(vec![("use", self.operand(o, env))]),
        }
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(s.lo());
        J::s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn dump_body(&mut self, inst: Instance<'tcx>, env: usize, promoted: Option<u32>) -> J {
        let tcx = self.tcx;
        let raw: mir::Body<'tcx> = match promoted {
            Some(p) => tcx.promoted_mir(inst.def_id())[mir::Promoted::from_u32(p)].clone(),
            None => match inst.def {
                InstanceKind::Item(d)
                    if matches!(
                        tcx.def_kind(d),
                        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. }
                    ) =>
                {
                    tcx.mir_for_ctfe(d).clone()
                }
                _ => tcx.instance_mir(inst.def).clone(),
            },
        };
        let typing_env = self.envs[env];
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            typing_env,
            ty::EarlyBinder::bind(tcx, raw),
        ) {
            Ok(b) => b,
            Err(_) => {
                return J::o(vec![("error", J::s("normalization"))]);
            }
        };
        let d = inst.def_id();
        let mut o = vec![
            ("path", J::s(path(tcx, d))),
            ("krate", J::s(tcx.crate_name(d.krate).as_str())),
            ("args", self.args_json(inst.args, env)),
            ("span", self.span(body.span)),
            ("argc", J::n(body.arg_count)),
            ("local", J::B(d.is_local())),
        ];
        if let Some(s) = body.spread_arg {
            o.push(("spread", J::n(s.as_usize())));
        }
        if let InstanceKind::Shim(ref s) = inst.def {
            o.push(("shim", J::s(format!("{:?}", s).split('(').next().unwrap_or("").to_string())));
        }
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(J::n(self.ty(l.ty, env)));
        }
        o.push(("locals", J::A(locals)));
        let mut dbg = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    dbg.push(J::A(vec![J::n(p.local.as_usize()), J::s(v.name.as_str())]));
                }
            }
        }
        o.push(("names", J::A(dbg)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                use mir::StatementKind::*;
                let j = match &s.kind {
                    Assign(b) => {
                        let pl = self.place(&b.0, env);
                        let rv = self.rvalue(&b.1, &body, env);
                        J::A(vec![J::s("="), pl, rv])
                    }
                    SetDiscriminant { place, variant_index } => J::A(vec![
                        J::s("setdiscr"),
                        self.place(place, env),
                        J::n(variant_index.as_usize()),
                    ]),
                    StorageLive(l) => J::A(vec![J::s("live"), J::n(l.as_usize())]),
                    StorageDead(l) => J::A(vec![J::s("dead"), J::n(l.as_usize())]),
                    Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(op) => {
                            J::A(vec![J::s("assume"), self.operand(op, env)])
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(_) => {
                            J::A(vec![J::s("copynonoverlapping")])
                        }
                    },
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => J::o(vec![("goto", J::n(target.as_usize()))]),
                FalseEdge { real_target, .. } => {
                    J::o(vec![("goto", J::n(real_target.as_usize()))])
                }
                FalseUnwind { real_target, .. } => {
                    J::o(vec![("goto", J::n(real_target.as_usize()))])
                }
                SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let t = self.ty(t, env);
                    let mut ts = vec![];
                    for (v, b) in targets.iter() {
                        ts.push(J::A(vec![J::s(v.to_string()), J::n(b.as_usize())]));
                    }
                    J::o(vec![
                        ("switch", self.operand(discr, env)),
                        ("ty", J::n(t)),
                        ("targets", J::A(ts)),
                        ("otherwise", J::n(targets.otherwise().as_usize())),
                    ])
                }
                Return => J::o(vec![("return", J::B(true))]),
                Unreachable => J::o(vec![("unreachable", J::B(true))]),
                UnwindResume | UnwindTerminate(_) => J::o(vec![("unwind", J::B(true))]),
                Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(t, env);
                    J::o(vec![
                        ("drop", self.place(place, env)),
                        ("ty", J::n(t)),
                        ("target", J::n(target.as_usize())),
                    ])
                }
                Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let mut o = vec![];
                    match *ft.kind() {
                        ty::FnDef(d, a) => {
                            if let Some(a) = a.no_bound_vars() {
                                let c = self.callee(d, a, env, true);
                                o.push(("callee", c));
                            } else {
                                o.push((
                                    "callee",
                                    J::o(vec![
                                        ("path", J::s(path(tcx, d))),
                                        ("kind", J::s("bound")),
                                    ]),
                                ));
                            }
                        }
                        _ => {
                            let f = self.operand(func, env);
                            o.push(("fptr", f));
                        }
                    }
                    let mut av = vec![];
                    for a in args.iter() {
                        av.push(self.operand(&a.node, env));
                    }
                    o.push(("args", J::A(av)));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt, env);
                    o.push(("dest", self.place(destination, env)));
                    o.push(("dty", J::n(dt)));
                    o.push(("target", target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null)));
                    J::o(vec![("call", J::o(o))])
                }
                Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(b, ..) => format!("overflow {:?}", b),
                        mir::AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                        mir::AssertKind::DivisionByZero(_) => "div by zero".to_string(),
                        mir::AssertKind::RemainderByZero(_) => "rem by zero".to_string(),
                        _ => "other".to_string(),
                    };
                    J::o(vec![
                        ("assert", self.operand(cond, env)),
                        ("expected", J::B(*expected)),
                        ("msg", J::s(m)),
                        ("target", J::n(target.as_usize())),
                    ])
                }
                _ => J::o(vec![("other", J::B(true))]),
            };
            blocks.push(J::o(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::A(blocks)));
        J::o(o)
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        self.env_id(TypingEnv::fully_monomorphized());
        let mut defs: Vec<DefId> = vec![];
        for id in tcx.hir_body_owners() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                defs.push(d);
            }
        }
        for d in defs {
            let env = self.env_id(TypingEnv::post_analysis(tcx, d));
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            if let Some(b) = self.body(inst, env, None) {
                let vis = tcx.visibility(d);
                let eff = d
                    .as_local()
                    .map(|l| tcx.effective_visibilities(()).is_reachable(l))
                    .unwrap_or(false);
                let mut o = vec![
                    ("path", J::s(path(tcx, d))),
                    ("body", J::n(b)),
                    ("pub", J::B(vis.is_public())),
                    ("reachable", J::B(eff)),
                    // of its own module alone
                    ("private", J::B(match vis {
                        ty::Visibility::Restricted(m) => {
                            let m: DefId = m.into();
                            let p: DefId = tcx.parent_module_from_def_id(d.expect_local()).into();
                            m == p
                        }
                        _ => false,
                    })),
                    ("unsafe", J::B(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                        && tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
                ];
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let st = tcx.erase_and_anonymize_regions(st);
                    let t = self.ty(st, env);
                    o.push(("self", J::n(t)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(path(tcx, tr.def_id))));
                    }
                    o.push(("derived", J::B(tcx.is_builtin_derived(imp))));
                }
                o.push(("name", J::s(tcx.item_name(d).as_str())));
                o.push(("span", self.span(tcx.def_span(d))));
                self.roots.push(J::o(o));
            }
        }
        let eff = tcx.effective_visibilities(());
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let mut fields = vec![];
                    for f in tcx.adt_def(d).all_fields() {
                        fields.push(J::o(vec![
                            ("name", J::s(f.name.as_str())),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                    self.adts.push(J::o(vec![
                        ("path", J::s(path(tcx, d))),
                        ("reachable", J::B(eff.is_reachable(id))),
                        ("fields", J::A(fields)),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let st = tr.self_ty();
                    let name = match st.kind() {
                        ty::Adt(a, _) => path(tcx, a.did()),
                        _ => String::new(),
                    };
                    self.impls.push(J::o(vec![
                        ("trait", J::s(path(tcx, tr.def_id))),
                        ("self", J::s(name)),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        while let Some((id, inst, env, p)) = self.queue.pop_front() {
            let j = self.dump_body(inst, env, p);
            self.body_json[id] = Some(j);
        }
    }
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.ub_checks = Some(false);
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if !crates.split(',').any(|c| c == name) {
            return Compilation::Continue;
        }
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let stops = std::env::var("MIRDUMP_STOPS")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| s.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect())
            .unwrap_or_default();
        let mut d = Dump {
            tcx,
            types: HashMap::new(),
            type_json: vec![],
            envs: vec![],
            bodies: HashMap::new(),
            body_json: vec![],
            queue: VecDeque::new(),
            stops,
            roots: vec![],
            adts: vec![],
            impls: vec![],
        };
        d.run();
        let j = J::o(vec![
            ("crate", J::s(name.as_str())),
            ("types", J::A(std::mem::take(&mut d.type_json))),
            ("bodies", J::A(d.body_json.into_iter().map(|b| b.unwrap_or(J::Null)).collect())),
            ("roots", J::A(d.roots)),
            ("adts", J::A(d.adts)),
            ("impls", J::A(d.impls)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let p = format!("{}/{}.json", out, name);
        std::fs::write(&p, s).expect("cannot write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    struct Nop;
    impl Callbacks for Nop {
        fn config(&mut self, config: &mut rustc_interface::interface::Config) {
            // so that dependants can look into them
            config.opts.unstable_opts.always_encode_mir = true;
        }
    }
    if crates.split(',').any(|c| c == name) {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
