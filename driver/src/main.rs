//! rustc_private driver: runs the ordinary compiler front end on the crate under
//! analysis (injected by cargo through RUSTC_WORKSPACE_WRAPPER) and writes the
//! resolved, type-checked program as JSON: every local function's MIR, the MIR of every
//! function reachable from it through resolved calls, evaluated constants, type
//! definitions, and API facts. It never executes any of it.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgs, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv,
};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// one-way matching of an implementation's type against an actual one
fn fits<'tcx>(pat: Ty<'tcx>, t: Ty<'tcx>, map: &mut HashMap<u32, Ty<'tcx>>) -> bool {
    match (pat.kind(), t.kind()) {
        (TyKind::Param(p), _) => *map.entry(p.index).or_insert(t) == t,
        (TyKind::Adt(a, x), TyKind::Adt(b, y)) => a == b && x.types().zip(y.types()).all(|(p, q)| fits(p, q, map)),
        (TyKind::Ref(_, a, m), TyKind::Ref(_, b, n)) => m == n && fits(*a, *b, map),
        (TyKind::Slice(a), TyKind::Slice(b)) => fits(*a, *b, map),
        _ => pat == t,
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
    instmap: HashMap<Instance<'tcx>, usize>,
    deep: bool,
    lang_only: bool,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        // items of core are named as core's whatever they are reached through
        if self.tcx.crate_name(d.krate).as_str() == "core" {
            return p.replace("std::", "core::");
        }
        p
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, loc.line)
    }
    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&x) = self.instmap.get(&i) {
            return x;
        }
        let n = self.insts.len();
        self.insts.push((i, env));
        self.instmap.insert(i, n);
        n
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, idx);
        let name = with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".to_string(),
            TyKind::Char => "\"k\":\"char\"".to_string(),
            TyKind::Uint(u) => format!(
                "\"k\":\"uint\",\"bits\":{}",
                u.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits())
            ),
            TyKind::Int(u) => format!("\"k\":\"int\",\"bits\":{}", u.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits())),
            TyKind::Float(_) => "\"k\":\"float\"".to_string(),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::Ref(_, inner, m) => {
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(inner, env), m.is_mut())
            }
            TyKind::RawPtr(inner, m) => {
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(inner, env), m.is_mut())
            }
            TyKind::Array(inner, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", self.ty(inner, env), n)
            }
            TyKind::Slice(inner) => format!("\"k\":\"slice\",\"of\":{}", self.ty(inner, env)),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
            }
            TyKind::Adt(def, args) => {
                let kind = if def.is_struct() {
                    "struct"
                } else if def.is_enum() {
                    "enum"
                } else {
                    "union"
                };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args).skip_norm_wip();
                        let fty = self
                            .tcx
                            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(fty))
                            .unwrap_or(fty);
                        let ft = self.ty(fty, env);
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), ft, f.vis.is_public()));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        esc(v.name.as_str()),
                        discr,
                        fs.join(",")
                    ));
                }
                let dty = if def.is_enum() {
                    let d = def.repr().discr_type();
                    let dt = rustc_middle::ty::util::IntTypeExt::to_ty(&d, self.tcx);
                    self.ty(dt, env) as i64
                } else {
                    -1
                };
                let r = def.repr();
                let targs: Vec<String> =
                    args.types().map(|x| self.ty(x, env).to_string()).collect();
                let size = if !def.did().is_local() { -1 } else { self
                    .tcx
                    .layout_of(env.as_query_input(t))
                    .map(|l| l.size.bytes() as i64)
                    .unwrap_or(-1) };
                format!(
                    "\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"v\":[{}],\"dty\":{},\"local\":{},\"reprc\":{},\"transp\":{},\"targs\":[{}],\"size\":{}",
                    kind,
                    esc(&self.path(def.did())),
                    vs.join(","),
                    dty,
                    def.did().is_local(),
                    r.c(),
                    r.transparent(),
                    targs.join(","),
                    size
                )
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x, env).to_string())
                    .collect();
                let args = self.tcx.erase_and_anonymize_regions(args);
                let n = self.inst(Instance { def: InstanceKind::Item(d), args }, env);
                format!(
                    "\"k\":\"closure\",\"path\":{},\"f\":[{}],\"i\":{}",
                    esc(&self.path(d)),
                    ups.join(","),
                    n
                )
            }
            TyKind::FnDef(d, args) => {
                format!(
                    "\"k\":\"fndef\",\"path\":{},\"args\":{},\"fn\":{{{}}}",
                    esc(&self.path(d)),
                    esc(&with_no_trimmed_paths!(format!("{:?}", args))),
                    self.fnref(d, args.no_bound_vars().unwrap(), env)
                )
            }
            TyKind::Pat(inner, _) => format!("\"k\":\"pat\",\"of\":{}", self.ty(inner, env)),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            TyKind::Param(p) => format!("\"k\":\"param\",\"pn\":{}", esc(p.name.as_str())),
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[idx] = format!("{{{},\"name\":{}}}", body, esc(&name));
        idx
    }

    /// What a reference turned into a trait object refers to: its type and the trait's methods for it.
    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let (Some(a), Some(b)) = (from.builtin_deref(true), to.builtin_deref(true)) else { return String::new() };
        let TyKind::Dynamic(preds, ..) = b.kind() else { return String::new() };
        if matches!(a.kind(), TyKind::Dynamic(..)) {
            return String::new();
        }
        let mut out = Vec::new();
        if let Some(tr) = preds.principal() {
            let head = tcx.instantiate_bound_regions_with_erased(tr.with_self_ty(tcx, a));
            let head = tcx.erase_and_anonymize_regions(head);
            if !self.path(head.def_id).starts_with("core::fmt::") {
                let mut todo = vec![head];
                let mut seen = Vec::new();
                while let Some(h) = todo.pop() {
                    if seen.contains(&h) {
                        continue;
                    }
                    seen.push(h);
                    for (p, _) in tcx.explicit_super_clauses_of(h.def_id).iter_identity_copied().map(|x| x.skip_norm_wip()) {
                        if let Some(t) = p.as_trait_clause() {
                            let t = EarlyBinder::bind(tcx, tcx.instantiate_bound_regions_with_erased(t)).instantiate(tcx, h.args).skip_norm_wip();
                            todo.push(tcx.erase_and_anonymize_regions(t.trait_ref));
                        }
                    }
                    for item in tcx.associated_items(h.def_id).in_definition_order() {
                        if !matches!(tcx.def_kind(item.def_id), DefKind::AssocFn) || tcx.generics_of(item.def_id).own_counts().types > 0 || !tcx.generics_of(item.def_id).is_empty() && tcx.generics_of(item.def_id).own_counts().consts > 0 {
                            continue;
                        }
                        let args = GenericArgs::for_item(tcx, item.def_id, |p, _| match h.args.get(p.index as usize) {
                            Some(x) => *x,
                            None => tcx.lifetimes.re_erased.into(),
                        });
                        let path = self.path(item.def_id);
                        let r = self.fnref(item.def_id, args, env);
                        out.push(format!("[{},{{{}}}]", esc(&path), r));
                    }
                }
            }
        }
        format!(",\"dyn\":{},\"vt\":[{}]", self.ty(a, env), out.join(","))
    }

    /// A library function the compiler may specialise for some types, called with types that are
    /// still generic: its general version (specialisation must not change what a call does).
    fn general(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d)?;
        if tr.is_local() {
            return None;
        }
        for imp in tcx.all_impls(tr) {
            if imp.is_local() || tcx.impl_parent(imp).is_some() {
                continue;
            }
            let Some(item) = tcx.associated_items(imp).in_definition_order().find(|i| i.trait_item_def_id() == Some(d)) else { continue };
            if !tcx.defaultness(item.def_id).is_default() {
                continue;
            }
            let head = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let mut map = HashMap::new();
            if !head.args.types().zip(args.types()).all(|(p, t)| fits(p, t, &mut map)) {
                continue;
            }
            let gen = tcx.generics_of(imp);
            if (0..gen.count()).any(|k| matches!(gen.param_at(k, tcx).kind, ty::GenericParamDefKind::Const { .. })
                || matches!(gen.param_at(k, tcx).kind, ty::GenericParamDefKind::Type { .. }) && !map.contains_key(&(k as u32))) {
                continue;
            }
            let own = GenericArgs::for_item(tcx, imp, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => map[&p.index].into(),
            });
            return Some(Instance::new_raw(item.def_id, args.rebase_onto(tcx, tr, own)));
        }
        None
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let path = self.path(d);
        let sig_unsafe = matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && self.tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        let args = self.tcx.erase_and_anonymize_regions(args);
        let args = self
            .tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        let tys: Vec<String> = args.types().map(|t| self.ty(t, env).to_string()).collect();
        let mut s = format!("\"path\":{},\"targs\":[{}]", esc(&path), tys.join(","));
        if sig_unsafe {
            s.push_str(",\"unsafe\":true");
        }
        if let DefKind::Ctor(of, _) = self.tcx.def_kind(d) {
            let out = Ty::new_fn_def(self.tcx, d, ty::Binder::dummy(args)).fn_sig(self.tcx).output().skip_binder();
            let out = self.tcx.erase_and_anonymize_regions(out);
            let var = match of {
                rustc_hir::def::CtorOf::Struct => 0,
                rustc_hir::def::CtorOf::Variant => {
                    out.ty_adt_def().map(|a| a.variant_index_with_ctor_id(d).as_u32()).unwrap_or(0)
                }
            };
            let t = self.ty(out, env);
            let _ = write!(s, ",\"ctor\":[{},{}]", t, var);
        }
        if self.tcx.is_foreign_item(d) {
            s.push_str(",\"foreign\":true");
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let found = match Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(i)) => Some(i),
            _ => self.general(d, args),
        };
        match found {
            Some(i) => {
                let rp = self.path(i.def_id());
                let _ = write!(s, ",\"rpath\":{},\"crate\":{}", esc(&rp), esc(self.tcx.crate_name(i.def_id().krate).as_str()));
                if let InstanceKind::Intrinsic(_) = i.def {
                    s.push_str(",\"intrinsic\":true");
                } else if let InstanceKind::Virtual(..) = i.def {
                    s.push_str(",\"virtual\":true");
                } else {
                    let n = self.inst(i, env);
                    let _ = write!(s, ",\"i\":{}", n);
                }
            }
            _ => {}
        }
        // code of the allocating library that drives an iterator: the step it takes
        let krate = self.tcx.crate_name(d.krate);
        if matches!(krate.as_str(), "alloc" | "std") || path.ends_with("Iterator::collect") || path.ends_with("Iterator::unzip") || path.ends_with("FromIterator::from_iter") || path.ends_with("Extend::extend") {
            let mut out = Vec::new();
            for t in args.types() {
                if matches!(t.kind(), TyKind::Param(_)) {
                    continue;
                }
                for (kind, item) in [("next", self.tcx.lang_items().next_fn()), ("into_iter", self.tcx.lang_items().into_iter_fn())] {
                    let Some(item) = item else { continue };
                    let a = self.tcx.mk_args(&[t.into()]);
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, item, a) {
                        if matches!(i.def, InstanceKind::Item(_)) && !matches!(self.tcx.def_kind(self.tcx.parent(i.def_id())), DefKind::Trait) {
                            let r = self.fnref(item, a, env);
                            let ti = self.ty(t, env);
                            out.push(format!("[{},\"{}\",{{{}}}]", ti, kind, r));
                        }
                    }
                }
            }
            if !out.is_empty() {
                let _ = write!(s, ",\"steps\":[{}]", out.join(","));
            }
        }
        s
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"opaque\":\"deep\"}".into();
        }
        match t.kind() {
            TyKind::FnDef(d, args) => {
                return format!("{{\"fn\":{{{}}}}}", self.fnref(*d, args.no_bound_vars().unwrap(), env));
            }
            TyKind::Bool | TyKind::Char | TyKind::Uint(_) | TyKind::Int(_) => {
                let sc = match v {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => {
                        self.read_scalar(alloc_id, offset, t, env, 0)
                    }
                    _ => None,
                };
                if let Some(Scalar::Int(i)) = sc {
                    return format!("{{\"int\":\"{}\"}}", i.to_bits_unchecked());
                }
                return "{\"opaque\":\"scalar\"}".into();
            }
            TyKind::Float(_) => return "{\"opaque\":\"float\"}".into(),
            TyKind::FnPtr(..) => {
                let sc = match v {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => self.read_scalar(alloc_id, offset, t, env, 1),
                    _ => None,
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(p.into_raw_parts().0.alloc_id()) {
                        if let InstanceKind::Item(d) = instance.def {
                            return format!("{{\"fn\":{{{}}}}}", self.fnref(d, instance.args, env));
                        }
                        if let Some(ct) = instance.args.types().next() {
                            if matches!(ct.kind(), TyKind::Closure(..)) {
                                return format!("{{\"cl\":{}}}", self.ty(ct, env));
                            }
                        }
                    }
                }
                return "{\"opaque\":\"fnptr\"}".into();
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let inner = *inner;
                match v {
                    ConstValue::Slice { alloc_id, meta } => {
                        return self.pointee(alloc_id, rustc_abi::Size::ZERO, Some(meta), inner, env, depth);
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        return self.pointee(prov.alloc_id(), off, None, inner, env, depth);
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let ptr = self.read_scalar(alloc_id, offset, t, env, 1);
                        if let Some(Scalar::Ptr(p, _)) = ptr {
                            let (prov, off) = p.into_raw_parts();
                            let wide = matches!(inner.kind(), TyKind::Slice(_) | TyKind::Str);
                            let meta = if wide {
                                match self.read_scalar(
                                    alloc_id,
                                    offset + self.tcx.data_layout.pointer_size(),
                                    tcx.types.usize,
                                    env,
                                    0,
                                ) {
                                    Some(Scalar::Int(i)) => Some(i.to_bits_unchecked() as u64),
                                    _ => None,
                                }
                            } else {
                                None
                            };
                            return self.pointee(prov.alloc_id(), off, meta, inner, env, depth);
                        }
                        return "{\"opaque\":\"ptr\"}".into();
                    }
                    _ => return "{\"opaque\":\"ref\"}".into(),
                }
            }
            _ => {}
        }
        if let TyKind::Array(et, n) = t.kind() {
            if let (Some(n), ConstValue::Indirect { alloc_id, offset }) =
                (n.try_to_target_usize(tcx), v)
            {
                return self.elems(alloc_id, offset, n, *et, env, depth);
            }
        }
        if let TyKind::Closure(..) = t.kind() {
            return "{\"zst\":true}".into();
        }
        if matches!(t.kind(), TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..)) {
            if let TyKind::Adt(def, _) = t.kind() {
                if def.is_union() {
                    return "{\"opaque\":\"union\"}".into();
                }
            }
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<String> = d
                    .fields
                    .iter()
                    .map(|(cv, ct)| self.constval(*cv, *ct, env, depth + 1))
                    .collect();
                return format!(
                    "{{\"agg\":[{}],\"var\":{}}}",
                    fs.join(","),
                    d.variant.map(|x| x.as_u32() as i64).unwrap_or(-1)
                );
            }
        }
        if let ConstValue::ZeroSized = v {
            return "{\"zst\":true}".into();
        }
        "{\"opaque\":\"other\"}".into()
    }

    fn elems(
        &mut self,
        alloc_id: mir::interpret::AllocId,
        off: rustc_abi::Size,
        n: u64,
        et: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> String {
        let tcx = self.tcx;
        let Ok(lay) = tcx.layout_of(env.as_query_input(et)) else {
            return "{\"opaque\":\"layout\"}".into();
        };
        let mut fs = vec![];
        for k in 0..n {
            let o = off + lay.size * k;
            let cv = ConstValue::Indirect { alloc_id, offset: o };
            fs.push(self.constval(cv, et, env, depth + 1));
        }
        format!("{{\"agg\":[{}],\"var\":-1}}", fs.join(","))
    }

    fn read_scalar(
        &self,
        id: mir::interpret::AllocId,
        off: rustc_abi::Size,
        t: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        prov: u8,
    ) -> Option<Scalar> {
        let tcx = self.tcx;
        let size = if prov == 1 {
            self.tcx.data_layout.pointer_size()
        } else {
            tcx.layout_of(env.as_query_input(t)).ok()?.size
        };
        match tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => a
                .inner()
                .read_scalar(&tcx, AllocRange { start: off, size }, prov == 1)
                .ok(),
            GlobalAlloc::Static(d) => {
                let a = tcx.eval_static_initializer(d).ok()?;
                a.inner()
                    .read_scalar(&tcx, AllocRange { start: off, size }, prov == 1)
                    .ok()
            }
            _ => None,
        }
    }

    fn pointee(
        &mut self,
        id: mir::interpret::AllocId,
        off: rustc_abi::Size,
        meta: Option<u64>,
        inner: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> String {
        let tcx = self.tcx;
        let stat = match tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => {
                format!(",\"static\":{}", esc(&self.path(d)))
            }
            _ => String::new(),
        };
        match inner.kind() {
            TyKind::Str => {
                let n = meta.unwrap_or(0);
                if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(id) {
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                        off.bytes() as usize..(off.bytes() + n) as usize,
                    );
                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"strb\":[{}]}}", v.join(","));
                }
                "{\"opaque\":\"str\"}".into()
            }
            TyKind::Slice(et) => {
                let e = self.elems(id, off, meta.unwrap_or(0), *et, env, depth);
                format!("{{\"ref\":{},\"len\":{}{}}}", e, meta.unwrap_or(0), stat)
            }
            TyKind::Dynamic(..) => "{\"opaque\":\"dynref\"}".into(),
            _ => {
                let cv = if let Ok(l) = tcx.layout_of(env.as_query_input(inner)) {
                    if l.is_zst() {
                        ConstValue::ZeroSized
                    } else {
                        ConstValue::Indirect { alloc_id: id, offset: off }
                    }
                } else {
                    return "{\"opaque\":\"layout\"}".into();
                };
                let s = self.constval(cv, inner, env, depth + 1);
                format!("{{\"ref\":{}{}}}", s, stat)
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t, env);
        let src = match c.const_ {
            Const::Unevaluated(u, _) => {
                if u.promoted.is_none() {
                    format!(",\"cpath\":{}", esc(&self.path(u.def)))
                } else {
                    String::new()
                }
            }
            _ => String::new(),
        };
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.constval(v, t, env, 0),
            Err(_) => "{\"opaque\":\"generic\"}".into(),
        };
        format!("{{\"c\":{},\"t\":{}{}}}", v, ti, src)
    }

    fn place(&mut self, p: &Place<'tcx>, _body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut ps = vec![];
        for e in p.projection.iter() {
            ps.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t, env)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), ps.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p, body, env)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":true}}", self.place(p, body, env)),
            Operand::Constant(c) => self.konst(c, env),
            Operand::RuntimeChecks(k) => format!("{{\"rtc\":{}}}", esc(&format!("{:?}", k))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(o, body, env), n)
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p, body, env),
                matches!(bk, BorrowKind::Mut { .. })
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"reborrow\",{},{}]", self.place(p, body, env), m.is_mut())
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, body, env)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p, body, env)),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(body, tcx);
                let ot = self.ty(ot, env);
                let mut extra = String::new();
                // reify / closure-to-fnptr: keep the resolved callee
                if let CastKind::PointerCoercion(pc, _) = k {
                    extra = format!(",\"pc\":{}", esc(&format!("{:?}", pc)));
                    if matches!(pc, ty::adjustment::PointerCoercion::ClosureFnPointer(_)) {
                        let _ = write!(extra, ",\"cl\":{}", ot);
                    }
                    if matches!(pc, ty::adjustment::PointerCoercion::Unsize) {
                        extra.push_str(&self.vtable(o.ty(body, tcx), *t, env));
                    }
                }
                let kn = match k {
                    CastKind::PointerCoercion(..) => "PointerCoercion".to_string(),
                    k => format!("{:?}", k),
                };
                format!(
                    "[\"cast\",{{\"k\":{},\"o\":{},\"from\":{},\"to\":{}{}}}]",
                    esc(&kn),
                    self.operand(o, body, env),
                    ot,
                    self.ty(*t, env),
                    extra
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, tcx);
                let t = self.ty(t, env);
                let t2 = b.1.ty(body, tcx);
                let t2 = self.ty(t2, env);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{},{}]",
                    op,
                    self.operand(&b.0, body, env),
                    self.operand(&b.1, body, env),
                    t,
                    t2
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, tcx);
                let t = self.ty(t, env);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o, body, env), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let t = self.ty(t, env);
                format!("[\"discr\",{},{}]", self.place(p, body, env), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let (kn, t, var, af) = match **k {
                    AggregateKind::Array(_) => ("array", -1i64, -1i64, -1i64),
                    AggregateKind::Tuple => ("tuple", -1, -1, -1),
                    AggregateKind::Adt(_, v, _, _, af) => {
                        let t = r.ty(body, tcx);
                        (
                            "adt",
                            self.ty(t, env) as i64,
                            v.as_u32() as i64,
                            af.map(|x| x.as_u32() as i64).unwrap_or(-1),
                        )
                    }
                    AggregateKind::Closure(..) => {
                        let t = r.ty(body, tcx);
                        ("closure", self.ty(t, env) as i64, -1, -1)
                    }
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(t, env) as i64, -1, -1),
                    _ => ("other", -1, -1, -1),
                };
                format!(
                    "[\"agg\",\"{}\",{},{},{},[{}]]",
                    kn,
                    t,
                    var,
                    af,
                    os.join(",")
                )
            }
            _ => format!("[\"unknown\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn unwind(u: &UnwindAction) -> i64 {
        match u {
            UnwindAction::Cleanup(b) => b.as_u32() as i64,
            _ => -1,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let line = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"to\":{}}}", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(body, tcx);
                let dt = self.ty(dt, env);
                let ts: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32()))
                    .collect();
                format!(
                    "{{\"k\":\"switch\",\"d\":{},\"t\":{},\"ts\":[{}],\"else\":{}}}",
                    self.operand(discr, body, env),
                    dt,
                    ts.join(","),
                    targets.otherwise().as_u32()
                )
            }
            TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
            TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
            TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
            TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"}".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(body, tcx).ty;
                let nd = pt.needs_drop(tcx, env);
                let ti = self.ty(pt, env);
                format!(
                    "{{\"k\":\"drop\",\"p\":{},\"to\":{},\"t\":{},\"needs\":{},\"ln\":{}}}",
                    self.place(place, body, env),
                    target.as_u32(),
                    ti,
                    nd,
                    esc(&line)
                )
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.operand(func, body, env);
                let a: Vec<String> = args.iter().map(|o| self.operand(&o.node, body, env)).collect();
                let dt = destination.ty(body, tcx).ty;
                let dt = self.ty(dt, env);
                let ats: Vec<String> = args
                    .iter()
                    .map(|o| {
                        let t = o.node.ty(body, tcx);
                        self.ty(t, env).to_string()
                    })
                    .collect();
                format!(
                    "{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"d\":{},\"dt\":{},\"to\":{},\"uw\":{},\"ln\":{}}}",
                    f,
                    a.join(","),
                    ats.join(","),
                    self.place(destination, body, env),
                    dt,
                    target.map(|b| b.as_u32() as i64).unwrap_or(-1),
                    Self::unwind(unwind),
                    esc(&line)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(_) => "overflow_neg",
                    AssertKind::DivisionByZero(_) => "div_zero",
                    AssertKind::RemainderByZero(_) => "rem_zero",
                    _ => "other",
                };
                let detail = match &**msg {
                    AssertKind::Overflow(op, ..) => format!("{:?}", op),
                    _ => String::new(),
                };
                format!(
                    "{{\"k\":\"assert\",\"c\":{},\"exp\":{},\"msg\":\"{}\",\"det\":\"{}\",\"to\":{},\"ln\":{}}}",
                    self.operand(cond, body, env),
                    expected,
                    kind,
                    detail,
                    target.as_u32(),
                    esc(&line)
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("{{\"k\":\"goto\",\"to\":{}}}", real_target.as_u32())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("{{\"k\":\"goto\",\"to\":{}}}", real_target.as_u32())
            }
            TerminatorKind::InlineAsm { targets, .. } => {
                let to = targets.first().map(|b| b.as_u32() as i64).unwrap_or(-1);
                format!(
                    "{{\"k\":\"asm\",\"to\":{},\"ln\":{},\"dbg\":{}}}",
                    to,
                    esc(&line),
                    esc(&format!("{:?}", t.kind))
                )
            }
            k => format!("{{\"k\":\"unknown\",\"dbg\":{}}}", esc(&format!("{:?}", k))),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if !tcx.is_mir_available(d) {
                    return None;
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {}
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::Clone(..))
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Reify(..)) => {}
            _ => return None,
        }
        let body: &Body<'tcx> = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, body.clone()),
        );
        let body = &body;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty, env);
            let _ = i;
            ls.push(t.to_string());
        }
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body, env);
                        let r = self.rvalue(&b.1, body, env);
                        ss.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, tcx).ty;
                        let t = self.ty(t, env);
                        ss.push(format!(
                            "[\"sd\",{},{},{}]",
                            self.place(place, body, env),
                            variant_index.as_u32(),
                            t
                        ));
                    }
                    StatementKind::Intrinsic(i) => {
                        use rustc_middle::mir::NonDivergingIntrinsic as N;
                        match &**i {
                            N::Assume(_) => ss.push("[\"assume\"]".to_string()),
                            N::CopyNonOverlapping(c) => ss.push(format!(
                                "[\"copy\",{},{},{}]",
                                self.operand(&c.src, body, env),
                                self.operand(&c.dst, body, env),
                                self.operand(&c.count, body, env)
                            )),
                        }
                    }
                    _ => {}
                }
            }
            let t = self.term(bb.terminator(), body, env);
            bs.push(format!(
                "{{\"s\":[{}],\"t\":{}{}}}",
                ss.join(","),
                t,
                if bb.is_cleanup { ",\"cl\":true" } else { "" }
            ));
        }
        Some(format!(
            "\"locals\":[{}],\"argc\":{},\"spread\":{},\"blocks\":[{}]",
            ls.join(","),
            body.arg_count,
            body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1),
            bs.join(",")
        ))
    }
}

struct Cb {
    out: String,
    deep: bool,
    lang_only: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.incremental = None;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            insts: vec![],
            instmap: HashMap::new(),
            deep: self.deep,
            lang_only: self.lang_only,
        };
        let ev = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut adts = vec![];
        let mut consts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut mods = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let reach = ev.is_reachable(ld);
            match tcx.def_kind(d) {
                DefKind::Mod if !d.is_crate_root() => mods.push(esc(&cx.path(d))),
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        if let Some(tr) = tcx.trait_of_assoc(d) {
                            traits.push(format!(
                                "{{\"path\":{},\"trait\":{},\"required\":true}}",
                                esc(&cx.path(d)),
                                esc(&cx.path(tr))
                            ));
                        }
                        continue;
                    }
                    let env = TypingEnv::post_analysis(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d));
                    let i = Instance { def: InstanceKind::Item(d), args };
                    let n = cx.inst(i, env);
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let mut ins = vec![];
                    for t in sig.inputs() {
                        let t = tcx.erase_and_anonymize_regions(*t);
                        let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        ins.push(cx.ty(t, env).to_string());
                    }
                    let o = tcx.erase_and_anonymize_regions(sig.output());
                    let o = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(o)).unwrap_or(o);
                    let outt = cx.ty(o, env);
                    let mut extra = String::new();
                    if let Some(im) = tcx.impl_of_assoc(d) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let st = tcx.erase_and_anonymize_regions(st);
                        let sname = match st.kind() {
                            TyKind::Adt(a, _) => cx.path(a.did()),
                            _ => with_no_trimmed_paths!(format!("{}", st)),
                        };
                        let _ = write!(extra, ",\"self\":{}", esc(&sname));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let tp = cx.path(tr.skip_binder().def_id);
                            let _ = write!(extra, ",\"trait\":{}", esc(&tp));
                        }
                        let derived = tcx.is_automatically_derived(im);
                        let _ = write!(extra, ",\"derived\":{}", derived);
                    }
                    let regs = |t: Ty<'tcx>| -> String {
                        let mut v = vec![];
                        for g in t.walk() {
                            if let ty::GenericArgKind::Lifetime(r) = g.kind() {
                                v.push(esc(&format!("{:?}", r)));
                            }
                        }
                        v.join(",")
                    };
                    let rin: Vec<String> = sig.inputs().iter().map(|t| format!("[{}]", regs(*t))).collect();
                    let _ = write!(extra, ",\"rin\":[{}],\"rout\":[{}]", rin.join(","), regs(sig.output()));
                    let dep = tcx.lookup_deprecation(d).is_some();
                    let note = tcx.lookup_deprecation(d).and_then(|x| x.note).map(|n| n.to_string()).unwrap_or_default();
                    let _ = write!(
                        extra,
                        ",\"unsafe\":{},\"deprecated\":{},\"depnote\":{},\"const\":{}",
                        sig.safety().is_unsafe(),
                        dep,
                        esc(&note),
                        tcx.is_const_fn(d)
                    );
                    roots.push(format!(
                        "{{\"i\":{},\"path\":{},\"name\":{},\"pub\":{},\"kind\":\"{:?}\",\"ins\":[{}],\"out\":{},\"span\":{}{}}}",
                        n,
                        esc(&cx.path(d)),
                        esc(tcx.item_name(d).as_str()),
                        reach && tcx.visibility(d).is_public(),
                        tcx.def_kind(d),
                        ins.join(","),
                        outt,
                        esc(&cx.span(tcx.def_span(d))),
                        extra
                    ));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t, env);
                    adts.push(format!(
                        "{{\"path\":{},\"t\":{},\"pub\":{},\"span\":{}}}",
                        esc(&cx.path(d)),
                        ti,
                        reach,
                        esc(&cx.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let gen = tcx.generics_of(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t, env);
                    let is_static = matches!(tcx.def_kind(d), DefKind::Static { .. });
                    let muta = matches!(
                        tcx.def_kind(d),
                        DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }
                    );
                    let freeze = t.is_freeze(tcx, env);
                    let val = if gen.is_empty() && !is_static {
                        if tcx.is_mir_available(d) || true {
                            match tcx.const_eval_poly(d) {
                                Ok(v) => cx.constval(v, t, env, 0),
                                Err(_) => "null".into(),
                            }
                        } else {
                            "null".into()
                        }
                    } else if is_static {
                        match tcx.eval_static_initializer(d) {
                            Ok(a) => {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                let et = tcx.erase_and_anonymize_regions(t);
                                cx.constval(
                                    ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO },
                                    et,
                                    env,
                                    0,
                                )
                            }
                            Err(_) => "null".into(),
                        }
                    } else {
                        "null".into()
                    };
                    consts.push(format!(
                        "{{\"path\":{},\"t\":{},\"v\":{},\"static\":{},\"mut\":{},\"freeze\":{},\"span\":{}}}",
                        esc(&cx.path(d)),
                        ti,
                        val,
                        is_static,
                        muta,
                        freeze,
                        esc(&cx.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = tcx.erase_and_anonymize_regions(st);
                    let sname = match st.kind() {
                        TyKind::Adt(a, _) => cx.path(a.did()),
                        _ => with_no_trimmed_paths!(format!("{}", st)),
                    };
                    let (tr, uns, neg) = match tcx.impl_opt_trait_ref(d) {
                        Some(t) => {
                            let h = tcx.impl_trait_header(d);
                            (
                                cx.path(t.skip_binder().def_id),
                                h.safety.is_unsafe(),
                                matches!(h.polarity, ty::ImplPolarity::Negative),
                            )
                        }
                        None => (String::new(), false, false),
                    };
                    impls.push(format!(
                        "{{\"self\":{},\"trait\":{},\"derived\":{},\"unsafe\":{},\"neg\":{},\"span\":{}}}",
                        esc(&sname),
                        esc(&tr),
                        tcx.is_automatically_derived(d),
                        uns,
                        neg,
                        esc(&cx.span(tcx.def_span(d)))
                    ));
                }
                _ => {}
            }
        }
        // worklist over instances
        let mut fns = vec![];
        let mut k = 0;
        while k < cx.insts.len() {
            let (i, env) = cx.insts[k];
            let d = i.def_id();
            let p = cx.path(d);
            let is_local = d.is_local();
            let stop = !is_local
                && (!cx.deep
                    || (cx.lang_only && !matches!(tcx.crate_name(d.krate).as_str(), "core" | "alloc" | "std"))
                    || (p.starts_with("core::fmt") && !p.ends_with("::entries"))
                    || (p.starts_with("std::fmt") && !p.ends_with("::entries"))
                    || p.starts_with("core::panicking")
                    || p.starts_with("std::panicking")
                    || p.starts_with("std::io")
                    || p.starts_with("alloc::")
                    || p.starts_with("std::rt")
                    || p.starts_with("core::str::count")
                    || p.starts_with("core::unicode"));
            let b = if stop { None } else { cx.body(i, env) };
            let args = with_no_trimmed_paths!(format!("{:?}", i.args));
            let kind = match i.def {
                InstanceKind::Item(_) => "item".to_string(),
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once".into(),
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim".into(),
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim".into(),
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue".into(),
                _ => "other".into(),
            };
            let mut s = format!(
                "{{\"path\":{},\"args\":{},\"local\":{},\"kind\":\"{}\",\"span\":{}",
                esc(&p),
                esc(&args),
                is_local,
                kind,
                esc(&cx.span(tcx.def_span(d)))
            );
            let tys: Vec<String> = i.args.types().map(|t| cx.ty(t, env).to_string()).collect();
            let _ = write!(s, ",\"targs\":[{}]", tys.join(","));
            if let Some(b) = b {
                s.push(',');
                s.push_str(&b);
            }
            s.push('}');
            fns.push(s);
            k += 1;
        }
        let mut crates = vec![];
        for c in tcx.crates(()) {
            crates.push(esc(tcx.crate_name(*c).as_str()));
        }
        let out = format!(
            "{{\"crate\":{},\"ptr\":{},\"fns\":[\n{}\n],\"types\":[\n{}\n],\"roots\":[\n{}\n],\"adts\":[\n{}\n],\"consts\":[\n{}\n],\"impls\":[\n{}\n],\"reqs\":[{}],\"crates\":[{}],\"mods\":[{}]}}",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            tcx.data_layout.pointer_size().bits(),
            fns.join(",\n"),
            cx.types.join(",\n"),
            roots.join(",\n"),
            adts.join(",\n"),
            consts.join(",\n"),
            impls.join(",\n"),
            traits.join(","),
            crates.join(","),
            mods.join(",")
        );
        std::fs::write(&self.out, out).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    // argv: mirdump <rustc> <args...>   (RUSTC_WORKSPACE_WRAPPER convention)
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let name = args
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "raw_cpuid".into());
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let ctype = std::env::var("MIRDUMP_TYPE").unwrap_or_else(|_| "lib".into());
    let ctype_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == ctype);
    if name == want && ctype_lib && !out.is_empty() {
        let deep = std::env::var("MIRDUMP_DEEP").map(|x| x != "0").unwrap_or(true);
        // follow the language's own crates only, not those of other dependencies
        let lang_only = std::env::var("MIRDUMP_DEEP").map(|x| x == "core").unwrap_or(false);
        let mut cb = Cb { out, deep, lang_only };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
