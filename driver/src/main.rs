//! Dumps facts about a crate for the analyses in `/verif/analysis`.
//!
//! Runs as a `RUSTC_WORKSPACE_WRAPPER`. After type checking and borrow checking it writes one JSON
//! object per line to `$MIRFACTS_OUT/<crate>.<kind>.jsonl`: function bodies in MIR form with
//! resolved callees, the shape of every type mentioned, the evaluated constants and the impls.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(out) = std::env::var("MIRFACTS_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            if name.starts_with("oxvg") || name.starts_with("fixture") {
                dump(tcx, &out, &name);
            }
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashSet<DefId>,
    adt_queue: Vec<DefId>,
    names: HashMap<DefId, String>,
    extern_queue: Vec<DefId>,
    extern_seen: HashSet<DefId>,
    out: std::io::BufWriter<std::fs::File>,
}

/// Foreign modules whose generic helpers are analysed through instead of being treated as opaque.
const EXTERN_PREFIXES: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::bool::",
    "<bool>::",
    "core::ops::control_flow::",
    "<core::option::Option",
    "<core::result::Result",
    "<core::ops::control_flow::ControlFlow",
];

impl<'tcx> Dumper<'tcx> {
    fn ty_short(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Adt(def, args) => {
                let mut s = self.fid(def.did());
                let a: Vec<String> = args.types().map(|t| self.ty_short(t)).collect();
                if !a.is_empty() {
                    s.push('<');
                    s.push_str(&a.join(", "));
                    s.push('>');
                }
                s
            }
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_short(t)),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.ty_short(t)),
            ty::Slice(t) => format!("[{}]", self.ty_short(t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or("_".into(), |n| n.to_string());
                format!("[{}; {}]", self.ty_short(t), n)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty_short(t)).collect();
                format!("({})", a.join(", "))
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) => self.fid(d),
            ty::FnDef(d, _) => format!("fn {}", self.fid(d)),
            ty::Param(p) => p.name.to_string(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.fid(d)).unwrap_or_default();
                format!("dyn {p}")
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                t.to_string()
            }
            ty::FnPtr(..) => "fnptr".into(),
            ty::Alias(..) => "alias".to_string(),
            _ => "other".to_string(),
        }
    }

    /// A readable name for an item, the same from whichever crate it is asked for.
    fn fid(&mut self, d: DefId) -> String {
        if let Some(s) = self.names.get(&d) {
            return s.clone();
        }
        let s = self.fid_uncached(d);
        self.names.insert(d, s.clone());
        s
    }

    fn fid_uncached(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let Some(parent) = key.parent else {
            return tcx.crate_name(d.krate).to_string();
        };
        let parent = DefId { krate: d.krate, index: parent };
        let kind = tcx.def_kind(d);
        if let DefKind::Impl { of_trait } = kind {
            let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if of_trait {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = self.ty_short(self_ty);
                let mut tn = self.fid(tr.def_id);
                let a: Vec<String> = tr.args.types().skip(1).map(|t| self.ty_short(t)).collect();
                if !a.is_empty() {
                    let _ = write!(tn, "<{}>", a.join(", "));
                }
                return format!("<{st} as {tn}>");
            }
            return match *self_ty.kind() {
                ty::Adt(def, args)
                    if args.types().all(|t| matches!(t.kind(), ty::Param(_))) =>
                {
                    self.fid(def.did())
                }
                _ => format!("<{}>", self.ty_short(self_ty)),
            };
        }
        let p = self.fid(parent);
        match tcx.opt_item_name(d) {
            Some(n) => {
                let dis = key.disambiguated_data.disambiguator;
                if dis > 0 && matches!(kind, DefKind::Fn) {
                    format!("{p}::{n}#{dis}")
                } else {
                    format!("{p}::{n}")
                }
            }
            None => match kind {
                DefKind::Closure => {
                    format!("{p}::{{closure#{}}}", key.disambiguated_data.disambiguator)
                }
                DefKind::Ctor(..) => format!("{p}::{{ctor}}"),
                _ => format!(
                    "{p}::{{{:?}#{}}}",
                    kind, key.disambiguated_data.disambiguator
                ),
            },
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = esc(&self.ty_short(t));
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a: Vec<Ty<'tcx>> = args.types().collect();
                let a = list(a, |t| self.ty(t).to_string());
                format!("{{\"k\":\"adt\",\"s\":{s},\"def\":{},\"args\":{a}}}", esc(&self.fid(def.did())))
            }
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"s\":{s},\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(t)),
            ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"s\":{s},\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(t)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"s\":{s},\"t\":{}}}", self.ty(t)),
            ty::Array(t, _) => format!("{{\"k\":\"array\",\"s\":{s},\"t\":{}}}", self.ty(t)),
            ty::Tuple(ts) => {
                let a = list(ts.iter(), |t| self.ty(t).to_string());
                format!("{{\"k\":\"tuple\",\"s\":{s},\"args\":{a}}}")
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) => {
                format!("{{\"k\":\"closure\",\"s\":{s},\"def\":{}}}", esc(&self.fid(d)))
            }
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"s\":{s},\"def\":{}}}", esc(&self.fid(d))),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{s}}}"),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"prim\",\"s\":{s}}}"),
        };
        self.type_json[i] = j;
        i
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d) {
            self.adt_queue.push(d);
        }
    }

    fn dump_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let def = self.tcx.adt_def(d);
            let local_or_oxvg =
                d.is_local() || self.tcx.crate_name(d.krate).as_str().starts_with("oxvg");
            // foreign types are described too, so that reachability over types is complete
            let _ = local_or_oxvg;
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let variants: Vec<_> = def.variants().iter_enumerated().collect();
            let tcx = self.tcx;
            let vs = list(variants, |(i, v)| {
                let discr = if def.is_enum() {
                    let dd = def.discriminant_for_variant(tcx, i);
                    dd.val.to_string()
                } else {
                    "0".into()
                };
                let fields = list(v.fields.iter(), |f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    format!(
                        "[{},{},{}]",
                        esc(f.name.as_str()),
                        t,
                        f.vis.is_public()
                    )
                });
                format!("[{},{},{}]", esc(v.name.as_str()), discr, fields)
            });
            let params = {
                let g = tcx.generics_of(d);
                let own: Vec<String> = g
                    .own_params
                    .iter()
                    .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                    .map(|p| esc(p.name.as_str()))
                    .collect();
                format!("[{}]", own.join(","))
            };
            let line = format!(
                "{{\"r\":\"adt\",\"id\":{},\"kind\":\"{kind}\",\"params\":{params},\"variants\":{vs}}}",
                esc(&self.fid(d))
            );
            let _ = writeln!(self.out, "{line}");
        }
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }

    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                mir::ProjectionElem::Deref => {
                    let raw = pt.ty.is_raw_ptr();
                    o.push_str(if raw { "\"*raw\"" } else { "\"*\"" });
                }
                mir::ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\".\",{},{}]", f.as_usize(), esc(&name));
                }
                mir::ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"[]\",{}]", l.as_usize());
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{offset},{from_end}]");
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{from},{to},{from_end}]");
                }
                mir::ProjectionElem::Downcast(n, v) => {
                    let n = n.map(|n| n.to_string()).unwrap_or_default();
                    let _ = write!(o, "[\"v\",{},{}]", v.as_usize(), esc(&n));
                }
                _ => o.push_str("[\"other\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool) => {
                Some(format!("{}", i.try_to_bool().ok()?))
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Char) => {
                let c = char::from_u32(i.to_u32())?;
                Some(format!("{{\"char\":{}}}", esc(&c.to_string())))
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Int(_)) => {
                Some(i.to_int(i.size()).to_string())
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Uint(_)) => {
                Some(i.to_uint(i.size()).to_string())
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Float(f)) => {
                let s = match f.bit_width() {
                    32 => f64::from(f32::from_bits(i.to_u32())),
                    64 => f64::from_bits(i.to_u64()),
                    _ => return None,
                };
                Some(format!("{{\"f\":{}}}", esc(&format!("{s:?}"))))
            }
            (ConstValue::Slice { .. }, ty::Ref(_, inner, _)) if inner.is_str() => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                Some(format!("{{\"str\":{}}}", esc(std::str::from_utf8(b).ok()?)))
            }
            (ConstValue::Slice { .. }, ty::Ref(..)) => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                Some(format!("{{\"bytes\":{}}}", list(b, |b| b.to_string())))
            }
            (ConstValue::ZeroSized, ty::FnDef(..)) => None,
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let alloc_id = prov.alloc_id();
                match tcx.try_get_global_alloc(alloc_id)? {
                    mir::interpret::GlobalAlloc::Memory(_) => {}
                    mir::interpret::GlobalAlloc::Static(d) => {
                        return Some(format!("{{\"static\":{}}}", esc(&self.fid(d))))
                    }
                    _ => return None,
                }
                if matches!(inner.kind(), ty::Dynamic(..) | ty::Str | ty::Slice(_)) {
                    return None;
                }
                if matches!(inner.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::Ref(..)) {
                    let env = TypingEnv::fully_monomorphized();
                    let lay = tcx.layout_of(env.as_query_input(*inner)).ok()?;
                    let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                    let is_ref = inner.is_ref();
                    if is_ref && lay.size.bytes() == 16 {
                        let p0 = alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(off, rustc_abi::Size::from_bytes(8)), true).ok()?;
                        let m = alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(off + rustc_abi::Size::from_bytes(8), rustc_abi::Size::from_bytes(8)), false).ok()?;
                        let Scalar::Ptr(p0, _) = p0 else { return None };
                        let (pr, _) = p0.prov_and_relative_offset();
                        let meta = m.to_target_usize(&tcx).discard_err()?;
                        let inner_v = ConstValue::Slice { alloc_id: pr.alloc_id(), meta };
                        let r = self.value(inner_v, *inner, depth + 1)?;
                        return Some(format!("{{\"ref\":{r}}}"));
                    }
                    let s = alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(off, lay.size), is_ref).ok()?;
                    let r = self.value(ConstValue::Scalar(s), *inner, depth + 1)?;
                    return Some(format!("{{\"ref\":{r}}}"));
                }
                let r = self.value(ConstValue::Indirect { alloc_id, offset: off }, *inner, depth + 1)?;
                Some(format!("{{\"ref\":{r}}}"))
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _)) if inner.is_str() => {
                let alloc = tcx.try_get_global_alloc(alloc_id)?;
                let mir::interpret::GlobalAlloc::Memory(alloc) = alloc else { return None };
                let p0 = alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, rustc_abi::Size::from_bytes(8)), true).ok()?;
                let m = alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset + rustc_abi::Size::from_bytes(8), rustc_abi::Size::from_bytes(8)), false).ok()?;
                let Scalar::Ptr(p0, _) = p0 else { return None };
                let (pr, _) = p0.prov_and_relative_offset();
                let meta = m.to_target_usize(&tcx).discard_err()?;
                self.value(ConstValue::Slice { alloc_id: pr.alloc_id(), meta }, t, depth + 1)
            }
            (_, ty::Adt(def, _)) if !def.is_union() => {
                if ty::TypeVisitableExt::has_param(&t) {
                    return None;
                }
                let t = tcx.erase_and_anonymize_regions(t);
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                self.adt(def.did());
                let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                let vn = def.variant(vi).name.to_string();
                let fs = list(d.fields.iter(), |(v, t)| {
                    self.value(*v, *t, depth + 1).unwrap_or("null".into())
                });
                Some(format!(
                    "{{\"adt\":{},\"vi\":{},\"v\":{},\"fields\":{fs}}}",
                    esc(&self.fid(def.did())),
                    vi.as_usize(),
                    esc(&vn)
                ))
            }
            (_, ty::Tuple(..) | ty::Array(..)) => {
                if ty::TypeVisitableExt::has_param(&t) {
                    return None;
                }
                let t = tcx.erase_and_anonymize_regions(t);
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).is_none_or(|n| n > 512) {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let fs = list(d.fields.iter(), |(v, t)| {
                    self.value(*v, *t, depth + 1).unwrap_or("null".into())
                });
                Some(format!("{{\"tuple\":{fs}}}"))
            }
            _ => None,
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let subs: Vec<Ty<'tcx>> = args.types().collect();
            let subs = list(subs, |t| self.ty(t).to_string());
            let mut extra = String::new();
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, *d, args) {
                let rd = inst.def_id();
                if rd != *d {
                    let rs: Vec<Ty<'tcx>> = inst.args.types().collect();
                    let rs = list(rs, |t| self.ty(t).to_string());
                    let _ = write!(extra, ",\"res\":{},\"rsubs\":{rs}", esc(&self.fid(rd)));
                }
                if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    extra.push_str(",\"virt\":true");
                }
                self.note_extern(rd);
            } else {
                self.note_extern(*d);
                extra.push_str(",\"unres\":true");
            }
            if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                let _ = write!(extra, ",\"trait\":{}", esc(&self.fid(tr)));
            }
            if self.tcx.def_kind(*d) != DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
                && matches!(self.tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn)
                && self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe()
            {
                extra.push_str(",\"unsafe\":true");
            }
            if matches!(self.tcx.def_kind(*d), DefKind::Ctor(..)) {
                let vd = self.tcx.parent(*d);
                let (adt, vi) = if matches!(self.tcx.def_kind(vd), DefKind::Variant) {
                    let ad = self.tcx.parent(vd);
                    (ad, self.tcx.adt_def(ad).variant_index_with_id(vd).as_usize())
                } else {
                    (vd, 0)
                };
                self.adt(adt);
                let _ = write!(extra, ",\"ctor\":[{},{}]", esc(&self.fid(adt)), vi);
            }
            return format!("{{\"fn\":{},\"subs\":{subs}{extra}}}", esc(&self.fid(*d)));
        }
        let mut o = format!("{{\"t\":{ti}");
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"prom\":[{},{}]", esc(&self.fid(u.def)), p.as_usize());
                } else {
                    let _ = write!(o, ",\"def\":{}", esc(&self.fid(u.def)));
                }
            }
            mir::Const::Ty(_, ct) => {
                let _ = write!(o, ",\"tyconst\":{}", esc(&format!("{ct:?}")));
            }
            mir::Const::Val(..) => {}
        }
        use ty::TypeVisitableExt;
        if !c.const_.has_param() && !c.const_.ty().has_param() {
            let cc = self.tcx.erase_and_anonymize_regions(c.const_);
            if let Ok(v) = cc.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                if let Some(s) = self.value(v, t, 0) {
                    let _ = write!(o, ",\"v\":{s}");
                }
            }
        }
        o.push('}');
        o
    }

    fn note_extern(&mut self, d: DefId) {
        if d.is_local() || !self.extern_seen.insert(d) {
            return;
        }
        let n = self.fid(d);
        if EXTERN_PREFIXES.iter().any(|p| n.starts_with(p)) && self.tcx.is_mir_available(d) {
            self.extern_queue.push(d);
        }
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, op: &mir::Operand<'tcx>) -> String {
        match op {
            mir::Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            mir::Operand::Constant(c) => format!("[\"k\",{}]", self.constant(env, c)),
            _ => "[\"k\",{\"v\":false}]".to_string(),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(body, env, o)),
            Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, mir::BorrowKind::Mut { .. }),
                self.place(body, *p)
            ),
            Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, *p)),
            ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.fid(*d))),
            RawPtr(_, p) => format!("[\"addr\",{}]", self.place(body, *p)),
            Cast(k, o, t) => {
                let k = format!("{k:?}");
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&k), self.operand(body, env, o), t)
            }
            BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(body, env, &ops.0),
                self.operand(body, env, &ops.1)
            ),
            UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(body, env, o)),
            Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Aggregate(k, ops) => {
                let os = list(ops.iter(), |o| self.operand(body, env, o));
                match &**k {
                    mir::AggregateKind::Array(_) => format!("[\"agg\",\"array\",{os}]"),
                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{os}]"),
                    mir::AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*v).name.to_string();
                        format!(
                            "[\"agg\",\"adt\",{os},{},{},{},{}]",
                            esc(&self.fid(*d)),
                            v.as_usize(),
                            esc(&vn),
                            f.map_or("null".into(), |f| f.as_usize().to_string())
                        )
                    }
                    mir::AggregateKind::Closure(d, _)
                    | mir::AggregateKind::Coroutine(d, _)
                    | mir::AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"agg\",\"closure\",{os},{}]", esc(&self.fid(*d)))
                    }
                    mir::AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{os}]"),
                }
            }
            CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
        }
    }

    fn body_json(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals = list(body.local_decls.iter(), |l| {
            format!("{}", self.ty(l.ty))
        });
        let mut names: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(body, p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let blocks = list(body.basic_blocks.iter(), |b| {
            let stmts: Vec<String> = b
                .statements
                .iter()
                .filter_map(|s| {
                    let ln = self.line(s.source_info.span);
                    match &s.kind {
                        mir::StatementKind::Assign(a) => {
                            let p = self.place(body, a.0);
                            let r = self.rvalue(body, env, &a.1);
                            Some(format!("[\"=\",{p},{r},{ln}]"))
                        }
                        mir::StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(body, **place);
                            Some(format!("[\"sd\",{p},{},{ln}]", variant_index.as_usize()))
                        }
                        mir::StatementKind::StorageDead(l) => {
                            Some(format!("[\"dead\",{}]", l.as_usize()))
                        }
                        mir::StatementKind::Intrinsic(i) => {
                            Some(format!("[\"intr\",{},{ln}]", esc(&format!("{i:?}"))))
                        }
                        _ => None,
                    }
                })
                .collect();
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                SwitchInt { discr, targets } => {
                    let tt = discr.ty(&body.local_decls, self.tcx);
                    let signed_bits = match tt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 0,
                    };
                    let d = self.operand(body, env, discr);
                    let ti = self.ty(tt);
                    let vs = list(targets.iter(), |(v, t)| {
                        let v = if signed_bits > 0 && signed_bits < 128 && v >> (signed_bits - 1) == 1 {
                            format!("{}", v as i128 - (1i128 << signed_bits))
                        } else {
                            v.to_string()
                        };
                        format!("[{v},{}]", t.as_usize())
                    });
                    format!("[\"switch\",{d},{vs},{},{ti},{ln}]", targets.otherwise().as_usize())
                }
                Return => "[\"ret\"]".into(),
                Unreachable => "[\"unreach\"]".into(),
                UnwindResume | UnwindTerminate(_) => "[\"resume\"]".into(),
                Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(ty);
                    format!("[\"drop\",{},{},{ti}]", self.place(body, *place), target.as_usize())
                }
                Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(body, env, func);
                    let a = list(args.iter(), |a| self.operand(body, env, &a.node));
                    let d = self.place(body, *destination);
                    let ln = self.line(*fn_span);
                    let mac = fn_span.from_expansion() || t.source_info.span.from_expansion();
                    format!(
                        "[\"call\",{f},{a},{d},{},{ln},{mac}]",
                        target.map_or("null".into(), |t| t.as_usize().to_string())
                    )
                }
                TailCall { func, args, .. } => {
                    let f = self.operand(body, env, func);
                    let a = list(args.iter(), |a| self.operand(body, env, &a.node));
                    format!("[\"tail\",{f},{a}]")
                }
                Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        mir::AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        mir::AssertKind::DivisionByZero(_) => "div0".into(),
                        mir::AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{c},{expected},{},{},{ln}]", target.as_usize(), esc(&kind))
                }
                Yield { value, resume, .. } => {
                    format!("[\"yield\",{},{}]", self.operand(body, env, value), resume.as_usize())
                }
                FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            format!("{{\"s\":[{}],\"t\":{tj},\"c\":{}}}", stmts.join(","), b.is_cleanup)
        });
        format!(
            "\"argc\":{},\"locals\":{locals},\"names\":[{}],\"blocks\":{blocks}",
            body.arg_count,
            names.join(",")
        )
    }

    fn dump_body(&mut self, d: DefId, body: &mir::Body<'tcx>, kind: &str, promoted: Option<usize>) {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let (file, line) = self.loc(body.span);
        let id = self.fid(d);
        let mut extra = String::new();
        if let Some(p) = promoted {
            let _ = write!(extra, ",\"prom\":{p}");
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let g = tcx.generics_of(d);
            let mut params: Vec<String> = vec![];
            let mut chain = vec![g];
            while let Some(p) = chain.last().unwrap().parent {
                chain.push(tcx.generics_of(p));
            }
            for g in chain.iter().rev() {
                for p in &g.own_params {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        params.push(esc(p.name.as_str()));
                    }
                }
            }
            let _ = write!(extra, ",\"params\":[{}]", params.join(","));
            let _ = write!(extra, ",\"pub\":{}", tcx.visibility(d).is_public());
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                extra.push_str(",\"unsafe\":true");
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(extra, ",\"self\":{sti}");
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(imp) {
                let tr = tcx.impl_trait_ref(imp).skip_binder();
                let _ = write!(extra, ",\"itrait\":{}", esc(&self.fid(tr.def_id)));
                if let Some(ti) = tcx.associated_item(d).trait_item_def_id() {
                    let _ = write!(extra, ",\"tmethod\":{}", esc(&self.fid(ti)));
                }
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"deftrait\":{}", esc(&self.fid(tr)));
        }
        let b = self.body_json(body, env);
        let line = format!(
            "{{\"r\":\"fn\",\"id\":{},\"kind\":\"{kind}\",\"file\":{},\"line\":{line}{extra},{b}}}",
            esc(&id),
            esc(&file)
        );
        let _ = writeln!(self.out, "{line}");
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str, name: &str) {
    let kind = if tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable") {
        "bin"
    } else {
        "lib"
    };
    let _ = std::fs::create_dir_all(out);
    let path = format!("{out}/{name}.{kind}.jsonl");
    let tmp = format!("{path}.tmp{}", std::process::id());
    let file = std::fs::File::create(&tmp).expect("facts file");
    let mut d = Dumper {
        tcx,
        types: HashMap::new(),
        type_json: vec![],
        adts: HashSet::new(),
        adt_queue: vec![],
        names: HashMap::new(),
        extern_queue: vec![],
        extern_seen: HashSet::new(),
        out: std::io::BufWriter::with_capacity(1 << 20, file),
    };
    // constants and statics first, then functions: evaluation may need bodies that get stolen later
    let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    let mut seen_ids: BTreeSet<String> = BTreeSet::new();
    for k in &keys {
        let did = k.to_def_id();
        let dk = tcx.def_kind(did);
        match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(did);
                let kn = match dk {
                    DefKind::Closure => "closure",
                    DefKind::AssocFn => "method",
                    _ => "fn",
                };
                let id = d.fid(did);
                if !seen_ids.insert(id.clone()) {
                    // same readable name twice: make the later ones distinct
                    let n = format!("{id}#{:?}", did.index.as_u32());
                    d.names.insert(did, n);
                }
                d.dump_body(did, body, kn, None);
                for (pi, p) in tcx.promoted_mir(did).iter_enumerated() {
                    d.dump_body(did, p, "promoted", Some(pi.as_usize()));
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                let body = tcx.mir_for_ctfe(did);
                d.dump_body(did, body, "const", None);
                for (pi, p) in tcx.promoted_mir(did).iter_enumerated() {
                    d.dump_body(did, p, "promoted", Some(pi.as_usize()));
                }
                if matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.generics_of(did).is_empty_or_lifetimes(tcx) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let j = d.value(v, t, 0).unwrap_or("null".into());
                        let ti = d.ty(t);
                        let (f, l) = d.loc(tcx.def_span(did));
                        let line = format!("{{\"r\":\"const\",\"id\":{},\"t\":{ti},\"v\":{j},\"file\":{},\"line\":{l}}}", esc(&d.fid(did)), esc(&f));
                        let _ = writeln!(d.out, "{line}");
                    }
                }
            }
            _ => {}
        }
    }
    let mut done: HashSet<DefId> = HashSet::new();
    while let Some(e) = d.extern_queue.pop() {
        if !done.insert(e) {
            continue;
        }
        if !matches!(tcx.def_kind(e), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(e);
        d.dump_body(e, body, "extern", None);
    }
    // impls
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sti = d.ty(st);
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(did).skip_binder();
                    let targs: Vec<Ty<'tcx>> = t.args.types().skip(1).collect();
                    let targs = list(targs, |t| d.ty(t).to_string());
                    format!("{},\"targs\":{targs}", esc(&d.fid(t.def_id)))
                } else {
                    "null".into()
                };
                let items: Vec<_> = tcx.associated_items(did).in_definition_order().map(|i| i.def_id).collect();
                let items = list(items, |i| {
                    let n = tcx.opt_item_name(i).map(|n| n.to_string()).unwrap_or_default();
                    format!("[{},{}]", esc(&n), esc(&d.fid(i)))
                });
                let (f, l) = d.loc(tcx.def_span(did));
                let line = format!("{{\"r\":\"impl\",\"trait\":{tr},\"self\":{sti},\"items\":{items},\"file\":{},\"line\":{l}}}", esc(&f));
                let _ = writeln!(d.out, "{line}");
            }
            DefKind::Trait => {
                let items: Vec<_> = tcx.associated_items(did).in_definition_order().map(|i| (i.def_id, i.defaultness(tcx).has_value())).collect();
                let items = list(items, |(i, h)| {
                    let n = tcx.opt_item_name(i).map(|n| n.to_string()).unwrap_or_default();
                    format!("[{},{},{h}]", esc(&n), esc(&d.fid(i)))
                });
                let line = format!("{{\"r\":\"trait\",\"id\":{},\"items\":{items}}}", esc(&d.fid(did)));
                let _ = writeln!(d.out, "{line}");
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => d.adt(did),
            _ => {}
        }
    }
    d.dump_adts();
    let tj = std::mem::take(&mut d.type_json);
    for (i, t) in tj.iter().enumerate() {
        let _ = writeln!(d.out, "{{\"r\":\"ty\",\"i\":{i},\"t\":{t}}}");
    }
    let _ = writeln!(d.out, "{{\"r\":\"end\"}}");
    d.out.flush().expect("facts flush");
    std::fs::rename(&tmp, &path).expect("facts rename");
}

trait GenExt {
    fn is_empty_or_lifetimes(&self, tcx: TyCtxt<'_>) -> bool;
}

impl GenExt for ty::Generics {
    fn is_empty_or_lifetimes(&self, tcx: TyCtxt<'_>) -> bool {
        let own = self
            .own_params
            .iter()
            .all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime));
        own && self.parent.is_none_or(|p| tcx.generics_of(p).is_empty_or_lifetimes(tcx))
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper: <driver> <rustc> <args>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
        .unwrap_or_else(|_| std::process::exit(1));
}
