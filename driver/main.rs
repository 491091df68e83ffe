// MIR dumper: injected as RUSTC_WORKSPACE_WRAPPER. Dumps the target crate's monomorphised MIR as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty, usize>,
    fns: BTreeMap<String, String>,
    queued: HashSet<String>,
    work: Vec<(String, Instance)>,
    statics: BTreeMap<String, String>,
    local_drop: HashMap<DefId, ()>,
}

fn is_std(n: &str) -> bool {
    n == "core" || n == "alloc" || n == "std"
}

impl<'tcx> D<'tcx> {
    fn key(&self, i: &Instance) -> String {
        i.mangled_name()
    }

    fn is_local_instance(&self, i: &Instance) -> bool {
        i.kind == InstanceKind::Item && i.def.def_id().krate_is_local()
    }

    fn enqueue(&mut self, i: Instance) -> String {
        let k = self.key(&i);
        if self.is_local_instance(&i) && self.queued.insert(k.clone()) {
            self.work.push((k.clone(), i));
        }
        k
    }

    fn args_json(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(match c.eval_target_usize() {
                        Ok(n) => format!("{{\"c\":{}}}", n),
                        _ => "null".into(),
                    });
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn fn_ref(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let path = def.name();
        let a = self.args_json(args);
        let int = rustc_internal::internal(self.tcx, def.def_id());
        let mut tr = "null".to_string();
        if let Some(ai) = self.tcx.opt_associated_item(int) {
            let cont = self.tcx.parent(int);
            if matches!(self.tcx.def_kind(cont), rustc_hir::def::DefKind::Trait) {
                tr = esc(&self.tcx.def_path_str(cont));
            }
        }
        let (k, rp, kind, local) = match Instance::resolve(def, args) {
            Ok(i) => {
                let local = self.is_local_instance(&i);
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                let rp = if i.kind == InstanceKind::Item {
                    let did = i.def.def_id();
                    did.name()
                } else {
                    path.clone()
                };
                let k = if local { esc(&self.enqueue(i)) } else { "null".into() };
                (k, rp, kind, local)
            }
            Err(_) => ("null".into(), path.clone(), "unresolved", false),
        };
        format!(
            "{{\"path\":{},\"rpath\":{},\"trait\":{},\"args\":{},\"key\":{},\"kind\":\"{}\"}}",
            esc(&path), esc(&rp), tr, a, k, kind
        )
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, id);
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".to_string(),
                RigidTy::Char => "{\"k\":\"char\"}".to_string(),
                RigidTy::Str => "{\"k\":\"str\"}".to_string(),
                RigidTy::Never => "{\"k\":\"never\"}".to_string(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":\"i{}\"}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", match i { UintTy::Usize => "usize".to_string(), o => format!("u{}", o.num_bytes() * 8) }),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":\"{:?}\"}}", f),
                RigidTy::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"t\":{},\"mut\":{}}}", self.ty(t), m == Mutability::Mut),
                RigidTy::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"t\":{},\"mut\":{}}}", self.ty(t), m == Mutability::Mut),
                RigidTy::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(t)),
                RigidTy::Array(t, n) => format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(t), n.eval_target_usize().unwrap_or(0)),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"t\":[{}]}}", v.join(","))
                }
                RigidTy::Closure(def, args) => {
                    let k = match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        Ok(i) => {
                            // FnOnce of an Fn closure may be a shim; use the def's own instance
                            let mut key = "null".to_string();
                            for ck in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                                if let Ok(i) = Instance::resolve_closure(def, &args, ck) {
                                    if i.kind == InstanceKind::Item {
                                        key = esc(&self.enqueue(i));
                                        break;
                                    }
                                }
                            }
                            key
                        }
                        Err(_) => "null".into(),
                    };
                    format!("{{\"k\":\"closure\",\"name\":{},\"key\":{}}}", esc(&def.name()), k)
                }
                RigidTy::FnDef(def, args) => {
                    format!("{{\"k\":\"fndef\",\"fn\":{}}}", self.fn_ref(def, &args))
                }
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".to_string(),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&format!("{}", t))),
                RigidTy::Adt(def, args) => {
                    let krate = def.krate();
                    let local = krate.is_local;
                    let is_enum = def.kind() == AdtKind::Enum;
                    let mut vs = vec![];
                    let want_fields = local || (is_enum && def.kind() != AdtKind::Union) || krate.name == "phf" || def.name().contains("::ops::Range") || def.name().contains("ops::range");
                    for v in def.variants() {
                        let mut fsx = vec![];
                        for f in v.fields() {
                            let fty = if want_fields { self.ty(f.ty_with_args(&args)).to_string() } else { "null".into() };
                            fsx.push(format!("[{},{}]", esc(&f.name), fty));
                        }
                        let discr = if is_enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), discr, fsx.join(",")));
                    }
                    let a = self.args_json(&args);
                    // local Drop impl?
                    let mut drop_key = "null".to_string();
                    if local {
                        let int = rustc_internal::internal(self.tcx, def.def_id());
                        if let Some(d) = self.tcx.adt_destructor(int) {
                            let ddef = rustc_internal::stable(rustc_middle::ty::Instance::mono(self.tcx, d.did));
                            drop_key = esc(&self.enqueue(ddef));
                        }
                    }
                    format!(
                        "{{\"k\":\"adt\",\"name\":{},\"enum\":{},\"union\":{},\"local\":{},\"args\":{},\"v\":[{}],\"drop\":{}}}",
                        esc(&def.name()), is_enum, def.kind() == AdtKind::Union, local, a, vs.join(","), drop_key
                    )
                }
                other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{}", t))),
            },
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{}", t))),
        };
        let s = format!("{},\"s\":{}}}", &s[..s.len() - 1], esc(&format!("{}", t)));
        self.types[id] = s;
        id
    }

    fn rd(al: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n {
            let b = (*al.bytes.get(off + i)?)?;
            v |= (b as u128) << (8 * i);
        }
        Some(v)
    }
    fn prov(al: &Allocation, off: usize) -> Option<AllocId> {
        al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    // decode a value of type t at offset off as JSON
    fn dec(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        if depth > 24 {
            return "null".into();
        }
        let k = t.kind();
        let Some(r) = k.rigid() else { return "null".into() };
        match r {
            RigidTy::Bool => match Self::rd(al, off, 1) { Some(v) => (if v != 0 { "true" } else { "false" }).into(), None => "null".into() },
            RigidTy::Char => match Self::rd(al, off, 4) { Some(v) => format!("{{\"char\":{}}}", esc(&char::from_u32(v as u32).unwrap_or('?').to_string())), None => "null".into() },
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                match Self::rd(al, off, n) {
                    Some(v) => { let sh = 128 - 8 * n as u32; let s = ((v << sh) as i128) >> sh; s.to_string() }
                    None => "null".into(),
                }
            }
            RigidTy::Uint(i) => match Self::rd(al, off, i.num_bytes()) { Some(v) => v.to_string(), None => "null".into() },
            RigidTy::Float(f) => {
                match f {
                    FloatTy::F32 => Self::rd(al, off, 4).map(|v| format!("{{\"float\":\"{}\"}}", f32::from_bits(v as u32))).unwrap_or("null".into()),
                    FloatTy::F64 => Self::rd(al, off, 8).map(|v| format!("{{\"float\":\"{}\"}}", f64::from_bits(v as u64))).unwrap_or("null".into()),
                    _ => "null".into(),
                }
            }
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let Some(aid) = Self::prov(al, off) else { return "null".into() };
                let addend = Self::rd(al, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(aid) {
                    GlobalAlloc::Memory(m) => {
                        match inner.kind().rigid() {
                            Some(RigidTy::Str) => {
                                let len = Self::rd(al, off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = (0..len).filter_map(|i| m.bytes.get(addend + i).copied().flatten()).collect();
                                format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                            }
                            Some(RigidTy::Slice(e)) => {
                                let len = Self::rd(al, off + 8, 8).unwrap_or(0) as usize;
                                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                                    let b: Vec<String> = (0..len).filter_map(|i| m.bytes.get(addend + i).copied().flatten()).map(|x| x.to_string()).collect();
                                    return format!("{{\"bytes\":[{}]}}", b.join(","));
                                }
                                let mut v = vec![];
                                for i in 0..len { v.push(self.dec(*e, &m, addend + i * sz, depth + 1)); }
                                format!("{{\"arr\":[{}]}}", v.join(","))
                            }
                            Some(RigidTy::Array(e, n)) if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) => {
                                let len = n.eval_target_usize().unwrap_or(0) as usize;
                                let b: Vec<String> = (0..len).filter_map(|i| m.bytes.get(addend + i).copied().flatten()).map(|x| x.to_string()).collect();
                                format!("{{\"bytes\":[{}]}}", b.join(","))
                            }
                            Some(RigidTy::Dynamic(..)) => "null".into(),
                            _ => { let s = self.dec(*inner, &m, addend, depth + 1); format!("{{\"ref\":{}}}", s) }
                        }
                    }
                    GlobalAlloc::Static(sd) => {
                        let n = self.static_(sd);
                        format!("{{\"static\":{}}}", esc(&n))
                    }
                    GlobalAlloc::Function(i) => { let k = self.enqueue(i); format!("{{\"fnaddr\":{}}}", esc(&k)) }
                    _ => "null".into(),
                }
            }
            RigidTy::Array(e, n) => {
                let len = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..len { v.push(self.dec(*e, al, off + i * sz, depth + 1)); }
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return "null".into() };
                let sh = l.shape();
                let mut v = vec![];
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    for (i, ft) in ts.iter().enumerate() { v.push(self.dec(*ft, al, off + offsets[i].bytes(), depth + 1)); }
                }
                format!("{{\"tup\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union { return "null".into(); }
                let Ok(l) = t.layout() else { return "null".into() };
                let sh = l.shape();
                let tid = self.ty(t);
                let (vi, offsets): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let (prim, n) = match tag { Scalar::Initialized { value, .. } => (value.clone(), value.size(&rustc_public::target::MachineInfo::target()).bytes()), Scalar::Union { value } => (value.clone(), value.size(&rustc_public::target::MachineInfo::target()).bytes()) };
                        let is_ptr = matches!(prim, Primitive::Pointer(_));
                        let tagv = Self::rd(al, off + toff, n);
                        let has_prov = is_ptr && Self::prov(al, off + toff).is_some();
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return "null".into() };
                                let mut f = None;
                                for v in def.variants() { let d = def.discriminant_for_variant(v.idx()).val; let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 }; if d & mask == tv { f = Some(v.idx().to_index()); } }
                                match f { Some(x) => x, None => return "null".into() }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let st = niche_variants.start().to_index();
                                let en = niche_variants.end().to_index();
                                if has_prov { untagged_variant.to_index() } else {
                                    match tagv {
                                        Some(tv) => {
                                            let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            if rel <= (en - st) as u128 { st + rel as usize } else { untagged_variant.to_index() }
                                        }
                                        None => untagged_variant.to_index(),
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                    _ => return "null".into(),
                };
                let vs = def.variants();
                let var = &vs[vi];
                let mut v = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let ft = f.ty_with_args(args);
                    let o = offsets.get(i).copied().unwrap_or(0);
                    v.push(self.dec(ft, al, off + o, depth + 1));
                }
                format!("{{\"adt\":{},\"vi\":{},\"f\":[{}]}}", tid, vi, v.join(","))
            }
            _ => "null".into(),
        }
    }

    fn static_(&mut self, sd: StaticDef) -> String {
        let n = sd.name();
        if self.statics.contains_key(&n) { return n; }
        self.statics.insert(n.clone(), "null".into());
        if sd.krate().is_local {
            let t = sd.ty();
            let tid = self.ty(t);
            if let Ok(al) = sd.eval_initializer() {
                let v = self.dec(t, &al, 0, 0);
                self.statics.insert(n.clone(), format!("{{\"ty\":{},\"v\":{}}}", tid, v));
            }
        }
        n
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(al) => self.dec(t, al, 0, 0),
            ConstantKind::ZeroSized => match t.kind().rigid() {
                Some(RigidTy::Adt(..)) | Some(RigidTy::Tuple(_)) => { let al = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not }; self.dec(t, &al, 0, 0) }
                _ => "{\"zst\":1}".into(),
            },
            _ => "null".into(),
        };
        format!("[\"k\",{},{}]", tid, v)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|x| self.op(x)).collect();
        format!("[{}]", v.join(","))
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = self.ops(ops);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{}]", self.ty(*t), o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", o),
                    AggregateKind::Adt(def, vi, args, _, active) => {
                        let t = self.ty(def.ty_with_args(args));
                        format!("[\"agg\",\"adt\",{},{},{}]", t, vi.to_index(), o)
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        format!("[\"agg\",\"closure\",{},0,{}]", t, o)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,0,{}]", o),
                    _ => format!("[\"agg\",\"other\",null,0,{}]", o),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }
    fn uw(u: &UnwindAction) -> String {
        match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".into() }
    }

    fn body(&mut self, key: &str, i: Instance) {
        let Some(b) = i.body() else { return };
        let name = i.name();
        let path = i.def.def_id().name();
        let int = rustc_internal::internal(self.tcx, i.def.def_id());
        let vis = int.as_local().map(|l| self.tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false);
        let reach = int.as_local().map(|l| self.tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let flags = self.tcx.codegen_fn_attrs(int).flags;
        let cabi = !self.tcx.is_closure_like(int) && flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
        let mut tr = "null".to_string();
        let mut self_ty = "null".to_string();
        let mut trait_decl = "null".to_string();
        let is_closure = self.tcx.is_closure_like(int);
        let mut anc = int;
        while self.tcx.is_closure_like(anc) { anc = self.tcx.parent(anc); }
        if let Some(ai) = self.tcx.opt_associated_item(anc) {
            let cont = self.tcx.parent(anc);
            match self.tcx.def_kind(cont) {
                rustc_hir::def::DefKind::Impl { of_trait } => {
                    let st = self.tcx.type_of(cont).instantiate_identity().skip_norm_wip();
                    self_ty = esc(&format!("{}", st));
                    if of_trait { tr = esc(&self.tcx.def_path_str(self.tcx.impl_trait_ref(cont).skip_binder().def_id)); }
                }
                rustc_hir::def::DefKind::Trait => { trait_decl = esc(&self.tcx.def_path_str(cont)); }
                _ => {}
            }
        }
        let a = self.args_json(&i.args());
        let sp = i.def.def_id().span();
        let file = sp.get_filename();
        let line = sp.get_lines().start_line;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local, v.name.clone()); }
                else { let pj = self.place(p); upv.push(format!("[{},{}]", esc(&v.name), pj)); }
            }
        }
        let mut ls = vec![];
        for (n, l) in b.local_decls() {
            let t = self.ty(l.ty);
            ls.push(match names.get(&n) { Some(s) => format!("[{},{}]", t, esc(s)), None => format!("[{}]", t) });
        }
        let mut bs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rv(r);
                        ss.push(format!("[\"=\",{},{},{}]", pj, rj, s.source_info.span.get_lines().start_line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    _ => {}
                }
            }
            let ln = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("\"k\":\"goto\",\"t\":{}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("\"k\":\"switch\",\"d\":{},\"b\":[{}],\"o\":{}", self.op(discr), br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "\"k\":\"resume\"".into(),
                TerminatorKind::Abort => "\"k\":\"abort\"".into(),
                TerminatorKind::Return => "\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(b.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{},\"u\":{}", self.place(place), pt, target, Self::uw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind().rigid() {
                            Some(RigidTy::FnDef(def, ga)) => self.fn_ref(*def, ga),
                            _ => format!("{{\"dyn\":{}}}", self.op(func)),
                        },
                        _ => format!("{{\"dyn\":{}}}", self.op(func)),
                    };
                    let a = self.ops(args);
                    let d = self.place(destination);
                    format!("\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{},\"u\":{}", f, a, d, target.map(|t| t.to_string()).unwrap_or("null".into()), Self::uw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        AssertMessage::Overflow(o, x, y) => format!("[\"overflow\",\"{:?}\",{},{}]", o, self.op(x), self.op(y)),
                        AssertMessage::OverflowNeg(x) => format!("[\"overflow\",\"Neg\",{}]", self.op(x)),
                        AssertMessage::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                        AssertMessage::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"u\":{}", self.op(cond), expected, m, target, Self::uw(unwind))
                }
                TerminatorKind::InlineAsm { .. } => "\"k\":\"asm\"".into(),
            };
            bs.push(format!("{{\"s\":[{}],{},\"l\":{}}}", ss.join(","), t, ln));
        }
        let is_drop = "false";
        let j = format!(
            "{{\"name\":{},\"path\":{},\"exported\":{},\"reachable\":{},\"cabi\":{},\"closure\":{},\"trait\":{},\"traitdecl\":{},\"self\":{},\"args\":{},\"file\":{},\"line\":{},\"argc\":{},\"spread\":{},\"upv\":[{}],\"locals\":[{}],\"blocks\":[{}]}}",
            esc(&name), esc(&path), vis, reach, cabi, is_closure, tr, trait_decl, self_ty, a, esc(&file), line, b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), upv.join(","), ls.join(","), bs.join(",")
        );
        self.fns.insert(key.to_string(), j);
    }
}

trait LocalKrate { fn krate_is_local(&self) -> bool; }
impl LocalKrate for DefId {
    fn krate_is_local(&self) -> bool { struct W(DefId); impl CrateDef for W { fn def_id(&self) -> DefId { self.0 } } W(*self).krate().is_local }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("OXO_DUMP").unwrap();
    let mut d = D { tcx, types: vec![], tmap: HashMap::new(), fns: BTreeMap::new(), queued: HashSet::new(), work: vec![], statics: BTreeMap::new(), local_drop: HashMap::new() };
    let mut skipped = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            rustc_public::ItemKind::Fn => match Instance::try_from(it) {
                Ok(i) => { d.enqueue(i); }
                Err(_) => skipped.push(it.name()),
            },
            rustc_public::ItemKind::Static => { if let Ok(s) = StaticDef::try_from(it) { d.static_(s); } }
            _ => {}
        }
    }
    while let Some((k, i)) = d.work.pop() {
        d.body(&k, i);
    }
    let mut s = String::new();
    s.push_str("{\"types\":[\n");
    s.push_str(&d.types.join(",\n"));
    s.push_str("],\n\"fns\":{\n");
    s.push_str(&d.fns.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"statics\":{\n");
    s.push_str(&d.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("},\n\"generic_fns\":[");
    s.push_str(&skipped.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // wrapper: argv[1] is rustc
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let want = std::env::var("OXO_CRATE").unwrap_or_default();
    if name != want {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let mut full: Vec<String> = args.clone();
    full.push("-Awarnings".into());
    full.push("-Zmir-opt-level=0".into());
    full.push("-Zalways-encode-mir".into());
    let r = rustc_public::run_with_tcx!(&full, dump);
    match r {
        Ok(_) => {}
        Err(_) => std::process::exit(1),
    }
}
