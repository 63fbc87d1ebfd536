//! mirdump: a rustc wrapper that, after the compiler's analyses, writes the monomorphised MIR of
//! every function of the crate being compiled (plus whitelisted core/alloc/std helper bodies) as
//! JSON.  The text verified by /verif/engine is this MIR: it is what rustc generates code from.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::target::MachineSize;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;
use rustc_public_bridge::IndexedVal;

// ---------------------------------------------------------------- JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_queue: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_queue: Vec<Instance>,
    inst_json: Vec<Option<String>>,
    drop_adts: HashMap<String, bool>,
    local: String,
    whitelist: Vec<String>,
}

fn shorten(n: &str) -> String { n.to_string() }

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        self.ty_queue.push(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) { return *k; }
        let k = self.inst_json.len();
        self.insts.insert(i, k);
        self.inst_json.push(None);
        self.inst_queue.push(i);
        k
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"const\":{}}}", n),
                    Err(_) => format!("{{\"const\":{}}}", js(&format!("{:?}", c.kind()))),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn fndef_inst(&mut self, d: FnDef, a: &GenericArgs) -> Option<Instance> {
        let _ = self;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(d, a).ok())).ok().flatten()
    }
    fn ty_body(&mut self, t: Ty) -> String {
        let name = format!("{}", t);
        let nm = js(&name);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",\"n\":{}}}", nm),
                RigidTy::Char => format!("{{\"k\":\"char\",\"n\":{}}}", nm),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true,\"n\":{}}}", i.num_bytes() * 8, nm),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false,\"n\":{}}}", i.num_bytes() * 8, nm),
                RigidTy::Float(_) => format!("{{\"k\":\"float\",\"n\":{}}}", nm),
                RigidTy::Str => format!("{{\"k\":\"str\",\"n\":{}}}", nm),
                RigidTy::Never => format!("{{\"k\":\"never\",\"n\":{}}}", nm),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let d = if def.kind() == AdtKind::Enum {
                            format!("{}", def.discriminant_for_variant(v.idx()).val)
                        } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", js(&f.name.to_string()), self.ty(ft)));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(&v.name().to_string()), d, arr(fs)));
                    }
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let has_drop = self.drop_adts.contains_key(&def.name().to_string());
                    let di = if has_drop {
                        let i = Instance::resolve_drop_in_place(t);
                        format!("{}", self.inst(i))
                    } else { "null".into() };
                    format!("{{\"k\":\"adt\",\"kind\":\"{}\",\"def\":{},\"crate\":{},\"box\":{},\"args\":{},\"v\":{},\"drop\":{},\"n\":{}}}",
                        kind, js(&def.name().to_string()), js(&def.krate().name.to_string()), def.is_box(), self.args(&args), arr(vs), di, nm)
                }
                RigidTy::Array(e, n) => format!("{{\"k\":\"array\",\"e\":{},\"len\":{},\"n\":{}}}", self.ty(e),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()), nm),
                RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{},\"n\":{}}}", self.ty(e), nm),
                RigidTy::RawPtr(e, _) => format!("{{\"k\":\"ptr\",\"e\":{},\"n\":{}}}", self.ty(e), nm),
                RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{},\"n\":{}}}", self.ty(e), m == Mutability::Mut, nm),
                RigidTy::FnDef(d, a) => {
                    let i = match self.fndef_inst(d, &a) { Some(i) => format!("{}", self.inst(i)), None => "null".into() };
                    format!("{{\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{},\"n\":{}}}", js(&d.name().to_string()), self.args(&a), i, nm)
                }
                RigidTy::FnPtr(s) => {
                    let sig = s.skip_binder();
                    let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"fnptr\",\"in\":{},\"out\":{},\"n\":{}}}", arr(ins), self.ty(sig.output()), nm)
                }
                RigidTy::Closure(d, a) => {
                    let i = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                            if let Ok(i) = Instance::resolve_closure(d, &a, k) { return Some(i); }
                        }
                        None
                    })).ok().flatten();
                    let i = match i { Some(i) => format!("{}", self.inst(i)), None => "null".into() };
                    format!("{{\"k\":\"closure\",\"def\":{},\"args\":{},\"inst\":{},\"n\":{}}}", js(&d.name().to_string()), self.args(&a), i, nm)
                }
                RigidTy::Coroutine(d, a) => {
                    let it = rustc_public::rustc_internal::internal(self.tcx, t);
                    let ci = if let rustc_middle::ty::TyKind::Coroutine(did, cargs) = it.kind() {
                        let inst = rustc_middle::ty::Instance::new_raw(*did, cargs);
                        let si: Instance = rustc_public::rustc_internal::stable(inst);
                        format!("{}", self.inst(si))
                    } else { "null".into() };
                    format!("{{\"k\":\"coroutine\",\"def\":{},\"args\":{},\"inst\":{},\"n\":{}}}", js(&d.name().to_string()), self.args(&a), ci, nm)
                }
                RigidTy::CoroutineClosure(d, a) => format!("{{\"k\":\"coroutineclosure\",\"def\":{},\"args\":{},\"n\":{}}}", js(&d.name().to_string()), self.args(&a), nm),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", nm),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"e\":{},\"n\":{}}}", arr(v), nm)
                }
                RigidTy::Foreign(_) => format!("{{\"k\":\"foreign\",\"n\":{}}}", nm),
                RigidTy::Pat(t, _) => format!("{{\"k\":\"pat\",\"e\":{},\"n\":{}}}", self.ty(t), nm),
                RigidTy::CoroutineWitness(..) => format!("{{\"k\":\"witness\",\"n\":{}}}", nm),
            },
            k => format!("{{\"k\":\"other\",\"n\":{}}}", js(&format!("{:?}", k))),
        }
    }
    // ------------------------------------------------ constants
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return "{\"k\":\"deep\"}".into(); }
        let r = self.decode_(a, off, t, depth);
        match r { Some(s) => s, None => format!("{{\"k\":\"opaque\",\"t\":{}}}", self.ty(t)) }
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 { return Some(0); }
        a.read_partial_uint(off..off + n).ok()
    }
    fn prov(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| GlobalAlloc::from(p.0))
    }
    fn variant_fields(&mut self, a: &Allocation, off: usize, offs: &[MachineSize], vi: usize, def: AdtDef, args: &GenericArgs, depth: usize) -> Option<Vec<String>> {
        let v = def.variants().into_iter().nth(vi)?;
        let mut out = vec![];
        for (i, f) in v.fields().into_iter().enumerate() {
            let ft = f.ty_with_args(args);
            let o = offs.get(i).map(|s| s.bytes()).unwrap_or(0);
            out.push(self.decode(a, off + o, ft, depth + 1));
        }
        Some(out)
    }
    fn decode_(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        let tid = self.ty(t);
        let r = match t.kind() { TyKind::RigidTy(r) => r, _ => return None };
        match r {
            RigidTy::Bool => Some(format!("{{\"k\":\"bool\",\"v\":{}}}", self.rd(a, off, 1)? != 0)),
            RigidTy::Char => Some(format!("{{\"k\":\"int\",\"v\":\"{}\",\"t\":{}}}", self.rd(a, off, 4)?, tid)),
            RigidTy::Uint(u) => Some(format!("{{\"k\":\"int\",\"v\":\"{}\",\"t\":{}}}", self.rd(a, off, u.num_bytes())?, tid)),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let raw = self.rd(a, off, n)?;
                let v = if n == 16 { raw as i128 } else {
                    let sh = 128 - n * 8; ((raw << sh) as i128) >> sh };
                Some(format!("{{\"k\":\"int\",\"v\":\"{}\",\"t\":{}}}", v, tid))
            }
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                Some(format!("{{\"k\":\"float\",\"v\":\"{}\",\"t\":{}}}", self.rd(a, off, n)?, tid))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Some(format!("{{\"k\":\"zst\",\"t\":{}}}", tid)),
            RigidTy::FnPtr(_) => match self.prov(a, off)? {
                GlobalAlloc::Function(i) => { let nm = i.name().to_string(); Some(format!("{{\"k\":\"fnptr\",\"inst\":{},\"n\":{},\"t\":{}}}", self.inst(i), js(&nm), tid)) }
                _ => None,
            },
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs: Vec<usize> = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; ts.len()] };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, t)| self.decode(a, off + offs[i], *t, depth + 1)).collect();
                Some(format!("{{\"k\":\"agg\",\"t\":{},\"v\":0,\"f\":{}}}", tid, arr(v)))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                if n > 4096 { return None; }
                let st = e.layout().ok()?.shape().size.bytes();
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
                    let b: Option<Vec<String>> = (0..n).map(|i| a.bytes.get(off + i).copied().flatten().map(|x| x.to_string())).collect();
                    return Some(format!("{{\"k\":\"bytes\",\"t\":{},\"v\":{}}}", tid, arr(b?)));
                }
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * st, e, depth + 1)).collect();
                Some(format!("{{\"k\":\"arr\",\"t\":{},\"v\":{}}}", tid, arr(v)))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let g = self.prov(a, off);
                let po = self.rd(a, off, 8).unwrap_or(0) as usize;
                match g {
                    None => Some(format!("{{\"k\":\"dangling\",\"t\":{}}}", tid)),
                    Some(GlobalAlloc::Static(s)) => Some(format!("{{\"k\":\"static\",\"n\":{},\"t\":{}}}", js(&s.name().to_string()), tid)),
                    Some(GlobalAlloc::Memory(m)) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = self.rd(a, off + 8, 8)? as usize;
                            let b: Option<Vec<u8>> = m.bytes.get(po..po + n)?.iter().copied().collect();
                            Some(format!("{{\"k\":\"str\",\"v\":{},\"t\":{}}}", js(&String::from_utf8_lossy(&b?)), tid))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = self.rd(a, off + 8, 8)? as usize;
                            if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = el.kind() {
                                if n > 65536 { return None; }
                                let b: Option<Vec<String>> = m.bytes.get(po..po + n)?.iter().map(|x| x.map(|y| y.to_string())).collect();
                                return Some(format!("{{\"k\":\"ref\",\"t\":{},\"to\":{{\"k\":\"bytes\",\"t\":{},\"v\":{}}}}}", tid, self.ty(e), arr(b?)));
                            }
                            if n > 512 { return None; }
                            let st = el.layout().ok()?.shape().size.bytes();
                            let v: Vec<String> = (0..n).map(|i| self.decode(&m, po + i * st, el, depth + 1)).collect();
                            Some(format!("{{\"k\":\"ref\",\"t\":{},\"to\":{{\"k\":\"arr\",\"t\":{},\"v\":{}}}}}", tid, self.ty(e), arr(v)))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => None,
                        _ => { let x = self.decode(&m, po, e, depth + 1); Some(format!("{{\"k\":\"ref\",\"t\":{},\"to\":{}}}", tid, x)) }
                    },
                    _ => None,
                }
            }
            RigidTy::Adt(def, args) => {
                let sh = t.layout().ok()?.shape();
                match def.kind() {
                    AdtKind::Struct => {
                        let offs: Vec<MachineSize> = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.clone(), _ => vec![] };
                        let f = self.variant_fields(a, off, &offs, 0, def, &args, depth)?;
                        Some(format!("{{\"k\":\"agg\",\"t\":{},\"v\":0,\"f\":{}}}", tid, arr(f)))
                    }
                    AdtKind::Enum => match &sh.variants {
                        VariantsShape::Empty => None,
                        VariantsShape::Single { index } => {
                            let offs: Vec<MachineSize> = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.clone(), _ => vec![] };
                            let vi = index.to_index();
                            let f = self.variant_fields(a, off, &offs, vi, def, &args, depth)?;
                            Some(format!("{{\"k\":\"agg\",\"t\":{},\"v\":{},\"f\":{}}}", tid, vi, arr(f)))
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bytes(), _ => 0 };
                            let tsz = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, Primitive::Float { .. } => return None } };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let tv = self.rd(a, off + toff, tsz)?;
                                    def.variants().iter().position(|v| {
                                        let d = def.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        (d & m) == (tv & m) })?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if self.prov(a, off + toff).is_some() { untagged_variant.to_index() } else {
                                        let tv = self.rd(a, off + toff, tsz)?;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        let lo = niche_variants.start().to_index() as u128;
                                        let hi = niche_variants.end().to_index() as u128;
                                        if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            let offs = variants[vi].offsets.clone();
                            let f = self.variant_fields(a, off, &offs, vi, def, &args, depth)?;
                            Some(format!("{{\"k\":\"agg\",\"t\":{},\"v\":{},\"f\":{}}}", tid, vi, arr(f)))
                        }
                    },
                    AdtKind::Union => None,
                }
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        match c.const_.kind() {
            ConstantKind::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}}}", tid),
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                TyConstKind::ZSTValue(t) => format!("{{\"k\":\"zst\",\"t\":{}}}", self.ty(*t)),
                _ => format!("{{\"k\":\"opaque\",\"t\":{}}}", tid),
            },
            _ => format!("{{\"k\":\"opaque\",\"t\":{}}}", tid),
        }
    }
    // ------------------------------------------------ MIR
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":\"const\",\"c\":{}}}", self.konst(c)),
            Operand::RuntimeChecks(_) => "{\"k\":\"const\",\"c\":{\"k\":\"bool\",\"v\":false}}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(b, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::AddressOf(_, p) => format!("{{\"k\":\"ref\",\"mut\":true,\"raw\":true,\"p\":{}}}", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("{{\"k\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", u, self.op(x)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Len(p) => format!("{{\"k\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"t\":{}}}", js(&format!("{:?}", k)), self.op(o), self.ty(*t))
            }
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"len\":{}}}", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(c) => format!("{{\"k\":\"tls\",\"n\":{},\"t\":{}}}", js(&c.name().to_string()), self.ty(c.ty())),
            Rvalue::Aggregate(k, os) => {
                let o: Vec<String> = os.iter().map(|o| self.op(o)).collect();
                let (kk, t, v, af) = match k {
                    AggregateKind::Array(t) => ("array", self.ty(*t), 0, None),
                    AggregateKind::Tuple => ("tuple", 0, 0, None),
                    AggregateKind::Adt(d, v, a, _, f) => ("adt", { let t = d.ty_with_args(a); self.ty(t) }, v.to_index(), *f),
                    AggregateKind::Closure(d, a) => ("closure", { let t = Ty::new_closure(*d, a.clone()); self.ty(t) }, 0, None),
                    AggregateKind::Coroutine(d, a) => ("coroutine", { let t = Ty::new_coroutine(*d, a.clone()); self.ty(t) }, 0, None),
                    AggregateKind::CoroutineClosure(d, a) => ("coroutineclosure", { let t = Ty::new_coroutine_closure(*d, a.clone()); self.ty(t) }, 0, None),
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(*t), 0, None),
                };
                format!("{{\"k\":\"agg\",\"ak\":\"{}\",\"t\":{},\"v\":{},\"uf\":{},\"o\":{}}}", kk, t, v, af.map(|x| x.to_string()).unwrap_or("null".into()), arr(o))
            }
        }
    }
    fn contains_drop(&self, t: Ty, depth: usize) -> bool {
        if depth > 6 { return false; }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                if self.drop_adts.contains_key(&d.name().to_string()) { return true; }
                for g in a.0.iter() { if let GenericArgKind::Type(x) = g { if self.contains_drop(*x, depth + 1) { return true; } } }
                if d.krate().name.to_string() == self.local {
                    for v in d.variants() { for f in v.fields() { if self.contains_drop(f.ty_with_args(&a), depth + 1) { return true; } } }
                }
                false
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| self.contains_drop(*t, depth + 1)),
            _ => false,
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let l = s.source_info.span.get_lines().start_line; ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), l)) }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ss.push(format!("[\"assume\",{}]", self.op(o))),
                    StatementKind::Intrinsic(_) => ss.push("[\"unsupported\"]".into()),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => format!("{{\"k\":\"goto\",\"t\":{}}}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"switch\",\"d\":{},\"dt\":{},\"br\":{},\"o\":{},\"line\":{}}}", self.op(discr), dt, arr(br), targets.otherwise(), line)
                }
                TerminatorKind::Resume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"k\":\"abort\"}".into(),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok();
                    let di = match pt { Some(t) if self.contains_drop(t, 0) => { let i = Instance::resolve_drop_in_place(t); format!("{}", self.inst(i)) } _ => "null".into() };
                    let pts = pt.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"drop\",\"p\":{},\"pt\":{},\"di\":{},\"t\":{},\"line\":{}}}", self.place(place), pts, di, target, line)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals());
                    let fj = match ft.as_ref().map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            let i = self.fndef_inst(d, &a);
                            let nm = i.map(|i| i.name().to_string());
                            let virt = matches!(i.map(|i| i.kind), Some(InstanceKind::Virtual { .. }));
                            let intr = i.and_then(|i| i.intrinsic_name()).map(|s| s.to_string());
                            let mut vt: Vec<String> = vec![];
                            if virt {
                                let dn = d.name().to_string();
                                for im in rustc_public::local_crate().trait_impls() {
                                    let ti = im.trait_impl().value;
                                    if dn.rsplit_once("::").map(|x| x.0) != Some(ti.def_id.name().to_string().as_str()) { continue; }
                                    let st = ti.self_ty();
                                    let mut ga = a.clone(); ga.0[0] = GenericArgKind::Type(st);
                                    if let Some(j) = self.fndef_inst(d, &ga) { let tt = self.ty(st); let jj = self.inst(j); vt.push(format!("[{},{}]", tt, jj)); }
                                }
                            }
                            let id = match i { Some(i) if !virt => format!("{}", self.inst(i)), _ => "null".into() };
                            format!("{{\"def\":{},\"args\":{},\"inst\":{},\"name\":{},\"intr\":{},\"virt\":{},\"vt\":{}}}", js(&shorten(&d.name().to_string())), self.args(&a), id,
                                nm.map(|n| js(&n)).unwrap_or("null".into()), intr.map(|n| js(&n)).unwrap_or("null".into()), virt, arr(vt))
                        }
                        _ => format!("{{\"dyn\":{}}}", self.op(func)),
                    };
                    let av: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let at: Vec<String> = args.iter().map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let dt = destination.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dt\":{},\"t\":{},\"line\":{}}}", fj, arr(av), arr(at), self.place(destination), dt,
                        target.map(|t| t.to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mk = match msg { AssertMessage::Overflow(..) => "overflow", AssertMessage::BoundsCheck { .. } => "bounds", AssertMessage::DivisionByZero(_) => "div0",
                        AssertMessage::RemainderByZero(_) => "rem0", AssertMessage::ResumedAfterReturn(_) | AssertMessage::ResumedAfterPanic(_) | AssertMessage::ResumedAfterDrop(_) => "resumed", _ => "other" };
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":\"{}\",\"t\":{},\"line\":{}}}", self.op(cond), expected, mk, target, line)
                }
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(ss), tj));
        }
        let dbg: Vec<String> = b.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) => Some(format!("[{},{}]", js(&v.name.to_string()), self.place(p))), _ => None }).collect();
        format!("{{\"locals\":{},\"argc\":{},\"spread\":{},\"dbg\":{},\"bb\":{}}}", arr(locals), b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(dbg), arr(blocks))
    }
    fn want_body(&self, i: &Instance, krate: &str, name: &str) -> bool {
        if matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) { return false; }
        if krate == self.local { return true; }
        if i.kind == InstanceKind::Shim { return true; }
        self.whitelist.iter().any(|w| name.contains(w.as_str()))
    }
    fn inst_body(&mut self, i: Instance) -> String {
        let d = i.def;
        let krate = d.krate().name.to_string();
        let defname = d.name().to_string();
        let name = i.name().to_string();
        let want = self.want_body(&i, &krate, &defname);
        let body = if want {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())).ok().flatten()
        } else { None };
        let kind = format!("{:?}", i.kind);
        let kind = kind.split(' ').next().unwrap().to_string();
        let b = match body { Some(b) => self.body(&b), None => "null".into() };
        let mangled = if krate == self.local && i.kind == InstanceKind::Item { js(&i.mangled_name().to_string()) } else { "null".into() };
        let args = if i.kind == InstanceKind::Shim { "[]".to_string() } else { let a = i.args(); self.args(&a) };
        let span = d.span();
        let file = span.get_filename().to_string();
        let line = span.get_lines();
        format!("{{\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"mangled\":{},\"args\":{},\"file\":{},\"line\":[{},{}],\"body\":{}}}",
            js(&name), js(&defname), js(&krate), kind, mangled, args, js(&file), line.start_line, line.end_line, b)
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>, out: String) -> ControlFlow<(), ()> {
    let local = rustc_public::local_crate();
    let lname = local.name.to_string();
    let whitelist: Vec<String> = std::env::var("MIRDUMP_WHITELIST").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_json: vec![], ty_queue: vec![], insts: HashMap::new(), inst_queue: vec![], inst_json: vec![],
        drop_adts: HashMap::new(), local: lname.clone(), whitelist };
    cx.ty(Ty::new_tuple(&[]));
    for im in local.trait_impls() {
        let ti = im.trait_impl().value;
        if ti.def_id.name().to_string().ends_with("::Drop") {
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ti.self_ty().kind() { cx.drop_adts.insert(d.name().to_string(), true); }
        }
    }
    let mut roots = vec![];
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn | ItemKind::Const => {
                if it.requires_monomorphization() { continue; }
                if it.kind() == ItemKind::Fn {
                    if let Ok(i) = Instance::try_from(it) { let k = cx.inst(i); roots.push(k.to_string()); }
                } else if it.name().to_string().ends_with("::BOUND") {
                    // size bounds of stored types
                    if let Ok(i) = Instance::try_from(it) { cx.inst(i); }
                }
            }
            ItemKind::Static => {
                let t = it.ty(); let tt = cx.ty(t);
                statics.push(format!("[{},{}]", js(&it.name().to_string()), tt));
            }
            _ => {}
        }
    }
    use rustc_public::ItemKind;
    loop {
        if let Some(i) = cx.inst_queue.pop() {
            let s = cx.inst_body(i);
            let k = cx.insts[&i];
            cx.inst_json[k] = Some(s);
            continue;
        }
        if let Some(t) = cx.ty_queue.pop() {
            let s = cx.ty_body(t);
            let k = cx.tys[&t];
            cx.ty_json[k] = Some(s);
            continue;
        }
        break;
    }
    let tys: Vec<String> = cx.ty_json.into_iter().map(|x| x.unwrap_or("null".into())).collect();
    let ins: Vec<String> = cx.inst_json.into_iter().map(|x| x.unwrap_or("null".into())).collect();
    let s = format!("{{\"crate\":{},\"roots\":{},\"statics\":{},\n\"types\":[{}],\n\"insts\":[{}]}}\n", js(&lname), arr(roots), arr(statics), tys.join(",\n"), ins.join(",\n"));
    let path = format!("{}/{}.mir.json", out, lname);
    std::fs::write(&path, s).expect("write mir json");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    let all: Vec<String> = std::env::args().collect();
    let mut args = all.clone();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    if let (Ok(out), true) = (std::env::var("MIRDUMP_OUT"), want.contains(&crate_name)) {
        let r: Result<(), rustc_public::CompilerError<()>> = run_with_tcx!(&args, |tcx| dump(tcx, out));
        match r { Ok(()) => {} Err(_) => std::process::exit(1) }
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&all[1]).args(&all[2..]).exec();
        eprintln!("exec failed: {e}");
        std::process::exit(1);
    }
}
