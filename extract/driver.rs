// MIR extraction driver (rustc_public).  Used as RUSTC_WORKSPACE_WRAPPER.
// Dumps the monomorphic MIR reachable from the crate, the types involved and
// the resolved callees, as JSON, to $VERIF_DUMP.  It analyses nothing itself.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String { let mut o = String::new(); esc(s, &mut o); o }
fn arr<T>(v: &[T], mut f: impl FnMut(&T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dump {
    tyids: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    types: Vec<Option<String>>,
    insts: HashMap<Instance, usize>,
    instq: VecDeque<(Instance, u32)>,
    depth: u32,
}

fn strip_crate_ok(krate: &str) -> bool {
    // Bodies of these crates are never dumped: their functions are modelled
    // (or treated as opaque) at their public interface.
    !matches!(krate, "regex" | "regex_syntax" | "regex_automata" | "aho_corasick" | "memchr"
        | "serde_json" | "serde" | "serde_core" | "ciborium" | "ciborium_io" | "ciborium_ll" | "half" | "ryu" | "itoa"
        | "zmij" | "hashbrown" | "base64" | "hex" | "thiserror")
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(None);
        self.tyids.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.insts.get(&i) { return *n; }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.instq.push_back((i, self.depth + 1));
        n
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<usize> = a.0.iter().filter_map(|k| match k { GenericArgKind::Type(t) => Some(*t), _ => None })
            .map(|t| self.ty(t)).collect();
        arr(&v, |x| x.to_string())
    }
    fn emit_types(&mut self) {
        while let Some(t) = self.tyq.pop_front() {
            let id = self.tyids[&t];
            let s = self.emit_ty(t);
            self.types[id] = Some(s);
        }
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let r = match kind { TyKind::RigidTy(r) => r, other => return format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{:?}", other))) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{}}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{}}}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"s\":{}}}", q(&format!("{:?}", f))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", self.ty(e), n)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::Tuple(v) => {
                let v: Vec<usize> = v.iter().map(|t| self.ty(*t)).collect();
                format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(&v, |x| x.to_string()))
            }
            RigidTy::FnDef(d, a) => {
                let inst = Instance::resolve_for_fn_ptr(d, &a).ok();
                let n = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}}}", q(&d.name()), self.args(&a), n)
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::Fn).ok();
                let n = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{},\"args\":{}}}", q(&d.name()), n, self.args(&a))
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", q(&format!("{}", t))),
            RigidTy::Adt(d, a) => {
                let kind = format!("{:?}", d.kind());
                let krate = d.krate().name.clone();
                let mut vs = Vec::new();
                for v in d.variants() {
                    let mut fs = Vec::new();
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        let ft = self.ty(ft);
                        fs.push(format!("[{},{}]", q(&f.name.to_string()), ft));
                    }
                    let discr = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"f\":[{}]}}", q(&v.name()), discr, fs.join(",")));
                }
                format!("{{\"k\":\"adt\",\"name\":{},\"crate\":{},\"kind\":{},\"box\":{},\"args\":{},\"v\":[{}]}}",
                    q(&d.name()), q(&krate), q(&kind), d.is_box(), self.args(&a), vs.join(","))
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{:?}", other))),
        }
    }

    // ---- constants
    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let tid = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"zst\":1}".to_string(),
            ConstantKind::Allocated(a) => self.alloc(ty, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.alloc(*t, a, 0, 0),
                TyConstKind::ZSTValue(_) => "{\"zst\":1}".into(),
                o => format!("{{\"unk\":{}}}", q(&format!("{:?}", o))),
            },
            o => format!("{{\"unk\":{}}}", q(&format!("{:?}", o))),
        };
        format!("{{\"ty\":{},\"v\":{}}}", tid, v)
    }
    fn bytes(a: &Allocation, off: usize, n: usize) -> Option<Vec<u8>> {
        a.bytes.get(off..off + n)?.iter().copied().collect()
    }
    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let b = Self::bytes(a, off, n)?;
        let mut x = 0u128;
        for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
        Some(x)
    }
    fn sx(x: u128, n: usize) -> i128 {
        if n == 16 { x as i128 } else { let s = 128 - 8 * n as u32; ((x << s) as i128) >> s }
    }
    fn prov(a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        for (o, p) in &a.provenance.ptrs { if *o == off { return Some(GlobalAlloc::from(p.0)); } }
        None
    }
    fn alloc(&mut self, t: Ty, a: &Allocation, off: usize, d: u32) -> String {
        self.alloc_opt(t, a, off, d).unwrap_or_else(|| "{\"unk\":\"alloc\"}".into())
    }
    fn alloc_opt(&mut self, t: Ty, a: &Allocation, off: usize, d: u32) -> Option<String> {
        if d > 12 { return None; }
        let r = match t.kind() { TyKind::RigidTy(r) => r, _ => return None };
        Some(match r {
            RigidTy::Bool => format!("{{\"i\":\"{}\"}}", Self::uint(a, off, 1)?),
            RigidTy::Char => format!("{{\"i\":\"{}\"}}", Self::uint(a, off, 4)?),
            RigidTy::Int(i) => { let n = i.num_bytes(); format!("{{\"i\":\"{}\"}}", Self::sx(Self::uint(a, off, n)?, n)) }
            RigidTy::Uint(i) => { let n = i.num_bytes(); format!("{{\"i\":\"{}\"}}", Self::uint(a, off, n)?) }
            RigidTy::Float(FloatTy::F64) => format!("{{\"f\":\"{}\"}}", Self::uint(a, off, 8)?),
            RigidTy::Float(FloatTy::F32) => format!("{{\"f32\":\"{}\"}}", Self::uint(a, off, 4)?),
            RigidTy::FnDef(..) => "{\"zst\":1}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = Vec::new();
                for i in 0..n { v.push(self.alloc(e, a, off + i * sz, d + 1)); }
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match sh.fields { FieldsShape::Arbitrary { offsets } => offsets, _ if ts.is_empty() => vec![], _ => return None };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, t)| self.alloc(*t, a, off + offs[i].bytes(), d + 1)).collect();
                format!("{{\"tup\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(def, args) => {
                let sh = t.layout().ok()?.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), FieldsShape::Union(_) => return None, _ => vec![] };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return None };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                            _ => return None,
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tagv = Self::uint(a, off + tag_off, tsz)?;
                                let mut f = None;
                                for v in def.variants() { 
                                    let dv = def.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if dv & mask == tagv { f = Some(v.idx().to_index()); }
                                }
                                f?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if Self::prov(a, off + tag_off).is_some() { untagged_variant.to_index() } else {
                                    let tagv = Self::uint(a, off + tag_off, tsz)?;
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tagv.wrapping_sub(*niche_start) & mask;
                                    let (s, e) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                    if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                    VariantsShape::Empty => return None,
                };
                let v = def.variants()[vi];
                let mut fs = Vec::new();
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    fs.push(self.alloc(ft, a, off + offs.get(i).copied()?, d + 1));
                }
                format!("{{\"adt\":{},\"var\":{},\"f\":[{}]}}", self.ty(t), vi, fs.join(","))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let ek = e.kind();
                let base = Self::uint(a, off, 8)? as usize;
                match Self::prov(a, off) {
                    Some(GlobalAlloc::Memory(m)) => match ek {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::uint(a, off + 8, 8)? as usize;
                            let b = Self::bytes(&m, base, n)?;
                            match String::from_utf8(b) { Ok(s) => format!("{{\"str\":{}}}", q(&s)), Err(_) => return None }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = Self::uint(a, off + 8, 8)? as usize;
                            let sz = el.layout().ok()?.shape().size.bytes();
                            let mut v = Vec::new();
                            for i in 0..n { v.push(self.alloc(el, &m, base + i * sz, d + 1)); }
                            format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","))
                        }
                        _ => format!("{{\"ref\":{}}}", self.alloc(e, &m, base, d + 1)),
                    },
                    Some(GlobalAlloc::Static(s)) => format!("{{\"static\":{}}}", q(&s.name())),
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst(i)),
                    Some(_) => return None,
                    None => match ek {
                        TyKind::RigidTy(RigidTy::Str) => "{\"str\":\"\"}".into(),
                        TyKind::RigidTy(RigidTy::Slice(_)) => "{\"ref\":{\"arr\":[]}}".into(),
                        TyKind::RigidTy(RigidTy::Array(_, n)) if n.eval_target_usize().ok() == Some(0) => "{\"ref\":{\"arr\":[]}}".into(),
                        _ => format!("{{\"ptr\":\"{}\"}}", base),
                    },
                }
            }
            _ => return None,
        })
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{},[", p.local);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, t) => { let t = self.ty(*t); let _ = write!(o, "[\".\",{},{}]", f, t); }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(v) => { let _ = write!(o, "[\"v\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(_) => o.push_str("[\"oc\"]"),
            }
        }
        o.push_str("]]");
        o
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(c) => format!("[\"rc\",{}]", q(&format!("{:?}", c))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, b, p) => { let m = matches!(b, BorrowKind::Mut { .. }); format!("[\"ref\",{},{}]", m, self.place(p)) }
            Rvalue::AddressOf(k, p) => { let k = format!("{:?}", k); format!("[\"addr\",{},{}]", q(&k), self.place(p)) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", q(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.op(x)),
            Rvalue::Cast(k, x, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.op(x), t) }
            Rvalue::Repeat(x, n) => { let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"rep\",{},{}]", self.op(x), n) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let k = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", q(&i.name())),
        }
    }
    fn span(s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }
    fn unwind(u: &UnwindAction) -> String { match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".into() } }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":[", b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(&locals, |x| x.to_string()));
        let lcopy: Vec<LocalDecl> = b.locals().to_vec();
        for (i, bb) in b.blocks.iter().enumerate() {
            if i > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{}]", self.place(p), self.rvalue(r)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => continue,
                    StatementKind::Intrinsic(_) => "[\"cno\"]".to_string(),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&txt);
            }
            let t = &bb.terminator;
            let sp = Self::span(&t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<(u128, usize)> = targets.branches().collect();
                    let ty = discr.ty(&lcopy).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},{},{},{}]", self.op(discr), arr(&br, |(v, t)| format!("[\"{}\",{}]", v, t)), targets.otherwise(), ty)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut k = format!("{:?}", msg);
                    k.truncate(k.find(['(', ' ']).unwrap_or(k.len()));
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, q(&k), target)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(&lcopy).ok();
                    let (mut decl, mut targs, mut inst, mut kind, mut name) = ("null".to_string(), "[]".to_string(), "null".to_string(), "", "null".to_string());
                    if let Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) = fty.map(|t| t.kind()) {
                        decl = q(&d.name());
                        targs = self.args(&a);
                        if let Ok(i) = Instance::resolve(d, &a) {
                            kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
                            name = q(&i.name());
                            inst = self.inst(i).to_string();
                        }
                    }
                    let f = if decl == "null" { self.op(func) } else { "null".into() };
                    let a: Vec<String> = args.iter().map(|x| self.op(x)).collect();
                    format!("[\"call\",{{\"decl\":{},\"ta\":{},\"inst\":{},\"kind\":{},\"name\":{},\"f\":{},\"args\":[{}],\"dest\":{},\"t\":{},\"u\":{}}}]",
                        decl, targs, inst, q(kind), name, f, a.join(","), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()), Self::unwind(unwind))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let _ = write!(o, "],\"t\":{},\"sp\":{}}}", tt, q(&sp));
        }
        o.push(']');
        o
    }
}

fn dump() -> ControlFlow<()> {
    let path = std::env::var("VERIF_DUMP").unwrap();
    let maxd: u32 = std::env::var("VERIF_DUMP_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let mut d = Dump { tyids: HashMap::new(), tyq: VecDeque::new(), types: vec![], insts: HashMap::new(), instq: VecDeque::new(), depth: 0 };
    let local = rustc_public::local_crate();
    let mut statics = Vec::new();
    let mut generic_fns = Vec::new();
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() { generic_fns.push(it.name().to_string()); continue; }
                if let Ok(i) = Instance::try_from(it) { d.depth = 0; let _ = d.inst(i); }
            }
            ItemKind::Static => { let t = d.ty(it.ty()); statics.push(format!("[{},{},{}]", q(&it.name()), q(&Dump::span(&it.span())), t)); }
            _ => {}
        }
    }
    // all local ADTs without generics go into the type table
    let mut adts = Vec::new();
    for a in local.adts() {
        let t = a.ty();
        if matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(_, ref g)) if g.0.iter().all(|k| !matches!(k, GenericArgKind::Type(_)))) {
            adts.push(d.ty(t));
        }
    }
    let mut out: Vec<(usize, String)> = Vec::new();
    loop {
        d.emit_types();
        let Some((i, depth)) = d.instq.pop_front() else { break };
        d.depth = depth;
        let id = d.insts[&i];
        let krate = i.def.krate().name.clone();
        let is_local = i.def.krate() == local;
        let follow = is_local || krate == "nom" || krate == "escape8259";
        let mut s = format!("\"name\":{},\"def\":{},\"crate\":{},\"local\":{},\"kind\":{},\"args\":{},\"span\":{}",
            q(&i.name()), q(&i.def.name()), q(&krate), is_local, q(&format!("{:?}", i.kind)), d.args(&i.args()), q(&Dump::span(&i.def.span())));
        let want = follow || (depth <= maxd && strip_crate_ok(&krate) && !matches!(i.kind, InstanceKind::Virtual { .. }));
        if follow { d.depth = 0; }
        if want {
            if let Some(b) = i.body() { let b = d.body(&b); s.push(','); s.push_str(&b); }
        }
        out.push((id, format!("{{{}}}", s)));
    }
    d.emit_types();
    out.sort();
    let mut o = String::new();
    o.push_str("{\"crate\":"); o.push_str(&q(&local.name));
    o.push_str(",\"statics\":["); o.push_str(&statics.join(",")); o.push_str("],\"generic_fns\":");
    o.push_str(&arr(&generic_fns, |x| q(x)));
    o.push_str(",\"adts\":"); o.push_str(&arr(&adts, |x| x.to_string()));
    o.push_str(",\n\"types\":[\n");
    for (i, t) in d.types.iter().enumerate() { if i > 0 { o.push_str(",\n"); } o.push_str(t.as_deref().unwrap_or("null")); }
    o.push_str("],\n\"fns\":[\n");
    for (i, (_, t)) in out.iter().enumerate() { if i > 0 { o.push_str(",\n"); } o.push_str(t); }
    o.push_str("]}\n");
    std::fs::write(&path, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let want = std::env::var("VERIF_DUMP").is_ok() && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "cddl_cat")
        && !args.iter().any(|a| a == "--test");
    if !want {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("--force-warn=unsafe_code".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    let r = run!(&args, dump);
    if let Err(e) = r { eprintln!("driver: {:?}", e); std::process::exit(1); }
}
