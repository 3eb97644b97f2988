//! Compiler driver: dumps the monomorphic MIR of a workspace crate (and of the library bodies the
//! analyses look through) as JSON. Runs as RUSTC_WORKSPACE_WRAPPER; does nothing but compile when
//! MIRDUMP_OUT is unset or the crate is not one of the analysed ones.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct D {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    fns: HashMap<String, usize>,
    fn_out: Vec<String>,
    queue: VecDeque<(Instance, String)>,
    seen: HashSet<String>,
    consts: Vec<String>,
}

const WS: &[&str] = &[
    "oraiswap_v3", "oraiswap_v3_common", "oraiswap_v3_wasm", "decimal", "decimal_core", "traceable_result", "oraiswap_v3_middleware", "verif_probe",
];
const CORE_MODS: &[&str] = &[
    "option", "result", "convert", "ops", "cmp", "clone", "default", "bool", "mem", "tuple", "borrow", "any",
];

fn krate_of(path: &str) -> &str {
    path.split("::").next().unwrap_or("").trim_start_matches('<')
}

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_str(t);
        self.ty_out[i] = s;
        i
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into())))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_str(&mut self, t: Ty) -> String {
        let k = t.kind();
        let r = match k {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"s\":1}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"s\":0}}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"s\":{}}}", esc(&format!("{:?}", f))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), (m == Mutability::Mut) as u8),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), (m == Mutability::Mut) as u8),
            RigidTy::Tuple(v) => {
                let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(v))
            }
            RigidTy::Adt(def, args) => {
                let name = def.name().to_string();
                let a = self.args(&args);
                let kind = format!("{:?}", def.kind()).to_lowercase();
                let mut vs = vec![];
                if kind != "union" {
                    for v in def.variants() {
                        let d = if kind == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft))
                            })
                            .collect();
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name().to_string()), esc(&d), arr(fs)));
                    }
                }
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":{},\"ak\":{},\"v\":{}}}", esc(&name), a, esc(&kind), arr(vs))
            }
            RigidTy::FnDef(def, args) => {
                let a = self.args(&args);
                let inst = Instance::resolve(def, &args).ok();
                let (id, nm) = match inst {
                    Some(i) => (self.inst(i), i.name().to_string()),
                    None => ("".into(), def.name().to_string()),
                };
                format!("{{\"k\":\"fndef\",\"n\":{},\"a\":{},\"id\":{},\"iname\":{}}}", esc(&def.name().to_string()), a, esc(&id), esc(&nm))
            }
            RigidTy::Closure(def, args) => {
                let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok();
                let inst2 = Instance::resolve_closure(def, &args, ClosureKind::Fn).ok();
                let a = inst.map(|i| self.inst(i)).unwrap_or_default();
                let b = inst2.map(|i| self.inst(i)).unwrap_or_default();
                // captured types: last generic arg is the tuple of upvars
                let mut up = String::from("[]");
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                        let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                        up = arr(v);
                    }
                }
                format!("{{\"k\":\"closure\",\"n\":{},\"once\":{},\"fn\":{},\"up\":{}}}", esc(&def.name().to_string()), esc(&a), esc(&b), up)
            }
            RigidTy::Dynamic(p, _) => {
                let mut n = String::new();
                for x in p {
                    if let ExistentialPredicate::Trait(t) = x.value {
                        n = t.def_id.name().to_string();
                    }
                }
                format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&n))
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn inst(&mut self, i: Instance) -> String {
        let id = i.mangled_name().to_string();
        if self.seen.insert(id.clone()) {
            self.queue.push_back((i, id.clone()));
        }
        id
    }
    fn span(&self, s: &Span) -> (String, usize) {
        (s.get_filename().to_string(), s.get_lines().start_line)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, *from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, *from_end as u8),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn read_val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let opaque = |a: &Allocation| -> String {
            let mut h = String::new();
            for b in a.bytes.iter() {
                match b {
                    Some(b) => {
                        let _ = write!(h, "{:02x}", b);
                    }
                    None => h.push_str("__"),
                }
            }
            format!("{{\"raw\":{},\"off\":{}}}", esc(&h), off)
        };
        if depth > 12 {
            return opaque(a);
        }
        let ri = |sz: usize| a.read_partial_uint(off..off + sz);
        let Some(r) = t.kind().rigid().cloned() else { return opaque(a) };
        match r {
            RigidTy::Bool => match ri(1) { Ok(v) => format!("{{\"b\":{}}}", v), _ => opaque(a) },
            RigidTy::Char => match ri(4) { Ok(v) => format!("{{\"i\":\"{}\"}}", v), _ => opaque(a) },
            RigidTy::Int(i) => match ri(i.num_bytes()) {
                Ok(v) => {
                    let bits = i.num_bytes() * 8;
                    let s = if bits == 128 { v as i128 } else if v >> (bits - 1) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    format!("{{\"i\":\"{}\"}}", s)
                }
                _ => opaque(a),
            },
            RigidTy::Uint(i) => match ri(i.num_bytes()) { Ok(v) => format!("{{\"i\":\"{}\"}}", v), _ => opaque(a) },
            RigidTy::Tuple(v) => {
                let Ok(l) = t.layout() else { return opaque(a) };
                let sh = l.shape();
                let mut fs = vec![];
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    for (k, ft) in v.iter().enumerate() {
                        fs.push(self.read_val(a, off + offsets[k].bytes(), *ft, depth + 1));
                    }
                }
                format!("{{\"t\":{}}}", arr(fs))
            }
            RigidTy::Array(e, n) => {
                let Ok(n) = n.eval_target_usize() else { return opaque(a) };
                let Ok(l) = e.layout() else { return opaque(a) };
                let sz = l.shape().size.bytes();
                if n > 4096 { return opaque(a); }
                let mut fs = vec![];
                for k in 0..n as usize {
                    fs.push(self.read_val(a, off + k * sz, e, depth + 1));
                }
                format!("{{\"arr\":{}}}", arr(fs))
            }
            RigidTy::Adt(def, args) => {
                let Ok(l) = t.layout() else { return opaque(a) };
                let sh = l.shape();
                let vs = def.variants();
                match &sh.variants {
                    VariantsShape::Single { index } => {
                        let Some(v) = vs.get(index.to_index()) else { return opaque(a) };
                        let mut fs = vec![];
                        match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                for (k, f) in v.fields().iter().enumerate() {
                                    let ft = f.ty_with_args(&args);
                                    fs.push(self.read_val(a, off + offsets[k].bytes(), ft, depth + 1));
                                }
                            }
                            _ => return opaque(a),
                        }
                        format!("{{\"adt\":{},\"f\":{}}}", index.to_index(), arr(fs))
                    }
                    VariantsShape::Multiple { tag_encoding, tag_field, tag, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return opaque(a) };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = {
                            use rustc_public::abi::{Primitive, Scalar};
                            let p = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                            match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => return opaque(a) }
                        };
                        let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let tagv = a.read_partial_uint(toff..toff + tsz);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let Ok(tv) = tagv else { return opaque(a) };
                                vs.iter().find(|v| {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    d & m == tv
                                }).map(|v| v.idx().to_index())
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    Some(untagged_variant.to_index())
                                } else {
                                    let Ok(tv) = tagv else { return opaque(a) };
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo { Some((lo + rel) as usize) } else { Some(untagged_variant.to_index()) }
                                }
                            }
                        };
                        let Some(idx) = idx else { return opaque(a) };
                        let Some(v) = vs.get(idx) else { return opaque(a) };
                        let mut fs = vec![];
                        let vl = &variants[idx];
                        for (k, f) in v.fields().iter().enumerate() {
                            let ft = f.ty_with_args(&args);
                            let fo = vl.offsets[k].bytes();
                            fs.push(self.read_val(a, off + fo, ft, depth + 1));
                        }
                        format!("{{\"adt\":{},\"f\":{}}}", idx, arr(fs))
                    }
                    _ => opaque(a),
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return opaque(a) };
                let addend = ri(8).unwrap_or(0) as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match e.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            match m.raw_bytes() {
                                Ok(b) if addend + len <= b.len() => format!("{{\"ref\":{{\"s\":{}}}}}", esc(&String::from_utf8_lossy(&b[addend..addend + len]))),
                                _ => opaque(a),
                            }
                        }
                        Some(RigidTy::Slice(el)) => {
                            let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            let Ok(l) = el.layout() else { return opaque(a) };
                            let sz = l.shape().size.bytes();
                            if len > 4096 { return opaque(a); }
                            let mut fs = vec![];
                            for k in 0..len {
                                fs.push(self.read_val(&m, addend + k * sz, *el, depth + 1));
                            }
                            format!("{{\"ref\":{{\"arr\":{}}}}}", arr(fs))
                        }
                        Some(RigidTy::Dynamic(..)) => opaque(a),
                        _ => format!("{{\"ref\":{}}}", self.read_val(&m, addend, e, depth + 1)),
                    },
                    GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&s.name().to_string())),
                    GlobalAlloc::Function(i) => {
                        let id = self.inst(i);
                        format!("{{\"fnptr\":{}}}", esc(&id))
                    }
                    _ => opaque(a),
                }
            }
            RigidTy::FnPtr(_) => {
                if let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov.0) {
                        let id = self.inst(i);
                        return format!("{{\"fnptr\":{}}}", esc(&id));
                    }
                }
                opaque(a)
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"z\":1}".into(),
            _ => opaque(a),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
            ConstantKind::Allocated(a) => self.read_val(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.read_val(a, 0, t, 0),
                TyConstKind::ZSTValue(_) => "{\"z\":1}".to_string(),
                _ => "{\"raw\":\"tyconst\"}".to_string(),
            },
            ConstantKind::Unevaluated(u) => format!("{{\"uneval\":{}}}", esc(&u.def.name().to_string())),
            ConstantKind::Param(p) => format!("{{\"param\":{}}}", esc(&p.name)),
        };
        format!("[\"k\",{},{}]", ti, v)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::AddressOf(k, p) => format!("[\"ref\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"chk\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(a)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{}]", self.ty(t), vi.to_index())
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn wanted(&self, i: &Instance) -> bool {
        let n = i.def.name().to_string();
        let k = krate_of(&n).to_string();
        if WS.contains(&k.as_str()) {
            return true;
        }
        // trait impl paths print as `<X as core::..>::f`; use the crate of the definition
        let c = i.def.krate().name.to_string();
        if WS.contains(&c.as_str()) {
            return true;
        }
        if matches!(i.kind, InstanceKind::Shim) {
            return !n.contains("drop_in_place");
        }
        if c == "core" {
            let f = i.def.span().get_filename().to_string();
            return CORE_MODS.iter().any(|m| f.contains(&format!("/core/src/{}.rs", m)) || f.contains(&format!("/core/src/{}/", m)));
        }
        if let Ok(x) = std::env::var("MIRDUMP_EXTRA") {
            return x.split(',').any(|p| !p.is_empty() && (c == p || n.starts_with(p)));
        }
        false
    }
    fn emit(&mut self, i: Instance, id: String) {
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let want = self.wanted(&i) && i.has_body() && !matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. });
        let body = if want { i.body() } else { None };
        let kind = format!("{:?}", i.kind);
        let targs = self.args(&i.args());
        let hdr = format!("\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"targs\":{}", esc(&id), esc(&name), esc(&def), esc(&krate), esc(&kind), targs);
        let Some(b) = body else {
            self.fn_out.push(format!("{{{}}}", hdr));
            return;
        };
        let (file, line) = self.span(&b.span);
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                if let StatementKind::Assign(p, r) = &s.kind {
                    let (_, ln) = self.span(&s.source_info.span);
                    st.push(format!("[{},{},{}]", self.place(p), self.rvalue(r), ln));
                }
            }
            let (tf, ln) = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t)).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", target, self.place(place)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, arr(a), d, target.map(|t| t as i64).unwrap_or(-1))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), *expected as u8, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".to_string(),
            };
            let tfs = if tf == file { "".to_string() } else { format!(",{}", esc(&tf)) };
            blocks.push(format!("[{},{},{}{}]", arr(st), t, ln, tfs));
        }
        let spread = b.spread_arg().map(|x| x as i64).unwrap_or(-1);
        self.fn_out.push(format!(
            "{{{},\"file\":{},\"line\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}}}",
            hdr, esc(&file), line, b.arg_locals().len(), spread, arr(locals), arr(dbg), arr(blocks)
        ));
    }
}

fn dump(out: &str) {
    let mut d = D::default();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) || it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = d.inst(i);
            roots.push(esc(&id));
        }
    }
    while let Some((i, id)) = d.queue.pop_front() {
        d.emit(i, id);
    }
    let krate = rustc_public::local_crate().name.to_string();
    let path = format!("{}/{}.json", out, krate);
    let s = format!("{{\"crate\":{},\"roots\":{},\"types\":[\n{}\n],\"fns\":[\n{}\n]}}\n", esc(&krate), arr(roots), d.ty_out.join(",\n"), d.fn_out.join(",\n"));
    let _ = (&d.fns, &d.consts);
    std::fs::write(path, s).expect("write dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // RUSTC_WORKSPACE_WRAPPER: first argument is the path of rustc
    if args.first().map(|a| a.ends_with("rustc")).unwrap_or(false) {
        args.remove(0);
    }
    let mut full = vec!["rustc".to_string()];
    full.extend(args);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let crate_name = full.iter().position(|a| a == "--crate-name").and_then(|i| full.get(i + 1)).cloned().unwrap_or_default();
    let is_test = full.iter().any(|a| a == "--test");
    let is_bs = crate_name == "build_script_build";
    let on = !out.is_empty() && WS.contains(&crate_name.as_str()) && !is_test && !is_bs;
    let r = run!(&full, || {
        if on {
            dump(&out);
        }
        ControlFlow::<(), ()>::Continue(())
    });
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
