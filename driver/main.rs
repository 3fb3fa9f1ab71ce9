// MIR dumper: a rustc driver (run by cargo through RUSTC_WORKSPACE_WRAPPER) that writes the
// monomorphised MIR of every non-generic function of the crate, and of every function reachable
// from them whose MIR is available, as JSON.  Callees are resolved, constants decoded, types interned.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

#[derive(Default)]
struct Cx {
    types: Vec<String>,
    tyids: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<Instance>,
    statics: Vec<(String, String)>,
    seen_statics: HashSet<String>,
}

fn skip_body(name: &str) -> bool {
    // formatting, panicking and allocation internals are modelled, never analysed
    const P: &[&str] = &[
        "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::rt", "std::panicking", "alloc::alloc", "std::alloc",
        "alloc::raw_vec", "std::io", "std::fs", "std::sys", "std::thread", "std::sync", "core::sync", "std::env", "std::path",
        "std::collections", "hashbrown", "std::hash", "core::hash", "core::unicode", "core::str", "alloc::str", "alloc::string", 
        "flate2", "sha2", "digest", "getrandom", "std::process", "core::num::flt2dec", "core::num::dec2flt", "core::intrinsics",
    ];
    let n = name.trim_start_matches('<').trim_start_matches('&');
    P.iter().any(|p| n.starts_with(p))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) { return *i; }
        let id = self.types.len();
        self.tyids.insert(t, id);
        self.types.push(String::from("null"));
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.to_string(),
                RigidTy::Char => r#"{"k":"char"}"#.to_string(),
                RigidTy::Int(i) => format!(r#"{{"k":"int","b":{}}}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#"{{"k":"uint","b":{}{}}}"#, i.num_bytes() * 8, if matches!(i, UintTy::Usize) { r#","sz":1"# } else { "" }),
                RigidTy::Float(_) => r#"{"k":"float"}"#.to_string(),
                RigidTy::Str => r#"{"k":"str"}"#.to_string(),
                RigidTy::Never => r#"{"k":"never"}"#.to_string(),
                RigidTy::Array(e, n) => { let e = self.ty(e); format!(r#"{{"k":"array","e":{},"n":{}}}"#, e, n.eval_target_usize().map(|x| x as i128).unwrap_or(-1)) }
                RigidTy::Slice(e) => { let e = self.ty(e); format!(r#"{{"k":"slice","e":{}}}"#, e) }
                RigidTy::RawPtr(e, _) => { let e = self.ty(e); format!(r#"{{"k":"ptr","e":{}}}"#, e) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!(r#"{{"k":"ref","e":{},"m":{}}}"#, e, matches!(m, Mutability::Mut) as u8) }
                RigidTy::Tuple(ts) => { let l = list(ts, |t| self.ty(t).to_string()); format!(r#"{{"k":"tuple","f":{}}}"#, l) }
                RigidTy::Adt(d, a) => {
                    let name = d.name();
                    let kind = format!("{:?}", d.kind());
                    let al = self.gargs(&a);
                    let vs = list(d.variants(), |v| {
                        let fs = list(v.fields(), |f| { let t = self.ty(f.ty_with_args(&a)); format!("[{},{}]", esc(&f.name), t) });
                        let discr = if kind == "Enum" { format!("{}", d.discriminant_for_variant(v.idx()).val) } else { "0".into() };
                        format!(r#"{{"n":{},"f":{},"d":{}}}"#, esc(&v.name()), fs, discr)
                    });
                    format!(r#"{{"k":"adt","n":{},"kind":{},"a":{},"v":{}}}"#, esc(&name), esc(&kind), al, vs)
                }
                RigidTy::FnDef(d, a) => {
                    let al = self.gargs(&a);
                    let (key, name) = match Instance::resolve(d, &a) {
                        Ok(i) => { self.enqueue(i); (i.mangled_name(), i.name()) }
                        Err(_) => (String::new(), String::new()),
                    };
                    format!(r#"{{"k":"fndef","key":{},"n":{},"d":{},"a":{}}}"#, esc(&key), esc(&name), esc(&d.name()), al)
                }
                RigidTy::Closure(d, a) => {
                    let key = match Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                        Ok(i) => { self.enqueue(i); i.mangled_name() }
                        Err(_) => String::new(),
                    };
                    format!(r#"{{"k":"closure","key":{},"n":{}}}"#, esc(&key), esc(&d.name()))
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.to_string(),
                RigidTy::Dynamic(..) => format!(r#"{{"k":"dyn","s":{}}}"#, esc(&format!("{}", t))),
                _ => format!(r#"{{"k":"other","s":{}}}"#, esc(&format!("{}", t))),
            },
            _ => format!(r#"{{"k":"other","s":{}}}"#, esc(&format!("{}", t))),
        };
        // attach the printed type
        let disp = format!("{}", t);
        let s = format!("{},\"s\":{}}}", &s[..s.len() - 1], esc(&disp)).replace("{\"k\":\"other\",\"s\"", "{\"k\":\"other\",\"s0\"").replace("{\"k\":\"dyn\",\"s\"", "{\"k\":\"dyn\",\"s0\"");
        self.types[id] = s;
        id
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!(r#"{{"c":{}}}"#, c.eval_target_usize().map(|x| x as i128).unwrap_or(-1))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        list(v, |x| x)
    }
    fn enqueue(&mut self, i: Instance) {
        if self.seen.insert(i) { self.queue.push_back(i); }
    }

    // ---- constants -------------------------------------------------------
    fn bytes_int(b: &[Option<u8>]) -> Option<u128> {
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            match x { Some(x) => v |= (*x as u128) << (8 * i), None => return None }
        }
        Some(v)
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return r#"{"opaque":"deep"}"#.into(); }
        let layout = match t.layout() { Ok(l) => l.shape(), Err(_) => return r#"{"opaque":"layout"}"#.into() };
        let size = layout.size.bytes();
        let int = |o: usize, n: usize| -> Option<u128> { if o + n <= a.bytes.len() { Self::bytes_int(&a.bytes[o..o + n]) } else { None } };
        let k = match t.kind() { TyKind::RigidTy(r) => r, _ => return r#"{"opaque":"kind"}"#.into() };
        match k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Int(_) => match int(off, size) {
                Some(v) => format!("{}", v),
                None => r#"{"opaque":"uninit"}"#.into(),
            },
            RigidTy::FnDef(..) | RigidTy::Closure(..) => { let id = self.ty(t); format!(r#"{{"zst":{}}}"#, id) }
            RigidTy::Tuple(ts) => {
                let offs: Vec<usize> = match &layout.fields { rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; ts.len()] };
                let l = list(ts.into_iter().enumerate(), |(i, t)| self.decode(a, off + offs[i], t, depth + 1));
                format!(r#"{{"agg":{}}}"#, l)
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 100000 { return r#"{"opaque":"big"}"#.into(); }
                let l = list(0..n, |i| self.decode(a, off + i * es, e, depth + 1));
                format!(r#"{{"arr":{}}}"#, l)
            }
            RigidTy::Adt(d, args) => {
                let id = self.ty(t);
                if format!("{:?}", d.kind()) == "Enum" {
                    use rustc_public::abi::*;
                    let vidx = match &layout.variants {
                        VariantsShape::Single { index } => index.to_index(),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let tsize = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                            let toff = match &layout.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let tv = match int(off + toff, tsize) { Some(v) => v, None => return r#"{"opaque":"tag"}"#.into() };
                            match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = usize::MAX;
                                    for v in d.variants() { if d.discriminant_for_variant(v.idx()).val == tv { r = v.idx().to_index(); } }
                                    if r == usize::MAX { return r#"{"opaque":"tag"}"#.into(); }
                                    r
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                    let m = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let (lo, hi) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                    if ptr || rel > (hi - lo) as u128 { untagged_variant.to_index() } else { lo + rel as usize }
                                }
                            }
                        }
                        _ => return r#"{"opaque":"novar"}"#.into(),
                    };
                    let v = d.variants()[vidx];
                    let offs: Vec<usize> = match &layout.variants {
                        VariantsShape::Multiple { variants, .. } => variants[vidx].offsets.iter().map(|o| o.bytes()).collect(),
                        _ => match &layout.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] },
                    };
                    let l = list(v.fields().into_iter().enumerate(), |(i, f)| { let o = offs.get(i).copied().unwrap_or(0); self.decode(a, off + o, f.ty_with_args(&args), depth + 1) });
                    return format!(r#"{{"adt":{},"v":{},"f":{}}}"#, id, vidx, l);
                }
                if format!("{:?}", d.kind()) == "Union" { return r#"{"opaque":"union"}"#.into(); }
                let offs: Vec<usize> = match &layout.fields { rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                let vs = d.variants();
                let l = list(vs[0].fields().into_iter().enumerate(), |(i, f)| { let o = offs.get(i).copied().unwrap_or(0); self.decode(a, off + o, f.ty_with_args(&args), depth + 1) });
                format!(r#"{{"adt":{},"v":0,"f":{}}}"#, id, l)
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                let Some((_, prov)) = p else { return r#"{"opaque":"noprov"}"#.into() };
                let start = int(off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => {
                        match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = int(off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = m.bytes[start..start + n].iter().map(|x| x.unwrap_or(0)).collect();
                                format!(r#"{{"str":{}}}"#, esc(&String::from_utf8_lossy(&b)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = int(off + 8, 8).unwrap_or(0) as usize;
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let l = list(0..n, |i| self.decode(&m, start + i * es, el, depth + 1));
                                format!(r#"{{"ref":{{"arr":{}}}}}"#, l)
                            }
                            _ => format!(r#"{{"ref":{}}}"#, self.decode(&m, start, e, depth + 1)),
                        }
                    }
                    GlobalAlloc::Static(s) => { self.static_(s); format!(r#"{{"static":{}}}"#, esc(&s.name())) }
                    GlobalAlloc::Function(i) => { self.enqueue(i); format!(r#"{{"fn":{},"n":{}}}"#, esc(&i.mangled_name()), esc(&i.name())) }
                    _ => r#"{"opaque":"galloc"}"#.into(),
                }
            }
            _ => r#"{"opaque":"ty"}"#.into(),
        }
    }
    fn static_(&mut self, s: StaticDef) {
        let n = s.name();
        if !self.seen_statics.insert(n.clone()) { return; }
        let t = s.ty();
        let id = self.ty(t);
        let v = match s.eval_initializer() { Ok(a) => self.decode(&a, 0, t, 0), Err(_) => r#"{"opaque":"static"}"#.into() };
        self.statics.push((n, format!(r#"{{"t":{},"v":{}}}"#, id, v)));
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let id = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::Adt(..)) => format!(r#"{{"adt":{},"v":0,"f":[]}}"#, id),
                TyKind::RigidTy(RigidTy::Tuple(..)) => r#"{"agg":[]}"#.into(),
                _ => format!(r#"{{"zst":{}}}"#, id),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => self.decode(a, 0, *ty, 0),
                TyConstKind::ZSTValue(_) => format!(r#"{{"zst":{}}}"#, id),
                _ => match tc.eval_target_usize() { Ok(v) => format!("{}", v), Err(_) => r#"{"opaque":"tyconst"}"#.into() },
            },
            _ => r#"{"opaque":"const"}"#.into(),
        };
        format!(r#"{{"t":{},"v":{}}}"#, id, v)
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let pr = list(&p.projection, |e| match e {
            ProjectionElem::Deref => r#""*""#.to_string(),
            ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!(r#"["f",{},{}]"#, i, t) }
            ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["c",{},{},{}]"#, offset, min_length, *from_end as u8),
            ProjectionElem::Subslice { from, to, from_end } => format!(r#"["s",{},{},{}]"#, from, to, *from_end as u8),
            ProjectionElem::Downcast(v) => format!(r#"["d",{}]"#, v.to_index()),
            ProjectionElem::OpaqueCast(_) => r#"["o"]"#.to_string(),
            #[allow(unreachable_patterns)]
            _ => r#"["o"]"#.to_string(),
        });
        format!("[{},{}]", p.local, pr)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"c":{}}}"#, self.place(p)),
            Operand::Move(p) => format!(r#"{{"m":{}}}"#, self.place(p)),
            Operand::Constant(c) => format!(r#"{{"k":{}}}"#, self.konst(&c.const_)),
            #[allow(unreachable_patterns)]
            x => format!(r#"{{"rt":{}}}"#, esc(&format!("{:?}", x))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.op(o)),
            Rvalue::Repeat(o, n) => format!(r#"["rep",{},{}]"#, self.op(o), n.eval_target_usize().map(|x| x as i128).unwrap_or(-1)),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::AddressOf(_, p) => format!(r#"["ref",2,{}]"#, self.place(p)),
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!(r#"["cast",{},{},{}]"#, esc(&format!("{:?}", k)), self.op(o), t) }
            Rvalue::BinaryOp(b, x, y) => format!(r#"["bin",{},{},{}]"#, esc(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(r#"["cbin",{},{},{}]"#, esc(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, o) => format!(r#"["un",{},{}]"#, esc(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops, |o| self.op(o));
                match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!(r#"["array",{},{}]"#, t, os) }
                    AggregateKind::Tuple => format!(r#"["tuple",{}]"#, os),
                    AggregateKind::Adt(d, v, a, _, u) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone())));
                        format!(r#"["adt",{},{},{},{}]"#, t, v.to_index(), os, u.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone())));
                        format!(r#"["closure",{},{}]"#, t, os)
                    }
                    _ => format!(r#"["aggother",{}]"#, os),
                }
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",{{"c":{}}}]"#, self.place(p)),
            Rvalue::ThreadLocalRef(_) => r#"["tls"]"#.to_string(),
            #[allow(unreachable_patterns)]
            x => format!(r#"["other",{}]"#, esc(&format!("{:?}", x))),
        }
    }
    fn body(&mut self, i: Instance, b: &Body) -> String {
        let locals = list(b.locals(), |l| self.ty(l.ty).to_string());
        let nargs = b.arg_locals().len();
        let blocks = list(&b.blocks, |bb| {
            let stmts = list(
                bb.statements.iter().filter(|s| matches!(s.kind, StatementKind::Assign(..) | StatementKind::SetDiscriminant { .. } | StatementKind::Intrinsic(_))),
                |s| match &s.kind {
                    StatementKind::Assign(p, r) => format!("[{},{},{}]", self.place(p), self.rv(r), s.source_info.span.get_lines().start_line),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(r#"["setd",{},{}]"#, self.place(place), variant_index.to_index()),
                    StatementKind::Intrinsic(x) => format!(r#"["intr",{}]"#, esc(&format!("{:?}", x))),
                    _ => unreachable!(),
                },
            );
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{}]"#, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches(), |(v, t)| format!("[{},{}]", v, t));
                    format!(r#"["switch",{},{},{}]"#, self.op(discr), br, targets.otherwise())
                }
                TerminatorKind::Return => r#"["ret"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreach"]"#.to_string(),
                TerminatorKind::Resume | TerminatorKind::Abort => r#"["abort"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"["drop",{},{}]"#, self.place(place), target),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!(r#"["assert",{},{},{},{}]"#, self.op(cond), *expected as u8, target, esc(&m))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ar = list(args, |o| self.op(o));
                    let dest = self.place(destination);
                    let t = target.map(|x| x as i64).unwrap_or(-1);
                    let fty = func.ty(b.locals());
                    let callee = match fty.map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            let al = self.gargs(&a);
                            match Instance::resolve(d, &a) {
                                Ok(inst) => {
                                    let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intr", InstanceKind::Virtual { .. } => "virt", InstanceKind::Shim => "shim", _ => "other" };
                                    self.enqueue(inst);
                                    format!(r#"{{"key":{},"n":{},"d":{},"rd":{},"a":{},"kind":{}}}"#, esc(&inst.mangled_name()), esc(&inst.name()), esc(&d.name()), esc(&inst.def.name()), al, esc(kind))
                                }
                                Err(_) => format!(r#"{{"key":"","n":"","d":{},"rd":"","a":{},"kind":"unres"}}"#, esc(&d.name()), al),
                            }
                        }
                        _ => format!(r#"{{"key":"","n":"","d":"","rd":"","a":[],"kind":"ptr","op":{}}}"#, self.op(func)),
                    };
                    format!(r#"["call",{},{},{},{}]"#, callee, ar, dest, t)
                }
                x => format!(r#"["other",{}]"#, esc(&format!("{:?}", x))),
            };
            format!(r#"{{"s":{},"t":{},"l":{}}}"#, stmts, term, line)
        });
        let names = list(b.var_debug_info.iter().filter_map(|v| match &v.value { VarDebugInfoContents::Place(p) => Some((v.name.clone(), p.clone())), _ => None }), |(n, p)| format!("[{},{}]", esc(&n), self.place(&p)));
        let file = i.def.span().get_filename();
        format!(r#"{{"n":{},"d":{},"file":{},"nargs":{},"locals":{},"blocks":{},"names":{}}}"#, esc(&i.name()), esc(&i.def.name()), esc(&file), nargs, locals, blocks, names)
    }
}

fn analyze() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let mut cx = Cx::default();
    let mut roots = vec![];
    let mut consts = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn | ItemKind::Ctor(_) => {
                if let Ok(i) = Instance::try_from(it) { cx.enqueue(i); roots.push((i.mangled_name(), it.name())); }
            }
            ItemKind::Const => {
                let name = it.name();
                if it.requires_monomorphization() { continue; }
                let t = it.ty();
                if let Ok(i) = Instance::try_from(it) {
                    if let Ok(a) = i.try_const_eval(t) {
                        let id = cx.ty(t);
                        let v = cx.decode(&a, 0, t, 0);
                        consts.push((name, format!(r#"{{"t":{},"v":{},"file":{}}}"#, id, v, esc(&it.span().get_filename()))));
                    }
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it) { cx.static_(s); }
            }
        }
    }
    let dir = std::env::var("MIRDUMP_DIR").unwrap();
    let mut out = String::from("{\"bodies\":{\n");
    let mut first = true;
    while let Some(i) = cx.queue.pop_front() {
        let name = i.name();
        if skip_body(&name) || skip_body(&i.def.name()) { continue; }
        let Some(b) = i.body() else { continue };
        let s = cx.body(i, &b);
        if !first { out.push_str(",\n"); }
        first = false;
        let _ = write!(out, "{}:{}", esc(&i.mangled_name()), s);
    }
    out.push_str("},\n\"types\":[\n");
    for (n, t) in cx.types.iter().enumerate() {
        if n > 0 { out.push_str(",\n"); }
        out.push_str(t);
    }
    out.push_str("],\n\"consts\":{");
    for (n, (k, v)) in consts.iter().enumerate() {
        if n > 0 { out.push_str(",\n"); }
        let _ = write!(out, "{}:{}", esc(k), v);
    }
    out.push_str("},\n\"statics\":{");
    for (n, (k, v)) in cx.statics.iter().enumerate() {
        if n > 0 { out.push_str(",\n"); }
        let _ = write!(out, "{}:{}", esc(k), v);
    }
    let _ = write!(out, "}},\n\"roots\":{},\n\"crate\":{}}}", list(roots, |(k, n)| format!("[{},{}]", esc(&k), esc(&n))), esc(&krate.name));
    let suffix = std::env::var("MIRDUMP_SUFFIX").unwrap_or_default();
    std::fs::write(format!("{}/{}{}.json", dir, krate.name, suffix), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc itself
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if want.split(',').any(|c| c == name) && !test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zalways-encode-mir".into());
        let r = run!(&args, analyze);
        match r {
            Ok(_) => std::process::exit(0),
            Err(e) => { eprintln!("driver: {:?}", e); std::process::exit(1) }
        }
    }
    // not one of the crates to analyse: the real compiler
    let rustc = std::env::args().nth(1).expect("rustc path");
    let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
    std::process::exit(st.code().unwrap_or(1));
}
//
