//! rustc driver: compiles the crate as cargo asks for, and dumps the type-checked,
//! monomorphised MIR of every parser (and everything it reaches in weedle and nom)
//! as JSON for the analyser.  Nothing of the compiled crate is ever run.
#![feature(rustc_private)]
#![allow(internal_features)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_middle::ty as ity;
use rustc_middle::ty::TyCtxt as Tcx;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

// ---------------------------------------------------------------- tiny JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
fn emit(j: &J, o: &mut String) {
    match j {
        J::Null => o.push_str("null"),
        J::B(b) => o.push_str(if *b { "true" } else { "false" }),
        J::N(v) => {
            let _ = write!(o, "{}", v);
        }
        J::S(v) => {
            o.push('"');
            for c in v.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 0x20 => {
                        let _ = write!(o, "\\u{:04x}", c as u32);
                    }
                    c => o.push(c),
                }
            }
            o.push('"');
        }
        J::A(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                emit(x, o);
            }
            o.push(']');
        }
        J::O(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(o, "\"{}\":", k);
                emit(x, o);
            }
            o.push('}');
        }
    }
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: Tcx<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    inst_out: Vec<J>,
    queue: VecDeque<Instance>,
}

fn krate_of(def: rustc_public::DefId) -> String {
    let nm = def.name().to_string();
    nm.split("::").next().unwrap_or("").to_string()
}

impl<'tcx> D<'tcx> {
    fn ipath(&self, d: rustc_span::def_id::DefId) -> (String, String) {
        // (crate, path) with the true defining crate, e.g. ("core", "core::str::<impl str>::len")
        let k = self.tcx.crate_name(d.krate).to_string();
        let p = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_crate_prefix!(self.tcx.def_path_str(d))
            )
        );
        let p = if d.krate == rustc_span::def_id::LOCAL_CRATE { p.replacen("crate::", &format!("{}::", k), 1) } else { p };
        (k, p)
    }
    fn dpath(&self, d: rustc_public::DefId) -> (String, String) {
        self.ipath(internal(self.tcx, d))
    }

    fn gargs(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(n(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(x) => s(format!("#{}", x)),
                    Err(_) => s("#?"),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(x) => {
                    o.push(("k", s("int")));
                    o.push(("n", s(format!("{:?}", x).to_lowercase())));
                    o.push(("bits", n(x.num_bytes() * 8)));
                }
                RigidTy::Uint(x) => {
                    o.push(("k", s("uint")));
                    o.push(("n", s(format!("{:?}", x).to_lowercase())));
                    o.push(("bits", n(x.num_bytes() * 8)));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Slice(t) => {
                    o.push(("k", s("slice")));
                    o.push(("t", n(self.ty(t))));
                }
                RigidTy::Array(t, c) => {
                    o.push(("k", s("array")));
                    o.push(("t", n(self.ty(t))));
                    o.push(("len", c.eval_target_usize().map(|x| J::N(x as i128)).unwrap_or(J::Null)));
                }
                RigidTy::Ref(_, t, m) => {
                    o.push(("k", s("ref")));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                    o.push(("t", n(self.ty(t))));
                }
                RigidTy::RawPtr(t, m) => {
                    o.push(("k", s("ptr")));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                    o.push(("t", n(self.ty(t))));
                }
                RigidTy::Tuple(ts) => {
                    o.push(("k", s("tuple")));
                    let v = ts.iter().map(|t| n(self.ty(*t))).collect();
                    o.push(("ts", J::A(v)));
                }
                RigidTy::Adt(def, args) => {
                    let (k, p) = self.dpath(def.def_id());
                    o.push(("k", s("adt")));
                    o.push(("crate", s(k)));
                    o.push(("path", s(p)));
                    o.push(("args", self.gargs(&args)));
                    o.push((
                        "ak",
                        s(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Union => "union",
                            AdtKind::Struct => "struct",
                        }),
                    ));
                    o.push(("box", J::B(def.is_box())));
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(J::A(vec![s(f.name.to_string()), n(self.ty(ft))]));
                        }
                        vs.push(J::O(vec![("n", s(v.name().to_string())), ("d", J::N(d as i128)), ("f", J::A(fs))]));
                    }
                    o.push(("vs", J::A(vs)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef")));
                    let c = self.callee(def, &args);
                    o.push(("callee", c));
                }
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure")));
                    let (k, p) = self.dpath(def.def_id());
                    o.push(("crate", s(k)));
                    o.push(("path", s(p)));
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce);
                    // the body itself, not the once-shim
                    let iargs = internal(self.tcx, &args);
                    let kind = iargs.as_closure().kind();
                    let ck = match kind {
                        ity::ClosureKind::Fn => ClosureKind::Fn,
                        ity::ClosureKind::FnMut => ClosureKind::FnMut,
                        ity::ClosureKind::FnOnce => ClosureKind::FnOnce,
                    };
                    let body = Instance::resolve_closure(def, &args, ck).or(inst);
                    if let Ok(b) = body {
                        let id = self.inst(b);
                        o.push(("inst", n(id)));
                    }
                    o.push((
                        "ck",
                        s(match kind {
                            ity::ClosureKind::Fn => "fn",
                            ity::ClosureKind::FnMut => "mut",
                            ity::ClosureKind::FnOnce => "once",
                        }),
                    ));
                    let up = iargs.as_closure().tupled_upvars_ty();
                    let up: Ty = stable(up);
                    o.push(("up", n(self.ty(up))));
                }
                RigidTy::FnPtr(sig) => {
                    o.push(("k", s("fnptr")));
                    let _ = sig;
                }
                RigidTy::Dynamic(..) => {
                    o.push(("k", s("dyn")));
                }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        let it = internal(self.tcx, t);
        let name = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_crate_prefix!(format!("{}", self.tcx.erase_and_anonymize_regions(it)))
            )
        );
        o.push(("s", s(name)));
        self.ty_out[i] = J::O(o);
        i
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> J {
        let (k, p) = self.dpath(def.def_id());
        let mut o = vec![("crate", s(k)), ("path", s(p)), ("args", self.gargs(args))];
        if let Some(i) = def.as_intrinsic() {
            o.push(("intrinsic", s(i.fn_name().to_string())));
        }
        if let Ok(inst) = Instance::resolve(def, args) {
            let id = self.inst(inst);
            o.push(("inst", n(id)));
        }
        J::O(o)
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_out.len();
        self.insts.insert(i, id);
        self.inst_out.push(J::Null);
        self.queue.push_back(i);
        id
    }

    fn descend(&self, krate: &str, path: &str) -> bool {
        let _ = krate;
        if krate == "weedle" || krate == "nom" {
            return true;
        }
        if krate == "core" || krate == "alloc" || krate == "std" {
            // small generic glue; everything else in std is modelled by the analyser
            for p in [
                "core::option::", "core::result::", "core::ops::", "core::convert::", "core::clone::",
                "core::cmp::", "core::default::", "core::iter::", "core::tuple::", "core::mem::",
                "core::char::", "core::bool::", "core::borrow::", "core::num::", "core::array::",
                "alloc::boxed::", "alloc::borrow::", "core::hint::", "core::ascii::", "core::unicode::",
                "core::str::pattern::", "core::hash::", "core::tuple", "core::intrinsics::",
            ] {
                if path.contains(p) {
                    return true;
                }
            }
            // trait impls print as "<X as core::..>::m"
            return path.starts_with('<') && !path.contains("core::fmt::");
        }
        false
    }

    fn span_of(&self, sp: Span) -> (String, usize) {
        let isp = internal(self.tcx, sp);
        let isp = isp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(isp.lo());
        (loc.file.name.prefer_local_unconditionally().to_string(), loc.line)
    }

    fn run_inst(&mut self, i: Instance) {
        let id = self.insts[&i];
        let (krate, path) = self.dpath(i.def.def_id());
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("crate", s(krate.clone())));
        o.push(("path", s(path.clone())));
        o.push(("name", s(i.name().to_string())));
        o.push(("kind", s(match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::Virtual { .. } => "virtual".to_string(),
            InstanceKind::Shim => "shim".to_string(),
            #[allow(unreachable_patterns)]
            _ => "other".to_string(),
        })));
        let args = i.args();
        o.push(("args", self.gargs(&args)));
        let desc = self.descend(&krate, &path) || matches!(i.kind, InstanceKind::Shim);
        let (f, l) = self.span_of(i.def.span());
        o.push(("file", s(f)));
        o.push(("line", n(l)));
        o.push(("descended", J::B(desc)));
        if desc && i.has_body() {
            if let Some(b) = i.body() {
                let b = self.body(&b);
                o.push(("body", b));
            }
        }
        self.inst_out[id] = J::O(o);
    }

    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals().iter().map(|l| n(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(b, x) {
                    st.push(j);
                }
            }
            let t = self.term(b, &bb.terminator);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t)]));
        }
        let mut o = vec![("locals", J::A(locals)), ("argc", n(b.arg_locals().len())), ("blocks", J::A(blocks))];
        if let Some(x) = b.spread_arg() {
            o.push(("spread", n(x)));
        }
        J::O(o)
    }

    fn place(&mut self, b: &Body, p: &Place) -> J {
        let _ = b;
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(*i), n(self.ty(*t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(*offset as usize), n(*min_length as usize), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(*from as usize), n(*to as usize), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), n(v.to_index())]),
                ProjectionElem::OpaqueCast(_) => s("oc"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, b: &Body, x: &Operand) -> J {
        match x {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(b, p)]),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.constant(&c.const_);
                J::A(vec![s("k"), n(t), v])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }

    fn constant(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => self.decode(a, 0, *ty, 0),
                TyConstKind::ZSTValue(ty) => self.zst(*ty),
                _ => s("?tyconst"),
            },
            _ => J::O(vec![("u", s("const"))]),
        }
    }

    fn zst(&mut self, t: Ty) -> J {
        let id = self.ty(t);
        J::O(vec![("zst", n(id))])
    }

    fn uint(&self, a: &Allocation, off: usize, size: usize) -> Option<u128> {
        if off + size > a.bytes.len() {
            return None;
        }
        let mut v: u128 = 0;
        for k in (0..size).rev() {
            v = (v << 8) | (a.bytes[off + k]? as u128);
        }
        Some(v)
    }

    fn unk(&self, w: &str) -> J {
        J::O(vec![("u", s(w))])
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        if depth > 12 {
            return self.unk("depth");
        }
        let TyKind::RigidTy(r) = t.kind() else { return self.unk("kind") };
        let lay = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return self.unk("layout"),
        };
        match r {
            RigidTy::Bool => match self.uint(a, off, 1) {
                Some(v) => J::O(vec![("b", J::B(v != 0))]),
                None => self.unk("bool"),
            },
            RigidTy::Char => match self.uint(a, off, 4) {
                Some(v) => J::O(vec![("c", J::N(v as i128))]),
                None => self.unk("char"),
            },
            RigidTy::Uint(u) => match self.uint(a, off, u.num_bytes()) {
                Some(v) => J::O(vec![("i", s(v.to_string()))]),
                None => self.unk("uint"),
            },
            RigidTy::Int(u) => match self.uint(a, off, u.num_bytes()) {
                Some(v) => {
                    let bits = u.num_bytes() * 8;
                    let v = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    J::O(vec![("i", s(v.to_string()))])
                }
                None => self.unk("int"),
            },
            RigidTy::Float(_) => self.unk("float"),
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off).map(|(_, p)| p.0);
                let addend = self.uint(a, off, 8).unwrap_or(0) as usize;
                let Some(aid) = prov else {
                    return self.unk("rawaddr");
                };
                match GlobalAlloc::from(aid) {
                    GlobalAlloc::Memory(m) => match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let Some(len) = self.uint(a, off + 8, 8) else { return self.unk("len") };
                            let b: Option<Vec<u8>> = m.bytes[addend..addend + len as usize].iter().copied().collect();
                            match b.and_then(|b| String::from_utf8(b).ok()) {
                                Some(x) => J::O(vec![("str", s(x))]),
                                None => self.unk("str"),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let Some(len) = self.uint(a, off + 8, 8) else { return self.unk("len") };
                            let Ok(el) = e.layout() else { return self.unk("el") };
                            let sz = el.shape().size.bytes();
                            let mut v = vec![];
                            for k in 0..len as usize {
                                v.push(self.decode(&m, addend + k * sz, e, depth + 1));
                            }
                            J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => self.unk("dyn"),
                        _ => {
                            let v = self.decode(&m, addend, inner, depth + 1);
                            J::O(vec![("ref", v)])
                        }
                    },
                    GlobalAlloc::Function(i) => {
                        let id = self.inst(i);
                        J::O(vec![("fn", n(id))])
                    }
                    GlobalAlloc::Static(d) => {
                        let (_, p) = self.dpath(d.def_id());
                        let mut o = vec![("static", s(p))];
                        let id = internal(self.tcx, d.def_id());
                        let t = self.tcx.type_of(id).instantiate_identity().skip_norm_wip();
                        let frozen = !self.tcx.is_mutable_static(id)
                            && t.is_freeze(self.tcx, ity::TypingEnv::fully_monomorphized());
                        if frozen && depth < 8 {
                            if let Ok(m) = d.eval_initializer() {
                                let v = self.decode(&m, addend, inner, depth + 1);
                                o.push(("ref", v));
                            }
                        }
                        J::O(o)
                    }
                    _ => self.unk("galloc"),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off).map(|(_, p)| p.0);
                if let Some(aid) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(aid) {
                        let id = self.inst(i);
                        return J::O(vec![("fn", n(id))]);
                    }
                }
                self.unk("fnptr")
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &lay.fields else {
                    return if ts.is_empty() { J::O(vec![("tup", J::A(vec![]))]) } else { self.unk("tupshape") };
                };
                let mut v = vec![];
                for (k, t) in ts.iter().enumerate() {
                    v.push(self.decode(a, off + offsets[k].bytes(), *t, depth + 1));
                }
                J::O(vec![("tup", J::A(v))])
            }
            RigidTy::Array(e, _) => {
                let FieldsShape::Array { stride, count } = &lay.fields else { return self.unk("arrshape") };
                let mut v = vec![];
                for k in 0..*count as usize {
                    v.push(self.decode(a, off + k * stride.bytes(), e, depth + 1));
                }
                J::O(vec![("arr", J::A(v))])
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) if lay.size.bytes() == 0 => self.zst(t),
            RigidTy::Adt(def, args) => {
                let (vi, offs): (usize, Vec<usize>) = match &lay.variants {
                    VariantsShape::Empty => return self.unk("empty"),
                    VariantsShape::Single { index } => {
                        let offs = match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            FieldsShape::Primitive => vec![],
                            _ => return self.unk("adtshape"),
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &lay.fields else { return self.unk("tagshape") };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                            rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o as usize == toff);
                        let tv = self.uint(a, toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return self.unk("tag") };
                                let mut r = None;
                                for v in def.variants_iter() {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d & mask == tv {
                                        r = Some(v.idx().to_index());
                                    }
                                }
                                match r {
                                    Some(x) => x,
                                    None => return self.unk("tagval"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(tv) = tv else { return self.unk("tag") };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if rel <= (hi - lo) as u128 {
                                        lo + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let vars = def.variants();
                let fields = vars[vi].fields();
                let mut v = vec![];
                for (k, f) in fields.iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    if k >= offs.len() {
                        return self.unk("offs");
                    }
                    v.push(self.decode(a, off + offs[k], ft, depth + 1));
                }
                let id = self.ty(t);
                J::O(vec![("adt", n(id)), ("v", n(vi)), ("f", J::A(v))])
            }
            _ => self.unk("other"),
        }
    }

    fn stmt(&mut self, b: &Body, x: &Statement) -> Option<J> {
        let (_, line) = self.span_of(x.source_info.span);
        Some(match &x.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(b, p);
                let r = self.rvalue(b, r);
                J::A(vec![s("="), p, r, n(line)])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                J::A(vec![s("sd"), self.place(b, place), n(variant_index.to_index())])
            }
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(*l)]),
            StatementKind::StorageLive(l) => J::A(vec![s("live"), n(*l)]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => return None,
            StatementKind::Intrinsic(_) => J::A(vec![s("copynonoverlapping")]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, b: &Body, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(b, o)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(b, p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(b, p)])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(b, p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(b, p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(b, o)).collect();
                let h = match k {
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t))]),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = def.ty_with_args(args);
                        let id = self.ty(t);
                        J::A(vec![s("adt"), n(id), n(v.to_index()), f.map(|x| n(x)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        let id = self.ty(t);
                        J::A(vec![s("closure"), n(id)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), n(self.ty(*t))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), h, J::A(ops)])
            }
            Rvalue::BinaryOp(op, x, y) => {
                let x2 = self.operand(b, x);
                let y2 = self.operand(b, y);
                let t = x.ty(b.locals()).ok().map(|t| n(self.ty(t))).unwrap_or(J::Null);
                J::A(vec![s("bin"), s(format!("{:?}", op)), x2, y2, t])
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let x2 = self.operand(b, x);
                let y2 = self.operand(b, y);
                let t = x.ty(b.locals()).ok().map(|t| n(self.ty(t))).unwrap_or(J::Null);
                J::A(vec![s("cbin"), s(format!("{:?}", op)), x2, y2, t])
            }
            Rvalue::UnaryOp(op, x) => {
                let x2 = self.operand(b, x);
                let t = x.ty(b.locals()).ok().map(|t| n(self.ty(t))).unwrap_or(J::Null);
                J::A(vec![s("un"), s(format!("{:?}", op)), x2, t])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b.locals()).ok().map(|t| n(self.ty(t))).unwrap_or(J::Null);
                let o2 = self.operand(b, o);
                let t2 = n(self.ty(*t));
                // fn item / closure to fn pointer: make sure the body is dumped
                J::A(vec![s("cast"), s(format!("{:?}", k)), o2, t2, from])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b.locals()).ok().map(|t| n(self.ty(t))).unwrap_or(J::Null);
                J::A(vec![s("discr"), self.place(b, p), t])
            }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(b, p)]),
            Rvalue::Repeat(o, c) => {
                let o2 = self.operand(b, o);
                J::A(vec![s("repeat"), o2, c.eval_target_usize().map(|x| J::N(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
        }
    }

    fn unwind_cleanup(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(*b),
            _ => J::Null,
        }
    }

    fn term(&mut self, b: &Body, t: &Terminator) -> J {
        let (file, line) = self.span_of(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target } => {
                o.push(("k", s("goto")));
                o.push(("to", n(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                o.push(("on", self.operand(b, discr)));
                let dt = discr.ty(b.locals()).ok().map(|t| n(self.ty(t))).unwrap_or(J::Null);
                o.push(("ty", dt));
                let v = targets.branches().map(|(v, t)| J::A(vec![s(v.to_string()), n(t)])).collect();
                o.push(("br", J::A(v)));
                o.push(("else", n(targets.otherwise())));
            }
            TerminatorKind::Resume => o.push(("k", s("resume"))),
            TerminatorKind::Abort => o.push(("k", s("abort"))),
            TerminatorKind::Return => o.push(("k", s("ret"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop")));
                let pt = place.ty(b.locals()).ok();
                o.push(("p", self.place(b, place)));
                if let Some(pt) = pt {
                    let id = self.ty(pt);
                    o.push(("ty", n(id)));
                }
                o.push(("to", n(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                o.push(("k", s("call")));
                let ft = func.ty(b.locals()).ok();
                let mut done = false;
                if let Some(ft) = ft {
                    if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = ft.kind() {
                        let c = self.callee(def, &ga);
                        o.push(("f", c));
                        done = true;
                    }
                }
                if !done {
                    o.push(("fp", self.operand(b, func)));
                }
                let a = args.iter().map(|x| self.operand(b, x)).collect();
                o.push(("a", J::A(a)));
                o.push(("d", self.place(b, destination)));
                o.push(("to", target.map(n).unwrap_or(J::Null)));
                o.push(("uw", Self::unwind_cleanup(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                o.push(("c", self.operand(b, cond)));
                o.push(("e", J::B(*expected)));
                o.push(("m", s(match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                    m => m.description().unwrap_or("assert").to_string(),
                })));
                o.push(("to", n(*target)));
            }
            TerminatorKind::InlineAsm { .. } => o.push(("k", s("asm"))),
        }
        o.push(("file", s(file)));
        o.push(("line", n(line)));
        J::O(o)
    }
}

// ---------------------------------------------------------------- crate facts
struct Unsafes<'tcx> {
    tcx: Tcx<'tcx>,
    out: Vec<J>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Tcx<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let loc = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
            self.out.push(J::A(vec![s(loc.file.name.prefer_local_unconditionally().to_string()), n(loc.line)]));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn find_item(tcx: Tcx<'_>, krate: &str, path: &[&str]) -> Option<rustc_span::def_id::DefId> {
    let c = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == krate)?;
    let mut cur = c.as_def_id();
    for seg in path {
        cur = tcx
            .module_children(cur)
            .iter()
            .find(|m| m.ident.name.as_str() == *seg && m.res.opt_def_id().is_some())?
            .res
            .opt_def_id()?;
    }
    Some(cur)
}

fn dump(tcx: Tcx<'_>) -> ControlFlow<(), ()> {
    let out_path = std::env::var("WEEDLE_DUMP").unwrap();
    let mut d = D { tcx, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), inst_out: vec![], queue: VecDeque::new() };

    // ---- find the Parse trait
    let mut parse_trait = None;
    for (tr, _) in tcx.all_local_trait_impls(()).iter() {
        if tr.is_local() && tcx.item_name(*tr).as_str() == "Parse" {
            parse_trait = Some(*tr);
        }
    }
    let erased = tcx.lifetimes.re_erased;
    let tenv = ity::TypingEnv::fully_monomorphized();
    let mut roots = vec![];
    let mut wit: Vec<(String, ity::Ty<'_>)> = vec![];
    let mut generic = vec![];
    let mut mono = vec![];
    if let Some(tr) = parse_trait {
        for imp in tcx.all_local_trait_impls(()).get(&tr).unwrap() {
            let g = tcx.generics_of(imp.to_def_id());
            let nty = g.own_counts().types + g.own_counts().consts;
            if nty == 0 {
                mono.push(*imp);
            } else {
                generic.push(*imp);
            }
        }
        for imp in &mono {
            let args = ity::GenericArgs::for_item(tcx, imp.to_def_id(), |_, _| erased.into());
            let trr = tcx.impl_trait_ref(imp.to_def_id()).instantiate(tcx, args).skip_norm_wip();
            let st = trr.self_ty();
            wit.push((format!("{}", st), st));
        }
        wit.sort_by(|a, b| a.0.cmp(&b.0));
    }
    // witnesses for type parameters: distinct, non-generic Parse types
    let pick: Vec<ity::Ty<'_>> = {
        let mut p = vec![];
        for want in ["Identifier", "StringLit", "HexLit", "DecLit", "OctLit"] {
            if let Some(x) = wit.iter().find(|(nm, _)| {
                let nm = nm.split('<').next().unwrap();
                nm.rsplit("::").next().unwrap() == want
            }) {
                p.push(x.1);
            }
        }
        for (_, t) in &wit {
            if !p.contains(t) {
                p.push(*t);
            }
        }
        p
    };
    let terms: Vec<ity::Ty<'_>> = {
        let mut p = vec![];
        for want in ["Comma", "SemiColon", "Colon"] {
            if let Some(x) = wit.iter().find(|(nm, _)| nm.rsplit("::").next().unwrap() == want) {
                p.push(x.1);
            }
        }
        if p.is_empty() { pick.clone() } else { p }
    };
    let parse_fn = parse_trait.map(|tr| {
        tcx.associated_items(tr).in_definition_order().find(|a| a.is_fn()).map(|a| a.def_id)
    }).flatten();

    let mut impls = vec![];
    if let Some(pf) = parse_fn {
        for imp in mono.iter().chain(generic.iter()) {
            let isgen = generic.contains(imp);
            let mut done = false;
            // an impl may ask more of a parameter than Parse (Default, say): try other witnesses
            for attempt in 0..3 {
                let mut k = 0;
                let args = ity::GenericArgs::for_item(tcx, imp.to_def_id(), |p, _| match p.kind {
                    ity::GenericParamDefKind::Lifetime => erased.into(),
                    ity::GenericParamDefKind::Type { .. } => {
                        let t = match attempt {
                            0 => pick[k % pick.len()],
                            1 if k == 0 => pick[0],
                            1 => terms[(k - 1) % terms.len()],
                            _ => terms[k % terms.len()],
                        };
                        k += 1;
                        t.into()
                    }
                    ity::GenericParamDefKind::Const { .. } => ity::Const::from_target_usize(tcx, 2).into(),
                });
                let trr = tcx.impl_trait_ref(imp.to_def_id()).instantiate(tcx, args).skip_norm_wip();
                let trr = tcx.erase_and_anonymize_regions(trr);
                let r = ity::Instance::try_resolve(tcx, tenv, pf, trr.args);
                if let Ok(Some(inst)) = r {
                    let si: Instance = stable(inst);
                    let id = d.inst(si);
                    let st: Ty = stable(trr.self_ty());
                    let tid = d.ty(st);
                    impls.push(J::O(vec![("ty", n(tid)), ("inst", n(id)), ("generic", J::B(isgen))]));
                    done = true;
                    break;
                }
            }
            if !done {
                let args = ity::GenericArgs::identity_for_item(tcx, imp.to_def_id());
                let trr = tcx.impl_trait_ref(imp.to_def_id()).instantiate(tcx, args).skip_norm_wip();
                impls.push(J::O(vec![("ty", J::Null), ("name", s(format!("{}", trr.self_ty()))), ("inst", J::Null), ("generic", J::B(isgen))]));
            }
        }
    }

    // ---- free functions of the crate without type parameters
    let mut fns = vec![];
    for def in rustc_public::local_crate().fn_defs() {
        let idef = internal(tcx, def.def_id());
        let kind = tcx.def_kind(idef);
        let g = tcx.generics_of(idef);
        let mut has_ty = false;
        let mut cur = Some(g);
        while let Some(gg) = cur {
            has_ty |= gg.own_params.iter().any(|p| !matches!(p.kind, ity::GenericParamDefKind::Lifetime));
            cur = gg.parent.map(|p| tcx.generics_of(p));
        }
        let (_, p) = d.dpath(def.def_id());
        let vis = tcx.visibility(idef).is_public();
        let in_trait_impl = tcx.trait_impl_of_assoc(idef).is_some();
        let mut o = vec![("path", s(p)), ("pub", J::B(vis)), ("generic", J::B(has_ty)), ("trait_impl", J::B(in_trait_impl)), ("kind", s(format!("{:?}", kind)))];
        let sig = tcx.fn_sig(idef).instantiate_identity().skip_norm_wip();
        o.push(("unsafe", J::B(!sig.safety().is_safe())));
        if !has_ty {
            let args = ity::GenericArgs::for_item(tcx, idef, |_, _| erased.into());
            if let Ok(Some(inst)) = ity::Instance::try_resolve(tcx, tenv, idef, args) {
                let si: Instance = stable(inst);
                // derive output is only listed, not dumped, unless it is asked for below
                let derived = tcx.trait_impl_of_assoc(idef).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false);
                o.push(("derived", J::B(derived)));
                if !derived {
                    let id = d.inst(si);
                    o.push(("inst", n(id)));
                }
            }
        }
        fns.push(J::O(o));
    }

    // ---- all trait impls of local types
    let sip: Option<ity::Ty<'_>> = find_item(tcx, "core", &["hash", "SipHasher"])
        .map(|x| tcx.type_of(x).instantiate_identity().skip_norm_wip());
    let mut timpls = vec![];
    for (tr, v) in tcx.all_local_trait_impls(()).iter() {
        for imp in v {
            let h = tcx.impl_trait_ref(imp.to_def_id()).instantiate_identity().skip_norm_wip();
            let (tk, tp) = d.ipath(*tr);
            let selfp = match h.self_ty().kind() {
                ity::Adt(a, _) => d.ipath(a.did()).1,
                _ => format!("{}", h.self_ty()),
            };
            let loc = tcx.sess.source_map().lookup_char_pos(tcx.def_span(imp.to_def_id()).source_callsite().lo());
            let mut methods = vec![];
            for a in tcx.associated_items(imp.to_def_id()).in_definition_order() {
                if a.is_fn() {
                    let mut o = vec![("name", s(a.name().to_string()))];
                    let mut k = 0;
                    let mut bad = false;
                    let is_hash = tcx.item_name(*tr).as_str() == "Hash";
                    let parent_n = tcx.generics_of(a.def_id).parent_count;
                    let args = ity::GenericArgs::for_item(tcx, a.def_id, |p, _| match p.kind {
                        ity::GenericParamDefKind::Lifetime => erased.into(),
                        ity::GenericParamDefKind::Type { .. } => {
                            if pick.is_empty() {
                                bad = true;
                                return tcx.types.unit.into();
                            }
                            if is_hash && (p.index as usize) >= parent_n {
                                match sip {
                                    Some(h) => return h.into(),
                                    None => bad = true,
                                }
                            }
                            let t = pick[k % pick.len()];
                            k += 1;
                            t.into()
                        }
                        ity::GenericParamDefKind::Const { .. } => ity::Const::from_target_usize(tcx, 2).into(),
                    });
                    let tn = tcx.item_name(*tr);
                    if !bad
                        && !tcx.is_builtin_derived(imp.to_def_id())
                        && ["PartialEq", "PartialOrd", "Ord", "Clone", "Hash", "Drop", "Eq", "From", "Default"].contains(&tn.as_str())
                    {
                        if let Ok(Some(inst)) = ity::Instance::try_resolve(tcx, tenv, a.def_id, args) {
                            let si: Instance = stable(inst);
                            let id = d.inst(si);
                            o.push(("inst", n(id)));
                        }
                    }
                    methods.push(J::O(o));
                }
            }
            timpls.push(J::O(vec![
                ("trait", s(tp)),
                ("tcrate", s(tk)),
                ("self", s(selfp)),
                ("selfstr", s(format!("{}", h.self_ty()))),
                ("derived", J::B(tcx.is_automatically_derived(imp.to_def_id()))),
                ("builtin", J::B(tcx.is_builtin_derived(imp.to_def_id()))),
                ("file", s(loc.file.name.prefer_local_unconditionally().to_string())),
                ("line", n(loc.line)),
                ("methods", J::A(methods)),
            ]));
        }
    }

    // ---- local ADTs with auto traits
    let mut adts = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    for id in tcx.hir_crate_items(()).definitions() {
        let dk = tcx.def_kind(id);
        if !matches!(dk, rustc_hir::def::DefKind::Struct | rustc_hir::def::DefKind::Enum | rustc_hir::def::DefKind::Union) {
            continue;
        }
        let mut k = 0;
        let args = ity::GenericArgs::for_item(tcx, id.to_def_id(), |p, _| match p.kind {
            ity::GenericParamDefKind::Lifetime => erased.into(),
            ity::GenericParamDefKind::Type { .. } => {
                let t = if pick.is_empty() { tcx.types.unit } else { pick[k % pick.len()] };
                k += 1;
                t.into()
            }
            ity::GenericParamDefKind::Const { .. } => ity::Const::from_target_usize(tcx, 2).into(),
        });
        let t = ity::Ty::new_adt(tcx, tcx.adt_def(id.to_def_id()), args);
        let t = tcx.erase_and_anonymize_regions(t);
        let infcx = tcx.infer_ctxt().build(ity::TypingMode::PostAnalysis);
        let chk = |tr: Option<rustc_span::def_id::DefId>| {
            tr.map(|tr| infcx.type_implements_trait(tr, [t], ity::ParamEnv::empty()).must_apply_modulo_regions()).unwrap_or(false)
        };
        let st: Ty = stable(t);
        let tid = d.ty(st);
        let (_, p) = d.ipath(id.to_def_id());
        adts.push(J::O(vec![
            ("path", s(p)),
            ("ty", n(tid)),
            ("pub", J::B(tcx.visibility(id).is_public())),
            ("send", J::B(chk(send))),
            ("sync", J::B(chk(sync))),
            ("freeze", J::B(t.is_freeze(tcx, tenv))),
            ("ntypes", n(tcx.generics_of(id).own_counts().types)),
            ("nlifetimes", n(tcx.generics_of(id).own_counts().lifetimes)),
        ]));
    }

    // ---- statics, unsafe blocks, extern blocks, drop impls come with the impl list
    let mut statics = vec![];
    let mut foreign = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            rustc_hir::def::DefKind::Static { mutability, .. } => {
                let (_, p) = d.ipath(id.to_def_id());
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let fr = t.is_freeze(tcx, tenv);
                statics.push(J::O(vec![("path", s(p)), ("mut", J::B(mutability.is_mut())), ("freeze", J::B(fr)), ("tpath", s(match t.kind() {
                    ity::Adt(a, _) => d.ipath(a.did()).1,
                    _ => format!("{}", t),
                }))]));
            }
            rustc_hir::def::DefKind::ForeignMod => {
                let (_, p) = d.ipath(id.to_def_id());
                foreign.push(s(p));
            }
            _ => {}
        }
    }
    let mut uv = Unsafes { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut uv);
    let unsafes = J::A(uv.out);

    while let Some(i) = d.queue.pop_front() {
        d.run_inst(i);
        if d.inst_out.len() > 60000 {
            eprintln!("weedle-driver: too many instances");
            break;
        }
    }
    let _ = krate_of;
    roots.push(J::Null);
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("parse_impls", J::A(impls)),
        ("fns", J::A(fns)),
        ("trait_impls", J::A(timpls)),
        ("adts", J::A(adts)),
        ("statics", J::A(statics)),
        ("foreign", J::A(foreign)),
        ("unsafe", unsafes),
        ("types", J::A(d.ty_out)),
        ("insts", J::A(d.inst_out)),
    ]);
    let mut o = String::new();
    emit(&j, &mut o);
    std::fs::write(&out_path, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: <driver> <rustc> args...
    let rustc = if args.len() > 1 && args[1].ends_with("rustc") { Some(args.remove(1)) } else { None };
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "weedle");
    if !is_target || std::env::var("WEEDLE_DUMP").is_err() {
        let prog = rustc.unwrap_or_else(|| "rustc".into());
        let st = std::process::Command::new(prog).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = rustc_public::run_with_tcx!(&args, dump);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("weedle-driver: compilation failed: {:?}", e);
            std::process::exit(1)
        }
    }
}
