//! MIR extractor: compiles the corpus crate with the real compiler (up to and including borrow
//! checking), then walks the monomorphic call graph from every `#[no_mangle]`-style root function
//! (`root_*`) and writes the resolved, monomorphised MIR with layouts and constants as JSON.
//! Nothing is executed; codegen never happens for the corpus crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, FloatLength, Primitive, Scalar, TagEncoding, ValueRepr, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_middle::ty::TyCtxt;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

struct Cfg {
    inline: Vec<String>,
    deny: Vec<String>,
}

struct D<'t> {
    tcx: TyCtxt<'t>,
    cfg: Cfg,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    fn_json: Vec<String>,
    allocs: HashMap<usize, String>,
    alloc_ids: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    next_def: Option<Ty>,
    hint_def: Option<Ty>,
    drop_did: Option<rustc_span::def_id::DefId>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first { o.push(','); }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

impl<'t> D<'t> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let js = self.ty_to_json(t);
        self.ty_json[i] = js;
        i
    }

    fn vi(&self, v: &VariantIdx) -> usize { rustc_internal::internal(self.tcx, *v).as_usize() }

    fn generic_args(&mut self, args: &GenericArgs) -> String {
        let v: Vec<String> = args.0.iter().filter_map(|a| match a {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(match c.eval_target_usize() { Ok(n) => format!("{{\"const\":{}}}", n), Err(_) => "null".to_string() }),
            GenericArgKind::Lifetime(_) => None,
        }).collect();
        format!("[{}]", v.join(","))
    }

    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let sh = l.shape();
        let mut o = String::new();
        let _ = write!(o, "{{\"size\":{},\"align\":{}", sh.size.bytes(), sh.abi_align);
        match &sh.fields {
            FieldsShape::Arbitrary { offsets, .. } => {
                let _ = write!(o, ",\"offs\":{}", list(offsets.iter(), |s| s.bytes().to_string()));
            }
            FieldsShape::Array { stride, count } => {
                let _ = write!(o, ",\"stride\":{},\"count\":{}", stride.bytes(), count);
            }
            FieldsShape::Union(n) => { let _ = write!(o, ",\"union\":{}", n); }
            FieldsShape::Primitive => {}
        }
        match &sh.variants {
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let te = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { .. } => "\"niche\"".to_string(),
                };
                if let TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                    let (u, a, b) = (self.vi(untagged_variant), self.vi(niche_variants.start()), self.vi(niche_variants.end()));
                    let _ = write!(o, ",\"niche\":[{},{},{},{}]", u, a, b, niche_start);
                }
                let _ = write!(o, ",\"tag\":{}", scalar_json(tag));
                let _ = write!(o, ",\"tagenc\":{},\"tagfield\":{},\"voffs\":{}", te, tag_field,
                    list(variants.iter(), |v| list(v.offsets.iter(), |s| s.bytes().to_string())));
            }
            VariantsShape::Single { index } => { let _ = write!(o, ",\"single\":{}", self.vi(index)); }
            VariantsShape::Empty => { let _ = write!(o, ",\"empty\":true"); }
        }
        if let ValueRepr::Scalar(s) = &sh.value_repr { let _ = write!(o, ",\"scal\":{}", scalar_json(s)); }
        o.push('}');
        o
    }

    fn ty_to_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", rustc_internal::internal(self.tcx, t)));
        let lay = self.layout(t);
        let needs_drop = {
            let it = rustc_internal::internal(self.tcx, t);
            it.needs_drop(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
        };
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"ptr\":{}", i.num_bytes() * 8, matches!(i, IntTy::Isize)),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{},\"ptr\":{}", i.num_bytes() * 8, matches!(i, UintTy::Usize)),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"bits\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::Array(e, n) => format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(e), n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
                RigidTy::RawPtr(p, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(p), m == Mutability::Mut),
                RigidTy::Ref(_, p, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(p), m == Mutability::Mut),
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(",")) }
                RigidTy::Pat(inner, _) => format!("\"k\":\"pat\",\"inner\":{}", self.ty(inner)),
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve(def, &args).ok();
                    let id = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"fndef\",\"inst\":{},\"path\":{}", id, esc(&def.name()))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    let ups = {
                        let it = rustc_internal::internal(self.tcx, t);
                        let mut v = vec![];
                        if let rustc_middle::ty::TyKind::Closure(_, a) = it.kind() {
                            for u in a.as_closure().upvar_tys().iter() { v.push(rustc_internal::stable(u)); }
                        }
                        v
                    };
                    let v: Vec<String> = ups.into_iter().map(|t| self.ty(t).to_string()).collect();
                    // the closure body itself (FnMut view; FnOnce closures resolve through the once shim)
                    let kind = {
                        let it = rustc_internal::internal(self.tcx, t);
                        match it.kind() { rustc_middle::ty::TyKind::Closure(_, a) => a.as_closure().kind(), _ => unreachable!() }
                    };
                    let k = match kind {
                        rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                        rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                        rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                    };
                    let ks = match k { ClosureKind::Fn => "Fn", ClosureKind::FnMut => "FnMut", ClosureKind::FnOnce => "FnOnce" };
                    let inst = Instance::resolve_closure(def, &args, k).ok();
                    let id = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"closure\",\"upvars\":[{}],\"inst\":{},\"ckind\":\"{}\"", v.join(","), id, ks)
                }
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v.fields().iter().map(|f| {
                            let ft = f.ty_with_args(&args);
                            // normalise associated types
                            let ft = self.normalize(ft);
                            format!("[{},{}]", esc(&f.name), self.ty(ft))
                        }).collect();
                        let d = if def.kind().is_enum() { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), d, fs.join(",")));
                    }
                    let drop = self.drop_impl(t);
                    let ga = self.generic_args(&args);
                    let next = self.method_impl(self.next_def, t);
                    let hint = if next == "null" { next.clone() } else { self.method_impl(self.hint_def, t) };
                    let repr = format!("{:?}", def.repr());
                    format!("\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"krate\":{},\"args\":{},\"variants\":[{}],\"drop\":{},\"next\":{},\"hint\":{},\"isbox\":{},\"repr\":{}",
                        kind, esc(&def.name()), esc(&def.krate().name), ga, vs.join(","), drop, next, hint, def.is_box(), esc(&repr))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"unresolved\"".into(),
        };
        format!("{{\"name\":{},{},\"lay\":{},\"nd\":{}}}", name, body, lay, needs_drop)
    }

    fn normalize(&mut self, t: Ty) -> Ty {
        let it = rustc_internal::internal(self.tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new(it)) {
            Ok(n) => rustc_internal::stable(n),
            Err(_) => t,
        }
    }

    // `<T as Iterator>::next` or `size_hint` when T implements Iterator.
    fn method_impl(&mut self, m: Option<Ty>, t: Ty) -> String {
        let Some(nd) = m else { return "null".into() };
        let TyKind::RigidTy(RigidTy::FnDef(def, _)) = nd.kind() else { return "null".into() };
        match Instance::resolve(def, &GenericArgs(vec![GenericArgKind::Type(t)])) {
            Ok(i) => self.inst(i).to_string(),
            Err(_) => "null".into(),
        }
    }

    fn drop_impl(&mut self, t: Ty) -> String {
        let it = rustc_internal::internal(self.tcx, t);
        if let rustc_middle::ty::TyKind::Adt(def, args) = it.kind() {
            if let Some(d) = self.tcx.adt_destructor(def.did()) {
                let fty = rustc_middle::ty::Ty::new_fn_def(self.tcx, d.did, rustc_middle::ty::Binder::dummy(*args));
                let st: Ty = rustc_internal::stable(fty);
                if let TyKind::RigidTy(RigidTy::FnDef(fd, fa)) = st.kind() {
                    if let Ok(i) = Instance::resolve(fd, &fa) {
                        return self.inst(i).to_string();
                    }
                }
            }
        }
        "null".into()
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.insts.get(&i) { return k; }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.fn_json.push(String::new());
        self.queue.push_back(k);
        k
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b { Some(b) => { let _ = write!(hex, "{:02x}", b); } None => hex.push_str("__") }
        }
        let ptrs = a.provenance.ptrs.clone();
        let p: Vec<String> = ptrs.iter().map(|(off, prov)| {
            let id = self.global(prov.0);
            format!("[{},{}]", off, id)
        }).collect();
        format!("{{\"hex\":\"{}\",\"ptrs\":[{}]}}", hex, p.join(","))
    }

    fn global(&mut self, id: rustc_public::mir::alloc::AllocId) -> usize {
        if let Some(&k) = self.alloc_ids.get(&id) { return k; }
        let k = self.alloc_ids.len();
        self.alloc_ids.insert(id, k);
        let g = GlobalAlloc::from(id);
        let js = match g {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let init = match s.eval_initializer() { Ok(a) => self.alloc(&a), Err(_) => "null".into() };
                format!("{{\"k\":\"static\",\"name\":{},\"ty\":{},\"mem\":{}}}", esc(&s.name()), t, init)
            }
            GlobalAlloc::Memory(a) => { let m = self.alloc(&a); format!("{{\"k\":\"mem\",\"mem\":{}}}", m) }
            GlobalAlloc::TypeId { ty } => format!("{{\"k\":\"typeid\",\"ty\":{}}}", self.ty(ty)),
        };
        self.allocs.insert(k, js);
        k
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!("[{},\"zst\"]", t),
            ConstantKind::Allocated(a) => {
                if a.provenance.ptrs.is_empty() && a.bytes.len() <= 16 && !a.bytes.is_empty() && c.ty().kind().rigid().map_or(false, |r| matches!(r, RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::RawPtr(..))) {
                    if let Ok(v) = a.read_uint() { return format!("[{},\"int\",{}]", t, v); }
                }
                let m = self.alloc(a);
                format!("[{},\"alloc\",{}]", t, m)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    if let Ok(v) = a.read_uint() { return format!("[{},\"int\",{}]", t, v); }
                    let m = self.alloc(a);
                    format!("[{},\"alloc\",{}]", t, m)
                }
                TyConstKind::ZSTValue(_) => format!("[{},\"zst\"]", t),
                _ => format!("[{},\"unk\"]", t),
            },
            _ => format!("[{},\"unk\"]", t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => { let t = self.normalize(*t); format!("[\"f\",{},{}]", i, self.ty(t)) },
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", self.vi(v)),
            ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            #[allow(unreachable_patterns)]
            _ => "[\"?\"]".to_string(),
        }).collect();
        if v.is_empty() { p.local.to_string() } else { format!("[{},{}]", p.local, v.join(",")) }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn ops(&mut self, v: &[Operand]) -> String {
        let v: Vec<String> = v.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::Cast(k, o, t) => {
                let k = match k { CastKind::PointerCoercion(p) => format!("coerce:{:?}", p), k => format!("{:?}", k) };
                format!("[\"cast\",{},{},{}]", esc(&k), self.operand(o), self.ty(*t))
            }
            Rvalue::Aggregate(k, os) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = self.normalize(def.ty_with_args(args));
                        format!("[\"adt\",{},{},{}]", self.ty(t), self.vi(v), f.map(|f| f.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(def, args) => { let t = Ty::new_closure(*def, args.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, m) => { let t = Ty::new_ptr(*t, *m); format!("[\"rawptr\",{}]", self.ty(t)) }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, self.ops(os))
            }
        }
    }

    fn callee(&mut self, func: &Operand, locals: &[LocalDecl]) -> String {
        if let Ok(t) = func.ty(locals) {
            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
                if let Ok(i) = Instance::resolve(def, &args) {
                    return self.inst(i).to_string();
                }
                return format!("{{\"unresolved\":{}}}", esc(&def.name()));
            }
        }
        self.operand(func)
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| { let t = self.normalize(l.ty); self.ty(t).to_string() }).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut sts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r);
                        sts.push(format!("[\"=\",{},{},{}]", ps, rs, s.source_info.span.get_lines().start_line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!("[\"sd\",{},{}]", self.place(place), self.vi(variant_index)));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => sts.push(format!("[\"assume\",{}]", self.operand(o))),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        sts.push(format!("[\"cno\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)));
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect();
                    format!("[\"switch\",{},[{}],{}]", self.operand(discr), v.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok().map(|t| { let t = self.normalize(t); self.ty(t).to_string() }).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", self.place(place), target, pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, b.locals());
                    let a = self.ops(args);
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{},{}]", c, a, d, target.map(|t| t.to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        AssertMessage::Overflow(op, a, c) => format!("[\"overflow:{:?}\",{},{}]", op, self.operand(a), self.operand(c)),
                        AssertMessage::OverflowNeg(a) => format!("[\"overflow:neg\",{}]", self.operand(a)),
                        AssertMessage::DivisionByZero(a) => format!("[\"divzero\",{}]", self.operand(a)),
                        AssertMessage::RemainderByZero(a) => format!("[\"remzero\",{}]", self.operand(a)),
                        AssertMessage::MisalignedPointerDereference { .. } => "[\"misaligned\"]".into(),
                        AssertMessage::NullPointerDereference => "[\"null\"]".into(),
                        AssertMessage::NullReferenceConstructed => "[\"nullref\"]".into(),
                        AssertMessage::InvalidEnumConstruction(_) => "[\"invalidenum\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, m, target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{},{}]", sts.join(","), t, line));
        }
        format!("{{\"locals\":[{}],\"argc\":{},\"spread\":{},\"blocks\":[{}]}}", locals.join(","), b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()), blocks.join(",\n"))
    }

    fn wants_body(&self, krate: &str, path: &str) -> bool {
        if krate == "speedy" || krate == "corpus" { return true; }
        // longest matching prefix decides
        let best = |v: &Vec<String>| v.iter().filter(|p| path.starts_with(p.as_str())).map(|p| p.len()).max();
        match (best(&self.cfg.inline), best(&self.cfg.deny)) {
            (Some(a), Some(b)) => a >= b,
            (Some(_), None) => true,
            _ => false,
        }
    }

    fn function(&mut self, k: usize) -> String {
        let i = self.inst_list[k];
        let krate = i.def.krate().name.to_string();
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let path = self.tcx.def_path_str(did);
        let rawpath = { let p = self.tcx.def_path(did); format!("{}{}", self.tcx.crate_name(p.krate), p.to_string_no_crate_verbose()) };
        let trait_path = {
            let mut s = "null".to_string();
            if let Some(a) = self.tcx.opt_associated_item(did) {
                if let Some(td) = a.trait_item_def_id() { s = esc(&self.tcx.def_path_str(td)); }
                else if matches!(a.container, rustc_middle::ty::AssocContainer::Trait) { s = esc(&path); }
            }
            s
        };
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let intr = i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let name = i.name();
        let ga = self.generic_args(&i.args());
        let sp = i.def.span();
        let lines = sp.get_lines();
        let file = sp.get_filename();
        let foreign = i.is_foreign_item();
        let want = self.wants_body(&krate, &rawpath) && !foreign;
        let is_shim = i.kind == InstanceKind::Shim;
        let shim_dbg = if is_shim { let ii = rustc_internal::internal(self.tcx, i); format!("{:?}", ii.def) } else { String::new() };
        let is_drop_glue = shim_dbg.starts_with("DropGlue");
        let body = if kind != "intrinsic" && kind != "virtual" && (want || (is_shim && !is_drop_glue)) && i.has_body() {
            match i.body() { Some(b) => self.body(&b), None => "null".into() }
        } else { "null".into() };
        let sig = {
            let it = rustc_internal::internal(self.tcx, i.ty());
            if it.is_fn() && !it.is_closure() {
                let sg = self.tcx.instantiate_bound_regions_with_erased(it.fn_sig(self.tcx));
                let ins: Vec<String> = sg.inputs().iter().map(|t| { let t: Ty = rustc_internal::stable(*t); let t = self.normalize(t); self.ty(t).to_string() }).collect();
                let out: Ty = rustc_internal::stable(sg.output());
                let out = self.normalize(out);
                format!("[[{}],{}]", ins.join(","), self.ty(out))
            } else { "null".into() }
        };
        let sd: String = shim_dbg.chars().take(60).collect();
        format!("{{\"name\":{},\"path\":{},\"raw\":{},\"trait\":{},\"krate\":{},\"kind\":\"{}\",\"intr\":{},\"args\":{},\"file\":{},\"line\":{},\"foreign\":{},\"shim\":{},\"sig\":{},\"body\":{}}}",
            esc(&name), esc(&path), esc(&rawpath), trait_path, esc(&krate), kind, intr, ga, esc(&file), lines.start_line, foreign, esc(&sd), sig, body)
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let cfgp = std::env::var("MIRDUMP_CFG").expect("MIRDUMP_CFG");
    let mut cfg = Cfg { inline: vec![], deny: vec![] };
    for l in std::fs::read_to_string(cfgp).unwrap().lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.is_empty() { continue; }
        if let Some(p) = l.strip_prefix('!') { cfg.deny.push(p.trim().to_string()); } else { cfg.inline.push(l.to_string()); }
    }
    let mut d = D { tcx, cfg, tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), inst_list: vec![], queue: VecDeque::new(), fn_json: vec![],
        allocs: HashMap::new(), alloc_ids: HashMap::new(), next_def: None, hint_def: None, drop_did: None };
    let _ = d.drop_did;
    if let Some(nf) = tcx.lang_items().next_fn() {
        let fty = tcx.type_of(nf).instantiate_identity();
        let st: Ty = rustc_internal::stable(fty.skip_norm_wip());
        d.next_def = Some(st);
        let tr = tcx.parent(nf);
        let hf = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "size_hint").map(|i| i.def_id);
        if let Some(hf) = hf {
            let fty = tcx.type_of(hf).instantiate_identity();
            d.hint_def = Some(rustc_internal::stable(fty.skip_norm_wip()));
        }
    }
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let item: CrateItem = item;
        if !matches!(item.kind(), ItemKind::Fn) { continue; }
        let name = item.name();
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        if !short.starts_with("root_") { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let k = d.inst(i);
            let nm = name.strip_prefix("corpus::").unwrap_or(&name).to_string();
            roots.push((nm, k));
        }
    }
    while let Some(k) = d.queue.pop_front() {
        let js = d.function(k);
        d.fn_json[k] = js;
    }
    let mut o = String::new();
    o.push_str("{\"roots\":{");
    for (n, (name, k)) in roots.iter().enumerate() {
        if n > 0 { o.push(','); }
        let _ = write!(o, "{}:{}", esc(name), k);
    }
    o.push_str("},\n\"types\":[\n");
    o.push_str(&d.ty_json.join(",\n"));
    o.push_str("],\n\"allocs\":[\n");
    let mut al: Vec<_> = d.allocs.iter().collect();
    al.sort();
    o.push_str(&al.iter().map(|(_, v)| v.to_string()).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    o.push_str(&d.fn_json.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).unwrap();
    ControlFlow::Break(())
}

fn scalar_json(s: &Scalar) -> String {
    let size = |p: &Primitive| match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { length } => match length { FloatLength::F32 => 4, FloatLength::F64 => 8, FloatLength::F128 => 16, _ => 2 },
        Primitive::Pointer(_) => 8,
    };
    match s {
        Scalar::Initialized { value, valid_range } => format!("[{},{},{}]", size(value), valid_range.start, valid_range.end),
        Scalar::Union { value } => format!("[{},0,{}]", size(value), u128::MAX),
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_corpus = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "corpus");
    if !is_corpus {
        let st = std::process::Command::new(std::env::var("MIRDUMP_RUSTC").unwrap_or("rustc".into())).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run_with_tcx!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1); }
    }
}
