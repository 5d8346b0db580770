// MIR fact extractor for the orchard static checks.
//
// Runs as RUSTC_WORKSPACE_WRAPPER under `cargo check`. For the crate `orchard` it writes, as JSON
// lines, the MIR (mir-opt-level 0) of every function, closure and constant of the crate and of the
// generic functions of its dependencies that those bodies reach and that lie on a short list, with
// callees resolved to instances by rustc itself. Nothing is executed.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Body<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(DefId, GenericArgsRef<'tcx>, mir::Promoted),
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<(Body<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(Body<'tcx>, DefId, usize)>,
    adts: BTreeMap<String, DefId>,
    rng: Option<DefId>,
    rngmemo: HashMap<(Ty<'tcx>, DefId), bool>,
    out: Vec<String>,
}

struct Cx<'a, 'tcx> {
    d: &'a mut Dumper<'tcx>,
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    root: DefId,
    body: &'a mir::Body<'tcx>,
}

const DEP_CRATES: &[&str] = &["subtle", "zcash_note_encryption", "nonempty", "zip32", "zcash_spec", "maybe_rayon"];
const CORE_MODS: &[&str] = &[
    "::option::", "::result::", "::ops::control_flow", "::ops::try_trait", "::convert::", "::bool::",
    "::cmp::", "::ops::function", "::borrow::", "::clone::", "::iter::traits::accum",
    "::iter::Iterator::sum", "::iter::Iterator::product", "::array::equality",
];

fn path_str(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Dumper<'tcx> {
    fn allowed(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let krate = self.tcx.crate_name(d.krate);
        let k = krate.as_str();
        if DEP_CRATES.contains(&k) {
            return true;
        }
        if k == "core" || k == "std" || k == "alloc" {
            let p = format!("::{}", with_no_trimmed_paths!(self.tcx.def_path(d).to_string_no_crate_verbose()));
            let q = path_str(self.tcx, d);
            return CORE_MODS.iter().any(|m| p.contains(m) || q.contains(m));
        }
        false
    }
    fn enqueue(&mut self, b: Body<'tcx>, root: DefId) -> usize {
        let has_param = match b {
            Body::Inst(i) => i.args.iter().any(|a| has_param(a)),
            Body::Promoted(_, a, _) => a.iter().any(|a| has_param(a)),
        };
        let key = (b, if has_param { Some(root) } else { None });
        if let Some(&n) = self.ids.get(&key) {
            return n;
        }
        let n = self.ids.len();
        self.ids.insert(key, n);
        self.queue.push_back((b, root, n));
        n
    }
}
fn has_param<'tcx>(a: ty::GenericArg<'tcx>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    a.has_param()
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(a, _) = t.kind() {
            let p = path_str(self.tcx, a.did());
            self.d.adts.entry(p).or_insert(a.did());
        }
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
    }
    fn is_rng(&mut self, t: Ty<'tcx>) -> bool {
        let Some(tr) = self.d.rng else { return false };
        let mut t = t;
        while let ty::Ref(_, i, _) = t.kind() {
            t = *i;
        }
        if !matches!(t.kind(), ty::Param(_) | ty::Adt(..) | ty::Alias(..) | ty::Dynamic(..)) {
            return false;
        }
        if let Some(&b) = self.d.rngmemo.get(&(t, self.root)) {
            return b;
        }
        let (icx, pe) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        let b = icx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions();
        self.d.rngmemo.insert((t, self.root), b);
        b
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, t: T) -> T {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t.clone()))
            .unwrap_or(t)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut v = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_union() || vi.as_usize() >= a.variants().len() {
                                (f.as_usize().to_string(), path_str(self.tcx, a.did()))
                            } else {
                                (
                                    a.variant(vi).fields[f].name.to_string(),
                                    path_str(self.tcx, a.did()),
                                )
                            }
                        }
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    self.note_adt(pt.ty);
                    format!("[\"f\",{},{}]", esc(&name), esc(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    self.note_adt(pt.ty);
                    format!("[\"v\",{}]", esc(&name))
                }
                _ => "[\"o\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }
    fn place_ty(&self, p: &Place<'tcx>) -> Ty<'tcx> {
        p.ty(&self.body.local_decls, self.tcx).ty
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c.const_, c.span),
            _ => "{\"p\":null}".to_string(),
        }
    }
    fn fn_ref(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = self.norm(args);
        let mut s = format!("{{\"fn\":{}", esc(&path_str(tcx, def)));
        let _ = write!(s, ",\"crate\":{}", esc(tcx.crate_name(def.krate).as_str()));
        let _ = write!(
            s,
            ",\"args\":{}",
            list(args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))))
        );
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let _ = write!(s, ",\"trait\":{}", esc(&path_str(tcx, tr)));
            let _ = write!(s, ",\"m\":{}", esc(tcx.item_name(def).as_str()));
            let st = args.type_at(0);
            let _ = write!(s, ",\"self\":{}", esc(&self.ty(st)));
        }
        let inst = if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) {
            Instance::try_resolve(tcx, self.env, def, args).ok().flatten()
        } else {
            None
        };
        if let Some(inst) = inst {
            let _ = write!(s, ",\"rfn\":{}", esc(&path_str(tcx, inst.def_id())));
            let _ = write!(s, ",\"rcrate\":{}", esc(tcx.crate_name(inst.def_id().krate).as_str()));
            if tcx.def_kind(inst.def_id()) == DefKind::AssocFn {
                if let Some(imp) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = tcx.type_of(imp).instantiate(tcx, inst.args).skip_norm_wip();
                    let st = self.norm(st);
                    let _ = write!(s, ",\"rself\":{}", esc(&self.ty(st)));
                }
            }
            match inst.def {
                InstanceKind::Item(d) => {
                    if self.d.allowed(d) {
                        let id = self.d.enqueue(Body::Inst(inst), self.root);
                        let _ = write!(s, ",\"inst\":{}", id);
                    }
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    // same closure, taken by value
                    let ct = args.type_at(0);
                    if let ty::Closure(cd, cargs) = ct.kind() {
                        debug_assert!(*cd == closure);
                        let i = Instance::new_raw(*cd, cargs);
                        let id = self.d.enqueue(Body::Inst(i), self.root);
                        let _ = write!(s, ",\"inst\":{},\"once\":true", id);
                    }
                }
                InstanceKind::Shim(ShimKind::Clone(..)) => s.push_str(",\"shim\":\"clone\""),
                InstanceKind::Shim(ShimKind::FnPtr(..)) => s.push_str(",\"shim\":\"fnptr\""),
                InstanceKind::Virtual(..) => s.push_str(",\"shim\":\"virtual\""),
                InstanceKind::Intrinsic(..) => s.push_str(",\"shim\":\"intrinsic\""),
                _ => s.push_str(",\"shim\":\"other\""),
            }
        }
        s.push('}');
        s
    }
    fn constant(&mut self, c: mir::Const<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut s = format!("{{\"c\":{}", esc(&self.ty(t)));
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
            let f = self.fn_ref(*d, a);
            let _ = write!(s, ",\"fndef\":{}}}", f);
            return s;
        }
        if let ty::Closure(d, a) = t.kind() {
            let i = Instance::new_raw(*d, a);
            let id = self.d.enqueue(Body::Inst(i), self.root);
            let _ = write!(s, ",\"closure\":{}}}", id);
            return s;
        }
        self.note_adt(t);
        if let mir::Const::Unevaluated(u, _) = c {
            let _ = write!(s, ",\"def\":{}", esc(&path_str(tcx, u.def)));
            if let Some(p) = u.promoted {
                if self.d.allowed(u.def) {
                    let id = self.d.enqueue(Body::Promoted(u.def, self.norm(u.args), p), self.root);
                    let _ = write!(s, ",\"promoted\":{}", id);
                }
            } else if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, u.def, self.norm(u.args)) {
                let _ = write!(s, ",\"rdef\":{}", esc(&path_str(tcx, i.def_id())));
                if i.def_id().is_local() && matches!(tcx.def_kind(i.def_id()), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                    let id = self.d.enqueue(Body::Inst(i), self.root);
                    let _ = write!(s, ",\"inst\":{}", id);
                }
            }
        }
        if let Ok(v) = c.eval(tcx, self.env, span) {
            let vs = self.const_val(v, t);
            if !vs.is_empty() {
                let _ = write!(s, ",\"val\":{}", vs);
            }
        } else if let mir::Const::Ty(_, ct) = c {
            let _ = write!(s, ",\"tyc\":{}", esc(&with_no_trimmed_paths!(ct.to_string())));
        }
        s.push('}');
        s
    }
    fn read_mem(&mut self, aid: mir::interpret::AllocId, off: u64, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(al) => {
                let al = al.inner();
                match t.kind() {
                    ty::Array(et, n) => {
                        let n = match n.try_to_target_usize(tcx) {
                            Some(n) => n,
                            None => return String::new(),
                        };
                        let esz = match et.kind() {
                            ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                            _ => {
                                if let Ok(l) = tcx.layout_of(self.env.as_query_input(*et)) {
                                    if n > 64 { return String::new(); }
                                    let mut v = vec![];
                                    for i in 0..n {
                                        let x = self.read_mem(aid, off + i * l.size.bytes(), *et);
                                        if x.is_empty() { return String::new(); }
                                        v.push(x);
                                    }
                                    return format!("{{\"arr\":{}}}", list(v));
                                }
                                return String::new();
                            }
                        };
                        if n * esz > 4096 {
                            return String::new();
                        }
                        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n * esz) as usize);
                        let hex: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
                        format!("{{\"hex\":\"{}\",\"es\":{}}}", hex, esz)
                    }
                    ty::Uint(_) | ty::Int(_) | ty::Bool | ty::Char => {
                        let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) else { return String::new() };
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: l.size };
                        match al.read_scalar(&tcx, r, false) {
                            Ok(sc) => self.scalar(sc, t),
                            Err(_) => String::new(),
                        }
                    }
                    ty::Ref(_, inner, _) => {
                        let ps = tcx.data_layout.pointer_size();
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: ps };
                        let Ok(Scalar::Ptr(p, _)) = al.read_scalar(&tcx, r, true) else { return String::new() };
                        let (prov, o) = p.into_raw_parts();
                        match inner.kind() {
                            ty::Str | ty::Slice(_) => {
                                let r2 = AllocRange { start: rustc_abi::Size::from_bytes(off + ps.bytes()), size: ps };
                                let Ok(Scalar::Int(n)) = al.read_scalar(&tcx, r2, false) else { return String::new() };
                                let n = n.to_bits(ps) as u64;
                                self.read_slice(prov.alloc_id(), o.bytes(), n, *inner)
                            }
                            _ => self.read_mem(prov.alloc_id(), o.bytes(), *inner),
                        }
                    }
                    ty::Tuple(ts) => {
                        let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) else { return String::new() };
                        let mut v = vec![];
                        for (i, et) in ts.iter().enumerate() {
                            let x = self.read_mem(aid, off + l.fields.offset(i).bytes(), et);
                            if x.is_empty() { return String::new(); }
                            v.push(x);
                        }
                        format!("{{\"tup\":{}}}", list(v))
                    }
                    _ => String::new(),
                }
            }
            GlobalAlloc::Static(d) => self.static_ref(d),
            _ => String::new(),
        }
    }
    fn static_ref(&mut self, d: DefId) -> String {
        if d.is_local() {
            let i = Instance::mono(self.tcx, d);
            let id = self.d.enqueue(Body::Inst(i), self.root);
            return format!("{{\"static\":{},\"inst\":{}}}", esc(&path_str(self.tcx, d)), id);
        }
        format!("{{\"static\":{}}}", esc(&path_str(self.tcx, d)))
    }
    fn read_slice(&mut self, aid: mir::interpret::AllocId, off: u64, n: u64, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Str => {
                if let GlobalAlloc::Memory(al) = self.tcx.global_alloc(aid) {
                    let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                    return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
                String::new()
            }
            ty::Slice(et) => {
                let at = Ty::new_array(self.tcx, *et, n);
                self.read_mem(aid, off, at)
            }
            _ => String::new(),
        }
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>) -> String {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                if t.is_signed() {
                    let v = i.size().sign_extend(bits);
                    return format!("{{\"int\":\"{}\"}}", v as i128);
                }
                format!("{{\"int\":\"{}\"}}", bits)
            }
            Scalar::Ptr(p, _) => {
                let (prov, o) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => self.static_ref(d),
                    GlobalAlloc::Memory(_) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            return self.read_mem(aid, o.bytes(), *inner);
                        }
                        String::new()
                    }
                    GlobalAlloc::Function { instance } => {
                        let f = self.fn_ref(instance.def_id(), instance.args);
                        format!("{{\"fnptr\":{}}}", f)
                    }
                    _ => String::new(),
                }
            }
        }
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => "{\"zst\":true}".to_string(),
            ConstValue::Scalar(s) => self.scalar(s, t),
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    return self.read_slice(alloc_id, 0, meta, *inner);
                }
                String::new()
            }
            ConstValue::Indirect { alloc_id, offset } => self.read_mem(alloc_id, offset.bytes(), t),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => esc(&with_no_trimmed_paths!(n.to_string())),
                };
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("{{\"k\":\"ref\",\"p\":{},\"mut\":{}}}", self.place(p), m)
            }
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"p\":{},\"raw\":true}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"use\",\"o\":{{\"p\":{}}}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"p\":{}}}}}", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "{\"k\":\"unk\"}".into(),
            Rvalue::Cast(ck, o, t) => {
                let from = o.ty(&self.body.local_decls, self.tcx);
                let mut extra = String::new();
                // a closure or fn item cast to a function pointer keeps its identity
                if let ty::Closure(d, a) = from.kind() {
                    let i = Instance::new_raw(*d, a);
                    let id = self.d.enqueue(Body::Inst(i), self.root);
                    extra = format!(",\"closure\":{}", id);
                }
                format!(
                    "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{},\"from\":{}{}}}",
                    esc(&format!("{:?}", ck)),
                    self.operand(o),
                    esc(&self.ty(*t)),
                    esc(&self.ty(from)),
                    extra
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&self.body.local_decls, self.tcx);
                format!(
                    "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"ty\":{}}}",
                    op,
                    self.operand(&b.0),
                    self.operand(&b.1),
                    esc(&self.ty(t))
                )
            }
            Rvalue::UnaryOp(op, o) => {
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(o))
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(p);
                self.note_adt(t);
                let adt = match t.kind() {
                    ty::Adt(a, _) => path_str(self.tcx, a.did()),
                    _ => String::new(),
                };
                format!("{{\"k\":\"discr\",\"p\":{},\"adt\":{}}}", self.place(p), esc(&adt))
            }
            Rvalue::Aggregate(k, fs) => {
                let fields: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                let head = match &**k {
                    mir::AggregateKind::Array(t) => format!("\"array\",\"ty\":{}", esc(&self.ty(*t))),
                    mir::AggregateKind::Tuple => "\"tuple\"".to_string(),
                    mir::AggregateKind::Adt(d, vi, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        self.d.adts.entry(path_str(self.tcx, *d)).or_insert(*d);
                        let v = a.variant(*vi);
                        let names = if let Some(fi) = active {
                            vec![esc(v.fields[*fi].name.as_str())]
                        } else {
                            v.fields.iter().map(|f| esc(f.name.as_str())).collect::<Vec<_>>()
                        };
                        format!(
                            "\"adt\",\"adt\":{},\"variant\":{},\"names\":{}",
                            esc(&path_str(self.tcx, *d)),
                            esc(v.name.as_str()),
                            list(names)
                        )
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        let id = self.d.enqueue(Body::Inst(i), self.root);
                        format!("\"closure\",\"inst\":{}", id)
                    }
                    mir::AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                    _ => "\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",\"kind\":{},\"fs\":{}}}", head, list(fields))
            }
            Rvalue::WrapUnsafeBinder(..) => "{\"k\":\"unk\"}".into(),
        }
    }
    fn dump(&mut self, id: usize, b: Body<'tcx>) {
        let tcx = self.tcx;
        let (def, args) = match b {
            Body::Inst(i) => (i.def_id(), i.args),
            Body::Promoted(d, a, _) => (d, a),
        };
        let mut s = format!("{{\"id\":{},\"path\":{}", id, esc(&path_str(tcx, def)));
        let _ = write!(s, ",\"crate\":{}", esc(tcx.crate_name(def.krate).as_str()));
        let _ = write!(s, ",\"kind\":{}", esc(&format!("{:?}", tcx.def_kind(def))));
        let _ = write!(
            s,
            ",\"args\":{}",
            list(args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))))
        );
        if let Body::Promoted(_, _, p) = b {
            let _ = write!(s, ",\"promoted\":{}", p.as_usize());
        }
        let _ = write!(s, ",\"span\":{}", esc(&self.span(tcx.def_span(def))));
        let _ = write!(s, ",\"argc\":{}", self.body.arg_count);
        let mut names: HashMap<usize, String> = HashMap::new();
        for vd in &self.body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = vd.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), vd.name.to_string());
                }
            }
        }
        if let Some(sp) = self.body.spread_arg {
            let _ = write!(s, ",\"spread\":{}", sp.as_usize());
        }
        let body = self.body;
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                self.note_adt(d.ty);
                let n = names.get(&l.as_usize()).map(|n| format!(",\"n\":{}", esc(n))).unwrap_or_default();
                let m = match d.ty.kind() {
                    ty::Ref(_, _, m) if m.is_mut() => ",\"m\":1",
                    ty::RawPtr(_, m) if m.is_mut() => ",\"m\":1",
                    _ => "",
                };
                format!("{{\"t\":{}{}{}}}", esc(&self.ty(d.ty)), n, m)
            })
            .collect();
        let _ = write!(s, ",\"locals\":{}", list(locals));
        let mut blocks = vec![];
        for (_bb, bd) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bd.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pl = self.place(p);
                        let rv = self.rvalue(r);
                        st.push(format!("[{},{}]", pl, rv));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = self.place_ty(place);
                        let vn = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        st.push(format!("[{},{{\"k\":\"setdiscr\",\"v\":{}}}]", self.place(place), esc(&vn)));
                    }
                    _ => {}
                }
            }
            let term = bd.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let vals = list(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())));
                    format!(
                        "{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"ts\":{},\"else\":{},\"span\":{}}}",
                        self.operand(discr),
                        esc(&self.ty(dt)),
                        vals,
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = if let ty::FnDef(d, a) = ft.kind() {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        self.fn_ref(*d, a)
                    } else {
                        format!("{{\"ptr\":{}}}", self.operand(func))
                    };
                    let mut a = vec![];
                    for x in args.iter() {
                        let t = x.node.ty(&body.local_decls, tcx);
                        let m = matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut());
                        let o = self.operand(&x.node);
                        let r = self.is_rng(t);
                        a.push(format!("[{},{},{},{}]", o, if m { 1 } else { 0 }, esc(&self.ty(t)), if r { 1 } else { 0 }));
                    }
                    let dt = self.place_ty(destination);
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"dty\":{},\"t\":{},\"span\":{}}}",
                        f,
                        list(a),
                        self.place(destination),
                        esc(&self.ty(dt)),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mk = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) => "overflow",
                        mir::AssertKind::OverflowNeg(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) => "div0",
                        mir::AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    format!(
                        "{{\"k\":\"assert\",\"o\":{},\"exp\":{},\"msg\":\"{}\",\"t\":{},\"span\":{}}}",
                        self.operand(cond),
                        expected,
                        mk,
                        target.as_usize(),
                        sp
                    )
                }
                _ => "{\"k\":\"diverge\"}".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}{}}}", list(st), t, if bd.is_cleanup { ",\"cu\":1" } else { "" }));
        }
        let _ = write!(s, ",\"blocks\":{}}}", list(blocks));
        self.d.out.push(s);
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() != "orchard" {
            return Compilation::Continue;
        }
        let mut d = Dumper { tcx, ids: HashMap::new(), queue: VecDeque::new(), adts: BTreeMap::new(), rng: None, rngmemo: HashMap::new(), out: vec![] };
        d.rng = tcx
            .all_traits_including_private()
            .find(|t| tcx.crate_name(t.krate).as_str() == "rand_core" && tcx.item_name(*t).as_str() == "RngCore");
        let mut items = vec![];
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
            if !is_fn && !is_const {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let inst = Instance::new_raw(def, args);
            let id = d.enqueue(Body::Inst(inst), def);
            let vis = tcx.effective_visibilities(()).is_reachable(ld);
            let is_unsafe = is_fn && !tcx.fn_sig(def).skip_binder().safety().is_safe();
            let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(def).source_callsite().lo());
            let mut imp = String::new();
            if let Some(i) = tcx.opt_parent(def) {
                if let DefKind::Impl { .. } = tcx.def_kind(i) {
                    let st = with_no_trimmed_paths!(tcx.type_of(i).instantiate_identity().skip_norm_wip().to_string());
                    let tr = tcx.impl_opt_trait_ref(i).map(|t| with_no_trimmed_paths!(t.instantiate_identity().skip_norm_wip().to_string())).unwrap_or_default();
                    let der = tcx.is_automatically_derived(i);
                    imp = format!(",\"self\":{},\"trait\":{},\"derived\":{}", esc(&st), esc(&tr), der);
                }
            }
            items.push(format!(
                "{{\"item\":{},\"path\":{},\"kind\":{},\"pub\":{},\"unsafe\":{},\"exp\":{},\"span\":{}{}}}",
                id,
                esc(&path_str(tcx, def)),
                esc(&format!("{:?}", kind)),
                vis,
                is_unsafe,
                tcx.def_span(def).from_expansion(),
                esc(&format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line)),
                imp
            ));
        }
        // unsafe code written in this crate
        struct UV<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<String>,
        }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UV<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) {
                    let sp = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
                    self.out.push(format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut unsafes: Vec<String> = vec![];
        tcx.hir_walk_toplevel_module(&mut UV { tcx, out: &mut unsafes });
        items.push(format!("{{\"unsafe_blocks\":{}}}", list(unsafes.iter().map(|x| esc(x)))));
        while let Some((b, root, id)) = d.queue.pop_front() {
            let env = TypingEnv::post_analysis(tcx, root);
            let body: mir::Body<'tcx> = match b {
                Body::Inst(i) => {
                    let def = i.def_id();
                    let raw = match tcx.def_kind(def) {
                        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => tcx.mir_for_ctfe(def),
                        _ => tcx.instance_mir(i.def),
                    };
                    i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone()))
                        .unwrap_or_else(|_| raw.clone())
                }
                Body::Promoted(def, args, p) => {
                    let raw = tcx.promoted_mir(def)[p].clone();
                    let i = Instance::new_raw(def, args);
                    i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone()))
                        .unwrap_or(raw)
                }
            };
            let mut cx = Cx { d: &mut d, tcx, env, root, body: &body };
            cx.dump(id, b);
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(ld), DefKind::Struct | DefKind::Enum) {
                d.adts.entry(path_str(tcx, ld.to_def_id())).or_insert(ld.to_def_id());
            }
        }
        let mut adt_lines = vec![];
        for (p, did) in &d.adts {
            let a = tcx.adt_def(*did);
            let vs = list(a.variants().iter_enumerated().map(|(vi, v)| {
                let dv = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                let fs = list(v.fields.iter().map(|f| {
                    let t0 = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = if did.is_local() {
                        tcx.try_normalize_erasing_regions(ty::TypingEnv::post_analysis(tcx, *did), ty::Unnormalized::new_wip(t0)).unwrap_or(t0)
                    } else { t0 };
                    format!("[{},{},{}]", esc(f.name.as_str()), esc(&with_no_trimmed_paths!(t.to_string())), esc(&format!("{:?}", f.vis)))
                }));
                format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), dv, fs)
            }));
            adt_lines.push(format!("{{\"adt\":{},\"enum\":{},\"local\":{},\"vs\":{}}}", esc(p), a.is_enum(), did.is_local(), vs));
        }
        let tmp = format!("{}.tmp", self.out);
        let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("create dump"));
        for l in items.iter().chain(adt_lines.iter()).chain(d.out.iter()) {
            f.write_all(l.as_bytes()).unwrap();
            f.write_all(b"\n").unwrap();
        }
        f.flush().unwrap();
        drop(f);
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // argv: driver rustc-path args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let out = std::env::var("ORCHARD_MIR_OUT").unwrap_or_else(|_| "/dev/null".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "orchard");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
        // debug assertions are not there when the library is used; overflow is always to be seen
        if std::env::var("ORCHARD_ASSERTIONS").as_deref() != Ok("on") {
            args.push("-Cdebug-assertions=off".into());
        }
        args.push("-Coverflow-checks=on".into());
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
