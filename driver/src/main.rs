//! MIR fact extractor: a rustc driver that type-checks the crate with the real
//! build flags and writes its optimized_mir (mir-opt-level 0), with resolved
//! callees, as JSON.  It decides nothing; the analyses in /verif/sa read it.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------- tiny JSON ----------
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn i<T: TryInto<i128>>(x: T) -> J {
    J::I(x.try_into().ok().unwrap())
}
fn esc(o: &mut String, v: &str) {
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(v) => {
                write!(o, "{}", v).unwrap();
            }
            J::S(v) => esc(o, v),
            J::A(v) => {
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',')
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<J>>,
    tyid: HashMap<(Ty<'tcx>, Option<DefId>), usize>,
    bodies: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>, Option<DefId>)>, // key, instance, env root
    root: Option<DefId>, // env root for the current body
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn pathargs<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str_with_args(d, a))))
}

fn descend(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.is_local() {
        return true;
    }
    let cr = tcx.crate_name(d.krate);
    let cr = cr.as_str();
    if cr == "err_tools" {
        return true;
    }
    if cr != "core" && cr != "alloc" && cr != "std" {
        return false;
    }
    // module path of the item, from the def path data (canonical)
    let dp = tcx.def_path(d);
    let segs: Vec<String> = dp
        .data
        .iter()
        .map(|x| match x.data.get_opt_name() {
            Some(n) => n.to_string(),
            None => String::from("{}"),
        })
        .collect();
    let m0 = segs.get(0).map(|x| x.as_str()).unwrap_or("");
    let m1 = segs.get(1).map(|x| x.as_str()).unwrap_or("");
    match (cr, m0) {
        ("core", "option") | ("core", "result") | ("core", "convert") | ("core", "bool") => true,
        ("core", "ops") => true,
        ("core", "cmp") => true,
        ("core", "iter") => m1 != "range",
        ("core", "array") => m1 == "iter" && false,
        ("core", "slice") => m1 == "cmp" && false,
        ("alloc", "borrow") => true,
        ("core", "borrow") => true,
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        match self.root {
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
            None => TypingEnv::fully_monomorphized(),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let key = (t, if t.has_param() { self.root } else { None });
        if let Some(n) = self.tyid.get(&key) {
            return *n;
        }
        let n = self.types.len();
        self.types.push(None);
        self.tyid.insert(key, n);
        let tcx = self.tcx;
        let st = with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string())));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s("int")));
                let (sg, bits) = match t.kind() {
                    ty::Int(it) => (true, it.bit_width().unwrap_or(64)),
                    ty::Uint(it) => (false, it.bit_width().unwrap_or(64)),
                    _ => unreachable!(),
                };
                o.push(("signed", J::B(sg)));
                o.push(("bits", i(bits)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                o.push(("k", s("adt")));
                o.push(("name", s(p.clone())));
                o.push((
                    "akind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_struct() {
                        "struct"
                    } else {
                        "union"
                    }),
                ));
                let ta: Vec<J> = args.types().map(|x| i(self.ty(x))).collect();
                o.push(("args", J::A(ta)));
                let expand = def.is_enum() || def.did().is_local() || p.starts_with("core::iter") || p.starts_with("core::ops") || p.starts_with("err_tools") || p.starts_with("gobble") || p.starts_with("core::array")|| p.starts_with("core::cmp")|| p.starts_with("card_format");
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let dv: i128 = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            sext(tcx, d.ty, d.val)
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env(), ft)
                                .unwrap_or(f.ty(tcx, args).skip_norm_wip());
                            fs.push(J::A(vec![s(f.name.to_string()), i(self.ty(ft))]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("d", J::I(dv)), ("f", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(x);
                o.push(("t", i(x)));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(x);
                o.push(("t", i(x)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(x);
                o.push(("t", i(x)));
            }
            ty::Array(x, l) => {
                o.push(("k", s("array")));
                let x = self.ty(x);
                o.push(("t", i(x)));
                if let Some(v) = l.try_to_target_usize(tcx) {
                    o.push(("len", i(v)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| i(self.ty(x))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(path(tcx, d))));
                let ca = args.as_closure();
                let v: Vec<J> = ca.upvar_tys().iter().map(|x| i(self.ty(x))).collect();
                o.push(("up", J::A(v)));
                o.push(("ck", s(format!("{:?}", ca.kind()))));
                let inst = Instance::new_raw(d, args);
                let k = self.enqueue(inst);
                o.push(("body", s(k)));
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                o.push(("k", s("fndef")));
                o.push(("def", s(path(tcx, d))));
                let v = self.callee(d, args);
                o.push(("fn", v));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(pr, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = pr.principal_def_id() {
                    o.push(("trait", s(path(tcx, p))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[n] = Some(J::O(o));
        n
    }

    fn key_of(&self, inst: &Instance<'tcx>) -> String {
        let d = inst.def_id();
        let mut k = pathargs(self.tcx, d, inst.args);
        if inst.args.has_param() {
            if let Some(r) = self.root {
                if r != d && !(d.is_local() && self.is_identity(d, inst.args)) {
                    k = format!("{}@{}", k, path(self.tcx, r));
                }
            }
        }
        // closures: def_path_str_with_args does not spell the args
        if self.tcx.is_closure_like(d) {
            let a: Vec<String> = inst.args.types().map(|t| with_no_trimmed_paths!(t.to_string())).collect();
            if !d.is_local() {
                k = format!("{}<{}>", k, a.join(","));
            }
        }
        k
    }
    fn is_identity(&self, d: DefId, args: GenericArgsRef<'tcx>) -> bool {
        let id = ty::GenericArgs::identity_for_item(self.tcx, d);
        let a: Vec<Ty<'tcx>> = args.types().collect();
        let b: Vec<Ty<'tcx>> = id.types().collect();
        a == b
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let k = self.key_of(&inst);
        if !self.seen.contains(&k) {
            self.seen.insert(k.clone());
            let d = inst.def_id();
            let root = if inst.args.has_param() {
                if d.is_local() && self.is_identity(d, inst.args) {
                    Some(d)
                } else {
                    self.root
                }
            } else if d.is_local() && !inst.args.has_param() {
                None
            } else {
                None
            };
            self.queue.push_back((k.clone(), inst, root));
        }
        k
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d))), ("crate", s(tcx.crate_name(d.krate).to_string()))];
        let ta: Vec<J> = args.types().map(|x| i(self.ty(x))).collect();
        o.push(("args", J::A(ta)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        if tcx.def_kind(d) == DefKind::Fn || tcx.def_kind(d) == DefKind::AssocFn {
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                o.push(("unsafe", J::B(true)));
            }
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        let r = Instance::try_resolve(tcx, self.env(), d, eargs);
        match r {
            Ok(Some(inst)) => match inst.def {
                InstanceKind::Item(rd) => {
                    o.push(("kind", s("item")));
                    o.push(("rpath", s(path(tcx, rd))));
                    o.push(("rcrate", s(tcx.crate_name(rd.krate).to_string())));
                    if tcx.is_closure_like(rd) {
                        o.push(("closure", J::B(true)));
                    }
                    let has_body = tcx.is_mir_available(rd);
                    if has_body && descend(tcx, rd) && !tcx.is_constructor(rd) {
                        let k = self.enqueue(inst);
                        o.push(("body", s(k)));
                    }
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let sty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("impl_self", s(with_no_visible_paths!(with_no_trimmed_paths!(sty.to_string())))));
                    }
                    if tcx.is_constructor(rd) {
                        let sig = tcx.fn_sig(rd).instantiate(tcx, inst.args).skip_norm_wip();
                        let out = tcx.erase_and_anonymize_regions(sig.output().skip_binder());
                        match out.kind() {
                            ty::Adt(ad, _) => {
                                let v = if ad.is_enum() { ad.variant_index_with_ctor_id(rd).as_usize() } else { 0 };
                                let tid = self.ty(out);
                                o.push(("ctor", J::O(vec![("t", i(tid)), ("v", i(v))])));
                            }
                            _ => o.push(("ctor", J::B(true))),
                        }
                    }
                }
                InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                InstanceKind::Intrinsic(rd) => {
                    o.push(("kind", s("intrinsic")));
                    o.push(("rpath", s(path(tcx, rd))));
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    o.push(("kind", s("closure_once")));
                    let ci = Instance::new_raw(closure, inst.args);
                    // inst.args[0] is the closure type
                    let cty = args.type_at(0);
                    let tid = self.ty(cty);
                    o.push(("cty", i(tid)));
                    let _ = ci;
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                    o.push(("kind", s("fnptr_shim")));
                    let tid = self.ty(t);
                    o.push(("cty", i(tid)));
                }
                InstanceKind::Shim(ShimKind::Clone(..)) => o.push(("kind", s("clone_shim"))),
                InstanceKind::Shim(ShimKind::DropGlue(..)) => o.push(("kind", s("drop"))),
                _ => o.push(("kind", s("shim"))),
            },
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::S(format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), i(f.as_usize()), i(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_usize())]),
                _ => J::A(vec![s("other")]),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        J::O(vec![("l", i(p.local.as_usize())), ("p", J::A(pr)), ("t", i(t))])
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, owner: &str) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("t", i(tid))];
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            let cal = self.callee(d, args);
            o.push(("fn", cal));
            return J::O(o);
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let _ = uv.def;
                o.push(("promoted", s(format!("{}::promoted[{}]", owner, p.as_usize()))));
                return J::O(o);
            }
            o.push(("item", s(path(tcx, uv.def))));
            if let Some(sd) = tcx.trait_of_assoc(uv.def) {
                let _ = sd;
            }
        }
        let st = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", c.const_)));
        o.push(("s", s(st)));
        match c.const_.eval(tcx, self.env(), c.span) {
            Ok(v) => self.constval(v, t, &mut o),
            Err(_) => {}
        }
        J::O(o)
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => {
                if let Some(x) = v.try_to_scalar_int() {
                    o.push(("bool", J::B(x.try_to_bool().unwrap_or(false))));
                }
            }
            ty::Char => {
                if let Some(x) = v.try_to_scalar_int() {
                    o.push(("char", i(x.to_u32())));
                }
            }
            ty::Uint(_) => {
                if let Some(x) = v.try_to_scalar_int() {
                    o.push(("int", J::I(x.to_uint(x.size()) as i128)));
                }
            }
            ty::Int(_) => {
                if let Some(x) = v.try_to_scalar_int() {
                    o.push(("int", J::I(x.to_int(x.size()))));
                }
            }
            ty::Float(_) => {
                if let Some(x) = v.try_to_scalar_int() {
                    o.push(("float", s(format!("{}", if x.size().bytes() == 8 { f64::from_bits(x.to_u64()) } else { f32::from_bits(x.to_u32()) as f64 }))));
                }
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                    }
                }
                ty::Slice(e) if *e == tcx.types.u8 => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("bytes", J::A(b.iter().map(|x| i(*x)).collect())));
                    }
                }
                ty::Array(e, n) if *e == tcx.types.u8 => {
                    if let (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), Some(n)) = (v, n.try_to_target_usize(tcx)) {
                        let (prov, off) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let a = a.inner();
                            let lo = off.bytes_usize();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + n as usize);
                            o.push(("bytes", J::A(b.iter().map(|x| i(*x)).collect())));
                        }
                    }
                }
                _ => {
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, _) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            o.push(("static", s(path(tcx, d))));
                        }
                    }
                }
            },
            _ => {
                if let ConstValue::ZeroSized = v {
                    o.push(("zst", J::B(true)));
                } else if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            if let Some(vi) = d.variant {
                                o.push(("variant", i(vi.as_usize())));
                                let mut fs = vec![];
                                for (fv, ft) in d.fields.iter() {
                                    let tid = self.ty(*ft);
                                    let mut fo: Vec<(&'static str, J)> = vec![("k", s("const")), ("t", i(tid))];
                                    self.constval(*fv, *ft, &mut fo);
                                    fs.push(J::O(fo));
                                }
                                o.push(("fields", J::A(fs)));
                            }
                        }
                    }
                }
            }
        }
    }

    fn operand(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>, owner: &str) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.konst(c, owner),
            _ => J::O(vec![("k", s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, owner: &str) -> J {
        match r {
            Rvalue::Use(x, _) => J::O(vec![("r", s("use")), ("o", self.operand(x, body, owner))]),
            Rvalue::Repeat(x, n) => J::O(vec![
                ("r", s("repeat")),
                ("o", self.operand(x, body, owner)),
                ("n", n.try_to_target_usize(self.tcx).map(|v| i(v)).unwrap_or(J::N)),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("r", s("rawptr")), ("p", self.place(p, body))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("d", s(path(self.tcx, *d)))]),
            Rvalue::Cast(k, x, t) => {
                let t = self.ty(*t);
                J::O(vec![("r", s("cast")), ("ck", s(format!("{:?}", k))), ("o", self.operand(x, body, owner)), ("t", i(t))])
            }
            Rvalue::BinaryOp(op, ab) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(&ab.0, body, owner)),
                ("b", self.operand(&ab.1, body, owner)),
            ]),
            Rvalue::UnaryOp(op, x) => J::O(vec![("r", s("un")), ("op", s(format!("{:?}", op))), ("o", self.operand(x, body, owner))]),
            Rvalue::Discriminant(p) => J::O(vec![("r", s("discr")), ("p", self.place(p, body))]),
            Rvalue::CopyForDeref(p) => J::O(vec![("r", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(p, body))]))]),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|x| self.operand(x, body, owner)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                let mut o = vec![("r", s("agg")), ("t", i(tid)), ("f", J::A(fs))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(_, v, _, _, _) => {
                        o.push(("ak", s("adt")));
                        o.push(("v", i(v.as_usize())));
                    }
                    AggregateKind::Closure(..) => o.push(("ak", s("closure"))),
                    _ => o.push(("ak", s("other"))),
                }
                J::O(o)
            }
            other => J::O(vec![("r", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }

    fn dump_body(&mut self, key: &str, inst: Instance<'tcx>, body: &Body<'tcx>, kind: &str) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(key)),
            ("path", s(path(tcx, d))),
            ("crate", s(tcx.crate_name(d.krate).to_string())),
            ("local", J::B(d.is_local())),
            ("kind", s(kind)),
            ("argc", i(body.arg_count)),
            ("span", self.span(body.span)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::N)),
            ("closure", J::B(tcx.is_closure_like(d))),
        ];
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(path(tcx, tr.def_id))));
                o.push(("impl_self", s(with_no_visible_paths!(with_no_trimmed_paths!(tr.self_ty().to_string())))));
                o.push(("method", s(tcx.item_name(d).to_string())));
            } else {
                let sty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", s(with_no_visible_paths!(with_no_trimmed_paths!(sty.to_string())))));
                o.push(("method", s(tcx.item_name(d).to_string())));
            }
        }
        if d.is_local() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(d.expect_local()))));
        }
        let loc: Vec<J> = body
            .local_decls
            .iter()
            .map(|l| {
                let n = self.ty(l.ty);
                i(n)
            })
            .collect();
        o.push(("locals", J::A(loc)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p, body)]));
            }
        }
        o.push(("names", J::A(names)));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let pl = self.place(&pr.0, body);
                        let rv = self.rvalue(&pr.1, body, key);
                        st.push(J::A(vec![s("="), pl, rv, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, body);
                        st.push(J::A(vec![s("setd"), pl, i(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(x) => match &**x {
                        NonDivergingIntrinsic::Assume(op) => {
                            let op = self.operand(op, body, key);
                            st.push(J::A(vec![s("assume"), op]));
                        }
                        _ => st.push(J::A(vec![s("copynonoverlapping")])),
                    },
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let mut to: Vec<(&'static str, J)> = vec![("sp", self.span(t.source_info.span))];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    to.push(("k", s("goto")));
                    to.push(("to", i(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    to.push(("k", s("switch")));
                    to.push(("o", self.operand(discr, body, key)));
                    let dty = discr.ty(body, tcx);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(sext(tcx, dty, v)), i(b.as_usize())])).collect();
                    to.push(("ts", J::A(v)));
                    to.push(("else", i(targets.otherwise().as_usize())));
                }
                TerminatorKind::Return => to.push(("k", s("return"))),
                TerminatorKind::Unreachable => to.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => to.push(("k", s("resume"))),
                TerminatorKind::Drop { place, target, .. } => {
                    to.push(("k", s("drop")));
                    to.push(("p", self.place(place, body)));
                    to.push(("to", i(target.as_usize())));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    to.push(("k", s("call")));
                    to.push(("f", self.operand(func, body, key)));
                    let v: Vec<J> = args.iter().map(|a| self.operand(&a.node, body, key)).collect();
                    to.push(("a", J::A(v)));
                    to.push(("d", self.place(destination, body)));
                    to.push(("to", target.map(|x| i(x.as_usize())).unwrap_or(J::N)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    to.push(("k", s("assert")));
                    to.push(("c", self.operand(cond, body, key)));
                    to.push(("e", J::B(*expected)));
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len, body, key), self.operand(index, body, key)])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![self.operand(a, body, key), self.operand(b, body, key)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a, body, key)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a, body, key)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a, body, key)]),
                        x => (format!("{:?}", x), vec![]),
                    };
                    to.push(("m", s(mk)));
                    to.push(("mo", J::A(ops)));
                    to.push(("to", i(target.as_usize())));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    to.push(("k", s("goto")));
                    to.push(("to", i(real_target.as_usize())));
                }
                x => {
                    to.push(("k", s("other")));
                    to.push(("s", s(format!("{:?}", x))));
                }
            }
            bs.push(J::O(vec![("c", J::B(bb.is_cleanup)), ("s", J::A(st)), ("t", J::O(to))]));
        }
        o.push(("blocks", J::A(bs)));
        self.bodies.push((key.to_string(), J::O(o)));
    }

    fn run(&mut self) {
        while let Some((key, inst, root)) = self.queue.pop_front() {
            self.root = root;
            let tcx = self.tcx;
            let d = inst.def_id();
            if !tcx.is_mir_available(d) {
                continue;
            }
            let body0 = tcx.instance_mir(inst.def);
            let env = self.env();
            let body: Body<'tcx> = if inst.args.has_param() && self.is_identity(d, inst.args) {
                tcx.normalize_erasing_regions(env, EarlyBinder::bind(tcx, body0.clone()).instantiate_identity())
            } else {
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body0.clone()))
            };
            self.dump_body(&key, inst, &body, "fn");
            if d.is_local() || true {
                for (n, pb) in tcx.promoted_mir(d).iter_enumerated() {
                    let pb: Body<'tcx> = if inst.args.has_param() && self.is_identity(d, inst.args) {
                        tcx.normalize_erasing_regions(env, EarlyBinder::bind(tcx, pb.clone()).instantiate_identity())
                    } else {
                        inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb.clone()))
                    };
                    let k = format!("{}::promoted[{}]", key, n.as_usize());
                    self.dump_body(&k, inst, &pb, "promoted");
                }
            }
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: vec![], tyid: HashMap::new(), bodies: vec![], seen: HashSet::new(), queue: VecDeque::new(), root: None };
        let mut statics = vec![];
        let mut roots: Vec<DefId> = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => roots.push(d),
                DefKind::Static { .. } => statics.push(d),
                _ => {}
            }
        }
        roots.sort_by_key(|d| tcx.def_path_hash(*d));
        roots.sort_by_key(|d| path(tcx, *d));
        for d in roots {
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            cx.root = if args.has_param() { Some(d) } else { None };
            cx.enqueue(inst);
        }
        cx.run();
        // traits: items of local traits and impls
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims {
                let im = im.to_def_id();
                let trr = tcx.impl_opt_trait_ref(im).unwrap().instantiate_identity().skip_norm_wip();
                let mut ms = vec![];
                for it in tcx.associated_items(im).in_definition_order() {
                    ms.push(s(path(tcx, it.def_id)));
                }
                impls.push(J::O(vec![
                    ("trait", s(path(tcx, *tr))),
                    ("self", s(with_no_visible_paths!(with_no_trimmed_paths!(trr.self_ty().to_string())))),
                    ("items", J::A(ms)),
                ]));
            }
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.root = Some(d);
                let n = cx.ty(t);
                adts.push((path(tcx, d), i(n)));
            }
        }
        let mut st = vec![];
        for d in statics {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let m = tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false);
            let frz = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            st.push(J::O(vec![("path", s(path(tcx, d))), ("mut", J::B(m)), ("freeze", J::B(frz)), ("ty", s(t.to_string()))]));
        }
        cx.run();
        // files and unsafe blocks
        let mut files = vec![];
        for f in tcx.sess.source_map().files().iter() {
            if f.cnum == LOCAL_CRATE {
                files.push(s(f.name.prefer_local_unconditionally().to_string()));
            }
        }
        let types = std::mem::take(&mut cx.types);
        let j = J::O(vec![
            ("crate", s(want)),
            ("bodies", J::M(std::mem::take(&mut cx.bodies))),
            ("types", J::A(types.into_iter().map(|x| x.unwrap_or(J::N)).collect())),
            ("impls", J::A(impls)),
            ("adts", J::M(adts)),
            ("statics", J::A(st)),
            ("files", J::A(files)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
/// the mathematical value of the bits of an integer of type t
fn sext<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, bits: u128) -> i128 {
    let n = match t.kind() {
        ty::Int(it) => it.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits()),
        _ => return bits as i128,
    };
    let sh = 128 - n as u32;
    ((bits << sh) as i128) >> sh
}
