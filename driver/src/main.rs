//! Fact extractor: runs as `rustc` (RUSTC_WORKSPACE_WRAPPER) and dumps, for the crate named in
//! MIRFACTS_CRATES, the type-checked, monomorphised MIR as JSON into $MIRFACTS_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, Allocation, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, BinOp, Body, CastKind, Const, ConstValue, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp, UnwindAction,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- extraction
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    fn_ix: HashMap<String, usize>,
    queue: VecDeque<(usize, Instance<'tcx>, bool)>,
    nfns: usize,
    vtables: BTreeMap<String, J>,
}

const EXT_PREFIXES: &[&str] = &[
    "core::option::", "std::option::", "core::result::", "std::result::", "core::mem::take",
    "std::mem::take", "std::mem::replace", "core::bool::", "std::ops::ControlFlow", "core::ops::control_flow",
    "std::bool::", "core::convert::", "std::convert::", "std::ops::function::impls",
    "core::ops::function::impls",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, id);
        let st = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match *t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                let p = self.path(def.did());
                o.push(("adt", s(p.clone())));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
                self.adt(def, p, t);
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(x);
                o.push(("t", i));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("ptr")));
                let i = self.ty(x);
                o.push(("t", i));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Array(x, _) | ty::Slice(x) => {
                o.push(("k", s("seq")));
                let i = self.ty(x);
                o.push(("t", i));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(d))));
                let a: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t))
                    .collect();
                o.push(("args", J::A(a)));
                if !t.has_param_() {
                    let inst = Instance::new_raw(d, args);
                    let f = self.enqueue(inst, false);
                    o.push(("fn", f));
                }
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(d))));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Str | ty::Float(_) => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: String, _t: Ty<'tcx>) {
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        if def.is_enum() {
            for (vi, d) in def.discriminants(tcx) {
                let v = def.variant(vi);
                let fts: Vec<J> = v
                    .fields
                    .iter()
                    .map(|f| {
                        s(with_no_trimmed_paths!(tcx
                            .type_of(f.did)
                            .instantiate_identity()
                            .skip_norm_wip()
                            .to_string()))
                    })
                    .collect();
                vs.push(J::O(vec![
                    ("name", s(v.name.to_string())),
                    ("discr", J::N(d.val as i128)),
                    ("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())),
                    ("ftys", J::A(fts)),
                ]));
            }
        } else if def.is_struct() {
            let v = def.non_enum_variant();
            let fts: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    s(with_no_trimmed_paths!(tcx
                        .type_of(f.did)
                        .instantiate_identity()
                        .skip_norm_wip()
                        .to_string()))
                })
                .collect();
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", n(0)),
                ("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())),
                ("ftys", J::A(fts)),
            ]));
        }
        let drop = tcx.adt_destructor(def.did()).map(|d| self.path(d.did));
        let j = J::O(vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
            ("local", J::B(def.did().is_local())),
            ("krate", s(tcx.crate_name(def.did().krate).to_string())),
            ("variants", J::A(vs)),
            ("dtor", drop.map(s).unwrap_or(J::Null)),
        ]);
        self.adts.insert(p, j);
    }
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}|{:?}", self.tcx.def_path_str_with_args(i.def_id(), i.args), i.def))
    }
    fn want(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.path(d);
        EXT_PREFIXES.iter().any(|x| p.starts_with(x) || p.starts_with(&format!("<{x}")))
            || p.starts_with("<T as std::convert::")
    }
    /// foreign generic instance over one of our types: scanned for the calls back into the crate
    fn mentions_local(&self, i: Instance<'tcx>) -> bool {
        i.args.types().any(|t| {
            t.walk().any(|g| match g.as_type().map(|t| t.kind()) {
                Some(ty::Adt(d, _)) => d.did().is_local(),
                Some(ty::Closure(d, _)) | Some(ty::FnDef(d, _)) => d.is_local(),
                _ => false,
            })
        })
    }
    fn foreign_body(&mut self, id: usize, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let env = TypingEnv::fully_monomorphized();
        let raw: &Body<'tcx> = tcx.instance_mir(inst.def);
        let body: Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let mut calls = vec![];
        for bb in body.basic_blocks.iter() {
            if let TerminatorKind::Call { func: Operand::Constant(c), .. } = &bb.terminator().kind {
                if let ty::FnDef(d, a) = *c.const_.ty().kind() {
                    calls.push(self.fnref(d, a.skip_binder(), env));
                }
            }
        }
        J::O(vec![
            ("id", n(id)),
            ("path", s(self.path(d))),
            ("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args)))),
            ("krate", s(tcx.crate_name(d.krate).to_string())),
            ("local", J::B(false)),
            ("foreign", J::B(true)),
            ("calls", J::A(calls)),
        ])
    }
    fn enqueue(&mut self, i: Instance<'tcx>, poly: bool) -> J {
        let d = i.def_id();
        let ok = match i.def {
            InstanceKind::Item(_) => self.tcx.is_mir_available(d),
            _ => false,
        };
        if !ok || !(self.want(d) || (!poly && self.mentions_local(i))) {
            return J::Null;
        }
        let k = self.inst_key(i);
        if let Some(x) = self.fn_ix.get(&k) {
            return n(*x);
        }
        let id = self.nfns;
        self.nfns += 1;
        self.fn_ix.insert(k, id);
        self.queue.push_back((id, i, poly));
        n(id)
    }

    // ---- constants
    fn read(&mut self, alloc: &Allocation, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        if depth > 8 {
            return J::O(vec![("unk", s("deep"))]);
        }
        let tcx = self.tcx;
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else {
            return J::O(vec![("unk", s("layout"))]);
        };
        let rd = |o: u64, sz: u64, ptr: bool| -> Option<Scalar> {
            alloc
                .read_scalar(
                    &tcx,
                    AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(sz) },
                    ptr,
                )
                .ok()
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match rd(off, layout.size.bytes(), false) {
                    Some(Scalar::Int(i)) => self.scalar_int(i, t),
                    _ => J::O(vec![("unk", s("scalar"))]),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let p = rd(off, 8, true);
                let Some(Scalar::Ptr(p, _)) = p else {
                    return J::O(vec![("unk", s("ptr"))]);
                };
                let (prov, o2) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                let meta = if layout.size.bytes() == 16 {
                    match rd(off + 8, 8, false) {
                        Some(Scalar::Int(i)) => Some(i.to_u64()),
                        _ => None,
                    }
                } else {
                    None
                };
                self.deref(aid, o2.bytes(), inner, meta, env, depth + 1)
            }
            ty::Array(inner, len) => {
                let Some(len) = len.try_to_target_usize(tcx) else {
                    return J::O(vec![("unk", s("len"))]);
                };
                if len > 4096 {
                    return J::O(vec![("unk", s("big"))]);
                }
                if inner == tcx.types.u8 {
                    let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                    return J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]);
                }
                let es = tcx.layout_of(env.as_query_input(inner)).map(|l| l.size.bytes()).unwrap_or(0);
                let v = (0..len).map(|i| self.read(alloc, off + i * es, inner, env, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            ty::Tuple(ts) => {
                let v = ts
                    .iter()
                    .enumerate()
                    .map(|(i, t)| self.read(alloc, off + layout.fields.offset(i).bytes(), t, env, depth + 1))
                    .collect();
                J::O(vec![("tuple", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let v = def
                    .non_enum_variant()
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft));
                        self.read(alloc, off + layout.fields.offset(i).bytes(), ft, env, depth + 1)
                    })
                    .collect();
                J::O(vec![("adt", s(self.path(def.did()))), ("variant", n(0)), ("fields", J::A(v))])
            }
            ty::Adt(def, args) if def.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &layout.variants {
                    Variants::Single { index } => Some(*index),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + layout.fields.offset(tag_field.as_usize()).bytes();
                        let ts = tag.size(&tcx).bytes();
                        let tagv = match rd(to, ts, matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_))) {
                            Some(Scalar::Int(i)) => Some(i.to_bits_unchecked()),
                            Some(Scalar::Ptr(..)) => None,
                            None => return J::O(vec![("unk", s("tag"))]),
                        };
                        match tag_encoding {
                            TagEncoding::Direct => tagv.and_then(|b| {
                                def.discriminants(tcx).find(|(_, d)| {
                                    let m = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                    d.val & m == b
                                }).map(|(v, _)| v)
                            }),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match tagv {
                                None => Some(*untagged_variant),
                                Some(b) => {
                                    let m = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                    let rel = b.wrapping_sub(*niche_start) & m;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= cnt {
                                        Some(rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32))
                                    } else {
                                        Some(*untagged_variant)
                                    }
                                }
                            },
                        }
                    }
                    _ => None,
                };
                let Some(vi) = vi else { return J::O(vec![("unk", s("variant"))]) };
                let cxl = rustc_middle::ty::layout::LayoutCx::new(tcx, env);
                let vl = layout.for_variant(&cxl, vi);
                let v = def
                    .variant(vi)
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft));
                        self.read(alloc, off + vl.fields.offset(i).bytes(), ft, env, depth + 1)
                    })
                    .collect();
                J::O(vec![
                    ("adt", s(self.path(def.did()))),
                    ("variant", n(vi.as_usize())),
                    ("fields", J::A(v)),
                ])
            }
            _ => J::O(vec![("unk", s("ty"))]),
        }
    }
    fn deref(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(m) => {
                let alloc = m.inner();
                match *t.kind() {
                    ty::Str => {
                        let l = meta.unwrap_or(0);
                        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + l) as usize);
                        J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))])
                    }
                    ty::Slice(inner) => {
                        let l = meta.unwrap_or(0);
                        if inner == tcx.types.u8 {
                            let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + l) as usize);
                            return J::O(vec![("ref", J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]))]);
                        }
                        let es = tcx.layout_of(env.as_query_input(inner)).map(|l| l.size.bytes()).unwrap_or(0);
                        let v = (0..l).map(|i| self.read(alloc, off + i * es, inner, env, depth + 1)).collect();
                        J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                    }
                    _ => {
                        let v = self.read(alloc, off, t, env, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            GlobalAlloc::Static(d) => J::O(vec![("static", s(self.path(d)))]),
            GlobalAlloc::Function { instance } => J::O(vec![("fnptr", s(self.path(instance.def_id())))]),
            _ => J::O(vec![("unk", s("alloc"))]),
        }
    }
    fn scalar_int(&mut self, i: ty::ScalarInt, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(i.to_bits_unchecked() != 0))]),
            ty::Char => J::O(vec![(
                "char",
                s(char::from_u32(i.to_bits_unchecked() as u32).map(|c| c.to_string()).unwrap_or_default()),
            )]),
            ty::Int(_) => {
                let sz = i.size();
                J::O(vec![("int", s(sz.sign_extend(i.to_bits_unchecked()).to_string()))])
            }
            _ => J::O(vec![("int", s(i.to_bits_unchecked().to_string()))]),
        }
    }
    fn constv(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => match *t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => self.scalar_int(i, t),
                ty::Adt(..) => {
                    // fieldless enum / newtype
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let ty::Adt(def, _) = *t.kind() else { unreachable!() };
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.constv(*v, *t, env)).collect();
                        J::O(vec![
                            ("adt", s(self.path(def.did()))),
                            ("variant", n(d.variant.map(|v| v.as_usize()).unwrap_or(0))),
                            ("fields", J::A(fs)),
                        ])
                    } else {
                        J::O(vec![("unk", s("adt"))])
                    }
                }
                _ => J::O(vec![("int", s(i.to_bits_unchecked().to_string()))]),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let inner = match *t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => x,
                    _ => return J::O(vec![("unk", s("ptrty"))]),
                };
                self.deref(prov.alloc_id(), off.bytes(), inner, None, env, 0)
            }
            ConstValue::ZeroSized => match *t.kind() {
                ty::FnDef(d, args) => self.fnref(d, args.skip_binder(), env),
                ty::Closure(..) => {
                    let i = self.ty(t);
                    J::O(vec![("closure", i)])
                }
                _ => J::O(vec![("zst", J::B(true))]),
            },
            ConstValue::Slice { alloc_id, meta } => {
                let inner = match *t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => x,
                    _ => return J::O(vec![("unk", s("slicety"))]),
                };
                self.deref(alloc_id, 0, inner, Some(meta), env, 0)
            }
            ConstValue::Indirect { alloc_id, offset } => match self.tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(m) => self.read(m.inner(), offset.bytes(), t, env, 0),
                _ => J::O(vec![("unk", s("indirect"))]),
            },
        }
    }
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("fn", s(self.path(d)))];
        o.push(("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args)))));
        o.push(("krate", s(tcx.crate_name(d.krate).to_string())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if let Some(st) = args.types().next() {
                let i = self.ty(st);
                o.push(("selfty", i));
            }
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(targs)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_id(p).as_usize())
                }
                _ => (p, 0),
            };
            o.push(("adt", s(self.path(adt))));
            o.push(("variant", n(vi)));
            return J::O(o);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            o.push(("res", s(self.path(inst.def_id()))));
            o.push(("rkrate", s(tcx.crate_name(inst.def_id().krate).to_string())));
            let k = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Intrinsic(..) => "intrinsic",
                _ => "shim",
            };
            o.push(("rk", s(k)));
            match inst.def {
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                    if let ty::Closure(_, cargs) = *inst.args.type_at(0).kind() {
                        let f = self.enqueue(Instance::new_raw(closure, cargs), false);
                        o.push(("id", f));
                    }
                }
                InstanceKind::Item(_) => {
                    let f = self.enqueue(inst, false);
                    o.push(("id", f));
                }
                _ => {}
            }
        }
        J::O(o)
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![];
        let ti = self.ty(t);
        o.push(("ty", ti));
        if let Const::Unevaluated(u, _) = c {
            o.push(("from", s(self.path(u.def))));
            if u.promoted.is_some() {
                o.push(("promoted", J::B(true)));
            }
        }
        let v = if let ty::FnDef(d, args) = *t.kind() {
            self.fnref(d, args.skip_binder(), env)
        } else {
            match c.eval(self.tcx, env, sp) {
                Ok(v) => self.constv(v, t, env),
                Err(_) => J::O(vec![("unk", s("eval"))]),
            }
        };
        o.push(("v", v));
        J::O(o)
    }

    // ---- MIR
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, _) => J::A(vec![s("f"), n(f.as_usize())]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => J::A(vec![
                    s("v"),
                    n(v.as_usize()),
                    s(nm.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let k = self.konst(&c.const_, env, c.span);
                J::A(vec![s("k"), k])
            }
            _ => J::A(vec![s("k"), J::O(vec![("ty", J::Null), ("v", J::O(vec![("bool", J::B(true))]))])]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.op(o, env)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    k => format!("{k:?}"),
                };
                let oj = self.op(o, env);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(kk), oj, tj])
            }
            Rvalue::BinaryOp(b, x) => {
                let (l, r) = &**x;
                let b: &BinOp = b;
                J::A(vec![s("bin"), s(format!("{b:?}")), self.op(l, env), self.op(r, env)])
            }
            Rvalue::UnaryOp(u, o) => {
                let u: &UnOp = u;
                J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, env)])
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, self.tcx).ty;
                let ti = self.ty(pt);
                J::A(vec![s("discr"), self.place(p), ti])
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.op(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, ..) => J::A(vec![s("adt"), s(self.path(*d)), n(v.as_usize())]),
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let id = self.enqueue(inst, false);
                        J::A(vec![s("closure"), s(self.path(*d)), id])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(f)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("c"), pj])])
            }
            _ => J::A(vec![s("other")]),
        }
    }
    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
        }
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>, poly: bool) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw: &Body<'tcx> = tcx.instance_mir(inst.def);
        let env = if poly { TypingEnv::post_analysis(tcx, d) } else { TypingEnv::fully_monomorphized() };
        let body: Body<'tcx> = if poly {
            raw.clone()
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()))
        };
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upvars = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    let pj = self.place(&p);
                    upvars.push(J::A(vec![s(v.name.to_string()), pj]));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(i, l)| {
                let t = self.ty(l.ty);
                J::O(vec![("ty", t), ("n", names[i.as_usize()].clone().map(s).unwrap_or(J::Null))])
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = x.source_info.span;
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        // record vtables of unsizing coercions
                        if let Rvalue::Cast(CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), o, t) = r {
                            let from = o.ty(&body, tcx);
                            self.note_vtable(from, *t, env);
                        }
                        let pj = self.place(p);
                        let rj = self.rvalue(r, env, &body);
                        let spj = self.span(sp);
                        st.push(J::A(vec![s("="), pj, rj, spj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("sd"), pj, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body, tcx);
                    let dt = self.ty(dty);
                    let signed = dty.is_signed();
                    let size = tcx.layout_of(env.as_query_input(dty)).map(|l| l.size).ok();
                    let tv: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let val = if signed {
                                size.map(|s| s.sign_extend(v)).unwrap_or(v as i128)
                            } else {
                                v as i128
                            };
                            J::A(vec![J::N(val), n(b.as_usize())])
                        })
                        .collect();
                    let oj = self.op(discr, env);
                    J::O(vec![
                        ("k", s("switch")),
                        ("op", oj),
                        ("ty", dt),
                        ("ts", J::A(tv)),
                        ("o", n(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::UnwindResume => J::O(vec![("k", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("abort"))]),
                TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pty = place.ty(&body, tcx).ty;
                    let ti = self.ty(pty);
                    let pj = self.place(place);
                    let g = if !poly { self.drop_impl(pty) } else { J::Null };
                    J::O(vec![
                        ("k", s("drop")),
                        ("p", pj),
                        ("ty", ti),
                        ("t", n(target.as_usize())),
                        ("u", Self::unwind(unwind)),
                        ("dropfn", g),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let dj = self.place(destination);
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("d", dj),
                        ("t", target.map(|b| n(b.as_usize())).unwrap_or(J::Null)),
                        ("u", Self::unwind(unwind)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.op(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(op, ..) => match op {
                            BinOp::Add => "overflow:add",
                            BinOp::Sub => "overflow:sub",
                            BinOp::Mul => "overflow:mul",
                            _ => "overflow",
                        },
                        AssertKind::OverflowNeg(_) => "overflow:neg",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div0",
                        _ => "other",
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("op", c),
                        ("exp", J::B(*expected)),
                        ("msg", s(m)),
                        ("t", n(target.as_usize())),
                        ("u", Self::unwind(unwind)),
                    ])
                }
                other => J::O(vec![("k", s("other")), ("dbg", s(format!("{other:?}")))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cu", J::B(bb.is_cleanup))]));
        }
        let parent = tcx.opt_parent(d).map(|p| s(self.path(p))).unwrap_or(J::Null);
        let implof = tcx
            .impl_of_assoc(d)
            .map(|i| {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let stj = s(with_no_trimmed_paths!(st.to_string()));
                let tr = match tcx.impl_opt_trait_ref(i) {
                    Some(t) => s(with_no_trimmed_paths!(t.skip_binder().print_only_trait_path().to_string())),
                    None => J::Null,
                };
                J::A(vec![stj, tr])
            })
            .unwrap_or(J::Null);
        let sp = self.span(tcx.def_span(d));
        let derived = tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let vis = if d.is_local() { format!("{:?}", tcx.visibility(tcx.typeck_root_def_id(d))) } else { String::new() };
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        J::O(vec![
            ("id", n(id)),
            ("path", s(self.path(d))),
            ("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args)))),
            ("name", s(name)),
            ("krate", s(tcx.crate_name(d.krate).to_string())),
            ("local", J::B(d.is_local())),
            ("closure", J::B(tcx.is_closure_like(d))),
            ("poly", J::B(poly)),
            ("parent", parent),
            ("impl", implof),
            ("derived", J::B(derived)),
            ("vis", s(vis)),
            ("sp", sp),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ])
    }
    /// a local `Drop` impl of exactly this type, if any
    fn drop_impl(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        if let ty::Adt(def, args) = *t.kind() {
            if let Some(d) = tcx.adt_destructor(def.did()) {
                if d.did.is_local() {
                    let inst = Instance::new_raw(d.did, args);
                    return self.enqueue(inst, false);
                }
            }
        }
        J::Null
    }
    fn note_vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let (a, b) = match (from.kind(), to.kind()) {
            (ty::Ref(_, a, _), ty::Ref(_, b, _)) => (*a, *b),
            (ty::Adt(d1, x), ty::Adt(d2, y)) if d1.is_box() && d2.is_box() => (x.type_at(0), y.type_at(0)),
            _ => return,
        };
        let ty::Dynamic(preds, _) = b.kind() else { return };
        let Some(pr) = preds.principal() else { return };
        if matches!(a.kind(), ty::Dynamic(..)) {
            return;
        }
        let tr = tcx.instantiate_bound_regions_with_erased(pr).with_self_ty(tcx, a);
        let tr = tcx.erase_and_anonymize_regions(tr);
        if tr.has_param_() || tr.args.types().any(|t| t.has_param_()) {
            return;
        }
        let key = with_no_trimmed_paths!(format!("{} as {}", a, tr.print_only_trait_path()));
        if self.vtables.contains_key(&key) {
            return;
        }
        self.vtables.insert(key.clone(), J::Null);
        let mut ms = vec![];
        for e in tcx.vtable_entries(tr) {
            if let ty::VtblEntry::Method(i) = e {
                let f = self.enqueue(*i, false);
                let nm = tcx.opt_item_name(i.def_id()).map(|x| x.to_string()).unwrap_or_default();
                ms.push(J::O(vec![("name", s(nm)), ("path", s(self.path(i.def_id()))), ("id", f)]));
            }
        }
        let ta = self.ty(a);
        let tn = with_no_trimmed_paths!(b.to_string());
        self.vtables.insert(key, J::O(vec![("ty", ta), ("dyn", s(tn)), ("methods", J::A(ms))]));
        let _ = env;
    }
}

trait HasParam {
    fn has_param_(&self) -> bool;
}
impl<'tcx, T: ty::TypeVisitableExt<TyCtxt<'tcx>>> HasParam for T {
    fn has_param_(&self) -> bool {
        self.has_non_region_param()
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRFACTS_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        let mut cx = Cx {
            tcx,
            types: vec![],
            type_ix: HashMap::new(),
            adts: BTreeMap::new(),
            fn_ix: HashMap::new(),
            queue: VecDeque::new(),
            nfns: 0,
            vtables: BTreeMap::new(),
        };
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
        let mut statics = vec![];
        let mut items = vec![];
        for ld in keys {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    let poly = g.requires_monomorphization(tcx);
                    items.push(J::O(vec![("path", s(cx.path(d))), ("generic", J::B(poly))]));
                    if !poly {
                        let i = Instance::mono(tcx, d);
                        cx.enqueue(i, false);
                    }
                }
                DefKind::Static { mutability, nested, .. } => {
                    if nested {
                        continue;
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::fully_monomorphized();
                    let v = match tcx.eval_static_initializer(d) {
                        Ok(a) => cx.read(a.inner(), 0, t, env, 0),
                        Err(_) => J::Null,
                    };
                    let ti = cx.ty(t);
                    let sp = cx.span(tcx.def_span(d));
                    statics.push(J::O(vec![
                        ("path", s(cx.path(d))),
                        ("ty", ti),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("tls", J::B(tcx.is_thread_local_static(d))),
                        ("sp", sp),
                        ("v", v),
                    ]));
                }
                DefKind::Const { .. } => {
                    items.push(J::O(vec![("path", s(cx.path(d))), ("const", J::B(true))]));
                }
                _ => {}
            }
        }
        // public generic entry points have no closed instance: dump them polymorphic
        let mut polys = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && tcx.generics_of(d).requires_monomorphization(tcx)
                && tcx.effective_visibilities(()).is_exported(*ld)
            {
                polys.push(d);
            }
        }
        polys.sort_by_key(|d| tcx.def_span(*d).lo());
        for d in polys {
            let i = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
            cx.enqueue(i, true);
        }
        let mut fns = vec![];
        while let Some((id, i, poly)) = cx.queue.pop_front() {
            let b = if cx.want(i.def_id()) { cx.body(id, i, poly) } else { cx.foreign_body(id, i) };
            fns.push(b);
        }
        let adts = std::mem::take(&mut cx.adts);
        let vt = std::mem::take(&mut cx.vtables);
        let j = J::O(vec![
            ("krate", s(krate.clone())),
            ("kind", s(kind)),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::A(adts.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect())),
            ("vtables", J::A(vt.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect())),
            ("statics", J::A(statics)),
            ("items", J::A(items)),
            ("fns", J::A(fns)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{out}/{krate}-{kind}.json");
        std::fs::write(&f, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1].replace('-', "_") == "markdown_fmt");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
