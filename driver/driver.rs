// Dumps the MIR of the crate being compiled as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER (argv[1] is the real rustc) or directly.
// MIRDUMP_OUT=<dir>: where <crate>.<kind>.json is written; unset: behaves as plain rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
use J::*;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    fn w(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            N(n) => {
                let _ = write!(o, "{}", n);
            }
            S(s) => esc(s, o),
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

fn s(x: impl Into<String>) -> J {
    S(x.into())
}
fn n(x: usize) -> J {
    N(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_ty(t, 0);
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(t.to_string())
        )
    }

    fn note_ty(&mut self, t: Ty<'tcx>, depth: usize) {
        if depth > 12 {
            return;
        }
        match t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), Null);
                    let mut vs = vec![];
                    if def.is_enum() || def.is_struct() {
                        for (vi, v) in def.variants().iter_enumerated() {
                            let discr = if def.is_enum() {
                                def.discriminant_for_variant(self.tcx, vi).val as i128
                            } else {
                                0
                            };
                            let mut fs = vec![];
                            for f in v.fields.iter() {
                                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let fts = rustc_middle::ty::print::with_no_trimmed_paths!(
                                    rustc_middle::ty::print::with_no_visible_paths!(ft.to_string())
                                );
                                if def.did().is_local() {
                                    self.note_ty(ft, depth + 1);
                                }
                                fs.push(A(vec![s(f.name.as_str()), s(fts)]));
                            }
                            vs.push(O(vec![
                                ("name", s(v.name.as_str())),
                                ("discr", N(discr)),
                                ("fields", A(fs)),
                            ]));
                        }
                    }
                    self.adts.insert(
                        p,
                        O(vec![
                            ("kind", s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
                            ("variants", A(vs)),
                            ("local", B(def.did().is_local())),
                        ]),
                    );
                }
                for a in args.iter() {
                    if let Some(x) = a.as_type() {
                        self.note_ty(x, depth + 1);
                    }
                }
            }
            ty::Ref(_, x, _) => self.note_ty(*x, depth + 1),
            ty::RawPtr(x, _) => self.note_ty(*x, depth + 1),
            ty::Array(x, _) | ty::Slice(x) => self.note_ty(*x, depth + 1),
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    self.note_ty(x, depth + 1)
                }
            }
            _ => {}
        }
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return O(vec![("k", s("opaque"))]);
        }
        let ts = self.ty(t);
        match t.kind() {
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                return self.fndef(*d, a, None);
            }
            ty::Int(_) => {
                if let ConstValue::Scalar(Scalar::Int(i)) = v {
                    return O(vec![("k", s("int")), ("v", N(i.to_int(i.size()))), ("ty", s(ts))]);
                }
            }
            ty::Uint(_) | ty::Bool | ty::Char => {
                if let ConstValue::Scalar(Scalar::Int(i)) = v {
                    return O(vec![("k", s("int")), ("v", N(i.to_uint(i.size()) as i128)), ("ty", s(ts))]);
                }
            }
            ty::Float(_) => {
                if let ConstValue::Scalar(Scalar::Int(i)) = v {
                    let bits = i.to_uint(i.size());
                    let f = if i.size().bytes() == 4 {
                        format!("{:?}", f32::from_bits(bits as u32))
                    } else {
                        format!("{:?}", f64::from_bits(bits as u64))
                    };
                    return O(vec![("k", s("float")), ("v", s(f)), ("ty", s(ts))]);
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            if inner.is_str() {
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                                return O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                            }
                            if let ty::Slice(et) = inner.kind() {
                                let at = Ty::new_array(tcx, *et, meta);
                                let iv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                                let x = self.cval(iv, at, depth + 1);
                                return O(vec![("k", s("ref")), ("v", x), ("ty", s(ts))]);
                            }
                        }
                    }
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        // a fat pointer in memory
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let ptr = a.inner().provenance().ptrs().get(&offset).copied();
                            let o = offset.bytes() as usize;
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                            let off = u64::from_le_bytes(b[0..8].try_into().unwrap());
                            let len = u64::from_le_bytes(b[8..16].try_into().unwrap());
                            if let Some(p) = ptr {
                                let id = p.alloc_id();
                                if let GlobalAlloc::Memory(a2) = tcx.global_alloc(id) {
                                    if inner.is_str() {
                                        let b = a2.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            off as usize..(off + len) as usize,
                                        );
                                        return O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                                    }
                                    if let ty::Slice(et) = inner.kind() {
                                        let at = Ty::new_array(tcx, *et, len);
                                        let iv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                                        let x = self.cval(iv, at, depth + 1);
                                        return O(vec![("k", s("ref")), ("v", x), ("ty", s(ts))]);
                                    }
                                }
                            }
                        }
                    }
                } else {
                    let mut tgt = None;
                    if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        tgt = Some((prov.alloc_id(), off));
                    } else if let ConstValue::Indirect { alloc_id, offset } = v {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            if let Some(p) = a.inner().provenance().ptrs().get(&offset).copied() {
                                let o = offset.bytes() as usize;
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
                                let off = u64::from_le_bytes(b.try_into().unwrap());
                                tgt = Some((p.alloc_id(), rustc_abi::Size::from_bytes(off)));
                            }
                        }
                    }
                    if let Some((alloc_id, offset)) = tgt {
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(_) => {
                                if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                    let iv = ConstValue::Indirect { alloc_id, offset };
                                    let x = self.cval(iv, *inner, depth + 1);
                                    return O(vec![("k", s("ref")), ("v", x), ("ty", s(ts))]);
                                }
                            }
                            GlobalAlloc::Static(d) => {
                                return O(vec![("k", s("static")), ("v", s(self.path(d)))]);
                            }
                            _ => {}
                        }
                    }
                }
            }
            ty::Array(..) | ty::Tuple(_) | ty::Adt(..) => {
                // single-scalar fast path for memory ints below arrays is handled by destructuring
                let zst = matches!(v, ConstValue::ZeroSized);
                let big = match t.kind() {
                    ty::Array(_, l) => l.try_to_target_usize(tcx).map_or(true, |l| l > 4096),
                    ty::Adt(d, _) => d.is_union() || (!d.is_enum() && !d.is_struct()),
                    _ => false,
                };
                if !big {
                    if let Some(c) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fields: Vec<J> = c.fields.iter().map(|&(fv, ft)| self.cval(fv, ft, depth + 1)).collect();
                        let kind = match t.kind() {
                            ty::Array(..) => "array",
                            ty::Tuple(_) => "tuple",
                            _ => "adt",
                        };
                        return O(vec![
                            ("k", s(kind)),
                            ("variant", c.variant.map_or(N(0), |v| n(v.as_usize()))),
                            ("v", A(fields)),
                            ("ty", s(ts)),
                        ]);
                    }
                }
                if zst {
                    return O(vec![("k", s("zst")), ("ty", s(ts))]);
                }
            }
            ty::Closure(d, _) => return O(vec![("k", s("closure")), ("def", s(self.path(*d)))]),
            _ => {}
        }
        // ints stored in memory
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let sz = match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                        Ok(l) => l.size.bytes() as usize,
                        Err(_) => 0,
                    };
                    if sz > 0 {
                        let o = offset.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz);
                        let mut x: u128 = 0;
                        for (i, by) in b.iter().enumerate() {
                            x |= (*by as u128) << (8 * i);
                        }
                        if t.is_floating_point() {
                            let f = if sz == 4 {
                                format!("{:?}", f32::from_bits(x as u32))
                            } else {
                                format!("{:?}", f64::from_bits(x as u64))
                            };
                            return O(vec![("k", s("float")), ("v", s(f)), ("ty", s(ts))]);
                        }
                        return O(vec![("k", s("int")), ("v", N(x as i128)), ("ty", s(ts))]);
                    }
                }
            }
        }
        if matches!(v, ConstValue::ZeroSized) {
            return O(vec![("k", s("zst")), ("ty", s(ts))]);
        }
        O(vec![("k", s("opaque")), ("ty", s(ts))])
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s("fn")), ("path", s(self.path(d))), ("local", B(d.is_local()))];
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| s(self.ty(t))).collect();
        o.push(("targs", A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if let Some(env) = env {
            let er = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, er) {
                o.push(("res", s(self.path(i.def_id()))));
                o.push(("res_local", B(i.def_id().is_local())));
            }
        }
        O(o)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
            return self.fndef(*d, a, Some(env));
        }
        let mut name = None;
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = Some(self.path(u.def));
            }
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                if let (Some(nm), O(mut o)) = (name.clone(), j) {
                    o.push(("name", s(nm)));
                    return O(o);
                } else {
                    match c.const_.eval(self.tcx, env, c.span) {
                        Ok(v) => self.cval(v, t, 0),
                        Err(_) => Null,
                    }
                }
            }
            Err(_) => O(vec![("k", s("opaque")), ("ty", s(self.ty(t)))]),
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let mut nm = String::new();
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                        if (d.is_enum() && pt.variant_index.is_some()) || d.is_struct() {
                            nm = d.variant(v).fields[f].name.to_string();
                        }
                    }
                    let parent = self.ty(pt.ty);
                        A(vec![s("f"), n(f.as_usize()), s(nm), s(self.ty(t)), s(parent)])
                }
                ProjectionElem::Index(l) => A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    A(vec![s("ci"), N(offset as i128), N(min_length as i128), B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    A(vec![s("sub"), N(from as i128), N(to as i128), B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => {
                    A(vec![s("v"), n(v.as_usize()), nm.map_or(Null, |x| s(x.as_str()))])
                }
                _ => A(vec![s("?"), s(format!("{:?}", e))]),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        A(vec![n(p.local.as_usize()), A(pr)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => A(vec![s("k"), self.konst(c, env)]),
            #[allow(unreachable_patterns)]
            _ => A(vec![s("?"), s(format!("{:?}", o))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => A(vec![s("use"), self.operand(o, body, env)]),
            Rvalue::Repeat(o, c) => A(vec![
                s("repeat"),
                self.operand(o, body, env),
                c.try_to_target_usize(tcx).map_or(Null, |x| N(x as i128)),
            ]),
            Rvalue::Ref(_, bk, p) => A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shared",
                }),
                self.place(p, body),
            ]),
            Rvalue::RawPtr(_, p) => A(vec![s("ref"), s("raw"), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                A(vec![s("cast"), s(format!("{:?}", k)), self.operand(o, body, env), s(self.ty(*t)), s(self.ty(from))])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(&ab.0, body, env),
                    self.operand(&ab.1, body, env),
                    s(self.ty(t)),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                A(vec![s("un"), s(format!("{:?}", op)), self.operand(a, body, env), s(self.ty(t))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                A(vec![s("discr"), self.place(p, body), s(self.ty(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let fields: Vec<J> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => A(vec![s("array")]),
                    AggregateKind::Tuple => A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let t = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                        self.note_ty(t, 0);
                        A(vec![s("adt"), s(self.path(*d)), n(v.as_usize()), s(def.variant(*v).name.as_str()), d.as_local().map_or(Null, |l| n(l.local_def_index.as_usize()))])
                    }
                    AggregateKind::Closure(d, _) => A(vec![s("closure"), s(self.path(*d))]),
                    other => A(vec![s("?"), s(format!("{:?}", other))]),
                };
                A(vec![s("agg"), kind, A(fields)])
            }
            Rvalue::CopyForDeref(p) => A(vec![s("use"), A(vec![s("c"), self.place(p, body)])]),
            other => A(vec![s("?"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let body: &Body<'tcx> = tcx.optimized_mir(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(s(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(A(vec![s(v.name.as_str()), self.place(&p, body)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pj = self.place(p, body);
                        let rj = self.rvalue(r, body, env);
                        st.push(A(vec![s("="), pj, rj, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(A(vec![s("setd"), self.place(place, body), n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| A(vec![N(v as i128), n(b.as_usize())]))
                        .collect();
                    A(vec![
                        s("switch"),
                        self.operand(discr, body, env),
                        A(ts),
                        n(targets.otherwise().as_usize()),
                        s(self.ty(dt)),
                        sp,
                    ])
                }
                TerminatorKind::Return => A(vec![s("return")]),
                TerminatorKind::Unreachable => A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    A(vec![s("drop"), self.place(place, body), n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let at: Vec<J> = args.iter().map(|x| {
                        let t = x.node.ty(&body.local_decls, tcx);
                        s(self.ty(t))
                    }).collect();
                    A(vec![
                        s("call"),
                        f,
                        A(a),
                        self.place(destination, body),
                        target.map_or(Null, |b| n(b.as_usize())),
                        sp,
                        A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            A(vec![s("bounds"), self.operand(len, body, env), self.operand(index, body, env)])
                        }
                        AssertKind::Overflow(op, a, b) => A(vec![
                            s("overflow"),
                            s(format!("{:?}", op)),
                            self.operand(a, body, env),
                            self.operand(b, body, env),
                        ]),
                        AssertKind::OverflowNeg(a) => A(vec![s("overflow_neg"), self.operand(a, body, env)]),
                        AssertKind::DivisionByZero(a) => A(vec![s("div0"), self.operand(a, body, env)]),
                        AssertKind::RemainderByZero(a) => A(vec![s("rem0"), self.operand(a, body, env)]),
                        _ => A(vec![s("other")]),
                    };
                    A(vec![
                        s("assert"),
                        self.operand(cond, body, env),
                        B(*expected),
                        m,
                        n(target.as_usize()),
                        sp,
                    ])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => A(vec![s("resume")]),
                other => A(vec![s("?"), s(format!("{:?}", other))]),
            };
            blocks.push(O(vec![("s", A(st)), ("t", tj), ("cleanup", B(bb.is_cleanup))]));
        }
        let kind = format!("{:?}", tcx.def_kind(d));
        let mut o = vec![
            ("path", s(self.path(d))),
            ("kind", s(kind)),
            ("args", n(body.arg_count)),
            ("locals", A(locals)),
            ("names", A(names)),
            ("blocks", A(blocks)),
            ("span", self.span(body.span)),
        ];
        if let Some(sp) = body.spread_arg {
            o.push(("spread", n(sp.as_usize())));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(self.path(tr.def_id))));
                o.push(("impl_self", s(self.ty(tr.self_ty()))));
                if let ty::Adt(def, _) = tr.self_ty().kind() {
                    if let Some(l) = def.did().as_local() {
                        o.push(("impl_self_id", n(l.local_def_index.as_usize())));
                    }
                }
            }
        }
        o.push(("pub", B(tcx.visibility(d).is_public())));
        O(o)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
            let is_test = tcx.sess.is_test_crate();
            let mut cx = Cx { tcx, adts: BTreeMap::new() };
            let mut fns = BTreeMap::new();
            for ld in tcx.mir_keys(()) {
                let d = ld.to_def_id();
                let k = tcx.def_kind(d);
                if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    let p = cx.path(d);
                    let mut key = p.clone();
                    let mut i = 1;
                    while fns.contains_key(&key) {
                        i += 1;
                        key = format!("{}#{}", p, i);
                    }
                    let b = cx.body(d);
                    fns.insert(key, b);
                }
            }
            let mut consts = BTreeMap::new();
            for ld in tcx.hir_crate_items(()).definitions() {
                let d = ld.to_def_id();
                if matches!(tcx.def_kind(d), DefKind::Const { .. }) && tcx.generics_of(d).own_params.is_empty() {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let j = cx.cval(v, t, 0);
                        consts.insert(cx.path(d), j);
                    }
                }
            }
            let j = O(vec![
                ("crate", s(name.clone())),
                ("bin", B(is_bin)),
                ("fns", M(fns)),
                ("consts", M(consts)),
                ("adts", M(std::mem::take(&mut cx.adts))),
            ]);
            let mut out = String::new();
            j.w(&mut out);
            let f = format!("{}/{}.{}.json", dir, name, if is_test { "test" } else if is_bin { "bin" } else { "lib" });
            std::fs::write(&f, out).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_OUT").is_ok() {
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zinline-mir=no", "-Awarnings"] {
            args.push(a.to_string());
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
