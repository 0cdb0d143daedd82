//! rustc_private driver: compiles the crate named by $SWRS_DUMP_CRATE exactly as cargo asked
//! for it and writes the *resolved program* (type-checked MIR of every body, ADT layouts, trait
//! impls, evaluated constants, source spans) to $SWRS_DUMP as JSON.  Nothing of the analysed
//! crate is executed; all judgement is made by the analyzer in /verif/sa over this dump.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::HashMap;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
fn n<T: TryInto<i128>>(x: T) -> J { J::N(x.try_into().ok().unwrap_or(-1)) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => o.push_str(&i.to_string()),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, J>,
    adt_order: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        // closures: parent + {closure#n}
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Closure) {
            let dp = tcx.def_key(d);
            return format!("{}::{{closure#{}}}", self.path(tcx.parent(d)), dp.disambiguated_data.disambiguator);
        }
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                return format!("{}::{}", self.impl_name(im), tcx.item_name(d));
            }
        }
        self.plain(d)
    }
    /// items of the same name in different blocks of one function are told apart
    fn dup(&self, d: DefId) -> String {
        let k = self.tcx.def_key(d);
        let n = k.disambiguated_data.disambiguator;
        if d.is_local() && n > 0 && matches!(self.tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Fn | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::Variant | DefKind::Ctor(..)) { format!("~{}", n) } else { String::new() }
    }
    fn plain(&self, d: DefId) -> String {
        format!("{}{}", rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)), self.dup(d))
    }
    fn selfstr(&self, t: Ty<'tcx>) -> String {
        let x = self.tystr(t);
        if let ty::Adt(a, _) = t.kind() { format!("{}{}", x, self.dup(a.did())) } else { x }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", self.tcx.erase_and_anonymize_regions(t)))
            .replace("'{erased} ", "").replace("<'{erased}>", "").replace("'{erased}, ", "")
    }
    fn impl_name(&self, im: DefId) -> String {
        let tcx = self.tcx;
        let selfty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        if tcx.def_kind(im) == (DefKind::Impl { of_trait: true }) {
            let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let tail: Vec<String> = tr.args.types().skip(1).map(|t| self.tystr(t)).collect();
            let a = if tail.is_empty() { String::new() } else { format!("<{}>", tail.join(", ")) };
            format!("<{} as {}{}>", self.selfstr(selfty), self.plain(tr.def_id), a)
        } else {
            self.selfstr(selfty)
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(J::N(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(s(format!("{:?}", c))),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyix.get(&t) { return *i; }
        let ix = self.tys.len();
        self.tys.push(J::Null);
        self.tyix.insert(t, ix);
        let j = match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never =>
                J::O(vec![("k", s("prim")), ("n", s(format!("{}", t)))]),
            TyKind::Adt(def, a) => {
                self.adt(def.did());
                let args = self.args(a);
                J::O(vec![("k", s("adt")), ("n", s(self.plain(def.did()))), ("a", args)])
            }
            TyKind::Array(e, c) => {
                let len = c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null);
                let e = self.ty(*e);
                J::O(vec![("k", s("array")), ("e", n(e as i64)), ("len", len)])
            }
            TyKind::Slice(e) => { let e = self.ty(*e); J::O(vec![("k", s("slice")), ("e", n(e as i64))]) }
            TyKind::RawPtr(e, _) => { let e = self.ty(*e); J::O(vec![("k", s("ptr")), ("e", n(e as i64))]) }
            TyKind::Ref(_, e, m) => { let e = self.ty(*e); J::O(vec![("k", s("ref")), ("e", n(e as i64)), ("mut", J::B(m.is_mut()))]) }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let d: DefId = (*d).into();
                let args = self.args(a); J::O(vec![("k", s("fndef")), ("n", s(self.path(d))), ("a", args)]) }
            TyKind::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            TyKind::Closure(d, a) => {
                let d: DefId = (*d).into();
                let args = self.args(a); J::O(vec![("k", s("closure")), ("n", s(self.path(d))), ("a", args)]) }
            TyKind::Tuple(ts) => {
                let v = ts.iter().map(|x| n(self.ty(x) as i64)).collect();
                J::O(vec![("k", s("tuple")), ("e", J::A(v))])
            }
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name)), ("i", n(p.index))]),
            TyKind::Dynamic(..) => J::O(vec![("k", s("dyn")), ("n", s(self.tystr(t)))]),
            _ => J::O(vec![("k", s("other")), ("n", s(self.tystr(t)))]),
        };
        let str_ = self.tystr(t);
        let j = match j { J::O(mut v) => { v.push(("s", J::S(str_))); J::O(v) } x => x };
        self.tys[ix] = j;
        ix
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, J::Null);
        self.adt_order.push(d);
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let interesting = d.is_local() || matches!(self.plain(d).as_str(),
            "std::option::Option" | "std::result::Result" | "std::ops::ControlFlow" | "std::borrow::Cow" | "std::cmp::Ordering" | "std::string::String" | "std::boxed::Box" | "std::ops::Range" | "std::ops::RangeFrom" | "std::ops::RangeTo");
        if interesting {
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() { J::S(def.discriminant_for_variant(tcx, vi).to_string()) } else { J::Null };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ft = self.ty(ft);
                    fs.push(J::O(vec![("n", s(f.name)), ("t", n(ft as i64)), ("vis", s(if f.vis.is_public() { "pub" } else { "priv" }))]));
                }
                vs.push(J::O(vec![("n", s(v.name)), ("d", discr), ("f", J::A(fs))]));
            }
        }
        let params: Vec<J> = tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| n(p.index)).collect();
        let sp = if d.is_local() { self.span(tcx.def_span(d)) } else { J::Null };
        let j = J::O(vec![("n", s(self.plain(d))), ("kind", s(kind)), ("local", J::B(d.is_local())), ("params", J::A(params)), ("variants", J::A(vs)), ("span", sp)]);
        self.adts.insert(d, j);
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() { return J::Null; }
        let lo = sm.lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                PlaceElem::Deref => s("*"),
                PlaceElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), n(f.as_u32()), n(t as i64)]) }
                PlaceElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                PlaceElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![s("ci"), n(offset), J::B(from_end), n(min_length)]),
                PlaceElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(from), n(to), J::B(from_end)]),
                PlaceElem::Downcast(_, vi) => J::A(vec![s("d"), n(vi.as_u32())]),
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local.as_u32()), J::A(v)])
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.size().bytes() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tix = self.ty(t);
        let mut o = vec![("k", s("const")), ("t", n(tix as i64))];
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}#p{}", self.path(u.def), p.as_u32()))));
                return J::O(o);
            }
        }
        // scalars & strings evaluate; aggregates named by their const item
        let simple = match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => true,
            TyKind::Ref(_, e, _) => match e.kind() {
                TyKind::Str => true,
                TyKind::Slice(e) | TyKind::Array(e, _) => matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)),
                _ => false,
            },
            TyKind::Array(e, _) => matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)),
            _ => false,
        };
        if simple {
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                match (v, t.kind()) {
                    (ConstValue::Scalar(Scalar::Int(i)), k) => {
                        let size = i.size();
                        let bits = i.to_bits(size);
                        let j = match k {
                            TyKind::Int(_) => J::S(size.sign_extend(bits).to_string()),
                            _ => J::S(bits.to_string()),
                        };
                        o.push(("int", j));
                        return J::O(o);
                    }
                    (ConstValue::Slice { alloc_id, meta }, TyKind::Ref(_, e, _)) => {
                        if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                            if e.is_str() { o.push(("str", J::S(String::from_utf8_lossy(&b).into_owned()))); }
                            else { o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect()))); }
                            return J::O(o);
                        }
                    }
                    (ConstValue::Scalar(Scalar::Ptr(p, _)), TyKind::Ref(_, e, _)) => {
                        if let TyKind::Array(_, len) = e.kind() {
                            if let Some(l) = len.try_to_target_usize(tcx) {
                                let (prov, off) = p.into_raw_parts();
                                if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), l) {
                                    o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect())));
                                    return J::O(o);
                                }
                            }
                        }
                    }
                    (ConstValue::Indirect { alloc_id, offset }, k) => {
                        let len = match k { TyKind::Array(_, l) => l.try_to_target_usize(tcx), _ => None };
                        if let Some(l) = len {
                            if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), l) {
                                o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect())));
                                return J::O(o);
                            }
                        }
                        // &str / &[u8] stored in memory: fat pointer
                        if let TyKind::Ref(_, e, _) = k {
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                let a = a.inner();
                                if let Some(pv) = a.provenance().ptrs().iter().find(|(o2, _)| *o2 == offset).map(|(_, p)| *p) {
                                    let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..offset.bytes() as usize + 16).to_vec();
                                    let po = u64::from_le_bytes(raw[0..8].try_into().unwrap());
                                    let ln = u64::from_le_bytes(raw[8..16].try_into().unwrap());
                                    if let Some(b) = self.alloc_bytes(pv.alloc_id(), po, ln) {
                                        if e.is_str() { o.push(("str", J::S(String::from_utf8_lossy(&b).into_owned()))); }
                                        else { o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect()))); }
                                        return J::O(o);
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        match c {
            mir::Const::Unevaluated(u, _) => { o.push(("item", s(self.path(u.def)))); }
            _ => {
                o.push(("raw", s(format!("{}", c))));
                // field-less enum constant / scalar adt
                if let mir::Const::Val(ConstValue::Scalar(Scalar::Ptr(p, _)), _) = c {
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(p.into_raw_parts().0.alloc_id()) {
                        let st = self.path(d);
                        let fr = tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, env) && !tcx.is_mutable_static(d);
                        o.push(("static", s(&st)));
                        o.push(("freeze", J::B(fr)));
                        if fr && d.is_local() { o.push(("item", s(&st))); }
                    }
                }
                if let mir::Const::Val(ConstValue::Scalar(Scalar::Int(i)), _) = c {
                    o.push(("bits", J::S(i.to_bits(i.size()).to_string())));
                    if let TyKind::Adt(def, _) = t.kind() { if def.is_enum() {
                        for (vi, d) in def.discriminants(tcx) { if i.size().truncate(d.val) == i.to_bits(i.size()) { o.push(("variant", n(vi.as_u32()))); } }
                    }}
                }
            }
        }
        J::O(o)
    }
    fn op(&mut self, x: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, env)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(o, env), c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o, env), n(t as i64)]) }
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(&x.0, env), self.op(&x.1, env)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.op(o, env)).collect());
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), n(t as i64)]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, _) => { self.adt(*d); let a = self.args(a); J::A(vec![s("adt"), s(self.plain(*d)), n(v.as_u32()), a]) }
                    AggregateKind::Closure(d, a) => { let a = self.args(a); J::A(vec![s("closure"), s(self.path(*d)), a]) }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, ops])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, b: &mir::Body<'tcx>, did: DefId, name: String) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let locals = J::A(b.local_decls.iter().map(|l| n(self.ty(l.ty) as i64)).collect());
        let mut vars = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p);
                vars.push(J::A(vec![s(v.name), p]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rv(&a.1, env);
                        st.push(J::A(vec![p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![p, J::A(vec![s("setdiscr"), n(variant_index.as_u32())]), sp]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_u32()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let ts = J::A(targets.iter().map(|(v, t)| J::A(vec![J::S(v.to_string()), n(t.as_u32())])).collect());
                    J::O(vec![("k", s("switch")), ("d", d), ("dt", n(dt as i64)), ("ts", ts), ("o", n(targets.otherwise().as_u32()))])
                }
                TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { target, place, .. } => { let p = self.place(place); J::O(vec![("k", s("goto")), ("t", n(target.as_u32())), ("drop", p)]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let a = J::A(args.iter().map(|x| self.op(&x.node, env)).collect());
                    let dst = self.place(destination);
                    let mut o = vec![("k", s("call")), ("a", a), ("dst", dst), ("t", target.map(|t| n(t.as_u32())).unwrap_or(J::Null))];
                    if let TyKind::FnDef(d, ga) = ft.kind() {
                        let d: DefId = (*d).into();
                        let ga = ga.skip_binder();
                        let ga = tcx.erase_and_anonymize_regions(ga);
                        o.push(("f", s(self.path(d))));
                        o.push(("ga", self.args(ga)));
                        o.push(("local", J::B(d.is_local())));
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, ga) {
                            let rd = inst.def_id();
                            if rd != d {
                                o.push(("r", s(self.path(rd))));
                                o.push(("ra", self.args(inst.args)));
                            }
                            o.push(("rl", J::B(rd.is_local())));
                        }
                        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.plain(tr)))); o.push(("m", s(tcx.item_name(d)))); }
                    } else {
                        o.push(("fp", self.op(func, env)));
                    }
                    J::O(o)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let (mk, ma) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(len, env), self.op(index, env)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.op(x, env), self.op(y, env)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), vec![self.op(x, env)]),
                        AssertKind::DivisionByZero(x) => ("div0".to_string(), vec![self.op(x, env)]),
                        AssertKind::RemainderByZero(x) => ("rem0".to_string(), vec![self.op(x, env)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    J::O(vec![("k", s("assert")), ("c", c), ("e", J::B(*expected)), ("msg", s(mk)), ("ma", J::A(ma)), ("t", n(target.as_u32()))])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.as_u32()))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.as_u32()))]),
                _ => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", t.kind)))]),
            };
            let tj = match tj { J::O(mut v) => { v.push(("sp", sp)); J::O(v) } x => x };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        let gp: Vec<J> = {
            let g = tcx.generics_of(did);
            let mut v = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { v.push(J::A(vec![s(p.name), n(p.index)])); }
            }
            v
        };
        let vis = if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { J::B(tcx.visibility(did).is_public()) } else { J::B(false) };
        let fsp = self.span(tcx.def_span(did));
        let exp = tcx.def_span(did).from_expansion();
        J::O(vec![("n", J::S(name)), ("args", n(b.arg_count)), ("locals", locals), ("gp", J::A(gp)), ("vars", J::A(vars)), ("pub", vis), ("span", fsp), ("exp", J::B(exp)), ("kind", s(format!("{:?}", tcx.def_kind(did)))), ("b", J::A(blocks))])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("SWRS_DUMP") { Ok(o) => o, _ => return Compilation::Continue };
        let mut cx = Cx { tcx, tys: vec![], tyix: HashMap::new(), adts: HashMap::new(), adt_order: vec![] };
        let mut bodies = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            // skip builtin derives other than Default
            let root = tcx.typeck_root_def_id(d);
            if let Some(im) = tcx.impl_of_assoc(root) {
                if tcx.is_builtin_derived(im) {
                    let nm = cx.impl_name(im);
                    if !nm.contains("Default") { continue; }
                }
            }
            let nm = cx.path(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    let j = cx.body(b, d, nm.clone());
                    bodies.push(j);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(d);
                    let j = cx.body(b, d, nm.clone());
                    bodies.push(j);
                }
                _ => continue,
            }
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let j = cx.body(pb, d, format!("{}#p{}", nm, pi.as_u32()));
                bodies.push(j);
            }
        }
        let mut impls = vec![];
        let tis: Vec<(DefId, Vec<LocalDefId>)> = tcx.all_local_trait_impls(()).iter().map(|(a, b)| (*a, b.clone())).collect();
        for (tr, ims) in tis {
            for im in ims {
                let imd = im.to_def_id();
                let tref = tcx.impl_trait_ref(imd).instantiate_identity().skip_norm_wip();
                let args = cx.args(tref.args);
                let items: Vec<J> = tcx.associated_items(imd).in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. })).map(|i| J::A(vec![s(i.name()), s(cx.path(i.def_id))])).collect();
                let atys: Vec<J> = tcx.associated_items(imd).in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Type { .. })).map(|i| {
                    let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    J::A(vec![s(i.name()), n(t as i64)])
                }).collect();
                let sp = cx.span(tcx.def_span(imd));
                impls.push(J::O(vec![("trait", s(cx.plain(tr))), ("args", args), ("items", J::A(items)), ("types", J::A(atys)), ("derived", J::B(tcx.is_automatically_derived(imd))), ("builtin", J::B(tcx.is_builtin_derived(imd))), ("name", s(cx.impl_name(imd))), ("span", sp)]));
            }
        }
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(id) == DefKind::Trait {
                let d = id.to_def_id();
                let items: Vec<J> = tcx.associated_items(d).in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. })).map(|i| J::A(vec![s(i.name()), J::B(i.defaultness(tcx).has_value())])).collect();
                traits.push(J::O(vec![("n", s(cx.plain(d))), ("items", J::A(items))]));
            }
        }
        // ADTs may be discovered while describing other ADTs
        let mut adts = vec![];
        let mut i = 0;
        // local ADTs even when never mentioned in a body
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) { cx.adt(id.to_def_id()); }
        }
        while i < cx.adt_order.len() {
            let d = cx.adt_order[i];
            adts.push(cx.adts.insert(d, J::Null).unwrap());
            i += 1;
        }
        let tys = std::mem::take(&mut cx.tys);
        let j = J::O(vec![("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))), ("types", J::A(tys)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("traits", J::A(traits)), ("bodies", J::A(bodies))]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write dump");
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("SWRS_DUMP_CRATE").unwrap_or_default();
    let is = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).map(|x| *x == want).unwrap_or(false);
    struct Plain;
    impl Callbacks for Plain {}
    if is { rustc_driver::compiler_entrypoint(&args, &mut Cb) } else { rustc_driver::compiler_entrypoint(&args, &mut Plain) }
}
