//! rustc driver: dumps the type-checked, borrow-checker-level MIR (`mir_promoted`)
//! of every body of a workspace crate as JSON, with resolved callees, types,
//! evaluated constants, and the optimised MIR of the small std combinators the
//! workspace calls.  Used as RUSTC_WRAPPER; crates not named in MIRFACTS_CRATES are
//! compiled by plain rustc.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}
macro_rules! a { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }

// ---------------------------------------------------------------- names
fn ty_short<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => path(tcx, d.did()),
        ty::Slice(_) => "slice".into(),
        ty::Array(..) => "array".into(),
        ty::Str => "str".into(),
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, ty_short(tcx, *t)),
        ty::RawPtr(_, m) => if m.is_mut() { "mut_ptr".into() } else { "const_ptr".into() },
        ty::Param(p) => p.name.to_string(),
        ty::Tuple(_) => "tuple".into(),
        ty::Dynamic(..) => "dyn".into(),
        _ => format!("{}", t),
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = || tcx.crate_name(d.krate).to_string();
    if d.is_crate_root() {
        return krate();
    }
    let parent = match tcx.opt_parent(d) {
        Some(p) => p,
        None => return krate(),
    };
    let seg = {
        let data = tcx.def_key(d).disambiguated_data;
        match tcx.opt_item_name(d) {
            Some(n) if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) => n.to_string(),
            _ => format!("{{{:?}#{}}}", data.data, data.disambiguator),
        }
    };
    if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
        let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
        if of_trait {
            let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
            let mut s = format!("<{} as {}", ty_short(tcx, st), path(tcx, tr.def_id));
            let targs: Vec<String> = tr.args.types().skip(1).map(|t| ty_short(tcx, t)).collect();
            if !targs.is_empty() {
                let _ = write!(s, "<{}>", targs.join(","));
            }
            let _ = write!(s, ">::{}", seg);
            return s;
        }
        return format!("{}::{}", ty_short(tcx, st), seg);
    }
    format!("{}::{}", path(tcx, parent), seg)
}

/// unique id
fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<String, usize>,
    tytab: Vec<J>,
    externs: BTreeMap<String, DefId>,
    adts: BTreeMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let j = self.ty0(t);
        let mut k = String::new();
        j.w(&mut k);
        let n = self.tytab.len();
        let id = *self.tys.entry(k).or_insert(n);
        if id == n {
            self.tytab.push(j);
        }
        J::I(id as i128)
    }
    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        self.argsl(&args[..])
    }
    fn argsl(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for g in args.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(a![J::s("const"), self.cst(c)]),
                _ => {}
            }
        }
        J::A(v)
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::I(v as i128);
        }
        if let Ok(c2) = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c)) {
            if let Some(v) = c2.try_to_target_usize(self.tcx) {
                return J::I(v as i128);
            }
        }
        match c.kind() {
            ty::ConstKind::Param(p) => a![J::s("cparam"), J::s(p.name.to_string()), J::I(p.index as i128)],
            _ => J::s(format!("{:?}", c)),
        }
    }
    fn ty0(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => a![J::s("bool")],
            ty::Char => a![J::s("char")],
            ty::Int(i) => a![J::s("int"), J::s(i.name_str())],
            ty::Uint(i) => a![J::s("uint"), J::s(i.name_str())],
            ty::Float(i) => a![J::s("float"), J::s(i.name_str())],
            ty::Str => a![J::s("str")],
            ty::Never => a![J::s("never")],
            ty::Adt(d, args) => {
                let p = path(tcx, d.did());
                self.adts.insert(p.clone(), d.did());
                a![J::s("adt"), J::s(p), self.args(args)]
            }
            ty::Array(t, n) => {
                let n = self.cst(*n);
                a![J::s("array"), self.ty(*t), n]
            }
            ty::Slice(t) => a![J::s("slice"), self.ty(*t)],
            ty::RawPtr(t, m) => a![J::s("ptr"), J::B(m.is_mut()), self.ty(*t)],
            ty::Ref(_, t, m) => a![J::s("ref"), J::B(m.is_mut()), self.ty(*t)],
            ty::FnDef(d, args) => {
                let d: DefId = (*d).into();
                let args = args.skip_binder();
                let c = self.callee(d, args);
                a![J::s("fndef"), c]
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                a![J::s("closure"), J::s(uid(tcx, *d)), J::A(ups), self.argsl(args.as_closure().parent_args())]
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                a![J::s("coroutine"), J::s(uid(tcx, *d)), J::A(ups)]
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                a![J::s("tuple"), J::A(v)]
            }
            ty::Param(p) => a![J::s("param"), J::s(p.name.to_string()), J::I(p.index as i128)],
            ty::Dynamic(..) => a![J::s("dyn"), J::s(format!("{}", t))],
            ty::Alias(_, al) => {
                let args = self.args(al.args);
                a![J::s("alias"), J::s(format!("{}", t)), args, J::s(match al.kind { ty::AliasTyKind::Projection { def_id } => path(tcx, def_id.into()), _ => String::new() })]
            }
            _ => a![J::s("other"), J::s(format!("{}", t))],
        }
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("id", J::s(uid(tcx, d))), ("name", J::s(path(tcx, d))), ("args", self.args(args))];
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            // variant or struct
            if tcx.def_kind(p) == DefKind::Variant {
                let e = tcx.parent(p);
                let idx = tcx.adt_def(e).variants().iter().position(|v| v.def_id == p).unwrap();
                self.adts.insert(path(tcx, e), e);
                o.push(("ctor", a![J::s(path(tcx, e)), J::I(idx as i128)]));
            } else {
                self.adts.insert(path(tcx, p), p);
                o.push(("ctor", a![J::s(path(tcx, p)), J::I(0)]));
            }
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, t))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if matches!(tcx.fn_sig(d).skip_binder().safety(), rustc_hir::Safety::Unsafe) {
                o.push(("unsafe", J::B(true)));
            }
        }
        let mut rd = d;
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, self.env, d, eargs)));
            if let Ok(Ok(Some(i))) = r {
                if let ty::InstanceKind::Item(x) = i.def {
                    rd = x;
                    if x != d {
                        o.push(("rid", J::s(uid(tcx, x))));
                        o.push(("rname", J::s(path(tcx, x))));
                        o.push(("rargs", self.args(i.args)));
                    }
                } else {
                    o.push(("shim", J::s(format!("{:?}", i.def).split('(').next().unwrap().to_string())));
                }
            }
        }
        if !rd.is_local() && matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
            self.externs.insert(uid(tcx, rd), rd);
        }
        J::O(o)
    }
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = f.strip_prefix("/repo/").unwrap_or(&f).to_string();
        J::s(format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => a![J::s("d")],
                ProjectionElem::Field(f, t) => a![J::s("f"), J::I(f.as_usize() as i128), self.ty(t)],
                ProjectionElem::Index(l) => a![J::s("i"), J::I(l.as_usize() as i128)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a![J::s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a![J::s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]
                }
                ProjectionElem::Downcast(n, v) => {
                    a![J::s("v"), J::I(v.as_usize() as i128), n.map_or(J::Null, |n| J::s(n.to_string()))]
                }
                _ => a![J::s("o")],
            });
        }
        a![J::I(p.local.as_usize() as i128), J::A(v)]
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(len) };
                m.get_bytes_strip_provenance(&self.tcx, r).ok().map(|b| b.to_vec())
            }
            _ => None,
        }
    }
    /// read pointer (+meta) stored at an allocation
    fn read_ptr(&self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> Option<(rustc_middle::mir::interpret::AllocId, u64)> {
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
            let m = m.inner();
            let r = AllocRange { start: off, size: rustc_abi::Size::from_bytes(8) };
            if let Ok(Scalar::Ptr(p, _)) = m.read_scalar(&self.tcx, r, true) {
                let (prov, o) = p.into_raw_parts();
                return Some((prov.alloc_id(), o.bytes()));
            }
        }
        None
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::O(vec![("opaque", J::s("deep"))]);
        }
        match (t.kind(), v) {
            (ty::Bool, ConstValue::Scalar(Scalar::Int(i))) => J::O(vec![("bool", J::B(i.to_bits(i.size()) != 0))]),
            (ty::Uint(_) | ty::Char, ConstValue::Scalar(Scalar::Int(i))) => J::O(vec![("int", J::I(i.to_bits(i.size()) as i128))]),
            (ty::Int(_), ConstValue::Scalar(Scalar::Int(i))) => J::O(vec![("int", J::I(i.to_int(i.size())))]),
            (ty::FnDef(d, args), _) => {
                let d: DefId = (*d).into();
                let args = args.skip_binder();
                J::O(vec![("fn", self.callee(d, args))])
            }
            (ty::Ref(_, inner, _), v) => {
                // an empty str or slice may have a pointer without an allocation
                let meta0 = match v {
                    ConstValue::Slice { meta, .. } => Some(meta),
                    ConstValue::Indirect { alloc_id, offset } if matches!(inner.kind(), ty::Str | ty::Slice(_)) => {
                        self.alloc_bytes(alloc_id, offset.bytes() + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    }
                    _ => None,
                };
                match (inner.kind(), meta0) {
                    (ty::Str, Some(0)) => return J::O(vec![("str", J::s(String::new()))]),
                    (ty::Slice(e), Some(0)) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => return J::O(vec![("bytes", J::A(vec![]))]),
                    _ => {}
                }
                // (alloc, off, meta)
                let target = match v {
                    ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, Some(meta))),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        Some((prov.alloc_id(), o.bytes(), None))
                    }
                    ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset).map(|(a, o)| {
                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            self.alloc_bytes(alloc_id, offset.bytes() + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                        } else {
                            None
                        };
                        (a, o, meta)
                    }),
                    _ => None,
                };
                if let Some((al, off, meta)) = target {
                    match inner.kind() {
                        ty::Str => {
                            if let Some(b) = self.alloc_bytes(al, off, meta.unwrap_or(0)) {
                                return J::O(vec![("str", J::s(String::from_utf8_lossy(&b).into_owned()))]);
                            }
                        }
                        ty::Slice(e) if let Some(n) = meta => {
                            return self.seq(al, off, n, *e, depth);
                        }
                        ty::Array(e, n) => {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                return self.seq(al, off, n, *e, depth);
                            }
                        }
                        _ => {
                            let cv = ConstValue::Indirect { alloc_id: al, offset: rustc_abi::Size::from_bytes(off) };
                            let cv = self.load(cv, *inner);
                            return J::O(vec![("ref", self.cval(cv, *inner, depth + 1))]);
                        }
                    }
                }
                J::O(vec![("opaque", J::s(format!("ref {}", t)))])
            }
            (ty::Adt(..) | ty::Tuple(_) | ty::Array(..), v) => {
                if let ty::Array(e, n) = t.kind() {
                    if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(tcx)) {
                        return match self.seq(alloc_id, offset.bytes(), n, *e, depth) {
                            J::O(mut o) => {
                                o.push(("byval", J::B(true)));
                                J::O(o)
                            }
                            x => x,
                        };
                    }
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tcx.try_destructure_mir_constant_for_user_output(v, t)));
                if let Ok(Some(d)) = r {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return J::O(vec![("agg", self.ty(t)), ("variant", J::I(d.variant.map_or(0, |v| v.as_usize()) as i128)), ("fields", J::A(fs))]);
                }
                J::O(vec![("opaque", J::s(format!("{}", t)))])
            }
            _ => J::O(vec![("opaque", J::s(format!("{}", t)))]),
        }
    }
    /// If the pointee is a scalar, load it.
    fn load(&self, cv: ConstValue, t: Ty<'tcx>) -> ConstValue {
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        let r = AllocRange { start: offset, size: l.size };
                        if let Ok(s) = m.inner().read_scalar(&self.tcx, r, false) {
                            return ConstValue::Scalar(s);
                        }
                    }
                }
            }
        }
        cv
    }
    fn seq(&mut self, al: rustc_middle::mir::interpret::AllocId, off: u64, n: u64, e: Ty<'tcx>, depth: usize) -> J {
        if let ty::Uint(ty::UintTy::U8) = e.kind() {
            if let Some(b) = self.alloc_bytes(al, off, n) {
                return J::O(vec![("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect()))]);
            }
        }
        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(e)) else {
            return J::O(vec![("opaque", J::s("seq"))]);
        };
        let mut v = vec![];
        for i in 0..n {
            let cv = ConstValue::Indirect { alloc_id: al, offset: rustc_abi::Size::from_bytes(off + i * l.size.bytes()) };
            let cv = self.load(cv, e);
            v.push(self.cval(cv, e, depth + 1));
        }
        J::O(vec![("seq", J::A(v))])
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let args = args.skip_binder();
            o.push(("fn", self.callee(d, args)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("path", J::s(path(self.tcx, u.def))));
            o.push(("uid", J::s(uid(self.tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
            }
            o.push(("cargs", self.args(u.args)));
        }
        if let Const::Ty(_, k) = c.const_ {
            if let ty::ConstKind::Param(p) = k.kind() {
                o.push(("cparam", a![J::s("cparam"), J::s(p.name.to_string()), J::I(p.index as i128)]));
            }
        }
        let tcx = self.tcx;
        let env = self.env;
        let c2 = tcx.erase_and_anonymize_regions(c.const_);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c2.eval(tcx, env, c.span)));
        if let Ok(Ok(v)) = r {
            o.push(("val", self.cval(v, t, 0)));
        }
        J::O(o)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => a![J::s("cp"), self.place(p)],
            Operand::Move(p) => a![J::s("mv"), self.place(p)],
            Operand::Constant(c) => a![J::s("k"), self.constant(c)],
            _ => a![J::s("rc")],
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => a![J::s("use"), self.operand(o)],
            Rvalue::Repeat(o, n) => {
                let n = self.cst(*n);
                a![J::s("rep"), self.operand(o), n]
            }
            Rvalue::Ref(_, k, p) => a![J::s("ref"), J::s(match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Fake(_) => "fake", _ => "shr" }), self.place(p)],
            Rvalue::RawPtr(_, p) => a![J::s("ref"), J::s("raw"), self.place(p)],
            Rvalue::Cast(k, o, t) => a![J::s("cast"), J::s(format!("{:?}", k)), self.operand(o), self.ty(*t)],
            Rvalue::BinaryOp(b, ops) => a![J::s("bin"), J::s(format!("{:?}", b)), self.operand(&ops.0), self.operand(&ops.1)],
            Rvalue::UnaryOp(b, o) => a![J::s("un"), J::s(format!("{:?}", b)), self.operand(o)],
            Rvalue::Discriminant(p) => a![J::s("discr"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => a![J::s("array"), self.ty(*t)],
                    AggregateKind::Tuple => a![J::s("tuple")],
                    AggregateKind::Adt(d, v, args, _, active) => {
                        self.adts.insert(path(self.tcx, *d), *d);
                        a![J::s("adt"), J::s(path(self.tcx, *d)), J::I(v.as_usize() as i128), self.args(args), active.map_or(J::Null, |f| J::I(f.as_usize() as i128))]
                    }
                    AggregateKind::Closure(d, args) => a![J::s("closure"), J::s(uid(self.tcx, *d)), self.argsl(args.as_closure().parent_args())],
                    AggregateKind::Coroutine(d, _) => a![J::s("coroutine"), J::s(uid(self.tcx, *d))],
                    _ => a![J::s("other")],
                };
                a![J::s("agg"), k, J::A(v)]
            }
            Rvalue::CopyForDeref(p) => a![J::s("use"), a![J::s("cp"), self.place(p)]],
            Rvalue::Reborrow(_, m, p) => a![J::s("use"), a![J::s(if m.is_mut() { "mv" } else { "cp" }), self.place(p)]],
            _ => a![J::s("other"), J::s(format!("{:?}", r))],
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_, d) in b.local_decls.iter_enumerated() {
            locals.push(self.ty(d.ty));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(a![J::s(v.name.to_string()), self.place(&p)]);
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let r = self.rvalue(&x.1);
                        st.push(a![J::s("="), self.place(&x.0), r, self.span(s.source_info.span)]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(a![J::s("sd"), self.place(place), J::I(variant_index.as_usize() as i128)])
                    }
                    StatementKind::StorageDead(l) => st.push(a![J::s("dead"), J::I(l.as_usize() as i128)]),
                    StatementKind::StorageLive(l) => st.push(a![J::s("live"), J::I(l.as_usize() as i128)]),
                    StatementKind::Intrinsic(i) => st.push(a![J::s("intr"), J::s(format!("{:?}", i))]),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bbj = |b: BasicBlock| J::I(b.as_usize() as i128);
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => a![J::s("goto"), bbj(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, b)| a![J::I(v as i128), bbj(b)]).collect();
                    let t = discr.ty(&b.local_decls, tcx);
                    a![J::s("switch"), self.operand(discr), J::A(v), bbj(targets.otherwise()), self.ty(t), sp]
                }
                TerminatorKind::Return => a![J::s("ret")],
                TerminatorKind::Unreachable => a![J::s("unreach")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => a![J::s("unwind")],
                TerminatorKind::Drop { place, target, .. } => a![J::s("drop"), self.place(place), bbj(*target), sp],
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func);
                    let v: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let sp2 = self.span(*fn_span);
                    let dty = destination.ty(&b.local_decls, tcx).ty;
                    a![J::s("call"), f, J::A(v), self.place(destination), target.map_or(J::Null, bbj), sp2, self.ty(dty)]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(_, a, b) => ("overflow", vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow_neg", vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let op = if let AssertKind::Overflow(o, ..) = &**msg { J::s(format!("{:?}", o)) } else { J::Null };
                    let v: Vec<J> = ops.into_iter().map(|o| self.operand(o)).collect();
                    a![J::s("assert"), self.operand(cond), J::B(*expected), J::s(k), op, J::A(v), bbj(*target), sp]
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => a![J::s("yield"), bbj(*resume), self.place(resume_arg), sp],
                TerminatorKind::FalseEdge { real_target, .. } => a![J::s("goto"), bbj(*real_target)],
                TerminatorKind::FalseUnwind { real_target, .. } => a![J::s("goto"), bbj(*real_target)],
                k => a![J::s("other"), J::s(format!("{:?}", k))],
            };
            blocks.push(a![J::A(st), tj]);
        }
        J::O(vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("span", self.span(b.span)),
            ("spread", b.spread_arg.map_or(J::Null, |l| J::I(l.as_usize() as i128))),
            ("blocks", J::A(blocks)),
        ])
    }
}

thread_local! {
    static BODIES: RefCell<Vec<(DefId, Body<'static>, Vec<Body<'static>>)>> = const { RefCell::new(Vec::new()) };
}

struct Cb {
    out: String,
}

/// user-written unsafe blocks of a body (not those of macros defined outside the workspace or of compiler desugarings)
struct UnsafeBlocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    spans: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) && !external(b.span) {
            self.spans.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

/// does the span come from a macro of another crate or from a desugaring?
fn external(sp: Span) -> bool {
    use rustc_span::ExpnKind;
    let mut sp = sp;
    while sp.from_expansion() {
        let e = sp.ctxt().outer_expn_data();
        match e.kind {
            ExpnKind::Macro(..) if e.macro_def_id.map_or(true, |d| !d.is_local()) => return true,
            ExpnKind::Desugaring(_) => return true,
            _ => {}
        }
        sp = e.call_site;
    }
    false
}

/// crates/modules whose optimised MIR we also export (small pure combinators)
const EXT_PREFIX: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::ops::control_flow", "core::ops::try_trait",
    "core::convert::", "core::cmp::", "core::mem::", "core::ops::function", "core::iter::", "core::array::",
    "core::slice::iter", "core::ops::range", "core::tuple", "core::clone", "core::ops::index_range", "core::default",
];

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        for d in tcx.hir_body_owners() {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(d);
            if b.is_stolen() {
                eprintln!("mirfacts: stolen {:?}", d);
                continue;
            }
            let body: Body<'tcx> = b.borrow().clone();
            let proms: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            let body: Body<'static> = unsafe { std::mem::transmute(body) };
            let proms: Vec<Body<'static>> = unsafe { std::mem::transmute(proms) };
            BODIES.with(|x| x.borrow_mut().push((d.to_def_id(), body, proms)));
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let bodies = BODIES.with(|x| std::mem::take(&mut *x.borrow_mut()));
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            tytab: vec![],
            externs: BTreeMap::new(),
            adts: BTreeMap::new(),
        };
        let mut fns = vec![];
        for (d, body, proms) in &bodies {
            let body: &Body<'tcx> = unsafe { std::mem::transmute(body) };
            cx.env = TypingEnv::post_analysis(tcx, *d);
            let is_test = false;
            let _ = is_test;
            let mut o = vec![
                ("id", J::s(uid(tcx, *d))),
                ("name", J::s(path(tcx, *d))),
                ("kind", J::s(format!("{:?}", tcx.def_kind(*d)))),
                ("vis", J::B(tcx.visibility(*d).is_public())),
            ];
            if let Some(p) = tcx.opt_parent(*d) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", cx.ty(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", J::s(path(tcx, tr.def_id))));
                        o.push(("impl_trait_args", cx.args(tr.args)));
                    }
                }
            }
            if tcx.def_kind(*d) != DefKind::Closure {
                let sig = tcx.fn_sig(*d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(matches!(sig.safety(), rustc_hir::Safety::Unsafe))));
                o.push(("async", J::B(tcx.asyncness(*d).is_async())));
                let g = tcx.generics_of(*d);
                let mut gs = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gs.push(a![J::s(p.name.to_string()), J::I(i as i128)]);
                    }
                }
                o.push(("generics", J::A(gs)));
            } else {
                o.push(("parent", J::s(uid(tcx, tcx.parent(*d)))));
                if let Some(ck) = body.coroutine_kind() {
                    o.push(("coroutine", J::s(format!("{:?}", ck))));
                }
            }
            o.push(("body", cx.body(body)));
            let mut pv = vec![];
            for p in proms {
                let p: &Body<'tcx> = unsafe { std::mem::transmute(p) };
                pv.push(cx.body(p));
            }
            o.push(("promoted", J::A(pv)));
            fns.push(J::O(o));
        }
        // const items
        let mut consts = vec![];
        for d in tcx.hir_body_owners() {
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let dd = d.to_def_id();
                cx.env = TypingEnv::post_analysis(tcx, dd);
                let mut o = vec![("id", J::s(uid(tcx, dd))), ("name", J::s(path(tcx, dd)))];
                o.push(("body", cx.body(tcx.mir_for_ctfe(dd))));
                let mut pv = vec![];
                for p in tcx.promoted_mir(dd).iter() {
                    pv.push(cx.body(p));
                }
                o.push(("promoted", J::A(pv)));
                let t = tcx.type_of(dd).instantiate_identity().skip_norm_wip();
                o.push(("ty", cx.ty(t)));
                consts.push(J::O(o));
            }
        }
        // external combinators
        let mut ext = vec![];
        let mut done: BTreeSet<String> = BTreeSet::new();
        let mut extnames = vec![];
        for _round in 0..6 {
            let todo: Vec<(String, DefId)> = cx.externs.iter().filter(|(k, _)| !done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            if todo.is_empty() {
                break;
            }
            for (k, d) in todo {
                done.insert(k.clone());
                if _round == 0 {
                    extnames.push(J::s(path(tcx, d)));
                }
                if !EXT_PREFIX.iter().any(|p| k.starts_with(p)) || !tcx.is_mir_available(d) {
                    continue;
                }
                if tcx.is_constructor(d) {
                    continue;
                }
                cx.env = TypingEnv::post_analysis(tcx, d);
                let b = tcx.optimized_mir(d);
                if b.basic_blocks.len() > 60 {
                    continue;
                }
                let g = tcx.generics_of(d);
                let mut gs = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gs.push(a![J::s(p.name.to_string()), J::I(i as i128)]);
                    }
                }
                let bj = cx.body(b);
                ext.push(J::O(vec![("id", J::s(k)), ("name", J::s(path(tcx, d))), ("generics", J::A(gs)), ("body", bj)]));
            }
        }
        // ADTs
        let mut adts = vec![];
        let mut seen: BTreeSet<String> = BTreeSet::new();
        // make sure every local ADT is listed
        for d in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                cx.adts.insert(path(tcx, d.to_def_id()), d.to_def_id());
            }
        }
        loop {
            let todo: Vec<(String, DefId)> = cx.adts.iter().filter(|(k, _)| !seen.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            if todo.is_empty() || seen.len() > 3000 {
                break;
            }
            for (k, d) in todo {
                seen.insert(k.clone());
                let def = tcx.adt_def(d);
                cx.env = TypingEnv::post_analysis(tcx, d);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = if d.is_local() || k.starts_with("core::option") || k.starts_with("core::result") {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            cx.ty(t)
                        } else {
                            J::Null
                        };
                        fs.push(a![J::s(f.name.to_string()), ft, J::B(f.vis.is_public()), J::s(format!("{:?}", f.vis))]);
                    }
                    let discr = if def.is_enum() { J::I(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::I(0) };
                    vs.push(a![J::s(v.name.to_string()), discr, J::A(fs)]);
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let g = tcx.generics_of(d);
                let mut gs = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gs.push(a![J::s(p.name.to_string()), J::I(i as i128)]);
                    }
                }
                adts.push(J::O(vec![
                    ("name", J::s(k)),
                    ("kind", J::s(kind)),
                    ("local", J::B(d.is_local())),
                    ("generics", J::A(gs)),
                    ("vis", J::s(format!("{:?}", tcx.visibility(d)))),
                    ("variants", J::A(vs)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
        }
        // impls
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for i in ids {
                let i = i.to_def_id();
                cx.env = TypingEnv::post_analysis(tcx, i);
                let t = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                let mut ms = vec![];
                for it in tcx.associated_items(i).in_definition_order() {
                    if it.is_fn() {
                        ms.push(a![J::s(it.name().to_string()), J::s(uid(tcx, it.def_id))]);
                    }
                }
                impls.push(J::O(vec![("trait", J::s(path(tcx, *tr))), ("args", cx.args(t.args)), ("methods", J::A(ms))]));
            }
        }
        // unsafe constructs
        let mut uns = vec![];
        for d in tcx.hir_body_owners() {
            let mut v = UnsafeBlocks { tcx, spans: vec![] };
            // closures are visited with the body that contains them
            if tcx.def_kind(d) == DefKind::Closure {
                continue;
            }
            use rustc_hir::intravisit::Visitor;
            v.visit_body(tcx.hir_body_owned_by(d));
            for sp in v.spans {
                let lo = tcx.sess.source_map().lookup_char_pos(sp.lo()).line;
                let hi = tcx.sess.source_map().lookup_char_pos(sp.hi()).line;
                uns.push(a![J::s("block"), J::s(path(tcx, d.to_def_id())), cx.span(sp), J::I(lo as i128), J::I(hi as i128), J::s(uid(tcx, d.to_def_id()))]);
            }
        }
        for id in tcx.hir_crate_items(()).free_items() {
            let it = tcx.hir_item(id);
            if external(it.span) {
                continue;
            }
            let d = id.owner_id.to_def_id();
            match it.kind {
                rustc_hir::ItemKind::Impl(i) => {
                    if let Some(t) = i.of_trait {
                        if matches!(t.safety, rustc_hir::Safety::Unsafe) {
                            uns.push(a![J::s("impl"), J::s(path(tcx, d)), cx.span(it.span)]);
                        }
                    }
                }
                rustc_hir::ItemKind::Static(m, ..) => {
                    if m.is_mut() {
                        uns.push(a![J::s("static mut"), J::s(path(tcx, d)), cx.span(it.span)]);
                    }
                }
                rustc_hir::ItemKind::ForeignMod { .. } => uns.push(a![J::s("extern block"), J::s(path(tcx, d)), cx.span(it.span)]),
                rustc_hir::ItemKind::GlobalAsm { .. } => uns.push(a![J::s("asm"), J::s(path(tcx, d)), cx.span(it.span)]),
                rustc_hir::ItemKind::Union(..) => uns.push(a![J::s("union"), J::s(path(tcx, d)), cx.span(it.span)]),
                _ => {}
            }
        }
        for d in tcx.hir_body_owners() {
            for at in tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)) {
                let t = format!("{:?}", at);
                for n in ["NoMangle", "ExportName", "LinkSection"] {
                    if t.contains(n) {
                        uns.push(a![J::s("attribute"), J::s(path(tcx, d.to_def_id())), cx.span(tcx.def_span(d))]);
                    }
                }
            }
        }
        let types = cx.tytab.clone();
        let o = J::O(vec![
            ("unsafe", J::A(uns)),
            ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("ext", J::A(ext)),
            ("extnames", J::A(extnames)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("types", J::A(types)),
        ]);
        let mut s = String::new();
        o.w(&mut s);
        std::fs::write(&self.out, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv = driver rustc args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        let real = args.remove(1);
        let crates = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
        let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
        let is_test = args.iter().any(|a| a == "--test");
        let hit = name.as_ref().map_or(false, |n| crates.split(',').any(|c| c == n)) && !is_test;
        if !hit {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(real).args(&args[1..]).exec();
            panic!("{e}");
        }
        let out = format!("{}/{}.json", std::env::var("MIRFACTS_OUT").unwrap(), name.unwrap());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        return;
    }
    panic!("use as RUSTC_WRAPPER");
}
