//! A rustc driver that dumps the type-checked program of the crate under analysis as JSON facts:
//! every MIR body (drop-elaborated, before the coroutine transform), resolved callees, evaluated
//! constants, ADT layouts, trait impls and coroutine witnesses.  It is used as
//! RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; nothing of the analysed crate is run.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
impl J {
    fn s<T: Into<String>>(s: T) -> J { J::S(s.into()) }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => wstr(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } wstr(k, o); o.push(':'); x.write(o); }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',');} o.push('\n'); wstr(k, o); o.push(':'); x.write(o); }
                o.push('}');
            }
        }
    }
}
fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    paths: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) { return p.clone(); }
        let tcx = self.tcx;
        let mut s = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d))));
        if matches!(tcx.def_kind(d), DefKind::Static { .. } | DefKind::Const { .. }) && d.is_local() && s.contains("{") {
            let _ = write!(s, "#{}", d.index.as_u32());
        }
        self.paths.insert(d, s.clone());
        s
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t))))
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(J::I(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(J::s(format!("{}", c))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let s = self.tystr(t);
        let j = match *t.kind() {
            ty::Bool => J::O(vec![("k", J::s("bool"))]),
            ty::Char => J::O(vec![("k", J::s("char"))]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", J::s("int"))]),
            ty::Float(_) => J::O(vec![("k", J::s("float"))]),
            ty::Str => J::O(vec![("k", J::s("str"))]),
            ty::Never => J::O(vec![("k", J::s("never"))]),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(args);
                self.adt(def, &p);
                // field types of this instantiation
                let mut vs = vec![];
                if def.did().is_local() || (def.is_enum() && def.variants().len() <= 8) {
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            fs.push(J::I(self.ty(ft) as i128));
                        }
                        vs.push(J::A(fs));
                    }
                }
                J::O(vec![("k", J::s("adt")), ("p", J::S(p)), ("a", a), ("f", J::A(vs))])
            }
            ty::Ref(_, t, m) => { let x = self.ty(t); J::O(vec![("k", J::s("ref")), ("m", J::B(m.is_mut())), ("t", J::I(x as i128))]) }
            ty::RawPtr(t, m) => { let x = self.ty(t); J::O(vec![("k", J::s("ptr")), ("m", J::B(m.is_mut())), ("t", J::I(x as i128))]) }
            ty::Array(t, n) => {
                let x = self.ty(t);
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null);
                J::O(vec![("k", J::s("array")), ("t", J::I(x as i128)), ("n", n)])
            }
            ty::Slice(t) => { let x = self.ty(t); J::O(vec![("k", J::s("slice")), ("t", J::I(x as i128))]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|t| J::I(self.ty(t) as i128)).collect(); J::O(vec![("k", J::s("tuple")), ("a", J::A(v))]) }
            ty::FnDef(d, a) => { let d: DefId = d.into(); let p = self.path(d); let a = self.args(a.skip_binder()); J::O(vec![("k", J::s("fndef")), ("p", J::S(p)), ("a", a)]) }
            ty::FnPtr(..) => J::O(vec![("k", J::s("fnptr"))]),
            ty::Closure(d, a) => { let d: DefId = d.into(); let p = self.path(d); let u = a.as_closure().upvar_tys().iter().map(|t| J::I(self.ty(t) as i128)).collect(); J::O(vec![("k", J::s("closure")), ("p", J::S(p)), ("a", J::A(u))]) }
            ty::Coroutine(d, a) => { let d: DefId = d.into(); let p = self.path(d); let u = a.as_coroutine().upvar_tys().iter().map(|t| J::I(self.ty(t) as i128)).collect(); J::O(vec![("k", J::s("coroutine")), ("p", J::S(p)), ("a", J::A(u))]) }
            ty::Dynamic(..) => J::O(vec![("k", J::s("dyn"))]),
            ty::Param(_) => J::O(vec![("k", J::s("param"))]),
            ty::Alias(..) => J::O(vec![("k", J::s("alias"))]),
            _ => J::O(vec![("k", J::s("other"))]),
        };
        let j = if let J::O(mut v) = j { v.push(("s", J::S(s))); J::O(v) } else { j };
        self.types[i] = j;
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.contains_key(p) { return; }
        self.adts.insert(p.to_string(), J::Null);
        let mut vs = vec![];
        if def.is_enum() {
            for (i, d) in def.discriminants(self.tcx) {
                let v = def.variant(i);
                vs.push(J::O(vec![
                    ("n", J::s(v.name.as_str())),
                    ("d", J::S(d.val.to_string())),
                    ("f", J::A(v.fields.iter().map(|f| J::s(f.name.as_str())).collect())),
                ]));
            }
        } else {
            for v in def.variants() {
                vs.push(J::O(vec![
                    ("n", J::s(v.name.as_str())),
                    ("d", J::s("0")),
                    ("f", J::A(v.fields.iter().map(|f| J::s(f.name.as_str())).collect())),
                ]));
            }
        }
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut o = vec![("k", J::s(k)), ("local", J::B(def.did().is_local())), ("v", J::A(vs))];
        if def.did().is_local() {
            let (f, l, _) = self.span(self.tcx.def_span(def.did()));
            o.push(("file", J::S(f)));
            o.push(("line", J::I(l as i128)));
            let vis = self.tcx.visibility(def.did()).is_public();
            o.push(("pub", J::B(vis)));
        }
        self.adts.insert(p.to_string(), J::O(o));
    }

    fn span(&self, sp: Span) -> (String, usize, Vec<String>) {
        let mut macs = vec![];
        let mut s = sp;
        let mut n = 0;
        while s.from_expansion() && n < 20 {
            let d = s.ctxt().outer_expn_data();
            if let ExpnKind::Macro(_, name) = d.kind { macs.push(name.to_string()); }
            else { macs.push(format!("<{}>", d.kind.descr())); }
            s = d.call_site;
            n += 1;
        }
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(s.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        (f, loc.line, macs)
    }

    fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let p = self.path(d);
        let ja = self.args(a);
        let mut v = vec![("p", J::S(p)), ("a", ja)];
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            v.push(("tr", J::S(tp)));
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() { v.push(("unsafe", J::B(true))); }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a))));
        if let Ok(Ok(Some(inst))) = res {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
            let rp = self.path(rd);
            v.push(("r", J::S(rp)));
            v.push(("rk", J::s(kind)));
            if rd.is_local() { v.push(("rl", J::B(true))); }
            let ra = self.args(inst.args);
            v.push(("ra", ra));
        }
        v
    }

    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = J::I(self.ty(t) as i128);
        if depth > 6 { return J::O(vec![("k", J::s("opaque")), ("t", tid)]); }
        match t.kind() {
            ty::FnDef(d, a) => {
                let d: DefId = (*d).into();
                let mut v = vec![("k", J::s("fn"))];
                v.extend(self.fnref(d, a.skip_binder(), env));
                v.push(("t", tid));
                return J::O(v);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let ConstValue::Scalar(Scalar::Int(i)) = cv {
                    let v = if t.is_signed() { i.to_int(i.size()) } else { i.to_uint(i.size()) as i128 };
                    return J::O(vec![("k", J::s("int")), ("v", J::S(v.to_string())), ("t", tid)]);
                }
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![("k", J::s("str")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())), ("t", tid)]);
                        }
                    }
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![("k", J::s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())), ("t", tid)]);
                        }
                    }
                    _ => {}
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => {
                            let p = self.path(d);
                            return J::O(vec![("k", J::s("static")), ("p", J::S(p)), ("t", tid)]);
                        }
                        GlobalAlloc::Memory(_) if inner.is_sized(tcx, env) => {
                            let x = self.constval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, env, depth + 1);
                            return J::O(vec![("k", J::s("refto")), ("v", x), ("t", tid)]);
                        }
                        _ => {}
                    }
                }
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        let p = self.path(d);
                        return J::O(vec![("k", J::s("static")), ("p", J::S(p)), ("t", tid)]);
                    }
                }
            }
            ty::Array(e, n) if *e == tcx.types.u8 || *e == tcx.types.u16 || *e == tcx.types.u32 => {
                if let ConstValue::Indirect { alloc_id, offset } = cv {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                        let sz = if *e == tcx.types.u8 { 1 } else if *e == tcx.types.u16 { 2 } else { 4 };
                        let o = offset.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n * sz);
                        let v = b.chunks(sz).map(|c| { let mut x = 0i128; for (i, y) in c.iter().enumerate() { x |= (*y as i128) << (8 * i); } J::I(x) }).collect();
                        return J::O(vec![("k", J::s("intarr")), ("v", J::A(v)), ("t", tid)]);
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = cv {
            return J::O(vec![("k", J::s("zst")), ("t", tid)]);
        }
        let ok = matches!(t.kind(), ty::Tuple(_) | ty::Array(..)) || matches!(t.kind(), ty::Adt(d, _) if !d.is_union());
        if ok {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tcx.try_destructure_mir_constant_for_user_output(cv, t)));
            if let Ok(Some(d)) = r {
                let var = d.variant.map(|v| J::I(v.as_usize() as i128)).unwrap_or(J::Null);
                let fs = d.fields.iter().map(|(c, t)| self.constval(*c, *t, env, depth + 1)).collect();
                return J::O(vec![("k", J::s("agg")), ("var", var), ("f", J::A(fs)), ("t", tid)]);
            }
        }
        J::O(vec![("k", J::s("opaque")), ("t", tid)])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut extra: Option<J> = None;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let d = self.path(u.def);
                let tid = J::I(self.ty(t) as i128);
                return J::O(vec![("k", J::s("promoted")), ("b", J::S(d)), ("i", J::I(p.as_usize() as i128)), ("t", tid)]);
            }
            extra = Some(J::S(self.path(u.def)));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
        let mut j = match r {
            Ok(Ok(cv)) => self.constval(cv, t, env, 0),
            _ => { let tid = J::I(self.ty(t) as i128); J::O(vec![("k", J::s("opaque")), ("t", tid), ("s", J::s(format!("{}", c.const_)))]) }
        };
        if let (Some(e), J::O(v)) = (extra, &mut j) { v.push(("name", e)); }
        j
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![J::s("f"), J::I(f.as_usize() as i128), J::I(t as i128)]) }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::I(v.as_usize() as i128)]),
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c, env))]),
            _ => J::O(vec![("rt", J::B(false))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or_else(|| J::s(format!("{}", c)));
                J::A(vec![J::s("repeat"), self.operand(o, env), n])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), J::s(match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" }), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::s("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let o = self.operand(o, env); let t = self.ty(*t); J::A(vec![J::s("cast"), J::s(format!("{:?}", k)), o, J::I(t as i128)]) }
            Rvalue::BinaryOp(op, b) => { let x = self.operand(&b.0, env); let y = self.operand(&b.1, env); J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), x, y]) }
            Rvalue::UnaryOp(op, o) => { let x = self.operand(o, env); J::A(vec![J::s("un"), J::s(format!("{:?}", op)), x]) }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![J::s("array"), J::I(t as i128)]) }
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let p = self.path(*d);
                        let def = self.tcx.adt_def(*d);
                        self.adt(def, &p);
                        let ja = self.args(a);
                        J::A(vec![J::s("adt"), J::S(p), J::I(v.as_usize() as i128), ja, af.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, _) => { let d: DefId = (*d).into(); J::A(vec![J::s("closure"), J::S(self.path(d))]) }
                    AggregateKind::Coroutine(d, _) => { let d: DefId = (*d).into(); J::A(vec![J::s("coroutine"), J::S(self.path(d))]) }
                    _ => J::A(vec![J::s("other")]),
                };
                let o = ops.iter().map(|o| self.operand(o, env)).collect();
                J::A(vec![J::s("agg"), kk, J::A(o)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)]),
            _ => J::A(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }

    fn sp(&self, s: Span) -> J {
        let (f, l, m) = self.span(s);
        J::A(vec![J::S(f), J::I(l as i128), J::A(m.into_iter().map(J::S).collect())])
    }

    fn body(&mut self, b: &Body<'tcx>, def: DefId, kind: &str) -> J {
        let env = TypingEnv::post_analysis(self.tcx, def);
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: BTreeMap<usize, String> = BTreeMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
                else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e { upnames.insert(f.as_usize(), v.name.to_string()); break; }
                    }
                }
            }
        }
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map(|s| J::s(s.as_str())).unwrap_or(J::Null);
            locals.push(J::A(vec![J::I(t as i128), n]));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(&b.0); let r = self.rvalue(&b.1, env); J::A(vec![J::s("="), p, r, self.sp(s.source_info.span)]) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); J::A(vec![J::s("sd"), p, J::I(variant_index.as_usize() as i128)]) }
                    StatementKind::StorageLive(l) => J::A(vec![J::s("live"), J::I(l.as_usize() as i128)]),
                    StatementKind::StorageDead(l) => J::A(vec![J::s("dead"), J::I(l.as_usize() as i128)]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.sp(t.source_info.span);
            let bbj = |b: &BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", J::s("goto")), ("t", bbj(target))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let signed = dt.is_signed();
                    let size = match dt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64) as u64,
                        _ => 128,
                    };
                    let dt = self.ty(dt);
                    let d = self.operand(discr, env);
                    let vs = targets.iter().map(|(v, t)| {
                        let v = if signed && size < 128 { ((v as i128) << (128 - size)) >> (128 - size) } else { v as i128 };
                        J::A(vec![J::S(v.to_string()), bbj(&t)])
                    }).collect();
                    J::O(vec![("k", J::s("switch")), ("d", d), ("dt", J::I(dt as i128)), ("vs", J::A(vs)), ("o", bbj(&targets.otherwise()))])
                }
                TerminatorKind::UnwindResume => J::O(vec![("k", J::s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", J::s("abort"))]),
                TerminatorKind::Return => J::O(vec![("k", J::s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", J::s("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, self.tcx).ty;
                    let t = self.ty(t);
                    J::O(vec![("k", J::s("drop")), ("p", self.place(place)), ("ty", J::I(t as i128)), ("t", bbj(target))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let at = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); J::I(self.ty(t) as i128) }).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    J::O(vec![("k", J::s("call")), ("f", f), ("a", J::A(a)), ("at", J::A(at)), ("d", self.place(destination)), ("dt", J::I(dt as i128)), ("t", target.as_ref().map(bbj).unwrap_or(J::Null))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let (mk, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(len, env), self.operand(index, env)]),
                        AssertKind::Overflow(op, a, c) => (format!("overflow:{:?}", op), vec![self.operand(a, env), self.operand(c, env)]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![self.operand(a, env)]),
                        AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![self.operand(a, env)]),
                        AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![self.operand(a, env)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    J::O(vec![("k", J::s("assert")), ("c", c), ("e", J::B(*expected)), ("msg", J::S(mk)), ("ops", J::A(ops)), ("t", bbj(target))])
                }
                TerminatorKind::Yield { resume, resume_arg, value, .. } => { let v = self.operand(value, env); J::O(vec![("k", J::s("yield")), ("v", v), ("t", bbj(resume)), ("ra", self.place(resume_arg))]) }
                TerminatorKind::CoroutineDrop => J::O(vec![("k", J::s("cdrop"))]),
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", bbj(real_target))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", bbj(real_target))]),
                _ => J::O(vec![("k", J::s("other"))]),
            };
            let tj = if let J::O(mut v) = tj { v.push(("sp", sp)); J::O(v) } else { tj };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cl", J::B(bb.is_cleanup))]));
        }
        let mut o = vec![
            ("kind", J::s(kind)),
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("up", J::A(upnames.into_iter().map(|(i, n)| J::A(vec![J::I(i as i128), J::S(n)])).collect())),
            ("sp", self.sp(b.span)),
        ];
        let spread = b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null);
        o.push(("spread", spread));
        if let Some(l) = b.coroutine_layout_raw() {
            let vf = l.variant_fields.iter().map(|v| J::A(v.iter().map(|s| J::I(s.as_usize() as i128)).collect())).collect();
            o.push(("variant_fields", J::A(vf)));
        }
        J::O(o)
    }
}

// Bodies are captured as soon as the compiler has produced them (later phases steal them).
thread_local! {
    static BODIES: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = std::cell::RefCell::new(HashMap::new());
}
static ORIG: std::sync::OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>> = std::sync::OnceLock::new();

fn capture<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b: Body<'tcx> = r.borrow().clone();
    // the clone is only used while the same `tcx` is alive (after_analysis)
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| { m.borrow_mut().insert(d, b); });
    r
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
            p.queries.mir_drops_elaborated_and_const_checked = capture;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if name != std::env::var("MIRFACTS_CRATE").unwrap_or("plusendi".into()) { return Compilation::Continue; }
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), paths: HashMap::new() };
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        let mut todo: Vec<(LocalDefId, Body<'tcx>, &'static str)> = vec![];
        let mut skipped = vec![];
        for k in &keys {
            let dk = tcx.def_kind(k.to_def_id());
            let kind = match dk {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => if tcx.is_coroutine(k.to_def_id()) { "coroutine" } else { "closure" },
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => "ctor",
                _ => "other",
            };
            if matches!(kind, "ctor" | "other") { continue; }
            let _ = tcx.mir_drops_elaborated_and_const_checked(*k);
            let body = BODIES.with(|m| m.borrow().get(k).cloned());
            match body {
                Some(b) => { let b: Body<'tcx> = unsafe { std::mem::transmute(b) }; todo.push((*k, b, kind)) }
                None => { skipped.push(tcx.def_path_str(k.to_def_id())); }
            }
        }
        let mut bodies = vec![];
        for (k, b, kind) in &todo {
            let d = k.to_def_id();
            let p = cx.path(d);
            let mut j = cx.body(b, d, kind);
            let mut prom = vec![];
            if !matches!(*kind, "const" | "static") || true {
                let pm = tcx.promoted_mir(d);
                for pb in pm.iter() { prom.push(cx.body(pb, d, "promoted")); }
            }
            if let J::O(v) = &mut j {
                v.push(("promoted", J::A(prom)));
                v.push(("pub", J::B(matches!(*kind, "fn" | "method") && tcx.effective_visibilities(()).is_reachable(*k))));
                if matches!(*kind, "fn" | "method") {
                    v.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
                    v.push(("ident", J::s(tcx.item_name(d).as_str())));
                }
                let par = tcx.parent(d);
                let derived = tcx.is_automatically_derived(par);
                v.push(("derived", J::B(derived)));
                let pp = cx.path(par);
                v.push(("parent", J::S(pp)));
                if *kind == "coroutine" {
                    if let Some(w) = tcx.mir_coroutine_witnesses(d) {
                        let mut ws = vec![];
                        for f in w.field_tys.iter() {
                            let t = cx.ty(f.ty);
                            let s = cx.sp(f.source_info.span);
                            ws.push(J::A(vec![J::I(t as i128), s, J::B(f.ignore_for_traits)]));
                        }
                        v.push(("witness", J::A(ws)));
                    }
                }
            }
            bodies.push((p, j));
        }
        // trait impls of local ADTs
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let s = cx.tystr(st);
                let tr = if of_trait { let t = tcx.impl_trait_ref(d).skip_binder().def_id; J::S(cx.path(t)) } else { J::Null };
                let items = tcx.associated_item_def_ids(d).iter().map(|x| J::S(cx.path(*x))).collect();
                impls.push(J::O(vec![("self", J::S(s)), ("tr", tr), ("derived", J::B(tcx.is_automatically_derived(d))), ("items", J::A(items)), ("sp", cx.sp(tcx.def_span(d)))]));
            }
        }
        let types = std::mem::take(&mut cx.types);
        let adts = std::mem::take(&mut cx.adts);
        let j = J::O(vec![
            ("crate", J::S(name)),
            ("bin", J::B(is_bin)),
            ("skipped", J::A(skipped.into_iter().map(J::S).collect())),
            ("types", J::A(types)),
            ("adts", J::M(adts.into_iter().collect())),
            ("impls", J::A(impls)),
            ("bodies", J::M(bodies)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        std::fs::write(format!("{}/facts-{}.json", out, if is_bin { "bin" } else { "lib" }), s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
