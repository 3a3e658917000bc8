// MIR extractor: a rustc driver (run as RUSTC_WORKSPACE_WRAPPER under `cargo check`) that writes the
// type-checked, callee-resolved MIR of every body of the crate being compiled to
// $VDUMP_DIR/<crate>.json. It inspects the program; it never runs it.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    want: VecDeque<DefId>,
    seen: HashSet<DefId>,
    env: TypingEnv<'tcx>,
    base: Base,
    names: HashMap<DefId, HashMap<(usize, usize), String>>,
}

/// the structs and enums of the repository as they were when the rules were written: the rules know private fields by
/// those names, so a renamed field (same type, old name gone) or a moved type goes by its old name
#[derive(Default)]
struct Base {
    fields: HashMap<(String, usize), Vec<(String, String)>>,
    paths: HashMap<String, String>,
}

fn load_base() -> Base {
    let mut b = Base::default();
    let mut dup = HashSet::new();
    if let Some(t) = std::env::var("VDUMP_BASE").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            let last = c[0].rsplit("::").next().unwrap().to_string();
            if let Some(o) = b.paths.insert(last.clone(), c[0].to_string()) { if o != c[0] { dup.insert(last.clone()); } }
            let e = b.fields.entry((c[0].to_string(), c[1].parse().unwrap())).or_default();
            if !c[2].is_empty() { e.push((c[2].to_string(), c[3].to_string())); }
        }
    }
    for d in dup { b.paths.remove(&d); }
    b
}

const EXTERN_OK: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::mem::", "core::convert::", "core::ops::",
    "core::bool::", "core::clone::", "core::default::", "core::tuple::", "core::num::",
    "core::ops::range::", "core::borrow::", "alloc::borrow::", "core::array::", "core::iter::traits::collect::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        let p = format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose());
        if k.as_str().starts_with("omnipaxos") && matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Struct | rustc_hir::def::DefKind::Enum) {
            let known = self.base.fields.keys().any(|x| x.0 == p);
            if let (false, Some(q)) = (known, self.base.paths.get(p.rsplit("::").next().unwrap())) {
                if q.split("::").next() == p.split("::").next() { return q.clone(); }
            }
        }
        p
    }
    fn fname(&mut self, d: DefId, vi: usize, fi: usize) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let orig = def.variant(rustc_abi::VariantIdx::from_usize(vi)).fields[rustc_abi::FieldIdx::from_usize(fi)].name.to_string();
        if self.base.fields.is_empty() || !tcx.crate_name(d.krate).as_str().starts_with("omnipaxos") { return orig; }
        if !self.names.contains_key(&d) {
            let mut m = HashMap::new();
            let path = self.path(d);
            let ids = ty::GenericArgs::identity_for_item(tcx, d);
            for (v, var) in def.variants().iter_enumerated() {
                let Some(old) = self.base.fields.get(&(path.clone(), v.index())) else { continue };
                let now: Vec<(String, String)> = var.fields.iter().map(|f| (f.name.to_string(), with_no_trimmed_paths!(f.ty(tcx, ids).skip_norm_wip().to_string()))).collect();
                let gone: Vec<&(String, String)> = old.iter().filter(|o| !now.iter().any(|n| n.0 == o.0)).collect();
                let new: Vec<(usize, &(String, String))> = now.iter().enumerate().filter(|(_, n)| !old.iter().any(|o| n.0 == o.0)).collect();
                for (_, t) in gone.iter().map(|g| &g.1).map(|t| ((), t)).collect::<Vec<_>>() {
                    let a: Vec<_> = gone.iter().filter(|g| &g.1 == t).collect();
                    let b: Vec<_> = new.iter().filter(|n| &n.1.1 == t).collect();
                    if a.len() == b.len() { for (x, y) in a.iter().zip(b.iter()) { m.insert((v.index(), y.0), x.0.clone()); } }
                }
            }
            self.names.insert(d, m);
        }
        self.names[&d].get(&(vi, fi)).cloned().unwrap_or(orig)
    }
    fn span(&self, s: Span) -> String {
        // innermost user location: walk out of macro expansions to the call site
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, String::new());
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let ids = ty::GenericArgs::identity_for_item(tcx, d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
            let mut fs = vec![];
            for (fi, f) in v.fields.iter().enumerate() {
                let t = f.ty(tcx, ids).skip_norm_wip();
                let ti = self.ty(t);
                let nm = self.fname(d, vi.index(), fi);
                fs.push(format!("[{},{},{}]", js(&nm), ti, f.vis.is_public()));
            }
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), discr, arr(fs)));
        }
        let gens: Vec<String> = ids.iter().map(|g| js(&with_no_trimmed_paths!(g.to_string()))).collect();
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let sp = if d.is_local() { self.span(tcx.def_span(d)) } else { String::new() };
        let s = format!("{{\"path\":{},\"kind\":\"{}\",\"gen\":{},\"vars\":{},\"span\":{}}}", js(&self.path(d)), kind, arr(gens), arr(vs), js(&sp));
        self.adts.insert(d, s);
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() { v.push(self.ty(t).to_string()); }
            else if let Some(c) = g.as_const() { v.push(js(&format!("{}", c))); }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        let s = with_no_trimmed_paths!(t.to_string());
        let body = match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => format!("\"k\":\"prim\",\"n\":{}", js(&s)),
            ty::Adt(d, a) => {
                self.adt(d.did());
                let aa = self.args(a);
                format!("\"k\":\"adt\",\"d\":{},\"a\":{}", js(&self.path(d.did())), aa)
            }
            ty::Array(e, n) => { let e = self.ty(e); format!("\"k\":\"array\",\"a\":[{}],\"len\":{}", e, js(&n.to_string())) }
            ty::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"a\":[{}]", e) }
            ty::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"a\":[{}],\"m\":{}", e, m.is_mut()) }
            ty::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"a\":[{}],\"m\":{}", e, m.is_mut()) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"a\":{}", arr(v)) }
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let pa = a.as_closure().parent_args().to_vec();
                let mut v = vec![];
                for g in pa { if let Some(t) = g.as_type() { v.push(self.ty(t).to_string()); } }
                format!("\"k\":\"closure\",\"d\":{},\"a\":{},\"up\":{}", js(&self.path(d)), arr(v), arr(ups))
            }
            ty::FnDef(d, a) => { let aa = self.args(a.skip_binder()); format!("\"k\":\"fndef\",\"d\":{},\"a\":{}", js(&self.path(d)), aa) }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Alias(_, _) => format!("\"k\":\"alias\",\"n\":{}", js(&s)),
            ty::Dynamic(..) => format!("\"k\":\"dyn\",\"n\":{}", js(&s)),
            ty::FnPtr(..) => format!("\"k\":\"fnptr\",\"n\":{}", js(&s)),
            _ => format!("\"k\":\"other\",\"n\":{}", js(&s)),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", js(&s), body);
        i
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) if !d.is_union() => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            self.fname(d.did(), vi.index(), f.index())
                        }
                        _ => f.index().to_string(),
                    };
                    let _ = fty;
                    format!("[\"f\",{},{}]", f.index(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() { ty::Adt(d, _) => d.variant(vi).name.to_string(), _ => String::new() };
                    format!("[\"d\",{},{}]", vi.index(), js(&name))
                }
                _ => "\"?\"".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("[{},{},{}]", p.local.index(), arr(v), t)
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"d\":{},\"n\":{},\"a\":{}", js(&self.path(d)), js(tcx.item_name(d).as_str()), self.args(a));
        if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(o, ",\"trait\":{}", js(&self.path(tr))); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let si = self.ty(st);
            let _ = write!(o, ",\"self\":{}", si);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) { let _ = write!(o, ",\"implof\":{}", js(&self.path(tr.skip_binder().def_id))); }
        }
        let a2 = a;
        let env = self.env;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let a3 = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(a2)).unwrap_or(tcx.erase_and_anonymize_regions(a2));
            Instance::try_resolve(tcx, env, d, a3).ok().flatten()
        })).ok().flatten();
        if let Some(inst) = res {
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                _ => "other",
            };
            let rd = inst.def_id();
            let ra = self.args(inst.args);
            let _ = write!(o, ",\"rk\":\"{}\",\"r\":{},\"ra\":{}", kind, js(&self.path(rd)), ra);
            if let Some(im) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let si = self.ty(st);
                let _ = write!(o, ",\"rself\":{}", si);
            }
            if kind == "item" || kind == "closure_once" { self.want.push_back(rd); }
        }
        format!("{{{}}}", o)
    }
    fn constop(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let cs = self.callee(d, a.skip_binder());
            return format!("[\"k\",{},{{\"fn\":{}}}]", ti, cs);
        }
        let mut extra = String::new();
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            match uv.promoted {
                Some(p) => return format!("[\"k\",{},{{\"prom\":[{},{}]}}]", ti, js(&self.path(uv.def)), p.index()),
                None => { let _ = write!(extra, ",\"def\":{}", js(&self.path(uv.def))); self.want.push_back(uv.def); }
            }
        }
        if let mir::Const::Ty(_, ct) = c.const_ { let _ = write!(extra, ",\"ct\":{}", js(&ct.to_string())); }
        let generic = c.const_.has_param();
        if !generic || extra.is_empty() {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                match v {
                    ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let val = if let ty::Int(_) = t.kind() { i.to_int(i.size()).to_string() } else { bits.to_string() };
                        return format!("[\"k\",{},{{\"int\":{}{}}}]", ti, val, extra);
                    }
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let aid = p.provenance.alloc_id();
                        let g = tcx.global_alloc(aid);
                        if let mir::interpret::GlobalAlloc::Memory(m) = g {
                            let al = m.inner();
                            if al.provenance().ptrs().is_empty() {
                                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                                let inner_bytes = match *t.kind() { ty::Ref(_, e, _) => match *e.kind() { ty::Array(ee, _) => ee == tcx.types.u8, _ => false }, _ => false };
                                if inner_bytes {
                                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                    return format!("[\"k\",{},{{\"bytes\":{}{}}}]", ti, arr(v), extra);
                                }
                            }
                        }
                        return format!("[\"k\",{},{{\"ptr\":1{}}}]", ti, extra);
                    }
                    ConstValue::ZeroSized => return format!("[\"k\",{},{{\"zst\":1{}}}]", ti, extra),
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if let ty::Ref(_, e, _) = *t.kind() { if e.is_str() {
                                return format!("[\"k\",{},{{\"str\":{}{}}}]", ti, js(&String::from_utf8_lossy(b)), extra);
                            } }
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("[\"k\",{},{{\"bytes\":{}{}}}]", ti, arr(v), extra);
                        }
                    }
                    _ => {}
                }
            }
        }
        format!("[\"k\",{},{{\"opaque\":{}{}}}]", ti, js(&with_no_trimmed_paths!(c.const_.to_string())), extra)
    }
    fn op(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(b, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(b, *p)),
            Operand::Constant(c) => self.constop(c),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(b, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(b, o), js(&n.to_string())),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(b, *p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(b, *p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(b, *p), m.is_mut()),
            Rvalue::Cast(k, o, t) => { let oo = self.op(b, o); let ti = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), oo, ti) }
            Rvalue::BinaryOp(k, bx) => { let x = self.op(b, &bx.0); let y = self.op(b, &bx.1); format!("[\"bin\",\"{:?}\",{},{}]", k, x, y) }
            Rvalue::UnaryOp(k, o) => format!("[\"un\",\"{:?}\",{}]", k, self.op(b, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(b, *p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(b, *p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(b, o)).collect();
                let kk = match **k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, a, _, fi) => {
                        self.adt(d);
                        let def = self.tcx.adt_def(d);
                        let v = def.variant(vi);
                        let fns: Vec<String> = match fi { Some(f) => vec![js(&self.fname(d, vi.index(), f.index()))], None => (0..v.fields.len()).map(|f| js(&self.fname(d, vi.index(), f))).collect() };
                        let aa = self.args(a);
                        format!("[\"adt\",{},{},{},{},{}]", js(&self.path(d)), vi.index(), js(v.name.as_str()), arr(fns), aa)
                    }
                    AggregateKind::Closure(d, a) => { self.want.push_back(d); let t = Ty::new_closure(self.tcx, d, a); let ti = self.ty(t); format!("[\"closure\",{},{}]", js(&self.path(d)), ti) }
                    AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(os))
            }
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names = vec![];
        for vd in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = vd.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.index(), js(vd.name.as_str()))); }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let sp = s.source_info.span;
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let r = self.rvalue(b, &bx.1);
                        let p = self.place(b, bx.0);
                        st.push(format!("[\"=\",{},{},{}]", p, r, js(&self.span(sp))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, **place);
                        st.push(format!("[\"setd\",{},{},{}]", p, variant_index.index(), js(&self.span(sp))));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(b, discr);
                    let tt = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(tt);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.index())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", o, arr(v), targets.otherwise().index(), ti, sp)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(b, *place), target.index()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(b, func);
                    let a: Vec<String> = args.iter().map(|x| self.op(b, &x.node)).collect();
                    let d = self.place(b, *destination);
                    let tg = target.map(|x| x.index().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, arr(a), d, tg, sp)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let o = self.op(b, cond);
                    let mut m = format!("{:?}", msg); m.truncate(60);
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, target.index(), js(&m), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                _ => "[\"unreach\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"cl\":{}}}", arr(st), ts, bb.is_cleanup));
        }
        format!("{{\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}", b.arg_count, arr(locals), arr(names), arr(blocks))
    }
    fn func(&mut self, d: DefId) -> Option<String> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let mut o = format!("\"key\":{},\"kind\":{}", js(&self.path(d)), js(&format!("{:?}", kind)));
        let typeck_root = tcx.typeck_root_def_id(d);
        self.env = TypingEnv::post_analysis(tcx, typeck_root);
        let b: Option<&Body<'tcx>> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if d.is_local() || tcx.is_mir_available(d) { Some(tcx.instance_mir(InstanceKind::Item(d))) } else { None }
            }
            DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } => {
                if d.is_local() || false { Some(tcx.mir_for_ctfe(d)) } else { None }
            }
            _ => None,
        };
        let b = b?;
        if let Some(n) = tcx.opt_item_name(d) { let _ = write!(o, ",\"name\":{}", js(n.as_str())); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = if d.is_local() { tcx.visibility(d).is_public() } else { true };
            let reach = if let Some(l) = d.as_local() { tcx.effective_visibilities(()).is_reachable(l) } else { true };
            let _ = write!(o, ",\"pub\":{},\"reach\":{}", vis, reach);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(o, ",\"trait\":{}", js(&self.path(tr))); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let si = self.ty(st);
            let _ = write!(o, ",\"self\":{},\"impl\":{}", si, js(&self.path(im)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let trr = tr.skip_binder();
                let _ = write!(o, ",\"implof\":{}", js(&self.path(trr.def_id)));
            }
            let derived = tcx.is_automatically_derived(im);
            if derived { o.push_str(",\"derived\":true"); }
        }
        if kind == DefKind::Closure { let _ = write!(o, ",\"parent\":{}", js(&self.path(typeck_root))); }
        let gens = if kind == DefKind::Closure { ty::GenericArgs::identity_for_item(tcx, typeck_root) } else { ty::GenericArgs::identity_for_item(tcx, d) };
        let ga = self.args(gens);
        let _ = write!(o, ",\"gen\":{}", ga);
        let _ = write!(o, ",\"span\":{}", js(&self.span(tcx.def_span(d))));
        let bs = self.body(b);
        let _ = write!(o, ",\"body\":{}", bs);
        let has_prom = (d.is_local() || tcx.is_mir_available(d)) && matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const | DefKind::AssocConst | DefKind::Static { .. });
        if has_prom {
            let pr = tcx.promoted_mir(d);
            let mut v = vec![];
            for p in pr.iter() { v.push(self.body(p)); }
            let _ = write!(o, ",\"prom\":{}", arr(v));
        }
        Some(format!("{{{}}}", o))
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut fs = vec![];
        let keys: Vec<DefId> = tcx.mir_keys(()).iter().map(|d| d.to_def_id()).collect();
        for d in keys {
            self.seen.insert(d);
            if let Some(f) = self.func(d) { fs.push(f); }
        }
        while let Some(d) = self.want.pop_front() {
            if !self.seen.insert(d) { continue; }
            if d.is_local() { if let Some(f) = self.func(d) { fs.push(f); } continue; }
            let p = self.path(d);
            if !EXTERN_OK.iter().any(|x| p.starts_with(x)) { continue; }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d) {
                if let Some(f) = self.func(d) { fs.push(f); }
            }
        }
        // impl table
        let mut impls = vec![];
        for (tr, im) in tcx.all_local_trait_impls(()) {
            for i in im.iter() {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let si = self.ty(st);
                let mut items = vec![];
                for it in tcx.associated_items(i.to_def_id()).in_definition_order() {
                    items.push(format!("[{},{}]", js(it.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()), js(&self.path(it.def_id))));
                }
                let derived = tcx.is_automatically_derived(i.to_def_id());
                impls.push(format!("{{\"trait\":{},\"self\":{},\"derived\":{},\"items\":{}}}", js(&self.path(*tr)), si, derived, arr(items)));
            }
        }
        // local ADTs even if unused in bodies
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) { self.adt(id.to_def_id()); }
        }
        let adts: Vec<String> = self.adts.values().cloned().collect();
        let cname = tcx.crate_name(LOCAL_CRATE);
        format!("{{\"crate\":{},\"types\":{},\"adts\":{},\"impls\":{},\"fns\":{}}}", js(cname.as_str()), arr(self.types.clone()), arr(adts), arr(impls), arr(fs))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("VDUMP_DIR") {
            let env = TypingEnv::fully_monomorphized();
            let mut cx = Cx { tcx, types: vec![], tyidx: Default::default(), adts: Default::default(), want: Default::default(), seen: Default::default(), env, base: load_base(), names: Default::default() };
            let s = cx.run();
            let name = tcx.crate_name(LOCAL_CRATE);
            let tmp = format!("{}/{}.json.tmp", dir, name);
            std::fs::write(&tmp, s).unwrap();
            std::fs::rename(&tmp, format!("{}/{}.json", dir, name)).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") { args.remove(1); }
    struct NoCb;
    impl Callbacks for NoCb {}
    let is_pm = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "proc-macro");
    let has_name = args.iter().any(|a| a == "--crate-name");
    let build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "build_script_build");
    if is_pm || !has_name || build_script {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    }
}
