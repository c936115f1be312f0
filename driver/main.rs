// Fact extractor: a rustc driver that dumps monomorphic MIR ("facts") of one crate as JSON.
//
// It is injected as RUSTC_WORKSPACE_WRAPPER under `cargo check`.  For each crate it walks every
// body that can be monomorphised without choosing type parameters (all non-generic functions) and,
// transitively, every instance those bodies call that belongs to the workspace (in whatever crate)
// or to a small set of std combinators (Option/Result/Try/convert), resolving trait methods to
// their implementations on the way.  Nothing is executed or evaluated beyond constants.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const INLINE_PREFIXES: &[&str] = &[
    "core::option::",
    "std::option::",
    "core::result::",
    "std::result::",
    "core::convert::",
    "std::convert::",
    "core::ops::",
    "std::ops::",
    "core::bool::",
    "std::bool::",
    "core::cmp::",
    "std::cmp::",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ws: Vec<String>,
    types: Vec<String>,
    tyids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<Work<'tcx>>,
    seen: HashSet<String>,
    bodies: BTreeMap<String, String>,
    fresh_consts: usize,
}

#[derive(Clone)]
enum Work<'tcx> {
    Inst(Instance<'tcx>, String),
    Promoted(DefId, ty::GenericArgsRef<'tcx>, usize, String),
    Const(DefId, ty::GenericArgsRef<'tcx>, String),
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            let c = self.tcx.crate_name(d.krate).to_string();
            if p.starts_with('<') {
                return format!("{}", p.replace("crate::", &format!("{c}::")));
            }
            if p.starts_with("crate::") {
                return p.replacen("crate::", &format!("{c}::"), 1);
            }
            if !p.starts_with(&format!("{c}::")) {
                return format!("{c}::{p}");
            }
        }
        p
    }

    fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }

    fn is_ws(&self, d: DefId) -> bool {
        d.is_local() || self.ws.contains(&self.crate_of(d))
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, loc.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tyids.insert(t, id);
        let s = js(&self.tystr(t));
        let out = match t.kind() {
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let krate = self.crate_of(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let expand = self.is_ws(def.did())
                    || !(krate == "core" || krate == "alloc" || krate == "std")
                    || matches!(
                        path.rsplit("::").next().unwrap_or(""),
                        "Option" | "Result" | "ControlFlow" | "Range" | "RangeInclusive" | "Ordering" | "Cow"
                    );
                let mut vs = vec![];
                if expand && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(self.env(), ft)
                                .unwrap_or_else(|_| self.tcx.types.unit);
                            let fi = self.ty(ft);
                            let vis = if f.vis.is_public() { 1 } else { 0 };
                            fs.push(format!("[{},{},{}]", js(f.name.as_str()), fi, vis));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                            js(v.name.as_str()),
                            d,
                            fs.join(",")
                        ));
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"p\":{},\"s\":{},\"e\":{},\"a\":[{}],\"v\":[{}]}}",
                    js(&path),
                    s,
                    if def.is_enum() { 1 } else { 0 },
                    a.join(","),
                    vs.join(",")
                )
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ref\",\"s\":{},\"t\":{},\"m\":{}}}", s, i, if m.is_mut() { 1 } else { 0 })
            }
            ty::RawPtr(inner, _) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ptr\",\"s\":{},\"t\":{}}}", s, i)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{},\"a\":[{}]}}", s, a.join(","))
            }
            ty::Slice(x) => {
                let i = self.ty(*x);
                format!("{{\"k\":\"slice\",\"s\":{},\"t\":{}}}", s, i)
            }
            ty::Array(x, n) => {
                let i = self.ty(*x);
                let l = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"s\":{},\"t\":{},\"l\":{}}}", s, i, l)
            }
            ty::Closure(d, args) => {
                let d = *d;
                let inst = Instance::new_raw(d, args);
                let n = self.enqueue(inst);
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                format!(
                    "{{\"k\":\"closure\",\"s\":{},\"n\":{},\"u\":[{}],\"ck\":{}}}",
                    s,
                    js(&n.unwrap_or_default()),
                    up.join(","),
                    js(&kind)
                )
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.no_bound_vars().unwrap());
                format!("{{\"k\":\"fndef\",\"s\":{},\"c\":{}}}", s, c)
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Str | ty::Never | ty::Float(_) => {
                format!("{{\"k\":\"prim\",\"s\":{}}}", s)
            }
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", s),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        };
        self.types[id] = out;
        id
    }

    fn argstr(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| with_no_trimmed_paths!(format!("{}", a)))
            .collect();
        v.join(", ")
    }

    fn key(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut p = self.path(d);
        let a = if self.tcx.is_closure_like(d) {
            self.argstr(self.tcx.mk_args(args.as_closure().parent_args()))
        } else {
            self.argstr(args)
        };
        if !a.is_empty() {
            p = format!("{p} <{a}>");
        }
        p
    }

    fn want_body(&self, d: DefId) -> bool {
        if self.is_ws(d) {
            return true;
        }
        let dp = {
            let k = self.crate_of(d);
            let p = self.tcx.def_path(d).to_string_no_crate_verbose();
            format!("{k}{p}")
        };
        INLINE_PREFIXES.iter().any(|p| dp.starts_with(p))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let d = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        if !self.want_body(d) || !self.tcx.is_mir_available(d) {
            return None;
        }
        if self.tcx.is_constructor(d) {
            return None;
        }
        let args = self.tcx.erase_and_anonymize_regions(inst.args);
        let inst = Instance { def: inst.def, args };
        let k = self.key(d, args);
        if self.seen.insert(k.clone()) {
            self.queue.push_back(Work::Inst(inst, k.clone()));
        }
        Some(k)
    }

    // JSON description of a callee; resolves traits and enqueues bodies of interest.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new(args));
        let decl = self.path(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let tr = tcx.trait_of_assoc(d).map(|t| self.path(t)).unwrap_or_default();
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = format!(
            "{{\"d\":{},\"m\":{},\"tr\":{},\"a\":[{}]",
            js(&decl),
            js(&name),
            js(&tr),
            targs.join(",")
        );
        if tcx.is_constructor(d) {
            let parent = tcx.parent(d);
            let (adt, var) = if tcx.def_kind(parent) == DefKind::Variant {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            let rt = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
            let ti = self.ty(rt);
            let _ = write!(o, ",\"ctor\":[{},{},{}]", js(&self.path(adt)), js(&var), ti);
            o.push('}');
            return o;
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(inst)) => match inst.def {
                InstanceKind::Item(rd) => {
                    let rp = self.path(rd);
                    let _ = write!(o, ",\"r\":{}", js(&rp));
                    if let Some(imp) = tcx.impl_of_assoc(rd) {
                        if tcx.is_automatically_derived(imp) {
                            o.push_str(",\"der\":1");
                        }
                    }
                    let _ = write!(o, ",\"cr\":{}", js(&self.crate_of(rd)));
                    if tcx.is_closure_like(rd) {
                        o.push_str(",\"clo\":1");
                    }
                    if let Some(n) = self.enqueue(inst) {
                        let _ = write!(o, ",\"n\":{}", js(&n));
                    } else {
                        // types in args may carry closures / fn items the leaf will call
                        for t in inst.args.types() {
                            self.ty(t);
                        }
                    }
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    // args: [closure type, tuple]
                    if let Some(t) = args.types().next() {
                        if let ty::Closure(cd, cargs) = t.kind() {
                            let ci = Instance::new_raw(*cd, cargs);
                            if let Some(n) = self.enqueue(ci) {
                                let _ = write!(o, ",\"clo\":1,\"n\":{}", js(&n));
                            }
                        }
                    }
                    let _ = closure;
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                    if let ty::FnDef(fd, fargs) = t.kind() {
                        let c = self.callee(*fd, fargs.no_bound_vars().unwrap());
                        let _ = write!(o, ",\"via\":{}", c);
                    }
                }
                InstanceKind::Virtual(..) => o.push_str(",\"virt\":1"),
                InstanceKind::Shim(ShimKind::Clone(..)) => o.push_str(",\"cloneshim\":1"),
                _ => {}
            },
            _ => o.push_str(",\"unres\":1"),
        }
        o.push('}');
        o
    }

    fn scalar(&mut self, ty: Ty<'tcx>, si: ty::ScalarInt, tid: usize) -> String {
        match ty.kind() {
            ty::Bool => format!("{{\"c\":\"bool\",\"v\":{},\"ty\":{}}}", if si.is_null() { 0 } else { 1 }, tid),
            ty::Int(_) => {
                let sz = si.size();
                let v = si.to_int(sz);
                format!("{{\"c\":\"int\",\"v\":\"{}\",\"ty\":{}}}", v, tid)
            }
            ty::Uint(_) | ty::Char => {
                let v = si.to_uint(si.size());
                format!("{{\"c\":\"int\",\"v\":\"{}\",\"ty\":{}}}", v, tid)
            }
            _ => {
                let v = si.to_uint(si.size());
                format!("{{\"c\":\"raw\",\"v\":\"{}\",\"ty\":{}}}", v, tid)
            }
        }
    }

    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let tid = self.ty(ty);
        match v {
            ConstValue::Scalar(interpret::Scalar::Int(si)) => return self.scalar(ty, si, tid),
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = ty.kind() {
                    let c = self.callee(*d, a.no_bound_vars().unwrap());
                    return format!("{{\"c\":\"fn\",\"f\":{},\"ty\":{}}}", c, tid);
                }
                return format!("{{\"c\":\"zst\",\"ty\":{}}}", tid);
            }
            _ => {}
        }
        if let ty::Ref(_, inner, _) = ty.kind() {
            let is_str = inner.is_str();
            let is_bytes = match inner.kind() {
                ty::Slice(e) => *e == tcx.types.u8,
                _ => false,
            };
            if is_str || is_bytes {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if is_str {
                        return format!("{{\"c\":\"str\",\"v\":{},\"ty\":{}}}", js(&String::from_utf8_lossy(b)), tid);
                    }
                    let h: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"c\":\"bytes\",\"v\":[{}],\"ty\":{}}}", h.join(","), tid);
                }
            }
        }
        let s = with_no_trimmed_paths!(format!("{}", Const::Val(v, ty)));
        format!("{{\"c\":\"other\",\"s\":{},\"ty\":{}}}", js(&s), tid)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        match c.const_ {
            Const::Val(v, ty) => self.constval(v, ty),
            Const::Ty(ty, ct) => {
                let tid = self.ty(ty);
                if let Some(v) = ct.try_to_value() {
                    if let Some(si) = v.try_to_leaf() {
                        return self.scalar(ty, si, tid);
                    }
                }
                format!("{{\"c\":\"other\",\"s\":{},\"ty\":{}}}", js(&format!("{:?}", ct)), tid)
            }
            Const::Unevaluated(uv, _) => {
                let tid = self.ty(ty);
                let args = tcx.erase_and_anonymize_regions(uv.args);
                if let Some(p) = uv.promoted {
                    let k = format!("{}::promoted[{}]", self.key(uv.def, args), p.as_usize());
                    if self.seen.insert(k.clone()) {
                        self.queue.push_back(Work::Promoted(uv.def, args, p.as_usize(), k.clone()));
                    }
                    return format!("{{\"c\":\"promoted\",\"n\":{},\"ty\":{}}}", js(&k), tid);
                }
                // scalars and strings are evaluated; other workspace constants are dumped as bodies
                let ev = c.const_.eval(tcx, self.env(), c.span);
                if let Ok(v) = ev {
                    let simple = match ty.kind() {
                        ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => true,
                        ty::Ref(_, i, _) => i.is_str(),
                        _ => false,
                    };
                    if simple {
                        let mut s = self.constval(v, ty);
                        s.pop();
                        let _ = write!(s, ",\"cp\":{}}}", js(&self.path(uv.def)));
                        return s;
                    }
                }
                let (d, args) = match Instance::try_resolve(tcx, self.env(), uv.def, args) {
                    Ok(Some(i)) => (i.def_id(), tcx.erase_and_anonymize_regions(i.args)),
                    _ => (uv.def, args),
                };
                if d.is_local() || self.is_ws(d) {
                    let k = self.key(d, args);
                    let k = format!("const {k}");
                    if self.seen.insert(k.clone()) {
                        self.queue.push_back(Work::Const(d, args, k.clone()));
                    }
                    return format!(
                        "{{\"c\":\"const\",\"p\":{},\"n\":{},\"ty\":{}}}",
                        js(&self.path(d)),
                        js(&k),
                        tid
                    );
                }
                if let Ok(v) = ev {
                    let s = self.constval(v, ty);
                    if !s.contains("\"c\":\"other\"") {
                        return s;
                    }
                }
                format!("{{\"c\":\"extern\",\"p\":{},\"ty\":{}}}", js(&self.path(d)), tid)
            }
        }
    }

    fn place(&mut self, b: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    let mut var = String::new();
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_enum() || def.is_struct() || def.is_union() {
                            let v = def.variant(vi);
                            name = v.fields[f].name.to_string();
                            if def.is_enum() {
                                var = v.name.to_string();
                            }
                        }
                    }
                    if var.is_empty() {
                        let _ = write!(out, ",[\"f\",{},{}]", f.as_usize(), js(&name));
                    } else {
                        let _ = write!(out, ",[\"f\",{},{},{}]", f.as_usize(), js(&name), js(&var));
                    }
                }
                ProjectionElem::Downcast(_, vi) => {
                    let mut var = vi.as_usize().to_string();
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        var = def.variant(vi).name.to_string();
                    }
                    let _ = write!(out, ",[\"d\",{}]", js(&var));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(out, ",[\"ci\",{},{}]", offset, if from_end { 1 } else { 0 });
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, ",[\"ss\",{},{},{}]", from, to, if from_end { 1 } else { 0 });
                }
                _ => out.push_str(",[\"?\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        out.push(']');
        out
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(b, *p)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":1}}", self.place(b, *p)),
            Operand::Constant(c) => self.constant(c),
            _ => "{\"c\":\"bool\",\"v\":0,\"rt\":1}".into(),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(b, o)),
            Rvalue::Repeat(o, n) => {
                let l = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(b, o), l)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. }) as u8;
                format!("{{\"r\":\"ref\",\"m\":{},\"pl\":{}}}", m, self.place(b, *p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"ref\",\"m\":{},\"pl\":{}}}", m.is_mut() as u8, self.place(b, *p))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"m\":1,\"raw\":1,\"pl\":{}}}", self.place(b, *p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = self.tystr(o.ty(b, self.tcx));
                let to = self.tystr(*t);
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{},\"from\":{},\"to\":{}}}",
                    js(&format!("{:?}", k)),
                    self.operand(b, o),
                    ti,
                    js(&from),
                    js(&to)
                )
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                js(&format!("{:?}", op)),
                self.operand(b, &ab.0),
                self.operand(b, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{:?}", op)), self.operand(b, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let ti = self.ty(t);
                format!("{{\"r\":\"discr\",\"pl\":{},\"ty\":{}}}", self.place(b, *p), ti)
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<String> = fs.iter().map(|o| self.operand(b, o)).collect();
                let rt = r.ty(b, self.tcx);
                let ti = self.ty(rt);
                let (kind, var) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        ("adt", def.variant(*vi).name.to_string())
                    }
                    AggregateKind::Closure(..) => ("closure", String::new()),
                    AggregateKind::RawPtr(..) => ("rawptr", String::new()),
                    _ => ("other", String::new()),
                };
                let mut names = vec![];
                if let AggregateKind::Adt(d, vi, _, _, af) = &**k {
                    let def = self.tcx.adt_def(*d);
                    let v = def.variant(*vi);
                    if let Some(f) = af {
                        names.push(js(v.fields[*f].name.as_str()));
                    } else {
                        for f in v.fields.iter() {
                            names.push(js(f.name.as_str()));
                        }
                    }
                }
                format!(
                    "{{\"r\":\"agg\",\"k\":\"{}\",\"v\":{},\"ty\":{},\"n\":[{}],\"o\":[{}]}}",
                    kind,
                    js(&var),
                    ti,
                    names.join(","),
                    ops.join(",")
                )
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"p\":{}}}}}", self.place(b, *p))
            }
            _ => format!("{{\"r\":\"other\",\"s\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, key: &str, meta: String, b: &Body<'tcx>) {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = BTreeMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let l = self.span(s.source_info.span);
                        st.push(format!(
                            "{{\"d\":{},\"v\":{},\"l\":{}}}",
                            self.place(b, *p),
                            self.rvalue(b, r),
                            js(&l)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(b, tcx).ty;
                        let mut var = variant_index.as_usize().to_string();
                        if let ty::Adt(def, _) = t.kind() {
                            var = def.variant(*variant_index).name.to_string();
                        }
                        st.push(format!("{{\"sd\":{},\"var\":{}}}", self.place(b, **place), js(&var)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(b, discr);
                    let ti = { let t = discr.ty(b, tcx); self.ty(t) };
                    let mut cs: Vec<String> = vec![];
                    for (v, t) in targets.iter() {
                        cs.push(format!("[\"{}\",{}]", v, t.as_usize()));
                    }
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"c\":[{}],\"e\":{},\"l\":{}}}",
                        o,
                        ti,
                        cs.join(","),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreach\"}".into(),
                TerminatorKind::Drop { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = {
                        let ft = func.ty(b, tcx);
                        match ft.kind() {
                            ty::FnDef(d, a) => {
                                self.callee(*d, a.no_bound_vars().unwrap())
                            }
                            _ => format!("{{\"ptr\":{}}}", self.operand(b, func)),
                        }
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                    let aty: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(b, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dty = { let t = destination.ty(b, tcx).ty; self.ty(t) };
                    let fsp = js(&self.span(t.source_info.span));
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"d\":{},\"dty\":{},\"b\":{},\"l\":{}}}",
                        f,
                        a.join(","),
                        aty.join(","),
                        self.place(b, *destination),
                        dty,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        fsp
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "{{\"t\":\"assert\",\"o\":{},\"x\":{},\"b\":{},\"m\":{},\"l\":{}}}",
                    self.operand(b, cond),
                    *expected as u8,
                    target.as_usize(),
                    js(&format!("{:?}", std::mem::discriminant(&**msg))),
                    sp
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_usize())
                }
                _ => "{\"t\":\"unreach\",\"k\":\"other\"}".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), term));
        }
        let nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, js(v))).collect();
        let spread = b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        let o = format!(
            "{{{},\"args\":{},\"spread\":{},\"span\":{},\"locals\":[{}],\"names\":{{{}}},\"blocks\":[{}]}}",
            meta,
            b.arg_count,
            spread,
            js(&self.span(b.span)),
            locals.join(","),
            nm.join(","),
            blocks.join(",\n")
        );
        self.bodies.insert(key.to_string(), o);
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    // constants of the crate (storage handles and the like)
                    let g = tcx.generics_of(d);
                    if !g.requires_monomorphization(tcx) {
                        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => unreachable!(),
                        });
                        let k = format!("const {}", self.key(d, args));
                        if self.seen.insert(k.clone()) {
                            self.queue.push_back(Work::Const(d, args, k));
                        }
                    }
                    continue;
                }
                _ => continue,
            }
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            let inst = Instance::new_raw(d, args);
            self.enqueue(inst);
        }
        while let Some(w) = self.queue.pop_front() {
            match w {
                Work::Inst(inst, k) => {
                    let d = inst.def_id();
                    let raw = tcx.instance_mir(inst.def);
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        self.env(),
                        ty::EarlyBinder::bind(tcx, raw.clone()),
                    );
                    let mut meta = format!(
                        "\"p\":{},\"cr\":{},\"nm\":{}",
                        js(&self.path(d)),
                        js(&self.crate_of(d)),
                        js(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())
                    );
                    if tcx.is_closure_like(d) {
                        meta.push_str(",\"clo\":1");
                    } else {
                        if tcx.visibility(d).is_public() {
                            meta.push_str(",\"pub\":1");
                        }
                        if let Some(imp) = tcx.impl_of_assoc(d) {
                            if tcx.is_automatically_derived(imp) {
                                meta.push_str(",\"der\":1");
                            }
                            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            let _ = write!(meta, ",\"self\":{}", js(&self.tystr(st)));
                            if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                                let _ = write!(meta, ",\"tr\":{}", js(&self.path(tr)));
                            }
                        }
                    }
                    self.body(&k, meta, &b);
                }
                Work::Promoted(d, args, i, k) => {
                    let p = tcx.promoted_mir(d);
                    let raw = &p[Promoted::from_usize(i)];
                    let inst = Instance::new_raw(d, args);
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        self.env(),
                        ty::EarlyBinder::bind(tcx, raw.clone()),
                    );
                    let meta = format!("\"p\":{},\"cr\":{},\"promoted\":1", js(&k), js(&self.crate_of(d)));
                    self.body(&k, meta, &b);
                }
                Work::Const(d, args, k) => {
                    let raw = tcx.mir_for_ctfe(d);
                    let inst = Instance::new_raw(d, args);
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        self.env(),
                        ty::EarlyBinder::bind(tcx, raw.clone()),
                    );
                    let meta = format!(
                        "\"p\":{},\"cr\":{},\"const\":1",
                        js(&self.path(d)),
                        js(&self.crate_of(d))
                    );
                    self.body(&k, meta, &b);
                }
            }
        }
        let _ = self.fresh_consts;
    }
}

/// what the body of a generic function mentions: function items (with their arguments) and built types
struct Mentions<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    calls: Vec<String>,
    built: Vec<String>,
}

impl<'a, 'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Mentions<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            let tcx = self.cx.tcx;
            let args: &[ty::GenericArg<'tcx>] = args.skip_binder();
            let targs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| js(&self.cx.tystr(t))).collect();
            let _ = tcx;
            self.calls.push(format!("[{},[{}]]", js(&self.cx.path(*d)), targs.join(",")));
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        if let Rvalue::Aggregate(k, _) = r {
            if let AggregateKind::Adt(d, v, ..) = **k {
                let name = self.cx.tcx.adt_def(d).variant(v).name.to_string();
                self.built.push(js(&format!("{}::{}", self.cx.path(d), name)));
            }
        }
        self.super_rvalue(r, l);
    }
}

impl<'tcx> Cx<'tcx> {
    fn generic_bodies(&self) -> Vec<String> {
        use rustc_middle::mir::visit::Visitor;
        let tcx = self.tcx;
        let mut out = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) || !tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let b = tcx.instance_mir(InstanceKind::Item(d));
            let mut m = Mentions { cx: self, calls: vec![], built: vec![] };
            m.visit_body(b);
            let mut meta = format!("{{\"p\":{}", js(&self.path(d)));
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(meta, ",\"self\":{}", js(&self.tystr(st)));
                if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                    let _ = write!(meta, ",\"tr\":{}", js(&self.path(tr)));
                }
            }
            out.push(format!("{},\"calls\":[{}],\"built\":[{}]}}", meta, m.calls.join(","), m.built.join(",")));
        }
        out.sort();
        out
    }
}

struct Cb {
    out: Option<String>,
    ws: Vec<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.always_encode_mir = true;
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.unstable_opts.ub_checks = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let mut cx = Cx {
                tcx,
                ws: self.ws.clone(),
                types: vec![],
                tyids: HashMap::new(),
                queue: VecDeque::new(),
                seen: HashSet::new(),
                bodies: BTreeMap::new(),
                fresh_consts: 0,
            };
            cx.run();
            let mut o = String::new();
            o.push_str("{\"crate\":");
            o.push_str(&js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()));
            o.push_str(",\"types\":[\n");
            o.push_str(&cx.types.join(",\n"));
            o.push_str("],\n\"bodies\":{\n");
            let v: Vec<String> = cx.bodies.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            o.push_str(&v.join(",\n"));
            o.push_str("},\n\"generic\":[\n");
            o.push_str(&cx.generic_bodies().join(",\n"));
            o.push_str("]}\n");
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let p = format!("{}/{}.json", out, name);
            let tmp = format!("{}.{}.tmp", p, std::process::id());
            std::fs::write(&tmp, o).expect("write facts");
            std::fs::rename(&tmp, &p).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver /path/to/rustc <args>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.sh")) {
        args.remove(1);
    }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && (w[1].contains("lib")));
    let mut out = None;
    if is_lib && std::env::var("CARGO_PRIMARY_PACKAGE").is_ok() || is_lib {
        out = std::env::var("VERIF_FACTS_DIR").ok();
    }
    let ws = std::env::var("VERIF_WS_CRATES").unwrap_or_default();
    let ws: Vec<String> = ws.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut cb = Cb { out, ws };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
