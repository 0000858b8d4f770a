//! mirfacts: a rustc driver that dumps the resolved program (MIR as built, before
//! any optimisation, resolved callees, type layouts) of the crate under analysis as JSON lines.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  Only the crate named by MIRFACTS_CRATE is dumped, to
//! MIRFACTS_OUT; every other invocation behaves exactly as rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Mutex, OnceLock};


struct Store(HashMap<LocalDefId, Body<'static>>);
unsafe impl Send for Store {}
static BODIES: OnceLock<Mutex<Store>> = OnceLock::new();
type MirBuiltFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: OnceLock<MirBuiltFn> = OnceLock::new();

extern crate rustc_data_structures;

fn my_mir_built<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let s = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = s.borrow().clone();
    // The clone is only read while this very `tcx` is alive (after_analysis).
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.get_or_init(|| Mutex::new(Store(HashMap::new()))).lock().unwrap().0.insert(def, b);
    s
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, providers| {
            let _ = ORIG.set(providers.queries.mir_built);
            providers.queries.mir_built = my_mir_built;
        });
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        _tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        Compilation::Continue
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn main() {
    // argv: [wrapper, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && std::env::var("MIRFACTS_OUT").is_ok()
        && args.iter().any(|a| a == "lib" || a == "rlib");
    struct Nop;
    impl Callbacks for Nop {}
    let r = rustc_driver::catch_with_exit_code(move || {
        if is_target {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    });
    let _ = r;
    std::process::exit(if format!("{:?}", r) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}

// ---------------------------------------------------------------- JSON helpers

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

// ---------------------------------------------------------------- dumping

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'tcx Body<'tcx>,
    owner: LocalDefId,
    env: ty::TypingEnv<'tcx>,
}

fn dpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)));
    s
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(format!("{}", t)))
}

fn span_line(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> usize {
    let sp = sp.source_callsite();
    tcx.sess.source_map().lookup_char_pos(sp.lo()).line
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    // stable within one compilation: full def path with disambiguators
    tcx.def_path(d).to_string_no_crate_verbose()
}

impl<'tcx> Cx<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let mut out: Vec<String> = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                ProjectionElem::Deref => out.push(js("*")),
                ProjectionElem::PhantomDeref => out.push(js("*")),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = self.field_name(pt, f);
                    out.push(js(&format!(".{}@{}", name, owner)));
                }
                ProjectionElem::Index(l) => out.push(js(&format!("[_{}]", l.index()))),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(js(&format!("[{}{}]", if from_end { "-" } else { "" }, offset)))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    out.push(js(&format!("[{}..{}{}]", from, if from_end { "-" } else { "" }, to)))
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match n {
                        Some(s) => s.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(a, _) => a.variant(v).name.to_string(),
                            _ => format!("v{}", v.index()),
                        },
                    };
                    out.push(js(&format!("as {}", nm)))
                }
                ProjectionElem::OpaqueCast(_) => {}
                ProjectionElem::UnwrapUnsafeBinder(_) => {}
            }
            pt = pt.projection_ty(self.tcx, elem);
        }
        if out.is_empty() {
            format!("{}", p.local.index())
        } else {
            format!("[{},{}]", p.local.index(), out.join(","))
        }
    }

    fn field_name(&self, pt: PlaceTy<'tcx>, f: rustc_abi::FieldIdx) -> (String, String) {
        match pt.ty.kind() {
            ty::Adt(a, _) => {
                let v = match pt.variant_index {
                    Some(v) => a.variant(v),
                    None => {
                        if a.is_enum() {
                            return (format!("{}", f.index()), dpath(self.tcx, a.did()));
                        }
                        a.non_enum_variant()
                    }
                };
                (v.fields[f].name.to_string(), dpath(self.tcx, a.did()))
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                let n = names.get(f).map(|s| s.to_string()).unwrap_or_else(|| format!("{}", f.index()));
                (n, "closure".into())
            }
            _ => (format!("{}", f.index()), "tuple".into()),
        }
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let mut res = String::new();
                let mut resid = String::new();
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, self.env, *d, args) {
                    let rd = inst.def_id();
                    res = dpath(self.tcx, rd);
                    if rd.is_local() {
                        resid = uid(self.tcx, rd);
                    }
                }
                if resid.is_empty() && d.is_local() {
                    resid = uid(self.tcx, *d);
                }
                let ga: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| js(&tystr(t))).collect();
                return format!(
                    "{{\"k\":\"fn\",\"p\":{},\"r\":{},\"u\":{},\"g\":{}}}",
                    js(&dpath(self.tcx, *d)),
                    js(&res),
                    js(&resid),
                    list(&ga)
                );
            }
            _ => {}
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => dpath(self.tcx, u.def),
            _ => String::new(),
        };
        let nm = if name.is_empty() { String::new() } else { format!(",\"n\":{}", js(&name)) };
        let ev = c.const_.eval(self.tcx, self.env, c.span).ok();
        if let Some(v) = ev {
            if let Some(si) = v.try_to_scalar_int() {
                let bits = si.to_bits(si.size());
                let val: String = if t.is_signed() {
                    let sz = si.size().bits();
                    let sh = 128 - sz as u32;
                    format!("{}", ((bits << sh) as i128) >> sh)
                } else {
                    format!("{}", bits)
                };
                return format!("{{\"k\":\"int\",\"v\":{},\"t\":{}{}}}", js(&val), js(&tystr(t)), nm);
            }
            if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                let (prov, _off) = p.prov_and_relative_offset();
                if let Some(ga) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    if let interpret::GlobalAlloc::Static(d) = ga {
                        return format!("{{\"k\":\"static\",\"n\":{},\"t\":{}}}", js(&dpath(self.tcx, d)), js(&tystr(t)));
                    }
                }
            }
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        return format!("{{\"k\":\"str\",\"v\":{}{}}}", js(&String::from_utf8_lossy(b)), nm);
                    }
                }
            }
        }
        let d = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        format!("{{\"k\":\"const\",\"v\":{},\"t\":{}{}}}", js(&d), js(&tystr(t)), nm)
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => "{\"k\":\"const\",\"v\":\"rtchecks\",\"t\":\"bool\"}".into(),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), js(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => {
                let kk = match k {
                    BorrowKind::Shared => "&",
                    BorrowKind::Fake(_) => "&fake",
                    BorrowKind::Mut { .. } => "&mut",
                };
                format!("[\"ref\",\"{}\",{}]", kk, self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&dpath(self.tcx, *d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"&raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), js(&tystr(*t)))
            }
            Rvalue::BinaryOp(b, bx) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&bx.0), self.op(&bx.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let n = match t.kind() {
                    ty::Adt(a, _) => dpath(self.tcx, a.did()),
                    _ => tystr(t),
                };
                format!("[\"discr\",{},{}]", self.place(p), js(&n))
            }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", list(&a)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", list(&a)),
                    AggregateKind::Adt(d, v, _, _, uf) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let fl: Vec<String> = match uf {
                            Some(f) => vec![js(var.fields[*f].name.as_str())],
                            None => ops.indices().map(|i| js(var.fields[i].name.as_str())).collect(),
                        };
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            list(&a),
                            js(&dpath(self.tcx, *d)),
                            js(var.name.as_str()),
                            list(&fl)
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                        let fl: Vec<String> = names.iter().map(|s| js(s.as_str())).collect();
                        format!("[\"agg\",\"closure\",{},{},\"\",{}]", list(&a), js(&uid(self.tcx, *d)), list(&fl))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{}]", list(&a)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"&mut\",{}]", self.place(p)),
        }
    }

    fn stmt(&self, s: &Statement<'tcx>) -> Option<String> {
        let l = span_line(self.tcx, s.source_info.span);
        match &s.kind {
            StatementKind::Assign(b) => Some(format!("[\"=\",{},{},{}]", self.place(&b.0), self.rvalue(&b.1), l)),
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"setd\",{},{},{}]", self.place(place), variant_index.index(), l))
            }
            StatementKind::StorageDead(x) => Some(format!("[\"sd\",{},{}]", x.index(), l)),
            StatementKind::StorageLive(x) => Some(format!("[\"sl\",{},{}]", x.index(), l)),
            _ => None,
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.index()),
            _ => "null".into(),
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> String {
        let l = span_line(self.tcx, t.source_info.span);
        let b = |x: &BasicBlock| x.index();
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", b(target)),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> =
                    targets.iter().map(|(v, bb)| format!("[{},{}]", js(&format!("{}", v)), bb.index())).collect();
                let t = discr.ty(&self.body.local_decls, self.tcx);
                format!(
                    "[\"switch\",{},{},{},{},{}]",
                    self.op(discr),
                    list(&v),
                    targets.otherwise().index(),
                    js(&tystr(t)),
                    l
                )
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Return => format!("[\"return\",{}]", l),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                format!("[\"drop\",{},{},{},{}]", self.place(place), b(target), self.unwind(unwind), l)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    self.op(func),
                    list(&a),
                    self.place(destination),
                    target.map(|x| x.index().to_string()).unwrap_or("null".into()),
                    self.unwind(unwind),
                    l
                )
            }
            TerminatorKind::TailCall { func, args, .. } => {
                let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                format!("[\"call\",{},{},0,null,null,{}]", self.op(func), list(&a), l)
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let (m, ops): (String, Vec<String>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                    AssertKind::Overflow(o, x, y) => (format!("overflow:{:?}", o), vec![self.op(x), self.op(y)]),
                    AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![self.op(x)]),
                    AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(x)]),
                    AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(x)]),
                    _ => ("other".into(), vec![]),
                };
                format!(
                    "[\"assert\",{},{},{},{},{},{},{}]",
                    self.op(cond),
                    expected,
                    js(&m),
                    list(&ops),
                    b(target),
                    self.unwind(unwind),
                    l
                )
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                format!("[\"yield\",{},{},{},{}]", self.op(value), b(resume), self.place(resume_arg), l)
            }
            TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", b(real_target)),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", b(real_target)),
            TerminatorKind::InlineAsm { .. } => "[\"unreachable\"]".into(),
        }
    }
}

fn file_of(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> (String, usize) {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line)
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let out = std::env::var("MIRFACTS_OUT").unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    // Make sure every body has been built (and hence recorded).
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    // adts
    for id in tcx.hir_crate_items(()).definitions() {
        let k = tcx.def_kind(id);
        match k {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(id);
                let (file, line) = file_of(tcx, tcx.def_span(id));
                let mut vs = vec![];
                for (vi, v) in adt.variants().iter_enumerated() {
                    let d = if adt.is_enum() {
                        format!("{}", adt.discriminant_for_variant(tcx, vi).val)
                    } else {
                        "0".into()
                    };
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|fd| {
                            let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                            let vis = if fd.vis.is_public() { "pub" } else { "priv" };
                            format!("[{},{},{}]", js(fd.name.as_str()), js(&tystr(t)), js(vis))
                        })
                        .collect();
                    vs.push(format!("[{},{},{}]", js(v.name.as_str()), js(&d), list(&fs)));
                }
                let _ = writeln!(
                    f,
                    "{{\"rec\":\"adt\",\"p\":{},\"kind\":{},\"variants\":{},\"file\":{},\"line\":{}}}",
                    js(&dpath(tcx, id.to_def_id())),
                    js(&format!("{:?}", k)),
                    list(&vs),
                    js(&file),
                    line
                );
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                let (file, line) = file_of(tcx, tcx.def_span(id));
                let _ = writeln!(
                    f,
                    "{{\"rec\":\"impl\",\"trait\":{},\"self\":{},\"derived\":{},\"file\":{},\"line\":{}}}",
                    js(&dpath(tcx, tr.def_id)),
                    js(&tystr(tr.self_ty())),
                    tcx.is_automatically_derived(id.to_def_id()),
                    js(&file),
                    line
                );
            }
            DefKind::Trait => {
                let items: Vec<String> = tcx
                    .associated_items(id)
                    .in_definition_order()
                    .map(|i| format!("[{},{}]", js(i.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()), i.defaultness(tcx).has_value()))
                    .collect();
                let _ = writeln!(f, "{{\"rec\":\"trait\",\"p\":{},\"items\":{}}}", js(&dpath(tcx, id.to_def_id())), list(&items));
            }
            _ => {}
        }
    }
    let mut n = 0usize;
    for def in owners {
        let did = def.to_def_id();
        let kind = tcx.def_kind(did);
        let kstr = match kind {
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => continue,
        };
        // derived impls carry no hand-written semantics
        let root = tcx.typeck_root_def_id(did);
        if let Some(imp) = tcx.impl_of_assoc(root) {
            // (except serde's: they say what reaches the disk)
            if tcx.is_automatically_derived(imp) {
                let serde = tcx
                    .impl_opt_trait_ref(imp)
                    .map(|t| tcx.def_path_str(t.skip_binder().def_id).starts_with("serde"))
                    .unwrap_or(false);
                if !serde {
                    continue;
                }
            }
        }
        let _ = tcx.mir_built(def);
        let g = BODIES.get_or_init(|| Mutex::new(Store(HashMap::new()))).lock().unwrap();
        let Some(b) = g.0.get(&def) else { continue };
        let body: &'tcx Body<'tcx> = unsafe { std::mem::transmute::<&Body<'static>, &'tcx Body<'tcx>>(b) };
        let body: &'tcx Body<'tcx> = {
            // leak a private copy so the lock can be released while constants are evaluated
            let c: Box<Body<'tcx>> = Box::new(body.clone());
            Box::leak(c)
        };
        drop(g);
        let cx = Cx { tcx, body, owner: def, env: ty::TypingEnv::post_analysis(tcx, did) };
        let (file, line) = file_of(tcx, tcx.def_span(did));
        let endline = {
            let sp = body.span.source_callsite();
            tcx.sess.source_map().lookup_char_pos(sp.hi()).line
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| match names.get(&l.index()) {
                Some(nm) => format!("[{},{}]", js(&tystr(d.ty)), js(nm)),
                None => format!("[{}]", js(&tystr(d.ty))),
            })
            .collect();
        let blocks: Vec<String> = body
            .basic_blocks
            .iter()
            .map(|bb| {
                let ss: Vec<String> = bb.statements.iter().filter_map(|s| cx.stmt(s)).collect();
                format!("[{},{},{}]", list(&ss), cx.term(bb.terminator()), bb.is_cleanup as u8)
            })
            .collect();
        let (self_ty, tr) = match tcx.impl_of_assoc(root) {
            Some(i) => {
                let st = tystr(tcx.type_of(i).instantiate_identity().skip_norm_wip());
                let tr = if tcx.impl_is_of_trait(i) { dpath(tcx, tcx.impl_trait_id(i)) } else { String::new() };
                (st, tr)
            }
            None => (String::new(), tcx.trait_of_assoc(root).map(|t| dpath(tcx, t)).unwrap_or_default()),
        };
        let gn: Vec<String> = ty::GenericArgs::identity_for_item(tcx, root).types().map(|t| js(&tystr(t))).collect();
        let ta: Vec<String> = match tcx.impl_of_assoc(root) {
            Some(i) if tcx.impl_is_of_trait(i) => {
                tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().args.types().skip(1).map(|t| js(&tystr(t))).collect()
            }
            _ => vec![],
        };
        let is_async = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.asyncness(did).is_async();
        let public = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(did).is_public();
        let parent = if matches!(kind, DefKind::Closure) { uid(tcx, tcx.parent(did)) } else { String::new() };
        let _ = cx.owner;
        let _ = writeln!(
            f,
            "{{\"rec\":\"fn\",\"u\":{},\"p\":{},\"kind\":{},\"parent\":{},\"self\":{},\"trait\":{},\"async\":{},\"pub\":{},\"gn\":{},\"ta\":{},\"argc\":{},\"file\":{},\"line\":{},\"end\":{},\"locals\":{},\"blocks\":{}}}",
            js(&uid(tcx, did)),
            js(&dpath(tcx, did)),
            js(kstr),
            js(&parent),
            js(&self_ty),
            js(&tr),
            is_async,
            public,
            list(&gn),
            list(&ta),
            body.arg_count,
            js(&file),
            line,
            endline,
            list(&locals),
            list(&blocks)
        );
        n += 1;
    }
    let _ = writeln!(f, "{{\"rec\":\"end\",\"bodies\":{}}}", n);
    f.flush().unwrap();
}

