//! mirdump: exports the post-analysis MIR of the crate under verification as JSON.
//!
//! Run as a rustc wrapper (RUSTC_WORKSPACE_WRAPPER). For the crate named in MIRDUMP_CRATE it writes
//! MIRDUMP_OUT; every other crate is compiled normally.
//!
//! For each local body (with its own generic parameters left abstract) and each body transitively
//! called from it -- through generics, closures and trait impls, into dependencies -- it emits the
//! substituted MIR with resolved callees, decoded constants and a type table.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i128) }
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"), '\r' => out.push_str("\\r"), '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => { let _ = write!(o, "{}", n); }
            J::S(x) => esc(o, x),
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(',') } x.write(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(',') } esc(o, n); o.push(':'); x.write(o) } o.push('}') }
        }
    }
}

// ---------------------------------------------------------------- driver
struct C;
impl Callbacks for C {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
        if name.as_str() == want && !tcx.sess.opts.test {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                let mut d = Dump::new(tcx);
                d.run();
                let j = d.finish();
                let mut o = String::new();
                j.write(&mut o);
                let tmp = format!("{}.{}", out, std::process::id());
                std::fs::write(&tmp, o).expect("write dump");
                std::fs::rename(&tmp, &out).expect("rename dump");
            }
        }
        Compilation::Continue
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> { inst: Instance<'tcx>, env: Option<DefId> }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Key<'tcx>)>,
    bodies: Vec<(usize, J)>,
    promoted: Vec<J>,
    promoted_ids: HashMap<(DefId, usize, Key<'tcx>), usize>,
    std_allow: Vec<String>,
    roots: Vec<usize>,
    statics: HashSet<String>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let std_allow = std::env::var("MIRDUMP_STD").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        Dump { tcx, types: HashMap::new(), type_out: vec![], ids: HashMap::new(), queue: VecDeque::new(), bodies: vec![],
            promoted: vec![], promoted_ids: HashMap::new(), std_allow, roots: vec![], statics: HashSet::new() }
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn env(&self, k: Key<'tcx>) -> TypingEnv<'tcx> {
        match k.env { Some(d) => TypingEnv::post_analysis(self.tcx, d), None => TypingEnv::fully_monomorphized() }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: Option<DefId>) -> usize {
        let env = if inst.args.has_param() || inst.args.has_aliases() { env } else { None };
        let k = Key { inst, env };
        if let Some(x) = self.ids.get(&k) { return *x; }
        let id = self.ids.len();
        self.ids.insert(k, id);
        self.queue.push_back((id, k));
        id
    }
    fn traverse(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(_) => return false,
            InstanceKind::Shim(sh) => match sh {
                ty::ShimKind::FnPtr(..) | ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::Reify(..) => {}
                _ => return false,
            },
            InstanceKind::Item(_) => {}
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) { return false; }
        if !matches!(inst.def, InstanceKind::Item(_)) { return true; }
        if d.is_local() { return true; }
        let p = self.path(d);
        let krate = self.tcx.crate_name(d.krate);
        let k = krate.as_str();
        if k == "core" || k == "alloc" || k == "std" {
            if !self.std_allow.iter().any(|a| p.starts_with(a.as_str()) || p.starts_with(&format!("<{}", a)) || p.contains(&format!(" as {}", a))) { return false; }
        }
        self.tcx.is_mir_available(d)
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        for d in tcx.mir_keys(()) {
            let d = *d;
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
            let inst = Instance::new_raw(d.to_def_id(), args);
            let id = self.enqueue(inst, Some(d.to_def_id()));
            self.roots.push(id);
        }
        while let Some((id, k)) = self.queue.pop_front() {
            let j = self.body(id, k);
            self.bodies.push((id, j));
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn body(&mut self, id: usize, k: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let env = self.env(k);
        let raw = tcx.instance_mir(k.inst.def).clone();
        let b = k.inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw));
        let d = k.inst.def_id();
        let mut o = self.mir_body(&b, k);
        let kind = match k.inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            x => format!("{:?}", x).split('(').take(2).collect::<Vec<_>>().join(":"),
        };
        let is_closure = tcx.is_closure_like(d);
        let parent = if is_closure { s(self.path(tcx.typeck_root_def_id(d))) } else { J::N };
        let vis = if d.is_local() && !is_closure {
            let ev = tcx.effective_visibilities(());
            J::B(ev.is_reachable(d.expect_local()))
        } else { J::B(false) };
        let (trait_, implty) = self.impl_info(d);
        let args = J::A(k.inst.args.iter().filter_map(|a| a.as_type()).map(|t| i(self.ty(t))).collect());
        o.extend(vec![
            ("id", i(id)), ("path", s(self.path(d))), ("kind", s(kind)), ("local", J::B(d.is_local())),
            ("closure", J::B(is_closure)), ("parent", parent), ("reach", vis), ("trait", trait_), ("selfty", implty),
            ("args", args), ("span", self.span(tcx.def_span(d))),
            ("crate", s(tcx.crate_name(d.krate).as_str())),
            ("krefmt", s(format!("{}", ty::print::with_no_trimmed_paths!(k.inst.to_string())))),
        ]);
        J::O(o)
    }
    fn impl_info(&mut self, d: DefId) -> (J, J) {
        let tcx = self.tcx;
        if let Some(a) = tcx.opt_associated_item(d) {
            let c = a.container_id(tcx);
            match tcx.def_kind(c) {
                DefKind::Trait => return (s(self.path(c)), J::N),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                    let st = tcx.erase_and_anonymize_regions(st);
                    let t = i(self.ty(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(c).skip_binder().def_id;
                        return (s(self.path(tr)), t);
                    }
                    return (J::N, t);
                }
                _ => {}
            }
        }
        (J::N, J::N)
    }
    fn mir_body(&mut self, b: &Body<'tcx>, k: Key<'tcx>) -> Vec<(&'static str, J)> {
        let locals = J::A(b.local_decls.iter().map(|l| i(self.ty(l.ty))).collect());
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements { if let Some(j) = self.stmt(x, b, k) { st.push(j) } }
            let t = self.term(bb.terminator(), b, k);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("c", J::B(bb.is_cleanup))]));
        }
        vec![("argc", i(b.arg_count)), ("locals", locals), ("names", J::A(names)), ("spread", match b.spread_arg { Some(l) => i(l.as_usize()), None => J::N }), ("blocks", J::A(blocks))]
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_usize()), i(self.ty(t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), i(offset as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from as usize), i(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_usize())]),
                _ => J::A(vec![s("x")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, op: &Operand<'tcx>, k: Key<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(&c.const_, c.span, k)]),
            #[allow(unreachable_patterns)]
            x => J::A(vec![s("o"), s(format!("{:?}", x))]),
        }
    }
    fn stmt(&mut self, x: &Statement<'tcx>, b: &Body<'tcx>, k: Key<'tcx>) -> Option<J> {
        match &x.kind {
            StatementKind::Assign(bx) => {
                let (p, rv) = &**bx;
                Some(J::A(vec![s("="), self.place(p), self.rvalue(rv, b, k)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::A(vec![s("sd"), self.place(place), i(variant_index.as_usize())])),
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), i(l.as_usize())])),
            StatementKind::StorageLive(l) => Some(J::A(vec![s("live"), i(l.as_usize())])),
            StatementKind::Intrinsic(n) => Some(J::A(vec![s("intr"), s(format!("{:?}", n))])),
            _ => None,
        }
    }
    fn rvalue(&mut self, rv: &Rvalue<'tcx>, b: &Body<'tcx>, k: Key<'tcx>) -> J {
        match rv {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, k)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                J::A(vec![s("rep"), self.operand(o, k), match n { Some(n) => J::I(n as i128), None => J::N }])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(p)]),
            Rvalue::Cast(ck, o, t) => J::A(vec![s("cast"), s(format!("{:?}", ck)), self.operand(o, k), i(self.ty(*t)), i({ let x = o.ty(&b.local_decls, self.tcx); self.ty(x) })]),
            Rvalue::BinaryOp(op, ab) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&ab.0, k), self.operand(&ab.1, k), i({ let x = ab.0.ty(&b.local_decls, self.tcx); self.ty(x) })]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a, k)]),
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(p), i({ let x = p.ty(&b.local_decls, self.tcx).ty; self.ty(x) })]),
            Rvalue::Aggregate(ak, fs) => {
                let fields = J::A(fs.iter().map(|f| self.operand(f, k)).collect());
                let t = rv.ty(&b.local_decls, self.tcx);
                let (kind, var) = match &**ak {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, af) => (if af.is_some() { "union" } else { "adt" }, v.as_usize()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                let mut out = vec![s("agg"), s(kind), i(self.ty(t)), i(var), fields];
                if let AggregateKind::Closure(d, args) = &**ak {
                    let args = self.tcx.erase_and_anonymize_regions(*args);
                    let id = self.enqueue(Instance::new_raw(*d, args), k.env);
                    out.push(i(id));
                }
                J::A(out)
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            x => J::A(vec![s("other"), s(format!("{:?}", x))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J { match u { UnwindAction::Cleanup(b) => i(b.as_usize()), _ => J::N } }
    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>, k: Key<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("to", i(target.as_usize()))],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts = J::A(targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), i(b.as_usize())])).collect());
                let dt = discr.ty(&b.local_decls, self.tcx);
                vec![("k", s("switch")), ("on", self.operand(discr, k)), ("ts", ts), ("else", i(targets.otherwise().as_usize())), ("ty", i(self.ty(dt)))]
            }
            TerminatorKind::UnwindResume => vec![("k", s("resume"))],
            TerminatorKind::UnwindTerminate(_) => vec![("k", s("abort"))],
            TerminatorKind::Return => vec![("k", s("ret"))],
            TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let t = place.ty(&b.local_decls, self.tcx).ty;
                vec![("k", s("drop")), ("p", self.place(place)), ("to", i(target.as_usize())), ("uw", self.unwind(unwind)), ("ty", i(self.ty(t)))]
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let args = J::A(args.iter().map(|a| self.operand(&a.node, k)).collect());
                let dest = self.place(destination);
                let fj = self.callee(func, b, k);
                let fsp = self.span(*fn_span);
                vec![("k", s("call")), ("f", fj), ("a", args), ("d", dest), ("to", match target { Some(t) => i(t.as_usize()), None => J::N }), ("uw", self.unwind(unwind)), ("fsp", fsp)]
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len, k), self.operand(index, k)]),
                    AssertKind::Overflow(op, a, c) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(a, k), self.operand(c, k)]),
                    x => J::A(vec![s("other"), s(format!("{:?}", x))]),
                };
                vec![("k", s("assert")), ("cond", self.operand(cond, k)), ("exp", J::B(*expected)), ("msg", m), ("to", i(target.as_usize())), ("uw", self.unwind(unwind))]
            }
            x => vec![("k", s("other")), ("dbg", s(format!("{:?}", x)))],
        };
        o.push(("sp", sp));
        J::O(o)
    }
    fn callee(&mut self, func: &Operand<'tcx>, b: &Body<'tcx>, k: Key<'tcx>) -> J {
        let t = func.ty(&b.local_decls, self.tcx);
        match t.kind() {
            ty::FnDef(d, args) => { let a = self.tcx.instantiate_bound_regions_with_erased(*args); self.fndef((*d).into(), a, k) }
            _ => J::O(vec![("ptr", self.operand(func, k)), ("ty", i(self.ty(t)))]),
        }
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, k: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let env = self.env(k);
        let args = tcx.erase_and_anonymize_regions(args);
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| i(self.ty(t))).collect();
        let mut o = vec![("path", s(self.path(d))), ("args", J::A(targs)), ("name", s(tcx.item_name(d).as_str())), ("crate", s(tcx.crate_name(d.krate).as_str()))];
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(tr)))); }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let vd = tcx.parent(d);
            let (adt, v) = if tcx.def_kind(vd) == DefKind::Variant { (tcx.parent(vd), tcx.adt_def(tcx.parent(vd)).variant_index_with_id(vd).as_usize()) } else { (vd, 0) };
            let out = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
            let out = tcx.erase_and_anonymize_regions(out);
            let out = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(out)).unwrap_or(out);
            let _ = adt;
            o.push(("ctor", J::A(vec![i(self.ty(out)), i(v)])));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let inst = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(inst.args) };
                let ipath = self.path(inst.def_id());
                o.push(("ipath", s(ipath)));
                let ia: Vec<J> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| i(self.ty(t))).collect();
                o.push(("iargs", J::A(ia)));
                o.push(("ikind", s(match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone", InstanceKind::Shim(_) => "shim", _ => "other" })));
                o.push(("icrate", s(tcx.crate_name(inst.def_id().krate).as_str())));
                if self.traverse(&inst) {
                    let id = self.enqueue(inst, k.env);
                    o.push(("id", i(id)));
                }
            }
            _ => {}
        }
        J::O(o)
    }
    // -------------------------------------------------------- constants
    fn constant(&mut self, c: &mir::Const<'tcx>, span: rustc_span::Span, k: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = i(self.ty(t));
        if let ty::FnDef(d, args) = t.kind() {
            let a = tcx.instantiate_bound_regions_with_erased(*args);
            let f = self.fndef((*d).into(), a, k);
            return J::O(vec![("ty", tid), ("fn", f)]);
        }
        let env = self.env(k);
        if let mir::Const::Unevaluated(uv, _) = c {
            if c.has_param() || c.has_aliases() {
                if let Some(p) = uv.promoted {
                    let pid = self.promoted(uv.def, p, uv.args, k);
                    return J::O(vec![("ty", tid), ("promoted", i(pid))]);
                }
                let mut o = vec![("ty", tid), ("uneval", s(self.path(uv.def)))];
                if let Ok(v) = c.eval(tcx, env, span) { o.push(("v", self.cval(v, t, k))); }
                return J::O(o);
            }
        }
        let mut o = vec![("ty", tid)];
        if let mir::Const::Unevaluated(uv, _) = c { if uv.promoted.is_none() { o.push(("named", s(self.path(uv.def)))); } }
        match c.eval(tcx, env, span) {
            Ok(v) => { let j = self.cval(v, t, k); o.push(("v", j)); }
            Err(_) => { o.push(("opaque", s(format!("{:?}", c)))); }
        }
        J::O(o)
    }
    fn promoted(&mut self, def: DefId, p: Promoted, args: ty::GenericArgsRef<'tcx>, k: Key<'tcx>) -> usize {
        let tcx = self.tcx;
        if let Some(x) = self.promoted_ids.get(&(def, p.as_usize(), k)) { return *x; }
        let id = self.promoted.len();
        self.promoted_ids.insert((def, p.as_usize(), k), id);
        self.promoted.push(J::N);
        let b = tcx.promoted_mir(def)[p].clone();
        let b = tcx.instantiate_and_normalize_erasing_regions(args, self.env(k), EarlyBinder::bind(tcx, b));
        let mut o = self.mir_body(&b, k);
        o.push(("path", s(format!("{}::promoted", self.path(def)))));
        self.promoted[id] = J::O(o);
        id
    }
    fn layout(&self, t: Ty<'tcx>) -> Option<ty::layout::TyAndLayout<'tcx>> {
        self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, k: Key<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(n)) => {
                if t.is_bool() || t.is_char() || t.is_integral() { return self.intval(n.to_bits_unchecked(), t); }
                // newtype around an int
                J::O(vec![("bits", J::I(n.to_bits_unchecked() as i128))])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off, None, t, k, 0)
            }
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, Size::ZERO, Some(meta), t, k, 0),
            ConstValue::Indirect { alloc_id, offset } => {
                match tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(_) => self.mem(alloc_id, offset, t, k, 0),
                    _ => J::O(vec![("opaque", s("indirect"))]),
                }
            }
        }
    }
    fn intval(&self, bits: u128, t: Ty<'tcx>) -> J {
        if t.is_bool() { return J::O(vec![("b", J::B(bits != 0))]); }
        if t.is_char() { return J::O(vec![("ch", J::I(bits as i128))]); }
        if let ty::Int(it) = t.kind() {
            let w = it.bit_width().unwrap_or(64);
            let sh = 128 - w as u32;
            return J::O(vec![("i", J::I(((bits << sh) as i128) >> sh))]);
        }
        J::O(vec![("i", J::I(bits as i128))])
    }
    fn pointee(&mut self, a: AllocId, off: Size, meta: Option<u64>, t: Ty<'tcx>, k: Key<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let inner = match t.kind() { ty::Ref(_, x, _) => *x, ty::RawPtr(x, _) => *x, _ => return J::O(vec![("opaque", s(format!("ptr as {:?}", t)))]) };
        match tcx.global_alloc(a) {
            GlobalAlloc::Memory(_) => {}
            GlobalAlloc::Static(d) => { let p = self.path(d); self.statics.insert(p.clone()); return J::O(vec![("static", s(p))]); }
            GlobalAlloc::Function { instance } => { let _ = instance; return J::O(vec![("fnptr", s(format!("{}", instance)))]); }
            _ => return J::O(vec![("opaque", s("alloc"))]),
        }
        let it = i(self.ty(inner));
        match inner.kind() {
            ty::Str | ty::Slice(_) if meta.is_some() => {
                let n = meta.unwrap();
                if let ty::Str = inner.kind() {
                    let alloc = tcx.global_alloc(a).unwrap_memory();
                    let bytes = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                    return J::O(vec![("ref", J::O(vec![("str", s(String::from_utf8_lossy(bytes).into_owned()))])), ("ity", it)]);
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        let alloc = tcx.global_alloc(a).unwrap_memory();
                        let bytes = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                        return J::O(vec![("ref", J::O(vec![("bytes", J::A(bytes.iter().map(|x| J::I(*x as i128)).collect()))])), ("ity", it)]);
                    }
                    let mut v = vec![];
                    if let Some(l) = self.layout(*e) {
                        for x in 0..n { v.push(self.mem(a, off + l.size * x, *e, k, depth + 1)); }
                    }
                    return J::O(vec![("ref", J::O(vec![("arr", J::A(v))])), ("ity", it)]);
                }
                unreachable!()
            }
            _ => {
                let v = self.mem(a, off, inner, k, depth + 1);
                J::O(vec![("ref", v), ("ity", it)])
            }
        }
    }
    fn mem(&mut self, a: AllocId, off: Size, t: Ty<'tcx>, k: Key<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = i(self.ty(t));
        if depth > 12 { return J::O(vec![("opaque", s("depth"))]); }
        let l = match self.layout(t) { Some(l) => l, None => return J::O(vec![("opaque", s("layout"))]) };
        if l.is_zst() {
            if let ty::Array(..) = t.kind() { return J::O(vec![("arr", J::A(vec![]))]); }
            if let ty::Adt(def, _) = t.kind() { if def.is_enum() { if let Variants::Single { index } = l.variants { return J::O(vec![("adt", J::A(vec![i(index.as_usize()), J::A(vec![])])), ("ty", tid)]); } } }
            if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) { return J::O(vec![("zst", J::B(true)), ("ty", tid)]); }
        }
        let alloc = tcx.global_alloc(a).unwrap_memory();
        let alloc = alloc.inner();
        if off.bytes() + l.size.bytes() > alloc.size().bytes() { return J::O(vec![("opaque", s("oob"))]); }
        let read = |o: Size, sz: Size, prov: bool| alloc.read_scalar(&tcx, AllocRange { start: o, size: sz }, prov).ok();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match read(off, l.size, false) {
                Some(Scalar::Int(n)) => self.intval(n.to_bits_unchecked(), t),
                _ => J::O(vec![("opaque", s("uninit"))]),
            },
            ty::Ref(..) | ty::RawPtr(..) => {
                let ps = tcx.data_layout.pointer_size();
                match read(off, ps, true) {
                    Some(Scalar::Ptr(p, _)) => {
                        let (prov, o2) = p.into_raw_parts();
                        let meta = if l.size.bytes() == 2 * ps.bytes() { match read(off + ps, ps, false) { Some(Scalar::Int(n)) => Some(n.to_bits_unchecked() as u64), _ => None } } else { None };
                        self.pointee(prov.alloc_id(), o2, meta, t, k, depth + 1)
                    }
                    _ => J::O(vec![("opaque", s("ptr"))]),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if *e == tcx.types.u8 {
                    let bytes = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                    return J::O(vec![("bytes", J::A(bytes.iter().map(|x| J::I(*x as i128)).collect()))]);
                }
                let el = self.layout(*e).unwrap();
                let v = (0..n).map(|x| self.mem(a, off + el.size * x, *e, k, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().enumerate().map(|(x, ft)| self.mem(a, off + l.fields.offset(x), ft, k, depth + 1)).collect();
                J::O(vec![("tup", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (x, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = self.field_ty(f, args);
                    v.push(self.mem(a, off + l.fields.offset(x), ft, k, depth + 1));
                }
                J::O(vec![("adt", J::A(vec![i(0), J::A(v)])), ("ty", tid)])
            }
            ty::Adt(def, args) if def.is_enum() => {
                let vi: Option<VariantIdx> = match &l.variants {
                    Variants::Single { index } => Some(*index),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + l.fields.offset(tag_field.as_usize());
                        let ts = tag.size(&tcx);
                        let sc = read(to, ts, false).or_else(|| read(to, ts, true));
                        match (sc, tag_encoding) {
                            (Some(Scalar::Int(n)), TagEncoding::Direct) => {
                                let bits = n.to_bits_unchecked();
                                def.discriminants(tcx).find(|(_, d)| { let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 }; (d.val & m) == bits }).map(|x| x.0)
                            }
                            (Some(Scalar::Int(n)), TagEncoding::Niche { untagged_variant, niche_variants, niche_start }) => {
                                let m = if ts.bits() >= 128 { u128::MAX } else { (1u128 << ts.bits()) - 1 };
                                let rel = n.to_bits_unchecked().wrapping_sub(*niche_start) & m;
                                let lo = niche_variants.start.as_u32() as u128; let hi = niche_variants.last.as_u32() as u128;
                                if rel <= hi - lo { Some(VariantIdx::from_u32((lo + rel) as u32)) } else { Some(*untagged_variant) }
                            }
                            (Some(Scalar::Ptr(..)), TagEncoding::Niche { untagged_variant, .. }) => Some(*untagged_variant),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                let Some(vi) = vi else { return J::O(vec![("opaque", s("enum"))]) };
                let cx = ty::layout::LayoutCx::new(tcx, TypingEnv::fully_monomorphized());
                let vl = l.for_variant(&cx, vi);
                let mut v = vec![];
                for (x, f) in def.variant(vi).fields.iter().enumerate() {
                    let ft = self.field_ty(f, args);
                    v.push(self.mem(a, off + vl.fields.offset(x), ft, k, depth + 1));
                }
                J::O(vec![("adt", J::A(vec![i(vi.as_usize()), J::A(v)])), ("ty", tid)])
            }
            ty::FnPtr(..) => match read(off, l.size, true) {
                Some(Scalar::Ptr(p, _)) => { let (prov, _) = p.into_raw_parts(); match tcx.global_alloc(prov.alloc_id()) { GlobalAlloc::Function { instance } => J::O(vec![("fnptr", s(format!("{}", instance)))]), _ => J::N } }
                _ => J::O(vec![("opaque", s("fnptr"))]),
            },
            _ => J::O(vec![("opaque", s(format!("{:?}", t)))]),
        }
    }
    fn field_ty(&self, f: &ty::FieldDef, args: ty::GenericArgsRef<'tcx>) -> Ty<'tcx> {
        let t = f.ty(self.tcx, args).skip_norm_wip();
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    // -------------------------------------------------------- types
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(x) = self.types.get(&t) { return *x; }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(J::N);
        let tcx = self.tcx;
        let txt = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(txt))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => { o.push(("k", s("int"))); o.push(("w", i(it.bit_width().unwrap_or(64) as usize))); }
            ty::Uint(it) => { o.push(("k", s("uint"))); o.push(("w", i(it.bit_width().unwrap_or(64) as usize))); }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, n) => { o.push(("k", s("array"))); o.push(("e", i(self.ty(*e)))); o.push(("n", match n.try_to_target_usize(tcx) { Some(x) => J::I(x as i128), None => J::N })); }
            ty::Slice(e) => { o.push(("k", s("slice"))); o.push(("e", i(self.ty(*e)))); }
            ty::Ref(_, e, m) => { o.push(("k", s("ref"))); o.push(("e", i(self.ty(*e)))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(e, m) => { o.push(("k", s("ptr"))); o.push(("e", i(self.ty(*e)))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); o.push(("f", J::A(ts.iter().map(|x| i(self.ty(x))).collect()))); }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("args", J::A(args.iter().filter_map(|a| a.as_type()).map(|x| i(self.ty(x))).collect())));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("crate", s(tcx.crate_name(def.did().krate).as_str())));
                let heavy = !def.did().is_local() && { let c = tcx.crate_name(def.did().krate); let c = c.as_str(); (c == "std" || c == "alloc" || c == "core") && !def.is_enum() && !self.path(def.did()).starts_with("core::iter") && !self.path(def.did()).starts_with("core::ops") };
                if def.is_box() { o.push(("box", J::B(true))); }
                if !heavy {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = self.field_ty(f, args);
                            fs.push(J::A(vec![s(f.name.as_str()), i(self.ty(ft))]));
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        vs.push(J::O(vec![("n", s(v.name.as_str())), ("f", J::A(fs)), ("disc", J::I(d))]));
                    }
                    o.push(("v", J::A(vs)));
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let d: DefId = (*d).into();
                o.push(("path", s(self.path(d))));
                let a = tcx.instantiate_bound_regions_with_erased(*args);
                o.push(("args", J::A(a.iter().filter_map(|a| a.as_type()).map(|x| i(self.ty(x))).collect())));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                o.push(("f", J::A(args.as_closure().upvar_tys().iter().map(|x| i(self.ty(x))).collect())));
                o.push(("span", self.span(tcx.def_span(*d))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.as_str()))); }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[id] = J::O(o);
        id
    }
    fn items(&mut self) -> J {
        // crate-level facts: every local item with its kind and visibility, plus unsafe/static inventory
        let tcx = self.tcx;
        let mut v = vec![];
        let ev = tcx.effective_visibilities(());
        let cr = tcx.hir_crate_items(());
        for d in cr.definitions() {
            let k = tcx.def_kind(d);
            let ks = format!("{:?}", k);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Impl { .. } | DefKind::Mod | DefKind::Trait | DefKind::TyAlias | DefKind::Closure => {}
                _ => continue,
            }
            let mut o = vec![("kind", s(ks)), ("path", s(self.path(d.to_def_id()))), ("reach", J::B(ev.is_reachable(d))), ("span", self.span(tcx.def_span(d)))];
            match k {
                DefKind::Fn | DefKind::AssocFn => { let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip(); o.push(("sig", s(ty::print::with_no_trimmed_paths!(format!("{}", sig))))); }
                DefKind::Static { .. } => { let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); o.push(("ty", s(format!("{}", t)))); o.push(("freeze", J::B(t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d.to_def_id()))))); }
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    o.push(("ty", s(ty::print::with_no_trimmed_paths!(format!("{}", t)))));
                    if of_trait { let tr = tcx.impl_trait_ref(d).skip_binder(); o.push(("trait", s(ty::print::with_no_trimmed_paths!(format!("{}", tr))))); }
                }
                _ => {}
            }
            v.push(J::O(o));
        }
        J::A(v)
    }
    fn finish(mut self) -> J {
        let items = self.items();
        self.bodies.sort_by_key(|x| x.0);
        let cfgs: Vec<J> = vec![];
        J::O(vec![
            ("types", J::A(self.type_out)), ("bodies", J::A(self.bodies.into_iter().map(|x| x.1).collect())),
            ("promoted", J::A(self.promoted)), ("roots", J::A(self.roots.iter().map(|x| i(*x)).collect())), ("items", items),
            ("debug_assertions", J::B(self.tcx.sess.opts.debug_assertions)), ("cfg", J::A(cfgs)),
        ])
    }
}
#[allow(dead_code)]
fn _unused(_: FieldIdx) {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo wrapper convention: [wrapper, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::install_ice_hook("verif", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut C);
}
