//! Reachability over the monomorphic call graph: every function an operation can call on a path
//! that returns, whatever its arguments are.

use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};

pub struct Graph<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    edges: FxHashMap<Instance<'tcx>, Vec<(Instance<'tcx>, String)>>,
    pub opaque: FxHashSet<String>,
}

/// blocks from which the function can still return
fn returning(body: &Body<'_>) -> Vec<bool> {
    let n = body.basic_blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    let mut r = vec![false; n];
    for (b, d) in body.basic_blocks.iter_enumerated() {
        let b = b.as_usize();
        match &d.terminator().kind {
            TerminatorKind::Return => r[b] = true,
            TerminatorKind::Goto { target, .. } => succ[b].push(target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => match known(body, d, discr) {
                Some(v) => succ[b].push(targets.target_for_value(v).as_usize()),
                None => succ[b].extend(targets.all_targets().iter().map(|t| t.as_usize())),
            },
            TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => succ[b].push(target.as_usize()),
            TerminatorKind::Call { target: Some(t), .. } => succ[b].push(t.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => succ[b].push(real_target.as_usize()),
            TerminatorKind::InlineAsm { targets, .. } => succ[b].extend(targets.iter().map(|t| t.as_usize())),
            _ => {}
        }
    }
    loop {
        let mut ch = false;
        for b in 0..n {
            if !r[b] && succ[b].iter().any(|&s| r[s]) {
                r[b] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // ... and that the entry can reach
    let mut seen = vec![false; n];
    let mut w = vec![0usize];
    while let Some(b) = w.pop() {
        if std::mem::replace(&mut seen[b], true) {
            continue;
        }
        w.extend(succ[b].iter().copied());
    }
    (0..n).map(|b| r[b] && seen[b]).collect()
}

/// the value of a branch on a constant (`if cfg!(..)`)
fn known<'tcx>(body: &Body<'tcx>, d: &BasicBlockData<'tcx>, o: &Operand<'tcx>) -> Option<u128> {
    let c = |o: &Operand<'tcx>| match o {
        Operand::Constant(c) => c.const_.try_to_scalar().and_then(|s| s.to_bits(s.size()).discard_err()),
        _ => None,
    };
    if let Some(v) = c(o) {
        return Some(v);
    }
    let p = o.place()?;
    if !p.projection.is_empty() {
        return None;
    }
    let _ = body;
    for s in d.statements.iter().rev() {
        if let StatementKind::Assign(a) = &s.kind {
            if a.0 == p {
                return match &a.1 {
                    Rvalue::Use(o, ..) => c(o),
                    _ => None,
                };
            }
        }
    }
    None
}

impl<'tcx> Graph<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Graph { tcx, env: ty::TypingEnv::fully_monomorphized(), edges: Default::default(), opaque: Default::default() }
    }
    pub fn name(&self, d: DefId) -> String {
        format!("{}::{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose().trim_start_matches("::"))
    }
    fn callees(&mut self, inst: Instance<'tcx>) -> Vec<(Instance<'tcx>, String)> {
        if let Some(e) = self.edges.get(&inst) {
            return e.clone();
        }
        let tcx = self.tcx;
        let mut out: Vec<(Instance<'tcx>, String)> = vec![];
        let has = match inst.def {
            ty::InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::LlvmIntrinsic(_) | ty::InstanceKind::Virtual(..) => false,
            _ => true,
        };
        if has {
            let b = tcx.instance_mir(inst.def);
            let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
            let live = returning(&body);
            let sm = tcx.sess.source_map();
            for (bb, d) in body.basic_blocks.iter_enumerated() {
                if !live[bb.as_usize()] {
                    continue;
                }
                let at = |sp| sm.span_to_diagnostic_string(sp);
                for s in &d.statements {
                    let StatementKind::Assign(a) = &s.kind else { continue };
                    let Rvalue::Cast(CastKind::PointerCoercion(k, _), o, to) = &a.1 else { continue };
                    let from = o.ty(&body.local_decls, tcx);
                    match k {
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let ty::FnDef(d, args) = from.kind() {
                                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *d, args) {
                                    out.push((i, at(s.source_info.span)));
                                }
                            }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let ty::Closure(d, args) = from.kind() {
                                out.push((Instance::new_raw(*d, args), at(s.source_info.span)));
                            }
                        }
                        PointerCoercion::Unsize => {
                            let pointee = |t: Ty<'tcx>| t.builtin_deref(true);
                            if let (Some(f), Some(t)) = (pointee(from), pointee(*to)) {
                                if let ty::Dynamic(preds, _) = t.kind() {
                                    if let Some(pr) = preds.principal() {
                                        if !f.is_sized(tcx, self.env) || f.has_escaping_bound_vars() {
                                            continue;
                                        }
                                        let pr = tcx.instantiate_bound_regions_with_erased(pr).with_self_ty(tcx, f);
                                        let pr = tcx.erase_and_anonymize_regions(pr);
                                        for e in tcx.vtable_entries(pr).iter() {
                                            if let ty::VtblEntry::Method(i) = e {
                                                out.push((*i, at(s.source_info.span)));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                let t = d.terminator();
                match &t.kind {
                    TerminatorKind::Call { func, .. } => {
                        if let ty::FnDef(d, args) = func.ty(&body.local_decls, tcx).kind() {
                            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *d, args) {
                                out.push((i, at(t.source_info.span)));
                            }
                        }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        let ty = place.ty(&body.local_decls, tcx).ty;
                        if ty.needs_drop(tcx, self.env) {
                            out.push((Instance::resolve_drop_glue(tcx, ty), at(t.source_info.span)));
                        }
                    }
                    _ => {}
                }
            }
        } else if !matches!(inst.def, ty::InstanceKind::Intrinsic(_)) {
            let n = self.name(inst.def_id());
            self.opaque.insert(n);
        }
        self.edges.insert(inst, out.clone());
        out
    }
    /// everything reachable from `root`: instance -> (caller, call site)
    pub fn reach(&mut self, root: Instance<'tcx>) -> FxHashMap<Instance<'tcx>, Option<(Instance<'tcx>, String)>> {
        let mut seen: FxHashMap<Instance<'tcx>, Option<(Instance<'tcx>, String)>> = Default::default();
        seen.insert(root, None);
        let mut q = std::collections::VecDeque::from([root]);
        while let Some(i) = q.pop_front() {
            for (c, at) in self.callees(i) {
                if !seen.contains_key(&c) {
                    seen.insert(c, Some((i, at)));
                    q.push_back(c);
                }
            }
        }
        seen
    }
    pub fn chain(&self, seen: &FxHashMap<Instance<'tcx>, Option<(Instance<'tcx>, String)>>, mut i: Instance<'tcx>) -> String {
        let mut v = vec![self.name(i.def_id())];
        while let Some(Some((p, at))) = seen.get(&i) {
            v.push(format!("{} ({})", self.name(p.def_id()), at));
            i = *p;
        }
        v.join(" <- ")
    }
    /// does a call of this function obtain heap memory?
    pub fn allocates(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        let n = self.name(d);
        if n.contains("__rust_no_alloc_shim") || n.contains("__rust_dealloc") {
            return false;
        }
        let last = n.rsplit("::").next().unwrap_or("");
        n.contains("__rust_alloc")
            || n.contains("__rust_realloc")
            || n.contains("::alloc::exchange_malloc")
            || (n.starts_with("alloc::") && matches!(last, "box_new" | "exchange_malloc"))
            || (self.tcx.is_foreign_item(d) && matches!(last, "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc"))
            // an allocating library function whose body is not available
            || (n.starts_with("alloc::fmt::format") || (n.starts_with("alloc::") && !self.tcx.is_mir_available(d) && last != "handle_alloc_error"))
    }
    pub fn is_target(&self, i: Instance<'tcx>) -> bool {
        self.tcx.crate_name(i.def_id().krate).as_str() == "highway" || i.def_id().krate == LOCAL_CRATE
    }
    pub fn span(&self, i: Instance<'tcx>) -> (String, usize, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = self.tcx.def_span(i.def_id());
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line, sm.lookup_char_pos(sp.hi()).line)
    }
    pub fn crates(&self) -> Vec<String> {
        self.tcx.crates(()).iter().map(|c| self.tcx.crate_name(*c).to_string()).collect()
    }
}
