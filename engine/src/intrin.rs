//! Transfer functions for compiler intrinsics, vector operations and a few runtime services.

use crate::interp::*;
use crate::term::*;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_span::def_id::DefId;
use std::rc::Rc;

pub enum Hooked<'tcx> {
    Val(Val),
    Done,
    Redirect(Instance<'tcx>, rustc_abi::ExternAbi, Vec<(Val, TyAndLayout<'tcx>)>),
    No,
}

type Args<'a, 'tcx> = &'a [(Val, TyAndLayout<'tcx>)];

fn unit() -> Val {
    Val::B(Rc::new([]))
}

impl<'tcx> Interp<'tcx> {
    pub fn hook(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        let did = inst.def_id();
        match inst.def {
            ty::InstanceKind::Intrinsic(d) => {
                let name = match self.names.get(&d) {
                    Some(n) => n.clone(),
                    None => {
                        let n: Rc<str> = self.tcx.intrinsic(d).map(|i| i.name.to_string()).unwrap_or_default().into();
                        self.names.insert(d, n.clone());
                        n
                    }
                };
                return self.intrinsic(st, inst, d, &name, args, dest);
            }
            ty::InstanceKind::LlvmIntrinsic(d) => {
                let name = match self.names.get(&d) {
                    Some(n) => n.clone(),
                    None => {
                        let n: Rc<str> = self.link_name(d).into();
                        self.names.insert(d, n.clone());
                        n
                    }
                };
                return self.llvm(st, &name, args, dest);
            }
            _ => {}
        }
        if self.no_hook.contains(&did) {
            return Ok(Hooked::No);
        }
        if self.tcx.is_foreign_item(did) {
            let name = self.link_name(did);
            if name.starts_with("llvm.") {
                return self.llvm(st, &name, args, dest);
            }
        }
        if let Some(i) = self.tcx.intrinsic(did) {
            if i.must_be_overridden {
                let name = i.name.to_string();
                return self.intrinsic(st, inst, did, &name, args, dest);
            }
        }
        if self.body_is_local_to_target(did) {
            self.no_hook.insert(did);
            return Ok(Hooked::No);
        }
        let p = self.path(did);
        let r = self.lib_fn(st, inst, &p, args, dest);
        if let Ok(Hooked::No) = r {
            // decided by the path alone
            self.no_hook.insert(did);
        }
        r
    }
    fn body_is_local_to_target(&self, d: DefId) -> bool {
        d.is_local() || self.tcx.crate_name(d.krate).as_str() == self.target_crate
    }
    fn link_name(&self, d: DefId) -> String {
        let a = self.tcx.codegen_fn_attrs(d);
        a.symbol_name.map(|s| s.to_string()).unwrap_or_else(|| self.tcx.item_name(d).to_string())
    }

    fn w(&mut self, st: &State<'tcx>, args: Args<'_, 'tcx>, i: usize) -> R<W> {
        let v = args[i].0.clone();
        self.word_of(st, &v)
    }
    fn p(&mut self, st: &State<'tcx>, args: Args<'_, 'tcx>, i: usize) -> R<P> {
        let v = args[i].0.clone();
        self.ptr_of(st, &v)
    }
    fn c(&mut self, st: &State<'tcx>, args: Args<'_, 'tcx>, i: usize) -> R<u128> {
        let w = self.w(st, args, i)?;
        match self.t.as_const(w) {
            Some(c) => Ok(c),
            None => {
                if let Some(e) = st.facts.int_lin(&mut self.t, w) {
                    if let Some((a, b)) = st.facts.range(&self.t, &e) {
                        if a == b {
                            return Ok(a as u128);
                        }
                    }
                }
                unsup("intrinsic needs a constant operand")
            }
        }
    }
    fn size_of(&mut self, ty: Ty<'tcx>) -> R<u64> {
        Ok(self.layout(ty)?.size.bytes())
    }
    fn atomic(&mut self, st: &mut State<'tcx>, name: &str, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        if name.contains("fence") {
            return Ok(Hooked::Val(Val::B(Rc::new([]))));
        }
        let p = self.ptr_of(st, &args[0].0)?;
        let ty = args[0].1.ty.builtin_deref(true).unwrap();
        let n = self.layout(ty)?.size.bytes();
        let al = n.min(16);
        let op = name.trim_start_matches("atomic_");
        let base = op.split('_').next().unwrap_or(op);
        if base == "load" {
            return Ok(Hooked::Val(self.load(st, p, n, al)?));
        }
        if base == "store" {
            self.store(st, p, &args[1].0, n, al)?;
            return Ok(Hooked::Val(Val::B(Rc::new([]))));
        }
        let old = self.load(st, p, n, al)?;
        match base {
            "xchg" => {
                self.store(st, p, &args[1].0, n, al)?;
                Ok(Hooked::Val(old))
            }
            "cxchg" | "cxchgweak" => {
                let (o, e, v) = (self.word_of(st, &old)?, self.word_of(st, &args[1].0)?, self.word_of(st, &args[2].0)?);
                let eq = self.cmp_eq(st, o, e);
                let nv = self.t.w_mux(eq, v, o);
                self.store(st, p, &Val::W(nv), n, al)?;
                let b = self.t.word(&[eq, 0, 0, 0, 0, 0, 0, 0]);
                let sz = dest.layout.size.bytes();
                let mut by = self.val_bytes(&old, n).to_vec();
                by.push(Byte::W(b, 0));
                by.resize(sz as usize, Byte::Uninit);
                Ok(Hooked::Val(self.bytes_val(&by)))
            }
            _ => {
                let (o, v) = (self.word_of(st, &old)?, self.word_of(st, &args[1].0)?);
                let nv = match base {
                    "xadd" => self.t.add(o, v),
                    "xsub" => self.t.sub(o, v),
                    "and" => self.t.w_and(o, v),
                    "or" => self.t.w_or(o, v),
                    "xor" => self.t.w_xor(o, v),
                    "nand" => {
                        let a = self.t.w_and(o, v);
                        self.t.w_not(a)
                    }
                    "umax" | "umin" => {
                        let lt = self.cmp_ult(st, o, v);
                        let c = if base == "umax" { lt } else { lt ^ 1 };
                        self.t.w_mux(c, v, o)
                    }
                    _ => return unsup(format!("intrinsic {}", name)),
                };
                self.store(st, p, &Val::W(nv), n, al)?;
                Ok(Hooked::Val(old))
            }
        }
    }
    pub fn opaque_val(&mut self, st: &mut State<'tcx>, what: &str, size: u64) -> Val {
        if size == 0 {
            return unit();
        }
        st.havoc += 1;
        let w = self.t.sym(&format!("opaque.{}.{}", what, st.havoc), size as usize * 8);
        Val::W(w)
    }
    fn bool_v(&mut self, l: Lit) -> Val {
        Val::W(self.t.b2w(l))
    }

    // ------------------------------------------------------------ library functions
    fn lib_fn(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, p: &str, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        if let Some(i) = p.find("std_detect::detect::") {
            let f = &p[i..];
            // is_x86_feature_detected!: detect::__is_feature_detected::<feature>()
            if let Some(j) = f.find("__is_feature_detected::") {
                let name = f[j + 23..].replace('_', ".");
                let l = self.detected_sym(&name);
                return Ok(Hooked::Val(self.bool_v(l)));
            }
        }
        if p.contains("__is_feature_detected::") {
            let j = p.find("__is_feature_detected::").unwrap();
            let n = &p[j + 23..];
            let name = match n {
                "sse4_1" => "sse4.1",
                "sse4_2" => "sse4.2",
                n => n,
            };
            let l = self.detected_sym(name);
            return Ok(Hooked::Val(self.bool_v(l)));
        }
        if p.starts_with("core::fmt::") && !p.contains("::Arguments") || p.contains("fmt::Formatter") {
            return self.fmt_opaque(st, args, dest, p);
        }
        if p.starts_with("std::panicking") || p.starts_with("core::panicking") {
            return Err(Stop::Panic(format!("call of {}", p)));
        }
        if p.contains("__rust_no_alloc_shim") {
            return Ok(Hooked::Val(unit()));
        }
        if p.contains("__rust_dealloc") {
            if let Ok(q) = self.p(st, args, 0) {
                let a = self.ptrs[q.0 as usize].alloc;
                if a < GBASE && st.mem[a as usize].as_ref().map_or(false, |x| x.kind == AKind::Heap) {
                    self.free_alloc(st, a);
                }
            }
            return Ok(Hooked::Val(unit()));
        }
        let last = p.rsplit("::").next().unwrap_or(p);
        if last == "call" && p.contains("sync::once::futex::Once") {
            if let Some(d) = self.once_model {
                return Ok(Hooked::Redirect(Instance::mono(self.tcx, d), rustc_abi::ExternAbi::Rust, args.to_vec()));
            }
        }
        if p.contains("__rust_alloc") || p.contains("__rust_realloc") || matches!(last, "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc") {
            let site = self.site(st);
            Rc::make_mut(&mut st.heap).insert(site);
            if !p.contains("__rust_") {
                return unsup(format!("call of {}", p));
            }
            let re = p.contains("__rust_realloc");
            let n = match self.c(st, args, if re { 3 } else { 0 }) {
                Ok(n) => n as u64,
                Err(_) => return unsup("allocation of symbolic size"),
            };
            if n > 1 << 20 {
                return unsup("large allocation");
            }
            let al = self.c(st, args, if re { 2 } else { 1 }).unwrap_or(16) as u64;
            let a = self.new_alloc(st, n, al, AKind::Heap);
            if re {
                let q = self.p(st, args, 0)?;
                let old = self.ptrs[q.0 as usize].alloc;
                if let Some(x) = self.alloc_ref(st, old).cloned() {
                    let m = x.bytes.len().min(n as usize);
                    Rc::make_mut(st.mem[a as usize].as_mut().unwrap()).bytes[..m].copy_from_slice(&x.bytes[..m]);
                }
                if old < GBASE {
                    self.free_alloc(st, old);
                }
            } else if p.contains("zeroed") {
                let z = self.t.cst(8, 0);
                Rc::make_mut(st.mem[a as usize].as_mut().unwrap()).bytes = vec![Byte::W(z, 0); n as usize];
            }
            return Ok(Hooked::Val(Val::P(self.mkptr(a, 0))));
        }
        let _ = inst;
        Ok(Hooked::No)
    }
    /// formatting machinery: result unknown; nested `fmt` callees in the analysed crate are visited
    fn fmt_opaque(&mut self, st: &mut State<'tcx>, args: Args<'_, 'tcx>, dest: &Place<'tcx>, p: &str) -> R<Hooked<'tcx>> {
        let mut visit: Vec<(P, Instance<'tcx>)> = vec![];
        for (v, l) in args {
            let n = l.size.bytes();
            if n != 2 * self.psz {
                continue;
            }
            let Some(inner) = l.ty.builtin_deref(true) else { continue };
            if !matches!(inner.kind(), ty::Dynamic(..)) {
                continue;
            }
            let (q, m) = self.split_fat(st, v)?;
            let Val::P(m) = m else { continue };
            let a = self.ptrs[m.0 as usize].alloc;
            let Some(al) = self.alloc_ref(st, a).cloned() else { continue };
            if let AKind::Vtable(cty, Some(tr)) = al.kind {
                let r = tr.with_self_ty(self.tcx, cty);
                let r = self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(r));
                for e in self.tcx.vtable_entries(r) {
                    if let ty::VtblEntry::Method(i) = e {
                        if self.tcx.crate_name(i.def_id().krate).as_str() == self.target_crate {
                            visit.push((q, *i));
                        }
                    }
                }
            }
        }
        for (q, i) in visit {
            self.visit_fmt(st, q, i)?;
        }
        let sz = dest.layout.size.bytes();
        if dest.layout.ty.is_ref() {
            // builders return the receiver
            return Ok(Hooked::Val(args[0].0.clone()));
        }
        Ok(Hooked::Val(self.opaque_val(st, p, sz)))
    }
    fn visit_fmt(&mut self, st: &mut State<'tcx>, q: P, i: Instance<'tcx>) -> R<()> {
        if st.frames.len() > 60 {
            return Ok(());
        }
        let b = self.body(i)?;
        if b.body.arg_count != 2 {
            return Ok(());
        }
        let f = self.add_global(Alloc { kind: AKind::Opaque, align: 8, bytes: vec![], writable: true });
        let fp = self.mkptr(f, 0);
        let mut s2 = st.clone();
        let before = s2.mem.clone();
        let base = s2.frames.len();
        s2.frames = vec![];
        s2.stop_at = None;
        let _ = base;
        let saved = std::mem::take(&mut self.side);
        let sm = self.sym_mode;
        self.sym_mode = false;
        let outs = self.invoke(s2, i, vec![Val::P(q), Val::P(fp)]);
        self.sym_mode = sm;
        self.side = saved;
        for o in outs {
            match &o.kind {
                OutKind::Ok(_) => {
                    for (k, a) in before.iter().enumerate() {
                        if a.is_some() && o.st.mem.get(k).map_or(true, |x| x != a) {
                            self.side_effects.insert(format!("formatting modifies memory: {}", b.name));
                        }
                    }
                }
                OutKind::Head | OutKind::Exit => {}
                _ => {
                    let mut st3 = o.st;
                    st3.frames = st.frames.clone();
                    self.side.push(Outcome { st: st3, kind: o.kind });
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ core intrinsics
    fn intrinsic(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, d: DefId, name: &str, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        if let Some(op) = name.strip_prefix("simd_") {
            return self.simd(st, inst, op, args, dest);
        }
        let pbits = self.pbits;
        let ty0 = |inst: &Instance<'tcx>| inst.args.type_at(0);
        let v = match name {
            "size_of" | "min_align_of" | "align_of" | "pref_align_of" => {
                let l = self.layout(ty0(&inst))?;
                let n = if name == "size_of" { l.size.bytes() } else { l.align.abi.bytes() };
                Val::W(self.usize_w(n))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let ty = ty0(&inst);
                let l = self.layout(ty)?;
                if l.is_sized() {
                    let n = if name == "size_of_val" { l.size.bytes() } else { l.align.abi.bytes() };
                    Val::W(self.usize_w(n))
                } else {
                    match ty.kind() {
                        ty::Slice(e) => {
                            let el = self.layout(*e)?;
                            if name != "size_of_val" {
                                Val::W(self.usize_w(el.align.abi.bytes()))
                            } else {
                                let (_, m) = self.split_fat(st, &args[0].0)?;
                                let m = self.word_of(st, &m)?;
                                let k = self.usize_w(el.size.bytes());
                                Val::W(self.t.mul(m, k))
                            }
                        }
                        ty::Str => {
                            let (_, m) = self.split_fat(st, &args[0].0)?;
                            if name != "size_of_val" {
                                Val::W(self.usize_w(1))
                            } else {
                                m
                            }
                        }
                        _ => return unsup(format!("{} of {}", name, ty)),
                    }
                }
            }
            "needs_drop" => {
                let b = ty0(&inst).needs_drop(self.tcx, self.env);
                self.bool_v(b as Lit)
            }
            "ub_checks" => {
                let b = self.ub_checks;
                self.bool_v(b as Lit)
            }
            "overflow_checks" => {
                let b = self.overflow_checks;
                self.bool_v(b as Lit)
            }
            "contract_checks" | "is_val_statically_known" => self.bool_v(FALSE),
            "likely" | "unlikely" | "black_box" => args[0].0.clone(),
            "cold_path" | "forget" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid"
            | "prefetch_read_data" | "prefetch_write_data" => unit(),
            "assume" => {
                let w = self.w(st, args, 0)?;
                let l = self.t.bits(w)[0];
                self.require(st, l, "assume() of a condition that can be false")?;
                unit()
            }
            "unreachable" => return Err(Stop::Ub("entered unreachable code".into())),
            "abort" | "breakpoint" | "abort_immediate" => return Err(Stop::Panic(name.into())),
            "caller_location" => {
                let n = dest.layout.size.bytes();
                self.opaque_val(st, "loc", n)
            }
            "type_name" | "type_id" => return unsup(name),
            "variant_count" => return unsup(name),
            "offset" | "arith_offset" => {
                let p = self.p(st, args, 0)?;
                let i = self.w(st, args, 1)?;
                let ptr_ty = args[0].1.ty;
                let el = ptr_ty.builtin_deref(true).unwrap();
                let sz = self.size_of(el)?;
                let k = self.usize_w(sz);
                let d = self.t.mul(i, k);
                Val::P(self.ptr_add_w(p, d))
            }
            "ptr_mask" => {
                let p = self.p(st, args, 0)?;
                let a = self.addr_word(st, p);
                let m = self.w(st, args, 1)?;
                let r = self.t.w_and(a, m);
                let q = self.ptrs[p.0 as usize];
                let d = self.t.sub(r, a);
                let off = self.t.add(q.off, d);
                Val::P(self.ptr(Ptr { alloc: q.alloc, off }))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (a, b) = (self.p(st, args, 0)?, self.p(st, args, 1)?);
                let (x, y) = (self.ptrs[a.0 as usize], self.ptrs[b.0 as usize]);
                if x.alloc != y.alloc {
                    return Err(Stop::Ub("pointer difference between distinct objects".into()));
                }
                let sz = self.size_of(ty0(&inst))?;
                if name == "ptr_offset_from_unsigned" {
                    let l = self.cmp_ult(st, x.off, y.off);
                    self.require(st, l ^ 1, "negative unsigned pointer difference")?;
                }
                let d = self.t.sub(x.off, y.off);
                if sz == 1 {
                    Val::W(d)
                } else {
                    let k = self.usize_w(sz);
                    match self.t.as_const(d) {
                        Some(c) => {
                            let q = signed(c, pbits) / sz as i128;
                            Val::W(self.t.cst(pbits, q as u128))
                        }
                        None => Val::W(self.udivrem(st, d, k, false)),
                    }
                }
            }
            "ptr_guaranteed_cmp" => Val::W(self.t.cst(8, 2)),
            "transmute" | "transmute_unchecked" => {
                let n = dest.layout.size.bytes();
                let b = self.val_bytes(&args[0].0, n);
                self.bytes_val(&b)
            }
            "copy_nonoverlapping" | "copy" | "volatile_copy_nonoverlapping_memory" | "volatile_copy_memory" => {
                let l = self.layout(ty0(&inst))?;
                let (mut s, mut dd) = (self.p(st, args, 0)?, self.p(st, args, 1)?);
                if name.starts_with("volatile") {
                    std::mem::swap(&mut s, &mut dd);
                }
                let n = self.c(st, args, 2)?;
                self.copy_bytes(st, s, dd, n as u64 * l.size.bytes(), l.align.abi.bytes(), name.contains("nonover"))?;
                unit()
            }
            "write_bytes" | "volatile_set_memory" => {
                let l = self.layout(ty0(&inst))?;
                let p = self.p(st, args, 0)?;
                let w = self.w(st, args, 1)?;
                let n = self.c(st, args, 2)? as u64 * l.size.bytes();
                let v = Val::B(vec![Byte::W(w, 0); n as usize].into());
                self.store(st, p, &v, n, l.align.abi.bytes())?;
                unit()
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let l = self.layout(ty0(&inst))?;
                let p = self.p(st, args, 0)?;
                let al = if name.starts_with("unaligned") { 1 } else { l.align.abi.bytes() };
                self.load(st, p, l.size.bytes(), al)?
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" | "nontemporal_store" => {
                let l = self.layout(ty0(&inst))?;
                let p = self.p(st, args, 0)?;
                let al = if name.starts_with("unaligned") { 1 } else { l.align.abi.bytes() };
                self.store(st, p, &args[1].0, l.size.bytes(), al)?;
                unit()
            }
            "typed_swap_nonoverlapping" => {
                let l = self.layout(ty0(&inst))?;
                let (a, b) = (self.p(st, args, 0)?, self.p(st, args, 1)?);
                let n = l.size.bytes();
                let al = l.align.abi.bytes();
                let (x, y) = (self.load(st, a, n, al)?, self.load(st, b, n, al)?);
                self.store(st, a, &y, n, al)?;
                self.store(st, b, &x, n, al)?;
                unit()
            }
            "slice_get_unchecked" => {
                // (ptr-like to slice, index) -> ptr-like to element
                let (p, _) = self.split_fat(st, &args[0].0)?;
                let i = self.w(st, args, 1)?;
                let el = dest.layout.ty.builtin_deref(true).unwrap();
                let sz = self.size_of(el)?;
                let k = self.usize_w(sz);
                let dd = self.t.mul(i, k);
                Val::P(self.ptr_add_w(p, dd))
            }
            "aggregate_raw_ptr" => {
                if dest.layout.size.bytes() == self.psz {
                    args[0].0.clone()
                } else {
                    let p = self.p(st, args, 0)?;
                    let m = args[1].0.clone();
                    self.fat(p, &m)
                }
            }
            "ptr_metadata" => {
                let n = args[0].1.size.bytes();
                if n == self.psz {
                    unit()
                } else {
                    let z = self.psz;
                    self.sub_val(&args[0].0, 2 * z, z, z)
                }
            }
            "discriminant_value" => {
                let pl = self.deref_val(st, &args[0].0, args[0].1.ty)?;
                let w = self.read_discr(st, &pl)?;
                let n = dest.layout.size.bits() as usize;
                Val::W(self.t.zext(w, n))
            }
            "select_unpredictable" => {
                let c = self.w(st, args, 0)?;
                let l = self.t.bits(c)[0];
                if let Some(b) = st.facts.decide(&mut self.t, &self.ps, l) {
                    if b { args[1].0.clone() } else { args[2].0.clone() }
                } else {
                    if matches!(args[1].1.ty.kind(), ty::Uint(ty::UintTy::Usize)) {
                        self.branch(st, l)?;
                    }
                    let (a, b) = (self.w(st, args, 1)?, self.w(st, args, 2)?);
                    Val::W(self.t.w_mux(l, a, b))
                }
            }
            "const_eval_select" => {
                let rt = inst.args.type_at(2);
                let ty::FnDef(fd, fa) = rt.kind() else { return unsup("const_eval_select") };
                let fa = fa.no_bound_vars().unwrap_or_else(|| fa.skip_binder());
                let i = self.resolve(*fd, fa)?;
                let (tv, tl) = &args[0];
                let sz = tl.size.bytes();
                let mut out = vec![];
                for k in 0..tl.fields.count() {
                    let fl = tl.field(&self.cx, k);
                    let off = tl.fields.offset(k).bytes();
                    let x = if fl.size.bytes() == 0 { unit() } else { self.sub_val(tv, sz, off, fl.size.bytes()) };
                    out.push((x, fl));
                }
                return Ok(Hooked::Redirect(i, rustc_abi::ExternAbi::Rust, out));
            }
            "raw_eq" => {
                let n = self.size_of(ty0(&inst))?;
                let (a, b) = (self.p(st, args, 0)?, self.p(st, args, 1)?);
                if n == 0 {
                    self.bool_v(TRUE)
                } else {
                    let (x, y) = (self.load(st, a, n, 1)?, self.load(st, b, n, 1)?);
                    let (x, y) = (self.word_of(st, &x)?, self.word_of(st, &y)?);
                    let l = self.t.eq(x, y);
                    self.bool_v(l)
                }
            }
            "compare_bytes" => {
                let n = self.c(st, args, 2)? as u64;
                let (a, b) = (self.p(st, args, 0)?, self.p(st, args, 1)?);
                let one = self.t.cst(32, 1);
                let m1 = self.t.cst(32, 0xffff_ffff);
                let mut r = self.t.cst(32, 0);
                for i in (0..n).rev() {
                    let (pa, pb) = (self.ptr_add(a, i), self.ptr_add(b, i));
                    let (x, y) = (self.load(st, pa, 1, 1)?, self.load(st, pb, 1, 1)?);
                    let (x, y) = (self.word_of(st, &x)?, self.word_of(st, &y)?);
                    let lt = self.t.ult(x, y);
                    let e = self.t.eq(x, y);
                    let ne = self.t.w_mux(lt, m1, one);
                    r = self.t.w_mux(e, r, ne);
                }
                Val::W(r)
            }
            _ => {
                let ty = if inst.args.len() > 0 { inst.args.iter().find_map(|a| a.as_type()) } else { None };
                return match ty {
                    Some(ty) if !args.is_empty() => self.int_intrinsic(st, d, name, ty, args, dest),
                    _ => unsup(format!("intrinsic {}", name)),
                };
            }
        };
        Ok(Hooked::Val(v))
    }

    fn int_intrinsic(&mut self, st: &mut State<'tcx>, d: DefId, name: &str, ty: Ty<'tcx>, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        if !(ty.is_integral() || ty.is_bool() || ty.is_any_ptr() || ty.is_char()) {
            return unsup(format!("intrinsic {} on {}", name, ty));
        }
        let sg = Self::is_signed(ty);
        let a = self.w(st, args, 0)?;
        let n = self.t.width(a);
        let b = if args.len() > 1 { Some(self.w(st, args, 1)?) } else { None };
        let rn = dest.layout.size.bits() as usize;
        let r = match name {
            "rotate_left" | "rotate_right" => {
                let s = self.shift_amt(b.unwrap(), n);
                self.rotate(a, s, name == "rotate_left")
            }
            "unchecked_funnel_shl" | "unchecked_funnel_shr" => {
                let b = b.unwrap();
                let c = self.w(st, args, 2)?;
                let c = self.shift_amt(c, n);
                if name.ends_with("shl") {
                    let x = self.t.concat(&[b, a]);
                    let y = self.t.shift(x, c, 0);
                    self.t.extract(y, n, n)
                } else {
                    let x = self.t.concat(&[b, a]);
                    let y = self.t.shift(x, c, 1);
                    self.t.extract(y, 0, n)
                }
            }
            "bswap" => {
                let k = n / 8;
                let parts: Vec<W> = (0..k).rev().map(|i| self.t.extract(a, i * 8, 8)).collect();
                self.t.concat(&parts)
            }
            "bitreverse" => {
                let mut v = self.t.bits(a).to_vec();
                v.reverse();
                self.t.word(&v)
            }
            "ctpop" => {
                let bits = self.t.bits(a);
                let mut acc = self.t.cst(32, 0);
                for &l in bits.iter() {
                    let x = self.t.word(&[l]);
                    let x = self.t.zext(x, 32);
                    acc = self.t.add(acc, x);
                }
                self.t.zext(acc, rn)
            }
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
                let bits = self.t.bits(a);
                let mut acc = self.t.cst(rn, n as u128);
                let order: Vec<usize> = if name.starts_with("ctlz") { (0..n).collect() } else { (0..n).rev().collect() };
                for i in order {
                    let v = if name.starts_with("ctlz") { n - 1 - i } else { i };
                    let c = self.t.cst(rn, v as u128);
                    acc = self.t.w_mux(bits[i], c, acc);
                }
                acc
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let b = b.unwrap();
                let (r, o) = match name.as_bytes()[0] {
                    b'a' => self.add_overflow(st, a, b, sg),
                    b's' => self.sub_overflow(st, a, b, sg),
                    _ => self.mul_overflow(st, a, b, sg),
                };
                let l = dest.layout;
                let mut buf = vec![Byte::Uninit; l.size.bytes() as usize];
                let o0 = l.fields.offset(0).bytes() as usize;
                let o1 = l.fields.offset(1).bytes() as usize;
                let rb = self.val_bytes(&Val::W(r), n as u64 / 8);
                buf[o0..o0 + rb.len()].copy_from_slice(&rb);
                let ow = self.t.b2w(o);
                buf[o1] = Byte::W(ow, 0);
                return Ok(Hooked::Val(Val::B(buf.into())));
            }
            "saturating_add" | "saturating_sub" => {
                let b = b.unwrap();
                let (r, o) = if name == "saturating_add" { self.add_overflow(st, a, b, sg) } else { self.sub_overflow(st, a, b, sg) };
                let sat = if sg {
                    // sign of a decides
                    let s = self.t.bits(a)[n - 1];
                    let (mn, mx) = (self.t.cst(n, 1 << (n - 1)), self.t.cst(n, mask(n - 1)));
                    self.t.w_mux(s, mn, mx)
                } else if name == "saturating_add" {
                    self.t.cst(n, mask(n))
                } else {
                    self.t.cst(n, 0)
                };
                let o = self.split(st, ty, o)?;
                self.t.w_mux(o, sat, r)
            }
            "wrapping_add" => self.t.add(a, b.unwrap()),
            "wrapping_sub" => self.t.sub(a, b.unwrap()),
            "wrapping_mul" => self.t.mul(a, b.unwrap()),
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
                let b = b.unwrap();
                let (r, o) = match name.as_bytes()[10] {
                    b'a' => self.add_overflow(st, a, b, sg),
                    b's' => self.sub_overflow(st, a, b, sg),
                    _ => self.mul_overflow(st, a, b, sg),
                };
                self.require(st, o ^ 1, "unchecked arithmetic may overflow")?;
                r
            }
            "unchecked_shl" | "unchecked_shr" => {
                let s = self.shift_amt(b.unwrap(), n);
                self.t.shift(a, s, if name == "unchecked_shl" { 0 } else if sg { 2 } else { 1 })
            }
            "disjoint_bitor" => self.t.w_or(a, b.unwrap()),
            "exact_div" | "unchecked_div" => {
                let b = b.unwrap();
                self.udivrem(st, a, b, false)
            }
            "unchecked_rem" => {
                let b = b.unwrap();
                self.udivrem(st, a, b, true)
            }
            "integer_min" | "integer_max" => {
                let b = b.unwrap();
                let lt = if sg { self.cmp_slt(st, a, b) } else { self.cmp_ult(st, a, b) };
                let lt = self.split(st, ty, lt)?;
                if name == "integer_min" { self.t.w_mux(lt, a, b) } else { self.t.w_mux(lt, b, a) }
            }
            "three_way_compare" => {
                let b = b.unwrap();
                let lt = if sg { self.cmp_slt(st, a, b) } else { self.cmp_ult(st, a, b) };
                let eq = self.cmp_eq(st, a, b);
                let (m1, z, o) = (self.t.cst(8, 0xff), self.t.cst(8, 0), self.t.cst(8, 1));
                let r = self.t.w_mux(eq, z, o);
                self.t.w_mux(lt, m1, r)
            }
            "carrying_mul_add" => {
                let b = b.unwrap();
                let c = self.w(st, args, 2)?;
                let e = self.w(st, args, 3)?;
                if sg || n > 64 {
                    return unsup("carrying_mul_add");
                }
                let f = |s: &mut Self, w: W| s.t.zext(w, 2 * n);
                let (a, b, c, e) = (f(self, a), f(self, b), f(self, c), f(self, e));
                let m = self.t.mul(a, b);
                let s = self.t.add(m, c);
                self.t.add(s, e)
            }
            _ => {
                if name.starts_with("atomic_") {
                    self.in_atomic = true;
                    let r = self.atomic(st, name, args, dest);
                    self.in_atomic = false;
                    return r;
                }
                let _ = d;
                return unsup(format!("intrinsic {}", name));
            }
        };
        Ok(Hooked::Val(Val::W(r)))
    }
    /// lengths are told apart, data is not
    fn split(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, l: Lit) -> R<Lit> {
        if matches!(ty.kind(), ty::Uint(ty::UintTy::Usize)) {
            return Ok(self.branch(st, l)? as Lit);
        }
        Ok(self.decided(st, l))
    }
    fn decided(&mut self, st: &State<'tcx>, l: Lit) -> Lit {
        match st.facts.decide(&mut self.t, &self.ps, l) {
            Some(b) => b as Lit,
            None => l,
        }
    }
    fn rotate(&mut self, a: W, s: W, left: bool) -> W {
        let n = self.t.width(a);
        let rot = |t: &mut Terms, a: W, k: usize| {
            let b = t.bits(a);
            let k = k % n;
            let v: Vec<Lit> = (0..n).map(|i| b[if left { (i + n - k) % n } else { (i + k) % n }]).collect();
            t.word(&v)
        };
        if let Some(c) = self.t.as_const(s) {
            return rot(&mut self.t, a, c as usize);
        }
        let bits = self.t.bits(s);
        let mut cur = a;
        for (i, &l) in bits.iter().enumerate() {
            let r = rot(&mut self.t, cur, 1 << i);
            cur = self.t.w_mux(l, r, cur);
        }
        cur
    }

    // ------------------------------------------------------------ vectors
    fn vinfo(&mut self, l: &TyAndLayout<'tcx>) -> R<(usize, usize, bool)> {
        if !l.ty.is_simd() {
            return unsup(format!("not a vector: {}", l.ty));
        }
        let (n, e) = l.ty.simd_size_and_type(self.tcx);
        let ew = self.layout(e)?.size.bits() as usize;
        if matches!(e.kind(), ty::Float(_)) {
            return unsup("float vector");
        }
        Ok((n as usize, ew, Self::is_signed(e)))
    }
    fn lanes(&mut self, w: W, n: usize, ew: usize) -> Vec<W> {
        (0..n).map(|i| self.t.extract(w, i * ew, ew)).collect()
    }
    fn vlanes(&mut self, st: &State<'tcx>, args: Args<'_, 'tcx>, i: usize) -> R<(Vec<W>, usize, bool)> {
        let (n, ew, sg) = self.vinfo(&args[i].1)?;
        // lane by lane: a lane may be uninitialised as long as it is not used
        let sz = args[i].1.size.bytes();
        let v = args[i].0.clone();
        let mut out = Vec::with_capacity(n);
        match v {
            Val::W(w) => out = self.lanes(w, n, ew),
            _ => {
                let eb = ew as u64 / 8;
                for k in 0..n as u64 {
                    let x = self.sub_val(&v, sz, k * eb, eb);
                    out.push(self.word_of(st, &x)?);
                }
            }
        }
        Ok((out, ew, sg))
    }
    fn simd(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, op: &str, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        if self.be {
            return unsup("vector operation on a big-endian target");
        }
        let v: W = match op {
            "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "shr" | "saturating_add" | "saturating_sub" => {
                let (a, ew, sg) = self.vlanes(st, args, 0)?;
                let (b, _, _) = self.vlanes(st, args, 1)?;
                let mut out = vec![];
                for (&x, &y) in a.iter().zip(b.iter()) {
                    out.push(match op {
                        "add" => self.t.add(x, y),
                        "sub" => self.t.sub(x, y),
                        "mul" => self.t.mul(x, y),
                        "and" => self.t.w_and(x, y),
                        "or" => self.t.w_or(x, y),
                        "xor" => self.t.w_xor(x, y),
                        "shl" | "shr" => {
                            // over-wide amounts are undefined
                            let c = self.t.cst(ew, ew as u128);
                            let ok = self.cmp_ult(st, y, c);
                            self.require(st, ok, "vector shift by at least the lane width")?;
                            let s = self.shift_amt(y, ew);
                            self.t.shift(x, s, if op == "shl" { 0 } else if sg { 2 } else { 1 })
                        }
                        _ => return unsup(format!("simd_{}", op)),
                    });
                }
                self.t.concat(&out)
            }
            "neg" => {
                let (a, _, _) = self.vlanes(st, args, 0)?;
                let out: Vec<W> = a.iter().map(|&x| self.t.neg(x)).collect();
                self.t.concat(&out)
            }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                let (a, _, sg) = self.vlanes(st, args, 0)?;
                let (b, _, _) = self.vlanes(st, args, 1)?;
                let (_, rw, _) = self.vinfo(&dest.layout)?;
                let mut out = vec![];
                for (&x, &y) in a.iter().zip(b.iter()) {
                    let l = match op {
                        "eq" => self.cmp_eq(st, x, y),
                        "ne" => self.cmp_eq(st, x, y) ^ 1,
                        _ => {
                            let (p, q) = if matches!(op, "lt" | "ge") { (x, y) } else { (y, x) };
                            let l = if sg { self.cmp_slt(st, p, q) } else { self.cmp_ult(st, p, q) };
                            if matches!(op, "le" | "ge") { l ^ 1 } else { l }
                        }
                    };
                    let l = self.decided(st, l);
                    let v = vec![l; rw];
                    out.push(self.t.word(&v));
                }
                self.t.concat(&out)
            }
            "shuffle" => {
                let (mut a, _, _) = self.vlanes(st, args, 0)?;
                let (b, _, _) = self.vlanes(st, args, 1)?;
                a.extend(b);
                let sz = args[2].1.size.bytes();
                let n = (sz / 4) as usize;
                let iv = args[2].0.clone();
                let mut out = vec![];
                for k in 0..n as u64 {
                    let x = self.sub_val(&iv, sz, 4 * k, 4);
                    let w = self.word_of(st, &x)?;
                    let Some(c) = self.t.as_const(w) else { return unsup("shuffle index") };
                    out.push(a[c as usize]);
                }
                self.t.concat(&out)
            }
            "insert" | "insert_dyn" => {
                let (n, ew, _) = self.vinfo(&args[0].1)?;
                let i = self.c(st, args, 1)? as usize;
                if i >= n {
                    return Err(Stop::Ub("vector insert out of range".into()));
                }
                let eb = ew as u64 / 8;
                let sz = args[0].1.size.bytes();
                let mut b = self.val_bytes(&args[0].0, sz).to_vec();
                let nb = self.val_bytes(&args[2].0, eb);
                b[i * eb as usize..(i + 1) * eb as usize].copy_from_slice(&nb);
                return Ok(Hooked::Val(self.bytes_val(&b)));
            }
            "extract" | "extract_dyn" => {
                let (n, ew, _) = self.vinfo(&args[0].1)?;
                let i = self.c(st, args, 1)? as usize;
                if i >= n {
                    return Err(Stop::Ub("vector extract out of range".into()));
                }
                let eb = ew as u64 / 8;
                let sz = args[0].1.size.bytes();
                let x = self.sub_val(&args[0].0, sz, i as u64 * eb, eb);
                let w = self.word_of(st, &x)?;
                return Ok(Hooked::Val(Val::W(w)));
            }
            "splat" => {
                let (n, _, _) = self.vinfo(&dest.layout)?;
                let x = self.w(st, args, 0)?;
                self.t.concat(&vec![x; n])
            }
            "cast" | "as" => {
                let (a, _, sg) = self.vlanes(st, args, 0)?;
                let (_, rw, _) = self.vinfo(&dest.layout)?;
                let out: Vec<W> = a
                    .iter()
                    .map(|&x| if sg { self.t.sext(x, rw) } else { self.t.zext(x, rw) })
                    .collect();
                self.t.concat(&out)
            }
            "select" => {
                let (m, mw, _) = self.vlanes(st, args, 0)?;
                let (a, _, _) = self.vlanes(st, args, 1)?;
                let (b, _, _) = self.vlanes(st, args, 2)?;
                let mut out = vec![];
                for i in 0..m.len() {
                    let l = self.t.bits(m[i])[mw - 1];
                    let l = self.decided(st, l);
                    out.push(self.t.w_mux(l, a[i], b[i]));
                }
                self.t.concat(&out)
            }
            "masked_load" => {
                let (m, mw, _) = self.vlanes(st, args, 0)?;
                let p = self.p(st, args, 1)?;
                let (d, ew, _) = self.vlanes(st, args, 2)?;
                let mut out = vec![];
                for i in 0..m.len() {
                    let l = self.t.bits(m[i])[mw - 1];
                    let l = self.decided(st, l);
                    if l == FALSE {
                        out.push(d[i]);
                        continue;
                    }
                    if l != TRUE {
                        return Err(Stop::Branch(l));
                    }
                    let q = self.ptr_add(p, (i * ew / 8) as u64);
                    let v = self.load(st, q, ew as u64 / 8, 1)?;
                    out.push(self.word_of(st, &v)?);
                }
                self.t.concat(&out)
            }
            "masked_store" => {
                let (m, mw, _) = self.vlanes(st, args, 0)?;
                let p = self.p(st, args, 1)?;
                let (d, ew, _) = self.vlanes(st, args, 2)?;
                for i in 0..m.len() {
                    let l = self.t.bits(m[i])[mw - 1];
                    let l = self.decided(st, l);
                    if l == FALSE {
                        continue;
                    }
                    if l != TRUE {
                        return Err(Stop::Branch(l));
                    }
                    let q = self.ptr_add(p, (i * ew / 8) as u64);
                    self.store(st, q, &Val::W(d[i]), ew as u64 / 8, 1)?;
                }
                return Ok(Hooked::Val(unit()));
            }
            "bitmask" => {
                let (m, mw, _) = self.vlanes(st, args, 0)?;
                let n = dest.layout.size.bits() as usize;
                let mut v = vec![FALSE; n];
                for i in 0..m.len() {
                    v[i] = self.t.bits(m[i])[mw - 1];
                }
                self.t.word(&v)
            }
            "bswap" => {
                let (a, ew, _) = self.vlanes(st, args, 0)?;
                let out: Vec<W> = a
                    .iter()
                    .map(|&x| {
                        let parts: Vec<W> = (0..ew / 8).rev().map(|i| self.t.extract(x, i * 8, 8)).collect();
                        self.t.concat(&parts)
                    })
                    .collect();
                self.t.concat(&out)
            }
            "reduce_or" | "reduce_and" | "reduce_xor" | "reduce_add_unordered" | "reduce_add_ordered" => {
                let (a, _, _) = self.vlanes(st, args, 0)?;
                let mut acc = a[0];
                for &x in &a[1..] {
                    acc = match op {
                        "reduce_or" => self.t.w_or(acc, x),
                        "reduce_and" => self.t.w_and(acc, x),
                        "reduce_xor" => self.t.w_xor(acc, x),
                        _ => self.t.add(acc, x),
                    };
                }
                acc
            }
            "reduce_all" | "reduce_any" => {
                let (a, mw, _) = self.vlanes(st, args, 0)?;
                let mut acc = if op == "reduce_all" { TRUE } else { FALSE };
                for &x in &a {
                    let l = self.t.bits(x)[mw - 1];
                    acc = if op == "reduce_all" { self.t.and(acc, l) } else { self.t.or(acc, l) };
                }
                return Ok(Hooked::Val(self.bool_v(acc)));
            }
            _ => return unsup(format!("simd_{}", op)),
        };
        let _ = inst;
        Ok(Hooked::Val(Val::W(v)))
    }

    /// byte table lookup: index literals -> table bytes; out of range gives `dflt`
    fn table(&mut self, tab: &[W], idx: W, dflt: W) -> W {
        if let Some(c) = self.t.as_const(idx) {
            return tab.get(c as usize).copied().unwrap_or(dflt);
        }
        let bits = self.t.bits(idx);
        let mut level: Vec<W> = (0..256).map(|i| tab.get(i).copied().unwrap_or(dflt)).collect();
        for &l in bits.iter() {
            level = level.chunks(2).map(|c| if c[0] == c[1] { c[0] } else { self.t.w_mux(l, c[1], c[0]) }).collect();
        }
        level[0]
    }
    fn llvm(&mut self, st: &mut State<'tcx>, name: &str, args: Args<'_, 'tcx>, dest: &Place<'tcx>) -> R<Hooked<'tcx>> {
        let zero8 = self.t.cst(8, 0);
        let v = match name {
            "llvm.x86.ssse3.pshuf.b.128" | "llvm.x86.avx2.pshuf.b" => {
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let n = self.t.width(a) / 8;
                let (ta, tb) = (self.lanes(a, n, 8), self.lanes(b, n, 8));
                let mut out = vec![];
                for i in 0..n {
                    let g = i & !15;
                    let hi = self.t.bits(tb[i])[7];
                    let lo = self.t.extract(tb[i], 0, 4);
                    let lo = self.t.zext(lo, 8);
                    let v = self.table(&ta[g..g + 16].to_vec(), lo, zero8);
                    out.push(self.t.w_mux(hi, zero8, v));
                }
                self.t.concat(&out)
            }
            "llvm.aarch64.neon.tbl1.v16i8" | "llvm.aarch64.neon.tbl1.v8i8" => {
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let n = self.t.width(b) / 8;
                let (ta, tb) = (self.lanes(a, 16, 8), self.lanes(b, n, 8));
                let out: Vec<W> = (0..n).map(|i| self.table(&ta, tb[i], zero8)).collect();
                self.t.concat(&out)
            }
            "llvm.wasm.swizzle" => {
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let (ta, tb) = (self.lanes(a, 16, 8), self.lanes(b, 16, 8));
                let out: Vec<W> = (0..16).map(|i| self.table(&ta, tb[i], zero8)).collect();
                self.t.concat(&out)
            }
            _ if name.starts_with("llvm.x86.sse2.psll.")
                || name.starts_with("llvm.x86.sse2.psrl.")
                || name.starts_with("llvm.x86.sse2.psra.")
                || name.starts_with("llvm.x86.avx2.psll.")
                || name.starts_with("llvm.x86.avx2.psrl.")
                || name.starts_with("llvm.x86.avx2.psra.") =>
            {
                let kind = if name.contains("psll") { 0 } else if name.contains("psrl") { 1 } else { 2 };
                let ew = match name.as_bytes()[name.len() - 1] {
                    b'w' => 16,
                    b'd' => 32,
                    _ => 64,
                };
                let (a, c) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let amt = self.t.extract(c, 0, 64);
                let n = self.t.width(a) / ew;
                let ls = self.lanes(a, n, ew);
                let out: Vec<W> = ls.iter().map(|&x| self.t.shift(x, amt, kind)).collect();
                self.t.concat(&out)
            }
            _ if name.starts_with("llvm.x86.avx2.psllv") || name.starts_with("llvm.x86.avx2.psrlv") || name.starts_with("llvm.x86.avx2.psrav") => {
                let kind = if name.contains("psllv") { 0 } else if name.contains("psrlv") { 1 } else { 2 };
                let ew = if name.contains("v.q") { 64 } else { 32 };
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let n = self.t.width(a) / ew;
                let (x, y) = (self.lanes(a, n, ew), self.lanes(b, n, ew));
                let out: Vec<W> = (0..n).map(|i| self.t.shift(x[i], y[i], kind)).collect();
                self.t.concat(&out)
            }
            "llvm.x86.avx2.permd" => {
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let (x, y) = (self.lanes(a, 8, 32), self.lanes(b, 8, 32));
                let mut out = vec![];
                for i in 0..8 {
                    let idx = self.t.extract(y[i], 0, 3);
                    let idx = self.t.zext(idx, 8);
                    let z = self.t.cst(32, 0);
                    out.push(self.table(&x, idx, z));
                }
                self.t.concat(&out)
            }
            _ if name.starts_with("llvm.aarch64.neon.ushl.") || name.starts_with("llvm.aarch64.neon.sshl.") => {
                let (n, ew, _) = self.vinfo(&args[0].1)?;
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let (x, y) = (self.lanes(a, n, ew), self.lanes(b, n, ew));
                let rk = if name.contains("ushl") { 1 } else { 2 };
                let mut out = vec![];
                for i in 0..n {
                    let s = self.t.extract(y[i], 0, 8);
                    let neg = self.t.bits(s)[7];
                    let l = self.t.shift(x[i], s, 0);
                    let m = self.t.neg(s);
                    let r = self.t.shift(x[i], m, rk);
                    out.push(self.t.w_mux(neg, r, l));
                }
                self.t.concat(&out)
            }
            _ if name.starts_with("llvm.aarch64.neon.umull.") || name.starts_with("llvm.aarch64.neon.smull.") => {
                let (n, ew, _) = self.vinfo(&args[0].1)?;
                let (a, b) = (self.w(st, args, 0)?, self.w(st, args, 1)?);
                let (x, y) = (self.lanes(a, n, ew), self.lanes(b, n, ew));
                let u = name.contains("umull");
                let mut out = vec![];
                for i in 0..n {
                    let f = |s: &mut Self, w: W| if u { s.t.zext(w, 2 * ew) } else { s.t.sext(w, 2 * ew) };
                    let (p, q) = (f(self, x[i]), f(self, y[i]));
                    out.push(self.t.mul(p, q));
                }
                self.t.concat(&out)
            }
            _ => return unsup(format!("llvm intrinsic {}", name)),
        };
        if self.t.width(v) as u64 != dest.layout.size.bits() {
            return unsup(format!("width mismatch in {}", name));
        }
        Ok(Hooked::Val(Val::W(v)))
    }
}
