//! Abstract interpretation of monomorphised MIR over the value-graph domain.

use crate::facts::*;
use crate::term::*;
use rustc_abi::{self as abi, FieldIdx, HasDataLayout, Size, TagEncoding, VariantIdx, Variants};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, BinOp, Body, CastKind, Local, NonDivergingIntrinsic, Operand,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp,
};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, LayoutOf, TyAndLayout};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::rc::Rc;

/// iterations after which a loop of constant length is summarised
pub const LONG: u32 = 40;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct P(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Byte {
    Uninit,
    /// widened away by a loop summary; must not be read
    Poison,
    W(W, u16),
    P(P, u8),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    W(W),
    P(P),
    B(Rc<[Byte]>),
}

pub const NOALLOC: u32 = u32::MAX;
pub const GBASE: u32 = 1 << 24;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub alloc: u32,
    pub off: W,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum AKind<'tcx> {
    Mem,
    Heap,
    Static(DefId),
    Stream { id: u32, base: W, size: W },
    Fn(Instance<'tcx>),
    Vtable(Ty<'tcx>, Option<ty::PolyExistentialTraitRef<'tcx>>),
    Opaque,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Alloc<'tcx> {
    pub kind: AKind<'tcx>,
    pub align: u64,
    pub bytes: Vec<Byte>,
    pub writable: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Slot {
    Dead,
    Val(Val),
    Mem(u32),
}

pub struct MBody<'tcx> {
    pub id: u32,
    pub instance: Instance<'tcx>,
    pub body: Body<'tcx>,
    pub layouts: Vec<TyAndLayout<'tcx>>,
    pub in_mem: Vec<bool>,
    pub target: bool,
    pub header: Vec<bool>,
    /// per header: blocks of its natural loop
    pub loops: FxHashMap<BasicBlock, Rc<Vec<bool>>>,
    /// per header: locals whose value there is never read again
    pub dead: FxHashMap<BasicBlock, Rc<Vec<bool>>>,
    pub name: String,
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub body: Rc<MBody<'tcx>>,
    pub locals: Vec<Slot>,
    pub bb: BasicBlock,
    pub stmt: usize,
    pub dest: Option<Place<'tcx>>,
    pub target: Option<BasicBlock>,
    /// loop-head snapshots of this activation (symbolic trip counts only)
    pub heads: Rc<FxHashMap<BasicBlock, Vec<Rc<State<'tcx>>>>>,
    /// how often each loop head was reached
    pub visits: Rc<FxHashMap<BasicBlock, u32>>,
    pub accel: Rc<FxHashSet<BasicBlock>>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub mem: Vec<Option<Rc<Alloc<'tcx>>>>,
    pub free: Vec<u32>,
    pub frames: Vec<Frame<'tcx>>,
    pub facts: Facts,
    pub ret: Option<Val>,
    pub steps: u64,
    /// target features the caller vouches for
    pub features: Rc<Vec<String>>,
    /// contents of written statics
    pub statics: Rc<FxHashMap<u32, Rc<Alloc<'tcx>>>>,
    /// call sites of heap allocations on this path
    pub heap: Rc<std::collections::BTreeSet<String>>,
    /// target features of the functions executed so far
    pub used: Rc<std::collections::BTreeSet<String>>,
    /// Some((frame, header)) while checking the inductive step of a loop summary
    pub stop_at: Option<(usize, BasicBlock)>,
    pub havoc: u32,
    pub loops_seen: u32,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Unsup(String),
    Panic(String),
    Ub(String),
    Feature(String),
    /// undecided branch on an index condition
    Branch(Lit),
    AtHead,
    Exit,
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub enum OutKind {
    Ok(Option<Val>),
    Panic(String, String),
    Ub(String, String),
    Feature(String, String),
    Unsup(String, String),
    Head,
    Exit,
}
pub struct Outcome<'tcx> {
    pub st: State<'tcx>,
    pub kind: OutKind,
}

#[derive(Clone, Debug)]
pub enum Base {
    Local(usize, Local),
    Ptr(P),
}
#[derive(Clone, Debug)]
pub struct Place<'tcx> {
    pub base: Base,
    pub off: u64,
    pub layout: TyAndLayout<'tcx>,
    pub meta: Option<Val>,
    pub packed: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct StaticAccess {
    pub name: String,
    pub write: bool,
    pub atomic: bool,
    pub tls: bool,
    pub site: String,
}

pub struct Interp<'tcx> {
    pub static_map: FxHashMap<DefId, u32>,
    pub static_init: FxHashSet<u32>,
    pub static_log: std::collections::BTreeSet<StaticAccess>,
    pub in_atomic: bool,
    pub once_model: Option<DefId>,
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub cx: LayoutCx<'tcx>,
    pub t: Terms,
    pub ps: PredSrc,
    pub ptrs: Vec<Ptr>,
    pub ptr_map: FxHashMap<Ptr, P>,
    pub globals: Vec<Rc<Alloc<'tcx>>>,
    pub global_map: FxHashMap<mir::interpret::AllocId, u32>,
    pub fn_map: FxHashMap<Instance<'tcx>, u32>,
    pub vt_map: FxHashMap<(Ty<'tcx>, Option<ty::PolyExistentialTraitRef<'tcx>>), u32>,
    pub bodies: FxHashMap<Instance<'tcx>, Result<Rc<MBody<'tcx>>, String>>,
    pub paths: FxHashMap<DefId, Rc<str>>,
    pub names: FxHashMap<DefId, Rc<str>>,
    pub no_hook: rustc_data_structures::fx::FxHashSet<DefId>,
    pub pbits: usize,
    pub psz: u64,
    pub be: bool,
    pub ub_checks: bool,
    pub overflow_checks: bool,
    pub target_crate: String,
    /// fork-side outcomes (panics / UB guarded by a fact)
    pub side: Vec<Outcome<'tcx>>,
    pub forks: Vec<State<'tcx>>,
    pub max_paths: usize,
    /// the memory allowed to this process is used up
    pub full: bool,
    pub max_steps: u64,
    pub total_steps: u64,
    pub prov_tab: Vec<(u32, Span)>,
    pub prov_map: FxHashMap<(u32, Span), u32>,
    pub body_names: Vec<(DefId, String)>,
    /// functions analysed (instances of the target crate)
    pub seen: FxHashMap<DefId, u64>,
    pub calls_seen: u64,
    pub mem_accesses: u64,
    pub feature_checks: u64,
    pub asserts_seen: u64,
    pub summaries: u64,
    pub layout_cache: FxHashMap<Ty<'tcx>, TyAndLayout<'tcx>>,
    pub const_cache: FxHashMap<mir::Const<'tcx>, Val>,
    pub resolve_cache: FxHashMap<(DefId, ty::GenericArgsRef<'tcx>), Result<Instance<'tcx>, String>>,
    pub diverges: FxHashMap<Instance<'tcx>, bool>,
    pub feat_cache: FxHashMap<DefId, Rc<Vec<String>>>,
    pub session_features: FxHashSet<String>,
    /// a loop head reached for the LONG-th time
    pub long: Option<(usize, BasicBlock)>,
    /// packets a summarised loop body may take at once
    pub fold_ahead: usize,
    /// symbolic-length mode: summarise loops
    pub sym_mode: bool,
    pub fold: Option<crate::loops::Folder>,
    pub side_effects: FxHashSet<String>,
    pub trace: bool,
    pub trace_loops: bool,
    pub loop_failures: std::collections::BTreeSet<String>,
}

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let env = ty::TypingEnv::fully_monomorphized();
        let cx = LayoutCx::new(tcx, env);
        let dl = tcx.data_layout();
        let psz = dl.pointer_size().bytes();
        let be = matches!(dl.endian, abi::Endian::Big);
        let mut session_features = FxHashSet::default();
        for f in tcx.sess.internal_target_features.iter() {
            session_features.insert(f.to_string());
        }
        Interp {
            tcx,
            env,
            cx,
            t: Terms::new(),
            ps: Default::default(),
            ptrs: vec![],
            ptr_map: Default::default(),
            globals: vec![],
            global_map: Default::default(),
            fn_map: Default::default(),
            vt_map: Default::default(),
            bodies: Default::default(),
            paths: Default::default(),
            names: Default::default(),
            no_hook: Default::default(),
            pbits: psz as usize * 8,
            psz,
            be,
            ub_checks: false,
            overflow_checks: tcx.sess.overflow_checks(),
            target_crate: "highway".into(),
            side: vec![],
            forks: vec![],
            max_paths: 64,
            full: false,
            max_steps: 4_000_000,
            total_steps: 0,
            prov_tab: vec![(0, rustc_span::DUMMY_SP)],
            prov_map: Default::default(),
            body_names: vec![],
            seen: Default::default(),
            calls_seen: 0,
            mem_accesses: 0,
            feature_checks: 0,
            asserts_seen: 0,
            summaries: 0,
            long: None,
            fold_ahead: 1,
            layout_cache: Default::default(),
            const_cache: Default::default(),
            resolve_cache: Default::default(),
            diverges: Default::default(),
            feat_cache: Default::default(),
            session_features,
            static_map: Default::default(),
            static_init: Default::default(),
            static_log: Default::default(),
            in_atomic: false,
            once_model: None,
            trace_loops: std::env::var("HW_LOOPS").is_ok(),
            loop_failures: Default::default(),
            sym_mode: false,
            fold: None,
            side_effects: Default::default(),
            trace: std::env::var("HW_TRACE").is_ok(),
        }
    }
    pub fn new_state(&self) -> State<'tcx> {
        State {
            mem: vec![],
            free: vec![],
            frames: vec![],
            facts: Facts::default(),
            ret: None,
            steps: 0,
            features: Rc::new(vec![]),
            statics: Default::default(),
            used: Default::default(),
            heap: Default::default(),
            stop_at: None,
            havoc: 0,
            loops_seen: 0,
        }
    }
    pub fn path(&mut self, d: DefId) -> Rc<str> {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let krate = self.tcx.crate_name(d.krate);
        let p: Rc<str> = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(if d.is_local() {
                format!("{}::{}", krate, self.tcx.def_path_str(d))
            } else {
                self.tcx.def_path_str(d)
            })
        )
        .into();
        self.paths.insert(d, p.clone());
        p
    }

    // ------------------------------------------------------------ layouts
    pub fn layout(&mut self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        if let Some(l) = self.layout_cache.get(&ty) {
            return Ok(*l);
        }
        match self.cx.layout_of(ty) {
            Ok(l) => {
                self.layout_cache.insert(ty, l);
                Ok(l)
            }
            Err(e) => unsup(format!("layout {:?}", e)),
        }
    }
    pub fn usize_w(&mut self, v: u64) -> W {
        let n = self.pbits;
        self.t.cst(n, v as u128)
    }

    // ------------------------------------------------------------ pointers
    pub fn ptr(&mut self, p: Ptr) -> P {
        if let Some(&i) = self.ptr_map.get(&p) {
            return i;
        }
        let i = P(self.ptrs.len() as u32);
        self.ptrs.push(p);
        self.ptr_map.insert(p, i);
        i
    }
    pub fn mkptr(&mut self, alloc: u32, off: u64) -> P {
        let off = self.usize_w(off);
        self.ptr(Ptr { alloc, off })
    }
    pub fn ptr_add_w(&mut self, p: P, d: W) -> P {
        let q = self.ptrs[p.0 as usize];
        let off = self.t.add(q.off, d);
        self.ptr(Ptr { alloc: q.alloc, off })
    }
    pub fn ptr_add(&mut self, p: P, d: u64) -> P {
        if d == 0 {
            return p;
        }
        let d = self.usize_w(d);
        self.ptr_add_w(p, d)
    }
    pub fn alloc_ref<'a>(&'a self, st: &'a State<'tcx>, id: u32) -> Option<&'a Rc<Alloc<'tcx>>> {
        if id == NOALLOC {
            None
        } else if id >= GBASE {
            if let Some(a) = st.statics.get(&id) {
                return Some(a);
            }
            self.globals.get((id - GBASE) as usize)
        } else {
            st.mem.get(id as usize).and_then(|x| x.as_ref())
        }
    }
    fn alloc_align(&self, st: &State<'tcx>, id: u32) -> u64 {
        self.alloc_ref(st, id).map(|a| a.align).unwrap_or(1)
    }
    pub fn addr_word(&mut self, st: &State<'tcx>, p: P) -> W {
        let q = self.ptrs[p.0 as usize];
        if q.alloc == NOALLOC {
            return q.off;
        }
        let al = self.alloc_align(st, q.alloc).trailing_zeros() as usize;
        let n = self.pbits - al;
        let a = self.t.atom(AtomKind::Addr(q.alloc, n as u8));
        let hi = self.t.atom_word(a);
        let lo = self.t.cst(al, 0);
        let base = self.t.concat(&[lo, hi]);
        self.t.add(base, q.off)
    }
    pub fn int_to_ptr(&mut self, w: W) -> P {
        let l = self.t.lin_of(w);
        for (leaf, k) in l.0.iter() {
            let b = self.t.bits(*leaf);
            if let Some(&l0) = b.first() {
                if l0 & 1 == 0 {
                    if let Node::Bit(a, 0) = self.t.nodes[(l0 >> 1) as usize] {
                        if let AtomKind::Addr(id, n) = self.t.atoms[a.0 as usize] {
                            let al = self.pbits - n as usize;
                            if b.len() == n as usize && *k == 1u128 << al {
                                let full = self.t.atom_word(a);
                                let lo = self.t.cst(al, 0);
                                let base = self.t.concat(&[lo, full]);
                                let off = self.t.sub(w, base);
                                return self.ptr(Ptr { alloc: id, off });
                            }
                        }
                    }
                }
            }
        }
        self.ptr(Ptr { alloc: NOALLOC, off: w })
    }

    // ------------------------------------------------------------ values
    pub fn val_bytes(&self, v: &Val, size: u64) -> Rc<[Byte]> {
        match v {
            Val::B(b) => b.clone(),
            Val::W(w) => {
                let n = size as usize;
                (0..n)
                    .map(|i| Byte::W(*w, if self.be { n - 1 - i } else { i } as u16))
                    .collect::<Vec<_>>()
                    .into()
            }
            Val::P(p) => (0..self.psz as usize).map(|i| Byte::P(*p, i as u8)).collect::<Vec<_>>().into(),
        }
    }
    pub fn bytes_val(&self, b: &[Byte]) -> Val {
        let n = b.len();
        match b.first() {
            Some(&Byte::W(w, _)) if self.t.width(w) == n * 8 => {
                for (i, x) in b.iter().enumerate() {
                    let e = if self.be { n - 1 - i } else { i } as u16;
                    if *x != Byte::W(w, e) {
                        return Val::B(b.into());
                    }
                }
                Val::W(w)
            }
            Some(&Byte::P(p, 0)) if n as u64 == self.psz => {
                for (i, x) in b.iter().enumerate() {
                    if *x != Byte::P(p, i as u8) {
                        return Val::B(b.into());
                    }
                }
                Val::P(p)
            }
            _ => Val::B(b.into()),
        }
    }
    pub fn byte_bits(&mut self, st: &State<'tcx>, b: Byte) -> R<[Lit; 8]> {
        let mut out = [FALSE; 8];
        match b {
            Byte::Uninit => return Err(Stop::Ub("read of uninitialised memory".into())),
            Byte::Poison => return unsup("read of a value lost by a loop summary"),
            Byte::W(w, i) => {
                let bits = self.t.bits(w);
                out.copy_from_slice(&bits[i as usize * 8..i as usize * 8 + 8]);
            }
            Byte::P(p, i) => {
                let a = self.addr_word(st, p);
                let bits = self.t.bits(a);
                let i = if self.be { self.psz as usize - 1 - i as usize } else { i as usize };
                out.copy_from_slice(&bits[i * 8..i * 8 + 8]);
            }
        }
        Ok(out)
    }
    pub fn word_of(&mut self, st: &State<'tcx>, v: &Val) -> R<W> {
        match v {
            Val::W(w) => Ok(*w),
            Val::P(p) => Ok(self.addr_word(st, *p)),
            Val::B(b) => {
                let mut bits = Vec::with_capacity(b.len() * 8);
                let n = b.len();
                for i in 0..n {
                    let x = b[if self.be { n - 1 - i } else { i }];
                    let bb = self.byte_bits(st, x)?;
                    bits.extend_from_slice(&bb);
                }
                Ok(self.t.word(&bits))
            }
        }
    }
    pub fn ptr_of(&mut self, st: &State<'tcx>, v: &Val) -> R<P> {
        match v {
            Val::P(p) => Ok(*p),
            _ => {
                let w = self.word_of(st, v)?;
                Ok(self.int_to_ptr(w))
            }
        }
    }
    pub fn sub_val(&self, v: &Val, size: u64, off: u64, len: u64) -> Val {
        if off == 0 && len == size {
            return v.clone();
        }
        let b = self.val_bytes(v, size);
        self.bytes_val(&b[off as usize..(off + len) as usize])
    }
    /// two pointer-sized halves
    pub fn pair(&mut self, a: &Val, asz: u64, b: &Val, bsz: u64) -> Val {
        let mut v = self.val_bytes(a, asz).to_vec();
        v.extend_from_slice(&self.val_bytes(b, bsz));
        Val::B(v.into())
    }
    pub fn fat(&mut self, p: P, meta: &Val) -> Val {
        let z = self.psz;
        self.pair(&Val::P(p), z, meta, z)
    }
    pub fn split_fat(&mut self, st: &State<'tcx>, v: &Val) -> R<(P, Val)> {
        let z = self.psz;
        let a = self.sub_val(v, 2 * z, 0, z);
        let m = self.sub_val(v, 2 * z, z, z);
        let p = self.ptr_of(st, &a)?;
        Ok((p, m))
    }

    // ------------------------------------------------------------ memory
    pub fn new_alloc(&mut self, st: &mut State<'tcx>, size: u64, align: u64, kind: AKind<'tcx>) -> u32 {
        let a = Rc::new(Alloc { kind, align, bytes: vec![Byte::Uninit; size as usize], writable: true });
        if let Some(i) = st.free.pop() {
            st.mem[i as usize] = Some(a);
            i
        } else {
            st.mem.push(Some(a));
            (st.mem.len() - 1) as u32
        }
    }
    pub fn free_alloc(&mut self, st: &mut State<'tcx>, id: u32) {
        st.mem[id as usize] = None;
        // keep the free list sorted (largest first) so that reuse is deterministic
        let pos = st.free.iter().position(|&x| x < id).unwrap_or(st.free.len());
        st.free.insert(pos, id);
    }
    /// `ok` must hold; otherwise undefined behaviour
    pub fn require(&mut self, st: &mut State<'tcx>, ok: Lit, msg: &str) -> R<()> {
        match st.facts.decide(&mut self.t, &self.ps, ok) {
            Some(true) => Ok(()),
            Some(false) => Err(Stop::Ub(msg.into())),
            None => {
                let mut s2 = st.clone();
                s2.facts.assume(&mut self.t, &self.ps, ok ^ 1);
                let site = self.site(&s2);
                self.side.push(Outcome { st: s2, kind: OutKind::Ub(msg.into(), site) });
                st.facts.assume(&mut self.t, &self.ps, ok);
                Ok(())
            }
        }
    }
    fn check_align(&mut self, st: &mut State<'tcx>, p: P, align: u64) -> R<()> {
        if align <= 1 {
            return Ok(());
        }
        let q = self.ptrs[p.0 as usize];
        let k = align.trailing_zeros() as usize;
        // fast path
        if self.alloc_align(st, q.alloc) >= align || q.alloc == NOALLOC {
            let b = self.t.bits(q.off);
            if b[..k].iter().all(|&l| l == FALSE) {
                return Ok(());
            }
        }
        let a = self.addr_word(st, p);
        let lo = self.t.extract(a, 0, k);
        let z = self.t.cst(k, 0);
        let ok = self.t.eq(lo, z);
        self.require(st, ok, &format!("access requires {}-byte alignment that is not guaranteed", align))
    }
    /// bounds check; returns constant offset for plain memory
    fn check_bounds(&mut self, st: &mut State<'tcx>, p: P, len: u64) -> R<()> {
        let q = self.ptrs[p.0 as usize];
        let Some(a) = self.alloc_ref(st, q.alloc).cloned() else {
            return Err(Stop::Ub("dereference of a pointer without valid object".into()));
        };
        let off = self.t.as_const(q.off);
        let size = match &a.kind {
            AKind::Stream { size, .. } => *size,
            AKind::Fn(_) | AKind::Vtable(..) => return unsup("data access to code/vtable"),
            AKind::Opaque => return unsup("access to opaque object"),
            _ => self.usize_w(a.bytes.len() as u64),
        };
        if let (Some(o), Some(s)) = (off, self.t.as_const(size)) {
            if o + len as u128 <= s {
                return Ok(());
            }
            return Err(Stop::Ub(format!(
                "out-of-bounds access of {} byte(s) at offset {} of a {}-byte object",
                len,
                signed(o, self.pbits),
                s
            )));
        }
        let l = self.usize_w(len);
        let end = self.t.add(q.off, l);
        let c1 = self.cmp_ult(st, size, end);
        let ovf = self.cmp_ult(st, end, q.off);
        let ok = self.t.and(c1 ^ 1, ovf ^ 1);
        self.require(st, ok, &format!("access of {} byte(s) may leave its object", len))
    }
    pub fn load(&mut self, st: &mut State<'tcx>, p: P, len: u64, align: u64) -> R<Val> {
        if len == 0 {
            return Ok(Val::B(Rc::new([])));
        }
        self.mem_accesses += 1;
        self.check_bounds(st, p, len)?;
        self.check_align(st, p, align)?;
        let q = self.ptrs[p.0 as usize];
        let a = self.alloc_ref(st, q.alloc).unwrap().clone();
        match &a.kind {
            AKind::Stream { id, base, .. } => {
                let mut out = Vec::with_capacity(len as usize);
                let o = self.t.add(*base, q.off);
                for i in 0..len {
                    let d = self.usize_w(i);
                    let oi = self.t.add(o, d);
                    let w = self.t.stream(*id, oi);
                    out.push(Byte::W(w, 0));
                }
                Ok(self.bytes_val(&out))
            }
            AKind::Static(d) if !self.static_init.contains(&q.alloc) => {
                let d = *d;
                self.log_static(st, d, false);
                let d = &d;
                st.havoc += 1;
                let w = self.t.sym(&format!("shared-static-{}-{}", self.tcx.def_path_str(*d), st.havoc), len as usize * 8);
                Ok(Val::W(w))
            }
            _ => {
                if let AKind::Static(d) = a.kind {
                    self.log_static(st, d, false);
                }
                if let Some(o) = self.t.as_const(q.off) {
                    let o = o as usize;
                    Ok(self.bytes_val(&a.bytes[o..o + len as usize]))
                } else {
                    self.load_symbolic(st, &a, q.off, len)
                }
            }
        }
    }
    /// table lookup: offset with few unknown bits
    fn load_symbolic(&mut self, st: &mut State<'tcx>, a: &Rc<Alloc<'tcx>>, off: W, len: u64) -> R<Val> {
        let bits = self.t.bits(off);
        let unk: Vec<usize> = (0..bits.len()).filter(|&i| bits[i] > 1).collect();
        if unk.len() > 9 {
            return unsup("load at a symbolic offset");
        }
        let fixed = self.t.umin(off);
        let mut acc: Option<Vec<Lit>> = None;
        for m in (0..1u64 << unk.len()).rev() {
            let mut o = fixed;
            let mut cond = TRUE;
            for (j, &i) in unk.iter().enumerate() {
                if m >> j & 1 == 1 {
                    o |= 1 << i;
                    cond = self.t.and(cond, bits[i]);
                } else {
                    cond = self.t.and(cond, bits[i] ^ 1);
                }
            }
            if cond == FALSE || o as usize + len as usize > a.bytes.len() {
                continue;
            }
            let v = self.bytes_val(&a.bytes[o as usize..o as usize + len as usize]);
            let w = self.word_of(st, &v)?;
            let wb = self.t.bits(w);
            acc = Some(match acc {
                None => wb.to_vec(),
                Some(x) => wb.iter().zip(x.iter()).map(|(&p, &q)| self.t.mux(cond, p, q)).collect(),
            });
        }
        match acc {
            Some(v) => Ok(Val::W(self.t.word(&v))),
            None => unsup("symbolic load with no valid target"),
        }
    }
    pub fn store(&mut self, st: &mut State<'tcx>, p: P, v: &Val, len: u64, align: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        self.mem_accesses += 1;
        self.check_bounds(st, p, len)?;
        self.check_align(st, p, align)?;
        let q = self.ptrs[p.0 as usize];
        if q.alloc >= GBASE {
            let a = self.alloc_ref(st, q.alloc).unwrap().clone();
            if let AKind::Static(d) = a.kind {
                self.log_static(st, d, true);
                let b = self.val_bytes(v, len);
                let Some(o) = self.t.as_const(q.off) else { return unsup("store to a static at a symbolic offset") };
                let mut a2 = (*a).clone();
                a2.bytes[o as usize..o as usize + len as usize].copy_from_slice(&b);
                Rc::make_mut(&mut st.statics).insert(q.alloc, Rc::new(a2));
                return Ok(());
            }
            return Err(Stop::Ub("write to read-only memory".into()));
        }
        let b = self.val_bytes(v, len);
        let o = self.t.as_const(q.off);
        if !st.mem[q.alloc as usize].as_ref().unwrap().writable {
            return Err(Stop::Ub("write through a shared/read-only object".into()));
        }
        let Some(o) = o else {
            // symbolic store: weak update when few candidates
            return self.store_symbolic(st, q, &b);
        };
        let a = Rc::make_mut(st.mem[q.alloc as usize].as_mut().unwrap());
        a.bytes[o as usize..o as usize + len as usize].copy_from_slice(&b);
        Ok(())
    }
    fn log_static(&mut self, st: &State<'tcx>, d: DefId, write: bool) {
        let site = self.site(st);
        self.static_log.insert(StaticAccess {
            name: self.tcx.def_path_str(d),
            write,
            atomic: self.in_atomic,
            tls: self.tcx.is_thread_local_static(d),
            site,
        });
    }
    fn store_symbolic(&mut self, st: &mut State<'tcx>, q: Ptr, b: &[Byte]) -> R<()> {
        let bits = self.t.bits(q.off);
        let unk: Vec<usize> = (0..bits.len()).filter(|&i| bits[i] > 1).collect();
        if unk.len() > 6 {
            return unsup("store at a symbolic offset");
        }
        let fixed = self.t.umin(q.off);
        for m in 0..1u64 << unk.len() {
            let mut o = fixed;
            let mut cond = TRUE;
            for (j, &i) in unk.iter().enumerate() {
                if m >> j & 1 == 1 {
                    o |= 1 << i;
                    cond = self.t.and(cond, bits[i]);
                } else {
                    cond = self.t.and(cond, bits[i] ^ 1);
                }
            }
            let size = st.mem[q.alloc as usize].as_ref().unwrap().bytes.len();
            if cond == FALSE || o as usize + b.len() > size {
                continue;
            }
            for (i, &x) in b.iter().enumerate() {
                let old = st.mem[q.alloc as usize].as_ref().unwrap().bytes[o as usize + i];
                if old == x {
                    continue;
                }
                let (ob, nb) = (self.byte_bits(st, old)?, self.byte_bits(st, x)?);
                let v: Vec<Lit> = (0..8).map(|k| self.t.mux(cond, nb[k], ob[k])).collect();
                let w = self.t.word(&v);
                let a = Rc::make_mut(st.mem[q.alloc as usize].as_mut().unwrap());
                a.bytes[o as usize + i] = Byte::W(w, 0);
            }
        }
        Ok(())
    }
    /// untyped byte copy (reads may be uninitialised)
    pub fn copy_bytes(&mut self, st: &mut State<'tcx>, src: P, dst: P, len: u64, al: u64, nonover: bool) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let (s, d) = (self.ptrs[src.0 as usize], self.ptrs[dst.0 as usize]);
        if nonover && s.alloc == d.alloc {
            if let (Some(a), Some(b)) = (self.t.as_const(s.off), self.t.as_const(d.off)) {
                let (lo, hi) = if a < b { (a, b) } else { (b, a) };
                if hi - lo < len as u128 {
                    return Err(Stop::Ub("copy_nonoverlapping on overlapping ranges".into()));
                }
            }
        }
        let v = self.load(st, src, len, al)?;
        self.store(st, dst, &v, len, al)
    }

    // ------------------------------------------------------------ globals
    pub fn add_global(&mut self, a: Alloc<'tcx>) -> u32 {
        self.globals.push(Rc::new(a));
        GBASE + (self.globals.len() - 1) as u32
    }
    pub fn fn_alloc(&mut self, i: Instance<'tcx>) -> u32 {
        if let Some(&x) = self.fn_map.get(&i) {
            return x;
        }
        let x = self.add_global(Alloc { kind: AKind::Fn(i), align: 16, bytes: vec![], writable: false });
        self.fn_map.insert(i, x);
        x
    }
    pub fn vtable(&mut self, ty: Ty<'tcx>, tr: Option<ty::PolyExistentialTraitRef<'tcx>>) -> u32 {
        if let Some(&x) = self.vt_map.get(&(ty, tr)) {
            return x;
        }
        let x = self.add_global(Alloc { kind: AKind::Vtable(ty, tr), align: 16, bytes: vec![], writable: false });
        self.vt_map.insert((ty, tr), x);
        x
    }
    pub fn global(&mut self, id: mir::interpret::AllocId) -> R<u32> {
        if let Some(&x) = self.global_map.get(&id) {
            return Ok(x);
        }
        let x = match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => self.fn_alloc(instance),
            GlobalAlloc::VTable(ty, preds) => self.vtable(ty, preds.principal()),
            GlobalAlloc::TypeId { .. } => return unsup("TypeId"),
            GlobalAlloc::Static(d) => {
                let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = ty.is_freeze(self.tcx, self.env);
                if self.tcx.is_mutable_static(d) || !freeze || self.tcx.is_thread_local_static(d)
                    || self.tcx.is_foreign_item(d)
                {
                    let x = self.shared_static(d)?;
                    self.global_map.insert(id, x);
                    return Ok(x);
                }
                match self.tcx.eval_static_initializer(d) {
                    Ok(a) => return self.import(id, a),
                    Err(_) => return unsup("static initializer"),
                }
            }
            GlobalAlloc::Memory(a) => return self.import(id, a),
        };
        self.global_map.insert(id, x);
        Ok(x)
    }
    /// mutable (or interior-mutable, or thread-local) static
    pub fn shared_static(&mut self, d: DefId) -> R<u32> {
        if let Some(&x) = self.static_map.get(&d) {
            return Ok(x);
        }
        let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let l = self.layout(ty)?;
        let x = self.add_global(Alloc {
            kind: AKind::Static(d),
            align: l.align.abi.bytes(),
            bytes: vec![Byte::Uninit; l.size.bytes() as usize],
            writable: true,
        });
        self.static_map.insert(d, x);
        if !self.tcx.is_foreign_item(d) {
            if let Ok(a) = self.tcx.eval_static_initializer(d) {
                let b = self.import_bytes(a)?;
                Rc::make_mut(&mut self.globals[(x - GBASE) as usize]).bytes = b;
                self.static_init.insert(x);
            }
        }
        Ok(x)
    }
    fn import(&mut self, id: mir::interpret::AllocId, a: mir::interpret::ConstAllocation<'tcx>) -> R<u32> {
        let x = self.add_global(Alloc { kind: AKind::Mem, align: a.inner().align.bytes(), bytes: vec![], writable: false });
        self.global_map.insert(id, x);
        let bytes = self.import_bytes(a)?;
        Rc::make_mut(&mut self.globals[(x - GBASE) as usize]).bytes = bytes;
        Ok(x)
    }
    fn import_bytes(&mut self, a: mir::interpret::ConstAllocation<'tcx>) -> R<Vec<Byte>> {
        let a = a.inner();
        let n = a.len();
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        let mut bytes = Vec::with_capacity(n);
        for i in 0..n {
            if a.init_mask().is_range_initialized(mir::interpret::AllocRange { start: Size::from_bytes(i), size: Size::from_bytes(1) }).is_ok() {
                let w = self.t.cst(8, raw[i] as u128);
                bytes.push(Byte::W(w, 0));
            } else {
                bytes.push(Byte::Uninit);
            }
        }
        let ps = self.psz as usize;
        let ptrs: Vec<(usize, mir::interpret::AllocId)> =
            a.provenance().ptrs().iter().map(|(o, p)| (o.bytes() as usize, p.alloc_id())).collect();
        for (o, tid) in ptrs {
            let mut v: u64 = 0;
            for i in 0..ps {
                let b = raw[o + if self.be { i } else { ps - 1 - i }];
                v = v << 8 | b as u64;
            }
            let g = self.global(tid)?;
            let p = self.mkptr(g, v);
            for i in 0..ps {
                bytes[o + i] = Byte::P(p, i as u8);
            }
        }
        Ok(bytes)
    }
    fn scalar(&mut self, s: Scalar) -> R<Val> {
        match s {
            Scalar::Int(i) => {
                let n = i.size().bits() as usize;
                if n == 0 {
                    return Ok(Val::B(Rc::new([])));
                }
                Ok(Val::W(self.t.cst(n, i.to_bits(i.size()))))
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let g = self.global(prov.alloc_id())?;
                Ok(Val::P(self.mkptr(g, off.bytes())))
            }
        }
    }
    pub fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> R<Val> {
        if let Some(v) = self.const_cache.get(&c.const_) {
            return Ok(v.clone());
        }
        let ty = c.const_.ty();
        let l = self.layout(ty)?;
        let v = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => v,
            Err(_) => return unsup("constant evaluation failed"),
        };
        let r = match v {
            mir::ConstValue::Scalar(s) => self.scalar(s)?,
            mir::ConstValue::ZeroSized => Val::B(Rc::new([])),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let g = self.global(alloc_id)?;
                let p = self.mkptr(g, 0);
                let m = self.usize_w(meta);
                self.fat(p, &Val::W(m))
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let g = self.global(alloc_id)?;
                let a = self.globals[(g - GBASE) as usize].clone();
                let o = offset.bytes() as usize;
                self.bytes_val(&a.bytes[o..o + l.size.bytes() as usize])
            }
        };
        // canonical whole-word constants
        let r = match r {
            Val::B(b) if matches!(b.len(), 1 | 2 | 4 | 8 | 16) && b.iter().all(|x| matches!(x, Byte::W(..))) && ty.is_integral() => {
                let st = self.new_state();
                Val::W(self.word_of(&st, &Val::B(b))?)
            }
            r => r,
        };
        self.const_cache.insert(c.const_, r.clone());
        Ok(r)
    }

    // ------------------------------------------------------------ bodies
    pub fn body(&mut self, inst: Instance<'tcx>) -> R<Rc<MBody<'tcx>>> {
        if let Some(r) = self.bodies.get(&inst) {
            return r.clone().map_err(Stop::Unsup);
        }
        let r = self.body_uncached(inst);
        let rr = match &r {
            Ok(b) => Ok(b.clone()),
            Err(Stop::Unsup(s)) => Err(s.clone()),
            Err(e) => Err(format!("{:?}", e)),
        };
        self.bodies.insert(inst, rr);
        r
    }
    fn body_uncached(&mut self, inst: Instance<'tcx>) -> R<Rc<MBody<'tcx>>> {
        let did = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return unsup(format!("no MIR for {}", self.path(d)));
                }
                if self.tcx.is_foreign_item(d) {
                    return unsup(format!("foreign function {}", self.path(d)));
                }
            }
            ty::InstanceKind::Intrinsic(d) | ty::InstanceKind::LlvmIntrinsic(d) => {
                return unsup(format!("intrinsic {}", self.path(d)))
            }
            ty::InstanceKind::Virtual(d, _) => return unsup(format!("virtual {}", self.path(d))),
            _ => {}
        }
        let b = self.tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            ty::EarlyBinder::bind(self.tcx, b.clone()),
        );
        let n = body.local_decls.len();
        let mut layouts = Vec::with_capacity(n);
        for d in body.local_decls.iter() {
            layouts.push(self.layout(d.ty)?);
        }
        let mut in_mem = vec![false; n];
        let mark = |pl: &mir::Place<'tcx>, in_mem: &mut Vec<bool>| {
            if !pl.is_indirect_first_projection() {
                in_mem[pl.local.as_usize()] = true;
            }
        };
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    match &b.1 {
                        Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => mark(p, &mut in_mem),
                        Rvalue::Reborrow(_, _, p) => mark(p, &mut in_mem),
                        _ => {}
                    }
                    let all = [Some(&b.0), None];
                    for p in all.into_iter().flatten() {
                        if p.projection.iter().any(|e| matches!(e, ProjectionElem::Index(_))) {
                            mark(p, &mut in_mem)
                        }
                    }
                    // reads through an index: keep in memory as well
                    struct V<'a>(&'a mut Vec<bool>);
                    impl<'a, 'tcx> mir::visit::Visitor<'tcx> for V<'a> {
                        fn visit_place(&mut self, p: &mir::Place<'tcx>, _: mir::visit::PlaceContext, _: mir::Location) {
                            for e in p.projection.iter() {
                                match e {
                                    ProjectionElem::Deref => return,
                                    ProjectionElem::Index(_) => {
                                        self.0[p.local.as_usize()] = true;
                                        return;
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    use mir::visit::Visitor;
                    V(&mut in_mem).visit_rvalue(&b.1, mir::Location::START);
                }
            }
            if let Some(t) = &bb.terminator {
                if let TerminatorKind::Drop { place, .. } = &t.kind {
                    mark(place, &mut in_mem)
                }
            }
        }
        // natural loops
        let dom = body.basic_blocks.dominators().clone();
        let nb = body.basic_blocks.len();
        let mut header = vec![false; nb];
        let mut loops: FxHashMap<BasicBlock, Vec<bool>> = Default::default();
        let preds = body.basic_blocks.predecessors().clone();
        for (b, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            if let Some(t) = &data.terminator {
                for s in t.successors() {
                    if body.basic_blocks[s].is_cleanup {
                        continue;
                    }
                    if dom.is_reachable(b) && dom.dominates(s, b) {
                        header[s.as_usize()] = true;
                        let set = loops.entry(s).or_insert_with(|| vec![false; nb]);
                        set[s.as_usize()] = true;
                        let mut work = vec![b];
                        while let Some(x) = work.pop() {
                            if !set[x.as_usize()] {
                                set[x.as_usize()] = true;
                                for &p in preds[x].iter() {
                                    work.push(p);
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut dead: FxHashMap<BasicBlock, Rc<Vec<bool>>> = Default::default();
        if !loops.is_empty() {
            use rustc_mir_dataflow::Analysis;
            let mut c = rustc_mir_dataflow::impls::MaybeLiveLocals.iterate_to_fixpoint(self.tcx, &body, None).into_results_cursor(&body);
            for &h in loops.keys() {
                c.seek_to_block_start(h);
                let live = c.get();
                dead.insert(h, Rc::new((0..body.local_decls.len()).map(|l| !in_mem[l] && !live.contains(Local::from_usize(l))).collect()));
            }
        }
        let target = self.tcx.crate_name(did.krate).as_str() == self.target_crate;
        let name = self.path(did).to_string();
        let id = self.body_names.len() as u32;
        self.body_names.push((did, name.clone()));
        Ok(Rc::new(MBody {
            id,
            instance: inst,
            body,
            layouts,
            in_mem,
            target,
            header,
            dead,
            loops: loops.into_iter().map(|(k, v)| (k, Rc::new(v))).collect(),
            name,
        }))
    }

    // ------------------------------------------------------------ diagnostics
    pub fn span_str(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let n = lo.file.name.prefer_remapped_unconditionally().to_string();
        format!("{}:{}", n, lo.line)
    }
    fn cur_span(&self, f: &Frame<'tcx>) -> Span {
        let bb = &f.body.body.basic_blocks[f.bb];
        if f.stmt < bb.statements.len() {
            bb.statements[f.stmt].source_info.span
        } else {
            bb.terminator().source_info.span
        }
    }
    pub fn site(&self, st: &State<'tcx>) -> String {
        let mut out = String::new();
        let mut n = 0;
        for f in st.frames.iter().rev() {
            if f.body.target || n == 0 {
                let s = format!("{} ({})", f.body.name, self.span_str(self.cur_span(f)));
                if !out.is_empty() {
                    out.push_str(" <- ");
                }
                out.push_str(&s);
                n += 1;
                if n >= 5 {
                    break;
                }
            }
        }
        out
    }
    pub fn prov_str(&self, p: u32) -> String {
        let (b, sp) = self.prov_tab[p as usize];
        if p == 0 {
            return "input".into();
        }
        format!("{} ({})", self.body_names[b as usize].1, self.span_str(sp))
    }
    fn set_prov(&mut self, st: &State<'tcx>) {
        let f = st.frames.last().unwrap();
        if f.body.target {
            let k = (f.body.id, self.cur_span(f));
            let n = self.prov_tab.len() as u32;
            let e = *self.prov_map.entry(k).or_insert(n);
            if e == n {
                self.prov_tab.push(k);
            }
            self.t.cur_prov = e;
        }
    }

    // ------------------------------------------------------------ comparisons
    pub fn cmp_ult(&mut self, st: &State<'tcx>, a: W, b: W) -> Lit {
        if let Some(v) = st.facts.dec_ult(&mut self.t, a, b) {
            return v as Lit;
        }
        let l = self.t.ult(a, b);
        if l > 1 {
            self.ps.entry(l >> 1).or_insert((PredKind::Ult, a, b, l & 1 == 1));
        }
        l
    }
    pub fn cmp_eq(&mut self, st: &State<'tcx>, a: W, b: W) -> Lit {
        if let Some(v) = st.facts.dec_eq(&mut self.t, a, b) {
            return v as Lit;
        }
        let l = self.t.eq(a, b);
        if l > 1 {
            self.ps.entry(l >> 1).or_insert((PredKind::Eq, a, b, l & 1 == 1));
        }
        l
    }
    pub fn cmp_slt(&mut self, st: &State<'tcx>, a: W, b: W) -> Lit {
        let n = self.t.width(a);
        let (x, y) = (self.t.bits(a), self.t.bits(b));
        let (sx, sy) = (x[n - 1], y[n - 1]);
        if sx == FALSE && sy == FALSE {
            return self.cmp_ult(st, a, b);
        }
        self.t.slt(a, b)
    }

    // ------------------------------------------------------------ places
    pub fn place(&mut self, st: &mut State<'tcx>, fi: usize, pl: &mir::Place<'tcx>) -> R<Place<'tcx>> {
        let f = &st.frames[fi];
        let body = f.body.clone();
        let li = pl.local.as_usize();
        let mut p = match &f.locals[li] {
            Slot::Mem(a) => {
                let q = self.mkptr(*a, 0);
                Place { base: Base::Ptr(q), off: 0, layout: body.layouts[li], meta: None, packed: false }
            }
            _ => Place { base: Base::Local(fi, pl.local), off: 0, layout: body.layouts[li], meta: None, packed: false },
        };
        for e in pl.projection.iter() {
            p = self.project(st, fi, p, &e)?;
        }
        Ok(p)
    }
    fn shift_place(&mut self, p: &Place<'tcx>, d: u64) -> Place<'tcx> {
        let mut q = p.clone();
        match &mut q.base {
            Base::Local(..) => q.off += d,
            Base::Ptr(x) => *x = self.ptr_add(*x, d),
        }
        q
    }
    pub fn field(&mut self, p: &Place<'tcx>, i: usize) -> R<Place<'tcx>> {
        let off = p.layout.fields.offset(i).bytes();
        let fl = p.layout.field(&self.cx, i);
        let mut q = self.shift_place(p, off);
        if let abi::FieldsShape::Arbitrary { .. } = p.layout.fields {
            if let ty::Adt(d, _) = p.layout.ty.kind() {
                if d.repr().packed() {
                    q.packed = true;
                }
            }
        }
        if fl.is_sized() {
            q.meta = None;
        } else if off != 0 && matches!(fl.ty.kind(), ty::Dynamic(..)) {
            return unsup("dyn tail field");
        }
        q.layout = fl;
        Ok(q)
    }
    pub fn deref_val(&mut self, st: &State<'tcx>, v: &Val, ty: Ty<'tcx>) -> R<Place<'tcx>> {
        let inner = match ty.builtin_deref(true) {
            Some(t) => t,
            None => return unsup(format!("deref of {}", ty)),
        };
        let l = self.layout(inner)?;
        let (p, meta) = if l.is_sized() {
            let mut v = v.clone();
            if let Val::B(b) = &v {
                if b.len() as u64 > self.psz {
                    v = self.sub_val(&v, b.len() as u64, 0, self.psz);
                }
            }
            (self.ptr_of(st, &v)?, None)
        } else {
            let (p, m) = self.split_fat(st, v)?;
            (p, Some(m))
        };
        Ok(Place { base: Base::Ptr(p), off: 0, layout: l, meta, packed: false })
    }
    fn project(&mut self, st: &mut State<'tcx>, fi: usize, p: Place<'tcx>, e: &mir::PlaceElem<'tcx>) -> R<Place<'tcx>> {
        match *e {
            ProjectionElem::Deref => {
                let ty = p.layout.ty;
                let v = self.read(st, &p)?;
                self.deref_val(st, &v, ty)
            }
            ProjectionElem::Field(i, _) => self.field(&p, i.as_usize()),
            ProjectionElem::Downcast(_, v) => {
                let mut q = p.clone();
                q.layout = p.layout.for_variant(&self.cx, v);
                Ok(q)
            }
            ProjectionElem::Index(l) => {
                let iv = self.read_local(st, fi, l)?;
                let i = self.word_of(st, &iv)?;
                let el = p.layout.field(&self.cx, 0);
                let sz = self.usize_w(el.size.bytes());
                let d = self.t.mul(i, sz);
                let mut q = p.clone();
                q.layout = el;
                q.meta = None;
                match &mut q.base {
                    Base::Ptr(x) => *x = self.ptr_add_w(*x, d),
                    Base::Local(..) => match self.t.as_const(d) {
                        Some(c) => q.off += c as u64,
                        None => return unsup("symbolic index into a register local"),
                    },
                }
                Ok(q)
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let el = p.layout.field(&self.cx, 0);
                let i = if from_end {
                    let n = self.len_of(st, &p)?;
                    match self.t.as_const(n) {
                        Some(n) => n as u64 - offset,
                        None => return unsup("from_end on symbolic length"),
                    }
                } else {
                    offset
                };
                let mut q = self.shift_place(&p, i * el.size.bytes());
                q.layout = el;
                q.meta = None;
                Ok(q)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let el = p.layout.field(&self.cx, 0);
                let n = self.len_of(st, &p)?;
                let mut q = self.shift_place(&p, from * el.size.bytes());
                match p.layout.ty.kind() {
                    ty::Array(..) => {
                        let Some(n) = self.t.as_const(n) else { return unsup("subslice") };
                        let m = if from_end { n as u64 - from - to } else { to - from };
                        let ty = Ty::new_array(self.tcx, el.ty, m);
                        q.layout = self.layout(ty)?;
                    }
                    _ => {
                        let d = self.usize_w(from + to);
                        let m = if from_end { self.t.sub(n, d) } else { self.usize_w(to - from) };
                        q.meta = Some(Val::W(m));
                    }
                }
                Ok(q)
            }
            ProjectionElem::OpaqueCast(ty) | ProjectionElem::UnwrapUnsafeBinder(ty) => {
                let mut q = p.clone();
                q.layout = self.layout(ty)?;
                Ok(q)
            }
            ProjectionElem::PhantomDeref => unsup("PhantomDeref"),
        }
    }
    pub fn len_of(&mut self, st: &State<'tcx>, p: &Place<'tcx>) -> R<W> {
        match p.layout.ty.kind() {
            ty::Array(_, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => Ok(self.usize_w(n)),
                None => unsup("array length"),
            },
            _ => match &p.meta {
                Some(m) => {
                    let m = m.clone();
                    self.word_of(st, &m)
                }
                None => unsup("length of unsized place"),
            },
        }
    }
    fn read_local(&mut self, st: &mut State<'tcx>, fi: usize, l: Local) -> R<Val> {
        match &st.frames[fi].locals[l.as_usize()] {
            Slot::Val(v) => Ok(v.clone()),
            Slot::Dead => {
                let sz = st.frames[fi].body.layouts[l.as_usize()].size.bytes();
                if sz == 0 {
                    return Ok(Val::B(Rc::new([])));
                }
                Ok(Val::B(vec![Byte::Uninit; sz as usize].into()))
            }
            Slot::Mem(a) => {
                let p = self.mkptr(*a, 0);
                let sz = st.frames[fi].body.layouts[l.as_usize()].size.bytes();
                self.load(st, p, sz, 1)
            }
        }
    }
    pub fn read(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>) -> R<Val> {
        if !p.layout.is_sized() {
            return unsup("read of unsized place");
        }
        let sz = p.layout.size.bytes();
        match p.base {
            Base::Local(fi, l) => {
                let v = self.read_local(st, fi, l)?;
                let tot = st.frames[fi].body.layouts[l.as_usize()].size.bytes();
                Ok(self.sub_val(&v, tot, p.off, sz))
            }
            Base::Ptr(q) => {
                let al = if p.packed { 1 } else { p.layout.align.abi.bytes() };
                if sz == 0 {
                    return Ok(Val::B(Rc::new([])));
                }
                self.load(st, q, sz, al)
            }
        }
    }
    pub fn write(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>, v: Val) -> R<()> {
        let sz = p.layout.size.bytes();
        if sz == 0 {
            return Ok(());
        }
        match p.base {
            Base::Local(fi, l) => {
                let tot = st.frames[fi].body.layouts[l.as_usize()].size.bytes();
                if p.off == 0 && sz == tot {
                    st.frames[fi].locals[l.as_usize()] = Slot::Val(v);
                    return Ok(());
                }
                let old = self.read_local(st, fi, l)?;
                let mut b = self.val_bytes(&old, tot).to_vec();
                let nb = self.val_bytes(&v, sz);
                b[p.off as usize..(p.off + sz) as usize].copy_from_slice(&nb);
                let nv = self.bytes_val(&b);
                st.frames[fi].locals[l.as_usize()] = Slot::Val(nv);
                Ok(())
            }
            Base::Ptr(q) => {
                let al = if p.packed { 1 } else { p.layout.align.abi.bytes() };
                self.store(st, q, &v, sz, al)
            }
        }
    }
    fn place_to_ptr(&mut self, p: &Place<'tcx>) -> R<Val> {
        match p.base {
            Base::Ptr(q) => match &p.meta {
                Some(m) if !p.layout.is_sized() => {
                    let m = m.clone();
                    Ok(self.fat(q, &m))
                }
                _ => Ok(Val::P(q)),
            },
            Base::Local(..) => unsup("address of a register local"),
        }
    }
    pub fn operand(&mut self, st: &mut State<'tcx>, fi: usize, o: &Operand<'tcx>) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    return self.read_local(st, fi, p.local);
                }
                let q = self.place(st, fi, p)?;
                self.read(st, &q)
            }
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(k) => {
                let v = match k {
                    mir::RuntimeChecks::OverflowChecks => self.overflow_checks,
                    _ => self.ub_checks,
                };
                Ok(Val::W(self.t.cst(8, v as u128)))
            }
        }
    }
    pub fn op_ty(&self, f: &Frame<'tcx>, o: &Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&f.body.body.local_decls, self.tcx)
    }

    // ------------------------------------------------------------ rvalues
    fn bool_lit(&mut self, st: &State<'tcx>, v: &Val) -> R<Lit> {
        let w = self.word_of(st, v)?;
        Ok(self.t.bits(w)[0])
    }
    pub fn is_signed(ty: Ty<'_>) -> bool {
        matches!(ty.kind(), ty::Int(_))
    }
    pub fn shift_amt(&mut self, a: W, n: usize) -> W {
        // masked shift amount: low log2(n) bits
        let k = n.trailing_zeros() as usize;
        let w = self.t.width(a);
        if w < k {
            return self.t.zext(a, k);
        }
        self.t.extract(a, 0, k)
    }
    pub fn add_overflow(&mut self, st: &State<'tcx>, a: W, b: W, sg: bool) -> (W, Lit) {
        let n = self.t.width(a);
        let r = self.t.add(a, b);
        if sg {
            let (x, y) = (self.t.sext(a, n + 1), self.t.sext(b, n + 1));
            let s = self.t.add(x, y);
            let sb = self.t.bits(s);
            let o = self.t.xor(sb[n], sb[n - 1]);
            return (r, o);
        }
        if self.t.umax(a).checked_add(self.t.umax(b)).map_or(false, |s| s <= mask(n)) {
            return (r, FALSE);
        }
        // ranges through facts: a+b overflows iff r < a
        if n <= 64 {
            if let (Some(x), Some(y)) = (st.facts.int_lin(&mut self.t, a), st.facts.int_lin(&mut self.t, b)) {
                if let Some(s) = x.add_scaled(&y, 1) {
                    if let Some((_, hi)) = st.facts.range(&self.t, &s) {
                        if hi as u128 <= mask(n) && hi >= 0 {
                            return (r, FALSE);
                        }
                    }
                }
            }
        }
        let (x, y) = (self.t.zext(a, n + 1), self.t.zext(b, n + 1));
        let s = self.t.add(x, y);
        let o = self.t.bits(s)[n];
        (r, o)
    }
    pub fn sub_overflow(&mut self, st: &State<'tcx>, a: W, b: W, sg: bool) -> (W, Lit) {
        let n = self.t.width(a);
        let r = self.t.sub(a, b);
        if sg {
            let (x, y) = (self.t.sext(a, n + 1), self.t.sext(b, n + 1));
            let s = self.t.sub(x, y);
            let sb = self.t.bits(s);
            let o = self.t.xor(sb[n], sb[n - 1]);
            return (r, o);
        }
        let o = self.cmp_ult(st, a, b);
        (r, o)
    }
    pub fn mul_overflow(&mut self, _st: &State<'tcx>, a: W, b: W, sg: bool) -> (W, Lit) {
        let n = self.t.width(a);
        let r = self.t.mul(a, b);
        if !sg {
            if self.t.umax(a).checked_mul(self.t.umax(b)).map_or(false, |s| s <= mask(n)) {
                return (r, FALSE);
            }
        }
        if n > 64 {
            let w = self.t.uf(Op::Opaque(77), 1, &[a, b]);
            return (r, self.t.bits(w)[0]);
        }
        let (x, y) = if sg {
            (self.t.sext(a, 2 * n), self.t.sext(b, 2 * n))
        } else {
            (self.t.zext(a, 2 * n), self.t.zext(b, 2 * n))
        };
        let p = self.t.mul(x, y);
        let hi = self.t.extract(p, n, n);
        let want = if sg {
            let s = self.t.bits(r)[n - 1];
            let v = vec![s; n];
            self.t.word(&v)
        } else {
            self.t.cst(n, 0)
        };
        let e = self.t.eq(hi, want);
        (r, e ^ 1)
    }
    pub fn udivrem(&mut self, st: &State<'tcx>, a: W, b: W, rem: bool) -> W {
        let n = self.t.width(a);
        if let Some(d) = self.t.as_const(b) {
            if let Some(x) = self.t.as_const(a) {
                if d != 0 {
                    return self.t.cst(n, if rem { x % d } else { x / d });
                }
            }
            if d.is_power_of_two() {
                let k = d.trailing_zeros() as usize;
                return if rem {
                    let l = self.t.extract(a, 0, k);
                    self.t.zext(l, n)
                } else {
                    self.t.lshr_c(a, k)
                };
            }
            if self.t.umax(a) < d {
                return if rem { a } else { self.t.cst(n, 0) };
            }
            if d != 0 {
                if let Some(e) = st.facts.int_lin(&mut self.t, a) {
                    if e.ts.len() > 0 && !(e.ts.len() == 1 && e.ts[0].1 == 1) && e.ts.iter().all(|x| x.1 % d as i128 == 0) {
                        let r = e.c.rem_euclid(d as i128);
                        if rem {
                            return self.t.cst(n, r as u128);
                        }
                        let ts = e.ts.iter().map(|&(w, k)| (w, (k / d as i128) as u128 & mask(n))).collect();
                        return self.t.from_lin(ts, e.c.div_euclid(d as i128) as u128 & mask(n), n);
                    }
                }
            }
        }
        self.t.uf(if rem { Op::URem } else { Op::UDiv }, n, &[a, b])
    }
    pub fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, a: &Val, b: &Val, ty: Ty<'tcx>, bty: Ty<'tcx>) -> R<Val> {
        use BinOp::*;
        if matches!(ty.kind(), ty::Float(_)) {
            return unsup("float arithmetic");
        }
        if let Offset = op {
            let inner = ty.builtin_deref(true).unwrap();
            let sz = self.layout(inner)?.size.bytes();
            let p = self.ptr_of(st, a)?;
            let i = self.word_of(st, b)?;
            let s = self.usize_w(sz);
            let d = self.t.mul(i, s);
            return Ok(Val::P(self.ptr_add_w(p, d)));
        }
        // pointers
        if ty.is_any_ptr() && matches!(op, Eq | Ne | Lt | Le | Gt | Ge) {
            return self.ptr_cmp(st, op, a, b, ty);
        }
        let sg = Self::is_signed(ty);
        let x = self.word_of(st, a)?;
        let y = self.word_of(st, b)?;
        let n = self.t.width(x);
        let bool1 = |s: &mut Self, l: Lit| Val::W(s.t.b2w(l));
        Ok(match op {
            Add | AddUnchecked => Val::W(self.t.add(x, y)),
            Sub | SubUnchecked => Val::W(self.t.sub(x, y)),
            Mul | MulUnchecked => Val::W(self.t.mul(x, y)),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let (r, o) = match op {
                    AddWithOverflow => self.add_overflow(st, x, y, sg),
                    SubWithOverflow => self.sub_overflow(st, x, y, sg),
                    _ => self.mul_overflow(st, x, y, sg),
                };
                let tup = Ty::new_tup(self.tcx, &[ty, self.tcx.types.bool]);
                let l = self.layout(tup)?;
                let mut buf = vec![Byte::Uninit; l.size.bytes() as usize];
                let o0 = l.fields.offset(0).bytes() as usize;
                let o1 = l.fields.offset(1).bytes() as usize;
                let rb = self.val_bytes(&Val::W(r), n as u64 / 8);
                buf[o0..o0 + rb.len()].copy_from_slice(&rb);
                let ow = self.t.b2w(o);
                buf[o1] = Byte::W(ow, 0);
                Val::B(buf.into())
            }
            BitXor => Val::W(self.t.w_xor(x, y)),
            BitAnd => Val::W(self.t.w_and(x, y)),
            BitOr => Val::W(self.t.w_or(x, y)),
            Shl | ShlUnchecked => {
                let y = self.shift_amt(y, n);
                Val::W(self.t.shift(x, y, 0))
            }
            Shr | ShrUnchecked => {
                let y = self.shift_amt(y, n);
                Val::W(self.t.shift(x, y, if sg { 2 } else { 1 }))
            }
            Div | Rem => {
                if sg {
                    if let (Some(p), Some(q)) = (self.t.as_const(x), self.t.as_const(y)) {
                        let (p, q) = (signed(p, n), signed(q, n));
                        if q == 0 {
                            return Err(Stop::Ub("division by zero".into()));
                        }
                        let r = if op == Div { p.wrapping_div(q) } else { p.wrapping_rem(q) };
                        return Ok(Val::W(self.t.cst(n, r as u128)));
                    }
                    let (p, q) = (self.t.bits(x)[n - 1], self.t.bits(y)[n - 1]);
                    if p == FALSE && q == FALSE {
                        Val::W(self.udivrem(st, x, y, op == Rem))
                    } else {
                        Val::W(self.t.uf(if op == Div { Op::SDiv } else { Op::SRem }, n, &[x, y]))
                    }
                } else {
                    Val::W(self.udivrem(st, x, y, op == Rem))
                }
            }
            Eq => {
                let l = self.cmp_eq(st, x, y);
                bool1(self, l)
            }
            Ne => {
                let l = self.cmp_eq(st, x, y);
                bool1(self, l ^ 1)
            }
            Lt | Ge | Gt | Le => {
                let (p, q) = if matches!(op, Lt | Ge) { (x, y) } else { (y, x) };
                let l = if sg { self.cmp_slt(st, p, q) } else { self.cmp_ult(st, p, q) };
                bool1(self, if matches!(op, Ge | Le) { l ^ 1 } else { l })
            }
            Cmp => {
                let lt = if sg { self.cmp_slt(st, x, y) } else { self.cmp_ult(st, x, y) };
                let eq = self.cmp_eq(st, x, y);
                let (m1, z, o) = (self.t.cst(8, 0xff), self.t.cst(8, 0), self.t.cst(8, 1));
                let r = self.t.w_mux(eq, z, o);
                Val::W(self.t.w_mux(lt, m1, r))
            }
            Offset => unreachable!(),
        })
        .map(|v| {
            let _ = bty;
            v
        })
    }
    fn ptr_cmp(&mut self, st: &mut State<'tcx>, op: BinOp, a: &Val, b: &Val, ty: Ty<'tcx>) -> R<Val> {
        use BinOp::*;
        let (mut a, mut b) = (a.clone(), b.clone());
        let mut meta_eq = TRUE;
        if let (Val::B(x), Val::B(_)) = (&a, &b) {
            if x.len() as u64 == 2 * self.psz {
                let (p, m) = self.split_fat(st, &a)?;
                let (q, k) = self.split_fat(st, &b)?;
                if !matches!(op, Eq | Ne) {
                    return unsup(format!("ordering of wide pointers {}", ty));
                }
                let (m, k) = (self.word_of(st, &m)?, self.word_of(st, &k)?);
                meta_eq = self.cmp_eq(st, m, k);
                a = Val::P(p);
                b = Val::P(q);
            }
        }
        let (p, q) = (self.ptr_of(st, &a)?, self.ptr_of(st, &b)?);
        let (x, y) = (self.ptrs[p.0 as usize], self.ptrs[q.0 as usize]);
        let l = if x.alloc == y.alloc {
            match op {
                Eq | Ne => self.cmp_eq(st, x.off, y.off),
                Lt | Ge => self.cmp_ult(st, x.off, y.off),
                _ => self.cmp_ult(st, y.off, x.off),
            }
        } else if matches!(op, Eq | Ne) {
            // distinct live objects (or null / dangling constant): different addresses
            FALSE
        } else {
            let (u, v) = (self.addr_word(st, p), self.addr_word(st, q));
            match op {
                Lt | Ge => self.t.ult(u, v),
                _ => self.t.ult(v, u),
            }
        };
        let l = if matches!(op, Eq | Ne) { self.t.and(l, meta_eq) } else { l };
        let l = if matches!(op, Ne | Ge | Le) { l ^ 1 } else { l };
        Ok(Val::W(self.t.b2w(l)))
    }

    pub fn discr_for_variant(&self, ty: Ty<'tcx>, v: VariantIdx) -> (u128, Ty<'tcx>) {
        match ty.discriminant_for_variant(self.tcx, v) {
            Some(d) => (d.val, d.ty),
            None => (v.as_u32() as u128, ty.discriminant_ty(self.tcx)),
        }
    }
    pub fn read_discr(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>) -> R<W> {
        let ty = p.layout.ty;
        let dty = ty.discriminant_ty(self.tcx);
        let dn = self.layout(dty)?.size.bits() as usize;
        match p.layout.variants.clone() {
            Variants::Empty => Err(Stop::Ub("discriminant of uninhabited".into())),
            Variants::Single { index } => {
                let d = self.discr_for_variant(ty, index).0;
                Ok(self.t.cst(dn, d))
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let fp = self.field(p, tag_field.as_usize())?;
                let tv = self.read(st, &fp)?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let w = self.word_of(st, &tv)?;
                        let sgn = matches!(tag.primitive(), abi::Primitive::Int(_, true));
                        Ok(if sgn { self.t.sext(w, dn) } else { self.t.zext(w, dn) })
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let start = niche_variants.start.as_u32();
                        let cnt = niche_variants.last.as_u32() - start;
                        // pointer niche
                        if let Val::P(pp) = tv {
                            let q = self.ptrs[pp.0 as usize];
                            if q.alloc != NOALLOC {
                                return Ok(self.t.cst(dn, untagged_variant.as_u32() as u128));
                            }
                        }
                        let w = self.word_of(st, &tv)?;
                        let tn = self.t.width(w);
                        let ns = self.t.cst(tn, niche_start);
                        let rel = self.t.sub(w, ns);
                        let c = self.t.cst(tn, cnt as u128);
                        let out = self.cmp_ult(st, c, rel);
                        let s = self.t.cst(tn, start as u128);
                        let v = self.t.add(rel, s);
                        let v = self.t.zext(v, dn);
                        let u = self.t.cst(dn, untagged_variant.as_u32() as u128);
                        Ok(self.t.w_mux(out, u, v))
                    }
                }
            }
        }
    }
    pub fn write_discr(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>, v: VariantIdx) -> R<()> {
        let ty = p.layout.ty;
        match p.layout.variants.clone() {
            Variants::Empty | Variants::Single { .. } => Ok(()),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let n = tag.size(&self.cx).bits() as usize;
                let val = match tag_encoding {
                    TagEncoding::Direct => self.discr_for_variant(ty, v).0,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == untagged_variant {
                            return Ok(());
                        }
                        ((v.as_u32() - niche_variants.start.as_u32()) as u128).wrapping_add(niche_start)
                    }
                };
                let mut fp = self.field(p, tag_field.as_usize())?;
                fp.packed = true;
                let w = self.t.cst(n, val);
                // write exactly the tag bytes
                let sz = n as u64 / 8;
                if fp.layout.size.bytes() != sz {
                    return unsup("tag size");
                }
                self.write(st, &fp, Val::W(w))
            }
        }
    }
    /// place over a temporary byte buffer held in a fresh allocation
    fn aggregate(&mut self, st: &mut State<'tcx>, fi: usize, k: &AggregateKind<'tcx>, ops: &[Operand<'tcx>], dl: TyAndLayout<'tcx>) -> R<Val> {
        if let AggregateKind::RawPtr(..) = k {
            let d = self.operand(st, fi, &ops[0])?;
            let m = self.operand(st, fi, &ops[1])?;
            if dl.size.bytes() == self.psz {
                return Ok(d);
            }
            let p = self.ptr_of(st, &d)?;
            return Ok(self.fat(p, &m));
        }
        let size = dl.size.bytes();
        let mut buf = vec![Byte::Uninit; size as usize];
        let (variant, active) = match k {
            AggregateKind::Adt(_, v, _, _, f) => (Some(*v), *f),
            _ => (None, None),
        };
        let lay = match variant {
            Some(v) if matches!(dl.ty.kind(), ty::Adt(d, _) if d.is_enum()) => dl.for_variant(&self.cx, v),
            _ => dl,
        };
        for (i, o) in ops.iter().enumerate() {
            let i = match active {
                Some(f) => f.as_usize(),
                None => i,
            };
            let (off, fl) = match lay.fields {
                abi::FieldsShape::Array { stride, .. } => {
                    let el = lay.field(&self.cx, 0);
                    (stride.bytes() * i as u64, el)
                }
                _ => (lay.fields.offset(i).bytes(), lay.field(&self.cx, i)),
            };
            let v = self.operand(st, fi, o)?;
            let fs = fl.size.bytes();
            if fs == 0 {
                continue;
            }
            let b = self.val_bytes(&v, fs);
            buf[off as usize..(off + fs) as usize].copy_from_slice(&b);
        }
        if let Some(v) = variant {
            if let Variants::Multiple { tag, tag_encoding, tag_field, .. } = &dl.variants {
                let n = tag.size(&self.cx).bytes();
                let val = match tag_encoding {
                    TagEncoding::Direct => Some(self.discr_for_variant(dl.ty, v).0),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant {
                            None
                        } else {
                            Some(((v.as_u32() - niche_variants.start.as_u32()) as u128).wrapping_add(*niche_start))
                        }
                    }
                };
                if let Some(val) = val {
                    let off = dl.fields.offset(tag_field.as_usize()).bytes();
                    let w = self.t.cst(n as usize * 8, val);
                    let b = self.val_bytes(&Val::W(w), n);
                    buf[off as usize..(off + n) as usize].copy_from_slice(&b);
                }
            }
        }
        Ok(self.bytes_val(&buf))
    }
    fn cast(&mut self, st: &mut State<'tcx>, k: CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        match k {
            CastKind::IntToInt => {
                let w = self.word_of(st, &v)?;
                let n = self.layout(to)?.size.bits() as usize;
                // enum discriminant casts arrive here as well
                Ok(Val::W(if Self::is_signed(from) { self.t.sext(w, n) } else { self.t.zext(w, n) }))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let n = self.layout(to)?.size.bytes();
                let m = self.layout(from)?.size.bytes();
                if n < m {
                    Ok(self.sub_val(&v, m, 0, n))
                } else {
                    Ok(v)
                }
            }
            CastKind::Transmute | CastKind::Subtype => {
                let n = self.layout(to)?.size.bytes();
                // normalise to the most natural representation
                let b = self.val_bytes(&v, n);
                if b.iter().any(|x| matches!(x, Byte::Uninit)) && to.is_integral() {
                    return Err(Stop::Ub("transmute of uninitialised memory".into()));
                }
                Ok(self.bytes_val(&b))
            }
            CastKind::PointerExposeProvenance => {
                let p = self.ptr_of(st, &v)?;
                Ok(Val::W(self.addr_word(st, p)))
            }
            CastKind::PointerWithExposedProvenance => {
                let w = self.word_of(st, &v)?;
                Ok(Val::P(self.int_to_ptr(w)))
            }
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty::FnDef(d, a) = from.kind() else { return unsup("reify") };
                    let a = self.tcx.erase_and_anonymize_regions(a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
                    let i = match Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, a) {
                        Some(i) => i,
                        None => return unsup("reify resolve"),
                    };
                    let g = self.fn_alloc(i);
                    Ok(Val::P(self.mkptr(g, 0)))
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, a) = from.kind() else { return unsup("closure fn") };
                    let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                    let g = self.fn_alloc(i);
                    Ok(Val::P(self.mkptr(g, 0)))
                }
                PointerCoercion::Unsize => self.unsize(st, v, from, to),
                _ => Ok(v),
            },
            _ => unsup(format!("cast {:?}", k)),
        }
    }
    fn unsize(&mut self, st: &mut State<'tcx>, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let (Some(a), Some(b)) = (from.builtin_deref(true), to.builtin_deref(true)) else {
            return unsup(format!("unsize {} -> {}", from, to));
        };
        let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        match (a.kind(), b.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(self.tcx).ok_or(Stop::Unsup("array len".into()))?;
                let p = self.ptr_of(st, &v)?;
                let m = self.usize_w(n);
                Ok(self.fat(p, &Val::W(m)))
            }
            (ty::Dynamic(..), ty::Dynamic(..)) => Ok(v),
            (_, ty::Dynamic(preds, _)) => {
                let p = self.ptr_of(st, &v)?;
                let g = self.vtable(a, preds.principal());
                let m = self.mkptr(g, 0);
                Ok(self.fat(p, &Val::P(m)))
            }
            _ => unsup(format!("unsize {} -> {}", from, to)),
        }
    }
    fn rvalue(&mut self, st: &mut State<'tcx>, fi: usize, rv: &Rvalue<'tcx>, dl: TyAndLayout<'tcx>) -> R<Val> {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, fi, o),
            Rvalue::CopyForDeref(p) => {
                let q = self.place(st, fi, p)?;
                self.read(st, &q)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, fi, o)?;
                let n = n.try_to_target_usize(self.tcx).ok_or(Stop::Unsup("repeat".into()))?;
                let el = dl.field(&self.cx, 0).size.bytes();
                let b = self.val_bytes(&v, el);
                let mut out = Vec::with_capacity((el * n) as usize);
                for _ in 0..n {
                    out.extend_from_slice(&b);
                }
                Ok(Val::B(out.into()))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let q = self.place(st, fi, p)?;
                self.place_to_ptr(&q)
            }
            Rvalue::Reborrow(_, _, p) => {
                let q = self.place(st, fi, p)?;
                self.read(st, &q)
            }
            Rvalue::ThreadLocalRef(d) => {
                let g = self.shared_static(*d)?;
                Ok(Val::P(self.mkptr(g, 0)))
            }
            Rvalue::Cast(k, o, to) => {
                let from = self.op_ty(&st.frames[fi], o);
                let v = self.operand(st, fi, o)?;
                self.cast(st, *k, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let ty = self.op_ty(&st.frames[fi], &ab.0);
                let bty = self.op_ty(&st.frames[fi], &ab.1);
                let a = self.operand(st, fi, &ab.0)?;
                let b = self.operand(st, fi, &ab.1)?;
                self.binop(st, *op, &a, &b, ty, bty)
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = self.op_ty(&st.frames[fi], o);
                let v = self.operand(st, fi, o)?;
                match op {
                    UnOp::Not => {
                        let w = self.word_of(st, &v)?;
                        if ty.is_bool() {
                            let l = self.t.bits(w)[0];
                            return Ok(Val::W(self.t.b2w(l ^ 1)));
                        }
                        Ok(Val::W(self.t.w_not(w)))
                    }
                    UnOp::Neg => {
                        let w = self.word_of(st, &v)?;
                        Ok(Val::W(self.t.neg(w)))
                    }
                    UnOp::PtrMetadata => {
                        let n = self.layout(ty)?.size.bytes();
                        if n == self.psz {
                            return Ok(Val::B(Rc::new([])));
                        }
                        let z = self.psz;
                        Ok(self.sub_val(&v, 2 * z, z, z))
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let q = self.place(st, fi, p)?;
                Ok(Val::W(self.read_discr(st, &q)?))
            }
            Rvalue::Aggregate(k, ops) => self.aggregate(st, fi, k, &ops.raw, dl),
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(st, fi, o),
        }
    }

    // ------------------------------------------------------------ frames
    pub fn resolve(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> R<Instance<'tcx>> {
        if let Some(r) = self.resolve_cache.get(&(d, a)) {
            return r.clone().map_err(Stop::Unsup);
        }
        let r = match Instance::try_resolve(self.tcx, self.env, d, a) {
            Ok(Some(i)) => Ok(i),
            _ => Err(format!("cannot resolve {}", self.tcx.def_path_str(d))),
        };
        self.resolve_cache.insert((d, a), r.clone());
        r.map_err(Stop::Unsup)
    }
    pub fn push_frame(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: Vec<(Val, TyAndLayout<'tcx>)>, dest: Option<Place<'tcx>>, target: Option<BasicBlock>) -> R<()> {
        if st.frames.len() > 200 {
            return unsup("recursion depth");
        }
        let b = self.body(inst)?;
        if b.target {
            *self.seen.entry(inst.def_id()).or_insert(0) += 1;
        }
        let n = b.body.local_decls.len();
        let mut locals = Vec::with_capacity(n);
        for i in 0..n {
            let _ = i;
            locals.push(Slot::Dead);
        }
        // locals in memory: allocated eagerly for arguments/return and always-live locals
        let mut args = args;
        if let Some(sp) = b.body.spread_arg {
            // collect the trailing arguments into the tuple
            let k = sp.as_usize() - 1;
            let rest: Vec<_> = args.drain(k..).collect();
            let l = b.layouts[sp.as_usize()];
            let mut buf = vec![Byte::Uninit; l.size.bytes() as usize];
            for (i, (v, al)) in rest.iter().enumerate() {
                let off = l.fields.offset(i).bytes() as usize;
                let bs = self.val_bytes(v, al.size.bytes());
                buf[off..off + bs.len()].copy_from_slice(&bs);
            }
            let v = self.bytes_val(&buf);
            args.push((v, l));
        }
        if args.len() != b.body.arg_count {
            return unsup(format!("argument count mismatch calling {}", b.name));
        }
        st.frames.push(Frame {
            body: b.clone(),
            locals,
            bb: mir::START_BLOCK,
            stmt: 0,
            dest,
            target,
            heads: Default::default(),
            visits: Default::default(),
            accel: Default::default(),
        });
        let fi = st.frames.len() - 1;
        let always = always_live(&b.body);
        for i in 0..n {
            if b.in_mem[i] && (i <= b.body.arg_count || always[i]) {
                let l = b.layouts[i];
                let a = self.new_alloc(st, l.size.bytes(), l.align.abi.bytes(), AKind::Mem);
                st.frames[fi].locals[i] = Slot::Mem(a);
            }
        }
        for (i, (v, _)) in args.into_iter().enumerate() {
            let li = i + 1;
            let sz = b.layouts[li].size.bytes();
            if let Slot::Mem(a) = st.frames[fi].locals[li] {
                let p = self.mkptr(a, 0);
                self.store(st, p, &v, sz, 1)?;
            } else {
                st.frames[fi].locals[li] = Slot::Val(v);
            }
        }
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State<'tcx>) -> R<()> {
        let fi = st.frames.len() - 1;
        let b = st.frames[fi].body.clone();
        let sz = b.layouts[0].size.bytes();
        let v = if sz == 0 { Val::B(Rc::new([])) } else { self.read_local(st, fi, Local::from_usize(0))? };
        let f = st.frames.pop().unwrap();
        for s in &f.locals {
            if let Slot::Mem(a) = s {
                self.free_alloc(st, *a);
            }
        }
        match f.dest {
            Some(d) => {
                self.write(st, &d, v)?;
                match f.target {
                    Some(t) => self.goto(st, t),
                    None => Err(Stop::Ub("return from diverging call".into())),
                }
            }
            None => {
                st.ret = Some(v);
                Ok(())
            }
        }
    }
    fn goto(&mut self, st: &mut State<'tcx>, bb: BasicBlock) -> R<()> {
        let fi = st.frames.len() - 1;
        let f = &mut st.frames[fi];
        f.bb = bb;
        f.stmt = 0;
        if let Some((sf, sb)) = st.stop_at {
            if sf == fi {
                if bb == sb {
                    return Err(Stop::AtHead);
                }
                if f.body.loops.get(&sb).map_or(false, |s| !s[bb.as_usize()]) {
                    return Err(Stop::Exit);
                }
            }
        }
        if self.sym_mode && f.body.header[bb.as_usize()] {
            self.snapshot(st, fi, bb);
        }
        Ok(())
    }
    fn snapshot(&mut self, st: &mut State<'tcx>, fi: usize, bb: BasicBlock) {
        let mut s = st.clone();
        // do not nest snapshots
        for f in s.frames.iter_mut() {
            f.heads = Default::default();
        }
        let f = &mut st.frames[fi];
        let h = Rc::make_mut(&mut f.heads);
        let v = h.entry(bb).or_default();
        v.push(Rc::new(s));
        if v.len() > 8 {
            v.remove(0);
        }
        let c = Rc::make_mut(&mut f.visits).entry(bb).or_default();
        *c += 1;
        if *c == LONG && self.fold.is_some() && st.stop_at.is_none() {
            self.long = Some((fi, bb));
        }
    }

    // ------------------------------------------------------------ main loop
    pub fn step(&mut self, st: &mut State<'tcx>) -> R<()> {
        st.steps += 1;
        self.total_steps += 1;
        if self.total_steps & 0x1fff == 0 && rss_mb() > MEM_MB {
            self.full = true;
        }
        if self.full {
            return unsup("memory limit");
        }
        if st.steps > self.max_steps {
            return unsup("step budget exhausted");
        }
        let fi = st.frames.len() - 1;
        self.set_prov(st);
        let f = &st.frames[fi];
        let body = f.body.clone();
        let bb = &body.body.basic_blocks[f.bb];
        if f.stmt < bb.statements.len() {
            let s = &bb.statements[f.stmt];
            self.statement(st, fi, s)?;
            st.frames[fi].stmt += 1;
            Ok(())
        } else {
            let t = bb.terminator();
            self.terminator(st, fi, t, &body)
        }
    }
    fn statement(&mut self, st: &mut State<'tcx>, fi: usize, s: &mir::Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let pl = &b.0;
                if self.trace {
                    eprintln!("{}{:?}", " ".repeat(fi), s);
                }
                if pl.projection.is_empty() {
                    let li = pl.local.as_usize();
                    let dl = st.frames[fi].body.layouts[li];
                    let v = self.rvalue(st, fi, &b.1, dl)?;
                    match st.frames[fi].locals[li] {
                        Slot::Mem(a) => {
                            let p = self.mkptr(a, 0);
                            self.store(st, p, &v, dl.size.bytes(), 1)
                        }
                        _ => {
                            st.frames[fi].locals[li] = Slot::Val(v);
                            Ok(())
                        }
                    }
                } else {
                    let ty = pl.ty(&st.frames[fi].body.body.local_decls, self.tcx);
                    let dl = if let Some(v) = ty.variant_index {
                        self.layout(ty.ty)?.for_variant(&self.cx, v)
                    } else {
                        self.layout(ty.ty)?
                    };
                    let v = self.rvalue(st, fi, &b.1, dl)?;
                    let p = self.place(st, fi, pl)?;
                    self.write(st, &p, v)
                }
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, fi, place)?;
                self.write_discr(st, &p, *variant_index)
            }
            StatementKind::StorageLive(l) => {
                let li = l.as_usize();
                if let Slot::Mem(a) = st.frames[fi].locals[li] {
                    self.free_alloc(st, a);
                }
                st.frames[fi].locals[li] = Slot::Dead;
                let b = st.frames[fi].body.clone();
                if b.in_mem[li] {
                    let lay = b.layouts[li];
                    let a = self.new_alloc(st, lay.size.bytes(), lay.align.abi.bytes(), AKind::Mem);
                    st.frames[fi].locals[li] = Slot::Mem(a);
                }
                Ok(())
            }
            StatementKind::StorageDead(l) => {
                let li = l.as_usize();
                if let Slot::Mem(a) = st.frames[fi].locals[li] {
                    self.free_alloc(st, a);
                }
                st.frames[fi].locals[li] = Slot::Dead;
                Ok(())
            }
            StatementKind::Intrinsic(b) => match &**b {
                NonDivergingIntrinsic::Assume(o) => {
                    let v = self.operand(st, fi, o)?;
                    let l = self.bool_lit(st, &v)?;
                    self.require(st, l, "assume() of a condition that can be false")
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let ty = self.op_ty(&st.frames[fi], &c.src).builtin_deref(true).unwrap();
                    let l = self.layout(ty)?;
                    let (s, d, n) = (
                        self.operand(st, fi, &c.src)?,
                        self.operand(st, fi, &c.dst)?,
                        self.operand(st, fi, &c.count)?,
                    );
                    let n = self.word_of(st, &n)?;
                    let Some(n) = self.t.as_const(n) else { return unsup("copy of symbolic length") };
                    let (s, d) = (self.ptr_of(st, &s)?, self.ptr_of(st, &d)?);
                    self.copy_bytes(st, s, d, n as u64 * l.size.bytes(), l.align.abi.bytes(), true)
                }
            },
            _ => Ok(()),
        }
    }
    /// decide a literal, forking the state when unknown.  Returns the value on this path.
    pub fn branch(&mut self, st: &mut State<'tcx>, l: Lit) -> R<bool> {
        if let Some(v) = st.facts.decide(&mut self.t, &self.ps, l) {
            return Ok(v);
        }
        Err(Stop::Branch(l))
    }
    fn terminator(&mut self, st: &mut State<'tcx>, fi: usize, t: &mir::Terminator<'tcx>, body: &Rc<MBody<'tcx>>) -> R<()> {
        if self.trace {
            eprintln!("{}T {:?} in {}", " ".repeat(fi), t.kind, body.name);
        }
        match &t.kind {
            TerminatorKind::Goto { target, .. } => self.goto(st, *target),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target)
            }
            TerminatorKind::Return => self.pop_frame(st),
            TerminatorKind::Unreachable => Err(Stop::Ub("entered unreachable code".into())),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, fi, discr)?;
                let w = self.word_of(st, &v)?;
                if let Some(c) = self.t.as_const(w) {
                    let bb = targets.target_for_value(c);
                    return self.goto(st, bb);
                }
                let n = self.t.width(w);
                let dty = self.op_ty(&st.frames[fi], discr);
                for (val, bb) in targets.iter() {
                    let l = if dty.is_bool() {
                        let b = self.t.bits(w)[0];
                        if val == 0 {
                            b ^ 1
                        } else {
                            b
                        }
                    } else {
                        let c = self.t.cst(n, val);
                        self.cmp_eq(st, w, c)
                    };
                    if self.branch(st, l)? {
                        return self.goto(st, bb);
                    }
                }
                self.goto(st, targets.otherwise())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                self.asserts_seen += 1;
                let v = self.operand(st, fi, cond)?;
                let mut l = self.bool_lit(st, &v)?;
                if !expected {
                    l ^= 1;
                }
                let m = assert_name(msg);
                match st.facts.decide(&mut self.t, &self.ps, l) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::Panic(m)),
                    None => {
                        let mut s2 = st.clone();
                        s2.facts.assume(&mut self.t, &self.ps, l ^ 1);
                        let site = self.site(&s2);
                        self.side.push(Outcome { st: s2, kind: OutKind::Panic(m, site) });
                        st.facts.assume(&mut self.t, &self.ps, l);
                    }
                }
                self.goto(st, *target)
            }
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(st, fi, place)?;
                let ty = p.layout.ty;
                if !ty.needs_drop(self.tcx, self.env) {
                    return self.goto(st, *target);
                }
                let inst = Instance::resolve_drop_glue(self.tcx, ty);
                if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = inst.def {
                    return self.goto(st, *target);
                }
                let pv = self.place_to_ptr(&p)?;
                let pty = Ty::new_mut_ptr(self.tcx, ty);
                let pl = self.layout(pty)?;
                let unit = self.layout(self.tcx.types.unit)?;
                let dest = Place { base: Base::Local(fi, Local::from_usize(0)), off: 0, layout: unit, meta: None, packed: false };
                self.push_frame(st, inst, vec![(pv, pl)], Some(dest), Some(*target))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(&st.frames[fi], func);
                let mut av = Vec::with_capacity(args.len());
                for a in args.iter() {
                    let ty = self.op_ty(&st.frames[fi], &a.node);
                    let l = self.layout(ty)?;
                    let v = self.operand(st, fi, &a.node)?;
                    av.push((v, l));
                }
                let (inst, abi) = match fty.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        let sig = self.tcx.fn_sig(*d).skip_binder();
                        (self.resolve(*d, a)?, sig.abi())
                    }
                    ty::FnPtr(..) => {
                        let v = self.operand(st, fi, func)?;
                        let p = self.ptr_of(st, &v)?;
                        let q = self.ptrs[p.0 as usize];
                        let Some(a) = self.alloc_ref(st, q.alloc).cloned() else {
                            return unsup("call through unknown fn pointer");
                        };
                        let AKind::Fn(i) = a.kind else { return unsup("call through non-fn pointer") };
                        let sig = fty.fn_sig(self.tcx);
                        (i, sig.abi())
                    }
                    _ => return unsup(format!("call of {}", fty)),
                };
                let dest = self.place(st, fi, destination)?;
                self.call(st, inst, abi, av, dest, *target)
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => unsup("unwinding"),
            TerminatorKind::InlineAsm { .. } => unsup("inline asm"),
            k => unsup(format!("terminator {:?}", k)),
        }
    }
    pub fn call(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, abi: rustc_abi::ExternAbi, mut args: Vec<(Val, TyAndLayout<'tcx>)>, dest: Place<'tcx>, target: Option<BasicBlock>) -> R<()> {
        self.calls_seen += 1;
        let did = inst.def_id();
        // virtual dispatch
        if let ty::InstanceKind::Virtual(_, idx) = inst.def {
            let (p, m) = self.split_fat(st, &args[0].0)?;
            let vp = self.ptr_of(st, &m)?;
            let q = self.ptrs[vp.0 as usize];
            let Some(a) = self.alloc_ref(st, q.alloc).cloned() else { return unsup("unknown vtable") };
            let AKind::Vtable(cty, tr) = a.kind else { return unsup("not a vtable") };
            let Some(tr) = tr else { return unsup("vtable without principal") };
            let r = tr.with_self_ty(self.tcx, cty);
            let r = self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(r));
            let entries = self.tcx.vtable_entries(r);
            let Some(ty::VtblEntry::Method(i)) = entries.get(idx).copied() else {
                return unsup("vtable slot");
            };
            let pty = Ty::new_imm_ptr(self.tcx, cty);
            let l = self.layout(pty)?;
            args[0] = (Val::P(p), l);
            return self.call(st, i, abi, args, dest, target);
        }
        if abi == rustc_abi::ExternAbi::RustCall && !args.is_empty() {
            let (v, l) = args.pop().unwrap();
            let sz = l.size.bytes();
            for i in 0..l.fields.count() {
                let fl = l.field(&self.cx, i);
                let off = l.fields.offset(i).bytes();
                let x = if fl.size.bytes() == 0 { Val::B(Rc::new([])) } else { self.sub_val(&v, sz, off, fl.size.bytes()) };
                args.push((x, fl));
            }
        }
        // empty drop glue etc.
        if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = inst.def {
            return match target {
                Some(t) => self.goto(st, t),
                None => unsup("drop"),
            };
        }
        self.check_features(st, did)?;
        match self.hook(st, inst, &args, &dest)? {
            crate::intrin::Hooked::Val(v) => {
                self.write(st, &dest, v)?;
                return match target {
                    Some(t) => self.goto(st, t),
                    None => Err(Stop::Ub("return from diverging intrinsic".into())),
                };
            }
            crate::intrin::Hooked::Done => {
                return match target {
                    Some(t) => self.goto(st, t),
                    None => Err(Stop::Ub("return from diverging intrinsic".into())),
                };
            }
            crate::intrin::Hooked::Redirect(i, abi, a) => return self.call(st, i, abi, a, dest, target),
            crate::intrin::Hooked::No => {}
        }
        // functions that never return: panics
        if target.is_none() || self.is_diverging(inst) {
            let p = self.path(did);
            return Err(Stop::Panic(format!("call of {}", p)));
        }
        self.push_frame(st, inst, args, Some(dest), target)
    }
    fn is_diverging(&mut self, inst: Instance<'tcx>) -> bool {
        if let Some(&b) = self.diverges.get(&inst) {
            return b;
        }
        let d = match inst.def {
            ty::InstanceKind::Item(d) if !self.tcx.is_closure_like(d) => {
                let sig = self.tcx.fn_sig(d).skip_binder().skip_binder();
                sig.output().is_never()
            }
            _ => false,
        };
        self.diverges.insert(inst, d);
        d
    }
    pub fn detected_sym(&mut self, f: &str) -> Lit {
        let w = self.t.sym(&format!("detected.{}", f), 1);
        self.t.bits(w)[0]
    }
    fn check_features(&mut self, st: &mut State<'tcx>, did: DefId) -> R<()> {
        let fs = match self.feat_cache.get(&did) {
            Some(f) => f.clone(),
            None => {
                let mut v = vec![];
                if matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) {
                    for f in &self.tcx.codegen_fn_attrs(did).target_features {
                        if f.kind == rustc_middle::middle::codegen_fn_attrs::TargetFeatureKind::Enabled {
                            v.push(f.name.to_string());
                        }
                    }
                }
                let v = Rc::new(v);
                self.feat_cache.insert(did, v.clone());
                v
            }
        };
        if fs.is_empty() {
            return Ok(());
        }
        self.feature_checks += 1;
        if fs.iter().any(|f| !st.used.contains(f)) {
            let u = Rc::make_mut(&mut st.used);
            for f in fs.iter() {
                u.insert(f.clone());
            }
        }
        for f in fs.iter() {
            if self.session_features.contains(f) || st.features.contains(f) {
                continue;
            }
            let l = self.detected_sym(f);
            if st.facts.decide(&mut self.t, &self.ps, l) == Some(true) {
                // detected features imply their prerequisites
                continue;
            }
            let mut ok = false;
            for g in ["avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3"] {
                let lg = self.detected_sym(g);
                let have = st.features.iter().any(|x| x == g)
                    || st.facts.decide(&mut self.t, &self.ps, lg) == Some(true);
                if have {
                    let imp = self.tcx.implied_target_features(rustc_span::Symbol::intern(g));
                    if imp.iter().any(|s| s.as_str() == f) {
                        ok = true;
                    }
                }
            }
            if !ok {
                let p = self.path(did);
                return Err(Stop::Feature(format!(
                    "call of {} which requires target feature {} that is neither enabled nor detected on this path",
                    p, f
                )));
            }
        }
        Ok(())
    }

    /// run until all frames are gone
    pub fn run(&mut self, st: State<'tcx>) -> Vec<Outcome<'tcx>> {
        let mut out = self.run_inner(st);
        self.t.cur_prov = 0;
        out.append(&mut self.side);
        out
    }
    pub fn run_inner(&mut self, st: State<'tcx>) -> Vec<Outcome<'tcx>> {
        let mut out = vec![];
        let mut work = vec![st];
        let mut paths = 0;
        while let Some(mut st) = work.pop() {
            paths += 1;
            if paths > self.max_paths {
                let site = self.site(&st);
                out.push(Outcome { st, kind: OutKind::Unsup("too many paths".into(), site) });
                break;
            }
            let kind = loop {
                if st.frames.is_empty() {
                    break OutKind::Ok(st.ret.take());
                }
                match self.step(&mut st) {
                    Ok(()) => {
                        if let Some((fi, bb)) = self.long.take() {
                            self.summarise_long(&mut st, fi, bb);
                        }
                    }
                    Err(Stop::Unsup(s)) => break OutKind::Unsup(s, self.site(&st)),
                    Err(Stop::Panic(s)) => break OutKind::Panic(s, self.site(&st)),
                    Err(Stop::Ub(s)) => break OutKind::Ub(s, self.site(&st)),
                    Err(Stop::Feature(s)) => break OutKind::Feature(s, self.site(&st)),
                    Err(Stop::AtHead) => break OutKind::Head,
                    Err(Stop::Exit) => break OutKind::Exit,
                    Err(Stop::Branch(l)) => {
                        if self.sym_mode {
                            match self.try_summarise(&mut st, l) {
                                Ok(true) => continue,
                                Ok(false) => {}
                                Err(e) => break OutKind::Unsup(e, self.site(&st)),
                            }
                        }
                        let mut s2 = st.clone();
                        s2.facts.assume(&mut self.t, &self.ps, l ^ 1);
                        st.facts.assume(&mut self.t, &self.ps, l);
                        work.push(s2);
                    }
                }
            };
            out.push(Outcome { st, kind });
        }
        out
    }
    /// call an instance with the given argument values in a frame-less state
    pub fn invoke(&mut self, mut st: State<'tcx>, inst: Instance<'tcx>, args: Vec<Val>) -> Vec<Outcome<'tcx>> {
        st.steps = 0;
        st.ret = None;
        let b = match self.body(inst) {
            Ok(b) => b,
            Err(e) => return vec![Outcome { st, kind: OutKind::Unsup(format!("{:?}", e), String::new()) }],
        };
        let a = args.into_iter().enumerate().map(|(i, v)| (v, b.layouts[i + 1])).collect();
        match self.push_frame(&mut st, inst, a, None, None) {
            Ok(()) => self.run(st),
            Err(e) => vec![Outcome { st, kind: OutKind::Unsup(format!("{:?}", e), String::new()) }],
        }
    }
}

fn assert_name<O: std::fmt::Debug>(m: &mir::AssertKind<O>) -> String {
    use mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
        OverflowNeg(_) => "arithmetic overflow (neg)".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder by zero".into(),
        MisalignedPointerDereference { .. } => "misaligned pointer dereference".into(),
        NullPointerDereference => "null pointer dereference".into(),
        _ => "assertion".into(),
    }
}

fn always_live(b: &Body<'_>) -> Vec<bool> {
    let mut v = vec![true; b.local_decls.len()];
    for bb in b.basic_blocks.iter() {
        for s in &bb.statements {
            match s.kind {
                StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => v[l.as_usize()] = false,
                _ => {}
            }
        }
    }
    v
}

#[allow(unused)]
fn _unused(_: FieldIdx, _: Size) {}

/// a shard gives up when it holds this much memory
pub const MEM_MB: u64 = 3300;

pub fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
}
