//! Loop summaries for symbolic trip counts.
//!
//! A loop whose exit depends on a symbolic length is summarised by an invariant inferred from three
//! consecutive loop-head states: every pointer, length and counter must advance by a constant, and
//! every literal of the hash state must be the corresponding literal of the state sequence ("chain")
//! one packet further on.  The invariant is then *verified*: one abstract iteration from the general
//! state at K must reach exactly the general state at K+1, without leaving the loop, for every K
//! below the exit count that the exit condition yields.

use crate::facts::*;
use crate::interp::*;
use crate::spec;
use crate::term::*;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_middle::mir::BasicBlock;
use std::rc::Rc;

/// Rewriting of update results to atoms of the chain.
#[derive(Default, Clone)]
pub struct Folder {
    pub chain: u16,
    pub stream: u32,
    /// node -> (offset of the state, lane, bit, negated)
    pub map: Rc<FxHashMap<u32, (W, u8, u8, bool)>>,
    pub clash: Rc<FxHashSet<u32>>,
    pub known: Rc<FxHashSet<W>>,
    /// where the registered states start
    pub bases: Rc<Vec<(W, [W; 16])>>,
    /// index atoms
    pub index: Rc<FxHashSet<Atom>>,
}

const SEVERAL: &str = "the loop takes several packets at a time";

#[derive(Clone)]
enum GL {
    Lit(Lit),
    /// offset word (generalised), lane, bit, negated
    Lane(GW, u8, u8, bool),
    Stream(u32, GW, u16, bool),
}
#[derive(Clone)]
enum GW {
    Const(W),
    Affine(W, i128),
    Bits(Rc<Vec<GL>>),
}
type Memo = FxHashMap<(W, W, W), Option<GW>>;

impl<'tcx> Interp<'tcx> {
    /// register lanes `ls`, the state of the chain at `off`
    pub fn fold_register(&mut self, off: W, ls: &[W; 16]) {
        let Some(mut f) = self.fold.take() else { return };
        {
            let map = Rc::make_mut(&mut f.map);
            let clash = Rc::make_mut(&mut f.clash);
            for (i, &w) in ls.iter().enumerate() {
                let bits = self.t.bits(w);
                for (j, &l) in bits.iter().enumerate() {
                    if l <= 1 {
                        continue;
                    }
                    let n = l >> 1;
                    if clash.contains(&n) {
                        continue;
                    }
                    let e = (off, i as u8, j as u8, l & 1 == 1);
                    match map.get(&n) {
                        Some(x) if *x != e => {
                            map.remove(&n);
                            clash.insert(n);
                        }
                        Some(_) => {}
                        None => {
                            map.insert(n, e);
                        }
                    }
                }
            }
        }
        self.fold = Some(f);
    }
    fn packet_at(&mut self, stream: u32, off: W) -> [W; 4] {
        let n = self.t.width(off);
        let b: Vec<W> = (0..32)
            .map(|i| {
                let c = self.t.cst(n, i);
                let o = self.t.add(off, c);
                self.t.stream(stream, o)
            })
            .collect();
        spec::packet(&mut self.t, &b)
    }
    /// lanes of the chain at `off` as atoms, and register their successors
    pub fn fold_step(&mut self, off: W) {
        let Some(f) = self.fold.clone() else { return };
        if f.known.contains(&off) {
            return;
        }
        Rc::make_mut(&mut self.fold.as_mut().unwrap().known).insert(off);
        let mut l = self.t.lanes_at(f.chain, off);
        let l0 = l;
        self.fold_register(off, &l0);
        let p = self.packet_at(f.stream, off);
        spec::update(&mut self.t, &mut l, &p);
        let n = self.t.width(off);
        let c = self.t.cst(n, 32);
        let mut nx = self.t.add(off, c);
        self.fold_register(nx, &l);
        for _ in 1..self.fold_ahead {
            let p = self.packet_at(f.stream, nx);
            spec::update(&mut self.t, &mut l, &p);
            nx = self.t.add(nx, c);
            self.fold_register(nx, &l);
        }
    }
    /// start a chain: `lanes0` is the state when the stream is at `off0`
    pub fn fold_begin(&mut self, stream: u32, off0: W, lanes0: [W; 16], index: &[W]) {
        // reuse an identical chain
        let id = self.t.chains.iter().position(|c| c.stream == stream && c.off0 == off0 && c.lanes0 == lanes0);
        let id = id.unwrap_or_else(|| {
            self.t.chains.push(Chain { stream, off0, lanes0 });
            self.t.chains.len() - 1
        }) as u16;
        let mut idx: FxHashSet<Atom> = Default::default();
        for &w in index {
            self.t.deep_atoms(w, &mut idx);
        }
        self.fold = Some(Folder { chain: id, stream, index: Rc::new(idx), bases: Rc::new(vec![(off0, lanes0)]), ..Default::default() });
        // the first states of the chain in their own form
        let mut l = lanes0;
        let mut off = off0;
        let n = self.t.width(off);
        for _ in 0..14 {
            let p = self.packet_at(stream, off);
            spec::update(&mut self.t, &mut l, &p);
            let c = self.t.cst(n, 32);
            off = self.t.add(off, c);
            self.fold_register(off, &l);
        }
    }
    /// states reached from the chain state at `off` by `n` updates, in their own form
    pub fn fold_unroll(&mut self, off: W, n: usize) {
        let Some(f) = self.fold.clone() else { return };
        let mut l = self.t.lanes_at(f.chain, off);
        {
            Rc::make_mut(&mut self.fold.as_mut().unwrap().bases).push((off, l));
        }
        let mut off = off;
        let wd = self.t.width(off);
        self.fold_register(off, &l);
        for _ in 0..n {
            let p = self.packet_at(f.stream, off);
            spec::update(&mut self.t, &mut l, &p);
            let c = self.t.cst(wd, 32);
            off = self.t.add(off, c);
            self.fold_register(off, &l);
        }
    }
    /// a loop of constant length that runs for long: the states it has passed are registered, and
    /// the rest of its iterations are summarised where that is possible
    pub fn summarise_long(&mut self, st: &mut State<'tcx>, fi: usize, hb: BasicBlock) {
        let Some(f) = self.fold.clone() else { return };
        for &(off, mut l) in f.bases.iter() {
            let mut off = off;
            let n = self.t.width(off);
            for _ in 0..LONG + 2 {
                let p = self.packet_at(f.stream, off);
                spec::update(&mut self.t, &mut l, &p);
                let c = self.t.cst(n, 32);
                off = self.t.add(off, c);
                self.fold_register(off, &l);
            }
        }
        let snaps = st.frames[fi].heads.get(&hb).cloned().unwrap_or_default();
        if snaps.len() < 3 || st.frames[fi].accel.contains(&hb) {
            return;
        }
        match self.summarise(st, fi, hb, &snaps) {
            Ok(s) => {
                *st = s;
                self.summaries += 1;
            }
            Err(e) => {
                if self.trace_loops {
                    eprintln!("no summary of a long loop: {}", e);
                }
            }
        }
    }
    /// replace literals of known chain states by chain atoms
    pub fn fold_word(&mut self, w: W) -> W {
        let Some(f) = self.fold.clone() else { return w };
        let b = self.t.bits(w);
        if !b.iter().any(|&l| f.map.contains_key(&(l >> 1))) {
            return w;
        }
        let v: Vec<Lit> = b
            .iter()
            .map(|&l| match f.map.get(&(l >> 1)) {
                Some(&(off, i, j, neg)) if l > 1 => {
                    let lw = self.t.lane(f.chain, off, i);
                    self.t.bits(lw)[j as usize] ^ (l & 1) ^ neg as u32
                }
                _ => l,
            })
            .collect();
        self.t.word(&v)
    }
    /// canonicalise the contents of an object
    pub fn fold_object(&mut self, st: &mut State<'tcx>, a: u32) {
        if self.fold.is_none() {
            return;
        }
        let bytes = st.mem[a as usize].as_ref().unwrap().bytes.clone();
        let mut memo: FxHashMap<W, W> = Default::default();
        let nb: Vec<Byte> = bytes
            .iter()
            .map(|&b| match b {
                Byte::W(w, i) => {
                    let x = match memo.get(&w) {
                        Some(&x) => x,
                        None => {
                            let x = self.fold_word(w);
                            memo.insert(w, x);
                            x
                        }
                    };
                    Byte::W(x, i)
                }
                b => b,
            })
            .collect();
        Rc::make_mut(st.mem[a as usize].as_mut().unwrap()).bytes = nb;
    }

    // ------------------------------------------------------------ generalisation
    fn const_diff(&mut self, a: W, b: W) -> Option<i128> {
        let n = self.t.width(a);
        if n != self.t.width(b) || n > 64 {
            return None;
        }
        let d = self.t.sub(b, a);
        self.t.as_const(d).map(|c| signed(c, n))
    }
    fn gen_word(&mut self, memo: &mut Memo, a: W, b: W, c: W) -> Option<GW> {
        if a == b && b == c {
            return Some(GW::Const(a));
        }
        if let Some(r) = memo.get(&(a, b, c)) {
            return r.clone();
        }
        let r = self.gen_word_u(memo, a, b, c);
        memo.insert((a, b, c), r.clone());
        r
    }
    fn gen_word_u(&mut self, memo: &mut Memo, a: W, b: W, c: W) -> Option<GW> {
        let n = self.t.width(a);
        if n != self.t.width(b) || n != self.t.width(c) {
            return None;
        }
        if let (Some(d1), Some(d2)) = (self.const_diff(a, b), self.const_diff(b, c)) {
            if d1 == d2 && d1 != 0 {
                return Some(GW::Affine(a, d1));
            }
        }
        let f = self.fold.clone()?;
        let (x, y, z) = (self.t.bits(a), self.t.bits(b), self.t.bits(c));
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let (la, lb, lc) = (x[i], y[i], z[i]);
            if la == lb && lb == lc {
                out.push(GL::Lit(la));
                continue;
            }
            if let (Some(p), Some(q), Some(r)) = (f.map.get(&(la >> 1)), f.map.get(&(lb >> 1)), f.map.get(&(lc >> 1))) {
                let same = |u: &(W, u8, u8, bool), l: Lit| (u.1, u.2, u.3 ^ (l & 1 == 1));
                if same(p, la) == same(q, lb) && same(q, lb) == same(r, lc) {
                    let (p, q, r) = (*p, *q, *r);
                    let g = self.gen_word(memo, p.0, q.0, r.0)?;
                    out.push(GL::Lane(g, p.1, p.2, p.3 ^ (la & 1 == 1)));
                    continue;
                }
                return None;
            }
            let nb = |t: &Terms, l: Lit| match &t.nodes[(l >> 1) as usize] {
                Node::Bit(at, j) => match &t.atoms[at.0 as usize] {
                    AtomKind::Stream(id, o) => Some((*id, *o, *j, l & 1 == 1)),
                    _ => None,
                },
                _ => None,
            };
            let (p, q, r) = (nb(&self.t, la)?, nb(&self.t, lb)?, nb(&self.t, lc)?);
            if (p.0, p.2, p.3) == (q.0, q.2, q.3) && (q.0, q.2, q.3) == (r.0, r.2, r.3) {
                let g = self.gen_word(memo, p.1, q.1, r.1)?;
                out.push(GL::Stream(p.0, g, p.2, p.3));
                continue;
            }
            return None;
        }
        Some(GW::Bits(Rc::new(out)))
    }
    fn inst_word(&mut self, g: &GW, k: W) -> W {
        match g {
            GW::Const(w) => *w,
            GW::Affine(b, s) => {
                let n = self.t.width(*b);
                let kn = if self.t.width(k) >= n { self.t.extract(k, 0, n) } else { self.t.zext(k, n) };
                let c = self.t.cst(n, *s as u128 & mask(n));
                let m = self.t.mul(kn, c);
                self.t.add(*b, m)
            }
            GW::Bits(ls) => {
                let ch = self.fold.as_ref().unwrap().chain;
                let mut v = Vec::with_capacity(ls.len());
                let mut last: Option<(usize, W)> = None;
                for g in ls.iter() {
                    let l = match g {
                        GL::Lit(l) => *l,
                        GL::Lane(o, i, j, neg) => {
                            let ow = self.inst_word(o, k);
                            let lw = self.t.lane(ch, ow, *i);
                            self.t.bits(lw)[*j as usize] ^ *neg as u32
                        }
                        GL::Stream(id, o, j, neg) => {
                            let ow = self.inst_word(o, k);
                            let sw = self.t.stream(*id, ow);
                            self.t.bits(sw)[*j as usize] ^ *neg as u32
                        }
                    };
                    last = last.or(None);
                    v.push(l);
                }
                self.t.word(&v)
            }
        }
    }
    fn gi(&mut self, memo: &mut Memo, inst: &mut FxHashMap<(W, W, W), Option<W>>, a: W, b: W, c: W, k: W) -> Option<W> {
        if a == b && b == c {
            return Some(a);
        }
        if let Some(r) = inst.get(&(a, b, c)) {
            return *r;
        }
        let r = self.gen_word(memo, a, b, c).map(|g| self.inst_word(&g, k));
        inst.insert((a, b, c), r);
        r
    }
    fn g_ptr(&mut self, memo: &mut Memo, inst: &mut FxHashMap<(W, W, W), Option<W>>, a: P, b: P, c: P, k: W) -> Option<P> {
        if a == b && b == c {
            return Some(a);
        }
        let (x, y, z) = (self.ptrs[a.0 as usize], self.ptrs[b.0 as usize], self.ptrs[c.0 as usize]);
        if x.alloc != y.alloc || y.alloc != z.alloc {
            return None;
        }
        let o = self.gi(memo, inst, x.off, y.off, z.off, k)?;
        Some(self.ptr(Ptr { alloc: x.alloc, off: o }))
    }
    fn g_byte(&mut self, memo: &mut Memo, inst: &mut FxHashMap<(W, W, W), Option<W>>, a: Byte, b: Byte, c: Byte, k: W) -> Byte {
        if a == b && b == c {
            return a;
        }
        match (a, b, c) {
            (Byte::W(x, i), Byte::W(y, j), Byte::W(z, l)) if i == j && j == l => match self.gi(memo, inst, x, y, z, k) {
                Some(w) => Byte::W(w, i),
                None => Byte::Poison,
            },
            (Byte::P(x, i), Byte::P(y, j), Byte::P(z, l)) if i == j && j == l => match self.g_ptr(memo, inst, x, y, z, k) {
                Some(p) => Byte::P(p, i),
                None => Byte::Poison,
            },
            _ => Byte::Poison,
        }
    }
    fn g_val(&mut self, memo: &mut Memo, inst: &mut FxHashMap<(W, W, W), Option<W>>, a: &Val, b: &Val, c: &Val, size: u64, k: W) -> Val {
        if a == b && b == c {
            return a.clone();
        }
        match (a, b, c) {
            (Val::W(x), Val::W(y), Val::W(z)) => {
                if let Some(w) = self.gi(memo, inst, *x, *y, *z, k) {
                    return Val::W(w);
                }
            }
            (Val::P(x), Val::P(y), Val::P(z)) => {
                if let Some(p) = self.g_ptr(memo, inst, *x, *y, *z, k) {
                    return Val::P(p);
                }
            }
            _ => {}
        }
        let (p, q, r) = (self.val_bytes(a, size), self.val_bytes(b, size), self.val_bytes(c, size));
        let v: Vec<Byte> = (0..size as usize).map(|i| self.g_byte(memo, inst, p[i], q[i], r[i], k)).collect();
        self.bytes_val(&v)
    }
    fn inst_state(&mut self, memo: &mut Memo, s: &[Rc<State<'tcx>>; 3], k: W, at: (usize, BasicBlock)) -> Result<State<'tcx>, String> {
        let mut inst: FxHashMap<(W, W, W), Option<W>> = Default::default();
        let (a, b, c) = (&s[0], &s[1], &s[2]);
        let mut r = (**c).clone();
        r.facts = a.facts.clone();
        if a.frames.len() != b.frames.len() || b.frames.len() != c.frames.len() {
            return Err("frame stacks differ".into());
        }
        if a.mem.len() != c.mem.len() || a.free != b.free || b.free != c.free || b.mem.len() != c.mem.len() {
            return Err("allocations differ".into());
        }
        for i in 0..r.mem.len() {
            let (x, y, z) = match (&a.mem[i], &b.mem[i], &c.mem[i]) {
                (None, None, None) => continue,
                (Some(x), Some(y), Some(z)) => (x.clone(), y.clone(), z.clone()),
                _ => return Err("allocations differ".into()),
            };
            if Rc::ptr_eq(&x, &y) && Rc::ptr_eq(&y, &z) {
                continue;
            }
            if x.kind != y.kind || y.kind != z.kind || x.bytes.len() != y.bytes.len() || y.bytes.len() != z.bytes.len() {
                return Err("allocation kinds differ".into());
            }
            let n: Vec<Byte> = (0..x.bytes.len())
                .map(|j| self.g_byte(memo, &mut inst, x.bytes[j], y.bytes[j], z.bytes[j], k))
                .collect();
            Rc::make_mut(r.mem[i].as_mut().unwrap()).bytes = n;
        }
        for (key, v) in c.statics.iter() {
            if a.statics.get(key).map(|x| &x.bytes) != Some(&v.bytes) || b.statics.get(key).map(|x| &x.bytes) != Some(&v.bytes) {
                return Err("static memory changes in the loop".into());
            }
        }
        for fi in 0..r.frames.len() {
            let (x, y, z) = (&a.frames[fi], &b.frames[fi], &c.frames[fi]);
            if x.body.id != y.body.id || y.body.id != z.body.id || x.bb != y.bb || y.bb != z.bb || x.stmt != z.stmt {
                return Err("frames differ".into());
            }
            for li in 0..x.locals.len() {
                if fi == at.0 && x.body.dead.get(&at.1).is_some_and(|d| d[li]) {
                    if let Slot::Val(_) = &x.locals[li] {
                        let sz = x.body.layouts[li].size.bytes() as usize;
                        r.frames[fi].locals[li] = Slot::Val(self.bytes_val(&vec![Byte::Poison; sz]));
                        continue;
                    }
                }
                let n = match (&x.locals[li], &y.locals[li], &z.locals[li]) {
                    (p, q, r) if p == q && q == r => p.clone(),
                    (Slot::Val(p), Slot::Val(q), Slot::Val(r)) => {
                        let sz = x.body.layouts[li].size.bytes();
                        Slot::Val(self.g_val(memo, &mut inst, p, q, r, sz, k))
                    }
                    _ => return Err("local storage differs".into()),
                };
                r.frames[fi].locals[li] = n;
            }
        }
        Ok(r)
    }
    fn cmp_byte(&mut self, fm: &mut FxHashMap<W, W>, x: Byte, y: Byte) -> bool {
        if x == y || y == Byte::Poison {
            return true;
        }
        match (x, y) {
            (Byte::W(a, i), Byte::W(b, j)) => {
                // compare the eight bits
                let a = self.fold_memo(fm, a);
                let (p, q) = (self.t.bits(a), self.t.bits(b));
                let (i, j) = (8 * i as usize, 8 * j as usize);
                i + 8 <= p.len() && j + 8 <= q.len() && p[i..i + 8] == q[j..j + 8]
            }
            _ => false,
        }
    }
    fn fold_memo(&mut self, fm: &mut FxHashMap<W, W>, w: W) -> W {
        if let Some(&x) = fm.get(&w) {
            return x;
        }
        let x = self.fold_word(w);
        fm.insert(w, x);
        x
    }
    /// does `x` (computed) fit the general state `y`?
    fn covers(&mut self, x: &State<'tcx>, y: &State<'tcx>) -> Result<(), String> {
        let mut fm: FxHashMap<W, W> = Default::default();
        if x.frames.len() != y.frames.len() || x.mem.len() != y.mem.len() || x.free != y.free {
            return Err("shape of the state changes".into());
        }
        for i in 0..x.mem.len() {
            let (p, q) = match (&x.mem[i], &y.mem[i]) {
                (None, None) => continue,
                (Some(p), Some(q)) => (p.clone(), q.clone()),
                _ => return Err("allocations change".into()),
            };
            if Rc::ptr_eq(&p, &q) {
                continue;
            }
            if p.kind != q.kind || p.bytes.len() != q.bytes.len() {
                return Err("allocations change".into());
            }
            for j in 0..p.bytes.len() {
                if !self.cmp_byte(&mut fm, p.bytes[j], q.bytes[j]) {
                    return Err(format!("memory object {} byte {} does not fit the invariant", i, j));
                }
            }
        }
        for (key, v) in x.statics.iter() {
            if y.statics.get(key).map(|z| &z.bytes) != Some(&v.bytes) {
                return Err("static memory changes in the loop".into());
            }
        }
        for fi in 0..x.frames.len() {
            for li in 0..x.frames[fi].locals.len() {
                let (p, q) = (&x.frames[fi].locals[li], &y.frames[fi].locals[li]);
                if p == q {
                    continue;
                }
                match (p, q) {
                    (Slot::Val(p), Slot::Val(q)) => {
                        let sz = x.frames[fi].body.layouts[li].size.bytes();
                        let (p, q) = (self.val_bytes(p, sz), self.val_bytes(q, sz));
                        for j in 0..sz as usize {
                            if !self.cmp_byte(&mut fm, p[j], q[j]) {
                                return Err(format!(
                                    "local _{} of {} does not fit the invariant",
                                    li, x.frames[fi].body.name
                                ));
                            }
                        }
                    }
                    _ => return Err("local storage changes".into()),
                }
            }
        }
        Ok(())
    }
    /// run one loop body from a head state; outcomes that stay in the loop stop at the head
    fn run_body(&mut self, mut g: State<'tcx>, fi: usize, hb: BasicBlock) -> Vec<Outcome<'tcx>> {
        g.stop_at = Some((fi, hb));
        g.steps = 0;
        for f in g.frames.iter_mut() {
            f.heads = Default::default();
        }
        let sm = std::mem::replace(&mut self.sym_mode, false);
        let side = std::mem::take(&mut self.side);
        let mut r = self.run_inner(g);
        r.append(&mut self.side);
        self.side = side;
        self.sym_mode = sm;
        r
    }

    pub fn try_summarise(&mut self, st: &mut State<'tcx>, l: Lit) -> Result<bool, String> {
        let Some(f) = self.fold.clone() else { return Ok(false) };
        // only branches on the symbolic lengths
        let mut at: FxHashSet<Atom> = Default::default();
        self.t.deep_atoms_lit(l, &mut at);
        if let Some(&(_, a, b, _)) = self.ps.get(&(l >> 1)) {
            self.t.deep_atoms(a, &mut at);
            self.t.deep_atoms(b, &mut at);
        }
        if !at.iter().any(|a| f.index.contains(a)) {
            return Ok(false);
        }
        let mut errs: Vec<String> = vec![];
        for fi in (0..st.frames.len()).rev() {
            let heads = st.frames[fi].heads.clone();
            let bb = st.frames[fi].bb;
            let body = st.frames[fi].body.clone();
            let mut hs: Vec<BasicBlock> = heads
                .keys()
                .copied()
                .filter(|h| {
                    heads[h].len() >= 3
                        && !st.frames[fi].accel.contains(h)
                        && body.loops.get(h).map_or(false, |s| s[bb.as_usize()])
                })
                .collect();
            hs.sort_by_key(|h| (body.loops[h].iter().filter(|x| **x).count(), h.as_usize()));
            for hb in hs {
                match self.summarise(st, fi, hb, &heads[&hb]) {
                    Ok(s) => {
                        *st = s;
                        self.summaries += 1;
                        return Ok(true);
                    }
                    Err(e) => {
                        if e == SEVERAL && self.fold_ahead == 1 {
                            return Err(e);
                        }
                        errs.push(format!("{}: {}", body.name, e))
                    }
                }
            }
        }
        if self.trace_loops {
            let p = self.ps.get(&(l >> 1)).map(|&(k, a, b, _)| format!("{:?} {} {}", k as u8, self.t.show_word(a), self.t.show_word(b)));
            eprintln!("no summary: {:?} on {:?} at {} trail {}", errs, p, self.site(st), st.facts.trail.len());
        }
        for e in errs {
            if self.loop_failures.len() < 20 {
                self.loop_failures.insert(e);
            }
        }
        Ok(false)
    }
    fn summarise(&mut self, st: &State<'tcx>, fi: usize, hb: BasicBlock, snaps: &[Rc<State<'tcx>>]) -> Result<State<'tcx>, String> {
        let n = snaps.len();
        let s = [snaps[n - 3].clone(), snaps[n - 2].clone(), snaps[n - 1].clone()];
        if s[0].facts.trail.len() != st.facts.trail.len() {
            return Err("path facts were assumed inside the loop".into());
        }
        let mut memo: Memo = Default::default();
        let kname = format!("trip#{}", self.t.ranges.len());
        let mut kw = self.pbits - 6;
        let mut khi = (1u128 << (kw - 1)) - 1;
        let k = self.t.sym(&kname, kw);
        if let Node::Bit(a, 0) = self.t.nodes[(self.t.bits(k)[0] >> 1) as usize] {
            self.t.ranges.insert(a, (0, khi));
        }
        let mut kz = self.t.zext(k, self.pbits);
        let one = self.t.cst(self.pbits, 1);
        let mut k1 = self.t.add(kz, one);
        let mut g = self.inst_state(&mut memo, &s, kz, (fi, hb))?;
        // counters of a narrower type: as long as they do not wrap
        let narrow: Option<u128> = memo
            .values()
            .flatten()
            .filter_map(|g| match g {
                GW::Affine(b, step) if *step > 0 && (16..self.pbits).contains(&self.t.width(*b)) => {
                    let n = self.t.width(*b);
                    let b = self.t.as_const(*b)?;
                    let top = (1u128 << (n - 1)) - 1;
                    (b < top).then(|| (top - b) / *step as u128)
                }
                _ => None,
            })
            .min();
        if let Some(h) = narrow.filter(|h| *h < khi && *h > 1) {
            khi = h;
            kw = 129 - (h.leading_zeros() as usize);
            let k = self.t.sym(&format!("{}n{}", kname, h), kw);
            if let Node::Bit(a, 0) = self.t.nodes[(self.t.bits(k)[0] >> 1) as usize] {
                self.t.ranges.insert(a, (0, khi));
            }
            kz = self.t.zext(k, self.pbits);
            k1 = self.t.add(kz, one);
            g = self.inst_state(&mut memo, &s, kz, (fi, hb))?;
        }
        // lane offsets in use: prepare their successors
        let gws: Vec<GW> = memo.values().flatten().cloned().collect();
        let mut offs: Vec<W> = vec![];
        for g in &gws {
            if let GW::Bits(ls) = g {
                for x in ls.iter() {
                    if let GL::Lane(o, ..) = x {
                        let w = self.inst_word(o, kz);
                        if !offs.contains(&w) {
                            offs.push(w);
                        }
                    }
                }
            }
        }
        let saved = self.fold.clone();
        for o in &offs {
            self.fold_step(*o);
        }
        // first pass: find the exit count
        let kleaf = {
            let l = self.t.lin_of(kz);
            if l.0.len() != 1 {
                return Err("trip symbol".into());
            }
            l.0[0].0
        };
        // (hypothesis for the probe only: decreasing quantities have not wrapped)
        let mut g1 = g.clone();
        for w in &gws {
            if let GW::Affine(b, step) = w {
                if *step < 0 && self.t.width(*b) == self.pbits {
                    if let Some(mut e) = st.facts.int_lin(&mut self.t, *b) {
                        e.ts.push((kleaf, *step));
                        e.ts.sort_unstable_by_key(|x| x.0);
                        g1.facts.add_ineq(e);
                    }
                }
            }
        }
        let base_n = g1.facts.ineqs.len();
        let probe = self.run_body(g1, fi, hb);
        let mut cand: Option<Lin> = None;
        let mut several = false;
        for o in &probe {
            if matches!(o.kind, OutKind::Exit) {
                for e in o.st.facts.ineqs.iter().skip(base_n) {
                    if let Some(c) = e.ts.iter().find(|x| x.0 == kleaf) {
                        if c.1 > 1 {
                            several = true;
                        }
                        if c.1 == 1 {
                            // k >= -(e - k)
                            let mut r = Lin::cst(0).sub(e).ok_or("overflow")?;
                            r.ts.retain(|x| x.0 != kleaf);
                            if cand.is_none() {
                                cand = Some(r);
                            }
                        }
                    }
                }
            }
        }
        let Some(kx) = cand else {
            self.fold = saved;
            if several {
                return Err(SEVERAL.into());
            }
            let ks: Vec<String> = probe.iter().map(|o| format!("{:?}", o.kind)).collect();
            return Err(format!("no exit condition of the form k >= e: {:?}", ks));
        };
        // second pass: 0 <= k < kx must stay in the loop and preserve the invariant
        let mut g2 = g.clone();
        let e = {
            let mut e = kx.clone();
            e.ts.push((kleaf, -1));
            e.ts.sort_unstable_by_key(|x| x.0);
            e.c -= 1;
            e
        };
        g2.facts.add_ineq(e);
        let outs = self.run_body(g2, fi, hb);
        let want = self.inst_state(&mut memo, &s, k1, (fi, hb))?;
        let mut heads = 0;
        for o in outs {
            match o.kind {
                OutKind::Head => {
                    heads += 1;
                    if let Err(e) = self.covers(&o.st, &want) {
                        self.fold = saved;
                        return Err(e);
                    }
                }
                OutKind::Panic(a, b) | OutKind::Ub(a, b) | OutKind::Feature(a, b) => {
                    self.fold = saved;
                    return Err(format!("loop body may fail: {} at {}", a, b));
                }
                OutKind::Exit => {
                    self.fold = saved;
                    return Err("loop has another exit".into());
                }
                OutKind::Unsup(a, b) => {
                    self.fold = saved;
                    return Err(format!("{} at {}", a, b));
                }
                OutKind::Ok(_) => {
                    self.fold = saved;
                    return Err("loop body returns".into());
                }
            }
        }
        if heads == 0 {
            self.fold = saved;
            return Err("loop body never returns to its head".into());
        }
        // the observed iterations are below the exit count
        let mut e = kx.clone();
        e.c -= 2;
        match st.facts.min(&self.t, &e, 2) {
            Some(m) if m >= 0 => {}
            _ => {
                self.fold = saved;
                return Err("exit count not known to exceed the observed iterations".into());
            }
        }
        // ... and the exit count is in the range of the trip symbol
        if khi < (1u128 << (self.pbits - 7)) - 1 {
            match Lin::cst(khi as i128 + 1).sub(&kx).and_then(|e| st.facts.min(&self.t, &e, 2)) {
                Some(m) if m >= 0 => {}
                _ => {
                    self.fold = saved;
                    return Err("exit count out of the range of a narrow counter".into());
                }
            }
        }
        let kxw = self.lin_word(&kx, self.pbits);
        let mut r = self.inst_state(&mut memo, &s, kxw, (fi, hb))?;
        // what follows the loop may take another packet
        let mut after: Vec<W> = vec![];
        for g in &gws {
            if let GW::Bits(ls) = g {
                for x in ls.iter() {
                    if let GL::Lane(o, ..) = x {
                        let w = self.inst_word(o, kxw);
                        if !after.contains(&w) {
                            after.push(w);
                        }
                    }
                }
            }
        }
        for o in after {
            self.fold_step(o);
        }
        r.facts = st.facts.clone();
        r.steps = st.steps;
        r.stop_at = st.stop_at;
        r.loops_seen += 1;
        // frames keep their own book-keeping
        for i in 0..r.frames.len() {
            r.frames[i].heads = if i < fi { st.frames[i].heads.clone() } else { Default::default() };
            r.frames[i].accel = st.frames[i].accel.clone();
        }
        Rc::make_mut(&mut r.frames[fi].accel).insert(hb);
        Ok(r)
    }
    /// index symbol with a declared lower bound
    pub fn index_sym(&mut self, name: &str, lo: u64, spare: usize) -> W {
        let n = self.pbits - spare;
        let w = self.t.sym(name, n);
        if let Node::Bit(a, 0) = self.t.nodes[(self.t.bits(w)[0] >> 1) as usize] {
            self.t.ranges.insert(a, (lo as u128, (1u128 << (n - 1)) - 1));
        }
        w
    }
    /// 32*q + r
    pub fn len_word(&mut self, q: W, r: u64) -> W {
        let z = self.t.zext(q, self.pbits);
        let z = self.t.shl_c(z, 5);
        let c = self.usize_w(r);
        self.t.add(z, c)
    }
    pub fn lin_word(&mut self, e: &Lin, n: usize) -> W {
        let m = mask(n);
        let ts = e.ts.iter().map(|&(w, q)| (w, q as u128 & m)).collect();
        self.t.from_lin(ts, e.c as u128 & m, n)
    }
}
