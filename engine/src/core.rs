//! Closure: an inductive argument over every history of a hasher.
//!
//! For a hasher type (and, for the detecting type, for each of its dispatch paths) and each number
//! r < 32 of pending bytes there is a template T_r: the object that restoring a checkpoint with
//! symbolic lanes L and symbolic pending bytes P produces, with the bytes that can be left over
//! from earlier data ("stale" bytes) replaced by unknowns.  The obligations are
//!   - every constructor returns an instance of some T_r that stands for the right (L, P);
//!   - every operation on T_r, for every input length, succeeds and leaves an instance of the
//!     template that stands for the state the reference semantics gives;
//!   - every result computed from T_r is the reference result for (L, P), whatever the stale bytes.
//! Together they determine the results of every sequence of operations, of any length.  An
//! obligation that does not hold is not reported as a violation: the property is then decided by
//! exploring histories from the constructors.

use crate::interp::*;
use crate::obj::*;
use crate::run::*;
use crate::spec::{self, Lanes};
use crate::term::*;
use crate::checks::INTS;
use std::collections::BTreeSet;
use std::rc::Rc;

pub struct Fam<'tcx> {
    pub b: String,
    pub base: Path<'tcx>,
    pub align: u64,
    pub tmpl: Vec<Vec<Byte>>,
    pub stale: Vec<BTreeSet<usize>>,
    /// per template: where each byte comes from, when every byte is a copy
    src: Vec<Option<Vec<Src>>>,
}
#[derive(Clone, Copy)]
enum Src {
    Same(Byte),
    Lane(usize, usize),
    Pend(usize),
}

impl<'tcx> Runner<'tcx> {
    fn tag_lanes(&mut self, tag: &str) -> Lanes {
        let mut l = [self.s.it.t.cst(64, 0); 16];
        for i in 0..16 {
            l[i] = self.s.it.t.sym(&format!("{}{}", tag, i), 64);
        }
        l
    }
    fn tag_pend(&mut self, tag: &str, r: usize) -> Vec<W> {
        (0..r).map(|i| self.s.it.t.sym(&format!("{}p{}", tag, i), 8)).collect()
    }
    /// the canonical checkpoint of a state
    pub fn encode(&mut self, l: &Lanes, pend: &[W]) -> Vec<W> {
        let t = &mut self.s.it.t;
        let mut v = vec![];
        for &w in l.iter() {
            for j in 0..8 {
                v.push(t.extract(w, 8 * j, 8));
            }
        }
        v.extend_from_slice(pend);
        let z = t.cst(8, 0);
        v.resize(160, z);
        v.push(t.cst(8, pend.len() as u128));
        v.resize(164, z);
        v
    }
    fn standard(&mut self, p: &Path<'tcx>, b: &str, l: &Lanes, pend: &[W]) -> Result<Vec<Byte>, String> {
        let ck = self.encode(l, pend);
        let mut q = p.clone();
        let n = q.objs.len();
        q.fail = None;
        let mut ps = self.mk_restore(q, b, &ck, None);
        if ps.len() != 1 {
            return Err(format!("restoring gives {} paths", ps.len()));
        }
        let q = ps.pop().unwrap();
        if let Some((_, e)) = &q.fail {
            return Err(format!("restoring fails: {}", bad_text(e)));
        }
        Ok(self.bytes_of(&q, n))
    }
    fn mismatch(&mut self, a: &[Byte], e: &[Byte]) -> Vec<usize> {
        if a.len() != e.len() {
            return (0..a.len().max(e.len())).collect();
        }
        (0..a.len()).filter(|&i| !self.same_byte(a[i], e[i])).collect()
    }
    fn clean_state(&self, base: &Path<'tcx>, q: &Path<'tcx>) -> Result<(), String> {
        if !q.st.heap.is_empty() {
            return Err("allocates".into());
        }
        if q.st.statics.len() != base.st.statics.len()
            || q.st.statics.iter().any(|(k, v)| base.st.statics.get(k).map_or(true, |x| x.bytes != v.bytes))
        {
            return Err("writes a static".into());
        }
        Ok(())
    }
    /// is object i of q an instance of the template for (l, pend)?
    fn member(&mut self, f: &Fam<'tcx>, q: &Path<'tcx>, i: usize, l: &Lanes, pend: &[W]) -> Result<(), String> {
        if let Some((op, e)) = &q.fail {
            return Err(format!("{} fails: {}", op, bad_text(e)));
        }
        self.clean_state(&f.base, q)?;
        let r = pend.len();
        let e = match &f.src[r] {
            Some(src) => {
                let mut e = Vec::with_capacity(src.len());
                for x in src {
                    e.push(match *x {
                        Src::Same(b) => b,
                        Src::Lane(i, j) => Byte::W(l[i], j as u16),
                        Src::Pend(i) => Byte::W(pend[i], 0),
                    });
                }
                e
            }
            None => self.standard(q, &f.b, l, pend)?,
        };
        let a = self.bytes_of(q, i);
        for k in self.mismatch(&a, &e) {
            if !f.stale[r].contains(&k) {
                return Err(format!("byte {} of the object is not determined by the state (pending {})", k, r));
            }
            match (a[k], f.tmpl[r][k]) {
                (_, Byte::Uninit) | (Byte::W(..), Byte::W(..)) => {}
                (x, _) => return Err(format!("byte {} of the object is {:?}", k, x)),
            }
        }
        Ok(())
    }
    /// the templates of a hasher type on one dispatch path
    fn family(&mut self, b: &str, base: &Path<'tcx>) -> Result<Fam<'tcx>, String> {
        let align = base.st.mem[base.objs[0].o.0 as usize].as_ref().unwrap().align;
        let mut f = Fam { b: b.into(), base: base.clone(), align, tmpl: vec![], stale: vec![Default::default(); 32], src: vec![] };
        // bytes left over from earlier data
        let key = self.s.key_syms();
        let mut uninit: Vec<BTreeSet<usize>> = vec![Default::default(); 32];
        for r in 0..32u64 {
            for h in [&[64 + r][..], &[r], &[31, 33 + r], &[40, 24 + r]] {
                let mut p = base.clone();
                p.objs.clear();
                let ps = self.mk_new(p, b, &key, 0);
                let ps = self.each(ps, |s, p| s.apps(p, 0, h));
                for q in ps {
                    if let Some((op, e)) = &q.fail {
                        return Err(format!("{} fails: {}", op, bad_text(e)));
                    }
                    let m = q.objs[0].m.clone().unwrap();
                    let (l, pend) = self.logical(&m);
                    let e = self.standard(&q, b, &l, &pend)?;
                    let a = self.bytes_of(&q, 0);
                    for k in self.mismatch(&a, &e) {
                        f.stale[r as usize].insert(k);
                        if matches!(a[k], Byte::Uninit) {
                            uninit[r as usize].insert(k);
                        }
                    }
                }
            }
        }
        for r in 0..32usize {
            let l = self.tag_lanes("L");
            let pend = self.tag_pend("L", r);
            let mut t = self.standard(base, b, &l, &pend)?;
            f.src.push(self.sources(&t, &l, &pend));
            for (k, x) in t.iter_mut().enumerate() {
                if uninit[r].contains(&k) || matches!(x, Byte::Uninit) {
                    *x = Byte::Uninit;
                } else if f.stale[r].contains(&k) {
                    *x = Byte::W(self.s.it.t.sym(&format!("stale{}", k), 8), 0);
                }
            }
            f.tmpl.push(t);
        }
        Ok(f)
    }
    fn sources(&mut self, t: &[Byte], l: &Lanes, pend: &[W]) -> Option<Vec<Src>> {
        let mut at: rustc_data_structures::fx::FxHashMap<Vec<Lit>, Src> = Default::default();
        for i in 0..16 {
            let b = self.s.it.t.bits(l[i]);
            for j in 0..8 {
                at.insert(b[8 * j..8 * j + 8].to_vec(), Src::Lane(i, j));
            }
        }
        for (i, &w) in pend.iter().enumerate() {
            at.insert(self.s.it.t.bits(w).to_vec(), Src::Pend(i));
        }
        let mut v = vec![];
        for &x in t {
            match x {
                Byte::Uninit => v.push(Src::Same(x)),
                Byte::W(w, k) => {
                    let b = self.s.it.t.bits(w);
                    let b = b.get(8 * k as usize..8 * k as usize + 8)?;
                    if b.iter().all(|&l| l <= 1) {
                        v.push(Src::Same(x));
                    } else {
                        v.push(*at.get(b)?);
                    }
                }
                _ => return None,
            }
        }
        Some(v)
    }
    /// a path holding one object, the template for r pending bytes
    fn from_template(&mut self, f: &Fam<'tcx>, r: usize, stream: u32) -> Path<'tcx> {
        let mut p = f.base.clone();
        p.objs.clear();
        let l = self.tag_lanes("L");
        let pend = self.tag_pend("L", r);
        let m = self.state_model(&l, &pend, stream);
        self.put_template(&mut p, f, r, Some(m));
        Rc::make_mut(&mut p.log).push(format!("any reachable {} with {} pending bytes", f.b, r));
        p
    }
    fn put_template(&mut self, p: &mut Path<'tcx>, f: &Fam<'tcx>, r: usize, m: Option<Model>) {
        let v = self.s.it.bytes_val(&f.tmpl[r]);
        let o = self.s.store_obj(&mut p.st, f.tmpl[r].len() as u64, f.align, &v);
        Rc::make_mut(p.st.mem[o.0 as usize].as_mut().unwrap()).bytes = f.tmpl[r].clone();
        p.objs.push(MObj { o, b: f.b.as_str().into(), m });
    }
    fn core_res(&mut self, b: &str, what: &str, r: usize, x: Result<(), String>) {
        match x {
            Ok(()) => self.ok(&format!("closure of {}: {}", b, what)),
            Err(e) => {
                let n = self.values.len();
                if n < 40 {
                    self.values.insert(format!("open: {}: {} ({} pending)", b, what, r), e);
                }
            }
        }
    }
    /// all paths of an operation on a template lead to members for the model's state
    fn step(&mut self, f: &Fam<'tcx>, qs: &Paths<'tcx>, i: usize) -> Result<(), String> {
        if qs.is_empty() {
            return Err("no path".into());
        }
        for q in qs {
            if let Some((op, e)) = &q.fail {
                return Err(format!("{} fails: {} {}", op, bad_text(e), script(&q.log)));
            }
            let m = q.objs[i].m.clone().unwrap();
            let (l, pend) = self.logical(&m);
            self.member(f, q, i, &l, &pend).map_err(|e| format!("{} {}", e, script(&q.log)))?;
        }
        Ok(())
    }
    fn origins_closed(&mut self, f: &Fam<'tcx>) {
        let b = f.b.clone();
        let mut base = f.base.clone();
        base.objs.clear();
        let key = self.s.key_syms();
        let z = self.s.it.t.cst(64, 0);
        let mut go = |s: &mut Self, what: &str, qs: Paths<'tcx>| {
            let x = s.step(f, &qs, 0);
            s.core_res(&b, what, 0, x);
        };
        let qs = self.mk_new(base.clone(), &f.b, &key, 0);
        go(self, "constructor", qs);
        let zm = self.key_model(&[z; 4], 0);
        for d in ["default", "bhd"] {
            if self.s.has(&f.b, d) {
                let qs = self.mk_plain(base.clone(), &f.b, d, vec![], Some(zm.clone()));
                go(self, "constructor", qs);
            }
        }
        for cn in self.counts() {
            let cw = self.cnt(cn);
            let ck = self.arb_ck(cw);
            let m = self.arb_model(cn.0, 0);
            let qs = self.mk_restore(base.clone(), &f.b, &ck, m);
            go(self, "from_checkpoint of any 164 bytes", qs);
        }
    }
    fn results_closed(&mut self, f: &Fam<'tcx>, r: usize) {
        let b = f.b.clone();
        let p = self.from_template(f, r, 0);
        let m = p.objs[0].m.clone().unwrap();
        let before = self.bytes_of(&p, 0);
        let (l, pend) = self.logical(&m);
        for bits in [64usize, 128, 256] {
            let qs = self.fin(p.clone(), 0, bits);
            let e = self.expect(&m, bits);
            let x = self.result_is(f, &qs, &[e]);
            self.core_res(&b, "finalize", r, x);
        }
        if self.s.has(&b, "finish") {
            let qs = self.observe(p.clone(), 0, "finish");
            let e = self.expect(&m, 64);
            let x = self.result_is(f, &qs, &[e]).and_then(|_| self.untouched(&qs, 0, &before));
            self.core_res(&b, "finish", r, x);
        }
        let qs = self.ckpt(p.clone(), 0);
        let e = self.encode(&l, &pend);
        let mut x = self.result_is(f, &qs, &[]).and_then(|_| self.untouched(&qs, 0, &before));
        for q in &qs {
            if x.is_ok() && q.cks[0] != e {
                let k = (0..164).find(|&k| q.cks[0][k] != e[k]).unwrap();
                x = Err(format!("checkpoint byte {} is not that of the state", k));
            }
        }
        self.core_res(&b, "checkpoint is the canonical encoding", r, x);
        if self.s.has(&b, "debug") {
            let qs = self.debug_obj(p.clone(), 0);
            let x = self.result_is(f, &qs, &[]).and_then(|_| self.untouched(&qs, 0, &before));
            self.core_res(&b, "Debug", r, x);
        }
        if self.s.has(&b, "ioflush_ok") {
            let one = self.s.it.t.cst(8, 1);
            let qs = self.observe(p.clone(), 0, "ioflush_ok");
            let x = self.result_is(f, &qs, &[one]).and_then(|_| self.untouched(&qs, 0, &before));
            self.core_res(&b, "flush", r, x);
        }
        let qs = self.clone_obj(p.clone(), 0);
        let x = self.untouched(&qs, 0, &before).and_then(|_| self.step(f, &qs, 1));
        self.core_res(&b, "clone", r, x);
        let dirty: Vec<usize> = if self.thorough() { (0..32).collect() } else { vec![0, 31, (r * 7 + 5) % 32, r] };
        for d in dirty {
            let mut p = p.clone();
            self.put_template(&mut p, f, d, None);
            let qs = self.clone_from(p, 1, 0);
            let x = self.untouched(&qs, 0, &before).and_then(|_| self.step(f, &qs, 1));
            self.core_res(&b, "clone_from", r, x);
        }
    }
    fn result_is(&mut self, f: &Fam<'tcx>, qs: &Paths<'tcx>, e: &[W]) -> Result<(), String> {
        if qs.is_empty() {
            return Err("no path".into());
        }
        for q in qs {
            if let Some((op, e)) = &q.fail {
                return Err(format!("{} fails: {}", op, bad_text(e)));
            }
            self.clean_state(&f.base, q)?;
            if q.obs.len() < e.len() || q.obs[q.obs.len() - e.len()..] != *e {
                return Err(format!("the result is not that of the state: {}", script(&q.log)));
            }
        }
        Ok(())
    }
    fn untouched(&mut self, qs: &Paths<'tcx>, i: usize, before: &[Byte]) -> Result<(), String> {
        for q in qs {
            let a = self.bytes_of(q, i);
            if !self.same_bytes(&a, before) {
                return Err("the object changes".into());
            }
        }
        Ok(())
    }
    fn feeds_closed(&mut self, f: &Fam<'tcx>, r: usize, w: W, full: bool) {
        let b = f.b.clone();
        let p = self.from_template(f, r, 0);
        let d = self.next_data(&p, 0, w);
        for op in ["append", "hwrite", "iowrite_n", "iowrite_all_ok"] {
            if !self.s.has(&b, op) || (op != "append" && !full) {
                continue;
            }
            let qs = self.feed(p.clone(), 0, op, &d);
            let e = match op {
                "iowrite_n" => vec![w],
                "iowrite_all_ok" => vec![self.s.it.t.cst(8, 1)],
                _ => vec![],
            };
            let x = self.step(f, &qs, 0).and_then(|_| self.result_is(f, &qs, &e));
            self.core_res(&b, &format!("{} of any length", op), r, x);
        }
        if full {
            let mut m = p.objs[0].m.clone().unwrap();
            m.pos = self.s.it.t.add(m.pos, w);
            for bits in [64, 128, 256] {
                let qs = self.hashn(p.clone(), 0, bits, &d);
                let e = self.expect(&m, bits);
                let x = self.result_is(f, &qs, &[e]);
                self.core_res(&b, "hash of any length", r, x);
            }
        }
    }
    pub fn core(&mut self) {
        for b in self.all() {
            let p = self.start_b(&[&b]);
            let key = self.s.key_syms();
            let ps = self.mk_new(p, &b, &key, 0);
            for (n, p) in ps.into_iter().enumerate() {
                if let Some((op, e)) = &p.fail {
                    if self.unit() {
                        let e = format!("{} fails: {}", op, bad_text(e));
                        self.core_res(&b, "constructor", 0, Err(e));
                    }
                    continue;
                }
                let mut fam: Option<Fam<'tcx>> = None;
                for r in 0..32usize {
                    for part in 0..3 {
                        if !self.unit() {
                            continue;
                        }
                        if fam.is_none() {
                            match self.family(&b, &p) {
                                Ok(f) => fam = Some(f),
                                Err(e) => {
                                    self.core_res(&b, &format!("templates of path {}", n), 0, Err(e));
                                    break;
                                }
                            }
                        }
                        let f = fam.as_ref().unwrap();
                        match part {
                            0 => {
                                if r == 0 {
                                    self.origins_closed(f);
                                }
                                self.results_closed(f, r);
                                for (name, _) in INTS {
                                    if self.s.has(&b, name) {
                                        let p = self.from_template(f, r, 0);
                                        let qs = self.write_int(p, 0, name);
                                        let x = self.step(f, &qs, 0);
                                        self.core_res(&b, "integer writes", r, x);
                                    }
                                }
                            }
                            1 => {
                                for n in 0..192 {
                                    let w = self.c(n);
                                    self.feeds_closed(f, r, w, self.thorough());
                                }
                            }
                            _ => {
                                for k in 0..32 {
                                    let w = self.sym("Q", k);
                                    self.feeds_closed(f, r, w, self.thorough());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
#[allow(unused)]
fn _unused(t: &mut Terms, l: &Lanes) -> W {
    spec::finish(t, l, 64)
}
