//! Obligations of each property.

use crate::facts::*;
use crate::interp::*;
use crate::obj::*;
use crate::run::*;
use crate::spec;
use crate::term::*;
use std::collections::BTreeSet;
use rustc_middle::ty::Instance;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Op {
    App(W),
    Hw(W),
    Io(W),
    IoAll(W),
    /// the bytes in calls of 32 (append, Hasher::write)
    Many(W),
    ManyW(W),
    /// one empty append for every 32 units
    Nothing(W),
    Int(&'static str),
    Clone,
    CloneFrom,
    Hop(String),
    /// observers; results are recorded except those of `Quiet`
    Obs(&'static str),
    Quiet(&'static str),
    Fin(usize),
    Ckpt,
}

pub const INTS: [(&str, u64); 12] = [
    ("write_u8", 1),
    ("write_u16", 2),
    ("write_u32", 4),
    ("write_u64", 8),
    ("write_u128", 16),
    ("write_usize", 0),
    ("write_i8", 1),
    ("write_i16", 2),
    ("write_i32", 4),
    ("write_i64", 8),
    ("write_i128", 16),
    ("write_isize", 0),
];

impl<'tcx> Runner<'tcx> {
    pub fn new(s: Session<'tcx>, prop: &str, cfg: &str, tier: &str, shard: (usize, usize), budget: f64) -> Self {
        Runner {
            s,
            prop: prop.into(),
            cfg: cfg.into(),
            tier: tier.into(),
            shard,
            unit_no: 0,
            trace: std::env::var("HW_UNITS").is_ok(),
            calls_graph: 0,
            lite: std::env::var("HW_LITE").is_ok() && tier == "quick",
            stride: std::env::var("HW_STRIDE").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            only: std::env::var("HW_UNIT").ok().and_then(|x| x.parse().ok()),
            t0: std::time::Instant::now(),
            budget,
            truncated: 0,
            proved: Default::default(),
            undecided: Default::default(),
            undecided_why: Default::default(),
            violations: vec![],
            samples: vec![],
            closed: Default::default(),
            values: Default::default(),
            units: 0,
            tries: 0,
            pass: if std::env::var("HW_MODE").is_ok_and(|m| m == "core") { 2 } else { 0 },
            defer: Default::default(),
            deferred: false,
            snap: Default::default(),
            part: None,
            retry: Default::default(),
            current: None,
            steered: 1500,
        }
    }
    pub fn c(&mut self, n: u64) -> W {
        self.s.it.usize_w(n)
    }
    /// 32*Q + r for any Q >= 5
    pub fn sym(&mut self, name: &str, r: u64) -> W {
        match self.part {
            None => {
                let q = self.s.it.index_sym(name, 5, 6);
                self.s.it.len_word(q, r)
            }
            // Q = 4*Q' + j
            Some(j) => {
                let q = self.s.it.index_sym(&format!("{}'", name), 2, 8);
                let l = self.s.it.len_word(q, 0);
                let l = self.s.it.t.shl_c(l, 2);
                let c = self.s.it.usize_w(32 * j + r);
                self.s.it.t.add(l, c)
            }
        }
    }
    /// constant lengths around the wrap-around of narrower integers
    pub fn far(&self) -> Vec<u64> {
        let mut v = vec![];
        for k in [16u32, 20, 21] {
            v.push((1u64 << k) + 7);
        }
        v.extend([(1 << 21) - 32, (1 << 21) + 63, 3 << 20 | 1, (1 << 24) + 5]);
        if self.s.it.pbits == 64 {
            v.extend([(1 << 31) - 1, (1 << 31) + 71, (1 << 32) - 33, (1 << 32) + 1, (1 << 32) + 96, (1 << 36) + 32 + 9, (1 << 37) + 64 + 17]);
        } else {
            v.extend([(1 << 27) + 3, (1 << 28) + 65]);
        }
        v
    }
    pub fn explicit(&self) -> Vec<String> {
        ["sse", "avx", "neon", "wasm"].iter().filter(|b| self.s.backends.iter().any(|x| x == *b)).map(|b| b.to_string()).collect()
    }
    /// all hasher types of this configuration
    pub fn all(&self) -> Vec<String> {
        let mut v = vec!["portable".to_string(), "auto".to_string()];
        v.extend(self.explicit());
        v
    }
    pub fn start_all(&mut self) -> Path<'tcx> {
        let e = self.explicit();
        let e: Vec<&str> = e.iter().map(|s| s.as_str()).collect();
        self.start_for(&e)
    }
    /// start so that only the named backend's features are vouched for
    pub fn start_b(&mut self, bs: &[&str]) -> Path<'tcx> {
        self.start_for(bs)
    }
    pub fn finals(&mut self, p: Path<'tcx>, i: usize) -> Paths<'tcx> {
        let mut ps = vec![p];
        for b in [64, 128, 256] {
            ps = self.each(ps, |s, p| s.fin(p, i, b));
        }
        ps
    }
    pub fn op(&mut self, p: Path<'tcx>, i: usize, op: &Op) -> Paths<'tcx> {
        match op {
            Op::App(w) => self.app_w(p, i, *w),
            Op::Hw(w) => {
                let d = self.next_data(&p, i, *w);
                self.feed(p, i, "hwrite", &d)
            }
            Op::Many(w) => {
                let d = self.next_data(&p, i, *w);
                self.feed(p, i, "many", &d)
            }
            Op::ManyW(w) => {
                let d = self.next_data(&p, i, *w);
                self.feed(p, i, "manyw", &d)
            }
            Op::Nothing(w) => {
                let z = self.c(0);
                let d = Data { id: 950, base: z, len: *w };
                let m = p.objs[i].m.clone();
                let mut ps = self.feed(p, i, "many_empty", &d);
                for p in ps.iter_mut() {
                    p.objs[i].m = m.clone();
                }
                ps
            }
            Op::Io(w) => {
                let d = self.next_data(&p, i, *w);
                let n = p.obs.len();
                let ps = self.feed(p, i, "iowrite_n", &d);
                ps.into_iter()
                    .map(|mut p| {
                        p.obs.truncate(n);
                        p
                    })
                    .collect()
            }
            Op::IoAll(w) => {
                let d = self.next_data(&p, i, *w);
                let n = p.obs.len();
                let ps = self.feed(p, i, "iowrite_all_ok", &d);
                ps.into_iter()
                    .map(|mut p| {
                        p.obs.truncate(n);
                        p
                    })
                    .collect()
            }
            Op::Int(f) => self.write_int(p, i, f),
            Op::Clone => {
                let ps = self.clone_obj(p, i);
                Self::swap_last(ps, i)
            }
            Op::CloneFrom => {
                // overwrite a dirty object of the same type
                let b = p.objs[i].b.clone();
                let key = [1u64, 2, 3, 4].map(|k| self.s.it.t.cst(64, k as u128));
                let ps = self.mk_new(p, &b, &key, 900);
                let ps = self.each(ps, |s, p| {
                    let j = p.objs.len() - 1;
                    s.app(p, j, 45)
                });
                let ps = self.each(ps, |s, p| {
                    let j = p.objs.len() - 1;
                    s.clone_from(p, j, i)
                });
                Self::swap_last(ps, i)
            }
            Op::Hop(b) => {
                let ps = self.hop(p, i, b);
                Self::swap_last(ps, i)
            }
            Op::Obs(f) => self.observe(p, i, f),
            Op::Quiet(f) => {
                let n = p.obs.len();
                let ps = match *f {
                    "checkpoint" => {
                        let k = p.cks.len();
                        self.ckpt(p, i)
                            .into_iter()
                            .map(|mut p| {
                                p.cks.truncate(k);
                                p
                            })
                            .collect()
                    }
                    "debug" => self.debug_obj(p, i),
                    "clone" => {
                        let k = p.objs.len();
                        self.clone_obj(p, i)
                            .into_iter()
                            .map(|mut p| {
                                p.objs.truncate(k);
                                p
                            })
                            .collect()
                    }
                    f => self.observe(p, i, f),
                };
                ps.into_iter()
                    .map(|mut p| {
                        p.obs.truncate(n);
                        p
                    })
                    .collect()
            }
            Op::Fin(b) => self.fin(p, i, *b),
            Op::Ckpt => self.ckpt(p, i),
        }
    }
    fn swap_last(ps: Paths<'tcx>, i: usize) -> Paths<'tcx> {
        ps.into_iter()
            .map(|mut p| {
                if p.fail.is_none() {
                    let j = p.objs.len() - 1;
                    p.objs.swap(i, j);
                }
                p
            })
            .collect()
    }
    pub fn ops(&mut self, p: Path<'tcx>, i: usize, ops: &[Op]) -> Paths<'tcx> {
        let mut ps = vec![p];
        for o in ops {
            ps = self.each(ps, |s, p| s.op(p, i, o));
        }
        ps
    }
    pub fn int_size(&self, f: &str) -> u64 {
        let n = INTS.iter().find(|x| x.0 == f).unwrap().1;
        if n == 0 {
            self.s.it.psz
        } else {
            n
        }
    }
    pub fn clone_from(&mut self, p: Path<'tcx>, dst: usize, src: usize) -> Paths<'tcx> {
        let b = p.objs[dst].b.clone();
        let m = p.objs[src].m.clone();
        let (x, y) = (self.s.objptr(p.objs[dst].o), self.s.objptr(p.objs[src].o));
        let outs = self.s.call(p.st.clone(), &format!("{}::clone_from", b), vec![x, y]);
        self.join_pub(&p, "clone_from", outs, |_, q, _| q.objs[dst].m = m.clone())
    }
    /// Hasher::write_<int> of the next stream bytes
    pub fn write_int(&mut self, p: Path<'tcx>, i: usize, f: &str) -> Paths<'tcx> {
        let n = self.int_size(f);
        let b = p.objs[i].b.clone();
        let nw = self.c(n);
        let d = self.next_data(&p, i, nw);
        let mut by = self.s.data_bytes(&d, n);
        if self.s.it.be {
            by.reverse();
        }
        let v = self.s.it.t.concat(&by);
        let m = p.objs[i].m.clone();
        let folded = self.prepare(&m, &d);
        let ptr = self.s.objptr(p.objs[i].o);
        let outs = self.s.call(p.st.clone(), &format!("{}::{}", b, f), vec![ptr, Val::W(v)]);
        self.s.it.sym_mode = false;
        self.join_pub(&p, f, outs, |s, q, _| {
            if let Some(m) = q.objs[i].m.as_mut() {
                m.pos = s.s.it.t.add(m.pos, nw);
            }
            s.after(q, i, folded);
        })
    }
    /// every result of the tested continuation equals the recorded reference results
    pub fn rel(&mut self, kind: &str, what: &str, reference: Paths<'tcx>, f: impl Fn(&mut Self, Path<'tcx>) -> Paths<'tcx>) {
        for p in self.good(kind, reference) {
            let (n, k) = (p.obs.len(), p.cks.len());
            let mut p0 = p.clone();
            Rc::make_mut(&mut p0.log).push("versus".into());
            let qs = f(self, p0);
            for q in self.tested(kind, qs, what) {
                if q.obs.len() != 2 * n || q.cks.len() != 2 * k {
                    self.unknown(kind, format!("malformed comparison {} {}", q.obs.len(), n));
                    continue;
                }
                let mut fine = true;
                for j in 0..n {
                    fine = fine && self.equal(kind, &q, q.obs[j], q.obs[n + j], what);
                }
                for j in 0..k {
                    let (a, b) = (self.s.it.t.concat(&q.cks[j]), self.s.it.t.concat(&q.cks[k + j]));
                    fine = fine && self.equal(kind, &q, a, b, what);
                }
                if fine {
                    let s = script(&q.log);
                    self.sample(format!("[{}] {}", self.cfg, s));
                }
            }
        }
    }
    pub fn qlen(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    // ------------------------------------------------------------ C01
    fn against_spec(&mut self, b: &str, pre: u64, len: W, hn: bool) {
        let kind = format!("{}: results equal the HighwayHash value graph", b);
        let what = format!("{} result differs from HighwayHash of the key and bytes", b);
        let key = self.s.key_syms();
        let p = self.start_b(&[b]);
        let ps = self.mk_new(p, b, &key, 0);
        let ps = if pre > 0 { self.each(ps, |s, p| s.app(p, 0, pre)) } else { ps };
        let ps = if hn {
            let mut ps = ps;
            for bits in [64, 128, 256] {
                ps = self.each(ps, |s, p| {
                    let d = s.next_data(&p, 0, len);
                    s.hashn(p, 0, bits, &d)
                });
            }
            for p in ps.iter_mut() {
                if p.fail.is_none() {
                    let m = p.objs[0].m.as_mut().unwrap();
                    m.pos = self.s.it.t.add(m.pos, len);
                }
            }
            ps
        } else {
            let ps = self.each(ps, |s, p| s.app_w(p, 0, len));
            self.each(ps, |s, p| s.finals(p, 0))
        };
        for q in self.tested(&kind, ps, &what) {
            let m = q.objs[0].m.clone().unwrap();
            for (j, bits) in [64, 128, 256].into_iter().enumerate() {
                let e = self.expect(&m, bits);
                if !self.equal(&kind, &q, e, q.obs[j], &format!("{} ({} bit)", what, bits)) {
                    break;
                }
            }
            let s = script(&q.log);
            self.sample(format!("[{}] {}", self.cfg, s));
        }
    }
    fn c01_for(&mut self, b: &str) {
        for r in 0..32 {
            for hn in [false, true] {
                if self.unit() {
                    let w = self.sym("Q", r);
                    self.against_spec(b, 0, w, hn);
                }
            }
        }
        let top = self.qlen(161, 330);
        for n in 0..top {
            if self.unit() {
                let w = self.c(n);
                self.against_spec(b, 0, w, false);
            }
            if self.unit() {
                let w = self.c(n);
                self.against_spec(b, 0, w, true);
            }
        }
        for n in [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097] {
            if self.unit() {
                let w = self.c(n);
                self.against_spec(b, 0, w, n % 2 == 1);
            }
        }
        for (j, n) in self.far().into_iter().enumerate() {
            for pre in [0, 5 + j as u64] {
                if self.unit() {
                    let w = self.c(n);
                    self.against_spec(b, pre, w, (j as u64 + pre) % 2 == 1);
                }
            }
        }
        for pre in [1, 2, 3, 4, 7, 8, 15, 16, 17, 28, 31, 32, 33, 47, 64] {
            for n in [0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100] {
                if self.unit() {
                    let w = self.c(n);
                    self.against_spec(b, pre, w, n % 2 == 1);
                }
            }
            for r in [0, 1, 15, 16, 31] {
                if self.unit() {
                    let w = self.sym("Q", r);
                    self.against_spec(b, pre, w, r % 2 == 0);
                }
            }
        }
    }

    // ------------------------------------------------------------ C02, C03, C04
    /// backend b equals portable on the same history
    fn versus_portable(&mut self, b: &str, ops: &[Op], hn: Option<W>) {
        let kind = format!("{}: results equal portable", b);
        let what = format!("{} result differs from portable", b);
        let key = self.s.key_syms();
        let p = self.start_b(&[b]);
        let run = |s: &mut Self, p: Path<'tcx>, b: &str| {
            let i = p.objs.len();
            let ps = s.mk_new(p, b, &key, 0);
            let ps = s.each(ps, |s, p| s.ops(p, i, ops));
            match hn {
                None => s.each(ps, |s, p| s.finals(p, i)),
                Some(w) => {
                    let mut ps = ps;
                    for bits in [64, 128, 256] {
                        ps = s.each(ps, |s, p| {
                            let d = s.next_data(&p, i, w);
                            s.hashn(p, i, bits, &d)
                        });
                    }
                    ps
                }
            }
        };
        let r = run(self, p, "portable");
        self.rel(&kind, &what, r, |s, p| run(s, p, b));
    }
    fn equal_portable(&mut self, b: &str) {
        for r in 0..32 {
            for pre in [0u64, 1, 31] {
                if self.unit() {
                    let w = self.sym("Q", r);
                    let a = self.c(pre);
                    self.versus_portable(b, &[Op::App(a), Op::App(w)], None);
                }
            }
            if self.unit() {
                let w = self.sym("Q", r);
                self.versus_portable(b, &[], Some(w));
            }
        }
        let top = self.qlen(131, 290);
        for n in 0..top {
            if self.unit() {
                let w = self.c(n);
                self.versus_portable(b, &[Op::App(w)], None);
            }
            if self.unit() {
                let w = self.c(n);
                self.versus_portable(b, &[], Some(w));
            }
        }
        for n in [255, 256, 257, 511, 512, 1024, 1025, 4096] {
            if self.unit() {
                let w = self.c(n);
                self.versus_portable(b, &[Op::App(w)], None);
            }
        }
        for (j, n) in self.far().into_iter().enumerate() {
            let (w, a, z) = (self.c(n), self.c(1 + 6 * j as u64 % 32), self.c(33));
            if self.unit() {
                self.versus_portable(b, &[Op::App(w)], None);
            }
            if self.unit() {
                self.versus_portable(b, &[Op::App(a), Op::App(w), Op::App(z), Op::App(w)], None);
            }
            if self.unit() {
                self.versus_portable(b, &[Op::App(a)], Some(w));
            }
        }
        let step = if self.thorough() { 1 } else { 3 };
        for pre in 1..34u64 {
            for n in (0..70u64).filter(|n| (n + pre) % step == 0) {
                if self.unit() {
                    let (a, w) = (self.c(pre), self.c(n));
                    if n % 2 == 0 {
                        self.versus_portable(b, &[Op::App(a), Op::App(w)], None);
                    } else {
                        self.versus_portable(b, &[Op::App(a)], Some(w));
                    }
                }
            }
        }
        // three pieces, byte-wise
        for k in [33u64, 65] {
            if self.unit() {
                let one = self.c(1);
                let v: Vec<Op> = (0..k).map(|_| Op::App(one)).collect();
                self.versus_portable(b, &v, None);
            }
        }
    }
    /// checkpoints of b and portable are interchangeable
    fn interchange(&mut self, b: &str, others: &[String]) {
        for o in others {
            for (x, y) in [(b, o.as_str()), (o.as_str(), b)] {
                for a in [0u64, 1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 17, 19, 20, 24, 27, 28, 31, 32, 33, 48, 63, 64, 70] {
                    for c in [0u64, 1, 5, 16, 31, 32, 33, 64] {
                        if self.unit() {
                            self.hop_case(&[x, y], &[a, c]);
                        }
                    }
                }
            }
        }
    }
    fn c03(&mut self, b: &str) {
        self.equal_portable(b);
        let mut o = vec!["portable".to_string(), "auto".to_string()];
        o.retain(|x| x != b);
        self.interchange(b, &o);
    }

    // ------------------------------------------------------------ C06
    /// bytes cuts[0] on backends[0], hop to backends[1], cuts[1], ... compared with the uninterrupted backends[0]
    fn hop_case(&mut self, bs: &[&str], cuts: &[u64]) {
        let w: Vec<W> = cuts.iter().map(|&c| self.c(c)).collect();
        self.hop_w(bs, &w)
    }
    fn hop_w(&mut self, bs: &[&str], cuts: &[W]) {
        let kind = format!("checkpoint/restore transparent: {}", bs.join(" -> "));
        let what = format!("results after checkpoint/restore {} differ from the uninterrupted {}", bs.join(" -> "), bs[0]);
        let key = self.s.key_syms();
        let p = self.start_b(bs);
        let mut ops = vec![];
        let mut plain = vec![];
        for (j, &c) in cuts.iter().enumerate() {
            if j > 0 {
                ops.push(Op::Hop(bs[j].to_string()));
            }
            ops.push(Op::App(c));
            plain.push(Op::App(c));
        }
        let ps = self.mk_new(p, bs[0], &key, 0);
        let ps = self.each(ps, |s, p| s.ops(p, 0, &plain));
        let ps = self.each(ps, |s, p| s.finals(p, 0));
        self.rel(&kind, &what, ps, |s, p| {
            let i = p.objs.len();
            let ps = s.mk_new(p, bs[0], &key, 0);
            let ps = s.each(ps, |s, p| s.ops(p, i, &ops));
            let ps: Paths<'tcx> = ps
                .into_iter()
                .map(|mut p| {
                    p.cks.clear();
                    p
                })
                .collect();
            s.each(ps, |s, p| s.finals(p, i))
        });
    }
    fn c06(&mut self) {
        let bs = self.all();
        let sfx: &[u64] = if self.thorough() { &[0, 1, 3, 5, 16, 17, 31, 32, 33, 63, 64, 65, 97] } else { &[0, 1, 5, 31, 32, 64] };
        for x in &bs {
            for y in &bs {
                let top = if self.thorough() { 100 } else { 68 };
                for a in 0..top {
                    for &c in sfx {
                        if !self.thorough() && x != y && a > 34 && c > 5 {
                            continue;
                        }
                        if self.unit() {
                            self.hop_case(&[x, y], &[a, c]);
                        }
                    }
                }
                for r in 0..32 {
                    if self.unit() {
                        let (l, c) = (self.sym("Q", r), self.c(sfx[r as usize % sfx.len()]));
                        self.hop_w(&[x, y], &[l, c]);
                    }
                    if self.unit() {
                        let (l, c) = (self.sym("Q", (r * 7) % 32), self.c(r));
                        self.hop_w(&[x, y], &[c, l]);
                    }
                }
                if self.unit() {
                    let (l, l2) = (self.sym("Q", 13), self.sym("P", 22));
                    self.hop_w(&[x, y], &[l, l2]);
                }
                for (j, n) in self.far().into_iter().enumerate() {
                    if self.unit() {
                        let (l, c) = (self.c(n), self.c(31 + j as u64 % 3));
                        self.hop_w(&[x, y, x], &[l, c, l]);
                    }
                }
            }
        }
        // several hops
        let n = bs.len();
        for k in 0..(if self.thorough() { 200u64 } else { 40 }) {
            if self.unit() {
                let m = 3 + (k % 4) as usize;
                let mut chain = vec![];
                let mut cuts = vec![];
                let mut z = k.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
                for _ in 0..m {
                    z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    chain.push(bs[(z >> 33) as usize % n].as_str());
                    cuts.push(if k % 3 == 0 { 0 } else { (z >> 20) % 41 });
                }
                if k % 3 == 0 {
                    cuts[0] = 1 + k % 67;
                    *cuts.last_mut().unwrap() = k % 37;
                }
                self.hop_case(&chain, &cuts);
            }
        }
    }

    // ------------------------------------------------------------ C05
    fn split(&mut self, b: &str, ops: &[Op], total: W) {
        let kind = format!("{}: streaming invariance", b);
        let what = format!("{}: the result depends on how the bytes were split over calls", b);
        let key = self.s.key_syms();
        let p = self.start_b(&[b]);
        let ps = self.mk_new(p, b, &key, 0);
        let mut ps = ps;
        for bits in [64, 128, 256] {
            ps = self.each(ps, |s, p| {
                let d = s.next_data(&p, 0, total);
                s.hashn(p, 0, bits, &d)
            });
        }
        self.rel(&kind, &what, ps, |s, p| {
            let i = p.objs.len();
            let ps = s.mk_new(p, b, &key, 0);
            let ps = s.each(ps, |s, p| s.ops(p, i, ops));
            s.each(ps, |s, p| s.finals(p, i))
        });
    }
    fn split_n(&mut self, b: &str, cuts: &[u64], f: impl Fn(&mut Self, usize, W) -> Op) {
        let mut ops = vec![];
        for (j, &c) in cuts.iter().enumerate() {
            let w = self.c(c);
            let o = f(self, j, w);
            ops.push(o);
        }
        let t = self.c(cuts.iter().sum());
        self.split(b, &ops, t)
    }
    fn c05(&mut self) {
        for b in self.all() {
            let b = b.as_str();
            let ways = self.ways(b);
            let (ta, tb) = if self.thorough() { (100, 100) } else { (34, 70) };
            for a in 0..ta {
                for c in 0..tb {
                    let dense = self.thorough() || a % 32 < 2 || c % 32 < 2 || (a + c) % 4 < 2;
                    if dense && self.unit() {
                        let k = (a + c) as usize;
                        self.split_n(b, &[a, c], |_, j, w| ways_op(ways, k + j, w));
                    }
                }
            }
            // byte-wise, with empty writes in between
            for n in [1u64, 2, 31, 32, 33, 63, 64, 65, 70] {
                for w in 0..ways {
                    if self.unit() {
                        let cuts: Vec<u64> = (0..n).map(|_| 1).collect();
                        self.split_n(b, &cuts, |_, j, x| ways_op(ways, if w == 0 { 0 } else { w + j }, x));
                    }
                }
                if self.unit() {
                    let cuts: Vec<u64> = (0..3 * n).map(|j| if j % 3 == 1 { 1 } else { 0 }).collect();
                    self.split_n(b, &cuts, |_, j, x| ways_op(ways, j, x));
                }
            }
            // odd chunk sizes over several packets
            for n in [2u64, 3, 5, 7, 15, 16, 17, 24, 29, 30, 31, 32, 33, 40, 47, 63, 64, 65] {
                for off in [0u64, 1, 16, 31] {
                    if self.unit() {
                        let mut cuts = vec![off];
                        cuts.extend((0..5).map(|_| n));
                        self.split_n(b, &cuts, |_, j, x| ways_op(ways, (j as u64 + n) as usize, x));
                    }
                }
            }
            // integers
            if self.s.has(b, "write_u8") {
                for (f, _) in INTS {
                    for off in [0u64, 1, 3, 15, 17, 24, 27, 30, 31, 32] {
                        if self.unit() {
                            let n = self.int_size(f);
                            let (a, z) = (self.c(off), self.c(5));
                            let t = self.c(off + 2 * n + 5);
                            self.split(b, &[Op::App(a), Op::Int(f), Op::Int(f), Op::Hw(z)], t);
                        }
                    }
                }
                if self.unit() {
                    let mut ops = vec![];
                    let mut t = 0;
                    for _ in 0..2 {
                        for (f, _) in INTS {
                            ops.push(Op::Int(f));
                            t += self.int_size(f);
                        }
                    }
                    let t = self.c(t);
                    self.split(b, &ops, t);
                }
            }
            // symbolic lengths
            for r in 0..32 {
                for a in [0u64, 1, 5, 16, 31, 33] {
                    if !self.thorough() && (r + a) % 3 != 0 {
                        continue;
                    }
                    if self.unit() {
                        let (x, y) = (self.c(a), self.sym("Q", r));
                        let t = self.s.it.t.add(x, y);
                        self.split(b, &[ways_op(ways, r as usize, x), ways_op(ways, a as usize, y)], t);
                    }
                    if self.unit() {
                        let (x, y) = (self.c(a), self.sym("Q", r));
                        let t = self.s.it.t.add(x, y);
                        self.split(b, &[ways_op(ways, r as usize, y), ways_op(ways, a as usize, x)], t);
                    }
                }
                if self.unit() {
                    let (x, y) = (self.sym("P", (r * 5 + 3) % 32), self.sym("Q", r));
                    let t = self.s.it.t.add(x, y);
                    self.split(b, &[ways_op(ways, r as usize, y), ways_op(ways, 1 + r as usize, x)], t);
                }
            }
            // lengths beyond narrower integers
            for (j, n) in self.far().into_iter().enumerate() {
                for (k, a) in [5u64, 32, 33 + j as u64].into_iter().enumerate() {
                    if self.unit() {
                        let (x, y) = (self.c(a), self.c(n));
                        let t = self.s.it.t.add(x, y);
                        let ops = if k == 1 { [ways_op(ways, j, y), ways_op(ways, j + k, x)] } else { [ways_op(ways, j + 1, x), ways_op(ways, k, y)] };
                        self.split(b, &ops, t);
                    }
                }
                if self.unit() {
                    let y = self.c(n);
                    let t = self.c(3 * n);
                    self.split(b, &[ways_op(ways, j, y), ways_op(ways, j + 1, y), ways_op(ways, j + 2, y)], t);
                }
            }
            // any number of calls
            let manyw = self.s.has(b, "manyw");
            for k in 0..16u64 {
                let mk = |s: &mut Self| match k {
                    0..=9 => s.sym("Q", (k * 7) % 32),
                    _ => {
                        let f = s.far();
                        s.c(f[k as usize - 10])
                    }
                };
                for pre in [0, 1 + k] {
                    if self.unit() {
                        let (x, y, z) = (self.c(pre), mk(self), self.c(3));
                        let t = self.s.it.t.add(x, y);
                        let t = self.s.it.t.add(t, z);
                        let many = if manyw && k % 2 == 1 { Op::ManyW(y) } else { Op::Many(y) };
                        self.split(b, &[Op::App(x), many, Op::App(z)], t);
                    }
                    if self.unit() {
                        let (x, y, z) = (self.c(pre), mk(self), self.c(k % 2));
                        let t = self.s.it.t.add(x, z);
                        self.split(b, &[Op::App(x), Op::Nothing(y), Op::App(z)], t);
                    }
                }
            }
            // many calls
            for (n, size) in [(255u64, 0u64), (256, 0), (257, 0), (255, 1), (256, 1), (300, 1), (256, 31), (257, 33)] {
                for w in 0..2 {
                    if self.unit() {
                        let mut cuts: Vec<u64> = (0..n).map(|_| size).collect();
                        cuts[n as usize - 1] = 5;
                        if w == 1 {
                            cuts[0] = 7;
                        }
                        self.split_n(b, &cuts, |_, j, x| ways_op(ways, if w == 0 { 0 } else { j }, x));
                    }
                }
            }
            // pseudo-random histories
            for k in 0..(if self.thorough() { 600u64 } else { 60 }) {
                if self.unit() {
                    let mut z = k.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xabcdef;
                    let mut cuts = vec![];
                    for _ in 0..3 + k % 9 {
                        z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let m = [4u64, 20, 36, 70, 140][(z >> 50) as usize % 5];
                        cuts.push((z >> 22) % m);
                    }
                    let z0 = z as usize >> 3;
                    self.split_n(b, &cuts, |_, j, x| ways_op(ways, z0 + j * 7, x));
                }
            }
        }
    }
    /// how many ways of feeding bytes a type has
    pub fn ways(&self, b: &str) -> usize {
        if self.s.has(b, "iowrite_n") {
            4
        } else if self.s.has(b, "hwrite") {
            2
        } else {
            1
        }
    }

    // ------------------------------------------------------------ C07
    fn c07(&mut self) {
        let z = self.s.it.t.cst(64, 0);
        let zk = [z; 4];
        for b in self.all() {
            let b = b.as_str();
            let mut roots = vec!["default"];
            if self.s.has(b, "bhd") {
                roots.push("bhd");
            }
            let mut lens: Vec<(u64, Option<W>)> = (0..70u64).map(|n| (n, None)).collect();
            for r in 0..32 {
                let w = self.sym("Q", r);
                lens.push((r, Some(w)));
            }
            for f in roots {
                for &(n, w) in &lens {
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{}: {} behaves like new(zero key)", b, f);
                    let what = format!("{} value of {} differs from new(zero key)", f, b);
                    let len = w.unwrap_or_else(|| self.c(n));
                    let p = self.start_b(&[b]);
                    let m = self.key_model(&zk, 0);
                    let ps = self.mk_new(p, b, &zk, 0);
                    let go = |s: &mut Self, ps: Paths<'tcx>, i: usize| {
                        let ps = s.each(ps, |s, p| {
                            let d = s.next_data(&p, i, len);
                            s.hashn(p, i, 64, &d)
                        });
                        let ps = s.each(ps, |s, p| s.app_w(p, i, len));
                        let ps = s.each(ps, |s, p| s.finals(p, i));
                        s.each(ps, |s, p| s.ckpt(p, i))
                    };
                    let ps = go(self, ps, 0);
                    self.rel(&kind, &what, ps, |s, p| {
                        let i = p.objs.len();
                        let ps = s.mk_plain(p, b, f, vec![], Some(m.clone()));
                        go(s, ps, i)
                    });
                }
            }
            // default = HighwayHash under the zero key (all types agree)
            for &(n, w) in &lens {
                if !self.unit() {
                    continue;
                }
                let kind = format!("{}: default equals HighwayHash under the zero key", b);
                let what = format!("default value of {} is not the zero-key HighwayHash", b);
                let len = w.unwrap_or_else(|| self.c(n));
                let p = self.start_b(&[b]);
                let m = self.key_model(&zk, 0);
                let ps = self.mk_plain(p, b, "default", vec![], Some(m));
                let ps = self.each(ps, |s, p| s.app_w(p, 0, len));
                let ps = self.each(ps, |s, p| s.finals(p, 0));
                for q in self.tested(&kind, ps, &what) {
                    let m = q.objs[0].m.clone().unwrap();
                    for (j, bits) in [64, 128, 256].into_iter().enumerate() {
                        let e = self.expect(&m, bits);
                        if !self.equal(&kind, &q, e, q.obs[j], &what) {
                            break;
                        }
                    }
                }
            }
        }
        if self.unit() {
            // Key::default is the zero key
            let p = self.start_b(&[]);
            let outs = self.s.call(p.st.clone(), "key::default", vec![]);
            let kind = "Key::default is zero";
            let ps = self.join_pub(&p, "Key::default()", outs, |s, q, v| {
                for i in 0..4 {
                    let x = s.s.it.sub_val(&v, 32, 8 * i, 8);
                    if let Ok(w) = s.s.it.word_of(&q.st, &x) {
                        q.obs.push(w)
                    }
                }
            });
            for q in self.tested(kind, ps, "Key::default()") {
                for &w in q.obs.iter() {
                    self.equal(kind, &q, z, w, "Key::default() is not the zero key");
                }
            }
        }
        if self.unit() {
            // HighwayBuildHasher::default builds zero-key hashers
            let kind = "HighwayBuildHasher::default builds zero-key hashers";
            let p = self.start_b(&[]);
            let ps = self.mk_new(p, "auto", &zk, 0);
            let ps = self.each(ps, |s, p| s.app(p, 0, 37));
            let ps = self.each(ps, |s, p| s.finals(p, 0));
            self.rel(kind, "hasher of a default HighwayBuildHasher differs from the zero-key hasher", ps, |s, p| {
                let ps = s.bh_new(p, None);
                let ps = s.each(ps, |s, p| s.bh_build(p, 1, &zk, 0));
                let ps = s.each(ps, |s, p| s.app(p, 2, 37));
                s.each(ps, |s, p| s.finals(p, 2))
            });
        }
    }
    /// a HighwayBuildHasher (as an object of backend "bh")
    pub fn bh_new(&mut self, p: Path<'tcx>, key: Option<&[W; 4]>) -> Paths<'tcx> {
        let (f, args) = match key {
            Some(k) => ("auto::bh_new", vec![self.s.words_val(k, 8)]),
            None => ("auto::bh_default", vec![]),
        };
        let outs = self.s.make(p.st.clone(), f, args);
        self.join_pub(&p, f, outs, |_, q, o| q.objs.push(MObj { o, b: "bh".into(), m: None }))
    }
    pub fn bh_build(&mut self, p: Path<'tcx>, i: usize, key: &[W; 4], stream: u32) -> Paths<'tcx> {
        let ptr = self.s.objptr(p.objs[i].o);
        let m = self.key_model(key, stream);
        let outs = self.s.make(p.st.clone(), "auto::bh_build", vec![ptr]);
        self.join_pub(&p, "build_hasher", outs, |_, q, o| q.objs.push(MObj { o, b: "auto".into(), m: Some(m.clone()) }))
    }

    // ------------------------------------------------------------ origins and arbitrary checkpoints
    /// a checkpoint whose lanes and buffer are symbols and whose count is `cnt`
    pub fn arb_ck(&mut self, cnt: W) -> Vec<W> {
        let mut v: Vec<W> = (0..160).map(|i| self.s.it.t.sym(&format!("ck{}", i), 8)).collect();
        for i in 0..4 {
            let b = self.s.it.t.extract(cnt, 8 * i, 8);
            v.push(b);
        }
        v
    }
    pub fn arb_lanes(&mut self) -> spec::Lanes {
        let mut l = [self.s.it.t.cst(64, 0); 16];
        for i in 0..16 {
            let by: Vec<W> = (0..8).map(|j| self.s.it.t.sym(&format!("ck{}", 8 * i + j), 8)).collect();
            l[i] = self.s.it.t.concat(&by);
        }
        l
    }
    pub fn cnt_const(&mut self, n: u64) -> W {
        self.s.it.t.cst(32, n as u128)
    }
    /// a count symbol restricted to [lo, hi]
    pub fn cnt_sym(&mut self, lo: u128, hi: u128) -> W {
        let name = format!("count[{}..{}]", lo, hi);
        let w = self.s.it.t.sym(&name, 32);
        let a = match self.s.it.t.nodes[(self.s.it.t.bits(w)[0] >> 1) as usize] {
            Node::Bit(a, _) => a,
            _ => return w,
        };
        self.s.it.t.ranges.insert(a, (lo, hi));
        w
    }
    /// model of an object restored from arb_ck with count n<32 (None for others)
    pub fn arb_model(&mut self, n: u64, stream: u32) -> Option<Model> {
        let l = self.arb_lanes();
        let pend: Vec<W> = (0..n.min(32)).map(|i| self.s.it.t.sym(&format!("ck{}", 128 + i), 8)).collect();
        if n < 32 {
            Some(self.state_model(&l, &pend, stream))
        } else {
            // the clamped interpretation; lengths are only tracked
            let pk = spec::packet(&mut self.s.it.t, &pend);
            let mut l = l;
            spec::update(&mut self.s.it.t, &mut l, &pk);
            Some(self.state_model(&l, &[], stream))
        }
    }
    /// counts to try for arbitrary checkpoints: 0..=31 exactly, beyond by representatives and ranges
    pub fn counts(&self) -> Vec<(u64, bool)> {
        let mut v: Vec<(u64, bool)> = (0..32).map(|n| (n, false)).collect();
        v.push((32, true));
        for n in [32, 33, 34, 40, 48, 63, 64, 65, 96, 127, 128, 160, 255, 256, 257, 1024, 65535, 65536, 65568, 0x7fff_ffff, 0x8000_0000, 0xffff_ff00, 0xffff_ffe0, 0xffff_ffff] {
            v.push((n, false));
        }
        v
    }
    pub fn cnt(&mut self, c: (u64, bool)) -> W {
        if c.1 {
            self.cnt_sym(c.0 as u128, u32::MAX as u128)
        } else {
            self.cnt_const(c.0)
        }
    }

    // ------------------------------------------------------------ C11
    fn c11(&mut self) {
        let bs = self.all();
        let counts = self.counts();
        for &cn in &counts {
            let small = cn.0 < 32;
            let lens: Vec<u64> = if self.thorough() {
                (0..68).collect()
            } else {
                vec![0, 1, 2, 15, 16, 31, 32, 33, 64, 65]
            };
            for b in &bs {
                for &n in &lens {
                    // same later results as portable (and the same checkpoint right after restoring)
                    if b != "portable" && self.unit() {
                        let len = self.c(n);
                        self.arb_versus(b, cn, len);
                    }
                    // laws on this backend
                    if self.unit() {
                        self.arb_laws(b, cn, n);
                    }
                }
                if b != "portable" && (cn.0 % 5 == 0 || self.thorough()) {
                    for n in self.far().into_iter().skip(cn.0 as usize % 3).step_by(3) {
                        if self.unit() {
                            let len = self.c(n);
                            self.arb_versus(b, cn, len);
                        }
                    }
                }
                for r in [0u64, 1, 13, 31] {
                    if b != "portable" && (small || cn.1 || cn.0 == 32) && self.unit() {
                        let len = self.sym("Q", (r + cn.0) % 32);
                        self.arb_versus(b, cn, len);
                    }
                }
            }
        }
    }
    fn arb_versus(&mut self, b: &str, cn: (u64, bool), len: W) {
        let kind = format!("{}: restore of arbitrary bytes agrees with portable", b);
        let what = format!("{} restored from 164 arbitrary bytes (count {}{}) behaves differently from portable", b, cn.0, if cn.1 { " or more" } else { "" });
        let cw = self.cnt(cn);
        let ck = self.arb_ck(cw);
        let m = self.arb_model(cn.0, 0);
        let p = self.start_b(&[b]);
        let go = |s: &mut Self, p: Path<'tcx>, b: &str| {
            let i = p.objs.len();
            let ps = s.mk_restore(p, b, &ck, m.clone());
            let ps = s.each(ps, |s, p| s.ckpt(p, i));
            let ps = s.each(ps, |s, p| s.finals(p, i));
            let ps = if s.s.has(b, "finish") && s.s.has("portable", "finish") { s.each(ps, |s, p| s.observe(p, i, "finish")) } else { ps };
            let ps = s.each(ps, |s, p| s.app_w(p, i, len));
            let ps = s.each(ps, |s, p| s.ckpt(p, i));
            s.each(ps, |s, p| s.finals(p, i))
        };
        let go_nf = |s: &mut Self, p: Path<'tcx>, b: &str| {
            let i = p.objs.len();
            let ps = s.mk_restore(p, b, &ck, m.clone());
            let ps = s.each(ps, |s, p| s.app_w(p, i, len));
            let ps = s.each(ps, |s, p| s.ckpt(p, i));
            s.each(ps, |s, p| s.finals(p, i))
        };
        if self.s.has(b, "finish") {
            let r = go(self, p, "portable");
            self.rel(&kind, &what, r, |s, p| go(s, p, b));
        } else {
            let r = go_nf(self, p, "portable");
            self.rel(&kind, &what, r, |s, p| go_nf(s, p, b));
        }
    }
    fn arb_laws(&mut self, b: &str, cn: (u64, bool), n: u64) {
        let cw = self.cnt(cn);
        let ck = self.arb_ck(cw);
        let m = self.arb_model(cn.0, 0);
        let len = self.c(n);
        let z = self.c(0);
        let (h1, h2) = (self.c(n / 2), self.c(n - n / 2));
        let tag = format!("{}{}", cn.0, if cn.1 { " or more" } else { "" });
        let go = |s: &mut Self, p: Path<'tcx>, ops: &[Op]| {
            let i = p.objs.len();
            let k = p.cks.len();
            let ps = s.mk_restore(p, b, &ck, m.clone());
            let ps = s.each(ps, |s, p| s.ops(p, i, ops));
            let ps: Paths<'tcx> = ps
                .into_iter()
                .map(|mut p| {
                    p.cks.truncate(k);
                    p
                })
                .collect();
            let ps = s.each(ps, |s, p| s.ckpt(p, i));
            s.each(ps, |s, p| s.finals(p, i))
        };
        let mut laws: Vec<(&str, Vec<Op>)> = vec![
            ("an empty append changes nothing", vec![Op::App(z), Op::App(len), Op::App(z)]),
            ("streaming invariance", vec![Op::App(h1), Op::App(h2)]),
            ("its own checkpoint restores transparently", vec![Op::Hop(b.to_string()), Op::App(len)]),
            ("its own checkpoint restores transparently", vec![Op::App(h1), Op::Hop(b.to_string()), Op::Hop(b.to_string()), Op::App(h2)]),
            ("a clone is identical", vec![Op::App(h1), Op::Clone, Op::App(h2)]),
        ];
        if b != "portable" {
            laws.push(("its own checkpoint restores transparently", vec![Op::App(h1), Op::Hop("portable".to_string()), Op::Hop(b.to_string()), Op::App(h2)]));
        }
        if n == 0 {
            laws.truncate(3);
        }
        for (law, ops) in laws {
            let kind = format!("{}: restored from arbitrary bytes: {}", b, law);
            let what = format!("{} restored from 164 arbitrary bytes (count {}) breaks the law: {}", b, tag, law);
            let p = self.start_b(&[b]);
            let r = go(self, p, &[Op::App(len)]);
            // totality is part of the property, on the reference side as well
            let mut good = vec![];
            for q in r {
                if q.fail.is_some() {
                    self.failed(&kind, &q, &format!("{} restored from 164 arbitrary bytes (count {})", b, tag));
                } else {
                    good.push(q);
                }
            }
            self.rel(&kind, &what, good, |s, p| go(s, p, &ops));
        }
    }

    // ------------------------------------------------------------ C12
    fn c12(&mut self) {
        let bs: Vec<String> = self.all().into_iter().filter(|b| self.s.has(b, "finish")).collect();
        let key = self.s.key_syms();
        for b in &bs {
            let b = b.as_str();
            let ways = self.ways(b);
            // finish = 64-bit hash of the bytes so far, repeatedly and between writes
            let pairs: Vec<(u64, u64)> = if self.thorough() {
                (0..70).flat_map(|a| (0..40).map(move |c| (a, c))).collect()
            } else {
                (0..70).map(|a| (a, (a * 11 + 5) % 37)).chain((0..34).map(|c| (c / 3, c))).collect()
            };
            let mut cases: Vec<(W, W)> = vec![];
            for (a, c) in pairs {
                cases.push((self.c(a), self.c(c)));
            }
            for r in 0..32 {
                let (x, y) = (self.sym("Q", r), self.c((r * 3 + 1) % 33));
                cases.push((x, y));
                cases.push((y, x));
            }
            for (j, n) in self.far().into_iter().enumerate() {
                cases.push((self.c(n), self.c(5 * j as u64)));
                cases.push((self.c(7 * j as u64 % 40), self.c(n)));
            }
            for (k, (a, c)) in cases.into_iter().enumerate() {
                if !self.unit() {
                    continue;
                }
                let kind = format!("{}: finish is the 64-bit hash of the bytes written", b);
                let what = format!("{}: Hasher::finish differs from the 64-bit hash of the bytes written so far", b);
                let t = self.s.it.t.add(a, c);
                let p = self.start_b(&[b]);
                let ps = self.mk_new(p, b, &key, 0);
                // reference: one-shot 64-bit hashes of each prefix
                let z = self.c(0);
                let mut ps = ps;
                for l in [z, z, a, a, a, t, t] {
                    ps = self.each(ps, |s, p| {
                        let d = s.next_data(&p, 0, l);
                        s.hashn(p, 0, 64, &d)
                    });
                }
                self.rel(&kind, &what, ps, |s, p| {
                    let i = p.objs.len();
                    let ps = s.mk_new(p, b, &key, 0);
                    let ops = [
                        Op::Obs("finish"),
                        Op::Obs("finish"),
                        ways_op(ways, k, a),
                        Op::Obs("finish"),
                        Op::Obs("finish"),
                        Op::Fin(64),
                        ways_op(ways, k + 1, c),
                        Op::Obs("finish"),
                        Op::Fin(64),
                    ];
                    s.each(ps, |s, p| s.ops(p, i, &ops))
                });
            }
            // integer writes feed their native bytes
            for (f, _) in INTS {
                for off in [0u64, 1, 30, 31] {
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{}: integer writes feed their native-endian bytes", b);
                    let what = format!("{}: {} does not hash the value's bytes", b, f);
                    let n = self.int_size(f);
                    let t = self.c(off + n);
                    let p = self.start_b(&[b]);
                    let ps = self.mk_new(p, b, &key, 0);
                    let ps = self.each(ps, |s, p| {
                        let d = s.next_data(&p, 0, t);
                        s.hashn(p, 0, 64, &d)
                    });
                    self.rel(&kind, &what, ps, |s, p| {
                        let i = p.objs.len();
                        let o = s.c(off);
                        let ps = s.mk_new(p, b, &key, 0);
                        s.each(ps, |s, p| s.ops(p, i, &[Op::Hw(o), Op::Int(f), Op::Obs("finish")]))
                    });
                }
            }
            if !self.s.has(b, "iowrite_n") {
                continue;
            }
            // io::Write
            let mut lens: Vec<(u64, W)> = vec![];
            for n in (0..70).chain([100, 128, 255, 256, 257, 512, 1000]) {
                lens.push((n % 33, self.c(n)));
                lens.push((n % 7, self.c(n)));
            }
            for r in 0..32 {
                lens.push((r, self.sym("Q", 31 - r)));
                lens.push((0, self.sym("Q", r)));
            }
            for (j, n) in self.far().into_iter().enumerate() {
                lens.push((3 * j as u64, self.c(n)));
                lens.push((0, self.c(n)));
            }
            for (pre, len) in lens {
                if !self.unit() {
                    continue;
                }
                let kind = format!("{}: io::Write consumes and reports the whole buffer", b);
                let what = format!("{}: io::Write::write does not report the whole buffer as written", b);
                let p = self.start_b(&[b]);
                let ps = self.mk_new(p, b, &key, 0);
                let ps = self.each(ps, |s, p| s.app(p, 0, pre));
                let ps = self.each(ps, |s, p| {
                    let d = s.next_data(&p, 0, len);
                    s.feed(p, 0, "iowrite_n", &d)
                });
                for q in self.tested(&kind, ps, &what) {
                    self.equal(&kind, &q, len, q.obs[0], &what);
                }
                for (f, nm) in [("iowrite_all_ok", "write_all"), ("ioflush_ok", "flush")] {
                    let kind = format!("{}: io::Write::{} succeeds and adds exactly its bytes", b, nm);
                    let what = format!("{}: io::Write::{} fails", b, nm);
                    let p = self.start_b(&[b]);
                    let ps = self.mk_new(p, b, &key, 0);
                    let ps = self.each(ps, |s, p| s.app(p, 0, pre));
                    let ps = if f == "ioflush_ok" {
                        self.each(ps, |s, p| s.observe(p, 0, f))
                    } else {
                        self.each(ps, |s, p| {
                            let d = s.next_data(&p, 0, len);
                            s.feed(p, 0, f, &d)
                        })
                    };
                    let one = self.s.it.t.cst(8, 1);
                    for q in self.tested(&kind, ps, &what) {
                        self.equal(&kind, &q, one, q.obs[0], &what);
                    }
                }
                // consumed bytes: the state equals the appended one
                let kind = format!("{}: io::Write consumes exactly the buffer", b);
                let what = format!("{}: io::Write::write/flush does not hash exactly the buffer", b);
                let p = self.start_b(&[b]);
                let ps = self.mk_new(p, b, &key, 0);
                let ps = self.each(ps, |s, p| s.app(p, 0, pre));
                let ps = self.each(ps, |s, p| s.app_w(p, 0, len));
                let ps = self.each(ps, |s, p| s.finals(p, 0));
                self.rel(&kind, &what, ps, |s, p| {
                    let pw = s.c(pre);
                    let i = p.objs.len();
                    let ps = s.mk_new(p, b, &key, 0);
                    let ps = s.each(ps, |s, p| s.ops(p, i, &[Op::Io(pw), Op::Quiet("ioflush_ok"), Op::Io(len), Op::Quiet("ioflush_ok")]));
                    s.each(ps, |s, p| s.finals(p, i))
                });
            }
            // gathered writes report what they consume
            for (x, y) in [(0u64, 0u64), (0, 5), (3, 0), (3, 4), (31, 1), (20, 20), (32, 32), (40, 33)] {
                if !self.unit() {
                    continue;
                }
                self.vectored(b, x, y);
            }
        }
        // BuildHasher
        for n in (0..40u64).chain([64, 65, 100]) {
            if !self.unit() {
                continue;
            }
            let kind = "BuildHasher hands out hashers identical to HighwayHasher::new(key)";
            let what = "hasher handed out by HighwayBuildHasher differs from HighwayHasher::new(key)";
            let p = self.start_b(&[]);
            let ps = self.mk_new(p, "auto", &key, 0);
            let ps = self.each(ps, |s, p| s.app(p, 0, n));
            let ps = self.each(ps, |s, p| s.finals(p, 0));
            let ps = self.each(ps, |s, p| s.ckpt(p, 0));
            for which in 0..3 {
                self.rel(kind, what, ps.clone(), |s, p| {
                    let ps = s.bh_new(p, Some(&key));
                    let ps = s.each(ps, |s, p| s.bh_build(p, 1, &key, 0));
                    let mut i = 2;
                    let ps = if which > 0 {
                        // use the first hasher, then build another
                        let ps = s.each(ps, |s, p| s.app(p, 2, 41));
                        let ps = s.each(ps, |s, p| s.ops(p, 2, &[Op::Quiet("finish")]));
                        i = 3;
                        let ps = s.each(ps, |s, p| s.bh_build(p, 1, &key, 0));
                        if which == 2 {
                            s.each(ps, |s, p| s.app(p, 2, 3))
                        } else {
                            ps
                        }
                    } else {
                        ps
                    };
                    let ps = s.each(ps, |s, p| s.app(p, i, n));
                    let ps = s.each(ps, |s, p| s.finals(p, i));
                    s.each(ps, |s, p| s.ckpt(p, i))
                });
            }
        }
        self.hash_one();
    }
    fn vectored(&mut self, b: &str, x: u64, y: u64) {
        let kind = format!("{}: write_vectored consumes what it reports", b);
        let what = format!("{}: write_vectored hashes other bytes than it reports", b);
        let key = self.s.key_syms();
        let p = self.start_b(&[b]);
        let ps = self.mk_new(p, b, &key, 0);
        let (xw, yw, z) = (self.c(x), self.c(y), self.c(0));
        let (d1, d2) = (Data { id: 0, base: z, len: xw }, Data { id: 0, base: xw, len: yw });
        let o = |s: &mut Self, p: Path<'tcx>| -> Paths<'tcx> {
            let mut st = p.st.clone();
            let ptr = s.s.objptr(p.objs[0].o);
            let (_, v1) = s.s.slice_arg(&mut st, &d1);
            let (_, v2) = s.s.slice_arg(&mut st, &d2);
            let outs = s.s.call(st, &format!("{}::iovec_n", b), vec![ptr, v1, v2]);
            s.join_pub(&p, "write_vectored", outs, |s, q, v| {
                if let Ok(w) = s.s.it.word_of(&q.st, &v) {
                    q.obs.push(w)
                }
            })
        };
        let ps = self.each(ps, o);
        for q in self.tested(&kind, ps, &what) {
            let Some(n) = q.obs.first().and_then(|&w| self.s.it.t.as_const(w)) else {
                self.unknown(&kind, "length reported by write_vectored is not constant".into());
                continue;
            };
            let mut q = q;
            q.obs.clear();
            let fin = self.fin(q, 0, 256);
            for q in self.tested(&kind, fin, &what) {
                let n = n as u64;
                let mut m = self.key_model(&key, 0);
                if n > x + y {
                    let site = self.op_site_text(b, "iovec_n");
                    self.bad(
                        format!("{}|report", kind),
                        format!("{}: reports {} of {} bytes [{}]", what, n, x + y, self.cfg),
                        site,
                    );
                    continue;
                }
                m.pos = self.c(n);
                // relational: what a plain append of the reported bytes gives
                let mut p2 = self.start_b(&[b]);
                p2.st.facts = q.st.facts.clone();
                let ps = self.mk_new(p2, b, &key, 0);
                let ps = self.each(ps, |s, p| s.app(p, 0, n));
                let ps = self.each(ps, |s, p| s.fin(p, 0, 256));
                let ps = self.good(&kind, ps);
                if ps.len() == 1 {
                    let e = ps[0].obs[0];
                    self.equal(&kind, &q, e, q.obs[0], &what);
                }
            }
        }
    }
    pub fn op_site_text(&mut self, b: &str, f: &str) -> String {
        self.op_site(b, f)
    }
    fn hash_one(&mut self) {
        let key = self.s.key_syms();
        let kind = "hash_one equals hashing with HighwayHasher::new(key)";
        let what = "BuildHasher::hash_one differs from hashing the value with HighwayHasher::new(key)";
        if self.unit() {
            let p = self.start_b(&[]);
            let ps = self.mk_new(p, "auto", &key, 0);
            let ps = self.each(ps, |s, p| s.ops(p, 0, &[Op::Int("write_u64"), Op::Obs("finish")]));
            let by = self.s.stream_bytes(0, 8);
            let by = if self.s.it.be { by.into_iter().rev().collect() } else { by };
            let v = self.s.it.t.concat(&by);
            self.rel(kind, what, ps, |s, p| {
                let ps = s.bh_new(p, Some(&key));
                s.each(ps, |s, p| {
                    let ptr = s.s.objptr(p.objs[1].o);
                    let outs = s.s.call(p.st.clone(), "auto::bh_hash_u64", vec![ptr, Val::W(v)]);
                    s.join_pub(&p, "hash_one(u64)", outs, |s, q, v| {
                        if let Ok(w) = s.s.it.word_of(&q.st, &v) {
                            q.obs.push(w)
                        }
                    })
                })
            });
        }
        for n in [0u64, 1, 7, 23, 24, 25, 31, 32, 40, 64] {
            if !self.unit() {
                continue;
            }
            // hashing a byte slice through two builders of one key gives the same value
            let len = self.c(n);
            let z = self.c(0);
            let d = Data { id: 0, base: z, len };
            let one = |s: &mut Self, p: Path<'tcx>| {
                let i = p.objs.len();
                let ps = s.bh_new(p, Some(&key));
                s.each(ps, |s, p| {
                    let mut st = p.st.clone();
                    let ptr = s.s.objptr(p.objs[i].o);
                    let (_, v) = s.s.slice_arg(&mut st, &d);
                    let outs = s.s.call(st, "auto::bh_hash_bytes", vec![ptr, v]);
                    s.join_pub(&p, "hash_one(&[u8])", outs, |s, q, v| {
                        if let Ok(w) = s.s.it.word_of(&q.st, &v) {
                            q.obs.push(w)
                        }
                    })
                })
            };
            let p = self.start_b(&[]);
            let ps = one(self, p);
            self.rel("two builders of one key agree", "two HighwayBuildHashers of one key hash equal values differently", ps, |s, p| one(s, p));
        }
    }

    // ------------------------------------------------------------ C13
    fn c13(&mut self) {
        let key = self.s.key_syms();
        for b in self.all() {
            let b = b.as_str();
            let mut obsv = vec!["checkpoint", "clone", "debug"];
            if self.s.has(b, "finish") {
                obsv.push("finish");
            }
            let mut lens: Vec<W> = vec![];
            for n in (0..70).chain([95, 96, 97, 128]) {
                lens.push(self.c(n));
            }
            for r in 0..32 {
                lens.push(self.sym("Q", r));
            }
            for n in self.far() {
                lens.push(self.c(n));
            }
            for (k, len) in lens.into_iter().enumerate() {
                for restored in [false, true] {
                    if restored && k >= 70 {
                        continue;
                    }
                    for f in obsv.iter() {
                        if !self.unit() {
                            continue;
                        }
                        let kind = format!("{}: {} does not perturb the hasher", b, f);
                        let what = format!("{}: a later result changes after {}", b, f);
                        let p = self.start_b(&[b]);
                        let cw = self.cnt_const((k % 40) as u64);
                        let ck = self.arb_ck(cw);
                        let m = self.arb_model((k % 40) as u64, 0);
                        let mk = |s: &mut Self, p: Path<'tcx>| {
                            let i = p.objs.len();
                            let ps = if restored { s.mk_restore(p, b, &ck, m.clone()) } else { s.mk_new(p, b, &key, 0) };
                            s.each(ps, |s, p| s.app_w(p, i, len))
                        };
                        let ps = mk(self, p.clone());
                        // the object's bytes are unchanged: nothing later can differ
                        let mut changed = false;
                        let gp = self.good(&kind, ps);
                        for q in gp {
                            let before = self.bytes_of(&q, 0);
                            let qs = self.ops(q, 0, &[Op::Quiet(f)]);
                            for q in self.tested(&kind, qs, &what) {
                                let after = self.bytes_of(&q, 0);
                                if self.same_bytes(&before, &after) {
                                    self.ok(&kind);
                                } else {
                                    changed = true;
                                }
                            }
                        }
                        if changed || k % 9 == 0 || self.thorough() {
                            // compare results observationally
                            let c = self.c(((k * 7) % 40) as u64);
                            let go = |s: &mut Self, p: Path<'tcx>, quiet: bool| {
                                let i = p.objs.len();
                                let ps = mk(s, p);
                                let ps = if quiet { s.each(ps, |s, p| s.ops(p, i, &[Op::Quiet(f), Op::Quiet(f)])) } else { ps };
                                let ps = s.each(ps, |s, p| s.finals(p, i));
                                let ps = s.each(ps, |s, p| s.ckpt(p, i));
                                let ps = s.each(ps, |s, p| s.app_w(p, i, c));
                                let ps = if quiet { s.each(ps, |s, p| s.ops(p, i, &[Op::Quiet(f)])) } else { ps };
                                let ps = s.each(ps, |s, p| s.app(p, i, 33));
                                let ps = s.each(ps, |s, p| s.finals(p, i));
                                s.each(ps, |s, p| s.ckpt(p, i))
                            };
                            let r = go(self, p.clone(), false);
                            self.rel(&kind, &what, r, |s, p| go(s, p, true));
                        }
                    }
                    // clones
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{}: clones are identical and independent", b);
                    let what = format!("{}: clone and original differ or influence each other", b);
                    let p = self.start_b(&[b]);
                    let cw = self.cnt_const((k % 40) as u64);
                    let ck = self.arb_ck(cw);
                    let m = self.arb_model((k % 40) as u64, 0);
                    let c = self.c(((k * 5) % 70) as u64);
                    let mk = |s: &mut Self, p: Path<'tcx>| {
                        let i = p.objs.len();
                        let ps = if restored { s.mk_restore(p, b, &ck, m.clone()) } else { s.mk_new(p, b, &key, 0) };
                        s.each(ps, |s, p| s.app_w(p, i, len))
                    };
                    let tail = |s: &mut Self, ps: Paths<'tcx>, i: usize| {
                        let ps = s.each(ps, |s, p| s.finals(p, i));
                        let ps = s.each(ps, |s, p| s.ckpt(p, i));
                        let ps = s.each(ps, |s, p| s.app_w(p, i, c));
                        let ps = s.each(ps, |s, p| s.finals(p, i));
                        s.each(ps, |s, p| s.ckpt(p, i))
                    };
                    let r = mk(self, p.clone());
                    let r = tail(self, r, 0);
                    for how in 0..4 {
                        self.rel(&kind, &what, r.clone(), |s, p| {
                            let i = p.objs.len();
                            let ps = mk(s, p);
                            match how {
                                // the clone, after the original moved on
                                0 | 1 => {
                                    let ps = s.each(ps, |s, p| s.clone_obj(p, i));
                                    let (a, z) = if how == 0 { (i, i + 1) } else { (i + 1, i) };
                                    let ps = s.each(ps, |s, p| s.other_bytes(p, a, 77, 40));
                                    tail(s, ps, z)
                                }
                                2 => {
                                    let ps = s.each(ps, |s, p| s.ops(p, i, &[Op::CloneFrom]));
                                    tail(s, ps, i)
                                }
                                _ => {
                                    // clone, drop the original's contents, clone the clone
                                    let ps = s.each(ps, |s, p| s.ops(p, i, &[Op::Clone, Op::Clone]));
                                    tail(s, ps, i)
                                }
                            }
                        });
                    }
                }
            }
        }
    }
    /// feed unrelated bytes to object i
    pub fn other_bytes(&mut self, p: Path<'tcx>, i: usize, stream: u32, n: u64) -> Paths<'tcx> {
        let (z, w) = (self.c(0), self.c(n));
        let d = Data { id: stream, base: z, len: w };
        let m = p.objs[i].m.clone();
        let mut p = p;
        p.objs[i].m = None;
        let ps = self.feed(p, i, "append", &d);
        ps.into_iter()
            .map(|mut q| {
                q.objs[i].m = m.clone();
                q
            })
            .collect()
    }

    // ------------------------------------------------------------ C14
    fn c14(&mut self) {
        let key = self.s.key_syms();
        let bs = self.all();
        let top = if self.thorough() { 140 } else { 70 };
        let mut totals: Vec<(u64, Option<W>)> = (0..top).map(|n| (n, None)).collect();
        for r in 0..32 {
            let w = self.sym("Q", r);
            totals.push((r, Some(w)));
        }
        for b in &bs {
            for &(n, w) in &totals {
                let len = w.unwrap_or_else(|| self.c(n));
                let nc = self.c(n);
                // different chunkings on the same backend, and portable one-shot
                let mut hist: Vec<Vec<Op>> = vec![];
                if w.is_none() {
                    for a in 0..=n {
                        if self.thorough() || a < 3 || a + 3 > n || a % 16 < 2 || a % 8 == n % 8 {
                            let (x, y) = (self.c(a), self.c(n - a));
                            hist.push(vec![Op::App(x), Op::App(y)]);
                        }
                    }
                    if n < 70 {
                        let one = self.c(1);
                        hist.push((0..n).map(|_| Op::App(one)).collect());
                    }
                    for k in [3u64, 7, 20, 31] {
                        let mut v = vec![];
                        let mut left = n;
                        while left > 0 {
                            let c = left.min(k);
                            let cw = self.c(c);
                            v.push(Op::App(cw));
                            left -= c;
                        }
                        hist.push(v);
                    }
                } else {
                    // same total, reached with a short write first or last
                    let q = self.s.it.index_sym("Q", 5, 6);
                    let base = self.s.it.len_word(q, 0);
                    hist.push(vec![Op::App(nc), Op::App(base)]);
                    hist.push(vec![Op::App(base), Op::App(nc)]);
                    let (x, y) = (self.c(n / 2), self.c(n - n / 2));
                    hist.push(vec![Op::App(x), Op::App(base), Op::App(y)]);
                    let m8 = self.c(8);
                    let rest = self.s.it.t.sub(len, m8);
                    if n >= 8 {
                        hist.push(vec![Op::App(m8), Op::App(rest)]);
                    }
                }
                if b != "portable" {
                    hist.push(vec![Op::App(len)]);
                }
                for h in hist {
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{}: equal streams give equal checkpoints", b);
                    let what = format!("{}: checkpoints of hashers that consumed the same stream differ", b);
                    let p = self.start_b(&[b]);
                    let ps = self.mk_new(p, "portable", &key, 0);
                    let ps = self.each(ps, |s, p| s.app_w(p, 0, len));
                    let ps = self.each(ps, |s, p| s.ckpt(p, 0));
                    self.rel(&kind, &what, ps, |s, p| {
                        let i = p.objs.len();
                        let ps = s.mk_new(p, b, &key, 0);
                        let ps = s.each(ps, |s, p| s.ops(p, i, &h));
                        s.each(ps, |s, p| s.ckpt(p, i))
                    });
                }
                // restoring and checkpointing again
                for o in &bs {
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{} -> {}: checkpoint of a restored checkpoint is the same", b, o);
                    let what = format!("restoring a checkpoint of {} as {} and checkpointing again gives other bytes", b, o);
                    let p = self.start_b(&[b, o]);
                    let ps = self.mk_new(p, b, &key, 0);
                    let ps = self.each(ps, |s, p| s.app_w(p, 0, len));
                    let ps = self.each(ps, |s, p| s.ckpt(p, 0));
                    self.rel(&kind, &what, ps, |s, p| {
                        let ck = p.cks[0].clone();
                        let m = p.objs[0].m.clone();
                        let i = p.objs.len();
                        let ps = s.mk_restore(p, o, &ck, m);
                        s.each(ps, |s, p| s.ckpt(p, i))
                    });
                    // and after a hop with more bytes the checkpoint is that of the whole stream
                    if w.is_none() {
                        let kind = format!("{} -> {}: checkpoints after a hop are canonical", b, o);
                        let what = format!("checkpoint of {} restored from {} and fed the rest differs from the uninterrupted one", o, b);
                        let p = self.start_b(&[b, o]);
                        let c = (n * 13) % 41;
                        let ps = self.mk_new(p, b, &key, 0);
                        let ps = self.each(ps, |s, p| s.app(p, 0, n + c));
                        let ps = self.each(ps, |s, p| s.ckpt(p, 0));
                        let cw = self.c(c);
                        self.rel(&kind, &what, ps, |s, p| {
                            let i = p.objs.len();
                            let ps = s.mk_new(p, b, &key, 0);
                            let ps = s.each(ps, |s, p| s.ops(p, i, &[Op::App(nc), Op::Hop(o.to_string()), Op::App(cw)]));
                            let ps: Paths<'tcx> = ps
                                .into_iter()
                                .map(|mut p| {
                                    p.cks.truncate(1);
                                    p
                                })
                                .collect();
                            s.each(ps, |s, p| s.ckpt(p, i))
                        });
                    }
                }
                // no absorbed input bytes
                if w.is_none() && n > 0 {
                    for cut in [0, 1, n / 2, n.saturating_sub(1)] {
                        if cut >= n || !self.unit() {
                            continue;
                        }
                        self.absorbed(b, n, cut);
                    }
                }
            }
        }
    }
    fn absorbed(&mut self, b: &str, n: u64, cut: u64) {
        let kind = format!("{}: checkpoint holds no absorbed input byte", b);
        let key = self.s.key_syms();
        let p = self.start_b(&[b]);
        let ps = self.mk_new(p, b, &key, 0);
        let ps = self.each(ps, |s, p| s.apps(p, 0, &[cut, n - cut]));
        let ps = self.each(ps, |s, p| s.ckpt(p, 0));
        let floor = n / 32 * 32;
        for q in self.good(&kind, ps) {
            let mut leak = None;
            for (k, &w) in q.cks[0].iter().enumerate() {
                let mut at = Default::default();
                for &l in self.s.it.t.bits(w).iter() {
                    self.s.it.t.lit_atoms(l, &mut at);
                }
                for a in at {
                    if let AtomKind::Stream(0, o) = self.s.it.t.atoms[a.0 as usize] {
                        if let Some(o) = self.s.it.t.as_const(o) {
                            if (o as u64) < floor && self.s.it.t.width(w) == 8 && self.s.it.t.bits(w).iter().all(|&l| l <= 1 || matches!(self.s.it.t.nodes[(l >> 1) as usize], Node::Bit(x, _) if x == a)) {
                                leak = Some((k, o));
                            }
                        }
                    }
                }
            }
            match leak {
                None => self.ok(&kind),
                Some((k, o)) => {
                    let site = self.op_site(b, "checkpoint");
                    let s = script(&q.log);
                    self.bad(
                        format!("{}|leak", kind),
                        format!("{}: after {} bytes ({} + {}), checkpoint byte {} still holds input byte {} which was already absorbed [{}] script: {}", b, n, cut, n - cut, k, o, self.cfg, s),
                        site,
                    );
                }
            }
        }
    }
}

/// the j-th way of feeding bytes
pub fn ways_op(ways: usize, j: usize, w: W) -> Op {
    match j % ways {
        0 => Op::App(w),
        1 => Op::Hw(w),
        2 => Op::Io(w),
        _ => Op::IoAll(w),
    }
}

include!("checks2.rs");
