//! Scripts over abstract hashers: paths, logical models, comparisons and refutation.

use crate::facts::*;
use crate::interp::*;
use crate::obj::*;
use crate::spec::{self, Lanes};
use crate::term::*;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

/// logical contents of a hasher: `lanes0` holds when the stream is at `off0`; `pos` bytes consumed.
/// Before `off0` the lanes are `start` with `pend` pending bytes that precede stream offset 0.
#[derive(Clone, Debug)]
pub struct Model {
    pub stream: u32,
    pub off0: W,
    pub lanes0: Lanes,
    pub pos: W,
    pub start: Lanes,
    pub pend: Rc<Vec<W>>,
}

#[derive(Clone)]
pub struct MObj {
    pub o: Obj,
    pub b: Rc<str>,
    pub m: Option<Model>,
}

#[derive(Clone)]
pub struct Path<'tcx> {
    pub st: State<'tcx>,
    pub objs: Vec<MObj>,
    pub obs: Vec<W>,
    pub cks: Vec<Vec<W>>,
    pub fail: Option<(String, Bad)>,
    pub log: Rc<Vec<String>>,
}
pub type Paths<'tcx> = Vec<Path<'tcx>>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub what: String,
    pub site: String,
}

pub struct Runner<'tcx> {
    pub s: Session<'tcx>,
    pub prop: String,
    pub cfg: String,
    pub tier: String,
    pub shard: (usize, usize),
    pub unit_no: usize,
    pub trace: bool,
    pub only: Option<usize>,
    pub lite: bool,
    /// 0: units without symbolic lengths, 1: the others, 2: all
    pub pass: u8,
    pub defer: FxHashSet<usize>,
    pub deferred: bool,
    pub snap: BTreeMap<String, u64>,
    /// symbolic lengths are 32*(4*Q+j)+r instead of 32*Q+r
    pub part: Option<u64>,
    /// units to be analysed again for every j
    pub retry: FxHashSet<usize>,
    pub current: Option<(usize, Counts)>,
    /// analyse one unit in so many
    pub stride: u64,
    pub calls_graph: u64,
    pub t0: Instant,
    pub budget: f64,
    pub truncated: u64,
    pub proved: BTreeMap<String, u64>,
    pub undecided: BTreeMap<String, u64>,
    pub undecided_why: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub closed: BTreeMap<String, (u64, u64)>,
    pub values: BTreeMap<String, String>,
    pub units: u64,
    pub tries: u64,
    /// remaining steered valuations
    pub steered: u64,
}

type Counts = [BTreeMap<String, u64>; 3];

/// positions from here on are described by the chain of states instead of being unrolled
const FAR: u128 = 1 << 14;

impl<'tcx> Runner<'tcx> {
    pub fn passes(&mut self) {
        // the two passes may be run by separate processes
        let only = std::env::var("HW_PASS").ok();
        if only.as_deref() == Some("1") {
            let l = std::env::var("HW_DEFER").unwrap_or_default();
            self.defer = l.split(',').filter_map(|x| x.parse().ok()).collect();
        } else {
            self.run_prop();
            if self.pass != 0 || only.is_some() || !self.violations.is_empty() {
                return;
            }
        }
        self.deferred = false;
        self.pass = 1;
        self.unit_no = 0;
        self.run_prop();
        self.unit_done();
        // loops that take several packets at a time can be summarised when the number of packets
        // is known modulo four
        if !self.retry.is_empty() && self.violations.is_empty() {
            self.s.it.fold_ahead = 4;
            self.pass = 3;
            for j in 0..4 {
                self.part = Some(j);
                self.unit_no = 0;
                self.run_prop();
            }
        }
    }
    /// a unit that was not decided is put aside for another form of symbolic lengths
    fn unit_done(&mut self) {
        let Some((i, c)) = self.current.take() else { return };
        if self.undecided != c[1] && self.violations.is_empty() && self.t0.elapsed().as_secs_f64() < 0.4 * self.budget {
            let [p, u, w] = c;
            self.proved = p;
            self.undecided = u;
            self.undecided_why = w;
            self.retry.insert(i);
        }
    }
    /// does this shard do the next unit of work?
    pub fn unit(&mut self) -> bool {
        let i = self.unit_no;
        self.unit_no += 1;
        if self.only.map_or(false, |u| u != i) || i % self.shard.1 != self.shard.0 {
            return false;
        }
        if self.stride > 1 && ((i as u32).wrapping_mul(0x9e37_79b1) >> 8) as u64 % self.stride != 0 {
            return false;
        }
        if self.pass == 1 {
            self.unit_done();
        }
        if self.pass == 1 && !self.defer.contains(&i) || self.pass == 3 && !self.retry.contains(&i) {
            return false;
        }
        if self.violations.len() >= 4 {
            return false;
        }
        if self.t0.elapsed().as_secs_f64() > self.budget {
            self.truncated += 1;
            return false;
        }
        if self.s.it.t.stats().0 > 40_000_000 || self.s.it.full || crate::interp::rss_mb() > crate::interp::MEM_MB {
            self.truncated += 1;
            return false;
        }
        self.deferred = false;
        if self.pass == 0 {
            self.snap = self.proved.clone();
        }
        if self.pass == 1 {
            self.current = Some((i, [self.proved.clone(), self.undecided.clone(), self.undecided_why.clone()]));
        }
        self.units += 1;
        if self.trace {
            eprintln!("unit {} at {:.2}s nodes {}", i, self.t0.elapsed().as_secs_f64(), self.s.it.t.stats().0);
        }
        true
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// units with symbolic lengths come after all others: they are decided last as a program that
    /// fails them usually fails shorter, cheaper ones
    fn put_off(&mut self, p: &Path<'tcx>, d: &Data) -> Option<Paths<'tcx>> {
        if self.pass != 0 || self.s.it.t.as_const(d.len).is_some() {
            return None;
        }
        if !self.deferred {
            self.deferred = true;
            self.units -= 1;
            self.defer.insert(self.unit_no - 1);
            self.proved = std::mem::take(&mut self.snap);
        }
        let mut q = p.clone();
        q.fail = Some(("later".into(), Bad::Unsup("put off".into(), String::new())));
        Some(vec![q])
    }
    pub fn ok(&mut self, kind: &str) {
        if self.deferred {
            return;
        }
        *self.proved.entry(kind.to_string()).or_default() += 1;
    }
    pub fn unknown(&mut self, kind: &str, why: String) {
        if self.deferred {
            return;
        }
        if self.trace {
            eprintln!("undecided {} {}", kind, why);
        }
        *self.undecided.entry(kind.to_string()).or_default() += 1;
        if self.undecided_why.len() < 40 || self.undecided_why.contains_key(&why) {
            *self.undecided_why.entry(why).or_default() += 1;
        }
    }
    pub fn bad(&mut self, key: String, what: String, site: String) {
        if self.deferred {
            return;
        }
        if self.violations.iter().any(|v| v.key == key) {
            return;
        }
        self.violations.push(Violation { key, what, site });
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 6 {
            self.samples.push(s);
        }
    }

    // ------------------------------------------------------------ paths
    pub fn start(&mut self, b: &str) -> Path<'tcx> {
        self.s.it.sym_mode = false;
        Path {
            st: self.s.state_for(b),
            objs: vec![],
            obs: vec![],
            cks: vec![],
            fail: None,
            log: Rc::new(vec![]),
        }
    }
    /// a state that vouches for the features of several explicitly constructed backends
    pub fn start_for(&mut self, bs: &[&str]) -> Path<'tcx> {
        let mut p = self.start("portable");
        let mut f: Vec<String> = vec![];
        for b in bs {
            let s = self.s.state_for(b);
            for x in s.features.iter() {
                if !f.contains(x) {
                    f.push(x.clone());
                }
            }
        }
        p.st.features = Rc::new(f);
        p
    }
    pub fn each(&mut self, ps: Paths<'tcx>, mut f: impl FnMut(&mut Self, Path<'tcx>) -> Paths<'tcx>) -> Paths<'tcx> {
        let mut out = vec![];
        for p in ps {
            if p.fail.is_some() {
                out.push(p);
            } else {
                out.extend(f(self, p));
            }
        }
        out
    }
    fn log(p: &mut Path<'tcx>, s: String) {
        Rc::make_mut(&mut p.log).push(s);
    }
    pub fn join_pub<T>(&mut self, p: &Path<'tcx>, op: &str, outs: Outs<'tcx, T>, f: impl FnMut(&mut Self, &mut Path<'tcx>, T)) -> Paths<'tcx> {
        self.join(p, op, outs, f)
    }
    fn join<T>(&mut self, p: &Path<'tcx>, op: &str, outs: Outs<'tcx, T>, mut f: impl FnMut(&mut Self, &mut Path<'tcx>, T)) -> Paths<'tcx> {
        let mut r = vec![];
        for (st, x) in outs {
            let mut q = Path { st, objs: p.objs.clone(), obs: p.obs.clone(), cks: p.cks.clone(), fail: None, log: p.log.clone() };
            Self::log(&mut q, op.to_string());
            match x {
                Ok(v) => f(self, &mut q, v),
                Err(e) => q.fail = Some((op.to_string(), e)),
            }
            r.push(q);
        }
        r
    }
    pub fn key_model(&mut self, key: &[W; 4], stream: u32) -> Model {
        let l = spec::init(&mut self.s.it.t, key);
        let z = self.s.it.usize_w(0);
        Model { stream, off0: z, lanes0: l, pos: z, start: l, pend: Rc::new(vec![]) }
    }
    /// logical state from lanes and pending bytes, followed by `stream` from offset 0
    pub fn state_model(&mut self, lanes: &Lanes, pend: &[W], stream: u32) -> Model {
        let z = self.s.it.usize_w(0);
        let r = pend.len() as u64;
        if r == 0 {
            return Model { stream, off0: z, lanes0: *lanes, pos: z, start: *lanes, pend: Rc::new(vec![]) };
        }
        let mut l = *lanes;
        let mut by = pend.to_vec();
        by.extend(self.s.stream_bytes(stream, 32 - r));
        let pk = spec::packet(&mut self.s.it.t, &by);
        spec::update(&mut self.s.it.t, &mut l, &pk);
        let off0 = self.s.it.usize_w(32 - r);
        Model { stream, off0, lanes0: l, pos: z, start: *lanes, pend: Rc::new(pend.to_vec()) }
    }
    pub fn mk_new(&mut self, p: Path<'tcx>, b: &str, key: &[W; 4], stream: u32) -> Paths<'tcx> {
        let m = self.key_model(key, stream);
        let outs = self.s.op_new(p.st.clone(), b, key);
        self.join(&p, &format!("{}::new(key)", b), outs, |_, q, o| {
            q.objs.push(MObj { o, b: b.into(), m: Some(m.clone()) })
        })
    }
    pub fn mk_plain(&mut self, p: Path<'tcx>, b: &str, f: &str, args: Vec<Val>, m: Option<Model>) -> Paths<'tcx> {
        let outs = self.s.make(p.st.clone(), &format!("{}::{}", b, f), args);
        self.join(&p, &format!("{}::{}()", b, f), outs, |_, q, o| q.objs.push(MObj { o, b: b.into(), m: m.clone() }))
    }
    pub fn mk_restore(&mut self, p: Path<'tcx>, b: &str, ck: &[W], m: Option<Model>) -> Paths<'tcx> {
        let outs = self.s.op_restore(p.st.clone(), b, ck);
        self.join(&p, &format!("{}::from_checkpoint(..)", b), outs, |_, q, o| {
            q.objs.push(MObj { o, b: b.into(), m: m.clone() })
        })
    }
    pub fn show_len(&mut self, d: &Data) -> String {
        match self.s.it.t.as_const(d.len) {
            Some(c) => format!("{} bytes", c),
            None => {
                let l = self.s.it.t.lin_of(d.len);
                format!("{}+{} bytes (any Q)", if l.0.len() == 1 { format!("{}*Q", l.0[0].1) } else { "sum".into() }, l.1)
            }
        }
    }
    /// prepare loop summaries for data fed to an object
    pub fn prepare(&mut self, m: &Option<Model>, d: &Data) -> bool {
        let it = &mut self.s.it;
        it.sym_mode = false;
        it.fold = None;
        let Some(m) = m else { return it.t.as_const(d.len).is_some() };
        let near = |x: Option<u128>| x.is_some_and(|x| x < FAR);
        let (dl, mp) = (it.t.as_const(d.len), it.t.as_const(m.pos));
        if m.stream != d.id && near(dl) {
            return true;
        }
        if near(dl) && near(mp) {
            return false;
        }
        let mut idx = vec![d.len];
        idx.push(m.pos);
        // remaining bytes of a partial packet
        let cur = if near(mp) { None } else { Some(self.floor_off(m)) };
        let it = &mut self.s.it;
        it.fold_begin(m.stream, m.off0, m.lanes0, &idx);
        if let Some(c) = cur {
            it.fold_unroll(c, 14);
        }
        it.sym_mode = !near(dl);
        true
    }
    /// stream offset of the last packet boundary (lanes are known there)
    pub fn floor_off(&mut self, m: &Model) -> W {
        let t = &mut self.s.it.t;
        let d = t.sub(m.pos, m.off0);
        let low = t.extract(d, 0, 5);
        let n = t.width(m.pos);
        let z = t.zext(low, n);
        t.sub(m.pos, z)
    }
    pub fn after(&mut self, q: &mut Path<'tcx>, i: usize, folded: bool) {
        if folded {
            let o = q.objs[i].o;
            self.s.it.fold_object(&mut q.st, o.0);
        }
        self.s.it.sym_mode = false;
    }
    /// feed data through an entry point taking (&mut T, &[u8])
    pub fn feed(&mut self, p: Path<'tcx>, i: usize, f: &str, d: &Data) -> Paths<'tcx> {
        if let Some(r) = self.put_off(&p, d) {
            return r;
        }
        let (o, b, m) = (p.objs[i].o, p.objs[i].b.clone(), p.objs[i].m.clone());
        let folded = self.prepare(&m, d);
        let outs = self.s.op_slice(p.st.clone(), &format!("{}::{}", b, f), o, d);
        self.s.it.sym_mode = false;
        let op = format!("{}({})", f, self.show_len(d));
        let len = d.len;
        self.join(&p, &op, outs, |s, q, v| {
            if let Some(m) = q.objs[i].m.as_mut() {
                m.pos = s.s.it.t.add(m.pos, len);
            }
            s.after(q, i, folded);
            if let Val::W(w) = v {
                q.obs.push(w)
            }
        })
    }
    pub fn append(&mut self, p: Path<'tcx>, i: usize, d: &Data) -> Paths<'tcx> {
        self.feed(p, i, "append", d)
    }
    /// feed from the object's own stream at its position
    pub fn next_data(&mut self, p: &Path<'tcx>, i: usize, len: W) -> Data {
        let m = p.objs[i].m.as_ref().unwrap();
        Data { id: m.stream, base: m.pos, len }
    }
    pub fn app(&mut self, p: Path<'tcx>, i: usize, n: u64) -> Paths<'tcx> {
        let len = self.s.it.usize_w(n);
        let d = self.next_data(&p, i, len);
        self.append(p, i, &d)
    }
    pub fn app_w(&mut self, p: Path<'tcx>, i: usize, len: W) -> Paths<'tcx> {
        let d = self.next_data(&p, i, len);
        self.append(p, i, &d)
    }
    /// all of `chunks` in turn
    pub fn apps(&mut self, p: Path<'tcx>, i: usize, chunks: &[u64]) -> Paths<'tcx> {
        let mut ps = vec![p];
        for &c in chunks {
            ps = self.each(ps, |s, p| s.app(p, i, c));
        }
        ps
    }
    /// finalize a copy of the object
    pub fn fin(&mut self, p: Path<'tcx>, i: usize, bits: usize) -> Paths<'tcx> {
        let (o, b) = (p.objs[i].o, p.objs[i].b.clone());
        let outs = self.s.op_final(p.st.clone(), &b, o, bits);
        self.join(&p, &format!("finalize{}", bits), outs, |_, q, w| q.obs.push(w))
    }
    /// hashN(self, data) on a copy
    pub fn hashn(&mut self, p: Path<'tcx>, i: usize, bits: usize, d: &Data) -> Paths<'tcx> {
        if let Some(r) = self.put_off(&p, d) {
            return r;
        }
        let (o, b, m) = (p.objs[i].o, p.objs[i].b.clone(), p.objs[i].m.clone());
        self.prepare(&m, d);
        let mut st = p.st.clone();
        let v = self.s.obj_val(&st, o);
        let (a, sv) = self.s.slice_arg(&mut st, d);
        let outs = self.s.call(st, &format!("{}::h{}", b, bits), vec![v, sv]);
        self.s.it.sym_mode = false;
        let outs: Outs<W> = outs
            .into_iter()
            .map(|(mut st, r)| {
                self.s.it.free_alloc(&mut st, a);
                let r = r.and_then(|v| self.s.result_word(&st, &v, bits));
                (st, r)
            })
            .collect();
        let op = format!("hash{}({})", bits, self.show_len(d));
        self.join(&p, &op, outs, |_, q, w| q.obs.push(w))
    }
    /// entry point taking &T and returning a word
    pub fn observe(&mut self, p: Path<'tcx>, i: usize, f: &str) -> Paths<'tcx> {
        let (o, b) = (p.objs[i].o, p.objs[i].b.clone());
        let outs = self.s.call_on(p.st.clone(), &format!("{}::{}", b, f), o, true, None);
        let mut r = vec![];
        for (st, x) in outs {
            let x = match x {
                Ok(v) => match self.s.it.word_of(&st, &v) {
                    Ok(w) => Ok(Some(w)),
                    Err(_) => Ok(None),
                },
                Err(e) => Err(e),
            };
            r.push((st, x));
        }
        self.join(&p, f, r, |_, q, w| {
            if let Some(w) = w {
                q.obs.push(w)
            }
        })
    }
    pub fn ckpt(&mut self, p: Path<'tcx>, i: usize) -> Paths<'tcx> {
        let (o, b) = (p.objs[i].o, p.objs[i].b.clone());
        let outs = self.s.op_ckpt(p.st.clone(), &b, o);
        self.join(&p, "checkpoint", outs, |_, q, w| q.cks.push(w))
    }
    /// checkpoint object i and restore it as backend b (appended to objs)
    pub fn hop(&mut self, p: Path<'tcx>, i: usize, b: &str) -> Paths<'tcx> {
        let ps = self.ckpt(p, i);
        self.each(ps, |s, p| {
            let ck = p.cks.last().unwrap().clone();
            let m = p.objs[i].m.clone();
            s.mk_restore(p, b, &ck, m)
        })
    }
    pub fn clone_obj(&mut self, p: Path<'tcx>, i: usize) -> Paths<'tcx> {
        let (o, b, m) = (p.objs[i].o, p.objs[i].b.clone(), p.objs[i].m.clone());
        let ptr = self.s.objptr(o);
        let outs = self.s.make(p.st.clone(), &format!("{}::clone", b), vec![ptr]);
        self.join(&p, "clone", outs, |_, q, o| q.objs.push(MObj { o, b: b.clone(), m: m.clone() }))
    }
    pub fn debug_obj(&mut self, p: Path<'tcx>, i: usize) -> Paths<'tcx> {
        let (o, b) = (p.objs[i].o, p.objs[i].b.clone());
        let ptr = self.s.objptr(o);
        let f = self.s.it.add_global(Alloc { kind: AKind::Opaque, align: 8, bytes: vec![], writable: true });
        let fp = self.s.it.mkptr(f, 0);
        let outs = self.s.call(p.st.clone(), &format!("{}::debug", b), vec![ptr, Val::P(fp)]);
        self.join(&p, "fmt::Debug", outs, |_, _, _| ())
    }
    pub fn bytes_of(&self, p: &Path<'tcx>, i: usize) -> Vec<Byte> {
        p.st.mem[p.objs[i].o.0 as usize].as_ref().unwrap().bytes.clone()
    }
    pub fn same_bytes(&mut self, a: &[Byte], b: &[Byte]) -> bool {
        a.len() == b.len() && (0..a.len()).all(|i| self.same_byte(a[i], b[i]))
    }
    pub fn same_byte(&mut self, a: Byte, b: Byte) -> bool {
        if a == b {
            return true;
        }
        match (a, b) {
            (Byte::W(x, i), Byte::W(y, j)) => {
                let (p, q) = (self.s.it.t.bits(x), self.s.it.t.bits(y));
                let (i, j) = (8 * i as usize, 8 * j as usize);
                i + 8 <= p.len() && j + 8 <= q.len() && p[i..i + 8] == q[j..j + 8]
            }
            _ => false,
        }
    }
    /// model prediction of a final result
    pub fn expect(&mut self, m: &Model, bits: usize) -> W {
        let (l, pend) = self.logical(m);
        spec::finish_pending(&mut self.s.it.t, &l, &pend, bits)
    }
    /// lanes and pending bytes at the current position
    pub fn logical(&mut self, m: &Model) -> (Lanes, Vec<W>) {
        if let Some(pos) = self.s.it.t.as_const(m.pos).filter(|&x| x < FAR) {
            let off0 = self.s.it.t.as_const(m.off0).unwrap();
            let (mut l, mut by) = if pos < off0 {
                let mut by = m.pend.to_vec();
                by.extend(self.s.stream_bytes(m.stream, pos as u64));
                (m.start, by)
            } else {
                let b0 = self.s.it.usize_w(off0 as u64);
                let d = Data { id: m.stream, base: b0, len: b0 };
                (m.lanes0, self.s.data_bytes(&d, (pos - off0) as u64))
            };
            let n = spec::absorb(&mut self.s.it.t, &mut l, &by);
            by.drain(..n);
            (l, by)
        } else {
            let f = self.floor_off(m);
            let chain = self.chain_of(m);
            let l = self.s.it.t.lanes_at(chain, f);
            let d = self.s.it.t.sub(m.pos, f);
            let r = self.s.it.t.as_const(d).unwrap_or(0) as u64;
            let dd = Data { id: m.stream, base: f, len: d };
            let by = self.s.data_bytes(&dd, r);
            (l, by)
        }
    }
    pub fn chain_of(&mut self, m: &Model) -> u16 {
        let t = &mut self.s.it.t;
        match t.chains.iter().position(|c| c.stream == m.stream && c.off0 == m.off0 && c.lanes0 == m.lanes0) {
            Some(i) => i as u16,
            None => {
                t.chains.push(Chain { stream: m.stream, off0: m.off0, lanes0: m.lanes0 });
                (t.chains.len() - 1) as u16
            }
        }
    }

    // ------------------------------------------------------------ refutation
    /// A valuation of the inputs that satisfies the facts of a path.
    fn valuation(&self, st: &State<'tcx>, k: u64, extra: &[(Atom, u128)]) -> Option<Eval<'_>> {
        self.valuation_with(st, k, extra, &[])
    }
    /// ... preferring that the literals `goals` hold
    fn valuation_with(&self, st: &State<'tcx>, k: u64, extra: &[(Atom, u128)], goals: &[Lit]) -> Option<Eval<'_>> {
        let it = &self.s.it;
        let mut e = Eval::new(&it.t, 0x5eed_0000 + k as u128);
        // index symbols: near the least values the facts allow
        for (&a, &(lo, hi)) in it.t.ranges.iter() {
            let mut m = lo as i128;
            for (w, _) in st.facts.ineqs.iter().flat_map(|q| q.ts.iter()) {
                let b = it.t.bits(*w);
                if let Some(&l0) = b.first() {
                    if let Node::Bit(x, 0) = it.t.nodes[(l0 >> 1) as usize] {
                        if x == a && b.len() == it.t.atoms[a.0 as usize].width() {
                            if let Some(v) = st.facts.min(&it.t, &Lin { ts: vec![(*w, 1)], c: 0 }, 2) {
                                m = m.max(v);
                            }
                        }
                    }
                }
            }
            let step = [0u128, 1, 2, 3, 5, 7, 8, 64][(k % 8) as usize];
            let v = (m as u128 + step).min(hi);
            let v = if k >= 40 { (m as u128).max(lo + (k as u128 * 37) % 300) } else { v };
            e.over.insert(a, v);
        }
        for &(a, v) in extra {
            e.over.insert(a, v);
        }
        // forced leaf bits
        let mut force: FxHashMap<Atom, (u128, u128)> = Default::default();
        for &l in st.facts.trail.iter() {
            self.force(l, &mut force, 0);
        }
        if !goals.is_empty() {
            crate::steer::steer(&it.t, &e, goals, &mut force);
        }
        if !force.is_empty() {
            let mut v: Vec<(Atom, (u128, u128))> = force.into_iter().collect();
            v.sort_by_key(|x| x.0);
            for (a, (m, x)) in v {
                let cur = e.leaf(a);
                let nv = (cur & !m) | x;
                e.over.insert(a, nv);
                if let AtomKind::Stream(id, o) = &it.t.atoms[a.0 as usize] {
                    let o = e.word(*o);
                    e.over_stream.insert((*id, o), nv);
                }
            }
            // offsets were evaluated before the overrides were complete
            let mut e2 = Eval::new(&it.t, e.seed);
            e2.over = std::mem::take(&mut e.over);
            e2.over_stream = std::mem::take(&mut e.over_stream);
            e = e2;
        }
        for &l in st.facts.trail.iter() {
            if !e.lit(l) {
                return None;
            }
        }
        if e.approx {
            return None;
        }
        Some(e)
    }
    fn force(&self, l: Lit, out: &mut FxHashMap<Atom, (u128, u128)>, depth: u32) {
        if depth > 40 || l <= 1 {
            return;
        }
        let t = &self.s.it.t;
        match &t.nodes[(l >> 1) as usize] {
            Node::Bit(a, i) => {
                if matches!(t.atoms[a.0 as usize], AtomKind::Sym(..) | AtomKind::Stream(..)) && !t.ranges.contains_key(a) {
                    let e = out.entry(*a).or_default();
                    e.0 |= 1 << i;
                    if l & 1 == 0 {
                        e.1 |= 1 << i;
                    }
                }
            }
            Node::And(ls) if l & 1 == 0 => {
                for &x in ls.iter() {
                    self.force(x, out, depth + 1);
                }
            }
            Node::And(ls) if l & 1 == 1 => {
                // falsify one conjunct that is a free leaf bit
                for &x in ls.iter() {
                    if let Node::Bit(a, i) = &t.nodes[(x >> 1) as usize] {
                        if out.get(a).map_or(true, |e| e.0 >> i & 1 == 0) {
                            // leave it to chance: random values falsify conjunctions almost surely
                            let _ = (a, i);
                        }
                    }
                }
            }
            Node::Xor(ls) => {
                // solve for one free leaf bit
                let want = l & 1 == 0;
                for &x in ls.iter() {
                    if let Node::Bit(a, i) = &t.nodes[(x >> 1) as usize] {
                        let sym = matches!(t.atoms[a.0 as usize], AtomKind::Sym(..) | AtomKind::Stream(..)) && !t.ranges.contains_key(a);
                        if sym && out.get(a).map_or(true, |e| e.0 >> i & 1 == 0) {
                            let mut e = Eval::new(t, 0);
                            let mut acc = false;
                            let mut all_leaf = true;
                            for &y in ls.iter() {
                                if y == x {
                                    continue;
                                }
                                match &t.nodes[(y >> 1) as usize] {
                                    Node::Bit(b, j) if out.get(b).map_or(false, |e| e.0 >> j & 1 == 1) => {
                                        acc ^= (out[b].1 >> j & 1 == 1) ^ (y & 1 == 1)
                                    }
                                    Node::Bit(b, j) if matches!(t.atoms[b.0 as usize], AtomKind::Sym(..) | AtomKind::Stream(..)) => {
                                        // pin it
                                        let v = e.leaf(*b) >> j & 1 == 1;
                                        let en = out.entry(*b).or_default();
                                        en.0 |= 1 << j;
                                        if v {
                                            en.1 |= 1 << j;
                                        }
                                        acc ^= v ^ (y & 1 == 1);
                                    }
                                    _ => all_leaf = false,
                                }
                            }
                            if all_leaf {
                                let v = (acc ^ want) ^ (x & 1 == 1);
                                let en = out.entry(*a).or_default();
                                en.0 |= 1 << i;
                                if v {
                                    en.1 |= 1 << i;
                                }
                            }
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn max_tries(&self) -> u64 {
        let u: u64 = self.undecided.values().sum();
        if u > 200 {
            4
        } else if u > 30 {
            12
        } else {
            48
        }
    }
    /// can this path occur?  Returns a short description of a valuation.
    pub fn feasible(&mut self, st: &State<'tcx>) -> Option<String> {
        if st.facts.trail.is_empty() {
            return Some("always".into());
        }
        for k in 0..96 {
            self.tries += 1;
            if self.valuation(st, k, &[]).is_some() {
                return Some(self.describe(st));
            }
        }
        None
    }
    pub fn describe(&self, st: &State<'tcx>) -> String {
        if st.facts.trail.is_empty() {
            return "on every input".into();
        }
        let t = &self.s.it.t;
        let v: Vec<String> = st
            .facts
            .trail
            .iter()
            .take(6)
            .map(|&l| {
                let neg = if l & 1 == 1 { "not " } else { "" };
                match self.s.it.ps.get(&(l >> 1)) {
                    Some(&(k, a, b, f)) => format!(
                        "{}{}({} {} {})",
                        neg,
                        if f { "not " } else { "" },
                        short(&t.show_word(a)),
                        match k {
                            PredKind::Ult => "<",
                            PredKind::Eq => "==",
                        },
                        short(&t.show_word(b))
                    ),
                    None => format!("{}{}", neg, short(&t.show_lit(l & !1))),
                }
            })
            .collect();
        format!("when {}", v.join(" and "))
    }
    /// Some(description) when the words differ for some input that follows this path
    pub fn differ(&mut self, st: &State<'tcx>, a: W, b: W) -> Option<String> {
        let n = self.max_tries();
        for k in 0..n.min(16) {
            if let Some(i) = self.try_differ(st, a, b, k, &[]) {
                return Some(format!("bit {} differs {}", i, self.describe(st)));
            }
        }
        // values chosen so that the operations in which the two graphs differ meet their corner cases
        let left = self.steered;
        if left > 0 && self.pass != 1 {
            let goals = crate::steer::goals(&self.s.it.t, a, b, left as usize);
            for (k, g) in goals.into_iter().enumerate() {
                self.steered -= 1;
                if let Some(i) = self.try_differ(st, a, b, k as u64 % 16, &g) {
                    return Some(format!("bit {} differs for chosen inputs {}", i, self.describe(st)));
                }
            }
        }
        for k in 16..n {
            if let Some(i) = self.try_differ(st, a, b, k, &[]) {
                return Some(format!("bit {} differs {}", i, self.describe(st)));
            }
        }
        None
    }
    fn try_differ(&mut self, st: &State<'tcx>, a: W, b: W, k: u64, goals: &[Lit]) -> Option<usize> {
        self.tries += 1;
        let mut e = self.valuation_with(st, k, &[], goals)?;
        let (x, y) = (self.s.it.t.bits(a), self.s.it.t.bits(b));
        let mut d = None;
        if x.len() != y.len() {
            d = Some(0);
        } else {
            for i in 0..x.len() {
                if x[i] != y[i] && e.lit(x[i]) != e.lit(y[i]) {
                    d = Some(i);
                    break;
                }
            }
        }
        if e.approx {
            None
        } else {
            d
        }
    }
    /// the source construct that computes a value occurring only in `a`
    pub fn blame(&self, a: W, b: W) -> String {
        let t = &self.s.it.t;
        let (mut x, mut y): (FxHashSet<Atom>, FxHashSet<Atom>) = Default::default();
        t.deep_atoms(a, &mut x);
        t.deep_atoms(b, &mut y);
        let pick = |p: &FxHashSet<Atom>, q: &FxHashSet<Atom>| {
            let mut v: Vec<Atom> = p.iter().filter(|z| !q.contains(z) && t.atom_prov.contains_key(z)).copied().collect();
            v.sort();
            v.first().copied()
        };
        if let Some(z) = pick(&x, &y) {
            return self.s.it.prov_str(t.atom_prov[&z]);
        }
        if let Some(z) = pick(&y, &x) {
            return format!("(expected value computed at) {}", self.s.it.prov_str(t.atom_prov[&z]));
        }
        String::new()
    }
    pub fn op_site(&mut self, b: &str, f: &str) -> String {
        // the implementation reached from an entry point
        match self.s.roots.get(&format!("{}::{}", b, f)) {
            Some(i) => {
                let d = i.def_id();
                format!("entry {}", self.s.it.tcx.def_path_str(d))
            }
            None => String::new(),
        }
    }
    /// obligation: two values of a path are equal
    pub fn equal(&mut self, kind: &str, p: &Path<'tcx>, a: W, b: W, what: &str) -> bool {
        if a == b {
            self.ok(kind);
            return true;
        }
        match self.differ(&p.st, a, b) {
            Some(d) => {
                let site = self.blame(a, b);
                let last = p.log.last().cloned().unwrap_or_default();
                self.bad(
                    format!("{}|{}|{}", kind, what, last),
                    format!("{}: {} [{}] script: {}", what, d, self.cfg, script(&p.log)),
                    if site.is_empty() { format!("result of {}", last) } else { site },
                );
                false
            }
            None => {
                if self.trace {
                    let d = self.describe(&p.st);
                    eprintln!("{} script {} versus {} {}", d, script(&p.log), short(&self.s.it.t.show_word(a)), short(&self.s.it.t.show_word(b)));
                }
                self.unknown(kind, format!("{}: values not identified, no difference found", kind));
                false
            }
        }
    }
    /// obligation: an operation of the analysed side fails on a path where the reference succeeded
    pub fn failed(&mut self, kind: &str, p: &Path<'tcx>, what: &str) {
        let Some((op, e)) = p.fail.clone() else { return };
        let (name, msg, site) = match e {
            Bad::Panic(m, s) => ("panics", m, s),
            Bad::Ub(m, s) => ("has undefined behaviour", m, s),
            Bad::Feature(m, s) => ("executes unsupported instructions", m, s),
            Bad::Unsup(m, s) => {
                self.unknown(kind, format!("not analysable: {} at {}", m, s));
                return;
            }
        };
        match self.feasible(&p.st) {
            Some(w) => self.bad(
                format!("{}|{}|{}", kind, name, site),
                format!("{}: {} {}: {} ({}) [{}] script: {}", what, op, name, msg, w, self.cfg, script(&p.log)),
                site,
            ),
            None => self.unknown(kind, format!("{} on a path without witness: {} at {}", name, msg, site)),
        }
    }
    /// split off paths on which something failed; for reference parts
    pub fn good(&mut self, kind: &str, ps: Paths<'tcx>) -> Paths<'tcx> {
        let mut out = vec![];
        for p in ps {
            match &p.fail {
                None => out.push(p),
                Some((op, e)) => {
                    let m = format!("reference side of a comparison: {} fails: {}", op, bad_text(e));
                    self.unknown(kind, m)
                }
            }
        }
        out
    }
    /// split off failures of the analysed side
    pub fn tested(&mut self, kind: &str, ps: Paths<'tcx>, what: &str) -> Paths<'tcx> {
        let mut out = vec![];
        for p in ps {
            if p.fail.is_some() {
                self.failed(kind, &p, what);
            } else {
                out.push(p);
            }
        }
        out
    }
}

pub fn bad_text(e: &Bad) -> String {
    match e {
        Bad::Panic(m, s) => format!("panic: {} at {}", m, s),
        Bad::Ub(m, s) => format!("undefined behaviour: {} at {}", m, s),
        Bad::Feature(m, s) => format!("feature: {} at {}", m, s),
        Bad::Unsup(m, s) => format!("not analysable: {} at {}", m, s),
    }
}
fn short(s: &str) -> String {
    if s.len() > 120 {
        let mut n = 120;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}..", &s[..n])
    } else {
        s.to_string()
    }
}
pub fn script(l: &[String]) -> String {
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < l.len() {
        let mut n = 1;
        while i + n < l.len() && l[i + n] == l[i] {
            n += 1;
        }
        out.push(if n > 1 { format!("{} x{}", l[i], n) } else { l[i].clone() });
        i += n;
    }
    out.join("; ")
}
