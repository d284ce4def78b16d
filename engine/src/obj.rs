//! Abstract hasher objects: operations of the public API as abstract state transformers.

use crate::interp::*;
use crate::term::*;
use rustc_data_structures::fx::FxHashMap;
use rustc_middle::ty::{self, Instance, TyCtxt};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Obj(pub u32);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    Panic(String, String),
    Ub(String, String),
    Feature(String, String),
    Unsup(String, String),
}
pub type Res<T> = Result<T, Bad>;
pub type Outs<'tcx, T> = Vec<(State<'tcx>, Res<T>)>;

/// an input slice: bytes of stream `id` from `base`, `len` bytes
#[derive(Clone, Debug)]
pub struct Data {
    pub id: u32,
    pub base: W,
    pub len: W,
}

pub struct Session<'tcx> {
    pub it: Interp<'tcx>,
    pub roots: FxHashMap<String, Instance<'tcx>>,
    pub backends: Vec<String>,
    /// results of calls already analysed: same function, same object contents, same input, same
    /// path facts (only calls that neither branch nor touch anything but the object)
    pub memo: FxHashMap<MKey, MVal>,
    pub memo_on: bool,
    pub memo_hits: u64,
}

#[derive(PartialEq, Eq, Hash)]
pub struct MKey {
    f: String,
    obj: Vec<Byte>,
    align: u64,
    data: Option<(u32, W, W)>,
    trail: Vec<Lit>,
    statics: Vec<(u32, Vec<Byte>)>,
    features: Vec<String>,
}
pub struct MVal {
    ret: Val,
    obj: Vec<Byte>,
    used: Rc<std::collections::BTreeSet<String>>,
}

impl<'tcx> Session<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut it = Interp::new(tcx);
        let mut roots: FxHashMap<String, Instance<'tcx>> = Default::default();
        let mut backends = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn) {
                continue;
            }
            if tcx.generics_of(did).count() != 0 {
                continue;
            }
            let p = tcx.def_path_str(did);
            if let Some((m, f)) = p.split_once("::") {
                if f == "new" {
                    backends.push(m.to_string());
                }
            }
            if p == "model::once_call" {
                it.once_model = Some(did);
                continue;
            }
            roots.insert(p, Instance::mono(tcx, did));
        }
        backends.sort();
        Session { it, roots, backends, memo: Default::default(), memo_on: true, memo_hits: 0 }
    }
    pub fn has(&self, b: &str, f: &str) -> bool {
        self.roots.contains_key(&format!("{}::{}", b, f))
    }
    /// target features the contract of a backend's unsafe constructor vouches for
    pub fn state_for(&self, b: &str) -> State<'tcx> {
        let mut st = self.it.new_state();
        let f: Vec<String> = match b {
            "sse" => vec!["sse4.1".into()],
            "avx" => vec!["avx2".into()],
            "neon" => vec!["neon".into()],
            _ => vec![],
        };
        st.features = Rc::new(f);
        st
    }
    pub fn key_syms(&mut self) -> [W; 4] {
        [0, 1, 2, 3].map(|i| self.it.t.sym(&format!("key{}", i), 64))
    }
    pub fn ck_syms(&mut self, tag: &str) -> Vec<W> {
        (0..164).map(|i| self.it.t.sym(&format!("{}{}", tag, i), 8)).collect()
    }
    pub fn stream(&mut self, id: u32, n: u64) -> Data {
        let (base, len) = (self.it.usize_w(0), self.it.usize_w(n));
        Data { id, base, len }
    }
    pub fn sub(&mut self, d: &Data, from: u64, n: u64) -> Data {
        let f = self.it.usize_w(from);
        let base = self.it.t.add(d.base, f);
        let len = self.it.usize_w(n);
        Data { id: d.id, base, len }
    }
    pub fn stream_bytes(&mut self, id: u32, n: u64) -> Vec<W> {
        (0..n)
            .map(|i| {
                let o = self.it.usize_w(i);
                self.it.t.stream(id, o)
            })
            .collect()
    }
    pub fn data_bytes(&mut self, d: &Data, n: u64) -> Vec<W> {
        (0..n)
            .map(|i| {
                let o = self.it.usize_w(i);
                let o = self.it.t.add(d.base, o);
                self.it.t.stream(d.id, o)
            })
            .collect()
    }
    pub fn ret_layout(&mut self, f: &str) -> Option<(u64, u64)> {
        let i = *self.roots.get(f)?;
        let b = self.it.body(i).ok()?;
        let l = b.layouts[0];
        Some((l.size.bytes(), l.align.abi.bytes()))
    }
    pub fn call(&mut self, st: State<'tcx>, f: &str, args: Vec<Val>) -> Outs<'tcx, Val> {
        let Some(&i) = self.roots.get(f) else {
            return vec![(st, Err(Bad::Unsup(format!("no entry point {}", f), String::new())))];
        };
        let outs = self.it.invoke(st, i, args);
        outs.into_iter()
            .map(|o| {
                let mut st = o.st;
                if !matches!(o.kind, OutKind::Ok(_)) {
                    st.frames.clear();
                }
                let r = match o.kind {
                    OutKind::Ok(v) => Ok(v.unwrap_or(Val::B(Rc::new([])))),
                    OutKind::Panic(a, b) => Err(Bad::Panic(a, b)),
                    OutKind::Ub(a, b) => Err(Bad::Ub(a, b)),
                    OutKind::Feature(a, b) => Err(Bad::Feature(a, b)),
                    OutKind::Unsup(a, b) => Err(Bad::Unsup(a, b)),
                    OutKind::Head | OutKind::Exit => Err(Bad::Unsup("loop head".into(), String::new())),
                };
                (st, r)
            })
            .collect()
    }
    fn memo_key(&self, st: &State<'tcx>, f: &str, o: Obj, data: Option<&Data>) -> Option<MKey> {
        if !self.memo_on || self.it.sym_mode {
            return None;
        }
        if let Some(d) = data {
            self.it.t.as_const(d.len)?;
        }
        let a = st.mem[o.0 as usize].as_ref()?;
        if a.bytes.iter().any(|b| !matches!(b, Byte::W(..) | Byte::Uninit)) {
            return None;
        }
        let mut statics: Vec<(u32, Vec<Byte>)> = st.statics.iter().map(|(k, v)| (*k, v.bytes.clone())).collect();
        statics.sort_by_key(|x| x.0);
        Some(MKey {
            f: f.to_string(),
            obj: a.bytes.clone(),
            align: a.align,
            data: data.map(|d| (d.id, d.base, d.len)),
            trail: (*st.facts.trail).clone(),
            statics,
            features: (*st.features).clone(),
        })
    }
    /// a call on the object `o` (by reference or by value), analysed once per distinct situation
    pub fn call_on(&mut self, st: State<'tcx>, f: &str, o: Obj, by_ref: bool, data: Option<&Data>) -> Outs<'tcx, Val> {
        let key = self.memo_key(&st, f, o, data);
        if let Some(k) = &key {
            if let Some(v) = self.memo.get(k) {
                self.memo_hits += 1;
                let mut st = st;
                if by_ref && st.mem[o.0 as usize].as_ref().unwrap().bytes != v.obj {
                    Rc::make_mut(st.mem[o.0 as usize].as_mut().unwrap()).bytes = v.obj.clone();
                }
                if !v.used.is_subset(&st.used) {
                    Rc::make_mut(&mut st.used).extend(v.used.iter().cloned());
                }
                return vec![(st, Ok(v.ret.clone()))];
            }
        }
        let (heap, statics, facts) = (st.heap.clone(), st.statics.clone(), st.facts.clone());
        let mut st = st;
        let a0 = if by_ref { self.objptr(o) } else { self.obj_val(&st, o) };
        let mut args = vec![a0];
        let mut sl = None;
        if let Some(d) = data {
            let (a, v) = self.slice_arg(&mut st, d);
            args.push(v);
            sl = Some(a);
        }
        let mut r = self.call(st, f, args);
        if let Some(a) = sl {
            for (st, _) in r.iter_mut() {
                self.it.free_alloc(st, a);
            }
        }
        if let (Some(k), [(st, Ok(v))]) = (key, &r[..]) {
            let same_statics = Rc::ptr_eq(&st.statics, &statics)
                || (st.statics.len() == statics.len() && st.statics.iter().all(|(k, v)| statics.get(k).is_some_and(|x| Rc::ptr_eq(x, v))));
            if st.facts.trail.len() == facts.trail.len()
                && st.facts.ineqs.len() == facts.ineqs.len()
                && st.facts.lits.len() == facts.lits.len()
                && same_statics
                && (Rc::ptr_eq(&st.heap, &heap) || st.heap == heap)
            {
                let obj = st.mem[o.0 as usize].as_ref().unwrap().bytes.clone();
                let bytes: Vec<Byte> = match v {
                    Val::W(w) => vec![Byte::W(*w, 0)],
                    Val::B(b) => b.to_vec(),
                    Val::P(_) => vec![Byte::Poison],
                };
                let mut last = None;
                let clean = obj.iter().chain(bytes.iter()).all(|b| match b {
                    Byte::W(w, _) => {
                        last == Some(*w) || {
                            last = Some(*w);
                            self.it.t.addr_free(*w)
                        }
                    }
                    Byte::Uninit => true,
                    _ => false,
                });
                if clean {
                    let v = MVal { ret: v.clone(), obj, used: st.used.clone() };
                    self.memo.insert(k, v);
                } else if obj.iter().chain(bytes.iter()).any(|b| matches!(b, Byte::W(..))) && !matches!(v, Val::P(_)) {
                    self.memo_on = false;
                }
            }
        }
        r
    }
    pub fn slice_arg(&mut self, st: &mut State<'tcx>, d: &Data) -> (u32, Val) {
        let a = self.it.new_alloc(st, 0, 1, AKind::Stream { id: d.id, base: d.base, size: d.len });
        Rc::make_mut(st.mem[a as usize].as_mut().unwrap()).writable = false;
        let p = self.it.mkptr(a, 0);
        let v = self.it.fat(p, &Val::W(d.len));
        (a, v)
    }
    /// constructor-like root returning an object
    pub fn make(&mut self, st: State<'tcx>, f: &str, args: Vec<Val>) -> Outs<'tcx, Obj> {
        let (size, align) = match self.ret_layout(f) {
            Some(x) => x,
            None => return vec![(st, Err(Bad::Unsup(format!("no entry point {}", f), String::new())))],
        };
        let outs = self.call(st, f, args);
        outs.into_iter()
            .map(|(mut st, r)| match r {
                Ok(v) => {
                    let o = self.store_obj(&mut st, size, align, &v);
                    (st, Ok(o))
                }
                Err(e) => (st, Err(e)),
            })
            .collect()
    }
    pub fn store_obj(&mut self, st: &mut State<'tcx>, size: u64, align: u64, v: &Val) -> Obj {
        let a = self.it.new_alloc(st, size, align, AKind::Mem);
        let p = self.it.mkptr(a, 0);
        let _ = self.it.store(st, p, v, size, 1);
        Obj(a)
    }
    pub fn op_new(&mut self, st: State<'tcx>, b: &str, key: &[W; 4]) -> Outs<'tcx, Obj> {
        let k = self.it.t.concat(key);
        let v = self.words_val(key, 8);
        let _ = k;
        self.make(st, &format!("{}::new", b), vec![v])
    }
    /// array of words in memory order
    pub fn words_val(&mut self, ws: &[W], each: u64) -> Val {
        let mut b = vec![];
        for &w in ws {
            b.extend_from_slice(&self.it.val_bytes(&Val::W(w), each));
        }
        self.it.bytes_val(&b)
    }
    pub fn op_restore(&mut self, st: State<'tcx>, b: &str, ck: &[W]) -> Outs<'tcx, Obj> {
        let v = self.words_val(ck, 1);
        self.make(st, &format!("{}::restore", b), vec![v])
    }
    pub fn objptr(&mut self, o: Obj) -> Val {
        Val::P(self.it.mkptr(o.0, 0))
    }
    pub fn obj_val(&mut self, st: &State<'tcx>, o: Obj) -> Val {
        let b = st.mem[o.0 as usize].as_ref().unwrap().bytes.clone();
        self.it.bytes_val(&b)
    }
    pub fn op_slice(&mut self, st: State<'tcx>, f: &str, o: Obj, d: &Data) -> Outs<'tcx, Val> {
        self.call_on(st, f, o, true, Some(d))
    }
    pub fn op_append(&mut self, st: State<'tcx>, b: &str, o: Obj, d: &Data) -> Outs<'tcx, ()> {
        self.op_slice(st, &format!("{}::append", b), o, d).into_iter().map(|(s, r)| (s, r.map(|_| ()))).collect()
    }
    /// value of an integer array result, as one word in memory order of 64-bit elements
    pub fn result_word(&mut self, st: &State<'tcx>, v: &Val, bits: usize) -> Res<W> {
        let n = bits / 64;
        let mut ws = vec![];
        for i in 0..n {
            let x = self.it.sub_val(v, bits as u64 / 8, 8 * i as u64, 8);
            match self.it.word_of(st, &x) {
                Ok(w) => ws.push(w),
                Err(e) => return Err(Bad::Unsup(format!("{:?}", e), String::new())),
            }
        }
        Ok(self.it.t.concat(&ws))
    }
    /// consume a copy of the object
    pub fn op_final(&mut self, st: State<'tcx>, b: &str, o: Obj, bits: usize) -> Outs<'tcx, W> {
        let r = self.call_on(st, &format!("{}::f{}", b, bits), o, false, None);
        r.into_iter()
            .map(|(st, r)| {
                let r = r.and_then(|v| self.result_word(&st, &v, bits));
                (st, r)
            })
            .collect()
    }
    pub fn op_ckpt(&mut self, st: State<'tcx>, b: &str, o: Obj) -> Outs<'tcx, Vec<W>> {
        let r = self.call_on(st, &format!("{}::checkpoint", b), o, true, None);
        r.into_iter()
            .map(|(st, r)| {
                let r = r.and_then(|v| {
                    let bs = self.it.val_bytes(&v, 164);
                    let mut out = vec![];
                    for &x in bs.iter() {
                        match self.it.byte_bits(&st, x) {
                            Ok(b) => out.push(self.it.t.word(&b)),
                            Err(e) => return Err(Bad::Ub(format!("{:?}", e), "checkpoint".into())),
                        }
                    }
                    Ok(out)
                });
                (st, r)
            })
            .collect()
    }
}
#[allow(unused)]
fn _u(_: ty::ParamEnv<'_>) {}
