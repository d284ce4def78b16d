/// how a state is reached before an operation is analysed
#[derive(Clone, Debug)]
pub enum Origin {
    New,
    Default,
    Bhd,
    /// restored from arbitrary lanes/buffer and this count
    Arb(u64, bool),
}

impl<'tcx> Runner<'tcx> {
    pub fn origin(&mut self, p: Path<'tcx>, b: &str, o: &Origin, stream: u32) -> Paths<'tcx> {
        match o {
            Origin::New => {
                let key = self.s.key_syms();
                self.mk_new(p, b, &key, stream)
            }
            Origin::Default | Origin::Bhd => {
                let z = self.s.it.t.cst(64, 0);
                let m = self.key_model(&[z; 4], stream);
                let f = if matches!(o, Origin::Bhd) { "bhd" } else { "default" };
                self.mk_plain(p, b, f, vec![], Some(m))
            }
            Origin::Arb(n, many) => {
                let cw = self.cnt((*n, *many));
                let ck = self.arb_ck(cw);
                let m = self.arb_model(*n, stream);
                self.mk_restore(p, b, &ck, m)
            }
        }
    }

    // ------------------------------------------------------------ C08, C09, C18
    /// Analyse every operation from every class of state; `judge` sees each resulting path.
    fn explore(&mut self, judge: &dyn Fn(&mut Self, &str, Paths<'tcx>) -> Paths<'tcx>) {
        for b in self.all() {
            let b = b.as_str();
            let ways = self.ways(b);
            let has = |s: &Self, f: &str| s.s.has(b, f);
            // origins
            let mut origins = vec![Origin::New, Origin::Default];
            if has(self, "bhd") {
                origins.push(Origin::Bhd);
            }
            for c in self.counts() {
                origins.push(Origin::Arb(c.0, c.1));
            }
            let mut observers: Vec<Op> = vec![Op::Ckpt, Op::Fin(64), Op::Fin(128), Op::Fin(256), Op::Quiet("debug"), Op::Clone, Op::CloneFrom];
            if has(self, "finish") {
                observers.push(Op::Obs("finish"));
            }
            if has(self, "ioflush_ok") {
                observers.push(Op::Obs("ioflush_ok"));
            }
            if self.lite {
                // a sample of the restored states; the primary configuration covers all of them
                origins.retain(|o| match o {
                    Origin::Arb(n, _) => [0, 1, 5, 16, 30, 31, 32, 33, 64, 255, 256, 0xffff_ffe0, 0xffff_ffff].contains(n),
                    _ => true,
                });
            }
            for o in &origins {
                let big = matches!(o, Origin::Arb(n, _) if *n > 32);
                // every operation right away and after data
                let lens: Vec<u64> = if self.thorough() && !big {
                    (0..132).collect()
                } else if big {
                    vec![0, 1, 31, 32, 33, 64]
                } else {
                    (0..34).chain([47, 63, 64, 65, 66, 95, 96, 97, 128]).collect()
                };
                // restored states: lengths at which a packet completes, and a sample of the others
                let pend = match o {
                    Origin::Arb(n, _) if !self.thorough() => Some(*n as u64 % 32),
                    _ => None,
                };
                let keep = |len: u64, m: u64| match pend {
                    Some(n) => len < 2 || (len + n + 1) % 32 <= 2 || (5 * n + len) % m == 0,
                    None => true,
                };
                let mut ws: Vec<W> = vec![];
                for n in lens {
                    if big || keep(n, 11) {
                        ws.push(self.c(n));
                    }
                }
                if !big {
                    for r in 0..32 {
                        if keep(r, 7) {
                            ws.push(self.sym("Q", r));
                        }
                    }
                } else {
                    ws.push(self.sym("Q", 7));
                }
                let step = match o {
                    Origin::New | Origin::Default | Origin::Bhd => 1,
                    Origin::Arb(n, _) if n % 3 == 1 => 3,
                    _ => 5,
                };
                for n in self.far().into_iter().step_by(step) {
                    ws.push(self.c(n));
                }
                for (k, w) in ws.into_iter().enumerate() {
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{}: operations from {:?}", b, o);
                    let p = self.start_all();
                    let ps = self.origin(p, b, o, 0);
                    let ps = judge(self, &kind, ps);
                    let mut all = vec![];
                    for p in ps {
                        let q = self.op(p, 0, &ways_op(ways, k, w));
                        all.extend(q);
                    }
                    let ps = judge(self, &kind, all);
                    for p in ps {
                        let mut p = p;
                        p.obs.clear();
                        p.cks.clear();
                        for ob in &observers {
                            let q = self.op(p.clone(), 0, ob);
                            judge(self, &kind, q);
                        }
                        // a second, short write from here
                        let n2 = self.c([0u64, 1, 31, 32, 33][k % 5]);
                        let q = self.op(p.clone(), 0, &ways_op(ways, k + 1, n2));
                        let q = judge(self, &kind, q);
                        for p in q {
                            let q = self.finals(p, 0);
                            judge(self, &kind, q);
                        }
                        // hashN consumes the object
                        let d = self.next_data(&p, 0, n2);
                        let q = self.hashn(p.clone(), 0, [64, 128, 256][k % 3], &d);
                        judge(self, &kind, q);
                        // its checkpoint restored on every type
                        if k % 8 == 3 || self.thorough() {
                            for o2 in self.all() {
                                let q = self.op(p.clone(), 0, &Op::Hop(o2.clone()));
                                judge(self, &kind, q);
                            }
                        }
                    }
                }
                // integer writes
                if has(self, "write_u8") && !big {
                    for (f, _) in INTS {
                        if !self.unit() {
                            continue;
                        }
                        let kind = format!("{}: integer writes", b);
                        let p = self.start_all();
                        let ps = self.origin(p, b, o, 0);
                        let ps = judge(self, &kind, ps);
                        for p in ps {
                            let q = self.ops(p, 0, &[Op::Int(f), Op::Int(f), Op::Int(f)]);
                            judge(self, &kind, q);
                        }
                    }
                }
            }
            // histories with many small writes, and with several large ones
            for k in 0..16u64 {
                if !self.unit() {
                    continue;
                }
                let kind = format!("{}: any number of calls", b);
                let w = if k < 10 {
                    self.sym("Q", (k * 7) % 32)
                } else {
                    let f = self.far();
                    self.c(f[k as usize - 10])
                };
                let c = self.c(k * 3);
                let p = self.start_all();
                let ps = self.origin(p, b, &Origin::New, 0);
                let op = match k % 3 {
                    0 => Op::Nothing(w),
                    1 if has(self, "manyw") => Op::ManyW(w),
                    _ => Op::Many(w),
                };
                let mut all = vec![];
                for p in judge(self, &kind, ps) {
                    all.extend(self.ops(p, 0, &[Op::App(c), op.clone(), Op::App(c)]));
                }
                for p in judge(self, &kind, all) {
                    let q = self.finals(p, 0);
                    judge(self, &kind, q);
                }
            }
            let mut many = vec![(1u64, 40usize), (3, 40), (7, 40), (17, 40), (31, 40), (0, 300), (1, 300)];
            many.extend(self.far().into_iter().map(|n| (n, 5)));
            for (n, times) in many {
                if !self.unit() {
                    continue;
                }
                let kind = format!("{}: repeated writes", b);
                let p = self.start_all();
                let ps = self.origin(p, b, &Origin::New, 0);
                let w = self.c(n);
                let ops: Vec<Op> = (0..times).map(|j| ways_op(ways, j, w)).collect();
                let mut all = vec![];
                for p in judge(self, &kind, ps) {
                    all.extend(self.ops(p, 0, &ops));
                }
                for p in judge(self, &kind, all) {
                    let q = self.finals(p, 0);
                    judge(self, &kind, q);
                }
            }
        }
        // builder
        for f in ["auto::bh_new", "auto::bh_default"] {
            if !self.unit() {
                continue;
            }
            let kind = "HighwayBuildHasher operations".to_string();
            let key = self.s.key_syms();
            let w37 = self.c(37);
            let p = self.start_b(&[]);
            let ps = self.bh_new(p, if f.ends_with("new") { Some(&key) } else { None });
            for p in judge(self, &kind, ps) {
                let q = self.bh_build(p.clone(), 0, &key, 0);
                for p in judge(self, &kind, q) {
                    let q = self.ops(p, 1, &[Op::Hw(w37), Op::Obs("finish")]);
                    judge(self, &kind, q);
                }
                let ptr = self.s.objptr(p.objs[0].o);
                let fo = self.s.it.add_global(Alloc { kind: AKind::Opaque, align: 8, bytes: vec![], writable: true });
                let fp = self.s.it.mkptr(fo, 0);
                let outs = self.s.call(p.st.clone(), "auto::bh_debug", vec![ptr.clone(), Val::P(fp)]);
                let q = self.join_pub(&p, "fmt::Debug for HighwayBuildHasher", outs, |_, _, _| ());
                judge(self, &kind, q);
                let v = self.s.it.t.sym("value", 64);
                let outs = self.s.call(p.st.clone(), "auto::bh_hash_u64", vec![ptr.clone(), Val::W(v)]);
                let q = self.join_pub(&p, "hash_one(u64)", outs, |_, _, _| ());
                judge(self, &kind, q);
                for n in [0u64, 1, 31, 32, 33, 70] {
                    let (z, w) = (self.c(0), self.c(n));
                    let d = Data { id: 0, base: z, len: w };
                    let mut st = p.st.clone();
                    let (_, sv) = self.s.slice_arg(&mut st, &d);
                    for f in ["auto::bh_hash_bytes", "auto::bh_hash_str"] {
                        let outs = self.s.call(st.clone(), f, vec![ptr.clone(), sv.clone()]);
                        let q = self.join_pub(&p, f, outs, |_, _, _| ());
                        judge(self, &kind, q);
                    }
                }
            }
        }
        // safe detecting constructors
        for b in self.explicit() {
            for (f, ck) in [("try_new", false), ("try_restore", true)] {
                if !self.s.has(&b, f) {
                    continue;
                }
                let cases = if ck { self.counts() } else { vec![(0, false)] };
                for cn in cases {
                    if !self.unit() {
                        continue;
                    }
                    let kind = format!("{}: detecting constructors", b);
                    let p = self.start_b(&[]);
                    let arg = if ck {
                        let c = self.cnt(cn);
                        let v = self.arb_ck(c);
                        self.s.words_val(&v, 1)
                    } else {
                        let k = self.s.key_syms();
                        self.s.words_val(&k, 8)
                    };
                    let outs = self.s.call(p.st.clone(), &format!("{}::{}", b, f), vec![arg]);
                    let q = self.join_pub(&p, &format!("{}::{} (count {})", b, f, cn.0), outs, |_, _, _| ());
                    judge(self, &kind, q);
                }
            }
        }
    }
    fn c08(&mut self) {
        self.explore(&|s: &mut Self, kind: &str, ps: Paths<'tcx>| {
            let mut out = vec![];
            for p in ps {
                match &p.fail {
                    None => {
                        s.ok(kind);
                        if p.log.len() > 1 {
                            let t = script(&p.log);
                            s.sample(format!("[{}] {}", s.cfg.clone(), t));
                        }
                        out.push(p)
                    }
                    Some((_, Bad::Panic(..))) => s.failed(kind, &p, "a safe call panics"),
                    Some((_, e)) => {
                        let m = bad_text(e);
                        s.unknown(kind, m)
                    }
                }
            }
            out
        });
    }
    fn c09(&mut self) {
        self.explore(&|s: &mut Self, kind: &str, ps: Paths<'tcx>| {
            let mut out = vec![];
            for p in ps {
                match &p.fail {
                    None => {
                        s.ok(kind);
                        out.push(p)
                    }
                    Some((_, Bad::Ub(..))) => s.failed(kind, &p, "memory safety"),
                    Some((_, Bad::Panic(..))) => {}
                    Some((_, e)) => {
                        let m = bad_text(e);
                        s.unknown(kind, m)
                    }
                }
            }
            out
        });
        // the same bytes elsewhere in memory, in objects elsewhere in memory
        for b in self.all() {
            let b = b.as_str();
            let mut cases: Vec<(u64, W)> = vec![];
            for n in 0..(if self.thorough() { 131 } else { 70 }) {
                cases.push((n % 35, self.c(n)));
                cases.push((0, self.c(n)));
            }
            for r in 0..32 {
                cases.push((r, self.sym("Q", 31 - r)));
                cases.push((0, self.sym("Q", r)));
            }
            for (pre, len) in cases {
                if !self.unit() {
                    continue;
                }
                let kind = format!("{}: results independent of addresses", b);
                let what = format!("{}: the result depends on where the data or the hasher lives", b);
                let key = self.s.key_syms();
                let p = self.start_b(&[b]);
                let go = |s: &mut Self, p: Path<'tcx>| {
                    let i = p.objs.len();
                    let ps = s.mk_new(p, b, &key, 0);
                    let ps = s.each(ps, |s, p| s.app(p, i, pre));
                    let ps = s.each(ps, |s, p| s.app_w(p, i, len));
                    let ps = s.each(ps, |s, p| s.finals(p, i));
                    let ps = s.each(ps, |s, p| s.ckpt(p, i));
                    s.each(ps, |s, p| {
                        let d = s.next_data(&p, i, len);
                        s.hashn(p, i, 64, &d)
                    })
                };
                let ps = go(self, p);
                self.rel(&kind, &what, ps, |s, mut p| {
                    // other addresses for everything that follows
                    for _ in 0..p.st.free.len() + 3 {
                        s.s.it.new_alloc(&mut p.st, 8, 1, AKind::Mem);
                    }
                    go(s, p)
                });
            }
        }
    }
    /// functions of the crate that operations of the portable hasher can call
    fn c16(&mut self) {
        let mut g = crate::callgraph::Graph::new(self.s.it.tcx);
        let mut roots: Vec<(String, Instance<'tcx>)> = self.s.roots.iter().map(|(k, v)| (k.clone(), *v)).collect();
        roots.sort_by(|a, b| a.0.cmp(&b.0));
        for (name, i) in roots {
            let builder = name.starts_with("auto::bh_");
            if !(name.starts_with("portable::") || name.starts_with("key::") || builder) || !self.unit() {
                continue;
            }
            let seen = g.reach(i);
            let mut fns: Vec<_> = seen.keys().copied().filter(|x| g.is_target(*x) && x.def_id().krate != rustc_hir::def_id::LOCAL_CRATE).collect();
            fns.sort_by_key(|x| format!("{:?}", x));
            self.ok("call graph of an operation enumerated");
            for f in fns {
                let n = g.name(f.def_id());
                let (file, lo, hi) = g.span(f);
                let c = g.chain(&seen, f);
                let key = format!("{}|{}|{}-{}{}", n, file, lo, hi, if builder { "|builder" } else { "" });
                self.values.entry(key).or_insert(c);
            }
        }
    }
    /// no operation can reach an allocation function
    fn c18_graph(&mut self) {
        let mut g = crate::callgraph::Graph::new(self.s.it.tcx);
        let mut roots: Vec<(String, Instance<'tcx>)> = self.s.roots.iter().map(|(k, v)| (k.clone(), *v)).collect();
        roots.sort_by(|a, b| a.0.cmp(&b.0));
        for (name, i) in roots {
            if !self.unit() {
                continue;
            }
            let seen = g.reach(i);
            let mut hits: Vec<_> = seen.keys().copied().filter(|x| g.allocates(*x)).map(|x| g.chain(&seen, x)).collect();
            hits.sort();
            if let Some(h) = hits.first() {
                self.bad(
                    format!("alloc|{}", name),
                    format!("{} can call the allocator on a path that returns [{}]", name, self.cfg.clone()),
                    h.clone(),
                )
            } else {
                self.ok("call graph of an operation reaches no allocation function");
                self.calls_graph += seen.len() as u64;
            }
        }
        if self.unit() {
            let cs = g.crates();
            let std = cs.iter().any(|c| c == "std");
            if !std && cs.iter().any(|c| c == "alloc") {
                self.bad("crate|alloc".into(), format!("the crate links the alloc crate without its std feature [{}]", self.cfg.clone()), "crate graph".into())
            } else {
                self.ok("crate graph needs no allocator beyond std's");
            }
        }
        for o in g.opaque.iter() {
            self.values.insert(format!("opaque {}", o), String::new());
        }
    }
    fn c18(&mut self) {
        self.explore(&|s: &mut Self, kind: &str, ps: Paths<'tcx>| {
            let mut out = vec![];
            for p in ps {
                if !p.st.heap.is_empty() {
                    let site = p.st.heap.iter().next().unwrap().clone();
                    match s.feasible(&p.st) {
                        Some(w) => {
                            let op = p.log.last().cloned().unwrap_or_default();
                            let t = script(&p.log);
                            s.bad(
                                format!("heap|{}", site),
                                format!("{} performs a heap allocation ({}) [{}] script: {}", op, w, s.cfg.clone(), t),
                                site,
                            )
                        }
                        None => s.unknown(kind, format!("allocation on a path without witness: {}", site)),
                    }
                    continue;
                }
                match &p.fail {
                    None => {
                        s.ok(kind);
                        out.push(p)
                    }
                    Some((_, Bad::Panic(..))) => {}
                    Some((_, e)) => {
                        let m = bad_text(e);
                        s.unknown(kind, m)
                    }
                }
            }
            out
        });
    }

    // ------------------------------------------------------------ C10
    fn class_of(used: &BTreeSet<String>) -> &'static str {
        let has = |s: &str| used.iter().any(|x| x == s);
        if used.iter().any(|x| x.starts_with("avx512")) {
            "avx512"
        } else if has("avx2") {
            "avx2"
        } else if has("avx") {
            "avx"
        } else if has("sse4.1") || has("sse4.2") || has("ssse3") {
            "sse4.1"
        } else if has("neon") {
            "neon"
        } else if has("simd128") {
            "simd128"
        } else {
            "portable"
        }
    }
    /// A dispatching hasher obtained in the `w`th way: the paths, its key, its index on each path (the last object).
    fn c10_way(&mut self, p: Path<'tcx>, w: usize, key: &[W; 4], zk: &[W; 4]) -> (Paths<'tcx>, [W; 4], usize) {
        let base = p.objs.len();
        match w {
            0 => (self.mk_new(p, "auto", key, 0), *key, base),
            1 | 2 => {
                let m = self.key_model(zk, 0);
                (self.mk_plain(p, "auto", ["default", "bhd"][w - 1], vec![], Some(m)), *zk, base)
            }
            3 => {
                let r = self.mk_new(p, "auto", key, 0);
                (self.each(r, |s, p| s.clone_obj(p, base)), *key, base + 1)
            }
            4 => {
                let r = self.bh_new(p, Some(key));
                (self.each(r, |s, p| s.bh_build(p, base, key, 0)), *key, base + 1)
            }
            5 => {
                let r = self.bh_new(p, None);
                (self.each(r, |s, p| s.bh_build(p, base, zk, 0)), *zk, base + 1)
            }
            _ => {
                let r = self.mk_new(p, "portable", key, 0);
                let r = self.each(r, |s, p| s.ckpt(p, base));
                let key = *key;
                let r = self.each(r, |s, mut p| {
                    let ck = p.cks.pop().unwrap();
                    p.st.used = Rc::new(Default::default());
                    let m = s.key_model(&key, 0);
                    s.mk_restore(p, "auto", &ck, Some(m))
                });
                (r, key, base + 1)
            }
        }
    }
    fn c10(&mut self) {
        let key = self.s.key_syms();
        let z = self.s.it.t.cst(64, 0);
        let zk = [z; 4];
        // one choice for every way of obtaining a hasher, whichever comes first
        let kind = "selection: same backend for new/default/restore/clone/BuildHasher, features permitted";
        const WAYS: [&str; 7] = ["HighwayHasher::new(key)", "HighwayHasher::default()", "BuildHasherDefault", "clone", "HighwayBuildHasher", "HighwayBuildHasher::default()", "from_checkpoint"];
        // (first way, data length); 7 and on: explicit backends are made before `new`
        let mut runs: Vec<(usize, u64)> = [0u64, 1, 5, 16, 31, 32, 33, 70].iter().map(|n| (0, *n)).collect();
        runs.extend((1..10).map(|w| (w, 5)));
        for (first, n) in runs {
            if !self.unit() {
                continue;
            }
            let use_it = |s: &mut Self, ps: Paths<'tcx>, i: usize| {
                let ps = s.each(ps, |s, p| s.app(p, i, n));
                let ps = s.each(ps, |s, p| s.app(p, i, 40));
                s.each(ps, |s, p| s.fin(p, i, 256))
            };
            let mut p = self.start_b(&[]);
            let mut w0 = first;
            if first >= 7 {
                w0 = if first == 9 { 6 } else { 0 };
                let b = ["sse", "avx", "portable"][first - 7];
                if self.s.has(b, "new") {
                    let ps = self.mk_new(p, b, &key, 0);
                    let mut ps = self.each(ps, |s, p| s.fin(p, 0, 64));
                    ps.truncate(1);
                    match ps.pop() {
                        Some(q) => p = q,
                        None => continue,
                    }
                    p.st.used = Rc::new(Default::default());
                    p.obs.clear();
                }
            }
            let (ps, k0, i0) = self.c10_way(p, w0, &key, &zk);
            let ps = use_it(self, ps, i0);
            let ps = self.tested(kind, ps, WAYS[w0]);
            for p in ps {
                let c0 = Self::class_of(&p.st.used);
                let e = *p.obs.last().unwrap();
                // equals portable
                let j = p.objs.len();
                let q = self.mk_new(p.clone(), "portable", &k0, 0);
                let q = use_it(self, q, j);
                for q in self.good(kind, q) {
                    let (a, b) = (*q.obs.last().unwrap(), e);
                    self.equal(kind, &q, a, b, &format!("{} computes another result than portable", WAYS[w0]));
                }
                for w in 0..7 {
                    // a whole matrix is not needed: one later way per other first one
                    if first != 0 && w != 0 && w != (first + 1) % 7 && w != 6 {
                        continue;
                    }
                    let nm = WAYS[w];
                    let mut q = p.clone();
                    q.st.used = Rc::new(Default::default());
                    q.obs.clear();
                    let (r, k, i) = self.c10_way(q, w, &key, &zk);
                    let r = use_it(self, r, i);
                    for q in self.tested(kind, r, nm) {
                        let c = Self::class_of(&q.st.used);
                        if c != c0 {
                            if let Some(wit) = self.feasible(&q.st) {
                                let t = script(&q.log);
                                let site = self.op_site_text("auto", "new");
                                self.bad(
                                    format!("select|{}|{}", WAYS[w0], nm),
                                    format!("{} selects {} but {} after it selects {} ({}) [{}] script: {}", WAYS[w0], c0, nm, c, wit, self.cfg.clone(), t),
                                    site,
                                );
                            } else {
                                self.unknown(kind, "different selection without witness".into());
                            }
                            continue;
                        }
                        // result equals portable
                        let res = *q.obs.last().unwrap();
                        let j = q.objs.len();
                        let q2 = self.mk_new(q.clone(), "portable", &k, 0);
                        let q2 = use_it(self, q2, j);
                        for q2 in self.good(kind, q2) {
                            let a = *q2.obs.last().unwrap();
                            self.equal(kind, &q2, a, res, &format!("{} computes another result than portable", nm));
                        }
                        let t = script(&q.log);
                        self.sample(format!("[{}] {} then {} -> {} : {}", self.cfg.clone(), WAYS[w0], nm, c, t));
                    }
                }
            }
        }
        // every operation of the dispatcher executes only permitted instructions
        for o in [Origin::New, Origin::Default, Origin::Bhd, Origin::Arb(0, false), Origin::Arb(7, false), Origin::Arb(31, false), Origin::Arb(32, false)] {
            for k in 0..3usize {
                if !self.unit() {
                    continue;
                }
                let kind = "dispatcher operations execute only permitted instructions";
                let p = self.start_b(&[]);
                let ps = self.origin(p, "auto", &o, 0);
                let (a, b, q) = (self.c([0, 33, 64][k]), self.c([5, 32, 70][k]), self.sym("Q", 9));
                let mut ops = vec![Op::App(a), Op::Obs("finish"), Op::Ckpt, Op::Clone, Op::Hw(b), Op::CloneFrom, Op::Quiet("debug"), Op::Fin(64), Op::Fin(128), Op::Fin(256), Op::Int("write_u64"), Op::Hop("auto".into()), Op::App(q), Op::Fin(64), Op::Fin(128), Op::Fin(256)];
                if self.s.has("auto", "iowrite_n") {
                    ops.insert(3, Op::Io(b));
                }
                let ps = self.each(ps, |s, p| s.ops(p, 0, &ops));
                for _ in self.tested(kind, ps, "HighwayHasher") {
                    self.ok(kind);
                }
            }
        }
        // equality with portable over lengths in this configuration
        for n in 0..70 {
            if self.unit() {
                let w = self.c(n);
                let one = self.c(n % 33);
                self.versus_portable("auto", &[Op::App(one), Op::App(w)], None);
            }
        }
        for r in 0..32 {
            if self.unit() {
                let w = self.sym("Q", r);
                let one = self.c((r * 5) % 32);
                self.versus_portable("auto", &[Op::App(one), Op::App(w)], None);
            }
        }
        // explicit constructors
        for b in self.explicit() {
            let feat = match b.as_str() {
                "sse" => "sse4.1",
                "avx" => "avx2",
                _ => continue,
            };
            for (f, arg) in [("try_new_some", 0), ("try_restore_some", 1), ("try_hash", 2)] {
                if !self.s.has(&b, f) || !self.unit() {
                    continue;
                }
                let kind = format!("{}: explicit constructor returns a hasher only when {} is detected", b, feat);
                let mut p = self.start_b(&[]);
                let mut args = vec![];
                if arg == 1 {
                    let c = self.cnt_const(5);
                    let ck = self.arb_ck(c);
                    args.push(self.s.words_val(&ck, 1));
                } else {
                    args.push(self.s.words_val(&key, 8));
                }
                if arg == 2 {
                    let d = self.s.stream(0, 37);
                    let (_, v) = self.s.slice_arg(&mut p.st, &d);
                    args.push(v);
                }
                let outs = self.s.call(p.st.clone(), &format!("{}::{}", b, f), args);
                let ps = self.join_pub(&p, &format!("{}::{}", b, f), outs, |s, q, v| {
                    if let Ok(w) = s.s.it.word_of(&q.st, &v) {
                        q.obs.push(w)
                    }
                });
                for q in self.tested(&kind, ps, &kind) {
                    if arg == 2 {
                        self.ok(&kind);
                        continue;
                    }
                    let some = self.s.it.t.as_const(q.obs[0]);
                    let det = self.s.it.detected_sym(feat);
                    let det_known = q.st.facts.decide(&mut self.s.it.t, &self.s.it.ps, det);
                    let enabled = self.s.it.session_features.contains(feat);
                    match some {
                        Some(0) => self.ok(&kind),
                        Some(_) if enabled || det_known == Some(true) => self.ok(&kind),
                        Some(_) => {
                            // is there a run without the feature?
                            let mut st = q.st.clone();
                            st.facts.assume(&mut self.s.it.t, &self.s.it.ps, det ^ 1);
                            match self.feasible(&st) {
                                Some(w) => {
                                    let site = self.op_site_text(&b, f);
                                    self.bad(
                                        format!("ctor|{}|{}", b, f),
                                        format!("{} of {} returns a hasher although {} is not detected ({}) [{}]", f, b, feat, w, self.cfg.clone()),
                                        site,
                                    )
                                }
                                None => self.unknown(&kind, "no witness".into()),
                            }
                        }
                        None => self.unknown(&kind, "result not constant".into()),
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ C15
    fn c15(&mut self) {
        let ka = self.s.key_syms();
        let kb = [0, 1, 2, 3].map(|i| self.s.it.t.sym(&format!("otherkey{}", i), 64));
        let bs = self.all();
        let mut shapes: Vec<([u64; 3], [u64; 3])> = vec![];
        for k in 0..(if self.thorough() { 120u64 } else { 24 }) {
            let f = |j: u64| [0u64, 1, 5, 16, 31, 32, 33, 40, 64, 70, 3, 8][((k * 7 + j * 5) % 12) as usize];
            shapes.push(([f(0), f(1), f(2)], [f(3), f(4), f(5)]));
        }
        for b in &bs {
            for o in &bs {
                for (sh, (la, lb)) in shapes.iter().enumerate() {
                    if !self.unit() {
                        continue;
                    }
                    self.isolated(b, o, &ka, &kb, la, lb, sh);
                }
            }
        }
        // hashers handed out by one shared BuildHasher
        for (sh, (la, lb)) in shapes.iter().enumerate() {
            if !self.unit() {
                continue;
            }
            let kind = "hashers of one shared BuildHasher are isolated";
            let what = "results of a hasher handed out by a HighwayBuildHasher change with other hashers";
            let p = self.start_b(&[]);
            let alone = |s: &mut Self, p: Path<'tcx>, l: &[u64; 3], stream: u32| {
                let ps = s.bh_new(p, Some(&ka));
                let ps = s.each(ps, |s, p| s.bh_build(p, 0, &ka, stream));
                let ps = s.each(ps, |s, p| s.apps(p, 1, l));
                let ps = s.each(ps, |s, p| s.ops(p, 1, &[Op::Obs("finish")]));
                s.each(ps, |s, p| s.finals(p, 1))
            };
            let r1 = alone(self, p, la, 0);
            for r1 in self.good(kind, r1) {
                let mut q = self.start_b(&[]);
                q.st.facts = r1.st.facts.clone();
                let r2 = alone(self, q, lb, 1);
                for r2 in self.good(kind, r2) {
                    let mut q = self.start_b(&[]);
                    q.st.facts = r2.st.facts.clone();
                    // one builder, two hashers, interleaved; and another builder
                    let ps = self.bh_new(q, Some(&ka));
                    let ps = self.each(ps, |s, p| s.bh_new(p, Some(&kb)));
                    let ps = self.each(ps, |s, p| s.bh_build(p, 0, &ka, 0));
                    let ps = if sh % 2 == 1 { self.each(ps, |s, p| s.app(p, 2, la[0])) } else { ps };
                    let ps = self.each(ps, |s, p| s.bh_build(p, 1, &kb, 2));
                    let ps = self.each(ps, |s, p| s.app(p, 3, 50));
                    let ps = self.each(ps, |s, p| s.bh_build(p, 0, &ka, 1));
                    let ps = if sh % 2 == 0 { self.each(ps, |s, p| s.app(p, 2, la[0])) } else { ps };
                    let ps = self.each(ps, |s, p| s.app(p, 4, lb[0]));
                    let ps = self.each(ps, |s, p| s.app(p, 2, la[1]));
                    let ps = self.each(ps, |s, p| s.ops(p, 3, &[Op::Quiet("finish")]));
                    let ps = self.each(ps, |s, p| s.app(p, 4, lb[1]));
                    let ps = self.each(ps, |s, p| s.app(p, 4, lb[2]));
                    let ps = self.each(ps, |s, p| s.app(p, 2, la[2]));
                    let ps = self.each(ps, |s, p| s.ops(p, 2, &[Op::Obs("finish")]));
                    let ps = self.each(ps, |s, p| s.ops(p, 4, &[Op::Obs("finish")]));
                    let ps = self.each(ps, |s, p| s.finals(p, 2));
                    let ps = self.each(ps, |s, p| s.finals(p, 4));
                    for q in self.tested(kind, ps, what) {
                        let want = [r1.obs[0], r2.obs[0], r1.obs[1], r1.obs[2], r1.obs[3], r2.obs[1], r2.obs[2], r2.obs[3]];
                        for (w, g) in want.into_iter().zip(q.obs.clone()) {
                            if !self.equal(kind, &q, w, g, what) {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    fn isolated(&mut self, b: &str, o: &str, ka: &[W; 4], kb: &[W; 4], la: &[u64; 3], lb: &[u64; 3], sh: usize) {
        let kind = format!("{}: unaffected by other {} hashers", b, o);
        let what = format!("results of a {} hasher change when another {} hasher is operated", b, o);
        let restored = sh % 3 == 2;
        let cw = self.cnt_const((la[0] + 3) % 32);
        let ck = self.arb_ck(cw);
        let m = self.arb_model((la[0] + 3) % 32, 0);
        let p = self.start_b(&[b, o]);
        let mk = |s: &mut Self, p: Path<'tcx>| if restored { s.mk_restore(p, b, &ck, m.clone()) } else { s.mk_new(p, b, ka, 0) };
        let tail = |s: &mut Self, ps: Paths<'tcx>, i: usize| {
            let ps = if s.s.has(b, "finish") { s.each(ps, |s, p| s.ops(p, i, &[Op::Obs("finish")])) } else { ps };
            let ps = s.each(ps, |s, p| s.ckpt(p, i));
            s.each(ps, |s, p| s.finals(p, i))
        };
        let ps = mk(self, p);
        let ps = self.each(ps, |s, p| s.apps(p, 0, la));
        let ps = tail(self, ps, 0);
        for r in self.good(&kind, ps) {
            let mut q = self.start_b(&[b, o]);
            q.st.facts = r.st.facts.clone();
            let other = |s: &mut Self, p: Path<'tcx>, l: u64| s.other_bytes(p, 0, 1, l);
            // the other hasher is made and used before, between and after
            let ps = self.mk_new(q, o, kb, 1);
            let ps = self.each(ps, |s, p| other(s, p, lb[0]));
            let ps = self.each(ps, |s, p| mk(s, p));
            let ps = self.each(ps, |s, p| other(s, p, lb[1]));
            let ps = self.each(ps, |s, p| s.app(p, 1, la[0]));
            let ps = self.each(ps, |s, p| s.hop_other(p, o));
            let ps = self.each(ps, |s, p| s.app(p, 1, la[1]));
            let ps = self.each(ps, |s, p| s.quiet_finals(p, 0));
            let ps = self.each(ps, |s, p| other(s, p, lb[2]));
            let ps = self.each(ps, |s, p| s.app(p, 1, la[2]));
            let ps = self.each(ps, |s, p| s.quiet_finals(p, 0));
            let ps = self.each(ps, |s, p| s.mk_new(p, o, kb, 3));
            let ps: Paths<'tcx> = ps
                .into_iter()
                .map(|mut p| {
                    p.cks.clear();
                    p.obs.clear();
                    p
                })
                .collect();
            let ps = tail(self, ps, 1);
            for q in self.tested(&kind, ps, &what) {
                let mut fine = true;
                for (w, g) in r.obs.clone().into_iter().zip(q.obs.clone()) {
                    fine = fine && self.equal(&kind, &q, w, g, &what);
                }
                let (x, y) = (self.s.it.t.concat(&r.cks[0]), self.s.it.t.concat(&q.cks[0]));
                fine = fine && self.equal(&kind, &q, x, y, &what);
                if fine {
                    let t = script(&q.log);
                    self.sample(format!("[{}] {}", self.cfg.clone(), t));
                }
            }
        }
    }
    fn hop_other(&mut self, p: Path<'tcx>, o: &str) -> Paths<'tcx> {
        // checkpoint of the other hasher, restored and dropped
        let k = p.objs.len();
        let ps = self.hop(p, 0, o);
        ps.into_iter()
            .map(|mut p| {
                if p.fail.is_none() {
                    p.objs.truncate(k);
                }
                p
            })
            .collect()
    }
    fn quiet_finals(&mut self, p: Path<'tcx>, i: usize) -> Paths<'tcx> {
        let n = p.obs.len();
        let ps = self.finals(p, i);
        ps.into_iter()
            .map(|mut p| {
                p.obs.truncate(n);
                p
            })
            .collect()
    }
    /// accesses to statics of the crate seen so far that are unsynchronised writes
    fn races(&mut self) {
        let log = self.s.it.static_log.clone();
        let synced: BTreeSet<String> = log.iter().filter(|a| a.atomic).map(|a| a.name.clone()).collect();
        for a in log.iter() {
            if a.write && !a.atomic && !a.tls && synced.is_empty() {
                self.bad(
                    format!("race|{}", a.name),
                    format!("hashing writes the shared static {} without synchronisation: concurrent hashers influence each other [{}]", a.name, self.cfg.clone()),
                    a.site.clone(),
                );
            }
        }
    }

    // ------------------------------------------------------------ C17
    fn c17(&mut self) {
        let kind = "portable: outputs and checkpoints are the specified value graph on this target";
        let what = "portable result or checkpoint";
        let b = "portable";
        let mut jobs: Vec<(String, Origin, u64, Option<u64>)> = vec![];
        for n in 0..(if self.thorough() { 200 } else { 100 }) {
            jobs.push((format!("new+{}", n), Origin::New, n, None));
        }
        for n in [127u64, 128, 129, 255, 256, 257, 1024] {
            jobs.push((format!("new+{}", n), Origin::New, n, None));
        }
        for r in 0..32 {
            jobs.push((format!("new+32Q+{}", r), Origin::New, 0, Some(r)));
            jobs.push((format!("new+{}+32Q+{}", 5 * r % 32, r), Origin::New, 5 * r % 32, Some(r)));
        }
        for n in [0u64, 1, 33] {
            jobs.push((format!("default+{}", n), Origin::Default, n, None));
        }
        for c in self.counts() {
            if c.1 {
                continue;
            }
            for n in [0u64, 1, 16, 31, 32, 33, 70] {
                jobs.push((format!("restore(count {})+{}", c.0, n), Origin::Arb(c.0, false), n, None));
            }
            if c.0 < 32 {
                jobs.push((format!("restore(count {})+32Q+7", c.0), Origin::Arb(c.0, false), 0, Some(7)));
            }
        }
        for (name, o, n, r) in jobs {
            if !self.unit() {
                continue;
            }
            let p = self.start_b(&[b]);
            let ps = self.origin(p, b, &o, 0);
            let ps = self.each(ps, |s, p| s.app(p, 0, n));
            let ps = match r {
                Some(r) => {
                    let w = self.sym("Q", r);
                    self.each(ps, |s, p| s.app_w(p, 0, w))
                }
                None => ps,
            };
            let ps = self.each(ps, |s, p| s.finals(p, 0));
            let ps = self.each(ps, |s, p| s.ckpt(p, 0));
            let np = ps.len();
            for q in ps {
                if q.fail.is_some() {
                    let m = bad_text(&q.fail.clone().unwrap().1);
                    // a failure on this target only is a difference between targets
                    let short = match &q.fail.as_ref().unwrap().1 {
                        Bad::Unsup(..) => {
                            self.unknown(kind, m);
                            continue;
                        }
                        _ => format!("fails: {}", m.split(" at ").next().unwrap_or("")),
                    };
                    if self.feasible(&q.st).is_some() && np == 1 {
                        self.values.insert(name.clone(), short);
                    }
                    self.unknown(kind, m);
                    continue;
                }
                let big = matches!(o, Origin::Arb(c, _) if c >= 32);
                let m = q.objs[0].m.clone().unwrap();
                let mut fine = true;
                if !big {
                    for (j, bits) in [64, 128, 256].into_iter().enumerate() {
                        let e = self.expect(&m, bits);
                        fine = fine && e == q.obs[j];
                    }
                    let e = self.canon_ck(&m);
                    let g = self.s.it.t.concat(&q.cks[0]);
                    fine = fine && e == g;
                } else {
                    fine = false;
                }
                if fine {
                    self.ok(kind);
                    let t = script(&q.log);
                    self.sample(format!("[{}] {}", self.cfg.clone(), t));
                } else if np == 1 && q.st.facts.trail.is_empty() || r.is_some() {
                    if !big {
                        self.unknown(kind, format!("{}: not identified with the specified graph; compared by evaluation across targets", what));
                    } else {
                        self.ok("portable: restored from counts >= 32: evaluated and compared across targets");
                    }
                } else {
                    self.unknown(kind, format!("{}: several paths", what));
                }
                // sampled values for the comparison between targets
                let v = self.sampled(&q);
                if let Some(v) = v {
                    self.values.insert(if np == 1 { name.clone() } else { format!("{}/{}", name, self.describe(&q.st)) }, v);
                }
            }
        }
    }
    /// the documented checkpoint encoding of a logical state, unused buffer bytes zero
    fn canon_ck(&mut self, m: &Model) -> W {
        let (l, pend) = self.logical(m);
        let mut v: Vec<W> = l.to_vec();
        let z = self.s.it.t.cst(8, 0);
        for i in 0..32 {
            v.push(pend.get(i).copied().unwrap_or(z));
        }
        let c = self.s.it.t.cst(32, pend.len() as u128);
        v.push(c);
        self.s.it.t.concat(&v)
    }
    /// values of results and checkpoint under fixed valuations of keys, bytes and lengths
    fn sampled(&mut self, q: &Path<'tcx>) -> Option<String> {
        let mut out = String::new();
        let mut words: Vec<W> = q.obs.clone();
        words.extend(q.cks.iter().flatten());
        let idx: Vec<Atom> = self
            .s
            .it
            .t
            .ranges
            .keys()
            .copied()
            .filter(|a| matches!(&self.s.it.t.atoms[a.0 as usize], AtomKind::Sym(..)))
            .collect();
        for k in 0..4u128 {
            let mut e = Eval::new(&self.s.it.t, 0xc17_0000 + k);
            for &a in &idx {
                let lo = self.s.it.t.ranges[&a].0;
                e.over.insert(a, lo + k * 3);
            }
            if q.st.facts.trail.iter().any(|&l| !e.lit(l)) {
                return None;
            }
            for &w in &words {
                let b = self.s.it.t.bits(w);
                let mut acc = 0u8;
                for (i, &l) in b.iter().enumerate() {
                    if e.lit(l) {
                        acc |= 1 << (i % 8);
                    }
                    if i % 8 == 7 {
                        out.push_str(&format!("{:02x}", acc));
                        acc = 0;
                    }
                }
            }
            if e.approx {
                return None;
            }
            out.push(' ');
        }
        Some(out)
    }

    pub fn run_prop(&mut self) {
        if std::env::var("HW_MODE").is_ok_and(|m| m == "core") {
            return self.core();
        }
        match self.prop.clone().as_str() {
            "C01" => self.c01_for("portable"),
            "C02" => {
                for b in ["sse", "avx", "auto"] {
                    if self.s.backends.iter().any(|x| x == b) {
                        self.equal_portable(b);
                    }
                }
            }
            "C03" => {
                for b in ["neon", "auto"] {
                    if self.s.backends.iter().any(|x| x == b) {
                        self.c03(b);
                    }
                }
            }
            "C04" => {
                for b in ["wasm", "auto"] {
                    if self.s.backends.iter().any(|x| x == b) {
                        self.c03(b);
                    }
                }
            }
            "C05" => self.c05(),
            "C06" => self.c06(),
            "C07" => self.c07(),
            "C08" => self.c08(),
            "C09" => self.c09(),
            "C10" => self.c10(),
            "C11" => self.c11(),
            "C12" => self.c12(),
            "C13" => self.c13(),
            "C14" => self.c14(),
            "C15" => {
                self.c15();
                self.races();
            }
            "C17" => self.c17(),
            "C16" => self.c16(),
            "C18" => {
                self.c18_graph();
                self.c18()
            }
            _ => {}
        }
    }
}

