#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;

mod callgraph;
mod checks;
mod core;
mod facts;
mod interp;
mod intrin;
mod loops;
mod obj;
mod run;
mod smoke;
mod spec;
mod steer;
mod term;

use interp::*;
use obj::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var("HW_PROP").is_ok() {
            job(tcx);
            return Compilation::Stop;
        }
        let t0 = std::time::Instant::now();
        let mut t = term::Terms::new();
        eprintln!("self check {:?} {:?}", spec::self_check(&mut t), t0.elapsed());
        let mut s = Session::new(tcx);
        if let Ok(b) = std::env::var("HW_SYM") {
            for b in b.split(',') {
                smoke::sym(&mut s, b);
            }
        } else {
            smoke(&mut s);
        }
        Compilation::Stop
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    format!("{{{}}}", v.join(","))
}
fn jlist(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.map(|s| jstr(&s)).collect::<Vec<_>>().join(","))
}

/// one shard of the obligations of one property in one configuration
fn job<'tcx>(tcx: TyCtxt<'tcx>) {
    let var = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
    let prop = var("HW_PROP", "");
    let sh = var("HW_SHARD", "0/1");
    let (i, n) = sh.split_once('/').unwrap();
    let mut t = term::Terms::new();
    let self_check = spec::self_check(&mut t);
    drop(t);
    let s = Session::new(tcx);
    let budget: f64 = var("HW_BUDGET", "600").parse().unwrap();
    let mut r = run::Runner::new(s, &prop, &var("HW_CFG", "?"), &var("HW_TIER", "quick"), (i.parse().unwrap(), n.parse().unwrap()), budget);
    r.passes();
    let it = &r.s.it;
    let mut fns: Vec<String> = it.bodies.values().filter_map(|b| b.as_ref().ok()).filter(|b| b.target).map(|b| b.name.clone()).collect();
    fns.sort();
    fns.dedup();
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"key\":{},\"what\":{},\"site\":{}}}", jstr(&v.key), jstr(&v.what), jstr(&v.site)))
        .collect();
    let vals: Vec<String> = r.values.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
    let sc = match &self_check {
        Ok(n) => format!("{}", n),
        Err(e) => jstr(e),
    };
    let stats = format!(
        "{{\"bodies\":{},\"calls\":{},\"memory_accesses\":{},\"assertions\":{},\"feature_checks\":{},\"loop_summaries\":{},\"steps\":{},\"value_nodes\":{},\"units\":{},\"truncated\":{},\"refutation_tries\":{},\"wall\":{:.2}}}",
        it.bodies.len(), it.calls_seen, it.mem_accesses, it.asserts_seen, it.feature_checks, it.summaries, it.total_steps, it.t.stats().0, r.units, r.truncated, r.tries, r.t0.elapsed().as_secs_f64()
    );
    let statics = jlist(it.static_log.iter().map(|a| format!("{} {}{}{}", a.name, if a.write { "write" } else { "read" }, if a.atomic { " atomic" } else { "" }, if a.tls { " tls" } else { "" })));
    let out = format!(
        "{{\"prop\":{},\"cfg\":{},\"self_check\":{},\"backends\":{},\"proved\":{},\"undecided\":{},\"undecided_why\":{},\"violations\":[{}],\"samples\":{},\"functions\":{},\"values\":{{{}}},\"statics\":{},\"stats\":{},\"defer\":[{}]}}",
        jstr(&r.prop), jstr(&r.cfg), sc, jlist(r.s.backends.iter().cloned()), jmap(&r.proved), jmap(&r.undecided), jmap(&r.undecided_why), viol.join(","), jlist(r.samples.iter().cloned()), jlist(fns.into_iter()), vals.join(","), statics, stats, {
            let mut v: Vec<usize> = r.defer.iter().copied().collect();
            v.sort();
            v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        }
    );
    match std::env::var("HW_OUT") {
        Ok(p) => std::fs::write(p, out).unwrap(),
        Err(_) => println!("{}", out),
    }
}

fn smoke<'tcx>(s: &mut Session<'tcx>) {
    let dbg = std::env::var("HW_MISSED").is_ok();
    let lens: Vec<u64> = std::env::var("HW_LENS").map(|v| v.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or(vec![0, 1, 5, 17, 32, 40, 65, 100]);
    let bks: Vec<String> = std::env::var("HW_BK").map(|v| v.split(',').map(|x| x.to_string()).collect()).unwrap_or(vec!["portable".into()]);
    for b in &bks {
        for &n in &lens {
            let t0 = std::time::Instant::now();
            let st = s.state_for(b);
            let key = s.key_syms();
            let mut ok = 0;
            for (st, k) in s.op_new(st, b, &key) {
                let h = match k { Ok(h) => h, Err(e) => { println!("{} {} new: {:?}", b, n, e); continue } };
                let data = s.stream(0, n);
                for (st, r) in s.op_append(st, b, h, &data) {
                    if let Err(e) = r { println!("{} {} append: {:?}", b, n, e); continue }
                    for (st, r) in s.op_final(st, b, h, 256) {
                        match r {
                            Err(e) => println!("{} {} final: {:?}", b, n, e),
                            Ok(w) => {
                                let bytes = s.stream_bytes(0, n);
                                let e = spec::hash(&mut s.it.t, &key, &bytes, 256);
                                if e == w { ok += 1 } else { println!("{} {} MISMATCH", b, n); if dbg { let (x,y)=(s.it.t.bits(e).to_vec(), s.it.t.bits(w).to_vec()); let mut e1=term::Eval::new(&s.it.t,10); for i in 0..x.len(){ if x[i]!=y[i] { println!("bit {} {} {} {} {}", i, e1.lit(x[i]), e1.lit(y[i]), s.it.t.show_lit(x[i]), s.it.t.show_lit(y[i])); if i%64>5 {break} } } s.it.t.missed(4); return } }
                            }
                        }
                        let _ = st;
                    }
                }
            }
            println!("{} len {} ok paths {} steps {} terms {:?} {:?}", b, n, ok, s.it.total_steps, s.it.t.stats(), t0.elapsed());
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
