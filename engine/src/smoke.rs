use crate::obj::*;
use crate::spec;
/// symbolic-length smoke test
pub fn sym<'tcx>(s: &mut Session<'tcx>, b: &str) {
    for r in [33u64, 41] {
        for pre in [0u64, 7] {
            let t0 = std::time::Instant::now();
            let st = s.state_for(b);
            let key = s.key_syms();
            let q = s.it.index_sym("Q", 5, 6);
            for (st, h) in s.op_new(st, b, &key) {
                let h = h.unwrap();
                s.it.sym_mode = false;
                let d0 = s.stream(0, pre);
                for (st, x) in s.op_append(st, b, h, &d0) {
                    x.unwrap();
                    let off = pre / 32 * 32;
                    let mut l = spec::init(&mut s.it.t, &key);
                    let by = s.stream_bytes(0, off);
                    spec::absorb(&mut s.it.t, &mut l, &by);
                    let ow = s.it.usize_w(off);
                    s.it.fold_begin(0, ow, l, &[q]);
                    s.it.sym_mode = true;
                    let len = s.it.len_word(q, r);
                    let base = s.it.usize_w(pre);
                    let d = Data { id: 0, base, len };
                    for (mut st, x) in s.op_append(st, b, h, &d) {
                        if let Err(e) = x {
                            println!("{} pre {} r {}: {:?}", b, pre, r, e);
                            continue;
                        }
                        s.it.sym_mode = false;
                        s.it.fold_object(&mut st, h.0);
                        for (_st, w) in s.op_final(st, b, h, 256) {
                            let w = w.unwrap();
                            let tot = s.it.t.add(base, len);
                            let rem = (pre + r) % 32;
                            let c = s.it.usize_w(rem);
                            let o = s.it.t.sub(tot, c);
                            let ls = s.it.t.lanes_at(s.it.fold.as_ref().unwrap().chain, o);
                            let pend: Vec<_> = (0..rem).map(|i| { let c = s.it.usize_w(i); let p = s.it.t.add(o, c); s.it.t.stream(0, p) }).collect();
                            let e = spec::finish_pending(&mut s.it.t, &ls, &pend, 256);
                            println!("{} pre {} r {} equal {} summaries {} {:?}", b, pre, r, e == w, s.it.summaries, t0.elapsed());
                        }
                    }
                }
            }
        }
    }
    for e in s.it.loop_failures.iter() { println!("LF {}", e); }
}
