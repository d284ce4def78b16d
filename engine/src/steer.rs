//! Choosing inputs for which two value graphs that were not identified may differ.
//!
//! The graphs are compared from the inputs upwards; where they first use different operations, the
//! operands of those operations are given corner values (all ones, sign bits, halves, zero) by
//! propagating the wanted values backwards through exclusive-ors, bit moves and modular sums to the
//! inputs.  The result is only a suggestion: whether the graphs differ is decided by evaluating both.

use crate::term::*;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use std::collections::BTreeMap;

type Force = FxHashMap<Atom, (u128, u128)>;

fn free(t: &Terms, a: Atom) -> bool {
    matches!(t.atoms[a.0 as usize], AtomKind::Sym(..) | AtomKind::Stream(..)) && !t.ranges.contains_key(&a)
}

struct Want<'a> {
    t: &'a Terms,
    base: &'a Eval<'a>,
    leaf: Force,
    pend: BTreeMap<Atom, (u128, u128)>,
}
impl<'a> Want<'a> {
    fn eval(&self) -> Eval<'a> {
        let mut e = Eval::new(self.t, self.base.seed);
        e.over = self.base.over.clone();
        let mut v: Vec<_> = self.leaf.iter().collect();
        v.sort();
        for (&a, &(m, x)) in v {
            let cur = e.leaf(a);
            let nv = (cur & !m) | x;
            e.over.insert(a, nv);
            if let AtomKind::Stream(id, o) = &self.t.atoms[a.0 as usize] {
                let o = e.word(*o);
                e.over_stream.insert((*id, o), nv);
            }
        }
        let mut e2 = Eval::new(self.t, e.seed);
        e2.over = std::mem::take(&mut e.over);
        e2.over_stream = std::mem::take(&mut e.over_stream);
        e2
    }
    fn set(m: &mut (u128, u128), i: u16, v: bool) -> bool {
        if m.0 >> i & 1 == 1 {
            return (m.1 >> i & 1 == 1) == v;
        }
        m.0 |= 1 << i;
        if v {
            m.1 |= 1 << i;
        }
        true
    }
    /// record that `l` should be true
    fn want(&mut self, l: Lit, e: &mut Eval<'a>, depth: u32) -> bool {
        if l <= 1 {
            return l == TRUE;
        }
        if depth > 60 {
            return false;
        }
        let pos = l & 1 == 0;
        match &self.t.nodes[(l >> 1) as usize] {
            Node::Const => false,
            Node::Bit(a, i) => {
                let (a, i) = (*a, *i);
                if free(self.t, a) {
                    return Self::set(self.leaf.entry(a).or_default(), i, pos);
                }
                if let AtomKind::Lin(..) = self.t.atoms[a.0 as usize] {
                    return Self::set(self.pend.entry(a).or_default(), i, pos);
                }
                e.lit(l)
            }
            Node::And(ls) => {
                if pos {
                    let ls = ls.clone();
                    let mut ok = true;
                    for &x in ls.iter() {
                        ok &= self.want(x, e, depth + 1);
                    }
                    return ok;
                }
                if e.lit(l) {
                    return true;
                }
                let ls = ls.clone();
                for &x in ls.iter() {
                    let (a, b) = (self.leaf.clone(), self.pend.clone());
                    if self.want(x ^ 1, e, depth + 1) {
                        return true;
                    }
                    self.leaf = a;
                    self.pend = b;
                }
                false
            }
            Node::Xor(ls) => {
                let ls = ls.clone();
                // one literal adapts to the others
                let rank = |s: &Self, x: Lit| match &s.t.nodes[(x >> 1) as usize] {
                    Node::Bit(a, i) if free(s.t, *a) => {
                        if s.leaf.get(a).map_or(true, |m| m.0 >> i & 1 == 0) {
                            0
                        } else {
                            9
                        }
                    }
                    Node::Bit(a, i) if matches!(s.t.atoms[a.0 as usize], AtomKind::Lin(..)) => {
                        if s.pend.get(a).map_or(true, |m| m.0 >> i & 1 == 0) {
                            1
                        } else {
                            8
                        }
                    }
                    Node::Bit(..) => 7,
                    _ => 2,
                };
                let k = (0..ls.len()).min_by_key(|&k| rank(self, ls[k])).unwrap();
                let mut acc = false;
                for (j, &x) in ls.iter().enumerate() {
                    if j == k {
                        continue;
                    }
                    let v = match &self.t.nodes[(x >> 1) as usize] {
                        Node::Bit(a, i) if free(self.t, *a) => {
                            // pin it
                            let m = self.leaf.entry(*a).or_default();
                            let cur = if m.0 >> i & 1 == 1 { m.1 >> i & 1 == 1 } else { e.leaf(*a) >> i & 1 == 1 };
                            Self::set(m, *i, cur);
                            cur ^ (x & 1 == 1)
                        }
                        _ => e.lit(x),
                    };
                    acc ^= v;
                }
                let need = acc ^ pos;
                self.want(if need { ls[k] } else { ls[k] ^ 1 }, e, depth + 1)
            }
        }
    }
    fn want_word(&mut self, w: W, v: u128, e: &mut Eval<'a>) -> bool {
        let bits = self.t.bits(w);
        let mut ok = true;
        for (i, &l) in bits.iter().enumerate() {
            let x = if v >> i & 1 == 1 { l } else { l ^ 1 };
            ok &= self.want(x, e, 0);
        }
        ok
    }
    /// make the sum `a` agree with (m, v)
    fn sum(&mut self, a: Atom, m: u128, v: u128) -> bool {
        let AtomKind::Lin(w, ts, _) = &self.t.atoms[a.0 as usize] else { return false };
        let full = mask(*w as usize);
        let mut e = self.eval();
        let cur = e.atom(a);
        if cur & m == v {
            return true;
        }
        let target = (cur & !m) | v;
        let mut order: Vec<usize> = (0..ts.len()).filter(|&i| ts[i].1 & 1 == 1).collect();
        let cost = |i: usize| {
            let mut c = 0u32;
            for &l in self.t.bits(ts[i].0).iter() {
                c += match &self.t.nodes[(l >> 1) as usize] {
                    Node::Bit(x, j) if free(self.t, *x) => {
                        if self.leaf.get(x).map_or(true, |m| m.0 >> j & 1 == 0) {
                            0
                        } else {
                            40
                        }
                    }
                    Node::Bit(x, _) if matches!(self.t.atoms[x.0 as usize], AtomKind::Lin(..)) => 3,
                    Node::Bit(..) => 50,
                    Node::Xor(..) => 2,
                    _ => 8,
                };
            }
            c
        };
        order.sort_by_key(|&i| (cost(i), i));
        for i in order.into_iter().take(3) {
            let (l, q) = ts[i];
            let lw = self.t.width(l);
            let li = e.word(l);
            // inverse of q modulo 2^w
            let mut inv = q;
            for _ in 0..7 {
                inv = inv.wrapping_mul(2u128.wrapping_sub(q.wrapping_mul(inv)));
            }
            let need = li.wrapping_add(target.wrapping_sub(cur).wrapping_mul(inv)) & full;
            let need = need & mask(lw);
            let got = cur.wrapping_add(q.wrapping_mul(need.wrapping_sub(li)));
            if got & m != v & m {
                continue;
            }
            let (x, y) = (self.leaf.clone(), self.pend.clone());
            if self.want_word(l, need, &mut e) {
                return true;
            }
            self.leaf = x;
            self.pend = y;
        }
        false
    }
}

/// extend `force` so that the literals `goals` hold, as far as possible
pub fn steer(t: &Terms, base: &Eval<'_>, goals: &[Lit], force: &mut Force) {
    let mut w = Want { t, base, leaf: force.clone(), pend: Default::default() };
    {
        let mut e = w.eval();
        for &g in goals {
            w.want(g, &mut e, 0);
        }
    }
    for _ in 0..60 {
        let Some((a, (m, v))) = w.pend.pop_last() else { break };
        w.sum(a, m, v);
    }
    *force = w.leaf;
}

fn walk(t: &Terms, w: W) -> FxHashSet<u32> {
    let mut seen: FxHashSet<u32> = Default::default();
    let mut work: Vec<u32> = t.bits(w).iter().map(|l| l >> 1).collect();
    while let Some(n) = work.pop() {
        let n = match &t.nodes[n as usize] {
            Node::Bit(_, k) => n - *k as u32,
            _ => n,
        };
        if !seen.insert(n) {
            continue;
        }
        work.extend(kids(t, n));
    }
    seen
}
fn kids(t: &Terms, n: u32) -> Vec<u32> {
    match &t.nodes[n as usize] {
        Node::Const => vec![],
        Node::Bit(a, _) => t.atom_children(*a).iter().flat_map(|&c| t.bits(c).iter().map(|l| l >> 1).collect::<Vec<_>>()).collect(),
        Node::Xor(ls) | Node::And(ls) => ls.iter().map(|l| l >> 1).collect(),
    }
}

/// sets of literals that put the first differing operations into corner cases
pub fn goals(t: &Terms, a: W, b: W, max: usize) -> Vec<Vec<Lit>> {
    let (x, y) = (walk(t, a), walk(t, b));
    let mut d: Vec<u32> = x.symmetric_difference(&y).copied().collect();
    d.sort();
    let ds: FxHashSet<u32> = d.iter().copied().collect();
    let base = |n: u32| match &t.nodes[n as usize] {
        Node::Bit(_, k) => n - *k as u32,
        _ => n,
    };
    // operations all of whose operands are common
    let first: Vec<u32> = d.into_iter().filter(|&n| kids(t, n).iter().all(|&k| !ds.contains(&base(k)))).collect();
    let set = |w: W, v: u128| -> Vec<Lit> {
        t.bits(w).iter().enumerate().map(|(i, &l)| if i < 128 && v >> i & 1 == 1 { l } else { l ^ 1 }).filter(|&l| l > 1).collect()
    };
    let mut out: Vec<Vec<Vec<Lit>>> = vec![];
    for &n in first.iter().take(40) {
        let mut g: Vec<Vec<Lit>> = vec![];
        match &t.nodes[n as usize] {
            Node::Bit(at, _) => {
                let cs = t.atom_children(*at);
                let corner = |w: usize| {
                    let f = mask(w);
                    vec![f, f & 0xffff_ffff, f >> 1, f & !(f >> 1), 0, f & !0xffff_ffff, f & 0x7fff_ffff, f & 0x8000_0000, f & 0xffff, f & 0xff, f & !1]
                };
                if !matches!(t.atoms[at.0 as usize], AtomKind::Lin(..) | AtomKind::Mul(..) | AtomKind::Uf(..)) {
                    continue;
                }
                let all: Vec<Lit> = cs.iter().flat_map(|&c| set(c, u128::MAX)).collect();
                for k in 0..11 {
                    for &c in &cs {
                        if t.as_const(c).is_none() {
                            let v = corner(t.width(c))[k];
                            g.push(set(c, v));
                        }
                    }
                    if k == 0 && cs.len() > 1 {
                        g.push(all.clone());
                    }
                }
            }
            Node::And(ls) => {
                g.push(ls.to_vec());
                for k in 0..ls.len().min(4) {
                    let mut v = ls.to_vec();
                    v[k] ^= 1;
                    g.push(v);
                }
            }
            Node::Xor(ls) => {
                // an exclusive-or where the other graph has something else
                for k in 0..ls.len().min(3) {
                    let mut v = ls.to_vec();
                    g.push(v.clone());
                    v[k] ^= 1;
                    g.push(v);
                }
            }
            _ => continue,
        }
        out.push(g);
    }
    // round-robin over the operations
    let mut r = vec![];
    let cap = max.min(160);
    for k in 0.. {
        let mut any = false;
        for g in &out {
            if let Some(x) = g.get(k) {
                any = true;
                if r.len() < cap {
                    r.push(x.clone());
                }
            }
        }
        if !any || r.len() >= cap {
            break;
        }
    }
    r
}
