//! Path facts: known literals and linear inequalities over index symbols.

use crate::term::*;
use rustc_data_structures::fx::FxHashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Lin {
    pub ts: Vec<(W, i128)>,
    pub c: i128,
}

impl Lin {
    pub fn cst(c: i128) -> Lin {
        Lin { ts: vec![], c }
    }
    pub fn add_scaled(&self, o: &Lin, k: i128) -> Option<Lin> {
        let mut ts = self.ts.clone();
        for &(w, q) in &o.ts {
            let q = q.checked_mul(k)?;
            if let Some(x) = ts.iter_mut().find(|x| x.0 == w) {
                x.1 = x.1.checked_add(q)?;
            } else {
                ts.push((w, q));
            }
        }
        ts.retain(|x| x.1 != 0);
        ts.sort_unstable_by_key(|x| x.0);
        Some(Lin { ts, c: self.c.checked_add(o.c.checked_mul(k)?)? })
    }
    pub fn sub(&self, o: &Lin) -> Option<Lin> {
        self.add_scaled(o, -1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PredKind {
    Ult,
    Eq,
}

#[derive(Clone, Default)]
pub struct Facts {
    pub lits: Rc<FxHashMap<u32, bool>>,
    /// each expression is >= 0
    pub ineqs: Rc<Vec<Lin>>,
    /// literals assumed, in order
    pub trail: Rc<Vec<Lit>>,
}

/// comparisons behind predicate literals
pub type PredSrc = FxHashMap<u32, (PredKind, W, W, bool)>;

fn leaf_range(t: &Terms, w: W) -> Option<(i128, i128)> {
    let b = t.bits(w);
    if b.len() > 120 {
        return None;
    }
    let (mut lo, mut hi) = (t.umin(w), t.umax(w));
    if let Some(&l0) = b.first() {
        if l0 & 1 == 0 {
            if let Node::Bit(a, 0) = t.nodes[(l0 >> 1) as usize] {
                if let Some(&(rl, rh)) = t.ranges.get(&a) {
                    let full = t.atoms[a.0 as usize].width();
                    if b.len() == full
                        && b.iter().enumerate().all(|(i, &l)| l == l0 + 2 * i as u32)
                    {
                        lo = lo.max(rl);
                        hi = hi.min(rh);
                    }
                }
            }
        }
    }
    Some((lo as i128, hi as i128))
}

impl Facts {
    pub fn range(&self, t: &Terms, e: &Lin) -> Option<(i128, i128)> {
        let lo = self.min(t, e, 2)?;
        let neg = Lin::cst(0).sub(e)?;
        let hi = -self.min(t, &neg, 2)?;
        Some((lo, hi))
    }
    fn base_min(&self, t: &Terms, e: &Lin) -> Option<i128> {
        let mut lo = e.c;
        for &(w, k) in &e.ts {
            let (a, b) = leaf_range(t, w)?;
            let v = if k > 0 { k.checked_mul(a)? } else { k.checked_mul(b)? };
            lo = lo.checked_add(v)?;
        }
        Some(lo)
    }
    pub fn min(&self, t: &Terms, e: &Lin, depth: usize) -> Option<i128> {
        let mut best = self.base_min(t, e)?;
        if depth > 0 && !e.ts.is_empty() {
            for q in self.ineqs.iter() {
                // e = lambda*q + rest, q >= 0  =>  min e >= min rest
                for &(w, k) in &q.ts {
                    if let Some(x) = e.ts.iter().find(|x| x.0 == w) {
                        if x.1 % k == 0 && x.1 / k > 0 {
                            if let Some(rest) = e.add_scaled(q, -(x.1 / k)) {
                                if rest.ts.len() <= e.ts.len() {
                                    if let Some(m) = self.min(t, &rest, depth - 1) {
                                        best = best.max(m);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Some(best)
    }
    /// the unsigned value of w as an integer-valued linear form
    pub fn int_lin(&self, t: &mut Terms, w: W) -> Option<Lin> {
        let n = t.width(w);
        if n > 120 {
            return None;
        }
        if let Some(c) = t.as_const(w) {
            return Some(Lin::cst(c as i128));
        }
        let l = t.lin_of(w);
        if l.0.len() == 1 && l.0[0].1 == 1 && l.1 == 0 {
            // leaf: look for a sum below a zero extension
            if let Some((ts, c, wd)) = t.leaf_sum(w) {
                let mut e = Lin { ts, c };
                e.ts.sort_unstable_by_key(|x| x.0);
                if let Some((lo, hi)) = self.range(t, &e) {
                    if lo >= 0 && (hi as u128) <= mask(wd) {
                        return Some(e);
                    }
                }
            }
            return Some(Lin { ts: vec![(l.0[0].0, 1)], c: 0 });
        }
        let mut e = Lin::cst(signed(l.1, n));
        for &(x, k) in &l.0 {
            e.ts.push((x, signed(k, n)));
        }
        e.ts.sort_unstable_by_key(|x| x.0);
        let (lo, hi) = self.range(t, &e)?;
        if lo >= 0 && (hi as u128) <= mask(n) {
            return Some(e);
        }
        // constant read as unsigned
        let mut e2 = e.clone();
        e2.c = l.1 as i128;
        if e2.c != e.c {
            let (lo, hi) = self.range(t, &e2)?;
            if lo >= 0 && (hi as u128) <= mask(n) {
                return Some(e2);
            }
        }
        Some(Lin { ts: vec![(w, 1)], c: 0 })
    }
    pub fn dec_ult(&self, t: &mut Terms, a: W, b: W) -> Option<bool> {
        if a == b {
            return Some(false);
        }
        if t.width(a) > 120 {
            return None;
        }
        if t.umax(a) < t.umin(b) {
            return Some(true);
        }
        if t.umin(a) >= t.umax(b) {
            return Some(false);
        }
        let (x, y) = (self.int_lin(t, a)?, self.int_lin(t, b)?);
        let d = y.sub(&x)?;
        let (lo, hi) = self.range(t, &d)?;
        if lo > 0 {
            return Some(true);
        }
        if hi <= 0 {
            return Some(false);
        }
        None
    }
    pub fn dec_eq(&self, t: &mut Terms, a: W, b: W) -> Option<bool> {
        if a == b {
            return Some(true);
        }
        let (x, y) = (self.int_lin(t, a)?, self.int_lin(t, b)?);
        let d = y.sub(&x)?;
        let (lo, hi) = self.range(t, &d)?;
        if lo > 0 || hi < 0 {
            return Some(false);
        }
        if lo == 0 && hi == 0 {
            return Some(true);
        }
        // gcd argument
        let g = d.ts.iter().fold(0i128, |g, x| gcd(g, x.1.abs()));
        if g > 1 && d.c % g != 0 {
            return Some(false);
        }
        None
    }
    pub fn decide(&self, t: &mut Terms, ps: &PredSrc, l: Lit) -> Option<bool> {
        if l <= 1 {
            return Some(l == 1);
        }
        let n = l >> 1;
        let neg = l & 1 == 1;
        if let Some(&v) = self.lits.get(&n) {
            return Some(v ^ neg);
        }
        if let Some(&(k, a, b, flip)) = ps.get(&n) {
            let r = match k {
                PredKind::Ult => self.dec_ult(t, a, b),
                PredKind::Eq => self.dec_eq(t, a, b),
            };
            if let Some(v) = r {
                return Some(v ^ flip ^ neg);
            }
        }
        if self.lits.is_empty() {
            return None;
        }
        let node = t.nodes[n as usize].clone();
        let r = match node {
            Node::And(ls) => {
                let mut all = true;
                let mut any_false = false;
                for &x in ls.iter() {
                    match self.decide(t, ps, x) {
                        Some(true) => {}
                        Some(false) => {
                            any_false = true;
                            break;
                        }
                        None => all = false,
                    }
                }
                if any_false {
                    Some(false)
                } else if all {
                    Some(true)
                } else {
                    None
                }
            }
            Node::Xor(ls) => {
                let mut r = false;
                for &x in ls.iter() {
                    r ^= self.decide(t, ps, x)?;
                }
                Some(r)
            }
            _ => None,
        };
        r.map(|v| v ^ neg)
    }
    pub fn assume(&mut self, t: &mut Terms, ps: &PredSrc, l: Lit) {
        if l <= 1 {
            return;
        }
        Rc::make_mut(&mut self.trail).push(l);
        self.assume_rec(t, ps, l);
    }
    fn assume_rec(&mut self, t: &mut Terms, ps: &PredSrc, l: Lit) {
        if l <= 1 {
            return;
        }
        let n = l >> 1;
        let v = l & 1 == 0;
        Rc::make_mut(&mut self.lits).insert(n, v);
        if let Some(&(k, a, b, flip)) = ps.get(&n) {
            let holds = v ^ flip;
            if let (Some(x), Some(y)) = (self.int_lin(t, a), self.int_lin(t, b)) {
                let mut add = |e: Option<Lin>| {
                    if let Some(e) = e {
                        if !e.ts.is_empty() {
                            Rc::make_mut(&mut self.ineqs).push(tighten(e));
                        }
                    }
                };
                match (k, holds) {
                    (PredKind::Ult, true) => add(y.sub(&x).map(|mut e| {
                        e.c -= 1;
                        e
                    })),
                    (PredKind::Ult, false) => add(x.sub(&y)),
                    (PredKind::Eq, true) => {
                        add(x.sub(&y));
                        add(y.sub(&x));
                    }
                    (PredKind::Eq, false) => {
                        // a != b where the order is otherwise known
                        let d = y.sub(&x);
                        if let Some(d) = d {
                            if let Some((lo, hi)) = self.range(t, &d) {
                                if lo == 0 {
                                    let mut e = d.clone();
                                    e.c -= 1;
                                    Rc::make_mut(&mut self.ineqs).push(tighten(e));
                                } else if hi == 0 {
                                    if let Some(mut e) = Lin::cst(0).sub(&d) {
                                        e.c -= 1;
                                        Rc::make_mut(&mut self.ineqs).push(tighten(e));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if v {
            if let Node::And(ls) = t.nodes[n as usize].clone() {
                for &x in ls.iter() {
                    self.assume_rec(t, ps, x);
                }
            }
        }
    }
    pub fn add_ineq(&mut self, e: Lin) {
        Rc::make_mut(&mut self.ineqs).push(tighten(e));
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// divide by the gcd of the coefficients, rounding the constant down
pub fn tighten(mut e: Lin) -> Lin {
    let g = e.ts.iter().fold(0i128, |g, x| gcd(g, x.1.abs()));
    if g > 1 {
        for x in e.ts.iter_mut() {
            x.1 /= g;
        }
        e.c = e.c.div_euclid(g);
    }
    e
}
