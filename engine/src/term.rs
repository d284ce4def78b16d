//! Value-graph: canonical value numbers for machine words.
//!
//! A word is a vector of bit literals.  A literal is a node of an and/xor graph or its complement.
//! Graph leaves are bits of *atoms*: input symbols, flattened modular sums, products and a few
//! uninterpreted operations.  Equal ids imply equal values for every input.

use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use std::rc::Rc;

pub type Lit = u32;
pub const FALSE: Lit = 0;
pub const TRUE: Lit = 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct W(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Atom(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const,
    Bit(Atom, u16),
    Xor(Box<[Lit]>),
    And(Box<[Lit]>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    UDiv,
    URem,
    SDiv,
    SRem,
    Ult,
    Slt,
    /// index of the k-th ... (reserved)
    Opaque(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKind {
    /// named input
    Sym(Rc<str>, u16),
    /// byte of the input stream at a (possibly symbolic) offset
    Stream(u32, W),
    /// 64-bit lane `lane` of the hash state after absorbing the stream up to an offset
    Lane(u16, W, u8),
    /// base address of an abstract object
    Addr(u32, u8),
    /// sum of coef*leaf + c modulo 2^width
    Lin(u16, Box<[(W, u128)]>, u128),
    /// full product (width = sum of operand widths, capped at 128)
    Mul(u16, W, W),
    Uf(Op, u16, Box<[W]>),
}

impl AtomKind {
    pub fn width(&self) -> usize {
        match self {
            AtomKind::Sym(_, w) => *w as usize,
            AtomKind::Stream(..) => 8,
            AtomKind::Lane(..) => 64,
            AtomKind::Addr(_, w) => *w as usize,
            AtomKind::Lin(w, ..) => *w as usize,
            AtomKind::Mul(w, ..) => *w as usize,
            AtomKind::Uf(_, w, _) => *w as usize,
        }
    }
}

pub type Fp = u128;
fn mix(h: Fp, v: Fp) -> Fp {
    let mut x = h ^ v.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x = (x ^ (x >> 61)).wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9);
    x ^= x >> 67;
    x = x.wrapping_mul(0x2545F4914F6CDD1D9E6C63D0876A68EF);
    x ^ (x >> 59)
}
pub fn fp_str(s: &str) -> Fp {
    s.bytes().fold(0x1234567, |h, b| mix(h, b as u128 + 1))
}

pub struct Terms {
    pub nodes: Vec<Node>,
    node_fp: Vec<Fp>,
    node_map: FxHashMap<Node, u32>,
    pub atoms: Vec<AtomKind>,
    atom_fp: Vec<Fp>,
    atom_map: FxHashMap<AtomKind, Atom>,
    /// node index of bit 0 of each atom (bits are contiguous)
    atom_node0: Vec<u32>,
    words: Vec<Rc<[Lit]>>,
    word_fp: Vec<Fp>,
    word_map: FxHashMap<Rc<[Lit]>, W>,
    lin_cache: FxHashMap<W, Option<Rc<(Vec<(W, u128)>, u128)>>>,
    /// declared ranges of index symbols
    pub ranges: FxHashMap<Atom, (u128, u128)>,
    /// address objects known to be aligned: low zero bits
    pub addr_align: FxHashMap<u32, u8>,
    /// provenance of atoms (index into the interpreter's span table)
    pub atom_prov: FxHashMap<Atom, u32>,
    pub cur_prov: u32,
    pub chains: Vec<Chain>,
    const_cache: FxHashMap<(u16, u128), W>,
    /// nodes known not to depend on an address
    clean: Vec<bool>,
    /// sums by (width, terms): constants seen
    lin_index: FxHashMap<(u16, Box<[(W, u128)]>), Vec<(u128, Atom)>>,
}

pub fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![Node::Const],
            node_fp: vec![0x77],
            node_map: Default::default(),
            atoms: vec![],
            atom_fp: vec![],
            atom_map: Default::default(),
            atom_node0: vec![],
            words: vec![],
            word_fp: vec![],
            word_map: Default::default(),
            clean: vec![],
            lin_cache: Default::default(),
            ranges: Default::default(),
            addr_align: Default::default(),
            atom_prov: Default::default(),
            cur_prov: 0,
            chains: vec![],
            const_cache: Default::default(),
            lin_index: Default::default(),
        };
        t.node_map.insert(Node::Const, 0);
        t
    }

    pub fn stats(&self) -> (usize, usize, usize) {
        (self.nodes.len(), self.atoms.len(), self.words.len())
    }

    // ---------------------------------------------------------------- nodes
    pub fn lit_fp(&self, l: Lit) -> Fp {
        let f = self.node_fp[(l >> 1) as usize];
        if l & 1 == 1 {
            mix(f, 0xdead)
        } else {
            f
        }
    }
    fn mk_node(&mut self, n: Node) -> Lit {
        if let Some(&i) = self.node_map.get(&n) {
            return i << 1;
        }
        let fp = match &n {
            Node::Const => 0x77,
            Node::Bit(a, i) => mix(self.atom_fp[a.0 as usize], 0x100 + *i as u128),
            Node::Xor(ls) => {
                let s = ls.iter().fold(0u128, |s, &l| s.wrapping_add(mix(self.lit_fp(l), 3)));
                mix(s, 0x5501)
            }
            Node::And(ls) => {
                let s = ls.iter().fold(0u128, |s, &l| s.wrapping_add(mix(self.lit_fp(l), 5)));
                mix(s, 0x5502)
            }
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.node_fp.push(fp);
        self.node_map.insert(n, i);
        i << 1
    }
    pub fn not(l: Lit) -> Lit {
        l ^ 1
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let neg = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == 0 {
            return b ^ neg;
        }
        if b == 0 {
            return a ^ neg;
        }
        if a == b {
            return neg;
        }
        let mut v: Vec<Lit> = Vec::new();
        let mut push = |v: &mut Vec<Lit>, l: Lit, nodes: &Vec<Node>| match &nodes[(l >> 1) as usize] {
            Node::Xor(ls) => v.extend_from_slice(ls),
            _ => v.push(l),
        };
        push(&mut v, a, &self.nodes);
        push(&mut v, b, &self.nodes);
        v.sort_unstable();
        let mut out: Vec<Lit> = Vec::with_capacity(v.len());
        for l in v {
            if out.last() == Some(&l) {
                out.pop();
            } else {
                out.push(l);
            }
        }
        match out.len() {
            0 => neg,
            1 => out[0] ^ neg,
            _ => self.mk_node(Node::Xor(out.into_boxed_slice())) ^ neg,
        }
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == FALSE || b == FALSE || a == b ^ 1 {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        let mut v: Vec<Lit> = Vec::new();
        for l in [a, b] {
            if l & 1 == 0 {
                if let Node::And(ls) = &self.nodes[(l >> 1) as usize] {
                    if ls.len() <= 256 {
                        v.extend_from_slice(ls);
                        continue;
                    }
                }
            }
            v.push(l);
        }
        v.sort_unstable();
        v.dedup();
        for i in 1..v.len() {
            if v[i] == v[i - 1] ^ 1 {
                return FALSE;
            }
        }
        // absorption: a & !(a & b) = a & !b (only for a direct two-literal And)
        if v.len() == 2 {
            for (x, y) in [(v[0], v[1]), (v[1], v[0])] {
                if y & 1 == 1 {
                    if let Node::And(ls) = &self.nodes[(y >> 1) as usize] {
                        if ls.contains(&(x ^ 1)) {
                            return x;
                        }
                        if ls.contains(&x) {
                            let rest: Vec<Lit> = ls.iter().copied().filter(|&l| l != x).collect();
                            let mut r = TRUE;
                            for l in rest {
                                r = self.and(r, l);
                            }
                            return self.and(x, r ^ 1);
                        }
                    }
                }
            }
        }
        if v.len() == 1 {
            return v[0];
        }
        self.mk_node(Node::And(v.into_boxed_slice()))
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let x = self.xor(a, b);
        let y = self.and(c, x);
        self.xor(y, b)
    }

    // ---------------------------------------------------------------- atoms
    pub fn atom(&mut self, k: AtomKind) -> Atom {
        if let Some(&a) = self.atom_map.get(&k) {
            return a;
        }
        let fp = match &k {
            AtomKind::Sym(s, w) => mix(mix(fp_str(s), *w as u128), 11),
            AtomKind::Stream(id, o) => mix(mix(self.word_fp[o.0 as usize], 12), *id as u128),
            AtomKind::Lane(ch, o, l) => mix(mix(mix(self.word_fp[o.0 as usize], 13), *l as u128), *ch as u128),
            AtomKind::Addr(a, _) => mix(*a as u128, 14),
            AtomKind::Lin(w, ts, c) => {
                let s = ts.iter().fold(0u128, |s, (w, c)| {
                    s.wrapping_add(mix(mix(self.word_fp[w.0 as usize], 7), *c))
                });
                mix(mix(mix(s, *c), *w as u128), 15)
            }
            AtomKind::Mul(w, a, b) => mix(
                mix(self.word_fp[a.0 as usize], 9)
                    .wrapping_add(mix(self.word_fp[b.0 as usize], 9)),
                16 + *w as u128,
            ),
            AtomKind::Uf(op, w, args) => {
                let mut h = mix(fp_str(&format!("{:?}", op)), *w as u128);
                for a in args.iter() {
                    h = mix(h, self.word_fp[a.0 as usize]);
                }
                mix(h, 17)
            }
        };
        let a = Atom(self.atoms.len() as u32);
        let w = k.width();
        self.atoms.push(k.clone());
        self.atom_fp.push(fp);
        self.atom_map.insert(k, a);
        if self.cur_prov != 0 {
            self.atom_prov.insert(a, self.cur_prov);
        }
        let n0 = self.nodes.len() as u32;
        self.atom_node0.push(n0);
        for i in 0..w {
            let n = Node::Bit(a, i as u16);
            self.nodes.push(n);
            self.node_fp.push(mix(fp, 0x100 + i as u128));
        }
        a
    }
    pub fn bit(&mut self, a: Atom, i: usize) -> Lit {
        (self.atom_node0[a.0 as usize] + i as u32) << 1
    }
    pub fn atom_word(&mut self, a: Atom) -> W {
        let w = self.atoms[a.0 as usize].width();
        let v: Vec<Lit> = (0..w).map(|i| self.bit(a, i)).collect();
        self.word(&v)
    }
    pub fn sym(&mut self, name: &str, w: usize) -> W {
        let a = self.atom(AtomKind::Sym(name.into(), w as u16));
        self.atom_word(a)
    }
    pub fn stream(&mut self, id: u32, off: W) -> W {
        let a = self.atom(AtomKind::Stream(id, off));
        self.atom_word(a)
    }
    pub fn lane(&mut self, chain: u16, off: W, l: u8) -> W {
        let a = self.atom(AtomKind::Lane(chain, off, l));
        self.atom_word(a)
    }
    pub fn lanes_at(&mut self, chain: u16, off: W) -> [W; 16] {
        let mut r = [W(0); 16];
        for i in 0..16 {
            r[i] = self.lane(chain, off, i as u8);
        }
        r
    }

    // ---------------------------------------------------------------- words
    pub fn word(&mut self, bits: &[Lit]) -> W {
        if let Some(&w) = self.word_map.get(bits) {
            return w;
        }
        let rc: Rc<[Lit]> = bits.into();
        let mut h = bits.len() as u128;
        for &b in bits {
            h = mix(h, self.lit_fp(b));
        }
        let w = W(self.words.len() as u32);
        self.words.push(rc.clone());
        self.word_fp.push(h);
        self.word_map.insert(rc, w);
        w
    }
    pub fn bits(&self, w: W) -> Rc<[Lit]> {
        self.words[w.0 as usize].clone()
    }
    pub fn fp(&self, w: W) -> Fp {
        self.word_fp[w.0 as usize]
    }
    pub fn width(&self, w: W) -> usize {
        self.words[w.0 as usize].len()
    }
    pub fn cst(&mut self, w: usize, v: u128) -> W {
        let v = v & mask(w);
        if let Some(&x) = self.const_cache.get(&(w as u16, v)) {
            return x;
        }
        let bits: Vec<Lit> =
            (0..w).map(|i| if i < 128 && (v >> i) & 1 == 1 { TRUE } else { FALSE }).collect();
        let r = self.word(&bits);
        self.const_cache.insert((w as u16, v), r);
        r
    }
    pub fn as_const(&self, w: W) -> Option<u128> {
        let b = &self.words[w.0 as usize];
        let mut v = 0u128;
        for (i, &l) in b.iter().enumerate() {
            if l > 1 {
                return None;
            }
            if i < 128 {
                v |= (l as u128) << i;
            } else if l == 1 {
                return None;
            }
        }
        Some(v)
    }
    pub fn b2w(&mut self, l: Lit) -> W {
        let mut v = [FALSE; 8];
        v[0] = l;
        self.word(&v)
    }
    pub fn extract(&mut self, w: W, lo: usize, n: usize) -> W {
        let b = self.bits(w);
        if lo == 0 && n == b.len() {
            return w;
        }
        self.word(&b[lo..lo + n])
    }
    pub fn zext(&mut self, w: W, n: usize) -> W {
        let b = self.bits(w);
        if n == b.len() {
            return w;
        }
        if n < b.len() {
            return self.word(&b[..n]);
        }
        let mut v = b.to_vec();
        v.resize(n, FALSE);
        self.word(&v)
    }
    pub fn sext(&mut self, w: W, n: usize) -> W {
        let b = self.bits(w);
        if n <= b.len() {
            return self.word(&b[..n]);
        }
        let mut v = b.to_vec();
        let s = *v.last().unwrap_or(&FALSE);
        v.resize(n, s);
        self.word(&v)
    }
    /// little-endian concatenation
    pub fn concat(&mut self, ws: &[W]) -> W {
        let mut v = Vec::new();
        for &w in ws {
            v.extend_from_slice(&self.words[w.0 as usize]);
        }
        self.word(&v)
    }
    pub fn bitwise(&mut self, a: W, b: W, f: fn(&mut Self, Lit, Lit) -> Lit) -> W {
        let (x, y) = (self.bits(a), self.bits(b));
        assert_eq!(x.len(), y.len());
        let v: Vec<Lit> = x.iter().zip(y.iter()).map(|(&p, &q)| f(self, p, q)).collect();
        self.word(&v)
    }
    pub fn w_xor(&mut self, a: W, b: W) -> W {
        self.bitwise(a, b, Self::xor)
    }
    pub fn w_and(&mut self, a: W, b: W) -> W {
        self.bitwise(a, b, Self::and)
    }
    pub fn w_or(&mut self, a: W, b: W) -> W {
        self.bitwise(a, b, Self::or)
    }
    pub fn w_not(&mut self, a: W) -> W {
        let v: Vec<Lit> = self.bits(a).iter().map(|l| l ^ 1).collect();
        self.word(&v)
    }
    pub fn w_mux(&mut self, c: Lit, a: W, b: W) -> W {
        if a == b {
            return a;
        }
        let (x, y) = (self.bits(a), self.bits(b));
        assert_eq!(x.len(), y.len());
        let v: Vec<Lit> = x.iter().zip(y.iter()).map(|(&p, &q)| self.mux(c, p, q)).collect();
        self.word(&v)
    }
    pub fn shl_c(&mut self, a: W, k: usize) -> W {
        let b = self.bits(a);
        let n = b.len();
        if k == 0 {
            return a;
        }
        let mut v = vec![FALSE; k.min(n)];
        if k < n {
            v.extend_from_slice(&b[..n - k]);
        }
        self.word(&v)
    }
    pub fn lshr_c(&mut self, a: W, k: usize) -> W {
        let b = self.bits(a);
        let n = b.len();
        if k == 0 {
            return a;
        }
        let mut v = if k < n { b[k..].to_vec() } else { vec![] };
        v.resize(n, FALSE);
        self.word(&v)
    }
    pub fn ashr_c(&mut self, a: W, k: usize) -> W {
        let b = self.bits(a);
        let n = b.len();
        let s = b[n - 1];
        let mut v = if k < n { b[k..].to_vec() } else { vec![] };
        v.resize(n, s);
        self.word(&v)
    }
    /// barrel shifter; amounts >= width give 0 (or the sign for ashr)
    pub fn shift(&mut self, a: W, amt: W, kind: u8) -> W {
        let n = self.width(a);
        let f = |t: &mut Self, x: W, k: usize| match kind {
            0 => t.shl_c(x, k.min(n)),
            1 => t.lshr_c(x, k.min(n)),
            _ => t.ashr_c(x, k.min(n)),
        };
        if let Some(c) = self.as_const(amt) {
            return f(self, a, c.min(n as u128) as usize);
        }
        let ab = self.bits(amt);
        let mut cur = a;
        for (i, &l) in ab.iter().enumerate() {
            if l == FALSE {
                continue;
            }
            let k = if i < 16 { 1usize << i } else { n };
            let s = f(self, cur, k.min(n));
            cur = self.w_mux(l, s, cur);
        }
        cur
    }

    pub fn umin(&self, w: W) -> u128 {
        let mut v = 0u128;
        for (i, &l) in self.words[w.0 as usize].iter().enumerate() {
            if l == TRUE && i < 128 {
                v |= 1 << i;
            }
        }
        v
    }
    pub fn umax(&self, w: W) -> u128 {
        let mut v = 0u128;
        for (i, &l) in self.words[w.0 as usize].iter().enumerate() {
            if l != FALSE && i < 128 {
                v |= 1 << i;
            }
        }
        v
    }
    /// the word with leading constant zeros removed
    fn trim_hi(&mut self, w: W) -> W {
        let b = self.bits(w);
        let mut n = b.len();
        while n > 0 && b[n - 1] == FALSE {
            n -= 1;
        }
        if n == b.len() {
            return w;
        }
        self.word(&b[..n])
    }

    // ---------------------------------------------------------------- linear arithmetic
    /// w = sum coef*leaf + c  (mod 2^width(w))
    pub fn lin_of(&mut self, w: W) -> Rc<(Vec<(W, u128)>, u128)> {
        if let Some(Some(r)) = self.lin_cache.get(&w) {
            return r.clone();
        }
        let r = Rc::new(self.lin_of_uncached(w));
        self.lin_cache.insert(w, Some(r.clone()));
        r
    }
    fn prefix_of_atom(&self, bits: &[Lit]) -> Option<Atom> {
        // bits are bits 0.. of one atom
        let l0 = *bits.first()?;
        if l0 & 1 == 1 {
            return None;
        }
        let Node::Bit(a, 0) = self.nodes[(l0 >> 1) as usize] else { return None };
        for (i, &l) in bits.iter().enumerate() {
            if l != l0 + 2 * i as u32 {
                return None;
            }
        }
        if bits.len() > self.atoms[a.0 as usize].width() {
            return None;
        }
        Some(a)
    }
    fn lin_of_uncached(&mut self, w: W) -> (Vec<(W, u128)>, u128) {
        let bits = self.bits(w);
        let n = bits.len();
        if let Some(c) = self.as_const(w) {
            return (vec![], c);
        }
        // all bits complemented: -x-1
        if bits.iter().all(|l| l & 1 == 1 && *l > 1) {
            let x = self.w_not(w);
            let r = self.lin_of(x);
            let m = mask(n);
            let ts = r.0.iter().map(|&(l, c)| (l, c.wrapping_neg() & m)).collect();
            return (ts, r.1.wrapping_neg().wrapping_sub(1) & m);
        }
        // low constant bits
        let k = bits.iter().take_while(|&&l| l <= 1).count();
        if k > 0 {
            let low = self.umin_bits(&bits[..k]);
            let up = self.word(&bits[k..]);
            let r = self.lin_of(up);
            let m = mask(n);
            let ts = r.0.iter().map(|&(l, c)| (l, (c << k) & m)).collect();
            return (ts, ((r.1 << k) | low) & m);
        }
        // prefix of a sum atom
        if let Some(a) = self.prefix_of_atom(&bits) {
            if let AtomKind::Lin(_, ts, c) = &self.atoms[a.0 as usize] {
                let m = mask(n);
                let ts = ts.iter().map(|&(l, c)| (l, c & m)).filter(|x| x.1 != 0).collect();
                return (ts, c & m);
            }
        }
        // sum atom whose upper bits were found to be zero
        let tw = self.trim_hi(w);
        if tw != w {
            let tb = self.bits(tw);
            if let Some(a) = self.prefix_of_atom(&tb) {
                if let AtomKind::Lin(_, ts, c) = self.atoms[a.0 as usize].clone() {
                    if let Some((lo, hi)) = self.lin_range(&ts, c, self.atoms[a.0 as usize].width()) {
                        if lo >= 0 && (hi as u128) <= mask(tb.len()) {
                            let aw = self.atoms[a.0 as usize].width();
                            let m = mask(n);
                            // re-extend signed coefficients
                            let ts = ts
                                .iter()
                                .map(|&(l, c)| (l, (signed(c, aw) as u128) & m))
                                .filter(|x| x.1 != 0)
                                .collect();
                            return (ts, (signed(c, aw) as u128) & m);
                        }
                    }
                }
            }
        }
        (vec![(tw, 1)], 0)
    }
    /// the atom whose bits, all of them, the word consists of
    fn whole_atom(&self, w: W) -> Option<Atom> {
        let b = self.bits(w);
        let a = self.prefix_of_atom(&b)?;
        (self.atoms[a.0 as usize].width() == b.len()).then_some(a)
    }
    /// the sum (signed coefficients) of which a leaf is the low bits, the others zero
    pub fn leaf_sum(&mut self, w: W) -> Option<(Vec<(W, i128)>, i128, usize)> {
        let tw = self.trim_hi(w);
        let tb = self.bits(tw);
        let a = self.prefix_of_atom(&tb)?;
        let AtomKind::Lin(_, ts, c) = self.atoms[a.0 as usize].clone() else { return None };
        let aw = self.atoms[a.0 as usize].width();
        let ts = ts.iter().map(|&(l, k)| (l, signed(k, aw))).collect();
        Some((ts, signed(c, aw), tb.len()))
    }
    fn umin_bits(&self, b: &[Lit]) -> u128 {
        b.iter().enumerate().fold(0, |v, (i, &l)| if l == TRUE && i < 128 { v | 1 << i } else { v })
    }
    /// integer range of a sum with signed-lifted coefficients (bit-level ranges of the leaves)
    fn lin_range(&self, ts: &[(W, u128)], c: u128, n: usize) -> Option<(i128, i128)> {
        let mut lo = signed(c, n);
        let mut hi = lo;
        for &(l, k) in ts {
            let k = signed(k, n);
            if self.width(l) > 100 {
                return None;
            }
            let (mut a, mut b) = (self.umin(l) as i128, self.umax(l) as i128);
            if let Some(&(rl, rh)) = self.whole_atom(l).and_then(|x| self.ranges.get(&x)) {
                a = a.max(rl as i128);
                b = b.min(rh as i128);
            }
            let (p, q) = (k.checked_mul(a)?, k.checked_mul(b)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
    pub fn from_lin(&mut self, ts: Vec<(W, u128)>, c: u128, n: usize) -> W {
        let m = mask(n);
        let mut ts: Vec<(W, u128)> = ts;
        ts.sort_unstable_by_key(|x| x.0);
        let mut v: Vec<(W, u128)> = Vec::with_capacity(ts.len());
        for (l, k) in ts {
            if let Some(x) = v.last_mut() {
                if x.0 == l {
                    x.1 = x.1.wrapping_add(k);
                    continue;
                }
            }
            v.push((l, k));
        }
        for x in v.iter_mut() {
            x.1 &= m;
        }
        v.retain(|x| x.1 != 0);
        let c = c & m;
        if v.is_empty() {
            return self.cst(n, c);
        }
        // shifted disjoint copies of one leaf: a wider leaf
        for i in 0..v.len() {
            let (l, q) = v[i];
            let lw = self.width(l);
            let pc = q.count_ones();
            if pc > 1 && pc <= 8 && lw <= 32 {
                let s0 = q.trailing_zeros() as usize;
                let pos: Vec<usize> = (0..n.min(128)).filter(|&j| q >> j & 1 == 1).collect();
                if pos.windows(2).all(|p| p[1] - p[0] >= lw) && pos[pos.len() - 1] + lw <= n {
                    let b = self.bits(l);
                    let mut u = vec![FALSE; pos[pos.len() - 1] + lw - s0];
                    for &j in &pos {
                        u[j - s0..j - s0 + lw].copy_from_slice(&b);
                    }
                    let nl = self.word(&u);
                    let mut v2 = v.clone();
                    v2[i] = (nl, 1u128 << s0);
                    return self.from_lin(v2, c, n);
                }
            }
        }
        // common power of two
        let k = v.iter().map(|x| x.1.trailing_zeros()).min().unwrap() as usize;
        if k > 0 {
            let low = self.cst(k, c & mask(k));
            let ts = v.iter().map(|&(l, q)| (l, q >> k)).collect();
            // the quotient of signed coefficients: sign-extend before shifting
            let ts2: Vec<(W, u128)> = v
                .iter()
                .map(|&(l, q)| (l, ((signed(q, n) >> k) as u128) & mask(n - k)))
                .collect();
            let _: Vec<(W, u128)> = ts;
            let up = self.from_lin(ts2, ((signed(c, n) >> k) as u128) & mask(n - k), n - k);
            return self.concat(&[low, up]);
        }
        if v.len() == 1 && c == 0 && v[0].1 == 1 {
            return self.zext(v[0].0, n);
        }
        if v.len() == 1 && c == m && v[0].1 == m && self.width(v[0].0) == n {
            return self.w_not(v[0].0);
        }
        // disjoint powers of two: bitwise or
        if v.iter().all(|x| x.1.is_power_of_two()) {
            let mut acc = self.cst(n, c);
            let mut ok = true;
            for &(l, q) in &v {
                let s = q.trailing_zeros() as usize;
                let lw = self.width(l);
                let z = if lw > n { self.zext(l, n) } else { self.zext(l, n) };
                // bits shifted out are lost mod 2^n: fine
                let z = self.shl_c(z, s);
                let (x, y) = (self.bits(acc), self.bits(z));
                if x.iter().zip(y.iter()).any(|(&p, &q)| p != FALSE && q != FALSE) {
                    ok = false;
                    break;
                }
                let u: Vec<Lit> =
                    x.iter().zip(y.iter()).map(|(&p, &q)| if p == FALSE { q } else { p }).collect();
                acc = self.word(&u);
            }
            if ok {
                return acc;
            }
        }
        // atom at a canonical width with sign-extended coefficients
        let wn = if n <= 64 { 64 } else { 128 };
        let wn = if n > 128 { n } else { wn };
        let wm = mask(wn);
        let lts: Box<[(W, u128)]> =
            v.iter().map(|&(l, q)| (l, (signed(q, n) as u128) & wm)).collect();
        let lc = (signed(c, n) as u128) & wm;
        // known-zero top bits
        let range = self.lin_range(&lts, lc, wn);
        // only the low n bits matter: reuse a wider sum that agrees on them
        let key = (wn as u16, lts.clone());
        let found = if n < wn {
            let m = mask(n);
            self.lin_index.get(&key).and_then(|v| v.iter().find(|x| x.0 & m == lc & m).map(|x| x.1))
        } else {
            None
        };
        let a = match found {
            Some(a) => a,
            None => {
                let a = self.atom(AtomKind::Lin(wn as u16, lts, lc));
                let v = self.lin_index.entry(key).or_default();
                if !v.iter().any(|x| x.1 == a) {
                    v.push((lc, a));
                }
                a
            }
        };
        let mut out: Vec<Lit> = (0..n).map(|i| self.bit(a, i)).collect();
        if let Some((lo, hi)) = range {
            if lo >= 0 {
                let hb = 128 - (hi as u128).leading_zeros() as usize;
                for i in hb..n {
                    out[i] = FALSE;
                }
            }
        }
        self.word(&out)
    }
    pub fn add(&mut self, a: W, b: W) -> W {
        let n = self.width(a);
        assert_eq!(n, self.width(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(n, x.wrapping_add(y));
        }
        if a == b {
            return self.shl_c(a, 1);
        }
        let (x, y) = (self.lin_of(a), self.lin_of(b));
        let mut ts = x.0.clone();
        ts.extend_from_slice(&y.0);
        self.from_lin(ts, x.1.wrapping_add(y.1), n)
    }
    pub fn neg(&mut self, a: W) -> W {
        let n = self.width(a);
        let x = self.lin_of(a);
        let m = mask(n);
        let ts = x.0.iter().map(|&(l, c)| (l, c.wrapping_neg() & m)).collect();
        self.from_lin(ts, x.1.wrapping_neg() & m, n)
    }
    pub fn sub(&mut self, a: W, b: W) -> W {
        let n = self.width(a);
        assert_eq!(n, self.width(b));
        if a == b {
            return self.cst(n, 0);
        }
        let (x, y) = (self.lin_of(a), self.lin_of(b));
        let m = mask(n);
        let mut ts = x.0.clone();
        ts.extend(y.0.iter().map(|&(l, c)| (l, c.wrapping_neg() & m)));
        self.from_lin(ts, x.1.wrapping_sub(y.1), n)
    }
    pub fn mul(&mut self, a: W, b: W) -> W {
        let n = self.width(a);
        assert_eq!(n, self.width(b));
        let m = mask(n);
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(q) {
                if let Some(d) = self.as_const(p) {
                    return self.cst(n, c.wrapping_mul(d));
                }
                let x = self.lin_of(p);
                let ts = x.0.iter().map(|&(l, k)| (l, k.wrapping_mul(c) & m)).collect();
                return self.from_lin(ts, x.1.wrapping_mul(c) & m, n);
            }
        }
        // strip trailing zeros
        let tz = |t: &Self, w: W| t.bits(w).iter().take_while(|&&l| l == FALSE).count();
        let (za, zb) = (tz(self, a), tz(self, b));
        if za + zb > 0 {
            if za + zb >= n {
                return self.cst(n, 0);
            }
            let a2 = self.extract(a, za, n - za);
            let a2 = self.zext(a2, n);
            let b2 = self.extract(b, zb, n - zb);
            let b2 = self.zext(b2, n);
            let r = self.mul(a2, b2);
            return self.shl_c(r, za + zb);
        }
        let (mut x, mut y) = (self.trim_hi(a), self.trim_hi(b));
        if self.word_fp[y.0 as usize] < self.word_fp[x.0 as usize] {
            std::mem::swap(&mut x, &mut y);
        }
        // single-bit operand: conditional
        for (p, q) in [(x, y), (y, x)] {
            if self.width(p) == 1 {
                let l = self.bits(p)[0];
                let z = self.cst(n, 0);
                let qq = self.zext(q, n);
                return self.w_mux(l, qq, z);
            }
        }
        let fw = (self.width(x) + self.width(y)).min(128.max(n));
        let at = self.atom(AtomKind::Mul(fw as u16, x, y));
        let out: Vec<Lit> = (0..n).map(|i| if i < fw { self.bit(at, i) } else { FALSE }).collect();
        self.word(&out)
    }
    pub fn uf(&mut self, op: Op, w: usize, args: &[W]) -> W {
        let a = self.atom(AtomKind::Uf(op, w as u16, args.into()));
        self.atom_word(a)
    }
    /// bitwise equality literal
    pub fn eq(&mut self, a: W, b: W) -> Lit {
        if a == b {
            return TRUE;
        }
        let (x, y) = (self.bits(a), self.bits(b));
        assert_eq!(x.len(), y.len());
        for (&p, &q) in x.iter().zip(y.iter()) {
            if p == q ^ 1 {
                return FALSE;
            }
        }
        let mut r = TRUE;
        for (&p, &q) in x.iter().zip(y.iter()) {
            let d = self.xor(p, q);
            r = self.and(r, d ^ 1);
            if r == FALSE {
                return FALSE;
            }
        }
        r
    }
    /// unsigned less-than literal, without facts
    pub fn ult(&mut self, a: W, b: W) -> Lit {
        if a == b {
            return FALSE;
        }
        if self.width(a) <= 128 {
            if self.umax(a) < self.umin(b) {
                return TRUE;
            }
            if self.umin(a) >= self.umax(b) {
                return FALSE;
            }
        }
        // comparison with a power of two: or of the high bits
        if let Some(c) = self.as_const(b) {
            if c.is_power_of_two() {
                let k = c.trailing_zeros() as usize;
                let bits = self.bits(a);
                let mut r = FALSE;
                for &l in &bits[k..] {
                    r = self.or(r, l);
                }
                return r ^ 1;
            }
        }
        if let Some(c) = self.as_const(a) {
            if (c + 1).is_power_of_two() {
                let k = (c + 1).trailing_zeros() as usize;
                let bits = self.bits(b);
                let mut r = FALSE;
                for &l in &bits[k..] {
                    r = self.or(r, l);
                }
                return r;
            }
        }
        let w = self.uf(Op::Ult, 1, &[a, b]);
        self.bits(w)[0]
    }
    pub fn slt(&mut self, a: W, b: W) -> Lit {
        let flip = |t: &mut Self, w: W| {
            let mut v = t.bits(w).to_vec();
            let n = v.len();
            v[n - 1] ^= 1;
            t.word(&v)
        };
        let (x, y) = (flip(self, a), flip(self, b));
        self.ult(x, y)
    }

    // ---------------------------------------------------------------- support
    /// atoms a word depends on, directly (not through sums/products)
    pub fn lit_atoms(&self, l: Lit, out: &mut FxHashSet<Atom>) {
        match &self.nodes[(l >> 1) as usize] {
            Node::Const => {}
            Node::Bit(a, _) => {
                out.insert(*a);
            }
            Node::Xor(ls) | Node::And(ls) => {
                for &x in ls.iter() {
                    self.lit_atoms(x, out)
                }
            }
        }
    }
    pub fn atom_children(&self, a: Atom) -> Vec<W> {
        match &self.atoms[a.0 as usize] {
            AtomKind::Stream(_, w) | AtomKind::Lane(_, w, _) => vec![*w],
            AtomKind::Lin(_, ts, _) => ts.iter().map(|x| x.0).collect(),
            AtomKind::Mul(_, a, b) => vec![*a, *b],
            AtomKind::Uf(_, _, args) => args.to_vec(),
            _ => vec![],
        }
    }
    pub fn deep_atoms_lit(&self, l: Lit, out: &mut FxHashSet<Atom>) {
        let mut s = FxHashSet::default();
        self.lit_atoms(l, &mut s);
        let mut work: Vec<Atom> = s.into_iter().collect();
        while let Some(a) = work.pop() {
            if out.insert(a) {
                for w in self.atom_children(a) {
                    let mut s = FxHashSet::default();
                    for &l in self.words[w.0 as usize].iter() {
                        self.lit_atoms(l, &mut s);
                    }
                    work.extend(s);
                }
            }
        }
    }
    /// no part of `w` is the address of an object
    pub fn addr_free(&mut self, w: W) -> bool {
        if self.clean.len() < self.nodes.len() {
            self.clean.resize(self.nodes.len() + self.nodes.len() / 2, false);
        }
        let mut seen: Vec<u32> = vec![];
        let mut work: Vec<u32> = self.words[w.0 as usize].iter().map(|l| l >> 1).collect();
        let mut ok = true;
        while let Some(n) = work.pop() {
            if self.clean[n as usize] {
                continue;
            }
            self.clean[n as usize] = true;
            seen.push(n);
            match &self.nodes[n as usize] {
                Node::Const => {}
                Node::Bit(a, k) => {
                    let a = *a;
                    if let AtomKind::Addr(..) = self.atoms[a.0 as usize] {
                        ok = false;
                        break;
                    }
                    let n0 = n - *k as u32;
                    if *k > 0 {
                        work.push(n0);
                    } else {
                        for c in self.atom_children(a) {
                            work.extend(self.words[c.0 as usize].iter().map(|l| l >> 1));
                        }
                    }
                }
                Node::Xor(ls) | Node::And(ls) => work.extend(ls.iter().map(|l| l >> 1)),
            }
        }
        if !ok {
            for n in seen {
                self.clean[n as usize] = false;
            }
        }
        ok
    }
    pub fn deep_atoms(&self, w: W, out: &mut FxHashSet<Atom>) {
        for &l in self.words[w.0 as usize].clone().iter() {
            self.deep_atoms_lit(l, out);
        }
    }
}

pub fn signed(v: u128, n: usize) -> i128 {
    if n >= 128 {
        return v as i128;
    }
    let v = v & mask(n);
    if n > 0 && (v >> (n - 1)) & 1 == 1 {
        (v | !mask(n)) as i128
    } else {
        v as i128
    }
}

// -------------------------------------------------------------------- evaluation
/// A leaf valuation: pseudo-random by leaf fingerprint, with overrides.
/// A sequence of states: `lanes0` at stream offset `off0`, one update per 32 stream bytes after.
#[derive(Clone, Debug)]
pub struct Chain {
    pub stream: u32,
    pub off0: W,
    pub lanes0: [W; 16],
}

thread_local! {
    /// packets that may still be computed for states far into a stream, and those computed
    static FAR: std::cell::RefCell<(u64, Vec<((u32, u128, u128, u128, [u64; 16]), u128, [u64; 16])>)> = std::cell::RefCell::new((300_000_000, vec![]));
}

pub struct Eval<'a> {
    /// set when some value could not be computed faithfully
    pub approx: bool,
    chain_vals: FxHashMap<u16, (u128, [u64; 16])>,
    pub t: &'a Terms,
    pub seed: u128,
    pub over: FxHashMap<Atom, u128>,
    pub over_stream: FxHashMap<(u32, u128), u128>,
    atoms: FxHashMap<Atom, u128>,
    nodes: FxHashMap<u32, bool>,
}

impl<'a> Eval<'a> {
    pub fn new(t: &'a Terms, seed: u128) -> Self {
        Eval { approx: false, chain_vals: Default::default(), t, seed, over: Default::default(), over_stream: Default::default(), atoms: Default::default(), nodes: Default::default() }
    }
    fn stream_value(&self, id: u32, v: u128) -> u128 {
        let k = (self.seed as u64) ^ ((self.seed >> 64) as u64) ^ (id as u64).wrapping_mul(0xd6e8_feb8_6659_fd93);
        let mut z = (v as u64).wrapping_add(k.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) as u128
    }
    pub fn bias(&self, h: u128, w: usize) -> u128 {
        let m = mask(w);
        if self.seed & 3 == 3 {
            let h2 = mix(h, 0x99);
            match h2 & 7 {
                0 => return 0,
                1 => return m,
                2 => return h & m & 0xff,
                3 => return !(h & 0xff) & m,
                _ => {}
            }
        }
        h & m
    }
    fn forward(&self, c: &Chain, at: &mut u128, st: &mut [u64; 16], off: u128) {
        let over = !self.over_stream.is_empty();
        while *at < off {
            let mut p = [0u64; 4];
            for i in 0..32u128 {
                // overridden stream bytes are looked up by atom
                let mut v = None;
                if over {
                    v = self.over_stream.get(&(c.stream, *at + i)).copied();
                }
                let v = v.unwrap_or_else(|| self.bias(self.stream_value(c.stream, *at + i), 8));
                p[(i / 8) as usize] |= ((v & 0xff) as u64) << (8 * (i % 8));
            }
            crate::spec::native_update(st, &p);
            *at += 32;
        }
    }
    fn lane_value(&mut self, ch: u16, off: u128, l: u8) -> u128 {
        let c = self.t.chains[ch as usize].clone();
        let off0 = self.word(c.off0);
        let far = off >= off0 && (off - off0) / 32 > 400_000;
        if off < off0 || (off - off0) % 32 != 0 || far && self.over_stream.keys().any(|k| k.0 == c.stream && k.1 < off) {
            self.approx = true;
            return mix(mix(mix(0xabd, off), l as u128), self.seed) & mask(64);
        }
        let (mut at, mut st) = match self.chain_vals.get(&ch) {
            Some(&(o, s)) if o <= off => (o, s),
            _ => {
                let mut s = [0u64; 16];
                for i in 0..16 {
                    s[i] = self.word(c.lanes0[i]) as u64;
                }
                (off0, s)
            }
        };
        if far {
            let key = (c.stream, self.seed, off0, at, st);
            let hit = FAR.with(|f| f.borrow().1.iter().filter(|x| x.0 == key && x.1 <= off).max_by_key(|x| x.1).map(|x| (x.1, x.2)));
            if let Some((o, s)) = hit {
                (at, st) = (o, s);
            }
            let n = ((off - at) / 32) as u64;
            let left = FAR.with(|f| f.borrow().0);
            if n > left {
                self.approx = true;
                return mix(mix(mix(0xabd, off), l as u128), self.seed) & mask(64);
            }
            FAR.with(|f| f.borrow_mut().0 -= n);
            self.forward(&c, &mut at, &mut st, off);
            FAR.with(|f| f.borrow_mut().1.push((key, at, st)));
        } else {
            self.forward(&c, &mut at, &mut st, off);
        }
        self.chain_vals.insert(ch, (at, st));
        st[l as usize] as u128
    }
    pub fn leaf(&mut self, a: Atom) -> u128 {
        let k = &self.t.atoms[a.0 as usize];
        let w = k.width();
        if let Some(&v) = self.over.get(&a) {
            return v & mask(w);
        }
        // leaves named by their parameter *values*, so that two spellings of one offset agree
        let h = match k {
            AtomKind::Stream(id, o) => {
                let v = self.word(*o);
                if let Some(&x) = self.over_stream.get(&(*id, v)) {
                    return x;
                }
                self.stream_value(*id, v)
            }
            AtomKind::Lane(ch, o, l) => {
                let v = self.word(*o);
                return self.lane_value(*ch, v, *l);
            }
            AtomKind::Addr(id, _) => {
                let al = self.t.addr_align.get(id).copied().unwrap_or(0);
                let r = mix(mix(0xabe, *id as u128), self.seed);
                // canonical-looking, non-null, aligned
                return ((((r & 0x7fff_ffff) | 0x1000_0000) >> al) << al) & mask(w);
            }
            _ => mix(self.t.atom_fp[a.0 as usize], self.seed),
        };
        if let Some(&(lo, hi)) = self.t.ranges.get(&a) {
            let span = (hi - lo).min(if self.seed & 1 == 0 { 7 } else { 1000 });
            return lo + if span == 0 { 0 } else { h % (span + 1) };
        }
        self.bias(h, w)
    }
    pub fn atom(&mut self, a: Atom) -> u128 {
        if let Some(&v) = self.atoms.get(&a) {
            return v;
        }
        let k = self.t.atoms[a.0 as usize].clone();
        let w = k.width();
        let v = match &k {
            AtomKind::Lin(_, ts, c) => {
                let mut s = *c;
                for &(l, q) in ts.iter() {
                    s = s.wrapping_add(self.word(l).wrapping_mul(q));
                }
                s & mask(w)
            }
            AtomKind::Mul(_, x, y) => self.word(*x).wrapping_mul(self.word(*y)) & mask(w),
            AtomKind::Uf(op, _, args) => {
                let av: Vec<u128> = args.iter().map(|&x| self.word(x)).collect();
                let aw: Vec<usize> = args.iter().map(|&x| self.t.width(x)).collect();
                match op {
                    Op::UDiv => {
                        if av[1] == 0 {
                            0
                        } else {
                            av[0] / av[1]
                        }
                    }
                    Op::URem => {
                        if av[1] == 0 {
                            0
                        } else {
                            av[0] % av[1]
                        }
                    }
                    Op::SDiv => {
                        let (p, q) = (signed(av[0], aw[0]), signed(av[1], aw[1]));
                        if q == 0 {
                            0
                        } else {
                            (p.wrapping_div(q)) as u128 & mask(w)
                        }
                    }
                    Op::SRem => {
                        let (p, q) = (signed(av[0], aw[0]), signed(av[1], aw[1]));
                        if q == 0 {
                            0
                        } else {
                            (p.wrapping_rem(q)) as u128 & mask(w)
                        }
                    }
                    Op::Ult => (av[0] < av[1]) as u128,
                    Op::Slt => (signed(av[0], aw[0]) < signed(av[1], aw[1])) as u128,
                    Op::Opaque(x) => {
                        let mut h = mix(*x as u128, self.seed);
                        for v in av {
                            h = mix(h, v);
                        }
                        h & mask(w)
                    }
                }
            }
            _ => self.leaf(a),
        };
        self.atoms.insert(a, v);
        v
    }
    pub fn lit(&mut self, l: Lit) -> bool {
        if l <= 1 {
            return l == 1;
        }
        let n = l >> 1;
        let v = match &self.t.nodes[n as usize] {
            Node::Const => false,
            Node::Bit(a, i) => (self.atom(*a) >> i) & 1 == 1,
            Node::Xor(ls) => {
                if let Some(&v) = self.nodes.get(&n) {
                    v
                } else {
                    let mut r = false;
                    for &x in ls.iter() {
                        r ^= self.lit(x);
                    }
                    self.nodes.insert(n, r);
                    r
                }
            }
            Node::And(ls) => {
                if let Some(&v) = self.nodes.get(&n) {
                    v
                } else {
                    let mut r = true;
                    for &x in ls.iter() {
                        r &= self.lit(x);
                        if !r {
                            break;
                        }
                    }
                    self.nodes.insert(n, r);
                    r
                }
            }
        };
        v ^ (l & 1 == 1)
    }
    pub fn word(&mut self, w: W) -> u128 {
        let b = self.t.bits(w);
        let mut v = 0u128;
        for (i, &l) in b.iter().enumerate() {
            if i < 128 && self.lit(l) {
                v |= 1 << i;
            }
        }
        v
    }
}

impl Terms {
    /// debugging aid: atoms of equal value that were not merged
    pub fn missed(&self, max: usize) {
        let mut m: FxHashMap<(usize, u128, u128), Atom> = Default::default();
        let (mut e1, mut e2) = (Eval::new(self, 10), Eval::new(self, 20));
        let mut n = 0;
        for i in 0..self.atoms.len() {
            let a = Atom(i as u32);
            let w = self.atoms[i].width();
            if w < 16 {
                continue;
            }
            let k = (w, e1.atom(a), e2.atom(a));
            if let Some(&b) = m.get(&k) {
                eprintln!("MISSED #{} = {}\n   and #{} = {}", b.0, self.show_atom(b), i, self.show_atom(a));
                n += 1;
                if n >= max {
                    return;
                }
            } else {
                m.insert(k, a);
            }
        }
    }
    pub fn show_lit(&self, l: Lit) -> String {
        if l <= 1 {
            return l.to_string();
        }
        let s = match &self.nodes[(l >> 1) as usize] {
            Node::Const => "0".into(),
            Node::Bit(a, i) => format!("a{}.{}", a.0, i),
            Node::Xor(v) => format!("({})", v.iter().map(|&x| self.show_lit(x)).collect::<Vec<_>>().join("^")),
            Node::And(v) => format!("({})", v.iter().map(|&x| self.show_lit(x)).collect::<Vec<_>>().join("&")),
        };
        if l & 1 == 1 {
            format!("!{}", s)
        } else {
            s
        }
    }
    pub fn show_word(&self, w: W) -> String {
        if let Some(c) = self.as_const(w) {
            return format!("{:#x}", c);
        }
        let b = self.bits(w);
        // runs of atom bits
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            if let Node::Bit(a, k) = self.nodes[(b[i] >> 1) as usize] {
                let neg = b[i] & 1;
                let mut j = i + 1;
                while j < b.len() && b[j] == b[i] + 2 * (j - i) as u32 && matches!(self.nodes[(b[j] >> 1) as usize], Node::Bit(a2, _) if a2 == a) {
                    j += 1;
                }
                out.push(format!("{}a{}[{}..{}]", if neg == 1 { "~" } else { "" }, a.0, k, k as usize + j - i));
                i = j;
            } else if b[i] <= 1 {
                let mut j = i;
                let mut v = 0u128;
                while j < b.len() && b[j] <= 1 && j - i < 128 {
                    v |= (b[j] as u128) << (j - i);
                    j += 1;
                }
                out.push(format!("{:#x}:{}", v, j - i));
                i = j;
            } else {
                out.push(self.show_lit(b[i]).chars().take(40).collect());
                i += 1;
            }
            if out.len() > 12 {
                out.push("…".into());
                break;
            }
        }
        format!("{{{}}}", out.join(" "))
    }
    pub fn show_atom(&self, a: Atom) -> String {
        match &self.atoms[a.0 as usize] {
            AtomKind::Lin(w, ts, c) => {
                let v: Vec<String> = ts.iter().map(|&(l, k)| format!("{}*{}", signed(k, *w as usize), self.show_word(l))).collect();
                format!("Lin{} {} + {:#x}", w, v.join(" + "), c)
            }
            AtomKind::Mul(w, x, y) => format!("Mul{} {} * {}", w, self.show_word(*x), self.show_word(*y)),
            AtomKind::Stream(i, o) => format!("S{}[{}]", i, self.show_word(*o)),
            AtomKind::Lane(ch, o, l) => format!("T{}.{}[{}]", ch, l, self.show_word(*o)),
            AtomKind::Uf(op, w, v) => format!("{:?}{} {}", op, w, v.iter().map(|&x| self.show_word(x)).collect::<Vec<_>>().join(", ")),
            k => format!("{:?}", k),
        }
    }
}
