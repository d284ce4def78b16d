//! The HighwayHash reference function (google/highwayhash, portable C version) over the value graph.
//!
//! Written from the published reference, not from the crate; checked against the published test
//! vectors on every run (see `self_check`).

use crate::term::*;

pub type Lanes = [W; 16]; // v0[4] v1[4] mul0[4] mul1[4]

const INIT0: [u64; 4] = [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3];
const INIT1: [u64; 4] = [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377];

fn c64(t: &mut Terms, v: u64) -> W {
    t.cst(64, v as u128)
}
fn rot32w(t: &mut Terms, w: W) -> W {
    let (lo, hi) = (t.extract(w, 0, 32), t.extract(w, 32, 32));
    t.concat(&[hi, lo])
}

pub fn init(t: &mut Terms, key: &[W; 4]) -> Lanes {
    let mut l = [W(0); 16];
    for i in 0..4 {
        let (a, b) = (c64(t, INIT0[i]), c64(t, INIT1[i]));
        l[8 + i] = a;
        l[12 + i] = b;
        l[i] = t.w_xor(a, key[i]);
        let r = rot32w(t, key[i]);
        l[4 + i] = t.w_xor(b, r);
    }
    l
}
fn byte(t: &mut Terms, w: W, i: usize) -> W {
    t.extract(w, 8 * i, 8)
}
/// ZipperMergeAndAdd: bytes of the 128-bit value v1:v0 selected into the two addends
fn zipper(t: &mut Terms, v1: W, v0: W) -> (W, W) {
    // add0 (low): v0[3], v1[4], v0[2], v0[5], v1[6], v0[1], v1[7], v0[0]
    let lo = [(0, 3), (1, 4), (0, 2), (0, 5), (1, 6), (0, 1), (1, 7), (0, 0)];
    // add1 (high): v1[3], v0[4], v1[2], v1[5], v1[1], v0[6], v1[0], v0[7]
    let hi = [(1, 3), (0, 4), (1, 2), (1, 5), (1, 1), (0, 6), (1, 0), (0, 7)];
    let mut pick = |sel: &[(usize, usize); 8]| {
        let parts: Vec<W> = sel.iter().map(|&(s, i)| byte(t, if s == 0 { v0 } else { v1 }, i)).collect();
        t.concat(&parts)
    };
    (pick(&lo), pick(&hi))
}
pub fn update(t: &mut Terms, l: &mut Lanes, p: &[W; 4]) {
    for i in 0..4 {
        let s = t.add(l[8 + i], p[i]);
        l[4 + i] = t.add(l[4 + i], s);
        let m = mul_lo_hi(t, l[4 + i], l[i]);
        l[8 + i] = t.w_xor(l[8 + i], m);
        l[i] = t.add(l[i], l[12 + i]);
        let m = mul_lo_hi(t, l[i], l[4 + i]);
        l[12 + i] = t.w_xor(l[12 + i], m);
    }
    for (d, s) in [(0usize, 4usize), (4, 0)] {
        for k in [0usize, 2] {
            let (lo, hi) = zipper(t, l[s + k + 1], l[s + k]);
            l[d + k] = t.add(l[d + k], lo);
            l[d + k + 1] = t.add(l[d + k + 1], hi);
        }
    }
}
/// (a & 0xffffffff) * (b >> 32)
fn mul_lo_hi(t: &mut Terms, a: W, b: W) -> W {
    let (x, y) = (t.extract(a, 0, 32), t.extract(b, 32, 32));
    let (x, y) = (t.zext(x, 64), t.zext(y, 64));
    t.mul(x, y)
}
/// the same update on machine words (used only to evaluate a value graph at a sample point)
pub fn native_update(l: &mut [u64; 16], p: &[u64; 4]) {
    for i in 0..4 {
        l[4 + i] = l[4 + i].wrapping_add(l[8 + i].wrapping_add(p[i]));
        l[8 + i] ^= (l[4 + i] & 0xffff_ffff).wrapping_mul(l[i] >> 32);
        l[i] = l[i].wrapping_add(l[12 + i]);
        l[12 + i] ^= (l[i] & 0xffff_ffff).wrapping_mul(l[4 + i] >> 32);
    }
    let b = |v: u64, i: usize| (v >> (8 * i)) & 0xff;
    for (d, s) in [(0usize, 4usize), (4, 0)] {
        for k in [0usize, 2] {
            let (v1, v0) = (l[s + k + 1], l[s + k]);
            let pick = |sel: [(u64, usize); 8]| sel.iter().enumerate().fold(0, |a, (j, &(v, i))| a | b(v, i) << (8 * j));
            let lo = pick([(v0, 3), (v1, 4), (v0, 2), (v0, 5), (v1, 6), (v0, 1), (v1, 7), (v0, 0)]);
            let hi = pick([(v1, 3), (v0, 4), (v1, 2), (v1, 5), (v1, 1), (v0, 6), (v1, 0), (v0, 7)]);
            l[d + k] = l[d + k].wrapping_add(lo);
            l[d + k + 1] = l[d + k + 1].wrapping_add(hi);
        }
    }
}
pub fn packet(t: &mut Terms, bytes: &[W]) -> [W; 4] {
    let mut p = [W(0); 4];
    for i in 0..4 {
        p[i] = t.concat(&bytes[8 * i..8 * i + 8]);
    }
    p
}
pub fn remainder(t: &mut Terms, l: &mut Lanes, bytes: &[W]) {
    let n = bytes.len();
    if n == 0 {
        return;
    }
    let m = n & 31;
    let m4 = n & 3;
    let inc = c64(t, ((m as u64) << 32) + m as u64);
    for i in 0..4 {
        l[i] = t.add(l[i], inc);
    }
    for i in 0..4 {
        let w = l[4 + i];
        let mut halves = [W(0); 2];
        for h in 0..2 {
            let x = t.extract(w, 32 * h, 32);
            let b = t.bits(x);
            let v: Vec<Lit> = (0..32).map(|j| b[(j + 32 - m) % 32]).collect();
            halves[h] = t.word(&v);
        }
        l[4 + i] = t.concat(&halves);
    }
    let z = t.cst(8, 0);
    let mut p = vec![z; 32];
    let base = n & !3;
    p[..base].copy_from_slice(&bytes[..base]);
    if n & 16 != 0 {
        for i in 0..4 {
            p[28 + i] = bytes[base + i + m4 - 4];
        }
    } else if m4 != 0 {
        p[16] = bytes[base];
        p[17] = bytes[base + (m4 >> 1)];
        p[18] = bytes[base + m4 - 1];
    }
    let pk = packet(t, &p);
    update(t, l, &pk);
}
fn permute_and_update(t: &mut Terms, l: &mut Lanes) {
    let mut p = [W(0); 4];
    for i in 0..4 {
        p[i] = rot32w(t, l[(i + 2) % 4]);
    }
    update(t, l, &p);
}
fn mod_red(t: &mut Terms, a3u: W, a2: W, a1: W, a0: W) -> (W, W) {
    let m = c64(t, 0x3fff_ffff_ffff_ffff);
    let a3 = t.w_and(a3u, m);
    let f = |t: &mut Terms, x: W, y: W, k: usize| {
        let (p, q) = (t.shl_c(x, k), t.lshr_c(y, 64 - k));
        t.w_or(p, q)
    };
    let (x1, x2) = (f(t, a3, a2, 1), f(t, a3, a2, 2));
    let m1 = t.w_xor(a1, x1);
    let m1 = t.w_xor(m1, x2);
    let (y1, y2) = (t.shl_c(a2, 1), t.shl_c(a2, 2));
    let m0 = t.w_xor(a0, y1);
    let m0 = t.w_xor(m0, y2);
    (m1, m0)
}
/// 64/128/256-bit result (as one little-endian word) from lanes with an empty buffer
pub fn finish(t: &mut Terms, l: &Lanes, bits: usize) -> W {
    let mut l = *l;
    for _ in 0..match bits {
        64 => 4,
        128 => 6,
        _ => 10,
    } {
        permute_and_update(t, &mut l);
    }
    match bits {
        64 => {
            let a = t.add(l[0], l[4]);
            let b = t.add(l[8], l[12]);
            t.add(a, b)
        }
        128 => {
            let mut h = [W(0); 2];
            for i in 0..2 {
                let a = t.add(l[i], l[8 + i]);
                let b = t.add(l[4 + 2 + i], l[12 + 2 + i]);
                h[i] = t.add(a, b);
            }
            t.concat(&h)
        }
        _ => {
            let mut h = [W(0); 4];
            for k in 0..2 {
                let o = 2 * k;
                let a3 = t.add(l[4 + o + 1], l[12 + o + 1]);
                let a2 = t.add(l[4 + o], l[12 + o]);
                let a1 = t.add(l[o + 1], l[8 + o + 1]);
                let a0 = t.add(l[o], l[8 + o]);
                let (m1, m0) = mod_red(t, a3, a2, a1, a0);
                h[o] = m0;
                h[o + 1] = m1;
            }
            t.concat(&h)
        }
    }
}
pub fn absorb(t: &mut Terms, l: &mut Lanes, bytes: &[W]) -> usize {
    let n = bytes.len() / 32 * 32;
    for i in (0..n).step_by(32) {
        let p = packet(t, &bytes[i..i + 32]);
        update(t, l, &p);
    }
    n
}
pub fn hash(t: &mut Terms, key: &[W; 4], bytes: &[W], bits: usize) -> W {
    let mut l = init(t, key);
    let n = absorb(t, &mut l, bytes);
    remainder(t, &mut l, &bytes[n..]);
    finish(t, &l, bits)
}
/// result for lanes + pending bytes (fewer than 32)
pub fn finish_pending(t: &mut Terms, l: &Lanes, pend: &[W], bits: usize) -> W {
    let mut l = *l;
    remainder(t, &mut l, pend);
    finish(t, &l, bits)
}

/// Published vectors: 64-bit results for inputs 0,1,..,n-1 and key 07060504_03020100 ...
pub const EXPECTED64: [u64; 65] = include!("vectors64.in");

pub fn self_check(t: &mut Terms) -> Result<usize, String> {
    let key: [W; 4] = [
        c64(t, 0x0706050403020100),
        c64(t, 0x0F0E0D0C0B0A0908),
        c64(t, 0x1716151413121110),
        c64(t, 0x1F1E1D1C1B1A1918),
    ];
    let mut n = 0;
    {
        // the sampled update agrees with the symbolic one
        let mut a = [0u64; 16];
        for (i, x) in a.iter_mut().enumerate() {
            *x = (i as u64 + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        let mut l = [W(0); 16];
        for i in 0..16 {
            l[i] = c64(t, a[i]);
        }
        for r in 0..8u64 {
            let p = [a[3] ^ r, a[7], a[11], a[15].wrapping_mul(3)];
            let pw = [c64(t, p[0]), c64(t, p[1]), c64(t, p[2]), c64(t, p[3])];
            native_update(&mut a, &p);
            update(t, &mut l, &pw);
            for i in 0..16 {
                if t.as_const(l[i]) != Some(a[i] as u128) {
                    return Err("sampled update disagrees with the reference".into());
                }
            }
        }
        n += 1;
    }
    for (len, &e) in EXPECTED64.iter().enumerate() {
        let b: Vec<W> = (0..len).map(|i| t.cst(8, i as u128)).collect();
        let h = hash(t, &key, &b, 64);
        if t.as_const(h) != Some(e as u128) {
            return Err(format!("reference specification disagrees with published vector {}", len));
        }
        n += 1;
    }
    for (len, bits, want) in VEC_WIDE.iter() {
        let b: Vec<W> = (0..*len).map(|i| t.cst(8, i as u128)).collect();
        let h = hash(t, &key, &b, *bits);
        for (i, &e) in want.iter().enumerate() {
            let x = t.extract(h, 64 * i, 64);
            if t.as_const(x) != Some(e as u128) {
                return Err(format!("reference specification disagrees with published {}-bit vector {}", bits, len));
            }
        }
        n += 1;
    }
    Ok(n)
}
/// published wide vectors (length, width, little-endian words)
pub const VEC_WIDE: &[(usize, usize, &[u64])] = include!("vectorswide.in");
