//! Randomised check of the term constructors against direct evaluation.

use crate::expr::*;
use std::collections::HashMap;

struct R(u64);
impl R {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
}

pub fn run(n: u64) -> i32 {
    let mut r = R(0x1234_5678_9abc_def1);
    for round in 0..n {
        cx().plain = round % 5 == 4;
        // variables and a few assignments
        let mut pool: Vec<(E, Vec<u128>)> = Vec::new();
        let na = 12usize;
        let mut assigns: Vec<HashMap<u32, u128>> = vec![HashMap::new(); na];
        let nv = 2 + r.below(4);
        for _ in 0..nv {
            let w = [8u32, 8, 8, 16, 32, 64, 5, 1][r.below(8) as usize];
            let (lo, hi) = if r.below(3) == 0 { let x = (r.next() as u128) & mask(w); let y = (r.next() as u128) & mask(w); (x.min(y), x.max(y)) } else { (0, mask(w)) };
            let e = new_var(w, lo, hi);
            let id = node(e).k as u32;
            let mut vs = vec![];
            for a in assigns.iter_mut() {
                let span = hi - lo;
                let v = lo + if span == u128::MAX { r.next() as u128 } else { ((r.next() as u128) << 3 ^ r.next() as u128) % (span + 1) };
                let v = match r.below(6) { 0 => lo, 1 => hi, _ => v };
                a.insert(id, v);
                vs.push(v);
            }
            pool.push((e, vs));
        }
        for _ in 0..40 {
            let i = r.below(pool.len() as u64) as usize;
            let (a, va) = pool[i].clone();
            let w = width(a);
            // pick or make an operand of equal width
            let same: Vec<usize> = (0..pool.len()).filter(|&j| width(pool[j].0) == w).collect();
            let (b, vb) = match r.below(3) {
                0 => {
                    let k = match r.below(5) { 0 => 0, 1 => mask(w), 2 => (1u128 << r.below(w as u64)) & mask(w), 3 => (r.below(20) as u128) & mask(w), _ => r.next() as u128 & mask(w) };
                    (konst(w, k), vec![k; na])
                }
                _ => pool[same[r.below(same.len() as u64) as usize]].clone(),
            };
            let m = mask(w);
            let op = r.below(24);
            if std::env::var("ST").is_ok() { eprintln!("{} {} {} || {}", round, op, show(a,5), show(b,5)); }
            let (e, vals): (E, Vec<u128>) = {
                let f2 = |g: &dyn Fn(u128, u128) -> u128| va.iter().zip(vb.iter()).map(|(&x, &y)| g(x, y)).collect::<Vec<u128>>();
                match op {
                    0 => (add(a, b), f2(&|x, y| x.wrapping_add(y) & m)),
                    1 => (sub(a, b), f2(&|x, y| x.wrapping_sub(y) & m)),
                    2 => (mul(a, b), f2(&|x, y| x.wrapping_mul(y) & m)),
                    3 => (udiv(a, b), f2(&|x, y| if y == 0 { m } else { x / y })),
                    4 => (urem(a, b), f2(&|x, y| if y == 0 { x } else { x % y })),
                    5 => (and(a, b), f2(&|x, y| x & y)),
                    6 => (or(a, b), f2(&|x, y| x | y)),
                    7 => (xor(a, b), f2(&|x, y| x ^ y)),
                    8 => (shl(a, b), f2(&|x, y| if y >= w as u128 { 0 } else { (x << y) & m })),
                    9 => (lshr(a, b), f2(&|x, y| if y >= w as u128 { 0 } else { x >> y })),
                    10 => (ashr(a, b), f2(&|x, y| ((sext_val(x, w) >> (y.min(w as u128 - 1) as u32)) as u128) & m)),
                    11 if w > 1 => {
                        let lo = r.below(w as u64) as u32;
                        let len = 1 + r.below((w - lo) as u64) as u32;
                        (extract(a, lo, len), va.iter().map(|&x| (x >> lo) & mask(len)).collect())
                    }
                    12 if w < 64 => { let t = w + 1 + r.below((64 - w) as u64) as u32; (zext(a, t), va.clone()) }
                    13 if w < 64 => { let t = w + 1 + r.below((64 - w) as u64) as u32; (sext(a, t), va.iter().map(|&x| (sext_val(x, w) as u128) & mask(t)).collect()) }
                    14 => {
                        let j = r.below(pool.len() as u64) as usize;
                        let (c, vc) = pool[j].clone();
                        let wc = width(c);
                        if w + wc > 64 { continue; }
                        (concat(a, c), va.iter().zip(vc.iter()).map(|(&x, &y)| (x << wc) | y).collect())
                    }
                    15 => (eq(a, b), f2(&|x, y| (x == y) as u128)),
                    16 => (ult(a, b), f2(&|x, y| (x < y) as u128)),
                    17 => (ule(a, b), f2(&|x, y| (x <= y) as u128)),
                    18 => (slt(a, b), f2(&|x, y| (sext_val(x, w) < sext_val(y, w)) as u128)),
                    19 => (sle(a, b), f2(&|x, y| (sext_val(x, w) <= sext_val(y, w)) as u128)),
                    20 => {
                        let bools: Vec<usize> = (0..pool.len()).filter(|&j| width(pool[j].0) == 1).collect();
                        if bools.is_empty() { continue; }
                        let (c, vc) = pool[bools[r.below(bools.len() as u64) as usize]].clone();
                        (ite(c, a, b), (0..na).map(|k| if vc[k] != 0 { va[k] } else { vb[k] }).collect())
                    }
                    21 if w <= 8 => {
                        let tw = [8u32, 16, 32][r.below(3) as usize];
                        let aff = r.below(2) == 0;
                        let n = 1usize << w;
                        let mut t: Vec<u128> = (0..n).map(|_| r.next() as u128 & mask(tw)).collect();
                        if aff { for i in 1..n { let low = i & (i - 1); if low != 0 { t[i] = t[low] ^ t[i ^ low] ^ t[0]; } } }
                        (table(tw, a, t.clone()), va.iter().map(|&x| t[x as usize]).collect())
                    }
                    22 => (sdiv(a, b), f2(&|x, y| { let (p, q) = (sext_val(x, w), sext_val(y, w)); if q == 0 { (if p < 0 { 1 } else { m }) & m } else { (p.wrapping_div(q) as u128) & m } })),
                    23 => (srem(a, b), f2(&|x, y| { let (p, q) = (sext_val(x, w), sext_val(y, w)); if q == 0 { x } else { (p.wrapping_rem(q) as u128) & m } })),
                    _ => continue,
                }
            };
            let inf = info(e);
            for k in 0..na {
                let mut memo = HashMap::new();
                let got = eval(e, &assigns[k], &mut memo);
                if got != vals[k] || vals[k] < inf.lo || vals[k] > inf.hi || vals[k] & inf.kz != 0 || !vals[k] & inf.ko != 0 {
                    eprintln!("selftest mismatch round {} op {} w {}: a={} b={} -> {} got {:#x} want {:#x} info {:?}", round, op, w, show(a, 4), show(b, 4), show(e, 6), got, vals[k], inf);
                    eprintln!("va={:#x} vb={:#x}", va[k], vb[k]);
                    return 1;
                }
                // substitution of one variable by its value must agree
                if k == 0 {
                    let mut facts = HashMap::new();
                    let (&vid, &vv) = assigns[0].iter().next().unwrap();
                    let ve = cx().vars[vid as usize].e;
                    facts.insert(ve, konst(width(ve), vv));
                    let mut m2 = HashMap::new();
                    let s = subst(e, &facts, &mut m2);
                    let mut memo = HashMap::new();
                    if eval(s, &assigns[0], &mut memo) != vals[0] {
                        eprintln!("selftest subst mismatch op {}", op);
                        return 1;
                    }
                }
            }
            if pool.len() < 60 { pool.push((e, vals)); }
        }
        if cx().nodes.len() > 2_000_000 { init(); }
    }
    cx().plain = false;
    println!("selftest: {} rounds ok", n);
    0
}
