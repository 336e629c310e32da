//! Hash-consed bit-vector terms with a local simplifier.
//!
//! Every constructor returns a term that is equal, for all values of the
//! variables inside their declared ranges, to the operation it names.  The
//! `selftest` module checks the constructors against a direct evaluation.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const, Var, Add, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle, Table,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

/// Facts about a term that hold for all variable values.
#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128, // bits known to be zero
    pub ko: u128, // bits known to be one
    pub single: u32, // variable id if the term depends on exactly one small variable
}

pub const NOVAR: u32 = u32::MAX;     // no variable at all
pub const MANYVAR: u32 = u32::MAX - 1; // more than one variable, or a large one

pub struct VarInfo {
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub e: E,
}

pub struct TableData {
    pub w: u32,
    pub idxw: u32,
    pub vals: Vec<u128>,
    /// GF(2)-affine: vals[i] == vals[0] ^ XOR of (vals[1<<b] ^ vals[0]) for set bits b of i
    pub affine: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub tables: Vec<Rc<TableData>>,
    table_map: HashMap<(u32, u32, Vec<u128>), u32>,
    sup: HashMap<E, Rc<Vec<u32>>>,
    small: HashMap<E, Rc<Vec<u128>>>,
    small_map: HashMap<(u32, u8, Rc<Vec<u128>>), E>,
    pub fold_small: bool,
    /// build terms without simplification, leaving every decision to the solver
    pub plain: bool,
    pub lin_depth: u32,
    /// keep sums over one small variable whole, their bounds are exact
    pub lin_whole: bool,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

#[inline]
pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

pub fn init() {
    let mut c = Ctx {
        nodes: Vec::new(), info: Vec::new(), map: HashMap::new(), vars: Vec::new(),
        tables: Vec::new(), table_map: HashMap::new(), sup: HashMap::new(),
        small: HashMap::new(), small_map: HashMap::new(), fold_small: true, plain: false, lin_depth: 0, lin_whole: false,
    };
    c.nodes.reserve(1 << 20);
    unsafe { CTX = Box::into_raw(Box::new(c)); }
    for i in 0..256u128 {
        let e = konst(8, i);
        assert_eq!(e, i as u32);
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}

#[inline]
pub fn sext_val(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

#[inline]
pub fn node(e: E) -> Node { cx().nodes[e as usize] }
#[inline]
pub fn width(e: E) -> u32 { cx().nodes[e as usize].w as u32 }
#[inline]
pub fn info(e: E) -> Info { cx().info[e as usize] }
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    let n = &cx().nodes[e as usize];
    if n.op == Op::Const { Some(n.k) } else { None }
}
#[inline]
pub fn is_const(e: E) -> bool { cx().nodes[e as usize].op == Op::Const }

pub fn konst(w: u32, v: u128) -> E {
    let v = v & mask(w);
    raw(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v })
}

pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(1, 0) }

pub fn new_var(w: u32, lo: u128, hi: u128) -> E {
    let id = cx().vars.len() as u32;
    cx().vars.push(VarInfo { w, lo, hi, e: 0 });
    let e = raw(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: id as u128 });
    cx().vars[id as usize].e = e;
    e
}

const SMALL_DOM: u128 = 256;

fn clog2(v: u128) -> u32 { 128 - v.leading_zeros() }

/// Bounds of a linear term as an integer congruent to it modulo 2^w (w <= 64).
fn span(e: E, depth: u32) -> Option<(i128, i128)> {
    let n = node(e);
    let w = n.w as u32;
    let r = match n.op {
        Op::Const => { let k = sext_val(n.k, w); (k, k) }
        Op::Add if depth > 0 => {
            let (a, b) = (span(n.a, depth - 1)?, span(n.b, depth - 1)?);
            (a.0 + b.0, a.1 + b.1)
        }
        Op::Mul if depth > 0 && is_const(n.b) => {
            let k = sext_val(node(n.b).k, w);
            let a = span(n.a, depth - 1)?;
            let (x, y) = (a.0.checked_mul(k)?, a.1.checked_mul(k)?);
            (x.min(y), x.max(y))
        }
        _ => { let i = info(e); (i.lo as i128, i.hi as i128) }
    };
    if r.0 < -(1 << 100) || r.1 > 1 << 100 { None } else { Some(r) }
}

fn compute_info(n: &Node) -> Info {
    let w = n.w as u32;
    let m = mask(w);
    let ia = || info(n.a);
    let ib = || info(n.b);
    let (mut lo, mut hi) = (0u128, m);
    let (mut kz, mut ko) = (0u128, 0u128);
    match n.op {
        Op::Const => { lo = n.k; hi = n.k; kz = !n.k & m; ko = n.k; }
        Op::Var => {
            let v = &cx().vars[n.k as usize];
            lo = v.lo; hi = v.hi;
        }
        Op::Add => {
            let (a, b) = (ia(), ib());
            if let (Some(l), Some(h)) = (a.lo.checked_add(b.lo), a.hi.checked_add(b.hi)) {
                if h <= m { lo = l; hi = h; }
                else if l > m && h - l <= m && (l >> w) == (h >> w) && w < 128 { lo = l & m; hi = h & m; }
            }
            if lo == 0 && hi == m && w <= 64 {
                // the sum as an integer, with constants and factors read as signed
                if let (Some((al, ah)), Some((bl, bh))) = (span(n.a, 16), span(n.b, 16)) {
                    let (l, h) = (al + bl, ah + bh);
                    let k = l.div_euclid(1i128 << w);
                    let (l, h) = (l - (k << w), h - (k << w));
                    if h <= m as i128 { lo = l as u128; hi = h as u128; }
                }
            }
            // low bits known zero in both stay zero
            let tz = (!a.kz & m).trailing_zeros().min((!b.kz & m).trailing_zeros()).min(w);
            kz |= mask(tz);
        }
        Op::Mul => {
            let (a, b) = (ia(), ib());
            if let (Some(l), Some(h)) = (a.lo.checked_mul(b.lo), a.hi.checked_mul(b.hi)) {
                if h <= m { lo = l; hi = h; }
            }
            let tz = ((!a.kz & m).trailing_zeros().min(w) + (!b.kz & m).trailing_zeros().min(w)).min(w);
            kz |= mask(tz);
        }
        Op::UDiv => {
            let (a, b) = (ia(), ib());
            if b.lo > 0 { lo = a.lo / b.hi; hi = a.hi / b.lo; }
        }
        Op::URem => {
            let (a, b) = (ia(), ib());
            if b.lo > 0 { hi = a.hi.min(b.hi - 1); } 
        }
        Op::And => {
            let (a, b) = (ia(), ib());
            kz = a.kz | b.kz; ko = a.ko & b.ko;
            hi = a.hi.min(b.hi);
        }
        Op::Or => {
            let (a, b) = (ia(), ib());
            kz = a.kz & b.kz; ko = a.ko | b.ko;
            lo = a.lo.max(b.lo);
        }
        Op::Xor => {
            let (a, b) = (ia(), ib());
            kz = (a.kz & b.kz) | (a.ko & b.ko);
            ko = (a.kz & b.ko) | (a.ko & b.kz);
        }
        Op::LShr => {
            let a = ia();
            hi = a.hi;
        }
        Op::Concat => {
            let (a, b) = (ia(), ib());
            let wb = width(n.b);
            kz = (a.kz << wb) | b.kz; ko = (a.ko << wb) | b.ko;
            lo = (a.lo << wb) | b.lo; hi = (a.hi << wb) | b.hi;
        }
        Op::Extract => {
            let a = ia();
            let s = n.k as u32;
            kz = (a.kz >> s) & m; ko = (a.ko >> s) & m;
            // if the bits above the slice are constant over the range, keep order
            if (a.lo >> s) >> w == (a.hi >> s) >> w || s + w >= 128 {
                if s + w >= 128 || (a.lo >> (s + w)) == (a.hi >> (s + w)) {
                    lo = (a.lo >> s) & m; hi = (a.hi >> s) & m;
                }
            }
        }
        Op::ZExt => {
            let a = ia();
            let wa = width(n.a);
            lo = a.lo; hi = a.hi;
            kz = a.kz | (m & !mask(wa)); ko = a.ko;
        }
        Op::SExt => {
            let a = ia();
            let wa = width(n.a);
            if a.hi < (1u128 << (wa - 1)) {
                lo = a.lo; hi = a.hi;
                kz = a.kz | (m & !mask(wa)); ko = a.ko;
            } else {
                kz = a.kz & mask(wa - 1); ko = a.ko & mask(wa - 1);
            }
        }
        Op::Ite => {
            let (b, c) = (info(n.b), info(n.c));
            lo = b.lo.min(c.lo); hi = b.hi.max(c.hi);
            kz = b.kz & c.kz; ko = b.ko & c.ko;
        }
        Op::Table => {
            let t = cx().tables[n.k as usize].clone();
            let i = ia();
            let (mut l, mut h) = (u128::MAX, 0u128);
            let (mut z, mut o) = (m, m);
            for ix in i.lo..=i.hi.min(t.vals.len() as u128 - 1) {
                let v = t.vals[ix as usize];
                l = l.min(v); h = h.max(v);
                z &= !v; o &= v;
            }
            if l <= h { lo = l; hi = h; kz = z & m; ko = o & m; }
        }
        _ => {}
    }
    // combine: bits above the top bit of hi are zero
    let top = clog2(hi);
    kz |= m & !mask(top);
    // common prefix of lo and hi is known
    let diff = lo ^ hi;
    let pl = clog2(diff);
    if pl < w {
        let pm = m & !mask(pl);
        ko |= lo & pm;
        kz |= !lo & pm;
    }
    lo = lo.max(ko & m);
    hi = hi.min(m & !kz);
    Info { lo, hi, kz: kz & m, ko: ko & m, single: MANYVAR }
}

fn compute_single(n: &Node) -> u32 {
    match n.op {
        Op::Const => NOVAR,
        Op::Var => {
            let v = &cx().vars[n.k as usize];
            if v.hi - v.lo < SMALL_DOM { n.k as u32 } else { MANYVAR }
        }
        _ => {
            let mut s = NOVAR;
            for &x in children(n).iter() {
                let t = info(x).single;
                if t == NOVAR { continue; }
                if t == MANYVAR { return MANYVAR; }
                if s == NOVAR { s = t; } else if s != t { return MANYVAR; }
            }
            s
        }
    }
}

fn raw_insert(n: Node) -> E {
    let c = cx();
    if let Some(&e) = c.map.get(&n) { return e; }
    let mut inf = compute_info(&n);
    inf.single = compute_single(&n);
    let e = c.nodes.len() as E;
    c.nodes.push(n);
    c.info.push(inf);
    c.map.insert(n, e);
    e
}

/// Intern a node.  Terms over a single small-domain variable are made
/// canonical by their value table.
fn raw(n: Node) -> E {
    let c = cx();
    if let Some(&e) = c.map.get(&n) { return e; }
    if c.plain { return raw_insert(n); }
    if n.op != Op::Const && n.op != Op::Var {
        // constant by range
        let inf = compute_info(&n);
        if inf.lo == inf.hi {
            let r = konst(n.w as u32, inf.lo);
            c.map.insert(n, r);
            return r;
        }
        if c.fold_small {
            let s = compute_single(&n);
            if s != MANYVAR && s != NOVAR {
                let vi = &c.vars[s as usize];
                let (vlo, vhi, vw, ve) = (vi.lo, vi.hi, vi.w, vi.e);
                let tab = Rc::new(small_table_node(&n, s));
                // constant?
                if tab.iter().all(|&x| x == tab[0]) {
                    let r = konst(n.w as u32, tab[0]);
                    c.map.insert(n, r);
                    return r;
                }
                // identity?
                if (vlo..=vhi).zip(tab.iter()).all(|(v, &x)| v == x) {
                    let w = n.w as u32;
                    let mut r = None;
                    if w == vw { r = Some(ve); }
                    else if w > vw {
                        if n.op == Op::ZExt && n.a == ve { r = None; }
                        else { r = Some(zext(ve, w)); }
                    }
                    else if !(n.op == Op::Extract && n.a == ve && n.k == 0) { r = Some(extract(ve, 0, w)); }
                    if let Some(r) = r {
                        c.map.insert(n, r);
                        return r;
                    }
                }
                let key = (s, n.w, tab.clone());
                if let Some(&e) = c.small_map.get(&key) {
                    c.map.insert(n, e);
                    return e;
                }
                let e = raw_insert(n);
                // value bounds are exact
                let (mn, mx) = (*tab.iter().min().unwrap(), *tab.iter().max().unwrap());
                let inf = &mut c.info[e as usize];
                inf.lo = mn; inf.hi = mx;
                let m = mask(n.w as u32);
                let (mut z, mut o) = (m, m);
                for &v in tab.iter() { z &= !v; o &= v; }
                inf.kz = z & m; inf.ko = o & m;
                c.small.insert(e, tab.clone());
                c.small_map.insert(key, e);
                return e;
            }
        }
    }
    raw_insert(n)
}

fn small_table(e: E, var: u32) -> Rc<Vec<u128>> {
    if let Some(t) = cx().small.get(&e) { return t.clone(); }
    let n = node(e);
    let vi = &cx().vars[var as usize];
    let t: Rc<Vec<u128>> = Rc::new(match n.op {
        Op::Const => vec![n.k; (vi.hi - vi.lo + 1) as usize],
        Op::Var => (vi.lo..=vi.hi).collect(),
        _ => small_table_node(&n, var),
    });
    if n.op != Op::Const { cx().small.insert(e, t.clone()); }
    t
}

fn small_table_node(n: &Node, var: u32) -> Vec<u128> {
    let vi = &cx().vars[var as usize];
    let cnt = (vi.hi - vi.lo + 1) as usize;
    let ch = children(n);
    let tabs: Vec<Rc<Vec<u128>>> = ch.iter().map(|&x| {
        if let Some(k) = as_const(x) { Rc::new(vec![k; 1]) } else { small_table(x, var) }
    }).collect();
    let ws: Vec<u32> = ch.iter().map(|&x| width(x)).collect();
    let mut out = Vec::with_capacity(cnt);
    let mut vals = [0u128; 3];
    for i in 0..cnt {
        for (j, t) in tabs.iter().enumerate() {
            vals[j] = if t.len() == 1 && is_const(ch[j]) { t[0] } else { t[i] };
        }
        out.push(eval_node(n, &vals, &ws));
    }
    out
}

pub fn children(n: &Node) -> arr3 {
    match n.op {
        Op::Const | Op::Var => arr3 { n: 0, v: [0; 3] },
        Op::Extract | Op::ZExt | Op::SExt | Op::Table => arr3 { n: 1, v: [n.a, 0, 0] },
        Op::Ite => arr3 { n: 3, v: [n.a, n.b, n.c] },
        _ => arr3 { n: 2, v: [n.a, n.b, 0] },
    }
}

#[allow(non_camel_case_types)]
pub struct arr3 { n: u8, v: [E; 3] }
impl std::ops::Deref for arr3 {
    type Target = [E];
    fn deref(&self) -> &[E] { &self.v[..self.n as usize] }
}

/// Direct evaluation of one node from child values (widths in `ws`).
pub fn eval_node(n: &Node, v: &[u128], ws: &[u32]) -> u128 {
    let w = n.w as u32;
    let m = mask(w);
    match n.op {
        Op::Const => n.k,
        Op::Var => unreachable!(),
        Op::Add => v[0].wrapping_add(v[1]) & m,
        Op::Mul => v[0].wrapping_mul(v[1]) & m,
        Op::UDiv => if v[1] == 0 { m } else { v[0] / v[1] },
        Op::URem => if v[1] == 0 { v[0] } else { v[0] % v[1] },
        Op::SDiv => {
            let (x, y) = (sext_val(v[0], w), sext_val(v[1], w));
            if y == 0 { (if x < 0 { 1 } else { m }) & m } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext_val(v[0], w), sext_val(v[1], w));
            if y == 0 { v[0] } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => v[0] & v[1],
        Op::Or => v[0] | v[1],
        Op::Xor => v[0] ^ v[1],
        Op::Shl => if v[1] >= w as u128 { 0 } else { (v[0] << v[1]) & m },
        Op::LShr => if v[1] >= w as u128 { 0 } else { v[0] >> v[1] },
        Op::AShr => {
            let s = v[1].min(w as u128 - 1) as u32;
            ((sext_val(v[0], w) >> s) as u128) & m
        }
        Op::Concat => (v[0] << ws[1]) | v[1],
        Op::Extract => (v[0] >> (n.k as u32)) & m,
        Op::ZExt => v[0],
        Op::SExt => (sext_val(v[0], ws[0]) as u128) & m,
        Op::Ite => if v[0] != 0 { v[1] } else { v[2] },
        Op::Eq => (v[0] == v[1]) as u128,
        Op::Ult => (v[0] < v[1]) as u128,
        Op::Ule => (v[0] <= v[1]) as u128,
        Op::Slt => (sext_val(v[0], ws[0]) < sext_val(v[1], ws[0])) as u128,
        Op::Sle => (sext_val(v[0], ws[0]) <= sext_val(v[1], ws[0])) as u128,
        Op::Table => {
            let t = &cx().tables[n.k as usize];
            t.vals.get(v[0] as usize).copied().unwrap_or(0)
        }
    }
}

fn mk2(op: Op, w: u32, a: E, b: E) -> E {
    raw(Node { op, w: w as u8, a, b, c: 0, k: 0 })
}

fn fold2(op: Op, w: u32, a: E, b: E) -> Option<E> {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        let n = Node { op, w: w as u8, a, b, c: 0, k: 0 };
        return Some(konst(w, eval_node(&n, &[x, y], &[width(a), width(b)])));
    }
    None
}

// ---------------------------------------------------------------- bit slices

pub fn extract(a: E, lo: u32, w: u32) -> E {
    if cx().plain { let wa = width(a); return if lo == 0 && w == wa { a } else if let Some(k) = as_const(a) { konst(w, k >> lo) } else { raw_insert(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 }) }; }
    let n = node(a);
    let wa = n.w as u32;
    debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
    if lo == 0 && w == wa { return a; }
    match n.op {
        Op::Const => return konst(w, n.k >> lo),
        Op::Extract => return extract(n.a, n.k as u32 + lo, w),
        Op::Concat => {
            let wb = width(n.b);
            if lo + w <= wb { return extract(n.b, lo, w); }
            if lo >= wb { return extract(n.a, lo - wb, w); }
            let low = extract(n.b, lo, wb - lo);
            let high = extract(n.a, 0, lo + w - wb);
            return concat(high, low);
        }
        Op::ZExt => {
            let wx = width(n.a);
            if lo >= wx { return konst(w, 0); }
            if lo + w <= wx { return extract(n.a, lo, w); }
            return zext(extract(n.a, lo, wx - lo), w);
        }
        Op::SExt => {
            let wx = width(n.a);
            if lo + w <= wx { return extract(n.a, lo, w); }
            if lo < wx { return sext(extract(n.a, lo, wx - lo), w); }
            return sext(extract(n.a, wx - 1, 1), w);
        }
        Op::And | Op::Or | Op::Xor => {
            let (x, y) = (extract(n.a, lo, w), extract(n.b, lo, w));
            return match n.op { Op::And => and(x, y), Op::Or => or(x, y), _ => xor(x, y) };
        }
        Op::Add if lo == 0 => return add(extract(n.a, 0, w), extract(n.b, 0, w)),
        Op::Mul if lo == 0 && (is_const(n.a) || is_const(n.b)) =>
            return mul(extract(n.a, 0, w), extract(n.b, 0, w)),
        Op::Ite => {
            if is_const(n.b) || is_const(n.c) || w == 1 || (node(n.b).op == Op::ZExt && node(n.c).op == Op::ZExt) {
                return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
            }
        }
        Op::Table => {
            let t = cx().tables[n.k as usize].clone();
            let vals: Vec<u128> = t.vals.iter().map(|&v| (v >> lo) & mask(w)).collect();
            return table(w, n.a, vals);
        }
        _ => {}
    }
    let inf = info(a);
    let m = mask(w);
    let z = (inf.kz >> lo) & m;
    let o = (inf.ko >> lo) & m;
    if z | o == m { return konst(w, o); }
    // drop known-zero top bits
    if z != 0 {
        let topz = w - clog2(!z & m);
        if topz > 0 {
            let inner = raw(Node { op: Op::Extract, w: (w - topz) as u8, a, b: 0, c: 0, k: lo as u128 });
            return zext(inner, w);
        }
    }
    raw(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 })
}

pub fn zext(a: E, w: u32) -> E {
    if cx().plain { return if w == width(a) { a } else if let Some(k) = as_const(a) { konst(w, k) } else { raw_insert(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 }) }; }
    let n = node(a);
    let wa = n.w as u32;
    debug_assert!(w >= wa);
    if w == wa { return a; }
    match n.op {
        Op::Const => return konst(w, n.k),
        Op::ZExt => return zext(n.a, w),
        Op::Extract if n.k == 0 => {
            // zext(x[wa-1:0]) == x when x fits
            if info(n.a).hi <= mask(wa) {
                let wx = width(n.a);
                if wx == w { return n.a; }
                if wx < w { return zext(n.a, w); }
                return extract_raw(n.a, 0, w);
            }
        }
        _ => {}
    }
    raw(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 })
}

fn extract_raw(a: E, lo: u32, w: u32) -> E {
    if lo == 0 && w == width(a) { return a; }
    raw(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 })
}

pub fn sext(a: E, w: u32) -> E {
    if cx().plain { return if w == width(a) { a } else if let Some(k) = as_const(a) { konst(w, sext_val(k, width(a)) as u128) } else { raw_insert(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 }) }; }
    let n = node(a);
    let wa = n.w as u32;
    if w == wa { return a; }
    if n.op == Op::Const { return konst(w, sext_val(n.k, wa) as u128); }
    if n.op == Op::SExt { return sext(n.a, w); }
    if info(a).hi < (1u128 << (wa - 1)) { return zext(a, w); }
    raw(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 })
}

pub fn concat(a: E, b: E) -> E {
    if cx().plain { let (wa, wb) = (width(a), width(b)); return if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { konst(wa + wb, (x << wb) | y) } else { raw_insert(Node { op: Op::Concat, w: (wa + wb) as u8, a, b, c: 0, k: 0 }) }; }
    let (na, nb) = (node(a), node(b));
    let (wa, wb) = (na.w as u32, nb.w as u32);
    let w = wa + wb;
    debug_assert!(w <= 128);
    match (na.op, nb.op) {
        (Op::Const, Op::Const) => return konst(w, (na.k << wb) | nb.k),
        (Op::Const, _) if na.k == 0 => return zext(b, w),
        _ => {}
    }
    // right-nest: concat(concat(x,y),b) -> concat(x, concat(y,b))
    if na.op == Op::Concat {
        return concat(na.a, concat(na.b, b));
    }
    if na.op == Op::ZExt {
        // leading zeros float out
        let inner = concat(na.a, b);
        return zext(inner, w);
    }
    // constant-adjacent
    if na.op == Op::Const && nb.op == Op::Concat {
        if let Some(k) = as_const(nb.a) {
            let c = konst(wa + width(nb.a), (na.k << width(nb.a)) | k);
            return concat(c, nb.b);
        }
    }
    // upper and lower part of a sum, whose lower part was narrowed
    if na.op == Op::Extract && matches!(node(na.a).op, Op::Add | Op::Mul) {
        let (src, lo) = (na.a, na.k as u32);
        if lo == wb && nb.op != Op::Const && extract(src, 0, wb) == b { return extract(src, 0, w); }
        if nb.op == Op::Concat && lo == width(nb.a) && !is_const(nb.a) && extract(src, 0, lo) == nb.a {
            return concat(extract(src, 0, lo + wa), nb.b);
        }
    }
    if nb.op == Op::ZExt {
        // concat(a, zext(x)) -> concat(a, concat(0, x)) as explicit chain
        let wx = width(nb.a);
        if na.op == Op::Const {
            let z = wb - wx;
            return concat(konst(wa + z, na.k << z), nb.a);
        }
        return raw(Node { op: Op::Concat, w: w as u8, a, b: raw_zconcat(b), c: 0, k: 0 });
    }
    // merge adjacent extracts of the same term
    let (src_a, lo_a) = slice_of(a);
    let (first_b, rest_b) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
    let (src_b, lo_b) = slice_of(first_b);
    if src_a == src_b && lo_a == lo_b + width(first_b) && !is_const(src_a) {
        let m = extract(src_a, lo_b, wa + width(first_b));
        return match rest_b { Some(r) => concat(m, r), None => m };
    }
    // merge of equal-condition ite bits etc. is not attempted
    raw(Node { op: Op::Concat, w: w as u8, a, b, c: 0, k: 0 })
}

// keep zext as a child; canonical enough
fn raw_zconcat(b: E) -> E { b }

fn slice_of(e: E) -> (E, u32) {
    let n = node(e);
    if n.op == Op::Extract { (n.a, n.k as u32) } else { (e, 0) }
}

/// Build a value from bit segments given most-significant first.
fn concat_all(parts: &[E]) -> E {
    let mut it = parts.iter().rev();
    let mut r = *it.next().unwrap();
    for &p in it { r = concat(p, r); }
    r
}

// ---------------------------------------------------------------- bitwise

fn const_segments(m: u128, w: u32) -> Vec<(bool, u32, u32)> {
    // (bit value, lo, len) from least significant
    let mut out = Vec::new();
    let mut i = 0;
    while i < w {
        let b = (m >> i) & 1;
        let mut j = i;
        while j < w && (m >> j) & 1 == b { j += 1; }
        out.push((b == 1, i, j - i));
        i = j;
    }
    out
}

pub fn and(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::And, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if x == Some(0) || y == Some(0) { return konst(w, 0); } if y == Some(mask(width(a))) { return a; } if x == Some(mask(width(a))) { return b; } return raw_insert(Node { op: Op::And, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(r) = fold2(Op::And, w, a, b) { return r; }
    if a == b { return a; }
    let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        let inf = info(a);
        if k == mask(w) { return a; }
        if k & !inf.kz & mask(w) == 0 { return konst(w, 0); }
        if (mask(w) & !inf.kz) & !k == 0 { return a; } // all possibly-set bits kept
        let segs = const_segments(k, w);
        if segs.len() <= 6 {
            let parts: Vec<E> = segs.iter().rev().map(|&(on, lo, len)|
                if on { extract(a, lo, len) } else { konst(len, 0) }).collect();
            return concat_all(&parts);
        }
        return mk2(Op::And, w, a, b);
    }
    if w == 1 {
        if is_neg(a, b) { return fls(); }
    }
    // disjoint bits
    if (info(a).kz | info(b).kz) == mask(w) { return konst(w, 0); }
    // mask structure: if the known bits of one side split into zero/one runs
    if let Some(r) = bitwise_split(Op::And, a, b) { return r; }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    if w == 1 {
        // absorb: a & (a & x)
        let nb = node(b);
        if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
        let na = node(a);
        if na.op == Op::And && (na.a == b || na.b == b) { return a; }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
        if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
    }
    mk2(Op::And, w, a, b)
}

/// If, bit run by bit run, one operand is constant, combine by runs.
fn bitwise_split(op: Op, a: E, b: E) -> Option<E> {
    let w = width(a);
    if w == 1 { return None; }
    let (ia, ib) = (info(a), info(b));
    let m = mask(w);
    let ka = ia.kz | ia.ko;
    let kb = ib.kz | ib.ko;
    if (ka | kb) & m != m { return None; }
    // classify each bit: 0/1 const, 'a', 'b', or inverted (xor with one) -> give up
    #[derive(PartialEq, Clone, Copy)]
    enum S { K(bool), A, B }
    let mut segs: Vec<(S, u32, u32)> = Vec::new();
    for i in 0..w {
        let bit = 1u128 << i;
        let a_known = ka & bit != 0;
        let b_known = kb & bit != 0;
        let av = ia.ko & bit != 0;
        let bv = ib.ko & bit != 0;
        let s = match op {
            Op::And => {
                if (a_known && !av) || (b_known && !bv) { S::K(false) }
                else if a_known && b_known { S::K(true) }
                else if a_known { S::B } else { S::A }
            }
            Op::Or => {
                if (a_known && av) || (b_known && bv) { S::K(true) }
                else if a_known && b_known { S::K(false) }
                else if a_known { S::B } else { S::A }
            }
            _ => {
                if a_known && b_known { S::K(av ^ bv) }
                else if a_known { if av { return None; } S::B }
                else { if bv { return None; } S::A }
            }
        };
        if let Some(l) = segs.last_mut() {
            let same = match (l.0, s) { (S::K(_), S::K(_)) => true, (x, y) => x == y };
            if same && !matches!(s, S::K(_)) { l.2 += 1; continue; }
            if same {
                if let (S::K(x), S::K(y)) = (l.0, s) { if x == y { l.2 += 1; continue; } }
            }
        }
        segs.push((s, i, 1));
    }
    if segs.len() > 12 { return None; }
    let parts: Vec<E> = segs.iter().rev().map(|&(s, lo, len)| match s {
        S::K(v) => konst(len, if v { !0 } else { 0 }),
        S::A => extract(a, lo, len),
        S::B => extract(b, lo, len),
    }).collect();
    Some(concat_all(&parts))
}

fn is_neg(a: E, b: E) -> bool {
    let na = node(a);
    let nb = node(b);
    (na.op == Op::Xor && na.w == 1 && (na.a == b && as_const(na.b) == Some(1))) ||
    (nb.op == Op::Xor && nb.w == 1 && (nb.a == a && as_const(nb.b) == Some(1))) ||
    (na.op == Op::Ult && nb.op == Op::Ule && na.a == nb.b && na.b == nb.a) ||
    (na.op == Op::Ule && nb.op == Op::Ult && na.a == nb.b && na.b == nb.a)
}

pub fn or(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::Or, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if x == Some(mask(w)) || y == Some(mask(w)) { return konst(w, !0); } if y == Some(0) { return a; } if x == Some(0) { return b; } return raw_insert(Node { op: Op::Or, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(r) = fold2(Op::Or, w, a, b) { return r; }
    if a == b { return a; }
    let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        let inf = info(a);
        if k == 0 { return a; }
        if k == mask(w) { return b; }
        if k & !inf.ko == 0 { return a; }
        let segs = const_segments(k, w);
        if segs.len() <= 6 {
            let parts: Vec<E> = segs.iter().rev().map(|&(on, lo, len)|
                if on { konst(len, !0) } else { extract(a, lo, len) }).collect();
            return concat_all(&parts);
        }
        return mk2(Op::Or, w, a, b);
    }
    if w == 1 && is_neg(a, b) { return tru(); }
    if w > 1 && (info(a).kz | info(b).kz) == mask(w) && !apart(a, b) { return add(a, b); }
    if let Some(r) = bitwise_split(Op::Or, a, b) { return r; }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    if w == 1 {
        let (na, nb) = (node(a), node(b));
        if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
        if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
        if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
        if na.op == Op::And && (na.a == b || na.b == b) { return b; }
    }
    mk2(Op::Or, w, a, b)
}

pub fn not1(a: E) -> E { xor(a, tru()) }

pub fn xor(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::Xor, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if y == Some(0) { return a; } if x == Some(0) { return b; } return raw_insert(Node { op: Op::Xor, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(r) = fold2(Op::Xor, w, a, b) { return r; }
    if a == b { return konst(w, 0); }
    let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        let n = node(a);
        if n.op == Op::Xor {
            if let Some(k2) = as_const(n.b) { return xor(n.a, konst(w, k ^ k2)); }
        }
        if w == 1 {
            match n.op {
                Op::Ult => return ule(n.b, n.a),
                Op::Ule => return ult(n.b, n.a),
                Op::Slt => return sle(n.b, n.a),
                Op::Sle => return slt(n.b, n.a),
                _ => {}
            }
        }
        if n.op == Op::Ite && (is_const(n.b) || is_const(n.c)) {
            return ite(n.a, xor(n.b, b), xor(n.c, b));
        }
        if n.op == Op::ZExt && k <= mask(width(n.a)) {
            return zext(xor(n.a, konst(width(n.a), k)), w);
        }
        if n.op == Op::Concat && w > 1 {
            let wb = width(n.b);
            return concat(xor(n.a, konst(w - wb, k >> wb)), xor(n.b, konst(wb, k)));
        }
        return mk2(Op::Xor, w, a, b);
    }
    if let Some(r) = bitwise_split(Op::Xor, a, b) { return r; }
    // x ^ (x ^ y) = y
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Xor {
        if na.a == b { return na.b; }
        if na.b == b { return na.a; }
    }
    if nb.op == Op::Xor {
        if nb.a == a { return nb.b; }
        if nb.b == a { return nb.a; }
    }
    // float constants outwards
    if na.op == Op::Xor && is_const(na.b) { return xor(xor(na.a, b), na.b); }
    if nb.op == Op::Xor && is_const(nb.b) { return xor(xor(a, nb.a), nb.b); }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    mk2(Op::Xor, w, a, b)
}

pub fn bvnot(a: E) -> E { let w = width(a); xor(a, konst(w, !0)) }

// ---------------------------------------------------------------- shifts

pub fn shl(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::Shl, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if y == Some(0) { return a; } return raw_insert(Node { op: Op::Shl, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::Shl, w, a, b) { return r; }
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        if k >= w as u128 { return konst(w, 0); }
        let k = k as u32;
        return concat(extract(a, 0, w - k), konst(k, 0));
    }
    mk2(Op::Shl, w, a, b)
}

pub fn lshr(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::LShr, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if y == Some(0) { return a; } return raw_insert(Node { op: Op::LShr, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::LShr, w, a, b) { return r; }
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        if k >= w as u128 { return konst(w, 0); }
        let k = k as u32;
        return zext(extract(a, k, w - k), w);
    }
    mk2(Op::LShr, w, a, b)
}

pub fn ashr(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::AShr, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if y == Some(0) { return a; } return raw_insert(Node { op: Op::AShr, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::AShr, w, a, b) { return r; }
    if let Some(k) = as_const(b) {
        let k = k.min(w as u128 - 1) as u32;
        if k == 0 { return a; }
        return sext(extract(a, k, w - k), w);
    }
    mk2(Op::AShr, w, a, b)
}

// ---------------------------------------------------------------- arithmetic

/// The possibly set bits of one term lie above those of the other. Interleaved
/// terms stay sums, which keeps them linear.
fn apart(a: E, b: E) -> bool {
    let (x, y) = (info(a), info(b));
    if (x.kz | y.kz) != mask(width(a)) { return false; }
    let linear = |e: E| { let n = node(strip_zext(e).0); n.op == Op::Mul || n.op == Op::Add };
    let scaled = |e: E| { let n = node(strip_zext(e).0); n.op == Op::Mul && is_const(n.b) };
    if scaled(a) || scaled(b) { return false; }
    let (tx, ty) = (clog2(x.hi), clog2(y.hi));
    (!x.kz).trailing_zeros() >= ty || (!y.kz).trailing_zeros() >= tx || !(linear(a) || linear(b))
}

/// Linear form: sum of coefficient*term plus constant, modulo 2^w.
pub struct Lin { pub terms: Vec<(E, u128)>, pub k: u128 }

fn lin_collect(e: E, coef: u128, w: u32, out: &mut Lin, deep: bool) {
    let m = mask(w);
    let n = node(e);
    match n.op {
        Op::Const => { out.k = out.k.wrapping_add(coef.wrapping_mul(n.k)) & m; }
        Op::Add => { lin_collect(n.a, coef, w, out, deep); lin_collect(n.b, coef, w, out, deep); }
        Op::Mul if is_const(n.b) => {
            lin_collect(n.a, coef.wrapping_mul(node(n.b).k) & m, w, out, deep);
        }
        Op::Concat if is_const(n.b) && node(n.b).k == 0 && !deep => {
            // extract(x,0,w-k) ++ 0_k  ==  x * 2^k
            let k = width(n.b);
            let na = node(n.a);
            if na.op == Op::Extract && na.k == 0 && width(na.a) == w {
                lin_collect(na.a, (coef << k) & m, w, out, deep);
            } else {
                lin_term(e, coef, m, out);
            }
        }
        Op::Concat if deep => {
            let k = width(n.b);
            lin_step(e, zext(n.a, w), coef.wrapping_mul(1 << k) & m, w, out, deep);
            lin_step(e, zext(n.b, w), coef, w, out, deep);
        }
        Op::ZExt if deep => {
            let inner = node(n.a);
            let wi = inner.w as u32;
            match inner.op {
                Op::Concat => {
                    let k = width(inner.b);
                    lin_step(e, zext(inner.a, w), coef.wrapping_mul(1 << k) & m, w, out, deep);
                    lin_step(e, zext(inner.b, w), coef, w, out, deep);
                }
                Op::Add | Op::Mul => {
                    let l = lin_of(n.a, true);
                    let whole = cx().lin_whole && l.terms.len() > 1 && info(n.a).single != MANYVAR;
                    if !whole && lin_hi(&l, wi).is_some() && !l.terms.iter().any(|t| t.0 == n.a) {
                        out.k = out.k.wrapping_add(coef.wrapping_mul(l.k)) & m;
                        for (t, c) in l.terms { lin_step(e, zext(t, w), coef.wrapping_mul(c) & m, w, out, deep); }
                    } else { lin_term(e, coef, m, out); }
                }
                _ => lin_shifted(n.a, e, coef, w, out),
            }
        }
        Op::Extract if deep => lin_shifted(e, e, coef, w, out),
        _ => lin_term(e, coef, m, out),
    }
}

/// The upper part of a sum whose lower part is zero, with a coefficient that
/// makes up for it: coef * x[..k] == (coef >> k) * x.
fn lin_shifted(part: E, e: E, coef: u128, w: u32, out: &mut Lin) {
    let n = node(part);
    let k = n.k as u32;
    if n.op == Op::Extract && k > 0 && coef.trailing_zeros() >= k && cx().lin_depth < 40 {
        let (i, top) = (info(n.a), k + n.w as u32);
        if i.kz & mask(k) == mask(k) && (i.hi <= mask(top) || top >= w) {
            let x = if width(n.a) > w { extract(n.a, 0, w) } else { zext(n.a, w) };
            cx().lin_depth += 1;
            lin_collect(x, coef >> k, w, out, true);
            cx().lin_depth -= 1;
            return;
        }
    }
    lin_term(e, coef, mask(w), out)
}

/// Terms over one small variable are shared by value, so an extended part need
/// not be smaller than the whole; stop there.
fn lin_step(parent: E, e: E, coef: u128, w: u32, out: &mut Lin, deep: bool) {
    if is_const(e) || strip_zext(e).0 < strip_zext(parent).0 {
        lin_collect(e, coef, w, out, deep);
    } else {
        lin_term(e, coef, mask(w), out);
    }
}

fn lin_term(e: E, coef: u128, m: u128, out: &mut Lin) {
    for t in out.terms.iter_mut() {
        if t.0 == e { t.1 = t.1.wrapping_add(coef) & m; return; }
    }
    out.terms.push((e, coef));
}

pub fn lin_of(e: E, deep: bool) -> Lin {
    let w = width(e);
    let mut l = Lin { terms: Vec::new(), k: 0 };
    lin_collect(e, 1, w, &mut l, deep);
    l.terms.retain(|t| t.1 != 0);
    l
}

/// Linear form in small parts, or in larger ones if their bounds are needed.
fn lin_bounded(e: E) -> Lin {
    let l = lin_of(e, true);
    if lin_hi(&l, width(e)).is_some() { return l; }
    cx().lin_whole = true;
    let l = lin_of(e, true);
    cx().lin_whole = false;
    l
}

/// Upper bound of the sum if it cannot exceed the width (coefficients read as unsigned).
fn lin_hi(l: &Lin, w: u32) -> Option<u128> {
    let mut s = l.k;
    for &(t, c) in &l.terms {
        s = s.checked_add(info(t).hi.checked_mul(c)?)?;
    }
    if s <= mask(w) { Some(s) } else { None }
}

fn lin_build(l: &Lin, w: u32) -> E {
    let mut ts = l.terms.clone();
    ts.retain(|t| t.1 != 0);
    ts.sort();
    let mut acc: Option<E> = None;
    for (t, c) in ts {
        let x = mul_const_raw(t, c, w);
        acc = Some(match acc { None => x, Some(p) => add_raw(p, x, w) });
    }
    match acc {
        None => konst(w, l.k),
        Some(p) => if l.k & mask(w) == 0 { p } else { add_raw(p, konst(w, l.k), w) },
    }
}

fn mul_const_raw(t: E, c: u128, w: u32) -> E {
    if c == 1 { return t; }
    if let Some(k) = as_const(t) { return konst(w, k.wrapping_mul(c)); }
    if c.is_power_of_two() {
        let k = c.trailing_zeros();
        return concat(extract(t, 0, w - k), konst(k, 0));
    }
    mk2(Op::Mul, w, t, konst(w, c))
}

fn add_raw(a: E, b: E, w: u32) -> E {
    if let Some(r) = fold2(Op::Add, w, a, b) { return r; }
    if apart(a, b) { return or(a, b); }
    mk2(Op::Add, w, a, b)
}

pub fn add(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::Add, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if y == Some(0) { return a; } if x == Some(0) { return b; } return raw_insert(Node { op: Op::Add, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(r) = fold2(Op::Add, w, a, b) { return r; }
    if as_const(a) == Some(0) { return b; }
    if as_const(b) == Some(0) { return a; }
    if w == 1 { return xor(a, b); }
    if apart(a, b) { return or(a, b); }
    if let Some(r) = div_mod_join(a, b, w) { return r; }
    let mut l = Lin { terms: Vec::new(), k: 0 };
    lin_collect(a, 1, w, &mut l, false);
    lin_collect(b, 1, w, &mut l, false);
    l.terms.retain(|t| t.1 != 0);
    if l.terms.len() > 24 {
        let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
        return mk2(Op::Add, w, a, b);
    }
    join_divmod_terms(&mut l, w);
    lin_build(&l, w)
}

/// c*(x/c) + x%c == x, looked up inside a linear form.
fn join_divmod_terms(l: &mut Lin, w: u32) {
    let m = mask(w);
    let mut i = 0;
    'outer: while i < l.terms.len() {
        let (t, c) = l.terms[i];
        let (tn, _) = strip_zext(t);
        let n = node(tn);
        if n.op == Op::URem {
            if let Some(d) = as_const(n.b) {
                // need term (x/d) with coefficient c*d
                let q = udiv(n.a, n.b);
                let lq = { let qq = zext(q, w.max(width(q))); if width(qq) != w { i += 1; continue 'outer; } lin_of(qq, false) };
                let want = c.wrapping_mul(d) & m;
                // all terms of the quotient must be present with matching coefficient
                let ok = !lq.terms.is_empty() && lq.terms.iter().all(|&(qt, qc)|
                    l.terms.iter().any(|&(lt, lc)| lt == qt && lc == qc.wrapping_mul(want) & m));
                if ok {
                    let x = zext(n.a, w.max(width(n.a)));
                    if width(x) == w {
                        for &(qt, qc) in &lq.terms {
                            for lt in l.terms.iter_mut() {
                                if lt.0 == qt { lt.1 = lt.1.wrapping_sub(qc.wrapping_mul(want)) & m; }
                            }
                        }
                        l.k = l.k.wrapping_sub(lq.k.wrapping_mul(want)) & m;
                        l.terms[i].1 = 0;
                        let mut add = Lin { terms: std::mem::take(&mut l.terms), k: l.k };
                        lin_collect(x, c, w, &mut add, false);
                        add.terms.retain(|t| t.1 != 0);
                        *l = add;
                        i = 0;
                        continue 'outer;
                    }
                }
            }
        }
        i += 1;
    }
}

fn strip_zext(e: E) -> (E, u32) {
    let n = node(e);
    if n.op == Op::ZExt { (n.a, n.w as u32) } else { (e, n.w as u32) }
}

fn div_mod_join(_a: E, _b: E, _w: u32) -> Option<E> { None }

pub fn neg(a: E) -> E { let w = width(a); mul(a, konst(w, !0)) }

pub fn sub(a: E, b: E) -> E {
    if a == b { return konst(width(a), 0); }
    add(a, neg(b))
}

pub fn mul(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::Mul, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); if x == Some(0) || y == Some(0) { return konst(w, 0); } if y == Some(1) { return a; } if x == Some(1) { return b; } return raw_insert(Node { op: Op::Mul, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::Mul, w, a, b) { return r; }
    let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
    if w == 1 { return and(a, b); }
    if let Some(k) = as_const(b) {
        if k == 0 { return b; }
        if k == 1 { return a; }
        let mut l = Lin { terms: Vec::new(), k: 0 };
        lin_collect(a, k, w, &mut l, false);
        l.terms.retain(|t| t.1 != 0);
        return lin_build(&l, w);
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    mk2(Op::Mul, w, a, b)
}

pub fn udiv(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::UDiv, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); return raw_insert(Node { op: Op::UDiv, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::UDiv, w, a, b) { return r; }
    if let Some(c) = as_const(b) {
        if c == 0 { return konst(w, !0); }
        if c == 1 { return a; }
        if c != 0 {
            if c.is_power_of_two() { return lshr(a, konst(w, c.trailing_zeros() as u128)); }
            if info(a).hi < c { return konst(w, 0); }
            // narrow
            let n = node(a);
            if n.op == Op::ZExt {
                let wi = width(n.a);
                if c <= mask(wi) { return zext(udiv(n.a, konst(wi, c)), w); }
                return konst(w, 0);
            }
            let top = clog2(info(a).hi).max(clog2(c));
            if top < w && top >= 1 && n.op != Op::Add && n.op != Op::Mul && n.op != Op::UDiv {
                let an = extract(a, 0, top);
                return zext(udiv(an, konst(top, c)), w);
            }
            // (x / d) / c
            if n.op == Op::UDiv {
                if let Some(d) = as_const(n.b) {
                    if let Some(p) = d.checked_mul(c) {
                        if p <= mask(w) { return udiv(n.a, konst(w, p)); }
                        return konst(w, 0);
                    }
                }
            }
            let l = lin_bounded(a);
            if lin_hi(&l, w).is_some() {
                let mut q = Lin { terms: vec![], k: l.k / c };
                let mut r = Lin { terms: vec![], k: l.k % c };
                for &(t, k) in &l.terms {
                    let kq = k / c; let kr = k % c;
                    if kr == 0 { q.terms.push((t, kq)); }
                    else if kq > 0 { q.terms.push((t, kq)); r.terms.push((t, kr)); }
                    else { r.terms.push((t, k)); }
                }
                let rhi = lin_hi(&r, w).unwrap_or(u128::MAX);
                if rhi < c { return lin_build(&q, w); }
                if !q.terms.is_empty() || q.k != 0 {
                    let rr = lin_build(&r, w);
                    return add(lin_build(&q, w), mk2(Op::UDiv, w, rr, b));
                }
                // common factor: (g*x + k)/ (g*c') == (x + k/g)/c'
                let g = l.terms.iter().fold(c, |g, t| gcd(g, t.1));
                if g > 1 {
                    let ll = Lin { terms: l.terms.iter().map(|t| (t.0, t.1 / g)).collect(), k: l.k / g };
                    return udiv(lin_build(&ll, w), konst(w, c / g));
                }
            }
        }
    }
    mk2(Op::UDiv, w, a, b)
}

fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }

pub fn urem(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::URem, w, a, b) { return r; } let (x, y) = (as_const(a), as_const(b)); let _ = (x, y); return raw_insert(Node { op: Op::URem, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::URem, w, a, b) { return r; }
    if let Some(c) = as_const(b) {
        if c == 0 { return a; }
        if c == 1 { return konst(w, 0); }
        if c != 0 {
            if c.is_power_of_two() { return and(a, konst(w, c - 1)); }
            if info(a).hi < c { return a; }
            let n = node(a);
            if n.op == Op::ZExt {
                let wi = width(n.a);
                if c <= mask(wi) { return zext(urem(n.a, konst(wi, c)), w); }
                return a;
            }
            let top = clog2(info(a).hi).max(clog2(c));
            if top < w && n.op != Op::Add && n.op != Op::Mul {
                let an = extract(a, 0, top);
                return zext(urem(an, konst(top, c)), w);
            }
            let l = lin_bounded(a);
            if lin_hi(&l, w).is_some() {
                let mut changed = l.k >= c;
                let mut r = Lin { terms: vec![], k: l.k % c };
                for &(t, k) in &l.terms {
                    let kr = k % c;
                    if kr != k { changed = true; }
                    if kr != 0 { r.terms.push((t, kr)); }
                }
                if let Some(rhi) = lin_hi(&r, w) {
                    if rhi < c { return lin_build(&r, w); }
                    if changed { return urem(lin_build(&r, w), b); }
                }
            }
        }
    }
    mk2(Op::URem, w, a, b)
}

pub fn sdiv(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::SDiv, w, a, b) { return r; } return raw_insert(Node { op: Op::SDiv, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::SDiv, w, a, b) { return r; }
    let half = 1u128 << (w - 1);
    if info(a).hi < half && info(b).hi < half && info(b).lo > 0 { return udiv(a, b); }
    if as_const(b).map_or(false, |c| c > 0 && c < half) {
        let n = sub(konst(w, 0), a);
        if info(n).hi <= half { return sub(konst(w, 0), udiv(n, b)); }
    }
    mk2(Op::SDiv, w, a, b)
}

pub fn srem(a: E, b: E) -> E {
    if cx().plain { let w = width(a); if let Some(r) = fold2(Op::SRem, w, a, b) { return r; } return raw_insert(Node { op: Op::SRem, w: w as u8, a, b, c: 0, k: 0 }); }
    let w = width(a);
    if let Some(r) = fold2(Op::SRem, w, a, b) { return r; }
    let half = 1u128 << (w - 1);
    if info(a).hi < half && info(b).hi < half && info(b).lo > 0 { return urem(a, b); }
    if as_const(b).map_or(false, |c| c > 0 && c < half) {
        let n = sub(konst(w, 0), a);
        if info(n).hi <= half { return sub(konst(w, 0), urem(n, b)); }
    }
    mk2(Op::SRem, w, a, b)
}

// ---------------------------------------------------------------- predicates

pub fn eq(a: E, b: E) -> E {
    if cx().plain { return fold2(Op::Eq, 1, a, b).unwrap_or_else(|| raw_insert(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })); }
    let w = width(a);
    debug_assert_eq!(w, width(b), "eq width");
    if a == b { return tru(); }
    if let Some(r) = fold2(Op::Eq, 1, a, b) { return r; }
    let (ia, ib) = (info(a), info(b));
    if ia.lo > ib.hi || ib.lo > ia.hi { return fls(); }
    if (ia.kz & ib.ko) | (ia.ko & ib.kz) != 0 { return fls(); }
    let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
    let (na, nb) = (node(a), node(b));
    if w == 1 {
        if let Some(k) = as_const(b) { return if k == 1 { a } else { not1(a) }; }
        return not1(xor(a, b));
    }
    // strip leading/shared structure
    if na.op == Op::ZExt && nb.op == Op::ZExt {
        let (wa, wb) = (width(na.a), width(nb.a));
        if wa == wb { return eq(na.a, nb.a); }
        if wa < wb { return eq(zext(na.a, wb), nb.a); }
        return eq(na.a, zext(nb.a, wa));
    }
    if let Some(k) = as_const(b) {
        match na.op {
            Op::ZExt => {
                let wa = width(na.a);
                if k > mask(wa) { return fls(); }
                return eq(na.a, konst(wa, k));
            }
            Op::SExt => {
                let wa = width(na.a);
                if (sext_val(k & mask(wa), wa) as u128) & mask(w) != k { return fls(); }
                return eq(na.a, konst(wa, k));
            }
            Op::Concat => {
                let wb = width(na.b);
                let h = eq(na.a, konst(w - wb, k >> wb));
                if as_const(h) == Some(0) { return h; }
                return and(h, eq(na.b, konst(wb, k)));
            }
            Op::Xor => {
                if let Some(k2) = as_const(na.b) { return eq(na.a, konst(w, k ^ k2)); }
                if k == 0 { return eq(na.a, na.b); }
            }
            Op::Add => {
                if let Some(k2) = as_const(na.b) { return eq(na.a, konst(w, k.wrapping_sub(k2))); }
                // x - y == 0
                if k == 0 {
                    let l = lin_of(a, false);
                    if l.k == 0 && l.terms.len() == 2 {
                        let m = mask(w);
                        if l.terms[0].1 == 1 && l.terms[1].1 == m { return eq(l.terms[0].0, l.terms[1].0); }
                        if l.terms[1].1 == 1 && l.terms[0].1 == m { return eq(l.terms[0].0, l.terms[1].0); }
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = as_const(na.b) {
                    // no wrap -> divide
                    if info(na.a).hi.checked_mul(c).map_or(false, |h| h <= mask(w)) {
                        if k % c != 0 { return fls(); }
                        return eq(na.a, konst(w, k / c));
                    }
                    if c == mask(w) { return eq(na.a, konst(w, k.wrapping_neg())); }
                }
            }
            Op::Ite => {
                let x = eq(na.b, b);
                let y = eq(na.c, b);
                if is_const(x) || is_const(y) || is_const(na.b) || is_const(na.c) { return ite(na.a, x, y); }
            }
            Op::Table => {
                let t = cx().tables[na.k as usize].clone();
                let ii = info(na.a);
                let mut pre = Vec::new();
                for ix in ii.lo..=ii.hi.min(t.vals.len() as u128 - 1) {
                    if t.vals[ix as usize] == k { pre.push(ix); if pre.len() > 2 { break; } }
                }
                if pre.is_empty() { return fls(); }
                let iw = width(na.a);
                if pre.len() == 1 { return eq(na.a, konst(iw, pre[0])); }
                if pre.len() == 2 { return or(eq(na.a, konst(iw, pre[0])), eq(na.a, konst(iw, pre[1]))); }
            }
            _ => {}
        }
    } else {
        // concat vs anything: split at the concat boundary when it helps
        if na.op == Op::Concat || nb.op == Op::Concat {
            let (c, o) = if na.op == Op::Concat { (na, b) } else { (nb, a) };
            let on = node(o);
            if matches!(on.op, Op::Concat | Op::ZExt | Op::Extract | Op::Var | Op::Xor | Op::Or | Op::And | Op::Table) || (info(o).kz | info(o).ko) != 0 {
                let wb = width(c.b);
                let h = eq(c.a, extract(o, wb, w - wb));
                if as_const(h) == Some(0) { return h; }
                let l = eq(c.b, extract(o, 0, wb));
                return and(h, l);
            }
        }
        if na.op == Op::ZExt || nb.op == Op::ZExt {
            let (z, o) = if na.op == Op::ZExt { (na, b) } else { (nb, a) };
            let wz = width(z.a);
            if info(o).hi <= mask(wz) {
                return eq(z.a, extract(o, 0, wz));
            }
        }
        // cancel common linear terms
        if matches!(na.op, Op::Add | Op::Mul) || matches!(nb.op, Op::Add | Op::Mul) {
            let m = mask(w);
            let mut l = Lin { terms: Vec::new(), k: 0 };
            lin_collect(a, 1, w, &mut l, false);
            lin_collect(b, m, w, &mut l, false);
            l.terms.retain(|t| t.1 != 0);
            if l.terms.is_empty() { return if l.k == 0 { tru() } else { fls() }; }
            {
                let mut d = Lin { terms: Vec::new(), k: 0 };
                lin_collect(a, 1, w, &mut d, true);
                lin_collect(b, m, w, &mut d, true);
                if d.terms.iter().all(|t| t.1 == 0) { return if d.k == 0 { tru() } else { fls() }; }
            }
            join_divmod_terms(&mut l, w);
            if l.terms.is_empty() { return if l.k == 0 { tru() } else { fls() }; }
            if l.terms.len() == 1 && l.terms[0].1 == 1 {
                return eq(l.terms[0].0, konst(w, l.k.wrapping_neg()));
            }
            // put positive and negative parts on separate sides
            let mut p = Lin { terms: vec![], k: 0 };
            let mut q = Lin { terms: vec![], k: 0 };
            for &(t, c) in &l.terms {
                if c > m / 2 { q.terms.push((t, c.wrapping_neg() & m)); } else { p.terms.push((t, c)); }
            }
            if l.k > m / 2 { q.k = l.k.wrapping_neg() & m; } else { p.k = l.k; }
            let (x, y) = (lin_build(&p, w), lin_build(&q, w));
            if (x, y) != (a, b) && (y, x) != (a, b) {
                let (x, y) = if x > y { (y, x) } else { (x, y) };
                if let Some(r) = fold2(Op::Eq, 1, x, y) { return r; }
                if x == y { return tru(); }
                if is_const(x) || is_const(y) { return eq(x, y); }
                return mk2(Op::Eq, 1, x, y);
            }
        }
    }
    if let Some(r) = affine_eq(a, b) { return r; }
    let (a, b) = if a > b && !is_const(b) { (b, a) } else { (a, b) };
    mk2(Op::Eq, 1, a, b)
}

pub fn ult(a: E, b: E) -> E {
    if cx().plain { return fold2(Op::Ult, 1, a, b).unwrap_or_else(|| raw_insert(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })); }
    if a == b { return fls(); }
    if let Some(r) = fold2(Op::Ult, 1, a, b) { return r; }
    let (ia, ib) = (info(a), info(b));
    if ia.hi < ib.lo { return tru(); }
    if ia.lo >= ib.hi { return fls(); }
    let w = width(a);
    if w == 1 { return and(not1(a), b); }
    if let Some(r) = cmp_narrow(Op::Ult, a, b) { return r; }
    if let Some(k) = as_const(b) {
        if k == 1 { return eq(a, konst(w, 0)); }
        if k == mask(w) { return not1(eq(a, b)); }
        if k == ia.hi { return not1(eq(a, b)); }
        // constant trailing bits: (x ++ c) < k
        if ia.lo + 1 == k { return eq(a, konst(w, ia.lo)); }
    }
    if let Some(k) = as_const(a) {
        if k == 0 { return not1(eq(b, a)); }
        if k + 1 == ib.hi { return eq(b, konst(w, ib.hi)); }
        if k == ib.lo { return not1(eq(b, konst(w, k))); }
    }
    if let Some(r) = cmp_shift_const(Op::Ult, a, b) { return r; }
    if let Some((lo, hi)) = lin_gap(a, b) {
        if lo > 0 { return tru(); }
        if hi <= 0 { return fls(); }
    }
    mk2(Op::Ult, 1, a, b)
}

pub fn ule(a: E, b: E) -> E {
    if cx().plain { return fold2(Op::Ule, 1, a, b).unwrap_or_else(|| raw_insert(Node { op: Op::Ule, w: 1, a, b, c: 0, k: 0 })); }
    if a == b { return tru(); }
    if let Some(r) = fold2(Op::Ule, 1, a, b) { return r; }
    let (ia, ib) = (info(a), info(b));
    if ia.hi <= ib.lo { return tru(); }
    if ia.lo > ib.hi { return fls(); }
    let w = width(a);
    if w == 1 { return or(not1(a), b); }
    // canonical: constants use Ult
    if let Some(k) = as_const(b) { return ult(a, konst(w, k + 1)); } // k < mask since ia.hi > k
    if let Some(k) = as_const(a) { return ult(konst(w, k - 1), b); } // k > 0 since ib.lo < k
    if let Some(r) = cmp_narrow(Op::Ule, a, b) { return r; }
    if let Some(r) = cmp_shift_const(Op::Ule, a, b) { return r; }
    if let Some((lo, hi)) = lin_gap(a, b) {
        if lo >= 0 { return tru(); }
        if hi < 0 { return fls(); }
    }
    mk2(Op::Ule, 1, a, b)
}

/// Bounds of b - a as integers, when both sides are sums that cannot wrap.
fn lin_gap(a: E, b: E) -> Option<(i128, i128)> {
    let w = width(a);
    if w > 64 || !(matches!(node(a).op, Op::Add | Op::Mul) || matches!(node(b).op, Op::Add | Op::Mul)) { return None; }
    let (la, lb) = (lin_of(a, true), lin_of(b, true));
    lin_hi(&la, w)?;
    lin_hi(&lb, w)?;
    let mut t: Vec<(E, i128)> = lb.terms.iter().map(|x| (x.0, x.1 as i128)).collect();
    for x in &la.terms {
        match t.iter_mut().find(|y| y.0 == x.0) {
            Some(y) => y.1 -= x.1 as i128,
            None => t.push((x.0, -(x.1 as i128))),
        }
    }
    let k = lb.k as i128 - la.k as i128;
    let (mut lo, mut hi) = (k, k);
    for (e, c) in t {
        let i = info(e);
        let (p, q) = (c.checked_mul(i.lo as i128)?, c.checked_mul(i.hi as i128)?);
        lo += p.min(q);
        hi += p.max(q);
    }
    Some((lo, hi))
}

/// Drop common constant offsets when neither side can wrap.
fn cmp_shift_const(op: Op, a: E, b: E) -> Option<E> {
    let w = width(a);
    let (la, lb) = (lin_of(a, false), lin_of(b, false));
    if la.terms.is_empty() || lb.terms.is_empty() {
        // x + k < c
        let (v, c, left) = if lb.terms.is_empty() { (&la, lb.k, true) } else { (&lb, la.k, false) };
        if v.k == 0 || lin_hi(v, w).is_none() { return None; }
        let x = Lin { terms: v.terms.clone(), k: 0 };
        let xe = lin_build(&x, w);
        if left {
            // x + k op c
            if c < v.k { return Some(fls()); }
            let ce = konst(w, c - v.k);
            return Some(if op == Op::Ult { ult(xe, ce) } else { ule(xe, ce) });
        } else {
            // c op x + k
            if c < v.k { return Some(tru()); }
            let ce = konst(w, c - v.k);
            return Some(if op == Op::Ult { ult(ce, xe) } else { ule(ce, xe) });
        }
    }
    if la.k != 0 && lb.k != 0 && lin_hi(&la, w).is_some() && lin_hi(&lb, w).is_some() {
        let m = la.k.min(lb.k);
        let x = lin_build(&Lin { terms: la.terms.clone(), k: la.k - m }, w);
        let y = lin_build(&Lin { terms: lb.terms.clone(), k: lb.k - m }, w);
        return Some(if op == Op::Ult { ult(x, y) } else { ule(x, y) });
    }
    None
}

fn cmp_narrow(op: Op, a: E, b: E) -> Option<E> {
    let w = width(a);
    let hi = info(a).hi.max(info(b).hi);
    let top = clog2(hi).max(1);
    if top < w {
        let (na, nb) = (node(a), node(b));
        let ok = |n: &Node, e: E| matches!(n.op, Op::ZExt | Op::Const | Op::Concat | Op::Extract) || is_const(e);
        if ok(&na, a) && ok(&nb, b) {
            let (x, y) = (extract(a, 0, top), extract(b, 0, top));
            return Some(if op == Op::Ult { ult(x, y) } else { ule(x, y) });
        }
    }
    None
}

pub fn slt(a: E, b: E) -> E {
    if cx().plain { return fold2(Op::Slt, 1, a, b).unwrap_or_else(|| raw_insert(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })); }
    if a == b { return fls(); }
    if let Some(r) = fold2(Op::Slt, 1, a, b) { return r; }
    let w = width(a);
    let half = 1u128 << (w - 1);
    let (ia, ib) = (info(a), info(b));
    if ia.hi < half && ib.hi < half { return ult(a, b); }
    if ia.lo >= half && ib.lo >= half { return ult(a, b); }
    if ia.lo >= half && ib.hi < half { return tru(); }
    if ia.hi < half && ib.lo >= half { return fls(); }
    // x < 0
    if as_const(b) == Some(0) { return extract(a, w - 1, 1); }
    if as_const(a) == Some(mask(w)) { return not1(extract(b, w - 1, 1)); }
    mk2(Op::Slt, 1, a, b)
}

pub fn sle(a: E, b: E) -> E {
    if cx().plain { return fold2(Op::Sle, 1, a, b).unwrap_or_else(|| raw_insert(Node { op: Op::Sle, w: 1, a, b, c: 0, k: 0 })); }
    if a == b { return tru(); }
    if let Some(r) = fold2(Op::Sle, 1, a, b) { return r; }
    let w = width(a);
    let half = 1u128 << (w - 1);
    let (ia, ib) = (info(a), info(b));
    if ia.hi < half && ib.hi < half { return ule(a, b); }
    if ia.lo >= half && ib.lo >= half { return ule(a, b); }
    if ia.lo >= half && ib.hi < half { return tru(); }
    if ia.hi < half && ib.lo >= half { return fls(); }
    if as_const(a) == Some(0) { return not1(extract(b, w - 1, 1)); }
    if as_const(b) == Some(mask(w)) { return extract(a, w - 1, 1); }
    mk2(Op::Sle, 1, a, b)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if cx().plain { return match as_const(c) { Some(0) => b, Some(_) => a, None => raw_insert(Node { op: Op::Ite, w: width(a) as u8, a: c, b: a, c: b, k: 0 }) }; }
    if let Some(k) = as_const(c) { return if k != 0 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    debug_assert_eq!(w, width(b), "ite width");
    let nc = node(c);
    if nc.op == Op::Xor && as_const(nc.b) == Some(1) { return ite(nc.a, b, a); }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not1(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not1(c), a),
            _ => {}
        }
        if a == c { return or(c, b); }
        if b == c { return and(c, a); }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Op::Ite && nb.a == c { return ite(c, a, nb.c); }
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
        return zext(ite(c, na.a, nb.a), w);
    }
    if na.op == Op::ZExt && is_const(b) && nb.k <= mask(width(na.a)) {
        return zext(ite(c, na.a, konst(width(na.a), nb.k)), w);
    }
    if nb.op == Op::ZExt && is_const(a) && na.k <= mask(width(nb.a)) {
        return zext(ite(c, konst(width(nb.a), na.k), nb.a), w);
    }
    if na.op == Op::Const && nb.op == Op::Const {
        // zext(bool) patterns
        if na.k == 1 && nb.k == 0 { return zext(c, w); }
        if na.k == 0 && nb.k == 1 { return zext(not1(c), w); }
    }
    // ite(x == k, k, x) -> x
    if nc.op == Op::Eq {
        if (nc.a == a && nc.b == b) || (nc.a == b && nc.b == a) { return b; }
    }
    raw(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
}

// ---------------------------------------------------------------- tables

pub fn table(w: u32, idx: E, mut vals: Vec<u128>) -> E {
    if let Some(k) = as_const(idx) { return konst(w, vals.get(k as usize).copied().unwrap_or(0)); }
    let inf = info(idx);
    let max = (inf.hi + 1).min(vals.len() as u128) as usize;
    vals.truncate(max);
    if (inf.lo..max as u128).all(|i| vals[i as usize] == vals[inf.lo as usize]) {
        return konst(w, vals[inf.lo as usize]);
    }
    if (inf.lo..max as u128).all(|i| vals[i as usize] == i) && inf.hi < max as u128 {
        let iw = width(idx);
        return if iw == w { idx } else if iw < w { zext(idx, w) } else { extract(idx, 0, w) };
    }
    let idxw = width(idx);
    extend_affine(&mut vals, idxw);
    let key = (w, idxw, vals.clone());
    let c = cx();
    let id = if let Some(&id) = c.table_map.get(&key) { id } else {
        let affine = is_affine(&vals);
        c.tables.push(Rc::new(TableData { w, idxw, vals, affine }));
        let id = (c.tables.len() - 1) as u32;
        c.table_map.insert(key, id);
        id
    };
    raw(Node { op: Op::Table, w: w as u8, a: idx, b: 0, c: 0, k: id as u128 })
}

/// Values outside the range of the index do not matter: if the others are
/// GF(2)-affine, complete the table so that it is affine as a whole.
fn extend_affine(v: &mut Vec<u128>, idxw: u32) {
    let n = v.len();
    if idxw > 10 || n < 4 || n >= 1 << idxw { return; }
    let mut cols = Vec::new();
    for b in 0..idxw { cols.push(if 1 << b < n { v[1 << b] ^ v[0] } else { 0 }); }
    let mut full = Vec::with_capacity(1 << idxw);
    full.push(v[0]);
    for i in 1..1usize << idxw {
        let x = full[i & (i - 1)] ^ cols[i.trailing_zeros() as usize];
        if i < n && x != v[i] { return; }
        full.push(x);
    }
    *v = full;
}

fn is_affine(v: &[u128]) -> bool {
    if v.len() < 4 || !v.len().is_power_of_two() { return false; }
    let z = v[0];
    for i in 1..v.len() {
        let low = i & (i - 1); // clear lowest set bit
        let bit = i ^ low;
        if v[i] != v[low] ^ v[bit] ^ z { return false; }
    }
    true
}

// ---------------------------------------------------------------- GF(2) affine forms

/// A bit as a constant plus a set of variable bits (sorted list of var*128+bit).
pub type Row = (bool, Vec<u64>); // bitset over dense bit numbering

pub struct Affine { pub rows: Vec<Rc<(bool, Vec<u64>)>> }

struct AffCtx {
    bits: HashMap<(E, u32), usize>,
    memo: HashMap<E, Option<Rc<Affine>>>,
}

fn row_xor(a: &(bool, Vec<u64>), b: &(bool, Vec<u64>)) -> (bool, Vec<u64>) {
    let (l, s) = if a.1.len() >= b.1.len() { (a, b) } else { (b, a) };
    let mut v = l.1.clone();
    for (x, y) in v.iter_mut().zip(s.1.iter()) { *x ^= *y; }
    while v.last() == Some(&0) { v.pop(); }
    (a.0 ^ b.0, v)
}

impl AffCtx {
    fn atom_bit(&mut self, e: E, bit: u32) -> Rc<(bool, Vec<u64>)> {
        let i = info(e);
        if (i.kz | i.ko) >> bit & 1 == 1 { return Rc::new((i.ko >> bit & 1 == 1, Vec::new())); }
        // low bits of sums are narrowed when extracted: use the same name for all
        let mut key = (e, bit);
        if matches!(node(e).op, Op::Add | Op::Mul) {
            let x = extract(extract(e, 0, bit + 1), bit, 1);
            let n = node(x);
            if n.op != Op::Extract || (n.a != e && (n.k != bit as u128 || width(n.a) != bit + 1)) { return self.get(x).rows[0].clone(); }
            key = (x, 0);
        }
        let n = self.bits.len();
        let i = *self.bits.entry(key).or_insert(n);
        let mut v = vec![0u64; i / 64 + 1];
        v[i / 64] |= 1 << (i % 64);
        Rc::new((false, v))
    }
    fn atom(&mut self, e: E) -> Rc<Affine> {
        let w = width(e);
        Rc::new(Affine { rows: (0..w).map(|i| self.atom_bit(e, i)).collect() })
    }
    fn get(&mut self, e: E) -> Rc<Affine> {
        if let Some(Some(r)) = self.memo.get(&e) { return r.clone(); }
        let n = node(e);
        let w = n.w as u32;
        let krow = |b: bool| Rc::new((b, Vec::new()));
        let r: Rc<Affine> = match n.op {
            Op::Const => Rc::new(Affine { rows: (0..w).map(|i| krow((n.k >> i) & 1 == 1)).collect() }),
            Op::Xor => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                Rc::new(Affine { rows: (0..w as usize).map(|i| Rc::new(row_xor(&a.rows[i], &b.rows[i]))).collect() })
            }
            Op::And if is_const(n.b) => {
                let a = self.get(n.a);
                let k = node(n.b).k;
                Rc::new(Affine { rows: (0..w as usize).map(|i| if (k >> i) & 1 == 1 { a.rows[i].clone() } else { krow(false) }).collect() })
            }
            Op::Concat => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                Rc::new(Affine { rows: b.rows.iter().chain(a.rows.iter()).cloned().collect() })
            }
            Op::Extract => {
                let a = self.get(n.a);
                let lo = n.k as usize;
                Rc::new(Affine { rows: a.rows[lo..lo + w as usize].to_vec() })
            }
            Op::ZExt => {
                let a = self.get(n.a);
                let mut rows = a.rows.clone();
                while rows.len() < w as usize { rows.push(krow(false)); }
                Rc::new(Affine { rows })
            }
            Op::SExt => {
                let a = self.get(n.a);
                let mut rows = a.rows.clone();
                let top = rows.last().unwrap().clone();
                while rows.len() < w as usize { rows.push(top.clone()); }
                Rc::new(Affine { rows })
            }
            Op::Ite if is_const(n.b) && is_const(n.c) => {
                let c = self.get(n.a);
                let (x, y) = (node(n.b).k, node(n.c).k);
                Rc::new(Affine { rows: (0..w as usize).map(|i| {
                    let (p, q) = ((x >> i) & 1 == 1, (y >> i) & 1 == 1);
                    if p == q { krow(p) } else if p { c.rows[0].clone() } else { Rc::new(row_xor(&c.rows[0], &(true, vec![]))) }
                }).collect() })
            }
            // ite(c, x ^ k, x) and the like: difference of the branches is constant
            Op::Ite => {
                let d = xor(n.b, n.c);
                if let Some(k) = as_const(d) {
                    let c = self.get(n.a);
                    let y = self.get(n.c);
                    Rc::new(Affine { rows: (0..w as usize).map(|i|
                        if (k >> i) & 1 == 1 { Rc::new(row_xor(&y.rows[i], &c.rows[0])) } else { y.rows[i].clone() }
                    ).collect() })
                } else { self.atom(e) }
            }
            Op::Eq if width(n.a) == 1 => self.atom(e),
            Op::Table => {
                let t = cx().tables[n.k as usize].clone();
                if t.affine && (1u128 << width(n.a)) == t.vals.len() as u128 {
                    let a = self.get(n.a);
                    let mut rows: Vec<(bool, Vec<u64>)> = (0..w).map(|i| ((t.vals[0] >> i) & 1 == 1, vec![])).collect();
                    for b in 0..width(n.a) as usize {
                        let col = t.vals[1 << b] ^ t.vals[0];
                        for i in 0..w as usize {
                            if (col >> i) & 1 == 1 { rows[i] = row_xor(&rows[i], &a.rows[b]); }
                        }
                    }
                    Rc::new(Affine { rows: rows.into_iter().map(Rc::new).collect() })
                } else { self.atom(e) }
            }
            _ => self.atom(e),
        };
        self.memo.insert(e, Some(r.clone()));
        r
    }
}

static mut AFF: *mut AffCtx = std::ptr::null_mut();
fn aff() -> &'static mut AffCtx {
    unsafe {
        if AFF.is_null() {
            AFF = Box::into_raw(Box::new(AffCtx { bits: HashMap::new(), memo: HashMap::new() }));
        }
        &mut *AFF
    }
}

fn has_xorish(e: E) -> bool {
    // looks one or two levels down for structure worth an affine comparison
    let n = node(e);
    match n.op {
        Op::Xor => true,
        Op::Table => cx().tables[n.k as usize].affine,
        Op::Extract | Op::ZExt | Op::SExt => has_xorish(n.a),
        Op::Concat => has_xorish(n.a) || has_xorish(n.b),
        _ => false,
    }
}

fn affine_eq(a: E, b: E) -> Option<E> {
    if is_const(b) || is_const(a) { return None; }
    if !has_xorish(a) && !has_xorish(b) { return None; }
    let (x, y) = (aff().get(a), aff().get(b));
    let mut all = true;
    for (p, q) in x.rows.iter().zip(y.rows.iter()) {
        if Rc::ptr_eq(p, q) { continue; }
        let d = row_xor(p, q);
        if d.1.is_empty() {
            if d.0 { return Some(fls()); }
        } else { all = false; }
    }
    if all { Some(tru()) } else { None }
}

/// Difference rows of an equality between affine terms (for Gaussian elimination).
pub fn affine_rows_eq(a: E, b: E) -> Vec<(bool, Vec<u64>)> {
    let (x, y) = (aff().get(a), aff().get(b));
    x.rows.iter().zip(y.rows.iter()).map(|(p, q)| row_xor(p, q)).collect()
}

pub fn affine_atoms() -> HashMap<usize, (E, u32)> {
    aff().bits.iter().map(|(k, v)| (*v, *k)).collect()
}

pub fn affine_reset() {
    let a = aff();
    a.memo.clear();
    a.bits.clear();
}

pub fn affine_size() -> usize { aff().memo.len() }

// ---------------------------------------------------------------- traversal helpers

/// Sorted variable ids a term depends on.
pub fn support(e: E) -> Rc<Vec<u32>> {
    if let Some(s) = cx().sup.get(&e) { return s.clone(); }
    // iterative post-order
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if cx().sup.contains_key(&x) { continue; }
        let n = node(x);
        if n.op == Op::Const { cx().sup.insert(x, Rc::new(vec![])); continue; }
        if n.op == Op::Var { cx().sup.insert(x, Rc::new(vec![n.k as u32])); continue; }
        if !done {
            stack.push((x, true));
            for &c in children(&n).iter() { if !cx().sup.contains_key(&c) { stack.push((c, false)); } }
        } else {
            let ch = children(&n);
            let first = cx().sup[&ch[0]].clone();
            let mut acc: Rc<Vec<u32>> = first;
            for &c in ch[1..].iter() {
                let o = cx().sup[&c].clone();
                if o.is_empty() || Rc::ptr_eq(&o, &acc) || *o == *acc { continue; }
                if acc.is_empty() { acc = o; continue; }
                let mut v = Vec::with_capacity(acc.len() + o.len());
                let (mut i, mut j) = (0, 0);
                while i < acc.len() && j < o.len() {
                    if acc[i] < o[j] { v.push(acc[i]); i += 1; }
                    else if acc[i] > o[j] { v.push(o[j]); j += 1; }
                    else { v.push(acc[i]); i += 1; j += 1; }
                }
                v.extend_from_slice(&acc[i..]);
                v.extend_from_slice(&o[j..]);
                acc = if v.len() == acc.len() { acc } else if v.len() == o.len() { o } else { Rc::new(v) };
            }
            cx().sup.insert(x, acc);
        }
    }
    cx().sup[&e].clone()
}

pub fn rebuild(n: &Node, ch: &[E]) -> E {
    let w = n.w as u32;
    match n.op {
        Op::Add => add(ch[0], ch[1]),
        Op::Mul => mul(ch[0], ch[1]),
        Op::UDiv => udiv(ch[0], ch[1]),
        Op::URem => urem(ch[0], ch[1]),
        Op::SDiv => sdiv(ch[0], ch[1]),
        Op::SRem => srem(ch[0], ch[1]),
        Op::And => and(ch[0], ch[1]),
        Op::Or => or(ch[0], ch[1]),
        Op::Xor => xor(ch[0], ch[1]),
        Op::Shl => shl(ch[0], ch[1]),
        Op::LShr => lshr(ch[0], ch[1]),
        Op::AShr => ashr(ch[0], ch[1]),
        Op::Concat => concat(ch[0], ch[1]),
        Op::Extract => extract(ch[0], n.k as u32, w),
        Op::ZExt => zext(ch[0], w),
        Op::SExt => sext(ch[0], w),
        Op::Ite => ite(ch[0], ch[1], ch[2]),
        Op::Eq => eq(ch[0], ch[1]),
        Op::Ult => ult(ch[0], ch[1]),
        Op::Ule => ule(ch[0], ch[1]),
        Op::Slt => slt(ch[0], ch[1]),
        Op::Sle => sle(ch[0], ch[1]),
        Op::Table => {
            let t = cx().tables[n.k as usize].clone();
            table(w, ch[0], t.vals.clone())
        }
        Op::Const | Op::Var => unreachable!(),
    }
}

/// Replace terms by constants according to `facts` (memo is per fact set).
pub fn subst(e: E, facts: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
    if facts.is_empty() { return e; }
    if let Some(&f) = facts.get(&e) { return f; }
    let n = node(e);
    if matches!(n.op, Op::Const | Op::Var) { return e; }
    if let Some(&r) = memo.get(&e) { return r; }
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if memo.contains_key(&x) { continue; }
        if let Some(&f) = facts.get(&x) { memo.insert(x, f); continue; }
        let n = node(x);
        if matches!(n.op, Op::Const | Op::Var) { memo.insert(x, x); continue; }
        let ch = children(&n);
        if !done {
            stack.push((x, true));
            for &c in ch.iter() { if !memo.contains_key(&c) { stack.push((c, false)); } }
        } else {
            let new: Vec<E> = ch.iter().map(|c| memo[c]).collect();
            let r = if new[..] == ch[..] { x } else { rebuild(&n, &new) };
            // the rebuilt term may itself be a known fact
            let r = facts.get(&r).copied().unwrap_or(r);
            memo.insert(x, r);
        }
    }
    memo[&e]
}

/// Evaluate under a variable assignment.
pub fn eval(e: E, vals: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u128 {
    let n = node(e);
    match n.op {
        Op::Const => return n.k,
        Op::Var => return var_val(n.k as u32, vals),
        _ => {}
    }
    if let Some(&v) = memo.get(&e) { return v; }
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if memo.contains_key(&x) { continue; }
        let n = node(x);
        if n.op == Op::Const { continue; }
        if n.op == Op::Var { continue; }
        let ch = children(&n);
        if !done {
            stack.push((x, true));
            for &c in ch.iter() {
                let nc = node(c);
                if nc.op != Op::Const && nc.op != Op::Var && !memo.contains_key(&c) { stack.push((c, false)); }
            }
        } else {
            let mut v = [0u128; 3];
            let mut ws = [0u32; 3];
            for (i, &c) in ch.iter().enumerate() {
                let nc = node(c);
                v[i] = match nc.op { Op::Const => nc.k, Op::Var => var_val(nc.k as u32, vals), _ => memo[&c] };
                ws[i] = nc.w as u32;
            }
            memo.insert(x, eval_node(&n, &v, &ws));
        }
    }
    memo[&e]
}

#[inline]
pub fn var_val(id: u32, vals: &HashMap<u32, u128>) -> u128 {
    match vals.get(&id) { Some(&v) => v, None => cx().vars[id as usize].lo }
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Op::Const => format!("{:#x}:{}", n.k, n.w),
        Op::Var => format!("v{}:{}", n.k, n.w),
        _ => {
            if depth == 0 { return format!("#{}", e); }
            let ch: Vec<String> = children(&n).iter().map(|&c| show(c, depth - 1)).collect();
            match n.op {
                Op::Extract => format!("{}[{}+:{}]", ch[0], n.k, n.w),
                _ => format!("({:?}.{} {})", n.op, n.w, ch.join(" ")),
            }
        }
    }
}
