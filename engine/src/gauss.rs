//! Decision of conjunctions of XOR-linear equalities by Gaussian elimination.

use crate::expr::*;
use crate::solver::Res;
use std::collections::HashMap;
use std::rc::Rc;

fn flatten(e: E, out: &mut Vec<E>) {
    let n = node(e);
    if n.op == Op::And && n.w == 1 { flatten(n.a, out); flatten(n.b, out); } else { out.push(e); }
}

fn linear_worthy(e: E) -> bool {
    let n = node(e);
    match n.op {
        Op::Xor => true,
        Op::Table => cx().tables[n.k as usize].affine,
        Op::Extract | Op::ZExt | Op::SExt => linear_worthy(n.a),
        Op::Concat => linear_worthy(n.a) || linear_worthy(n.b),
        _ => false,
    }
}

/// Only the unsatisfiable verdict is taken from here when other constraints
/// are present: if the XOR-linear part alone is contradictory, so is the whole.
/// A satisfiable verdict is returned only if a model found for the linear part
/// satisfies every constraint.
pub fn decide(cs: &[E]) -> Option<Res> {
    let mut all = Vec::new();
    for &c in cs { flatten(c, &mut all); }
    let mut eqs: Vec<(E, E)> = Vec::new();
    // negated conjunctions of equalities
    let mut nes: Vec<Vec<(E, E)>> = Vec::new();
    let mut worthy = false;
    for &c in &all {
        let n = node(c);
        if n.op == Op::Eq {
            eqs.push((n.a, n.b));
            if linear_worthy(n.a) || linear_worthy(n.b) { worthy = true; }
        } else if n.op == Op::Xor && n.w == 1 && as_const(n.b) == Some(1) {
            // negation of a 1-bit term: term == 0
            let m = node(n.a);
            if m.op == Op::Eq { nes.push(vec![(m.a, m.b)]); }
            if m.op == Op::And {
                let mut parts = Vec::new();
                flatten(n.a, &mut parts);
                if parts.iter().all(|&p| node(p).op == Op::Eq) {
                    nes.push(parts.iter().map(|&p| (node(p).a, node(p).b)).collect());
                }
            }
            if m.op != Op::Eq && m.op != Op::And && m.op != Op::Or { eqs.push((n.a, fls())); if linear_worthy(n.a) { worthy = true; } }
        } else if n.op == Op::Extract || n.op == Op::Xor {
            eqs.push((c, tru()));
            if linear_worthy(c) { worthy = true; }
        }
    }
    for ne in &nes {
        for &(a, b) in ne { if linear_worthy(a) || linear_worthy(b) { worthy = true; } }
    }
    if !worthy { return None; }
    if affine_size() > 200_000 { affine_reset(); }
    let mut rows: Vec<(bool, Vec<u64>)> = Vec::new();
    for (a, b) in eqs { rows.extend(affine_rows_eq(a, b)); }
    // eliminate
    let mut pivots: HashMap<usize, (bool, Vec<u64>)> = HashMap::new();
    for mut r in rows {
        loop {
            match first_bit(&r.1) {
                None => { if r.0 { return Some(Res::Unsat); } break; }
                Some(p) => {
                    if let Some(q) = pivots.get(&p) { xor_into(&mut r, q); }
                    else { pivots.insert(p, r); break; }
                }
            }
        }
    }
    // a disequality whose equality follows from the rest
    for ne in nes {
        let mut implied = true;
        let rows: Vec<_> = ne.into_iter().flat_map(|(a, b)| affine_rows_eq(a, b)).collect();
        'rows: for mut r in rows {
            loop {
                match first_bit(&r.1) {
                    None => { if r.0 { implied = false; break 'rows; } break; }
                    Some(p) => match pivots.get(&p) {
                        Some(q) => xor_into(&mut r, q),
                        None => { implied = false; break 'rows; }
                    },
                }
            }
        }
        if implied { return Some(Res::Unsat); }
    }
    // back-substitute with free bits zero; highest pivots are processed last
    let atoms = affine_atoms();
    let mut order: Vec<usize> = pivots.keys().copied().collect();
    order.sort_unstable_by(|a, b| b.cmp(a));
    let mut val: HashMap<usize, bool> = HashMap::new();
    for p in order {
        let r = &pivots[&p];
        let mut v = r.0;
        for i in bits(&r.1) { if i != p { v ^= val.get(&i).copied().unwrap_or(false); } }
        val.insert(p, v);
    }
    let mut vals: HashMap<u32, u128> = HashMap::new();
    for (i, v) in val {
        if let Some(&(e, bit)) = atoms.get(&i) {
            let n = node(e);
            if n.op == Op::Var && v { *vals.entry(n.k as u32).or_insert(0) |= 1 << bit; }
            else if n.op == Op::Var { vals.entry(n.k as u32).or_insert(0); }
        }
    }
    for (v, x) in vals.iter() {
        let vi = &cx().vars[*v as usize];
        if *x < vi.lo || *x > vi.hi { return None; }
    }
    let mut memo = HashMap::new();
    if cs.iter().all(|&c| eval(c, &vals, &mut memo) != 0) { return Some(Res::Sat(Rc::new(vals))); }
    None
}

fn first_bit(v: &[u64]) -> Option<usize> {
    for (i, &x) in v.iter().enumerate() { if x != 0 { return Some(i * 64 + x.trailing_zeros() as usize); } }
    None
}

fn bits(v: &[u64]) -> Vec<usize> {
    let mut out = Vec::new();
    for (i, &x) in v.iter().enumerate() {
        let mut y = x;
        while y != 0 { out.push(i * 64 + y.trailing_zeros() as usize); y &= y - 1; }
    }
    out
}

fn xor_into(a: &mut (bool, Vec<u64>), b: &(bool, Vec<u64>)) {
    a.0 ^= b.0;
    if a.1.len() < b.1.len() { a.1.resize(b.1.len(), 0); }
    for (x, y) in a.1.iter_mut().zip(b.1.iter()) { *x ^= *y; }
}
