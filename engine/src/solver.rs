//! Satisfiability of path conditions: constraint slicing, cheap decisions for
//! single-byte constraints, a query cache, and Z3 for everything else.

use crate::expr::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! z3api {
    ($($name:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($name: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Option<Api> {
                Some(Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { return None; }
                    std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
                },)* })
            }
        }
    };
}

z3api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_del_config: fn(P);
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_dec_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_set_error_handler: fn(P, P);
    Z3_get_full_version: fn() -> *const c_char;
}

#[derive(Default)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<E, u128>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Model { Model { vals, memo: RefCell::new(HashMap::new()) } }
    pub fn eval(&self, e: E) -> u128 {
        let mut m = self.memo.borrow_mut();
        if m.len() > 200_000 { m.clear(); }
        eval(e, &self.vals, &mut m)
    }
}

#[derive(Default)]
pub struct Stats {
    pub queries: u64,      // feasibility / validity questions asked
    pub trivial: u64,      // decided by term simplification
    pub by_table: u64,     // decided on the 256-entry domain of one byte
    pub by_cache: u64,
    pub by_model: u64,     // satisfiable, witnessed by a known model
    pub by_search: u64,    // satisfiable, witnessed by values found near a known model
    pub by_affine: u64,    // decided by GF(2) elimination
    pub z3: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
}

#[derive(Clone)]
pub enum Res { Sat(Rc<HashMap<u32, u128>>), Unsat, Unknown }

pub struct Solver {
    api: Api,
    ctx: P,
    bvs: HashMap<E, P>,
    bools: HashMap<E, P>,
    pub stats: Stats,
    cache: HashMap<Vec<E>, Res>,
    recent: Vec<Rc<HashMap<u32, u128>>>,
    pub timeout_ms: u32,
    pub version: String,
    pub dump_dir: Option<String>,
    pub deadline: Option<Instant>,
}

unsafe extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let cands = [
            std::env::var("VERIF_LIBZ3").unwrap_or_default(),
            "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".to_string(),
            "libz3.so".to_string(),
            "libz3.so.4".to_string(),
        ];
        let mut api = None;
        for c in cands.iter() {
            if c.is_empty() { continue; }
            unsafe {
                let s = CString::new(c.as_str()).unwrap();
                let h = dlopen(s.as_ptr(), 2);
                if h.is_null() { continue; }
                api = Api::load(h);
                if api.is_some() { break; }
            }
        }
        let api = api.unwrap_or_else(|| { eprintln!("cannot load libz3"); std::process::exit(3) });
        let version = unsafe { CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().to_string() };
        let mut s = Solver {
            api, ctx: std::ptr::null_mut(), bvs: HashMap::new(), bools: HashMap::new(),
            stats: Stats::default(), cache: HashMap::new(), recent: Vec::new(), timeout_ms, version,
            dump_dir: std::env::var("IRSYM_DUMP").ok(), deadline: None,
        };
        s.fresh();
        s
    }

    fn fresh(&mut self) {
        unsafe {
            if !self.ctx.is_null() { (self.api.Z3_del_context)(self.ctx); }
            let cfg = (self.api.Z3_mk_config)();
            self.ctx = (self.api.Z3_mk_context)(cfg);
            (self.api.Z3_del_config)(cfg);
            (self.api.Z3_set_error_handler)(self.ctx, on_error as *const () as P);
        }
        self.bvs.clear();
        self.bools.clear();
    }

    fn sort(&self, w: u32) -> P { unsafe { (self.api.Z3_mk_bv_sort)(self.ctx, w) } }

    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let s = self.sort(w);
            if v <= u64::MAX as u128 { (self.api.Z3_mk_unsigned_int64)(self.ctx, v as u64, s) }
            else {
                let t = CString::new(v.to_string()).unwrap();
                (self.api.Z3_mk_numeral)(self.ctx, t.as_ptr(), s)
            }
        }
    }

    fn post(&mut self, root: E, want_bool: bool) {
        // iterative: make sure all descendants are translated as the kind they are used
        let mut stack = vec![(root, want_bool, false)];
        while let Some((x, b, done)) = stack.pop() {
            let have = if b { self.bools.contains_key(&x) } else { self.bvs.contains_key(&x) };
            if have { continue; }
            let n = node(x);
            if !done {
                stack.push((x, b, true));
                for (c, cb) in Self::deps(&n, b) { stack.push((c, cb, false)); }
            } else {
                let z = self.translate(x, &n, b);
                if b { self.bools.insert(x, z); } else { self.bvs.insert(x, z); }
            }
        }
    }

    fn is_pred(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

    fn deps(n: &Node, b: bool) -> Vec<(E, bool)> {
        match n.op {
            Op::Const | Op::Var => vec![],
            _ if Self::is_pred(n.op) => {
                if b { vec![(n.a, false), (n.b, false)] } else { vec![(u32::MAX, true)] }
            }
            Op::And | Op::Or | Op::Xor if b => vec![(n.a, true), (n.b, true)],
            Op::Ite if b => vec![(n.a, true), (n.b, true), (n.c, true)],
            Op::Ite => vec![(n.a, true), (n.b, false), (n.c, false)],
            _ if b => vec![],
            _ => children(n).iter().map(|&c| (c, false)).collect(),
        }.into_iter().filter(|d| d.0 != u32::MAX).collect()
    }

    fn bv(&mut self, e: E) -> P { if !self.bvs.contains_key(&e) { self.post(e, false); } self.bvs[&e] }
    fn bl(&mut self, e: E) -> P { if !self.bools.contains_key(&e) { self.post(e, true); } self.bools[&e] }

    fn translate(&mut self, e: E, n: &Node, b: bool) -> P {
        let c = self.ctx;
        unsafe {
            if b {
                match n.op {
                    Op::Const => return if n.k != 0 { (self.api.Z3_mk_true)(c) } else { (self.api.Z3_mk_false)(c) },
                    Op::Eq => { let (x, y) = (self.bv(n.a), self.bv(n.b)); return (self.api.Z3_mk_eq)(c, x, y); }
                    Op::Ult => { let (x, y) = (self.bv(n.a), self.bv(n.b)); return (self.api.Z3_mk_bvult)(c, x, y); }
                    Op::Ule => { let (x, y) = (self.bv(n.a), self.bv(n.b)); return (self.api.Z3_mk_bvule)(c, x, y); }
                    Op::Slt => { let (x, y) = (self.bv(n.a), self.bv(n.b)); return (self.api.Z3_mk_bvslt)(c, x, y); }
                    Op::Sle => { let (x, y) = (self.bv(n.a), self.bv(n.b)); return (self.api.Z3_mk_bvsle)(c, x, y); }
                    Op::And => { let v = [self.bl(n.a), self.bl(n.b)]; return (self.api.Z3_mk_and)(c, 2, v.as_ptr()); }
                    Op::Or => { let v = [self.bl(n.a), self.bl(n.b)]; return (self.api.Z3_mk_or)(c, 2, v.as_ptr()); }
                    Op::Xor => {
                        if as_const(n.b) == Some(1) { let x = self.bl(n.a); return (self.api.Z3_mk_not)(c, x); }
                        let (x, y) = (self.bl(n.a), self.bl(n.b));
                        // Z3_mk_xor takes exponential time on nested terms
                        let q = (self.api.Z3_mk_eq)(c, x, y);
                        return (self.api.Z3_mk_not)(c, q);
                    }
                    Op::Ite => { let (p, x, y) = (self.bl(n.a), self.bl(n.b), self.bl(n.c)); return (self.api.Z3_mk_ite)(c, p, x, y); }
                    _ => {
                        let x = self.bv(e);
                        let one = self.num(1, 1);
                        return (self.api.Z3_mk_eq)(c, x, one);
                    }
                }
            }
            let w = n.w as u32;
            match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    let sym = (self.api.Z3_mk_string_symbol)(c, s.as_ptr());
                    (self.api.Z3_mk_const)(c, sym, self.sort(w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let p = self.bl(e);
                    (self.api.Z3_mk_ite)(c, p, self.num(1, 1), self.num(1, 0))
                }
                Op::UDiv | Op::URem | Op::Mul => {
                    // narrow by value range: the operation is exact on fewer bits
                    let (ia, ib) = (info(n.a), info(n.b));
                    let hi = if n.op == Op::Mul {
                        match ia.hi.checked_mul(ib.hi) { Some(h) if h <= mask(w) => h.max(ia.hi).max(ib.hi), _ => mask(w) }
                    } else { ia.hi.max(ib.hi) };
                    let k = (128 - hi.leading_zeros()).max(1);
                    let (mut x, mut y) = (self.bv(n.a), self.bv(n.b));
                    let nar = k < w && (n.op != Op::UDiv || ib.lo > 0);
                    if nar {
                        x = (self.api.Z3_mk_extract)(c, k - 1, 0, x);
                        y = (self.api.Z3_mk_extract)(c, k - 1, 0, y);
                    }
                    let r = match n.op {
                        Op::UDiv => (self.api.Z3_mk_bvudiv)(c, x, y),
                        Op::URem => (self.api.Z3_mk_bvurem)(c, x, y),
                        _ => (self.api.Z3_mk_bvmul)(c, x, y),
                    };
                    // a zero divisor yields all-ones at full width only; ranges exclude it here
                    if nar { (self.api.Z3_mk_zero_ext)(c, w - k, r) } else { r }
                }
                Op::Add | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                    let (x, y) = (self.bv(n.a), self.bv(n.b));
                    let f = match n.op {
                        Op::Add => self.api.Z3_mk_bvadd,
                        Op::SDiv => self.api.Z3_mk_bvsdiv,
                        Op::SRem => self.api.Z3_mk_bvsrem,
                        Op::And => self.api.Z3_mk_bvand,
                        Op::Or => self.api.Z3_mk_bvor,
                        Op::Xor => self.api.Z3_mk_bvxor,
                        Op::Shl => self.api.Z3_mk_bvshl,
                        Op::LShr => self.api.Z3_mk_bvlshr,
                        Op::AShr => self.api.Z3_mk_bvashr,
                        _ => self.api.Z3_mk_concat,
                    };
                    f(c, x, y)
                }
                Op::Extract => {
                    let x = self.bv(n.a);
                    let lo = n.k as u32;
                    (self.api.Z3_mk_extract)(c, lo + w - 1, lo, x)
                }
                Op::ZExt => { let x = self.bv(n.a); (self.api.Z3_mk_zero_ext)(c, w - width(n.a), x) }
                Op::SExt => { let x = self.bv(n.a); (self.api.Z3_mk_sign_ext)(c, w - width(n.a), x) }
                Op::Ite => { let (p, x, y) = (self.bl(n.a), self.bv(n.b), self.bv(n.c)); (self.api.Z3_mk_ite)(c, p, x, y) }
                Op::Table => {
                    let t = cx().tables[n.k as usize].clone();
                    let idx = self.bv(n.a);
                    let iw = width(n.a);
                    if t.affine && iw < 64 && (1usize << iw) == t.vals.len() {
                        let mut acc = self.num(w, t.vals[0]);
                        for bit in 0..iw {
                            let col = t.vals[1 << bit] ^ t.vals[0];
                            if col == 0 { continue; }
                            let ib = (self.api.Z3_mk_extract)(c, bit, bit, idx);
                            let m = if w == 1 { ib } else { (self.api.Z3_mk_sign_ext)(c, w - 1, ib) };
                            let m = (self.api.Z3_mk_bvand)(c, m, self.num(w, col));
                            acc = (self.api.Z3_mk_bvxor)(c, acc, m);
                        }
                        return acc;
                    }
                    // multiplexer tree over the index bits that matter
                    let mut bits = 0;
                    while (1usize << bits) < t.vals.len() { bits += 1; }
                    let bits = bits.min(iw as usize);
                    let mut level: Vec<P> = Vec::new();
                    let mut vals = t.vals.clone();
                    vals.resize(1 << bits, *t.vals.last().unwrap());
                    let mut kc: HashMap<u128, P> = HashMap::new();
                    for v in vals { let p = *kc.entry(v).or_insert_with(|| self.num(w, v)); level.push(p); }
                    let one = self.num(1, 1);
                    for bit in 0..bits as u32 {
                        let ib = (self.api.Z3_mk_extract)(c, bit, bit, idx);
                        let p = (self.api.Z3_mk_eq)(c, ib, one);
                        let mut next = Vec::with_capacity(level.len() / 2);
                        for ch in level.chunks(2) {
                            next.push(if ch[0] == ch[1] { ch[0] } else { (self.api.Z3_mk_ite)(c, p, ch[1], ch[0]) });
                        }
                        level = next;
                    }
                    level[0]
                }
            }
        }
    }

    fn var_bounds(&mut self, vars: &[u32], out: &mut Vec<P>) {
        for &v in vars {
            let (lo, hi, w, e) = { let vi = &cx().vars[v as usize]; (vi.lo, vi.hi, vi.w, vi.e) };
            let x = self.bv(e);
            unsafe {
                if lo > 0 { out.push((self.api.Z3_mk_bvule)(self.ctx, self.num(w, lo), x)); }
                if hi < mask(w) { out.push((self.api.Z3_mk_bvule)(self.ctx, x, self.num(w, hi))); }
            }
        }
    }

    /// Decide the conjunction of `cs` (a self-contained slice).
    fn decide(&mut self, cs: &[E], base: &HashMap<u32, u128>) -> Res {
        // 1. single small variable: intersect truth tables
        let s0 = info(cs[0]).single;
        if !cx().plain && s0 != MANYVAR && s0 != NOVAR && cs.iter().all(|&c| info(c).single == s0) {
            self.stats.by_table += 1;
            let (lo, hi) = { let v = &cx().vars[s0 as usize]; (v.lo, v.hi) };
            let mut vals = HashMap::new();
            for x in lo..=hi {
                vals.insert(s0, x);
                if cs.iter().all(|&c| { let mut m = HashMap::new(); eval(c, &vals, &mut m) != 0 }) {
                    return Res::Sat(Rc::new(vals));
                }
            }
            return Res::Unsat;
        }
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.stats.by_cache += 1; return r.clone(); }
        // 2. recent models
        for m in self.recent.iter().rev() {
            let mut memo = HashMap::new();
            if key.iter().all(|&c| eval(c, m, &mut memo) != 0) {
                self.stats.by_model += 1;
                return Res::Sat(m.clone());
            }
        }
        // 3. XOR-linear systems
        if let Some(r) = crate::gauss::decide(&key) {
            self.stats.by_affine += 1;
            self.cache.insert(key, r.clone());
            return r;
        }
        let r = self.z3(&key, base);
        if let Res::Sat(m) = &r {
            self.recent.push(m.clone());
            if self.recent.len() > 12 { self.recent.remove(0); }
        }
        if self.cache.len() > 300_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }

    /// Look for values satisfying `cs` near the known models: a few variables at a time take
    /// limits of their range, powers of two or arbitrary values.  Finds witnesses only.
    fn near(&mut self, cs: &[E], vars: &[u32], base: &HashMap<u32, u128>) -> Option<HashMap<u32, u128>> {
        let t0 = Instant::now();
        let mut seed = 0x9e37_79b9_7f4a_7c15u64;
        let mut rnd = move || {
            seed = seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = seed;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        };
        let start: HashMap<u32, u128> = vars.iter().map(|&v| (v, var_val(v, base))).collect();
        let mut memo = HashMap::new();
        while t0.elapsed().as_millis() < 400 {
            let mut vals = start.clone();
            for _ in 0..1 + rnd() % 3 {
                let v = vars[rnd() as usize % vars.len()];
                let (lo, hi, w) = { let vi = &cx().vars[v as usize]; (vi.lo, vi.hi, vi.w) };
                let wide = (rnd() as u128) << 64 | rnd() as u128;
                let x = match rnd() % 6 {
                    0 => lo,
                    1 => hi,
                    2 => vals[&v] ^ 1 << (wide % w as u128),
                    3 => vals[&v].wrapping_add(wide % 3).wrapping_sub(1) & mask(w),
                    4 => (wide & mask(w)) >> (rnd() % w as u64),
                    _ => wide & mask(w),
                };
                let x = if x >= lo && x <= hi { x } else if hi - lo == u128::MAX { x } else { lo + x % (hi - lo + 1) };
                vals.insert(v, x);
            }
            memo.clear();
            if cs.iter().all(|&c| eval(c, &vals, &mut memo) != 0) { return Some(vals); }
        }
        None
    }

    fn z3(&mut self, cs: &[E], base: &HashMap<u32, u128>) -> Res {
        let t0 = Instant::now();
        if self.bvs.len() + self.bools.len() > 150_000 { self.fresh(); }
        let mut vars: HashSet<u32> = HashSet::new();
        for &c in cs { for &v in support(c).iter() { vars.insert(v); } }
        let mut vars: Vec<u32> = vars.into_iter().collect();
        vars.sort_unstable();
        let mut asserts: Vec<P> = Vec::new();
        for &c in cs { let p = self.bl(c); asserts.push(p); }
        self.var_bounds(&vars, &mut asserts);
        let mut res = Res::Unknown;
        self.stats.z3 += 1;
        let mut limit = self.timeout_ms;
        if let Some(d) = self.deadline {
            let left = d.saturating_duration_since(t0).as_millis() as u32;
            limit = limit.min(left.max(1000));
        }
        unsafe {
            for attempt in 0..2 {
                if attempt == 1 {
                    if let Some(vals) = self.near(cs, &vars, base) {
                        self.stats.by_search += 1;
                        res = Res::Sat(Rc::new(vals));
                        break;
                    }
                }
                let s = if attempt == 0 { (self.api.Z3_mk_simple_solver)(self.ctx) } else {
                    let l = CString::new("QF_BV").unwrap();
                    let sy = (self.api.Z3_mk_string_symbol)(self.ctx, l.as_ptr());
                    (self.api.Z3_mk_solver_for_logic)(self.ctx, sy)
                };
                (self.api.Z3_solver_inc_ref)(self.ctx, s);
                let p = (self.api.Z3_mk_params)(self.ctx);
                (self.api.Z3_params_inc_ref)(self.ctx, p);
                let n = CString::new("timeout").unwrap();
                let sy = (self.api.Z3_mk_string_symbol)(self.ctx, n.as_ptr());
                let to = if attempt == 0 { 1500.min(limit) } else { limit };
                (self.api.Z3_params_set_uint)(self.ctx, p, sy, to);
                (self.api.Z3_solver_set_params)(self.ctx, s, p);
                (self.api.Z3_params_dec_ref)(self.ctx, p);
                for &a in &asserts { (self.api.Z3_solver_assert)(self.ctx, s, a); }
                let r = (self.api.Z3_solver_check)(self.ctx, s);
                if r == 1 {
                    let m = (self.api.Z3_solver_get_model)(self.ctx, s);
                    (self.api.Z3_model_inc_ref)(self.ctx, m);
                    let mut vals = HashMap::new();
                    for &v in &vars {
                        let e = cx().vars[v as usize].e;
                        let x = self.bv(e);
                        let mut out: P = std::ptr::null_mut();
                        if (self.api.Z3_model_eval)(self.ctx, m, x, true, &mut out) {
                            let st = CStr::from_ptr((self.api.Z3_get_numeral_string)(self.ctx, out)).to_string_lossy().to_string();
                            vals.insert(v, st.parse::<u128>().unwrap());
                        }
                    }
                    (self.api.Z3_model_dec_ref)(self.ctx, m);
                    // the model must satisfy our own semantics too
                    let mut memo = HashMap::new();
                    for &c in cs {
                        if eval(c, &vals, &mut memo) == 0 {
                            eprintln!("internal: solver model does not satisfy constraint {}", show(c, 6));
                            std::process::exit(3);
                        }
                    }
                    self.stats.z3_sat += 1;
                    res = Res::Sat(Rc::new(vals));
                } else if r == -1 {
                    self.stats.z3_unsat += 1;
                    res = Res::Unsat;
                }
                if let Some(d) = &self.dump_dir {
                    if t0.elapsed().as_secs_f64() > 0.5 || r == 0 {
                        let txt = CStr::from_ptr((self.api.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().to_string();
                        let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, self.stats.z3, attempt), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", txt));
                    }
                }
                (self.api.Z3_solver_dec_ref)(self.ctx, s);
                if r != 0 { break; }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt; }
        res
    }

    /// Is `pc && cond` satisfiable?  On success the returned model satisfies all of `pc`
    /// provided `base` does.
    pub fn sat(&mut self, pc: &[E], cond: E, base: &Rc<Model>) -> Option<Result<Rc<Model>, ()>> {
        self.stats.queries += 1;
        if let Some(k) = as_const(cond) {
            self.stats.trivial += 1;
            return Some(if k != 0 { Ok(base.clone()) } else { Err(()) });
        }
        if base.eval(cond) != 0 {
            self.stats.by_model += 1;
            return Some(Ok(base.clone()));
        }
        let slice = slice(pc, cond);
        match self.decide(&slice, &base.vals) {
            Res::Unsat => Some(Err(())),
            Res::Unknown => None,
            Res::Sat(m) => {
                // overlay only the variables of the slice
                let mut vals = base.vals.clone();
                let mut vs: HashSet<u32> = HashSet::new();
                for &c in &slice { for &v in support(c).iter() { vs.insert(v); } }
                for v in vs { vals.insert(v, var_val(v, &m)); }
                Some(Ok(Rc::new(Model::new(vals))))
            }
        }
    }
}

/// Constraints of `pc` transitively sharing variables with `cond`, plus `cond`.
pub fn slice(pc: &[E], cond: E) -> Vec<E> {
    let mut vs: HashSet<u32> = support(cond).iter().copied().collect();
    let mut out = vec![cond];
    let mut rest: Vec<E> = pc.to_vec();
    loop {
        let mut next = Vec::new();
        let mut grew = false;
        for c in rest {
            let s = support(c);
            if s.iter().any(|v| vs.contains(v)) {
                for &v in s.iter() { vs.insert(v); }
                out.push(c);
                grew = true;
            } else { next.push(c); }
        }
        rest = next;
        if !grew { break; }
    }
    out
}
