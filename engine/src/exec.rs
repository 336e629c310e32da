//! Path-forking interpreter over the IR.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { I(u64), E(E), A(Rc<Vec<V>>), U }

pub const UNDEF: u32 = u32::MAX;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u32>, pub live: bool, pub heap: bool }

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub prev: u32,
    pub regs: Vec<V>,
    pub ret_dst: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone, Copy, Debug)]
pub struct Input { pub e: E, pub conc: u64, pub fixed: bool }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<E>,
    pub facts: Rc<HashMap<E, E>>,
    pub memo: HashMap<E, E>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub observed: Vec<(V, u32)>,
    pub nundef: u32,
    pub nforks: u32,
    pub steps: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub site: String,
    pub stack: Vec<String>,
    pub inputs: Vec<u64>,
}

pub struct Witness { pub inputs: Vec<u64>, pub observed: Vec<u64> }

#[derive(Clone, Debug)]
enum Target { Func(Rc<Func>), Builtin(Bi), Panic(String), Missing(String) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bi {
    Nop, Alloc, AllocZ, Realloc, Dealloc, Memcpy, Memset, Memcmp, Bcmp, Strlen,
    VkBytes, VkInt, VkFork, VkConc, VkAssume, VkCheck, VkCover, VkCovers, VkObserve, VkTier, VkParam, VkSame,
    Intrinsic,
}

enum Flow { Next, Jumped, Restart, End }

pub struct Opts {
    pub tier: u64,
    pub params: Vec<u64>,
    pub split: (u64, u64),
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_s: f64,
    pub grace_s: f64,
    pub seed: u64,
    pub witnesses: usize,
    pub trace: bool,
}

struct GInfo { addr: u64, size: u64, obj: Option<Rc<Obj>>, konst: bool, def: Def }

pub struct Exec {
    pub prog: Program,
    pub solver: Solver,
    pub opts: Opts,
    funcs: HashMap<u32, Rc<Func>>,
    targets: HashMap<u32, Target>,
    sym_addr: HashMap<u32, u64>,
    addr_sym: HashMap<u64, u32>,
    gaddr: BTreeMap<u64, u32>,
    ginfo: HashMap<u32, GInfo>,
    next_fn: u64,
    next_glob: u64,
    work: Vec<State>,
    var_cache: HashMap<(u32, u32, u128, u128), E>,
    undef_cache: HashMap<(u32, u32), E>,
    pub used_funcs: BTreeSet<String>,
    pub covers: BTreeSet<String>,
    pub expected: BTreeSet<String>,
    pub violations: Vec<Violation>,
    vkeys: HashMap<String, u32>,
    pub witnesses: Vec<Witness>,
    pub checks: BTreeMap<String, (u64, u64)>, // label -> (trivially true, solver)
    pub paths: u64,
    pub dead: u64,
    pub panics: u64,
    pub instrs: u64,
    pub forks: u64,
    pub max_depth: usize,
    pub errors: Vec<String>,
    pub open: Vec<String>, // undecided conditions
    pub start: Instant,
    first_violation: Option<Instant>,
    rng: u64,
}

fn v_e(e: E) -> V {
    let n = node(e);
    if n.op == Op::Const && n.w <= 64 { V::I(n.k as u64) } else { V::E(e) }
}

impl Exec {
    pub fn new(prog: Program, solver: Solver, opts: Opts) -> Exec {
        let seed = opts.seed;
        Exec {
            prog, solver, opts, funcs: HashMap::new(), targets: HashMap::new(), sym_addr: HashMap::new(), addr_sym: HashMap::new(),
            gaddr: BTreeMap::new(), ginfo: HashMap::new(), next_fn: 0x100_0000, next_glob: 0x1000_0000, work: vec![],
            var_cache: HashMap::new(), undef_cache: HashMap::new(), used_funcs: BTreeSet::new(), covers: BTreeSet::new(), expected: BTreeSet::new(),
            violations: vec![], vkeys: HashMap::new(), witnesses: vec![], checks: BTreeMap::new(), paths: 0, dead: 0, panics: 0, instrs: 0, forks: 0,
            max_depth: 0, errors: vec![], open: vec![], start: Instant::now(), first_violation: None, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self, entry: &str) {
        let sym = self.prog.sym(0, entry);
        let sym = if self.prog.def_of(sym).is_some() { sym } else { eprintln!("entry {} not found", entry); std::process::exit(3) };
        let f = self.func(sym);
        let st = State {
            frames: vec![Frame { regs: vec![V::U; f.nregs as usize], func: f, block: 0, ip: 0, prev: u32::MAX, ret_dst: None, allocas: vec![] }],
            mem: BTreeMap::new(), next: 0x10_0000_0000, pc: vec![], facts: Rc::new(HashMap::new()), memo: HashMap::new(),
            model: Rc::new(Model::default()), inputs: vec![], observed: vec![], nundef: 0, nforks: 0, steps: 0,
        };
        self.work.push(st);
        let deadline = self.start + Duration::from_secs_f64(self.opts.time_s);
        self.solver.deadline = Some(deadline + Duration::from_secs(20));
        while let Some(s) = self.work.pop() {
            if !self.errors.is_empty() { break; }
            if Instant::now() > deadline {
                self.errors.push(format!("time limit {} s reached with {} states pending", self.opts.time_s, self.work.len() + 1));
                break;
            }
            if let Some(t) = self.first_violation { if t.elapsed().as_secs_f64() > self.opts.grace_s { break; } }
            if self.paths + self.dead + self.panics > self.opts.max_paths {
                self.errors.push(format!("path limit {} reached", self.opts.max_paths));
                break;
            }
            self.run_state(s, deadline);
        }
        self.errors.append(&mut self.open);
    }

    // ------------------------------------------------------------ symbols

    fn resolve(&mut self, sym: u32) -> u32 {
        let mut s = sym;
        while let Some(d @ Def::Alias { .. }) = self.prog.def_of(s) { s = self.prog.alias_target(d); }
        s
    }

    fn func(&mut self, sym: u32) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&sym) { return f.clone(); }
        let d = self.prog.def_of(sym).unwrap();
        let f = Rc::new(self.prog.parse_func(d));
        self.used_funcs.insert(f.demangled.clone());
        self.funcs.insert(sym, f.clone());
        f
    }

    fn target(&mut self, sym: u32) -> Target {
        if let Some(t) = self.targets.get(&sym) { return t.clone(); }
        let s = self.resolve(sym);
        let name = self.prog.name_of(s).to_string();
        let t = self.classify(s, &name);
        self.targets.insert(sym, t.clone());
        t
    }

    fn classify(&mut self, s: u32, name: &str) -> Target {
        let b = |x| Target::Builtin(x);
        if name.starts_with("llvm.") {
            if name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.lifetime") || name.starts_with("llvm.assume")
                || name.starts_with("llvm.dbg") || name.starts_with("llvm.prefetch") { return b(Bi::Nop); }
            if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") { return b(Bi::Memcpy); }
            if name.starts_with("llvm.memset") { return b(Bi::Memset); }
            if name.starts_with("llvm.trap") || name.starts_with("llvm.ubsantrap") { return Target::Panic("trap".into()); }
            return b(Bi::Intrinsic);
        }
        match name {
            "__vk_bytes" => return b(Bi::VkBytes),
            "__vk_int" => return b(Bi::VkInt),
            "__vk_fork" => return b(Bi::VkFork),
            "__vk_conc" => return b(Bi::VkConc),
            "__vk_assume" => return b(Bi::VkAssume),
            "__vk_check" => return b(Bi::VkCheck),
            "__vk_cover" => return b(Bi::VkCover),
            "__vk_covers" => return b(Bi::VkCovers),
            "__vk_observe" => return b(Bi::VkObserve),
            "__vk_copy" => return b(Bi::Memcpy),
            "__vk_same" => return b(Bi::VkSame),
            "__vk_tier" => return b(Bi::VkTier),
            "__vk_param" => return b(Bi::VkParam),
            "memcpy" | "memmove" => return b(Bi::Memcpy),
            "memset" => return b(Bi::Memset),
            "memcmp" => return b(Bi::Memcmp),
            "bcmp" => return b(Bi::Bcmp),
            "strlen" => return b(Bi::Strlen),
            "abort" => return Target::Panic("abort".into()),
            _ => {}
        }
        if name.contains("7___rustc") {
            if name.contains("___rust_alloc_zeroed") { return b(Bi::AllocZ); }
            if name.contains("___rust_alloc_error_handler") { return Target::Panic(name.into()); }
            if name.contains("___rust_alloc") { return b(Bi::Alloc); }
            if name.contains("___rust_realloc") { return b(Bi::Realloc); }
            if name.contains("___rust_dealloc") { return b(Bi::Dealloc); }
            if name.contains("___rust_no_alloc_shim") { return b(Bi::Nop); }
            if name.contains("rust_begin_unwind") || name.contains("rust_panic") || name.contains("rust_start_panic") { return Target::Panic(name.into()); }
        }
        if (name.contains("4core9panicking") && !name.contains("9panicking11PanicInfo"))
            || name.contains("5alloc5alloc18handle_alloc_error") || name.contains("7raw_vec12handle_error") || name.contains("7raw_vec17capacity_overflow")
            || name.contains("5slice5index16slice_index_fail") || name.contains("4core3str16slice_error_fail") || name.contains("6option13expect_failed")
            || name.contains("6option13unwrap_failed") || name.contains("6result13unwrap_failed") || name.contains("3std7process5abort")
            || name.contains("4core4cell22panic_already") || name.contains("10intrinsics5abort") || name.contains("copy_from_slice_impl17len_mismatch_fail")
        {
            return Target::Panic(name.into());
        }
        match self.prog.def_of(s) {
            Some(Def::Func { .. }) => Target::Func(self.func(s)),
            _ => Target::Missing(name.to_string()),
        }
    }

    fn addr_of(&mut self, sym: u32) -> u64 {
        if let Some(&a) = self.sym_addr.get(&sym) { return a; }
        let s = self.resolve(sym);
        if s != sym { let a = self.addr_of(s); self.sym_addr.insert(sym, a); return a; }
        let a;
        match self.prog.def_of(s) {
            Some(d @ Def::Global { .. }) => {
                let (ty, _v, konst) = self.prog.parse_global(d);
                let size = ty.size();
                a = (self.next_glob + 63) / 64 * 64;
                self.next_glob = a + size + 64;
                self.gaddr.insert(a, s);
                self.ginfo.insert(s, GInfo { addr: a, size, obj: None, konst, def: d });
            }
            _ => {
                a = self.next_fn;
                self.next_fn += 16;
                self.addr_sym.insert(a, s);
            }
        }
        self.sym_addr.insert(sym, a);
        a
    }

    fn global_obj(&mut self, sym: u32) -> Rc<Obj> {
        if let Some(o) = &self.ginfo[&sym].obj { return o.clone(); }
        let (size, def) = { let g = &self.ginfo[&sym]; (g.size, g.def) };
        let (ty, v, _) = self.prog.parse_global(def);
        let mut data = vec![UNDEF; size as usize];
        self.init_bytes(&ty, &v, &mut data, 0);
        let o = Rc::new(Obj { data, live: true, heap: false });
        self.ginfo.get_mut(&sym).unwrap().obj = Some(o.clone());
        o
    }

    fn init_bytes(&mut self, ty: &Ty, v: &Opd, data: &mut Vec<u32>, off: usize) {
        let n = ty.size() as usize;
        match v {
            Opd::Zero => for i in 0..n { data[off + i] = 0; },
            Opd::Undef => {}
            Opd::Bytes(b) => for (i, x) in b.iter().enumerate() { data[off + i] = *x as u32; },
            Opd::Agg(fs) => {
                for (i, (t, o)) in fs.iter().enumerate() {
                    let (fo, _) = ty.field(i as u64);
                    self.init_bytes(t, o, data, off + fo as usize);
                }
            }
            _ => {
                let k = self.const_val(v);
                for i in 0..n { data[off + i] = ((k >> (8 * i)) & 0xff) as u32; }
            }
        }
    }

    fn const_val(&mut self, v: &Opd) -> u128 {
        match v {
            Opd::Int(i) => *i,
            Opd::Zero => 0,
            Opd::Global(s) => self.addr_of(*s) as u128,
            Opd::Expr(e) => match &**e {
                CExpr::Gep(b, terms, off) => {
                    let mut a = self.const_val(b) as u64;
                    a = a.wrapping_add(*off as u64);
                    for (t, s) in terms { let x = self.const_val(t) as u64; a = a.wrapping_add(x.wrapping_mul(*s)); }
                    a as u128
                }
                CExpr::IntToPtr(x) => self.const_val(x) as u64 as u128,
                CExpr::PtrToInt(x, w) | CExpr::Trunc(x, w) => self.const_val(x) & mask(*w),
                CExpr::Bin(op, w, a, b) => {
                    let (x, y) = (self.const_val(a), self.const_val(b));
                    (match op { BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::Xor => x ^ y, BinOp::Shl => x << y, _ => panic!("constexpr") }) & mask(*w)
                }
            },
            _ => panic!("const_val {:?}", v),
        }
    }

    // ------------------------------------------------------------ values

    fn undef(&mut self, st: &mut State, w: u32) -> E {
        let k = (st.nundef, w);
        st.nundef += 1;
        *self.undef_cache.entry(k).or_insert_with(|| new_var(w, 0, mask(w)))
    }

    #[inline]
    fn get(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::Int(i) => if *i <= u64::MAX as u128 { V::I(*i as u64) } else { V::E(konst(128, *i)) },
            Opd::Zero => V::I(0),
            Opd::Undef => V::U,
            Opd::Global(s) => V::I(self.addr_of(*s)),
            Opd::Expr(_) => V::I(self.const_val(o) as u64),
            Opd::Agg(f) => {
                let v: Vec<V> = f.iter().map(|(_, x)| self.get(st, x)).collect();
                V::A(Rc::new(v))
            }
            Opd::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::I(x as u64)).collect())),
            Opd::Meta => V::U,
        }
    }

    fn to_e(&mut self, st: &mut State, v: &V, w: u32) -> E {
        match v {
            V::I(i) => konst(w, *i as u128),
            V::E(e) => { debug_assert_eq!(width(*e), w); *e }
            V::U => self.undef(st, w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }

    fn get_e(&mut self, st: &mut State, o: &Opd, w: u32) -> E {
        let v = self.get(st, o);
        self.to_e(st, &v, w)
    }

    #[inline]
    fn set(&mut self, st: &mut State, dst: u32, v: V) {
        st.frames.last_mut().unwrap().regs[dst as usize] = v;
    }

    fn simp(&mut self, st: &mut State, e: E) -> E {
        if is_const(e) { return e; }
        let f = st.facts.clone();
        subst(e, &f, &mut st.memo)
    }

    /// Record that `c` (1 bit) holds on this path.
    fn learn(&mut self, st: &mut State, c: E, keep: bool) {
        if is_const(c) { return; }
        if keep { st.pc.push(c); }
        let f = Rc::make_mut(&mut st.facts);
        Self::add_facts(f, c);
        st.memo.clear();
    }

    fn add_facts(f: &mut HashMap<E, E>, c: E) {
        f.insert(c, tru());
        let n = node(c);
        let s = info(c).single;
        if s != MANYVAR && s != NOVAR {
            // exactly one value left?
            let (lo, hi, e, w) = { let v = &cx().vars[s as usize]; (v.lo, v.hi, v.e, v.w) };
            let mut only = None;
            let mut cnt = 0;
            let mut vals = HashMap::new();
            for x in lo..=hi {
                vals.insert(s, x);
                let mut m = HashMap::new();
                if eval(c, &vals, &mut m) != 0 { cnt += 1; only = Some(x); if cnt > 1 { break; } }
            }
            if cnt == 1 { f.insert(e, konst(w, only.unwrap())); }
        }
        match n.op {
            Op::Eq => {
                if is_const(n.b) { f.insert(n.a, n.b); Self::decompose(f, n.a, node(n.b).k); }
            }
            Op::And if n.w == 1 => { Self::add_facts(f, n.a); Self::add_facts(f, n.b); }
            Op::Xor if n.w == 1 && as_const(n.b) == Some(1) => {
                f.insert(n.a, fls());
                let m = node(n.a);
                if m.op == Op::Or && m.w == 1 { Self::add_facts(f, not1(m.a)); Self::add_facts(f, not1(m.b)); }
            }
            Op::Ult => { f.insert(ule(n.b, n.a), fls()); }
            Op::Ule => { f.insert(ult(n.b, n.a), fls()); }
            _ => {}
        }
        let neg = not1(c);
        if !is_const(neg) { f.insert(neg, fls()); }
    }

    fn decompose(f: &mut HashMap<E, E>, e: E, k: u128) {
        let n = node(e);
        match n.op {
            Op::Add => if let Some(c) = as_const(n.b) {
                let w = n.w as u32;
                let r = k.wrapping_sub(c) & mask(w);
                f.insert(n.a, konst(w, r));
                Self::decompose(f, n.a, r);
            },
            Op::ZExt => { let w = width(n.a); f.insert(n.a, konst(w, k)); Self::decompose(f, n.a, k); }
            Op::Concat => {
                let wb = width(n.b);
                let wa = width(n.a);
                f.insert(n.a, konst(wa, k >> wb));
                f.insert(n.b, konst(wb, k));
                Self::decompose(f, n.a, (k >> wb) & mask(wa));
                Self::decompose(f, n.b, k & mask(wb));
            }
            _ => {}
        }
    }

    fn sat(&mut self, st: &State, c: E) -> Option<Result<Rc<Model>, ()>> {
        let r = self.solver.sat(&st.pc, c, &st.model);
        if r.is_none() {
            self.open.push(format!("solver gave no answer within its limit in {}", st.frames.last().unwrap().func.demangled));
            if self.open.len() >= 10 { self.errors.append(&mut self.open); }
            // the run cannot end well any more: look for violations on the paths known to exist
            self.solver.timeout_ms = self.solver.timeout_ms.min(15000);
        }
        r
    }

    /// Decide a 1-bit condition on this path; forks when both outcomes are possible.
    /// Returns the outcome taken by `st`; the other is queued (re-executing the current instruction).
    fn branch(&mut self, st: &mut State, c: E) -> Option<bool> {
        let c = self.simp(st, c);
        if let Some(k) = as_const(c) { return Some(k != 0); }
        let v = st.model.eval(c) != 0;
        let other = if v { not1(c) } else { c };
        let here = if v { c } else { not1(c) };
        match self.sat(st, other) {
            Some(Ok(m)) => {
                let mut o = st.clone();
                o.model = m;
                self.learn(&mut o, other, true);
                self.forks += 1;
                self.work.push(o);
                self.learn(st, here, true);
            }
            Some(Err(())) => { self.learn(st, here, false); }
            None => { self.learn(st, here, true); }
        }
        Some(v)
    }

    /// Make a term concrete by forking over all its possible values.
    fn concretize(&mut self, st: &mut State, e: E) -> Option<u128> {
        let e = self.simp(st, e);
        if let Some(k) = as_const(e) { return Some(k); }
        let w = width(e);
        let v0 = st.model.eval(e);
        // enumerate the others
        let mut others: Vec<(u128, Rc<Model>)> = Vec::new();
        let mut ne = not1(eq(e, konst(w, v0)));
        let mut open = false;
        loop {
            match self.sat(st, ne) {
                Some(Ok(m)) => {
                    let v = m.eval(e);
                    others.push((v, m));
                    if others.len() > 4096 {
                        self.errors.push(format!("more than 4096 values for one term in {}", st.frames.last().unwrap().func.demangled));
                        return None;
                    }
                    ne = and(ne, not1(eq(e, konst(w, v))));
                }
                Some(Err(())) => break,
                None => { open = true; break; }
            }
        }
        let single = others.is_empty() && !open;
        for (v, m) in others {
            let mut o = st.clone();
            o.model = m;
            let c = eq(e, konst(w, v));
            self.learn(&mut o, c, true);
            let f = Rc::make_mut(&mut o.facts);
            f.insert(e, konst(w, v));
            o.memo.clear();
            self.forks += 1;
            self.work.push(o);
        }
        let c = eq(e, konst(w, v0));
        self.learn(st, c, !single);
        Rc::make_mut(&mut st.facts).insert(e, konst(w, v0));
        st.memo.clear();
        Some(v0)
    }

    fn conc_v(&mut self, st: &mut State, v: &V, w: u32) -> Option<u64> {
        match v {
            V::I(i) => Some(*i),
            V::E(e) => self.concretize(st, *e).map(|x| x as u64),
            V::U => { let e = self.undef(st, w); self.errors.push(format!("undefined value used as address or length in {}", st.frames.last().unwrap().func.demangled)); let _ = e; None }
            V::A(_) => panic!("conc agg"),
        }
    }

    // ------------------------------------------------------------ memory

    fn alloc(&mut self, st: &mut State, size: u64, heap: bool, zero: bool) -> u64 {
        let a = (st.next + 63) / 64 * 64;
        st.next = a + size.max(1) + 64;
        st.mem.insert(a, Rc::new(Obj { data: vec![if zero { 0 } else { UNDEF }; size as usize], live: true, heap }));
        a
    }

    fn find(&mut self, st: &State, addr: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr <= *b + o.data.len() as u64 { return Some((*b, o.clone())); }
        }
        if addr >= 0x1000_0000 && addr < 0x10_0000_0000 {
            if let Some((b, s)) = self.gaddr.range(..=addr).next_back() {
                let (b, s) = (*b, *s);
                if addr <= b + self.ginfo[&s].size { let o = self.global_obj(s); return Some((b, o)); }
            }
        }
        None
    }

    fn bad_mem(&mut self, st: &State, what: &str, addr: u64, n: u64) {
        let stack: Vec<String> = st.frames.iter().rev().take(6).map(|f| f.func.demangled.clone()).collect();
        self.errors.push(format!("{} of {} bytes at {:#x} outside any live object; stack {:?}", what, n, addr, stack));
    }

    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> Option<Vec<u32>> {
        if n == 0 { return Some(vec![]); }
        match self.find(st, addr) {
            Some((b, o)) if o.live && addr + n <= b + o.data.len() as u64 => {
                let s = (addr - b) as usize;
                Some(o.data[s..s + n as usize].to_vec())
            }
            _ => { self.bad_mem(st, "read", addr, n); None }
        }
    }

    fn write_bytes(&mut self, st: &mut State, addr: u64, data: &[u32]) -> bool {
        if data.is_empty() { return true; }
        let key = st.mem.range(..=addr).next_back().map(|(b, o)| (*b, o.data.len() as u64, o.live));
        if let Some((b, len, live)) = key {
            if live && addr + data.len() as u64 <= b + len {
                let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
                let s = (addr - b) as usize;
                o.data[s..s + data.len()].copy_from_slice(data);
                return true;
            }
        }
        // mutable global: copy into the state
        if addr < 0x10_0000_0000 {
            if let Some((b, o)) = self.find(st, addr) {
                let s = self.gaddr[&b];
                if !self.ginfo[&s].konst && addr + data.len() as u64 <= b + o.data.len() as u64 {
                    let mut ob = (*o).clone();
                    let off = (addr - b) as usize;
                    ob.data[off..off + data.len()].copy_from_slice(data);
                    st.mem.insert(b, Rc::new(ob));
                    return true;
                }
            }
        }
        self.bad_mem(st, "write", addr, data.len() as u64);
        false
    }

    fn byte_e(&mut self, st: &mut State, b: u32) -> E { if b == UNDEF { self.undef(st, 8) } else { b } }

    fn from_bytes(&mut self, st: &mut State, bytes: &[u32], w: u32) -> V {
        if bytes.iter().all(|&b| b < 256) && w <= 64 {
            let mut v = 0u64;
            for (i, &b) in bytes.iter().enumerate() { v |= (b as u64) << (8 * i); }
            if w < 64 { v &= (1u64 << w) - 1; }
            return V::I(v);
        }
        if bytes.iter().all(|&b| b == UNDEF) { return V::U; }
        let mut e = self.byte_e(st, bytes[0]);
        for &b in &bytes[1..] {
            let x = self.byte_e(st, b);
            e = concat(x, e);
        }
        let tot = bytes.len() as u32 * 8;
        if w < tot { e = extract(e, 0, w); }
        v_e(e)
    }

    fn to_bytes(&mut self, st: &mut State, v: &V, w: u32) -> Vec<u32> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::I(i) => (0..n).map(|k| if k < 8 { ((i >> (8 * k)) & 0xff) as u32 } else { 0 }).collect(),
            V::U => vec![UNDEF; n],
            V::E(e) => {
                let mut e = *e;
                let _ = &st;
                if w % 8 != 0 { e = zext(e, n as u32 * 8); }
                (0..n).map(|k| extract(e, 8 * k as u32, 8)).collect()
            }
            V::A(_) => panic!("to_bytes agg"),
        }
    }

    fn load(&mut self, st: &mut State, ty: &Ty, p: V) -> Option<V> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => {
                let a = self.conc_v(st, &p, 64)?;
                let n = match ty { Ty::Struct(f, _) => f.len() as u64, Ty::Array(n, _) => *n, _ => 0 };
                let mut out = Vec::new();
                for i in 0..n {
                    let (o, t) = ty.field(i);
                    out.push(self.load(st, &t, V::I(a + o))?);
                }
                return Some(V::A(Rc::new(out)));
            }
            _ => {}
        }
        let w = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => { self.errors.push(format!("load of {:?}", ty)); return None; } };
        let n = ((w + 7) / 8) as u64;
        let addr = match p {
            V::I(a) => a,
            V::E(e) => {
                let e = self.simp(st, e);
                match as_const(e) {
                    Some(k) => k as u64,
                    None => return self.load_sym(st, e, w, n),
                }
            }
            V::U => { self.errors.push("load through undefined pointer".into()); return None; }
            V::A(_) => panic!(),
        };
        let b = self.read_bytes(st, addr, n)?;
        Some(self.from_bytes(st, &b, w))
    }

    fn load_sym(&mut self, st: &mut State, e: E, w: u32, n: u64) -> Option<V> {
        let a0 = st.model.eval(e) as u64;
        if let Some((base, obj)) = self.find(st, a0) {
            let size = obj.data.len() as u64;
            if obj.live && size >= n && size <= 70000 {
                // all addresses inside this object?
                let lo_ok = ule(konst(64, base as u128), e);
                let hi_ok = ule(e, konst(64, (base + size - n) as u128));
                let bad = not1(and(lo_ok, hi_ok));
                let bad = self.simp(st, bad);
                let inside = match as_const(bad) { Some(k) => k == 0, None => self.sat(st, bad)?.is_err() };
                if inside {
                    let off = sub(e, konst(64, base as u128));
                    let l = lin_of(off, true);
                    let (idx, stride, k) = if l.terms.len() == 1 && l.terms[0].1 < (1 << 32) {
                        (l.terms[0].0, l.terms[0].1 as u64, l.k as u64)
                    } else { (off, 1, 0) };
                    // strip extension of the index
                    let ni = node(idx);
                    let idx = if ni.op == Op::ZExt { ni.a } else { idx };
                    let lo = info(idx).lo;
                    let (idx, k, hi) = if lo > 0 {
                        (sub(idx, konst(width(idx), lo)), k.wrapping_add((lo as u64).wrapping_mul(stride)), info(idx).hi - lo)
                    } else { (idx, k, info(idx).hi) };
                    let max = if hi < 70000 { hi as u64 + 1 } else { 70000u64.min(size) };
                    let mut vals = Vec::new();
                    let mut ok = true;
                    for i in 0..max {
                        let o = k.wrapping_add(i.wrapping_mul(stride));
                        if o.checked_add(n).map_or(true, |x| x > size) {
                            if (o as i64) >= 0 && hi >= 70000 { break; }
                            vals.push(0);
                            continue;
                        }
                        let mut v = 0u128;
                        for j in 0..n {
                            let b = obj.data[(o + j) as usize];
                            if b >= 256 { ok = false; break; }
                            v |= (b as u128) << (8 * j);
                        }
                        if !ok { break; }
                        vals.push(v & mask(w));
                    }
                    if ok && !vals.is_empty() {
                        let t = table(w, idx, vals);
                        let t = self.simp(st, t);
                        return Some(v_e(t));
                    }
                }
            }
        }
        let a = self.concretize(st, e)? as u64;
        let b = self.read_bytes(st, a, n)?;
        Some(self.from_bytes(st, &b, w))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: V, p: V) -> Option<()> {
        let a = self.conc_v(st, &p, 64)?;
        match (ty, &v) {
            (Ty::Struct(..), V::A(fs)) | (Ty::Array(..), V::A(fs)) => {
                for (i, x) in fs.iter().enumerate() {
                    let (o, t) = ty.field(i as u64);
                    self.store(st, &t, x.clone(), V::I(a + o))?;
                }
                return Some(());
            }
            (Ty::Struct(..), V::U) | (Ty::Array(..), V::U) => return Some(()),
            (Ty::Array(..), V::I(0)) | (Ty::Struct(..), V::I(0)) => {
                let z = vec![0u32; ty.size() as usize];
                return if self.write_bytes(st, a, &z) { Some(()) } else { None };
            }
            _ => {}
        }
        let w = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => { self.errors.push(format!("store of {:?}", ty)); return None; } };
        let b = self.to_bytes(st, &v, w);
        if self.write_bytes(st, a, &b) { Some(()) } else { None }
    }

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.read_bytes(st, p, n) {
            Some(b) => b.iter().map(|&x| if x < 256 { x as u8 as char } else { '?' }).collect(),
            None => "?".into(),
        }
    }

    // ------------------------------------------------------------ path ends

    fn inputs_under(&self, st: &State, m: &Model) -> Vec<u64> {
        st.inputs.iter().map(|i| if i.fixed { i.conc } else { m.eval(i.e) as u64 }).collect()
    }

    fn violation(&mut self, st: &State, m: &Model, kind: &str, label: &str, site: String) {
        let key = format!("{}|{}|{}", kind, label, site);
        let c = self.vkeys.entry(key).or_insert(0);
        *c += 1;
        if *c > 2 || self.violations.len() >= 40 { return; }
        let stack = st.frames.iter().rev().take(8).map(|f| f.func.demangled.clone()).collect();
        let inputs = self.inputs_under(st, m);
        self.violations.push(Violation { kind: kind.into(), label: label.into(), site, stack, inputs });
        if self.first_violation.is_none() { self.first_violation = Some(Instant::now()); }
    }

    /// A model of this path in which unconstrained inputs get varied values.
    fn spread(&mut self, st: &State) -> Rc<Model> {
        let mut vals = st.model.vals.clone();
        let mut fixed = HashSet::new();
        for &c in &st.pc { for v in support(c).iter() { fixed.insert(*v); } }
        for i in 0..st.inputs.len() {
            let inp = st.inputs[i];
            if inp.fixed || node(inp.e).op != Op::Var { continue; }
            let id = node(inp.e).k as u32;
            if fixed.contains(&id) { continue; }
            let (lo, hi) = { let v = &cx().vars[id as usize]; (v.lo, v.hi) };
            let r = self.rand() as u128;
            vals.insert(id, if hi - lo >= u64::MAX as u128 { r } else { lo + r % (hi - lo + 1) });
        }
        Rc::new(Model::new(vals))
    }

    /// Source lines behind all executed blocks, for files under `root`.
    pub fn sources(&self, root: &str) -> BTreeSet<(String, String, u32)> {
        let mut out = BTreeSet::new();
        for mi in 0..self.prog.mods.len() {
            let mut ids = BTreeSet::new();
            for f in self.funcs.values() {
                if f.module as usize != mi { continue; }
                for b in &f.blocks { if b.seen.get() { ids.extend(b.dbg.iter().copied()); } }
            }
            if ids.is_empty() { continue; }
            let d = DbgInfo::new(&self.prog.mods[mi].text);
            for i in ids { d.resolve(i, &mut out); }
        }
        out.into_iter().filter(|x| x.0.starts_with(root)).collect()
    }

    fn complete(&mut self, st: &State) {
        self.paths += 1;
        let n = self.opts.witnesses;
        if n == 0 { return; }
        let slot = if self.witnesses.len() < n { Some(self.witnesses.len()) } else {
            let r = self.rand() % self.paths;
            if (r as usize) < n { Some(r as usize) } else { None }
        };
        if let Some(i) = slot {
            let m = self.spread(st);
            let inputs = self.inputs_under(st, &m);
            let observed = st.observed.iter().map(|(v, _)| match v { V::I(i) => *i, V::E(e) => m.eval(*e) as u64, _ => 0 }).collect();
            let w = Witness { inputs, observed };
            if i < self.witnesses.len() { self.witnesses[i] = w; } else { self.witnesses.push(w); }
        }
    }

    // ------------------------------------------------------------ interpreter

    fn run_state(&mut self, mut st: State, deadline: Instant) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x3fff == 0 && Instant::now() > deadline {
                self.errors.push(format!("time limit {} s reached in {}", self.opts.time_s, st.frames.last().unwrap().func.demangled));
                return;
            }
            if !self.errors.is_empty() { return; }
            let fr = st.frames.last().unwrap();
            let f = fr.func.clone();
            let blk = &f.blocks[fr.block as usize];
            let ip = fr.ip;
            if ip == 0 { blk.seen.set(true); }
            st.steps += 1;
            self.instrs += 1;
            if st.steps > self.opts.max_steps {
                let m = st.model.clone();
                self.panics += 1;
                self.violation(&st, &m, "hang", "no end within the step limit", f.demangled.clone());
                return;
            }
            let flow = if ip < blk.ins.len() { self.step(&mut st, &blk.ins[ip]) } else { self.term(&mut st, &blk.term) };
            match flow {
                Flow::Next => st.frames.last_mut().unwrap().ip += 1,
                Flow::Jumped | Flow::Restart => {}
                Flow::End => return,
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        let f = fr.func.clone();
        let blk = &f.blocks[to as usize];
        if blk.phis.is_empty() { return; }
        let mut vals = Vec::with_capacity(blk.phis.len());
        for p in &blk.phis {
            let o = p.inc.iter().find(|x| x.1 == from).unwrap();
            let v = self.get(st, &o.0);
            vals.push((p.dst, v));
        }
        for (d, v) in vals { self.set(st, d, v); }
    }

    fn term(&mut self, st: &mut State, t: &Term) -> Flow {
        match t {
            Term::Br(l) => { self.jump(st, *l); Flow::Jumped }
            Term::CondBr(c, x, y) => {
                let v = self.get(st, c);
                let b = match v {
                    V::I(i) => i & 1 != 0,
                    V::E(e) => match self.branch(st, e) { Some(b) => b, None => return Flow::End },
                    V::U => { self.errors.push(format!("branch on undefined value in {}", st.frames.last().unwrap().func.demangled)); return Flow::End; }
                    V::A(_) => panic!(),
                };
                self.jump(st, if b { *x } else { *y });
                Flow::Jumped
            }
            Term::Switch(w, v, def, cases) => {
                let x = self.get(st, v);
                let e = match x {
                    V::I(i) => {
                        let l = cases.iter().find(|c| c.0 == i as u128).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, l);
                        return Flow::Jumped;
                    }
                    V::E(e) => self.simp(st, e),
                    V::U => { self.errors.push(format!("switch on undefined value in {}", st.frames.last().unwrap().func.demangled)); return Flow::End; }
                    V::A(_) => panic!(),
                };
                if let Some(k) = as_const(e) {
                    let l = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    self.jump(st, l);
                    return Flow::Jumped;
                }
                // fork over destination labels, not over values
                let mut by: Vec<(u32, E)> = Vec::new();
                let mut any = fls();
                for (k, l) in cases {
                    let c = eq(e, konst(*w, *k));
                    if as_const(c) == Some(0) { continue; }
                    any = or(any, c);
                    if *l == *def { continue; }
                    if let Some(p) = by.iter_mut().find(|p| p.0 == *l) { p.1 = or(p.1, c); } else { by.push((*l, c)); }
                }
                let mut dc = tru();
                for (_, c) in &by { dc = and(dc, not1(*c)); }
                by.push((*def, dc));
                let v0 = st.model.eval(e);
                let taken = cases.iter().find(|c| c.0 == v0).map(|c| c.1).unwrap_or(*def);
                let mut mine = tru();
                let mut others = 0;
                for (l, c) in by {
                    let c = self.simp(st, c);
                    if l == taken { mine = c; continue; }
                    match self.sat(st, c) {
                        None => { others += 1; }
                        Some(Ok(m)) => {
                            let mut o = st.clone();
                            o.model = m;
                            self.learn(&mut o, c, true);
                            self.jump(&mut o, l);
                            self.forks += 1;
                            others += 1;
                            self.work.push(o);
                        }
                        Some(Err(())) => {}
                    }
                }
                self.learn(st, mine, others > 0);
                self.jump(st, taken);
                Flow::Jumped
            }
            Term::Ret(v) => {
                let val = v.as_ref().map(|(_, o)| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.remove(&a); }
                if st.frames.is_empty() { self.complete(st); return Flow::End; }
                if let Some(d) = fr.ret_dst { self.set(st, d, val.unwrap_or(V::U)); }
                st.frames.last_mut().unwrap().ip += 1;
                Flow::Jumped
            }
            Term::Unreachable => {
                let f = st.frames.last().unwrap().func.demangled.clone();
                let m = st.model.clone();
                self.violation(st, &m, "unreachable", "unreachable", f);
                self.panics += 1;
                Flow::End
            }
            Term::Unsupported(s) => { self.errors.push(format!("unsupported: {}", s)); Flow::End }
        }
    }

    fn binop(op: BinOp, a: E, b: E) -> E {
        match op {
            BinOp::Add => add(a, b), BinOp::Sub => sub(a, b), BinOp::Mul => mul(a, b),
            BinOp::UDiv => udiv(a, b), BinOp::SDiv => sdiv(a, b), BinOp::URem => urem(a, b), BinOp::SRem => srem(a, b),
            BinOp::Shl => shl(a, b), BinOp::LShr => lshr(a, b), BinOp::AShr => ashr(a, b),
            BinOp::And => and(a, b), BinOp::Or => or(a, b), BinOp::Xor => xor(a, b),
        }
    }

    fn binop_i(op: BinOp, w: u32, x: u64, y: u64) -> Option<u64> {
        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        Some(match op {
            BinOp::Add => x.wrapping_add(y) & m,
            BinOp::Sub => x.wrapping_sub(y) & m,
            BinOp::Mul => x.wrapping_mul(y) & m,
            BinOp::UDiv => if y == 0 { return None } else { x / y },
            BinOp::URem => if y == 0 { return None } else { x % y },
            BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
            BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
            BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
            _ => return None,
        })
    }

    fn step(&mut self, st: &mut State, ins: &Ins) -> Flow {
        match ins {
            Ins::Nop => Flow::Next,
            Ins::Bin { dst, op, w, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (V::I(p), V::I(q)) = (&x, &y) {
                    if *w <= 64 {
                        if let Some(r) = Self::binop_i(*op, *w, *p, *q) { self.set(st, *dst, V::I(r)); return Flow::Next; }
                    }
                }
                if let (V::U, V::U) = (&x, &y) { self.set(st, *dst, V::U); return Flow::Next; }
                let (p, q) = (self.to_e(st, &x, *w), self.to_e(st, &y, *w));
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && as_const(q) == Some(0) {
                    let f = st.frames.last().unwrap().func.demangled.clone();
                    let m = st.model.clone();
                    self.violation(st, &m, "unreachable", "division by zero", f);
                    return Flow::End;
                }
                let r = Self::binop(*op, p, q);
                self.set(st, *dst, v_e(r));
                Flow::Next
            }
            Ins::ICmp { dst, pred, w, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (V::I(p), V::I(q)) = (&x, &y) {
                    let (p, q) = (*p, *q);
                    let s = |v: u64| sext_val(v as u128, *w) as i64;
                    let r = match pred {
                        Pred::Eq => p == q, Pred::Ne => p != q, Pred::Ugt => p > q, Pred::Uge => p >= q, Pred::Ult => p < q, Pred::Ule => p <= q,
                        Pred::Sgt => s(p) > s(q), Pred::Sge => s(p) >= s(q), Pred::Slt => s(p) < s(q), Pred::Sle => s(p) <= s(q),
                    };
                    self.set(st, *dst, V::I(r as u64));
                    return Flow::Next;
                }
                let (p, q) = (self.to_e(st, &x, *w), self.to_e(st, &y, *w));
                let r = match pred {
                    Pred::Eq => eq(p, q), Pred::Ne => not1(eq(p, q)),
                    Pred::Ugt => ult(q, p), Pred::Uge => ule(q, p), Pred::Ult => ult(p, q), Pred::Ule => ule(p, q),
                    Pred::Sgt => slt(q, p), Pred::Sge => sle(q, p), Pred::Slt => slt(p, q), Pred::Sle => sle(p, q),
                };
                self.set(st, *dst, v_e(r));
                Flow::Next
            }
            Ins::Trunc { dst, w, a, from } => {
                let r = match self.get(st, a) {
                    V::I(i) => V::I(if *w >= 64 { i } else { i & ((1u64 << w) - 1) }),
                    V::E(e) => v_e(extract(e, 0, *w)),
                    V::U => V::U,
                    _ => panic!(),
                };
                let _ = from;
                self.set(st, *dst, r);
                Flow::Next
            }
            Ins::ZExt { dst, w, a, from } => {
                let r = match self.get(st, a) {
                    V::I(i) if *w <= 64 => V::I(i),
                    V::U => { let e = self.undef(st, *from); v_e(zext(e, *w)) }
                    v => { let e = self.to_e(st, &v, *from); v_e(zext(e, *w)) }
                };
                self.set(st, *dst, r);
                Flow::Next
            }
            Ins::SExt { dst, w, a, from } => {
                let v = self.get(st, a);
                let e = self.to_e(st, &v, *from);
                self.set(st, *dst, v_e(sext(e, *w)));
                Flow::Next
            }
            Ins::Copy { dst, a, ty } => {
                let mut v = self.get(st, a);
                if let V::U = v {
                    if let Ty::Int(w) = ty { let e = self.undef(st, *w); v = V::E(e); }
                }
                self.set(st, *dst, v);
                Flow::Next
            }
            Ins::PtrToInt { dst, w, a } => {
                let v = self.get(st, a);
                let e = self.to_e(st, &v, 64);
                let r = if *w == 64 { e } else if *w < 64 { extract(e, 0, *w) } else { zext(e, *w) };
                self.set(st, *dst, v_e(r));
                Flow::Next
            }
            Ins::IntToPtr { dst, from, a } => {
                let v = self.get(st, a);
                let e = self.to_e(st, &v, *from);
                let r = if *from == 64 { e } else if *from < 64 { zext(e, 64) } else { extract(e, 0, 64) };
                self.set(st, *dst, v_e(r));
                Flow::Next
            }
            Ins::Select { dst, ty, c, a, b } => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let ce = match cv {
                    V::I(i) => { let r = if i & 1 != 0 { x } else { y }; self.set(st, *dst, r); return Flow::Next; }
                    V::U => self.undef(st, 1),
                    V::E(e) => self.simp(st, e),
                    _ => panic!(),
                };
                if let Some(k) = as_const(ce) {
                    let r = if k != 0 { x } else { y };
                    self.set(st, *dst, r);
                    return Flow::Next;
                }
                if *ty == Ty::Ptr {
                    // keep pointers concrete
                    return match self.branch(st, ce) {
                        None => Flow::End,
                        Some(k) => { let r = if k { x } else { y }; self.set(st, *dst, r); Flow::Next }
                    };
                }
                let r = self.sel(st, ce, ty, &x, &y);
                self.set(st, *dst, r);
                Flow::Next
            }
            Ins::Load { dst, ty, p } => {
                let pv = self.get(st, p);
                match self.load(st, ty, pv) { Some(v) => { self.set(st, *dst, v); Flow::Next } None => Flow::End }
            }
            Ins::Store { ty, v, p } => {
                let vv = self.get(st, v);
                let pv = self.get(st, p);
                match self.store(st, ty, vv, pv) { Some(()) => Flow::Next, None => Flow::End }
            }
            Ins::Gep { dst, base, terms, off } => {
                let b = self.get(st, base);
                let mut all = true;
                let mut acc = match b { V::I(i) => i.wrapping_add(*off as u64), _ => { all = false; 0 } };
                if all {
                    for (t, w, s) in terms {
                        match self.get(st, t) {
                            V::I(i) => { let i = sext_val(i as u128, *w) as i64 as u64; acc = acc.wrapping_add(i.wrapping_mul(*s)); }
                            _ => { all = false; break; }
                        }
                    }
                }
                if all { self.set(st, *dst, V::I(acc)); return Flow::Next; }
                let mut e = self.to_e(st, &b, 64);
                e = add(e, konst(64, *off as i128 as u128));
                for (t, w, s) in terms {
                    let x = self.get_e(st, t, *w);
                    let x = if *w < 64 { sext(x, 64) } else { x };
                    e = add(e, mul(x, konst(64, *s as u128)));
                }
                self.set(st, *dst, v_e(e));
                Flow::Next
            }
            Ins::Alloca { dst, size, n } => {
                let nv = self.get(st, n);
                let k = match self.conc_v(st, &nv, 64) { Some(k) => k, None => return Flow::End };
                let a = self.alloc(st, size * k, false, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *dst, V::I(a));
                Flow::Next
            }
            Ins::ExtractValue { dst, a, idx } => {
                let mut v = self.get(st, a);
                for &i in idx {
                    v = match v { V::A(f) => f[i as usize].clone(), V::U => V::U, V::I(0) => V::I(0), x => panic!("extractvalue {:?}", x) };
                }
                self.set(st, *dst, v);
                Flow::Next
            }
            Ins::InsertValue { dst, ty, a, v, vty: _, idx } => {
                let av = self.get(st, a);
                let nv = self.get(st, v);
                let r = insert(ty, av, nv, idx);
                self.set(st, *dst, r);
                Flow::Next
            }
            Ins::CmpXchg { dst, ty, p, cmp, new } => {
                let pv = self.get(st, p);
                let (c, n) = (self.get(st, cmp), self.get(st, new));
                let old = match self.load(st, ty, pv.clone()) { Some(v) => v, None => return Flow::End };
                let w = match ty { Ty::Int(w) => *w, _ => 64 };
                let (oe, ce) = (self.to_e(st, &old, w), self.to_e(st, &c, w));
                let same = match self.branch(st, eq(oe, ce)) { Some(b) => b, None => return Flow::End };
                if same && self.store(st, ty, n, pv).is_none() { return Flow::End; }
                self.set(st, *dst, V::A(Rc::new(vec![old, V::I(same as u64)])));
                Flow::Next
            }
            Ins::AtomicRmw { dst, op, ty, p, v } => {
                let pv = self.get(st, p);
                let x = self.get(st, v);
                let old = match self.load(st, ty, pv.clone()) { Some(v) => v, None => return Flow::End };
                let w = match ty { Ty::Int(w) => *w, _ => 64 };
                let (oe, xe) = (self.to_e(st, &old, w), self.to_e(st, &x, w));
                let n = match op.as_str() { "add" => add(oe, xe), "sub" => sub(oe, xe), "xchg" => xe, "and" => and(oe, xe), "or" => or(oe, xe), "xor" => xor(oe, xe),
                    _ => { self.errors.push(format!("atomicrmw {}", op)); return Flow::End; } };
                if self.store(st, ty, v_e(n), pv).is_none() { return Flow::End; }
                self.set(st, *dst, old);
                Flow::Next
            }
            Ins::Call { dst, callee, args, ret } => self.call(st, *dst, callee, args, ret),
            Ins::Unsupported(s) => { self.errors.push(format!("unsupported instruction in {}: {}", st.frames.last().unwrap().func.demangled, s)); Flow::End }
        }
    }

    fn sel(&mut self, st: &mut State, c: E, ty: &Ty, x: &V, y: &V) -> V {
        match ty {
            Ty::Struct(f, _) => {
                let get = |v: &V, i: usize| match v { V::A(a) => a[i].clone(), V::U => V::U, V::I(_) => V::I(0), _ => panic!() };
                let r: Vec<V> = f.iter().enumerate().map(|(i, t)| { let (p, q) = (get(x, i), get(y, i)); self.sel(st, c, t, &p, &q) }).collect();
                V::A(Rc::new(r))
            }
            _ => {
                if let V::U = x { return y.clone(); }
                if let V::U = y { return x.clone(); }
                let w = match ty { Ty::Int(w) => *w, Ty::Float(w) => *w, _ => 64 };
                let (p, q) = (self.to_e(st, x, w), self.to_e(st, y, w));
                v_e(ite(c, p, q))
            }
        }
    }

    fn panic_site(&mut self, st: &mut State, name: &str, args: &[V]) -> (String, String) {
        // the last argument is usually a &Location { file: &str, line, col }
        let mut site = String::new();
        for a in args.iter().rev().take(1) {
            if let V::I(p) = a {
                if let Some((b, o)) = self.find(st, *p) {
                    if o.data.len() as u64 >= 24 && *p == b {
                        let d: Vec<u32> = o.data[..24].to_vec();
                        if d.iter().all(|&x| x < 256) {
                            let rd = |i: usize, n: usize| (0..n).fold(0u64, |acc, k| acc | (d[i + k] as u64) << (8 * k));
                            let (fp, fl, ln) = (rd(0, 8), rd(8, 8), rd(16, 4));
                            if fl < 512 && self.find(st, fp).is_some() { site = format!("{}:{}", self.read_str(st, fp, fl), ln); }
                        }
                    }
                }
            }
        }
        (name.to_string(), site)
    }

    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Callee, args: &[(Ty, Opd)], ret: &Ty) -> Flow {
        let sym = match callee {
            Callee::Direct(s) => *s,
            Callee::Asm => {
                // empty assembly used as an optimisation barrier
                if let Some(d) = dst { self.set(st, d, V::U); }
                return Flow::Next;
            }
            Callee::Indirect(o) => {
                let v = self.get(st, o);
                let a = match self.conc_v(st, &v, 64) { Some(a) => a, None => return Flow::End };
                match self.addr_sym.get(&a) {
                    Some(s) => *s,
                    None => { self.errors.push(format!("indirect call to {:#x} in {}", a, st.frames.last().unwrap().func.demangled)); return Flow::End; }
                }
            }
        };
        let t = self.target(sym);
        match t {
            Target::Func(f) => {
                if st.frames.len() > 400 { self.errors.push("call depth limit".into()); return Flow::End; }
                let mut regs = vec![V::U; f.nregs as usize];
                for (i, (_, o)) in args.iter().enumerate() {
                    if i < f.nparams as usize { regs[i] = self.get(st, o); }
                }
                st.frames.push(Frame { func: f, block: 0, ip: 0, prev: u32::MAX, regs, ret_dst: dst, allocas: vec![] });
                if st.frames.len() > self.max_depth { self.max_depth = st.frames.len(); }
                Flow::Jumped
            }
            Target::Panic(name) => {
                let vals: Vec<V> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let (label, site) = self.panic_site(st, &name, &vals);
                let m = st.model.clone();
                self.panics += 1;
                let site = if site.is_empty() { st.frames.last().unwrap().func.demangled.clone() } else { site };
                self.violation(st, &m, "panic", &label, site);
                Flow::End
            }
            Target::Missing(n) => { self.errors.push(format!("call to undefined function {} in {}", n, st.frames.last().unwrap().func.demangled)); Flow::End }
            Target::Builtin(b) => {
                let vals: Vec<V> = args.iter().map(|(t, o)| if *t == Ty::Metadata { V::U } else { self.get(st, o) }).collect();
                match self.builtin(st, b, sym, &vals, args, ret) {
                    None => Flow::End,
                    Some(None) => Flow::Next,
                    Some(Some(v)) => { if let Some(d) = dst { self.set(st, d, v); } Flow::Next }
                }
            }
        }
    }

    fn builtin(&mut self, st: &mut State, b: Bi, sym: u32, a: &[V], args: &[(Ty, Opd)], ret: &Ty) -> Option<Option<V>> {
        match b {
            Bi::Nop => Some(None),
            Bi::Alloc | Bi::AllocZ => {
                let n = self.conc_v(st, &a[0], 64)?;
                if n > 1 << 26 { self.errors.push(format!("allocation of {} bytes", n)); return None; }
                let p = self.alloc(st, n, true, b == Bi::AllocZ);
                Some(Some(V::I(p)))
            }
            Bi::Realloc => {
                let p = self.conc_v(st, &a[0], 64)?;
                let old = self.conc_v(st, &a[1], 64)?;
                let n = self.conc_v(st, &a[3], 64)?;
                let d = self.read_bytes(st, p, old.min(n))?;
                let q = self.alloc(st, n, true, false);
                if !self.write_bytes(st, q, &d) { return None; }
                st.mem.remove(&p);
                Some(Some(V::I(q)))
            }
            Bi::Dealloc => {
                let p = self.conc_v(st, &a[0], 64)?;
                match st.mem.get(&p) {
                    Some(o) if o.heap => { st.mem.remove(&p); }
                    _ => { self.bad_mem(st, "free", p, 0); return None; }
                }
                Some(None)
            }
            Bi::Memcpy => {
                let n = self.conc_v(st, &a[2], 64)?;
                if n > 0 {
                    let s = self.conc_v(st, &a[1], 64)?;
                    let d = self.conc_v(st, &a[0], 64)?;
                    let data = self.read_bytes(st, s, n)?;
                    if !self.write_bytes(st, d, &data) { return None; }
                }
                Some(Some(a[0].clone()))
            }
            Bi::Memset => {
                let n = self.conc_v(st, &a[2], 64)?;
                if n > 0 {
                    let d = self.conc_v(st, &a[0], 64)?;
                    let w = if let Ty::Int(w) = args[1].0 { w } else { 8 };
                    let e = self.to_e(st, &a[1], w);
                    let bt = extract(e, 0, 8);
                    let data = vec![bt; n as usize];
                    if !self.write_bytes(st, d, &data) { return None; }
                }
                Some(Some(a[0].clone()))
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.conc_v(st, &a[2], 64)?;
                if n == 0 { return Some(Some(V::I(0))); }
                let p = self.conc_v(st, &a[0], 64)?;
                let q = self.conc_v(st, &a[1], 64)?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                if b == Bi::Bcmp {
                    let mut all = tru();
                    let mut i = 0;
                    while i < n as usize {
                        // numbers as a whole: sums are not split into bytes
                        if i % 8 == 0 && i + 8 <= n as usize && x[i..i + 8] != y[i..i + 8] {
                            let mut word = |z: &[u32]| {
                                let mut r = self.byte_e(st, z[i]);
                                for k in 1..8 { let h = self.byte_e(st, z[i + k]); r = concat(h, r); }
                                r
                            };
                            let (u, v) = (word(&x), word(&y));
                            if [u, v].iter().all(|&e| node(e).op != Op::Concat || is_const(node(e).a)) {
                                let c = self.simp(st, eq(u, v));
                                all = and(all, c);
                                if as_const(all) == Some(0) { break; }
                                i += 8;
                                continue;
                            }
                        }
                        if x[i] == y[i] && x[i] != UNDEF { i += 1; continue; }
                        let (u, v) = (self.byte_e(st, x[i]), self.byte_e(st, y[i]));
                        let c = self.simp(st, eq(u, v));
                        all = and(all, c);
                        if as_const(all) == Some(0) { break; }
                        i += 1;
                    }
                    return Some(Some(v_e(ite(all, konst(32, 0), konst(32, 1)))));
                }
                let mut r = konst(32, 0);
                for i in (0..n as usize).rev() {
                    if x[i] == y[i] && x[i] != UNDEF { continue; }
                    let (u, v) = (self.byte_e(st, x[i]), self.byte_e(st, y[i]));
                    r = ite(eq(u, v), r, ite(ult(u, v), konst(32, !0), konst(32, 1)));
                }
                Some(Some(v_e(r)))
            }
            Bi::Strlen => {
                let p = self.conc_v(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let b = self.read_bytes(st, p + n, 1)?[0];
                    if b == 0 { break; }
                    if b >= 256 { self.errors.push("strlen of symbolic data".into()); return None; }
                    n += 1;
                }
                Some(Some(V::I(n)))
            }
            Bi::VkBytes => {
                let p = self.conc_v(st, &a[0], 64)?;
                let n = self.conc_v(st, &a[1], 64)?;
                let mut data = Vec::new();
                for _ in 0..n { data.push(self.input(st, 8, 0, 255)); }
                if !self.write_bytes(st, p, &data) { return None; }
                Some(None)
            }
            Bi::VkInt => {
                let w = self.conc_v(st, &a[0], 32)? as u32;
                let lo = self.conc_v(st, &a[1], 64)?;
                let hi = self.conc_v(st, &a[2], 64)?;
                let e = self.input(st, w, lo as u128, hi as u128);
                Some(Some(v_e(zext(e, 64))))
            }
            Bi::VkFork => {
                let n = self.conc_v(st, &a[0], 64)?;
                // choices are explored as separate states: mark by restarting with a pending choice
                let first = st.nforks == 0;
                st.nforks += 1;
                let mut chosen = None;
                let (k, m) = self.opts.split;
                for c in (0..n).rev() {
                    if first && m > 1 && c % m != k { continue; }
                    if chosen.is_none() { chosen = Some(c); continue; }
                    let mut o = st.clone();
                    o.inputs.push(Input { e: 0, conc: c, fixed: true });
                    // complete the call in the queued state
                    self.finish_call(&mut o, V::I(c));
                    self.forks += 1;
                    self.work.push(o);
                }
                match chosen {
                    None => { None }
                    Some(c) => {
                        st.inputs.push(Input { e: 0, conc: c, fixed: true });
                        Some(Some(V::I(c)))
                    }
                }
            }
            Bi::VkConc => {
                let v = self.conc_v(st, &a[0], 64)?;
                Some(Some(V::I(v)))
            }
            Bi::VkAssume => {
                let e = self.to_e(st, &a[0], 1);
                let e = self.simp(st, e);
                if let Some(k) = as_const(e) { if k == 0 { self.dead += 1; return None; } return Some(None); }
                match self.sat(st, e)? {
                    Ok(m) => { st.model = m; self.learn(st, e, true); Some(None) }
                    Err(()) => { self.dead += 1; None }
                }
            }
            Bi::VkCheck => {
                let p = self.conc_v(st, &a[1], 64)?;
                let n = self.conc_v(st, &a[2], 64)?;
                let label = self.read_str(st, p, n);
                let e = self.to_e(st, &a[0], 1);
                let e = self.simp(st, e);
                let ent = self.checks.entry(label.clone()).or_insert((0, 0));
                if as_const(e) == Some(1) { ent.0 += 1; return Some(None); }
                ent.1 += 1;
                let neg = not1(e);
                match self.sat(st, neg) {
                    None => Some(None),
                    Some(Ok(m)) => {
                        self.violation(st, &m, "check", &label, label.clone());
                        match self.sat(st, e)? {
                            Ok(m) => { st.model = m; self.learn(st, e, true); Some(None) }
                            Err(()) => { self.panics += 1; None }
                        }
                    }
                    Some(Err(())) => { self.learn(st, e, false); Some(None) }
                }
            }
            Bi::VkCover => {
                let p = self.conc_v(st, &a[0], 64)?;
                let n = self.conc_v(st, &a[1], 64)?;
                let label = self.read_str(st, p, n);
                self.covers.insert(label);
                Some(None)
            }
            Bi::VkCovers => {
                let p = self.conc_v(st, &a[0], 64)?;
                let n = self.conc_v(st, &a[1], 64)?;
                let label = self.read_str(st, p, n);
                for l in label.split(',') { self.expected.insert(l.trim().to_string()); }
                Some(None)
            }
            Bi::VkObserve => {
                let v = match &a[0] { V::E(e) => { let e = self.simp(st, *e); v_e(e) } x => x.clone() };
                st.observed.push((v, 64));
                Some(None)
            }
            Bi::VkSame => Some(Some(a[0].clone())),
            Bi::VkTier => Some(Some(V::I(self.opts.tier))),
            Bi::VkParam => {
                let i = self.conc_v(st, &a[0], 64)? as usize;
                let d = self.conc_v(st, &a[1], 64)?;
                Some(Some(V::I(self.opts.params.get(i).copied().unwrap_or(d))))
            }
            Bi::Intrinsic => self.intrinsic(st, sym, a, args, ret).map(Some),
        }
    }

    fn finish_call(&mut self, o: &mut State, v: V) {
        let fr = o.frames.last().unwrap();
        let d = if let Ins::Call { dst, .. } = &fr.func.blocks[fr.block as usize].ins[fr.ip] { *dst } else { None };
        if let Some(d) = d { self.set(o, d, v); }
        o.frames.last_mut().unwrap().ip += 1;
    }

    fn input(&mut self, st: &mut State, w: u32, lo: u128, hi: u128) -> E {
        let k = (st.inputs.len() as u32, w, lo, hi);
        let e = if lo == hi { konst(w, lo) } else { *self.var_cache.entry(k).or_insert_with(|| new_var(w, lo, hi)) };
        st.inputs.push(Input { e, conc: 0, fixed: false });
        e
    }

    fn intrinsic(&mut self, st: &mut State, sym: u32, a: &[V], args: &[(Ty, Opd)], ret: &Ty) -> Option<V> {
        let name = self.prog.name_of(sym).to_string();
        let w = match args.get(0).map(|x| &x.0) { Some(Ty::Int(w)) => *w, _ => 64 };
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts[1];
        let ends_ov = parts.len() > 3 && parts[2] == "with" && parts[3] == "overflow";
        let is_sat = parts.len() > 2 && parts[2] == "sat";
        if ends_ov {
            let (x, y) = (self.to_e(st, &a[0], w), self.to_e(st, &a[1], w));
            let (r, o) = match base {
                "uadd" => {
                    let r = add(x, y);
                    let o = if info(x).hi.checked_add(info(y).hi).map_or(false, |h| h <= mask(w)) { fls() } else { ult(r, x) };
                    (r, o)
                }
                "usub" => (sub(x, y), ult(x, y)),
                "umul" => {
                    let r = mul(x, y);
                    let o = if info(x).hi.checked_mul(info(y).hi).map_or(false, |h| h <= mask(w)) { fls() }
                    else if let Some(c) = as_const(y) { if c == 0 { fls() } else { ult(konst(w, mask(w) / c), x) } }
                    else if let Some(c) = as_const(x) { if c == 0 { fls() } else { ult(konst(w, mask(w) / c), y) } }
                    else { let p = mul(zext(x, 2 * w), zext(y, 2 * w)); not1(eq(extract(p, w, w), konst(w, 0))) };
                    (r, o)
                }
                "sadd" | "ssub" => {
                    let (p, q) = (sext(x, w + 1), sext(y, w + 1));
                    let s = if base == "sadd" { add(p, q) } else { sub(p, q) };
                    let r = if base == "sadd" { add(x, y) } else { sub(x, y) };
                    (r, not1(eq(extract(s, w, 1), extract(s, w - 1, 1))))
                }
                "smul" if w <= 64 => {
                    // by a positive constant: compare with the limits divided by it
                    let by = [(x, y), (y, x)].into_iter().find_map(|(v, c)| as_const(c).filter(|&c| c > 0 && c >> (w - 1) == 0).map(|c| (v, c)));
                    if let Some((v, c)) = by {
                        let top = (1u128 << (w - 1)) - 1;
                        let low = konst(w, ((top + 1) / c).wrapping_neg());
                        let o = or(slt(konst(w, top / c), v), slt(v, low));
                        let o = self.simp(st, o);
                        return Some(V::A(Rc::new(vec![v_e(mul(x, y)), v_e(o)])));
                    }
                    let p = mul(sext(x, 2 * w), sext(y, 2 * w));
                    let r = extract(p, 0, w);
                    (r, not1(eq(p, sext(r, 2 * w))))
                }
                _ => { self.errors.push(format!("intrinsic {}", name)); return None; }
            };
            let o = self.simp(st, o);
            return Some(V::A(Rc::new(vec![v_e(r), v_e(o)])));
        }
        let scalar2 = |me: &mut Self, st: &mut State| (me.to_e(st, &a[0], w), me.to_e(st, &a[1], w));
        let rw = match ret { Ty::Int(w) => *w, _ => 64 };
        let r = match base {
            "umax" => { let (x, y) = scalar2(self, st); ite(ult(x, y), y, x) }
            "umin" => { let (x, y) = scalar2(self, st); ite(ult(x, y), x, y) }
            "smax" => { let (x, y) = scalar2(self, st); ite(slt(x, y), y, x) }
            "smin" => { let (x, y) = scalar2(self, st); ite(slt(x, y), x, y) }
            "uadd" if is_sat => { let (x, y) = scalar2(self, st); let r = add(x, y); ite(ult(r, x), konst(w, !0), r) }
            "usub" if is_sat => { let (x, y) = scalar2(self, st); ite(ult(x, y), konst(w, 0), sub(x, y)) }
            "abs" => { let x = self.to_e(st, &a[0], w); ite(slt(x, konst(w, 0)), neg(x), x) }
            "bswap" => {
                let x = self.to_e(st, &a[0], w);
                let n = w / 8;
                let mut r = extract(x, 0, 8);
                for i in 1..n { r = concat(r, extract(x, 8 * i, 8)); }
                r
            }
            "bitreverse" => {
                let x = self.to_e(st, &a[0], w);
                let mut r = extract(x, 0, 1);
                for i in 1..w { r = concat(r, extract(x, i, 1)); }
                r
            }
            "ctpop" => {
                let x = self.to_e(st, &a[0], w);
                let mut r = konst(w, 0);
                for i in 0..w { r = add(r, zext(extract(x, i, 1), w)); }
                r
            }
            "ctlz" => {
                let x = self.to_e(st, &a[0], w);
                let mut r = konst(w, w as u128);
                for i in 0..w { r = ite(extract(x, i, 1), konst(w, (w - 1 - i) as u128), r); }
                r
            }
            "cttz" => {
                let x = self.to_e(st, &a[0], w);
                let mut r = konst(w, w as u128);
                for i in (0..w).rev() { r = ite(extract(x, i, 1), konst(w, i as u128), r); }
                r
            }
            "fshl" | "fshr" => {
                let (x, y) = scalar2(self, st);
                let s = self.to_e(st, &a[2], w);
                let k = match as_const(urem(s, konst(w, w as u128))) { Some(k) => k as u32, None => { self.errors.push("symbolic funnel shift".into()); return None; } };
                if base == "fshl" {
                    if k == 0 { x } else { concat(extract(x, 0, w - k), extract(y, w - k, k)) }
                } else if k == 0 { y } else { concat(extract(x, 0, k), extract(y, k, w - k)) }
            }
            "ucmp" => { let (x, y) = scalar2(self, st); ite(ult(x, y), konst(rw, !0), ite(eq(x, y), konst(rw, 0), konst(rw, 1))) }
            "scmp" => { let (x, y) = scalar2(self, st); ite(slt(x, y), konst(rw, !0), ite(eq(x, y), konst(rw, 0), konst(rw, 1))) }
            "load" => { // load.relative
                let p = self.conc_v(st, &a[0], 64)?;
                let o = self.conc_v(st, &a[1], 64)?;
                let v = self.load(st, &Ty::Int(32), V::I(p.wrapping_add(o)))?;
                let e = self.to_e(st, &v, 32);
                let k = self.concretize(st, e)?;
                return Some(V::I(p.wrapping_add(sext_val(k, 32) as i64 as u64)));
            }
            "expect" => return Some(a[0].clone()),
            "is" => return Some(V::I(0)), // is.constant
            "threadlocal" => return Some(a[0].clone()),
            _ => { self.errors.push(format!("intrinsic {} in {}", name, st.frames.last().unwrap().func.demangled)); return None; }
        };
        let r = self.simp(st, r);
        Some(v_e(r))
    }
}

fn insert(ty: &Ty, a: V, v: V, idx: &[u32]) -> V {
    if idx.is_empty() { return v; }
    let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Array(n, _) => *n as usize, _ => panic!() };
    let (_, ft) = ty.field(idx[0] as u64);
    let mut f: Vec<V> = match a { V::A(x) => (*x).clone(), V::U => vec![V::U; n], V::I(0) => vec![V::I(0); n], x => panic!("insertvalue {:?}", x) };
    let old = f[idx[0] as usize].clone();
    f[idx[0] as usize] = insert(&ft, old, v, &idx[1..]);
    V::A(Rc::new(f))
}
