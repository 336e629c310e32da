//! Textual LLVM IR: module index, lazy parsing of function bodies and globals.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Label,
    Metadata,
    Func,
}

fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                if b <= 1 { 1 } else { let p = b.next_power_of_two(); if b > 16 { align_up(b, 16) } else { p } }
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f {
                    if !packed { let a = t.align(); al = al.max(a); o = align_up(o, a); }
                    o += t.size();
                }
                if *packed { o } else { align_up(o, al) }
            }
            Ty::Vector(n, t) => n * t.size(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { o = align_up(o, t.align()); }
                    if j as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Int(u128),
    Global(u32),           // symbol reference id
    Expr(Box<CExpr>),
    Undef,
    Zero,                  // zeroinitializer / null
    Agg(Vec<(Ty, Opd)>),
    Bytes(Vec<u8>),
    Meta,
}

#[derive(Clone, Debug)]
pub enum CExpr {
    Gep(Opd, Vec<(Opd, u64)>, i64),
    IntToPtr(Opd),
    PtrToInt(Opd, u32),
    Trunc(Opd, u32),
    Bin(BinOp, u32, Opd, Opd),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { dst: u32, op: BinOp, w: u32, a: Opd, b: Opd },
    ICmp { dst: u32, pred: Pred, w: u32, a: Opd, b: Opd },
    Trunc { dst: u32, w: u32, a: Opd, from: u32 },
    ZExt { dst: u32, w: u32, a: Opd, from: u32 },
    SExt { dst: u32, w: u32, a: Opd, from: u32 },
    Copy { dst: u32, a: Opd, ty: Ty },
    PtrToInt { dst: u32, w: u32, a: Opd },
    IntToPtr { dst: u32, from: u32, a: Opd },
    Select { dst: u32, ty: Ty, c: Opd, a: Opd, b: Opd },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, terms: Vec<(Opd, u32, u64)>, off: i64 },
    Alloca { dst: u32, size: u64, n: Opd },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty },
    ExtractValue { dst: u32, a: Opd, idx: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Opd, v: Opd, vty: Ty, idx: Vec<u32> },
    CmpXchg { dst: u32, ty: Ty, p: Opd, cmp: Opd, new: Opd },
    AtomicRmw { dst: u32, op: String, ty: Ty, p: Opd, v: Opd },
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Term {
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi { pub dst: u32, pub ty: Ty, pub inc: Vec<(Opd, u32)> }

#[derive(Clone, Debug)]
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<Ins>, pub term: Term, pub dbg: Vec<u32>, pub seen: std::cell::Cell<bool> }

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub demangled: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub line: usize,
    pub module: u32,
}

pub struct Module {
    pub path: String,
    pub text: String,
}

#[derive(Clone, Copy, Debug)]
pub enum Def {
    Func { module: u32, start: usize, end: usize, name_line: usize },
    Global { module: u32, start: usize, end: usize },
    Alias { module: u32, start: usize, end: usize },
}

pub struct Program {
    pub mods: Vec<Module>,
    /// definitions visible everywhere
    pub glob: HashMap<String, Def>,
    /// private/internal definitions per module
    pub local: Vec<HashMap<String, Def>>,
    /// symbol references: (module, name)
    pub syms: Vec<(u32, String)>,
    pub sym_ids: HashMap<(u32, String), u32>,
}

fn name_at(line: &str, at: usize) -> (String, usize) {
    // line[at] == '@' ; returns (name, index after)
    let b = line.as_bytes();
    let mut i = at + 1;
    if i < b.len() && b[i] == b'"' {
        i += 1;
        let s = i;
        while b[i] != b'"' { i += 1; }
        return (line[s..i].to_string(), i + 1);
    }
    let s = i;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1; }
    (line[s..i].to_string(), i)
}

impl Program {
    pub fn load(paths: &[String]) -> Program {
        let mut p = Program { mods: vec![], glob: HashMap::new(), local: vec![], syms: vec![], sym_ids: HashMap::new() };
        for path in paths {
            let text = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", path, e); std::process::exit(3) });
            let mi = p.mods.len() as u32;
            let mut local = HashMap::new();
            let mut pos = 0;
            let mut fstart: Option<(usize, String, bool, usize)> = None;
            let mut prev = usize::MAX;
            for line in text.split_inclusive('\n') {
                let start = pos;
                pos += line.len();
                if let Some((s, name, is_local, nl)) = &fstart {
                    if line.starts_with('}') {
                        let d = Def::Func { module: mi, start: *s, end: pos, name_line: *nl };
                        if *is_local { local.insert(name.clone(), d); } else { p.glob.entry(name.clone()).or_insert(d); }
                        fstart = None;
                    }
                    continue;
                }
                if line.starts_with("define ") {
                    let at = line.find('@').unwrap();
                    let (name, _) = name_at(line, at);
                    let head = &line[..at];
                    let is_local = head.contains(" internal ") || head.contains(" private ");
                    // the demangled name sits in the comment two lines above
                    fstart = Some((start, name, is_local, prev));
                    prev = usize::MAX;
                } else if line.starts_with('@') {
                    let (name, after) = name_at(line, 0);
                    let rest = &line[after..];
                    let is_local = rest.contains(" internal ") || rest.contains(" private ");
                    let is_decl = rest.starts_with(" = external ") || rest.starts_with(" = extern_weak ");
                    if is_decl { continue; }
                    // alias keyword appears before any initializer text
                    let hd: String = rest.chars().take(80).collect();
                    let d = if hd.contains(" alias ") { Def::Alias { module: mi, start, end: pos } }
                            else { Def::Global { module: mi, start, end: pos } };
                    if is_local { local.insert(name, d); } else { p.glob.entry(name).or_insert(d); }
                } else if line.starts_with("; ") {
                    if !line.starts_with("; Function Attrs") { prev = start; }
                    continue;
                }
            }
            p.local.push(local);
            p.mods.push(Module { path: path.clone(), text });
        }
        p
    }

    pub fn sym(&mut self, module: u32, name: &str) -> u32 {
        // names defined globally are shared between modules
        let key = if self.local[module as usize].contains_key(name) { (module, name.to_string()) } else { (u32::MAX, name.to_string()) };
        if let Some(&i) = self.sym_ids.get(&key) { return i; }
        let i = self.syms.len() as u32;
        self.syms.push(key.clone());
        self.sym_ids.insert(key, i);
        i
    }

    pub fn def_of(&self, sym: u32) -> Option<Def> {
        let (m, n) = &self.syms[sym as usize];
        if *m != u32::MAX { return self.local[*m as usize].get(n).copied(); }
        self.glob.get(n).copied()
    }

    pub fn name_of(&self, sym: u32) -> &str { &self.syms[sym as usize].1 }

    pub fn alias_target(&mut self, d: Def) -> u32 {
        if let Def::Alias { module, start, end } = d {
            let line = self.mods[module as usize].text[start..end].to_string();
            let at = line.rfind("ptr @").map(|i| i + 4).unwrap();
            let (name, _) = name_at(&line, at);
            return self.sym(module, &name);
        }
        panic!("not an alias")
    }

    pub fn parse_global(&mut self, d: Def) -> (Ty, Opd, bool) {
        if let Def::Global { module, start, end } = d {
            let line = self.mods[module as usize].text[start..end].to_string();
            let toks = lex(&line);
            let mut ps = Parser { t: toks, i: 0, prog: self, module, regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
            ps.next(); // name
            ps.expect("=");
            let mut konst = false;
            loop {
                match ps.peek() {
                    Tok::W(w) if w == "constant" => { konst = true; ps.i += 1; break; }
                    Tok::W(w) if w == "global" => { ps.i += 1; break; }
                    Tok::End => panic!("bad global {}", line),
                    _ => { ps.i += 1; }
                }
            }
            let ty = ps.ty();
            let v = ps.value(&ty);
            return (ty, v, konst);
        }
        panic!("not a global")
    }

    pub fn parse_func(&mut self, d: Def) -> Func {
        if let Def::Func { module, start, end, name_line } = d {
            let text = self.mods[module as usize].text[start..end].to_string();
            let dem = {
                let t = &self.mods[module as usize].text;
                if name_line != usize::MAX { t[name_line..].lines().next().unwrap_or("").trim_start_matches("; ").to_string() }
                else { let h = &t[start..end]; name_at(h, h.find('@').unwrap()).0 }
            };
            let line = self.mods[module as usize].text[..start].bytes().filter(|&b| b == b'\n').count() + 1;
            return parse_function(self, module, &text, dem, line);
        }
        panic!("not a function")
    }
}

/// Source positions behind debug locations: (file, function, line), following inlining.
pub struct DbgInfo<'a> { md: HashMap<u32, &'a str> }

fn md_ref(s: &str, key: &str) -> Option<u32> {
    let k = s.find(key)?;
    let d: String = s[k + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn md_str<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = s.find(key)? + key.len();
    let e = s[k..].find('"')?;
    Some(&s[k..k + e])
}

impl<'a> DbgInfo<'a> {
    pub fn new(text: &'a str) -> DbgInfo<'a> {
        let mut md = HashMap::new();
        for l in text.lines() {
            if !l.starts_with('!') { continue; }
            if let Some(k) = l.find(" = ") {
                if let Ok(n) = l[1..k].parse::<u32>() { md.insert(n, &l[k + 3..]); }
            }
        }
        DbgInfo { md }
    }

    pub fn resolve(&self, id: u32, out: &mut std::collections::BTreeSet<(String, String, u32)>) {
        let mut cur = Some(id);
        while let Some(i) = cur {
            let l = match self.md.get(&i) { Some(l) => *l, None => return };
            let line = md_ref(l, "line: ").unwrap_or(0);
            let mut sc = md_ref(l, "scope: !");
            while let Some(x) = sc {
                let t = match self.md.get(&x) { Some(t) => *t, None => break };
                if t.contains("DISubprogram(") {
                    let name = md_str(t, "name: \"").unwrap_or("?").to_string();
                    let f = md_ref(t, "file: !").and_then(|f| self.md.get(&f)).copied().unwrap_or("");
                    let (fname, dir) = (md_str(f, "filename: \"").unwrap_or(""), md_str(f, "directory: \"").unwrap_or(""));
                    let path = if fname.starts_with('/') { fname.to_string() } else { format!("{}/{}", dir, fname) };
                    // enclosing namespaces
                    let mut q = name;
                    let mut ns = md_ref(t, "scope: !");
                    while let Some(n) = ns {
                        let nt = match self.md.get(&n) { Some(t) => *t, None => break };
                        if let Some(nm) = md_str(nt, "name: \"") { q = format!("{}::{}", nm, q); }
                        ns = md_ref(nt, "scope: !");
                    }
                    out.insert((path, q, line));
                    break;
                }
                sc = md_ref(t, "scope: !");
            }
            cur = md_ref(l, "inlinedAt: !");
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { W(String), Loc(String), Glob(String), Num(String), Str(Vec<u8>), P(char), Meta(String), End }

pub fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => { i += 1; }
            b';' => break,
            b'%' | b'@' => {
                let loc = c == b'%';
                let (n, e) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    (line[i + 2..j].to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) { j += 1; }
                    (line[i + 1..j].to_string(), j)
                };
                out.push(if loc { Tok::Loc(n) } else { Tok::Glob(n) });
                i = e;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'!') { j += 1; }
                out.push(Tok::Meta(line[i..j].to_string()));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut s = Vec::new();
                while b[j] != b'"' {
                    if b[j] == b'\\' && b[j + 1] == b'\\' {
                        s.push(b'\\');
                        j += 2;
                    } else if b[j] == b'\\' {
                        s.push(u8::from_str_radix(&line[j + 1..j + 3], 16).unwrap());
                        j += 3;
                    } else { s.push(b[j]); j += 1; }
                }
                out.push(Tok::Str(s));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                out.push(Tok::W(line[i..=j].to_string()));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j] == b'-' && b[j - 1] == b'e')) { j += 1; }
                // labels such as "12:" are handled by the caller
                out.push(Tok::Num(line[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'#' || c == b'$' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                out.push(Tok::W(line[i..j].to_string()));
                i = j;
            }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

pub struct Parser<'a> {
    t: Vec<Tok>,
    i: usize,
    prog: &'a mut Program,
    module: u32,
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Tok { self.t.get(self.i).cloned().unwrap_or(Tok::End) }
    fn next(&mut self) -> Tok { let t = self.peek(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { matches!(self.t.get(self.i), Some(Tok::P(x)) if *x == c) }
    fn is_w(&self, s: &str) -> bool { matches!(self.t.get(self.i), Some(Tok::W(x)) if x == s) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, s: &str) -> bool { if self.is_w(s) { self.i += 1; true } else { false } }
    fn expect(&mut self, s: &str) {
        let ok = match self.next() { Tok::W(x) => x == s, Tok::P(c) => s.len() == 1 && s.starts_with(c), _ => false };
        if !ok { panic!("expected {} in {:?} at {}", s, self.t, self.i); }
    }
    fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => { d -= 1; if d == 0 { return; } }
                Tok::End => return,
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match self.t.get(self.i) {
            Some(Tok::W(w)) => matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "bfloat")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            _ => false,
        }
    }
    /// Skip attributes until a type starts.
    fn skip_attrs(&mut self) {
        while !self.is_type() {
            match self.peek() {
                Tok::W(w) => {
                    self.i += 1;
                    if w == "align" { if let Tok::Num(_) = self.peek() { self.i += 1; } }
                    if self.is_p('(') { self.skip_group(); }
                }
                Tok::Num(_) => { self.i += 1; }
                _ => panic!("attrs: {:?} at {}", self.t, self.i),
            }
        }
    }
    /// Skip attributes after a type and before an operand.
    fn skip_param_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::W(w) => {
                    match w.as_str() {
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "none"
                        | "trunc" | "sub" | "add" | "xor" | "mul" | "shl" | "bitcast" | "asm" => return,
                        _ => {}
                    }
                    if self.is_type() { return; }
                    self.i += 1;
                    if w == "align" { if let Tok::Num(_) = self.peek() { self.i += 1; } }
                    if self.is_p('(') { self.skip_group(); }
                }
                _ => return,
            }
        }
    }
    fn num_u64(&mut self) -> u64 { match self.next() { Tok::Num(s) => s.parse().unwrap(), x => panic!("num {:?} in {:?}", x, self.t) } }

    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::W(w) => match w.as_str() {
                "ptr" => Ty::Ptr,
                "void" => Ty::Void,
                "half" | "bfloat" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "label" => Ty::Label,
                "metadata" => Ty::Metadata,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                _ => panic!("type {} in {:?}", w, self.t),
            },
            Tok::P('[') => {
                let n = self.num_u64();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Array(n, Box::new(t))
            }
            Tok::P('{') => {
                let mut f = Vec::new();
                if !self.eat_p('}') {
                    loop { f.push(self.ty()); if self.eat_p('}') { break; } self.expect(","); }
                }
                Ty::Struct(f, false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut f = Vec::new();
                    if !self.eat_p('}') {
                        loop { f.push(self.ty()); if self.eat_p('}') { break; } self.expect(","); }
                    }
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.num_u64();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vector(n, Box::new(t))
                }
            }
            x => panic!("type tok {:?} in {:?}", x, self.t),
        };
        // function type "void (ptr)"
        if self.is_p('(') && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..)) {
            // only function types are followed directly by '('
            self.skip_group();
            return Ty::Func;
        }
        t
    }

    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }

    fn typed_value(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_param_attrs();
        let v = self.value(&t);
        (t, v)
    }

    fn value(&mut self, ty: &Ty) -> Opd {
        match self.next() {
            Tok::Loc(n) => Opd::Reg(self.reg(&n)),
            Tok::Glob(n) => { let m = self.module; Opd::Global(self.prog.sym(m, &n)) }
            Tok::Num(s) => {
                match ty {
                    Ty::Int(w) => {
                        let v = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse::<u128>().unwrap() };
                        Opd::Int(v & crate::expr::mask(*w))
                    }
                    _ => Opd::Undef, // floating constants are not interpreted
                }
            }
            Tok::Str(s) => Opd::Bytes(s),
            Tok::Meta(_) => Opd::Meta,
            Tok::W(w) => match w.as_str() {
                "true" => Opd::Int(1),
                "false" => Opd::Int(0),
                "null" | "zeroinitializer" | "none" => Opd::Zero,
                "undef" | "poison" => Opd::Undef,
                "getelementptr" => {
                    loop { match self.peek() { Tok::W(x) if matches!(x.as_str(), "inbounds" | "nuw" | "nusw") => { self.i += 1; } Tok::W(x) if x == "inrange" => { self.i += 1; self.skip_group(); } _ => break } }
                    self.expect("(");
                    let sty = self.ty();
                    self.expect(",");
                    let (_, base) = self.typed_value();
                    let mut idx = Vec::new();
                    while self.eat_p(',') { let (t, v) = self.typed_value(); idx.push((t, v)); }
                    self.expect(")");
                    let (terms, off) = gep_terms(&sty, &idx);
                    Opd::Expr(Box::new(CExpr::Gep(base, terms.into_iter().map(|(o, _, s)| (o, s)).collect(), off)))
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" => {
                    self.expect("(");
                    let (_, v) = self.typed_value();
                    self.expect("to");
                    let t = self.ty();
                    self.expect(")");
                    let wd = if let Ty::Int(w) = t { w } else { 64 };
                    match w.as_str() {
                        "inttoptr" => Opd::Expr(Box::new(CExpr::IntToPtr(v))),
                        "ptrtoint" => Opd::Expr(Box::new(CExpr::PtrToInt(v, wd))),
                        "trunc" => Opd::Expr(Box::new(CExpr::Trunc(v, wd))),
                        _ => v,
                    }
                }
                "sub" | "add" | "xor" | "mul" | "shl" => {
                    while let Tok::W(x) = self.peek() { if matches!(x.as_str(), "nuw" | "nsw") { self.i += 1; } else { break; } }
                    self.expect("(");
                    let (t, a) = self.typed_value();
                    self.expect(",");
                    let (_, b) = self.typed_value();
                    self.expect(")");
                    let wd = if let Ty::Int(w) = t { w } else { 64 };
                    let op = match w.as_str() { "sub" => BinOp::Sub, "add" => BinOp::Add, "xor" => BinOp::Xor, "mul" => BinOp::Mul, _ => BinOp::Shl };
                    Opd::Expr(Box::new(CExpr::Bin(op, wd, a, b)))
                }
                "splat" => { self.skip_group(); Opd::Undef }
                _ => panic!("value {} in {:?}", w, self.t),
            },
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat_p('{') { let a = self.agg('}'); self.expect(">"); a } else { self.agg('>') }
            }
            x => panic!("value tok {:?} in {:?}", x, self.t),
        }
    }

    fn agg(&mut self, end: char) -> Opd {
        let mut v = Vec::new();
        if self.eat_p(end) { return Opd::Agg(v); }
        loop {
            let (t, o) = self.typed_value();
            v.push((t, o));
            if self.eat_p(end) { break; }
            self.expect(",");
        }
        Opd::Agg(v)
    }

    fn label(&mut self) -> u32 {
        self.expect("label");
        match self.next() { Tok::Loc(n) => self.lab(&n), x => panic!("label {:?}", x) }
    }
    fn lab(&mut self, n: &str) -> u32 {
        *self.labels.get(n).unwrap_or_else(|| panic!("label {} unknown", n))
    }
}

fn gep_terms(sty: &Ty, idx: &[(Ty, Opd)]) -> (Vec<(Opd, u32, u64)>, i64) {
    let mut terms = Vec::new();
    let mut off: i64 = 0;
    let mut cur = sty.clone();
    for (k, (t, v)) in idx.iter().enumerate() {
        let w = if let Ty::Int(w) = t { *w } else { 64 };
        if k == 0 {
            let s = cur.size();
            add_term(&mut terms, &mut off, v, w, s);
        } else {
            match &cur {
                Ty::Struct(..) => {
                    let i = if let Opd::Int(i) = v { *i as u64 } else { panic!("struct gep") };
                    let (o, f) = cur.field(i);
                    off += o as i64;
                    cur = f;
                }
                Ty::Array(_, e) => {
                    let e = (**e).clone();
                    add_term(&mut terms, &mut off, v, w, e.size());
                    cur = e;
                }
                _ => panic!("gep into {:?}", cur),
            }
        }
    }
    (terms, off)
}

fn add_term(terms: &mut Vec<(Opd, u32, u64)>, off: &mut i64, v: &Opd, w: u32, s: u64) {
    if let Opd::Int(i) = v {
        let i = crate::expr::sext_val(*i, w) as i64;
        *off = off.wrapping_add(i.wrapping_mul(s as i64));
    } else if let Opd::Zero = v {
    } else {
        terms.push((v.clone(), w, s));
    }
}

fn parse_function(prog: &mut Program, module: u32, text: &str, demangled: String, line: usize) -> Func {
    let mut lines = text.lines();
    let header = lines.next().unwrap();
    let mut ps = Parser { t: lex(header), i: 0, prog, module, regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
    // header: define ... retty @name(params)
    ps.i = 1;
    ps.skip_attrs();
    let _ret = ps.ty();
    let name = match ps.next() { Tok::Glob(n) => n, x => panic!("fn name {:?}", x) };
    ps.expect("(");
    let mut nparams = 0;
    if !ps.eat_p(')') {
        loop {
            if ps.is_p('.') || ps.is_w("...") { while !ps.is_p(')') { ps.i += 1; } ps.i += 1; break; }
            let _t = ps.ty();
            ps.skip_param_attrs();
            match ps.next() {
                Tok::Loc(n) => { ps.reg(&n); }
                x => panic!("param {:?} in {}", x, header),
            }
            nparams += 1;
            if ps.eat_p(')') { break; }
            ps.expect(",");
        }
    }
    // split into blocks
    let mut blocks_txt: Vec<(String, Vec<String>)> = Vec::new();
    let mut pending: Option<String> = None; // multi-line switch
    for l in lines {
        if l.starts_with('}') { break; }
        let tl = l.trim();
        if tl.is_empty() || tl.starts_with(';') { continue; }
        if let Some(p) = pending.as_mut() {
            p.push(' ');
            p.push_str(tl);
            if tl.starts_with(']') { let s = pending.take().unwrap(); blocks_txt.last_mut().unwrap().1.push(s); }
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let end = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
            let nm = l[..end].trim_matches('"').to_string();
            blocks_txt.push((nm, vec![]));
            continue;
        }
        if blocks_txt.is_empty() {
            // implicit entry label takes the next unnamed number; never referenced by phis except as %N
            blocks_txt.push((format!("{}", nparams), vec![]));
        }
        if tl.starts_with("switch ") && tl.ends_with('[') { pending = Some(tl.to_string()); continue; }
        blocks_txt.last_mut().unwrap().1.push(tl.to_string());
    }
    for (i, (n, _)) in blocks_txt.iter().enumerate() { ps.labels.insert(n.clone(), i as u32); }
    let mut blocks = Vec::new();
    for (_, ls) in &blocks_txt {
        let mut b = Block { phis: vec![], ins: vec![], term: Term::Unreachable, dbg: vec![], seen: std::cell::Cell::new(false) };
        for l in ls {
            if l.starts_with("#dbg") { continue; }
            if let Some(k) = l.rfind("!dbg !") {
                let d: String = l[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(d) = d.parse() { if b.dbg.last() != Some(&d) { b.dbg.push(d); } }
            }
            ps.t = lex(l);
            ps.i = 0;
            parse_ins(&mut ps, l, &mut b);
        }
        blocks.push(b);
    }
    Func { name, demangled, nparams, nregs: ps.nregs, blocks, line, module }
}

fn parse_ins(ps: &mut Parser, line: &str, b: &mut Block) {
    let mut dst: Option<u32> = None;
    if let Tok::Loc(n) = ps.peek() {
        dst = Some(ps.reg(&n));
        ps.i += 1;
        ps.expect("=");
    }
    let op = match ps.next() { Tok::W(w) => w, x => panic!("ins {:?} in {}", x, line) };
    let d = dst.unwrap_or(u32::MAX);
    macro_rules! push { ($e:expr) => { b.ins.push($e) } }
    match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            while let Tok::W(w) = ps.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") { ps.i += 1; } else { break; } }
            let t = ps.ty();
            let w = match t { Ty::Int(w) => w, _ => { push!(Ins::Unsupported(line.to_string())); return; } };
            let a = ps.value(&t);
            ps.expect(",");
            let c = ps.value(&t);
            let o = match op.as_str() {
                "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
            push!(Ins::Bin { dst: d, op: o, w, a, b: c });
        }
        "icmp" => {
            ps.eat_w("samesign");
            let p = match ps.next() { Tok::W(w) => w, _ => panic!() };
            let pred = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("pred {}", p) };
            let t = ps.ty();
            let w = match t { Ty::Int(w) => w, Ty::Ptr => 64, _ => { push!(Ins::Unsupported(line.to_string())); return; } };
            let a = ps.value(&t);
            ps.expect(",");
            let c = ps.value(&t);
            push!(Ins::ICmp { dst: d, pred, w, a, b: c });
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            while let Tok::W(w) = ps.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "nneg") { ps.i += 1; } else { break; } }
            let (t, v) = ps.typed_value();
            ps.expect("to");
            let t2 = ps.ty();
            let wf = match t { Ty::Int(w) => w, Ty::Ptr => 64, _ => { push!(Ins::Unsupported(line.to_string())); return; } };
            let wt = match t2 { Ty::Int(w) => w, Ty::Ptr => 64, _ => { push!(Ins::Unsupported(line.to_string())); return; } };
            match op.as_str() {
                "trunc" => push!(Ins::Trunc { dst: d, w: wt, a: v, from: wf }),
                "zext" => push!(Ins::ZExt { dst: d, w: wt, a: v, from: wf }),
                "sext" => push!(Ins::SExt { dst: d, w: wt, a: v, from: wf }),
                "ptrtoint" | "ptrtoaddr" => push!(Ins::PtrToInt { dst: d, w: wt, a: v }),
                "inttoptr" => push!(Ins::IntToPtr { dst: d, from: wf, a: v }),
                _ => push!(Ins::Copy { dst: d, a: v, ty: t2 }),
            }
        }
        "freeze" => {
            let (t, v) = ps.typed_value();
            push!(Ins::Copy { dst: d, a: v, ty: t });
        }
        "select" => {
            let (_, c) = ps.typed_value();
            ps.expect(",");
            let (t, a) = ps.typed_value();
            ps.expect(",");
            let (_, e) = ps.typed_value();
            push!(Ins::Select { dst: d, ty: t, c, a, b: e });
        }
        "load" => {
            ps.eat_w("atomic"); ps.eat_w("volatile");
            let t = ps.ty();
            ps.expect(",");
            let (_, p) = ps.typed_value();
            push!(Ins::Load { dst: d, ty: t, p });
        }
        "store" => {
            ps.eat_w("atomic"); ps.eat_w("volatile");
            let (t, v) = ps.typed_value();
            ps.expect(",");
            let (_, p) = ps.typed_value();
            push!(Ins::Store { ty: t, v, p });
        }
        "getelementptr" => {
            while let Tok::W(w) = ps.peek() { if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") { ps.i += 1; } else { break; } }
            let sty = ps.ty();
            ps.expect(",");
            let (_, base) = ps.typed_value();
            let mut idx = Vec::new();
            while ps.eat_p(',') {
                if let Tok::Meta(_) = ps.peek() { break; }
                let (t, v) = ps.typed_value();
                idx.push((t, v));
            }
            let (terms, off) = gep_terms(&sty, &idx);
            push!(Ins::Gep { dst: d, base, terms, off });
        }
        "alloca" => {
            ps.eat_w("inalloca");
            let t = ps.ty();
            let mut n = Opd::Int(1);
            if ps.eat_p(',') {
                if ps.is_type() { let (_, v) = ps.typed_value(); n = v; }
            }
            push!(Ins::Alloca { dst: d, size: t.size(), n });
        }
        "tail" | "call" | "musttail" | "notail" => {
            if op != "call" { ps.expect("call"); }
            ps.skip_attrs();
            let ret = ps.ty();
            // varargs function type was consumed as Ty::Func
            if ps.is_w("asm") { push!(Ins::Call { dst, callee: Callee::Asm, args: vec![], ret }); return; }
            let callee = match ps.next() {
                Tok::Glob(n) => { let m = ps.module; Callee::Direct(ps.prog.sym(m, &n)) }
                Tok::Loc(n) => Callee::Indirect(Opd::Reg(ps.reg(&n))),
                Tok::W(w) if w == "inttoptr" || w == "getelementptr" => { push!(Ins::Unsupported(line.to_string())); return; }
                x => panic!("callee {:?} in {}", x, line),
            };
            ps.expect("(");
            let mut args = Vec::new();
            if !ps.eat_p(')') {
                loop {
                    let t = ps.ty();
                    if t == Ty::Metadata {
                        // skip to , or )
                        let mut dpt = 0;
                        loop {
                            match ps.peek() {
                                Tok::P('(') => { dpt += 1; ps.i += 1; }
                                Tok::P(')') if dpt == 0 => break,
                                Tok::P(')') => { dpt -= 1; ps.i += 1; }
                                Tok::P(',') if dpt == 0 => break,
                                Tok::End => break,
                                _ => { ps.i += 1; }
                            }
                        }
                        args.push((t, Opd::Meta));
                    } else {
                        ps.skip_param_attrs();
                        let v = ps.value(&t);
                        args.push((t, v));
                    }
                    if ps.eat_p(')') { break; }
                    ps.expect(",");
                }
            }
            push!(Ins::Call { dst, callee, args, ret });
        }
        "extractvalue" => {
            let (_, a) = ps.typed_value();
            let mut idx = Vec::new();
            while ps.eat_p(',') { if let Tok::Num(s) = ps.peek() { idx.push(s.parse().unwrap()); ps.i += 1; } else { break; } }
            push!(Ins::ExtractValue { dst: d, a, idx });
        }
        "insertvalue" => {
            let (t, a) = ps.typed_value();
            ps.expect(",");
            let (vt, v) = ps.typed_value();
            let mut idx = Vec::new();
            while ps.eat_p(',') { if let Tok::Num(s) = ps.peek() { idx.push(s.parse().unwrap()); ps.i += 1; } else { break; } }
            push!(Ins::InsertValue { dst: d, ty: t, a, v, vty: vt, idx });
        }
        "phi" => {
            let t = ps.ty();
            let mut inc = Vec::new();
            loop {
                ps.expect("[");
                let v = ps.value(&t);
                ps.expect(",");
                let l = match ps.next() { Tok::Loc(n) => ps.lab(&n), x => panic!("phi label {:?}", x) };
                ps.expect("]");
                inc.push((v, l));
                if !ps.eat_p(',') { break; }
                if let Tok::Meta(_) = ps.peek() { break; }
            }
            b.phis.push(Phi { dst: d, ty: t, inc });
        }
        "br" => {
            if ps.is_w("label") { let l = ps.label(); b.term = Term::Br(l); }
            else {
                let (_, c) = ps.typed_value();
                ps.expect(",");
                let x = ps.label();
                ps.expect(",");
                let y = ps.label();
                b.term = Term::CondBr(c, x, y);
            }
        }
        "switch" => {
            let (t, v) = ps.typed_value();
            ps.expect(",");
            let def = ps.label();
            ps.expect("[");
            let mut cases = Vec::new();
            while !ps.eat_p(']') {
                let (_, k) = ps.typed_value();
                ps.expect(",");
                let l = ps.label();
                match k { Opd::Int(i) => cases.push((i, l)), Opd::Zero => cases.push((0, l)), _ => panic!("case") }
            }
            let w = if let Ty::Int(w) = t { w } else { panic!() };
            b.term = Term::Switch(w, v, def, cases);
        }
        "ret" => {
            if ps.is_w("void") { b.term = Term::Ret(None); }
            else { let (t, v) = ps.typed_value(); b.term = Term::Ret(Some((t, v))); }
        }
        "unreachable" => { b.term = Term::Unreachable; }
        "fence" => {}
        "cmpxchg" => {
            ps.eat_w("weak"); ps.eat_w("volatile");
            let (_, p) = ps.typed_value();
            ps.expect(",");
            let (t, c) = ps.typed_value();
            ps.expect(",");
            let (_, n) = ps.typed_value();
            push!(Ins::CmpXchg { dst: d, ty: t, p, cmp: c, new: n });
        }
        "atomicrmw" => {
            ps.eat_w("volatile");
            let o = match ps.next() { Tok::W(w) => w, _ => panic!() };
            let (_, p) = ps.typed_value();
            ps.expect(",");
            let (t, v) = ps.typed_value();
            push!(Ins::AtomicRmw { dst: d, op: o, ty: t, p, v });
        }
        _ => {
            if matches!(op.as_str(), "invoke" | "resume" | "indirectbr" | "callbr") { b.term = Term::Unsupported(line.to_string()); }
            else { push!(Ins::Unsupported(line.to_string())); }
        }
    }
}
