//! LLVM textual IR: module index and per-function decoding (lazy).

use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vector(u64, TyId),
    Label,
    Metadata,
    Func,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(u64),      // scalar constant, <= 64 bits
    C(Rc<CVal>), // aggregates, wide integers
}

#[derive(Clone, Debug)]
pub enum CVal {
    K(u64),
    Big(u128),
    Agg(Vec<CVal>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Same,    // ptrtoint/inttoptr of equal width
    Bitcast, // may involve vectors
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Extern(Rc<str>),
    Indirect(Opd),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { d: u32, op: BinOp, ty: TyId, w: u32, a: Opd, b: Opd },
    Icmp { d: u32, p: Pred, ty: TyId, w: u32, a: Opd, b: Opd },
    Cast { d: u32, op: Cast, from: TyId, to: TyId, wf: u32, wt: u32, a: Opd },
    Select { d: u32, ty: TyId, w: u32, c: Opd, cvec: bool, a: Opd, b: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> }, // (index, index width, scale)
    Load { d: u32, ty: TyId, size: u32, p: Opd },
    Store { ty: TyId, size: u32, v: Opd, p: Opd },
    Alloca { d: u32, size: u64, count: Opd },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, cases: Vec<(u64, u32)>, def: u32 },
    Ret { v: Option<Opd>, w: u32 },
    Unreachable,
    Call { d: Option<u32>, ret: TyId, callee: Callee, args: Vec<(Opd, TyId)>, normal: Option<u32> },
    ExtractValue { d: u32, a: Opd, path: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Vec<Option<u32>> },
    Copy { d: u32, a: Opd }, // freeze
    Rmw { d: u32, op: Rc<str>, w: u32, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, p: Opd, cmp: Opd, new: Opd },
    Nop,
    Unsupported(Rc<str>),
}

pub struct Block {
    pub start: u32, // first instruction (phis excluded)
    pub phis: Vec<(u32, u32)>, // (register, width)
    pub phi_in: HashMap<u32, Vec<Opd>>, // predecessor block -> values
}

pub struct Function {
    pub idx: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>, // !dbg id per instruction (0 = none)
    pub blocks: Vec<Block>,
    pub block_of: Vec<u32>, // instruction -> block
    pub ipdom: Vec<u32>,    // immediate post-dominator block (u32::MAX: none)
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub head: (usize, usize),
    pub parsed: Option<Rc<Function>>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

#[derive(Clone, Copy)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Module {
    pub text: &'static str,
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<Global>,
    pub syms: HashMap<String, Sym>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub weak: HashMap<String, bool>,
}

pub const FUNC_BASE: u64 = 1; // object id of function 0

impl Module {
    pub fn func_addr(&self, i: u32) -> u64 {
        (FUNC_BASE + i as u64) << 32
    }
    pub fn global_addr(&self, i: u32) -> u64 {
        (FUNC_BASE + self.funcs.len() as u64 + i as u64) << 32
    }
    pub fn first_free_obj(&self) -> u32 {
        FUNC_BASE as u32 + self.funcs.len() as u32 + self.globals.len() as u32
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }

    pub fn align_of(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, e) => self.align_of(*e),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align_of(*x)).max().unwrap_or(1)
                }
            }
            Ty::Vector(_, _) => self.size_of(t).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size_of(t),
        }
    }
    pub fn size_of(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align_of(t);
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, e) => n * self.size_of(*e),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f {
                    if !packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size_of(*x);
                }
                let a = self.align_of(t);
                (o + a - 1) / a * a
            }
            Ty::Vector(n, e) => {
                let b = match &self.types[*e as usize] {
                    Ty::Int(w) => *w as u64,
                    _ => self.size_of(*e) * 8,
                };
                (n * b + 7) / 8
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    if !packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, *x);
                    }
                    o += self.size_of(*x);
                }
                panic!("field")
            }
            Ty::Array(_, e) => (self.size_of(*e) * i as u64, *e),
            Ty::Vector(_, e) => (self.size_of(*e) * i as u64, *e),
            _ => panic!("field_off"),
        }
    }
    /// Scalar width in bits (0 for aggregates).
    pub fn width(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }

    pub fn load(text: String) -> Module {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            text,
            types: vec![],
            tymap: HashMap::new(),
            funcs: vec![],
            globals: vec![],
            syms: HashMap::new(),
            meta: HashMap::new(),
            weak: HashMap::new(),
        };
        let mut gl: Vec<(usize, usize)> = vec![];
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let end = memchr(b, pos, b'\n');
            match b[pos] {
                b'@' => gl.push((pos, end)),
                b'd' if text[pos..end].starts_with("define ") => {
                    let name = sym_name(&text[pos..end]);
                    // body until a line starting with '}'
                    let mut p = end + 1;
                    let start = p;
                    while b[p] != b'}' {
                        p = memchr(b, p, b'\n') + 1;
                    }
                    m.syms.insert(name.clone(), Sym::F(m.funcs.len() as u32));
                    m.funcs.push(FuncDecl { name, body: Some((start, p)), head: (pos, end), parsed: None });
                    pos = memchr(b, p, b'\n') + 1;
                    continue;
                }
                b'd' if text[pos..end].starts_with("declare ") => {
                    let line = &text[pos..end];
                    let name = sym_name(line);
                    if line.contains("extern_weak") {
                        m.weak.insert(name.clone(), true);
                    }
                    m.syms.insert(name.clone(), Sym::F(m.funcs.len() as u32));
                    m.funcs.push(FuncDecl { name, body: None, head: (pos, end), parsed: None });
                }
                b'!' => {
                    let mut q = pos + 1;
                    let mut n = 0u32;
                    while b[q].is_ascii_digit() {
                        n = n * 10 + (b[q] - b'0') as u32;
                        q += 1;
                    }
                    if q > pos + 1 {
                        m.meta.insert(n, (q, end));
                    }
                }
                _ => {}
            }
            pos = end + 1;
        }
        for &(s, _) in &gl {
            let mut p = P { t: text, i: s, m: &mut m };
            p.i += 1;
            let name = p.name();
            let i = p.m.globals.len() as u32;
            p.m.syms.insert(name.clone(), Sym::G(i));
            p.m.globals.push(Global { name, size: 0, data: vec![], constant: false, external: false });
        }
        for (i, &(s, e)) in gl.iter().enumerate() {
            let mut p = P { t: text, i: s + 1, m: &mut m };
            p.name();
            p.expect("=");
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                p.ws();
                let w = p.peek_word();
                match w {
                    "constant" => {
                        constant = true;
                        p.i += w.len();
                        break;
                    }
                    "global" => {
                        p.i += w.len();
                        break;
                    }
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.i += w.len();
                    }
                    "" => panic!("global: {}", &text[s..e]),
                    _ => {
                        p.i += w.len();
                        p.ws();
                        if p.c() == b'(' {
                            p.skip_paren();
                        }
                    }
                }
            }
            if alias {
                continue;
            }
            let ty = p.ty();
            let size = p.m.size_of(ty);
            let mut data = vec![0u8; size as usize];
            if !external {
                let v = p.cval(ty);
                let v = match v {
                    Some(v) => v,
                    None => panic!("global init: {}", &text[s..e.min(s + 300)]),
                };
                m.write_const(ty, &v, &mut data, 0);
            }
            let g = &mut m.globals[i];
            g.size = size;
            g.data = data;
            g.constant = constant;
            g.external = external;
        }
        m
    }

    fn write_const(&self, ty: TyId, v: &CVal, out: &mut [u8], off: usize) {
        match v {
            CVal::K(k) => {
                let n = self.store_size(ty) as usize;
                let by = (*k as u128).to_le_bytes();
                if *k == 0 {
                    return; // zeroinitializer of anything
                }
                out[off..off + n].copy_from_slice(&by[..n]);
            }
            CVal::Big(k) => {
                let n = self.store_size(ty) as usize;
                out[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
            CVal::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = self.field_off(ty, i);
                    self.write_const(t, x, out, off + o as usize);
                }
            }
        }
    }

    pub fn function(&mut self, i: u32) -> Option<Rc<Function>> {
        if let Some(f) = &self.funcs[i as usize].parsed {
            return Some(f.clone());
        }
        let (s, e) = self.funcs[i as usize].body?;
        let head = self.funcs[i as usize].head;
        let f = Rc::new(parse_function(self, i, head, s, e));
        self.funcs[i as usize].parsed = Some(f.clone());
        Some(f)
    }

    pub fn meta_text(&self, n: u32) -> &'static str {
        match self.meta.get(&n) {
            Some(&(s, e)) => &self.text[s..e],
            None => "",
        }
    }

    /// (file, line, enclosing function) of a debug location, innermost frame.
    pub fn location(&self, n: u32) -> Option<(String, u32, String)> {
        let t = self.meta_text(n);
        if !t.contains("DILocation") {
            return None;
        }
        let line = field(t, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut scope: u32 = field(t, "scope: !").and_then(|x| x.parse().ok())?;
        loop {
            let s = self.meta_text(scope);
            if s.contains("DISubprogram") {
                let name = quoted(s, "name: ").unwrap_or_default();
                let f: u32 = field(s, "file: !").and_then(|x| x.parse().ok())?;
                let ft = self.meta_text(f);
                let fname = quoted(ft, "filename: ").unwrap_or_default();
                let dir = quoted(ft, "directory: ").unwrap_or_default();
                let path = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                return Some((path, line, name));
            }
            scope = field(s, "scope: !").and_then(|x| x.parse().ok())?;
        }
    }
    pub fn inlined_at(&self, n: u32) -> Option<u32> {
        field(self.meta_text(n), "inlinedAt: !").and_then(|x| x.parse().ok())
    }
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let i = t.find(k)? + k.len();
    let r = &t[i..];
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    Some(&r[..e])
}
fn quoted(t: &str, k: &str) -> Option<String> {
    let i = t.find(k)? + k.len();
    let r = &t[i..];
    let r = r.strip_prefix('"')?;
    Some(r[..r.find('"')?].to_string())
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

fn sym_name(line: &str) -> String {
    let i = line.find('@').unwrap() + 1;
    let r = &line[i..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap();
        r[..e].to_string()
    }
}

struct P<'m> {
    t: &'static str,
    i: usize,
    m: &'m mut Module,
}

impl<'m> P<'m> {
    #[inline]
    fn c(&self) -> u8 {
        *self.t.as_bytes().get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while self.c() == b' ' || self.c() == b'\t' {
            self.i += 1;
        }
    }
    fn ws_nl(&mut self) {
        while matches!(self.c(), b' ' | b'\t' | b'\n') {
            self.i += 1;
        }
    }
    fn rest(&self) -> &'static str {
        &self.t[self.i..]
    }
    fn line(&self) -> &'static str {
        let r = self.rest();
        &r[..r.find('\n').unwrap_or(r.len())]
    }
    fn peek_word(&self) -> &'static str {
        let b = self.t.as_bytes();
        let mut j = self.i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
            j += 1;
        }
        &self.t[self.i..j]
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        if self.rest().starts_with(s) {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, s: &str) -> bool {
        self.ws();
        if self.peek_word() == s {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    #[track_caller]
    fn expect(&mut self, s: &str) {
        if !self.eat(s) {
            panic!("IR: expected {:?} at {:?}", s, &self.line().chars().take(120).collect::<String>());
        }
    }
    fn name(&mut self) -> String {
        if self.c() == b'"' {
            let r = &self.rest()[1..];
            let e = r.find('"').unwrap();
            self.i += e + 2;
            r[..e].to_string()
        } else {
            let b = self.t.as_bytes();
            let s = self.i;
            while self.i < b.len()
                && (b[self.i].is_ascii_alphanumeric() || matches!(b[self.i], b'_' | b'.' | b'$' | b'-'))
            {
                self.i += 1;
            }
            self.t[s..self.i].to_string()
        }
    }
    fn int(&mut self) -> Option<i128> {
        self.ws();
        let b = self.t.as_bytes();
        let s = self.i;
        let mut j = s;
        if b[j] == b'-' {
            j += 1;
        }
        let d = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if j == d {
            return None;
        }
        self.i = j;
        let t = &self.t[s..j];
        Some(t.parse::<i128>().unwrap_or_else(|_| t.parse::<u128>().unwrap() as i128))
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.c() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.c() != b'"' {
                        self.i += 1;
                    }
                }
                0 => panic!("paren"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.c() {
            b'{' | b'[' | b'<' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "half" | "float" | "double" | "x86_fp80" | "fp128" | "label" | "metadata")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> TyId {
        self.ws();
        let t = match self.c() {
            b'{' => {
                self.i += 1;
                let f = self.tys("}");
                Ty::Struct(f, false)
            }
            b'[' => {
                self.i += 1;
                let n = self.int().unwrap() as u64;
                self.expect("x");
                let e = self.ty();
                self.expect("]");
                Ty::Array(n, e)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.c() == b'{' {
                    self.i += 1;
                    let f = self.tys("}");
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.int().unwrap() as u64;
                    self.expect("x");
                    let e = self.ty();
                    self.expect(">");
                    Ty::Vector(n, e)
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "x86_fp80" | "fp128" => Ty::Float(128),
                    "label" => Ty::Label,
                    "metadata" => Ty::Metadata,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type {:?} in {}", w, &self.line()[..self.line().len().min(100)]),
                }
            }
        };
        let mut id = self.m.ty(t);
        // function type: ty (args...)
        self.ws();
        if self.c() == b'(' && self.fnty_ok() {
            self.skip_paren();
            let _ = id;
            id = self.m.ty(Ty::Func);
        }
        id
    }
    fn fnty_ok(&self) -> bool {
        false
    }
    fn tys(&mut self, close: &str) -> Vec<TyId> {
        let mut f = vec![];
        if self.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(close) {
                return f;
            }
            self.expect(",");
        }
    }

    fn sym_addr(&mut self) -> u64 {
        // at '@'
        self.i += 1;
        let n = self.name();
        match self.m.syms.get(&n) {
            Some(Sym::F(i)) => {
                if self.m.weak.contains_key(&n) && self.m.funcs[*i as usize].body.is_none() {
                    return 0;
                }
                self.m.func_addr(*i)
            }
            Some(Sym::G(i)) => self.m.global_addr(*i),
            None => panic!("unknown symbol {}", n),
        }
    }

    /// A constant of the given type; None when it is not a constant.
    fn cval(&mut self, ty: TyId) -> Option<CVal> {
        self.ws();
        let t = self.m.types[ty as usize].clone();
        match self.c() {
            b'%' => None,
            b'@' => Some(CVal::K(self.sym_addr())),
            b'0'..=b'9' | b'-' => {
                if let Ty::Float(w) = t {
                    // decimal or hex float
                    let s = self.i;
                    while !matches!(self.c(), b',' | b' ' | b'\n' | b']' | b'}' | b')') {
                        self.i += 1;
                    }
                    let tx = &self.t[s..self.i];
                    let f: f64 = if let Some(h) = tx.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
                    } else {
                        tx.parse().unwrap_or(0.0)
                    };
                    return Some(CVal::K(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() }));
                }
                let v = self.int()?;
                let w = self.m.width(ty);
                if w > 64 {
                    Some(CVal::Big(v as u128 & crate::expr::mask128(w)))
                } else {
                    Some(CVal::K(v as u64 & crate::expr::mask(w)))
                }
            }
            b'c' if self.rest().starts_with("c\"") => {
                self.i += 2;
                let b = self.t.as_bytes();
                let mut out = vec![];
                while b[self.i] != b'"' {
                    if b[self.i] == b'\\' {
                        if b[self.i + 1] == b'\\' {
                            out.push(CVal::K(b'\\' as u64));
                            self.i += 2;
                        } else {
                            let h = u8::from_str_radix(&self.t[self.i + 1..self.i + 3], 16).unwrap();
                            out.push(CVal::K(h as u64));
                            self.i += 3;
                        }
                    } else {
                        out.push(CVal::K(b[self.i] as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Some(CVal::Agg(out))
            }
            b'[' => {
                self.i += 1;
                self.agg("]")
            }
            b'{' => {
                self.i += 1;
                self.agg("}")
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.c() == b'{' {
                    self.i += 1;
                    let v = self.agg("}")?;
                    self.expect(">");
                    Some(v)
                } else {
                    self.agg(">")
                }
            }
            _ => {
                let s = self.i;
                let w = self.word();
                match w {
                    "true" => Some(CVal::K(1)),
                    "false" => Some(CVal::K(0)),
                    "null" | "none" => Some(CVal::K(0)),
                    "undef" | "poison" | "zeroinitializer" => Some(self.m.zero(ty)),
                    "splat" => {
                        self.expect("(");
                        let et = self.ty();
                        let v = self.cval(et)?;
                        self.expect(")");
                        match t {
                            Ty::Vector(n, _) => Some(CVal::Agg(vec![v; n as usize])),
                            _ => panic!("splat"),
                        }
                    }
                    "getelementptr" => {
                        while !self.eat("(") {
                            self.ws();
                            let k = self.peek_word().len();
                            self.i += k;
                            self.ws();
                            if self.rest().starts_with("inrange") {
                                self.i += 7;
                            }
                        }
                        let ety = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let b = match self.cval(bt)? {
                            CVal::K(k) => k,
                            _ => panic!("gep base"),
                        };
                        let mut off = 0u64;
                        let mut cur = ety;
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty();
                            let wi = self.m.width(it);
                            let k = match self.cval(it)? {
                                CVal::K(k) => crate::expr::sx(k as u128, wi) as i64 as u64,
                                _ => panic!("gep idx"),
                            };
                            if first {
                                off = off.wrapping_add(k.wrapping_mul(self.m.size_of(cur)));
                                first = false;
                            } else {
                                let (o, t2) = self.m.field_off(cur, 0);
                                let _ = o;
                                if let Ty::Struct(..) = self.m.types[cur as usize] {
                                    let (o, t3) = self.m.field_off(cur, k as usize);
                                    off = off.wrapping_add(o);
                                    cur = t3;
                                } else {
                                    off = off.wrapping_add(k.wrapping_mul(self.m.size_of(t2)));
                                    cur = t2;
                                }
                            }
                        }
                        self.expect(")");
                        Some(CVal::K(b.wrapping_add(off)))
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "ptrtoaddr" => {
                        self.expect("(");
                        let ft = self.ty();
                        let v = self.cval(ft)?;
                        self.expect("to");
                        let tt = self.ty();
                        self.expect(")");
                        let w = self.m.width(tt);
                        match v {
                            CVal::K(k) => Some(CVal::K(k & crate::expr::mask(w))),
                            v => Some(v),
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while !self.eat("(") {
                            self.word();
                        }
                        let at = self.ty();
                        let a = self.cval(at)?;
                        self.expect(",");
                        let bt = self.ty();
                        let b = self.cval(bt)?;
                        self.expect(")");
                        match (a, b) {
                            (CVal::K(a), CVal::K(b)) => Some(CVal::K(match w {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            })),
                            _ => panic!("constexpr"),
                        }
                    }
                    _ => {
                        self.i = s;
                        None
                    }
                }
            }
        }
    }
    fn agg(&mut self, close: &str) -> Option<CVal> {
        let mut v = vec![];
        if self.eat(close) {
            return Some(CVal::Agg(v));
        }
        loop {
            let t = self.ty();
            v.push(self.cval(t)?);
            if self.eat(close) {
                return Some(CVal::Agg(v));
            }
            self.expect(",");
        }
    }
}

impl Module {
    pub fn zero(&self, ty: TyId) -> CVal {
        match &self.types[ty as usize] {
            Ty::Int(w) if *w > 64 => CVal::Big(0),
            Ty::Array(n, e) => CVal::Agg(vec![self.zero(*e); *n as usize]),
            Ty::Vector(n, e) => CVal::Agg(vec![self.zero(*e); *n as usize]),
            Ty::Struct(f, _) => CVal::Agg(f.iter().map(|x| self.zero(*x)).collect()),
            _ => CVal::K(0),
        }
    }
}

struct FnP<'m> {
    p: P<'m>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'m> FnP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, ty: TyId) -> Opd {
        self.p.ws();
        if self.p.c() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Opd::Reg(self.reg(&n));
        }
        match self.p.cval(ty) {
            Some(CVal::K(k)) => Opd::K(k),
            Some(v) => Opd::C(Rc::new(v)),
            None => panic!("operand: {}", &self.p.line()[..self.p.line().len().min(120)]),
        }
    }
    fn typed(&mut self) -> (TyId, Opd) {
        let t = self.p.ty();
        let o = self.opd(t);
        (t, o)
    }
    fn lab(&mut self) -> u32 {
        self.p.expect("label");
        self.p.expect("%");
        let n = self.p.name();
        self.label(&n)
    }
    fn skip_words(&mut self, ws: &[&str]) {
        loop {
            self.p.ws();
            let w = self.p.peek_word();
            if ws.contains(&w) {
                self.p.i += w.len();
            } else {
                break;
            }
        }
    }
    fn skip_attrs(&mut self) {
        // words / word(...) / align N / "str"="str" until a value or type starts
        loop {
            self.p.ws();
            match self.p.c() {
                b'%' | b'@' | b'{' | b'[' | b'<' | b')' | b',' | b'-' | b'0'..=b'9' => return,
                b'"' => {
                    self.p.name();
                    if self.p.eat("=") {
                        self.p.ws();
                        self.p.name();
                    }
                    continue;
                }
                b'#' => {
                    self.p.i += 1;
                    self.p.int();
                    continue;
                }
                _ => {}
            }
            let w = self.p.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "splat" | "asm" | "none" | "sub" | "add" | "trunc" | "" => return,
                "c" => return,
                "align" => {
                    self.p.i += 5;
                    self.p.int();
                }
                _ => {
                    self.p.i += w.len();
                    self.p.ws();
                    if self.p.c() == b'(' {
                        self.p.skip_paren();
                    }
                }
            }
        }
    }
}

fn dbg_of(line: &str) -> u32 {
    match line.rfind("!dbg !") {
        Some(i) => field(&line[i..], "!dbg !").and_then(|x| x.parse().ok()).unwrap_or(0),
        None => 0,
    }
}

fn parse_function(m: &mut Module, idx: u32, head: (usize, usize), start: usize, end: usize) -> Function {
    let text = m.text;
    // parameter names: find the '(' after the symbol name, then collect %names at depth 1
    let hl = &text[head.0..head.1];
    let at = hl.find('@').unwrap();
    let mut f = FnP { p: P { t: text, i: head.0 + at + 1, m }, regs: HashMap::new(), labels: HashMap::new() };
    f.p.name();
    let mut nparams = 0;
    let mut unnamed = 0;
    {
        f.p.expect("(");
        let b = text.as_bytes();
        let mut d = 1;
        let mut i = f.p.i;
        while d > 0 {
            match b[i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                }
                b'%' if d == 1 => {
                    f.p.i = i + 1;
                    let n = f.p.name();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = f.reg(&n);
                    assert_eq!(r, nparams);
                    nparams += 1;
                    i = f.p.i;
                    continue;
                }
                _ => {}
            }
            i += 1;
        }
    }
    let mut insts: Vec<Inst> = vec![];
    let mut dbg: Vec<u32> = vec![];
    struct RawBlock {
        label: u32,
        start: u32,
        phis: Vec<(u32, u32, Vec<(Opd, u32)>)>,
    }
    let mut blocks: Vec<RawBlock> = vec![];
    let b = text.as_bytes();
    f.p.i = start;
    let mut first = true;
    while f.p.i < end {
        let line = f.p.line();
        let ls = f.p.i;
        let le = ls + line.len();
        if line.is_empty() {
            f.p.i = le + 1;
            continue;
        }
        if !line.starts_with(' ') {
            // label
            if let Some(c) = line.find(':') {
                let n = line[..c].trim_matches('"').to_string();
                let l = f.label(&n);
                blocks.push(RawBlock { label: l, start: insts.len() as u32, phis: vec![] });
                first = false;
            }
            f.p.i = le + 1;
            continue;
        }
        if first {
            let l = f.label(&unnamed.to_string());
            blocks.push(RawBlock { label: l, start: 0, phis: vec![] });
            first = false;
        }
        f.p.ws();
        if f.p.rest().starts_with("#dbg_") {
            f.p.i = le + 1;
            continue;
        }
        let mut d: Option<u32> = None;
        if f.p.c() == b'%' {
            f.p.i += 1;
            let n = f.p.name();
            d = Some(f.reg(&n));
            f.p.expect("=");
            f.p.ws();
        }
        let op = f.p.word();
        let mut dl = dbg_of(line);
        let inst = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" => {
                f.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
                let (ty, a) = f.typed();
                f.p.expect(",");
                let b = f.opd(ty);
                let bo = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Inst::Bin { d: d.unwrap(), op: bo, ty, w: f.p.m.width(ty), a, b }
            }
            "icmp" => {
                f.skip_words(&["samesign"]);
                let p = match f.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                };
                let (ty, a) = f.typed();
                f.p.expect(",");
                let b = f.opd(ty);
                Inst::Icmp { d: d.unwrap(), p, ty, w: f.p.m.width(ty), a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                f.skip_words(&["nneg", "nuw", "nsw"]);
                let (from, a) = f.typed();
                f.p.expect("to");
                let to = f.p.ty();
                let (wf, wt) = (f.p.m.width(from), f.p.m.width(to));
                let c = match op {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bitcast,
                    _ => {
                        if wf == wt {
                            Cast::Same
                        } else if wf < wt {
                            Cast::Zext
                        } else {
                            Cast::Trunc
                        }
                    }
                };
                Inst::Cast { d: d.unwrap(), op: c, from, to, wf, wt, a }
            }
            "select" => {
                let (ct, c) = f.typed();
                f.p.expect(",");
                let (ty, a) = f.typed();
                f.p.expect(",");
                let (_, b) = f.typed();
                let cvec = matches!(f.p.m.types[ct as usize], Ty::Vector(..));
                Inst::Select { d: d.unwrap(), ty, w: f.p.m.width(ty), c, cvec, a, b }
            }
            "getelementptr" => {
                loop {
                    f.skip_words(&["inbounds", "nuw", "nusw"]);
                    if f.p.rest().starts_with("inrange") {
                        f.p.i += 7;
                        f.p.skip_paren();
                    } else {
                        break;
                    }
                }
                let ety = f.p.ty();
                f.p.expect(",");
                let (_, base) = f.typed();
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = ety;
                let mut firsti = true;
                while f.p.eat(",") {
                    f.p.ws();
                    if f.p.c() == b'!' {
                        break;
                    }
                    let (it, o) = f.typed();
                    let wi = f.p.m.width(it);
                    if !firsti {
                        if let Ty::Struct(..) = f.p.m.types[cur as usize] {
                            match o {
                                Opd::K(k) => {
                                    let (fo, t) = f.p.m.field_off(cur, k as usize);
                                    off = off.wrapping_add(fo);
                                    cur = t;
                                }
                                _ => panic!("struct gep"),
                            }
                            continue;
                        }
                        cur = f.p.m.field_off(cur, 0).1;
                    }
                    firsti = false;
                    let sc = f.p.m.size_of(cur);
                    match o {
                        Opd::K(k) => {
                            off = off.wrapping_add((crate::expr::sx(k as u128, wi) as i64 as u64).wrapping_mul(sc))
                        }
                        o => idx.push((o, wi, sc)),
                    }
                }
                Inst::Gep { d: d.unwrap(), base, off, idx }
            }
            "load" => {
                f.skip_words(&["atomic", "volatile"]);
                let ty = f.p.ty();
                f.p.expect(",");
                let (_, p) = f.typed();
                let size = f.p.m.store_size(ty) as u32;
                Inst::Load { d: d.unwrap(), ty, size, p }
            }
            "store" => {
                f.skip_words(&["atomic", "volatile"]);
                let (ty, v) = f.typed();
                f.p.expect(",");
                let (_, p) = f.typed();
                let size = f.p.m.store_size(ty) as u32;
                Inst::Store { ty, size, v, p }
            }
            "alloca" => {
                let ty = f.p.ty();
                let size = f.p.m.size_of(ty);
                let mut count = Opd::K(1);
                if f.p.eat(",") {
                    f.p.ws();
                    if f.p.at_type() {
                        count = f.typed().1;
                    }
                }
                Inst::Alloca { d: d.unwrap(), size, count }
            }
            "phi" => {
                let ty = f.p.ty();
                let w = f.p.m.width(ty);
                let mut ins = vec![];
                loop {
                    f.p.expect("[");
                    let v = f.opd(ty);
                    f.p.expect(",");
                    f.p.expect("%");
                    let n = f.p.name();
                    let l = f.label(&n);
                    f.p.expect("]");
                    ins.push((v, l));
                    let save = f.p.i;
                    if !f.p.eat(",") {
                        break;
                    }
                    f.p.ws();
                    if f.p.c() != b'[' {
                        f.p.i = save;
                        break;
                    }
                }
                blocks.last_mut().unwrap().phis.push((d.unwrap(), w, ins));
                f.p.i = le + 1;
                continue;
            }
            "br" => {
                f.p.ws();
                if f.p.rest().starts_with("label") {
                    Inst::Br { t: f.lab() }
                } else {
                    let (_, c) = f.typed();
                    f.p.expect(",");
                    let t = f.lab();
                    f.p.expect(",");
                    let e = f.lab();
                    Inst::CondBr { c, t, f: e }
                }
            }
            "switch" => {
                let (ty, v) = f.typed();
                f.p.expect(",");
                let def = f.lab();
                f.p.expect("[");
                let mut cases = vec![];
                loop {
                    f.p.ws_nl();
                    if f.p.c() == b']' {
                        f.p.i += 1;
                        break;
                    }
                    let (_, k) = f.typed();
                    f.p.expect(",");
                    let l = f.lab();
                    match k {
                        Opd::K(k) => cases.push((k, l)),
                        _ => panic!("switch case"),
                    }
                }
                dl = dbg_of(f.p.line());
                let e = f.p.line().len();
                f.p.i += e + 1;
                let inst = Inst::Switch { w: f.p.m.width(ty), v, cases, def };
                insts.push(inst);
                dbg.push(dl);
                continue;
            }
            "ret" => {
                let t = f.p.ty();
                if f.p.m.types[t as usize] == Ty::Void {
                    Inst::Ret { v: None, w: 0 }
                } else {
                    let w = f.p.m.width(t);
                    Inst::Ret { v: Some(f.opd(t)), w }
                }
            }
            "unreachable" => Inst::Unreachable,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    f.p.expect("call");
                }
                while !f.p.at_type() {
                    let before = f.p.i;
                    let w = f.p.word();
                    f.p.ws();
                    if f.p.c() == b'(' {
                        f.p.skip_paren();
                    }
                    if w == "align" {
                        f.p.int();
                    }
                    if f.p.i == before {
                        panic!("call: {}", &line[..line.len().min(160)]);
                    }
                }
                let ret = f.p.ty();
                f.p.ws();
                if f.p.c() == b'(' {
                    f.p.skip_paren(); // vararg function type
                    f.p.ws();
                }
                let callee = match f.p.c() {
                    b'@' => {
                        f.p.i += 1;
                        let n = f.p.name();
                        match f.p.m.syms.get(&n) {
                            Some(Sym::F(i)) if f.p.m.funcs[*i as usize].body.is_some() => Callee::Func(*i),
                            _ => Callee::Extern(n.as_str().into()),
                        }
                    }
                    b'%' => {
                        f.p.i += 1;
                        let n = f.p.name();
                        let r = f.reg(&n);
                        Callee::Indirect(Opd::Reg(r))
                    }
                    _ if f.p.peek_word() == "asm" => {
                        f.p.word();
                        f.skip_words(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                        f.p.ws();
                        let n = f.p.name();
                        f.p.expect(",");
                        f.p.ws();
                        f.p.name();
                        Callee::Asm(n.as_str().into())
                    }
                    _ => {
                        let t = f.p.m.ty(Ty::Ptr);
                        let o = f.opd(t);
                        Callee::Indirect(o)
                    }
                };
                f.p.expect("(");
                let mut args = vec![];
                if !f.p.eat(")") {
                    loop {
                        f.p.ws();
                        if f.p.eat_word("metadata") {
                            // skip to , or ) at depth 0
                            let mut d = 0;
                            while !(d == 0 && matches!(f.p.c(), b',' | b')')) {
                                match f.p.c() {
                                    b'(' => d += 1,
                                    b')' => d -= 1,
                                    _ => {}
                                }
                                f.p.i += 1;
                            }
                        } else {
                            let t = f.p.ty();
                            f.skip_attrs();
                            let o = f.opd(t);
                            args.push((o, t));
                        }
                        if f.p.eat(")") {
                            break;
                        }
                        f.p.expect(",");
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    // "to label %a unwind label %b", possibly on the next line
                    loop {
                        f.p.ws_nl();
                        if f.p.rest().starts_with("to label") {
                            break;
                        }
                        f.p.i += 1;
                    }
                    f.p.expect("to");
                    normal = Some(f.lab());
                    dl = dbg_of(f.p.line());
                    let e = f.p.line().len();
                    insts.push(Inst::Call { d, ret, callee, args, normal });
                    dbg.push(dl);
                    f.p.i += e + 1;
                    continue;
                }
                Inst::Call { d, ret, callee, args, normal }
            }
            "extractvalue" => {
                let (_, a) = f.typed();
                let mut path = vec![];
                while f.p.eat(",") {
                    f.p.ws();
                    if f.p.c() == b'!' {
                        break;
                    }
                    path.push(f.p.int().unwrap() as u32);
                }
                Inst::ExtractValue { d: d.unwrap(), a, path }
            }
            "insertvalue" => {
                let (_, a) = f.typed();
                f.p.expect(",");
                let (_, v) = f.typed();
                let mut path = vec![];
                while f.p.eat(",") {
                    f.p.ws();
                    if f.p.c() == b'!' {
                        break;
                    }
                    path.push(f.p.int().unwrap() as u32);
                }
                Inst::InsertValue { d: d.unwrap(), a, v, path }
            }
            "extractelement" => {
                let (_, a) = f.typed();
                f.p.expect(",");
                let (_, i) = f.typed();
                Inst::ExtractElem { d: d.unwrap(), a, i }
            }
            "insertelement" => {
                let (_, a) = f.typed();
                f.p.expect(",");
                let (_, v) = f.typed();
                f.p.expect(",");
                let (_, i) = f.typed();
                Inst::InsertElem { d: d.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let (_, a) = f.typed();
                f.p.expect(",");
                let (_, b) = f.typed();
                f.p.expect(",");
                let mt = f.p.ty();
                let mk = f.p.cval(mt).unwrap();
                let mask = match mk {
                    CVal::Agg(v) => v.iter().map(|x| if let CVal::K(k) = x { Some(*k as u32) } else { None }).collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle { d: d.unwrap(), a, b, mask }
            }
            "freeze" => {
                let (_, a) = f.typed();
                Inst::Copy { d: d.unwrap(), a }
            }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                f.skip_words(&["volatile"]);
                let o = f.p.word();
                let (_, p) = f.typed();
                f.p.expect(",");
                let (t, v) = f.typed();
                Inst::Rmw { d: d.unwrap(), op: o.into(), w: f.p.m.width(t), p, v }
            }
            "cmpxchg" => {
                f.skip_words(&["weak", "volatile"]);
                let (_, p) = f.typed();
                f.p.expect(",");
                let (t, cmp) = f.typed();
                f.p.expect(",");
                let (_, new) = f.typed();
                Inst::CmpXchg { d: d.unwrap(), w: f.p.m.width(t), p, cmp, new }
            }
            "landingpad" => {
                // continuation lines
                let mut i = le + 1;
                loop {
                    let e = memchr(b, i, b'\n');
                    let l = text[i..e].trim_start();
                    if l.starts_with("cleanup") || l.starts_with("catch ") || l.starts_with("filter ") {
                        i = e + 1;
                    } else {
                        break;
                    }
                }
                insts.push(Inst::Unsupported("landingpad".into()));
                dbg.push(dl);
                f.p.i = i;
                continue;
            }
            other => Inst::Unsupported(other.into()),
        };
        insts.push(inst);
        dbg.push(dl);
        f.p.i = le + 1;
    }
    // renumber labels -> block index
    let mut l2b: HashMap<u32, u32> = HashMap::new();
    for (i, rb) in blocks.iter().enumerate() {
        l2b.insert(rb.label, i as u32);
    }
    let fix = |l: &mut u32| *l = l2b[l];
    for i in insts.iter_mut() {
        match i {
            Inst::Br { t } => fix(t),
            Inst::CondBr { t, f, .. } => {
                fix(t);
                fix(f)
            }
            Inst::Switch { cases, def, .. } => {
                fix(def);
                for c in cases {
                    fix(&mut c.1)
                }
            }
            Inst::Call { normal: Some(n), .. } => fix(n),
            _ => {}
        }
    }
    let nb = blocks.len();
    let mut out_blocks = vec![];
    let mut block_of = vec![0u32; insts.len()];
    for (i, rb) in blocks.iter().enumerate() {
        let e = if i + 1 < nb { blocks[i + 1].start } else { insts.len() as u32 };
        for k in rb.start..e {
            block_of[k as usize] = i as u32;
        }
        let mut phi_in: HashMap<u32, Vec<Opd>> = HashMap::new();
        for (_, _, ins) in &rb.phis {
            let mut seen = std::collections::HashSet::new();
            for (v, l) in ins {
                if seen.insert(*l) {
                    if let Some(bi) = l2b.get(l) {
                        phi_in.entry(*bi).or_default().push(v.clone());
                    }
                }
            }
        }
        out_blocks.push(Block {
            start: rb.start,
            phis: rb.phis.iter().map(|x| (x.0, x.1)).collect(),
            phi_in,
        });
    }
    let ipdom = postdom(&out_blocks, &insts);
    Function {
        idx,
        nregs: f.regs.len() as u32,
        nparams,
        insts,
        dbg,
        blocks: out_blocks,
        block_of,
        ipdom,
    }
}

/// Immediate post-dominators, ignoring blocks that end in `unreachable`
/// (panic paths): those never rejoin.
fn postdom(blocks: &[Block], insts: &[Inst]) -> Vec<u32> {
    let nb = blocks.len();
    let none = u32::MAX;
    let mut succ: Vec<Vec<u32>> = vec![vec![]; nb];
    let mut exits = vec![];
    for i in 0..nb {
        let e = if i + 1 < nb { blocks[i + 1].start } else { insts.len() as u32 };
        if e == blocks[i].start {
            continue;
        }
        match &insts[e as usize - 1] {
            Inst::Br { t } => succ[i].push(*t),
            Inst::CondBr { t, f, .. } => {
                succ[i].push(*t);
                succ[i].push(*f)
            }
            Inst::Switch { cases, def, .. } => {
                succ[i].push(*def);
                for c in cases {
                    succ[i].push(c.1)
                }
            }
            Inst::Call { normal: Some(n), .. } => succ[i].push(*n),
            Inst::Ret { .. } => exits.push(i as u32),
            _ => {}
        }
    }
    // reverse graph from a virtual exit; blocks that cannot reach it are ignored
    let mut pred: Vec<Vec<u32>> = vec![vec![]; nb];
    for i in 0..nb {
        for &s in &succ[i] {
            pred[s as usize].push(i as u32);
        }
    }
    let exit = nb as u32;
    let mut order = vec![]; // postorder of reverse graph from exit
    let mut state = vec![0u8; nb + 1];
    let mut st: Vec<(u32, usize)> = vec![(exit, 0)];
    state[nb] = 1;
    let rs = |x: u32| -> &Vec<u32> {
        if x == exit {
            &exits
        } else {
            &pred[x as usize]
        }
    };
    while let Some((x, k)) = st.pop() {
        let r = rs(x);
        if k < r.len() {
            st.push((x, k + 1));
            let y = r[k];
            if state[y as usize] == 0 {
                state[y as usize] = 1;
                st.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    let mut num = vec![none; nb + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x as usize] = i as u32;
    }
    let mut idom = vec![none; nb + 1];
    idom[nb] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            if x == exit {
                continue;
            }
            let mut new = none;
            let mut ss: Vec<u32> = succ[x as usize].clone();
            if exits.contains(&x) {
                ss.push(exit);
            }
            for s in ss {
                if num[s as usize] == none || idom[s as usize] == none {
                    continue;
                }
                if new == none {
                    new = s;
                } else {
                    let (mut a, mut b) = (s, new);
                    while a != b {
                        while num[a as usize] < num[b as usize] {
                            a = idom[a as usize];
                        }
                        while num[b as usize] < num[a as usize] {
                            b = idom[b as usize];
                        }
                    }
                    new = a;
                }
            }
            if new != idom[x as usize] {
                idom[x as usize] = new;
                changed = true;
            }
        }
    }
    (0..nb).map(|i| if idom[i] == exit { none } else { idom[i] }).collect()
}
