//! The symbolic executor: explores every feasible path of a harness function.

use crate::expr::{cx, fold, mask, sx, Id, Op};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Function>,
    pub regs: Vec<V>,
    pub pc: u32,
    pub ret_reg: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone, Copy, Debug)]
pub enum Input {
    Sym(u32),
    Conc(u64),
    Uf(u32), // a result of an uninterpreted function, not an input
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Id>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Vec<Input>,
    pub steps: u64,
    pub out: Vec<Id>,    // bytes written to stdout
    pub obs: Vec<Id>,    // 64-bit observations
    pub cover: u64,
    pub forks: u32,
    pub uf: Rc<Vec<(Vec<Id>, Vec<Id>)>>, // arguments and results of the uninterpreted function so far
    pub direct: bool, // StdoutLock::write_all appends to `out` at once
    pub room: Option<(u64, u64)>, // bytes write(1, ..) still takes before it fails, and the error then
    pub split: bool, // fork on which of several constants a load yields
    pub fixed: Rc<Vec<u64>>, // per input, the bits the path condition fixes
}

#[derive(Clone, Debug)]
pub struct Report {
    pub kind: String, // panic, memory, hang, known
    pub what: String,
    pub at: String,
    pub inputs: Vec<u64>,
    pub known: u64,
}

#[derive(Clone)]
pub struct Config {
    pub max_steps: u64,
    pub deadline: Instant,
    pub merge: bool,
    pub merge_budget: u64,
    pub stub_format: bool,
    pub samples: usize,
    pub trace: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assume_cut: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub branch_sym: u64,
    pub unknown: u64,
    pub max_pc: u64,
    pub max_steps: u64,
    pub incomplete: u64,
    pub known_paths: u64,
    pub by_fixed: u64,
}

pub enum End {
    Done,
    Reached,
    Budget,
}

pub struct Stop {
    depth: usize,
    block: u32,
}

pub struct Exec {
    pub m: Module,
    pub solver: Solver,
    pub cfg: Config,
    pub stats: Stats,
    pub reports: Vec<Report>,
    pub errors: Vec<String>,
    pub samples: Vec<(Vec<u64>, Vec<u64>, u64)>, // inputs, observations, cover
    pub cover_all: [u64; 64],
    pub hits: *mut u8, // shared between processes, indexed by debug location
    pub hits_len: usize,
    pub splitter: Option<fn(&mut Exec, &mut Vec<State>, bool) -> bool>,
    pub stopped: fn() -> bool,
    pub cur_model: Rc<Vec<u64>>,
    pub merge_fail: HashMap<(u32, u32), i32>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub call_kind: HashMap<u32, Special>,
    pub errno: u64,
    pub stop_all: bool,
    pub path_limit_obs: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Special {
    None,
    Panic,
    AllocFail,
    FormatString,
    Memrchr,
    Sha512,
    StdoutWrite,
    AvailPar,
}

type R<T> = Result<T, Stopped>;
/// Why the current state cannot go on.
pub enum Stopped {
    Killed, // infeasible, assumed away or reported
}

fn special_of(name: &str, cfg: &Config) -> Special {
    if name.contains("9panicking") {
        if name.contains("9panic_fmt") || name.contains("18panic_nounwind_fmt") || name.contains("19panic_cannot_unwind")
        {
            return Special::Panic;
        }
    }
    if name.contains("17rust_begin_unwind")
        || name.contains("rust_panic_without_hook")
        || name.contains("9panicking20rust_panic_with_hook")
        || name.contains("begin_panic_handler")
    {
        return Special::Panic;
    }
    if name.contains("18handle_alloc_error") || name.contains("7raw_vec12handle_error") || name.contains("17capacity_overflow")
    {
        return Special::AllocFail;
    }
    if cfg.stub_format && name.contains("3fmt6format12format_inner") {
        return Special::FormatString;
    }
    if name.contains("memchr7memrchr") {
        return Special::Memrchr;
    }
    if name.contains("io5stdioNt") && name.contains("10StdoutLockNt") && name.ends_with("5Write9write_all") {
        return Special::StdoutWrite;
    }
    if name.contains("sha512") && name.ends_with("compress512") {
        return Special::Sha512;
    }
    Special::None
}

impl Exec {
    pub fn new(m: Module, solver: Solver, cfg: Config) -> Exec {
        let hits_len = m.meta.keys().max().copied().unwrap_or(0) as usize + 1;
        let hits = crate::shared_bytes(hits_len);
        Exec {
            m,
            solver,
            cfg,
            stats: Default::default(),
            reports: vec![],
            errors: vec![],
            samples: vec![],
            cover_all: [0; 64],
            hits,
            hits_len,
            splitter: None,
            stopped: || false,
            cur_model: Rc::new(vec![]),
            merge_fail: HashMap::new(),
            fork_sites: HashMap::new(),
            call_kind: HashMap::new(),
            errno: 0,
            stop_all: false,
            path_limit_obs: 0,
        }
    }

    pub fn initial(&mut self, fname: &str) -> State {
        let mut mem = Mem::new(self.m.first_free_obj());
        for i in 0..self.m.globals.len() {
            let id = (self.m.global_addr(i as u32) >> 32) as u32;
            let g = &self.m.globals[i];
            let mut o = Obj::new(0);
            o.data = g.data.clone();
            o.ro = g.constant;
            mem.put(id, Some(Rc::new(o)));
        }
        self.errno = mem.alloc(8);
        let fi = match self.m.syms.get(fname) {
            Some(Sym::F(i)) => *i,
            _ => panic!("no function {}", fname),
        };
        let f = self.m.function(fi).expect("harness body");
        let fr = Frame { regs: vec![V::C(0); f.nregs as usize], pc: 0, ret_reg: None, allocas: vec![], f };
        State {
            frames: vec![Rc::new(fr)],
            mem,
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            steps: 0,
            out: vec![],
            obs: vec![],
            cover: 0,
            forks: 0,
            uf: Default::default(),
            direct: false,
            room: None,
            split: false,
            fixed: Rc::new(vec![]),
        }
    }

    // ---------------------------------------------------------------- solver

    fn eval(&mut self, st: &State, e: Id) -> u128 {
        if !Rc::ptr_eq(&self.cur_model, &st.model) {
            self.cur_model = st.model.clone();
            cx().new_model();
        }
        cx().eval(e, &st.model)
    }

    fn vars(&self, st: &State) -> Vec<(u32, u32)> {
        st.inputs
            .iter()
            .enumerate()
            .filter_map(|(i, x)| match x {
                Input::Sym(w) | Input::Uf(w) => Some((i as u32, *w)),
                _ => None,
            })
            .collect()
    }

    /// A model of pc && c, if there is one.
    fn may(&mut self, st: &State, c: Id) -> Option<Rc<Vec<u64>>> {
        if let Some(k) = cx().cval(c) {
            return if k == 1 { Some(st.model.clone()) } else { None };
        }
        if self.eval(st, c) == 1 {
            return Some(st.model.clone());
        }
        // all the input bits it depends on are fixed: it is false on this path
        if !st.fixed.is_empty() {
            if let Some(s) = cx().support(c) {
                if s.iter().all(|(v, m)| st.fixed.get(*v as usize).copied().unwrap_or(0) & m == *m) {
                    self.stats.by_fixed += 1;
                    return None;
                }
            }
        }
        // syntactic shortcuts on the tail of the path condition
        let nc = cx().not(c);
        for &p in st.pc.iter().rev().take(12) {
            if p == nc {
                return None;
            }
        }
        let mut base = (*st.model).clone();
        base.resize(st.inputs.len(), 0);
        let vars = self.vars(st);
        let (r, m) = self.solver.check(&st.pc, c, &vars, &base);
        match r {
            Res::Sat => Some(Rc::new(m)),
            Res::Unsat => None,
            Res::Unknown => {
                self.stats.unknown += 1;
                None
            }
        }
    }
    fn must(&mut self, st: &State, c: Id) -> bool {
        let n = cx().not(c);
        self.may(st, n).is_none()
    }

    fn push_pc(&mut self, st: &mut State, c: Id) {
        if cx().cval(c).is_some() {
            return;
        }
        // keep conjuncts apart
        let n = *cx().node(c);
        if n.op == Op::And && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if let Some((v, m)) = cx().fixes(c) {
            let v = v as usize;
            let f = Rc::make_mut(&mut st.fixed);
            if f.len() <= v {
                f.resize(v + 1, 0);
            }
            f[v] |= m;
        }
        st.pc.push(c);
        self.stats.max_pc = self.stats.max_pc.max(st.pc.len() as u64);
    }

    /// Decide a boolean for the current state; the other outcome, if feasible,
    /// is queued to re-execute the current instruction.
    fn decide(&mut self, st: &mut State, c: Id, pend: &mut Vec<State>) -> R<bool> {
        if let Some(k) = cx().cval(c) {
            return Ok(k == 1);
        }
        let v = self.eval(st, c) == 1;
        let nc = cx().not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.may(st, other) {
            self.note_fork(st);
            let mut o = st.clone();
            o.model = m;
            o.forks += 1;
            self.push_pc(&mut o, other);
            pend.push(o);
            self.push_pc(st, mine);
            st.forks += 1;
        }
        Ok(v)
    }

    fn note_fork(&mut self, st: &State) {
        self.stats.forks += 1;
        let fr = st.frames.last().unwrap();
        *self.fork_sites.entry((fr.f.idx, fr.pc)).or_default() += 1;
    }

    fn concretize(&mut self, st: &mut State, v: &V, w: u32, pend: &mut Vec<State>) -> R<u64> {
        match v {
            V::C(k) => Ok(*k),
            V::S(e) => {
                let k = self.eval(st, *e);
                let kk = cx().k(w, k);
                let c = cx().eq(*e, kk);
                let r = self.decide(st, c, pend)?;
                debug_assert!(r);
                Ok(k as u64)
            }
            V::A(_) => panic!("concretize aggregate"),
        }
    }

    // --------------------------------------------------------------- reports

    fn inputs_of(&mut self, st: &State) -> Vec<u64> {
        st.inputs
            .iter()
            .enumerate()
            .filter_map(|(i, x)| match x {
                Input::Conc(k) => Some(*k),
                Input::Sym(w) => Some(st.model.get(i).copied().unwrap_or(0) & mask(*w)),
                Input::Uf(_) => None,
            })
            .collect()
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for fr in st.frames.iter().rev().take(12) {
            let mut d = fr.f.dbg.get(fr.pc as usize).copied().unwrap_or(0);
            s.push_str(&format!("  in {} #{}\n", self.m.funcs[fr.f.idx as usize].name, fr.pc));
            let mut k = 0;
            while d != 0 && k < 8 {
                if let Some((f, l, n)) = self.m.location(d) {
                    s.push_str(&format!("     {}:{} {}\n", f, l, n));
                }
                d = self.m.inlined_at(d).unwrap_or(0);
                k += 1;
            }
        }
        s
    }

    fn report(&mut self, st: &State, kind: &str, what: String, known: u64) {
        let at = self.backtrace(st);
        let inputs = self.inputs_of(st);
        self.reports.push(Report { kind: kind.into(), what, at, inputs, known });
        if known == 0 {
            self.stop_all = true;
        }
    }

    fn fatal(&mut self, st: &State, what: String) {
        let bt = self.backtrace(st);
        self.errors.push(format!("{}\n{}", what, bt));
        self.stop_all = true;
    }

    // ---------------------------------------------------------------- memory

    /// Split a pointer into object and offset, forking where several objects
    /// are possible. `slot` is the register holding it, for refinement.
    fn resolve(&mut self, st: &mut State, p: &V, slot: Option<u32>, pend: &mut Vec<State>) -> R<(u32, V)> {
        match p {
            V::C(a) => Ok(((a >> 32) as u32, V::C(a & 0xffff_ffff))),
            V::S(e) => {
                let mut e = *e;
                loop {
                    let n = *cx().node(e);
                    if n.op == Op::Ite {
                        let c = self.decide(st, n.a, pend)?;
                        e = if c { n.b } else { n.c };
                        if let Some(r) = slot {
                            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                            fr.regs[r as usize] = V::of(e);
                        }
                        if let Some(a) = cx().cval(e) {
                            return Ok(((a >> 32) as u32, V::C(a as u64 & 0xffff_ffff)));
                        }
                        continue;
                    }
                    if n.op == Op::Add {
                        // pull an ite of pointers out of a sum
                        let na = *cx().node(n.a);
                        let nb = *cx().node(n.b);
                        if na.op == Op::Ite && cx().node(na.b).hi >= 1 << 32 {
                            let c = self.decide(st, na.a, pend)?;
                            let x = if c { na.b } else { na.c };
                            e = cx().add(x, n.b);
                            if let Some(a) = cx().cval(e) {
                                return Ok(((a >> 32) as u32, V::C(a as u64 & 0xffff_ffff)));
                            }
                            continue;
                        }
                        if nb.op == Op::Ite && cx().node(nb.b).hi >= 1 << 32 {
                            let c = self.decide(st, nb.a, pend)?;
                            let x = if c { nb.b } else { nb.c };
                            e = cx().add(n.a, x);
                            if let Some(a) = cx().cval(e) {
                                return Ok(((a >> 32) as u32, V::C(a as u64 & 0xffff_ffff)));
                            }
                            continue;
                        }
                    }
                    break;
                }
                let n = *cx().node(e);
                let id = if n.lo >> 32 == n.hi >> 32 {
                    n.lo >> 32
                } else {
                    let v = self.eval(st, e) as u64;
                    let id = v >> 32;
                    let hi = cx().extract(e, 32, 32);
                    let k = cx().k(32, id as u128);
                    let c = cx().eq(hi, k);
                    self.decide(st, c, pend)?;
                    id
                };
                let base = cx().k(64, (id << 32) as u128);
                let off = cx().sub(e, base);
                Ok((id as u32, V::of(off)))
            }
            V::A(_) => panic!("pointer aggregate"),
        }
    }

    /// How many constants a tree of choices selects from, if at most `max`.
    fn leaves(e: Id, max: usize) -> Option<usize> {
        if cx().cval(e).is_some() {
            return Some(1);
        }
        let n = *cx().node(e);
        if n.op != Op::Ite || max < 2 {
            return None;
        }
        let a = Self::leaves(n.b, max - 1)?;
        let b = Self::leaves(n.c, max - a)?;
        Some(a + b).filter(|k| *k <= max)
    }

    fn mem_fault(&mut self, st: &State, what: &str) -> Stopped {
        self.report(st, "memory", what.to_string(), 0);
        Stopped::Killed
    }

    /// Prove off + n <= size (fork a fault otherwise).
    fn bounds(&mut self, st: &mut State, off: &V, n: u64, size: u64, what: &str) -> R<()> {
        match off {
            V::C(o) => {
                if o + n > size {
                    let t = format!("{}: offset {} + {} beyond object of {} bytes", what, o, n, size);
                    return Err(self.mem_fault(st, &t));
                }
                Ok(())
            }
            V::S(e) => {
                if n > size {
                    return Err(self.mem_fault(st, what));
                }
                if cx().node(*e).hi <= size - n {
                    return Ok(());
                }
                let lim = cx().k(64, (size - n) as u128);
                let ok = cx().ule(*e, lim);
                let bad = cx().not(ok);
                if let Some(m) = self.may(st, bad) {
                    let mut s2 = st.clone();
                    s2.model = m;
                    let t = format!("{}: symbolic offset beyond object of {} bytes", what, size);
                    return Err(self.mem_fault(&s2, &t));
                }
                Ok(())
            }
            _ => unreachable!(),
        }
    }

    fn cells_range(&mut self, st: &State, e: Id, size: u64, n: u64) -> (u64, u64) {
        let nd = *cx().node(e);
        let mut lo = nd.lo.min(size - n);
        let mut hi = nd.hi.min(size - n);
        if (hi - lo) / n > 600 {
            // tighten with the solver
            let v = self.eval(st, e) as u64;
            let (mut a, mut b) = (lo, v); // smallest feasible in [a, b]
            while a < b {
                let mid = a + (b - a) / 2;
                let k = cx().k(64, mid as u128);
                let c = cx().ule(e, k);
                match self.may(st, c) {
                    Some(m) => {
                        cx().new_model();
                        let x = cx().eval(e, &m) as u64;
                        cx().new_model();
                        self.cur_model = Rc::new(vec![]);
                        b = x.min(mid)
                    }
                    None => a = mid + 1,
                }
            }
            lo = a;
            let (mut a, mut b) = (v, hi);
            while a < b {
                let mid = a + (b - a + 1) / 2;
                let k = cx().k(64, mid as u128);
                let c = cx().ule(k, e);
                match self.may(st, c) {
                    Some(m) => {
                        cx().new_model();
                        let x = cx().eval(e, &m) as u64;
                        cx().new_model();
                        self.cur_model = Rc::new(vec![]);
                        a = x.max(mid)
                    }
                    None => b = mid - 1,
                }
            }
            hi = a;
        }
        (lo, hi)
    }

    fn tz(e: Id) -> u32 {
        let n = cx().node(e);
        (!n.kz).trailing_zeros()
    }

    fn word_at(o: &Obj, off: usize, n: usize) -> Id {
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            let mut k = 0u128;
            for i in (0..n).rev() {
                k = (k << 8) | o.data[off + i] as u128;
            }
            return cx().k(n as u32 * 8, k);
        }
        let mut acc = o.byte(off);
        for i in 1..n {
            let b = o.byte(off + i);
            acc = cx().concat(b, acc);
        }
        acc
    }

    /// n bytes at (id, off) as one little-endian expression of 8n bits.
    fn read(&mut self, st: &mut State, id: u32, off: &V, n: usize) -> R<V> {
        let o = match st.mem.get(id) {
            Some(o) => o.clone(),
            None => {
                let t = format!("read of {} bytes from a dead or invalid object {}", n, id);
                return Err(self.mem_fault(st, &t));
            }
        };
        self.bounds(st, off, n as u64, o.data.len() as u64, "read")?;
        let mut w = match off {
            V::C(f) => {
                let f = *f as usize;
                if o.concrete(f, n) && n <= 8 {
                    let mut k = 0u64;
                    for i in (0..n).rev() {
                        k = (k << 8) | o.data[f + i] as u64;
                    }
                    return Ok(V::C(k));
                }
                Self::word_at(&o, f, n)
            }
            V::S(e) => {
                let e = *e;
                let (lo, hi) = self.cells_range(st, e, o.data.len() as u64, n as u64);
                let step = 1u64 << Self::tz(e).min(20);
                // the offset is congruent to its known low bits
                let lowbits = {
                    let nd = cx().node(e);
                    // known low bits (not only zeros)
                    let known = nd.kz | nd.ko;
                    let t = (!known).trailing_zeros().min(20);
                    (1u64 << t, nd.ko & ((1u64 << t) - 1))
                };
                let (step, res) = if lowbits.0 > step { lowbits } else { (step, 0) };
                let first = if lo % step <= res { lo - lo % step + res } else { lo - lo % step + step + res };
                let mut runs: Vec<(u64, Id)> = vec![];
                let mut x = first;
                while x <= hi {
                    let same = match runs.last() {
                        Some(_) if x >= step => {
                            let (a, b) = ((x - step) as usize, x as usize);
                            (o.sym.is_empty() || o.sym[b..b + n] == o.sym[a..a + n])
                                && o.data[b..b + n] == o.data[a..a + n]
                        }
                        _ => false,
                    };
                    if !same {
                        let c = Self::word_at(&o, x as usize, n);
                        if runs.last().map(|r| r.1) != Some(c) {
                            runs.push((x, c));
                        }
                    }
                    x += step;
                }
                if runs.is_empty() {
                    return Err(self.mem_fault(st, "no feasible cell"));
                }
                if runs.len() > 40000 {
                    self.fatal(st, "symbolic read over too many cells".into());
                    return Err(Stopped::Killed);
                }
                Self::tree(e, &runs)
            }
            _ => unreachable!(),
        };
        if !o.log.is_empty() {
            let oe = off.e(64);
            for l in o.log.iter() {
                let ln = l.bytes.len();
                let al = n.is_power_of_two() && Self::aligned(l.off, n) && Self::aligned(oe, n);
                if ln == n && al {
                    let c = cx().eq(l.off, oe);
                    if cx().cval(c) == Some(0) {
                        continue;
                    }
                    let mut v = l.bytes[0];
                    for b in &l.bytes[1..] {
                        v = cx().concat(*b, v);
                    }
                    w = cx().ite(c, v, w);
                } else {
                    for j in 0..n {
                        for i in 0..ln {
                            let a = cx().k(64, i as u128);
                            let la = cx().add(l.off, a);
                            let b = cx().k(64, j as u128);
                            let ra = cx().add(oe, b);
                            let c = cx().eq(la, ra);
                            if cx().cval(c) == Some(0) {
                                continue;
                            }
                            let old = cx().extract(w, j as u32 * 8, 8);
                            let nb = cx().ite(c, l.bytes[i], old);
                            // rebuild
                            let mut p = nb;
                            if j > 0 {
                                let lo = cx().extract(w, 0, j as u32 * 8);
                                p = cx().concat(p, lo);
                            }
                            if j + 1 < n {
                                let hi = cx().extract(w, (j as u32 + 1) * 8, (n - j - 1) as u32 * 8);
                                p = cx().concat(hi, p);
                            }
                            w = p;
                        }
                    }
                }
            }
        }
        Ok(V::of(w))
    }
    fn aligned(e: Id, n: usize) -> bool {
        match cx().cval(e) {
            Some(k) => k % n as u128 == 0,
            None => Self::tz(e) >= n.trailing_zeros(),
        }
    }
    fn tree(e: Id, runs: &[(u64, Id)]) -> Id {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let k = cx().k(64, runs[m].0 as u128);
        let c = cx().ult(e, k);
        let a = Self::tree(e, &runs[..m]);
        let b = Self::tree(e, &runs[m..]);
        cx().ite(c, a, b)
    }

    fn write(&mut self, st: &mut State, id: u32, off: &V, v: &V, n: usize) -> R<()> {
        let (size, haslog, ro) = match st.mem.get(id) {
            Some(o) => (o.data.len(), !o.log.is_empty(), o.ro),
            None => {
                let t = format!("write of {} bytes to a dead or invalid object {}", n, id);
                return Err(self.mem_fault(st, &t));
            }
        };
        if ro {
            return Err(self.mem_fault(st, "write to a constant"));
        }
        self.bounds(st, off, n as u64, size as u64, "write")?;
        if let (V::C(f), false) = (off, haslog) {
            let f = *f as usize;
            let o = st.mem.get_mut(id).unwrap();
            match v {
                V::C(k) if n <= 8 => {
                    let by = k.to_le_bytes();
                    o.data[f..f + n].copy_from_slice(&by[..n]);
                    if !o.sym.is_empty() {
                        for s in &mut o.sym[f..f + n] {
                            *s = 0;
                        }
                    }
                }
                _ => {
                    let e = v.e(n as u32 * 8);
                    for i in 0..n {
                        let b = cx().extract(e, i as u32 * 8, 8);
                        o.set(f + i, b);
                    }
                }
            }
            return Ok(());
        }
        let e = v.e(n as u32 * 8);
        let bytes: Vec<Id> = (0..n).map(|i| cx().extract(e, i as u32 * 8, 8)).collect();
        if let V::S(oe) = off {
            if !haslog {
                let oe = *oe;
                let nd = *cx().node(oe);
                let (lo, hi) = (nd.lo, nd.hi.min((size - n) as u64));
                let step = 1u64 << Self::tz(oe).min(20);
                let first = (lo + step - 1) / step * step;
                let cells = if hi >= first { (hi - first) / step + 1 } else { 0 };
                if cells <= 48 {
                    let mut x = first;
                    while x <= hi {
                        let k = cx().k(64, x as u128);
                        let c = cx().eq(oe, k);
                        if cx().cval(c) != Some(0) {
                            let o = st.mem.get_mut(id).unwrap();
                            for i in 0..n {
                                let old = o.byte(x as usize + i);
                                let nb = cx().ite(c, bytes[i], old);
                                o.set(x as usize + i, nb);
                            }
                        }
                        x += step;
                    }
                    return Ok(());
                }
            }
        }
        let oe = off.e(64);
        let o = st.mem.get_mut(id).unwrap();
        // a concrete write that no logged write can alias goes straight in
        if let V::C(f) = off {
            let mut clash = false;
            for l in &o.log {
                let nd = cx().node(l.off);
                if nd.lo < *f + n as u64 && nd.hi + l.bytes.len() as u64 > *f {
                    clash = true;
                    break;
                }
            }
            if !clash {
                for i in 0..n {
                    o.set(*f as usize + i, bytes[i]);
                }
                return Ok(());
            }
        }
        o.log.push(LogEnt { off: oe, bytes: Rc::new(bytes) });
        if o.log.len() > 4000 {
            self.fatal(st, "write log too long".into());
            return Err(Stopped::Killed);
        }
        Ok(())
    }

    pub fn read_bytes(&mut self, st: &mut State, p: u64, n: usize) -> R<Vec<Id>> {
        let (id, off) = ((p >> 32) as u32, p & 0xffff_ffff);
        let mut r = Vec::with_capacity(n);
        if n == 0 {
            return Ok(r);
        }
        if let Some(o) = st.mem.get(id) {
            if o.log.is_empty() && off as usize + n <= o.data.len() {
                for i in 0..n {
                    r.push(o.byte(off as usize + i));
                }
                return Ok(r);
            }
        }
        for i in 0..n {
            let v = self.read(st, id, &V::C(off + i as u64), 1)?;
            r.push(v.e(8));
        }
        Ok(r)
    }
    pub fn write_bytes(&mut self, st: &mut State, p: u64, b: &[Id]) -> R<()> {
        let (id, off) = ((p >> 32) as u32, p & 0xffff_ffff);
        for (i, x) in b.iter().enumerate() {
            self.write(st, id, &V::C(off + i as u64), &V::of(*x), 1)?;
        }
        Ok(())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, dofs) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let (si, sofs) = ((s >> 32) as u32, (s & 0xffff_ffff) as usize);
        let n = n as usize;
        let (so, dok) = match (st.mem.get(si), st.mem.get(di)) {
            (Some(a), Some(b)) => (a.clone(), b.log.is_empty() && !b.ro && dofs + n <= b.data.len()),
            _ => {
                let t = format!("copy of {} bytes between {:#x} and {:#x}", n, s, d);
                return Err(self.mem_fault(st, &t));
            }
        };
        if dok && so.log.is_empty() && sofs + n <= so.data.len() {
            let o = st.mem.get_mut(di).unwrap();
            o.data[dofs..dofs + n].copy_from_slice(&so.data[sofs..sofs + n]);
            let ssym = !so.sym.is_empty() && so.sym[sofs..sofs + n].iter().any(|x| *x != 0);
            if ssym {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[dofs..dofs + n].copy_from_slice(&so.sym[sofs..sofs + n]);
            } else if !o.sym.is_empty() {
                for x in &mut o.sym[dofs..dofs + n] {
                    *x = 0;
                }
            }
            return Ok(());
        }
        // an object whose writes are logged is copied wholesale when possible
        let whole = sofs == 0
            && dofs == 0
            && n == so.data.len()
            && st.mem.get(di).map(|x| x.data.len() == n && !x.ro).unwrap_or(false);
        if whole {
            let ro = false;
            let mut c = (*so).clone();
            c.ro = ro;
            st.mem.put(di, Some(Rc::new(c)));
            return Ok(());
        }
        // partial copy carrying a log: offsets shift with the copy
        if !so.log.is_empty() && sofs + n <= so.data.len() && dok {
            let inside = so.log.iter().all(|l| {
                let nd = cx().node(l.off);
                nd.lo >= sofs as u64 && nd.hi + l.bytes.len() as u64 <= (sofs + n) as u64
            });
            if inside {
                let mut logs = vec![];
                for l in &so.log {
                    let k = cx().k(64, (dofs as u64).wrapping_sub(sofs as u64) as u128);
                    let o2 = cx().add(l.off, k);
                    logs.push(LogEnt { off: o2, bytes: l.bytes.clone() });
                }
                let o = st.mem.get_mut(di).unwrap();
                o.data[dofs..dofs + n].copy_from_slice(&so.data[sofs..sofs + n]);
                if !so.sym.is_empty() || !o.sym.is_empty() {
                    for i in 0..n {
                        let b = so.byte(sofs + i);
                        o.set(dofs + i, b);
                    }
                }
                o.log.extend(logs);
                return Ok(());
            }
        }
        let b = self.read_bytes(st, s, n)?;
        self.write_bytes(st, d, &b)
    }

    // ------------------------------------------------------------ operations

    fn opd(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::K(k) => V::C(*k),
            Opd::C(c) => Self::cv(c),
        }
    }
    fn cv(c: &CVal) -> V {
        match c {
            CVal::K(k) => V::C(*k),
            CVal::Big(b) => V::S(cx().k(128, *b)),
            CVal::Agg(v) => V::A(Rc::new(v.iter().map(Self::cv).collect())),
        }
    }
    fn opd_w(&self, fr: &Frame, o: &Opd, w: u32) -> V {
        // wide constants know their width only here
        match o {
            Opd::C(c) => match &**c {
                CVal::Big(b) => V::S(cx().k(w, *b)),
                c => Self::cv(c),
            },
            Opd::K(k) if w > 64 => V::S(cx().k(w, *k as u128)),
            o => self.opd(fr, o),
        }
    }

    fn bin(op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = mask(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::UDiv if y != 0 => x / y,
                    BinOp::URem if y != 0 => x % y,
                    _ => fold(Self::eop(op), w, x as u128, y as u128) as u64,
                };
                return V::C(r & m);
            }
        }
        let (x, y) = (a.e(w), b.e(w));
        V::of(cx().bin(Self::eop(op), x, y))
    }
    fn eop(op: BinOp) -> Op {
        match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        }
    }
    fn icmp(p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(x as u128, w), sx(y as u128, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
            };
            return V::C(r as u64);
        }
        let (x, y) = (a.e(w), b.e(w));
        let c = cx();
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let t = c.eq(x, y);
                c.not(t)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => {
                let t = c.slt(y, x);
                c.not(t)
            }
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => {
                let t = c.slt(x, y);
                c.not(t)
            }
        };
        V::of(r)
    }
    fn select(c: &V, w: u32, a: V, b: V) -> V {
        match c {
            V::C(k) => {
                if *k == 1 {
                    a
                } else {
                    b
                }
            }
            V::S(c) => match (&a, &b) {
                (V::A(x), V::A(y)) => V::A(Rc::new(
                    x.iter().zip(y.iter()).map(|(p, q)| Self::select(&V::S(*c), 64, p.clone(), q.clone())).collect(),
                )),
                _ => {
                    let (x, y) = (a.e(w), b.e(w));
                    V::of(cx().ite(*c, x, y))
                }
            },
            V::A(_) => panic!("select"),
        }
    }
    fn elem(&self, ty: TyId) -> Option<(u64, u32)> {
        match &self.m.types[ty as usize] {
            Ty::Vector(n, e) => Some((*n, self.m.width(*e))),
            _ => None,
        }
    }
    fn lanes(v: &V) -> &Vec<V> {
        match v {
            V::A(x) => x,
            _ => panic!("not a vector"),
        }
    }

    // flatten to bits / rebuild, for bitcast and memory
    fn to_bits(&self, v: &V, ty: TyId) -> Id {
        match self.elem(ty) {
            Some((_, w)) => {
                let l = Self::lanes(v);
                let mut acc = l[0].e(w);
                for x in &l[1..] {
                    let h = x.e(w);
                    acc = cx().concat(h, acc);
                }
                acc
            }
            None => v.e(self.m.width(ty)),
        }
    }
    fn from_bits(&self, e: Id, ty: TyId) -> V {
        match self.elem(ty) {
            Some((n, w)) => {
                V::A(Rc::new((0..n).map(|i| V::of(cx().extract(e, i as u32 * w, w))).collect()))
            }
            None => V::of(e),
        }
    }

    fn load_ty(&mut self, st: &mut State, ty: TyId, id: u32, off: &V) -> R<V> {
        match self.m.types[ty as usize].clone() {
            Ty::Struct(f, _) => {
                let mut out = vec![];
                for i in 0..f.len() {
                    let (o, t) = self.m.field_off(ty, i);
                    let o2 = Self::bin(BinOp::Add, 64, off, &V::C(o));
                    out.push(self.load_ty(st, t, id, &o2)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Array(n, _) => {
                let mut out = vec![];
                for i in 0..n as usize {
                    let (o, t) = self.m.field_off(ty, i);
                    let o2 = Self::bin(BinOp::Add, 64, off, &V::C(o));
                    out.push(self.load_ty(st, t, id, &o2)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Vector(n, et) => {
                let w = self.m.width(et);
                if w % 8 != 0 {
                    let sz = self.m.size_of(ty) as usize;
                    let v = self.read(st, id, off, sz)?;
                    let e = v.e(sz as u32 * 8);
                    return Ok(self.from_bits(e, ty));
                }
                let mut out = vec![];
                for i in 0..n {
                    let o2 = Self::bin(BinOp::Add, 64, off, &V::C(i * (w as u64 / 8)));
                    out.push(self.read(st, id, &o2, w as usize / 8)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => {
                let w = self.m.width(ty);
                let sz = (w + 7) / 8;
                let v = self.read(st, id, off, sz as usize)?;
                if w == sz * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    V::C(k) => V::C(k & mask(w)),
                    V::S(e) => V::of(cx().extract(e, 0, w)),
                    v => v,
                })
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: TyId, v: &V, id: u32, off: &V) -> R<()> {
        match self.m.types[ty as usize].clone() {
            Ty::Struct(..) | Ty::Array(..) => {
                let l = match v {
                    V::A(l) => l.clone(),
                    _ => panic!("store aggregate"),
                };
                for i in 0..l.len() {
                    let (o, t) = self.m.field_off(ty, i);
                    let o2 = Self::bin(BinOp::Add, 64, off, &V::C(o));
                    self.store_ty(st, t, &l[i], id, &o2)?;
                }
                Ok(())
            }
            Ty::Vector(n, et) => {
                let w = self.m.width(et);
                let l = Self::lanes(v).clone();
                if w % 8 != 0 {
                    let e = self.to_bits(v, ty);
                    let sz = self.m.size_of(ty) as u32;
                    let e = cx().zext(e, sz * 8);
                    return self.write(st, id, off, &V::of(e), sz as usize);
                }
                for i in 0..n {
                    let o2 = Self::bin(BinOp::Add, 64, off, &V::C(i * (w as u64 / 8)));
                    self.write(st, id, &o2, &l[i as usize], w as usize / 8)?;
                }
                Ok(())
            }
            _ => {
                let w = self.m.width(ty);
                let sz = (w + 7) / 8;
                if w == sz * 8 {
                    return self.write(st, id, off, v, sz as usize);
                }
                let v = match v {
                    V::S(e) => V::of(cx().zext(*e, sz * 8)),
                    v => v.clone(),
                };
                self.write(st, id, off, &v, sz as usize)
            }
        }
    }

    // --------------------------------------------------------------- control

    /// Move to a block, evaluating its phis. Registers are read before written.
    fn goto(&mut self, fr: &mut Frame, from_block: u32, to: u32) {
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let ins = b.phi_in.get(&from_block).expect("phi edge");
            if b.phis.len() == 1 {
                let v = self.opd_w(fr, &ins[0], b.phis[0].1);
                fr.regs[b.phis[0].0 as usize] = v;
            } else {
                let vals: Vec<V> = ins.iter().zip(&b.phis).map(|(o, p)| self.opd_w(fr, o, p.1)).collect();
                for (v, p) in vals.into_iter().zip(&b.phis) {
                    fr.regs[p.0 as usize] = v;
                }
            }
        }
        fr.pc = b.start;
    }

    pub fn run(&mut self, mut st: State, pend: &mut Vec<State>) {
        let mut unlimited = u64::MAX;
        self.exec(&mut st, pend, None, &mut unlimited);
    }

    fn exec(&mut self, st: &mut State, pend: &mut Vec<State>, stop: Option<&Stop>, budget: &mut u64) -> End {
        loop {
            match self.exec_frame(st, pend, stop, budget) {
                Ok(Some(e)) => return e,
                Ok(None) => {}
                Err(Stopped::Killed) => return End::Done,
            }
        }
    }

    /// Run until the frame stack changes or something ends.
    fn exec_frame(
        &mut self,
        st: &mut State,
        pend: &mut Vec<State>,
        stop: Option<&Stop>,
        budget: &mut u64,
    ) -> R<Option<End>> {
        let depth = st.frames.len();
        let f = st.frames.last().unwrap().f.clone();
        macro_rules! fr {
            () => {
                Rc::make_mut(st.frames.last_mut().unwrap())
            };
        }
        loop {
            if *budget == 0 {
                return Ok(Some(End::Budget));
            }
            *budget -= 1;
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.cfg.max_steps {
                    self.report(st, "hang", format!("more than {} steps on one path", self.cfg.max_steps), 0);
                    return Err(Stopped::Killed);
                }
                if Instant::now() > self.cfg.deadline {
                    self.stats.incomplete += 1;
                    self.stop_all = true;
                    return Err(Stopped::Killed);
                }
                if (self.stopped)() {
                    self.stop_all = true;
                    return Err(Stopped::Killed);
                }
                if stop.is_none() {
                    if let Some(sp) = self.splitter {
                        if sp(self, pend, true) {
                            // a child process: it only has the stolen states
                            return Err(Stopped::Killed);
                        }
                    }
                }
            }
            let pc = st.frames.last().unwrap().pc as usize;
            unsafe { *self.hits.add(f.dbg[pc] as usize) = 1 };
            if self.cfg.trace {
                eprintln!("{} {} {:?}", self.m.funcs[f.idx as usize].name, pc, f.insts[pc]);
            }
            match &f.insts[pc] {
                Inst::Bin { d, op, ty, w, a, b } => {
                    let fr = fr!();
                    let r = if *w == 0 {
                        let (n, ew) = self.elem(*ty).expect("vector");
                        let (x, y) = (self.opd(fr, a), self.opd(fr, b));
                        let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                        V::A(Rc::new((0..n as usize).map(|i| Self::bin(*op, ew, &x[i], &y[i])).collect()))
                    } else {
                        let (x, y) = (self.opd_w(fr, a, *w), self.opd_w(fr, b, *w));
                        Self::bin(*op, *w, &x, &y)
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Icmp { d, p, ty, w, a, b } => {
                    let fr = fr!();
                    let r = if *w == 0 {
                        let (n, ew) = self.elem(*ty).expect("vector");
                        let (x, y) = (self.opd(fr, a), self.opd(fr, b));
                        let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                        V::A(Rc::new((0..n as usize).map(|i| Self::icmp(*p, ew, &x[i], &y[i])).collect()))
                    } else {
                        let (x, y) = (self.opd_w(fr, a, *w), self.opd_w(fr, b, *w));
                        Self::icmp(*p, *w, &x, &y)
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Cast { d, op, from, to, wf, wt, a } => {
                    let fr = fr!();
                    let x = self.opd_w(fr, a, *wf);
                    let r = if *wf == 0 || *wt == 0 {
                        if *op == Cast::Bitcast {
                            let e = self.to_bits(&x, *from);
                            self.from_bits(e, *to)
                        } else {
                            let (_, w1) = self.elem(*from).unwrap();
                            let (_, w2) = self.elem(*to).unwrap();
                            V::A(Rc::new(Self::lanes(&x).iter().map(|v| Self::cast(*op, w1, w2, v)).collect()))
                        }
                    } else {
                        Self::cast(*op, *wf, *wt, &x)
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Select { d, ty, w, c, cvec, a, b } => {
                    let fr = fr!();
                    let cv = self.opd(fr, c);
                    let (x, y) = (self.opd_w(fr, a, *w), self.opd_w(fr, b, *w));
                    let r = if *cvec {
                        let (n, ew) = self.elem(*ty).unwrap();
                        let (cl, xl, yl) = (Self::lanes(&cv), Self::lanes(&x), Self::lanes(&y));
                        V::A(Rc::new(
                            (0..n as usize).map(|i| Self::select(&cl[i], ew, xl[i].clone(), yl[i].clone())).collect(),
                        ))
                    } else {
                        Self::select(&cv, *w, x, y)
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Gep { d, base, off, idx } => {
                    let fr = fr!();
                    let mut v = self.opd(fr, base);
                    if *off != 0 {
                        v = Self::bin(BinOp::Add, 64, &v, &V::C(*off));
                    }
                    for (o, wi, sc) in idx {
                        let mut i = self.opd(fr, o);
                        if *wi < 64 {
                            i = Self::cast(Cast::Sext, *wi, 64, &i);
                        }
                        if *sc != 1 {
                            i = Self::bin(BinOp::Mul, 64, &i, &V::C(*sc));
                        }
                        v = Self::bin(BinOp::Add, 64, &v, &i);
                    }
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                Inst::Load { d, ty, size, p } => {
                    let fr = st.frames.last().unwrap();
                    let pv = self.opd(fr, p);
                    if *size == 0 {
                        let r = Self::cv(&self.m.zero(*ty));
                        let fr = fr!();
                        fr.regs[*d as usize] = r;
                        fr.pc += 1;
                        continue;
                    }
                    // fast path
                    if let V::C(a) = pv {
                        let w = self.m.width(*ty);
                        if w != 0 && *size <= 8 {
                            if let Some(o) = st.mem.get((a >> 32) as u32) {
                                let off = (a & 0xffff_ffff) as usize;
                                let n = *size as usize;
                                if off + n <= o.data.len() && o.concrete(off, n) {
                                    let mut k = 0u64;
                                    for i in (0..n).rev() {
                                        k = (k << 8) | o.data[off + i] as u64;
                                    }
                                    let fr = fr!();
                                    fr.regs[*d as usize] = V::C(k & mask(w));
                                    fr.pc += 1;
                                    continue;
                                }
                            }
                        }
                    }
                    let slot = if let Opd::Reg(r) = p { Some(*r) } else { None };
                    let (id, off) = self.resolve(st, &pv, slot, pend)?;
                    let mut r = self.load_ty(st, *ty, id, &off)?;
                    if st.split {
                        if let V::S(e) = r {
                            if Self::leaves(e, 64).is_some() {
                                let mut e = e;
                                while cx().cval(e).is_none() {
                                    let n = *cx().node(e);
                                    let c = self.decide(st, n.a, pend)?;
                                    e = if c { n.b } else { n.c };
                                }
                                r = V::of(e);
                            }
                        }
                    }
                    let fr = fr!();
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Store { ty, size, v, p } => {
                    let fr = st.frames.last().unwrap();
                    let pv = self.opd(fr, p);
                    let vv = self.opd_w(fr, v, self.m.width(*ty));
                    if *size != 0 {
                        let slot = if let Opd::Reg(r) = p { Some(*r) } else { None };
                        let (id, off) = self.resolve(st, &pv, slot, pend)?;
                        self.store_ty(st, *ty, &vv, id, &off)?;
                    }
                    fr!().pc += 1;
                }
                Inst::Alloca { d, size, count } => {
                    let c = match self.opd(st.frames.last().unwrap(), count) {
                        V::C(k) => k,
                        _ => {
                            self.fatal(st, "symbolic alloca".into());
                            return Err(Stopped::Killed);
                        }
                    };
                    let a = st.mem.alloc((*size * c) as usize);
                    let fr = fr!();
                    fr.allocas.push((a >> 32) as u32);
                    fr.regs[*d as usize] = V::C(a);
                    fr.pc += 1;
                }
                Inst::Br { t } => {
                    let fr = fr!();
                    let b = f.block_of[pc];
                    self.goto(fr, b, *t);
                    if let Some(s) = stop {
                        if s.depth == depth && s.block == *t {
                            return Ok(Some(End::Reached));
                        }
                    }
                }
                Inst::CondBr { c, t, f: e } => {
                    let cv = self.opd(st.frames.last().unwrap(), c);
                    let take = match cv {
                        V::C(k) => k == 1,
                        V::S(ce) => {
                            self.stats.branch_sym += 1;
                            match self.sym_branch(st, ce, *t, *e, pend, stop, budget)? {
                                Some(b) => b,
                                None => {
                                    // merged at the join, or replaced by a state that got further
                                    if st.frames.is_empty() {
                                        return Ok(Some(End::Done));
                                    }
                                    if let Some(s) = stop {
                                        if st.frames.len() < s.depth {
                                            return Ok(Some(End::Budget));
                                        }
                                        let fr = st.frames.last().unwrap();
                                        if st.frames.len() == s.depth
                                            && fr.f.blocks[s.block as usize].start == fr.pc
                                        {
                                            return Ok(Some(End::Reached));
                                        }
                                    }
                                    return Ok(None);
                                }
                            }
                        }
                        _ => panic!("branch"),
                    };
                    let to = if take { *t } else { *e };
                    let b = f.block_of[pc];
                    let fr = fr!();
                    self.goto(fr, b, to);
                    if let Some(s) = stop {
                        if s.depth == depth && s.block == to {
                            return Ok(Some(End::Reached));
                        }
                    }
                }
                Inst::Switch { w, v, cases, def } => {
                    let x = self.opd(st.frames.last().unwrap(), v);
                    let to = match x {
                        V::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                        V::S(e) => self.sym_switch(st, e, *w, cases, *def, pend)?,
                        _ => panic!("switch"),
                    };
                    let b = f.block_of[pc];
                    let fr = fr!();
                    self.goto(fr, b, to);
                    if let Some(s) = stop {
                        if s.depth == depth && s.block == to {
                            return Ok(Some(End::Reached));
                        }
                    }
                }
                Inst::Ret { v, w } => {
                    let fr = st.frames.last().unwrap();
                    let r = v.as_ref().map(|o| self.opd_w(fr, o, *w));
                    let fr = st.frames.pop().unwrap();
                    for id in &fr.allocas {
                        st.mem.release(*id);
                    }
                    if st.frames.is_empty() {
                        self.finish(st);
                        return Ok(Some(End::Done));
                    }
                    let caller = fr!();
                    if let (Some(d), Some(r)) = (fr.ret_reg, r) {
                        caller.regs[d as usize] = r;
                    }
                    // the call instruction is still current in the caller
                    self.after_call(st);
                    if let Some(s) = stop {
                        if st.frames.len() < s.depth {
                            return Ok(Some(End::Budget));
                        }
                    }
                    return Ok(None);
                }
                Inst::Unreachable => {
                    self.fatal(st, "unreachable executed".into());
                    return Err(Stopped::Killed);
                }
                Inst::Call { d, ret, callee, args, .. } => {
                    let fr = st.frames.last().unwrap();
                    let mut vals: Vec<V> = Vec::with_capacity(args.len());
                    for (o, t) in args {
                        vals.push(self.opd_w(fr, o, self.m.width(*t)));
                    }
                    let target = match callee {
                        Callee::Func(i) => Some(*i),
                        Callee::Indirect(o) => {
                            let pv = self.opd(fr, o);
                            let slot = if let Opd::Reg(r) = o { Some(*r) } else { None };
                            let (id, _) = self.resolve(st, &pv, slot, pend)?;
                            let fi = (id as u64).wrapping_sub(FUNC_BASE);
                            if fi >= self.m.funcs.len() as u64 {
                                self.fatal(st, format!("indirect call to {:?}", pv));
                                return Err(Stopped::Killed);
                            }
                            Some(fi as u32)
                        }
                        _ => None,
                    };
                    if let Some(fi) = target {
                        if let Some(g) = self.m.function(fi) {
                            let sp = match self.call_kind.get(&fi) {
                                Some(s) => *s,
                                None => {
                                    let s = special_of(&self.m.funcs[fi as usize].name, &self.cfg);
                                    self.call_kind.insert(fi, s);
                                    s
                                }
                            };
                            if sp == Special::None || sp == Special::StdoutWrite && !st.direct || sp == Special::Sha512 && !self.sha512(st, &vals)? {
                                let mut regs = vec![V::C(0); g.nregs as usize];
                                for (i, v) in vals.into_iter().enumerate() {
                                    if i < g.nparams as usize {
                                        regs[i] = v;
                                    }
                                }
                                if st.frames.len() > 2000 {
                                    self.report(st, "panic", "stack overflow (2000 frames)".into(), 0);
                                    return Err(Stopped::Killed);
                                }
                                st.frames.push(Rc::new(Frame { f: g, regs, pc: 0, ret_reg: *d, allocas: vec![] }));
                                return Ok(None);
                            }
                            let r = if sp == Special::Sha512 { None } else { self.special(st, sp, &vals, pend)? };
                            let fr = fr!();
                            if let (Some(d), Some(r)) = (d, r) {
                                fr.regs[*d as usize] = r;
                            }
                            self.after_call(st);
                            continue;
                        }
                    }
                    let name: Rc<str> = match (callee, target) {
                        (Callee::Extern(n), _) => n.clone(),
                        (Callee::Asm(a), _) => format!("asm {}", a).into(),
                        (_, Some(fi)) => self.m.funcs[fi as usize].name.as_str().into(),
                        _ => unreachable!(),
                    };
                    let n_before = pend.len();
                    let r = self.external(st, &name, &vals, args, *ret, pend)?;
                    let _ = n_before;
                    if let (Some(d), Some(r)) = (d, r) {
                        fr!().regs[*d as usize] = r;
                    }
                    self.after_call(st);
                }
                Inst::ExtractValue { d, a, path } => {
                    let fr = fr!();
                    let mut v = self.opd(fr, a);
                    for i in path {
                        v = match &v {
                            V::A(l) => l[*i as usize].clone(),
                            _ => panic!("extractvalue"),
                        };
                    }
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                Inst::InsertValue { d, a, v, path } => {
                    let fr = fr!();
                    let agg = self.opd(fr, a);
                    let val = self.opd(fr, v);
                    let r = Self::insert(&agg, &val, path);
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::ExtractElem { d, a, i } => {
                    let fr = fr!();
                    let v = self.opd(fr, a);
                    let k = match self.opd(fr, i) {
                        V::C(k) => k as usize,
                        _ => {
                            self.fatal(st, "symbolic lane".into());
                            return Err(Stopped::Killed);
                        }
                    };
                    fr.regs[*d as usize] = Self::lanes(&v)[k].clone();
                    fr.pc += 1;
                }
                Inst::InsertElem { d, a, v, i } => {
                    let fr = fr!();
                    let agg = self.opd(fr, a);
                    let val = self.opd(fr, v);
                    let k = match self.opd(fr, i) {
                        V::C(k) => k as u32,
                        _ => {
                            self.fatal(st, "symbolic lane".into());
                            return Err(Stopped::Killed);
                        }
                    };
                    fr.regs[*d as usize] = Self::insert(&agg, &val, &[k]);
                    fr.pc += 1;
                }
                Inst::Shuffle { d, a, b, mask } => {
                    let fr = fr!();
                    let (x, y) = (self.opd(fr, a), self.opd(fr, b));
                    let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                    let n = x.len();
                    let r: Vec<V> = mask
                        .iter()
                        .map(|k| match k {
                            Some(k) if (*k as usize) < n => x[*k as usize].clone(),
                            Some(k) => y[*k as usize - n].clone(),
                            None => V::C(0),
                        })
                        .collect();
                    fr.regs[*d as usize] = V::A(Rc::new(r));
                    fr.pc += 1;
                }
                Inst::Copy { d, a } => {
                    let fr = fr!();
                    fr.regs[*d as usize] = self.opd(fr, a);
                    fr.pc += 1;
                }
                Inst::Rmw { d, op, w, p, v } => {
                    let fr = st.frames.last().unwrap();
                    let pv = self.opd(fr, p);
                    let vv = self.opd(fr, v);
                    let (id, off) = self.resolve(st, &pv, None, pend)?;
                    let n = (*w as usize + 7) / 8;
                    let old = self.read(st, id, &off, n)?;
                    let new = match &**op {
                        "xchg" => vv.clone(),
                        "add" => Self::bin(BinOp::Add, *w, &old, &vv),
                        "sub" => Self::bin(BinOp::Sub, *w, &old, &vv),
                        "and" => Self::bin(BinOp::And, *w, &old, &vv),
                        "or" => Self::bin(BinOp::Or, *w, &old, &vv),
                        "xor" => Self::bin(BinOp::Xor, *w, &old, &vv),
                        o => {
                            self.fatal(st, format!("atomicrmw {}", o));
                            return Err(Stopped::Killed);
                        }
                    };
                    self.write(st, id, &off, &new, n)?;
                    let fr = fr!();
                    fr.regs[*d as usize] = old;
                    fr.pc += 1;
                }
                Inst::CmpXchg { d, w, p, cmp, new } => {
                    let fr = st.frames.last().unwrap();
                    let pv = self.opd(fr, p);
                    let cv = self.opd(fr, cmp);
                    let nv = self.opd(fr, new);
                    let (id, off) = self.resolve(st, &pv, None, pend)?;
                    let n = (*w as usize + 7) / 8;
                    let old = self.read(st, id, &off, n)?;
                    let c = Self::icmp(Pred::Eq, *w, &old, &cv);
                    let sel = Self::select(&c, *w, nv, old.clone());
                    self.write(st, id, &off, &sel, n)?;
                    let fr = fr!();
                    fr.regs[*d as usize] = V::A(Rc::new(vec![old, c]));
                    fr.pc += 1;
                }
                Inst::Nop => fr!().pc += 1,
                Inst::Unsupported(s) => {
                    self.fatal(st, format!("unsupported instruction {}", s));
                    return Err(Stopped::Killed);
                }
            }
        }
    }

    fn insert(agg: &V, val: &V, path: &[u32]) -> V {
        match agg {
            V::A(l) => {
                let mut l2 = (**l).clone();
                let i = path[0] as usize;
                l2[i] = if path.len() == 1 { val.clone() } else { Self::insert(&l[i], val, &path[1..]) };
                V::A(Rc::new(l2))
            }
            _ => panic!("insertvalue"),
        }
    }

    fn cast(op: Cast, wf: u32, wt: u32, v: &V) -> V {
        match v {
            V::C(k) if wf <= 64 && wt <= 64 => V::C(match op {
                Cast::Sext => (sx(*k as u128, wf) as u64) & mask(wt),
                Cast::Trunc => *k & mask(wt),
                _ => *k,
            }),
            v => {
                let e = v.e(wf);
                let r = match op {
                    Cast::Zext => cx().zext(e, wt),
                    Cast::Sext => cx().sext(e, wt),
                    Cast::Trunc => cx().trunc(e, wt),
                    _ => e,
                };
                V::of(r)
            }
        }
    }

    /// The current instruction is a finished call: continue after it.
    fn after_call(&mut self, st: &mut State) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let pc = fr.pc as usize;
        let f = fr.f.clone();
        match &f.insts[pc] {
            Inst::Call { normal: Some(n), .. } => {
                let b = f.block_of[pc];
                self.goto(fr, b, *n);
            }
            _ => fr.pc += 1,
        }
    }

    fn sym_switch(
        &mut self,
        st: &mut State,
        e: Id,
        w: u32,
        cases: &[(u64, u32)],
        def: u32,
        pend: &mut Vec<State>,
    ) -> R<u32> {
        // group cases by target
        let mut by: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
        for (k, t) in cases {
            if *t != def {
                by.entry(*t).or_default().push(*k);
            }
        }
        let mut none = cx().k(1, 1);
        let mut conds: Vec<(Id, u32)> = vec![];
        for (t, ks) in &by {
            let mut c = cx().k(1, 0);
            for k in ks {
                let kk = cx().k(w, *k as u128);
                let q = cx().eq(e, kk);
                c = cx().or(c, q);
            }
            let nc = cx().not(c);
            none = cx().and(none, nc);
            conds.push((c, *t));
        }
        conds.push((none, def));
        // pick the one true in the model; queue the other feasible ones
        let mut mine = None;
        for (c, t) in &conds {
            if mine.is_none() && self.eval(st, *c) == 1 {
                mine = Some((*c, *t));
                continue;
            }
        }
        let (mc, mt) = mine.expect("switch arm");
        let mut any = false;
        for (c, t) in conds {
            if t == mt {
                continue;
            }
            if let Some(m) = self.may(st, c) {
                any = true;
                self.note_fork(st);
                let mut o = st.clone();
                o.model = m;
                o.forks += 1;
                self.push_pc(&mut o, c);
                pend.push(o);
            }
        }
        if any {
            self.push_pc(st, mc);
        }
        Ok(mt)
    }

    /// A branch on a symbolic condition. Some(b): take b (the other side, if
    /// feasible, has been queued). None: both sides ran to their join and were
    /// merged into `st`, or `st` was replaced by a state that got further.
    fn sym_branch(
        &mut self,
        st: &mut State,
        c: Id,
        t: u32,
        e: u32,
        pend: &mut Vec<State>,
        stop: Option<&Stop>,
        budget: &mut u64,
    ) -> R<Option<bool>> {
        if Instant::now() > self.cfg.deadline {
            self.stats.incomplete += 1;
            self.stop_all = true;
            if std::env::var("SYMEX_WHERE").is_ok() {
                eprintln!("{}", self.backtrace(st));
            }
            return Err(Stopped::Killed);
        }
        let v = self.eval(st, c) == 1;
        let nc = cx().not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        let om = match self.may(st, other) {
            Some(m) => m,
            None => return Ok(Some(v)),
        };
        self.note_fork(st);
        let fr = st.frames.last().unwrap();
        let site = (fr.f.idx, fr.pc);
        let b = fr.f.block_of[fr.pc as usize];
        let join = fr.f.ipdom[b as usize];
        let depth = st.frames.len();
        let mut o = st.clone();
        o.model = om;
        self.push_pc(&mut o, other);
        o.forks += 1;
        let base_pc = st.pc.len();
        let try_merge = self.cfg.merge
            && !st.split
            && join != u32::MAX
            && *self.merge_fail.get(&site).unwrap_or(&0) < 6
            && stop.map(|_| *budget > 40).unwrap_or(true);
        if !try_merge {
            pend.push(o);
            self.push_pc(st, mine);
            st.forks += 1;
            return Ok(Some(v));
        }
        let mut a = st.clone();
        self.push_pc(&mut a, mine);
        a.forks += 1;
        let s = Stop { depth, block: join };
        let mut go = |this: &mut Self, x: &mut State, taken: bool, sub: &mut Vec<State>| -> End {
            let to = if taken { t } else { e };
            let fr = Rc::make_mut(x.frames.last_mut().unwrap());
            this.goto(fr, b, to);
            if to == join {
                return End::Reached;
            }
            let mut bud = this.cfg.merge_budget.min(*budget);
            let b0 = bud;
            let r = this.exec(x, sub, Some(&s), &mut bud);
            let _ = b0;
            r
        };
        let mut suba = vec![];
        let ea = go(self, &mut a, v, &mut suba);
        if self.stop_all {
            return Err(Stopped::Killed);
        }
        let mut subo = vec![];
        let eo = if matches!(ea, End::Reached) && suba.is_empty() {
            go(self, &mut o, !v, &mut subo)
        } else {
            // no merge possible: leave the other side for later
            let fr = Rc::make_mut(o.frames.last_mut().unwrap());
            let to = if v { e } else { t };
            self.goto(fr, b, to);
            End::Budget
        };
        if self.stop_all {
            return Err(Stopped::Killed);
        }
        if matches!(ea, End::Reached) && matches!(eo, End::Reached) && suba.is_empty() && subo.is_empty() {
            if a.pc.len() == base_pc + Self::conj(mine)
                && o.pc.len() == base_pc + Self::conj(other)
                && self.try_join(&mut a, &o, mine)
            {
                self.stats.merges += 1;
                *self.merge_fail.entry(site).or_default() = -20;
                a.pc.truncate(base_pc);
                a.fixed = st.fixed.clone();
                *st = a;
                return Ok(None);
            }
        }
        *self.merge_fail.entry(site).or_default() += 1;
        pend.append(&mut suba);
        pend.append(&mut subo);
        let aover = matches!(ea, End::Done);
        let oover = matches!(eo, End::Done);
        if !aover {
            if !oover {
                pend.push(o);
            }
            *st = a;
            return Ok(None);
        }
        if !oover {
            *st = o;
            return Ok(None);
        }
        Err(Stopped::Killed)
    }

    fn conj(c: Id) -> usize {
        let n = *cx().node(c);
        if n.op == Op::Const {
            0
        } else if n.op == Op::And && n.w == 1 {
            Self::conj(n.a) + Self::conj(n.b)
        } else {
            1
        }
    }

    /// Join state o into a: values become ite(c, a's, o's).
    fn try_join(&mut self, a: &mut State, o: &State, c: Id) -> bool {
        if a.frames.len() != o.frames.len()
            || a.inputs.len() != o.inputs.len()
            || a.uf != o.uf
            || a.out.len() != o.out.len()
            || a.obs.len() != o.obs.len()
            || a.cover != o.cover
            || a.out != o.out
            || a.room != o.room
            || a.direct != o.direct
            || a.obs != o.obs
        {
            return false;
        }
        let ids = match a.mem.diff(&o.mem) {
            Some(x) => x,
            None => return false,
        };
        // outer frames must be untouched
        for i in 0..a.frames.len() - 1 {
            if !Rc::ptr_eq(&a.frames[i], &o.frames[i]) {
                return false;
            }
        }
        let top = a.frames.len() - 1;
        if a.frames[top].allocas != o.frames[top].allocas || a.frames[top].pc != o.frames[top].pc {
            return false;
        }
        // phis
        let f = a.frames[top].f.clone();
        let blk = f.blocks.iter().position(|b| b.start == a.frames[top].pc).unwrap();
        let mut newregs = vec![];
        for (r, w) in &f.blocks[blk].phis {
            let (x, y) = (&a.frames[top].regs[*r as usize], &o.frames[top].regs[*r as usize]);
            match (x, y) {
                (V::A(_), _) | (_, V::A(_)) => return false,
                _ => {
                    let (xe, ye) = (x.e(*w), y.e(*w));
                    if xe == ye {
                        continue;
                    }
                    if *w == 64 && cx().cval(xe).is_some() && cx().cval(ye).is_some() {
                        return false;
                    }
                    if *w == 64 && (cx().node(xe).hi >= 1 << 32 && cx().node(ye).hi >= 1 << 32) {
                        return false;
                    }
                    newregs.push((*r, V::of(cx().ite(c, xe, ye))));
                }
            }
        }
        // memory
        let mut writes: Vec<(u32, usize, Id)> = vec![];
        for id in &ids {
            let (x, y) = (a.mem.get(*id).unwrap().clone(), o.mem.get(*id).unwrap().clone());
            if x.data.len() != y.data.len() || !x.log.is_empty() || !y.log.is_empty() {
                return false;
            }
            let n = x.data.len();
            let mut i = 0;
            while i < n {
                let (bx, by) = (x.byte(i), y.byte(i));
                if bx != by {
                    // a whole differing 8-byte word of plain numbers: lengths, pointers
                    let w0 = i & !7;
                    if w0 + 8 <= n && x.concrete(w0, 8) && y.concrete(w0, 8) {
                        let g = |o: &Obj| u64::from_le_bytes(o.data[w0..w0 + 8].try_into().unwrap());
                        let (p, q) = (g(&x), g(&y));
                        // only single-byte data inside a word may merge
                        let d = p ^ q;
                        let small = p < 65536 && q < 65536;
                        if d != 0 && (small && (p >> 8 == 0 && q >> 8 == 0) && w0 == i && n != 8 && x.sym.is_empty()) {
                            // looks like a usize counter
                            return false;
                        }
                        if p >= 1 << 32 && q >= 1 << 32 && p >> 32 < a.mem.next as u64 && q >> 32 < a.mem.next as u64 && d >> 32 != 0 {
                            return false;
                        }
                    }
                    let e = cx().ite(c, bx, by);
                    writes.push((*id, i, e));
                    if writes.len() > 64 {
                        return false;
                    }
                }
                i += 1;
            }
        }
        for (id, i, e) in writes {
            a.mem.get_mut(id).unwrap().set(i, e);
        }
        let fr = Rc::make_mut(&mut a.frames[top]);
        for (r, v) in newregs {
            fr.regs[r as usize] = v;
        }
        true
    }

    fn finish(&mut self, st: &mut State) {
        self.stats.paths += 1;
        self.stats.steps += st.steps;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        for i in 0..64 {
            if st.cover >> i & 1 == 1 {
                self.cover_all[i] += 1;
            }
        }
        // keep a spread of paths as samples for native validation
        let k = self.stats.paths;
        let keep = if self.samples.len() < self.cfg.samples {
            true
        } else {
            // deterministic thinning
            k.is_power_of_two() || k % 4096 == 0
        };
        if keep && self.samples.len() < self.cfg.samples * 2 {
            let inp = self.inputs_of(st);
            let obs: Vec<u64> = st.obs.clone().iter().map(|e| self.eval(st, *e) as u64).collect();
            self.samples.push((inp, obs, st.cover));
        }
    }

    // ------------------------------------------------------------- externals

    fn new_sym(&mut self, st: &mut State, w: u32) -> Id {
        let i = st.inputs.len() as u32;
        st.inputs.push(Input::Sym(w));
        cx().var(w, i)
    }

    fn conc(&mut self, st: &mut State, v: &V, w: u32, pend: &mut Vec<State>) -> R<u64> {
        self.concretize(st, v, w, pend)
    }

    fn cstr(&self, st: &State, p: u64, n: usize) -> Option<String> {
        let o = st.mem.get((p >> 32) as u32)?;
        let off = (p & 0xffff_ffff) as usize;
        if off + n > o.data.len() || !o.concrete(off, n) {
            return None;
        }
        String::from_utf8(o.data[off..off + n].to_vec()).ok()
    }

    /// SHA-512's compression function on symbolic data: an uninterpreted
    /// function of the state and the block. False: all is concrete, run the code.
    fn sha512(&mut self, st: &mut State, vals: &[V]) -> R<bool> {
        let (p, b, n) = match vals {
            [V::C(p), V::C(b), V::C(n), ..] => (*p, *b, *n),
            _ => return Ok(false),
        };
        for i in 0..n {
            let mut args = self.read_bytes(st, p, 64)?;
            args.extend(self.read_bytes(st, b + 128 * i, 128)?);
            if n == 1 && args.iter().all(|x| cx().cval(*x).is_some()) {
                return Ok(false);
            }
            let mut words = vec![];
            let mut out = vec![];
            for _ in 0..8 {
                let k = st.inputs.len() as u32;
                st.inputs.push(Input::Uf(64));
                let e = cx().var(64, k);
                words.push(e);
                for j in 0..8 {
                    out.push(cx().extract(e, 8 * j, 8));
                }
            }
            // a function: the same arguments have the same result
            let old = st.uf.clone();
            for (a, w) in old.iter() {
                let mut same = cx().k(1, 1);
                for (x, y) in a.iter().zip(&args) {
                    let e = cx().eq(*x, *y);
                    same = cx().and(same, e);
                }
                let mut c = cx().k(1, 1);
                for (x, y) in w.iter().zip(&words) {
                    let e = cx().eq(*x, *y);
                    c = cx().and(c, e);
                }
                let differ = cx().not(same);
                let c = cx().or(differ, c);
                if cx().cval(c) != Some(1) {
                    match self.may(st, c) {
                        Some(m) => st.model = m,
                        None => {
                            self.fatal(st, "uninterpreted function".into());
                            return Err(Stopped::Killed);
                        }
                    }
                    self.push_pc(st, c);
                }
            }
            Rc::make_mut(&mut st.uf).push((args, words));
            self.write_bytes(st, p, &out)?;
        }
        Ok(true)
    }

    fn special(&mut self, st: &mut State, sp: Special, vals: &[V], pend: &mut Vec<State>) -> R<Option<V>> {
        let _ = &pend;
        match sp {
            Special::Panic | Special::AllocFail => {
                // look for a core::panic::Location among the arguments
                let mut loc = String::new();
                for v in vals {
                    if let V::C(p) = v {
                        if let Some(o) = st.mem.get((*p >> 32) as u32) {
                            let off = (*p & 0xffff_ffff) as usize;
                            if off + 24 <= o.data.len() && o.concrete(off, 24) {
                                let g = |k: usize, n: usize| {
                                    let mut x = 0u64;
                                    for i in (0..n).rev() {
                                        x = (x << 8) | o.data[off + k + i] as u64;
                                    }
                                    x
                                };
                                let (fp, fl, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                                if fl > 3 && fl < 400 {
                                    if let Some(s) = self.cstr(st, fp, fl as usize) {
                                        loc = format!("{}:{}:{}", s.trim_end_matches('\0'), line, col);
                                    }
                                }
                            }
                        }
                    }
                }
                let what = if sp == Special::Panic { format!("panic at {}", loc) } else { "allocation failure".into() };
                self.report(st, "panic", what, 0);
                Err(Stopped::Killed)
            }
            Special::FormatString => {
                // String::new() through the sret pointer: { cap, ptr, len } or a permutation
                if let V::C(p) = vals[0] {
                    let id = (p >> 32) as u32;
                    let off = p & 0xffff_ffff;
                    self.write(st, id, &V::C(off), &V::C(0), 8)?;
                    self.write(st, id, &V::C(off + 8), &V::C(1), 8)?;
                    self.write(st, id, &V::C(off + 16), &V::C(0), 8)?;
                    return Ok(None);
                }
                self.fatal(st, "format stub".into());
                Err(Stopped::Killed)
            }
            Special::StdoutWrite => {
                // Buffering and flushing at newlines change nothing in what is
                // written in the end; the fault-free stream is the concatenation.
                let p = self.conc(st, &vals[1], 64, pend)?;
                let n = self.conc(st, &vals[2], 64, pend)?;
                let b = self.read_bytes(st, p, n as usize)?;
                st.out.extend(b);
                Ok(Some(V::C(0)))
            }
            Special::Memrchr => {
                // Only used by std's LineWriter to look for a newline to flush at;
                // answering None only delays flushing.
                Ok(Some(V::A(Rc::new(vec![V::C(0), V::C(0)]))))
            }
            _ => unreachable!(),
        }
    }

    fn external(
        &mut self,
        st: &mut State,
        name: &str,
        a: &[V],
        args: &[(Opd, TyId)],
        ret: TyId,
        pend: &mut Vec<State>,
    ) -> R<Option<V>> {
        let w0 = args.first().map(|x| self.m.width(x.1)).unwrap_or(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a, args, w0, ret, pend);
        }
        match name {
            // ---- harness interface
            "rsym_bits" => {
                let w = match a[0] {
                    V::C(k) => k as u32,
                    _ => panic!("rsym_bits width"),
                };
                let e = self.new_sym(st, w);
                Ok(Some(V::of(cx().zext(e, 64))))
            }
            "rsym_bytes" => {
                let p = self.conc(st, &a[0], 64, pend)?;
                let n = self.conc(st, &a[1], 64, pend)?;
                for i in 0..n {
                    let e = self.new_sym(st, 8);
                    self.write(st, (p >> 32) as u32, &V::C((p & 0xffff_ffff) + i), &V::of(e), 1)?;
                }
                Ok(None)
            }
            "rsym_choose" => {
                let n = self.conc(st, &a[0], 64, pend)?;
                if n == 0 {
                    return Err(Stopped::Killed);
                }
                // the others restart at this instruction with the choice made
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.inputs.push(Input::Conc(k));
                    let fr = Rc::make_mut(o.frames.last_mut().unwrap());
                    let f = fr.f.clone();
                    if let Inst::Call { d: Some(d), .. } = &f.insts[fr.pc as usize] {
                        fr.regs[*d as usize] = V::C(k);
                    }
                    self.after_call(&mut o);
                    pend.push(o);
                }
                st.inputs.push(Input::Conc(0));
                Ok(Some(V::C(0)))
            }
            "rsym_concretize" => {
                let k = self.conc(st, &a[0], 64, pend)?;
                Ok(Some(V::C(k)))
            }
            "rsym_assume" => {
                let c = a[0].e(1);
                if cx().cval(c) == Some(1) {
                    return Ok(None);
                }
                match self.may(st, c) {
                    Some(m) => {
                        st.model = m;
                        self.push_pc(st, c);
                        Ok(None)
                    }
                    None => {
                        self.stats.assume_cut += 1;
                        Err(Stopped::Killed)
                    }
                }
            }
            "rsym_cover" => {
                if let V::C(k) = a[0] {
                    st.cover |= 1 << k;
                }
                Ok(None)
            }
            "rsym_observe" => {
                let e = a[0].e(64);
                st.obs.push(e);
                Ok(None)
            }
            "rsym_is_symbolic" => Ok(Some(V::C(1))),
            "rsym_split" => {
                let k = self.conc(st, &a[0], 1, pend)?;
                st.split = k & 1 == 1;
                Ok(None)
            }
            "rsym_direct" => {
                let k = self.conc(st, &a[0], 64, pend)?;
                st.direct = k & 1 == 1;
                Ok(None)
            }
            "rsym_stdout_room" => {
                let n = self.conc(st, &a[0], 64, pend)?;
                let e = self.conc(st, &a[1], 64, pend)?;
                st.room = Some((n, e));
                Ok(None)
            }
            "rsym_known" => {
                // a listed finding: record one witness and end this path
                let k = self.conc(st, &a[0], 64, pend)?;
                self.stats.known_paths += 1;
                if !self.reports.iter().any(|r| r.known == k) {
                    self.report(st, "known", format!("known finding {}", k), k);
                }
                Err(Stopped::Killed)
            }
            "rsym_stdout_take" => {
                let p = self.conc(st, &a[0], 64, pend)?;
                let n = self.conc(st, &a[1], 64, pend)? as usize;
                let b = std::mem::take(&mut st.out);
                if b.len() > n {
                    self.fatal(st, "stdout buffer too small".into());
                    return Err(Stopped::Killed);
                }
                self.write_bytes(st, p, &b)?;
                Ok(Some(V::C(b.len() as u64)))
            }
            "rsym_trace" => {
                let mut t = String::new();
                for v in a {
                    match v {
                        V::C(k) => t.push_str(&format!(" {}", k)),
                        V::S(e) => t.push_str(&format!(" {}", cx().show(*e, 6))),
                        _ => {}
                    }
                }
                eprintln!("TRACE{}", t);
                Ok(None)
            }
            // ---- allocation
            "malloc" | "calloc" => {
                let mut n = self.conc(st, &a[0], 64, pend)?;
                if name == "calloc" {
                    n = n.saturating_mul(self.conc(st, &a[1], 64, pend)?);
                }
                if n > 1 << 30 {
                    return Ok(Some(V::C(0)));
                }
                Ok(Some(V::C(st.mem.alloc(n as usize))))
            }
            "posix_memalign" => {
                let p = self.conc(st, &a[0], 64, pend)?;
                let n = self.conc(st, &a[2], 64, pend)?;
                let q = st.mem.alloc(n as usize);
                self.write(st, (p >> 32) as u32, &V::C(p & 0xffff_ffff), &V::C(q), 8)?;
                Ok(Some(V::C(0)))
            }
            "aligned_alloc" => {
                let n = self.conc(st, &a[1], 64, pend)?;
                Ok(Some(V::C(st.mem.alloc(n as usize))))
            }
            "realloc" => {
                let p = self.conc(st, &a[0], 64, pend)?;
                let n = self.conc(st, &a[1], 64, pend)? as usize;
                if p == 0 {
                    return Ok(Some(V::C(st.mem.alloc(n))));
                }
                if n > 1 << 30 {
                    return Ok(Some(V::C(0)));
                }
                let id = (p >> 32) as u32;
                if st.mem.get(id).is_none() || p & 0xffff_ffff != 0 {
                    return Err(self.mem_fault(st, "realloc of an invalid pointer"));
                }
                // grown in place under the same id: simple and keeps sharing
                let o = st.mem.get_mut(id).unwrap();
                o.data.resize(n, 0);
                if !o.sym.is_empty() {
                    o.sym.resize(n, 0);
                }
                Ok(Some(V::C(p)))
            }
            "free" => {
                let p = self.conc(st, &a[0], 64, pend)?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    if st.mem.get(id).is_none() || p & 0xffff_ffff != 0 {
                        return Err(self.mem_fault(st, "free of an invalid pointer"));
                    }
                    st.mem.release(id);
                }
                Ok(None)
            }
            // ---- memory
            "memcmp" | "bcmp" => {
                let n = self.conc(st, &a[2], 64, pend)? as usize;
                let p = self.conc(st, &a[0], 64, pend)?;
                let q = self.conc(st, &a[1], 64, pend)?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                if name == "bcmp" {
                    let mut same = cx().k(1, 1);
                    for i in 0..n {
                        if x[i] == y[i] {
                            continue;
                        }
                        let t = cx().eq(x[i], y[i]);
                        same = cx().and(same, t);
                        if cx().cval(same) == Some(0) {
                            break;
                        }
                    }
                    let (z, o) = (cx().k(32, 0), cx().k(32, 1));
                    return Ok(Some(V::of(cx().ite(same, z, o))));
                }
                let mut r = cx().k(32, 0);
                for i in (0..n).rev() {
                    if x[i] == y[i] {
                        continue;
                    }
                    let e = cx().eq(x[i], y[i]);
                    let l = cx().ult(x[i], y[i]);
                    let (m1, p1) = (cx().k(32, u32::MAX as u128), cx().k(32, 1));
                    let d = cx().ite(l, m1, p1);
                    r = cx().ite(e, r, d);
                }
                Ok(Some(V::of(r)))
            }
            "memcpy" | "memmove" => {
                let n = self.conc(st, &a[2], 64, pend)?;
                let d = self.conc(st, &a[0], 64, pend)?;
                let s = self.conc(st, &a[1], 64, pend)?;
                self.copy(st, d, s, n)?;
                Ok(Some(V::C(d)))
            }
            "strlen" => {
                let p = self.conc(st, &a[0], 64, pend)?;
                let o = st.mem.get((p >> 32) as u32).cloned();
                if let Some(o) = o {
                    let off = (p & 0xffff_ffff) as usize;
                    if o.sym.is_empty() {
                        let n = o.data[off..].iter().position(|x| *x == 0).unwrap_or(0);
                        return Ok(Some(V::C(n as u64)));
                    }
                }
                self.fatal(st, "strlen".into());
                Err(Stopped::Killed)
            }
            // ---- environment
            "write" => {
                let fd = self.conc(st, &a[0], 32, pend)?;
                let p = self.conc(st, &a[1], 64, pend)?;
                let n = self.conc(st, &a[2], 64, pend)?;
                let mut n = n;
                if fd == 1 {
                    if st.direct && n > 0 {
                        self.fatal(st, "stdout written past StdoutLock::write_all".into());
                        return Err(Stopped::Killed);
                    }
                    if let Some((r, code)) = st.room {
                        if n > 0 && r == 0 {
                            let e = self.errno;
                            self.write(st, (e >> 32) as u32, &V::C(e & 0xffff_ffff), &V::C(code), 4)?;
                            return Ok(Some(V::C(u64::MAX)));
                        }
                        n = n.min(r);
                        st.room = Some((r - n, code));
                    }
                    let b = self.read_bytes(st, p, n as usize)?;
                    st.out.extend(b);
                }
                Ok(Some(V::C(n)))
            }
            "writev" => {
                let p = self.conc(st, &a[1], 64, pend)?;
                let k = self.conc(st, &a[2], 32, pend)?;
                let mut tot = 0;
                for i in 0..k {
                    let q = self.read(st, (p >> 32) as u32, &V::C((p & 0xffff_ffff) + i * 16), 8)?;
                    let l = self.read(st, (p >> 32) as u32, &V::C((p & 0xffff_ffff) + i * 16 + 8), 8)?;
                    if let (V::C(q), V::C(l)) = (q, l) {
                        let b = self.read_bytes(st, q, l as usize)?;
                        st.out.extend(b);
                        tot += l;
                    }
                }
                Ok(Some(V::C(tot)))
            }
            "getenv" | "__cxa_thread_atexit_impl" => Ok(Some(V::C(0))),
            "__errno_location" => Ok(Some(V::C(self.errno))),
            "syscall" => Ok(Some(V::C(u64::MAX))),
            "gettid" | "getpid" | "pthread_self" => Ok(Some(V::C(1))),
            "sched_yield" => Ok(Some(V::C(0))),
            "abort" | "exit" | "_exit" => {
                self.report(st, "panic", format!("{} called", name), 0);
                Err(Stopped::Killed)
            }
            _ if name.starts_with("asm ") => {
                // cpuid / xgetbv: report a processor without extensions
                match &self.m.types[ret as usize] {
                    Ty::Struct(f, _) => Ok(Some(V::A(Rc::new(vec![V::C(0); f.len()])))),
                    Ty::Void => Ok(None),
                    _ => Ok(Some(if let Some(v) = a.first() { v.clone() } else { V::C(0) })),
                }
            }
            _ => {
                self.fatal(st, format!("call to external {}", name));
                Err(Stopped::Killed)
            }
        }
    }

    fn lanewise2(&self, a: &[V], t: TyId, f: impl Fn(&V, &V, u32) -> V) -> V {
        match self.elem(t) {
            Some((n, w)) => {
                let (x, y) = (Self::lanes(&a[0]), Self::lanes(&a[1]));
                V::A(Rc::new((0..n as usize).map(|i| f(&x[i], &y[i], w)).collect()))
            }
            None => f(&a[0], &a[1], self.m.width(t)),
        }
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        n: &str,
        a: &[V],
        args: &[(Opd, TyId)],
        w: u32,
        ret: TyId,
        pend: &mut Vec<State>,
    ) -> R<Option<V>> {
        let ty0 = args.first().map(|x| x.1).unwrap_or(0);
        let base = n.split('.').next().unwrap();
        match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "invariant" | "donothing" => Ok(None),
            "x86" => {
                if n.contains("pause") {
                    return Ok(None);
                }
                self.fatal(st, format!("intrinsic {}", n));
                Err(Stopped::Killed)
            }
            "memcpy" | "memmove" => {
                let len = self.conc(st, &a[2], self.m.width(args[2].1), pend)?;
                if len == 0 {
                    return Ok(None);
                }
                // a short copy from a symbolic position stays symbolic
                if let (V::S(_), true) = (&a[1], len <= 16) {
                    let (si, so) = self.resolve(st, &a[1], None, pend)?;
                    let d = self.conc(st, &a[0], 64, pend)?;
                    let mut b = vec![];
                    for i in 0..len {
                        let o = Self::bin(BinOp::Add, 64, &so, &V::C(i));
                        b.push(self.read(st, si, &o, 1)?.e(8));
                    }
                    self.write_bytes(st, d, &b)?;
                    return Ok(None);
                }
                let d = self.conc(st, &a[0], 64, pend)?;
                let s = self.conc(st, &a[1], 64, pend)?;
                self.copy(st, d, s, len)?;
                Ok(None)
            }
            "memset" => {
                let len = self.conc(st, &a[2], self.m.width(args[2].1), pend)?;
                if len == 0 {
                    return Ok(None);
                }
                let d = self.conc(st, &a[0], 64, pend)?;
                let (id, off) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
                let sz = st.mem.get(id).map(|o| o.data.len()).unwrap_or(0);
                if off + len as usize > sz {
                    return Err(self.mem_fault(st, "memset out of bounds"));
                }
                let v = a[1].e(8);
                let o = st.mem.get_mut(id).unwrap();
                if off == 0 && len as usize == sz {
                    o.log.clear();
                    o.sym.clear();
                }
                if !o.log.is_empty() {
                    let b = vec![v; len as usize];
                    self.write_bytes(st, d, &b)?;
                    return Ok(None);
                }
                if let Some(k) = cx().cval(v) {
                    for x in &mut o.data[off..off + len as usize] {
                        *x = k as u8;
                    }
                    if !o.sym.is_empty() {
                        for x in &mut o.sym[off..off + len as usize] {
                            *x = 0;
                        }
                    }
                } else {
                    for i in 0..len as usize {
                        o.set(off + i, v);
                    }
                }
                Ok(None)
            }
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" => {
                if n.contains(".sat.") {
                    let r = self.lanewise2(a, ty0, |x, y, w| {
                        let (xe, ye) = (x.e(w), y.e(w));
                        let c = cx();
                        V::of(match base {
                            "usub" => {
                                let lt = c.ult(xe, ye);
                                let d = c.sub(xe, ye);
                                let z = c.k(w, 0);
                                c.ite(lt, z, d)
                            }
                            "uadd" => {
                                let s = c.add(xe, ye);
                                let ov = c.ult(s, xe);
                                let m = c.k(w, u128::MAX);
                                c.ite(ov, m, s)
                            }
                            _ => panic!("sat"),
                        })
                    });
                    return Ok(Some(r));
                }
                let (x, y) = (a[0].e(w), a[1].e(w));
                let c = cx();
                let (r, o) = match base {
                    "uadd" => {
                        let s = c.add(x, y);
                        // no overflow when the ranges say so
                        let (nx, ny) = (*c.node(x), *c.node(y));
                        let o = if w <= 64 && nx.hi as u128 + ny.hi as u128 <= mask(w) as u128 {
                            c.k(1, 0)
                        } else if let Some(k) = c.cval(y) {
                            // x + k overflows iff x > MAX - k
                            let lim = c.k(w, (mask(w) as u128).wrapping_sub(k));
                            c.ult(lim, x)
                        } else {
                            c.ult(s, x)
                        };
                        (s, o)
                    }
                    "usub" => (c.sub(x, y), c.ult(x, y)),
                    "umul" => {
                        let (nx, ny) = (*c.node(x), *c.node(y));
                        let s = c.mul(x, y);
                        if w <= 64 && nx.hi as u128 * ny.hi as u128 <= mask(w) as u128 {
                            (s, c.k(1, 0))
                        } else {
                            let (zx, zy) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                            let p = c.mul(zx, zy);
                            let h = c.extract(p, w, w);
                            let z = c.k(w, 0);
                            let t = c.eq(h, z);
                            (s, c.not(t))
                        }
                    }
                    _ => {
                        let (zx, zy) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                        let op = match base {
                            "sadd" => Op::Add,
                            "ssub" => Op::Sub,
                            _ => Op::Mul,
                        };
                        let p = c.bin(op, zx, zy);
                        let s = c.extract(p, 0, w);
                        let b = c.sext(s, 2 * w);
                        let t = c.eq(b, p);
                        (s, c.not(t))
                    }
                };
                Ok(Some(V::A(Rc::new(vec![V::of(r), V::of(o)]))))
            }
            "umin" | "umax" | "smin" | "smax" => Ok(Some(self.lanewise2(a, ty0, |x, y, w| {
                let (p, flip) = match base {
                    "umin" => (Pred::Ult, false),
                    "umax" => (Pred::Ult, true),
                    "smin" => (Pred::Slt, false),
                    _ => (Pred::Slt, true),
                };
                let c = Self::icmp(p, w, x, y);
                if flip {
                    Self::select(&c, w, y.clone(), x.clone())
                } else {
                    Self::select(&c, w, x.clone(), y.clone())
                }
            }))),
            "ucmp" | "scmp" => {
                let rw = self.m.width(ret);
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = Self::icmp(p, w, &a[0], &a[1]);
                let gt = Self::icmp(p, w, &a[1], &a[0]);
                let g = Self::select(&gt, rw, V::C(1), V::C(0));
                Ok(Some(Self::select(&lt, rw, V::C(mask(rw)), g)))
            }
            "abs" => {
                let neg = Self::icmp(Pred::Slt, w, &a[0], &V::C(0));
                let m = Self::bin(BinOp::Sub, w, &V::C(0), &a[0]);
                Ok(Some(Self::select(&neg, w, m, a[0].clone())))
            }
            "ctpop" => {
                let f = |x: &V, w: u32| -> V {
                    let e = x.e(w);
                    let mut acc = cx().k(w, 0);
                    for i in 0..w {
                        let b = cx().extract(e, i, 1);
                        let z = if w == 1 { b } else { cx().zext(b, w) };
                        acc = cx().add(acc, z);
                    }
                    V::of(acc)
                };
                let r = match self.elem(ty0) {
                    Some((_, ew)) => V::A(Rc::new(Self::lanes(&a[0]).iter().map(|x| f(x, ew)).collect())),
                    None => f(&a[0], w),
                };
                Ok(Some(r))
            }
            "ctlz" | "cttz" => {
                let e = a[0].e(w);
                let mut r = cx().k(w, w as u128);
                for i in 0..w {
                    // last assignment wins: iterate from least to most significant bit for ctlz
                    let (bit, val) = if base == "ctlz" { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    let b = cx().extract(e, bit, 1);
                    let k = cx().k(w, val as u128);
                    r = cx().ite(b, k, r);
                }
                Ok(Some(V::of(r)))
            }
            "bswap" | "bitreverse" => {
                let g = if base == "bswap" { 8 } else { 1 };
                let e = a[0].e(w);
                let mut acc: Option<Id> = None;
                for i in 0..w / g {
                    let p = cx().extract(e, i * g, g);
                    acc = Some(match acc {
                        None => p,
                        Some(x) => cx().concat(x, p),
                    });
                }
                Ok(Some(V::of(acc.unwrap())))
            }
            "fshl" | "fshr" => {
                let (x, y) = (a[0].e(w), a[1].e(w));
                let s = match a[2] {
                    V::C(k) => (k % w as u64) as u32,
                    _ => {
                        let k = self.conc(st, &a[2], w, pend)?;
                        (k % w as u64) as u32
                    }
                };
                let c = cx();
                // concat(x,y) is 2w wide
                let r = if base == "fshl" {
                    if s == 0 {
                        x
                    } else {
                        let hi = c.extract(x, 0, w - s);
                        let lo = c.extract(y, w - s, s);
                        c.concat(hi, lo)
                    }
                } else if s == 0 {
                    y
                } else {
                    let hi = c.extract(x, 0, s);
                    let lo = c.extract(y, s, w - s);
                    c.concat(hi, lo)
                };
                Ok(Some(V::of(r)))
            }
            "is" => Ok(Some(V::C(0))), // is.constant
            "expect" => Ok(Some(a[0].clone())),
            "threadlocal" => Ok(Some(a[0].clone())),
            "vector" => {
                // vector.reduce.*
                let l = Self::lanes(&a[0]).clone();
                let (_, ew) = self.elem(ty0).unwrap();
                let parts: Vec<&str> = n.split('.').collect();
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = match parts[2] {
                        "add" => Self::bin(BinOp::Add, ew, &acc, x),
                        "or" => Self::bin(BinOp::Or, ew, &acc, x),
                        "and" => Self::bin(BinOp::And, ew, &acc, x),
                        "xor" => Self::bin(BinOp::Xor, ew, &acc, x),
                        "mul" => Self::bin(BinOp::Mul, ew, &acc, x),
                        "umax" => {
                            let c = Self::icmp(Pred::Ult, ew, &acc, x);
                            Self::select(&c, ew, x.clone(), acc)
                        }
                        "umin" => {
                            let c = Self::icmp(Pred::Ult, ew, x, &acc);
                            Self::select(&c, ew, x.clone(), acc)
                        }
                        o => {
                            self.fatal(st, format!("vector.{}", o));
                            return Err(Stopped::Killed);
                        }
                    };
                }
                Ok(Some(acc))
            }
            "trap" => {
                self.report(st, "panic", "trap".into(), 0);
                Err(Stopped::Killed)
            }
            _ => {
                self.fatal(st, format!("intrinsic llvm.{}", n));
                Err(Stopped::Killed)
            }
        }
    }

    pub fn coverage(&mut self, prefix: &str) -> BTreeMap<String, (String, std::collections::BTreeSet<u32>)> {
        // function -> (file, lines) executed under prefix, looking through inlining
        let mut out: BTreeMap<String, (String, std::collections::BTreeSet<u32>)> = BTreeMap::new();
        for n in 1..self.hits_len {
            if unsafe { *self.hits.add(n) } == 0 {
                continue;
            }
            let mut d = n as u32;
            while d != 0 {
                if let Some((file, line, name)) = self.m.location(d) {
                    if let Some(r) = file.strip_prefix(prefix) {
                        let e = out
                            .entry(format!("{}::{}", r.trim_start_matches('/'), name))
                            .or_insert_with(|| (r.to_string(), Default::default()));
                        e.1.insert(line);
                    }
                }
                d = self.m.inlined_at(d).unwrap_or(0);
            }
        }
        out
    }
}

pub fn deadline(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
