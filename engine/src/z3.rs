//! Thin binding to libz3 and the incremental solver used by the executor.

use crate::expr::{cx, Id, Op};
use std::ffi::{c_char, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(cfg: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: u32) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: u32);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, v: P) -> i32;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, i32));
    fn Z3_get_error_msg(c: P, e: i32) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: i32) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(2);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ns: u64,
    pub max_ns: u64,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    stack: Vec<Id>,
    bv_sorts: Vec<P>,
    bool_sort: P,
    pub stats: SolverStats,
    pub dump: Option<std::path::PathBuf>,
    pub dump_left: u32,
    kind: String,
    timeout: u32,
}

impl Solver {
    pub fn new(kind: &str, timeout_ms: u32) -> Solver {
        unsafe {
            let set = |k: &str, v: &str| {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_global_param_set(k.as_ptr(), v.as_ptr());
            };
            set("model", "true");
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, on_error);
            let bool_sort = Z3_mk_bool_sort(c);
            Z3_inc_ref(c, bool_sort);
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                ast: vec![],
                stack: vec![],
                bv_sorts: vec![std::ptr::null_mut(); 129],
                bool_sort,
                stats: Default::default(),
                dump: None,
                dump_left: 0,
                kind: kind.to_string(),
                timeout: timeout_ms,
            };
            s.mk();
            s
        }
    }
    fn mk(&mut self) {
        unsafe {
            let c = self.c;
            self.s = match self.kind.as_str() {
                "simple" => Z3_mk_simple_solver(c),
                "default" => Z3_mk_solver(c),
                l => {
                    let l = CString::new(l).unwrap();
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
                }
            };
            Z3_solver_inc_ref(c, self.s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout);
            let k = CString::new("random_seed").unwrap();
            let _ = k;
            Z3_solver_set_params(c, self.s, p);
        }
    }

    fn sort(&mut self, w: u32) -> P {
        unsafe {
            if self.bv_sorts[w as usize].is_null() {
                let s = Z3_mk_bv_sort(self.c, w);
                Z3_inc_ref(self.c, s);
                self.bv_sorts[w as usize] = s;
            }
            self.bv_sorts[w as usize]
        }
    }

    fn get(&self, e: Id) -> P {
        self.ast.get(e as usize).copied().unwrap_or(std::ptr::null_mut())
    }

    // as a bit-vector (booleans become 1-bit vectors)
    unsafe fn bv(&mut self, e: Id) -> P {
        let a = self.get(e);
        if cx().w(e) == 1 {
            let s = self.sort(1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s);
            Z3_mk_ite(self.c, a, one, zero)
        } else {
            a
        }
    }

    pub fn ast(&mut self, e: Id) -> P {
        if !self.get(e).is_null() {
            return self.get(e);
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.get(x).is_null() {
                st.pop();
                continue;
            }
            let n = *cx().node(x);
            let kids: &[Id] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids {
                if self.get(k).is_null() {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let w = n.w as u32;
            let a = unsafe {
                let c = self.c;
                match n.op {
                    Op::Const => {
                        let v = cx().cval(x).unwrap();
                        if w == 1 {
                            if v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else if w <= 64 {
                            let s = self.sort(w);
                            Z3_mk_unsigned_int64(c, v as u64, s)
                        } else {
                            let s = self.sort(w);
                            let t = CString::new(v.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                    Op::Var => {
                        let t = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                        let s = if w == 1 { self.bool_sort } else { self.sort(w) };
                        Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), s)
                    }
                    Op::Not => {
                        let a = self.get(n.a);
                        if w == 1 {
                            Z3_mk_not(c, a)
                        } else {
                            Z3_mk_bvnot(c, a)
                        }
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (a, b) = (self.get(n.a), self.get(n.b));
                        if w == 1 {
                            let v = [a, b];
                            match n.op {
                                Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                                _ => Z3_mk_xor(c, a, b),
                            }
                        } else {
                            match n.op {
                                Op::And => Z3_mk_bvand(c, a, b),
                                Op::Or => Z3_mk_bvor(c, a, b),
                                _ => Z3_mk_bvxor(c, a, b),
                            }
                        }
                    }
                    Op::Concat => {
                        let (a, b) = (self.bv(n.a), self.bv(n.b));
                        Z3_mk_concat(c, a, b)
                    }
                    Op::Extract => {
                        let a = self.bv(n.a);
                        let t = Z3_mk_extract(c, n.b + w - 1, n.b, a);
                        if w == 1 {
                            let s = self.sort(1);
                            Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, 1, s))
                        } else {
                            t
                        }
                    }
                    Op::ZExt => {
                        let i = w - cx().w(n.a);
                        let a = self.bv(n.a);
                        Z3_mk_zero_ext(c, i, a)
                    }
                    Op::SExt => {
                        let i = w - cx().w(n.a);
                        let a = self.bv(n.a);
                        Z3_mk_sign_ext(c, i, a)
                    }
                    Op::Ite => Z3_mk_ite(c, self.get(n.a), self.get(n.b), self.get(n.c)),
                    Op::Eq => Z3_mk_eq(c, self.get(n.a), self.get(n.b)),
                    op => {
                        let (a, b) = (self.bv(n.a), self.bv(n.b));
                        let f: unsafe extern "C" fn(P, P, P) -> P = match op {
                            Op::Ult => Z3_mk_bvult,
                            Op::Slt => Z3_mk_bvslt,
                            Op::Add => Z3_mk_bvadd,
                            Op::Sub => Z3_mk_bvsub,
                            Op::Mul => Z3_mk_bvmul,
                            Op::UDiv => Z3_mk_bvudiv,
                            Op::URem => Z3_mk_bvurem,
                            Op::SDiv => Z3_mk_bvsdiv,
                            Op::SRem => Z3_mk_bvsrem,
                            Op::Shl => Z3_mk_bvshl,
                            Op::LShr => Z3_mk_bvlshr,
                            Op::AShr => Z3_mk_bvashr,
                            _ => unreachable!(),
                        };
                        f(c, a, b)
                    }
                }
            };
            unsafe { Z3_inc_ref(self.c, a) };
            if self.ast.len() <= x as usize {
                self.ast.resize(x as usize + 1024, std::ptr::null_mut());
            }
            self.ast[x as usize] = a;
            st.pop();
        }
        self.get(e)
    }

    fn sync(&mut self, pc: &[Id]) {
        let mut common = 0;
        while common < pc.len() && common < self.stack.len() && pc[common] == self.stack[common] {
            common += 1;
        }
        unsafe {
            let drop = self.stack.len() - common;
            if drop > 0 {
                Z3_solver_pop(self.c, self.s, drop as u32);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                let a = self.ast(e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(e);
            }
        }
    }

    /// Is pc && cond satisfiable? On Sat, `vars` (index, width) are read out
    /// into the returned assignment.
    pub fn check(&mut self, pc: &[Id], cond: Id, vars: &[(u32, u32)], base: &[u64]) -> (Res, Vec<u64>) {
        let t0 = Instant::now();
        self.sync(pc);
        let r = unsafe {
            let a = self.ast(cond);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let t1 = Instant::now();
            let r = Z3_solver_check(self.c, self.s);
            if self.dump_left > 0 && t1.elapsed().as_millis() >= 20 {
                self.dump_query();
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vals = base.to_vec();
                    for &(i, w) in vars {
                        let ve = cx().var(w, i);
                        let va = self.get(ve);
                        if va.is_null() {
                            continue; // never mentioned
                        }
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, va, false, &mut o) {
                            let v = if w == 1 {
                                match Z3_get_bool_value(self.c, o) {
                                    1 => Some(1),
                                    -1 => Some(0),
                                    _ => None,
                                }
                            } else {
                                let mut u = 0u64;
                                if o != va && Z3_get_numeral_uint64_checked(self.c, o, &mut u) {
                                    Some(u)
                                } else {
                                    None
                                }
                            };
                            if let Some(v) = v {
                                vals[i as usize] = v;
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    (Res::Sat, vals)
                }
                -1 => (Res::Unsat, vec![]),
                _ => (Res::Unknown, vec![]),
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let d = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.time_ns += d;
        self.stats.max_ns = self.stats.max_ns.max(d);
        match r.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }

    unsafe fn dump_query(&mut self) {
        if let Some(d) = &self.dump {
            self.dump_left -= 1;
            let t = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
            let n = format!("q{}-{}.smt2", std::process::id(), self.stats.queries);
            let _ = std::fs::write(d.join(n), format!("(set-logic QF_BV)\n{}(check-sat)\n", t));
        }
    }
}

extern "C" {
    fn Z3_get_ast_kind(c: P, a: P) -> i32;
}
#[allow(non_snake_case)]
unsafe fn Z3_get_numeral_uint64_checked(c: P, o: P, u: &mut u64) -> bool {
    // Z3_NUMERAL_AST = 0
    Z3_get_ast_kind(c, o) == 0 && Z3_get_numeral_uint64(c, o, u)
}
