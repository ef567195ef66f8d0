//! Hash-consed bit-vector expressions with a normalising simplifier.
//!
//! Width-1 expressions double as booleans. Widths up to 128 are supported;
//! known-bits and unsigned ranges are tracked for widths up to 64.

use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,  // a = high, b = low
    Extract, // a = expr, b = low bit (w bits wide)
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub kz: u64, // bits known zero (w <= 64)
    pub ko: u64, // bits known one
    pub lo: u64, // unsigned range
    pub hi: u64,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Key(Op, u16, u32, u32, u32, u128);

pub struct Ctx {
    pub n: Vec<Node>,
    big: Vec<u128>,
    map: HashMap<Key, Id, std::hash::BuildHasherDefault<Fx>>,
    cuts: HashMap<(Id, u32, u32), Id, std::hash::BuildHasherDefault<Fx>>,
    // evaluation memo
    ev_gen: u32,
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    ev_stack: Vec<Id>,
    // input bits an expression depends on (None: more than SUP_MAX inputs)
    sup: Vec<Option<Option<std::rc::Rc<Vec<(u32, u64)>>>>>,
}

const SUP_MAX: usize = 96;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

static mut CTX: Option<Box<Ctx>> = None;

#[inline]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        let p = &raw mut CTX;
        match &mut *p {
            Some(c) => c,
            None => {
                *p = Some(Box::new(Ctx::new()));
                (*p).as_mut().unwrap()
            }
        }
    }
}

#[inline]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    (match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            (x >> (if b >= w as u128 { w - 1 } else { b as u32 })) as u128
        }
        _ => unreachable!(),
    }) & m
}

impl Ctx {
    fn new() -> Ctx {
        let dummy = Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, kz: 1, ko: 0, lo: 0, hi: 0 };
        Ctx {
            n: vec![dummy],
            big: vec![0],
            map: HashMap::default(),
            cuts: HashMap::default(),
            ev_gen: 1,
            ev_stamp: vec![0],
            ev_val: vec![0],
            ev_stack: vec![],
            sup: vec![],
        }
    }

    #[inline]
    pub fn node(&self, e: Id) -> &Node {
        &self.n[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Id) -> u32 {
        self.n[e as usize].w as u32
    }

    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> Id {
        let key = Key(op, w as u16, a, b, c, 0);
        if let Some(&id) = self.map.get(&key) {
            return id;
        }
        let (mut kz, mut ko) = (0u64, 0u64);
        let m = mask(w);
        let (mut lo, mut hi) = (0u64, m);
        if w <= 64 {
            let g = |x: Id| self.n[x as usize];
            match op {
                Op::Not => {
                    let x = g(a);
                    kz = x.ko;
                    ko = x.kz;
                    lo = m - x.hi;
                    hi = m - x.lo;
                }
                Op::And => {
                    let (x, y) = (g(a), g(b));
                    kz = x.kz | y.kz;
                    ko = x.ko & y.ko;
                    hi = x.hi.min(y.hi);
                }
                Op::Or => {
                    let (x, y) = (g(a), g(b));
                    kz = x.kz & y.kz;
                    ko = x.ko | y.ko;
                    lo = x.lo.max(y.lo);
                }
                Op::Xor => {
                    let (x, y) = (g(a), g(b));
                    kz = (x.kz & y.kz) | (x.ko & y.ko);
                    ko = (x.kz & y.ko) | (x.ko & y.kz);
                }
                Op::Add => {
                    let (x, y) = (g(a), g(b));
                    let tz = (!(x.kz)).trailing_zeros().min((!(y.kz)).trailing_zeros());
                    if tz > 0 {
                        kz |= mask(tz.min(w));
                    }
                    let s = x.hi as u128 + y.hi as u128;
                    if s <= m as u128 {
                        hi = s as u64;
                        lo = x.lo + y.lo;
                    } else if x.lo as u128 + y.lo as u128 > m as u128 {
                        // always wraps exactly once
                        lo = (x.lo as u128 + y.lo as u128 - m as u128 - 1) as u64;
                        hi = (s - m as u128 - 1) as u64;
                    }
                }
                Op::Sub => {
                    let (x, y) = (g(a), g(b));
                    if x.lo >= y.hi {
                        lo = x.lo - y.hi;
                        hi = x.hi - y.lo;
                    }
                    let tz = (!(x.kz)).trailing_zeros().min((!(y.kz)).trailing_zeros());
                    if tz > 0 {
                        kz |= mask(tz.min(w));
                    }
                }
                Op::Mul => {
                    let (x, y) = (g(a), g(b));
                    let s = x.hi as u128 * y.hi as u128;
                    if s <= m as u128 {
                        hi = s as u64;
                        lo = x.lo * y.lo;
                    }
                    let tz = (!(x.kz)).trailing_zeros() + (!(y.kz)).trailing_zeros();
                    if tz > 0 {
                        kz |= mask(tz.min(w));
                    }
                }
                Op::UDiv => {
                    let (x, y) = (g(a), g(b));
                    if y.lo > 0 {
                        hi = x.hi / y.lo;
                        lo = x.lo / y.hi;
                    }
                }
                Op::URem => {
                    let (x, y) = (g(a), g(b));
                    if y.lo > 0 {
                        hi = x.hi.min(y.hi - 1);
                    }
                }
                Op::Shl => {
                    let (x, y) = (g(a), g(b));
                    if y.hi < w as u64 {
                        let s = (x.hi as u128) << y.hi;
                        if s <= m as u128 {
                            hi = s as u64;
                            lo = x.lo << y.lo;
                        }
                    }
                    let tz = (!(x.kz)).trailing_zeros().min(w) as u64 + y.lo;
                    if tz > 0 {
                        kz |= mask(tz.min(w as u64) as u32);
                    }
                }
                Op::LShr => {
                    let (x, y) = (g(a), g(b));
                    hi = if y.lo >= w as u64 { 0 } else { x.hi >> y.lo };
                }
                Op::Concat => {
                    let (x, y) = (g(a), g(b));
                    let lw = y.w as u32;
                    kz = (x.kz << lw) | y.kz;
                    ko = (x.ko << lw) | y.ko;
                    lo = (x.lo << lw) + y.lo;
                    hi = (x.hi << lw) + y.hi;
                }
                Op::Extract => {
                    let x = g(a);
                    if x.w <= 64 {
                        kz = (x.kz >> b) & m;
                        ko = (x.ko >> b) & m;
                        if (x.hi >> b) <= m {
                            hi = x.hi >> b;
                            lo = x.lo >> b;
                        }
                    }
                }
                Op::ZExt => {
                    let x = g(a);
                    kz = x.kz | (m & !mask(x.w as u32));
                    ko = x.ko;
                    lo = x.lo;
                    hi = x.hi;
                }
                Op::SExt => {
                    let x = g(a);
                    let xm = mask(x.w as u32);
                    let s = 1u64 << (x.w - 1);
                    kz = x.kz & xm & !s;
                    ko = x.ko & xm & !s;
                    if x.kz & s != 0 {
                        kz |= m & !(s - 1);
                    }
                    if x.ko & s != 0 {
                        ko |= m & !(s - 1);
                    }
                }
                Op::Ite => {
                    let (x, y) = (g(b), g(c));
                    kz = x.kz & y.kz;
                    ko = x.ko & y.ko;
                    lo = x.lo.min(y.lo);
                    hi = x.hi.max(y.hi);
                }
                _ => {}
            }
            // refine between the two domains
            kz &= m;
            ko &= m;
            lo = lo.max(ko);
            hi = hi.min(m & !kz);
            if hi < m {
                let lz = hi.leading_zeros();
                if lz > 0 {
                    kz |= m & !(u64::MAX >> lz);
                }
            }
        }
        let node = Node { op, w: w as u16, a, b, c, kz, ko, lo, hi };
        if w <= 64 && op != Op::Var && (kz | ko == m || lo == hi) {
            let v = if kz | ko == m { ko } else { lo };
            let id = self.k(w, v as u128);
            self.map.insert(key, id);
            return id;
        }
        let id = self.n.len() as Id;
        self.n.push(node);
        self.map.insert(key, id);
        id
    }

    pub fn k(&mut self, w: u32, v: u128) -> Id {
        let v = v & mask128(w);
        let key = Key(Op::Const, w as u16, 0, 0, 0, v);
        if let Some(&id) = self.map.get(&key) {
            return id;
        }
        let id = self.n.len() as Id;
        let m = mask(w);
        let (kz, ko, lo, hi, a) = if w <= 64 {
            (!(v as u64) & m, v as u64, v as u64, v as u64, 0)
        } else {
            self.big.push(v);
            (0, 0, 0, u64::MAX, self.big.len() as u32 - 1)
        };
        self.n.push(Node { op: Op::Const, w: w as u16, a, b: 0, c: 0, kz, ko, lo, hi });
        self.map.insert(key, id);
        id
    }

    /// The index-th symbolic input of a path.
    pub fn var(&mut self, w: u32, index: u32) -> Id {
        self.raw(Op::Var, w, index, 0, 0)
    }

    #[inline]
    pub fn cval(&self, e: Id) -> Option<u128> {
        let n = self.node(e);
        if n.op == Op::Const {
            Some(if n.w <= 64 { n.ko as u128 } else { self.big[n.a as usize] })
        } else {
            None
        }
    }
    fn is0(&self, e: Id) -> bool {
        self.cval(e) == Some(0)
    }

    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(v) = self.cval(a) {
            return self.k(w, !v);
        }
        let n = *self.node(a);
        match n.op {
            Op::Not => n.a,
            Op::Concat => {
                let (x, y) = (self.not(n.a), self.not(n.b));
                self.concat(x, y)
            }
            _ => self.raw(Op::Not, w, a, 0, 0),
        }
    }

    // Pieces from the least significant end.
    fn pieces(&mut self, e: Id, out: &mut Vec<Id>) {
        let n = *self.node(e);
        match n.op {
            Op::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            Op::ZExt => {
                self.pieces(n.a, out);
                let z = self.k(n.w as u32 - self.w(n.a), 0);
                out.push(z);
            }
            _ => out.push(e),
        }
    }
    fn from_pieces(&mut self, p: &[Id]) -> Id {
        let mut acc = p[0];
        for &x in &p[1..] {
            acc = self.concat(x, acc);
        }
        acc
    }
    // Split two piece lists at their common refinement; constants are cut freely.
    fn align(&mut self, a: Id, b: Id) -> Option<Vec<(Id, Id)>> {
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() == 1 && pb.len() == 1 {
            return None;
        }
        pa.reverse();
        pb.reverse();
        let mut out = vec![];
        while let (Some(x), Some(y)) = (pa.pop(), pb.pop()) {
            let (wx, wy) = (self.w(x), self.w(y));
            if wx == wy {
                out.push((x, y));
            } else if wx < wy {
                let l = self.extract(y, 0, wx);
                let h = self.extract(y, wx, wy - wx);
                out.push((x, l));
                pb.push(h);
            } else {
                let l = self.extract(x, 0, wy);
                let h = self.extract(x, wy, wx - wy);
                out.push((l, y));
                pa.push(h);
            }
        }
        Some(out)
    }

    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return self.k(w, (x << wl) | y);
        }
        if self.is0(hi) {
            return self.zext(lo, w);
        }
        let nl = *self.node(lo);
        let nh = *self.node(hi);
        // right-nested normal form: hi is a leaf piece, lo may be a concat
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, lo);
            return self.concat(nh.a, t);
        }
        if nh.op == Op::ZExt {
            let t = self.concat(nh.a, lo);
            return self.zext(t, w);
        }
        if nl.op == Op::ZExt {
            // concat(hi, 0, x)
            let z = self.k(wl - self.w(nl.a), 0);
            let t = self.raw_concat(z, nl.a);
            return self.concat_leaf(hi, t);
        }
        self.concat_leaf(hi, lo)
    }
    fn raw_concat(&mut self, hi: Id, lo: Id) -> Id {
        let w = self.w(hi) + self.w(lo);
        self.raw(Op::Concat, w, hi, lo, 0)
    }
    fn concat_leaf(&mut self, hi: Id, lo: Id) -> Id {
        // merge hi with the top piece of lo
        let nl = *self.node(lo);
        let (top, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (lo, None) };
        if let Some(m) = self.join(hi, top) {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        self.raw_concat(hi, lo)
    }
    fn join(&mut self, hi: Id, lo: Id) -> Option<Id> {
        let (nh, nl) = (*self.node(hi), *self.node(lo));
        let w = nh.w as u32 + nl.w as u32;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return Some(self.k(w, (x << nl.w) | y));
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return Some(self.extract(nh.a, nl.b, w));
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            // same condition: rejoin only when it restores whole values
            let x = self.join(nh.b, nl.b);
            let y = self.join(nh.c, nl.c);
            if let (Some(x), Some(y)) = (x, y) {
                return Some(self.raw_ite(nh.a, x, y));
            }
        }
        None
    }

    pub fn extract(&mut self, e: Id, lo: u32, w: u32) -> Id {
        let n = *self.node(e);
        let deep = matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Not | Op::Add | Op::Sub | Op::Mul | Op::Ite)
            && w < n.w as u32;
        if !deep {
            return self.extract1(e, lo, w);
        }
        if let Some(&r) = self.cuts.get(&(e, lo, w)) {
            return r;
        }
        let r = self.extract1(e, lo, w);
        self.cuts.insert((e, lo, w), r);
        r
    }
    fn extract1(&mut self, e: Id, lo: u32, w: u32) -> Id {
        let n = *self.node(e);
        let we = n.w as u32;
        debug_assert!(lo + w <= we && w > 0);
        if w == we {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.cval(e).unwrap();
                self.k(w, v >> lo)
            }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, lo + w - wl);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    self.k(w, 0)
                } else if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else {
                    let l = self.extract(n.a, lo, wi - lo);
                    self.zext(l, w)
                }
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.raw_extract(e, lo, w)
                }
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let kx = self.node(n.b).op == Op::Const;
                let ky = self.node(n.c).op == Op::Const;
                if kx || ky || w == 1 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.raw_extract(e, lo, w)
                }
            }
            _ => {
                // bits known?
                if we <= 64 {
                    let m = mask(w) << lo;
                    if (n.kz | n.ko) & m == m {
                        return self.k(w, (n.ko >> lo) as u128);
                    }
                }
                self.raw_extract(e, lo, w)
            }
        }
    }
    fn raw_extract(&mut self, e: Id, lo: u32, w: u32) -> Id {
        self.raw(Op::Extract, w, e, lo, 0)
    }

    pub fn zext(&mut self, e: Id, w: u32) -> Id {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.cval(e) {
            return self.k(w, v);
        }
        let n = *self.node(e);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Concat && self.is0(n.a) {
            return self.zext(n.b, w);
        }
        self.raw(Op::ZExt, w, e, 0, 0)
    }
    pub fn sext(&mut self, e: Id, w: u32) -> Id {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.cval(e) {
            return self.k(w, sx(v, we) as u128);
        }
        let n = *self.node(e);
        if we <= 64 && n.kz >> (we - 1) & 1 == 1 {
            return self.zext(e, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if we == 1 {
            let o = self.k(w, u128::MAX);
            let z = self.k(w, 0);
            return self.ite(e, o, z);
        }
        self.raw(Op::SExt, w, e, 0, 0)
    }
    pub fn trunc(&mut self, e: Id, w: u32) -> Id {
        self.extract(e, 0, w)
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.k(w, fold(op, w, x, y));
        }
        match op {
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::Shl | Op::LShr | Op::AShr => self.shift(op, a, b),
            Op::UDiv => {
                if let Some(k) = self.cval(b) {
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.shift(Op::LShr, a, s);
                    }
                    if w <= 64 && k != 0 && (self.node(a).hi as u128) < k {
                        return self.k(w, 0);
                    }
                }
                self.hard(op, w, a, b)
            }
            Op::URem => {
                if let Some(k) = self.cval(b) {
                    if k.is_power_of_two() {
                        let s = self.k(w, k - 1);
                        return self.and(a, s);
                    }
                    if w <= 64 && k != 0 && (self.node(a).hi as u128) < k {
                        return a;
                    }
                    // (x + c) % k with a range within one wrap of k
                    if w <= 64 && k != 0 {
                        let n = *self.node(a);
                        let q = n.lo as u128 / k;
                        if q == n.hi as u128 / k {
                            let s = self.k(w, q * k);
                            return self.sub(a, s);
                        }
                        if q + 1 == n.hi as u128 / k {
                            let (s, t) = (self.k(w, q * k), self.k(w, (q + 1) * k));
                            let c = self.ult(a, t);
                            let (x, y) = (self.sub(a, s), self.sub(a, t));
                            return self.ite(c, x, y);
                        }
                    }
                } else if w <= 64 && self.node(a).hi < self.node(b).lo {
                    return a;
                }
                self.hard(op, w, a, b)
            }
            Op::SDiv | Op::SRem => {
                if w <= 64 {
                    let s = 1u64 << (w - 1);
                    if self.node(a).kz & s != 0 && self.node(b).kz & s != 0 {
                        return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                    }
                }
                self.hard(op, w, a, b)
            }
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Concat => self.concat(a, b),
            _ => unreachable!("{:?}", op),
        }
    }

    /// A division, as a table where it depends on few input bits: the solver
    /// is poor at these.
    fn hard(&mut self, op: Op, w: u32, a: Id, b: Id) -> Id {
        let e = self.raw(op, w, a, b, 0);
        if self.cval(e).is_some() {
            return e;
        }
        let s = match self.support(e) {
            Some(s) => s,
            None => return e,
        };
        let bits: u32 = s.iter().map(|x| x.1.count_ones()).sum();
        if bits > 6 || bits == 0 {
            return e;
        }
        let mut order: Vec<(u32, u32)> = vec![];
        for (v, m) in s.iter() {
            for i in 0..64 {
                if (m >> i) & 1 == 1 {
                    order.push((*v, i));
                }
            }
        }
        // the widths the variables were made with
        let mut model = vec![0u64; s.last().unwrap().0 as usize + 1];
        let mut vals = vec![];
        for k in 0..1u32 << bits {
            for x in &s[..] {
                model[x.0 as usize] = 0;
            }
            for (j, (v, i)) in order.iter().enumerate() {
                if (k >> j) & 1 == 1 {
                    model[*v as usize] |= 1 << i;
                }
            }
            self.new_model();
            vals.push(self.eval(e, &model));
        }
        self.new_model();
        let leaves: Vec<Id> = order.iter().map(|(v, i)| self.input_bit(e, *v, *i)).collect();
        let mut level: Vec<Id> = vals.into_iter().map(|v| self.k(w, v)).collect();
        for b in leaves {
            level = level.chunks(2).map(|p| if p[0] == p[1] { p[0] } else { self.ite(b, p[1], p[0]) }).collect();
        }
        level[0]
    }

    /// Bit i of variable v, which occurs in e.
    fn input_bit(&mut self, e: Id, v: u32, i: u32) -> Id {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => {
                    if n.a == v {
                        return if n.w == 1 { x } else { self.extract(x, i, 1) };
                    }
                }
                Op::Extract | Op::Not | Op::ZExt | Op::SExt => st.push(n.a),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                _ => st.extend([n.a, n.b]),
            }
        }
        unreachable!("variable not found")
    }

    fn comm(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        // constants go right; otherwise order by id
        let ka = self.node(a).op == Op::Const;
        let kb = self.node(b).op == Op::Const;
        if (ka && !kb) || (ka == kb && a > b) {
            self.raw(op, w, b, a, 0)
        } else {
            self.raw(op, w, a, b, 0)
        }
    }

    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.k(w, x & y),
            (Some(_), None) => return self.and(b, a),
            _ => {}
        }
        if w == 1 {
            if let Some(y) = cb {
                return if y == 1 { a } else { b };
            }
            let (na, nb) = (*self.node(a), *self.node(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.k(1, 0);
            }
            // absorb: a & (a & c)
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            return self.comm(Op::And, a, b);
        }
        if let Some(m) = cb {
            if m == 0 {
                return b;
            }
            let all = mask128(w);
            if m == all {
                return a;
            }
            let mut m2 = m;
            if w <= 64 {
                let kz = self.node(a).kz;
                let maybe = !kz & mask(w);
                m2 = (m as u64 & maybe) as u128;
                if m2 == maybe as u128 {
                    return a;
                }
                if m2 == 0 {
                    return self.k(w, 0);
                }
            }
            // runs of ones: cut out the pieces
            let runs = {
                let mut r = vec![];
                let mut i = 0;
                while i < w {
                    let bit = m2 >> i & 1;
                    let mut j = i;
                    while j < w && m2 >> j & 1 == bit {
                        j += 1;
                    }
                    r.push((i, j - i, bit == 1));
                    i = j;
                }
                r
            };
            if runs.len() <= 4 {
                let mut p = vec![];
                for (lo, len, one) in runs {
                    let x = if one { self.extract(a, lo, len) } else { self.k(len, 0) };
                    p.push(x);
                }
                return self.from_pieces(&p);
            }
        }
        if let Some(segs) = self.align(a, b) {
            let mut ok = false;
            for &(x, y) in &segs {
                if self.node(x).op == Op::Const || self.node(y).op == Op::Const || x == y {
                    ok = true;
                }
            }
            if ok {
                let p: Vec<Id> = segs.iter().map(|&(x, y)| self.bin(Op::And, x, y)).collect();
                return self.from_pieces(&p);
            }
        }
        self.comm(Op::And, a, b)
    }

    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.k(w, x | y),
            (Some(_), None) => return self.or(b, a),
            _ => {}
        }
        if let Some(y) = cb {
            if y == 0 {
                return a;
            }
            if y == mask128(w) {
                return b;
            }
        }
        if w == 1 {
            let (na, nb) = (*self.node(a), *self.node(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.k(1, 1);
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            return self.comm(Op::Or, a, b);
        }
        if let Some(segs) = self.align(a, b) {
            if segs.iter().any(|&(x, y)| {
                x == y || self.node(x).op == Op::Const || self.node(y).op == Op::Const
            }) {
                let p: Vec<Id> = segs.iter().map(|&(x, y)| self.bin(Op::Or, x, y)).collect();
                return self.from_pieces(&p);
            }
        } else if let Some(k) = cb {
            // x | const: cut into runs
            let mut p = vec![];
            let mut i = 0;
            let mut runs = 0;
            while i < w {
                let bit = k >> i & 1;
                let mut j = i;
                while j < w && k >> j & 1 == bit {
                    j += 1;
                }
                let x = if bit == 1 { self.k(j - i, u128::MAX) } else { self.extract(a, i, j - i) };
                p.push(x);
                runs += 1;
                i = j;
            }
            if runs <= 4 {
                return self.from_pieces(&p);
            }
        }
        self.comm(Op::Or, a, b)
    }

    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.k(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            _ => {}
        }
        if let Some(y) = cb {
            if y == 0 {
                return a;
            }
            if y == mask128(w) {
                return self.not(a);
            }
        }
        if let Some(segs) = self.align(a, b) {
            if segs.iter().any(|&(x, y)| {
                x == y || self.node(x).op == Op::Const || self.node(y).op == Op::Const
            }) {
                let p: Vec<Id> = segs.iter().map(|&(x, y)| self.bin(Op::Xor, x, y)).collect();
                return self.from_pieces(&p);
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Not && nb.op == Op::Not {
            return self.xor(na.a, nb.a);
        }
        if na.op == Op::Not {
            let t = self.xor(na.a, b);
            return self.not(t);
        }
        if nb.op == Op::Not {
            let t = self.xor(a, nb.a);
            return self.not(t);
        }
        // x ^ (x ^ y)
        if nb.op == Op::Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
        }
        if na.op == Op::Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        self.comm(Op::Xor, a, b)
    }

    fn disjoint(&self, a: Id, b: Id) -> bool {
        let (x, y) = (self.node(a), self.node(b));
        x.w <= 64 && (x.kz | y.kz) == mask(x.w as u32)
    }

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.k(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            _ => {}
        }
        if cb == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if self.disjoint(a, b) {
            return self.or(a, b);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if let Some(y) = cb {
            if na.op == Op::Add {
                if let Some(x) = self.cval(na.b) {
                    let s = self.k(w, x.wrapping_add(y));
                    return self.add(na.a, s);
                }
            }
            if na.op == Op::Sub {
                if let Some(x) = self.cval(na.a) {
                    let s = self.k(w, x.wrapping_add(y));
                    return self.sub(s, na.b);
                }
            }
            if na.op == Op::Ite && self.node(na.b).op == Op::Const && self.node(na.c).op == Op::Const {
                let x = self.add(na.b, b);
                let y = self.add(na.c, b);
                return self.ite(na.a, x, y);
            }
            return self.raw(Op::Add, w, a, b, 0);
        }
        // float constants outwards
        if na.op == Op::Add && self.node(na.b).op == Op::Const {
            let t = self.add(na.a, b);
            return self.add(t, na.b);
        }
        if nb.op == Op::Add && self.node(nb.b).op == Op::Const {
            let t = self.add(a, nb.a);
            return self.add(t, nb.b);
        }
        // x + (y - x)
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        self.comm(Op::Add, a, b)
    }

    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        if let Some(y) = self.cval(b) {
            let n = self.k(w, y.wrapping_neg());
            return self.add(a, n);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Add {
            if self.node(na.b).op == Op::Const {
                let t = self.sub(na.a, b);
                return self.add(t, na.b);
            }
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == Op::Add {
            if let Some(y) = self.cval(nb.b) {
                let t = self.sub(a, nb.a);
                let k = self.k(w, y.wrapping_neg());
                return self.add(t, k);
            }
            if nb.a == a {
                let z = self.k(w, 0);
                return self.sub(z, nb.b);
            }
            if nb.b == a {
                let z = self.k(w, 0);
                return self.sub(z, nb.a);
            }
        }
        // a - (a - x) = x
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        self.raw(Op::Sub, w, a, b, 0)
    }

    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.k(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            _ => {}
        }
        if let Some(y) = cb {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.k(w, y.trailing_zeros() as u128);
                return self.shift(Op::Shl, a, s);
            }
            let na = *self.node(a);
            if na.op == Op::Add {
                if let Some(x) = self.cval(na.b) {
                    let t = self.mul(na.a, b);
                    let k = self.k(w, x.wrapping_mul(y));
                    return self.add(t, k);
                }
            }
        }
        if w == 1 {
            return self.and(a, b);
        }
        self.comm(Op::Mul, a, b)
    }

    fn shift(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if self.is0(a) {
            return a;
        }
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            let over = s >= w as u128;
            let s = if over { w } else { s as u32 };
            match op {
                Op::Shl => {
                    if over {
                        return self.k(w, 0);
                    }
                    let x = self.extract(a, 0, w - s);
                    let z = self.k(s, 0);
                    return self.concat(x, z);
                }
                Op::LShr => {
                    if over {
                        return self.k(w, 0);
                    }
                    let x = self.extract(a, s, w - s);
                    return self.zext(x, w);
                }
                Op::AShr => {
                    if over {
                        let x = self.extract(a, w - 1, 1);
                        return self.sext(x, w);
                    }
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
                _ => unreachable!(),
            }
        }
        if op == Op::AShr && w <= 64 && self.node(a).kz >> (w - 1) & 1 == 1 {
            return self.shift(Op::LShr, a, b);
        }
        self.raw(op, w, a, b, 0)
    }

    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.k(1, 1);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.k(1, (x == y) as u128),
            (Some(_), None) => return self.eq(b, a),
            _ => {}
        }
        if w == 1 {
            let t = self.xor(a, b);
            return self.not(t);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if w <= 64 {
            if na.hi < nb.lo || nb.hi < na.lo || na.kz & nb.ko != 0 || na.ko & nb.kz != 0 {
                return self.k(1, 0);
            }
        }
        if let Some(y) = cb {
            match na.op {
                Op::Add => {
                    if let Some(x) = self.cval(na.b) {
                        let t = self.k(w, y.wrapping_sub(x));
                        return self.eq(na.a, t);
                    }
                }
                Op::Sub => {
                    if let Some(x) = self.cval(na.a) {
                        let t = self.k(w, x.wrapping_sub(y));
                        return self.eq(na.b, t);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.cval(na.b) {
                        let t = self.k(w, x ^ y);
                        return self.eq(na.a, t);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Not => {
                    let t = self.k(w, !y);
                    return self.eq(na.a, t);
                }
                Op::Ite => {
                    let (p, q) = (self.node(na.b).op, self.node(na.c).op);
                    if p == Op::Const || q == Op::Const {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    if sx(y, wi) as u128 & mask128(w) == y {
                        let t = self.k(wi, y);
                        return self.eq(na.a, t);
                    }
                    return self.k(1, 0);
                }
                _ => {}
            }
        } else if na.op == Op::Add && nb.op == Op::Add {
            if let (Some(x), Some(y)) = (self.cval(na.b), self.cval(nb.b)) {
                let k = self.k(w, x.wrapping_sub(y));
                let l = self.add(na.a, k);
                if x == y {
                    return self.eq(na.a, nb.a);
                }
                let _ = l;
            }
        }
        if let Some(segs) = self.align(a, b) {
            let mut acc = self.k(1, 1);
            for (x, y) in segs {
                let t = self.eq(x, y);
                acc = self.and(acc, t);
                if self.is0(acc) {
                    return acc;
                }
            }
            return acc;
        }
        let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(Op::Eq, 1, a, b, 0)
    }

    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.k(1, 0);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k(1, (x < y) as u128);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if w <= 64 {
            if na.hi < nb.lo {
                return self.k(1, 1);
            }
            if na.lo >= nb.hi {
                return self.k(1, 0);
            }
        }
        if w == 1 {
            let t = self.not(a);
            return self.and(t, b);
        }
        if cb == Some(0) {
            return self.k(1, 0);
        }
        if cb == Some(1) {
            let z = self.k(w, 0);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let t = self.eq(b, a);
            return self.not(t);
        }
        if cb == Some(mask128(w)) {
            let t = self.eq(a, b);
            return self.not(t);
        }
        // strip common zero-extension
        if na.op == Op::ZExt || nb.op == Op::ZExt {
            let wa = if na.op == Op::ZExt { self.w(na.a) } else { self.need_bits(a) };
            let wb = if nb.op == Op::ZExt { self.w(nb.a) } else { self.need_bits(b) };
            let m = wa.max(wb);
            if m < w {
                let x = self.extract(a, 0, m);
                let y = self.extract(b, 0, m);
                return self.ult(x, y);
            }
        }
        if na.op == Op::Ite
            && (self.node(na.b).op == Op::Const || self.node(na.c).op == Op::Const)
            && (cb.is_some())
        {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite
            && (self.node(nb.b).op == Op::Const || self.node(nb.c).op == Op::Const)
            && (ca.is_some())
        {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        // x + k < c without wrap
        if w <= 64 && na.op == Op::Add {
            if let (Some(k), Some(y)) = (self.cval(na.b), cb) {
                let nx = *self.node(na.a);
                if (nx.hi as u128) + k <= mask(w) as u128 {
                    // no wrap
                    if y <= k {
                        return self.k(1, 0);
                    }
                    let t = self.k(w, y - k);
                    return self.ult(na.a, t);
                }
            }
        }
        if w <= 64 && nb.op == Op::Add {
            if let (Some(k), Some(y)) = (self.cval(nb.b), ca) {
                let nx = *self.node(nb.a);
                if (nx.hi as u128) + k <= mask(w) as u128 {
                    // y < x + k
                    if y < k {
                        return self.k(1, 1);
                    }
                    let t = self.k(w, y - k);
                    return self.ult(t, nb.a);
                }
            }
        }
        self.raw(Op::Ult, 1, a, b, 0)
    }
    fn need_bits(&self, e: Id) -> u32 {
        let n = self.node(e);
        let w = n.w as u32;
        if w > 64 {
            return match self.cval(e) {
                Some(v) => (128 - v.leading_zeros()).max(1),
                None => w,
            };
        }
        let m = n.hi.min(mask(w) & !n.kz);
        (64 - m.leading_zeros()).max(1)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.k(1, 0);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.k(1, (sx(x, w) < sx(y, w)) as u128);
        }
        if w <= 64 {
            let s = 1u64 << (w - 1);
            let (x, y) = (*self.node(a), *self.node(b));
            let (az, ao, bz, bo) = (x.kz & s != 0, x.ko & s != 0, y.kz & s != 0, y.ko & s != 0);
            if (az && bz) || (ao && bo) {
                return self.ult(a, b);
            }
            if ao && bz {
                return self.k(1, 1);
            }
            if az && bo {
                return self.k(1, 0);
            }
            if self.is0(b) {
                return self.extract(a, w - 1, 1);
            }
            if self.cval(b) == Some(mask128(w) ) && false {
                return a;
            }
        }
        if self.cval(a) == Some(mask128(w)) {
            // -1 < b  <=> b >= 0
            let t = self.extract(b, w - 1, 1);
            return self.not(t);
        }
        self.raw(Op::Slt, 1, a, b, 0)
    }

    fn raw_ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        let w = self.w(a);
        self.raw(Op::Ite, w, c, a, b)
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = *self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if w == 1 {
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let t = self.not(c);
                    return self.and(t, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let t = self.not(c);
                    return self.or(t, a);
                }
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // eq-constant condition: inside the true arm the value is known
        if w > 1 {
            // share equal pieces
            if let (Some(x), Some(y)) = (ca, cb) {
                let d = x ^ y;
                if d.count_ones() == 1 {
                    let bit = d.trailing_zeros();
                    let mid = if x >> bit & 1 == 1 { c } else { self.not(c) };
                    let mut p = vec![];
                    if bit > 0 {
                        let t = self.k(bit, x);
                        p.push(t);
                    }
                    p.push(mid);
                    if bit + 1 < w {
                        let t = self.k(w - bit - 1, x >> (bit + 1));
                        p.push(t);
                    }
                    return self.from_pieces(&p);
                }
            } else if let Some(segs) = self.align(a, b) {
                if segs.iter().any(|&(x, y)| x == y) {
                    let p: Vec<Id> = segs.iter().map(|&(x, y)| self.ite(c, x, y)).collect();
                    return self.from_pieces(&p);
                }
            }
        }
        self.raw(Op::Ite, w, c, a, b)
    }

    // ---- evaluation under a model -------------------------------------

    pub fn new_model(&mut self) {
        self.ev_gen += 1;
    }

    /// Value of e where the i-th input is model[i] (0 beyond its end).
    pub fn eval(&mut self, e: Id, model: &[u64]) -> u128 {
        if let Some(v) = self.cval(e) {
            return v;
        }
        if self.ev_stamp.len() < self.n.len() {
            let l = self.n.len() + self.n.len() / 2;
            self.ev_stamp.resize(l, 0);
            self.ev_val.resize(l, 0);
        }
        let g = self.ev_gen;
        if self.ev_stamp[e as usize] == g {
            return self.ev_val[e as usize];
        }
        let mut st = std::mem::take(&mut self.ev_stack);
        st.push(e);
        while let Some(&x) = st.last() {
            let n = self.n[x as usize];
            if self.ev_stamp[x as usize] == g {
                st.pop();
                continue;
            }
            macro_rules! need {
                ($c:expr) => {{
                    let c = $c;
                    if let Some(v) = self.cval(c) {
                        v
                    } else if self.ev_stamp[c as usize] == g {
                        self.ev_val[c as usize]
                    } else {
                        st.push(c);
                        continue;
                    }
                }};
            }
            let w = n.w as u32;
            let v: u128 = match n.op {
                Op::Const => self.cval(x).unwrap(),
                Op::Var => (model.get(n.a as usize).copied().unwrap_or(0) as u128) & mask128(w),
                Op::Not => !need!(n.a) & mask128(w),
                Op::Concat => {
                    let h = need!(n.a);
                    let l = need!(n.b);
                    (h << self.w(n.b)) | l
                }
                Op::Extract => (need!(n.a) >> n.b) & mask128(w),
                Op::ZExt => need!(n.a),
                Op::SExt => {
                    let v = need!(n.a);
                    (sx(v, self.w(n.a)) as u128) & mask128(w)
                }
                Op::Ite => {
                    if need!(n.a) == 1 {
                        need!(n.b)
                    } else {
                        need!(n.c)
                    }
                }
                Op::Eq => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    (a == b) as u128
                }
                Op::Ult => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    (a < b) as u128
                }
                Op::Slt => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    let wi = self.w(n.a);
                    (sx(a, wi) < sx(b, wi)) as u128
                }
                op => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    fold(op, w, a, b)
                }
            };
            self.ev_stamp[x as usize] = g;
            self.ev_val[x as usize] = v;
            st.pop();
        }
        self.ev_stack = st;
        self.ev_val[e as usize]
    }

    /// The input bits e depends on, as (input, mask), or None if too many.
    pub fn support(&mut self, e: Id) -> Option<std::rc::Rc<Vec<(u32, u64)>>> {
        if self.sup.len() < self.n.len() {
            let l = self.n.len() + self.n.len() / 2;
            self.sup.resize(l, None);
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.sup[x as usize].is_some() {
                st.pop();
                continue;
            }
            let n = self.n[x as usize];
            let kids: [u32; 3] = match n.op {
                Op::Const | Op::Var => [0; 3],
                Op::Extract | Op::Not | Op::ZExt | Op::SExt => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let nk = match n.op {
                Op::Const | Op::Var => 0,
                Op::Extract | Op::Not | Op::ZExt | Op::SExt => 1,
                Op::Ite => 3,
                _ => 2,
            };
            if n.op == Op::Extract && self.n[n.a as usize].op == Op::Var {
                let v = self.n[n.a as usize].a;
                let m = mask(n.w as u32) << n.b;
                self.sup[x as usize] = Some(Some(std::rc::Rc::new(vec![(v, m)])));
                st.pop();
                continue;
            }
            let mut ready = true;
            for k in &kids[..nk] {
                if self.sup[*k as usize].is_none() {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r: Option<std::rc::Rc<Vec<(u32, u64)>>> = match n.op {
                Op::Const => Some(Default::default()),
                Op::Var => Some(std::rc::Rc::new(vec![(n.a, mask(n.w as u32))])),
                _ if nk == 1 => self.sup[n.a as usize].clone().unwrap(),
                _ => {
                    let mut acc = self.sup[kids[0] as usize].clone().unwrap();
                    for k in &kids[1..nk] {
                        let o = self.sup[*k as usize].clone().unwrap();
                        acc = match (acc, o) {
                            (Some(a), Some(b)) => {
                                if std::rc::Rc::ptr_eq(&a, &b) || b.is_empty() {
                                    Some(a)
                                } else if a.is_empty() {
                                    Some(b)
                                } else {
                                    let mut v = Vec::with_capacity(a.len() + b.len());
                                    let (mut i, mut j) = (0, 0);
                                    while i < a.len() || j < b.len() {
                                        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                                            v.push(a[i]);
                                            i += 1;
                                        } else if i == a.len() || b[j].0 < a[i].0 {
                                            v.push(b[j]);
                                            j += 1;
                                        } else {
                                            v.push((a[i].0, a[i].1 | b[j].1));
                                            i += 1;
                                            j += 1;
                                        }
                                    }
                                    if v.len() > SUP_MAX {
                                        None
                                    } else if v == *a {
                                        Some(a)
                                    } else {
                                        Some(std::rc::Rc::new(v))
                                    }
                                }
                            }
                            _ => None,
                        };
                    }
                    acc
                }
            };
            self.sup[x as usize] = Some(r);
            st.pop();
        }
        self.sup[e as usize].clone().unwrap()
    }

    /// Input bits a true condition fixes outright: (input, mask).
    pub fn fixes(&self, c: Id) -> Option<(u32, u64)> {
        let mut n = self.node(c);
        if n.op == Op::Not {
            n = self.node(n.a);
        }
        let one = |n: &Node| match n.op {
            Op::Var => Some((n.a, mask(n.w as u32))),
            Op::Extract if self.node(n.a).op == Op::Var => Some((self.node(n.a).a, mask(n.w as u32) << n.b)),
            _ => None,
        };
        if n.w == 1 {
            if let Some(r) = one(n) {
                return Some(r);
            }
        }
        let n = self.node(c);
        if n.op == Op::Eq {
            if self.node(n.b).op == Op::Const {
                return one(self.node(n.a));
            }
            if self.node(n.a).op == Op::Const {
                return one(self.node(n.b));
            }
        }
        None
    }

    pub fn show(&self, e: Id, depth: u32) -> String {
        let n = self.node(e);
        if depth == 0 {
            return "..".into();
        }
        let s = |x: Id| self.show(x, depth - 1);
        match n.op {
            Op::Const => format!("{}:{}", self.cval(e).unwrap(), n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Not => format!("~{}", s(n.a)),
            Op::Extract => format!("{}[{}+{}]", s(n.a), n.b, n.w),
            Op::ZExt => format!("z{}({})", n.w, s(n.a)),
            Op::SExt => format!("s{}({})", n.w, s(n.a)),
            Op::Ite => format!("({}?{}:{})", s(n.a), s(n.b), s(n.c)),
            o => format!("({:?} {} {})", o, s(n.a), s(n.b)),
        }
    }
}
