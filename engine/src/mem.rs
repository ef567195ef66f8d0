//! Path memory: copy-on-write objects addressed by (id << 32) + offset.

use crate::expr::{cx, Id};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(Id),
    A(Rc<Vec<V>>),
}

impl V {
    #[inline]
    pub fn e(&self, w: u32) -> Id {
        match self {
            V::C(k) => cx().k(w, *k as u128),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    #[inline]
    pub fn of(e: Id) -> V {
        let c = cx();
        if c.w(e) <= 64 {
            if let Some(k) = c.cval(e) {
                return V::C(k as u64);
            }
        }
        V::S(e)
    }
}

#[derive(Clone)]
pub struct LogEnt {
    pub off: Id, // 64-bit offset
    pub bytes: Rc<Vec<Id>>, // 8-bit expressions
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Id>, // empty when fully concrete; 0 = concrete byte
    pub log: Vec<LogEnt>,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: usize) -> Obj {
        Obj { data: vec![0; size], sym: vec![], log: vec![], ro: false }
    }
    pub fn byte(&self, i: usize) -> Id {
        if !self.sym.is_empty() && self.sym[i] != 0 {
            self.sym[i]
        } else {
            cx().k(8, self.data[i] as u128)
        }
    }
    pub fn set(&mut self, i: usize, b: Id) {
        if let Some(k) = cx().cval(b) {
            self.data[i] = k as u8;
            if !self.sym.is_empty() {
                self.sym[i] = 0;
            }
        } else {
            if self.sym.is_empty() {
                self.sym = vec![0; self.data.len()];
            }
            self.sym[i] = b;
        }
    }
    #[inline]
    pub fn concrete(&self, off: usize, n: usize) -> bool {
        self.log.is_empty() && (self.sym.is_empty() || self.sym[off..off + n].iter().all(|x| *x == 0))
    }
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u32,
    pub free: Rc<Vec<u32>>,
    pub base: u32, // ids below are functions / globals
}

impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { chunks: vec![], next: first, free: Rc::new(vec![]), base: first }
    }
    pub fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let (c, i) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i] = o;
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        self.chunks.get(c)?[i].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        let ch = Rc::make_mut(self.chunks.get_mut(c)?);
        ch[i].as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let id = if !self.free.is_empty() {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            let i = self.next;
            self.next += 1;
            i
        };
        self.put(id, Some(Rc::new(Obj::new(size))));
        (id as u64) << 32
    }
    pub fn release(&mut self, id: u32) {
        self.put(id, None);
        Rc::make_mut(&mut self.free).push(id);
    }
    /// Ids whose objects differ between two memories (None: different layout).
    pub fn diff(&self, o: &Mem) -> Option<Vec<u32>> {
        if self.next != o.next || self.chunks.len() != o.chunks.len() {
            return None;
        }
        if !Rc::ptr_eq(&self.free, &o.free) && self.free != o.free {
            return None;
        }
        let mut r = vec![];
        for (c, (x, y)) in self.chunks.iter().zip(&o.chunks).enumerate() {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            for i in 0..CH {
                match (&x[i], &y[i]) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        if !Rc::ptr_eq(a, b) {
                            r.push((c * CH + i) as u32);
                        }
                    }
                    _ => return None,
                }
            }
        }
        Some(r)
    }
}
