//! C11: bits and fields are written and read least-significant first.
use crate::model::*;
use crate::sym;
use librezip::verif::{BitReader, BitVec, BitWriter};

fn check_writes(chunks: &[(u32, u64)], as_field: &[bool]) {
    let mut w = BitWriter::new(Vec::new());
    let mut want: Vec<bool> = vec![];
    for (i, (n, v)) in chunks.iter().enumerate() {
        if as_field[i] {
            w.write_bits_val(*n as u8, *v as u16).unwrap();
        } else {
            for k in 0..*n {
                w.write_bit((*v >> k) & 1 == 1).unwrap();
            }
        }
        push_field(&mut want, *n, *v);
    }
    w.align().unwrap();
    // aligning twice adds nothing
    w.align().unwrap();
    let out = w.into_inner();
    let exp = pack(&want);
    assert!(out == exp, "bytes differ from the bits written");
    sym::observe_bytes(&out);
    // and back, by fields and by bits
    let mut r = BitReader::new(&out[..]);
    for (i, (n, v)) in chunks.iter().enumerate() {
        let m = if *n == 16 { 0xffff } else { (1u64 << *n) - 1 };
        if as_field[i] {
            let got = r.read_part(*n as u8).unwrap();
            assert!(got as u64 == *v & m, "field read back differs");
        } else {
            for k in 0..*n {
                assert!(r.read_bit().unwrap() == ((*v >> k) & 1 == 1), "bit read back differs");
            }
        }
    }
    r.align().unwrap();
    let rest = r.into_inner();
    assert!(rest.is_empty(), "not all bytes consumed");
    sym::cover(0);
}

fn model_ops(steps: usize, start: usize) {
    let mut v = BitVec::new();
    let mut m: Vec<bool> = vec![];
    for _ in 0..start {
        let b = sym::bit();
        v.push(b);
        m.push(b);
    }
    for _ in 0..steps {
        match sym::choose(3) {
            0 => {
                let b = sym::bit();
                v.push(b);
                m.push(b);
            }
            1 => {
                assert!(v.pop() == m.pop(), "pop");
                sym::cover(0);
            }
            _ => {
                let want = if m.len() >= 8 {
                    let t = m.split_off(m.len() - 8);
                    sym::cover(1);
                    Some(pack(&t)[0])
                } else {
                    None
                };
                assert!(v.pop_byte() == want, "pop_byte");
            }
        }
    }
    assert!(v.len() == m.len(), "len");
    assert!(v.is_empty() == m.is_empty(), "is_empty");
    for (i, b) in m.iter().enumerate() {
        assert!(v.get(i) == *b, "get");
    }
    let mut it = v.iter();
    for b in &m {
        assert!(it.next() == Some(*b), "iter");
    }
    assert!(it.next().is_none() && it.next().is_none(), "iter end");
    let mut fresh = BitVec::new();
    for b in &m {
        fresh.push(*b);
    }
    assert!(fresh == v, "equal sequences compare equal");
    assert!(v.clone() == v, "clone");
    if !m.is_empty() {
        // one bit flipped, or one bit fewer: not equal
        let at = sym::choose(m.len());
        let mut other = BitVec::new();
        for (i, b) in m.iter().enumerate() {
            other.push(*b ^ (i == at));
        }
        assert!(other != v, "different sequences compare different");
        fresh.pop();
        assert!(fresh != v, "a shorter sequence compares different");
        sym::cover(2);
    }
    // what a writer makes of it is its bits
    let mut w = BitWriter::new(Vec::new());
    w.write_vec(&v).unwrap();
    w.align().unwrap();
    assert!(w.into_inner() == pack(&m), "written out");
    sym::observe(m.len() as u64);
    for b in &m {
        sym::observe(*b as u64);
    }
}

harnesses! {
    /// Two fields of every width after every bit offset.
    fn h_c11_fields() {
        let off = sym::choose(8) as u32;
        let a = sym::choose(17) as u32;
        let b = sym::choose(17) as u32;
        let how = sym::choose(2) == 0;
        let c = [(off, sym::bits(8)), (a, sym::bits(16)), (b, sym::bits(16))];
        check_writes(&c, &[false, true, how]);
    }
    /// A long run of single bits.
    fn h_c11_bits() {
        let n = sym::choose(41);
        let c: Vec<(u32, u64)> = (0..n).map(|_| (1, sym::bits(1))).collect();
        let f = vec![false; n];
        check_writes(&c, &f);
    }
    /// Every history of pushes, pops and byte removals.
    fn h_c11_vec() {
        let start = [0, 7, 8, 9, 16][sym::choose(5)];
        model_ops(4, start);
    }
    fn h_c11_vec_long() {
        let start = sym::choose(18);
        model_ops(6, start);
    }
    /// from_slice is the packed bytes' bits in order.
    fn h_c11_slice() {
        let n = sym::choose(5);
        let b = sym::bytes(n);
        let v = BitVec::from_slice(&b);
        assert!(v.len() == 8 * n);
        for i in 0..8 * n {
            assert!(v.get(i) == ((b[i / 8] >> (i % 8)) & 1 == 1), "from_slice");
        }
        let mut fresh = BitVec::new();
        for i in 0..8 * n {
            fresh.push((b[i / 8] >> (i % 8)) & 1 == 1);
        }
        assert!(fresh == v);
        sym::cover(0);
    }
    /// Stored lengths: little-endian length, its complement, the data.
    fn h_c11_prefixed() {
        let off = sym::choose(8) as u32;
        let n = sym::choose(5);
        let data = sym::bytes(n);
        let pre = sym::bits(8);
        let mut w = BitWriter::new(Vec::new());
        let mut want = vec![];
        for k in 0..off {
            w.write_bit((pre >> k) & 1 == 1).unwrap();
        }
        push_field(&mut want, off, pre);
        w.write_length_prefixed(&data).unwrap();
        let out = w.into_inner();
        let mut exp = pack(&want);
        exp.extend([n as u8, 0, !(n as u8), 0xff]);
        exp.extend(&data);
        assert!(out == exp, "length-prefixed bytes");
        let mut r = BitReader::new(&out[..]);
        for k in 0..off {
            assert!(r.read_bit().unwrap() == ((pre >> k) & 1 == 1));
        }
        r.align().unwrap();
        assert!(r.read_length_prefixed().unwrap() == data);
        sym::cover(0);
    }
}
