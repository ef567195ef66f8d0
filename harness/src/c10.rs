//! C10: dynamic block headers.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::{Block, Code};

/// Every literal, every length symbol and every distance symbol the tables
/// have, then the end of the block; what they are; the number of bits.
fn payload(v: &mut Vec<bool>, lit: &[u8], dist: &[u8]) -> Vec<Sym> {
    let mut want = vec![];
    let l = Huff::codes_of(lit);
    let d = Huff::codes_of(dist);
    for s in 0..256 {
        if lit[s] > 0 {
            push_code(v, l[s]);
            want.push(Sym::Lit(s as u8));
        }
    }
    let ds: Vec<usize> = (0..dist.len().min(30)).filter(|s| dist[*s] > 0).collect();
    if !ds.is_empty() {
        let ls: Vec<usize> = (257..lit.len().min(286)).filter(|s| lit[*s] > 0).collect();
        for i in 0..ls.len().max(ds.len()) {
            if ls.is_empty() {
                break;
            }
            let s = ls[i % ls.len()];
            let x = ds[i % ds.len()];
            push_code(v, l[s]);
            push_field(v, LEN_EXTRA[s - 257], 0);
            push_code(v, d[x]);
            push_field(v, DIST_EXTRA[x], 0);
            want.push(Sym::Ref { dist: DIST_BASE[x], run: LEN_BASE[s - 257] });
        }
    }
    if lit[256] > 0 {
        push_code(v, l[256]);
    }
    want
}

/// `head` are the bits after the block type.
fn check(head: &[bool]) {
    let mut head = head.to_vec();
    for _ in 0..300 {
        head.push(false);
    }
    let packed = pack(&head);
    let mut b = Bits { data: &packed, pos: 0 };
    let lens = read_lens(&mut b);
    let used = b.pos;
    let mut v = vec![];
    push_field(&mut v, 3, 0b101);
    let mut want = vec![];
    let mut legal = false;
    match &lens {
        Ok((l, d)) => {
            v.extend_from_slice(&head[..used]);
            let complete = Huff::new(l).complete();
            match dist_code(d) {
                Ok(Some(_)) if complete => legal = true,
                Ok(None) if complete && d.len() == 1 => legal = true,
                // lengths that are all zero but several: not claimed
                Ok(None) if complete => return,
                _ => {}
            }
            if legal {
                if l[256] == 0 {
                    // no way to end: nothing to claim about what follows
                    return;
                }
                want = payload(&mut v, l, d);
            }
        }
        Err(_) => {}
    }
    if !legal {
        v.truncate(3);
        v.extend_from_slice(&head);
    }
    let end = v.len();
    let data = pack(&v);
    let got: Vec<_> = librezip::parse_deflate(&data[..]).take(1).collect();
    if !legal {
        assert!(matches!(got[0], Err(_)), "a header RFC 1951 forbids is accepted");
        sym::cover(1);
        sym::observe(1);
        return;
    }
    match &got[0] {
        Ok(Block::DynamicHuffman { trees, codes }) => {
            assert!(trees.len() == used, "header bits remembered");
            for i in 0..used {
                assert!(trees.get(i) == v[3 + i], "header bits remembered");
            }
            assert!(codes.len() == want.len(), "number of codes");
            for (x, y) in codes.iter().zip(&want) {
                match (x, y) {
                    (Code::Literal(a), Sym::Lit(b)) => assert!(a == b, "literal"),
                    (Code::Reference(r), Sym::Ref { dist, run }) => {
                        assert!(r.dist == *dist, "distance code");
                        assert!(r.run() == *run, "length code");
                    }
                    _ => panic!("kind of code"),
                }
            }
            sym::cover(0);
            sym::observe(end as u64);
        }
        Ok(_) => panic!("kind of block"),
        Err(_) => panic!("a header RFC 1951 allows is refused"),
    }
}

fn counts(v: &mut Vec<bool>, hlit: usize, hdist: usize) {
    push_field(v, 5, hlit as u64 - 257);
    push_field(v, 5, hdist as u64 - 1);
}

/// Code length codes of these symbols, flat.
fn flat_cl(v: &mut Vec<bool>, syms: &[usize]) -> Vec<(u32, u32)> {
    let f = flat_lens(syms.len());
    let mut cl = [0u8; 19];
    for (i, s) in syms.iter().enumerate() {
        cl[*s] = f[i];
    }
    let mut n = 19;
    while n > 4 && cl[CL_ORDER[n - 1]] == 0 {
        n -= 1;
    }
    push_field(v, 4, n as u64 - 4);
    for i in 0..n {
        push_field(v, 3, cl[CL_ORDER[i]] as u64);
    }
    Huff::codes_of(&cl)
}

fn zeros(v: &mut Vec<bool>, c: &[(u32, u32)], mut n: usize) {
    while n >= 11 {
        let k = n.min(138);
        push_code(v, c[18]);
        push_field(v, 7, k as u64 - 11);
        n -= k;
    }
    while n > 0 {
        push_code(v, c[0]);
        n -= 1;
    }
}

harnesses! {
    // every pair of counts; distances: none, one code, two codes
    fn h_c10_counts() {
        warm();
        let hlit = 257 + sym::choose(30);
        let hdist = 1 + sym::choose(32);
        let mut l = vec![0u8; hlit];
        l[97] = 1;
        l[256] = if hlit > 257 { 2 } else { 1 };
        if hlit > 257 {
            l[hlit - 1] = 2;
        }
        let mut d = vec![0u8; hdist];
        match sym::choose(3) {
            0 => {}
            1 => d[hdist - 1] = 1,
            _ => {
                d[0] = 1;
                d[hdist - 1] = 1;
            }
        }
        let v = if sym::choose(2) == 0 { plain_header(&l, &d) } else { rle_header(&l, &d) };
        check(&v);
    }
    // free symbols around the end of the literal table, runs crossing it
    fn h_c10_cross() {
        warm();
        let mut v = vec![];
        let hlit = 257 + sym::choose(3);
        let hdist = 1 + sym::choose(6);
        counts(&mut v, hlit, hdist);
        let c = flat_cl(&mut v, &[0, 1, 2, 16, 17, 18]);
        push_code(&mut v, c[[1, 2][sym::choose(2)]]);
        zeros(&mut v, &c, 255);
        free(&mut v, 11);
        check(&v);
    }
    // runs that end at, before and past the end of the tables
    fn h_c10_overrun() {
        warm();
        let mut v = vec![];
        let hdist = 1 + sym::choose(14);
        counts(&mut v, 257, hdist);
        let c = flat_cl(&mut v, &[0, 1, 2, 3, 4, 5, 16, 17, 18]);
        push_code(&mut v, c[1]);
        zeros(&mut v, &c, 255);
        push_code(&mut v, c[1]);
        let s = [5, 1, 4, 2, 0][sym::choose(5)];
        push_code(&mut v, c[s]);
        let r = 16 + sym::choose(3);
        push_code(&mut v, c[r]);
        free(&mut v, [2, 3, 7][r - 16]);
        free(&mut v, 4);
        check(&v);
    }
    // the very first symbols free: a repeat of nothing
    fn h_c10_first() {
        warm();
        let mut v = vec![];
        counts(&mut v, 257, 1);
        let c = flat_cl(&mut v, &[0, 1, 16, 17, 18]);
        free(&mut v, 10);
        zeros(&mut v, &c, 240);
        free(&mut v, 5);
        check(&v);
    }
    // the code length code itself: every count of them, some of the lengths free
    fn h_c10_cl() {
        warm();
        let mut v = vec![];
        counts(&mut v, 257, 1);
        let n = 4 + sym::choose(16);
        push_field(&mut v, 4, n as u64 - 4);
        // symbols 18 and 1 are needed; they and another have free lengths
        let a = sym::choose(n);
        for i in 0..n {
            if i == a || CL_ORDER[i] == 1 || CL_ORDER[i] == 18 {
                let x = sym::bits(3);
                sym::assume(x < 3);
                push_field(&mut v, 3, x);
            } else {
                push_field(&mut v, 3, 0);
            }
        }
        free(&mut v, 4);
        check(&v);
    }
    // code length codes of every symbol at every length in use
    fn h_c10_cl_full() {
        warm();
        let mut l = vec![0u8; 286];
        let mut d = vec![0u8; 30];
        // one code of each length, and the last twice
        for i in 1..16u8 {
            l[i as usize * 17] = i;
            d[2 * i as usize - 1] = i;
        }
        let e = sym::choose(2);
        l[255] = 0;
        l[256] = 15;
        l[285 - e] = 15;
        d[0] = 15;
        let v = if sym::choose(2) == 0 { plain_header(&l, &d) } else { rle_header(&l, &d) };
        check(&v);
    }
    // three distance lengths at chosen places: single codes, gaps, incomplete
    fn h_c10_dist() {
        warm();
        let hdist = [1, 2, 3, 5, 30, 31, 32][sym::choose(7)];
        let mut l = vec![0u8; 259];
        l[65] = 1;
        l[256] = 2;
        l[258] = 2;
        let mut v = vec![];
        counts(&mut v, 259, hdist);
        let c = flat_cl(&mut v, &[0, 1, 2, 18]);
        zeros(&mut v, &c, 65);
        push_code(&mut v, c[1]);
        zeros(&mut v, &c, 190);
        push_code(&mut v, c[2]);
        push_code(&mut v, c[0]);
        push_code(&mut v, c[2]);
        let skip = if hdist > 5 { sym::choose(2) * (hdist - 4) } else { 0 };
        zeros(&mut v, &c, skip);
        // the lengths of what is left, free symbols of two bits each
        let left = (hdist - skip).min(5);
        free(&mut v, 2 * left);
        if hdist > skip + left {
            zeros(&mut v, &c, hdist - skip - left);
        }
        check(&v);
    }
    fn h_c10_cross_long() {
        warm();
        let mut v = vec![];
        let hlit = 257 + sym::choose(4);
        let hdist = 1 + sym::choose(10);
        counts(&mut v, hlit, hdist);
        let c = flat_cl(&mut v, &[0, 1, 2, 3, 16, 17, 18]);
        push_code(&mut v, c[[1, 2][sym::choose(2)]]);
        zeros(&mut v, &c, 255);
        free(&mut v, 18);
        check(&v);
    }
}
