//! Families of DEFLATE streams: a concrete beginning, then free bits.

use crate::model::*;
use crate::sym;

/// Have the lazily built tables made before anything forks.
pub fn warm() {
    for b in librezip::parse_deflate(&[0x03u8, 0x00][..]) {
        b.unwrap();
    }
}

fn lit(v: &mut Vec<bool>, s: u16) {
    let c = Huff::codes_of(&fixed_lit_lens());
    push_code(v, c[s as usize]);
}

/// Literal/length and distance code lengths of the dynamic templates.
pub fn tables(kind: usize) -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![0u8; 257];
    match kind {
        // a rich code: literals, every kind of length symbol, distances of every shape
        0 => {
            l.resize(288, 0);
            for (s, n) in [(97, 2), (98, 3), (256, 3), (257, 3), (264, 4), (265, 4), (269, 5), (284, 5), (285, 5), (286, 5), (99, 4), (100, 4)] {
                l[s] = n;
            }
            let mut d = vec![0u8; 32];
            for (s, n) in [(0, 2), (1, 2), (2, 3), (3, 3), (4, 4), (5, 4), (29, 4), (30, 4)] {
                d[s] = n;
            }
            (l, d)
        }
        // no distance code at all
        1 => {
            l.resize(259, 0);
            for (s, n) in [(97, 1), (256, 2), (257, 3), (258, 3)] {
                l[s] = n;
            }
            (l, vec![0])
        }
        // a single distance code
        2 => {
            l.resize(259, 0);
            for (s, n) in [(97, 1), (256, 2), (257, 3), (258, 3)] {
                l[s] = n;
            }
            (l, vec![0, 1])
        }
        // the longest codes
        3 => {
            l.resize(260, 0);
            for i in 0..12 {
                l[97 + i] = 1 + i as u8;
            }
            l[256] = 13;
            l[257] = 14;
            l[258] = 15;
            l[259] = 15;
            let mut d = vec![0u8; 16];
            for i in 0..15 {
                d[i] = 1 + i as u8;
            }
            d[15] = 15;
            (l, d)
        }
        // every symbol has a code
        4 => (flat_lens(286), flat_lens(30)),
        _ => unreachable!(),
    }
}

/// The concrete bits of a template.
pub fn template(t: usize) -> Vec<bool> {
    let mut v = vec![];
    match t {
        0 => {}
        1 => {
            // last block, fixed, one literal
            push_field(&mut v, 3, 0b011);
            lit(&mut v, 97);
        }
        2 => {
            // last block, fixed, three literals and a reference three back
            push_field(&mut v, 3, 0b011);
            lit(&mut v, 97);
            lit(&mut v, 200);
            lit(&mut v, 99);
            lit(&mut v, 257);
            push_code(&mut v, (5, 2));
        }
        3 => {
            // an empty fixed block, then anything
            push_field(&mut v, 3, 0b010);
            lit(&mut v, 256);
        }
        4 => {
            // a stored block, then anything
            push_field(&mut v, 8, 0);
            push_field(&mut v, 16, 3);
            push_field(&mut v, 16, 0xfffc);
            for b in b"xyz" {
                push_field(&mut v, 8, *b as u64);
            }
        }
        5 => {
            // a fixed block of one literal, then anything
            push_field(&mut v, 3, 0b010);
            lit(&mut v, 97);
            lit(&mut v, 256);
        }
        _ => {
            // last block, dynamic
            push_field(&mut v, 3, 0b101);
            let (l, d) = tables(t - 6);
            v.extend(plain_header(&l, &d));
            // one literal of history
            push_code(&mut v, Huff::codes_of(&l)[97]);
        }
    }
    v
}

/// A template followed by `tail` free bits (and zero padding to a byte).
pub fn stream(t: usize, tail: usize) -> Vec<u8> {
    let mut v = template(t);
    free(&mut v, tail);
    pack(&v)
}

pub fn free(v: &mut Vec<bool>, n: usize) {
    for _ in 0..n {
        v.push(sym::bit());
    }
}

/// A length symbol (reserved ones included) and a distance symbol (likewise)
/// with free extra bits, in the given codes. Symbols the codes lack are left
/// out, so the result is whatever the tables make of the rest.
pub fn reference(v: &mut Vec<bool>, l: &[(u32, u32)], d: &[(u32, u32)], ls: usize, ds: usize) {
    push_code(v, l[257 + ls]);
    if ls < 29 {
        free(v, LEN_EXTRA[ls] as usize);
    }
    push_code(v, d[ds]);
    if ds < 8 {
        // short distances one by one: a copy over a short symbolic distance
        // makes every byte depend on all before it
        for _ in 0..DIST_EXTRA[ds] {
            v.push(sym::choose(2) == 1);
        }
    } else if ds < 30 {
        free(v, DIST_EXTRA[ds] as usize);
    }
}

/// A last fixed block: `hist` literals, then one reference of any length and
/// distance symbols, then the end of the block, or another like it.
pub fn fixed_reference(hist: usize, ls: usize, ds: usize, again: bool) -> Vec<u8> {
    let mut v = vec![];
    push_field(&mut v, 3, 0b011);
    let l = Huff::codes_of(&fixed_lit_lens());
    let d = Huff::codes_of(&[5; 32]);
    for i in 0..hist {
        push_code(&mut v, l[97 + i]);
    }
    reference(&mut v, &l, &d, ls, ds);
    if again {
        reference(&mut v, &l, &d, 8, 4);
    }
    push_code(&mut v, l[256]);
    pack(&v)
}

// The families the stream properties share.

/// No more than n arbitrary bytes.
pub fn fam_free(n: usize) -> Vec<u8> {
    let n = sym::choose(n + 1);
    sym::bytes(n)
}
/// A fixed block with free bits at the start or after some literals.
pub fn fam_fixed(tail: usize) -> Vec<u8> {
    let t = 1 + sym::choose(2);
    stream(t, tail)
}
/// References with every length and distance symbol, after up to `hist` literals.
pub fn fam_ref(hist: usize) -> Vec<u8> {
    let hist = hist * sym::choose(2);
    let ls = sym::choose(31);
    let ds = sym::choose(32);
    fixed_reference(hist, ls, ds, false)
}
/// A complete fixed or stored block, then free bits.
pub fn fam_second(tail: usize) -> Vec<u8> {
    let t = 3 + sym::choose(3);
    stream(t, tail)
}
/// A last dynamic block with a plain header and one literal, or a dynamic
/// block with a run-length coded header after a fixed block of one literal
/// and before other blocks; then free bits.
pub fn fam_dynamic(tail: usize) -> Vec<u8> {
    let t = sym::choose(4);
    if sym::choose(2) == 0 {
        stream(6 + t, tail)
    } else {
        let mut v = template(5);
        push_field(&mut v, 3, 0b100);
        let (l, d) = tables(t);
        v.extend(rle_header(&l, &d));
        free(&mut v, tail);
        pack(&v)
    }
}
/// A last dynamic block where every symbol has a code: a literal, one
/// reference of every length symbol and some distance symbols.
pub fn fam_full() -> Vec<u8> {
    let ls = sym::choose(29);
    let ds = [0, 3, 4, 29][sym::choose(4)];
    let mut v = vec![];
    push_field(&mut v, 3, 0b101);
    let (l, d) = tables(4);
    v.extend(rle_header(&l, &d));
    let l = Huff::codes_of(&l);
    let d = Huff::codes_of(&d);
    push_code(&mut v, l[0]);
    push_code(&mut v, l[255]);
    reference(&mut v, &l, &d, ls, ds);
    push_code(&mut v, l[256]);
    pack(&v)
}
/// A fixed block whose end leaves the header of the stored block after it at
/// each of the eight places in a byte (one of them: nothing to pad), padding
/// free; the stored block has 0 or 2 free bytes and is the last, or an empty
/// last stored block follows.
pub fn fam_align() -> Vec<u8> {
    let mut v = vec![];
    push_field(&mut v, 3, 0b010);
    for _ in 0..sym::choose(8) {
        lit(&mut v, 200);
    }
    lit(&mut v, 256);
    let last = sym::choose(2) == 0;
    let n = 2 * sym::choose(2);
    for (last, n) in [(last, n), (true, 0)] {
        push_field(&mut v, 3, last as u64);
        while v.len() % 8 != 0 {
            v.push(sym::bit());
        }
        push_field(&mut v, 16, n as u64);
        push_field(&mut v, 16, n as u64 ^ 0xffff);
        free(&mut v, 8 * n);
        if last {
            break;
        }
    }
    pack(&v)
}
/// A dynamic header whose code lengths are zeroes and then, close to the end,
/// a one and `n` symbols that set, repeat or skip lengths, any extra bits: too
/// few lengths, just enough, or too many, for each way of overrunning them.
pub fn fam_lengths(n: usize) -> Vec<u8> {
    let mut v = vec![];
    push_field(&mut v, 3, 0b101);
    let (hlit, hdist) = [(0, 0), (0, 3), (29, 29), (31, 31)][sym::choose(4)];
    push_field(&mut v, 5, hlit);
    push_field(&mut v, 5, hdist);
    push_field(&mut v, 4, 15);
    let mut cl = [0u8; 19];
    cl[18] = 1;
    cl[16] = 2;
    cl[17] = 3;
    cl[1] = 3;
    for i in CL_ORDER {
        push_field(&mut v, 3, cl[i] as u64);
    }
    let c = Huff::codes_of(&cl);
    let mut left = 257 + hlit + 1 + hdist;
    let near = 10 + [0, 1, 3][sym::choose(3)];
    while left > near + 1 {
        let run = (left - near - 1).min(138);
        let run = if left - near - 1 - run < 11 && run == 138 { 120 } else { run };
        push_code(&mut v, c[18]);
        push_field(&mut v, 7, run - 11);
        left -= run;
    }
    push_code(&mut v, c[1]);
    for _ in 0..n {
        match sym::choose(4) {
            0 => push_code(&mut v, c[1]),
            1 => {
                push_code(&mut v, c[16]);
                push_field(&mut v, 2, sym::choose(4) as u64);
            }
            2 => {
                push_code(&mut v, c[17]);
                push_field(&mut v, 3, sym::choose(8) as u64);
            }
            _ => {
                push_code(&mut v, c[18]);
                free(&mut v, 7);
            }
        }
    }
    push_code(&mut v, c[1]);
    push_code(&mut v, c[1]);
    free(&mut v, 3);
    pack(&v)
}
/// 0 or 1 other blocks, then a stored block of up to n arbitrary bytes (its
/// complement and padding arbitrary too), last or followed by free bits.
pub fn fam_stored(n: usize, tail: usize) -> Vec<u8> {
    let mut v = vec![];
    match sym::choose(3) {
        0 => {}
        1 => {
            push_field(&mut v, 3, 0b010);
            lit(&mut v, 256);
        }
        _ => {
            push_field(&mut v, 3, 0b010);
            lit(&mut v, 200);
            lit(&mut v, 256);
        }
    }
    let last = sym::choose(2) == 0;
    push_field(&mut v, 3, last as u64);
    while v.len() % 8 != 0 {
        v.push(sym::bit());
    }
    let n = sym::choose(n + 1);
    push_field(&mut v, 16, n as u64);
    let c = if sym::choose(2) == 0 { n as u64 ^ 0xffff } else { sym::bits(16) };
    push_field(&mut v, 16, c);
    free(&mut v, 8 * n);
    if !last {
        free(&mut v, tail);
    }
    pack(&v)
}

/// A reference in the fixed codes.
pub fn add_reference(v: &mut Vec<bool>, d: usize, r: usize) {
    let ls = if r == 258 { 28 } else { (0..28).rev().find(|&s| LEN_BASE[s] as usize <= r).unwrap() };
    let ds = (0..30).rev().find(|&s| DIST_BASE[s] as usize <= d).unwrap();
    lit(v, 257 + ls as u16);
    push_field(v, LEN_EXTRA[ls] as u32, (r - LEN_BASE[ls] as usize) as u64);
    push_code(v, (5, ds as u32));
    push_field(v, DIST_EXTRA[ds] as u32, (d - DIST_BASE[ds] as usize) as u64);
}
pub fn add_literal(v: &mut Vec<bool>, s: u16) {
    lit(v, s);
}
/// A stored block about as long as the window or longer, then references into it.
pub fn fam_far(free: bool) -> Vec<u8> {
    let n = [32767usize, 32768, 40000][sym::choose(3)];
    let mut text = crate::matches::filler(n);
    if free {
        for i in [0, 1, 2, 3, 7230, 7231, 7232, 7233, 7234, 7235, n - 3, n - 2, n - 1] {
            text[i] = sym::byte();
        }
    }
    let mut v = vec![];
    add_stored(&mut v, false, &text);
    push_field(&mut v, 3, 3);
    let d = [1usize, 3000, 32766, 32767, 32768][sym::choose(5)];
    let r = [3, 11, 258][sym::choose(3)];
    for (d, r) in [(d, r), (2, 3), (32768, 4)] {
        add_reference(&mut v, d, r);
        lit(&mut v, 33);
    }
    lit(&mut v, 256);
    pack(&v)
}

/// gzip headers of four shapes; what the format leaves open is free.
pub fn header(k: usize) -> Vec<u8> {
    let mut h = vec![0x1f, 0x8b, 8, [0, 8, 4 | 2, 16 | 1][k]];
    h.extend(sym::bytes(6));
    match k {
        1 => h.extend_from_slice(&[b'a', 0]),
        2 => {
            h.extend_from_slice(&[2, 0]);
            h.extend(sym::bytes(4));
        }
        3 => h.extend_from_slice(&[0]),
        _ => {}
    }
    h
}

pub fn add_stored(v: &mut Vec<bool>, last: bool, data: &[u8]) {
    push_field(v, 3, last as u64);
    while v.len() % 8 != 0 {
        v.push(false);
    }
    push_field(v, 16, data.len() as u64);
    push_field(v, 16, data.len() as u64 ^ 0xffff);
    for b in data {
        for i in 0..8 {
            v.push(b >> i & 1 == 1);
        }
    }
}
pub fn add_fixed(v: &mut Vec<bool>, last: bool, lits: &[u8], back: bool) {
    let l = Huff::codes_of(&fixed_lit_lens());
    push_field(v, 3, 2 | last as u64);
    for c in lits {
        push_code(v, l[*c as usize]);
    }
    if back {
        push_code(v, l[258]);
        push_code(v, (5, 2));
    }
    push_code(v, l[256]);
}
pub fn add_dynamic(v: &mut Vec<bool>, last: bool) {
    push_field(v, 3, 4 | last as u64);
    let mut l = vec![0u8; 266];
    for s in [97, 98, 256, 265] {
        l[s] = 2;
    }
    let d = [2; 4];
    v.extend(rle_header(&l, &d));
    let l = Huff::codes_of(&l);
    let d = Huff::codes_of(&d);
    push_code(v, l[97]);
    push_code(v, l[98]);
    push_code(v, l[265]);
    v.push(sym::choose(2) == 1);
    push_code(v, d[1]);
    push_code(v, l[256]);
}

/// Some streams that are fine, for zlib too.
pub fn sample(k: usize, data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    match k {
        0 => add_stored(&mut v, true, data),
        1 => {
            add_fixed(&mut v, false, b"a\nb", true);
            add_stored(&mut v, false, data);
            add_fixed(&mut v, true, b"c", false);
        }
        2 => {
            add_dynamic(&mut v, false);
            add_fixed(&mut v, true, b"\xffz\n", true);
        }
        _ => {
            add_stored(&mut v, false, data);
            add_stored(&mut v, false, &[]);
            add_dynamic(&mut v, true);
        }
    }
    pack(&v)
}
