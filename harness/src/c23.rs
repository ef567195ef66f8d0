//! C23: contents, block headers and traces are enough to rebuild the archive.
use crate::matches::config;
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::all_refs::AllRefs;
use librezip::verif::{BitVec, BitWriter};
use librezip::{Block, CircularBuffer, Code, Technique, Trace};

/// What is kept of a block besides the contents.
enum Kept {
    Stored(usize),
    Fixed(usize, Vec<u8>),
    Dynamic(usize, BitVec, Vec<u8>),
}

/// The trace of a block's codes, as bytes, and the number of bytes they make.
fn take(window: &mut CircularBuffer, all: &mut Vec<u8>, codes: &[Code], level: u8) -> (usize, Vec<u8>) {
    let pre = window.vec();
    let mut data = vec![];
    librezip::decompressed_codes(&mut data, window, codes).unwrap();
    all.extend_from_slice(&data);
    let refs = AllRefs::with_sixteen(&pre, &data, u16::MAX);
    let trace = librezip::trace::trace(codes, &Technique::new(config(level), &refs));
    for t in &trace {
        match t {
            Trace::Correct => sym::cover(2),
            Trace::ActuallyLiteral => sym::cover(3),
            Trace::Actually(_) => sym::cover(4),
        }
    }
    (data.len(), librezip::serialise_trace::write(&trace))
}

fn give(pre: &[u8], data: &[u8], bytes: &[u8], level: u8) -> Vec<Code> {
    let refs = AllRefs::with_sixteen(pre, data, u16::MAX);
    let trace = librezip::serialise_trace::read(bytes).unwrap();
    librezip::trace::restore(&trace, &Technique::new(config(level), &refs))
}

fn check(data: &[u8], level: u8) {
    let mut window = CircularBuffer::new();
    let mut all = vec![];
    let mut kept = vec![];
    for b in librezip::parse_deflate(data) {
        let b = match b {
            Ok(b) => b,
            Err(_) => return,
        };
        if let Block::FixedHuffman(ref codes) | Block::DynamicHuffman { ref codes, .. } = b {
            // not a stream if it reaches before its start: C07
            let mut n = all.len();
            for c in codes {
                if let Code::Reference(r) = c {
                    if sym::each((r.dist as usize > n) as u64) == 1 {
                        return;
                    }
                    sym::each(r.dist as u64);
                    sym::each(r.run() as u64);
                }
                n += c.emitted_bytes() as usize;
            }
        }
        match b {
            Block::Uncompressed(d) => {
                window.extend(&d);
                all.extend_from_slice(&d);
                kept.push(Kept::Stored(d.len()));
            }
            Block::FixedHuffman(codes) => {
                let (n, t) = take(&mut window, &mut all, &codes, level);
                kept.push(Kept::Fixed(n, t));
            }
            Block::DynamicHuffman { trees, codes } => {
                let (n, t) = take(&mut window, &mut all, &codes, level);
                kept.push(Kept::Dynamic(n, trees, t));
            }
        }
    }
    // the archive again, from the contents and what was kept
    let mut w = BitWriter::new(Vec::new());
    let mut at = 0;
    let count = kept.len();
    for (i, k) in kept.into_iter().enumerate() {
        let pre = &all[at - at.min(32768)..at];
        let b = match k {
            Kept::Stored(n) => {
                at += n;
                Block::Uncompressed(all[at - n..at].to_vec())
            }
            Kept::Fixed(n, t) => {
                at += n;
                Block::FixedHuffman(give(pre, &all[at - n..at], &t, level))
            }
            Kept::Dynamic(n, trees, t) => {
                at += n;
                let codes = give(pre, &all[at - n..at], &t, level);
                Block::DynamicHuffman { trees, codes }
            }
        };
        w.write_bit(i + 1 == count).unwrap();
        librezip::compressed_block(&mut w, &b).unwrap();
    }
    w.align().unwrap();
    let got = w.into_inner();
    let want = match inflate(data, true) {
        Ok(x) => x,
        Err(e) => panic!("accepted a stream RFC 1951 forbids: {:?}", e),
    };
    assert!(at == all.len() && want.out[..] == all[..], "contents");
    let used = &data[..(want.bits + 7) / 8];
    if want.odd_258 && got != used {
        // length 258 spelled as symbol 284 with extra bits 31
        sym::known(2);
    }
    assert!(got.len() == used.len(), "length of the rebuilt archive");
    assert!(got == used, "the rebuilt archive differs");
    sym::observe_bytes(&got);
    sym::cover(0);
    if count > 1 {
        sym::cover(1);
    }
}

fn level() -> u8 {
    [1, 6, 0][sym::choose(3)]
}

harnesses! {
    fn h_c23_fixed() {
        warm();
        let l = level();
        check(&fam_fixed(10), l);
    }
    fn h_c23_second() {
        warm();
        let l = level();
        check(&fam_second(12), l);
    }
    fn h_c23_align() {
        warm();
        check(&fam_align(), 1);
    }
    fn h_c23_stored() {
        warm();
        check(&fam_stored(3, 10), 1);
    }
    fn h_c23_dynamic() {
        warm();
        let l = level();
        check(&fam_dynamic(9), l);
    }
    fn h_c23_across() {
        // stored bytes, then codes that guesses of any technique may miss
        warm();
        let l = level();
        let n = sym::choose(3);
        let mut stored = b"ab"[..n].to_vec();
        stored.push(sym::byte());
        let mut v = vec![];
        add_stored(&mut v, false, &stored);
        let k = [0, 3, 6][sym::choose(3)];
        let lits = [97, 98, 97, 98, 97 + sym::choose(3) as u8, 99][..k].to_vec();
        add_fixed(&mut v, false, &lits, k > 2 && sym::choose(2) == 1);
        let (lc, dc) = (Huff::codes_of(&fixed_lit_lens()), Huff::codes_of(&[5; 30]));
        push_field(&mut v, 3, 3);
        for b in &lits[..lits.len().min(3)] {
            push_code(&mut v, lc[*b as usize]);
        }
        let ls = sym::choose(2);
        let ds = sym::choose(5);
        reference(&mut v, &lc, &dc, ls, ds);
        push_code(&mut v, lc[256]);
        check(&pack(&v), l);
    }
    fn h_c23_far() {
        // a stored block beyond the window, then references into it
        warm();
        let l = level();
        let mut v = fam_far(false);
        v.push(0x55);
        check(&v, l);
    }
    fn h_c23_same() {
        // many places hold the same bytes: the distance must come back, not just the data
        warm();
        let l = level();
        let n = 600 + sym::choose(2);
        let text: Vec<u8> = (0..n).map(|i| [7, 9][i % 2 * (n - 600)]).collect();
        let mut v = vec![];
        add_stored(&mut v, false, &text);
        let r = [3, 5, 32, 257, 258][sym::choose(5)];
        let d = [2, 4, 300, 600][sym::choose(4)];
        push_field(&mut v, 3, 3);
        for (d, r) in [(d, r), (2, 4), (d, r)] {
            add_reference(&mut v, d, r);
        }
        add_literal(&mut v, 256);
        check(&pack(&v), l);
    }
    fn h_c23_long() {
        // a long run, all extra bits
        warm();
        let l = level();
        let ls = [26, 27, 28][sym::choose(3)];
        check(&fixed_reference(2, ls, 0, false), l);
    }
    fn h_c23_dynamic_long() {
        warm();
        let l = level();
        check(&fam_dynamic(12), l);
    }
}
