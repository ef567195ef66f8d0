//! C13: every guess is a legal encoding of the data that follows.
use crate::matches::{config, filler, found, replay};
use crate::sym;
use librezip::all_refs::AllRefs;
use librezip::{Code, Guesser, Technique};

/// Every offer at `pos` is legal, as long as can be, and nearest first.
fn offers(refs: &AllRefs, all: &[u8], pos: usize) {
    let mut before = 0;
    for r in found(refs, pos, &[]).unwrap_or_default() {
        let d = sym::each(r.dist as u64) as usize;
        let n = sym::each(r.run() as u64) as usize;
        assert!(d > before, "nearest first");
        before = d;
        assert!(n >= 3 && n <= 258, "run of an offer");
        assert!(pos + n <= all.len(), "an offer runs past the data");
        assert!(d <= 32768 && d <= pos, "distance of an offer");
        for i in 0..n {
            assert!(all[pos + i - d] == all[pos + i], "an offer copies other bytes");
        }
        if n < 258 && pos + n < all.len() {
            assert!(all[pos + n - d] != all[pos + n], "an offer stops early");
            sym::cover(3);
        } else if n == 258 {
            sym::cover(4);
        }
        sym::cover(0);
    }
}

/// Whatever is guessed at `pos` decodes to what follows.
fn guess(t: &Technique, all: &[u8], pos: usize) {
    let mut s = t.scanner();
    s.pos = pos;
    let codes = s.codes();
    assert!(!codes.is_empty(), "no guess");
    let got = replay(&all[..pos], &codes);
    assert!(pos + got.len() <= all.len(), "a guess runs past the data");
    assert!(got[..] == all[pos..pos + got.len()], "a guess decodes to other data");
    if matches!(codes.last(), Some(Code::Reference(_))) {
        sym::cover(1);
    }
    if codes.len() > 1 {
        sym::cover(2);
    }
}

fn both(all: &[u8], pre: usize, limit: u16, levels: &[u8], from: usize, to: usize) {
    let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], limit);
    for pos in from..to {
        offers(&refs, all, pos);
        if pos >= pre {
            for &l in levels {
                guess(&Technique::new(config(l), &refs), all, pos);
            }
        }
    }
}

/// Follow the guesses from the start, as the tracer does when they are right.
fn walk(all: &[u8], pre: usize, level: u8) {
    let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
    let t = Technique::new(config(level), &refs);
    let mut s = t.scanner();
    assert!(s.pos == pre, "where the scanner starts");
    while s.more_data() {
        let pos = s.pos;
        let codes = s.codes();
        let got = replay(&all[..pos], &codes);
        assert!(got.len() > 0 && pos + got.len() <= all.len(), "a guess runs past the data");
        assert!(got[..] == all[pos..pos + got.len()], "a guess decodes to other data");
        for c in codes {
            if matches!(c, Code::Reference(_)) {
                sym::cover(0);
            }
            s.feedback(c);
        }
        assert!(s.pos == pos + got.len(), "where the scanner goes");
    }
    assert!(s.pos == all.len(), "where the scanner ends");
}

harnesses! {
    fn h_c13_free() {
        sym::split();
        let p = sym::choose(3);
        let all = sym::bytes(6);
        both(&all, p, u16::MAX, &[0, 1, 9], 0, 6);
    }
    fn h_c13_walk() {
        sym::split();
        let p = sym::choose(2);
        let level = sym::choose(10) as u8;
        let all = sym::bytes(7);
        walk(&all, p, level);
    }
    fn h_c13_tail() {
        sym::split();
        // one repeated byte, then four free ones
        let mut all = vec![5u8; 4];
        all.extend(sym::bytes(4));
        let limit = [1, 4, u16::MAX][sym::choose(3)];
        both(&all, 0, limit, &[0, 4], 2, 8);
    }
    fn h_c13_three() {
        sym::split();
        // a match of three, maybe longer ones one and two bytes on
        let word: Vec<u8> = (0..12).map(|i| 33 + 7 * i as u8).collect();
        let mut all = vec![1u8, 2];
        all.extend_from_slice(&word[..3]);
        all.push(sym::byte());
        let k = sym::choose(6);
        all.extend_from_slice(&word[1..1 + k]);
        all.push(sym::byte());
        let m = sym::choose(7);
        all.extend_from_slice(&word[2..2 + m]);
        all.push(sym::byte());
        let pos = all.len();
        let n = 3 + sym::choose(6);
        all.extend_from_slice(&word[..n]);
        both(&all, [0, 4][sym::choose(2)], u16::MAX, &[0], pos, pos + 1);
    }
    fn h_c13_long() {
        sym::split();
        // periods of 1-4 bytes for 300 bytes, one of them free, then an end nearby
        let period = 1 + sym::choose(4);
        let n = 255 + sym::choose(8) + period;
        let mut all: Vec<u8> = (0..n + 1).map(|i| if i == 0 { 99 } else { 10 + (i % period) as u8 }).collect();
        all[n] = [10, 11, 12, 13, 200][sym::choose(5)];
        both(&all, [0, 2][sym::choose(2)], u16::MAX, &[0, 9], 1 + period, 3 + period);
    }
    fn h_c13_edge() {
        sym::split();
        // text that does not repeat, then the same again but for one free byte
        let n = [1, 2, 8, 9, 256, 257, 258, 259, 262][sym::choose(9)];
        let gap = [0, 1, 20][sym::choose(3)];
        let mut all = vec![7u8; 2];
        all.extend(filler(n + 4));
        all.extend((0..gap).map(|i| 128 + i as u8));
        let pos = all.len();
        for i in 0..n {
            all.push(all[2 + i]);
        }
        let b = sym::byte();
        sym::assume(b == all[2 + n] || b >= 250);
        all.push(b);
        let more = sym::choose(4);
        for i in 0..more {
            all.push(all[2 + n + 1 + i]);
        }
        both(&all, [0, pos][sym::choose(2)], u16::MAX, &[0, 9], pos, pos + 1);
    }
    fn h_c13_overlap() {
        sym::split();
        // a copy whose distance is below, at or above its run
        let d = [1, 2, 3, 4, 5, 100, 257, 258, 259][sym::choose(9)];
        let n = [d - 1, d, d + 1, 2 * d - 1, 2 * d, 2 * d + 1, 257, 258, 259][sym::choose(9)];
        let mut all = vec![7u8; 2];
        all.extend(filler(d));
        let pos = all.len();
        for i in 0..n {
            all.push(all[2 + i]);
        }
        let b = [all[2 + n], 255][sym::choose(2)];
        all.push(b);
        all.push([7, 32][sym::choose(2)]);
        both(&all, [0, pos][sym::choose(2)], u16::MAX, &[0, 9], pos, pos + 1);
    }
    fn h_c13_far() {
        sym::split();
        let dist = 32764 + sym::choose(8);
        let mut all = vec![9u8, 8, 1, 2, 3, 4];
        all.extend(filler(dist - 4));
        let pos = all.len();
        all.extend_from_slice(&[1, 2, 3, 4 + sym::choose(2) as u8, sym::byte()]);
        both(&all, [0, 3, 32768][sym::choose(3)], u16::MAX, &[0, 1, 9], pos, pos + 1);
        sym::cover(5);
    }
    fn h_c13_free_long() {
        sym::split();
        let p = sym::choose(3);
        let all = sym::bytes(8);
        both(&all, p, u16::MAX, &[0, 1, 9], 0, 8);
    }
}
