//! C12: a trace restores the original codes.
use crate::matches::{config, filler, replay};
use crate::sym;
use librezip::all_refs::AllRefs;
use librezip::verif::make_ref;
use librezip::{Code, Technique, Trace};

/// Trace `codes` and restore them.
fn there_and_back(pre: &[u8], codes: &[Code], level: u8, limit: u16) {
    let data = replay(pre, codes);
    let refs = AllRefs::with_sixteen(pre, &data, limit);
    let t = Technique::new(config(level), &refs);
    let trace = librezip::trace::trace(codes, &t);
    assert!(trace.len() == codes.len(), "one record per code");
    let back = librezip::trace::restore(&trace, &t);
    assert!(back.len() == codes.len(), "number of restored codes");
    for (a, b) in back.iter().zip(codes) {
        let ok = match (a, b) {
            (Code::Literal(x), Code::Literal(y)) => x == y,
            (Code::Reference(x), Code::Reference(y)) => x.dist == y.dist && x.run() == y.run(),
            _ => false,
        };
        assert!(ok, "a restored code");
    }
    for r in trace {
        match r {
            Trace::Correct => sym::cover(0),
            Trace::ActuallyLiteral => sym::cover(1),
            Trace::Actually(_) => sym::cover(2),
        }
    }
}

/// Any codes for `n` bytes after `p` of history: literals are free.
fn codes(p: usize, n: usize) -> Vec<Code> {
    let mut v = vec![];
    let mut at = 0;
    while at < n {
        let left = n - at;
        let refs = if left >= 3 { (p + at) * (left - 2) } else { 0 };
        let c = sym::choose(1 + refs);
        if c == 0 {
            v.push(Code::Literal(sym::byte()));
            at += 1;
        } else {
            let d = 1 + (c - 1) % (p + at);
            let run = 3 + (c - 1) / (p + at);
            v.push(make_ref(d as u16, run as u16).into());
            at += run;
        }
    }
    v
}

/// Codes that copy whole pieces of what came before.
fn pieces(lits: usize, count: usize) -> Vec<Code> {
    let mut v: Vec<Code> = (0..lits).map(|i| Code::Literal(33 + 7 * i as u8)).collect();
    let mut at = lits;
    for _ in 0..count {
        match sym::choose(3) {
            0 => {
                v.push(Code::Literal(sym::byte()));
                at += 1;
            }
            1 => {
                let d = [1, 3][sym::choose(2)];
                let run = [3, 9][sym::choose(2)];
                v.push(make_ref(d as u16, run).into());
                at += run as usize;
            }
            _ => {
                let run = [3, 7][sym::choose(2)];
                v.push(make_ref(at as u16, run).into());
                at += run as usize;
            }
        }
    }
    v
}

harnesses! {
    fn h_c12_free() {
        sym::split();
        let p = sym::choose(3);
        let n = sym::choose(6);
        let level = [0, 1, 4][sym::choose(3)];
        let pre = sym::bytes(p);
        there_and_back(&pre, &codes(p, n), level, u16::MAX);
    }
    fn h_c12_levels() {
        sym::split();
        let level = sym::choose(10) as u8;
        let p = sym::choose(2);
        let pre = sym::bytes(p);
        there_and_back(&pre, &codes(p, 5), level, [1, 5][sym::choose(2)]);
    }
    fn h_c12_pieces() {
        sym::split();
        let level = [0, 1, 4][sym::choose(3)];
        let c = pieces(6, 2);
        let p = sym::choose(2) * 3;
        let pre = vec![33u8; p];
        there_and_back(&pre, &c, level, u16::MAX);
    }
    fn h_c12_try() {
        sym::split();
        // the entry point with its own checks
        let level = 1 + sym::choose(9) as u8;
        let p = sym::choose(2);
        let pre = vec![33u8; p];
        let c = pieces(5, 2);
        let data = replay(&pre, &c);
        let trace = librezip::tracer::try_gzip(level, &pre, &data, &c);
        assert!(trace.len() == c.len(), "one record per code");
        sym::cover(0);
    }
    fn h_c12_history() {
        sym::split();
        // a whole window of history
        let n = [32767, 32768, 32769, 40000][sym::choose(4)];
        let mut pre = filler(n);
        let k = pre.len();
        pre[k - 1] = [1, 31][sym::choose(2)];
        let d = [1u16, 2, 32765, 32766, 32767][sym::choose(5)];
        let run = [3u16, 4, 258][sym::choose(3)];
        let mut c = vec![make_ref(d, run).into(), Code::Literal(7), make_ref(32767, 3).into(), Code::Literal([1, 31][sym::choose(2)])];
        for i in 0..4 {
            c.push(Code::Literal(pre[k - 9 + i]));
        }
        there_and_back(&pre, &c, [0, 1, 9][sym::choose(3)], u16::MAX);
    }
    fn h_c12_three() {
        sym::split();
        // where the guess may be of two or three codes: the original has up to
        // three literals of any value, then a copy from one of three places
        let word: Vec<u8> = (0..12).map(|i| 33 + 7 * i as u8).collect();
        let k = [0, 3, 4][sym::choose(3)];
        let m = [0, 5, 6][sym::choose(3)];
        let mut pre = vec![1u8, 2];
        pre.extend_from_slice(&word[..3]);
        pre.push(200);
        let second = pre.len();
        pre.extend_from_slice(&word[1..1 + k]);
        pre.push(201);
        let third = pre.len();
        pre.extend_from_slice(&word[2..2 + m]);
        pre.push(202);
        let lits = sym::choose(4);
        let mut c = vec![];
        for i in 0..lits {
            c.push(Code::Literal(if i == 1 || lits == 1 { sym::byte() } else { word[i] }));
        }
        let from = [2, second, third][sym::choose(3)];
        let at = pre.len() + lits;
        let run = [3, 4][sym::choose(2)];
        c.push(make_ref((at - from) as u16, run).into());
        for i in 0..3 {
            c.push(Code::Literal(word[3 + i]));
        }
        there_and_back(&pre, &c, 0, u16::MAX);
    }
    fn h_c12_same() {
        sym::split();
        // many places hold the same bytes: which one was meant must come back
        let level = [0, 1, 3, 4, 6, 8][sym::choose(6)];
        let period = 1 + sym::choose(2);
        let pre: Vec<u8> = (0..600).map(|i| 50 + (i % period) as u8).collect();
        let run = [3u16, 5, 32, 257, 258][sym::choose(5)];
        let d = [2u16, 4, 300, 600][sym::choose(4)];
        let c = [make_ref(d, run).into(), make_ref(2, 4).into(), make_ref(d, run).into(), Code::Literal(sym::byte())];
        there_and_back(&pre, &c, level, u16::MAX);
    }
    fn h_c12_past() {
        // long references on either side of the first 65536 bytes
        sym::split();
        let text = filler(65530);
        let pre = &text[..[65260, 65530][sym::choose(2)]];
        let mut c = vec![Code::Literal(9), make_ref(1, [258, 40][sym::choose(2)]).into()];
        c.extend([9, 9, 9, 200].map(Code::Literal));
        c.push(Code::Literal(8 + sym::choose(2) as u8));
        c.push(make_ref([32768, 4][sym::choose(2)], 5).into());
        c.push(Code::Literal(9 + sym::bit() as u8));
        let level = [1, 3, 4, 0][sym::choose(4)];
        there_and_back(pre, &c, level, u16::MAX);
    }
    fn h_c12_pieces_long() {
        sym::split();
        let c = pieces(5, 3);
        there_and_back(&[], &c, 1, u16::MAX);
    }
    fn h_c12_free_long() {
        sym::split();
        let p = sym::choose(3);
        let level = [0, 1, 4][sym::choose(3)];
        let pre = sym::bytes(p);
        there_and_back(&pre, &codes(p, 6), level, u16::MAX);
    }
}
