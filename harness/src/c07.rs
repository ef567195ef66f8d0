//! C07: references replay as LZ77 says.
use crate::fault::Writer;
use crate::sym;
use librezip::verif::make_ref;
use librezip::{Block, CircularBuffer, Code};

/// What LZ77 makes of the codes; the index of the first illegal one.
fn lz(hist: &mut Vec<u8>, cap: usize, codes: &[Code]) -> Option<usize> {
    for (i, c) in codes.iter().enumerate() {
        match c {
            Code::Literal(b) => hist.push(*b),
            Code::Reference(r) => {
                let ok = r.dist >= 1 && r.dist as usize <= hist.len().min(cap);
                if sym::each(ok as u64) == 0 {
                    return Some(i);
                }
                let d = sym::each(r.dist as u64) as usize;
                let n = sym::each(r.run() as u64) as usize;
                let at = hist.len();
                for k in 0..n {
                    let b = hist[at + k - d];
                    hist.push(b);
                }
            }
        }
    }
    None
}

fn play(cap: usize, start: usize, codes: &[Code], splits: bool) {
    let mut w = CircularBuffer::with_capacity(cap as u16);
    let mut hist = sym::bytes(start);
    w.extend(&hist);
    let mut out = vec![];
    let mut bad = None;
    let mut from = 0;
    while from < codes.len() {
        let to = if splits { from + 1 + sym::choose(codes.len() - from) } else { codes.len() };
        let part = &codes[from..to];
        let r = if sym::choose(2) == 0 {
            librezip::decompressed_codes(&mut out, &mut w, part)
        } else {
            librezip::decompressed_block(&mut out, &mut w, &Block::FixedHuffman(part.to_vec()))
        };
        if r.is_err() {
            bad = Some((from, to));
            break;
        }
        from = to;
    }
    let first = lz(&mut hist, cap, codes);
    match (first, bad) {
        (None, None) => sym::cover(0),
        (Some(i), Some((a, b))) => {
            assert!(a <= i && i < b, "error at the illegal reference");
            sym::cover(1);
        }
        (None, Some(_)) => panic!("a legal reference is refused"),
        (Some(_), None) => panic!("an illegal reference is replayed"),
    }
    assert!(out.len() == hist.len() - start, "amount of data");
    assert!(out[..] == hist[start..], "data");
    let n = hist.len().min(cap);
    assert!(w.len() as usize == n, "window length");
    assert!(w.vec()[..] == hist[hist.len() - n..], "window");
    sym::observe_bytes(&out);
}

fn code(max_dist: u64) -> Code {
    match sym::choose(2) {
        0 => Code::Literal(sym::byte()),
        _ => {
            let d = 1 + sym::choose(max_dist as usize) as u16;
            let run = [3u16, 4, 7][sym::choose(3)];
            make_ref(d, run).into()
        }
    }
}

/// Around the full window: `before` bytes, then one reference.
fn far(before: usize, dist: u16, run: u16) {
    let mut w = CircularBuffer::new();
    let mut hist: Vec<u8> = (0..before).map(|i| (i % 249) as u8).collect();
    let b = sym::byte();
    hist[0] = b;
    let last = before - 1;
    hist[last] = sym::byte();
    w.extend(&hist);
    let codes = [make_ref(dist, run).into(), Code::Literal(7)];
    let mut out = vec![];
    let r = librezip::decompressed_codes(&mut out, &mut w, &codes);
    let start = hist.len();
    let first = lz(&mut hist, 32768, &codes);
    assert!(first.is_some() == r.is_err(), "legality");
    assert!(out[..] == hist[start..], "data");
    let n = hist.len().min(32768);
    assert!(w.vec()[..] == hist[hist.len() - n..], "window");
    if r.is_ok() {
        sym::cover(0);
    } else {
        sym::cover(1);
    }
}

harnesses! {
    fn h_c07_list() {
        let cap = [2, 3, 4, 8, 9][sym::choose(5)];
        let start = sym::choose(4);
        let d = sym::range(1, 9) as u16;
        let codes = [code(9), make_ref(d, [3, 5][sym::choose(2)]).into(), Code::Literal(1)];
        play(cap, start, &codes, false);
    }
    fn h_c07_splits() {
        let start = sym::choose(3);
        let codes = [code(3), code(5), code(5)];
        play(32768, start, &codes, true);
    }
    fn h_c07_runs() {
        // every run length, overlapping and not
        let start = 1 + sym::choose(3);
        let dist = 1 + sym::choose(4);
        let run = sym::range(3, 258) as u16;
        let codes = [Code::Literal(sym::byte()), make_ref(dist as u16, run).into(), Code::Literal(sym::byte())];
        play([5, 300][sym::choose(2)], start, &codes, false);
    }
    fn h_c07_far() {
        let before = [32766usize, 32767, 32768, 32769, 40000, 65300, 65534, 65535, 65536][sym::choose(9)];
        let dist = [1u16, 257, 258, 259, 32510, 32766, 32767, 32768][sym::choose(8)];
        let run = [3u16, 258][sym::choose(2)];
        far(before, dist, run);
    }
    fn h_c07_stored() {
        // stored blocks feed the window too
        let n = sym::choose(4);
        let data = sym::bytes(n);
        let cap = [1, 2, 300][sym::choose(3)];
        let mut w = CircularBuffer::with_capacity(cap);
        let mut hist = sym::bytes(2);
        w.extend(&hist);
        let mut out = vec![];
        librezip::decompressed_block(&mut out, &mut w, &Block::Uncompressed(data.clone())).unwrap();
        assert!(out == data, "stored data");
        hist.extend_from_slice(&data);
        let k = hist.len().min(cap as usize);
        assert!(w.vec()[..] == hist[hist.len() - k..], "window");
        sym::cover(0);
    }
    fn h_c07_writer() {
        // a writer that takes bytes piecemeal gets the same
        let codes = [Code::Literal(sym::byte()), make_ref(1, 4).into(), Code::Literal(sym::byte()), make_ref(3, 5).into()];
        let mut w = CircularBuffer::new();
        let mut out = Writer::new(1000, 2, false);
        librezip::decompressed_codes(&mut out, &mut w, &codes).unwrap();
        let mut hist = vec![];
        assert!(lz(&mut hist, 32768, &codes).is_none());
        assert!(out.got == hist, "data");
        sym::cover(0);
    }
    fn h_c07_list_long() {
        let cap = 1 + sym::choose(9);
        let start = sym::choose(6);
        let codes = [code(9), code(12), code(12), Code::Literal(1)];
        play(cap, start, &codes, false);
    }
}
