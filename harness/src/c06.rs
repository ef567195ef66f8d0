//! C06: the window is the last bytes pushed.
use crate::sym;
use librezip::CircularBuffer;

fn same(w: &CircularBuffer, hist: &[u8], cap: usize) {
    let n = hist.len().min(cap);
    assert!(w.capacity() as usize == cap, "capacity");
    assert!(w.len() as usize == n, "length");
    let v = w.vec();
    assert!(v.len() == n, "length of the list");
    assert!(v[..] == hist[hist.len() - n..], "bytes in order");
    for d in 1..=n {
        assert!(w.get_at_dist(d as u16) == hist[hist.len() - d], "byte by distance");
    }
}

fn step(w: &mut CircularBuffer, hist: &mut Vec<u8>, cap: usize, op: usize) {
    match op {
        0 => {
            let b = sym::byte();
            w.push(b);
            hist.push(b);
        }
        1 => {
            let k = [2, 5][sym::choose(2)];
            let b = sym::bytes(k);
            w.extend(&b);
            hist.extend_from_slice(&b);
            sym::cover(0);
        }
        _ => {
            let dist = sym::range(0, cap as u64 + 1) as u16;
            let len = [0u16, 1, 3][sym::choose(3)];
            let mut out = vec![];
            let r = w.copy(dist, len, &mut out);
            let ok = dist >= 1 && dist as usize <= hist.len().min(cap);
            assert!(r.is_ok() == ok, "distance accepted");
            if r.is_ok() {
                let d = sym::each(dist as u64) as usize;
                let at = hist.len();
                for i in 0..len as usize {
                    let b = hist[at + i - d];
                    hist.push(b);
                }
                assert!(out[..] == hist[at..], "bytes copied out");
                sym::cover(1);
            } else {
                assert!(out.is_empty(), "nothing copied");
                sym::cover(2);
            }
        }
    }
}

fn history(cap: usize, ops: usize) {
    let mut w = CircularBuffer::with_capacity(cap as u16);
    let mut hist = vec![];
    same(&w, &hist, cap);
    for _ in 0..ops {
        let op = sym::choose(3);
        step(&mut w, &mut hist, cap, op);
    }
    same(&w, &hist, cap);
    sym::observe_bytes(&w.vec());
}

fn large(cap: usize, before: usize) {
    let mut w = CircularBuffer::with_capacity(cap as u16);
    // positions are told apart
    let fill: Vec<u8> = (0..before).map(|i| (i % 251) as u8).collect();
    w.extend(&fill);
    let mut hist = fill;
    let b = sym::byte();
    w.push(b);
    hist.push(b);
    let n = hist.len().min(cap);
    let dist = [1, n / 2 + 1, n - 1, n, n + 1][sym::choose(5)];
    if dist == 0 || dist > u16::MAX as usize {
        return;
    }
    let len = [1u16, 3, 258][sym::choose(3)];
    let mut out = vec![];
    let r = w.copy(dist as u16, len, &mut out);
    assert!(r.is_ok() == (dist <= n), "distance accepted");
    if r.is_ok() {
        let at = hist.len();
        for i in 0..len as usize {
            let b = hist[at + i - dist];
            hist.push(b);
        }
        assert!(out[..] == hist[at..], "bytes copied out");
        sym::cover(1);
    } else {
        sym::cover(2);
    }
    let b = sym::byte();
    w.push(b);
    hist.push(b);
    same(&w, &hist, cap);
    sym::cover(0);
}

harnesses! {
    fn h_c06_small() {
        let cap = 1 + sym::choose(3);
        history(cap, 4);
    }
    fn h_c06_medium() {
        let cap = 5 + sym::choose(4);
        history(cap, 3);
    }
    fn h_c06_large() {
        let cap = [255, 256, 257, 258, 32767, 32768, 32769, 65534, 65535][sym::choose(9)];
        let before = [cap - 2, cap - 1, cap, cap + 300][sym::choose(4)];
        large(cap, before);
    }
    fn h_c06_default() {
        let mut w = CircularBuffer::new();
        assert!(w.capacity() == 32768, "default capacity");
        let n = [0usize, 1, 32767, 32768, 32769, 70000][sym::choose(6)];
        let mut hist: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
        w.extend(&hist);
        let b = sym::byte();
        w.push(b);
        hist.push(b);
        same(&w, &hist, 32768);
        sym::cover(0);
    }
    fn h_c06_small_long() {
        let cap = 1 + sym::choose(5);
        history(cap, 5);
    }
}
