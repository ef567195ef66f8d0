//! C15: damaged trace bytes are never silently misread.
use crate::fault::{any_kind, Reader};
use crate::sym;
use librezip::serialise_trace::{read, write};
use librezip::Trace;

/// What the bytes encode; None if they stop inside an item.
/// Counts of correct records from `max` on are left out, but a first one.
fn reference(b: &[u8], max: u16) -> Option<Vec<(u16, u16)>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if i + 2 > b.len() {
            return None;
        }
        let x = b[i] as u16 | (b[i + 1] as u16) << 8;
        i += 2;
        if sym::each((x == 0) as u64) == 1 {
            v.push((0, 0));
        } else if sym::each((x <= 32768) as u64) == 1 {
            if i == b.len() {
                return None;
            }
            v.push((x, b[i] as u16 + 3));
            i += 1;
        } else {
            if i > 2 || max < 1000 {
                sym::assume(x - 32768 < max % 1000);
            }
            let n = sym::each((x - 32768) as u64);
            for _ in 0..n {
                v.push((65535, 0));
            }
        }
    }
    Some(v)
}

fn same(t: &[Trace], want: &[(u16, u16)]) {
    assert!(t.len() == want.len(), "number of records");
    for (a, w) in t.iter().zip(want) {
        let got = match a {
            Trace::ActuallyLiteral => (0, 0),
            Trace::Correct => (65535, 0),
            Trace::Actually(r) => (r.dist, r.run()),
        };
        assert!(got.0 == w.0, "kind or distance of a record");
        assert!(got.1 == w.1, "run of a record");
    }
}

fn check(b: &[u8], max: u16) {
    let want = reference(b, max);
    match (read(b), want) {
        (Ok(t), Some(w)) => {
            same(&t, &w);
            let again = write(&t);
            let t2 = read(&again[..]).expect("what was read is written readably");
            same(&t2, &w);
            sym::cover(0);
        }
        (Err(_), None) => sym::cover(1),
        (Ok(_), None) => panic!("bytes that stop inside an item are read as a list"),
        (Err(_), Some(_)) => panic!("well-formed bytes are refused"),
    }
}

harnesses! {
    fn h_c15_any() {
        let n = sym::choose(10);
        let b = sym::bytes(n);
        check(&b, 4);
    }
    fn h_c15_counts() {
        // every count, then 0-2 bytes
        let n = 256 * [128, 129, 130, 131, 135, 143, 159, 160, 191, 192, 223, 224, 239, 247, 254, 255][sym::choose(16)] + [0, 1, 2, 127, 254, 255][sym::choose(6)];
        let mut b = vec![n as u8, (n >> 8) as u8];
        if n <= 32768 {
            return;
        }
        let k = sym::choose(3);
        let tail = sym::bytes(k);
        b.extend_from_slice(&tail);
        check(&b, 1004);
    }
    fn h_c15_reader() {
        // a reader that hands out bytes piecemeal, is interrupted, or fails
        let n = sym::choose(7);
        let b = sym::bytes(n);
        let want = reference(&b, 3);
        let mut r = Reader::new(&b, 2);
        let fail = sym::choose(n + 2);
        if fail <= n {
            r.fail_at = Some(fail);
            r.kind = any_kind();
        }
        let got = read(&mut r);
        if r.failed {
            assert!(got.is_err(), "a reader failure is swallowed");
            sym::cover(2);
            return;
        }
        match (got, want) {
            (Ok(t), Some(w)) => {
                assert!(r.pos == n, "bytes left unread");
                same(&t, &w);
                sym::cover(0);
            }
            (Err(_), None) => sym::cover(1),
            (Ok(_), None) => panic!("bytes that stop inside an item are read as a list"),
            (Err(_), Some(_)) => panic!("well-formed bytes are refused"),
        }
    }
    fn h_c15_any_long() {
        let n = sym::choose(13);
        let b = sym::bytes(n);
        check(&b, 3);
    }
}
