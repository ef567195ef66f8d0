//! C14: a serialised trace reads back as the same trace.
use crate::sym;
use librezip::serialise_trace::{read, write};
use librezip::verif::make_ref;
use librezip::Trace;

/// Any record that is not a correct guess.
fn other() -> Trace {
    if sym::choose(2) == 0 {
        Trace::ActuallyLiteral
    } else {
        let d = sym::range(1, 32768) as u16;
        let r = sym::range(3, 258) as u16;
        Trace::Actually(make_ref(d, r))
    }
}

fn any() -> Trace {
    if sym::choose(2) == 0 { Trace::Correct } else { other() }
}

fn same(a: &Trace, b: &Trace) -> bool {
    match (a, b) {
        (Trace::Correct, Trace::Correct) | (Trace::ActuallyLiteral, Trace::ActuallyLiteral) => true,
        (Trace::Actually(x), Trace::Actually(y)) => x.dist == y.dist && x.run() == y.run(),
        _ => false,
    }
}

/// The bytes take the least: two for a literal, three for a reference, two for
/// each started 32767 correct records of a run.
fn size(t: &[Trace]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            Trace::ActuallyLiteral => n += 2,
            Trace::Actually(_) => n += 3,
            Trace::Correct => {
                let from = i;
                while i + 1 < t.len() && matches!(t[i + 1], Trace::Correct) {
                    i += 1;
                }
                n += 2 * ((i - from + 1 + 32766) / 32767);
            }
        }
        i += 1;
    }
    n
}

fn round(t: &[Trace]) {
    let bytes = write(t);
    assert!(bytes.len() == size(t), "number of bytes");
    let back = read(&bytes[..]).expect("reads back");
    assert!(back.len() == t.len(), "number of records");
    for (a, b) in back.iter().zip(t) {
        assert!(same(a, b), "a record");
    }
    sym::observe(bytes.len() as u64);
    sym::cover(0);
}

harnesses! {
    fn h_c14_any() {
        let n = sym::choose(8);
        let t: Vec<Trace> = (0..n).map(|_| any()).collect();
        round(&t);
        let v = librezip::serialise_trace::verify(&t);
        assert!(v == write(&t), "the verified bytes");
    }
    fn h_c14_items() {
        // the bytes of each kind of record, as the format defines them
        let d = sym::range(1, 32768) as u16;
        let r = sym::range(3, 258) as u16;
        let v = write(&[Trace::Actually(make_ref(d, r)), Trace::ActuallyLiteral, Trace::Correct]);
        let w = [d as u8, (d >> 8) as u8, (r - 3) as u8, 0, 0, 1, 128];
        assert!(v[..] == w[..], "layout");
        sym::cover(0);
    }
    fn h_c14_counts() {
        let n = [
            1, 2, 255, 256, 257, 32765, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 98300, 98301, 98302,
            131068, 131069, 131070, 131071, 131072, 131073, 196602, 196608, 262144,
        ][sym::choose(27)];
        let mut t = vec![];
        if sym::choose(2) == 1 {
            t.push(other());
        }
        t.resize(t.len() + n, Trace::Correct);
        if sym::choose(2) == 1 {
            t.push(other());
            t.push(Trace::Correct);
        }
        round(&t);
    }
    fn h_c14_runs() {
        // two runs of correct records of any length below 40, one record between
        let a = sym::choose(40);
        let b = sym::choose(40);
        let mut t = vec![Trace::Correct; a];
        t.push(other());
        t.resize(t.len() + b, Trace::Correct);
        round(&t);
    }
    fn h_c14_any_long() {
        let n = sym::choose(11);
        let t: Vec<Trace> = (0..n).map(|_| any()).collect();
        round(&t);
    }
}
