//! C18: I/O failures surface and what was delivered before is right.
use crate::fault::{any_kind, Reader, Writer};
use crate::streams::*;
use crate::sym;
use librezip::verif::{make_ref, BitWriter};
use librezip::{Block, CircularBuffer, Code, Trace};
use std::io::Write;

#[allow(dead_code)]
#[path = "/repo/rezippers/src/cat.rs"]
mod cat;
#[allow(dead_code)]
#[path = "/repo/rezippers/src/dump.rs"]
mod dump;
#[allow(dead_code)]
#[path = "/repo/rezippers/src/zero.rs"]
mod zero;

fn limited(file: &[u8], used: usize, budget: usize) -> (Reader<'_>, bool) {
    let f = sym::choose(used + 2);
    if f > used {
        return (Reader::new(file, budget), false);
    }
    if sym::choose(2) == 0 {
        let mut r = Reader::new(file, budget);
        r.fail_at = Some(f);
        r.kind = any_kind();
        (r, f < used)
    } else {
        (Reader::new(&file[..f], budget), f < used)
    }
}

/// Takes m bytes, then fails in any way, or takes no more.
fn failing(m: usize, budget: usize) -> Writer {
    let mut w = Writer::new(m, budget, sym::choose(2) == 1);
    if !w.zero {
        w.kind = any_kind();
    }
    w
}

const PLAIN: [u8; 10] = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];

/// One of the commands on a file; whether it succeeded, and its output.
fn command<R: std::io::Read>(which: usize, r: R) -> (bool, Vec<u8>) {
    let ok = match which {
        0 => cat::run(r).is_ok(),
        1 => dump::run(r).is_ok(),
        _ => zero::run(r).is_ok(),
    };
    if ok {
        // the process ends without another word
        (true, sym::stdout(5000))
    } else {
        let _ = std::io::stdout().flush();
        (false, sym::stdout(5000))
    }
}

harnesses! {
    fn h_c18_header() {
        let mut h = header(sym::choose(4));
        let n = h.len();
        h.extend_from_slice(&[1, 2, 3]);
        let (mut r, bad) = limited(&h, n, 1);
        let got = librezip::gzip::discard_header(&mut r);
        assert!(got.is_err() == bad, "a failure while reading the header");
        if let Ok(g) = got {
            assert!(g[..] == h[..n] && r.pos == n, "header");
            sym::cover(0);
        } else {
            sym::cover(1);
        }
    }
    fn h_c18_parse() {
        warm();
        let n = sym::choose(3);
        let d = sym::bytes(n);
        let s = sample(sym::choose(4), &d);
        let want: Vec<Block> = librezip::parse_deflate(&s[..]).map(|b| b.unwrap()).collect();
        let (r, bad) = limited(&s, s.len(), 1);
        let mut n = 0;
        let mut failed = false;
        for b in librezip::parse_deflate(r) {
            match b {
                Ok(b) => {
                    assert!(n < want.len() && b == want[n], "a block before the failure");
                    n += 1;
                }
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
        assert!(failed == bad, "a failure while parsing");
        assert!(bad || n == want.len(), "blocks are missing");
        sym::cover(bad as u64);
        if bad && n > 0 {
            sym::cover(2);
        }
    }
    fn h_c18_decompress() {
        warm();
        let d = sym::bytes(4);
        let s = sample(sym::choose(4), &d);
        let blocks: Vec<Block> = librezip::parse_deflate(&s[..]).map(|b| b.unwrap()).collect();
        let mut dict = CircularBuffer::new();
        let mut whole = vec![];
        for b in &blocks {
            librezip::decompressed_block(&mut whole, &mut dict, b).unwrap();
        }
        let m = sym::choose(whole.len() + 1);
        let mut w = failing(m, 1);
        let mut dict = CircularBuffer::new();
        let ok = blocks.iter().all(|b| librezip::decompressed_block(&mut w, &mut dict, b).is_ok());
        assert!(ok == (m == whole.len()), "a failing writer while decompressing");
        assert!(w.got.len() == m && w.got[..] == whole[..m], "what was written");
        sym::cover(!ok as u64);
    }
    // every length of reference, failing after any of its bytes
    fn h_c18_copy() {
        let run = [3, 4, 10, 258][sym::choose(4)];
        let dist = [1, 2, 5][sym::choose(3)];
        let mut codes: Vec<Code> = sym::bytes(5).into_iter().map(Code::Literal).collect();
        codes.push(make_ref(dist, run).into());
        codes.push(Code::Literal(0));
        let mut whole = vec![];
        librezip::decompressed_codes(&mut whole, &mut CircularBuffer::new(), &codes).unwrap();
        let m = sym::choose(whole.len() + 1);
        let mut w = failing(m, 0);
        let r = librezip::decompressed_codes(&mut w, &mut CircularBuffer::new(), &codes);
        assert!(r.is_ok() == (m == whole.len()), "a failing writer inside a reference");
        assert!(w.got[..] == whole[..m], "what was written");
        sym::cover(r.is_err() as u64);
    }
    fn h_c18_compress() {
        warm();
        let d = sym::bytes(3);
        let s = sample(sym::choose(4), &d);
        let blocks: Vec<Block> = librezip::parse_deflate(&s[..]).map(|b| b.unwrap()).collect();
        let m = sym::choose(s.len() + 1);
        let mut w = BitWriter::new(failing(m, 1));
        let n = blocks.len();
        let mut ok = true;
        for (i, b) in blocks.iter().enumerate() {
            ok = ok && w.write_bit(i + 1 == n).is_ok() && librezip::compressed_block(&mut w, b).is_ok();
        }
        ok = ok && w.align().is_ok();
        assert!(ok == (m == s.len()), "a failing writer while compressing");
        if ok {
            assert!(w.into_inner().got == s, "what was written");
        }
        sym::cover(!ok as u64);
    }
    fn h_c18_trace() {
        let n = 1 + sym::choose(3);
        let mut t = vec![];
        for _ in 0..n {
            match sym::choose(3) {
                0 => t.push(Trace::ActuallyLiteral),
                1 => t.push(Trace::Actually(make_ref(sym::range(1, 32768) as u16, 3 + sym::byte() as u16))),
                _ => t.extend([Trace::Correct; 3]),
            }
        }
        let b = librezip::serialise_trace::write(&t);
        let f = sym::choose(b.len() + 1);
        let mut r = Reader::new(&b, 2);
        r.fail_at = Some(f);
        r.kind = any_kind();
        let got = librezip::serialise_trace::read(&mut r);
        assert!(r.failed && got.is_err(), "a failure while reading a trace");
        sym::cover(1);
    }
    // the commands, reading from something that fails or ends early
    fn h_c18_commands_read() {
        warm();
        let k = sym::choose(4);
        let mut file = PLAIN.to_vec();
        file.extend(sample(k, b"x\ny"));
        let used = file.len();
        file.extend_from_slice(&[7; 8]);
        let which = sym::choose(3);
        let (ok, whole) = command(which, &file[..]);
        assert!(ok, "a valid file is refused");
        let (r, bad) = limited(&file, used, 0);
        let (ok, got) = command(which, r);
        if bad {
            assert!(!ok, "a failure while reading is swallowed");
            sym::cover(1);
            if got.len() > 0 {
                sym::cover(2);
            }
            let n = got.len();
            if which != 2 {
                assert!(n <= whole.len() && got[..] == whole[..n], "output before the failure");
            } else {
                // one chunk is written only when it is all there
                assert!(n <= whole.len() && got[..n.min(10)] == whole[..n.min(10)], "header before the failure");
            }
        } else if ok {
            assert!(got == whole, "output");
            sym::cover(0);
        }
    }
    // the commands, writing to something that is full after m bytes
    fn h_c18_commands_write() {
        warm();
        let k = sym::choose(4);
        let mut file = PLAIN.to_vec();
        file.extend(sample(k, [&b"x\ny"[..], b"\n\n", b"plain"][sym::choose(3)]));
        file.extend_from_slice(&[7; 8]);
        let which = sym::choose(3);
        let (ok, whole) = command(which, &file[..]);
        assert!(ok, "a valid file is refused");
        let m = sym::choose(whole.len() + 1);
        // full, an input/output error, a closed pipe, not now
        sym::stdout_room(m, [28, 5, 32, 11][sym::choose(4)]);
        let (ok, got) = command(which, &file[..]);
        assert!(ok == (m == whole.len()), "a full output is not reported");
        let n = got.len();
        assert!(n <= m && got[..] == whole[..n], "what was written");
        sym::cover(!ok as u64);
    }
}
