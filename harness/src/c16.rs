//! C16: the hashing filters are transparent and hash what passed.
use crate::fault::{any_kind, Reader, Writer};
use crate::sym;
use librezip::filter::{FilterRead, FilterWrite};
use sha2::{Digest, Sha512};
use std::io::{self, ErrorKind, Read, Write};

fn sha(b: &[u8]) -> Vec<u8> {
    Sha512::digest(b).to_vec()
}

/// Calls of the sizes given, until something ends them; what passed.
fn reads(data: &[u8], sizes: &[usize], budget: usize, fail_at: Option<usize>) {
    let mut inner = Reader::new(data, budget);
    inner.fail_at = fail_at;
    if fail_at.is_some() {
        inner.kind = any_kind();
    }
    let kind = inner.kind;
    let mut f = FilterRead::new(&mut inner);
    let mut got: Vec<u8> = vec![];
    let mut interrupted = 0;
    for &n in sizes {
        // the buffer keeps what the reader did not fill
        let mut buf = vec![0xa5u8; n];
        match f.read(&mut buf) {
            Ok(k) => {
                assert!(k <= n, "count");
                for (i, b) in buf.iter().enumerate() {
                    if i < k {
                        assert!(got.len() + i < data.len() && *b == data[got.len() + i], "data");
                    } else {
                        assert!(*b == 0xa5, "a byte beyond the count is touched");
                    }
                }
                got.extend_from_slice(&buf[..k]);
                sym::cover(0);
            }
            Err(e) => {
                if e.kind() == ErrorKind::Interrupted {
                    interrupted += 1;
                    sym::cover(1);
                } else {
                    assert!(e.kind() == kind, "another error");
                    sym::cover(2);
                }
            }
        }
    }
    let h = f.hash();
    assert!(interrupted == inner.interrupted, "an interruption is passed on");
    assert!(inner.pos == got.len(), "bytes taken and bytes passed on");
    assert!(h == sha(&got), "the digest is that of what passed");
}

struct Plain<'a>(&'a mut Writer);
impl<'a> Write for Plain<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

fn writes(data: &[u8], sizes: &[usize], budget: usize, room: usize, zero: bool) {
    let mut inner = Writer::new(room, budget, zero);
    if room < data.len() && !zero {
        inner.kind = any_kind();
    }
    let kind = inner.kind;
    let mut f = FilterWrite::new(Plain(&mut inner));
    let mut at = 0;
    let mut failed = false;
    let mut interrupted = 0;
    for &n in sizes {
        let part = &data[at..(at + n).min(data.len())];
        match f.write(part) {
            Ok(k) => {
                assert!(k <= part.len(), "count");
                if k < part.len() {
                    sym::cover(3);
                }
                at += k;
                sym::cover(0);
            }
            Err(e) => {
                if e.kind() == ErrorKind::Interrupted {
                    interrupted += 1;
                    sym::cover(1);
                } else {
                    assert!(e.kind() == kind, "another error");
                    failed = true;
                    sym::cover(2);
                }
            }
        }
    }
    f.flush().unwrap();
    let h = f.hash();
    assert!(interrupted == inner.interrupted, "an interruption is passed on");
    assert!(inner.flushes == 1, "flush is passed on");
    assert!(inner.got.len() == at, "count of bytes");
    assert!(inner.got[..] == data[..at], "bytes");
    assert!(failed == (inner.failed && !zero), "a failure is passed on");
    assert!(h == sha(&data[..at]), "the digest is that of what passed");
}

harnesses! {
    fn h_c16_read() {
        let n = sym::choose(6);
        let data = sym::bytes(n);
        let sizes = [sym::choose(4), sym::choose(4), 3];
        reads(&data, &sizes, 2, None);
    }
    fn h_c16_read_fail() {
        let n = sym::choose(5);
        let data = sym::bytes(n);
        let fail = sym::choose(n + 1);
        let sizes = [sym::choose(4), sym::choose(4), 3];
        reads(&data, &sizes, 1, Some(fail));
    }
    fn h_c16_read_blocks() {
        // around the blocks of SHA-512
        let n = [111, 112, 127, 128, 129, 240, 256, 300][sym::choose(8)];
        let data = sym::bytes(n);
        let a = [0, 1, 64, 127, 128, 129][sym::choose(6)];
        reads(&data, &[a, 0, 128, 300], 0, None);
    }
    fn h_c16_read_all() {
        // through the standard library's loops
        let data = sym::bytes(40);
        let mut inner = Reader::new(&data, 3);
        let mut f = FilterRead::new(&mut inner);
        let mut a = [0u8; 5];
        f.read_exact(&mut a).unwrap();
        let mut all = a.to_vec();
        f.read_to_end(&mut all).unwrap();
        assert!(all == data, "data");
        assert!(f.hash() == sha(&data), "the digest");
        sym::cover(0);
    }
    fn h_c16_write() {
        let n = sym::choose(6);
        let data = sym::bytes(n);
        let sizes = [sym::choose(4), sym::choose(4), 3];
        writes(&data, &sizes, 2, 100, false);
    }
    fn h_c16_write_fail() {
        let n = 1 + sym::choose(4);
        let data = sym::bytes(n);
        let room = sym::choose(n);
        let sizes = [sym::choose(4), sym::choose(4), 3];
        writes(&data, &sizes, 1, room, sym::choose(2) == 1);
    }
    fn h_c16_write_blocks() {
        let n = [111, 112, 127, 128, 129, 240, 256, 300][sym::choose(8)];
        let data = sym::bytes(n);
        let a = [0, 1, 64, 127, 128, 129][sym::choose(6)];
        let room = [1000, 128, 130][sym::choose(3)];
        writes(&data, &[a, 0, 128, 300], 0, room, false);
    }
    fn h_c16_write_all() {
        let data = sym::bytes(40);
        let mut inner = Writer::new(100, 3, false);
        let mut f = FilterWrite::new(Plain(&mut inner));
        f.write_all(&data[..7]).unwrap();
        f.write_all(&data[7..]).unwrap();
        assert!(f.hash() == sha(&data), "the digest");
        assert!(inner.got == data, "data");
        sym::cover(0);
    }
    fn h_c16_into_inner() {
        // the wrapped reader and writer come back where they are
        let data = sym::bytes(6);
        let k = sym::choose(4);
        let mut f = FilterRead::new(&data[..]);
        let mut a = vec![0; k];
        f.read_exact(&mut a).unwrap();
        assert!(f.into_inner() == &data[k..], "the rest");
        let mut w = FilterWrite::new(vec![]);
        w.write_all(&data[..k]).unwrap();
        assert!(w.into_inner()[..] == data[..k], "written");
        sym::cover(0);
    }
}
