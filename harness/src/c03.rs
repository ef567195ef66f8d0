//! C03: no input makes the readers panic or run on.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::{CircularBuffer, Trace};

/// After an error, ask on until there were `again` of them.
fn deflate(data: &[u8], again: u64) {
    let mut dict = CircularBuffer::new();
    let mut out = vec![];
    let mut calls = 0;
    let mut errors = 0u64;
    for b in librezip::parse_deflate(data) {
        calls += 1;
        assert!(calls <= 8 * data.len() + 8, "more blocks than the input can hold");
        match b {
            Ok(b) => {
                if librezip::decompressed_block(&mut out, &mut dict, &b).is_err() {
                    sym::cover(2);
                }
            }
            Err(e) => {
                // an error stays an error value, and asking on is harmless
                drop(e);
                errors += 1;
                sym::cover(1);
                if errors == again {
                    break;
                }
            }
        }
    }
    if errors == 0 {
        sym::cover(0);
    }
    sym::observe(errors);
    sym::observe_bytes(&out);
}

/// A dynamic header with free counts and code length codes; the rest zero, one or free.
fn header(free_codes: usize, tail: usize) -> Vec<u8> {
    let mut v = vec![];
    push_field(&mut v, 3, 0b101);
    let (lit, dist) = [(0, 0), (1, 1), (29, 29), (30, 31), (31, 0)][sym::choose(5)];
    push_field(&mut v, 5, lit);
    push_field(&mut v, 5, dist);
    let hclen = [0, 1, 6, 15][sym::choose(4)];
    push_field(&mut v, 4, hclen as u64);
    let n = hclen + 4;
    // the free ones start at a chosen place, the others are zero
    let at = sym::choose(n);
    for i in 0..n {
        if i >= at && i < at + free_codes {
            free(&mut v, 3);
        } else {
            push_field(&mut v, 3, 0);
        }
    }
    free(&mut v, tail);
    pack(&v)
}

fn trace_bytes(data: &[u8]) {
    let r = librezip::serialise_trace::read(data);
    match r {
        Ok(v) => {
            sym::observe(v.len() as u64);
            for x in v.iter().take(3) {
                sym::observe(match x {
                    Trace::Correct => 1,
                    Trace::ActuallyLiteral => 2,
                    Trace::Actually(r) => 3 + r.dist as u64 * 1000 + r.run() as u64,
                });
            }
            sym::cover(0);
        }
        Err(_) => {
            sym::observe(77);
            sym::cover(1);
        }
    }
}

harnesses! {
    fn h_c03_free() {
        warm();
        deflate(&fam_free(2), 3);
    }
    fn h_c03_fixed() {
        warm();
        deflate(&fam_fixed(13), 3);
    }
    fn h_c03_ref() {
        warm();
        deflate(&fam_ref(2), 2);
    }
    fn h_c03_second() {
        warm();
        deflate(&fam_second(15), 1);
    }
    fn h_c03_stored() {
        warm();
        deflate(&fam_stored(2, 10), 1);
    }
    fn h_c03_dynamic() {
        warm();
        deflate(&fam_dynamic(12), 1);
    }
    fn h_c03_header() {
        warm();
        deflate(&header(2, 9), 1);
    }
    fn h_c03_lengths() {
        warm();
        deflate(&fam_lengths(2), 1);
    }
    fn h_c03_align() {
        warm();
        deflate(&fam_align(), 1);
    }
    fn h_c03_gzip() {
        let n = sym::choose(17);
        let d = sym::bytes(n);
        if n >= 12 {
            // where the flags announce an extra field, one of at most 15 bytes
            sym::assume(d[3] & 4 == 0 || (d[10] < 16 && d[11] == 0));
        }
        match librezip::gzip::discard_header(&d[..]) {
            Ok(v) => {
                sym::cover(0);
                sym::observe_bytes(&v);
            }
            Err(_) => {
                sym::cover(1);
                sym::observe(5);
            }
        }
    }
    fn h_c03_trace() {
        // any bytes, where counts of correct records are small
        let n = sym::choose(6);
        let d = sym::bytes(n);
        for i in 0..n {
            sym::assume(d[i] < 128 || i == 0 || (d[i] == 128 && d[i - 1] < 4));
        }
        trace_bytes(&d);
    }
    fn h_c03_trace_counts() {
        // an item of any kind, with counts of every kind of size
        let lo = sym::byte();
        let hi = sym::byte();
        let mut d = vec![lo, hi];
        if sym::each((hi >= 0x80) as u64) == 1 {
            sym::assume(hi == 0x80 || hi == 0xff);
            d[0] = sym::each_bit(lo as u64, 8) as u8;
            d[1] = sym::each(hi as u64) as u8;
        }
        d.extend_from_slice(&[0, 0, 5, 0][..sym::choose(5)]);
        trace_bytes(&d);
    }
    fn h_c03_free3() {
        warm();
        deflate(&sym::bytes(3), 1);
    }
    fn h_c03_header_long() {
        warm();
        deflate(&header(3, 12), 1);
    }
}
