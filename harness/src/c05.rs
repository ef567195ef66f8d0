//! C05: gzip headers.
use crate::fault::Reader;
use crate::sym;

/// RFC 1952, section 2.3: the length of the header these bytes start with.
fn header(d: &[u8]) -> Option<usize> {
    let is = |c: bool| sym::each(c as u64) == 1;
    if d.len() < 10 || is(d[0] != 0x1f || d[1] != 0x8b || d[2] != 8 || d[3] & 0xe0 != 0) {
        return None;
    }
    let flags = d[3];
    let mut at = 10;
    if is(flags & 4 != 0) {
        if d.len() < at + 2 {
            return None;
        }
        let n = sym::each(d[at] as u64) as usize + 256 * sym::each(d[at + 1] as u64) as usize;
        at += 2 + n;
        if d.len() < at {
            return None;
        }
    }
    for bit in [8, 16] {
        if is(flags & bit != 0) {
            loop {
                if d.len() <= at {
                    return None;
                }
                at += 1;
                if is(d[at - 1] == 0) {
                    break;
                }
            }
        }
    }
    if is(flags & 2 != 0) {
        at += 2;
        if d.len() < at {
            return None;
        }
    }
    Some(at)
}

fn check(d: &[u8], budget: usize) {
    let mut r = Reader::new(d, budget);
    match librezip::gzip::discard_header(&mut r) {
        Err(_) => {
            assert!(header(d).is_none(), "a header RFC 1952 allows is refused");
            sym::observe(7);
            sym::cover(1);
        }
        Ok(v) => {
            let n = header(d);
            assert!(n.is_some(), "accepted what is no header");
            let n = n.unwrap();
            assert!(v.len() == n, "length of the header");
            assert!(r.pos == n, "bytes consumed");
            assert!(v[..] == d[..n], "header bytes");
            sym::observe_bytes(&v);
            sym::cover(0);
        }
    }
}

fn good(flags: u8) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, flags];
    v.extend(sym::bytes(6));
    v
}

harnesses! {
    // the fixed part: anything, of any length, then two bytes
    fn h_c05_any() {
        let n = sym::choose(13);
        let d = sym::bytes(n);
        if n >= 11 {
            sym::assume(d[3] & 4 == 0 || d[10] < 4);
        }
        if n >= 12 {
            sym::assume(d[3] & 4 == 0 || d[11] == 0);
        }
        check(&d, 0);
    }
    // every set of optional fields, any content, any truncation
    fn h_c05_fields() {
        let flags = sym::choose(32) as u8;
        let mut d = good(flags);
        if flags & 4 != 0 {
            let n = sym::choose(3);
            d.extend([n as u8, 0]);
            d.extend(sym::bytes(n));
        }
        let n = sym::choose(8);
        d.extend(sym::bytes(n));
        check(&d, 0);
    }
    // extra fields of every length of note
    fn h_c05_extra() {
        let flags = 4 | [0, 8, 2, 27][sym::choose(4)];
        let n = [0usize, 1, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65534, 65535][sym::choose(16)];
        let mut d = good(flags);
        d.extend([n as u8, (n >> 8) as u8]);
        let short = sym::choose(2);
        let have = n - n.min(short);
        let body = vec![0x41u8; have];
        d.extend(&body);
        if have > 0 {
            d[12] = sym::byte();
            let l = d.len();
            d[l - 1] = sym::byte();
        }
        if short == 0 {
            d.extend(sym::bytes(3));
        }
        check(&d, 0);
    }
    // long names and comments
    fn h_c05_long() {
        let flags = [8u8, 16, 24, 26][sym::choose(4)];
        let mut d = good(flags);
        let n = [30usize, 31, 32, 63, 64, 255, 256, 300, 1023, 1024, 5000][sym::choose(11)];
        d.extend(vec![0x61u8; n]);
        d.extend(sym::bytes(2));
        d.push(0);
        if flags & 24 == 24 {
            d.extend(vec![0x80u8; n / 2]);
            d.push(0);
        }
        d.extend([1, 2, 3]);
        check(&d, 0);
    }
    // short and interrupted reads
    fn h_c05_short() {
        let flags = [31u8, 4, 8, 2][sym::choose(4)];
        let mut d = good(flags);
        if flags & 4 != 0 {
            d.extend([3, 0, 1, 2, 3]);
        }
        d.extend([65, 0, 66, 0, 9, 9, 7]);
        check(&d, 2);
    }
}
