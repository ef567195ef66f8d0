//! C22: dump lists every block and code.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use std::fmt::Write as _;
use std::io::Write;

#[allow(dead_code)]
#[path = "/repo/rezippers/src/dump.rs"]
mod dump;

/// The listing of some codes.
fn listing(to: &mut String, codes: &[Sym]) {
    for c in codes {
        match c {
            Sym::Lit(b) => {
                let _ = writeln!(to, "    - lit: 0x{:02x}: {:?}", b, *b as char);
            }
            Sym::Ref { dist, run } => {
                let _ = writeln!(to, "    - backref: {} byte(s) back, {} bytes long", dist, run);
            }
        }
    }
}

/// What comes before the header bits of a dynamic block, or the whole text of
/// another.
fn expect(blocks: &[Blk]) -> Vec<(String, String)> {
    let mut v = vec![];
    for (i, b) in blocks.iter().enumerate() {
        let mut t = String::new();
        let _ = writeln!(t, "block {}:", i);
        let mut codes = String::new();
        match b {
            Blk::Stored(d) => {
                let _ = writeln!(t, " - uncompressed: {} bytes", d.len());
            }
            Blk::Fixed(c) => {
                let _ = writeln!(t, " - fixed huffman:");
                listing(&mut codes, c);
            }
            Blk::Dynamic(_, c) => {
                let _ = write!(t, " - dynamic huffman: ");
                listing(&mut codes, c);
            }
        }
        v.push((t, codes));
    }
    v
}

const PLAIN: [u8; 10] = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];

fn dumped(body: &[u8]) -> (bool, Vec<u8>) {
    let mut file = PLAIN.to_vec();
    file.extend_from_slice(body);
    sym::direct_stdout();
    let r = dump::run(&file[..]);
    std::io::stdout().flush().unwrap();
    (r.is_ok(), sym::stdout(20000))
}

fn check(body: &[u8]) {
    let (ok, got) = dumped(body);
    match inflate(body, false) {
        Err(_) => {
            assert!(!ok, "a malformed file is accepted");
            sym::cover(1);
        }
        Ok(x) => {
            if !ok {
                assert!(!x.pads_zero || x.no_dist, "a valid file is refused");
                return;
            }
            let mut at = 0;
            for (b, (head, codes)) in x.blocks.iter().zip(expect(&x.blocks)) {
                let h = head.as_bytes();
                assert!(got.len() >= at + h.len() && got[at..at + h.len()] == *h, "start of a block");
                at += h.len();
                if let Blk::Dynamic(..) = b {
                    // the header bits, in whatever form, up to the end of the line
                    while at < got.len() && got[at] != b'\n' {
                        at += 1;
                    }
                    at += 1;
                    sym::cover(4);
                }
                let c = codes.as_bytes();
                assert!(got.len() >= at + c.len() && got[at..at + c.len()] == *c, "codes");
                at += c.len();
            }
            assert!(at == got.len(), "more output");
            sym::observe_bytes(&got);
            sym::cover(0);
        }
    }
}

fn stored_block(v: &mut Vec<bool>, n: usize) {
    push_field(v, 2, 0);
    while v.len() % 8 != 0 {
        v.push(false);
    }
    push_field(v, 16, n as u64);
    push_field(v, 16, n as u64 ^ 0xffff);
    free(v, 8 * n);
}

harnesses! {
    fn h_c22_free() {
        warm();
        check(&sym::bytes(2));
    }
    fn h_c22_fixed() {
        warm();
        check(&fam_fixed(11));
    }
    fn h_c22_ref() {
        warm();
        check(&fam_ref(1));
    }
    fn h_c22_literal() {
        warm();
        let l = Huff::codes_of(&fixed_lit_lens());
        let mut v = vec![];
        push_field(&mut v, 3, 0b011);
        push_code(&mut v, l[sym::choose(256)]);
        push_code(&mut v, l[256]);
        check(&pack(&v));
    }
    fn h_c22_dynamic() {
        warm();
        check(&fam_dynamic(7));
    }
    // two or three blocks of every kind in every order
    fn h_c22_blocks() {
        warm();
        let l = Huff::codes_of(&fixed_lit_lens());
        let mut v = vec![];
        let n = 2 + sym::choose(2);
        for i in 0..n {
            v.push(i + 1 == n);
            match sym::choose(3) {
                0 => {
                    let k = [0, 1, 9, 10, 100][sym::choose(if i == 0 { 5 } else { 1 })];
                    stored_block(&mut v, k);
                }
                1 => {
                    push_field(&mut v, 2, 1);
                    push_code(&mut v, l[65 + i]);
                    if i > 0 {
                        push_code(&mut v, l[257]);
                        push_code(&mut v, (5, 4));
                        free(&mut v, 1);
                    }
                    push_code(&mut v, l[256]);
                }
                _ => {
                    push_field(&mut v, 2, 2);
                    let (l, d) = tables(2);
                    v.extend(rle_header(&l, &d));
                    let l = Huff::codes_of(&l);
                    push_code(&mut v, l[97]);
                    push_code(&mut v, l[258]);
                    push_code(&mut v, (1, 0));
                    push_code(&mut v, l[256]);
                }
            }
        }
        if sym::choose(2) == 1 {
            // cut off somewhere
            let k = pack(&v);
            let m = sym::choose(k.len());
            check(&k[..m]);
        } else {
            check(&pack(&v));
        }
    }
}
