//! C02: parsing and decompressing agree with RFC 1951.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::{Block, CircularBuffer, Code};

fn same_codes(a: &[Code], b: &[Sym]) {
    assert!(a.len() == b.len(), "number of codes");
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Code::Literal(p), Sym::Lit(q)) => assert!(p == q, "literal"),
            (Code::Reference(r), Sym::Ref { dist, run }) => {
                assert!(r.dist == *dist, "distance");
                assert!(r.run() == *run, "length");
            }
            _ => panic!("kind of code"),
        }
    }
}

/// Parse and decompress; None if any step reports an error.
pub fn subject(data: &[u8]) -> Option<(Vec<Block>, Vec<u8>)> {
    let mut dict = CircularBuffer::new();
    let mut out = vec![];
    let mut blocks = vec![];
    for b in librezip::parse_deflate(data) {
        let b = match b {
            Ok(b) => b,
            Err(_) => return None,
        };
        if librezip::decompressed_block(&mut out, &mut dict, &b).is_err() {
            return None;
        }
        blocks.push(b);
    }
    Some((blocks, out))
}

fn check(data: &[u8]) {
    let got = subject(data);
    let (blocks, out) = match got {
        None => {
            // refused: it must not be a stream RFC 1951 allows
            if let Ok(x) = inflate(data, true) {
                assert!(!x.pads_zero || x.no_dist, "refused a stream RFC 1951 allows");
            }
            sym::cover(1);
            sym::observe(0);
            return;
        }
        Some(x) => x,
    };
    // accepted: the stream must be one RFC 1951 allows, and mean the same
    let want = match inflate(data, true) {
        Ok(x) => x,
        Err(e) => panic!("accepted a stream RFC 1951 forbids: {:?}", e),
    };
    assert!(blocks.len() == want.blocks.len(), "number of blocks");
    for (a, b) in blocks.iter().zip(&want.blocks) {
        match (a, b) {
            (Block::Uncompressed(x), Blk::Stored(y)) => {
                assert!(x == y, "stored data");
                sym::cover(2);
            }
            (Block::FixedHuffman(x), Blk::Fixed(y)) => {
                same_codes(x, y);
                sym::cover(3);
            }
            (Block::DynamicHuffman { codes, trees }, Blk::Dynamic(h, y)) => {
                same_codes(codes, y);
                assert!(trees.len() == h.len(), "header bits");
                for i in 0..h.len() {
                    assert!(trees.get(i) == h[i], "header bits");
                }
                sym::cover(4);
            }
            _ => panic!("kind of block"),
        }
    }
    assert!(out.len() == want.out.len(), "amount of data");
    assert!(out == want.out, "data");
    sym::observe(1);
    sym::observe_bytes(&out);
    sym::cover(0);
}

harnesses! {
    fn h_c02_free() {
        warm();
        check(&fam_free(2));
    }
    fn h_c02_fixed() {
        warm();
        check(&fam_fixed(11));
    }
    fn h_c02_ref() {
        warm();
        check(&fam_ref(5));
    }
    fn h_c02_second() {
        warm();
        check(&fam_second(14));
    }
    fn h_c02_align() {
        warm();
        check(&fam_align());
    }
    fn h_c02_lengths() {
        warm();
        check(&fam_lengths(2));
    }
    fn h_c02_stored() {
        warm();
        check(&fam_stored(3, 10));
    }
    fn h_c02_dynamic() {
        warm();
        check(&fam_dynamic(11));
    }
    fn h_c02_full() {
        warm();
        check(&fam_full());
    }
    fn h_c02_two_refs() {
        warm();
        let ls = sym::choose(29);
        let ds = sym::choose(6);
        check(&fixed_reference(7, ls, ds, true));
    }
    fn h_c02_far() {
        // the farthest references
        warm();
        check(&fam_far(true));
    }
    fn h_c02_cut() {
        // streams of every kind that end early, anywhere
        warm();
        let k = sym::choose(4);
        let d = sym::bytes(2);
        let mut s = sample(k, &d);
        let n = sym::choose(s.len() + 1);
        s.truncate(n);
        check(&s);
    }
    fn h_c02_free3() {
        warm();
        check(&sym::bytes(3));
    }
    fn h_c02_dynamic_long() {
        warm();
        check(&fam_dynamic(14));
    }
}
