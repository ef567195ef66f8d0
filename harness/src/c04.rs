//! C04: the parser stops right after the stream, however it is read.
use crate::fault::Reader;
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::Block;

/// `data` holds a stream and, perhaps, more.
fn check(data: &[u8], budget: usize) {
    let mut r = Reader::new(data, budget);
    let mut blocks: Vec<Block> = vec![];
    let mut bad = false;
    for b in librezip::parse_deflate(&mut r) {
        match b {
            Ok(b) => blocks.push(b),
            Err(_) => {
                bad = true;
                break;
            }
        }
    }
    if budget > 0 {
        // the same as from one piece
        let mut plain = vec![];
        let mut plain_bad = false;
        for b in librezip::parse_deflate(data) {
            match b {
                Ok(b) => plain.push(b),
                Err(_) => {
                    plain_bad = true;
                    break;
                }
            }
        }
        assert!(bad == plain_bad, "short reads change the outcome");
        assert!(blocks == plain, "short reads change the blocks");
    }
    if bad {
        sym::cover(1);
        sym::observe(9);
        return;
    }
    match inflate(data, false) {
        Ok(w) => {
            assert!(w.final_zero, "accepted padding bits that are not zero");
            assert!(r.pos == (w.bits + 7) / 8, "reader is not at the end of the stream");
            if r.pos < data.len() {
                sym::cover(2);
            }
        }
        Err(e) => panic!("accepted a stream RFC 1951 forbids: {:?}", e),
    }
    sym::observe(r.pos as u64);
    sym::cover(0);
}

fn more(mut v: Vec<u8>) -> Vec<u8> {
    v.extend([[0u8, 0], [0xff, 0xff]][sym::choose(2)]);
    v
}

harnesses! {
    fn h_c04_free() {
        warm();
        check(&sym::bytes(2), 0);
    }
    fn h_c04_fixed() {
        warm();
        check(&more(fam_fixed(11)), 0);
    }
    fn h_c04_second() {
        warm();
        check(&more(fam_second(10)), 0);
    }
    fn h_c04_align() {
        warm();
        check(&more(fam_align()), 0);
    }
    fn h_c04_stored() {
        warm();
        check(&more(fam_stored(3, 6)), 0);
    }
    fn h_c04_dynamic() {
        warm();
        check(&more(fam_dynamic(9)), 0);
    }
    fn h_c04_short_stored() {
        warm();
        check(&more(fam_stored(3, 3)), 2);
    }
    fn h_c04_short_fixed() {
        warm();
        check(&fam_fixed(4), 2);
    }
    fn h_c04_short_dynamic() {
        warm();
        check(&stream(7, 3), 1);
    }
    fn h_c04_short_more() {
        warm();
        check(&more(fam_stored(4, 3)), 3);
    }
}
