//! C01: recompressing what was parsed gives the bytes consumed.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::verif::BitWriter;
use librezip::Block;

fn check(data: &[u8]) {
    let mut blocks = vec![];
    for b in librezip::parse_deflate(data) {
        match b {
            Ok(b) => blocks.push(b),
            Err(_) => {
                sym::cover(1);
                sym::observe(0);
                return;
            }
        }
    }
    let mut w = BitWriter::new(Vec::new());
    let n = blocks.len();
    for (i, b) in blocks.iter().enumerate() {
        match b {
            Block::Uncompressed(_) => sym::cover(2),
            Block::FixedHuffman(_) => sym::cover(3),
            Block::DynamicHuffman { .. } => sym::cover(4),
        }
        w.write_bit(i + 1 == n).unwrap();
        librezip::compressed_block(&mut w, b).unwrap();
    }
    w.align().unwrap();
    let got = w.into_inner();
    // the stream RFC 1951 sees in these bytes says how many were consumed
    let want = match inflate(data, false) {
        Ok(x) => x,
        Err(e) => panic!("accepted a stream RFC 1951 forbids: {:?}", e),
    };
    let used = &data[..(want.bits + 7) / 8];
    if want.odd_258 && got != used {
        // length 258 spelled as symbol 284 with extra bits 31
        sym::known(1);
    }
    assert!(got.len() == used.len(), "length of the recompressed stream");
    assert!(got == used, "recompressed bytes differ");
    sym::observe_bytes(&got);
    sym::cover(0);
}

harnesses! {
    fn h_c01_free() {
        warm();
        check(&fam_free(2));
    }
    fn h_c01_fixed() {
        warm();
        check(&fam_fixed(11));
    }
    fn h_c01_ref() {
        warm();
        check(&fam_ref(5));
    }
    fn h_c01_second() {
        warm();
        check(&fam_second(14));
    }
    fn h_c01_align() {
        warm();
        check(&fam_align());
    }
    fn h_c01_stored() {
        warm();
        check(&fam_stored(3, 10));
    }
    fn h_c01_dynamic() {
        warm();
        check(&fam_dynamic(11));
    }
    fn h_c01_full() {
        warm();
        check(&fam_full());
    }
    fn h_c01_dynamic_long() {
        warm();
        check(&fam_dynamic(14));
    }
    fn h_c01_free3() {
        warm();
        check(&sym::bytes(3));
    }
}
