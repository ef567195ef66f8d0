//! C08: lengths and distances through the encoder and the parser.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::verif::{make_ref, BitWriter};
use librezip::{Block, Code};

/// The length symbol RFC 1951 gives a run, without the forbidden spelling of 258.
fn len_symbol(run: u16) -> usize {
    for i in 0..28 {
        let top = LEN_BASE[i] + (1 << LEN_EXTRA[i]);
        let top = top.min(258);
        if sym::each((run < top) as u64) == 1 {
            return i;
        }
    }
    28
}
fn dist_symbol(dist: u16) -> usize {
    for i in 0..29 {
        if sym::each((dist < DIST_BASE[i + 1]) as u64) == 1 {
            return i;
        }
    }
    29
}

fn encode(run: u16, dist: u16) {
    let block = Block::FixedHuffman(vec![make_ref(dist, run).into()]);
    let mut w = BitWriter::new(Vec::new());
    w.write_bit(true).unwrap();
    librezip::compressed_block(&mut w, &block).unwrap();
    w.align().unwrap();
    let got = w.into_inner();
    // what RFC 1951 prescribes
    let ls = len_symbol(run);
    let ds = dist_symbol(dist);
    let mut v = vec![];
    push_field(&mut v, 3, 0b011);
    let l = Huff::codes_of(&fixed_lit_lens());
    push_code(&mut v, l[257 + ls]);
    push_field(&mut v, LEN_EXTRA[ls], (run - LEN_BASE[ls]) as u64);
    push_code(&mut v, (5, ds as u32));
    push_field(&mut v, DIST_EXTRA[ds], (dist - DIST_BASE[ds]) as u64);
    push_code(&mut v, l[256]);
    let want = pack(&v);
    assert!(got.len() == want.len(), "length of the encoding");
    assert!(got == want, "encoding");
    // and back
    let blocks: Vec<_> = librezip::parse_deflate(&got[..]).collect();
    assert!(blocks.len() == 1, "one block");
    match &blocks[0] {
        Ok(Block::FixedHuffman(c)) => {
            assert!(c.len() == 1, "one code");
            match c[0] {
                Code::Reference(r) => {
                    assert!(r.dist == dist, "distance read back");
                    assert!(r.run() == run, "length read back");
                }
                _ => panic!("a literal"),
            }
        }
        _ => panic!("not a fixed block"),
    }
    sym::observe_bytes(&got);
    sym::cover(0);
}

/// A reference of these symbols with any extra bits decodes as the tables say.
fn decode(ls: usize, ds: usize, dynamic: bool) {
    let mut v = vec![];
    let (l, d);
    if dynamic {
        push_field(&mut v, 3, 0b101);
        let t = tables(4);
        v.extend(rle_header(&t.0, &t.1));
        l = Huff::codes_of(&t.0);
        d = Huff::codes_of(&t.1);
    } else {
        push_field(&mut v, 3, 0b011);
        l = Huff::codes_of(&fixed_lit_lens());
        d = Huff::codes_of(&[5; 32]);
    }
    push_code(&mut v, l[257 + ls]);
    let le = sym::bits(5) as u16 & ((1 << LEN_EXTRA[ls]) - 1);
    push_field(&mut v, LEN_EXTRA[ls], le as u64);
    push_code(&mut v, d[ds]);
    let de = sym::bits(13) as u16 & ((1 << DIST_EXTRA[ds]) - 1);
    push_field(&mut v, DIST_EXTRA[ds], de as u64);
    push_code(&mut v, l[256]);
    let data = pack(&v);
    let blocks: Vec<_> = librezip::parse_deflate(&data[..]).collect();
    assert!(blocks.len() == 1, "one block");
    let codes = match &blocks[0] {
        Ok(Block::FixedHuffman(c)) => c,
        Ok(Block::DynamicHuffman { codes, .. }) => codes,
        _ => panic!("refused"),
    };
    assert!(codes.len() == 1, "one code");
    match codes[0] {
        Code::Reference(r) => {
            assert!(r.run() == LEN_BASE[ls] + le, "length");
            assert!(r.dist == DIST_BASE[ds] + de, "distance");
        }
        _ => panic!("a literal"),
    }
    sym::cover(0);
}

harnesses! {
    fn h_c08_encode_run() {
        warm();
        encode(sym::range(3, 258) as u16, [1, 32768][sym::choose(2)]);
    }
    fn h_c08_encode_dist() {
        warm();
        encode([3, 258][sym::choose(2)], sym::range(1, 32768) as u16);
    }
    fn h_c08_encode_both() {
        warm();
        encode(sym::range(3, 258) as u16, sym::range(1, 32768) as u16);
    }
    fn h_c08_decode() {
        warm();
        let ls = sym::choose(29);
        let ds = sym::choose(30);
        decode(ls, ds, false);
    }
    fn h_c08_decode_dynamic() {
        warm();
        let (ls, ds) = if sym::choose(2) == 0 { (sym::choose(29), 29) } else { (3, sym::choose(30)) };
        decode(ls, ds, true);
    }
    fn h_c08_reserved() {
        // 286 and 287, 30 and 31 are errors, whatever follows
        warm();
        let mut v = vec![];
        push_field(&mut v, 3, 0b011);
        let l = Huff::codes_of(&fixed_lit_lens());
        if sym::choose(2) == 0 {
            push_code(&mut v, l[286 + sym::choose(2)]);
            free(&mut v, 5);
        } else {
            push_code(&mut v, l[257]);
            push_code(&mut v, (5, 30 + sym::choose(2) as u32));
            free(&mut v, 5);
        }
        for _ in 0..40 {
            v.push(false);
        }
        let data = pack(&v);
        let r = librezip::parse_deflate(&data[..]).next();
        assert!(matches!(r, Some(Err(_))), "a reserved symbol is decoded");
        sym::cover(0);
    }
}
