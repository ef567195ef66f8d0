//! C19: compressing any block of valid codes, and parsing it back.
use crate::fault::Writer;
use crate::model::*;
use crate::streams::*;
use crate::sym;
use librezip::verif::{make_ref, BitVec, BitWriter};
use librezip::{Block, Code};

fn vec_of(bits: &[bool]) -> BitVec {
    let mut v = BitVec::new();
    for b in bits {
        v.push(*b);
    }
    v
}
fn trees(kind: usize) -> BitVec {
    let (l, d) = tables(kind);
    vec_of(&if kind == 4 { rle_header(&l, &d) } else { plain_header(&l, &d) })
}

/// Blocks that leave the next one at each of the eight bit offsets.
fn before(k: usize) -> Block {
    Block::FixedHuffman(vec![Code::Literal(200); k])
}

fn pack_blocks(blocks: &[&Block]) -> Option<Vec<u8>> {
    let mut w = BitWriter::new(Vec::new());
    for (i, b) in blocks.iter().enumerate() {
        w.write_bit(i + 1 == blocks.len()).unwrap();
        if librezip::compressed_block(&mut w, b).is_err() {
            return None;
        }
    }
    w.align().unwrap();
    Some(w.into_inner())
}

/// Some blocks, parsed back.
fn back(blocks: &[&Block]) {
    let out = match pack_blocks(blocks) {
        Some(o) => o,
        None => panic!("a valid block is refused"),
    };
    let mut n = 0;
    for b in librezip::parse_deflate(&out[..]) {
        let b = match b {
            Ok(b) => b,
            Err(_) => panic!("what was written is refused"),
        };
        assert!(n < blocks.len(), "too many blocks");
        assert!(b == *blocks[n], "another block");
        n += 1;
    }
    assert!(n == blocks.len(), "blocks are missing");
    sym::observe_bytes(&out);
    sym::cover(0);
}

/// At every offset, and before another block.
fn at_offsets(b: &Block) {
    let p = before(sym::choose(8));
    match sym::choose(2) {
        0 => back(&[&p, b]),
        _ => back(&[&p, b, &Block::FixedHuffman(vec![Code::Literal(7)])]),
    }
}

/// Compression reports an error and does not panic.
fn refused(b: &Block) {
    let r = pack_blocks(&[&before(1), b]);
    assert!(r.is_none(), "a block without the codes it needs is accepted");
    sym::cover(1);
}

fn build(kind: usize, codes: Vec<Code>) -> Block {
    if kind == 5 {
        Block::FixedHuffman(codes)
    } else {
        Block::DynamicHuffman { trees: trees(kind), codes }
    }
}

harnesses! {
    fn h_c19_stored() {
        warm();
        let n = sym::choose(6);
        at_offsets(&Block::Uncompressed(sym::bytes(n)));
    }
    fn h_c19_stored_long() {
        warm();
        let n = [255, 256, 257, 32768, 65534, 65535, 65536, 65537, 131072][sym::choose(9)];
        let mut d = vec![0u8; n];
        d[n - 1] = sym::byte();
        d[0] = sym::byte();
        let b = Block::Uncompressed(d);
        if n <= 65535 {
            back(&[&before(3), &b]);
        } else {
            refused(&b);
        }
    }
    fn h_c19_literals() {
        warm();
        let k = [4, 5][sym::choose(2)];
        let c = sym::choose(256) as u8;
        let b = build(k, vec![Code::Literal(c), Code::Literal(!c)]);
        back(&[&before(c as usize % 8), &b]);
    }
    fn h_c19_codes() {
        warm();
        let k = [4, 5][sym::choose(2)];
        let n = sym::choose(3);
        let mut v = vec![];
        for _ in 0..n {
            v.push(match sym::choose(5) {
                0 => Code::Literal(97),
                1 => Code::Literal(255),
                2 => make_ref(1, 3).into(),
                3 => make_ref(32768, 258).into(),
                _ => make_ref(1027, 137).into(),
            });
        }
        at_offsets(&build(k, v));
    }
    // any reference in a block that has every code
    fn h_c19_ref() {
        warm();
        let k = [4, 5][sym::choose(2)];
        let (run, dist) = if sym::choose(2) == 0 {
            (sym::range(3, 258), [1, 3000][sym::choose(2)])
        } else {
            ([3, 115][sym::choose(2)], sym::range(1, 32768))
        };
        let b = build(k, vec![Code::Literal(1), make_ref(dist as u16, run as u16).into()]);
        back(&[&before(k), &b]);
    }
    // tables that lack some codes: an error exactly when a code is missing
    fn h_c19_lacking() {
        warm();
        let k = sym::choose(4);
        let (l, d) = tables(k);
        let has = |t: &Vec<u8>, s: usize| s < t.len() && t[s] > 0;
        let (code, ok) = match sym::choose(3) {
            0 => {
                let c = sym::choose(256);
                (Code::Literal(c as u8), has(&l, c))
            }
            1 => {
                let run = 3 + sym::choose(256);
                let s = (0..29).rev().find(|i| LEN_BASE[*i] as usize <= run && (*i != 28 || run == 258)).unwrap();
                (make_ref(1, run as u16).into(), has(&l, 257 + s) && has(&d, 0))
            }
            _ => {
                let s = sym::choose(30);
                let e = sym::choose(1 << DIST_EXTRA[s].min(1)) as u16;
                let dist = DIST_BASE[s] + e * ((1 << DIST_EXTRA[s]) - 1);
                (make_ref(dist, 3).into(), has(&l, 257) && has(&d, s))
            }
        };
        let b = build(k, vec![Code::Literal(97), code]);
        if ok || (k == 2 && code == Code::Reference(make_ref(2, 3)) && has(&l, 257)) {
            back(&[&before(k), &b]);
        } else {
            refused(&b);
        }
    }
    // header bits that are no header, or one without an end-of-block code
    fn h_c19_no_header() {
        warm();
        let t = if sym::choose(2) == 0 {
            let n = sym::choose(14);
            let mut v = vec![];
            free(&mut v, n);
            vec_of(&v)
        } else {
            let mut l = vec![0u8; 257];
            l[97] = 1;
            l[98] = 1;
            vec_of(&plain_header(&l, &[1, 1]))
        };
        refused(&Block::DynamicHuffman { trees: t, codes: vec![Code::Literal(97)] });
    }
    // a full or failing sink is reported
    fn h_c19_sink() {
        warm();
        let k = 1 + sym::choose(5);
        let b = match sym::choose(2) {
            0 => Block::Uncompressed(sym::bytes(k)),
            _ => build(4, vec![Code::Literal(97); k]),
        };
        let whole = pack_blocks(&[&before(3), &b]).unwrap();
        let m = sym::choose(whole.len() + 1);
        let mut w = BitWriter::new(Writer::new(m, 1, sym::choose(2) == 1));
        let mut r = true;
        for (i, b) in [&before(3), &b].into_iter().enumerate() {
            r = r && w.write_bit(i == 1).is_ok() && librezip::compressed_block(&mut w, b).is_ok();
        }
        r = r && w.align().is_ok();
        assert!(r == (m == whole.len()), "a failing sink is not reported");
        if r {
            assert!(w.into_inner().got == whole, "output");
            sym::cover(0);
        } else {
            sym::cover(1);
        }
    }
}
