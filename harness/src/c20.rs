//! C20: cat writes exactly the decompressed contents.
use crate::model::*;
use crate::streams::*;
use crate::sym;
use std::io::Write;

#[allow(dead_code)]
#[path = "/repo/rezippers/src/cat.rs"]
mod cat;

/// The file is `header`, `body` and whatever follows it.
fn check(header: &[u8], body: &[u8], more: &[u8], cap: usize) {
    let mut file = header.to_vec();
    file.extend_from_slice(body);
    let mut all = file.clone();
    all.extend_from_slice(more);
    sym::direct_stdout();
    let r = cat::run(&all[..]);
    std::io::stdout().flush().unwrap();
    let got = sym::stdout(cap);
    let mut want = vec![];
    match inflate_into(&all[header.len()..], true, &mut want) {
        Ok(x) => {
            if r.is_err() {
                assert!(!x.pads_zero || x.no_dist, "a valid file is refused");
                sym::cover(1);
            } else {
                assert!(got.len() == want.len(), "amount of output");
                sym::cover(0);
            }
        }
        Err(_) => {
            assert!(r.is_err(), "a malformed file is accepted");
            sym::cover(2);
        }
    }
    assert!(got.len() <= want.len() && got[..] == want[..got.len()], "output");
    sym::observe_bytes(&got);
    if got.len() > 0 && r.is_err() {
        sym::cover(3);
    }
}

const PLAIN: [u8; 10] = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];

harnesses! {
    fn h_c20_free() {
        warm();
        check(&PLAIN, &fam_free(2), &[], 600);
    }
    fn h_c20_headers() {
        warm();
        let h = header(sym::choose(4));
        let mut v = template(1 + sym::choose(2));
        push_field(&mut v, 7, 0);
        check(&h, &pack(&v), &sym::bytes(8), 600);
    }
    fn h_c20_fixed() {
        warm();
        check(&PLAIN, &fam_fixed(11), &[], 600);
    }
    fn h_c20_ref() {
        warm();
        check(&PLAIN, &fam_ref(5), &[], 600);
    }
    fn h_c20_stored() {
        warm();
        check(&PLAIN, &fam_stored(3, 10), &[], 600);
    }
    fn h_c20_dynamic() {
        warm();
        check(&PLAIN, &fam_dynamic(11), &[], 600);
    }
    fn h_c20_full() {
        warm();
        check(&PLAIN, &fam_full(), &[], 600);
    }
    // three blocks: free stored data, a fixed block that refers back to it, a
    // last one that refers across both
    fn h_c20_across() {
        warm();
        let mut v = vec![];
        let n = sym::choose(5);
        push_field(&mut v, 8, 0);
        push_field(&mut v, 16, n as u64);
        push_field(&mut v, 16, n as u64 ^ 0xffff);
        free(&mut v, 8 * n);
        let l = Huff::codes_of(&fixed_lit_lens());
        let d = Huff::codes_of(&[5; 32]);
        push_field(&mut v, 3, 0b010);
        push_code(&mut v, l[200]);
        let k = sym::choose(7);
        reference(&mut v, &l, &d, sym::choose(3), k);
        push_code(&mut v, l[256]);
        push_field(&mut v, 3, 0b011);
        let k = sym::choose(8);
        reference(&mut v, &l, &d, 8, k);
        push_code(&mut v, l[256]);
        check(&PLAIN, &pack(&v), &[1, 2, 3], 600);
    }
    // the window is full when the reference comes
    fn h_c20_far() {
        warm();
        let mut v = vec![];
        let n = [32767, 32768, 40000][sym::choose(3)];
        let mut data = vec![0u8; n];
        data[n - 32767] = 5;
        if n > 32767 {
            data[n - 32768] = sym::byte();
        }
        data[n - 1] = sym::byte();
        data[n - 10] = sym::byte();
        push_field(&mut v, 8, 0);
        push_field(&mut v, 16, n as u64);
        push_field(&mut v, 16, n as u64 ^ 0xffff);
        let mut body = pack(&v);
        body.extend_from_slice(&data);
        let l = Huff::codes_of(&fixed_lit_lens());
        let mut v = vec![];
        push_field(&mut v, 3, 0b011);
        let (ls, dist) = [(257, 32767), (257, 32768), (259, 32768), (261, 10), (285, 1), (285, 32768)][sym::choose(6)];
        push_code(&mut v, l[ls]);
        match dist {
            1 => push_code(&mut v, (5, 0)),
            10 => {
                push_code(&mut v, (5, 6));
                push_field(&mut v, 2, 1);
            }
            _ => {
                push_code(&mut v, (5, 29));
                push_field(&mut v, 13, dist - 24577);
            }
        }
        push_code(&mut v, l[256]);
        body.extend(pack(&v));
        check(&PLAIN, &body, &[], 41000);
    }
}
