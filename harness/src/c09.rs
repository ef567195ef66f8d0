//! C09: prefix codes.
use crate::model::*;
use crate::sym;
use librezip::verif::BitVec;
use librezip::verif_tree::{BitSource, CodeTree};

/// Hands out bits and counts them.
struct Src<'a> {
    bits: &'a [bool],
    pos: usize,
}
impl<'a> BitSource for Src<'a> {
    fn read_bit(&mut self) -> Result<bool, anyhow::Error> {
        if self.pos == self.bits.len() {
            return Err(anyhow::anyhow!("end"));
        }
        self.pos += 1;
        Ok(self.bits[self.pos - 1])
    }
}

fn check(lens: &[u8]) {
    let t = CodeTree::new(lens);
    // by now the path knows every length
    let lens: Vec<u8> = lens.iter().map(|l| sym::each(*l as u64) as u8).collect();
    // exactly the complete codes: the Kraft sum is one
    let mut kraft = 0u64;
    for l in &lens {
        if *l > 0 {
            kraft += 1 << (15 - *l);
        }
    }
    let t = match t {
        Err(_) => {
            assert!(kraft != 1 << 15, "a complete code is refused");
            sym::cover(1);
            sym::observe(1);
            return;
        }
        Ok(t) => t,
    };
    assert!(kraft == 1 << 15, "a code that is not complete is built");
    let want = Huff::codes_of(&lens);
    let inv: Vec<Option<BitVec>> = t.invert();
    assert!(inv.len() >= lens.len(), "symbols listed");
    for (s, v) in inv.iter().enumerate() {
        let len = if s < lens.len() { lens[s] as usize } else { 0 };
        match v {
            None => assert!(len == 0, "a symbol without bits"),
            Some(v) => {
                assert!(len != 0, "bits for a symbol of length zero");
                assert!(v.len() == len, "code length");
                for i in 0..len {
                    assert!(v.get(i) == ((want[s].1 >> (len - 1 - i)) & 1 == 1), "canonical code");
                }
            }
        }
    }
    for (s, l) in lens.iter().enumerate() {
        if *l == 0 {
            continue;
        }
        let mut bits = vec![];
        push_code(&mut bits, want[s]);
        let exact = bits.len();
        bits.push(true);
        bits.push(false);
        let mut src = Src { bits: &bits, pos: 0 };
        let got = t.decode_symbol(&mut src);
        assert!(matches!(got, Ok(x) if x as usize == s), "symbol decoded");
        assert!(src.pos == exact, "bits consumed");
        // a code cut short is an error
        let mut src = Src { bits: &bits[..exact - 1], pos: 0 };
        assert!(t.decode_symbol(&mut src).is_err(), "a code cut short");
    }
    sym::cover(0);
}

fn some(n: usize, width: u32) -> Vec<u8> {
    (0..n).map(|_| sym::bits(width) as u8).collect()
}

harnesses! {
    fn h_c09_short() {
        let n = sym::choose(5);
        check(&some(n, 4));
    }
    fn h_c09_six() {
        let n = 5 + sym::choose(2);
        let v = some(n, 3);
        for x in &v {
            sym::assume(*x < 6);
        }
        check(&v);
    }
    fn h_c09_eight() {
        let v = some(8, 2);
        check(&v);
    }
    fn h_c09_deep() {
        // a comb down to 15 bits, two lengths of it free
        let mut v: Vec<u8> = (1..16).collect();
        v.push(15);
        if sym::choose(2) == 0 {
            v.reverse();
        }
        let a = sym::choose(16);
        let b = [0, 7, 14, 15][sym::choose(4)];
        v[a] = sym::bits(4) as u8;
        v[b] = sym::bits(4) as u8;
        check(&v);
    }
    fn h_c09_large() {
        // the fixed code, flat codes and a full byte code, one length of them free
        let mut v = match sym::choose(4) {
            0 => fixed_lit_lens(),
            1 => vec![5; 32],
            2 => flat_lens(286),
            _ => {
                let mut v = vec![0; 288];
                for i in 0..9 {
                    v[i * 32] = if i < 7 { 3 } else { 4 };
                }
                v
            }
        };
        let n = v.len();
        let at = [0, 1, n / 2, n - 2, n - 1][sym::choose(5)];
        v[at] = sym::bits(4) as u8;
        check(&v);
    }
    fn h_c09_five() {
        check(&some(5, 4));
    }
    fn h_c09_ten() {
        check(&some(10, 2));
    }
}
