//! Reference definitions the code is compared with, written from RFC 1951 and
//! RFC 1952 and sharing nothing with the code under test.

use crate::sym;

/// Bits packed least-significant first, the last byte padded with zeros.
pub fn pack(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < bits.len() {
        let mut b = 0u8;
        let mut j = 0;
        while j < 8 && i + j < bits.len() {
            b |= (bits[i + j] as u8) << j;
            j += 1;
        }
        out.push(b);
        i += 8;
    }
    out
}

pub fn push_field(to: &mut Vec<bool>, width: u32, val: u64) {
    for i in 0..width {
        to.push((val >> i) & 1 == 1);
    }
}

// ---- RFC 1951 -----------------------------------------------------------

/// Section 3.2.5: base value and extra bits of length symbols 257..=285.
pub const LEN_BASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
];
pub const LEN_EXTRA: [u32; 29] =
    [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
/// Section 3.2.5: base value and extra bits of distance symbols 0..=29.
pub const DIST_BASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
    8193, 12289, 16385, 24577,
];
pub const DIST_EXTRA: [u32; 30] =
    [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
/// Section 3.2.7: the order code length code lengths come in.
pub const CL_ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

/// Canonical Huffman decoding by counting (3.2.2).
#[derive(Clone)]
pub struct Huff {
    pub count: [u16; 16],
    pub symbol: Vec<u16>,
    pub left: i32, // unused code space: 0 complete, > 0 incomplete, < 0 over-subscribed
    pub codes: u16,
}

impl Huff {
    pub fn new(lens: &[u8]) -> Huff {
        let mut count = [0u16; 16];
        for l in lens {
            count[*l as usize] += 1;
        }
        let codes = lens.len() as u16 - count[0];
        count[0] = 0;
        let mut left = 1i32;
        for l in 1..16 {
            left = left * 2 - count[l] as i32;
            if left < 0 {
                break;
            }
        }
        let mut offs = [0u16; 16];
        for l in 1..15 {
            offs[l + 1] = offs[l] + count[l];
        }
        let mut symbol = vec![0u16; codes as usize];
        for (s, l) in lens.iter().enumerate() {
            if *l != 0 {
                symbol[offs[*l as usize] as usize] = s as u16;
                offs[*l as usize] += 1;
            }
        }
        Huff { count, symbol, left, codes }
    }
    pub fn complete(&self) -> bool {
        self.left == 0
    }
    /// The canonical code of every symbol: (length, code read most significant bit first).
    pub fn codes_of(lens: &[u8]) -> Vec<(u32, u32)> {
        let mut count = [0u32; 16];
        for l in lens {
            count[*l as usize] += 1;
        }
        count[0] = 0;
        let mut next = [0u32; 16];
        let mut code = 0;
        for l in 1..16 {
            code = (code + count[l - 1]) << 1;
            next[l] = code;
        }
        lens.iter()
            .map(|l| {
                if *l == 0 {
                    (0, 0)
                } else {
                    let c = next[*l as usize];
                    next[*l as usize] += 1;
                    (*l as u32, c)
                }
            })
            .collect()
    }
}

pub fn push_code(to: &mut Vec<bool>, code: (u32, u32)) {
    for i in (0..code.0).rev() {
        to.push((code.1 >> i) & 1 == 1);
    }
}

pub fn fixed_lit_lens() -> Vec<u8> {
    (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sym {
    Lit(u8),
    Ref { dist: u16, run: u16 },
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Blk {
    Stored(Vec<u8>),
    Fixed(Vec<Sym>),
    Dynamic(Vec<bool>, Vec<Sym>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Eof,
    Reserved,    // block type 3
    StoredLen,   // length and complement disagree
    Code,        // over- or under-subscribed
    Symbol,      // reserved length or distance symbol, or an unused code
    NoDist,      // a reference without distance codes
    History,     // a reference before the start
    Repeat,      // repeat with nothing before it
    Overrun,     // code lengths past the end
}

/// A reader of a bit stream. Bits that the path has already decided are made
/// concrete, so that following the code under test costs nothing.
pub struct Bits<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
impl<'a> Bits<'a> {
    fn raw(&mut self) -> Result<bool, Bad> {
        if self.pos >= self.data.len() * 8 {
            return Err(Bad::Eof);
        }
        let b = (self.data[self.pos / 8] >> (self.pos % 8)) & 1;
        self.pos += 1;
        Ok(b == 1)
    }
    /// A bit that control depends on.
    pub fn bit(&mut self) -> Result<bool, Bad> {
        Ok(sym::each(self.raw()? as u64) == 1)
    }
    /// A number that control depends on.
    pub fn field(&mut self, n: u32) -> Result<u32, Bad> {
        let mut v = 0;
        for i in 0..n {
            v |= (self.bit()? as u32) << i;
        }
        Ok(v)
    }
    /// A plain value.
    pub fn value(&mut self, n: u32) -> Result<u32, Bad> {
        let mut v = 0;
        for i in 0..n {
            v |= (self.raw()? as u32) << i;
        }
        Ok(v)
    }
    pub fn symbol(&mut self, h: &Huff) -> Result<u16, Bad> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= self.bit()? as i32;
            let n = h.count[l] as i32;
            if code - n < first {
                return Ok(h.symbol[(index + (code - first)) as usize]);
            }
            index += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        Err(Bad::Symbol)
    }
}

pub struct Inflated {
    pub blocks: Vec<Blk>,
    pub out: Vec<u8>,
    pub bits: usize,       // length of the stream in bits, without final padding
    pub pads_zero: bool,   // every padding bit, of stored blocks too, was zero
    pub final_zero: bool,  // the padding bits at the end were zero
    pub no_dist: bool,     // some distance table has several entries, all zero
    pub odd_258: bool,     // some length 258 is spelled as symbol 284
}

/// The lengths a dynamic header gives: literal/length, distance.
pub fn read_lens(b: &mut Bits) -> Result<(Vec<u8>, Vec<u8>), Bad> {
    let hlit = b.field(5)? as usize + 257;
    let hdist = b.field(5)? as usize + 1;
    let hclen = b.field(4)? as usize + 4;
    let mut cl = [0u8; 19];
    for i in 0..hclen {
        cl[CL_ORDER[i]] = b.field(3)? as u8;
    }
    let h = Huff::new(&cl);
    if !h.complete() {
        return Err(Bad::Code);
    }
    let mut lens = vec![];
    while lens.len() < hlit + hdist {
        let s = b.symbol(&h)?;
        match s {
            0..=15 => lens.push(s as u8),
            16 => {
                let p = *lens.last().ok_or(Bad::Repeat)?;
                let n = b.field(2)? + 3;
                for _ in 0..n {
                    lens.push(p);
                }
            }
            17 => {
                let n = b.field(3)? + 3;
                for _ in 0..n {
                    lens.push(0);
                }
            }
            _ => {
                let n = b.field(7)? + 11;
                for _ in 0..n {
                    lens.push(0);
                }
            }
        }
    }
    if lens.len() > hlit + hdist {
        return Err(Bad::Overrun);
    }
    let d = lens.split_off(hlit);
    Ok((lens, d))
}

/// The distance code, if the lengths are one RFC 1951 allows; Ok(None) where
/// there are no distance codes at all.
pub fn dist_code(d: &[u8]) -> Result<Option<Huff>, Bad> {
    let h = Huff::new(d);
    if h.codes == 0 {
        return Ok(None);
    }
    if h.complete() || (h.codes == 1 && h.count[1] == 1) {
        return Ok(Some(h));
    }
    Err(Bad::Code)
}

fn codes(b: &mut Bits, lit: &Huff, dist: Option<&Huff>, out: &mut Vec<u8>, window: bool, odd: &mut bool) -> Result<Vec<Sym>, Bad> {
    let mut v = vec![];
    loop {
        let s = b.symbol(lit)?;
        if s < 256 {
            v.push(Sym::Lit(s as u8));
            out.push(s as u8);
        } else if s == 256 {
            return Ok(v);
        } else {
            let s = s as usize - 257;
            if s >= 29 {
                return Err(Bad::Symbol);
            }
            let run = LEN_BASE[s] + b.value(LEN_EXTRA[s])? as u16;
            if s == 27 && sym::each((run == 258) as u64) == 1 {
                *odd = true;
            }
            let d = dist.ok_or(Bad::NoDist)?;
            let ds = b.symbol(d)? as usize;
            if ds >= 30 {
                return Err(Bad::Symbol);
            }
            let dist = DIST_BASE[ds] + b.value(DIST_EXTRA[ds])? as u16;
            v.push(Sym::Ref { dist, run });
            if window {
                if dist as usize > out.len() {
                    return Err(Bad::History);
                }
                let mut at = out.len() - dist as usize;
                for _ in 0..run {
                    let c = out[at];
                    out.push(c);
                    at += 1;
                }
            }
        }
    }
}

/// Decode a whole stream. With `window` the references are followed and the
/// data produced; without, only the codes are read.
pub fn inflate(data: &[u8], window: bool) -> Result<Inflated, Bad> {
    let mut out = vec![];
    let mut x = inflate_into(data, window, &mut out)?;
    x.out = out;
    Ok(x)
}

/// The same, with what was decoded before an error left in `out`.
pub fn inflate_into(data: &[u8], window: bool, out: &mut Vec<u8>) -> Result<Inflated, Bad> {
    let mut b = Bits { data, pos: 0 };
    let mut blocks = vec![];
    let mut pads_zero = true;
    let mut odd_258 = false;
    let mut no_dist = false;
    let mut final_zero = true;
    loop {
        let last = b.bit()?;
        match b.field(2)? {
            0 => {
                let pad = b.value((8 - b.pos as u32 % 8) % 8)?;
                if sym::each((pad != 0) as u64) == 1 {
                    pads_zero = false;
                }
                let n = b.field(16)?;
                let c = b.value(16)?;
                if sym::each((n ^ 0xffff != c) as u64) == 1 {
                    return Err(Bad::StoredLen);
                }
                let at = b.pos / 8;
                if data.len() - at < n as usize {
                    return Err(Bad::Eof);
                }
                let d = data[at..at + n as usize].to_vec();
                b.pos += 8 * n as usize;
                out.extend_from_slice(&d);
                blocks.push(Blk::Stored(d));
            }
            1 => {
                let lit = Huff::new(&fixed_lit_lens());
                let dist = Huff::new(&[5; 32]);
                blocks.push(Blk::Fixed(codes(&mut b, &lit, Some(&dist), out, window, &mut odd_258)?));
            }
            2 => {
                let at = b.pos;
                let (l, d) = read_lens(&mut b)?;
                let head = (at..b.pos).map(|i| (data[i / 8] >> (i % 8)) & 1 == 1).collect();
                let lit = Huff::new(&l);
                if !lit.complete() {
                    return Err(Bad::Code);
                }
                let dist = dist_code(&d)?;
                if dist.is_none() && d.len() > 1 {
                    no_dist = true;
                }
                blocks.push(Blk::Dynamic(head, codes(&mut b, &lit, dist.as_ref(), out, window, &mut odd_258)?));
            }
            _ => return Err(Bad::Reserved),
        }
        if last {
            let bits = b.pos;
            let pad = b.value((8 - bits as u32 % 8) % 8)?;
            if sym::each((pad != 0) as u64) == 1 {
                pads_zero = false;
                final_zero = false;
            }
            return Ok(Inflated { blocks, out: vec![], bits, pads_zero, final_zero, no_dist, odd_258 });
        }
    }
}

/// The bits of a dynamic header giving these lengths, each length written on
/// its own through a code length code of sixteen four-bit codes.
pub fn plain_header(lit: &[u8], dist: &[u8]) -> Vec<bool> {
    let mut v = vec![];
    push_field(&mut v, 5, lit.len() as u64 - 257);
    push_field(&mut v, 5, dist.len() as u64 - 1);
    push_field(&mut v, 4, 15);
    let mut cl = [4u8; 19];
    cl[16] = 0;
    cl[17] = 0;
    cl[18] = 0;
    for i in CL_ORDER {
        push_field(&mut v, 3, cl[i] as u64);
    }
    let c = Huff::codes_of(&cl);
    for l in lit.iter().chain(dist) {
        push_code(&mut v, c[*l as usize]);
    }
    v
}

/// Lengths of a complete code of k symbols, as even as can be.
pub fn flat_lens(k: usize) -> Vec<u8> {
    let mut p = 0;
    while (2usize << p) <= k {
        p += 1;
    }
    let short = (2usize << p) - k;
    (0..k).map(|i| if i < short { p as u8 } else { p as u8 + 1 }).collect()
}

/// A dynamic header giving these lengths with every run coded as such, runs
/// crossing from one table into the other too, and no more code length codes
/// than needed.
pub fn rle_header(lit: &[u8], dist: &[u8]) -> Vec<bool> {
    let all: Vec<u8> = lit.iter().chain(dist).cloned().collect();
    let mut syms: Vec<(usize, u32, u64)> = vec![]; // symbol, extra bits, value
    let mut i = 0;
    while i < all.len() {
        let mut n = 1;
        while i + n < all.len() && all[i + n] == all[i] {
            n += 1;
        }
        if all[i] == 0 && n >= 11 {
            n = n.min(138);
            syms.push((18, 7, n as u64 - 11));
        } else if all[i] == 0 && n >= 3 {
            syms.push((17, 3, n as u64 - 3));
        } else if all[i] != 0 && n >= 4 {
            n = n.min(7);
            syms.push((all[i] as usize, 0, 0));
            syms.push((16, 2, n as u64 - 4));
        } else {
            n = 1;
            syms.push((all[i] as usize, 0, 0));
        }
        i += n;
    }
    let mut used = [false; 19];
    for s in &syms {
        used[s.0] = true;
    }
    let k = used.iter().filter(|x| **x).count();
    let flat = flat_lens(k);
    let mut cl = [0u8; 19];
    let mut j = 0;
    for s in 0..19 {
        if used[s] {
            cl[s] = flat[j];
            j += 1;
        }
    }
    let mut hclen = 19;
    while hclen > 4 && cl[CL_ORDER[hclen - 1]] == 0 {
        hclen -= 1;
    }
    let mut v = vec![];
    push_field(&mut v, 5, lit.len() as u64 - 257);
    push_field(&mut v, 5, dist.len() as u64 - 1);
    push_field(&mut v, 4, hclen as u64 - 4);
    for i in 0..hclen {
        push_field(&mut v, 3, cl[CL_ORDER[i]] as u64);
    }
    let c = Huff::codes_of(&cl);
    for (s, n, x) in syms {
        push_code(&mut v, c[s]);
        push_field(&mut v, n, x);
    }
    v
}

/// CRC-32 (RFC 1952, section 8), bit by bit.
pub fn crc32(data: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            let low = 0u32.wrapping_sub(c & 1);
            c = (c >> 1) ^ (0xedb8_8320 & low);
        }
    }
    !c
}
