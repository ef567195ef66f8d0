//! C17: zero keeps the contents and writes valid stored blocks.
use crate::fault::Reader;
use crate::model;
use crate::streams::*;
use crate::sym;
use std::io::Write;

#[allow(dead_code)]
#[path = "/repo/rezippers/src/zero.rs"]
mod zero;

fn crc(data: &[u8]) -> u32 {
    crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(data)
}

fn stored(into: &mut Vec<u8>, data: &[u8], last: bool) {
    into.push(last as u8);
    let n = data.len() as u16;
    into.extend_from_slice(&n.to_le_bytes());
    into.extend_from_slice(&(!n).to_le_bytes());
    into.extend_from_slice(data);
}

/// The output is the header, stored blocks holding `data`, and its trailer.
fn check(out: &[u8], header: &[u8], data: &[u8]) {
    assert!(out.len() >= header.len() && out[..header.len()] == *header, "the header");
    let mut at = header.len();
    let mut done = 0;
    loop {
        assert!(at + 5 <= out.len(), "a block is cut off");
        let first = out[at];
        assert!(first == 0 || first == 1, "not a stored block");
        let n = out[at + 1] as usize | (out[at + 2] as usize) << 8;
        let c = out[at + 3] as usize | (out[at + 4] as usize) << 8;
        assert!(n ^ c == 0xffff, "complement of the length");
        at += 5;
        assert!(at + n <= out.len() && done + n <= data.len(), "a block is too long");
        assert!(out[at..at + n] == data[done..done + n], "contents");
        at += n;
        done += n;
        if first == 1 {
            break;
        }
        sym::cover(1);
    }
    assert!(done == data.len(), "contents are cut off");
    assert!(at + 8 == out.len(), "the trailer");
    let want = if data.len() <= 1 { model::crc32(data) } else { crc(data) };
    let got = u32::from_le_bytes([out[at], out[at + 1], out[at + 2], out[at + 3]]);
    assert!(got == want, "checksum");
    let size = u32::from_le_bytes([out[at + 4], out[at + 5], out[at + 6], out[at + 7]]);
    assert!(size == data.len() as u32, "size");
    sym::cover(0);
}

fn output(cap: usize) -> Vec<u8> {
    std::io::stdout().flush().unwrap();
    sym::stdout(cap)
}

fn zeroed(file: &[u8], header: &[u8], data: &[u8]) {
    sym::direct_stdout();
    let r = zero::run(file);
    let out = output(data.len() + 1000);
    assert!(r.is_ok(), "a valid file is refused");
    check(&out, header, data);
}

/// A file of stored blocks, with the plainest header.
fn whole(data: &[u8]) {
    let h = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    let mut file = h.to_vec();
    let k = data.chunks(65535).count();
    for (i, c) in data.chunks(65535).enumerate() {
        stored(&mut file, c, i + 1 == k);
    }
    file.extend(crc(data).to_le_bytes());
    file.extend((data.len() as u32).to_le_bytes());
    zeroed(&file, &h, data);
}

harnesses! {
    // around the 8192 bytes the rolling sum starts with; the sum before the
    // free bytes is a little below a multiple of 4096, so both cutting and not
    // cutting at each of them is within reach
    fn h_c17_cut() {
        let n = 8190 + sym::choose(6);
        let mut data = vec![0u8; n];
        let before = [0usize, 4096, 8192 - 300][sym::choose(3)];
        for k in 0..before / 200 {
            data[1 + 7 * k] = 200;
        }
        data[0] = (before % 200) as u8;
        for d in data[8188..].iter_mut() {
            *d = sym::byte();
        }
        whole(&data);
    }
    // one byte of 1 in every window of 8192 bytes: never a reason to cut, so
    // the longest chunks there are
    fn h_c17_max() {
        let n = [65534, 65535, 65536, 65537, 131069, 131070, 131071, 131072][sym::choose(8)];
        let mut data = vec![0u8; n];
        for k in 0..(n + 8191) / 8192 {
            data[8192 * k] = 1;
        }
        let m = n - 2;
        for d in data[m..].iter_mut() {
            *d = sym::byte();
        }
        whole(&data);
    }
    // input blocks of every kind
    fn h_c17_kinds() {
        let h = header(sym::choose(4));
        let n = sym::choose(4);
        let d = sym::bytes(n);
        let s = sample(sym::choose(4), &d);
        let data = model::inflate(&s, true).unwrap().out;
        let mut file = h.clone();
        file.extend_from_slice(&s);
        file.extend([[0, 0xff][sym::choose(2)]; 8]);
        zeroed(&file, &h, &data);
    }
    fn h_c17_small() {
        let h = header(sym::choose(4));
        let n = sym::choose(5);
        let data = sym::bytes(n);
        let mut file = h.clone();
        let cut = sym::choose(n + 1);
        stored(&mut file, &data[..cut], false);
        stored(&mut file, &data[cut..], true);
        file.extend(crc(&data).to_le_bytes());
        file.extend((n as u32).to_le_bytes());
        zeroed(&file, &h, &data);
    }
}
