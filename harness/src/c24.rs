//! C24: zero cuts its blocks where the contents say, and nowhere else.
use crate::sym;
use std::io::Write;

#[allow(dead_code)]
#[path = "/repo/rezippers/src/zero.rs"]
mod zero;

const WINDOW: usize = 8192;

/// Lengths of the blocks: each ends at the first place, a window or more after
/// its start, where the bytes of the window before sum to a multiple of 4096.
fn cuts(data: &[u8]) -> Vec<usize> {
    let mut ret = vec![];
    let mut start = 0;
    while start < data.len() {
        let rest = &data[start..];
        let mut n = WINDOW.min(rest.len());
        let mut sum: u32 = 0;
        for &b in &rest[..n] {
            sum += b as u32;
        }
        while n < rest.len() && n < 65535 && sum & 4095 != 0 {
            sum = sum + rest[n] as u32 - rest[n - WINDOW] as u32;
            n += 1;
        }
        ret.push(n);
        start += n;
    }
    ret
}

/// Lengths of the blocks the command writes for `data`.
fn blocks(data: &[u8]) -> Vec<usize> {
    let mut file = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    let k = data.chunks(65535).count();
    for (i, c) in data.chunks(65535).enumerate() {
        let n = c.len() as u16;
        file.push((i + 1 == k) as u8);
        file.extend_from_slice(&n.to_le_bytes());
        file.extend_from_slice(&(!n).to_le_bytes());
        file.extend_from_slice(c);
    }
    file.extend_from_slice(&[0; 8]);
    sym::direct_stdout();
    zero::run(&file[..]).unwrap();
    std::io::stdout().flush().unwrap();
    let out = sym::stdout(data.len() + 1000);
    let mut at = 10;
    let mut ret = vec![];
    loop {
        let n = out[at + 1] as usize | (out[at + 2] as usize) << 8;
        ret.push(n);
        let last = out[at] & 1 == 1;
        at += 5 + n;
        if last {
            return ret;
        }
    }
}

fn check(data: &[u8]) {
    let got = blocks(data);
    let want = cuts(data);
    assert!(got == want, "where the blocks end");
    for n in &got {
        sym::observe(*n as u64);
    }
    sym::cover(0);
    if got.len() > 1 {
        sym::cover(1);
    }
    if got.iter().any(|&n| n > WINDOW && n + 1 < data.len()) {
        sym::cover(2);
    }
}

/// Zeros with a fixed sum, out of the way of the free bytes.
fn fill(data: &mut [u8], from: usize, sum: usize) {
    for k in 0..sum / 200 {
        data[from + 100 + 7 * k] = 200;
    }
    data[from + 90] = (sum % 200) as u8;
}

harnesses! {
    // bytes that come into the window and bytes that leave it again
    fn h_c24_window() {
        let n = WINDOW + 1 + sym::choose(4);
        let mut data = vec![0u8; n];
        fill(&mut data, 0, [0, 4096 - 300, 8192 - 100][sym::choose(3)]);
        for i in 0..2 {
            data[i] = sym::byte();
        }
        for i in WINDOW..n.min(WINDOW + 3) {
            data[i] = sym::byte();
        }
        check(&data);
    }
    // the second block starts anew: the first is cut after a window of zeros
    fn h_c24_again() {
        let n = 2 * WINDOW + 1 + sym::choose(3);
        let mut data = vec![0u8; n];
        fill(&mut data, WINDOW, [0, 4096 - 300][sym::choose(2)]);
        data[WINDOW - 1] = [0, 1][sym::choose(2)];
        data[WINDOW] = sym::byte();
        data[WINDOW + 1] = sym::byte();
        for i in 2 * WINDOW..n {
            data[i] = sym::byte();
        }
        check(&data);
    }
    // the longest block, and what comes after it: one byte in every window
    fn h_c24_longest() {
        let n = [65534, 65535, 65536, 65535 + WINDOW + 2][sym::choose(4)];
        let mut data = vec![0u8; n];
        for k in 0..8 {
            data[WINDOW * k] = 1;
        }
        fill(&mut data, 57400, 3900);
        for i in 65531..65534 {
            data[i] = sym::byte();
        }
        check(&data);
    }
}
