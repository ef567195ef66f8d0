//! C21: the match search misses nothing.
use crate::matches::{config, filler, found, offers, pick, same};
use crate::sym;
use librezip::all_refs::AllRefs;
use librezip::verif::make_ref;
use librezip::{Code, Looker, Technique};

fn complete(pre: &[u8], data: &[u8]) {
    let all: Vec<u8> = pre.iter().chain(data).cloned().collect();
    let refs = AllRefs::with_sixteen(pre, data, u16::MAX);
    for pos in 0..all.len() {
        match found(&refs, pos, &[]) {
            None => assert!(pos + 2 >= all.len(), "search ends early"),
            Some(got) => {
                assert!(pos + 2 < all.len(), "search goes on too long");
                same(&got, &offers(&all, pos, &[]));
            }
        }
    }
    sym::cover(1);
}

/// Bytes below 32, of which no two triples share a hash.
fn small(n: usize) -> Vec<u8> {
    let v = sym::bytes(n);
    for b in &v {
        sym::assume(*b < 32);
    }
    v
}

fn limited(p: usize, n: usize, low: bool, limit: u16) {
    let all = if low { small(n) } else { sym::bytes(n) };
    let (pre, data) = all.split_at(p);
    let refs = AllRefs::with_sixteen(pre, data, limit);
    for pos in 0..n - 2 {
        let got = found(&refs, pos, &[]).unwrap();
        let mut want = offers(&all, pos, &[]);
        assert!(got.len() <= limit as usize, "more candidates than the limit");
        if low {
            want.truncate(limit as usize);
        } else {
            assert!(got.len() <= want.len(), "candidates out of nowhere");
            want.truncate(got.len());
        }
        if offers(&all, pos, &[]).len() > limit as usize {
            sym::cover(1);
        }
        same(&got, &want);
    }
}

fn skips(n: usize, limit: u16, count: usize) {
    let all = small(n);
    let p = sym::choose(2);
    let refs = AllRefs::with_sixteen(&all[..p], &all[p..], limit);
    let skip: Vec<(usize, u16)> = (0..count)
        .map(|_| (sym::choose(n - 3), sym::range(3, 5) as u16))
        .map(|(s, r)| (s, sym::each(r as u64) as u16))
        .collect();
    let pos = n - 3;
    let got = found(&refs, pos, &skip).unwrap();
    let mut want = offers(&all, pos, &skip);
    if want.len() < offers(&all, pos, &[]).len() {
        sym::cover(1);
    }
    want.truncate(limit as usize);
    same(&got, &want);
}

/// Copies of the first bytes of a word, each followed by a free byte; then the word.
fn words(pre: usize, lens: &[usize], level: u8) {
    let word: Vec<u8> = (0..12).map(|i| 33 + 7 * i as u8).collect();
    let mut all = vec![1u8, 2];
    for &n in lens {
        all.extend_from_slice(&word[..n]);
        all.push(sym::byte());
    }
    let pos = all.len();
    all.extend_from_slice(&word);
    all.push(3);
    best(&all, pre, pos, level, &[]);
}

/// What the configured search picks at `pos`.
fn best(all: &[u8], pre: usize, pos: usize, level: u8, said: &[Code]) {
    let c = config(level);
    let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
    let t = Technique::new(c, &refs);
    let mut s = t.scanner();
    let mut skip = vec![];
    for code in said {
        if let (Code::Reference(r), Some(limit)) = (code, c.wams.insert_only_below_length) {
            if r.run() > limit {
                skip.push((s.pos, r.run()));
            }
        }
        s.feedback(*code);
    }
    let (byte, got) = s.best_candidate(pos);
    assert!(byte == all[pos], "the literal");
    let mut from = offers(all, pos, &skip);
    let n = from.len();
    if skip.len() > 0 && n < offers(all, pos, &[]).len() {
        sym::cover(2);
    }
    if n > c.wams.limit_count_of_distances {
        from.truncate(c.wams.limit_count_of_distances);
        sym::cover(3);
    }
    let cap = c.wams.quit_search_above_length as usize;
    let want = pick(&from, cap, level == 0 || level >= 4);
    match (got, want) {
        (None, None) => sym::cover(1),
        (Some(g), Some(w)) => {
            assert!(g.dist as usize == w.0, "picked distance");
            assert!(g.run() as usize == w.1, "picked run");
            sym::cover(0);
        }
        _ => panic!("picked or not"),
    }
}

fn far(dist: usize, pre: usize, level: Option<u8>) {
    let mut all = vec![9u8, 8];
    let at = all.len();
    all.extend_from_slice(&[1, 2, 3, 4]);
    let f = filler(dist - 4);
    all.extend_from_slice(&f);
    let pos = all.len();
    assert!(pos - at == dist);
    all.extend_from_slice(&[1, 2, 3, sym::byte(), 5]);
    match level {
        Some(l) => best(&all, pre, pos, l, &[]),
        None => {
            let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
            let got = found(&refs, pos, &[]).unwrap();
            let n = if all[pos + 3] == 4 { 4 } else { 3 };
            let n = sym::each(n) as usize;
            if dist <= 32768 {
                same(&got, &[(dist, n)]);
            } else {
                same(&got, &[]);
                sym::cover(1);
            }
        }
    }
}

harnesses! {
    fn h_c21_free() {
        sym::split();
        let p = sym::choose(3);
        let pre = sym::bytes(p);
        let data = sym::bytes(7 - p);
        complete(&pre, &data);
    }
    fn h_c21_short() {
        sym::split();
        let n = sym::choose(5);
        let p = sym::choose(n + 1);
        let pre = sym::bytes(p);
        let data = sym::bytes(n - p);
        complete(&pre, &data);
    }
    fn h_c21_limit() {
        sym::split();
        let limit = 1 + sym::choose(3) as u16;
        limited(sym::choose(2), 8, true, limit);
    }
    fn h_c21_limit_hash() {
        sym::split();
        let limit = 1 + sym::choose(2) as u16;
        limited(0, 7, false, limit);
    }
    fn h_c21_skips() {
        sym::split();
        let limit = [1, 2, u16::MAX][sym::choose(3)];
        skips(8, limit, 1);
    }
    fn h_c21_skips_two() {
        sym::split();
        skips(7, u16::MAX, 2);
    }
    fn h_c21_pick() {
        let n = 1 + sym::choose(3);
        let lens: Vec<usize> = (0..n).map(|_| 3 + sym::choose(7)).collect();
        let level = [1, 4][sym::choose(2)];
        words(sym::choose(2) * 4, &lens, level);
    }
    fn h_c21_chain() {
        // more candidates than the levels look at
        let k = sym::choose(7);
        let mut lens = vec![4usize; 7];
        lens[k] = 6;
        let level = [1, 2][sym::choose(2)];
        words(0, &lens, level);
    }
    fn h_c21_pick_levels() {
        let a = 3 + sym::choose(3);
        let b = 3 + sym::choose(9);
        let level = sym::choose(10) as u8;
        words(0, &[a, b, 3], level);
    }
    fn h_c21_pick_skip() {
        // a reference of each run at each place before hides what is strictly inside
        let word = [40u8, 50, 60, 70, 80];
        let mut all = vec![7u8, 7, 7, 7, 7, 7, 7, 7, 7];
        let lead = 3 + sym::choose(5);
        all.extend_from_slice(&word);
        all.push(sym::byte());
        all.extend_from_slice(&word);
        all.push(sym::byte());
        let pos = all.len();
        all.extend_from_slice(&word);
        all.push(1);
        let run = sym::each(sym::range(3, 8)) as u16;
        let mut said = vec![Code::Literal(7); lead];
        said.push(make_ref(1, run).into());
        best(&all, 0, pos, [1, 2, 3, 4, 0][sym::choose(5)], &said);
    }
    fn h_c21_far() {
        sym::split();
        let dist = [32767, 32768, 32769, 32770][sym::choose(4)];
        let pre = [0, 3, 30000][sym::choose(3)];
        far(dist, pre, None);
    }
    fn h_c21_far_three() {
        sym::split();
        let dist = [4095, 4096, 4097][sym::choose(3)];
        let level = [1, 3, 4, 9, 0][sym::choose(5)];
        far(dist, 0, Some(level));
    }
    fn h_c21_spread() {
        // four places with the same three bytes, near and far apart, in much data
        sym::split();
        let k = sym::choose(7);
        let gaps = [
            [0, 5, 300, 300],
            [300, 300, 1000, 20],
            [4200, 5, 27000, 5000],
            [300, 40000, 20000, 10],
            [10, 65500, 0, 400],
            [65517, 0, 8, 33000],
            [65650, 5, 300, 10],
        ][k];
        let text = filler(gaps.iter().sum());
        let t = [[5u8, 5, 5], [5, 5, 6], [5, 6, 7]][sym::choose(3)];
        let mut at = 0;
        let mut all = vec![1u8, 2];
        let mut pos = 0;
        for g in gaps {
            all.extend_from_slice(&text[at..at + g]);
            at += g;
            pos = all.len();
            all.extend_from_slice(&t);
            all.push(8 + sym::bit() as u8);
        }
        let skip = match k {
            0 | 1 => [(1, 7)].to_vec(),
            5 | 6 => [[(1, 3), (4, 3)], [(100, 258), (200, 3)]][sym::choose(2)].to_vec(),
            _ => vec![],
        };
        let pre = [0, 33000.min(pos)][k % 2];
        let refs = AllRefs::with_sixteen(&all[..pre], &all[pre..], u16::MAX);
        let got = found(&refs, pos, &skip).unwrap();
        same(&got, &offers(&all, pos, &skip));
    }
    fn h_c21_free_long() {
        sym::split();
        let p = sym::choose(3);
        let pre = sym::bytes(p);
        let data = sym::bytes(8 - p);
        complete(&pre, &data);
    }
}
