//! What the match search should find, straight from its description.
use crate::sym;
use librezip::all_refs::AllRefs;
use librezip::Ref;

pub fn is(c: bool) -> bool {
    sym::each(c as u64) == 1
}

/// The longest match at `pos` with what starts at `off`: at most 258, inside the data.
pub fn run(all: &[u8], pos: usize, off: usize) -> usize {
    let mut n = 0;
    while n < 258 && pos + n < all.len() && is(all[off + n] == all[pos + n]) {
        n += 1;
    }
    n
}

pub fn skipped(skip: &[(usize, u16)], off: usize) -> bool {
    skip.iter().any(|&(s, n)| off > s && off < s + n as usize)
}

/// (distance, run) of every position before `pos`, but the first and those
/// skipped, with the same three bytes and at most 32768 away; nearest first.
pub fn offers(all: &[u8], pos: usize, skip: &[(usize, u16)]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for off in (1..pos).rev() {
        if pos - off > 32768 {
            break;
        }
        if skipped(skip, off) {
            continue;
        }
        let n = run(all, pos, off);
        if n >= 3 {
            v.push((pos - off, n));
        }
    }
    v
}

pub fn found(refs: &AllRefs, pos: usize, skip: &[(usize, u16)]) -> Option<Vec<Ref>> {
    refs.at(pos, skip).map(|it| it.collect())
}

pub fn same(got: &[Ref], want: &[(usize, usize)]) {
    assert!(got.len() == want.len(), "number of candidates");
    for (g, w) in got.iter().zip(want) {
        assert!(g.dist as usize == w.0, "distance of a candidate");
        assert!(g.run() as usize == w.1, "run of a candidate");
        sym::cover(0);
    }
}

/// The first that reaches the cap, else the first of the longest.
pub fn pick(from: &[(usize, usize)], cap: usize, drop_far: bool) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for &(d, n) in from {
        if best.map_or(true, |b| n > b.1) {
            best = Some((d, n));
        }
        if n >= cap {
            break;
        }
    }
    best.filter(|&(d, n)| !(drop_far && n == 3 && d > 4096))
}

/// What the codes make of the history.
pub fn replay(hist: &[u8], codes: &[librezip::Code]) -> Vec<u8> {
    let mut v = hist.to_vec();
    for c in codes {
        match c {
            librezip::Code::Literal(b) => v.push(*b),
            librezip::Code::Reference(r) => {
                let d = sym::each(r.dist as u64) as usize;
                let n = sym::each(r.run() as u64) as usize;
                assert!(n >= 3 && n <= 258, "run of a guess");
                assert!(d >= 1 && d <= 32768, "distance of a guess");
                assert!(d <= v.len(), "a guess before the history");
                for _ in 0..n {
                    v.push(v[v.len() - d]);
                }
            }
        }
    }
    v.split_off(hist.len())
}

/// Text in which no three bytes repeat.
pub fn filler(n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0usize;
    while v.len() < n {
        v.push(32 + (i % 31) as u8);
        v.push(64 + (i / 31 % 31) as u8);
        v.push(96 + (i / 961 % 31) as u8);
        i += 1;
    }
    v.truncate(n);
    v
}

pub fn config(level: u8) -> librezip::Config {
    if level == 0 { librezip::Config::spicy() } else { librezip::Config::gzip(level) }
}
