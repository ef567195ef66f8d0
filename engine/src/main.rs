//! symex: explores every feasible path of a harness function of an LLVM module.
//!
//! symex IR.ll --fn NAME --out RESULT.json [options]

mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

pub fn shared_bytes(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
    let p = unsafe { mmap(std::ptr::null_mut(), n.max(4096), 3, 0x21, -1, 0) };
    assert!(!p.is_null() && p as isize != -1);
    p
}

#[repr(C)]
struct Shared {
    active: AtomicU32,
    max: AtomicU32,
    stop: AtomicU32,
    seq: AtomicU32,
    paths: AtomicU64,
}
static mut SHARED: *const Shared = std::ptr::null();
static mut CHILDREN: Vec<i32> = vec![];
static mut MY_SEQ: u32 = 0;

fn sh() -> &'static Shared {
    unsafe { &*SHARED }
}

fn is_stopped() -> bool {
    sh().stop.load(Ordering::Relaxed) != 0
}

/// Hand half of the waiting states to a new process, if one is free.
/// Returns true in the child.
#[allow(static_mut_refs)]
fn split(ex: &mut Exec, pend: &mut Vec<mem_state::State>, running: bool) -> bool {
    let need = if running { 1 } else { 2 };
    if pend.len() < need {
        return false;
    }
    let s = sh();
    let max = s.max.load(Ordering::Relaxed);
    if s.active.load(Ordering::Relaxed) >= max {
        return false;
    }
    if s.active.fetch_add(1, Ordering::SeqCst) >= max {
        s.active.fetch_sub(1, Ordering::SeqCst);
        return false;
    }
    let seq = s.seq.fetch_add(1, Ordering::SeqCst) + 1;
    let pid = unsafe { fork() };
    if pid < 0 {
        s.active.fetch_sub(1, Ordering::SeqCst);
        return false;
    }
    let all = std::mem::take(pend);
    if pid == 0 {
        // the child takes every other state, the oldest first
        *pend = all.into_iter().step_by(2).collect();
        unsafe {
            MY_SEQ = seq;
            CHILDREN = vec![];
        }
        ex.stats = Default::default();
        ex.solver.stats = Default::default();
        ex.reports.clear();
        ex.errors.clear();
        ex.samples.clear();
        ex.cover_all = [0; 64];
        ex.fork_sites.clear();
        return true;
    }
    unsafe { CHILDREN.push(pid) };
    *pend = all.into_iter().enumerate().filter(|x| x.0 % 2 == 1).map(|x| x.1).collect();
    false
}

mod mem_state {
    pub use crate::exec::State;
}

fn explore(ex: &mut Exec, pend: &mut Vec<State>) {
    while let Some(s) = pend.pop() {
        if is_stopped() {
            break;
        }
        if Instant::now() > ex.cfg.deadline {
            ex.stats.incomplete += 1;
            break;
        }
        ex.run(s, pend);
        if ex.stop_all {
            sh().stop.store(1, Ordering::SeqCst);
            break;
        }
        if split(ex, pend, false) {
            continue;
        }
    }
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).into_owned()
}
fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn unnums(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn stat_list(ex: &Exec) -> Vec<(&'static str, u64)> {
    let s = &ex.stats;
    let z = &ex.solver.stats;
    vec![
        ("paths", s.paths),
        ("assume_cut", s.assume_cut),
        ("forks", s.forks),
        ("merges", s.merges),
        ("steps", s.steps),
        ("symbolic_branches", s.branch_sym),
        ("unknown", s.unknown),
        ("incomplete", s.incomplete),
        ("known_paths", s.known_paths),
        ("decided_by_fixed_bits", s.by_fixed),
        ("queries", z.queries),
        ("sat", z.sat),
        ("unsat", z.unsat),
        ("solver_ns", z.time_ns),
        ("max_pc", s.max_pc),
        ("max_steps", s.max_steps),
        ("max_query_ns", z.max_ns),
    ]
}

fn dump(ex: &mut Exec) -> String {
    let mut o = String::new();
    for (k, v) in stat_list(ex) {
        let _ = writeln!(o, "stat {} {}", k, v);
    }
    for i in 0..64 {
        if ex.cover_all[i] > 0 {
            let _ = writeln!(o, "cover {} {}", i, ex.cover_all[i]);
        }
    }
    for r in &ex.reports {
        let _ = writeln!(o, "rep {} {} {} {} {}.", r.kind, r.known, hex(&r.what), hex(&r.at), nums(&r.inputs));
    }
    for e in &ex.errors {
        let _ = writeln!(o, "err {}", hex(e));
    }
    for (i, b, c) in &ex.samples {
        let _ = writeln!(o, "sample {}.;{}.;{}", nums(i), nums(b), c);
    }
    for ((f, p), n) in &ex.fork_sites {
        let _ = writeln!(o, "fork {} {} {}", f, p, n);
    }
    o
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(static_mut_refs)]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut fname = String::new();
    let mut out = String::new();
    let mut max_steps = 50_000_000u64;
    let mut secs = 600u64;
    let mut procs = 8u32;
    let mut merge = true;
    let mut budget = 4000u64;
    let mut stubf = true;
    let mut samples = 24usize;
    let mut kind = "QF_BV".to_string();
    let mut rlimit = 0u32;
    let mut prefix = "/repo/".to_string();
    let mut trace = false;
    let mut dumpdir: Option<String> = None;
    let mut dumpn = 0u32;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--fn" => fname = nx(),
            "--out" => out = nx(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--secs" => secs = nx().parse().unwrap(),
            "--procs" => procs = nx().parse().unwrap(),
            "--no-merge" => merge = false,
            "--merge-budget" => budget = nx().parse().unwrap(),
            "--real-format" => stubf = false,
            "--samples" => samples = nx().parse().unwrap(),
            "--kind" => kind = nx(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--prefix" => prefix = nx(),
            "--trace" => trace = true,
            "--dump" => dumpdir = Some(nx()),
            "--dump-n" => dumpn = nx().parse().unwrap(),
            "--version" => {
                println!("z3 {}", z3::version());
                return;
            }
            _ => file = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("IR file");
    let m = ir::Module::load(text);
    let load_ms = t0.elapsed().as_millis();
    unsafe {
        SHARED = shared_bytes(4096) as *const Shared;
    }
    sh().active.store(1, Ordering::SeqCst);
    sh().max.store(procs, Ordering::SeqCst);
    let mut solver = z3::Solver::new(&kind, rlimit);
    if let Some(d) = &dumpdir {
        let _ = std::fs::create_dir_all(d);
        solver.dump = Some(d.into());
        solver.dump_left = dumpn;
    }
    let cfg = Config {
        max_steps,
        deadline: t0 + Duration::from_secs(secs),
        merge,
        merge_budget: budget,
        stub_format: stubf,
        samples,
        trace,
    };
    let mut ex = Exec::new(m, solver, cfg);
    ex.splitter = Some(split);
    ex.stopped = is_stopped;
    let st = ex.initial(&fname);
    let mut pend = vec![st];
    explore(&mut ex, &mut pend);
    drop(pend);
    sh().paths.fetch_add(ex.stats.paths, Ordering::Relaxed);
    // this process is done: free its slot, then wait for those it started
    let seq = unsafe { MY_SEQ };
    let part = format!("{}.part{}", out, seq);
    std::fs::write(&part, dump(&mut ex)).expect("write part");
    sh().active.fetch_sub(1, Ordering::SeqCst);
    let mut bad = vec![];
    for pid in unsafe { CHILDREN.clone() } {
        let mut st = 0;
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r != pid || st != 0 {
            bad.push(format!("worker process ended with status {:#x}", st));
            sh().stop.store(1, Ordering::SeqCst);
        }
    }
    if !bad.is_empty() {
        let mut t = std::fs::read_to_string(&part).unwrap_or_default();
        for b in &bad {
            t.push_str(&format!("err {}\n", hex(b)));
        }
        let _ = std::fs::write(&part, t);
    }
    if seq != 0 {
        unsafe { _exit(0) };
    }
    // aggregate
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut cover = [0u64; 64];
    let mut reps: Vec<(String, u64, String, String, Vec<u64>)> = vec![];
    let mut errs: Vec<String> = vec![];
    let mut smp: Vec<(Vec<u64>, Vec<u64>, u64)> = vec![];
    let mut forks: BTreeMap<(u32, u32), u64> = BTreeMap::new();
    let nproc = sh().seq.load(Ordering::SeqCst);
    for k in 0..=nproc {
        let p = format!("{}.part{}", out, k);
        let t = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(_) => {
                errs.push(format!("worker {} left no result", k));
                continue;
            }
        };
        let _ = std::fs::remove_file(&p);
        for l in t.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "stat" => {
                    let v: u64 = f[2].parse().unwrap();
                    let e = stats.entry(f[1].into()).or_default();
                    if f[1].starts_with("max_") {
                        *e = (*e).max(v)
                    } else {
                        *e += v
                    }
                }
                "cover" => cover[f[1].parse::<usize>().unwrap()] += f[2].parse::<u64>().unwrap(),
                "rep" => reps.push((
                    f[1].into(),
                    f[2].parse().unwrap(),
                    unhex(f[3]),
                    unhex(f[4]),
                    unnums(f[5].trim_end_matches('.')),
                )),
                "err" => errs.push(unhex(f[1])),
                "sample" => {
                    let p: Vec<&str> = f[1].split(';').collect();
                    smp.push((
                        unnums(p[0].trim_end_matches('.')),
                        unnums(p[1].trim_end_matches('.')),
                        p[2].parse().unwrap(),
                    ));
                }
                "fork" => {
                    *forks.entry((f[1].parse().unwrap(), f[2].parse().unwrap())).or_default() +=
                        f[3].parse::<u64>().unwrap()
                }
                _ => {}
            }
        }
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"harness\": {},", js(&fname));
    let _ = writeln!(o, " \"wall_ms\": {}, \"load_ms\": {}, \"workers\": {},", t0.elapsed().as_millis(), load_ms, nproc + 1);
    let _ = writeln!(o, " \"z3\": {},", js(&z3::version()));
    let l: Vec<String> = stats.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, " \"stats\": {{{}}},", l.join(", "));
    let l: Vec<String> =
        (0..64).filter(|i| cover[*i] > 0).map(|i| format!("\"{}\": {}", i, cover[i])).collect();
    let _ = writeln!(o, " \"cover\": {{{}}},", l.join(", "));
    let l: Vec<String> = reps
        .iter()
        .map(|r| {
            format!(
                "{{\"kind\": {}, \"known\": {}, \"what\": {}, \"at\": {}, \"inputs\": [{}]}}",
                js(&r.0),
                r.1,
                js(&r.2),
                js(&r.3),
                nums(&r.4)
            )
        })
        .collect();
    let _ = writeln!(o, " \"reports\": [{}],", l.join(",\n  "));
    let l: Vec<String> = errs.iter().map(|e| js(e)).collect();
    let _ = writeln!(o, " \"errors\": [{}],", l.join(",\n  "));
    let l: Vec<String> = smp
        .iter()
        .map(|s| format!("{{\"inputs\": [{}], \"obs\": [{}], \"cover\": {}}}", nums(&s.0), nums(&s.1), s.2))
        .collect();
    let _ = writeln!(o, " \"samples\": [{}],", l.join(",\n  "));
    let mut fs: Vec<_> = forks.into_iter().collect();
    fs.sort_by_key(|x| std::cmp::Reverse(x.1));
    let mut l = vec![];
    for ((f, p), n) in fs.into_iter().take(12) {
        let fun = ex.m.function(f).unwrap();
        let d = fun.dbg.get(p as usize).copied().unwrap_or(0);
        let mut loc = ex.m.location(d).map(|x| format!("{}:{}", x.0, x.1)).unwrap_or_default();
        let mut dd = d;
        while let Some(u) = ex.m.inlined_at(dd) {
            if let Some(x) = ex.m.location(u) {
                let _ = write!(loc, " < {}:{}", x.0.rsplit('/').next().unwrap(), x.1);
            }
            dd = u;
        }
        l.push(format!("{{\"n\": {}, \"in\": {}, \"at\": {}}}", n, js(&ex.m.funcs[f as usize].name), js(&loc)));
    }
    let _ = writeln!(o, " \"fork_sites\": [{}],", l.join(",\n  "));
    let l: Vec<String> = ex
        .coverage(&prefix)
        .into_iter()
        .map(|(k, (_, lines))| {
            format!("{}: [{}]", js(&k), lines.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        })
        .collect();
    let _ = writeln!(o, " \"coverage\": {{{}}}", l.join(",\n  "));
    o.push_str("}\n");
    std::fs::write(&out, o).expect("write result");
}
