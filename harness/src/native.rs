//! Replays recorded inputs on the natively compiled harness.
//!
//! native FILE: each line is "harness in,in,...;obs,obs,...|-". Per line one
//! result line: "ok", "diff" (another observation), "panic MESSAGE",
//! "assume" (the inputs break an assumption) or "known ID".

use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::io::{Read, Seek, SeekFrom, Write};

struct St {
    inputs: Vec<u64>,
    pos: usize,
    obs: Vec<u64>,
    cover: u64,
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St { inputs: vec![], pos: 0, obs: vec![], cover: 0 });
}
struct Assume;
struct Exhausted;
struct Known(u64);

fn next() -> u64 {
    let r = ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        s.inputs.get(p).copied()
    });
    match r {
        Some(v) => v,
        None => std::panic::panic_any(Exhausted),
    }
}

#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_bits(w: u64) -> u64 {
    let v = next();
    if w >= 64 { v } else { v & ((1 << w) - 1) }
}
#[unsafe(no_mangle)]
unsafe extern "C-unwind" fn rsym_bytes(p: *mut u8, n: u64) {
    for i in 0..n as usize {
        let v = next() as u8;
        unsafe { *p.add(i) = v };
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_choose(_n: u64) -> u64 {
    next()
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_assume(c: bool) {
    if !c {
        std::panic::panic_any(Assume)
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_cover(id: u64) {
    ST.with(|s| s.borrow_mut().cover |= 1 << id)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_observe(v: u64) {
    ST.with(|s| s.borrow_mut().obs.push(v))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_split(_on: bool) {}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_direct(_on: bool) {}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_stdout_room(n: u64, errno: u64) {
    ERRNO.store(errno, Relaxed);
    ROOM.store(n, Relaxed)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_known(id: u64) {
    std::panic::panic_any(Known(id))
}

// Standard output goes to a file of our own, so that what the code under test
// prints can be read back.
unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
}
/// What standard output still takes.
static ROOM: AtomicU64 = AtomicU64::new(u64::MAX);
/// How writing fails beyond that.
static ERRNO: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
/// Stands in for the C library's write, to fail when the room is used up.
#[unsafe(no_mangle)]
unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    let mut n = n;
    let room = ROOM.load(Relaxed);
    if fd == 1 && room != u64::MAX && n > 0 {
        if room == 0 {
            unsafe { *__errno_location() = ERRNO.load(Relaxed) as i32 };
            return -1;
        }
        n = n.min(room as usize);
        ROOM.store(room - n as u64, Relaxed);
    }
    unsafe { syscall(1, fd as i64, p, n) as isize }
}
static mut CAP: Option<std::fs::File> = None;

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
unsafe extern "C-unwind" fn rsym_stdout_take(p: *mut u8, cap: u64) -> u64 {
    let room = ROOM.swap(u64::MAX, Relaxed);
    if room == u64::MAX {
        let _ = std::io::stdout().flush();
    }
    let f = unsafe { CAP.as_mut().unwrap() };
    f.seek(SeekFrom::Start(0)).unwrap();
    let mut v = vec![];
    f.read_to_end(&mut v).unwrap();
    f.set_len(0).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    assert!(v.len() <= cap as usize, "stdout larger than the harness allows");
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()) };
    v.len() as u64
}

#[allow(static_mut_refs)]
fn main() {
    use std::os::fd::FromRawFd;
    let path = std::env::args().nth(1).expect("replay file");
    let text = std::fs::read_to_string(&path).expect("replay file");
    let mut real = unsafe {
        let real = std::fs::File::from_raw_fd(dup(1));
        let m = memfd_create(c"out".as_ptr() as *const u8, 0);
        assert!(m >= 0);
        assert!(dup2(m, 1) == 1);
        CAP = Some(std::fs::File::from_raw_fd(m));
        real
    };
    thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }
    std::panic::set_hook(Box::new(|i| {
        let t = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        MSG.with(|m| *m.borrow_mut() = format!("{} at {}", t, l).replace('\n', " "));
    }));
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    for line in text.lines() {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (name, rest) = line.split_once(' ').expect("harness name");
        let (ins, obs) = rest.split_once(';').expect("inputs;observations");
        let f = rezharness::tables()
            .iter()
            .flat_map(|t| t.iter())
            .find(|x| x.0 == name)
            .unwrap_or_else(|| panic!("no harness {}", name))
            .1;
        ST.with(|s| *s.borrow_mut() = St { inputs: nums(ins), pos: 0, obs: vec![], cover: 0 });
        let r = std::panic::catch_unwind(|| f());
        ROOM.store(u64::MAX, Relaxed);
        let res = match r {
            Ok(()) => {
                let got = ST.with(|s| s.borrow().obs.clone());
                if obs == "-" {
                    "ok".to_string()
                } else {
                    let want = nums(obs);
                    if want == got {
                        "ok".to_string()
                    } else {
                        format!("diff want {:?} got {:?}", want, got)
                    }
                }
            }
            Err(e) => {
                if e.is::<Assume>() {
                    "assume".into()
                } else if e.is::<Exhausted>() {
                    "exhausted".into()
                } else if let Some(k) = e.downcast_ref::<Known>() {
                    format!("known {}", k.0)
                } else {
                    format!("panic {}", MSG.with(|m| m.borrow().clone()))
                }
            }
        };
        writeln!(real, "{}", res).unwrap();
        let _ = std::io::stdout().flush();
        unsafe {
            let f = CAP.as_mut().unwrap();
            let _ = f.set_len(0);
            let _ = f.seek(SeekFrom::Start(0));
        }
    }
}
