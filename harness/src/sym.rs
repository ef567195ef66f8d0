//! The harness side of the symbolic executor's interface. Natively the same
//! functions read the recorded inputs (native.rs).

unsafe extern "C-unwind" {
    fn rsym_bits(width: u64) -> u64;
    fn rsym_bytes(p: *mut u8, n: u64);
    fn rsym_choose(n: u64) -> u64;
    fn rsym_concretize(v: u64) -> u64;
    fn rsym_assume(c: bool);
    fn rsym_cover(id: u64);
    fn rsym_observe(v: u64);
    fn rsym_known(id: u64);
    fn rsym_split(on: bool);
    fn rsym_direct(on: bool);
    fn rsym_stdout_room(n: u64, errno: u64);
    fn rsym_stdout_take(p: *mut u8, cap: u64) -> u64;
}

/// An arbitrary value of `width` bits.
pub fn bits(width: u32) -> u64 {
    unsafe { rsym_bits(width as u64) }
}
pub fn bit() -> bool {
    bits(1) == 1
}
pub fn byte() -> u8 {
    bits(8) as u8
}
pub fn u16() -> u16 {
    bits(16) as u16
}
/// n arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { rsym_bytes(v.as_mut_ptr(), n as u64) };
    }
    v
}
pub fn fill(v: &mut [u8]) {
    if !v.is_empty() {
        unsafe { rsym_bytes(v.as_mut_ptr(), v.len() as u64) };
    }
}
/// Any of 0..n, each explored on a path of its own.
pub fn choose(n: usize) -> usize {
    unsafe { rsym_choose(n as u64) as usize }
}
/// Split into one path per feasible value.
pub fn each(v: u64) -> u64 {
    unsafe { rsym_concretize(v) }
}
/// The same, one bit at a time, where there are many values.
pub fn each_bit(v: u64, width: u32) -> u64 {
    let mut r = 0;
    for i in 0..width {
        r |= each((v >> i) & 1) << i;
    }
    r
}
pub fn assume(c: bool) {
    unsafe { rsym_assume(c) }
}
/// An arbitrary value with lo <= v <= hi.
pub fn range(lo: u64, hi: u64) -> u64 {
    let w = 64 - hi.leading_zeros();
    let v = bits(w.max(1));
    assume(v >= lo && v <= hi);
    v
}
pub fn cover(id: u64) {
    unsafe { rsym_cover(id) }
}
pub fn observe(v: u64) {
    unsafe { rsym_observe(v) }
}
pub fn observe_bytes(v: &[u8]) {
    observe(v.len() as u64);
    // two folds, cheap for the solver: nothing branches on them
    for c in v.chunks(8) {
        let mut x = 0u64;
        for (i, b) in c.iter().enumerate() {
            x |= (*b as u64) << (8 * i);
        }
        observe(x);
    }
}
/// From now on, a load that may yield one of a few constants splits the path
/// by which one it is.
pub fn split() {
    unsafe { rsym_split(true) }
}
/// From now on, what is written to a locked standard output counts at once,
/// without following its line buffering (one path per newline in free data).
pub fn direct_stdout() {
    unsafe { rsym_direct(true) }
}
/// Standard output takes n more bytes, then every write to it fails with the
/// given error number.
pub fn stdout_room(n: usize, errno: usize) {
    unsafe { rsym_stdout_room(n as u64, errno as u64) }
}
/// This path is a listed finding: record it and stop here.
pub fn known(id: u64) {
    unsafe { rsym_known(id) }
}
/// Everything written to standard output since the last call.
pub fn stdout(cap: usize) -> Vec<u8> {
    let mut v = vec![0u8; cap];
    let n = unsafe { rsym_stdout_take(v.as_mut_ptr(), cap as u64) } as usize;
    v.truncate(n);
    v
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[unsafe(no_mangle)] pub extern "C-unwind" fn $name() $body )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name as extern "C-unwind" fn()) ),* ];
    };
}
