//! Interface to the symbolic executor (or to the recorded inputs of a native replay).
#![allow(dead_code)]

unsafe extern "C-unwind" {
    fn sym_bits(w: u32, tag: *const u8, n: usize) -> u64;
    fn sym_param(i: u64) -> u64;
    fn sym_choice(k: u64, tag: *const u8, n: usize) -> u64;
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, id: *const u8, n: usize);
    fn sym_cover(id: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_args(argc: i32, argv: *const *const u8);
    fn sym_stop();
    fn sym_process_begin() -> u32;
    fn sym_process_end(p: *const u64, n: usize);
    fn sym_process_result(i: usize) -> u64;
    fn sym_memeq(p: *const u8, q: *const u8, n: usize) -> u32;
}

/// a fresh symbolic value of `w` bits
pub fn bits(w: u32, tag: &str) -> u64 {
    unsafe { sym_bits(w, tag.as_ptr(), tag.len()) }
}
/// bound number `i` of this run
pub fn param(i: usize) -> usize {
    unsafe { sym_param(i as u64) as usize }
}
/// one of 0..k, explored exhaustively
pub fn choice(k: usize, tag: &str) -> usize {
    unsafe { sym_choice(k as u64, tag.as_ptr(), tag.len()) as usize }
}
pub fn flip(tag: &str) -> bool {
    choice(2, tag) == 1
}
pub fn pick<T: Copy>(v: &[T], tag: &str) -> T {
    v[choice(v.len(), tag)]
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
pub fn check(c: bool, id: &str) {
    unsafe { sym_assert(c as u32, id.as_ptr(), id.len()) }
}
pub fn cover(id: &str) {
    unsafe { sym_cover(id.as_ptr(), id.len()) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_memeq(a.as_ptr(), b.as_ptr(), a.len()) != 0 }
}
pub fn observe_bytes(a: &[u8]) {
    observe(a.len() as u64);
    for b in a {
        observe(*b as u64);
    }
}
/// the arguments the program is called with
pub fn program_args(n: usize, argv: *const *const u8) {
    unsafe { sym_args(n as i32, argv) }
}
/// ends the run
pub fn stop() {
    unsafe { sym_stop() }
}
/// what `f` gives in another process, which begins in the state of this one but has other keys for
/// its hash maps, and whose end leaves this one as it is; `f` must not take inputs
pub fn other_process(f: impl FnOnce() -> Vec<u64>) -> Vec<u64> {
    let v = if unsafe { sym_process_begin() } == 1 {
        let v = f();
        unsafe { sym_process_end(v.as_ptr(), v.len()) };
        v
    } else {
        (0..unsafe { sym_process_result(0) } as usize).map(|i| unsafe { sym_process_result(1 + i) }).collect()
    };
    // every new state has other keys than the one before
    observe(std::hash::BuildHasher::hash_one(&std::hash::RandomState::new(), 0u8) & 0);
    v
}
pub fn sym_vec(n: usize, tag: &str) -> Vec<u8> {
    (0..n).map(|_| bits(8, tag) as u8).collect()
}

unsafe extern "C" {
    fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize;
}
/// makes the system's random number source known to the interpreter
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_refs() {
    unsafe { getrandom(std::ptr::null_mut(), 0, 0) };
}
