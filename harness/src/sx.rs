//! The vocabulary of the symbolic executor (see /verif/engine).  Under the
//! executor these calls create symbolic values, fork, assume and assert; in the
//! native replay binary they read a recorded model instead.
#![allow(dead_code)]

extern "C" {
    fn symex_u8(name: *const u8, len: usize) -> u8;
    fn symex_oneof(name: *const u8, len: usize, set: *const u8, n: usize) -> u8;
    fn symex_choose(name: *const u8, len: usize, n: u32) -> u32;
    fn symex_slot(name: *const u8, len: usize, t: *const u8, n: usize, w: usize, out: *mut u8) -> u8;
    fn symex_assume(c: bool);
    fn symex_check(c: bool, msg: *const u8, len: usize);
    fn symex_reach(label: *const u8, len: usize);
    fn symex_param(name: *const u8, len: usize, default: u64) -> u64;
    fn symex_concrete(p: *const u8, n: usize);
    fn symex_note(name: *const u8, len: usize, p: *const u8, n: usize);
    fn symex_end();
    fn symex_hash_seed(s: u64);
    fn symex_fs_root(buf: *mut u8) -> usize;
    fn symex_fs_add(path: *const u8, len: usize, p: *const u8, n: usize);
    fn symex_fs_del(path: *const u8, len: usize);
    fn symex_fs_mkdir(path: *const u8, len: usize);
    fn symex_args(p: *const u8, n: usize);
    fn symex_output(fd: i32, buf: *mut u8, cap: usize) -> usize;
}

/// An unconstrained symbolic byte.
pub fn u8(name: &str) -> u8 {
    unsafe { symex_u8(name.as_ptr(), name.len()) }
}
/// A symbolic byte out of `set`.
pub fn oneof(name: &str, set: &[u8]) -> u8 {
    unsafe { symex_oneof(name.as_ptr(), name.len(), set.as_ptr(), set.len()) }
}
/// Appends a symbolic choice among `rows`, each padded with blanks to width `w`, and returns
/// the (symbolic) index: one solver variable, no fork.
pub fn slot(name: &str, rows: &[&str], w: usize, out: &mut Vec<u8>) -> u8 {
    let mut t = Vec::with_capacity(rows.len() * w);
    for r in rows {
        assert!(r.len() <= w, "row too long");
        t.extend_from_slice(r.as_bytes());
        for _ in r.len()..w {
            t.push(b' ');
        }
    }
    let n = out.len();
    out.resize(n + w, 0);
    unsafe { symex_slot(name.as_ptr(), name.len(), t.as_ptr(), rows.len(), w, out[n..].as_mut_ptr()) }
}
/// Forks into `n` paths; returns 0..n.
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { symex_choose(name.as_ptr(), name.len(), n as u32) as usize }
}
pub fn flip(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn assume(c: bool) {
    unsafe { symex_assume(c) }
}
/// The assertion decided by the solver.
pub fn check(c: bool, msg: &str) {
    unsafe { symex_check(c, msg.as_ptr(), msg.len()) }
}
/// Non-vacuity witness; the runner requires every declared label to be reached.
pub fn reach(label: &str) {
    unsafe { symex_reach(label.as_ptr(), label.len()) }
}
pub fn param(name: &str, default: u64) -> u64 {
    unsafe { symex_param(name.as_ptr(), name.len(), default) }
}
pub fn concrete(b: &[u8]) {
    unsafe { symex_concrete(b.as_ptr(), b.len()) }
}
/// Attaches data to a violation report of this path.
pub fn note(name: &str, b: &[u8]) {
    unsafe { symex_note(name.as_ptr(), name.len(), b.as_ptr(), b.len()) }
}
/// Ends the path silently.
pub fn end() -> ! {
    unsafe { symex_end() }
    loop {}
}
/// Seed used for the keys of the hash maps created from here on.
pub fn hash_seed(s: u64) {
    unsafe { symex_hash_seed(s) }
}
/// The directory in which `fs_add` places files.
pub fn fs_root() -> String {
    let mut buf = [0u8; 512];
    let n = unsafe { symex_fs_root(buf.as_mut_ptr()) };
    String::from_utf8(buf[..n].to_vec()).unwrap()
}
pub fn fs_add(path: &str, text: &[u8]) {
    unsafe { symex_fs_add(path.as_ptr(), path.len(), text.as_ptr(), text.len()) }
}
pub fn fs_del(path: &str) {
    unsafe { symex_fs_del(path.as_ptr(), path.len()) }
}
pub fn fs_mkdir(path: &str) {
    unsafe { symex_fs_mkdir(path.as_ptr(), path.len()) }
}
/// What was written to a file descriptor so far.
pub fn output(fd: i32) -> Vec<u8> {
    let mut v = vec![0u8; 1 << 16];
    let n = unsafe { symex_output(fd, v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    v
}
/// Sets the command line (native: runs the process again with it).
pub fn args(a: &[String]) {
    let mut v = vec![];
    for s in a {
        v.extend_from_slice(s.as_bytes());
        v.push(0);
    }
    unsafe { symex_args(v.as_ptr(), v.len()) }
}
