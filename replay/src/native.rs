//! Native definitions of the harness interface.
//!
//! usage: replay OUT ROOT ENTRY HEXMODEL [name=value ...]
//! OUT receives one line per event; ROOT is an empty scratch directory.
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

struct St {
    model: Vec<u8>,
    pos: usize,
    params: Vec<(String, u64)>,
    log: Option<File>,
    root: String,
    out: Option<File>,
    err: Option<File>,
    done: bool,
}
static ST: Mutex<St> = Mutex::new(St {
    model: Vec::new(),
    pos: 0,
    params: Vec::new(),
    log: None,
    root: String::new(),
    out: None,
    err: None,
    done: false,
});
static SEED: AtomicU64 = AtomicU64::new(0);

fn st() -> std::sync::MutexGuard<'static, St> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}
fn log(s: &str) {
    let mut g = st();
    if let Some(f) = &mut g.log {
        let _ = f.write_all(s.replace('\\', "\\\\").replace('\n', "\\n").as_bytes());
        let _ = f.write_all(b"\n");
    }
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
unsafe fn ss(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(sl(p, n)).into_owned()
}
fn finish(what: &str) -> ! {
    log(what);
    st().done = true;
    unsafe { _exit(0) }
}
fn next() -> u8 {
    let mut g = st();
    let i = g.pos;
    g.pos += 1;
    match g.model.get(i) {
        Some(b) => *b,
        None => {
            drop(g);
            finish("UNDERRUN")
        }
    }
}

extern "C" {
    fn _exit(c: c_int) -> !;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn on_exit(f: extern "C" fn(c_int, *mut c_void), a: *mut c_void) -> c_int;
    fn syscall(n: i64, ...) -> i64;
}

#[no_mangle]
unsafe extern "C" fn symex_u8(_: *const u8, _: usize) -> u8 {
    next()
}
#[no_mangle]
unsafe extern "C" fn symex_oneof(_: *const u8, _: usize, set: *const u8, n: usize) -> u8 {
    let b = next();
    if !sl(set, n).contains(&b) {
        finish("BADMODEL");
    }
    b
}
#[no_mangle]
unsafe extern "C" fn symex_choose(_: *const u8, _: usize, n: u32) -> u32 {
    let b = next() as u32;
    if b >= n {
        finish("BADMODEL");
    }
    b
}
#[no_mangle]
unsafe extern "C" fn symex_slot(_: *const u8, _: usize, t: *const u8, n: usize, w: usize, out: *mut u8) -> u8 {
    let b = next() as usize;
    if b >= n {
        finish("BADMODEL");
    }
    std::ptr::copy_nonoverlapping(t.add(b * w), out, w);
    b as u8
}
#[no_mangle]
extern "C" fn symex_assume(c: bool) {
    if !c {
        finish("ASSUME");
    }
}
#[no_mangle]
unsafe extern "C" fn symex_check(c: bool, p: *const u8, n: usize) {
    if !c {
        log(&format!("FAIL {}", ss(p, n)));
    }
}
#[no_mangle]
unsafe extern "C" fn symex_reach(p: *const u8, n: usize) {
    log(&format!("REACH {}", ss(p, n)));
}
#[no_mangle]
unsafe extern "C" fn symex_param(p: *const u8, n: usize, d: u64) -> u64 {
    let k = ss(p, n);
    st().params.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(d)
}
#[no_mangle]
unsafe extern "C" fn symex_concrete(_: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C" fn symex_note(p: *const u8, n: usize, q: *const u8, m: usize) {
    log(&format!("NOTE {} {}", ss(p, n), ss(q, m)));
}
#[no_mangle]
extern "C" fn symex_end() {
    finish("END");
}
#[no_mangle]
extern "C" fn symex_hash_seed(s: u64) {
    SEED.store(s, Ordering::Relaxed);
}
/// Interposes the libc function std takes the hash keys from: same keys as in the executor.
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    let s = SEED.load(Ordering::Relaxed);
    let mut x = s.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x1234_5678_9abc_def1);
    for i in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *p.add(i) = ((x >> 24) & 255) as u8;
    }
    n as isize
}
#[no_mangle]
unsafe extern "C" fn symex_fs_root(buf: *mut u8) -> usize {
    let r = st().root.clone();
    std::ptr::copy_nonoverlapping(r.as_ptr(), buf, r.len());
    r.len()
}
/// only paths below the scratch root are ever touched
fn inside(p: &str) -> String {
    let r = st().root.clone();
    let ok = p.starts_with(&r) && !p.split('/').any(|c| c == "..");
    if !ok {
        finish("BADPATH");
    }
    p.to_string()
}
#[no_mangle]
unsafe extern "C" fn symex_fs_add(p: *const u8, n: usize, q: *const u8, m: usize) {
    let p = inside(&ss(p, n));
    if let Some(d) = std::path::Path::new(&p).parent() {
        std::fs::create_dir_all(d).expect("mkdir");
    }
    std::fs::write(&p, sl(q, m)).expect("write");
}
#[no_mangle]
unsafe extern "C" fn symex_fs_del(p: *const u8, n: usize) {
    let p = inside(&ss(p, n));
    let _ = std::fs::remove_file(p);
}
#[no_mangle]
unsafe extern "C" fn symex_fs_mkdir(p: *const u8, n: usize) {
    std::fs::create_dir_all(inside(&ss(p, n))).expect("mkdir");
}
#[no_mangle]
unsafe extern "C" fn symex_output(fd: c_int, buf: *mut u8, cap: usize) -> usize {
    let _ = std::io::stdout().flush();
    let mut g = st();
    let f = if fd == 1 { g.out.as_mut() } else { g.err.as_mut() };
    let mut v = vec![];
    if let Some(f) = f {
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.read_to_end(&mut v);
    }
    let k = v.len().min(cap);
    std::ptr::copy_nonoverlapping(v.as_ptr(), buf, k);
    v.len()
}

/// runs this program again with the given command line; the second run goes on from here
#[no_mangle]
unsafe extern "C" fn symex_args(p: *const u8, n: usize) {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::process::CommandExt;
    if std::env::var_os("GV_RUN").is_some() {
        return;
    }
    let me: Vec<String> = std::env::args().skip(1).collect();
    let mut args = sl(p, n).split(|b| *b == 0).map(std::ffi::OsStr::from_bytes);
    let mut c = std::process::Command::new("/proc/self/exe");
    c.arg0(args.next().unwrap());
    let mut rest: Vec<_> = args.collect();
    rest.pop();
    c.args(rest);
    c.env("GV_RUN", me.join("\n"));
    let e = c.exec();
    panic!("exec: {e}");
}

static mut ON_EXIT: Option<fn(i32)> = None;
extern "C" fn exited(code: c_int, _: *mut c_void) {
    if st().done {
        return;
    }
    unsafe {
        let f = std::ptr::addr_of!(ON_EXIT).read();
        if let Some(f) = f {
            if std::panic::catch_unwind(|| f(code)).is_err() {
                finish("END")
            }
        }
    }
    finish("END")
}
#[allow(dead_code)]
pub fn set_on_exit(f: fn(i32)) {
    unsafe { ON_EXIT = Some(f) }
}

pub fn main(entries: &[(&str, fn())]) {
    let _ = syscall as usize;
    let a: Vec<String> = match std::env::var("GV_RUN") {
        Ok(v) => std::iter::once(String::new()).chain(v.split('\n').map(|s| s.to_string())).collect(),
        Err(_) => std::env::args().collect(),
    };
    let (out, root, entry, hex) = (&a[1], &a[2], &a[3], &a[4]);
    {
        let mut g = st();
        g.log = Some(File::create(out).expect("out"));
        g.root = root.clone() + "/w";
        std::fs::create_dir_all(&g.root).expect("root");
        g.model = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        g.params = a[5..].iter().map(|p| p.split_once('=').unwrap()).map(|(k, v)| (k.to_string(), v.parse().unwrap())).collect();
        for fd in [1, 2] {
            use std::os::fd::AsRawFd;
            let p = format!("{root}/fd{fd}");
            let f = File::options().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
            unsafe { dup2(f.as_raw_fd(), fd) };
            let f = File::open(&p).unwrap();
            if fd == 1 {
                g.out = Some(f)
            } else {
                g.err = Some(f)
            }
        }
        std::env::set_current_dir(&g.root).unwrap();
    }
    unsafe { on_exit(exited, std::ptr::null_mut()) };
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        log(&format!("PANIC {} {}", i.location().map(|l| l.to_string()).unwrap_or_default(), m));
    }));
    let f = entries.iter().find(|e| e.0 == entry.as_str()).expect("no such entry").1;
    let r = std::panic::catch_unwind(f);
    if r.is_err() {
        finish("PANICKED");
    }
    finish("END")
}
