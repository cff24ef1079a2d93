//! Runs a harness entry natively on recorded inputs, against the real crates.
#[path = "../../harness/src/entries.rs"]
mod entries;

use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Default)]
struct Run {
    input: Vec<u64>,
    params: Vec<u64>,
    next: usize,
    obs: Vec<u64>,
    covers: Vec<String>,
    outcome: Option<String>,
    all_asserts: Vec<String>,
}
thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
}
struct Stop;
/// the file being run
static FILE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
fn stop(why: String) -> ! {
    RUN.with(|r| {
        r.borrow_mut().outcome.get_or_insert(why);
    });
    std::panic::resume_unwind(Box::new(Stop))
}
fn try_next() -> Option<u64> {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let v = r.input.get(r.next).copied();
        r.next += 1;
        v
    })
}
fn next() -> u64 {
    match try_next() {
        Some(v) => v,
        None => stop("inputs exhausted".into()),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_bits(w: u32, _t: *const u8, _n: usize) -> u64 {
    let v = next();
    if w == 64 { v } else { v & ((1u64 << w) - 1) }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_param(i: u64) -> u64 {
    RUN.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_choice(k: u64, _t: *const u8, _n: usize) -> u64 {
    let v = next();
    if v >= k {
        stop("choice out of range".into());
    }
    v
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_assume(c: u32) {
    if c == 0 {
        stop("assumed".into());
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_assert(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        let id = text(p, n);
        RUN.with(|r| r.borrow_mut().all_asserts.push(id));
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_cover(p: *const u8, n: usize) {
    let id = text(p, n);
    RUN.with(|r| r.borrow_mut().covers.push(id));
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_observe(v: u64) {
    RUN.with(|r| r.borrow_mut().obs.push(v));
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_memeq(p: *const u8, q: *const u8, n: usize) -> u32 {
    let (a, b) = unsafe { (std::slice::from_raw_parts(p, n), std::slice::from_raw_parts(q, n)) };
    (a == b) as u32
}

/// the other end of the pipe to the process that began this one
static CHILD: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
static RESULT: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(vec![]);
unsafe extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_process_begin() -> u32 {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0);
        let (r, w) = (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]));
        if pid == 0 {
            *CHILD.lock().unwrap() = Some(w);
            return 1;
        }
        drop(w);
        let mut b = vec![];
        let mut r = r;
        let _ = r.read_to_end(&mut b);
        waitpid(pid, std::ptr::null_mut(), 0);
        *RESULT.lock().unwrap() = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap_or([0; 8]))).collect();
    }
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_process_end(p: *const u64, n: usize) {
    use std::io::Write;
    let v = unsafe { std::slice::from_raw_parts(p, n) };
    let b: Vec<u8> = v.iter().flat_map(|v| v.to_le_bytes()).collect();
    let _ = CHILD.lock().unwrap().as_mut().unwrap().write_all(&b);
    unsafe { _exit(0) }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_process_result(i: usize) -> u64 {
    let r = RESULT.lock().unwrap();
    if i == 0 { r.len() as u64 } else { r[i - 1] }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[cfg(not(feature = "cli"))]
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_args(_argc: i32, _argv: *const *const u8) {}
#[cfg(not(feature = "cli"))]
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_stop() {}
#[cfg(feature = "cli")]
mod cli;

fn main() {
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap();
    h.join().unwrap();
}

fn run() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        RUN.with(|r| {
            if let Ok(mut r) = r.try_borrow_mut() {
                r.outcome.get_or_insert(format!("panic:{loc}: {msg}"));
            }
        });
    }));
    let entries = entries::ENTRIES;
    #[cfg(feature = "cli")]
    let args = cli::recalled().map_or_else(|| std::env::args().skip(1).collect(), |f| vec![f]);
    #[cfg(not(feature = "cli"))]
    let args: Vec<String> = std::env::args().skip(1).collect();
    for f in args.clone() {
        let txt = std::fs::read_to_string(&f).unwrap();
        let mut run = Run::default();
        let mut name = String::new();
        for l in txt.lines() {
            let p: Vec<&str> = l.split_whitespace().collect();
            match p.first() {
                Some(&"entry") => name = p[1].to_string(),
                Some(&"params") => run.params = p[1..].iter().map(|x| x.parse().unwrap()).collect(),
                Some(&"in") => run.input.push(p[1].parse().unwrap()),
                _ => {}
            }
        }
        if (name == "h_ogg_epoch" || name.starts_with("h_cli")) && args.len() > 1 {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(&f).output().unwrap();
            print!("{}", String::from_utf8_lossy(&o.stdout));
            continue;
        }
        *entries::os::world() = entries::os::World::new();
        RUN.with(|r| *r.borrow_mut() = run);
        *FILE.lock().unwrap() = f.clone();
        let e = entries.iter().find(|e| e.0 == name);
        match e {
            None => println!("{{\"file\":{},\"result\":\"no such entry\"}}", esc(&f)),
            Some((_, g)) => {
                let r = catch_unwind(AssertUnwindSafe(|| g()));
                if CHILD.lock().unwrap().is_some() {
                    unsafe { _exit(1) }
                }
                print!("{}", report(&f, r.is_ok()));
            }
        }
    }
}
fn report(f: &str, returned: bool) -> String {
                RUN.with(|x| {
                    let x = x.borrow();
                    let mut res = match (&x.outcome, returned) {
                        (Some(o), _) => o.clone(),
                        (None, true) => "ok".into(),
                        (None, false) => "panic:?".into(),
                    };
                    if !x.all_asserts.is_empty() {
                        res = format!("assert:{}", x.all_asserts[0]);
                    }
                    let aa: Vec<String> = x.all_asserts.iter().map(|s| esc(s)).collect();
                    let obs: Vec<String> = x.obs.iter().map(|v| v.to_string()).collect();
                    format!(
                        "{{\"file\":{},\"result\":{},\"asserts\":[{}],\"outcome\":{},\"used\":{},\"given\":{},\"obs\":[{}]}}\n",
                        esc(f),
                        esc(&res),
                        aa.join(","),
                        x.outcome.as_ref().map_or("null".into(), |s| esc(s)),
                        x.next,
                        x.input.len(),
                        obs.join(",")
                    )
                })
}

/// stand-ins for the operating system, as in the encoding
#[unsafe(no_mangle)]
pub unsafe extern "C-unwind" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    let r = unsafe { entries::os::os_getrandom(p, n, flags) };
    if r < 0 {
        unsafe { *__errno_location() = entries::os::world().errno };
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    unsafe { entries::os::os_getenv(name) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut i64) -> i32 {
    unsafe { entries::os::os_clock_gettime(clock, t) }
}
unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}
