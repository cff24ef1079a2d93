//! What the command-line program needs: its arguments, and the functions of the system it calls.
use crate::entries::{e_cli::*, os::world};
use crate::{FILE, report};
use std::ffi::{CStr, OsStr};
use std::os::unix::{ffi::OsStrExt, process::CommandExt};

unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn _exit(code: i32) -> !;
}
const MARK: &str = "VHARNESS_RUN";

/// the file to run, if this process was started with the arguments of the program under test
pub fn recalled() -> Option<String> {
    std::env::vars().find(|v| v.0 == MARK).map(|v| v.1)
}
#[unsafe(no_mangle)]
pub unsafe extern "C-unwind" fn sym_args(argc: i32, argv: *const *const u8) {
    if recalled().is_some() {
        return;
    }
    let args: Vec<&OsStr> = (1..argc as usize).map(|i| OsStr::from_bytes(unsafe { CStr::from_ptr((*argv.add(i)).cast()) }.to_bytes())).collect();
    let e = std::process::Command::new(std::env::current_exe().unwrap()).arg0("optivorbis").args(args).env(MARK, &*FILE.lock().unwrap()).exec();
    panic!("{e}");
}
#[unsafe(no_mangle)]
pub unsafe extern "C-unwind" fn sym_stop() {
    let s = report(&FILE.lock().unwrap(), true);
    unsafe {
        syscall(1, 1i64, s.as_ptr(), s.len());
        _exit(0)
    }
}

macro_rules! stand_in {
    ($name:ident($($a:ident: $t:ty),*) -> $r:ty, $model:ident, $number:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            #[allow(unused_unsafe)]
            unsafe {
                if files().on {
                    let r = $model($($a),*);
                    if r < 0 {
                        *__errno_location() = world().errno;
                    }
                    return r;
                }
                syscall($number, $($a),*) as $r
            }
        }
    };
}
stand_in!(open64(p: *const u8, flags: i32, mode: u32) -> i32, os_open64, 2);
stand_in!(read(fd: i32, p: *mut u8, n: usize) -> isize, os_read, 0);
stand_in!(lseek64(fd: i32, to: i64, how: i32) -> i64, os_lseek64, 8);
stand_in!(write(fd: i32, p: *const u8, n: usize) -> isize, os_write, 1);
stand_in!(close(fd: i32) -> i32, os_close, 3);
#[unsafe(no_mangle)]
pub extern "C" fn isatty(_fd: i32) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if files().on {
        os_exit(code);
    }
    unsafe { _exit(code) }
}
