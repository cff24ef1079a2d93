//! The operating system as the code under test sees it. The interpreter calls os_NAME where the code
//! calls the external function NAME; the native replay defines NAME accordingly.
use super::sym::*;

pub struct World {
    /// SOURCE_DATE_EPOCH with a zero byte at its end
    pub epoch: Option<Vec<u8>>,
    pub random_fails: bool,
    pub drawn: Vec<u64>,
    pub random_asked: bool,
    pub clock_read: bool,
    /// random numbers are fixed
    pub fixed: bool,
    pub errno: i32,
}
impl World {
    pub const fn new() -> Self {
        World { epoch: None, random_fails: false, drawn: vec![], random_asked: false, clock_read: false, fixed: false, errno: 0 }
    }
}
struct Cell(std::cell::UnsafeCell<World>);
unsafe impl Sync for Cell {}
static WORLD: Cell = Cell(std::cell::UnsafeCell::new(World::new()));

#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD.0.get() }
}
/// byte number `i` drawn from the system's random number source so far, 256 if there is none
pub fn random(i: usize) -> u64 {
    world().drawn.get(i).copied().unwrap_or(256)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn os_getenv(name: *const u8) -> *const u8 {
    let want = b"SOURCE_DATE_EPOCH\0";
    for (i, b) in want.iter().enumerate() {
        if unsafe { *name.add(i) } != *b {
            return std::ptr::null();
        }
    }
    world().epoch.as_ref().map_or(std::ptr::null(), |v| v.as_ptr())
}
#[unsafe(no_mangle)]
pub unsafe extern "C-unwind" fn os_getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    // 16 bytes: keys of hash maps
    if n == 16 {
        for i in 0..n {
            unsafe { *p.add(i) = 0x5a };
        }
        return 16;
    }
    let w = world();
    if p.is_null() {
        return 0;
    }
    w.random_asked = true;
    if w.random_fails {
        w.errno = 5;
        return -1;
    }
    for i in 0..n {
        let b = if w.fixed { 0x31 + i as u64 } else { bits(8, "getrandom") };
        w.drawn.push(b);
        unsafe { *p.add(i) = b as u8 };
    }
    n as isize
}
#[unsafe(no_mangle)]
pub extern "C" fn os___errno_location() -> *mut i32 {
    &mut world().errno
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn os_clock_gettime(_clock: i32, t: *mut i64) -> i32 {
    world().clock_read = true;
    unsafe {
        *t = 1_700_000_000;
        *t.add(1) = 12345;
    }
    0
}
