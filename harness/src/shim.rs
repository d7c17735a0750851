//! Stand-ins for the C library's file calls, linked into the recorder in front of the real ones.
//! They let a history decide when a background thread may touch the store's directory and at which
//! file-changing call the process is killed, and which calls fail. Calls on other paths pass straight through.
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn usleep(us: c_uint) -> c_int;
    fn __errno_location() -> *mut c_int;
}
const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_PWRITE: c_long = 18;
const SYS_WRITEV: c_long = 20;
const SYS_GETPID: c_long = 39;
const SYS_KILL: c_long = 62;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_RMDIR: c_long = 84;
const SYS_UNLINK: c_long = 87;
const SYS_GETTID: c_long = 186;
const SYS_OPENAT: c_long = 257;
const SYS_UNLINKAT: c_long = 263;
const AT_FDCWD: c_int = -100;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;
const O_ACCMODE: c_int = 3;

static ARMED: AtomicBool = AtomicBool::new(false);
static MAIN: AtomicI64 = AtomicI64::new(0);
static HOLD: AtomicBool = AtomicBool::new(false);
static PERMITS: AtomicI64 = AtomicI64::new(0);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static KILL_AT: AtomicU64 = AtomicU64::new(0);
static JITTER: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(88172645463325252);
const NFD: usize = 4096;
const Z: AtomicU8 = AtomicU8::new(0);
static MARK: [AtomicU8; NFD] = [Z; NFD];
static TRACING: AtomicBool = AtomicBool::new(false);
static TOUCHED: Mutex<Vec<String>> = Mutex::new(Vec::new());
// kinds of calls that can be made to fail
const F_MKDIR: u64 = 1;
const F_CREATE: u64 = 2;
const F_TABLE: u64 = 4;
const F_META: u64 = 8;
const F_TIME: u64 = 16;
const F_REMOVE: u64 = 32;
const F_READ: u64 = 64;
static F_KINDS: AtomicU64 = AtomicU64::new(0);
static F_WHO: AtomicU64 = AtomicU64::new(0);
static F_SKIP: AtomicI64 = AtomicI64::new(0);
static F_LEFT: AtomicI64 = AtomicI64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
const MARKER: &[u8] = b"/lsmdb-";

/// Starts controlling the calls of this process; the calling thread is the foreground.
pub fn arm(kill_at: u64, jitter: u64) {
    MAIN.store(unsafe { syscall(SYS_GETTID) } as i64, SeqCst);
    COUNT.store(0, SeqCst);
    KILL_AT.store(kill_at, SeqCst);
    JITTER.store(jitter, SeqCst);
    ARMED.store(true, SeqCst);
}
pub fn disarm() {
    ARMED.store(false, SeqCst);
    HOLD.store(false, SeqCst);
}
pub fn count() -> u64 {
    COUNT.load(SeqCst)
}
/// Background threads stop before their next file-changing call.
pub fn hold() {
    PERMITS.store(0, SeqCst);
    HOLD.store(true, SeqCst);
}
pub fn release() {
    HOLD.store(false, SeqCst);
}
/// Background threads may make `n` more file-changing calls.
pub fn permit(n: i64) {
    PERMITS.fetch_add(n, SeqCst);
}
/// The foreground has finished an operation.
pub fn progress() {
    PROGRESS.fetch_add(1, SeqCst);
}
pub fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}
/// Waits until no background thread is left (or a limit passes).
pub fn quiesce() {
    for i in 0..20_000 {
        if threads() <= 1 {
            return;
        }
        unsafe { usleep(if i < 50 { 20 } else { 200 }) };
    }
}

/// Which files of the store are opened from now on.
pub fn trace() {
    TOUCHED.lock().unwrap().clear();
    TRACING.store(true, SeqCst);
}
pub fn traced() -> Vec<String> {
    TRACING.store(false, SeqCst);
    std::mem::replace(&mut *TOUCHED.lock().unwrap(), Vec::new())
}

/// From now on, calls of these kinds made by the foreground (1), the background (2) or both (3) fail:
/// `n` of them, after the next `skip`.
pub fn fail(kinds: u64, who: u64, skip: i64, n: i64) {
    F_LEFT.store(0, SeqCst);
    F_KINDS.store(kinds, SeqCst);
    F_WHO.store(who, SeqCst);
    F_SKIP.store(skip, SeqCst);
    F_LEFT.store(n, SeqCst);
}
pub fn heal() {
    F_LEFT.store(0, SeqCst);
}
/// Keeps the calls made by `f` from failing.
pub fn spared<R, F: FnOnce() -> R>(f: F) -> R {
    let n = F_LEFT.swap(0, SeqCst);
    let r = f();
    F_LEFT.store(n, SeqCst);
    r
}
/// Calls may still be made to fail.
pub fn failing() -> bool {
    F_LEFT.load(SeqCst) > 0
}
/// How many calls have failed so far.
pub fn fired() -> u64 {
    FIRED.load(SeqCst)
}
fn fails(kind: u64) -> bool {
    if F_LEFT.load(SeqCst) <= 0 || !ARMED.load(SeqCst) || F_KINDS.load(SeqCst) & kind == 0 {
        return false;
    }
    let who = if unsafe { syscall(SYS_GETTID) } as i64 == MAIN.load(SeqCst) { 1 } else { 2 };
    if F_WHO.load(SeqCst) & who == 0 || F_SKIP.fetch_sub(1, SeqCst) > 0 || F_LEFT.fetch_sub(1, SeqCst) <= 0 {
        return false;
    }
    FIRED.fetch_add(1, SeqCst);
    unsafe { *__errno_location() = if kind & (F_REMOVE | F_READ) != 0 { 5 } else { 28 } };
    true
}
fn kind_of(fd: c_int) -> u64 {
    match MARK[fd as usize].load(SeqCst) {
        2 => F_META,
        3 => F_TIME,
        _ => F_TABLE,
    }
}

fn gate() {
    if !ARMED.load(SeqCst) {
        return;
    }
    let me = unsafe { syscall(SYS_GETTID) } as i64;
    if me != MAIN.load(SeqCst) {
        let mut seen = PROGRESS.load(SeqCst);
        let mut idle = 0;
        while HOLD.load(SeqCst) {
            let p = PERMITS.load(SeqCst);
            if p > 0 {
                if PERMITS.compare_exchange(p, p - 1, SeqCst, SeqCst).is_ok() {
                    break;
                }
                continue;
            }
            unsafe { usleep(40) };
            let now = PROGRESS.load(SeqCst);
            if now != seen {
                seen = now;
                idle = 0;
            } else {
                idle += 1;
                // the foreground is waiting for this thread by some means not seen here
                if idle > 500 {
                    break;
                }
            }
        }
        let j = JITTER.load(SeqCst);
        if j > 0 {
            let s = SEED.load(SeqCst).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            SEED.store(s, SeqCst);
            if (s >> 33) % 3 == 0 {
                unsafe { usleep(((s >> 40) % j) as c_uint) };
            }
        }
    }
    let n = COUNT.fetch_add(1, SeqCst) + 1;
    if n == KILL_AT.load(SeqCst) {
        unsafe {
            let pid = syscall(SYS_GETPID);
            syscall(SYS_KILL, pid, 9 as c_long);
            loop {
                usleep(1000);
            }
        }
    }
}

unsafe fn marked_path(p: *const c_char) -> bool {
    if !ARMED.load(SeqCst) {
        return false;
    }
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    let b = std::slice::from_raw_parts(p as *const u8, n);
    b.windows(MARKER.len()).any(|w| w == MARKER)
}
unsafe fn class(p: *const c_char) -> u8 {
    let b = CStr::from_ptr(p).to_bytes();
    if b.ends_with(b"/metadata.dat") {
        2
    } else if b.ends_with(b"/logical_time.dat") {
        3
    } else {
        1
    }
}
fn marked_fd(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < NFD && MARK[fd as usize].load(SeqCst) != 0
}
fn set_mark(fd: c_int, class: u8) {
    if fd >= 0 && (fd as usize) < NFD {
        MARK[fd as usize].store(class, SeqCst);
    }
}
unsafe fn at(dirfd: c_int, p: *const c_char) -> bool {
    marked_path(p) || (*p != b'/' as c_char && dirfd != AT_FDCWD && marked_fd(dirfd))
}
unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let mine = at(dirfd, p);
    if mine && (flags & (O_CREAT | O_TRUNC) != 0) {
        gate();
    }
    if mine && fails(if flags & (O_CREAT | O_TRUNC) != 0 { F_CREATE } else { F_READ }) {
        return -1;
    }
    if mine && TRACING.load(SeqCst) {
        TOUCHED.lock().unwrap().push(CStr::from_ptr(p).to_string_lossy().into_owned());
    }
    let fd = syscall(SYS_OPENAT, dirfd as c_long, p, flags as c_long, mode as c_long) as c_int;
    let on = mine && (flags & O_ACCMODE != 0 || flags & O_CREAT == 0);
    set_mark(fd, if on { class(p) } else { 0 });
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    set_mark(fd, 0);
    syscall(SYS_CLOSE, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if marked_fd(fd) && fails(F_READ) {
        return -1;
    }
    syscall(SYS_READ, fd as c_long, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if marked_fd(fd) {
        gate();
        if fails(kind_of(fd)) {
            return -1;
        }
    }
    syscall(SYS_WRITE, fd as c_long, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
    if marked_fd(fd) {
        gate();
        if fails(kind_of(fd)) {
            return -1;
        }
    }
    syscall(SYS_PWRITE, fd as c_long, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    if marked_fd(fd) {
        gate();
        if fails(kind_of(fd)) {
            return -1;
        }
    }
    syscall(SYS_WRITEV, fd as c_long, v, n as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if marked_fd(fd) {
        gate();
        if fails(kind_of(fd)) {
            return -1;
        }
    }
    syscall(SYS_FTRUNCATE, fd as c_long, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    if marked_path(p) {
        gate();
        if fails(F_MKDIR) {
            return -1;
        }
    }
    syscall(SYS_MKDIR, p, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if marked_path(p) {
        gate();
        if fails(F_REMOVE) {
            return -1;
        }
    }
    syscall(SYS_RMDIR, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if marked_path(p) {
        gate();
        if fails(F_REMOVE) {
            return -1;
        }
    }
    syscall(SYS_UNLINK, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if at(d, p) {
        gate();
        if fails(F_REMOVE) {
            return -1;
        }
    }
    syscall(SYS_UNLINKAT, d as c_long, p, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if marked_path(a) || marked_path(b) {
        gate();
    }
    syscall(SYS_RENAME, a, b) as c_int
}
/// Whoever waits for a background thread lets it run.
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, r: *mut *mut c_void) -> c_int {
    static REAL: AtomicU64 = AtomicU64::new(0);
    let mut f = REAL.load(SeqCst);
    if f == 0 {
        f = dlsym(-1isize as *mut c_void, b"pthread_join\0".as_ptr() as *const c_char) as u64;
        REAL.store(f, SeqCst);
    }
    if ARMED.load(SeqCst) {
        release();
    }
    let f: extern "C" fn(usize, *mut *mut c_void) -> c_int = std::mem::transmute(f as usize);
    f(t, r)
}
