//! Everything that keeps one call of the code under test observable and containable:
//! panic capture, per-thread memory accounting with a hard cap, a watchdog for hangs,
//! control of the hash seed, and the shared slots from which the supervisor learns
//! what a worker was doing when its process died.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub struct CountingAlloc;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(HARD_CAP) };
    static SEED: Cell<u64> = const { Cell::new(1) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// A single call may not hold more than this; beyond it the allocator refuses.
const HARD_CAP: isize = 1 << 30;

/// More for inputs of this length, where that is what a small multiple of it takes.
pub fn allow_for(len: usize) {
    CAP.with(|c| c.set(HARD_CAP.max(len as isize * 256)));
}

#[inline]
fn add(n: isize) -> bool {
    TRACK.with(|t| {
        if !t.get() {
            return true;
        }
        LIVE.with(|l| {
            let v = l.get() + n;
            if n > 0 && v > CAP.with(|c| c.get()) {
                return false;
            }
            l.set(v);
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            true
        })
    })
}

/// Arenas lie at fixed addresses, so that telling them from the rest reads no shared memory. A thread
/// that has one takes its memory from it and never gives any back.
pub const ARENA_BASE: usize = 0x6000_0000_0000;
pub const ARENA_SIZE: usize = 256 << 20;
pub const ARENAS: usize = 8;

thread_local! {
    static ARENA: Cell<usize> = const { Cell::new(0) };
    static ARENA_END: Cell<usize> = const { Cell::new(0) };
}

/// From here on this thread allocates from arena n.
pub fn use_arena(n: usize) -> (usize, usize) {
    let base = ARENA_BASE + n * ARENA_SIZE;
    let p = unsafe {
        libc::mmap(
            base as *mut _,
            ARENA_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    assert_eq!(p as usize, base, "arena");
    ARENA.with(|a| a.set(base));
    ARENA_END.with(|a| a.set(base + ARENA_SIZE));
    (base, base + ARENA_SIZE)
}

#[inline]
fn in_arena(p: usize) -> bool {
    (ARENA_BASE..ARENA_BASE + ARENAS * ARENA_SIZE).contains(&p)
}

#[inline]
unsafe fn bump(l: Layout) -> *mut u8 {
    let at = ARENA.with(|a| a.get());
    let p = (at + l.align() - 1) & !(l.align() - 1);
    if p + l.size() > ARENA_END.with(|a| a.get()) {
        return std::ptr::null_mut();
    }
    ARENA.with(|a| a.set(p + l.size()));
    p as *mut u8
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::work::add(l.size() as u64 / 64);
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        if ARENA.with(|a| a.get()) != 0 {
            return bump(l);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::work::add(l.size() as u64 / 16);
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        if ARENA.with(|a| a.get()) != 0 {
            return bump(l); // never used before
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        if !in_arena(p as usize) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::work::add(l.size().min(n) as u64 / 64);
        if !add(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        if ARENA.with(|a| a.get()) != 0 || in_arena(p as usize) {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = if ARENA.with(|a| a.get()) != 0 { bump(nl) } else { System.alloc(nl) };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                if !in_arena(p as usize) {
                    System.dealloc(p, l);
                }
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

// --- hash seed -------------------------------------------------------------------------------

/// std takes the keys of its hash maps from getrandom once per thread; this definition is the one
/// the linker picks, so the seed of a thread is whatever `set_seed` said before its first map.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    let s = SEED.with(|s| s.get());
    if s == OS_SEED {
        return libc::syscall(libc::SYS_getrandom, buf, n, flags) as isize;
    }
    let mut x = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    for i in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    n as isize
}

/// the seed that asks the operating system
pub const OS_SEED: u64 = u64::MAX;

// --- clock and environment -------------------------------------------------------------------

/// What the clock says to this thread: seconds since 1970, and whether an hour passes with every look
/// at the monotonic clock. And what the environment says: None is the real one.
#[derive(Clone, Copy, Default)]
pub struct World {
    pub realtime: Option<(i64, i64)>,
    pub leaps: bool,
    pub env: Option<Option<&'static std::ffi::CStr>>,
    /// what every file contains that is looked for; Some(None) if there are no files
    pub files: Option<Option<&'static [u8]>>,
}

thread_local! {
    static WORLD: Cell<World> = const { Cell::new(World { realtime: None, leaps: false, env: None, files: None }) };
    static LEAPT: Cell<i64> = const { Cell::new(0) };
}
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static FILE_READS: AtomicU64 = AtomicU64::new(0);

pub fn set_world(w: World) {
    WORLD.with(|c| c.set(w));
}

unsafe fn raw_clock(id: i32) -> libc::timespec {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, &mut t);
    t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut libc::timespec) -> i32 {
    let w = WORLD.with(|w| w.get());
    let mut v = raw_clock(id);
    let real = id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE;
    if real {
        if let Some((s, ns)) = w.realtime {
            CLOCK_READS.fetch_add(1, Ordering::Relaxed);
            v = libc::timespec { tv_sec: s, tv_nsec: ns };
        }
    } else if w.leaps {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        v.tv_sec += LEAPT.with(|l| {
            l.set(l.get() + 3600);
            l.get()
        });
    }
    *t = v;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _z: *mut libc::c_void) -> i32 {
    let mut s = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut s);
    *t = libc::timeval { tv_sec: s.tv_sec, tv_usec: s.tv_nsec / 1000 };
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut s = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut s);
    if !t.is_null() {
        *t = s.tv_sec;
    }
    s.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    if let Some(a) = WORLD.with(|w| w.get()).env {
        if a.is_some() {
            ENV_READS.fetch_add(1, Ordering::Relaxed);
        }
        return a.map_or(std::ptr::null_mut(), |s| s.as_ptr() as *mut _);
    }
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

// --- files -----------------------------------------------------------------------------------

/// the answer to a look at a file: a descriptor of what it contains, or -1 with errno
unsafe fn pretended() -> Option<i32> {
    let a = WORLD.try_with(|w| w.get()).ok()?.files?;
    FILE_READS.fetch_add(1, Ordering::Relaxed);
    let Some(content) = a else {
        *libc::__errno_location() = libc::ENOENT;
        return Some(-1);
    };
    let fd = libc::syscall(libc::SYS_memfd_create, c"file".as_ptr(), libc::MFD_CLOEXEC) as i32;
    if fd >= 0 {
        libc::write(fd, content.as_ptr() as *const _, content.len());
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
    Some(fd)
}

unsafe fn looked_up(f: impl FnOnce(i32) -> i32) -> Option<i32> {
    pretended().map(|fd| {
        if fd < 0 {
            return -1;
        }
        let r = f(fd);
        libc::close(fd);
        r
    })
}

#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    pretended().unwrap_or_else(|| libc::syscall(libc::SYS_openat, dir, path, flags, mode) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat(dir, path, flags, mode)
}

#[allow(unknown_lints, invalid_runtime_symbol_definitions)] // the third argument is passed like a variadic one
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const libc::c_char, mode: i32) -> i32 {
    looked_up(|_| 0).unwrap_or_else(|| libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD, path, mode) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    looked_up(|fd| libc::fstat64(fd, st)).unwrap_or_else(|| libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, st, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, st: *mut libc::statx) -> i32 {
    let real = |d: i32, p: *const libc::c_char, f: i32| libc::syscall(libc::SYS_statx, d, p, f, mask, st) as i32;
    // an empty path means the descriptor itself
    if path.is_null() || *path == 0 {
        return real(dir, path, flags);
    }
    looked_up(|fd| real(fd, c"".as_ptr(), libc::AT_EMPTY_PATH)).unwrap_or_else(|| real(dir, path, flags))
}

pub fn set_seed(s: u64) {
    SEED.with(|c| c.set(s));
}

// --- shared slots ----------------------------------------------------------------------------

pub const SLOTS: usize = 16;
const SLOT_WORDS: usize = 16 * 1024;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
static CALL_START: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

/// words of a slot: [busy, scenario, n, executions, choices...]
pub fn map_slots(path: &str, create: bool) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)?;
    let len = SLOTS * SLOT_WORDS * 4;
    if create {
        f.set_len(len as u64)?;
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        return Err(std::io::Error::last_os_error());
    }
    SLOT_BASE.store(p as usize, Ordering::SeqCst);
    Ok(())
}

fn slot_ptr(slot: usize) -> Option<*mut u32> {
    let b = SLOT_BASE.load(Ordering::Relaxed);
    if b == 0 || slot >= SLOTS {
        None
    } else {
        Some(unsafe { (b as *mut u32).add(slot * SLOT_WORDS) })
    }
}

pub fn use_slot(slot: usize) {
    SLOT.with(|s| s.set(slot));
}

pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}

pub fn slot_begin(scenario: usize) {
    if let Some(p) = slot_ptr(SLOT.with(|s| s.get())) {
        unsafe {
            p.add(2).write_volatile(0);
            p.add(1).write_volatile(scenario as u32);
            p.write_volatile(1);
        }
    }
}

pub fn slot_choice(i: usize, c: u16) {
    if let Some(p) = slot_ptr(SLOT.with(|s| s.get())) {
        if i + 4 < SLOT_WORDS {
            unsafe {
                p.add(4 + i).write_volatile(c as u32);
                p.add(2).write_volatile(i as u32 + 1);
            }
        }
    }
}

pub fn slot_end() {
    if let Some(p) = slot_ptr(SLOT.with(|s| s.get())) {
        unsafe {
            p.add(3).write_volatile(p.add(3).read_volatile() + 1);
            p.write_volatile(0);
        }
    }
}

/// (scenario, choices) of every slot that was in the middle of an execution.
pub fn busy_slots() -> Vec<(usize, Vec<u16>)> {
    let mut v = vec![];
    for s in 0..SLOTS {
        if let Some(p) = slot_ptr(s) {
            unsafe {
                if p.read_volatile() == 1 {
                    let n = p.add(2).read_volatile() as usize;
                    let c = (0..n.min(SLOT_WORDS - 4))
                        .map(|i| p.add(4 + i).read_volatile() as u16)
                        .collect();
                    v.push((p.add(1).read_volatile() as usize, c));
                }
            }
        }
    }
    v
}

pub fn slot_executions() -> u64 {
    (0..SLOTS)
        .filter_map(slot_ptr)
        .map(|p| unsafe { p.add(3).read_volatile() as u64 })
        .sum()
}

// --- calls -----------------------------------------------------------------------------------

/// of the real clock, whatever the thread's world says
pub fn now_ms() -> u64 {
    let t = unsafe { raw_clock(libc::CLOCK_MONOTONIC) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 + 1
}

pub const HANG_MS: u64 = 20_000;
pub const EXIT_HANG: i32 = 77;

/// Ends the process with EXIT_HANG when one guarded call lasts longer than HANG_MS.
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        for s in CALL_START.iter() {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && now > t + HANG_MS {
                unsafe { libc::_exit(EXIT_HANG) }
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = TRACK.with(|t| t.replace(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
        TRACK.with(|t| t.set(was));
    }));
}

pub struct CallInfo<T> {
    /// Err holds the panic message.
    pub value: Result<T, String>,
    /// bytes held at the peak of the call, beyond what was held at its start
    pub peak: usize,
    /// bytes still held when the call returned (its value included)
    pub left: isize,
    /// work done by the call; 0 in the build that does not count it
    pub work: u64,
}

fn timed<R>(f: impl FnOnce() -> R) -> R {
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS {
        CALL_START[slot].store(now_ms(), Ordering::Relaxed);
    }
    let r = f();
    if slot < SLOTS {
        CALL_START[slot].store(0, Ordering::Relaxed);
    }
    r
}

/// One call into the library: panics are caught, memory is accounted, hangs are noticed.
pub fn measured<T>(f: impl FnOnce() -> T) -> CallInfo<T> {
    timed(|| {
        LIVE.with(|l| l.set(0));
        PEAK.with(|p| p.set(0));
        TRACK.with(|t| t.set(true));
        let work = crate::work::so_far();
        let r = catch_unwind(AssertUnwindSafe(f));
        let work = crate::work::so_far() - work;
        TRACK.with(|t| t.set(false));
        let peak = PEAK.with(|p| p.get()).max(0) as usize;
        CallInfo {
            value: r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone())),
            peak,
            left: LIVE.with(|l| l.get()),
            work,
        }
    })
}

pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    measured(f).value
}

/// catch_unwind for harness code (divergence and harness bugs), without accounting.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
