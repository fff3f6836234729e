//! A controlled scheduler for two calls. A thread executes its call instruction by instruction (the
//! trap flag of the processor), and the handler decides at each which of the two goes on.
//!
//! `Lane`: the other thread runs a whole call in front of every instruction.
//! `Sched`: both threads are stepped; they change turns only at instructions that touch memory both
//! can reach (partial-order reduction: any other instruction commutes with everything that the other
//! thread can do).
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

#[derive(Default)]
pub struct Lane {
    /// instructions executed by the stepped call so far
    pub steps: AtomicU64,
    /// turn taken by the other thread / turns it has finished
    pub go: AtomicU32,
    pub done: AtomicU32,
    pub quit: AtomicU32,
    /// instructions at which the other thread ran a whole call
    pub ran: AtomicU64,
    /// instructions at which it could not, because it waited for something the stepped thread held
    pub blocked: AtomicU64,
}

/// What of the address space belongs to nobody else, or to everybody but cannot be written.
pub struct Own {
    pub ranges: Vec<(usize, usize)>,
}

pub struct Side {
    pub own: UnsafeCell<Own>,
    /// scheduling points reached in the current segment, and in all
    pub here: AtomicU32,
    pub points: AtomicU32,
    pub steps: AtomicU64,
    pub finished: AtomicBool,
}

/// (thread, points to go on for)
pub struct Sched {
    pub segments: Vec<(usize, u32)>,
    pub cur: AtomicUsize,
    pub side: [Side; 2],
    /// a turn could not be taken because the thread waited for what the other held
    pub blocked: AtomicBool,
    pub switches: AtomicU32,
    /// the shared words that are written by either call, in order; None takes every one for written
    pub contended: Option<Vec<usize>>,
    /// what a call does to shared memory when it is alone
    pub solo: UnsafeCell<Solo>,
}

/// Filled by the handler, which must not allocate.
pub struct Solo {
    pub written: Vec<usize>,
    pub overflow: bool,
    pending: (usize, usize, [u8; 64]),
}

impl Solo {
    /// in front of an access: what is there
    fn before(&mut self, a: usize) {
        let n = (4096 - a % 4096).min(64);
        let mut b = [0u8; 64];
        unsafe { std::ptr::copy_nonoverlapping(a as *const u8, b.as_mut_ptr(), n) };
        self.pending = (a, n, b);
    }
    /// behind it: whether that has changed
    fn after(&mut self) {
        let (a, n, old) = self.pending;
        self.pending.1 = 0;
        for i in 0..n {
            if unsafe { *((a + i) as *const u8) } != old[i] {
                let w = (a + i) >> 3;
                if self.written.last() != Some(&w) {
                    if self.written.len() < self.written.capacity() {
                        self.written.push(w);
                    } else {
                        self.overflow = true;
                    }
                }
            }
        }
    }
}

unsafe impl Sync for Sched {}

pub const END: u32 = u32::MAX;
/// to the end, but counting its points
pub const ALL: u32 = u32::MAX - 1;
/// to the end, noting what it writes
pub const SOLO: u32 = u32::MAX - 2;

impl Sched {
    pub fn new(segments: Vec<(usize, u32)>) -> Sched {
        let side = || Side {
            own: UnsafeCell::new(Own { ranges: vec![] }),
            here: AtomicU32::new(0),
            points: AtomicU32::new(0),
            steps: AtomicU64::new(0),
            finished: AtomicBool::new(false),
        };
        Sched {
            segments,
            cur: AtomicUsize::new(0),
            side: [side(), side()],
            blocked: AtomicBool::new(false),
            switches: AtomicU32::new(0),
            contended: None,
            solo: UnsafeCell::new(Solo { written: Vec::with_capacity(1 << 16), overflow: false, pending: (0, 0, [0; 64]) }),
        }
    }
    fn mine(&self, me: usize) -> bool {
        match self.segments.get(self.cur.load(Acquire)) {
            Some((t, _)) => *t == me,
            None => true,
        }
    }
    /// the current segment is over
    fn pass(&self, me: usize) {
        self.side[me].here.store(0, Relaxed);
        self.switches.fetch_add(1, Relaxed);
        self.cur.fetch_add(1, Release);
    }
    fn wait(&self, me: usize) {
        let other = &self.side[1 - me];
        let mut seen = (other.steps.load(Relaxed), self.cur.load(Relaxed));
        let (mut t, t0) = (ticks(), ticks());
        while !self.mine(me) {
            // a thread that is through leaves its segments to the other
            if other.finished.load(Acquire) {
                return;
            }
            let now = (other.steps.load(Relaxed), self.cur.load(Relaxed));
            if now != seen {
                seen = now;
                t = ticks();
            }
            if ticks() - t > PATIENCE || ticks() - t0 > 100 * PATIENCE {
                // the other one waits for something of ours
                self.blocked.store(true, Relaxed);
                self.cur.store(usize::MAX / 2, Release);
                return;
            }
            std::hint::spin_loop();
        }
    }
}

thread_local! {
    static LANE: Cell<*const Lane> = const { Cell::new(std::ptr::null()) };
    static SCHED: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static TOUCHED: Cell<bool> = const { Cell::new(false) };
}

fn ticks() -> u64 {
    unsafe { core::arch::x86_64::_rdtsc() }
}
/// how long a turn may take before the thread counts as waiting for the other one
const PATIENCE: u64 = 60_000_000;

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let u = unsafe { &mut *(uc as *mut libc::ucontext_t) };
    let s = SCHED.with(|s| s.get());
    if !s.is_null() {
        return sched_trap(unsafe { &*s }, u);
    }
    let lane = LANE.with(|l| l.get());
    if lane.is_null() {
        u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    let lane = unsafe { &*lane };
    lane.steps.fetch_add(1, Relaxed);
    let g = lane.go.load(Relaxed);
    if lane.done.load(Acquire) != g {
        // still in the turn it was given earlier
        lane.blocked.fetch_add(1, Relaxed);
        return;
    }
    lane.go.store(g.wrapping_add(1), Release);
    let t = ticks();
    loop {
        if lane.done.load(Acquire) == g.wrapping_add(1) {
            lane.ran.fetch_add(1, Relaxed);
            return;
        }
        if ticks() - t > PATIENCE {
            lane.blocked.fetch_add(1, Relaxed);
            return;
        }
        std::hint::spin_loop();
    }
}

fn sched_trap(s: &Sched, u: &mut libc::ucontext_t) {
    let me = ME.with(|m| m.get());
    let side = &s.side[me];
    side.steps.fetch_add(1, Relaxed);
    let own = unsafe { &*side.own.get() };
    let limit = match s.segments.get(s.cur.load(Acquire)) {
        Some((t, n)) if *t == me => *n,
        _ => END,
    };
    let touches = match touched(u, own) {
        None => false,
        Some(a) => {
            if limit == SOLO {
                let solo = unsafe { &mut *s.solo.get() };
                solo.after();
                solo.before(a);
                true
            } else {
                match &s.contended {
                    None => true,
                    Some(c) => {
                        // the widest access has 64 bytes
                        let i = c.partition_point(|w| *w < a >> 3);
                        c.get(i).is_some_and(|w| *w <= (a + 63) >> 3)
                    }
                }
            }
        }
    };
    if limit == SOLO && !touches {
        unsafe { (*s.solo.get()).after() }
    }
    // in front of an instruction that reaches shared memory, and right behind one
    let point = touches || TOUCHED.with(|t| t.get());
    TOUCHED.with(|t| t.set(touches));
    if !point {
        return;
    }
    side.points.fetch_add(1, Relaxed);
    let here = side.here.fetch_add(1, Relaxed) + 1;
    if limit == ALL || limit == SOLO {
        return;
    }
    if here >= limit {
        s.pass(me);
        s.wait(me);
    }
    // nothing more to decide for this thread: at full speed to the end
    match s.segments.get(s.cur.load(Acquire)) {
        Some((t, n)) if *t == me && *n != END => {}
        _ => u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100,
    }
}

/// The address outside of `own` that the instruction at hand reads or writes.
fn touched(u: &libc::ucontext_t, own: &Own) -> Option<usize> {
    let g = |r: i32| u.uc_mcontext.gregs[r as usize] as usize;
    let reg = |n: u8| -> usize {
        use libc::*;
        g([REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15][n as usize & 15])
    };
    let shared = |a: usize| if own.ranges.iter().any(|(b, e)| *b <= a && a < *e) { None } else { Some(a) };
    let rip = g(libc::REG_RIP);
    let at = |i: usize| unsafe { *((rip + i) as *const u8) };
    let mut i = 0;
    let mut local = false;
    loop {
        match at(i) {
            0x66 | 0xF2 | 0xF3 | 0xF0 | 0x2E | 0x36 | 0x3E | 0x26 => i += 1,
            0x64 | 0x65 => {
                local = true;
                i += 1
            }
            _ => break,
        }
    }
    if local {
        return None;
    }
    let (mut x, mut b) = (0u8, 0u8);
    if at(i) & 0xF0 == 0x40 {
        let rex = at(i);
        x = rex >> 1 & 1;
        b = rex & 1;
        i += 1;
    }
    let mut op = at(i);
    let map;
    match op {
        0xC5 => {
            op = at(i + 2);
            i += 3;
            map = 1;
        }
        0xC4 => {
            let p = at(i + 1);
            x = !(p >> 6) & 1;
            b = !(p >> 5) & 1;
            map = p & 31;
            op = at(i + 3);
            i += 4;
        }
        0x62 => {
            let p = at(i + 1);
            x = !(p >> 6) & 1;
            b = !(p >> 5) & 1;
            map = p & 7;
            op = at(i + 4);
            i += 5;
        }
        0x0F => match at(i + 1) {
            0x38 => {
                map = 2;
                op = at(i + 2);
                i += 3;
            }
            0x3A => {
                map = 3;
                op = at(i + 2);
                i += 3;
            }
            o => {
                map = 1;
                op = o;
                i += 2;
            }
        },
        _ => {
            map = 0;
            i += 1;
        }
    }
    let modrm = match (map, op) {
        (0, 0xA4..=0xA7 | 0xAA..=0xAF | 0x6C..=0x6F) => return shared(reg(7)).or(if op & 0xF < 8 { shared(reg(6)) } else { None }),
        (0, 0x8D) => false, // lea
        (0, 0x00..=0x3F) => op & 7 < 4,
        (0, 0x63 | 0x69 | 0x6B | 0x80..=0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 | 0xD8..=0xDF | 0xF6 | 0xF7 | 0xFE | 0xFF) => true,
        (0, _) => false,
        (1, 0x05 | 0x0B | 0x0D | 0x18..=0x1F | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF) => false,
        _ => true,
    };
    if !modrm {
        return None;
    }
    let m = at(i);
    let (md, rm) = (m >> 6, m & 7);
    i += 1;
    if md == 3 {
        return None;
    }
    let disp = |i: usize, n: usize| -> usize {
        match n {
            1 => at(i) as i8 as isize as usize,
            _ => unsafe { ((rip + i) as *const i32).read_unaligned() as isize as usize },
        }
    };
    let mut a: usize;
    if rm == 4 {
        let s = at(i);
        i += 1;
        let (scale, idx, base) = (s >> 6, (s >> 3 & 7) | x << 3, s & 7);
        a = if idx == 4 { 0 } else { reg(idx) << scale };
        if base == 5 && md == 0 {
            a = a.wrapping_add(disp(i, 4));
        } else {
            a = a.wrapping_add(reg(base | b << 3));
        }
    } else if rm == 5 && md == 0 {
        a = (rip + i + 4).wrapping_add(disp(i, 4)); // short of the immediate, if there is one
    } else {
        a = reg(rm | b << 3);
    }
    match md {
        1 => a = a.wrapping_add(disp(i, 1)),
        2 => a = a.wrapping_add(disp(i, 4)),
        _ => {}
    }
    shared(a)
}

pub fn install() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
}

pub fn on() {
    let s = SCHED.with(|s| s.get());
    if !s.is_null() {
        let s = unsafe { &*s };
        let me = ME.with(|m| m.get());
        s.wait(me);
        match s.segments.get(s.cur.load(Acquire)) {
            Some((t, n)) if *t == me && *n != END => {}
            _ => return,
        }
    }
    unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}

pub fn off() {
    unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    let s = SCHED.with(|s| s.get());
    if !s.is_null() {
        let s = unsafe { &*s };
        let me = ME.with(|m| m.get());
        s.side[me].finished.store(true, Release);
        SCHED.with(|s| s.set(std::ptr::null()));
    }
}

/// Runs f, whose marked part is stepped under this lane.
pub fn stepped<T>(lane: &Lane, f: impl FnOnce() -> T) -> T {
    lane.steps.store(0, Relaxed);
    LANE.with(|l| l.set(lane));
    let r = f();
    LANE.with(|l| l.set(std::ptr::null()));
    r
}

/// Runs f as thread `me` of the schedule. `also` is memory that nobody writes.
pub fn scheduled<T>(s: &Sched, me: usize, arena: (usize, usize), also: &[(usize, usize)], f: impl FnOnce() -> T) -> T {
    let mut r = vec![my_stack(), arena];
    r.extend(unwritable_or_libc());
    r.extend_from_slice(also);
    unsafe { (*s.side[me].own.get()).ranges = r };
    ME.with(|m| m.set(me));
    TOUCHED.with(|t| t.set(false));
    SCHED.with(|x| x.set(s));
    let v = f();
    SCHED.with(|x| x.set(std::ptr::null()));
    v
}

fn my_stack() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_getattr_np(libc::pthread_self(), &mut a);
        let (mut p, mut n) = (std::ptr::null_mut(), 0usize);
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        (p as usize, p as usize + n)
    }
}

/// what cannot be written, and what the C library keeps for itself
fn unwritable_or_libc() -> Vec<(usize, usize)> {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut v: Vec<(usize, usize)> = vec![];
    let mut library_end = 0;
    for l in maps.lines() {
        let mut p = l.split_whitespace();
        let (Some(r), Some(perm)) = (p.next(), p.next()) else { continue };
        let path = p.nth(3).unwrap_or("");
        let Some((b, e)) = r.split_once('-') else { continue };
        let (b, e) = (usize::from_str_radix(b, 16).unwrap_or(0), usize::from_str_radix(e, 16).unwrap_or(0));
        let library = path.contains(".so") || (path.is_empty() && b == library_end);
        if library {
            library_end = e;
        }
        if perm.as_bytes()[1] == b'w' && !library {
            continue;
        }
        match v.last_mut() {
            Some(x) if x.1 == b => x.1 = e,
            _ => v.push((b, e)),
        }
    }
    v
}

/// The other thread: one turn for every request.
pub fn turns(lane: &Lane, mut turn: impl FnMut()) {
    loop {
        let d = lane.done.load(Relaxed);
        let mut idle = 0u32;
        while lane.go.load(Acquire) == d {
            if lane.quit.load(Relaxed) != 0 {
                return;
            }
            idle += 1;
            if idle > 200_000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
        turn();
        lane.done.store(d.wrapping_add(1), Release);
    }
}
