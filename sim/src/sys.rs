//! The seams to the outside world. Everything the simulated code could learn from the
//! operating system that differs between executions is answered here: hash keys, clocks,
//! sleeping, blocking and waking of threads, and memory.
//!
//! Interposed on symbols, so that the code under test, the standard library and every
//! dependency go through it without any change: `getrandom`, `clock_gettime`,
//! `nanosleep`, `clock_nanosleep`, `sched_yield`, `syscall` (the standard library blocks
//! and wakes threads with futexes through it) and the global allocator.

use crate::rng::mix;
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};

thread_local! {
    /// This thread belongs to a simulated run.
    static IN: Cell<bool> = const { Cell::new(false) };
    /// Inside the harness: not counted, not scheduled.
    static QUIET: Cell<u32> = const { Cell::new(0) };
}
pub fn in_run() -> bool {
    IN.try_with(|x| x.get()).unwrap_or(false)
}
pub fn enter() {
    IN.with(|x| x.set(true));
}
pub fn leave() {
    let _ = IN.try_with(|x| x.set(false));
}
/// Runs harness code without scheduling points.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            QUIET.with(|x| x.set(x.get() - 1));
        }
    }
    QUIET.with(|x| x.set(x.get() + 1));
    let _d = D;
    f()
}
fn active() -> bool {
    in_run() && QUIET.try_with(|x| x.get() == 0).unwrap_or(false)
}

// ---------------------------------------------------------------- environment of a run

static HASH: AtomicU64 = AtomicU64::new(1);
static HASH_N: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
/// nanoseconds every look at the clock takes; may be huge: the clock jumps
static CLOCK_STEP: AtomicU64 = AtomicU64::new(1000);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);

pub fn set_env(hash: u64, clock: u64, step: u64, limit: u64) {
    HASH.store(hash, Relaxed);
    HASH_N.store(0, Relaxed);
    CLOCK.store(clock, Relaxed);
    CLOCK_STEP.store(step, Relaxed);
    ALLOCS.store(0, Relaxed);
    BYTES.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
    CLOCK_READS.store(0, Relaxed);
    RANDOM_READS.store(0, Relaxed);
}
pub fn clock_now() -> u64 {
    CLOCK.load(Relaxed)
}
pub fn advance(ns: u64) {
    CLOCK.fetch_add(ns, Relaxed);
}
/// New allowance for bytes allocated from here on.
pub fn set_limit(bytes: u64) {
    BYTES.store(0, Relaxed);
    LIMIT.store(bytes, Relaxed);
}

pub const EXIT_BUDGET: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;

// ---------------------------------------------------------------- raw system calls

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && in_run() {
        if let Some(r) = sched::futex(a, b, c, d, e, f) {
            return ret(r);
        }
    }
    if n == libc::SYS_getrandom && in_run() {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if in_run() {
        RANDOM_READS.fetch_add(1, Relaxed);
        let s = HASH.load(Relaxed);
        for i in 0..n {
            let k = HASH_N.fetch_add(1, Relaxed);
            *p.add(i) = mix(s ^ mix(k)) as u8;
        }
        return n as isize;
    }
    ret(raw(libc::SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut libc::timespec) -> i32 {
    if in_run() {
        CLOCK_READS.fetch_add(1, Relaxed);
        let now = CLOCK.fetch_add(CLOCK_STEP.load(Relaxed), Relaxed);
        (*t).tv_sec = (now / 1_000_000_000) as i64;
        (*t).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, id as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_run() {
        advance((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        sched::yield_now();
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, t as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    fl: i32,
    t: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if in_run() {
        let x = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        if fl & 1 == 1 {
            CLOCK.fetch_max(x, Relaxed);
        } else {
            advance(x);
        }
        sched::yield_now();
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, id as i64, fl as i64, t as i64, rem as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_run() {
        sched::yield_now();
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- memory

pub struct Mem;
#[global_allocator]
static MEM: Mem = Mem;

#[inline]
fn note(n: usize) {
    if active() {
        ALLOCS.fetch_add(1, Relaxed);
        let b = BYTES.fetch_add(n as u64, Relaxed) + n as u64;
        if b > LIMIT.load(Relaxed) {
            unsafe { libc::_exit(EXIT_BUDGET) };
        }
        sched::point();
    }
}
unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        if active() {
            sched::point();
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

/// Same addresses in every execution, where the system lets us.
pub fn fixed_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p == -1 || p & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("SVDSIM_REEXEC").is_some() {
            return;
        }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) == -1 {
            return;
        }
    }
    std::env::set_var("SVDSIM_REEXEC", "1");
    use std::os::unix::process::CommandExt;
    let a: Vec<_> = std::env::args_os().collect();
    if let Ok(exe) = std::env::current_exe() {
        let _ = std::process::Command::new(exe).args(&a[1..]).exec();
    }
}

// ---------------------------------------------------------------- callbacks of the code under test

/// Which basic blocks were reached, shared by all processes of a check.
static REACHED: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static BLOCKS: AtomicU64 = AtomicU64::new(0);
const MAX_BLOCKS: usize = 1 << 20;

pub fn blocks() -> (u64, u64) {
    let p = REACHED.load(Relaxed);
    let n = BLOCKS.load(Relaxed).min(MAX_BLOCKS as u64 - 1);
    if p.is_null() {
        return (0, 0);
    }
    (unsafe { (1..=n).filter(|i| *p.add(*i as usize) != 0).count() as u64 }, n)
}
/// The numbers of the blocks that were not reached.
pub fn missed() -> Vec<u64> {
    let p = REACHED.load(Relaxed);
    let n = BLOCKS.load(Relaxed).min(MAX_BLOCKS as u64 - 1);
    (1..=n).filter(|i| unsafe { p.is_null() || *p.add(*i as usize) == 0 }).collect()
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if REACHED.load(Relaxed).is_null() {
        let p = libc::mmap(
            std::ptr::null_mut(),
            MAX_BLOCKS,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p != libc::MAP_FAILED {
            REACHED.store(p as *mut u8, Relaxed);
        }
    }
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = BLOCKS.fetch_add(1, Relaxed) as u32 + 1;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let i = *guard as usize;
    let p = REACHED.load(Relaxed);
    if i < MAX_BLOCKS && !p.is_null() {
        let p = p.add(i);
        if *p == 0 {
            *p = 1;
        }
    }
    if sched::ON.load(Relaxed) && active() {
        sched::point_of(sched::BLOCK);
    }
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline]
unsafe fn touch(at: *const u8) {
    if sched::ON.load(Relaxed) && at >= &raw const __data_start && at < &raw const _end && active() {
        sched::point_of(sched::STATIC);
    }
}
macro_rules! access { ($($n:ident)*) => { $(
    #[no_mangle]
    pub unsafe extern "C" fn $n(at: *const u8) {
        touch(at);
    }
)* } }
access! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }
