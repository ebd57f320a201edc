//! Decides which thread runs. Simulated threads are real threads of which exactly one
//! holds the baton; it passes it on at a scheduling point when the schedule says so. There
//! are coarse points (an allocation or release, a futex call, the start of a call), points at
//! every basic block of the code under test, and points at its loads and stores of static
//! memory. The schedule is a list of (point number, choice, kind of point); points are
//! counted over all threads.

use crate::rng::mix;
use crate::sys::{advance, quiet, raw, EXIT_DEADLOCK};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::*};

const MAX: usize = 16;
const NONE: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Absent,
    Ready,
    Blocked { addr: i64, mask: u32, until: u64, since: u64 },
    Done,
}
struct State {
    st: [St; MAX],
    step: u64,
    /// per kind: what to do when, and how far that is done
    plan: [Vec<(u64, u64)>; 3],
    at: [usize; 3],
    cnt: [u64; 3],
    seed: u64,
    timed_out: [bool; MAX],
    /// who ran, for the measure of distinct interleavings
    trace: u64,
    switches: u64,
    blocks: u64,
}
// only the holder of the baton touches it
static mut S: State = State {
    st: [St::Absent; MAX],
    step: 0,
    plan: [const { Vec::new() }; 3],
    at: [0; 3],
    cnt: [0; 3],
    seed: 0,
    timed_out: [false; MAX],
    trace: 0,
    switches: 0,
    blocks: 0,
};
static BATON: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static ARRIVED: AtomicU32 = AtomicU32::new(0);
static LEFT: AtomicI32 = AtomicI32::new(0);
static LAST_STEP: AtomicU64 = AtomicU64::new(0);

#[allow(static_mut_refs)]
fn s() -> &'static mut State {
    unsafe { &mut S }
}
fn fwait(a: &AtomicU32, v: u32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAIT as i64 | 128, v as i64, 0, 0, 0);
    }
}
fn fwake(a: &AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAKE as i64 | 128, i32::MAX as i64, 0, 0, 0);
    }
}
fn give(i: usize) {
    BATON[i].store(1, Release);
    fwake(&BATON[i]);
}
fn take(i: usize) {
    while BATON[i].load(Acquire) == 0 {
        fwait(&BATON[i], 0);
    }
    BATON[i].store(0, Relaxed);
}

pub struct Report {
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub trace: u64,
    /// preemptions the plan asked for that happened
    pub used: usize,
    /// coarse points, all points, accesses to static memory
    pub points: [u64; 3],
}

/// Runs the bodies as threads under the plan. `seed` decides who goes on when the running
/// thread blocks or ends.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send + 'static>>, plan: &[(u64, u64, u64)], seed: u64, stack: usize) -> Report {
    let n = bodies.len();
    assert!(n <= MAX);
    let st = s();
    *st = State {
        st: [St::Absent; MAX],
        step: 0,
        plan: [0, 1, 2].map(|k| plan.iter().filter(|p| p.2 == k).map(|p| (p.0, p.1)).collect()),
        at: [0; 3],
        cnt: [0; 3],
        seed,
        timed_out: [false; MAX],
        trace: 0,
        switches: 0,
        blocks: 0,
    };
    ARRIVED.store(0, SeqCst);
    LEFT.store(n as i32, SeqCst);
    for i in 0..n {
        st.st[i] = St::Ready;
        BATON[i].store(0, SeqCst);
    }
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    ARRIVED.fetch_add(1, SeqCst);
                    take(i);
                    crate::sys::enter();
                    ME.with(|m| m.set(i));
                    b();
                    ME.with(|m| m.set(NONE));
                    crate::sys::leave();
                    finish(i);
                })
                .expect("thread")
        })
        .collect();
    while ARRIVED.load(SeqCst) < n as u32 {
        std::thread::yield_now();
    }
    ON.store(true, SeqCst);
    give((mix(seed) % n as u64) as usize);
    for h in hs {
        let _ = h.join();
    }
    ON.store(false, SeqCst);
    let st = s();
    Report {
        steps: st.step,
        switches: st.switches,
        blocks: st.blocks,
        trace: st.trace,
        used: st.at.iter().sum(),
        points: st.cnt,
    }
}

pub fn step_now() -> u64 {
    if ME.with(|m| m.get()) == NONE {
        LAST_STEP.load(Relaxed)
    } else {
        s().step
    }
}

/// The threads that could run. Allocates nothing: freeing would be a scheduling point.
struct Few([usize; MAX], usize);
impl Few {
    fn is_empty(&self) -> bool {
        self.1 == 0
    }
    fn nth(&self, k: u64) -> usize {
        self.0[(k % self.1 as u64) as usize]
    }
}
fn ready(except: usize) -> Few {
    let st = s();
    let mut v = Few([0; MAX], 0);
    for i in 0..MAX {
        if i != except && st.st[i] == St::Ready {
            v.0[v.1] = i;
            v.1 += 1;
        }
    }
    v
}
/// Who goes on when the running thread cannot.
fn choose(st: &mut State) -> Option<usize> {
    let v = ready(NONE);
    if !v.is_empty() {
        return Some(v.nth(mix(st.seed ^ mix(st.step))));
    }
    // nobody can run: simulated time passes until the first timeout
    let mut best: Option<(u64, usize)> = None;
    for i in 0..MAX {
        if let St::Blocked { until, .. } = st.st[i] {
            if until != u64::MAX && best.map(|b| until < b.0).unwrap_or(true) {
                best = Some((until, i));
            }
        }
    }
    let (t, i) = best?;
    let now = crate::sys::clock_now();
    if t > now {
        advance(t - now);
    }
    st.timed_out[i] = true;
    st.st[i] = St::Ready;
    Some(i)
}
fn pass(me: usize, to: usize) {
    let st = s();
    st.switches += 1;
    st.trace = mix(st.trace ^ mix(st.step).wrapping_add(to as u64));
    if to == me {
        return;
    }
    give(to);
    take(me);
}
fn finish(me: usize) {
    let st = s();
    st.st[me] = St::Done;
    st.step += 1;
    st.trace = mix(st.trace ^ 0xd0);
    LAST_STEP.store(st.step, Relaxed);
    if LEFT.fetch_sub(1, SeqCst) == 1 {
        return;
    }
    match choose(st) {
        Some(i) => give(i),
        None => unsafe { libc::_exit(EXIT_DEADLOCK) },
    }
}

/// Threads are running under a schedule.
pub static ON: AtomicBool = AtomicBool::new(false);
pub const COARSE: usize = 0;
pub const BLOCK: usize = 1;
pub const STATIC: usize = 2;

/// A point at which the schedule may move the baton.
#[inline]
pub fn point() {
    point_of(COARSE)
}
pub fn point_of(kind: usize) {
    let Ok(me) = ME.try_with(|m| m.get()) else {
        return;
    };
    if me == NONE {
        return;
    }
    let st = s();
    st.step += 1;
    for k in [BLOCK, kind] {
        st.cnt[k] += 1;
        let at = st.at[k];
        if at < st.plan[k].len() && st.plan[k][at].0 <= st.cnt[k] {
            let c = st.plan[k][at].1;
            st.at[k] += 1;
            let v = ready(me);
            if !v.is_empty() {
                pass(me, v.nth(c));
            }
        }
        if kind == BLOCK {
            break;
        }
    }
}
pub fn yield_now() {
    let me = ME.with(|m| m.get());
    if me == NONE {
        return;
    }
    let st = s();
    st.step += 1;
    let v = ready(me);
    if !v.is_empty() {
        pass(me, v.nth(mix(st.seed ^ mix(st.step))));
    }
}

/// A futex call of a simulated thread; None if the thread is not scheduled.
pub unsafe fn futex(a: i64, op: i64, val: i64, tmo: i64, _e: i64, mask: i64) -> Option<i64> {
    let me = ME.try_with(|m| m.get()).unwrap_or(NONE);
    if me == NONE {
        return None;
    }
    let st = s();
    let cmd = op as i32 & 127;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point();
            if (*(a as *const AtomicU32)).load(SeqCst) != val as u32 {
                return Some(-libc::EAGAIN as i64);
            }
            let until = if tmo == 0 {
                u64::MAX
            } else {
                let t = &*(tmo as *const libc::timespec);
                let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    crate::sys::clock_now() + ns
                } else {
                    ns
                }
            };
            st.blocks += 1;
            st.step += 1;
            let m = if cmd == libc::FUTEX_WAIT { u32::MAX } else { mask as u32 };
            st.st[me] = St::Blocked { addr: a, mask: m, until, since: st.step };
            match choose(st) {
                Some(i) => pass(me, i),
                None => libc::_exit(EXIT_DEADLOCK),
            }
            let st = s();
            if st.timed_out[me] {
                st.timed_out[me] = false;
                return Some(-libc::ETIMEDOUT as i64);
            }
            Some(0)
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let wm = if cmd == libc::FUTEX_WAKE { u32::MAX } else { mask as u32 };
            let mut n = 0;
            while n < val as i32 as i64 {
                // the longest waiting first
                let mut best: Option<(u64, usize)> = None;
                for i in 0..MAX {
                    if let St::Blocked { addr, mask, since, .. } = st.st[i] {
                        if addr == a && mask & wm != 0 && best.map(|b| since < b.0).unwrap_or(true) {
                            best = Some((since, i));
                        }
                    }
                }
                match best {
                    Some((_, i)) => {
                        st.st[i] = St::Ready;
                        n += 1;
                    }
                    None => break,
                }
            }
            let r = raw(libc::SYS_futex, a, op, val, tmo, 0, mask);
            point();
            Some(n + r.max(0))
        }
        _ => None,
    }
}
