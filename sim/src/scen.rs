//! Runs, batches of runs, replay and minimisation.
//!
//! One run = one property, one scenario (JSON). The scenario is a pure function of
//! (VERIF_SEED, property, index) and holds every choice of the run: the description, the
//! history, the faults, the environment, the schedule. Runs execute in forked children, so
//! that a stack overflow, an endless loop or unbounded memory is an outcome like any other.

use crate::rng::{hash_bytes, mix, Rng};
use crate::sys;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}
/// `sys::quiet` for oracles: what they allocate is not the code's work.
pub type Res = Result<(), Viol>;

#[derive(Default)]
pub struct Ctx {
    pub cnt: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub log: u64,
    pub nontrivial: bool,
    pub simtime: u64,
    pub verbose: bool,
}
impl Ctx {
    pub fn hit(&mut self, n: &str) {
        self.add(n, 1);
    }
    pub fn add(&mut self, n: &str, k: u64) {
        if let Some(x) = self.cnt.get_mut(n) {
            *x += k;
        } else {
            self.cnt.insert(n.to_string(), k);
        }
    }
    /// An event of the run's log.
    pub fn ev(&mut self, s: &str) {
        if self.verbose {
            eprintln!("  {s}");
        }
        self.log = mix(self.log ^ hash_bytes(s.as_bytes()));
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    /// A fault that actually happened.
    pub fn fault(&mut self, n: &str) {
        self.add(&format!("fault: {n}"), 1);
    }
    pub fn probe(&mut self, n: &str) {
        self.add(&format!("reach: {n}"), 1);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &Tier) -> Value,
    pub run: fn(&Value, &mut Ctx) -> Res,
    pub chunk: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Debug)]
pub struct Tier {
    pub thorough: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(u64),
    Viol(String, String),
}
impl Out {
    fn class(&self) -> &str {
        match self {
            Out::Ok(_) => "",
            Out::Viol(c, _) => c,
        }
    }
}

// ---------------------------------------------------------------- one run

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        sys::quiet(|| {
            let at = i.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if !sys::in_run() {
                eprintln!("harness panic at {at}: {m}");
            }
            let _ = PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = Some((at, m));
                }
            });
        })
    }));
}
fn short(f: &str) -> String {
    let f = f.strip_prefix("/repo/").unwrap_or(f);
    if let Some(i) = f.find("/registry/src/") {
        let r = &f[i + 14..];
        return r.split_once('/').map(|x| x.1).unwrap_or(r).to_string();
    }
    if let Some(i) = f.find("/library/") {
        return f[i + 1..].to_string();
    }
    f.to_string()
}
/// Calls real code; a panic comes back as its place and message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

pub fn exec(p: &Prop, sc: &Value, verbose: bool) -> (Out, Ctx) {
    let (run, sc) = (p.run, sc.clone());
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let e = &sc["env"];
            sys::set_env(
                e["hash"].as_u64().unwrap_or(1),
                e["clock"].as_u64().unwrap_or(0),
                e["step"].as_u64().unwrap_or(1000),
                2 << 30,
            );
            let t0 = sys::clock_now();
            sys::enter();
            let mut c = Ctx { verbose, ..Ctx::default() };
            let r = guard(|| run(&sc, &mut c));
            sys::leave();
            c.simtime = sys::clock_now() - t0;
            let o = match r {
                Ok(Ok(())) => Out::Ok(0),
                Ok(Err(v)) => Out::Viol(v.class, v.msg),
                Err((at, m)) => Out::Viol(format!("panic at {at}"), m),
            };
            (o, c)
        })
        .expect("thread");
    let (o, c) = h.join().expect("run thread");
    let o = match o {
        Out::Ok(_) => Out::Ok(c.log),
        v => v,
    };
    (o, c)
}

pub fn scenario(p: &Prop, seed: u64, idx: u64, tier: &Tier) -> Value {
    let mut r = Rng::new(mix(seed).wrapping_add(mix(hash_bytes(p.id.as_bytes()))) ^ mix(idx.wrapping_mul(0x1357_9bdf)));
    let env = json!({"hash": r.next() >> 1, "clock": r.below(1 << 60), "step": *r.pick(&[1000u64, 1_000_000, 3_600_000_000_000])});
    let mut v = (p.gen)(&mut r, tier);
    v["env"] = env;
    v
}

// ---------------------------------------------------------------- children

struct Shared {
    cur: AtomicU64,
}
fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &*(p as *const Shared)
    }
}
pub const CPU_LIMIT_S: i64 = 10;
pub fn arm() {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: CPU_LIMIT_S, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 150, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
    }
}
fn child_setup() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if std::env::var_os("SVDSIM_VERBOSE").is_none() {
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if fd >= 0 {
                libc::dup2(fd, 2);
            }
        }
    }
}
struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    sh: &'static Shared,
    base: u64,
}
fn spawn(sh: &'static Shared, base: u64, f: impl FnOnce(&Shared) -> Value) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0, "pipe");
    }
    sh.cur.store(u64::MAX, SeqCst);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        child_setup();
        let v = f(sh);
        let s = serde_json::to_vec(&v).unwrap_or_default();
        let mut at = 0;
        while at < s.len() {
            let n = unsafe { libc::write(fds[1], s[at..].as_ptr() as *const _, s.len() - at) };
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    Child { pid, fd: fds[0], buf: Vec::new(), sh, base }
}
pub fn status_class(st: i32) -> Option<String> {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        return Some(match s {
            libc::SIGVTALRM => format!("no end after {CPU_LIMIT_S} s of processor time"),
            libc::SIGALRM => "wall".into(),
            libc::SIGABRT => "process aborted (stack overflow, double panic or failed allocation)".into(),
            libc::SIGSEGV | libc::SIGBUS => "segmentation fault".into(),
            libc::SIGKILL => "killed".into(),
            s => format!("ended by signal {s}"),
        });
    }
    match libc::WEXITSTATUS(st) {
        0 => None,
        sys::EXIT_BUDGET => Some("memory: more allocated than the work allows".into()),
        sys::EXIT_DEADLOCK => Some("deadlock: no thread can run".into()),
        n => Some(format!("exit status {n}")),
    }
}
impl Child {
    /// More to read?
    fn pump(&mut self) -> bool {
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len()) };
        if n > 0 {
            self.buf.extend_from_slice(&b[..n as usize]);
            return true;
        }
        n < 0 && unsafe { *libc::__errno_location() } == libc::EINTR
    }
    fn reap(self) -> (Option<Value>, Option<String>) {
        let mut st = 0;
        unsafe {
            libc::close(self.fd);
            while libc::waitpid(self.pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        }
        (serde_json::from_slice(&self.buf).ok(), status_class(st))
    }
}

/// The outcome of the last of these runs, executed in order in one fresh process.
pub fn eval(p: &Prop, runs: &[Value], verbose: bool) -> Out {
    let sh = shared();
    let r = eval_in(sh, p, runs, verbose);
    unsafe {
        libc::munmap(sh as *const _ as *mut _, 4096);
    }
    r
}
fn eval_in(sh: &'static Shared, p: &Prop, runs: &[Value], verbose: bool) -> Out {
    let mut c = spawn(sh, 0, |sh| {
        let mut last = json!(null);
        for (i, sc) in runs.iter().enumerate() {
            sh.cur.store(i as u64, SeqCst);
            arm();
            let (o, _) = exec(p, sc, verbose && i + 1 == runs.len());
            last = match o {
                Out::Ok(d) => json!({"ok": d}),
                Out::Viol(c, m) => json!({"class": c, "msg": m}),
            };
        }
        last
    });
    while c.pump() {}
    let (v, cls) = c.reap();
    if let Some(c) = cls {
        return Out::Viol(c.clone(), c);
    }
    let v = v.unwrap_or(json!(null));
    if let Some(d) = v.get("ok").and_then(|x| x.as_u64()) {
        return Out::Ok(d);
    }
    Out::Viol(
        v["class"].as_str().unwrap_or("no answer").to_string(),
        v["msg"].as_str().unwrap_or("").to_string(),
    )
}

// ---------------------------------------------------------------- minimisation

fn replace_at(v: &Value, path: &str, x: Value) -> Option<Value> {
    let mut v = v.clone();
    *v.pointer_mut(path)? = x;
    Some(v)
}
fn paths(v: &Value, here: String, out: &mut Vec<(String, usize)>) {
    match v {
        Value::Array(a) => {
            out.push((here.clone(), a.len()));
            for (i, x) in a.iter().enumerate() {
                paths(x, format!("{here}/{i}"), out);
            }
        }
        Value::Object(m) => {
            out.push((here.clone(), m.len()));
            for (k, x) in m {
                paths(x, format!("{here}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        _ => out.push((here, 0)),
    }
}
pub fn shrink(p: &Prop, prelude: &[Value], sc: &Value, class: &str, limit: Duration) -> (Value, u64) {
    let t0 = Instant::now();
    let sh = shared();
    let mut best = sc.clone();
    let mut n = 0;
    let bad = |x: &Value, n: &mut u64| -> bool {
        *n += 1;
        let mut v = prelude.to_vec();
        v.push(x.clone());
        eval_in(sh, p, &v, false).class() == class
    };
    'all: loop {
        let size = best.to_string().len();
        // remove pieces of lists, large first, then keys, then simplify values
        let mut ps = Vec::new();
        paths(&best, String::new(), &mut ps);
        for (path, _) in ps {
            if t0.elapsed() > limit {
                break 'all;
            }
            let Some(cur) = best.pointer(&path).cloned() else { continue };
            match cur {
                Value::Array(_) => {
                    let mut step = best.pointer(&path).and_then(|x| x.as_array()).map(|a| a.len()).unwrap_or(0);
                    while step > 0 {
                        let mut i = 0;
                        loop {
                            if t0.elapsed() > limit {
                                break 'all;
                            }
                            let Some(Value::Array(a)) = best.pointer(&path) else { break };
                            if i >= a.len() {
                                break;
                            }
                            let mut b = a.clone();
                            let e = (i + step).min(b.len());
                            b.drain(i..e);
                            match replace_at(&best, &path, Value::Array(b)) {
                                Some(x) if bad(&x, &mut n) => best = x,
                                _ => i += step,
                            }
                        }
                        step /= 2;
                    }
                }
                Value::Object(m) => {
                    for k in m.keys() {
                        if t0.elapsed() > limit {
                            break 'all;
                        }
                        let Some(Value::Object(m)) = best.pointer(&path) else { break };
                        let mut b = m.clone();
                        b.remove(k);
                        if let Some(x) = replace_at(&best, &path, Value::Object(b)) {
                            if bad(&x, &mut n) {
                                best = x;
                            }
                        }
                    }
                }
                Value::Number(x) => {
                    let mut c = x.as_u64().unwrap_or(0);
                    for t in [0, 1] {
                        if c > t {
                            if let Some(y) = replace_at(&best, &path, json!(t)) {
                                if bad(&y, &mut n) {
                                    best = y;
                                    c = t;
                                    break;
                                }
                            }
                        }
                    }
                    let mut d = c / 2;
                    while d > 0 && c > 1 {
                        if t0.elapsed() > limit {
                            break 'all;
                        }
                        match replace_at(&best, &path, json!(c - d)) {
                            Some(y) if bad(&y, &mut n) => {
                                best = y;
                                c -= d;
                                d = d.min(c / 2);
                            }
                            _ => d /= 2,
                        }
                        if n > 200_000 {
                            break;
                        }
                    }
                }
                Value::String(s) if s.chars().count() > 1 => {
                    let cs: Vec<char> = s.chars().collect();
                    for k in [1, cs.len() / 2] {
                        let t: String = cs[..k].iter().collect();
                        if let Some(y) = replace_at(&best, &path, json!(t)) {
                            if bad(&y, &mut n) {
                                best = y;
                                break;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if best.to_string().len() >= size {
            break;
        }
    }
    unsafe {
        libc::munmap(sh as *const _ as *mut _, 4096);
    }
    (best, n)
}

// ---------------------------------------------------------------- batches

struct Found {
    idx: u64,
    base: u64,
    out: Out,
}

pub struct Batch {
    pub runs: u64,
    pub nontrivial: u64,
    pub cnt: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub simtime: u64,
    pub samples: Vec<Value>,
    pub digests: Vec<(u64, u64)>,
    pub wall_killed: Vec<u64>,
}

fn run_chunk(p: &Prop, seed: u64, tier: &Tier, from: u64, to: u64, sh: &Shared) -> Value {
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut states = BTreeSet::new();
    let mut distinct = Vec::new();
    let (mut n, mut nt, mut time) = (0u64, 0u64, 0u64);
    let mut dig = Vec::new();
    let mut v = json!(null);
    let mut sample = json!(null);
    for i in from..to {
        sh.cur.store(i, SeqCst);
        arm();
        let sc = scenario(p, seed, i, tier);
        let (o, c) = exec(p, &sc, false);
        n += 1;
        time = time.saturating_add(c.simtime);
        for (k, x) in c.cnt {
            *cnt.entry(k).or_default() += x;
        }
        states.extend(c.states);
        if c.nontrivial {
            nt += 1;
            distinct.push(hash_bytes(sc.to_string().as_bytes()) ^ c.log);
            if sample.is_null() && sc.to_string().len() < 6000 {
                sample = json!({"index": i, "scenario": sc});
            }
        }
        match o {
            Out::Ok(d) => {
                if i % 64 == 0 {
                    dig.push(json!([i, d]));
                }
            }
            Out::Viol(c, m) => {
                v = json!({"i": i, "class": c, "msg": m});
                break;
            }
        }
    }
    json!({"n": n, "nt": nt, "cnt": cnt, "states": states, "distinct": distinct, "time": time, "dig": dig, "viol": v, "sample": sample})
}

fn batch(p: &'static Prop, seed: u64, tier: &Tier, secs: u64, workers: usize, max_runs: u64) -> (Batch, Vec<Found>) {
    let t0 = Instant::now();
    let mut b = Batch {
        runs: 0,
        nontrivial: 0,
        cnt: BTreeMap::new(),
        states: HashSet::new(),
        distinct: HashSet::new(),
        simtime: 0,
        samples: vec![],
        digests: vec![],
        wall_killed: vec![],
    };
    let mut found: Vec<Found> = vec![];
    let mut next = 0u64;
    let mut redo: Vec<(u64, u64)> = vec![];
    let mut live: Vec<Child> = vec![];
    let mut pool: Vec<&'static Shared> = (0..workers).map(|_| shared()).collect();
    loop {
        let stop = !found.is_empty() || t0.elapsed().as_secs() >= secs;
        while !stop && live.len() < workers && (next < max_runs || !redo.is_empty()) {
            let (f, t) = redo.pop().unwrap_or_else(|| {
                let f = next;
                next = (next + p.chunk).min(max_runs);
                (f, next)
            });
            let sh = pool.pop().unwrap();
            live.push(spawn(sh, f, |sh| run_chunk(p, seed, tier, f, t, sh)));
        }
        if live.is_empty() {
            break;
        }
        let mut pf: Vec<libc::pollfd> =
            live.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, 1000) };
        let mut i = 0;
        let rev: Vec<i16> = pf.iter().map(|x| x.revents).collect();
        for r in rev {
            if r == 0 || live[i].pump() {
                i += 1;
                continue;
            }
            let c = live.remove(i);
            let (base, sh) = (c.base, c.sh);
            let end = (base / p.chunk + 1) * p.chunk;
            let (v, cls) = c.reap();
            let cur = sh.cur.load(SeqCst);
            pool.push(sh);
            if let Some(cls) = cls {
                if cur == u64::MAX {
                    b.wall_killed.push(base);
                } else {
                    b.runs += cur - base + 1;
                    if cls == "wall" || cls == "killed" {
                        b.wall_killed.push(cur);
                    } else {
                        found.push(Found { idx: cur, base, out: Out::Viol(cls.clone(), cls) });
                    }
                    if cur + 1 < end.min(max_runs) {
                        redo.push((cur + 1, end.min(max_runs)));
                    }
                }
                continue;
            }
            let Some(v) = v else { continue };
            b.runs += v["n"].as_u64().unwrap_or(0);
            b.nontrivial += v["nt"].as_u64().unwrap_or(0);
            b.simtime = b.simtime.saturating_add(v["time"].as_u64().unwrap_or(0));
            if let Some(m) = v["cnt"].as_object() {
                for (k, x) in m {
                    *b.cnt.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
                }
            }
            for (set, k) in [(&mut b.states, "states"), (&mut b.distinct, "distinct")] {
                if set.len() < 20_000_000 {
                    set.extend(v[k].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
                }
            }
            for d in v["dig"].as_array().into_iter().flatten() {
                b.digests.push((d[0].as_u64().unwrap_or(0), d[1].as_u64().unwrap_or(0)));
            }
            if !v["sample"].is_null() && b.samples.len() < 3 {
                b.samples.push(v["sample"].clone());
            }
            if let Some(i) = v["viol"]["i"].as_u64() {
                found.push(Found {
                    idx: i,
                    base,
                    out: Out::Viol(
                        v["viol"]["class"].as_str().unwrap_or("").to_string(),
                        v["viol"]["msg"].as_str().unwrap_or("").to_string(),
                    ),
                });
            }
        }
    }
    found.sort_by_key(|f| f.idx);
    (b, found)
}

pub fn read_replay(path: &str) -> Option<(String, Vec<Value>, String)> {
    let mut s = String::new();
    std::fs::File::open(path).ok()?.read_to_string(&mut s).ok()?;
    let v: Value = serde_json::from_str(&s).ok()?;
    Some((
        v["property"].as_str()?.to_string(),
        v["runs"].as_array()?.clone(),
        v["class"].as_str().unwrap_or("").to_string(),
    ))
}

fn write_file(path: &str, s: &str) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Ok(mut f) = std::fs::File::create(path) {
        let _ = f.write_all(s.as_bytes());
    }
}

/// The minimal earlier runs a failure depends on; None if it cannot be reproduced.
fn confirm(p: &'static Prop, seed: u64, tier: &Tier, f: &Found) -> Option<(Vec<Value>, Value, Out)> {
    let main = scenario(p, seed, f.idx, tier);
    for _ in 0..2 {
        let o = eval(p, &[main.clone()], false);
        if let Out::Viol(c, _) = &o {
            if c != "wall" && c != "killed" {
                return Some((vec![], main, o));
            }
        }
    }
    let mut pre: Vec<Value> = (f.base..f.idx).map(|i| scenario(p, seed, i, tier)).collect();
    let go = |pre: &[Value]| {
        let mut v = pre.to_vec();
        v.push(main.clone());
        eval(p, &v, false)
    };
    let o = go(&pre);
    let Out::Viol(c, _) = &o else { return None };
    let c = c.clone();
    if c == "wall" || c == "killed" {
        return None;
    }
    let mut step = pre.len();
    while step > 0 {
        let mut i = 0;
        while i < pre.len() {
            let mut t = pre.clone();
            t.drain(i..(i + step).min(pre.len()));
            if go(&t).class() == c {
                pre = t;
            } else {
                i += step;
            }
        }
        step /= 2;
    }
    Some((pre, main, o))
}

/// Where replays, evidence and findings are kept.
fn root() -> String {
    std::env::var("SVDSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub struct Known {
    pub replay: String,
    pub text: String,
}
fn known(id: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN-FINDING: property={id} ")) {
                let mut it = r.splitn(2, ' ');
                if let (Some(a), Some(t)) = (it.next(), it.next()) {
                    if let Some(x) = a.strip_prefix("replay=") {
                        out.push(Known { replay: x.to_string(), text: t.to_string() });
                    }
                }
            }
        }
    }
    out
}

pub fn check(p: &'static Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let secs: u64 = std::env::var("SVDSIM_SECS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if tier.thorough { 600 } else { 60 });
    let workers = std::env::var("SVDSIM_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16));
    println!("property {} seed {seed} tier {} workers {workers}", p.id, if tier.thorough { "thorough" } else { "quick" });
    let mut viols = 0u64;
    let mut lines: Vec<String> = vec![];
    // findings on record
    let mut known_n = 0;
    for k in known(p.id) {
        if let Some((_, runs, class)) = read_replay(&format!("{}/{}", root(), k.replay)) {
            match eval(p, &runs, false) {
                Out::Viol(c, _) if c == class => {
                    known_n += 1;
                    println!("KNOWN-FINDING: property={} {}", p.id, k.text);
                }
                Out::Viol(c, m) => {
                    viols += 1;
                    eprintln!("{c}: {m}");
                    lines.push(format!("VIOLATION property={} replay={}/{}", p.id, root(), k.replay));
                }
                Out::Ok(_) => {}
            }
        }
    }
    // histories that failed once, on defects since repaired
    let mut past = 0;
    let dir = format!("{}/regress/{}", root(), p.id);
    let mut files: Vec<_> = std::fs::read_dir(&dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let f = f.display().to_string();
        if let Some((_, runs, _)) = read_replay(&f) {
            past += 1;
            if let Out::Viol(c, m) = eval(p, &runs, false) {
                if c == "wall" || c == "killed" {
                    continue;
                }
                viols += 1;
                eprintln!("{c}: {m}");
                lines.push(format!("VIOLATION property={} replay={f}", p.id));
                break;
            }
        }
    }
    let (b, found) = if viols == 0 {
        batch(p, seed, &tier, secs, workers, u64::MAX / 4)
    } else {
        batch(p, seed, &tier, 1, workers, p.chunk)
    };
    let search = t0.elapsed().as_secs_f64();
    let mut unconfirmed = 0u64;
    if viols == 0 {
        for f in found.iter().take(4) {
            match confirm(p, seed, &tier, f) {
                Some((pre, main, o)) => {
                    let Out::Viol(class, _) = &o else { continue };
                    let lim = Duration::from_secs(if tier.thorough { 90 } else { 25 });
                    let (small, tries) = shrink(p, &pre, &main, class, lim);
                    let mut runs = pre.clone();
                    runs.push(small);
                    let (runs, o2) = match eval(p, &runs, false) {
                        Out::Ok(_) => {
                            let mut r = pre.clone();
                            r.push(main);
                            (r, o)
                        }
                        x => (runs, x),
                    };
                    let Out::Viol(class, msg) = &o2 else { continue };
                    let path = format!("{}/out/{}-seed{}-run{}.json", root(), p.id, seed, f.idx);
                    let v = json!({"property": p.id, "seed": seed, "index": f.idx, "class": class, "message": msg,
                        "minimisation_runs": tries, "runs": runs});
                    write_file(&path, &serde_json::to_string_pretty(&v).unwrap_or_default());
                    viols += 1;
                    eprintln!("{class}: {msg}");
                    lines.push(format!("VIOLATION property={} replay={path}", p.id));
                    break;
                }
                None => {
                    unconfirmed += 1;
                    eprintln!("not reproduced: run {} {:?}", f.idx, f.out);
                }
            }
        }
    }
    // the same runs again, in processes of their own
    let mut same = 0u64;
    let mut differ = vec![];
    if viols == 0 {
        let t = Instant::now();
        let stride = (b.digests.len() / 40).max(1);
        for (i, d) in b.digests.iter().step_by(stride) {
            if t.elapsed().as_secs() > 10 {
                break;
            }
            match eval(p, &[scenario(p, seed, *i, &tier)], false) {
                Out::Ok(x) if x == *d => same += 1,
                _ => differ.push(*i),
            }
        }
        if !differ.is_empty() {
            eprintln!("runs that differ when repeated: {differ:?}");
        }
    }
    if !b.wall_killed.is_empty() {
        eprintln!("ended by the wall clock: {:?}", b.wall_killed);
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&str, u64> =
        b.cnt.iter().filter_map(|(k, v)| k.strip_prefix("fault: ").map(|k| (k, *v))).collect();
    let reach: BTreeMap<&str, u64> =
        b.cnt.iter().filter_map(|(k, v)| k.strip_prefix("reach: ").map(|k| (k, *v))).collect();
    let other: BTreeMap<&String, &u64> =
        b.cnt.iter().filter(|(k, _)| !k.starts_with("fault: ") && !k.starts_with("reach: ")).collect();
    let per_hour = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let ev = json!({
        "property": p.id,
        "tier": if tier.thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "violations": viols,
        "wall_s": wall,
        "assumptions": p.assumptions,
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": b.distinct.len(),
            "rule": p.rule,
            "samples": b.samples,
            "simulated_runs": b.runs,
            "runs_per_hour": per_hour(b.runs),
            "seeds_per_hour": per_hour(b.runs),
            "simulated_seconds": b.simtime as f64 / 1e9,
            "faults_injected": faults,
            "conditions_reached": reach,
            "counters": other,
            "blocks_of_the_code_reached": sys::blocks().0,
            "blocks_of_the_code": sys::blocks().1,
            "distinct_states": b.states.len(),
            "state_measure": p.measure,
            "real_code": p.real,
            "stubs": p.stub,
            "runs_repeated_identically": same,
            "runs_repeated_differently": differ.len(),
            "past_failures_replayed": past,
            "known_findings_seen": known_n,
            "unconfirmed": unconfirmed,
            "ended_by_wall_clock": b.wall_killed.len(),
        }
    });
    write_file(&format!("{}/evidence/{}.json", root(), p.id), &serde_json::to_string_pretty(&ev).unwrap_or_default());
    println!(
        "{} runs, {} distinct and not trivial, {} states, {:.1} s, {} repeated identically, {} differently",
        b.runs,
        b.distinct.len(),
        b.states.len(),
        wall,
        same,
        differ.len()
    );
    for l in &lines {
        println!("{l}");
    }
    if viols > 0 {
        1
    } else {
        0
    }
}

/// Every run of the first `n` twice, in different processes and groupings: the logs agree.
pub fn determinism(p: &'static Prop, seed: u64, n: u64) -> u64 {
    let tier = Tier { thorough: false };
    let collect = |workers: usize, chunk: u64| -> BTreeMap<u64, u64> {
        let mut m = BTreeMap::new();
        let mut live: Vec<Child> = vec![];
        let mut next = 0;
        while next < n || !live.is_empty() {
            while next < n && live.len() < workers {
                let (f, t) = (next, (next + chunk).min(n));
                next = t;
                live.push(spawn(shared(), f, |_| {
                    let mut o = vec![];
                    for i in f..t {
                        arm();
                        let (r, c) = exec(p, &scenario(p, seed, i, &tier), false);
                        let d = match r {
                            Out::Ok(d) => d,
                            Out::Viol(c, m) => hash_bytes(format!("{c}{m}").as_bytes()),
                        };
                        // memory grows once per process for tables the code builds lazily
                        let cnt: Vec<_> = c.cnt.iter().filter(|(k, _)| !k.starts_with("bytes")).collect();
                        let s = format!("{cnt:?}{:?}", c.states);
                        o.push(json!([i, d ^ hash_bytes(s.as_bytes())]));
                    }
                    json!(o)
                }));
            }
            let mut c = live.remove(0);
            while c.pump() {}
            let (v, _) = c.reap();
            for x in v.unwrap_or(json!([])).as_array().into_iter().flatten() {
                m.insert(x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0));
            }
        }
        m
    };
    let a = collect(8, 50);
    let b = collect(3, 7);
    let mut bad = 0;
    for i in 0..n {
        if a.get(&i) != b.get(&i) || a.get(&i).is_none() {
            bad += 1;
            eprintln!("{} run {i} differs: {:?} {:?}", p.id, a.get(&i), b.get(&i));
        }
    }
    println!("{}: {} runs twice, {} differ", p.id, n, bad);
    bad
}
