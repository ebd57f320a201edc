//! C05: calls at the same time, after others, under other hash keys and clocks.
//!
//! A run forks one process in which an earlier history is replayed and then the threads
//! run under the scheduler, and for every call one pristine process in which it runs
//! alone under other hash keys and another clock. The answers have to be the same.

use crate::conv;
use crate::damage;
use crate::enc;
use crate::gen::{self, Gen};
use crate::model::*;
use crate::ops;
use crate::p_edit;
use crate::p_parse;
use crate::refparse;
use crate::refval::Lv;
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::sched;
use crate::ses::{arr, cfg, cut, gen_cfg, gen_some, num, text, write};
use crate::sys;
use crate::xmlw::Style;
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use svd_rs::Device;

pub static C05: Prop = Prop {
    id: "C05",
    gen: gen_c05,
    run: run_c05,
    chunk: 25,
    rule: "a run starts a process, replays an earlier history in it (calls that succeed, fail and panic), then lets two or three threads make calls on shared descriptions under a schedule, and compares every answer with the one the same call gives alone in a fresh process under other hash keys and another clock; non-trivial: the schedule moved between threads at least once inside a call, or an earlier call failed or panicked",
    measure: "distinct schedules as executed (hash of every switch and the step it came at)",
    real: "svd-rs, svd-parser, svd-encoder, once_cell, regex, std locks and thread-locals",
    stub: "thread scheduling (one runs at a time, moved at allocations, frees, blocking, waking, randomness), hash keys, clock",
    assumptions: &[
        "threads switch at allocations, frees, futex calls, clock and randomness reads, not between single memory accesses",
        "memory is sequentially consistent",
    ],
};

const OPS: &[&str] =
    &["load", "load", "load", "hurt", "part", "part", "part", "part", "validate", "validate", "build", "edit", "expand", "expand", "props", "save", "json", "yaml", "import", "import"];
fn gen_call(r: &mut Rng, docs: usize, names: &[String], only: &str) -> Value {
    let op = match only {
        "" => *r.pick(OPS),
        // nothing that takes a description made before
        "cold" => *r.pick(&["load", "load", "hurt", "part", "part", "part", "build", "import"]),
        x => x,
    };
    let mut v = json!({"op": op, "doc": r.usize(docs)});
    match op {
        "load" | "hurt" => {
            v["cfg"] = gen_cfg(r);
            if op == "hurt" {
                v["hurt"] = json!((0..r.range(1, 3)).map(|_| damage::gen_xml(r)).collect::<Vec<_>>());
            }
        }
        "part" => {
            v["el"] = json!(r.below(1 << 10));
            v["level"] = json!(*r.pick(&[0u64, 1, 2, 2, 2]));
            if r.pct(80) {
                v["name"] = json!(r.pick(names));
                v["as"] = json!(*r.pick(&["name", "name", "name", "derived", "alternate"]));
            }
        }
        "validate" | "build" => v["level"] = json!(r.below(3)),
        "edit" => v["steps"] = json!((0..r.range(1, 4)).map(|_| p_edit::gen_step(r)).collect::<Vec<_>>()),
        "save" => {
            v["enc"] = enc::gen(r);
            v["sink"] = gen_end(r);
        }
        "json" => v["sink"] = gen_end(r),
        "import" => v["source"] = gen_end(r),
        _ => {}
    }
    v
}
/// How the other end of a transfer behaves: short and interrupted, failing, or panicking.
fn gen_end(r: &mut Rng) -> Value {
    json!({"chunk": *r.pick(&[0u64, 1, 7, 64]), "at": r.below(600), "end": *r.pick(&["", "", "fail", "panic"])})
}
fn gen_c05(r: &mut Rng, t: &Tier) -> Value {
    let nd = r.range(1, 3) as usize;
    let docs: Vec<Value> = (0..nd)
        .map(|_| {
            let mut g: Gen = gen_some(r, false);
            g.peripherals = r.range(1, 2);
            g.regs = r.range(1, 3);
            g.fields = r.below(3);
            if r.pct(30) {
                g.refs = 40;
                g.any_graph = r.pct(40);
            }
            let mut d = gen::device(r, &g);
            for o in ops::gen_ops(r, r.clone().below(3), &[]) {
                ops::apply(&mut d, &o);
            }
            d.to_json()
        })
        .collect();
    let names: Vec<String> = (0..3)
        .map(|_| if r.pct(70) { r.pick(p_parse::NAMES).to_string() } else { gen::text(r).chars().take(12).collect() })
        .collect();
    // what the calls have in common: nothing, or being of one kind
    let parts = *r.pick(&["part", "part", "cold", "cold", "", "", "", "one", "one", "one"]);
    let parts = if parts == "one" { *r.pick(&["save", "save", "load", "expand", "import", "json", "validate", "edit", "build"]) } else { parts };
    let nt = r.range(2, if t.thorough { 4 } else { 3 });
    let same = r.pct(30).then(|| gen_call(r, nd, &names, parts));
    let threads: Vec<Vec<Value>> = (0..nt)
        .map(|_| {
            (0..r.range(1, if parts == "part" { 12 } else { 3 }))
                .map(|_| match &same {
                    Some(c) if r.pct(if parts == "part" { 30 } else { 70 }) => c.clone(),
                    _ => gen_call(r, nd, &names, parts),
                })
                .collect()
        })
        .collect();
    let before: Vec<Value> = if r.pct(if parts == "cold" { 90 } else { 50 }) {
        vec![]
    } else {
        (0..r.range(1, 4))
            .map(|_| {
                let mut c = gen_call(r, nd, &names, "");
                if r.pct(50) {
                    c["rep"] = json!(*r.pick(&[2u64, 5, 20, 140]));
                }
                c
            })
            .collect()
    };
    // at which kind of point to switch, and how far apart
    let kind = *r.pick(&[0u64, 0, 1, 1, 1, 2, 2]);
    let span = 1u64 << match kind {
        0 => r.range(5, 15),
        1 => r.range(5, 19),
        _ => r.range(2, 12),
    };
    let plan: Vec<Value> = if r.pct(25) {
        // often
        let every = r.range(1, (span / 20).max(1));
        (1..r.range(20, 200)).map(|i| json!([i * every, r.below(8), kind])).collect()
    } else {
        let mut p: Vec<u64> = (0..r.range(0, 8)).map(|_| r.below(span)).collect();
        p.sort();
        p.into_iter().map(|s| json!([s, r.below(8), kind])).collect()
    };
    json!({"docs": docs, "threads": threads, "before": before, "plan": plan, "sched": r.below(1 << 30), "other": {"hash": r.next() >> 1, "clock": r.below(1 << 60)}})
}

// ---------------------------------------------------------------- calls

struct End {
    data: Vec<u8>,
    pos: usize,
    left: u64,
    chunk: usize,
    end: String,
    odd: bool,
}
impl End {
    fn new(data: Vec<u8>, v: &Value) -> End {
        End { data, pos: 0, left: num(v, "at"), chunk: num(v, "chunk") as usize, end: text(v, "end").into(), odd: false }
    }
    fn take(&mut self, n: usize) -> io::Result<usize> {
        if !self.end.is_empty() && self.left == 0 {
            if self.end == "panic" {
                panic!("the other end panics");
            }
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        self.odd = !self.odd;
        if self.chunk == 7 && self.odd {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = n;
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        if !self.end.is_empty() {
            n = n.min(self.left as usize);
            self.left -= n as u64;
        }
        Ok(n)
    }
}
impl Read for End {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.take(b.len().min(self.data.len() - self.pos))?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for End {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.take(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Stock {
    docs: Vec<El>,
    devs: Vec<Option<Device>>,
    texts: Vec<String>,
    data: Vec<Vec<u8>>,
}
/// Calls that take a description that exists already.
fn takes_device(v: &Value) -> bool {
    matches!(text(v, "op"), "validate" | "edit" | "expand" | "props" | "save" | "json" | "yaml")
}
impl Stock {
    /// What the calls start from. Code under test runs here only as far as needed, so
    /// that its first use can come in the threads.
    fn new(sc: &Value, calls: &[Value], data: &Value) -> Stock {
        sys::quiet(|| {
            let docs: Vec<El> = arr(sc, "docs").iter().filter_map(El::from_json).collect();
            let need = calls.iter().any(takes_device);
            let devs: Vec<Option<Device>> = docs
                .iter()
                .map(|d| if need { conv::build_device(d, svd_rs::ValidateLevel::Disabled).ok() } else { None })
                .collect();
            let texts = docs.iter().map(|d| write(d, &Style::plain())).collect();
            let data = data.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").as_bytes().to_vec()).collect();
            Stock { docs, devs, texts, data }
        })
    }
}
/// The data forms, made in a process of their own.
fn data_forms(sc: &Value, calls: &[Value]) -> Value {
    if !calls.iter().any(|v| text(v, "op") == "import") {
        return json!([]);
    }
    apart(|| {
        sys::quiet(|| {
            json!(arr(sc, "docs")
                .iter()
                .filter_map(El::from_json)
                .map(|d| {
                    let d = conv::build_device(&d, svd_rs::ValidateLevel::Disabled).ok();
                    d.and_then(|d| serde_json::to_string(&d).ok()).unwrap_or_default()
                })
                .collect::<Vec<_>>())
        })
    })
    .unwrap_or(json!([]))
}
/// The answer of a call as text, and whether it failed or panicked.
fn call(v: &Value, st: &Stock) -> (String, u8) {
    fn dev<E: std::fmt::Display>(r: Result<Device, E>) -> (String, u8) {
        sys::quiet(|| match &r {
            Ok(d) => (format!("{d:?}"), 0),
            Err(e) => (format!("error {e:#}"), 1),
        })
    }
    fn unit<E: std::fmt::Display>(r: Result<String, E>) -> (String, u8) {
        sys::quiet(|| match &r {
            Ok(d) => (d.clone(), 0),
            Err(e) => (format!("error {e:#}"), 1),
        })
    }
    let i = num(v, "doc") as usize;
    let Some(doc) = st.docs.get(i) else { return ("none".into(), 0) };
    let d = st.devs.get(i).and_then(|d| d.as_ref());
    let (true, d) = (d.is_some() || !takes_device(v), d) else { return ("none".into(), 0) };
    let r = guard(|| match text(v, "op") {
        "load" if sys::quiet(|| crate::refexp::size_of(doc, 3000).is_none()) => ("skipped".into(), 0),
        "load" => dev(svd_parser::parse_with_config(&st.texts[i], &cfg(&v["cfg"]))),
        "hurt" => {
            let s = sys::quiet(|| {
                let mut b = st.texts[i].clone().into_bytes();
                for f in arr(v, "hurt") {
                    damage::apply(&mut b, &f, st.texts[0].as_bytes());
                }
                String::from_utf8_lossy(&b).into_owned()
            });
            // what damage turned into a huge array is not loaded here
            if s.len() > 200_000 || sys::quiet(|| huge(&s)) {
                return ("skipped".into(), 0);
            }
            dev(svd_parser::parse_with_config(&s, &cfg(&v["cfg"])))
        }
        "part" => part(doc, v),
        "validate" => unit(d.unwrap().validate_all(Lv::from(num(v, "level")).real()).map(|_| "valid".to_string())),
        "build" => dev(conv::build_device(doc, Lv::from(num(v, "level")).real())),
        "edit" => {
            let mut x = d.unwrap().clone();
            let mut out = String::new();
            for s in arr(v, "steps") {
                let m = sys::quiet(|| conv::el_device(&x));
                let r = p_edit::blind(&mut x, &m, &s);
                sys::quiet(|| out.push_str(&format!("{r:?};")));
            }
            sys::quiet(|| (format!("{out}{x:?}"), 0))
        }
        "expand" => {
            if sys::quiet(|| crate::refexp::size_of(doc, 3000).is_none()) {
                return ("skipped".into(), 0);
            }
            dev(svd_parser::expand(d.unwrap()))
        }
        "props" => {
            let mut x = d.unwrap().clone();
            svd_parser::expand_properties(&mut x);
            dev::<String>(Ok(x))
        }
        "save" => {
            let r = svd_encoder::encode_with_config(d.unwrap(), &enc::config(&v["enc"]));
            let mut s = End::new(vec![], &v["sink"]);
            match r {
                Ok(t) => unit(s.write_all(t.as_bytes()).map(|_| String::from_utf8_lossy(&s.data).into_owned())),
                Err(e) => unit::<String>(Err(format!("{e:#}"))),
            }
        }
        "json" => {
            let mut s = End::new(vec![], &v["sink"]);
            let r = serde_json::to_writer(&mut s, d.unwrap());
            unit(r.map(|_| String::from_utf8_lossy(&s.data).into_owned()))
        }
        "yaml" => unit(serde_yaml::to_string(d.unwrap())),
        "import" => {
            let b = sys::quiet(|| st.data.get(i).cloned().unwrap_or_default());
            dev(serde_json::from_reader::<_, Device>(End::new(b, &v["source"])))
        }
        _ => ("none".into(), 0),
    });
    sys::quiet(|| r.unwrap_or_else(|(at, m)| (format!("panic at {at}: {m}"), 2)))
}
/// One element of a description, built and validated on its own.
fn part(doc: &El, v: &Value) -> (String, u8) {
    let x = sys::quiet(|| {
        let all = doc.all();
        let mut x = all[num(v, "el") as usize % all.len()].clone();
        if let Some(n) = v["name"].as_str() {
            match text(v, "as") {
                "derived" if x.k.derivable() => x.set_s("@derivedFrom", n),
                "alternate" if x.k == K::Register => x.set_s("alternateGroup", n),
                _ => x.set_s("name", n),
            };
        }
        x
    });
    let l = Lv::from(num(v, "level")).real();
    fn tell<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> (String, u8) {
        sys::quiet(|| match &r {
            Ok(d) => (format!("{d:?}"), 0),
            Err(e) => (format!("error {e:#}"), 1),
        })
    }
    match x.k {
        K::Device => tell(conv::build_device(&x, l)),
        K::Peripheral => tell(conv::build_peripheral(&x, l)),
        K::Cluster => tell(conv::build_cluster(&x, l)),
        K::Register => tell(conv::build_register(&x, l)),
        K::Field => tell(conv::build_field(&x, l)),
        K::Evs => tell(conv::build_evs(&x, l)),
        K::Ev => tell(conv::build_ev(&x, l)),
        K::Dai => tell(conv::build_dai(&x, l)),
        K::Interrupt => tell(conv::build_int(&x, l)),
        K::AddressBlock => tell(conv::build_ab(&x, l)),
        K::Cpu => tell(conv::build_cpu(&x, l)),
    }
}
fn huge(s: &str) -> bool {
    let p = refparse::parse(s, &refparse::Opt { level: Lv::Off, ignore_enums: false });
    p.declared > 3000 || p.quirk == Some("huge array") || p.dev.is_some_and(|d| crate::refexp::size_of(&d, 3000).is_none())
}

// ---------------------------------------------------------------- processes

/// Runs `f` in a child and returns what it says, or how it ended.
fn apart(f: impl FnOnce() -> Value) -> Result<Value, String> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err("killed".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Err("killed".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            arm();
            let v = f();
            let s = sys::quiet(|| serde_json::to_vec(&v).unwrap_or_default());
            let mut at = 0;
            while at < s.len() {
                let n = libc::write(fds[1], s[at..].as_ptr() as *const _, s.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len());
            if n > 0 {
                buf.extend_from_slice(&b[..n as usize]);
            } else if n == 0 || *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        match status_class(st) {
            Some(c) => Err(c),
            None => serde_json::from_slice(&buf).map_err(|_| "no answer".to_string()),
        }
    }
}

fn run_c05(sc: &Value, c: &mut Ctx) -> Res {
    let env = sc["env"].clone();
    let threads: Vec<Vec<Value>> =
        arr(sc, "threads").iter().map(|t| t.as_array().cloned().unwrap_or_default()).take(8).collect();
    let plan: Vec<(u64, u64, u64)> = arr(sc, "plan")
        .iter()
        .map(|p| (p[0].as_u64().unwrap_or(0), p[1].as_u64().unwrap_or(0), p[2].as_u64().unwrap_or(0).min(2)))
        .collect();
    let seed = num(sc, "sched");
    let n = threads.len();
    if n == 0 {
        return Ok(());
    }
    let calls: Vec<Value> = threads.iter().flatten().cloned().chain(arr(sc, "before")).collect();
    let data = data_forms(sc, &calls);
    // every call alone
    let mut alone: Vec<(Value, String)> = vec![];
    for t in &threads {
        for v in t {
            if alone.iter().any(|(x, _)| x == v) {
                continue;
            }
            let o = &sc["other"];
            let r = apart(|| {
                sys::set_env(num(o, "hash"), num(o, "clock"), 1, 2 << 30);
                let st = Stock::new(sc, std::slice::from_ref(v), &data);
                let (s, k) = call(v, &st);
                sys::quiet(|| json!([s, k]))
            });
            match r {
                Ok(x) => alone.push((v.clone(), x[0].as_str().unwrap_or("").to_string())),
                Err(e) => {
                    // how a call ends that is made alone is judged by C01, C07
                    c.hit(&format!("alone: {e}"));
                    return Ok(());
                }
            }
        }
    }
    // all of them together, after what came before
    let r = apart(|| {
        sys::set_env(num(&env, "hash"), num(&env, "clock"), num(&env, "step").max(1), 4 << 30);
        let st = Arc::new(Stock::new(sc, &calls, &data));
        let mut odd = [0u64; 3];
        for v in arr(sc, "before") {
            for _ in 0..num(&v, "rep").clamp(1, 200) {
                let (_, k) = call(&v, &st);
                odd[k as usize] += 1;
            }
        }
        let out: Arc<Mutex<Vec<(usize, usize, String)>>> = Arc::new(Mutex::new(Vec::with_capacity(64)));
        let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
            .iter()
            .cloned()
            .enumerate()
            .map(|(i, t)| {
                let (st, out) = (st.clone(), out.clone());
                Box::new(move || {
                    for (j, v) in t.iter().enumerate() {
                        sched::point();
                        let (s, _) = call(v, &st);
                        sys::quiet(|| {
                            if let Ok(mut o) = out.lock() {
                                o.push((i, j, s));
                            }
                        });
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let rep = sched::run(bodies, &plan, seed, 4 << 20);
        sys::quiet(|| {
            let o = out.lock().map(|o| o.clone()).unwrap_or_default();
            json!({"out": o, "trace": rep.trace, "steps": rep.steps, "switches": rep.switches, "blocks": rep.blocks, "used": rep.used, "points": rep.points, "odd": odd})
        })
    });
    let v = match r {
        Ok(v) => v,
        Err(e) if e == "wall" || e == "killed" => return Ok(()),
        Err(e) => return viol(format!("together: {e}"), e),
    };
    let m = |k: &str| num(&v, k);
    c.ev(&format!("steps {} switches {} trace {}", m("steps"), m("switches"), m("trace")));
    c.state(m("trace"));
    c.add("scheduling points", m("steps"));
    c.add("fault: thread switch forced by the plan", m("used"));
    for (i, k) in ["coarse points", "points", "accesses to static memory"].iter().enumerate() {
        c.add(k, v["points"][i].as_u64().unwrap_or(0));
    }
    c.add("switches", m("switches"));
    c.add("fault: thread blocked on another", m("blocks"));
    for (i, k) in [(1, "fault: earlier call failed"), (2, "fault: earlier call panicked")] {
        c.add(k, v["odd"][i].as_u64().unwrap_or(0));
    }
    c.nontrivial = m("used") > 0 || v["odd"][1].as_u64() > Some(0) || v["odd"][2].as_u64() > Some(0);
    for x in arr(&v, "out") {
        let (i, j) = (x[0].as_u64().unwrap_or(0) as usize, x[1].as_u64().unwrap_or(0) as usize);
        let s = x[2].as_str().unwrap_or("");
        let Some(q) = threads.get(i).and_then(|t| t.get(j)) else { continue };
        let Some((_, want)) = alone.iter().find(|(y, _)| y == q) else { continue };
        c.ev(&format!("{i}.{j} {} {}", text(q, "op"), hash_bytes(s.as_bytes())));
        if s.starts_with("panic") {
            c.fault("call panicked");
        } else if s.starts_with("error") {
            c.fault("call failed");
        }
        if s != want {
            let at = s.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
            let near = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 90).min(s.len())]).into_owned();
            return viol(
                format!("{} answers differently", text(q, "op")),
                cut(&format!("alone: {}; here: {}", near(want), near(s))),
            );
        }
    }
    Ok(())
}
