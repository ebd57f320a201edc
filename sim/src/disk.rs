//! The simulated disk: what programs read back at once, what survives a crash, and what
//! goes wrong on the way. Single process, no real file is touched.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::rc::Rc;

use crate::rng::Rng;

pub const SECTOR: usize = 512;

#[derive(Clone)]
enum P {
    Trunc,
    Put(usize, Vec<u8>),
}
#[derive(Default, Clone)]
struct F {
    /// survives a crash for certain
    durable: Option<Vec<u8>>,
    /// what the running system sees
    live: Option<Vec<u8>>,
    /// not yet durable, in order
    pend: Vec<P>,
}

#[derive(Default)]
struct D {
    files: BTreeMap<String, F>,
    /// (operation number, kind, argument)
    plan: Vec<(u64, String, u64)>,
    op: u64,
    dead: bool,
    fired: BTreeMap<&'static str, u64>,
    full: bool,
}
#[derive(Clone, Default)]
pub struct Disk(Rc<RefCell<D>>);

pub struct Handle {
    d: Disk,
    name: String,
    pos: usize,
}

pub fn gone() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "crashed")
}

/// How a crash treats what was not durable.
#[derive(Clone, Debug)]
pub struct Image {
    /// the truncation that starts the save reached the disk
    pub trunc: bool,
    /// permille of the unsynced bytes that reached the disk, in order
    pub keep: u64,
    /// permille of the rest by which the file is longer than its data (reads as zeros)
    pub grow: u64,
    /// sectors (number modulo the count) among the kept ones that read as zeros
    pub holes: Vec<u64>,
}
impl Image {
    pub fn gen(r: &mut Rng) -> Image {
        let trunc = !r.pct(15);
        Image {
            trunc,
            keep: match if trunc { r.below(6) } else { r.below(2) } {
                0 => 1000,
                1 => 0,
                2 => 1000 - r.below(40),
                _ => r.below(1001),
            },
            grow: *r.pick(&[0, 0, 0, 1000, 500]),
            holes: if r.pct(20) { (0..r.range(1, 3)).map(|_| r.below(64)).collect() } else { vec![] },
        }
    }
    pub fn to_json(&self) -> Value {
        json!({"trunc": self.trunc, "keep": self.keep, "grow": self.grow, "holes": self.holes})
    }
    pub fn from_json(v: &Value) -> Image {
        Image {
            trunc: v["trunc"].as_bool().unwrap_or(true),
            keep: v["keep"].as_u64().unwrap_or(1000).min(1000),
            grow: v["grow"].as_u64().unwrap_or(0).min(1000),
            holes: v["holes"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
        }
    }
}

impl Disk {
    pub fn new() -> Disk {
        Disk::default()
    }
    /// Faults for the operations from now on, numbered from 0.
    pub fn plan(&self, v: &Value) {
        let mut d = self.0.borrow_mut();
        d.op = 0;
        d.plan = v
            .as_array()
            .map(|a| {
                a.iter()
                    .filter_map(|f| {
                        Some((f.get("at")?.as_u64()?, f.get("k")?.as_str()?.to_string(), f.get("n").and_then(|x| x.as_u64()).unwrap_or(0)))
                    })
                    .collect()
            })
            .unwrap_or_default();
    }
    pub fn fired(&self) -> BTreeMap<&'static str, u64> {
        self.0.borrow().fired.clone()
    }
    pub fn ops(&self) -> u64 {
        self.0.borrow().op
    }
    pub fn create(&self, name: &str) -> io::Result<Handle> {
        let mut d = self.0.borrow_mut();
        if d.dead {
            return Err(gone());
        }
        let f = d.files.entry(name.to_string()).or_default();
        f.live = Some(Vec::new());
        f.pend.push(P::Trunc);
        drop(d);
        Ok(Handle { d: self.clone(), name: name.to_string(), pos: 0 })
    }
    pub fn open(&self, name: &str) -> io::Result<Handle> {
        let d = self.0.borrow();
        if d.dead {
            return Err(gone());
        }
        match d.files.get(name).and_then(|f| f.live.as_ref()) {
            Some(_) => Ok(Handle { d: self.clone(), name: name.to_string(), pos: 0 }),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
    pub fn sync(&self, name: &str) -> io::Result<()> {
        let mut d = self.0.borrow_mut();
        if d.dead {
            return Err(gone());
        }
        let op = d.op;
        d.op += 1;
        if let Some(i) = d.plan.iter().position(|p| p.0 == op && (p.1 == "eio" || p.1 == "crash")) {
            let k = d.plan[i].1.clone();
            if k == "crash" {
                d.dead = true;
                *d.fired.entry("crash during save").or_default() += 1;
            } else {
                *d.fired.entry("I/O error").or_default() += 1;
            }
            return Err(gone());
        }
        if let Some(f) = d.files.get_mut(name) {
            f.durable = f.live.clone();
            f.pend.clear();
        }
        Ok(())
    }
    pub fn is_dead(&self) -> bool {
        self.0.borrow().dead
    }
    /// Puts bytes on the disk as they are (the medium, not a program, changed them).
    pub fn set(&self, name: &str, b: Vec<u8>) {
        let mut d = self.0.borrow_mut();
        let f = d.files.entry(name.to_string()).or_default();
        f.live = Some(b.clone());
        f.durable = Some(b);
        f.pend.clear();
    }
    pub fn bytes(&self, name: &str) -> Option<Vec<u8>> {
        self.0.borrow().files.get(name).and_then(|f| f.live.clone())
    }
    /// The machine stops and starts again.
    pub fn crash(&self, im: &Image) {
        let mut d = self.0.borrow_mut();
        d.dead = false;
        d.full = false;
        d.plan.clear();
        *d.fired.entry("crash and restart").or_default() += 1;
        let mut torn = 0;
        let mut hole = 0;
        let mut tail = 0;
        for f in d.files.values_mut() {
            if f.pend.is_empty() {
                f.live = f.durable.clone();
                continue;
            }
            let total: usize = f.pend.iter().map(|p| if let P::Put(_, b) = p { b.len() } else { 0 }).sum();
            let mut left = (total as u64 * im.keep / 1000) as usize;
            let keep = left;
            let mut img = f.durable.clone();
            let all = im.keep == 1000;
            for p in std::mem::take(&mut f.pend) {
                match p {
                    P::Trunc => {
                        if im.trunc {
                            img = Some(Vec::new());
                        } else if !all {
                            // neither the truncation nor, then, the data
                            left = 0;
                        }
                    }
                    P::Put(at, b) => {
                        let n = left.min(b.len());
                        left -= n;
                        if n > 0 {
                            let v = img.get_or_insert_with(Vec::new);
                            if v.len() < at + n {
                                v.resize(at + n, 0);
                            }
                            v[at..at + n].copy_from_slice(&b[..n]);
                        }
                    }
                }
            }
            if im.trunc {
                if let Some(v) = &mut img {
                    if v.len() == keep && keep < total {
                        torn += 1;
                    }
                    let n = v.len();
                    let grow = (total - keep) as u64 * im.grow / 1000;
                    v.resize(n + grow as usize, 0);
                    let secs = n.div_ceil(SECTOR);
                    for h in &im.holes {
                        if secs > 0 {
                            let s = *h as usize % secs * SECTOR;
                            let e = (s + SECTOR).min(n);
                            v[s..e].fill(0);
                            hole += 1;
                        }
                    }
                }
            }
            if !im.trunc && all && img.as_ref().map(|v| v.len()) > f.live.as_ref().map(|v| v.len()) {
                tail += 1;
            }
            f.live = img.clone();
            f.durable = img;
        }
        if tail > 0 {
            *d.fired.entry("truncation lost").or_default() += tail;
        }
        if torn > 0 {
            *d.fired.entry("torn save").or_default() += torn;
        }
        if hole > 0 {
            *d.fired.entry("lost sector").or_default() += hole;
        }
    }
    pub fn read_all(&self, name: &str) -> io::Result<Vec<u8>> {
        let mut h = self.open(name)?;
        let mut v = Vec::new();
        h.read_to_end(&mut v)?;
        Ok(v)
    }
    /// Writes and syncs; Ok means acknowledged.
    pub fn save(&self, name: &str, b: &[u8]) -> io::Result<()> {
        let mut h = self.create(name)?;
        h.write_all(b)?;
        self.sync(name)
    }
}

impl Handle {
    fn fault(&mut self, write: bool, want: usize) -> io::Result<usize> {
        let mut d = self.d.0.borrow_mut();
        if d.dead {
            return Err(gone());
        }
        if write && d.full {
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        let op = d.op;
        d.op += 1;
        let f = d.plan.iter().find(|p| p.0 == op).cloned();
        let Some((_, k, n)) = f else {
            return Ok(want);
        };
        let (what, r) = match k.as_str() {
            "short" if want > 1 => ("short transfer", Ok(1 + n as usize % want)),
            "eintr" => ("interrupted call", Err(io::ErrorKind::Interrupted.into())),
            "eio" => ("I/O error", Err(io::Error::from_raw_os_error(libc::EIO))),
            "enospc" if write => {
                d.full = true;
                ("disk full", Err(io::Error::from_raw_os_error(libc::ENOSPC)))
            }
            "nowrite" if write => ("write of nothing", Ok(0)),
            "crash" => {
                d.dead = true;
                ("crash during save", Err(gone()))
            }
            _ => return Ok(want),
        };
        *d.fired.entry(what).or_default() += 1;
        r
    }
}
impl Write for Handle {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.fault(true, b.len())?;
        let mut d = self.d.0.borrow_mut();
        let f = d.files.get_mut(&self.name).ok_or_else(gone)?;
        let v = f.live.get_or_insert_with(Vec::new);
        if v.len() < self.pos + n {
            v.resize(self.pos + n, 0);
        }
        v[self.pos..self.pos + n].copy_from_slice(&b[..n]);
        f.pend.push(P::Put(self.pos, b[..n].to_vec()));
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Handle {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let have = {
            let d = self.d.0.borrow();
            d.files.get(&self.name).and_then(|f| f.live.as_ref()).map(|v| v.len()).unwrap_or(0)
        };
        let want = b.len().min(have.saturating_sub(self.pos));
        let n = self.fault(false, want)?;
        let d = self.d.0.borrow();
        let v = d.files.get(&self.name).and_then(|f| f.live.as_ref()).ok_or_else(gone)?;
        b[..n].copy_from_slice(&v[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Transfer faults that the caller must survive, and some that it cannot.
pub fn gen_faults(r: &mut Rng, fatal: u64, ops: u64) -> Value {
    let mut v = Vec::new();
    let n = *r.pick(&[0u64, 0, 1, 2, 4, 8]);
    for _ in 0..n {
        let k = *r.pick(&["short", "short", "eintr", "short"]);
        v.push(json!({"at": r.below(ops), "k": k, "n": r.below(5000)}));
    }
    if r.pct(fatal) {
        let k = *r.pick(&["eio", "enospc", "crash", "nowrite", "eio"]);
        v.push(json!({"at": r.below(ops), "k": k, "n": 0}));
    }
    Value::Array(v)
}
