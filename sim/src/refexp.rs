//! Reference model of expansion: walks the written tree by path instead of keeping an
//! index, never copies an element before it is final, and knows where every inherited
//! part was defined.

use crate::gen::{at, idxs, inst_names, subst, Addr};
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    NotFound(String),
    Cycle(String),
    /// a position does not fit its width
    Range(String),
    /// index list and count differ
    Count(String),
    /// more elements than the harness is willing to compare
    TooBig,
}

pub struct Ix<'a> {
    d: &'a El,
}

type P = Vec<String>;

fn matches(e: &El, n: &str) -> bool {
    e.name() == n || (e.is_array() && inst_names_safe(e).iter().any(|x| x == n))
}
fn inst_names_safe(e: &El) -> Vec<String> {
    if e.n("dim").unwrap_or(0) > 4096 {
        return vec![];
    }
    inst_names(e)
}

impl<'a> Ix<'a> {
    pub fn new(d: &'a El) -> Ix<'a> {
        Ix { d }
    }
    fn peripheral(&self, n: &str) -> Option<&'a El> {
        self.d.grp("peripherals").iter().rev().find(|p| matches(p, n))
    }
    fn block(&self, p: &[String]) -> Option<&'a El> {
        let mut e = self.peripheral(p.first()?)?;
        for n in &p[1..] {
            e = kids(e).iter().rev().find(|c| c.k == K::Cluster && matches(c, n))?;
        }
        Some(e)
    }
    fn cluster(&self, p: &[String]) -> Option<&'a El> {
        self.block(p).filter(|e| e.k == K::Cluster)
    }
    fn register(&self, p: &[String]) -> Option<&'a El> {
        let (n, b) = p.split_last()?;
        kids(self.block(b)?)
            .iter()
            .rev()
            .find(|c| c.k == K::Register && matches(c, n))
    }
    fn field(&self, p: &[String]) -> Option<&'a El> {
        let (n, b) = p.split_last()?;
        self.register(b)?.grp("fields").iter().rev().find(|c| matches(c, n))
    }
    fn evs(&self, p: &[String]) -> Option<&'a El> {
        let (n, b) = p.split_last()?;
        self.field(b)?
            .grp("enumeratedValues")
            .iter()
            .rev()
            .find(|c| c.sr("name") == Some(n))
    }
    /// The element that `text`, written on an element of kind `k` whose parent is at
    /// `parent`, names, with the path it is found at.
    fn target(&self, k: K, text: &str, parent: &[String]) -> Result<(&'a El, P), Bad> {
        let nf = || Bad::NotFound(text.to_string());
        let parts: P = text.split('.').map(|s| s.to_string()).collect();
        let rel = |n: &str| {
            let mut p = parent.to_vec();
            p.push(n.to_string());
            p
        };
        let path = match k {
            K::Peripheral => vec![text.to_string()],
            K::Evs => {
                // parent is the path of the field
                let reg = &parent[..parent.len() - 1];
                match parts.len() {
                    1 => {
                        let r = self.register(reg).ok_or_else(nf)?;
                        let mut found = None;
                        for f in r.grp("fields") {
                            let mut p = reg.to_vec();
                            p.push(f.name().to_string());
                            p.push(parts[0].clone());
                            if self.evs(&p).is_some() {
                                found = Some(p);
                                break;
                            }
                        }
                        found.ok_or_else(nf)?
                    }
                    2 => [reg, &parts].concat(),
                    3 => [&reg[..reg.len() - 1], &parts].concat(),
                    _ => parts,
                }
            }
            _ if parts.len() == 1 => rel(text),
            K::Field if parts.len() == 2 => return Err(nf()),
            _ => parts,
        };
        let e = match k {
            K::Peripheral => self.peripheral(text),
            K::Cluster => self.cluster(&path),
            K::Register => self.register(&path),
            K::Field => self.field(&path),
            _ => self.evs(&path),
        };
        Ok((e.ok_or_else(nf)?, path))
    }
    /// The element itself and every element it inherits from, nearest first, each with its path.
    fn chain(&self, e: &'a El, own: P) -> Result<Vec<(&'a El, P)>, Bad> {
        let mut v = vec![(e, own)];
        loop {
            let (c, p) = v.last().unwrap();
            let Some(t) = c.sr("@derivedFrom") else { return Ok(v) };
            let (n, q) = self.target(e.k, t, &p[..p.len() - 1])?;
            if v.iter().any(|(x, _)| std::ptr::eq(*x, n)) {
                return Err(Bad::Cycle(q.join(".")));
            }
            v.push((n, q));
        }
    }
    pub fn resolves(&self, d: &El, a: &Addr) -> bool {
        let e = at(d, a);
        let Some(t) = e.sr("@derivedFrom") else { return true };
        let path: P = (1..a.len()).map(|n| at(d, &a[..n]).name().to_string()).collect();
        self.target(e.k, t, &path).is_ok()
    }
}

fn kids(e: &El) -> &[El] {
    match e.k {
        K::Peripheral => e.grp("registers"),
        _ => e.grp("children"),
    }
}

/// Fields a derived element takes from the one it names.
pub fn inherited(k: K) -> &'static [&'static str] {
    match k {
        K::Peripheral => &[
            "version",
            "description",
            "groupName",
            "prependToName",
            "appendToName",
            "headerStructName",
            "size",
            "access",
            "protection",
            "resetValue",
            "resetMask",
        ],
        K::Cluster => &[
            "headerStructName",
            "size",
            "access",
            "protection",
            "resetValue",
            "resetMask",
        ],
        K::Register => &[
            "description",
            "size",
            "access",
            "protection",
            "resetValue",
            "resetMask",
            "dataType",
            "writeConstraint",
            "readAction",
            "modifiedWriteValues",
        ],
        K::Field => &[
            "description",
            "access",
            "writeConstraint",
            "readAction",
            "modifiedWriteValues",
        ],
        K::Evs => &["usage"],
        _ => &[],
    }
}

/// Name, description, index and position step of every instance.
pub struct Inst {
    pub name: String,
    pub description: Option<String>,
    pub idx: String,
    pub i: u64,
}
pub fn instances(e: &El) -> Result<Vec<Inst>, Bad> {
    let n = e.n("dim").unwrap_or(0);
    if n > 4096 {
        return Err(Bad::TooBig);
    }
    let ix = idxs(e);
    if ix.len() as u64 != n {
        return Err(Bad::Count(e.name().to_string()));
    }
    let mut v = Vec::new();
    for (i, idx) in ix.into_iter().enumerate() {
        let mut name = subst(e.name(), &idx);
        let mut description = e.s("description").map(|d| subst(&d, &idx));
        for d in e.grp("dimArrayIndex") {
            if let Some(x) = d
                .grp("values")
                .iter()
                .find(|x| x.n("value").map(|v| v.to_string()) == Some(idx.clone()))
            {
                name = x.name().to_string();
                if let Some(t) = x.s("description") {
                    description = Some(t);
                }
            }
        }
        v.push(Inst {
            name,
            description,
            idx,
            i: i as u64,
        });
    }
    Ok(v)
}

struct Ex<'a> {
    ix: Ix<'a>,
    left: usize,
    /// clusters whose contents are being laid out
    active: Vec<*const El>,
}

impl<'a> Ex<'a> {
    fn spend(&mut self, n: usize) -> Result<(), Bad> {
        if self.left < n {
            return Err(Bad::TooBig);
        }
        self.left -= n;
        Ok(())
    }
    /// Own scalar properties first, then those of the chain; and the array shape.
    fn merge(&mut self, ch: &[(&'a El, P)]) -> El {
        let own = ch[0].0;
        let mut m = El::new(own.k);
        m.f = own.f.clone();
        m.f.remove("@derivedFrom");
        if let Some(v) = own.g.get("dimArrayIndex") {
            m.g.insert("dimArrayIndex", v.clone());
        }
        for (d, _) in &ch[1..] {
            for n in inherited(own.k) {
                if !m.f.contains_key(n) {
                    if let Some(v) = d.f.get(n) {
                        m.f.insert(n, v.clone());
                    }
                }
            }
            if own.k.dimable() && !m.is_array() && d.is_array() && m.name().contains("%s") {
                for n in ["dim", "dimIncrement", "dimIndex"] {
                    if let Some(v) = d.f.get(n) {
                        m.f.insert(intern(n).unwrap(), v.clone());
                    }
                }
                if let Some(v) = d.g.get("dimArrayIndex") {
                    m.g.insert("dimArrayIndex", v.clone());
                }
            }
        }
        m
    }
    fn strip_dim(e: &mut El) {
        for n in ["dim", "dimIncrement", "dimIndex", "dimName"] {
            e.f.remove(n);
        }
        e.g.remove("dimArrayIndex");
    }
    fn evs(&mut self, e: &'a El, fpath: &P) -> Result<El, Bad> {
        self.spend(1)?;
        let mut own = fpath.clone();
        own.push(e.sr("name").unwrap_or("").to_string());
        let ch = self.ix.chain(e, own)?;
        let mut m = self.merge(&ch);
        let v = ch.iter().map(|(x, _)| x.grp("values")).find(|v| !v.is_empty());
        let v = v.unwrap_or(&[]).to_vec();
        self.spend(v.len())?;
        m.g.insert("values", v);
        Ok(m)
    }
    fn field(&mut self, e: &'a El, rpath: &P, out: &mut Vec<El>) -> Result<(), Bad> {
        self.spend(1)?;
        let mut own = rpath.clone();
        own.push(e.name().to_string());
        let ch = self.ix.chain(e, own)?;
        let mut m = self.merge(&ch);
        let sup = ch
            .iter()
            .find(|(x, _)| !x.grp("enumeratedValues").is_empty())
            .unwrap_or(&ch[0]);
        let mut v = Vec::new();
        for x in sup.0.grp("enumeratedValues") {
            v.push(self.evs(x, &sup.1)?);
        }
        m.g.insert("enumeratedValues", v);
        if !m.is_array() {
            out.push(m);
            return Ok(());
        }
        let inc = m.n("dimIncrement").unwrap_or(0);
        let cost = m.count();
        for x in instances(&m)? {
            self.spend(cost)?;
            let mut c = m.clone();
            Self::strip_dim(&mut c);
            c.set_s("name", x.name);
            c.f.remove("description");
            if let Some(d) = x.description {
                c.set_s("description", d);
            }
            let (o, w, _) = m.bits().unwrap();
            let o = o + x.i * inc;
            if o > u32::MAX as u64 {
                return Err(Bad::Range(m.name().into()));
            }
            c.f.insert("bits", V::R(o, w, Bt::OffWidth));
            out.push(c);
        }
        Ok(())
    }
    fn register(&mut self, e: &'a El, block: &P, out: &mut Vec<El>) -> Result<(), Bad> {
        self.spend(1)?;
        let mut own = block.clone();
        own.push(e.name().to_string());
        let ch = self.ix.chain(e, own)?;
        let mut m = self.merge(&ch);
        if let Some((x, p)) = ch.iter().find(|(x, _)| x.g.contains_key("fields")) {
            let mut v = Vec::new();
            for f in x.grp("fields") {
                self.field(f, p, &mut v)?;
            }
            m.g.insert("fields", v);
        }
        if !m.is_array() {
            out.push(m);
            return Ok(());
        }
        let cost = m.count();
        for x in instances(&m)? {
            self.spend(cost)?;
            out.push(self.instance(&m, x, "addressOffset", u32::MAX as u64, true)?);
        }
        Ok(())
    }
    fn instance(&mut self, m: &El, x: Inst, pos: &'static str, max: u64, disp: bool) -> Result<El, Bad> {
        let mut c = m.clone();
        Self::strip_dim(&mut c);
        c.set_s("name", x.name);
        c.f.remove("description");
        if let Some(d) = x.description {
            c.set_s("description", d);
        }
        if disp {
            if let Some(d) = m.s("displayName") {
                c.set_s("displayName", subst(&d, &x.idx));
            }
        }
        let inc = m.n("dimIncrement").unwrap_or(0) as u128;
        let o = m.n(pos).unwrap_or(0) as u128 + x.i as u128 * inc;
        if o > max as u128 {
            return Err(Bad::Range(m.name().into()));
        }
        c.set_n(pos, o as u64);
        Ok(c)
    }
    fn cluster(&mut self, e: &'a El, block: &P, out: &mut Vec<El>) -> Result<(), Bad> {
        self.spend(1)?;
        let mut own = block.clone();
        own.push(e.name().to_string());
        let ch = self.ix.chain(e, own)?;
        let m = self.merge(&ch);
        let sup = ch
            .iter()
            .find(|(x, _)| !x.grp("children").is_empty())
            .unwrap_or(&ch[0]);
        let me: *const El = sup.0;
        if self.active.contains(&me) {
            return Err(Bad::Cycle(sup.1.join(".")));
        }
        self.active.push(me);
        let mut inner = Vec::new();
        for c in sup.0.grp("children") {
            self.rc(c, &sup.1, &mut inner)?;
        }
        self.active.pop();
        let cost: usize = inner.iter().map(|c| c.count()).sum();
        let copies = if m.is_array() {
            let mut v = Vec::new();
            for x in instances(&m)? {
                v.push(self.instance(&m, x, "addressOffset", u32::MAX as u64, false)?);
            }
            v
        } else {
            vec![m]
        };
        for c in copies {
            self.spend(cost)?;
            for r in &inner {
                let mut r = r.clone();
                let n = format!("{}_{}", c.name(), r.name());
                r.set_s("name", n);
                let o = r.n("addressOffset").unwrap() + c.n("addressOffset").unwrap();
                if o > u32::MAX as u64 {
                    return Err(Bad::Range(c.name().into()));
                }
                r.set_n("addressOffset", o);
                out.push(r);
            }
        }
        Ok(())
    }
    fn rc(&mut self, e: &'a El, block: &P, out: &mut Vec<El>) -> Result<(), Bad> {
        if e.k == K::Cluster {
            self.cluster(e, block, out)
        } else {
            self.register(e, block, out)
        }
    }
    fn peripheral(&mut self, e: &'a El, out: &mut Vec<El>) -> Result<(), Bad> {
        self.spend(1)?;
        let ch = self.ix.chain(e, vec![e.name().to_string()])?;
        let mut m = self.merge(&ch);
        if let Some((x, p)) = ch.iter().find(|(x, _)| x.g.contains_key("registers")) {
            let mut v = Vec::new();
            for c in x.grp("registers") {
                self.rc(c, p, &mut v)?;
            }
            m.g.insert("registers", v);
        }
        if let Some((x, _)) = ch.iter().find(|(x, _)| x.g.contains_key("addressBlock")) {
            m.g.insert("addressBlock", x.grp("addressBlock").to_vec());
        }
        let i = ch.iter().map(|(x, _)| x.grp("interrupt")).find(|v| !v.is_empty());
        m.g.insert("interrupt", i.unwrap_or(&[]).to_vec());
        if !m.is_array() {
            out.push(m);
            return Ok(());
        }
        let cost = m.count();
        for x in instances(&m)? {
            self.spend(cost)?;
            out.push(self.instance(&m, x, "baseAddress", u64::MAX, true)?);
        }
        Ok(())
    }
}

/// The description expansion must give, or why it must be an error.
pub fn expand(d: &El, limit: usize) -> Result<El, Bad> {
    let mut ex = Ex {
        ix: Ix::new(d),
        left: limit,
        active: Vec::new(),
    };
    let mut v = Vec::new();
    for p in d.grp("peripherals") {
        ex.peripheral(p, &mut v)?;
    }
    let mut o = d.clone();
    o.g.insert("peripherals", v);
    Ok(o)
}

/// True when two elements of one scope could be meant by the same path, or a name cannot
/// be part of a path: which one a reference then means is not defined.
pub fn ambiguous(d: &El) -> bool {
    fn scope(v: &[El], k: &[K]) -> bool {
        let mut seen = std::collections::HashSet::new();
        for e in v.iter().filter(|e| k.contains(&e.k)) {
            let mut ns = vec![e.name().to_string()];
            if e.is_array() {
                ns.extend(inst_names_safe(e));
            }
            ns.sort();
            ns.dedup();
            for n in ns {
                if n.contains('.') || n.is_empty() || !seen.insert(n) {
                    return true;
                }
            }
        }
        false
    }
    for e in d.all() {
        for (g, v) in &e.g {
            let bad = match *g {
                "peripherals" => scope(v, &[K::Peripheral]),
                "registers" | "children" => scope(v, &[K::Register]) || scope(v, &[K::Cluster]),
                "fields" => scope(v, &[K::Field]),
                "enumeratedValues" => {
                    let n: Vec<&str> = v.iter().filter_map(|e| e.sr("name")).collect();
                    let u: std::collections::HashSet<&&str> = n.iter().collect();
                    u.len() != n.len() || n.iter().any(|s| s.contains('.'))
                }
                _ => false,
            };
            if bad {
                return true;
            }
        }
    }
    false
}

/// Reference model of applying inherited register defaults.
pub fn expand_properties(d: &El) -> El {
    fn over(e: &El, base: &[Option<V>; 5]) -> [Option<V>; 5] {
        let mut o = base.clone();
        for (i, n) in PROP_NAMES.iter().enumerate() {
            if let Some(v) = e.f.get(n) {
                o[i] = Some(v.clone());
            }
        }
        o
    }
    fn go(v: &mut [El], base: &[Option<V>; 5]) {
        for e in v {
            if e.f.contains_key("@derivedFrom") {
                continue;
            }
            let eff = over(e, base);
            if e.k == K::Register {
                for (i, n) in PROP_NAMES.iter().enumerate() {
                    if let Some(v) = &eff[i] {
                        e.f.insert(intern(n).unwrap(), v.clone());
                    }
                }
            } else {
                let g = if e.k == K::Peripheral { "registers" } else { "children" };
                if let Some(c) = e.g.get_mut(g) {
                    go(c, &eff);
                }
            }
        }
    }
    let mut o = d.clone();
    let base = over(d, &[None, None, None, None, None]);
    if let Some(v) = o.g.get_mut("peripherals") {
        go(v, &base);
    }
    o
}

/// Number of elements of the expanded description, if it stays under the limit.
pub fn size_of(d: &El, limit: usize) -> Option<usize> {
    match expand(d, limit) {
        Ok(e) => Some(e.count()).filter(|_| naive(d) <= limit as u64),
        Err(Bad::TooBig) => None,
        Err(_) => {
            // refused, but perhaps only after much of it was resolved
            let n = naive(d).saturating_mul(refs(d) + 1);
            (n <= limit as u64).then_some(n as usize)
        }
    }
}
fn naive(e: &El) -> u64 {
    let own: u64 = e.g.values().flatten().map(naive).fold(1, u64::saturating_add);
    own.saturating_mul(e.n("dim").filter(|_| e.is_array()).unwrap_or(1).max(1))
}
fn refs(e: &El) -> u64 {
    e.sr("@derivedFrom").is_some() as u64 + e.g.values().flatten().map(refs).sum::<u64>()
}
