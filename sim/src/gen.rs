//! Generates device descriptions.

use crate::model::*;
use crate::rng::Rng;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Gen {
    /// 2: satisfies the strict rules, 1: the weak rules, 0: readable only
    pub level: u8,
    pub peripherals: u64,
    pub regs: u64,
    pub fields: u64,
    pub depth: u64,
    /// percent of arrays among elements that may be arrays
    pub arrays: u64,
    /// percent of elements that refer to another
    pub refs: u64,
    /// references may form any graph
    pub any_graph: bool,
    /// optional values present, percent
    pub opt: u64,
    /// boundary numbers, percent
    pub edge: u64,
    /// names and positions that keep expansion unambiguous and within range
    pub expandable: bool,
    pub enums: u64,
}

impl Gen {
    pub fn small(r: &mut Rng) -> Gen {
        Gen {
            level: 2,
            peripherals: r.range(1, 3),
            regs: r.range(1, 4),
            fields: r.range(0, 4),
            depth: r.below(3),
            arrays: *r.pick(&[0, 20, 50]),
            refs: *r.pick(&[0, 0, 15, 40]),
            any_graph: false,
            opt: *r.pick(&[10, 40, 70]),
            edge: *r.pick(&[0, 10, 30]),
            expandable: false,
            enums: *r.pick(&[0, 30, 60]),
        }
    }
}

const STEMS: &[&str] = &[
    "A", "B", "CR", "SR", "TIM", "GPIO", "Ctrl", "data", "x_", "_y", "Mode", "R0b", "Ab1C", "EN", "Cfg_a",
];
const WORDS: &[&str] = &[
    "control", "status", "a & b", "x < y", "\"quoted\"", "it's", "é", "λx", "温度", "-> [%s]", "%s", "100%",
    "two  spaces", "line\nbreak", "tab\there", "]]", "0x10", "yes", "null", "~", "1e3", "- item", "#tag", "a: b",
    "{}", "\\n", "🙂", "true", "&amp;", "<b>",
];
const ODD: &[&str] = &["has space", "9x", "a-b", "é", "x[1]", "a,b", "A+B", "x:y"];

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub c: Gen,
}

/// Gives one array far more members than the others have.
pub fn enlarge(r: &mut Rng, d: &mut El) {
    fn arrays<'a>(e: &'a mut El, out: &mut Vec<&'a mut El>) {
        if e.is_array() && e.all().len() < 5 && matches!(e.k, K::Register | K::Field | K::Cluster | K::Peripheral) {
            out.push(e);
            return;
        }
        for (_, g) in e.g.iter_mut() {
            for x in g {
                arrays(x, out);
            }
        }
    }
    let mut v = vec![];
    arrays(d, &mut v);
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len() as u64) as usize;
    let n = *r.pick(&[99, 100, 127, 128, 200, 255, 256, 257, 300]);
    let s = *r.pick(&[0, 0, 1, 5]);
    let e = &mut v[i];
    e.set_n("dim", n);
    e.f.remove("dimIndex");
    if s > 0 || r.pct(30) {
        e.f.insert("dimIndex", V::L((s..s + n).map(|i| i.to_string()).collect()));
    }
}
pub fn text(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(*r.pick(WORDS));
    }
    let s = v.join(if r.pct(80) { " " } else { "\n" });
    if r.pct(3) {
        return s.repeat(r.range(2, 40) as usize).trim().to_string();
    }
    s.trim().to_string()
}

pub fn num32(r: &mut Rng, edge: u64) -> u32 {
    if r.pct(edge) {
        *r.pick(&[
            0,
            1,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_ffff,
            0xffff_fffe,
            0xffff,
            0x1_0000,
        ])
    } else {
        (r.below(64) * 4) as u32
    }
}
pub fn num64(r: &mut Rng, edge: u64) -> u64 {
    if r.pct(edge) {
        *r.pick(&[
            0,
            1,
            0xffff_ffff,
            0x1_0000_0000,
            0x7fff_ffff_ffff_ffff,
            0x8000_0000_0000_0000,
            u64::MAX,
            0x8000_0000,
        ])
    } else {
        0x4000_0000 + r.below(1 << 16) * 4
    }
}

/// Names the elements of an array get, or the one name of a single element.
pub fn inst_names(e: &El) -> Vec<String> {
    if !e.is_array() {
        return vec![e.name().to_string()];
    }
    idxs(e)
        .into_iter()
        .map(|i| {
            for d in e.grp("dimArrayIndex") {
                for v in d.grp("values") {
                    if v.n("value").map(|x| x.to_string()) == Some(i.clone()) {
                        return v.name().to_string();
                    }
                }
            }
            subst(e.name(), &i)
        })
        .collect()
}
pub fn subst(s: &str, i: &str) -> String {
    s.replace("[%s]", i).replace("%s", i)
}
pub fn idxs(e: &El) -> Vec<String> {
    match e.l("dimIndex") {
        Some(l) => l,
        None => (0..e.n("dim").unwrap_or(0)).map(|i| i.to_string()).collect(),
    }
}

impl<'a> G<'a> {
    fn opt(&mut self) -> bool {
        let p = self.c.opt;
        self.r.pct(p)
    }
    /// From 1 to `max`, now and then more.
    fn few(&mut self, max: u64) -> u64 {
        if self.r.pct(2) {
            return self.r.range(max, 9);
        }
        self.r.range(1, max)
    }
    /// The same once more, sometimes.
    fn again(&mut self, v: &mut Vec<El>) {
        if self.r.pct(10) {
            let x = self.r.pick(v).clone();
            v.push(x);
        }
    }
    /// Two texts of an element that say the same, sometimes.
    fn alike(&mut self, e: &mut El) {
        const FREE: &[&str] = &["description", "displayName", "version", "groupName", "prependToName", "appendToName"];
        if self.r.pct(12) {
            let v: Vec<&'static str> = FREE.iter().copied().filter(|n| e.f.contains_key(n)).collect();
            if !v.is_empty() {
                let to = *self.r.pick(&v);
                let from = *self.r.pick(&v);
                let t = if self.r.pct(60) { e.name().to_string() } else { e.s(from).unwrap() };
                e.set_s(to, t);
            }
        }
        for n in ["alternateRegister", "alternateCluster", "alternatePeripheral"] {
            if e.f.contains_key(n) && self.r.pct(8) {
                let t = e.name().to_string();
                e.set_s(n, t);
            }
        }
        if e.f.contains_key("resetValue") && e.f.contains_key("resetMask") && self.r.pct(8) {
            let v = e.n("resetMask").unwrap();
            e.set_n("resetValue", v);
        }
    }
    fn ident(&mut self) -> String {
        let mut s = *self.r.pick(STEMS);
        if self.r.pct(4) {
            s = *self.r.pick(&["a", "b", "cr", "Sr", "DATA", "gpio"]);
        }
        if self.r.pct(40) {
            format!("{s}{}", self.r.pick(&["1", "2", "X", "_b", "q7"]))
        } else {
            s.to_string()
        }
    }
    fn name(&mut self) -> String {
        if self.c.level < 2 && !self.c.expandable && self.r.pct(15) {
            return self.r.pick(ODD).to_string();
        }
        self.ident()
    }
    fn opt_text(&mut self, e: &mut El, n: &'static str) {
        if self.opt() {
            let t = text(self.r);
            e.set_s(n, t);
        }
    }
    fn opt_enum(&mut self, e: &mut El, n: &'static str, v: &[&str]) {
        if self.opt() {
            let t = *self.r.pick(v);
            e.set_s(n, t);
        }
    }
    pub fn props(&mut self, e: &mut El) {
        let size = if self.opt() {
            Some(*self.r.pick(&[8u64, 16, 32, 32, 64, 1, 24]))
        } else {
            None
        };
        if let Some(s) = size {
            e.set_n("size", s);
        }
        self.opt_enum(e, "access", ACCESS);
        self.opt_enum(e, "protection", PROT);
        let lim = match size {
            Some(s) if s < 64 => (1u64 << s) - 1,
            _ => u64::MAX,
        };
        let mut mask = None;
        if self.opt() {
            let m = match self.r.below(3) {
                0 => lim,
                1 => self.r.next() & lim,
                _ => 0xff & lim,
            };
            mask = Some(m);
            e.set_n("resetMask", m);
        }
        if self.opt() {
            let mut v = match self.r.below(3) {
                0 => 0,
                1 => self.r.next() & lim,
                _ => lim,
            };
            if self.c.level == 2 {
                if let Some(m) = mask {
                    v &= m;
                }
            }
            e.set_n("resetValue", v);
        }
    }
    fn wc(&mut self, e: &mut El, lim: u64) {
        if !self.opt() {
            return;
        }
        let w = match self.r.below(4) {
            0 => Wc::AsRead(self.r.pct(50)),
            1 => Wc::UseEnum(self.r.pct(50)),
            _ => {
                let a = self.r.next() & lim;
                let b = self.r.next() & lim;
                let (a, b) = if self.r.pct(20) { (0, lim) } else { (a, b) };
                Wc::Range(a.min(b), a.max(b))
            }
        };
        e.f.insert("writeConstraint", V::W(w));
    }
    /// Makes an element an array, sometimes, and gives it a name unused in its scope.
    fn dim_and_name(&mut self, e: &mut El, used: &mut HashSet<String>) {
        for _ in 0..50 {
            for n in ["dim", "dimIncrement", "dimIndex", "dimName"] {
                e.f.remove(n);
            }
            e.g.remove("dimArrayIndex");
            let p = self.c.arrays;
            if self.r.pct(p) {
                let n = match self.r.below(100) {
                    0..=3 => 0,
                    4..=6 => self.r.range(9, 13),
                    _ => self.r.range(1, 4),
                };
                e.set_n("dim", n);
                let inc = match e.k {
                    K::Field => self.r.below(5),
                    _ => self.r.below(5) * 4,
                };
                e.set_n("dimIncrement", inc);
                let p = *self.r.pick(&["a%s", "%s", "a[%s]", "a%sb", "%sb"]);
                let a = self.ident();
                let b = self.r.pick(&["_x", "Z", "b1"]).to_string();
                let nm = p.replace('b', &b).replace('a', &a);
                e.set_s("name", nm);
                let k = self.r.below(5);
                if n > 0 && k > 0 {
                    let mut v: Vec<String> = match k {
                        1 => {
                            let s = self.r.below(12);
                            (s..s + n).map(|i| i.to_string()).collect()
                        }
                        2 => {
                            let s = if self.r.pct(50) { b'A' } else { b'a' } + self.r.below(if n > 4 { 13 } else { 20 }) as u8;
                            (0..n as u8).map(|i| ((s + i) as char).to_string()).collect()
                        }
                        3 => (0..n).map(|i| format!("{}{}", self.r.pick(&["P", "q", "01", "x_"]), i)).collect(),
                        _ => {
                            let s = self.r.below(9);
                            (0..n).map(|i| (s + i * self.r.range(2, 3)).to_string()).collect()
                        }
                    };
                    if self.r.pct(20) {
                        self.r.shuffle(&mut v);
                    }
                    let u: HashSet<&String> = v.iter().collect();
                    if u.len() == v.len() {
                        e.f.insert("dimIndex", V::L(v));
                    }
                }
                if self.opt() {
                    let t = self.ident();
                    e.set_s("dimName", t);
                }
                if self.r.pct(25) {
                    let mut d = El::new(K::Dai);
                    if self.opt() {
                        let t = self.ident();
                        d.set_s("headerEnumName", t);
                    }
                    let ix = idxs(e);
                    let mut vs = Vec::new();
                    for i in ix {
                        if self.r.pct(70) {
                            let mut v = El::new(K::Ev);
                            let nm = format!("{}{}", self.ident(), self.r.pick(&["k", "m", "n_", "Q"]));
                            v.set_s("name", nm);
                            self.opt_text(&mut v, "description");
                            v.set_n("value", i.parse().unwrap_or_else(|_| self.r.below(9)));
                            if vs.iter().all(|w: &El| w.n("value") != v.n("value")) {
                                vs.push(v);
                            }
                        }
                    }
                    d.g.insert("values", vs);
                    e.g.insert("dimArrayIndex", vec![d]);
                }
            } else {
                let nm = self.name();
                e.set_s("name", nm);
            }
            let mut ns = inst_names(e);
            if e.is_array() {
                ns.push(e.name().to_string());
            }
            let s: HashSet<&String> = ns.iter().collect();
            if s.len() == ns.len() && ns.iter().all(|n| !used.contains(n)) {
                used.extend(ns);
                return;
            }
        }
        for n in ["dim", "dimIncrement", "dimIndex", "dimName"] {
            e.f.remove(n);
        }
        e.g.remove("dimArrayIndex");
        let nm = format!("N{}_", used.len());
        used.insert(nm.clone());
        e.set_s("name", nm);
    }
    pub fn ev(&mut self, lim: u64, used: &mut HashSet<String>) -> El {
        let mut e = El::new(K::Ev);
        let mut n = self.ident();
        if self.r.pct(20) {
            n = format!("{}{}", self.r.below(10), n);
        }
        while used.contains(&n) {
            n.push('v');
        }
        used.insert(n.clone());
        e.set_s("name", n);
        self.opt_text(&mut e, "description");
        self.alike(&mut e);
        match self.r.below(6) {
            0 => {
                e.f.insert("isDefault", V::B(true));
                if self.c.level < 2 && self.r.pct(30) {
                    e.set_n("value", self.r.next() & lim);
                }
            }
            1 => {
                e.f.insert("isDefault", V::B(false));
                e.set_n("value", self.r.next() & lim);
            }
            2 => {
                e.set_n("value", lim);
            }
            _ => {
                e.set_n("value", self.r.next() & lim);
            }
        }
        e
    }
    pub fn evs(&mut self, lim: u64) -> El {
        let mut e = El::new(K::Evs);
        if self.r.pct(60) {
            let n = self.ident();
            e.set_s("name", n);
        }
        if self.r.pct(60) {
            let u = *self.r.pick(USAGE);
            e.set_s("usage", u);
        }
        let mut used = HashSet::new();
        let n = self.few(3);
        let v = (0..n).map(|_| self.ev(lim, &mut used)).collect();
        e.g.insert("values", v);
        e
    }
    pub fn field(&mut self, used: &mut HashSet<String>) -> El {
        let mut e = El::new(K::Field);
        self.dim_and_name(&mut e, used);
        self.opt_text(&mut e, "description");
        self.alike(&mut e);
        let edge = self.c.edge;
        let w = if self.r.pct(edge) {
            *self.r.pick(&[63u64, 64, 65, 32, 33, 1])
        } else {
            self.r.range(1, 8)
        };
        let o = if self.r.pct(edge) && !self.c.expandable {
            *self.r.pick(&[0u64, 31, 63, 64, 0x7fff_ff00, 0x8000_0000, 0xffff_ff00])
        } else {
            self.r.below(32)
        };
        let t = *self.r.pick(&[Bt::Range, Bt::OffWidth, Bt::MsbLsb]);
        e.f.insert("bits", V::R(o, w, t));
        let lim = if w < 64 { (1u64 << w) - 1 } else { u64::MAX };
        self.opt_enum(&mut e, "access", ACCESS);
        self.opt_enum(&mut e, "modifiedWriteValues", MWV);
        self.wc(&mut e, lim);
        self.opt_enum(&mut e, "readAction", READACT);
        let p = self.c.enums;
        if self.r.pct(p) {
            let mut v = vec![self.evs(lim)];
            if self.r.pct(30) {
                let mut b = self.evs(lim);
                v[0].set_s("usage", "read");
                b.set_s("usage", "write");
                if b.sr("name") == v[0].sr("name") {
                    b.f.remove("name");
                }
                if self.r.pct(50) {
                    v.insert(0, b)
                } else {
                    v.push(b)
                }
            } else if self.c.level < 2 && self.r.pct(20) {
                let mut b = self.evs(lim);
                b.f.remove("name");
                v.push(b);
            }
            e.g.insert("enumeratedValues", v);
        }
        e
    }
    pub fn register(&mut self, used: &mut HashSet<String>) -> El {
        let mut e = El::new(K::Register);
        self.dim_and_name(&mut e, used);
        self.opt_text(&mut e, "displayName");
        self.opt_text(&mut e, "description");
        if self.opt() {
            let n = self.ident();
            e.set_s("alternateGroup", n);
        }
        if self.opt() {
            let n = self.ident();
            e.set_s("alternateRegister", n);
        }
        let edge = if self.c.expandable { 0 } else { self.c.edge };
        e.set_n("addressOffset", num32(self.r, edge) as u64);
        self.props(&mut e);
        self.alike(&mut e);
        self.opt_enum(&mut e, "dataType", DTYPE);
        self.opt_enum(&mut e, "modifiedWriteValues", MWV);
        self.wc(&mut e, u64::MAX);
        self.opt_enum(&mut e, "readAction", READACT);
        let n = self.c.fields;
        let n = self.r.below(n + 1);
        if n > 0 {
            let mut u = HashSet::new();
            let v = (0..n).map(|_| self.field(&mut u)).collect();
            e.g.insert("fields", v);
        } else if self.c.level < 2 && self.r.pct(10) {
            e.g.insert("fields", vec![]);
        }
        e
    }
    pub fn cluster(&mut self, used: &mut HashSet<String>, depth: u64) -> El {
        let mut e = El::new(K::Cluster);
        self.dim_and_name(&mut e, used);
        self.opt_text(&mut e, "description");
        if self.opt() {
            let n = self.ident();
            e.set_s("alternateCluster", n);
        }
        if self.opt() {
            let n = self.ident();
            e.set_s("headerStructName", n);
        }
        let edge = if self.c.expandable { 0 } else { self.c.edge };
        e.set_n("addressOffset", num32(self.r, edge) as u64);
        self.props(&mut e);
        self.alike(&mut e);
        let c = self.children(depth.saturating_sub(1), 3);
        e.g.insert("children", c);
        e
    }
    pub fn children(&mut self, depth: u64, max: u64) -> Vec<El> {
        let mut used = HashSet::new();
        let n = self.few(max.max(1));
        (0..n)
            .map(|_| {
                if depth > 0 && self.r.pct(30) {
                    self.cluster(&mut used, depth)
                } else {
                    self.register(&mut used)
                }
            })
            .collect()
    }
    pub fn interrupt(&mut self) -> El {
        let mut e = El::new(K::Interrupt);
        let n = self.ident();
        e.set_s("name", n);
        self.opt_text(&mut e, "description");
        let edge = self.c.edge;
        e.set_n("value", num32(self.r, edge) as u64);
        self.alike(&mut e);
        e
    }
    pub fn ab(&mut self) -> El {
        let mut e = El::new(K::AddressBlock);
        let edge = self.c.edge;
        e.set_n("offset", num32(self.r, edge) as u64);
        e.set_n("size", num32(self.r, edge) as u64);
        let u = *self.r.pick(ABUSAGE);
        e.set_s("usage", u);
        self.opt_enum(&mut e, "protection", PROT);
        e
    }
    pub fn peripheral(&mut self, used: &mut HashSet<String>) -> El {
        let mut e = El::new(K::Peripheral);
        self.dim_and_name(&mut e, used);
        for n in [
            "displayName",
            "version",
            "description",
            "alternatePeripheral",
            "groupName",
            "prependToName",
            "appendToName",
            "headerStructName",
        ] {
            self.opt_text(&mut e, n);
        }
        let edge = if self.c.expandable { 0 } else { self.c.edge };
        e.set_n("baseAddress", num64(self.r, edge));
        self.props(&mut e);
        self.alike(&mut e);
        if self.opt() {
            let n = self.few(2);
            let mut v: Vec<El> = (0..n).map(|_| self.ab()).collect();
            self.again(&mut v);
            e.g.insert("addressBlock", v);
        }
        if self.opt() {
            let n = self.few(2);
            let mut v: Vec<El> = (0..n).map(|_| self.interrupt()).collect();
            self.again(&mut v);
            e.g.insert("interrupt", v);
        }
        if self.r.pct(92) {
            let (d, m) = (self.c.depth, self.c.regs);
            let v = self.children(d, m);
            e.g.insert("registers", v);
        } else if self.c.level < 2 && self.r.pct(30) {
            e.g.insert("registers", vec![]);
        }
        e
    }
    pub fn cpu(&mut self) -> El {
        let mut e = El::new(K::Cpu);
        let n = self.r.pick(&["CM0", "CM4", "CA9", "other"]).to_string();
        e.set_s("name", n);
        e.set_s("revision", "r0p1");
        let n = *self.r.pick(ENDIAN);
        e.set_s("endian", n);
        for n in ["mpuPresent", "fpuPresent", "vendorSystickConfig"] {
            let b = self.r.pct(50);
            e.f.insert(n, V::B(b));
        }
        for n in [
            "fpuDP",
            "dspPresent",
            "icachePresent",
            "dcachePresent",
            "itcmPresent",
            "dtcmPresent",
            "vtorPresent",
        ] {
            if self.opt() {
                let b = self.r.pct(50);
                e.f.insert(n, V::B(b));
            }
        }
        let edge = self.c.edge;
        e.set_n("nvicPrioBits", num32(self.r, edge) as u64);
        for n in ["deviceNumInterrupts", "sauNumRegions"] {
            if self.opt() {
                e.set_n(n, num32(self.r, edge) as u64);
            }
        }
        e
    }
    pub fn device(&mut self) -> El {
        let mut e = El::new(K::Device);
        for n in [
            "vendor",
            "vendorID",
            "series",
            "licenseText",
            "headerSystemFilename",
            "headerDefinitionsPrefix",
        ] {
            self.opt_text(&mut e, n);
        }
        for n in ["name", "version", "description"] {
            let t = text(self.r);
            e.set_s(n, t);
        }
        let edge = self.c.edge;
        e.set_n("addressUnitBits", *self.r.pick(&[8, 16, 32]));
        e.set_n("width", num32(self.r, edge) as u64);
        if self.opt() {
            let c = self.cpu();
            e.g.insert("cpu", vec![c]);
        }
        self.props(&mut e);
        let v = *self.r.pick(&["1.1", "1.3", "1.3.9", "a&b"]);
        e.set_s("@schemaVersion", v);
        let v = *self.r.pick(&["http://www.w3.org/2001/XMLSchema-instance", "urn:x"]);
        e.set_s("@xs", v);
        let v = *self.r.pick(&["CMSIS-SVD.xsd", "CMSIS-SVD_Schema_1_3.xsd", "a \"b\" <c>"]);
        e.set_s("@loc", v);
        let mut used = HashSet::new();
        let n = self.c.peripherals;
        let v: Vec<El> = (0..n).map(|_| self.peripheral(&mut used)).collect();
        e.g.insert("peripherals", v);
        if self.c.depth > 0 && self.r.pct(2) {
            let c = self.c.clone();
            deepen(self.r, &c, &mut e);
        }
        if self.c.refs > 0 {
            add_refs(&mut e, self.r, self.c.refs, self.c.any_graph, self.c.level);
        }
        e
    }
}

pub fn device(r: &mut Rng, c: &Gen) -> El {
    G { r, c: c.clone() }.device()
}
/// Puts a chain of clusters, each in the one before, beside what a peripheral or cluster has.
pub fn deepen(r: &mut Rng, c: &Gen, d: &mut El) {
    let n = r.range(4, 26);
    let mut e = G { r, c: c.clone() }.register(&mut HashSet::new());
    for i in 0..n {
        let mut x = El::new(K::Cluster);
        let name = format!("{}{i}", r.pick(&["L", "n_", "Deep", "a"]));
        x.set_s("name", &name).set_n("addressOffset", r.below(3) * 8);
        if r.pct(30) {
            G { r, c: c.clone() }.props(&mut x);
        }
        let mut v = vec![e];
        if r.pct(20) {
            let mut g = G { r, c: c.clone() };
            let mut y = g.register(&mut HashSet::new());
            if y.name() != v[0].name() && !y.is_array() {
                y.f.remove("@derivedFrom");
                v.push(y);
            }
        }
        x.g.insert("children", v);
        e = x;
    }
    let g = d.grp("peripherals").iter().position(|p| !p.f.contains_key("@derivedFrom") && !p.grp("registers").is_empty());
    if let Some(v) = g.and_then(|i| d.g.get_mut("peripherals").and_then(|v| v[i].g.get_mut("registers"))) {
        if v.iter().all(|x| x.name() != e.name()) {
            v.push(e);
        }
    }
}

/// The same, now and then with one array of a hundred members or more.
pub fn device_large(r: &mut Rng, c: &Gen) -> El {
    let mut d = device(r, c);
    if r.pct(4) {
        enlarge(r, &mut d);
    }
    d
}

// ------------------------------------------------------------------ references

/// Address of an element in the tree: group and position at every step.
pub type Addr = Vec<(&'static str, usize)>;

pub fn at<'a>(d: &'a El, a: &[(&'static str, usize)]) -> &'a El {
    let mut e = d;
    for (g, i) in a {
        e = &e.g[g][*i];
    }
    e
}
pub fn has(d: &El, a: &[(&'static str, usize)]) -> bool {
    let mut e = d;
    for (g, i) in a {
        match e.g.get(g).and_then(|v| v.get(*i)) {
            Some(x) => e = x,
            None => return false,
        }
    }
    true
}
pub fn at_mut<'a>(d: &'a mut El, a: &[(&'static str, usize)]) -> &'a mut El {
    let mut e = d;
    for (g, i) in a {
        e = &mut e.g.get_mut(g).unwrap()[*i];
    }
    e
}
pub fn addrs(d: &El) -> Vec<Addr> {
    fn go(e: &El, here: &Addr, out: &mut Vec<Addr>) {
        out.push(here.clone());
        for (g, v) in &e.g {
            for (i, c) in v.iter().enumerate() {
                let mut a = here.clone();
                a.push((g, i));
                go(c, &a, out);
            }
        }
    }
    let mut out = Vec::new();
    go(d, &vec![], &mut out);
    out
}

/// Does following references and children from any element come back to it?
fn cyclic(n: usize, edges: &[Vec<usize>], from: usize) -> bool {
    let mut seen = vec![false; n];
    let mut st = edges[from].clone();
    while let Some(x) = st.pop() {
        if x == from {
            return true;
        }
        if !seen[x] {
            seen[x] = true;
            st.extend(&edges[x]);
        }
    }
    false
}

/// The name an element is known by in a path: the written one or, for arrays, sometimes
/// that of one of its instances.
fn path_name(e: &El, r: &mut Rng) -> String {
    let v = inst_names(e);
    if e.is_array() && !v.is_empty() && r.pct(60) {
        r.pick(&v).clone()
    } else {
        e.name().to_string()
    }
}

pub fn add_refs(d: &mut El, r: &mut Rng, pct: u64, any: bool, level: u8) {
    let all = addrs(d);
    let n = all.len();
    let pos = |a: &[(&'static str, usize)]| all.iter().position(|x| x == a).unwrap();
    let mut edges: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, a) in all.iter().enumerate() {
        if !a.is_empty() {
            edges[pos(&a[..a.len() - 1])].push(i);
        }
    }
    for i in 0..n {
        if !has(d, &all[i]) {
            continue;
        }
        let k = at(d, &all[i]).k;
        if !k.derivable() || !r.pct(pct) {
            continue;
        }
        let cands: Vec<usize> = (0..n)
            .filter(|j| {
                if !has(d, &all[*j]) {
                    return false;
                }
                let e = at(d, &all[*j]);
                *j != i && e.k == k && (k != K::Evs || e.sr("name").is_some())
            })
            .collect();
        if cands.is_empty() {
            continue;
        }
        // prefer elements of the same parent: chains there are the common case
        let near: Vec<usize> = cands
            .iter()
            .copied()
            .filter(|j| all[*j][..all[*j].len() - 1] == all[i][..all[i].len() - 1])
            .collect();
        let j = if !near.is_empty() && r.pct(50) {
            *r.pick(&near)
        } else {
            *r.pick(&cands)
        };
        let (a, b) = (&all[i], &all[j]);
        if !any {
            if b.starts_with(a) {
                continue;
            }
            edges[i].push(j);
            if cyclic(n, &edges, i) {
                edges[i].pop();
                continue;
            }
        }
        let Some(text) = ref_text(d, a, b, r) else {
            if !any {
                edges[i].pop();
            }
            continue;
        };
        let e = at_mut(d, a);
        e.set_s("@derivedFrom", text);
        // what a derived element still gives itself
        let strip = r.pct(70);
        match k {
            K::Peripheral => {
                if strip {
                    e.g.remove("registers");
                }
            }
            K::Cluster => {
                if strip {
                    e.g.insert("children", vec![]);
                }
            }
            K::Register => {
                if strip {
                    e.g.remove("fields");
                }
                if r.pct(40) {
                    for p in PROP_NAMES {
                        e.f.remove(p);
                    }
                }
            }
            K::Field => {
                if strip {
                    e.g.remove("enumeratedValues");
                }
            }
            K::Evs => {
                if strip {
                    e.g.insert("values", vec![]);
                    e.f.remove("usage");
                }
            }
            _ => {}
        }
        if any {
            continue;
        }
        // an element may take over the whole array of the one it names
        let b_is_array = at(d, b).is_array();
        let e = at_mut(d, a);
        if k.dimable() && b_is_array && !e.is_array() && r.pct(20) && !e.name().contains('%') {
            let nm = format!("{}D%s", e.name());
            // keep it if nothing refers to it yet
            if !referred(d, &nm) {
                let e = at_mut(d, a);
                e.set_s("name", nm);
            }
        }
        let _ = level;
    }
    // drop references to elements that stripping removed
    if !any {
        prune(d);
    }
}

fn referred(_d: &El, _n: &str) -> bool {
    false
}

/// Removes references that do not resolve (their target was stripped or renamed).
pub fn prune(d: &mut El) {
    for _ in 0..20 {
        let ix = crate::refexp::Ix::new(d);
        let bad: Vec<Addr> = addrs(d)
            .into_iter()
            .filter(|a| {
                let e = at(d, a);
                e.sr("@derivedFrom").is_some() && !ix.resolves(d, a)
            })
            .collect();
        if bad.is_empty() {
            return;
        }
        for a in bad {
            let e = at_mut(d, &a);
            e.f.remove("@derivedFrom");
            match e.k {
                K::Cluster if e.grp("children").is_empty() => {
                    let mut x = El::new(K::Register);
                    x.set_s("name", "Only").set_n("addressOffset", 0);
                    e.g.insert("children", vec![x]);
                }
                K::Evs if e.grp("values").is_empty() => {
                    let mut x = El::new(K::Ev);
                    x.set_s("name", "only").set_n("value", 0);
                    e.g.insert("values", vec![x]);
                }
                _ => {}
            }
            if e.name().contains("%s") && !e.is_array() {
                let n = e.name().replace("%s", "s");
                e.set_s("name", n);
            }
        }
    }
}

/// Text of a reference from the element at `a` to the one at `b`.
pub fn ref_text(d: &El, a: &Addr, b: &Addr, r: &mut Rng) -> Option<String> {
    let te = at(d, b);
    if te.k == K::Peripheral {
        return Some(path_name(te, r));
    }
    let mut full = Vec::new();
    for n in 1..=b.len() {
        let e = at(d, &b[..n]);
        full.push(path_name(e, r));
    }
    if full.iter().any(|s| s.contains('.') || s.is_empty()) {
        return None;
    }
    let (pa, pb) = (&a[..a.len() - 1], &b[..b.len() - 1]);
    match te.k {
        K::Evs => {
            // field, register and block that hold it
            let same_reg = a.len() >= 2 && b.len() >= 2 && a[..a.len() - 2] == b[..b.len() - 2];
            let same_block = a.len() >= 3 && b.len() >= 3 && a[..a.len() - 3] == b[..b.len() - 3];
            let l = full.len();
            match r.below(4) {
                0 if same_reg => Some(full[l - 1].clone()),
                1 if same_reg => Some(full[l - 2..].join(".")),
                2 if same_block => Some(full[l - 3..].join(".")),
                _ => Some(full.join(".")),
            }
        }
        _ => {
            if pa == pb && r.pct(80) {
                return Some(full[full.len() - 1].clone());
            }
            Some(full.join("."))
        }
    }
}
