//! Independent reader of the XML form. Driven by the schema table of `model`; shares only
//! the XML tokenizer with the code under test. Collects every error instead of stopping.

use crate::model::*;
use crate::refval::{self, Lv};
use roxmltree::{Document, Node};

#[derive(Clone, Debug)]
pub struct RErr {
    pub what: String,
    /// byte offset of the element at fault (after a byte order mark), None for the document itself
    pub pos: usize,
    pub tag: String,
    pub name: Option<String>,
    /// (tag, name) of the enclosing reported elements, innermost first
    pub inside: Vec<(String, Option<String>)>,
}

#[derive(Clone, Debug)]
pub struct Opt {
    pub level: Lv,
    pub ignore_enums: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Parsed {
    /// Some when the text is well-formed and has a device element
    pub dev: Option<El>,
    pub errs: Vec<RErr>,
    /// not even markup
    pub malformed: bool,
    /// the text uses a form whose reading is a listed finding
    pub quirk: Option<&'static str>,
    /// declared array elements
    pub declared: u64,
}

struct Rd {
    opt: Opt,
    errs: Vec<RErr>,
    quirk: Option<&'static str>,
    declared: u64,
}

type N<'a> = Node<'a, 'a>;

fn kid<'a>(n: N<'a>, t: &str) -> Option<N<'a>> {
    n.children().find(|c| c.is_element() && c.tag_name().name() == t)
}
fn kids<'a>(n: N<'a>) -> impl Iterator<Item = N<'a>> {
    n.children().filter(|c| c.is_element())
}
fn raw_text<'a>(n: N<'a>) -> Option<&'a str> {
    let c = n.first_child()?;
    if c.is_text() {
        c.text()
    } else {
        None
    }
}

pub fn number(s: &str, max: u64) -> Option<u64> {
    let (digits, radix): (String, u32) = if let Some(x) = s.strip_prefix("0x").or(s.strip_prefix("0X")) {
        (x.into(), 16)
    } else if let Some(x) = s.strip_prefix('#') {
        (x.replace(['x', 'X'], "0"), 2)
    } else if let Some(x) = s.strip_prefix("0b") {
        (x.replace('x', "0"), 2)
    } else {
        (s.into(), 10)
    };
    let d = digits.strip_prefix('+').unwrap_or(&digits);
    if d.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in d.chars() {
        if !c.is_ascii() {
            return None;
        }
        v = v * radix as u128 + c.to_digit(radix)? as u128;
        if v > max as u128 {
            return None;
        }
    }
    Some(v as u64)
}
fn dec(s: &str) -> Option<u64> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    number(s, u32::MAX as u64)
}
pub fn boolean(s: &str) -> Option<bool> {
    match s {
        "1" | "true" => Some(true),
        "0" | "false" => Some(false),
        _ => None,
    }
}
/// Number of entries and the list, unless it is too long to build.
pub fn index_list(s: &str, most: u64) -> Option<(u64, Option<Vec<String>>)> {
    if let Some((a, b)) = s.split_once('-') {
        if let (Some(a), Some(b)) = (dec(a), dec(b)) {
            if a > b {
                return None;
            }
            let n = b - a + 1;
            if n > most {
                return Some((n, None));
            }
            return Some((n, Some((a..=b).map(|i| i.to_string()).collect())));
        }
        let (a, b) = (a.as_bytes(), b.as_bytes());
        if a.len() == 1 && b.len() == 1 {
            let (a, b) = (a[0], b[0]);
            let ok = a.is_ascii_lowercase() && b.is_ascii_lowercase()
                || a.is_ascii_uppercase() && b.is_ascii_uppercase();
            if ok && a <= b {
                let v: Vec<String> = (a..=b).map(|c| (c as char).to_string()).collect();
                return Some((v.len() as u64, Some(v)));
            }
        }
        return None;
    }
    let v: Vec<String> = s.split(',').map(|x| x.to_string()).collect();
    Some((v.len() as u64, Some(v)))
}

fn own_name(n: N) -> Option<String> {
    kid(n, "name").and_then(raw_text).map(|s| s.to_string())
}

impl Rd {
    fn err(&mut self, n: N, what: impl Into<String>) {
        let mut inside = Vec::new();
        let mut p = n.parent();
        while let Some(x) = p {
            if x.is_element() {
                let t = x.tag_name().name();
                if matches!(
                    t,
                    "device" | "peripheral" | "register" | "field" | "enumeratedValue" | "interrupt"
                ) {
                    inside.push((t.to_string(), own_name(x)));
                }
            }
            p = x.parent();
        }
        self.errs.push(RErr {
            what: what.into(),
            pos: n.range().start,
            tag: n.tag_name().name().to_string(),
            name: own_name(n),
            inside,
        });
    }
    fn text<'a>(&mut self, n: N<'a>) -> Option<&'a str> {
        if n.children().any(|c| c.is_comment() || c.is_pi()) {
            self.quirk = Some("comment inside a value");
        }
        raw_text(n).map(|s| s.trim())
    }
    fn value(&mut self, c: N, ty: Ty) -> Option<V> {
        let Some(t) = self.text(c) else {
            self.err(c, "empty");
            return None;
        };
        let v = match ty {
            Ty::U32 => number(t, u32::MAX as u64).map(V::N),
            Ty::U64 => number(t, u64::MAX).map(V::N),
            Ty::Bool => boolean(t).map(V::B),
            Ty::Enum(l) => l.iter().find(|x| **x == t).map(|x| V::S(x.to_string())),
            _ => unreachable!(),
        };
        if v.is_none() {
            self.err(c, format!("bad value {t:?}"));
        }
        v
    }
    fn bits(&mut self, n: N) -> Option<V> {
        let u32max = u32::MAX as u64;
        let mut get = |me: &mut Rd, c: N| me.text(c).and_then(|t| number(t, u32max));
        let r = if let Some(c) = kid(n, "bitRange") {
            self.text(c);
            raw_text(c).and_then(|t| {
                let t = t.strip_prefix('[')?.strip_suffix(']')?;
                let mut p = t.split(':');
                let m = dec(p.next()?)?;
                let l = dec(p.next()?)?;
                Some((m, l, Bt::Range))
            })
        } else if let (Some(l), Some(m)) = (kid(n, "lsb"), kid(n, "msb")) {
            match (get(self, m), get(self, l)) {
                (Some(m), Some(l)) => Some((m, l, Bt::MsbLsb)),
                _ => None,
            }
        } else if let (Some(o), Some(w)) = (kid(n, "bitOffset"), kid(n, "bitWidth")) {
            match (get(self, o), get(self, w)) {
                (Some(o), Some(w)) => return Some(V::R(o, w, Bt::OffWidth)),
                _ => None,
            }
        } else {
            None
        };
        match r {
            Some((m, l, t)) if m >= l && m - l + 1 <= u32max => Some(V::R(l, m - l + 1, t)),
            _ => {
                self.err(n, "bit range");
                None
            }
        }
    }
    fn wc(&mut self, n: N) -> Option<V> {
        let v: Vec<N> = kids(n).collect();
        if v.len() != 1 {
            self.err(n, "write constraint");
            return None;
        }
        let c = v[0];
        match c.tag_name().name() {
            "writeAsRead" => match self.value(c, Ty::Bool)? {
                V::B(b) => Some(V::W(Wc::AsRead(b))),
                _ => None,
            },
            "useEnumeratedValues" => match self.value(c, Ty::Bool)? {
                V::B(b) => Some(V::W(Wc::UseEnum(b))),
                _ => None,
            },
            "range" => {
                let mut get = |me: &mut Rd, t: &str| match kid(c, t) {
                    Some(x) => match me.value(x, Ty::U64) {
                        Some(V::N(v)) => Some(v),
                        _ => None,
                    },
                    None => {
                        me.err(c, format!("missing {t}"));
                        None
                    }
                };
                let a = get(self, "minimum");
                let b = get(self, "maximum");
                Some(V::W(Wc::Range(a?, b?)))
            }
            t => {
                let t = t.to_string();
                self.err(n, format!("unknown constraint {t}"));
                None
            }
        }
    }
    /// Reads one element. None when it could not be completed.
    fn el(&mut self, n: N, k: K) -> Option<El> {
        let before = self.errs.len();
        let mut e = El::new(k);
        let array = k.dimable() && kid(n, "dimIncrement").is_some();
        if k.dimable() && !array {
            for t in ["dim", "dimIndex", "dimName", "dimArrayIndex"] {
                if kid(n, t).is_some() {
                    self.quirk = Some("dim without dimIncrement");
                }
            }
        }
        // errors of the array shape: what the element is otherwise is judged all the same
        let mut shape = 0;
        for it in items(k) {
            let at = self.errs.len();
            self.item(n, k, it, array, &mut e);
            if k.dimable() && DIMS.iter().any(|d| matches!((d, it), (It::F(a, ..) | It::G(a), It::F(b, ..) | It::G(b)) if a == b)) {
                shape += self.errs.len() - at;
            }
        }
        if k == K::Device {
            self.device_rest(n, &mut e);
        }
        if array {
            self.declared = self.declared.saturating_add(e.n("dim").unwrap_or(0));
            if let Some(s) = e.sr("name") {
                if !s.contains("%s") {
                    self.err(n, "placeholder");
                    shape += 1;
                }
            }
        }
        let failed = self.errs.len() > before;
        if failed && self.errs.len() - before > shape {
            let has = matches!(k, K::Device | K::Peripheral | K::Cluster | K::Register);
            if has && self.opt.level != Lv::Off && !refval::props(&e, self.opt.level) {
                self.err(n, "rule of the validation level");
            }
            return None;
        }
        if !refval::one(&e, self.opt.level) {
            self.err(n, "rule of the validation level");
            return None;
        }
        (!failed).then_some(e)
    }
    fn item(&mut self, n: N, k: K, it: &It, array: bool, e: &mut El) {
            match *it {
                It::F(name, ty, req) => {
                    if let Some(a) = name.strip_prefix('@') {
                        if k != K::Device {
                            if let Some(s) = n.attribute(a) {
                                e.set_s(name, s);
                            }
                        }
                        return;
                    }
                    let is_dim = k.dimable() && DIMS.iter().any(|d| matches!(d, It::F(m, _, _) if *m == name));
                    if is_dim && !array {
                        return;
                    }
                    let req = req || matches!(name, "dim" | "dimIncrement");
                    if ty == Ty::Bits {
                        if let Some(v) = self.bits(n) {
                            e.f.insert(name, v);
                        }
                        return;
                    }
                    if ty == Ty::Wc && k == K::Field && self.opt.ignore_enums {
                        return;
                    }
                    let c = kid(n, name);
                    if ty == Ty::Text {
                        let t = c.and_then(|c| self.text(c));
                        match t {
                            Some(t) => {
                                e.set_s(name, t);
                            }
                            None if req => self.err(n, format!("missing {name}")),
                            None => {}
                        }
                        return;
                    }
                    let Some(c) = c else {
                        if req {
                            self.err(n, format!("missing {name}"));
                        }
                        return;
                    };
                    match ty {
                        Ty::Wc => {
                            if let Some(v) = self.wc(c) {
                                e.f.insert(name, v);
                            }
                        }
                        Ty::Idx => match self.text(c) {
                            None => self.err(c, "empty"),
                            Some(t) => {
                                let t = t.to_string();
                                match index_list(&t, 100_000) {
                                    None => self.err(c, "index list"),
                                    Some((cnt, l)) => {
                                        if let Some(d) = e.n("dim") {
                                            if d != cnt {
                                                self.err(n, "index count");
                                            }
                                        }
                                        match l {
                                            Some(l) => {
                                                e.f.insert(name, V::L(l));
                                            }
                                            None => {
                                                if e.n("dim") == Some(cnt) {
                                                    self.quirk = Some("huge array");
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        },
                        _ => {
                            if let Some(v) = self.value(c, ty) {
                                e.f.insert(name, v);
                            }
                        }
                    }
                }
                It::G(g) => self.group(n, k, g, array, e),
            }
    }
    fn list<'a>(&mut self, v: Vec<(N<'a>, K)>) -> Vec<El> {
        v.into_iter().filter_map(|(n, k)| self.el(n, k)).collect()
    }
    fn group(&mut self, n: N, k: K, g: &'static str, array: bool, e: &mut El) {
        let some = |n: N, t: &str, k: K| -> Vec<(roxmltree::NodeId, K)> {
            kids(n)
                .filter(|c| c.tag_name().name() == t)
                .map(|c| (c.id(), k))
                .collect()
        };
        let doc = n.document();
        let nodes: Vec<(roxmltree::NodeId, K)> = match (k, g) {
            (K::Device, "cpu") => some(n, "cpu", K::Cpu).into_iter().take(1).collect(),
            (K::Device, _) => match kid(n, "peripherals") {
                None => {
                    self.err(n, "missing peripherals");
                    return;
                }
                Some(c) => self.contained(c, &[K::Peripheral]),
            },
            (K::Peripheral, "addressBlock") => some(n, "addressBlock", K::AddressBlock),
            (K::Peripheral, "interrupt") => some(n, "interrupt", K::Interrupt),
            (K::Peripheral, "registers") => match kid(n, "registers") {
                None => return,
                Some(c) => self.contained(c, &[K::Register, K::Cluster]),
            },
            (K::Register, "fields") => match kid(n, "fields") {
                None => return,
                Some(c) => self.contained(c, &[K::Field]),
            },
            (K::Cluster, "children") => kids(n)
                .filter_map(|c| match c.tag_name().name() {
                    "register" => Some((c.id(), K::Register)),
                    "cluster" => Some((c.id(), K::Cluster)),
                    _ => None,
                })
                .collect(),
            (K::Field, "enumeratedValues") => {
                if self.opt.ignore_enums {
                    return;
                }
                some(n, "enumeratedValues", K::Evs)
            }
            (_, "dimArrayIndex") => {
                if !array {
                    return;
                }
                some(n, "dimArrayIndex", K::Dai).into_iter().take(1).collect()
            }
            (K::Evs, _) => self.values(n, &["name", "headerEnumName", "usage"]),
            (K::Dai, _) => self.values(n, &["headerEnumName"]),
            _ => unreachable!("{k:?} {g}"),
        };
        let nodes: Vec<(N, K)> = nodes
            .into_iter()
            .map(|(i, k)| (doc.get_node(i).unwrap(), k))
            .collect();
        if nodes.is_empty() && matches!(g, "addressBlock" | "cpu" | "dimArrayIndex") {
            return;
        }
        let l = self.list(nodes);
        e.g.insert(g, l);
    }
    fn contained(&mut self, c: N, ks: &[K]) -> Vec<(roxmltree::NodeId, K)> {
        let mut v = Vec::new();
        for x in kids(c) {
            match ks.iter().find(|k| k.tag() == x.tag_name().name()) {
                Some(k) => v.push((x.id(), *k)),
                None => self.err(x, "unexpected element"),
            }
        }
        v
    }
    fn values(&mut self, n: N, skip: &[&str]) -> Vec<(roxmltree::NodeId, K)> {
        let mut v = Vec::new();
        for x in kids(n) {
            let t = x.tag_name().name();
            if skip.contains(&t) {
                continue;
            }
            if t == "enumeratedValue" {
                v.push((x.id(), K::Ev));
            } else {
                self.err(x, "unexpected element");
            }
        }
        v
    }
    fn device_rest(&mut self, n: N, e: &mut El) {
        let mut xs = None;
        for ns in n.namespaces() {
            if ns.name() == Some("xs") {
                xs = Some(ns.uri().to_string());
            }
        }
        if let Some(u) = &xs {
            e.set_s("@xs", u.clone());
            for a in n.attributes() {
                if a.name() == "noNamespaceSchemaLocation" && a.namespace() == Some(u.as_str()) {
                    e.set_s("@loc", a.value());
                }
            }
        }
        for a in n.attributes() {
            if a.name() == "schemaVersion" && a.namespace().is_none() {
                e.set_s("@schemaVersion", a.value());
            }
        }
        // what a document may leave out
        let strict = self.opt.level == Lv::Strict;
        for (t, v) in [
            ("version", V::S("1.0".into())),
            ("description", V::S(String::new())),
            ("addressUnitBits", V::N(8)),
            ("width", V::N(32)),
        ] {
            let present = kid(n, t).is_some();
            if e.f.contains_key(t) {
                continue;
            }
            let textual = matches!(t, "version" | "description");
            if present && !textual {
                continue; // already an error
            }
            if strict {
                self.err(n, format!("missing {t}"));
            } else {
                e.f.insert(intern(t).unwrap(), v);
            }
        }
        for (t, v) in [
            ("@schemaVersion", "1.1"),
            ("@xs", "http://www.w3.org/2001/XMLSchema-instance"),
            ("@loc", "CMSIS-SVD_Schema_1_1.xsd"),
        ] {
            if !e.f.contains_key(t) {
                e.set_s(intern(t).unwrap(), v);
            }
        }
    }
}

pub fn unbom(s: &str) -> &str {
    s.strip_prefix('\u{feff}').unwrap_or(s)
}

/// Row and column (in characters) of a byte offset, from one.
pub fn row_col(s: &str, off: usize) -> (usize, usize) {
    let before = &s[..off];
    let row = before.matches('\n').count() + 1;
    let line = &before[before.rfind('\n').map(|i| i + 1).unwrap_or(0)..];
    (row, line.chars().count() + 1)
}

pub fn parse(text: &str, opt: &Opt) -> Parsed {
    let text = unbom(text);
    let mut p = Parsed::default();
    let doc = match Document::parse(text) {
        Ok(d) => d,
        Err(_) => {
            p.malformed = true;
            return p;
        }
    };
    let mut rd = Rd {
        opt: opt.clone(),
        errs: vec![],
        quirk: None,
        declared: 0,
    };
    // roxmltree nodes borrow the document for its own lifetime
    let root: Node = doc.root();
    let root: N = unsafe { std::mem::transmute(root) };
    match kid(root, "device") {
        None => {
            rd.errs.push(RErr {
                what: "no device".into(),
                pos: 0,
                tag: String::new(),
                name: None,
                inside: vec![],
            });
        }
        Some(n) => p.dev = rd.el(n, K::Device),
    }
    p.errs = rd.errs;
    p.quirk = rd.quirk;
    p.declared = rd.declared;
    p
}
