//! Reference model of the validation rules.

use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Lv {
    Off,
    Weak,
    Strict,
}
pub const LEVELS: [Lv; 3] = [Lv::Off, Lv::Weak, Lv::Strict];
impl Lv {
    pub fn real(self) -> svd_rs::ValidateLevel {
        match self {
            Lv::Off => svd_rs::ValidateLevel::Disabled,
            Lv::Weak => svd_rs::ValidateLevel::Weak,
            Lv::Strict => svd_rs::ValidateLevel::Strict,
        }
    }
    pub fn from(n: u64) -> Lv {
        LEVELS[(n % 3) as usize]
    }
    pub fn ix(self) -> u64 {
        self as u64
    }
}

fn word(s: &str) -> bool {
    s.bytes().all(|c| c == b'_' || c.is_ascii_alphanumeric())
}
fn ident(s: &str) -> bool {
    !s.is_empty() && word(s) && !s.as_bytes()[0].is_ascii_digit()
}
/// An identifier that may hold one `%s`, or end in `[%s]`.
pub fn dimable(s: &str) -> bool {
    if let Some(x) = s.strip_suffix("[%s]") {
        return ident(x);
    }
    match s.split_once("%s") {
        None => ident(s),
        Some(("", rest)) => rest.is_empty() || ident(rest),
        Some((a, rest)) => ident(a) && word(rest),
    }
}
fn derived(s: &str) -> bool {
    s.split('.').all(dimable)
}

/// The rules of the register properties, which are checked before what an element contains.
pub fn props(e: &El, l: Lv) -> bool {
    let fits = |v: u64, s: u64| s >= 64 || v >> s == 0;
    let (s, v, m) = (e.n("size"), e.n("resetValue"), e.n("resetMask"));
    if let (Some(s), Some(v)) = (s, v) {
        if !fits(v, s) {
            return false;
        }
    }
    if l == Lv::Strict {
        if let (Some(s), Some(m)) = (s, m) {
            if !fits(m, s) {
                return false;
            }
        }
        if let (Some(v), Some(m)) = (v, m) {
            if v & !m != 0 {
                return false;
            }
        }
    }
    true
}

/// Does this one element satisfy the rules of the level?
pub fn one(e: &El, l: Lv) -> bool {
    if l == Lv::Off {
        return true;
    }
    let strict = l == Lv::Strict;
    let dfrom = e.sr("@derivedFrom");
    let nm = |f: fn(&str) -> bool, n: &str| e.sr(n).map(f).unwrap_or(true);
    match e.k {
        K::Device => !e.grp("peripherals").is_empty() && props(e, l),
        K::Cpu | K::AddressBlock | K::Interrupt | K::Dai => true,
        K::Peripheral => {
            props(e, l)
                && (!strict
                    || dimable(e.name())
                        && match dfrom {
                            Some(d) => dimable(d),
                            None => !e.g.get("registers").map(|v| v.is_empty()).unwrap_or(false),
                        })
        }
        K::Cluster => {
            props(e, l)
                && (!strict
                    || dimable(e.name())
                        && match dfrom {
                            Some(d) => derived(d),
                            None => !e.grp("children").is_empty(),
                        })
        }
        K::Register => {
            props(e, l)
                && (!strict
                    || dimable(e.name())
                        && nm(word, "alternateGroup")
                        && nm(dimable, "alternateRegister")
                        && match dfrom {
                            Some(d) => derived(d),
                            None => !e.g.get("fields").map(|v| v.is_empty()).unwrap_or(false),
                        })
        }
        K::Field => {
            if strict && !(dimable(e.name()) && dfrom.map(derived).unwrap_or(true)) {
                return false;
            }
            let (_, w, _) = e.bits().unwrap_or((0, 1, Bt::Range));
            if w == 0 {
                return false;
            }
            if w < 64 {
                let lim = 1u64 << w;
                for s in e.grp("enumeratedValues") {
                    for v in s.grp("values") {
                        if v.n("value").map(|x| x >= lim).unwrap_or(false) {
                            return false;
                        }
                    }
                }
                if let Some(Wc::Range(a, b)) = e.wc() {
                    if a > b || b >= lim {
                        return false;
                    }
                }
            }
            if strict {
                let u: Vec<Option<&str>> = e
                    .grp("enumeratedValues")
                    .iter()
                    .map(|s| {
                        if s.sr("@derivedFrom").is_some() {
                            None
                        } else {
                            Some(s.sr("usage").unwrap_or("read-write"))
                        }
                    })
                    .collect();
                let can = |u: Option<&str>, w: &str| u.is_none() || u == Some(w);
                match u[..] {
                    [] | [_] => {}
                    [a, b] if can(a, "read") && can(b, "write") => {}
                    [a, b] if can(b, "read") && can(a, "write") => {}
                    _ => return false,
                }
            }
            true
        }
        K::Evs => {
            (!strict || nm(word, "name"))
                && match dfrom {
                    Some(d) => !strict || derived(d),
                    None => !e.grp("values").is_empty(),
                }
        }
        K::Ev => {
            let d = e.b("isDefault") == Some(true);
            let v = e.n("value").is_some();
            (!strict || word(e.name())) && (v || d) && !(strict && v && d)
        }
    }
}

/// All elements of the tree.
pub fn all(e: &El, l: Lv) -> bool {
    e.all().into_iter().all(|x| one(x, l))
}

/// Why something is refused.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cause {
    /// A property without which nothing is built, in small letters.
    Missing(String),
    /// A text that is no identifier, and where it stands.
    Name(String, String),
    Reset(u64, u64),
    Mask(u64, u64),
    Conflict(u64, u64),
    NoPeripherals,
    NoRegisters,
    NoChildren,
    NoFields,
    ZeroWidth,
    Usages,
    /// A value and the first one too large.
    Value(u64, u64),
    Constraint(u64, u64),
    Reversed(u64, u64),
    NoValues,
    NoValue,
    ValueAndDefault(u64),
    Other(String),
}
impl Cause {
    /// What a message about it holds, in small letters and without blanks.
    pub fn words(&self) -> Vec<String> {
        let hex = |n: &u64| format!("0x{n:x}");
        match self {
            Cause::Missing(s) => vec![s.clone()],
            Cause::Name(s, _) => vec![s.clone()],
            Cause::Reset(a, b) | Cause::Mask(a, b) => vec![hex(a), b.to_string()],
            Cause::Conflict(a, b) => vec![hex(a), hex(b)],
            Cause::NoPeripherals => vec!["peripheral".into()],
            Cause::NoRegisters => vec!["registers".into()],
            Cause::NoChildren => vec!["cluster".into()],
            Cause::NoFields => vec!["fields".into()],
            Cause::ZeroWidth => vec!["width".into()],
            Cause::Usages => vec!["usage".into()],
            Cause::Value(a, _) | Cause::Constraint(a, _) => vec![a.to_string()],
            Cause::Reversed(a, b) => vec![a.to_string(), b.to_string()],
            Cause::NoValues => vec!["empty".into()],
            Cause::NoValue => vec!["value".into()],
            Cause::ValueAndDefault(a) => vec![a.to_string()],
            Cause::Other(_) => vec![],
        }
    }
}
/// Every reason to refuse this one element at the level.
pub fn causes(e: &El, l: Lv) -> Vec<Cause> {
    let mut v = vec![];
    if l == Lv::Off {
        return v;
    }
    let strict = l == Lv::Strict;
    let dfrom = e.sr("@derivedFrom");
    let mut name = |f: fn(&str) -> bool, n: &'static str, parts: bool| {
        if let (true, Some(s)) = (strict, e.sr(n)) {
            let at = n.trim_start_matches('@');
            for x in if parts { s.split('.').collect() } else { vec![s] } {
                if !f(x) {
                    v.push(Cause::Name(x.into(), at.into()));
                    break;
                }
            }
        }
    };
    match e.k {
        K::Peripheral => {
            name(dimable, "name", false);
            name(dimable, "@derivedFrom", false);
        }
        K::Cluster | K::Register | K::Field => {
            name(dimable, "name", false);
            name(dimable, "@derivedFrom", true);
            if e.k == K::Register {
                name(word, "alternateGroup", false);
                name(dimable, "alternateRegister", false);
            }
        }
        K::Evs => {
            name(word, "name", false);
            name(dimable, "@derivedFrom", true);
        }
        K::Ev => name(word, "name", false),
        _ => {}
    }
    let none = |n: &str| e.g.get(n).map(|v| v.is_empty()).unwrap_or(false);
    if matches!(e.k, K::Device | K::Peripheral | K::Cluster | K::Register) {
        let big = |v: u64, s: u64| s < 64 && v >> s != 0;
        let (s, r, m) = (e.n("size"), e.n("resetValue"), e.n("resetMask"));
        if let (Some(s), Some(r)) = (s, r) {
            if big(r, s) {
                v.push(Cause::Reset(r, s));
            }
        }
        if let (Some(s), Some(m), true) = (s, m, strict) {
            if big(m, s) {
                v.push(Cause::Mask(m, s));
            }
        }
        if let (Some(r), Some(m), true) = (r, m, strict) {
            if r & !m != 0 {
                v.push(Cause::Conflict(r, m));
            }
        }
    }
    match e.k {
        K::Device if e.grp("peripherals").is_empty() => v.push(Cause::NoPeripherals),
        K::Peripheral if strict && dfrom.is_none() && none("registers") => v.push(Cause::NoRegisters),
        K::Cluster if strict && dfrom.is_none() && e.grp("children").is_empty() => v.push(Cause::NoChildren),
        K::Register if strict && dfrom.is_none() && none("fields") => v.push(Cause::NoFields),
        K::Field => {
            let (_, w, _) = e.bits().unwrap_or((0, 1, Bt::Range));
            if w == 0 {
                v.push(Cause::ZeroWidth);
            } else if w < 64 {
                let lim = 1u64 << w;
                for x in e.grp("enumeratedValues").iter().flat_map(|s| s.grp("values")) {
                    if let Some(n) = x.n("value").filter(|n| *n >= lim) {
                        v.push(Cause::Value(n, lim));
                    }
                }
                if let Some(Wc::Range(a, b)) = e.wc() {
                    if a > b {
                        v.push(Cause::Reversed(a, b));
                    } else if a >= lim {
                        v.push(Cause::Constraint(a, lim));
                    } else if b >= lim {
                        v.push(Cause::Constraint(b, lim));
                    }
                }
            }
            if v.is_empty() && !one(e, l) {
                v.push(Cause::Usages);
            }
            if strict && e.grp("enumeratedValues").len() > 1 && !v.contains(&Cause::Usages) {
                // with another fault beside it, it may be this one all the same
                let mut x = e.clone();
                x.f.retain(|n, _| *n == "bits" || *n == "name");
                x.set_s("name", "A");
                x.f.insert("bits", V::R(0, 64, Bt::Range));
                if !one(&x, l) {
                    v.push(Cause::Usages);
                }
            }
        }
        K::Evs if dfrom.is_none() && e.grp("values").is_empty() => v.push(Cause::NoValues),
        K::Ev => match (e.n("value"), e.b("isDefault") == Some(true)) {
            (None, false) => v.push(Cause::NoValue),
            (Some(n), true) if strict => v.push(Cause::ValueAndDefault(n)),
            _ => {}
        },
        _ => {}
    }
    v
}
