//! The harness's own representation of a description: a plain tree of elements with
//! named values and named groups of children. It knows nothing of svd-rs types; every
//! oracle works on it.

use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum K {
    Device,
    Cpu,
    Peripheral,
    AddressBlock,
    Interrupt,
    Cluster,
    Register,
    Field,
    Evs,
    Ev,
    Dai,
}
pub const KINDS: [K; 11] = [
    K::Device,
    K::Cpu,
    K::Peripheral,
    K::AddressBlock,
    K::Interrupt,
    K::Cluster,
    K::Register,
    K::Field,
    K::Evs,
    K::Ev,
    K::Dai,
];
impl K {
    pub fn tag(self) -> &'static str {
        match self {
            K::Device => "device",
            K::Cpu => "cpu",
            K::Peripheral => "peripheral",
            K::AddressBlock => "addressBlock",
            K::Interrupt => "interrupt",
            K::Cluster => "cluster",
            K::Register => "register",
            K::Field => "field",
            K::Evs => "enumeratedValues",
            K::Ev => "enumeratedValue",
            K::Dai => "dimArrayIndex",
        }
    }
    pub fn from_tag(s: &str) -> Option<K> {
        KINDS.iter().copied().find(|k| k.tag() == s)
    }
    pub fn dimable(self) -> bool {
        matches!(self, K::Peripheral | K::Cluster | K::Register | K::Field)
    }
    pub fn derivable(self) -> bool {
        matches!(
            self,
            K::Peripheral | K::Cluster | K::Register | K::Field | K::Evs
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wc {
    AsRead(bool),
    UseEnum(bool),
    Range(u64, u64),
}

/// Notation a bit range was given in.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bt {
    Range,
    OffWidth,
    MsbLsb,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    S(String),
    N(u64),
    B(bool),
    L(Vec<String>),
    R(u64, u64, Bt),
    W(Wc),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct El {
    pub k: K,
    pub f: BTreeMap<&'static str, V>,
    pub g: BTreeMap<&'static str, Vec<El>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Text,
    U32,
    U64,
    Bool,
    Enum(&'static [&'static str]),
    Bits,
    Wc,
    /// dimIndex
    Idx,
    /// attribute text
    Attr,
}

#[derive(Clone, Copy, Debug)]
pub enum It {
    /// name, type, required
    F(&'static str, Ty, bool),
    /// group of children
    G(&'static str),
}
use It::{F, G};

pub const ACCESS: &[&str] = &[
    "read-only",
    "read-write",
    "read-writeOnce",
    "writeOnce",
    "write-only",
];
pub const PROT: &[&str] = &["s", "n", "p"];
pub const ENDIAN: &[&str] = &["little", "big", "selectable", "other"];
pub const USAGE: &[&str] = &["read", "write", "read-write"];
pub const ABUSAGE: &[&str] = &["registers", "buffer", "reserved"];
pub const READACT: &[&str] = &["clear", "set", "modify", "modifyExternal"];
pub const MWV: &[&str] = &[
    "oneToClear",
    "oneToSet",
    "oneToToggle",
    "zeroToClear",
    "zeroToSet",
    "zeroToToggle",
    "clear",
    "set",
    "modify",
];
pub const DTYPE: &[&str] = &[
    "uint8_t",
    "uint16_t",
    "uint32_t",
    "uint64_t",
    "int8_t",
    "int16_t",
    "int32_t",
    "int64_t",
    "uint8_t *",
    "uint16_t *",
    "uint32_t *",
    "uint64_t *",
    "int8_t *",
    "int16_t *",
    "int32_t *",
    "int64_t *",
];

macro_rules! dims {
    () => {
        [
            F("dim", Ty::U32, false),
            F("dimIncrement", Ty::U32, false),
            F("dimIndex", Ty::Idx, false),
            F("dimName", Ty::Text, false),
            G("dimArrayIndex"),
        ]
    };
}
pub const DIMS: [It; 5] = dims!();
pub const PROPS: [It; 5] = [
    F("size", Ty::U32, false),
    F("access", Ty::Enum(ACCESS), false),
    F("protection", Ty::Enum(PROT), false),
    F("resetValue", Ty::U64, false),
    F("resetMask", Ty::U64, false),
];
pub const PROP_NAMES: [&str; 5] = ["size", "access", "protection", "resetValue", "resetMask"];

const DEVICE: &[It] = &[
    F("vendor", Ty::Text, false),
    F("vendorID", Ty::Text, false),
    F("name", Ty::Text, true),
    F("series", Ty::Text, false),
    F("version", Ty::Text, false),
    F("description", Ty::Text, false),
    F("licenseText", Ty::Text, false),
    G("cpu"),
    F("headerSystemFilename", Ty::Text, false),
    F("headerDefinitionsPrefix", Ty::Text, false),
    F("addressUnitBits", Ty::U32, false),
    F("width", Ty::U32, false),
    PROPS[0],
    PROPS[1],
    PROPS[2],
    PROPS[3],
    PROPS[4],
    G("peripherals"),
    F("@schemaVersion", Ty::Attr, false),
    F("@xs", Ty::Attr, false),
    F("@loc", Ty::Attr, false),
];
const CPU: &[It] = &[
    F("name", Ty::Text, true),
    F("revision", Ty::Text, true),
    F("endian", Ty::Enum(ENDIAN), true),
    F("mpuPresent", Ty::Bool, true),
    F("fpuPresent", Ty::Bool, true),
    F("fpuDP", Ty::Bool, false),
    F("dspPresent", Ty::Bool, false),
    F("icachePresent", Ty::Bool, false),
    F("dcachePresent", Ty::Bool, false),
    F("itcmPresent", Ty::Bool, false),
    F("dtcmPresent", Ty::Bool, false),
    F("vtorPresent", Ty::Bool, false),
    F("nvicPrioBits", Ty::U32, true),
    F("vendorSystickConfig", Ty::Bool, true),
    F("deviceNumInterrupts", Ty::U32, false),
    F("sauNumRegions", Ty::U32, false),
];
const PERIPHERAL: &[It] = &[
    DIMS[0],
    DIMS[1],
    DIMS[2],
    DIMS[3],
    DIMS[4],
    F("name", Ty::Text, true),
    F("displayName", Ty::Text, false),
    F("version", Ty::Text, false),
    F("description", Ty::Text, false),
    F("alternatePeripheral", Ty::Text, false),
    F("groupName", Ty::Text, false),
    F("prependToName", Ty::Text, false),
    F("appendToName", Ty::Text, false),
    F("headerStructName", Ty::Text, false),
    F("baseAddress", Ty::U64, true),
    PROPS[0],
    PROPS[1],
    PROPS[2],
    PROPS[3],
    PROPS[4],
    G("addressBlock"),
    G("interrupt"),
    G("registers"),
    F("@derivedFrom", Ty::Attr, false),
];
const ADDRESSBLOCK: &[It] = &[
    F("offset", Ty::U32, true),
    F("size", Ty::U32, true),
    F("usage", Ty::Enum(ABUSAGE), true),
    F("protection", Ty::Enum(PROT), false),
];
const INTERRUPT: &[It] = &[
    F("name", Ty::Text, true),
    F("description", Ty::Text, false),
    F("value", Ty::U32, true),
];
const CLUSTER: &[It] = &[
    DIMS[0],
    DIMS[1],
    DIMS[2],
    DIMS[3],
    DIMS[4],
    F("name", Ty::Text, true),
    F("description", Ty::Text, false),
    F("alternateCluster", Ty::Text, false),
    F("headerStructName", Ty::Text, false),
    F("addressOffset", Ty::U32, true),
    PROPS[0],
    PROPS[1],
    PROPS[2],
    PROPS[3],
    PROPS[4],
    G("children"),
    F("@derivedFrom", Ty::Attr, false),
];
const REGISTER: &[It] = &[
    DIMS[0],
    DIMS[1],
    DIMS[2],
    DIMS[3],
    DIMS[4],
    F("name", Ty::Text, true),
    F("displayName", Ty::Text, false),
    F("description", Ty::Text, false),
    F("alternateGroup", Ty::Text, false),
    F("alternateRegister", Ty::Text, false),
    F("addressOffset", Ty::U32, true),
    PROPS[0],
    PROPS[1],
    PROPS[2],
    PROPS[3],
    PROPS[4],
    F("dataType", Ty::Enum(DTYPE), false),
    F("modifiedWriteValues", Ty::Enum(MWV), false),
    F("writeConstraint", Ty::Wc, false),
    F("readAction", Ty::Enum(READACT), false),
    G("fields"),
    F("@derivedFrom", Ty::Attr, false),
];
const FIELD: &[It] = &[
    DIMS[0],
    DIMS[1],
    DIMS[2],
    DIMS[3],
    DIMS[4],
    F("name", Ty::Text, true),
    F("description", Ty::Text, false),
    F("bits", Ty::Bits, true),
    F("access", Ty::Enum(ACCESS), false),
    F("modifiedWriteValues", Ty::Enum(MWV), false),
    F("writeConstraint", Ty::Wc, false),
    F("readAction", Ty::Enum(READACT), false),
    G("enumeratedValues"),
    F("@derivedFrom", Ty::Attr, false),
];
const EVS: &[It] = &[
    F("name", Ty::Text, false),
    F("usage", Ty::Enum(USAGE), false),
    G("values"),
    F("@derivedFrom", Ty::Attr, false),
];
const EV: &[It] = &[
    F("name", Ty::Text, true),
    F("description", Ty::Text, false),
    F("value", Ty::U64, false),
    F("isDefault", Ty::Bool, false),
];
const DAI: &[It] = &[F("headerEnumName", Ty::Text, false), G("values")];

pub fn items(k: K) -> &'static [It] {
    match k {
        K::Device => DEVICE,
        K::Cpu => CPU,
        K::Peripheral => PERIPHERAL,
        K::AddressBlock => ADDRESSBLOCK,
        K::Interrupt => INTERRUPT,
        K::Cluster => CLUSTER,
        K::Register => REGISTER,
        K::Field => FIELD,
        K::Evs => EVS,
        K::Ev => EV,
        K::Dai => DAI,
    }
}

/// Keys used only in edits, not in descriptions.
const EXTRA: &[&str] = &[
    "bitOffset", "bitWidth", "bitSeq", "bitOffset2", "bitWidth2", "viaProps", "derivedFrom",
];
pub fn intern(s: &str) -> Option<&'static str> {
    for k in KINDS {
        for it in items(k) {
            match it {
                F(n, _, _) | G(n) => {
                    if *n == s {
                        return Some(n);
                    }
                }
            }
        }
    }
    EXTRA.iter().find(|x| **x == s).copied()
}

impl El {
    pub fn new(k: K) -> El {
        El {
            k,
            f: BTreeMap::new(),
            g: BTreeMap::new(),
        }
    }
    pub fn set_s(&mut self, n: &'static str, v: impl Into<String>) -> &mut Self {
        self.f.insert(n, V::S(v.into()));
        self
    }
    pub fn set_n(&mut self, n: &'static str, v: u64) -> &mut Self {
        self.f.insert(n, V::N(v));
        self
    }
    pub fn s(&self, n: &str) -> Option<String> {
        match self.f.get(n) {
            Some(V::S(s)) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn sr(&self, n: &str) -> Option<&str> {
        match self.f.get(n) {
            Some(V::S(s)) => Some(s.as_str()),
            _ => None,
        }
    }
    pub fn n(&self, n: &str) -> Option<u64> {
        match self.f.get(n) {
            Some(V::N(s)) => Some(*s),
            _ => None,
        }
    }
    pub fn n32(&self, n: &str) -> Option<u32> {
        self.n(n).map(|x| x as u32)
    }
    pub fn b(&self, n: &str) -> Option<bool> {
        match self.f.get(n) {
            Some(V::B(s)) => Some(*s),
            _ => None,
        }
    }
    pub fn l(&self, n: &str) -> Option<Vec<String>> {
        match self.f.get(n) {
            Some(V::L(s)) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn wc(&self) -> Option<Wc> {
        match self.f.get("writeConstraint") {
            Some(V::W(w)) => Some(*w),
            _ => None,
        }
    }
    pub fn bits(&self) -> Option<(u64, u64, Bt)> {
        match self.f.get("bits") {
            Some(V::R(o, w, t)) => Some((*o, *w, *t)),
            _ => None,
        }
    }
    pub fn name(&self) -> &str {
        self.sr("name").unwrap_or("")
    }
    pub fn is_array(&self) -> bool {
        self.f.contains_key("dimIncrement")
    }
    pub fn grp(&self, n: &str) -> &[El] {
        self.g.get(n).map(|v| v.as_slice()).unwrap_or(&[])
    }
    pub fn count(&self) -> usize {
        1 + self
            .g
            .values()
            .flat_map(|v| v.iter())
            .map(|e| e.count())
            .sum::<usize>()
    }
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a El>) {
        out.push(self);
        for v in self.g.values() {
            for e in v {
                e.walk(out);
            }
        }
    }
    pub fn all(&self) -> Vec<&El> {
        let mut v = Vec::new();
        self.walk(&mut v);
        v
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut El)) {
        f(self);
        for v in self.g.values_mut() {
            for e in v {
                e.walk_mut(f);
            }
        }
    }

    /// Empty optional texts and empty groups count as absent.
    pub fn canon(&self) -> El {
        let mut e = El::new(self.k);
        for (n, v) in &self.f {
            if let V::S(s) = v {
                if s.is_empty() && !self.must_keep(n) {
                    continue;
                }
            }
            e.f.insert(n, v.clone());
        }
        for (n, v) in &self.g {
            if v.is_empty() {
                continue;
            }
            e.g.insert(n, v.iter().map(|c| c.canon()).collect());
        }
        e
    }
    fn must_keep(&self, n: &str) -> bool {
        items(self.k)
            .iter()
            .any(|i| matches!(i, F(m, _, true) if *m == n))
            || (self.k == K::Device && matches!(n, "version" | "description"))
    }

    pub fn to_json(&self) -> Value {
        let mut f = Map::new();
        for (n, v) in &self.f {
            f.insert(n.to_string(), v.to_json());
        }
        let mut o = Map::new();
        o.insert("k".into(), json!(self.k.tag()));
        o.insert("f".into(), Value::Object(f));
        if !self.g.is_empty() {
            let mut g = Map::new();
            for (n, v) in &self.g {
                g.insert(
                    n.to_string(),
                    Value::Array(v.iter().map(|e| e.to_json()).collect()),
                );
            }
            o.insert("g".into(), Value::Object(g));
        }
        Value::Object(o)
    }
    pub fn from_json(v: &Value) -> Option<El> {
        let k = K::from_tag(v.get("k")?.as_str()?)?;
        let mut e = El::new(k);
        for (n, x) in v.get("f")?.as_object()? {
            e.f.insert(intern(n)?, V::from_json(x)?);
        }
        if let Some(g) = v.get("g") {
            for (n, x) in g.as_object()? {
                let mut c = Vec::new();
                for y in x.as_array()? {
                    c.push(El::from_json(y)?);
                }
                e.g.insert(intern(n)?, c);
            }
        }
        Some(e)
    }
}

impl V {
    pub fn to_json(&self) -> Value {
        match self {
            V::S(s) => json!(s),
            V::N(n) => json!(n),
            V::B(b) => json!(b),
            V::L(l) => json!(l),
            V::R(o, w, t) => json!({"off": o, "w": w, "t": match t {
                Bt::Range => "range", Bt::OffWidth => "ow", Bt::MsbLsb => "ml"}}),
            V::W(Wc::AsRead(b)) => json!({ "asRead": b }),
            V::W(Wc::UseEnum(b)) => json!({ "useEnum": b }),
            V::W(Wc::Range(a, b)) => json!({"min": a, "max": b}),
        }
    }
    pub fn from_json(v: &Value) -> Option<V> {
        Some(match v {
            Value::String(s) => V::S(s.clone()),
            Value::Number(n) => V::N(n.as_u64()?),
            Value::Bool(b) => V::B(*b),
            Value::Array(a) => V::L(
                a.iter()
                    .map(|x| x.as_str().map(|s| s.to_string()))
                    .collect::<Option<Vec<_>>>()?,
            ),
            Value::Object(o) => {
                if let Some(b) = o.get("asRead") {
                    V::W(Wc::AsRead(b.as_bool()?))
                } else if let Some(b) = o.get("useEnum") {
                    V::W(Wc::UseEnum(b.as_bool()?))
                } else if let Some(a) = o.get("min") {
                    V::W(Wc::Range(a.as_u64()?, o.get("max")?.as_u64()?))
                } else {
                    V::R(
                        o.get("off")?.as_u64()?,
                        o.get("w")?.as_u64()?,
                        match o.get("t")?.as_str()? {
                            "range" => Bt::Range,
                            "ow" => Bt::OffWidth,
                            "ml" => Bt::MsbLsb,
                            _ => return None,
                        },
                    )
                }
            }
            Value::Null => return None,
        })
    }
}

impl serde::Serialize for El {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.to_json().serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for El {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        El::from_json(&v).ok_or_else(|| serde::de::Error::custom("bad element"))
    }
}

/// First difference between two trees, as text, or None when equal.
pub fn diff(a: &El, b: &El) -> Option<String> {
    fn go(a: &El, b: &El, path: &str) -> Option<String> {
        let here = format!("{}/{}[{}]", path, a.k.tag(), a.name());
        if a.k != b.k {
            return Some(format!("{here}: kind {:?} vs {:?}", a.k, b.k));
        }
        for (n, v) in &a.f {
            match b.f.get(n) {
                None => return Some(format!("{here}: {n} = {v:?} vs absent")),
                Some(w) if w != v => return Some(format!("{here}: {n} = {v:?} vs {w:?}")),
                _ => {}
            }
        }
        for (n, w) in &b.f {
            if !a.f.contains_key(n) {
                return Some(format!("{here}: {n} absent vs {w:?}"));
            }
        }
        for (n, v) in &a.g {
            let Some(w) = b.g.get(n) else {
                return Some(format!("{here}: group {n} of {} vs absent", v.len()));
            };
            for (x, y) in v.iter().zip(w.iter()) {
                if let Some(d) = go(x, y, &here) {
                    return Some(d);
                }
            }
            if v.len() != w.len() {
                return Some(format!("{here}: group {n} has {} vs {}", v.len(), w.len()));
            }
        }
        for (n, w) in &b.g {
            if !a.g.contains_key(n) {
                return Some(format!("{here}: group {n} absent vs {} elements", w.len()));
            }
        }
        None
    }
    if a == b {
        None
    } else {
        go(a, b, "").or(Some("differ".into()))
    }
}
