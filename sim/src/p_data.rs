//! C18: what a text in data form (JSON or YAML) is imported as. The writer, the reader
//! and the table of keys are independent of the types' serde implementations.

use crate::damage;
use crate::disk::{gen_faults, Disk, Image};
use crate::gen;
use crate::model::*;
use crate::p_save::no_schema;
use crate::refparse::index_list;
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::ses::*;
use crate::sys;
use serde_json::{json, Value};
use svd_rs::Device;

// ---------------------------------------------------------------- texts

#[derive(Clone, PartialEq, Debug)]
pub enum J {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    fn from_value(v: &Value) -> J {
        match v {
            Value::Null => J::Null,
            Value::Bool(b) => J::Bool(*b),
            Value::Number(n) => match (n.as_u64(), n.as_i64()) {
                (Some(u), _) => J::U(u),
                (_, Some(i)) => J::I(i),
                _ => J::F(n.as_f64().unwrap_or(0.5)),
            },
            Value::String(s) => J::S(s.clone()),
            Value::Array(a) => J::A(a.iter().map(J::from_value).collect()),
            Value::Object(m) => J::O(m.iter().map(|(k, v)| (k.clone(), J::from_value(v))).collect()),
        }
    }
    fn leaf(&self) -> bool {
        !matches!(self, J::A(_) | J::O(_))
    }
    fn walk<'a>(&'a mut self, f: &mut dyn FnMut(&mut J)) {
        f(self);
        match self {
            J::A(a) => a.iter_mut().for_each(|x| x.walk(f)),
            J::O(m) => m.iter_mut().for_each(|x| x.1.walk(f)),
            _ => {}
        }
    }
}
struct JV;
impl<'de> serde::de::Visitor<'de> for JV {
    type Value = J;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("data")
    }
    fn visit_unit<E>(self) -> Result<J, E> {
        Ok(J::Null)
    }
    fn visit_bool<E>(self, b: bool) -> Result<J, E> {
        Ok(J::Bool(b))
    }
    fn visit_u64<E>(self, b: u64) -> Result<J, E> {
        Ok(J::U(b))
    }
    fn visit_i64<E>(self, b: i64) -> Result<J, E> {
        Ok(if b < 0 { J::I(b) } else { J::U(b as u64) })
    }
    fn visit_f64<E>(self, b: f64) -> Result<J, E> {
        Ok(J::F(b))
    }
    fn visit_str<E>(self, b: &str) -> Result<J, E> {
        Ok(J::S(b.to_string()))
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(J::A(v))
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry()? {
            v.push(x);
        }
        Ok(J::O(v))
    }
}
impl<'de> serde::Deserialize<'de> for J {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        d.deserialize_any(JV)
    }
}

fn key(k: K, n: &'static str) -> &'static str {
    match (k, n) {
        (K::Evs, "@derivedFrom") => "derived_from",
        (_, "@derivedFrom") => "derivedFrom",
        (_, "isDefault") => "is_default",
        (_, "dataType") => "datatype",
        (_, n) => n,
    }
}
const DTYPE_J: &[&str] = &[
    "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u8_ptr", "u16_ptr", "u32_ptr", "u64_ptr", "i8_ptr", "i16_ptr",
    "i32_ptr", "i64_ptr",
];
fn names(n: &str, l: &'static [&'static str]) -> &'static [&'static str] {
    if n == "dataType" {
        DTYPE_J
    } else {
        l
    }
}
/// Schema attributes are no part of the data form.
fn outside(k: K, n: &str) -> bool {
    k == K::Device && n.starts_with('@')
}
/// A range of indexes in the short notation, where it means the same.
fn short(l: &[String]) -> String {
    let s = l.join(",");
    if l.len() > 1 {
        let r = format!("{}-{}", l[0], l[l.len() - 1]);
        if index_list(&r, 100).is_some_and(|x| x.1.as_deref() == Some(l)) {
            return r;
        }
    }
    s
}
/// A description in data form, as another program would write it.
fn to_j(e: &El, r: &mut Rng, st: &Value) -> J {
    let mut m: Vec<(String, J)> = vec![];
    let nulls = flag(st, "nulls");
    for it in items(e.k) {
        match it {
            It::F(n, ..) if outside(e.k, n) => {}
            It::F(n, Ty::Bits, _) => {
                let Some((o, w, t)) = e.bits() else { continue };
                let top = (o + w).wrapping_sub(1);
                match t {
                    Bt::Range => m.push(("bitRange".into(), J::S(format!("[{top}:{o}]")))),
                    Bt::OffWidth => {
                        m.push(("bitOffset".into(), J::U(o)));
                        m.push(("bitWidth".into(), J::U(w)));
                    }
                    Bt::MsbLsb => {
                        m.push(("msb".into(), J::U(top)));
                        m.push(("lsb".into(), J::U(o)));
                    }
                }
                let _ = n;
            }
            It::F(n, t, req) => {
                let v = match e.f.get(n) {
                    None if nulls && !req && r.pct(30) && !(e.k == K::Device && matches!(*n, "version" | "description" | "width" | "addressUnitBits")) => J::Null,
                    None => continue,
                    Some(V::S(s)) => match t {
                        Ty::Enum(l) => match l.iter().position(|x| x == s) {
                            Some(i) => J::S(names(n, l)[i].to_string()),
                            None => J::S(s.clone()),
                        },
                        _ => J::S(s.clone()),
                    },
                    Some(V::N(x)) => J::U(*x),
                    Some(V::B(b)) => J::Bool(*b),
                    Some(V::L(l)) => match r.below(3) {
                        0 => J::A(l.iter().map(|s| J::S(s.clone())).collect()),
                        1 => J::S(short(l)),
                        _ => {
                            let s = l.join(",");
                            if s.contains('-') || l.iter().any(|x| x.contains(',')) {
                                J::A(l.iter().map(|s| J::S(s.clone())).collect())
                            } else {
                                J::S(s)
                            }
                        }
                    },
                    Some(V::W(w)) => J::O(vec![match w {
                        Wc::AsRead(b) => ("writeAsRead".into(), J::Bool(*b)),
                        Wc::UseEnum(b) => ("useEnumeratedValues".into(), J::Bool(*b)),
                        Wc::Range(a, b) => ("range".into(), J::O(vec![("minimum".into(), J::U(*a)), ("maximum".into(), J::U(*b))])),
                    }]),
                    Some(V::R(..)) => continue,
                };
                m.push((key(e.k, n).into(), v));
            }
            It::G(n) => {
                let c = e.g.get(n);
                let one = matches!(*n, "cpu" | "dimArrayIndex");
                let must = matches!((e.k, *n), (K::Device, "peripherals") | (K::Cluster, "children") | (K::Dai, "values"));
                let v = match c {
                    Some(c) if one && !c.is_empty() => to_j(&c[0], r, st),
                    Some(c) if !one && (must || !c.is_empty() || r.pct(50)) => J::A(
                        c.iter()
                            .map(|x| {
                                let y = to_j(x, r, st);
                                if matches!(*n, "registers" | "children") {
                                    J::O(vec![(x.k.tag().to_string(), y)])
                                } else {
                                    y
                                }
                            })
                            .collect(),
                    ),
                    _ if must => J::A(vec![]),
                    _ if nulls && r.pct(30) && matches!(*n, "cpu" | "dimArrayIndex" | "addressBlock" | "registers" | "fields") => J::Null,
                    _ => continue,
                };
                m.push((n.to_string(), v));
            }
        }
    }
    if flag(st, "extra") && r.pct(20) {
        let v = r.pick(&[json!(1), json!("x"), json!({"a": [1, {"name": "y"}]}), json!([]), json!(null), json!(-2.5)]).clone();
        let k = *r.pick(&["vendorExtensions", "comment", "Name", "derivedfrom", "dim_index", "x-y", "register", "sizes"]);
        m.push((k.into(), J::from_value(&v)));
    }
    if flag(st, "shuffle") {
        r.shuffle(&mut m);
    }
    J::O(m)
}
fn quote(s: &str, r: &mut Rng, yaml: bool, esc: u64) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' if r.pct(50) => o.push_str("\\t"),
            '/' if !yaml && r.pct(esc) => o.push_str("\\/"),
            c if (c as u32) < 32 || (c as u32) == 127 || yaml && !c.is_ascii() || r.pct(esc) => {
                if yaml {
                    if c as u32 > 0xffff {
                        o.push_str(&format!("\\U{:08x}", c as u32));
                    } else {
                        o.push_str(&format!("\\u{:04x}", c as u32));
                    }
                } else {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&if r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn scalar(j: &J, r: &mut Rng, yaml: bool, esc: u64) -> String {
    match j {
        J::Null => if yaml && r.pct(50) { "~" } else { "null" }.into(),
        J::Bool(b) => b.to_string(),
        J::U(n) => n.to_string(),
        J::I(n) => n.to_string(),
        J::F(n) => format!("{n:?}"),
        J::S(s) => quote(s, r, yaml, esc),
        _ => String::new(),
    }
}
fn lay(j: &J, r: &mut Rng, st: &Value, yaml: bool, depth: usize, o: &mut String) {
    let esc = num(st, "esc");
    let ws = |r: &mut Rng, o: &mut String| match text(st, "ws") {
        "none" => {}
        "pretty" => {
            o.push('\n');
            for _ in 0..depth + 1 {
                o.push_str("  ");
            }
        }
        _ => {
            for _ in 0..r.below(3) {
                o.push(*r.pick(if yaml { &[' ', ' '][..] } else { &[' ', '\n', '\t', '\r'][..] }));
            }
        }
    };
    match j {
        J::A(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(r, o);
                lay(x, r, st, yaml, depth + 1, o);
            }
            ws(r, o);
            o.push(']');
        }
        J::O(m) => {
            o.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(r, o);
                o.push_str(&quote(k, r, yaml, esc));
                o.push_str(if yaml { ": " } else { ":" });
                if !yaml {
                    ws(r, o);
                }
                lay(x, r, st, yaml, depth + 1, o);
            }
            ws(r, o);
            o.push('}');
        }
        x => o.push_str(&scalar(x, r, yaml, esc)),
    }
}
fn block(j: &J, r: &mut Rng, st: &Value, ind: usize, o: &mut String) {
    let pad = " ".repeat(ind);
    match j {
        J::A(a) if !a.is_empty() => {
            for x in a {
                o.push_str(&format!("\n{pad}-"));
                block(x, r, st, ind + 2, o);
            }
        }
        J::O(m) if !m.is_empty() => {
            for (k, x) in m {
                let k = if k.bytes().all(|c| c.is_ascii_alphabetic() || c == b'_') && !matches!(k.as_str(), "" | "true" | "false" | "null" | "y" | "n") {
                    k.clone()
                } else {
                    quote(k, r, true, 0)
                };
                o.push_str(&format!("\n{pad}{k}:"));
                block(x, r, st, ind + 2, o);
            }
        }
        x => {
            o.push(' ');
            lay(x, r, st, true, 0, o);
        }
    }
}
fn render(j: &J, st: &Value) -> String {
    let mut r = Rng::new(num(st, "seed") ^ 77);
    let mut o = String::new();
    match text(st, "form") {
        "block" => {
            o.push_str("---");
            block(j, &mut r, st, 0, &mut o);
            o.push('\n');
        }
        "flow" => lay(j, &mut r, st, true, 0, &mut o),
        _ => lay(j, &mut r, st, false, 0, &mut o),
    }
    o
}

// ---------------------------------------------------------------- damage

const NUMS: &[u64] = &[0, 1, 2, 3, 7, 8, 31, 32, 63, 64, 255, 65536, 1 << 31, u32::MAX as u64 - 1, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX];
fn gen_slip(r: &mut Rng) -> Value {
    let (i, n) = (r.below(1 << 20), r.below(1 << 20));
    match r.below(15) {
        14 => {
            let (t, v) = damage::index_range(r);
            json!({"j": "range", "i": i, "t": t, "n": v})
        }
        0 | 1 => json!({"j": "del", "i": i}),
        2 | 3 => json!({"j": "num", "i": i, "n": n}),
        4 | 5 => json!({"j": "text", "i": i, "n": n, "t": damage::token(r)}),
        6 => json!({"j": "slip", "i": i, "n": n, "t": damage::bit(r)}),
        7 => json!({"j": "type", "i": i, "n": n}),
        8 => json!({"j": "mix", "i": i, "n": n}),
        9 => json!({"j": "ren", "i": i, "n": n, "t": damage::tag(r)}),
        10 => json!({"j": "add", "i": i, "n": n, "t": damage::tag(r)}),
        11 => json!({"j": "dup", "i": i, "n": n}),
        12 => json!({"j": "rot", "i": i}),
        _ => json!({"j": "case", "i": i}),
    }
}
/// Changes the i-th of the nodes that qualify.
fn nth(j: &mut J, ok: &dyn Fn(&J) -> bool, i: u64, f: &mut dyn FnMut(&mut J)) -> bool {
    let mut n = 0u64;
    j.walk(&mut |x| n += ok(x) as u64);
    if n == 0 {
        return false;
    }
    let (mut k, mut done) = (i % n, false);
    j.walk(&mut |x| {
        if !done && ok(x) {
            if k == 0 {
                done = true;
                f(x);
            } else {
                k -= 1;
            }
        }
    });
    done
}
/// Changes a value that qualifies: first a key is chosen, then one of its occurrences.
fn nth_of(j: &mut J, ok: &dyn Fn(&J) -> bool, i: u64, f: &mut dyn FnMut(&mut J)) -> bool {
    let mut keys = std::collections::BTreeSet::new();
    j.walk(&mut |x| {
        if let J::O(m) = x {
            keys.extend(m.iter().filter(|y| ok(&y.1)).map(|y| y.0.clone()));
        }
    });
    let Some(k) = keys.iter().nth(i as usize % keys.len().max(1)) else { return false };
    let has = |x: &J| matches!(x, J::O(m) if m.iter().any(|y| y.0 == *k && ok(&y.1)));
    nth(j, &has, i / 64, &mut |x| {
        if let J::O(m) = x {
            for y in m.iter_mut().filter(|y| y.0 == *k && ok(&y.1)).take(1) {
                f(&mut y.1);
            }
        }
    })
}
fn slip(j: &mut J, f: &Value) -> Option<&'static str> {
    let (i, n, t) = (num(f, "i"), num(f, "n"), text(f, "t").to_string());
    let before = j.clone();
    let obj = |x: &J| matches!(x, J::O(m) if !m.is_empty());
    let list = |x: &J| matches!(x, J::A(m) if !m.is_empty());
    let what = match text(f, "j") {
        "del" => {
            nth(j, &|x| obj(x) || list(x), i, &mut |x| match x {
                J::O(m) => {
                    let k = (i / 3) as usize % m.len();
                    m.remove(k);
                }
                J::A(m) => {
                    let k = (i / 3) as usize % m.len();
                    m.remove(k);
                }
                _ => {}
            });
            "lost element"
        }
        "num" => {
            nth_of(j, &|x| matches!(x, J::U(_)), i, &mut |x| {
                if let J::U(v) = x {
                    *x = match n % 4 {
                        0 => J::U(NUMS[n as usize / 4 % NUMS.len()]),
                        1 => J::U(v.wrapping_add(1)),
                        2 => J::I(-1 - (n as i64 / 4 % 3)),
                        _ => J::F(*v as f64),
                    }
                }
            });
            "replaced value"
        }
        "text" => {
            nth_of(j, &|x| matches!(x, J::S(_)), i, &mut |x| *x = J::S(t.clone()));
            "replaced value"
        }
        "slip" => {
            nth_of(j, &|x| matches!(x, J::S(_)), i, &mut |x| {
                if let J::S(s) = x {
                    let l = s.chars().count();
                    let k = n as usize % (l + 1);
                    *s = s.chars().take(k).chain(t.chars()).chain(s.chars().skip(k)).collect();
                }
            });
            "slip in a value"
        }
        "case" => {
            nth(j, &|x| matches!(x, J::S(_)) || obj(x), i, &mut |x| match x {
                J::S(s) => {
                    let u = s.to_uppercase();
                    *s = if *s == u { s.to_lowercase() } else { u };
                }
                J::O(m) => {
                    let k = (i / 3) as usize % m.len();
                    m[k].0 = if i % 2 == 0 {
                        m[k].0.to_lowercase()
                    } else {
                        m[k].0.chars().flat_map(|c| if c.is_ascii_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect()
                    };
                }
                _ => {}
            });
            "changed case"
        }
        "range" => {
            nth(j, &|x| matches!(x, J::O(m) if m.iter().any(|y| y.0 == "dim")), i, &mut |x| {
                if let J::O(m) = x {
                    m.retain(|y| y.0 != "dimIndex");
                    m.push(("dimIndex".into(), J::S(t.clone())));
                    for y in m.iter_mut().filter(|y| y.0 == "dim") {
                        y.1 = J::U(n);
                    }
                }
            });
            "range of indexes"
        }
        "type" => {
            nth(j, &|x| x.leaf(), i, &mut |x| {
                *x = match (&*x, n % 6) {
                    (J::S(s), 0) => s.parse().map(J::U).unwrap_or(J::Null),
                    (J::S(s), 1) => J::A(vec![J::S(s.clone())]),
                    (J::S(_), _) => [J::Null, J::Bool(true), J::U(1), J::A(vec![])][n as usize / 6 % 4].clone(),
                    (J::U(v), 0) => J::S(v.to_string()),
                    (J::U(v), 1) => J::S(format!("{v:#x}")),
                    (J::U(v), 2) => J::A(vec![J::U(*v)]),
                    (J::U(_), _) => [J::Null, J::Bool(true), J::A(vec![])][n as usize / 6 % 3].clone(),
                    (J::Bool(b), 0) => J::U(*b as u64),
                    (J::Bool(b), 1) => J::S(b.to_string()),
                    (J::Bool(b), 2) => J::Bool(!b),
                    (J::Bool(_), _) => J::Null,
                    (_, k) => [J::U(0), J::S(String::new()), J::A(vec![]), J::Bool(false)][k as usize % 4].clone(),
                }
            });
            "value of another kind"
        }
        "mix" => {
            // one structure gets a value from another under the same key
            let mut all: Vec<(String, J)> = vec![];
            j.walk(&mut |x| {
                if let J::O(m) = x {
                    all.extend(m.iter().cloned());
                }
            });
            if all.is_empty() {
                return None;
            }
            let (k, v) = all[n as usize % all.len()].clone();
            nth(j, &|x| matches!(x, J::O(m) if m.iter().any(|y| y.0 == k && y.1 != v)), i, &mut |x| {
                if let J::O(m) = x {
                    if let Some(y) = m.iter_mut().find(|y| y.0 == k) {
                        y.1 = v.clone();
                    }
                }
            });
            "moved element"
        }
        "ren" => {
            nth(j, &obj, i, &mut |x| {
                if let J::O(m) = x {
                    let k = n as usize % m.len();
                    if !m.iter().any(|y| y.0 == t) {
                        m[k].0 = t.clone();
                    }
                }
            });
            "renamed element"
        }
        "add" => {
            let v = [J::U(0), J::S("[7:0]".into()), J::S("x".into()), J::U(u32::MAX as u64), J::A(vec![J::S("0".into()), J::S("1".into())]), J::Null, J::O(vec![]), J::U(2), J::S("0-1".into()), J::S("read-only".into()), J::Bool(true), J::S("s".into())]
                [n as usize % 12]
                .clone();
            nth(j, &obj, i, &mut |x| {
                if let J::O(m) = x {
                    if !m.iter().any(|y| y.0 == t) {
                        m.push((t.clone(), v.clone()));
                    }
                }
            });
            "extra element"
        }
        "dup" => {
            nth(j, &list, i, &mut |x| {
                if let J::A(m) = x {
                    let k = n as usize % m.len();
                    let y = m[k].clone();
                    m.insert(k, y);
                }
            });
            "duplicated element"
        }
        "rot" => {
            nth(j, &|x| matches!(x, J::A(m) if m.len() > 1), i, &mut |x| {
                if let J::A(m) = x {
                    m.rotate_left(1);
                }
            });
            "moved element"
        }
        _ => return None,
    };
    (*j != before).then_some(what)
}

// ---------------------------------------------------------------- the reader

#[derive(Default)]
struct Rd {
    err: Option<String>,
    quirk: Option<&'static str>,
    yaml: bool,
    size: u64,
}
impl Rd {
    fn bad(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }
    fn list<'a>(&mut self, k: K, n: &str, j: Option<&'a J>, opt: bool, must: bool) -> Option<&'a [J]> {
        match j {
            None if must => {
                self.bad(format!("no {n} in {}", k.tag()));
                None
            }
            None => None,
            Some(J::Null) if opt => None,
            Some(J::A(a)) => Some(a),
            Some(_) => {
                self.bad(format!("kind of {n} in {}", k.tag()));
                None
            }
        }
    }
    fn element(&mut self, k: K, j: &J) -> El {
        let mut e = El::new(k);
        let J::O(m) = j else {
            if matches!(j, J::A(_)) && !matches!(k, K::Device | K::Peripheral | K::Cluster | K::Register | K::Field) {
                self.quirk = Some("list for a structure");
            }
            self.bad(format!("kind of {}", k.tag()));
            return e;
        };
        for (i, x) in m.iter().enumerate() {
            if m[..i].iter().any(|y| y.0 == x.0) {
                self.quirk = Some("repeated key");
            }
        }
        for it in items(k) {
            match it {
                It::F(n, ..) if outside(k, n) => {}
                It::F(n, Ty::Bits, _) => match self.bits(j) {
                    Some(b) => {
                        e.f.insert(n, b);
                    }
                    None => self.bad("bits"),
                },
                It::F(n, t, req) => {
                    let req = *req || k == K::Device && matches!(*n, "version" | "description" | "width" | "addressUnitBits");
                    match j.get(key(k, n)) {
                        None if req => self.bad(format!("no {n} in {}", k.tag())),
                        None => {}
                        Some(J::Null) if !req => {}
                        // the index text of what is not an array is not looked at
                        Some(J::S(_)) if *n == "dimIndex" && matches!(j.get("dimIncrement"), None | Some(J::Null)) => {}
                        Some(v) => match self.value(k, n, *t, v) {
                            Some(v) => {
                                e.f.insert(n, v);
                            }
                            None => self.bad(format!("value of {n} in {}", k.tag())),
                        },
                    }
                }
                It::G(n) => {
                    let j = j.get(n);
                    match (k, *n) {
                        (_, "cpu" | "dimArrayIndex") => match j {
                            None | Some(J::Null) => {}
                            Some(x) => {
                                let y = self.element(if *n == "cpu" { K::Cpu } else { K::Dai }, x);
                                e.g.insert(n, vec![y]);
                            }
                        },
                        (_, n2) => {
                            let opt = matches!(n2, "addressBlock" | "registers" | "fields");
                            let must = matches!((k, n2), (K::Device, "peripherals") | (K::Cluster, "children") | (K::Dai, "values"));
                            let l = self.list(k, n, j, opt, must);
                            if opt && l.is_none() {
                                continue;
                            }
                            let c = l.unwrap_or(&[]).iter().map(|x| self.child(n2, x)).collect();
                            e.g.insert(n, c);
                        }
                    }
                }
            }
        }
        if k.dimable() {
            if e.n("dimIncrement").is_none() {
                for n in ["dim", "dimIndex", "dimName"] {
                    e.f.remove(n);
                }
                e.g.remove("dimArrayIndex");
            } else {
                match (e.n("dim"), e.l("dimIndex")) {
                    (None, _) => self.bad("no dim"),
                    (Some(d), Some(l)) if d != l.len() as u64 => self.bad("index count"),
                    (Some(d), _) => self.size += d,
                }
            }
        }
        e
    }
    fn child(&mut self, n: &str, j: &J) -> El {
        let k = match n {
            "peripherals" => K::Peripheral,
            "addressBlock" => K::AddressBlock,
            "interrupt" => K::Interrupt,
            "fields" => K::Field,
            "enumeratedValues" => K::Evs,
            "values" => K::Ev,
            _ => match j {
                J::O(m) if m.len() == 1 && m[0].0 == "register" => return self.element(K::Register, &m[0].1),
                J::O(m) if m.len() == 1 && m[0].0 == "cluster" => return self.element(K::Cluster, &m[0].1),
                _ => {
                    self.bad("neither register nor cluster");
                    return El::new(K::Register);
                }
            },
        };
        self.element(k, j)
    }
    fn bits(&mut self, j: &J) -> Option<V> {
        let u = |n: &str| match j.get(n) {
            Some(J::U(x)) if *x <= u32::MAX as u64 => Some(*x),
            _ => None,
        };
        let (m, l, t) = if let Some(J::S(s)) = j.get("bitRange") {
            let mut p = s.strip_prefix('[')?.strip_suffix(']')?.split(':');
            let (m, l) = (dec(p.next()?)?, dec(p.next()?)?);
            (m, l, Bt::Range)
        } else if let (Some(o), Some(w)) = (u("bitOffset"), u("bitWidth")) {
            return Some(V::R(o, w, Bt::OffWidth));
        } else if let (Some(l), Some(m)) = (u("lsb"), u("msb")) {
            (m, l, Bt::MsbLsb)
        } else {
            return None;
        };
        (m >= l && m - l < u32::MAX as u64).then(|| V::R(l, m - l + 1, t))
    }
    fn value(&mut self, k: K, n: &'static str, t: Ty, j: &J) -> Option<V> {
        Some(match (t, j) {
            (Ty::Text | Ty::Attr, J::S(s)) => V::S(s.clone()),
            (Ty::Text | Ty::Attr, J::Null | J::Bool(_) | J::U(_) | J::I(_) | J::F(_)) if self.yaml && matches!(k, K::Device | K::Cpu) => {
                self.quirk = Some("plain value for a text");
                return None;
            }
            (Ty::U32, J::U(x)) if *x <= u32::MAX as u64 => V::N(*x),
            (Ty::U64, J::U(x)) => V::N(*x),
            (Ty::Bool, J::Bool(b)) => V::B(*b),
            (Ty::Enum(l), J::S(s)) => V::S(l[names(n, l).iter().position(|x| x == s)?].to_string()),
            (Ty::Enum(_), J::O(_)) => {
                self.quirk = Some("structure for a choice");
                return None;
            }
            (Ty::Idx, J::A(a)) => V::L(a.iter().map(|x| if let J::S(s) = x { Some(s.clone()) } else { None }).collect::<Option<_>>()?),
            (Ty::Idx, J::S(s)) => match index_list(s, 100_000)? {
                (_, Some(l)) => V::L(l),
                _ => {
                    self.quirk = Some("huge array");
                    return None;
                }
            },
            (Ty::Wc, J::O(m)) if m.len() == 1 => V::W(match (m[0].0.as_str(), &m[0].1) {
                ("writeAsRead", J::Bool(b)) => Wc::AsRead(*b),
                ("useEnumeratedValues", J::Bool(b)) => Wc::UseEnum(*b),
                ("range", x @ J::O(_)) => match (x.get("minimum"), x.get("maximum")) {
                    (Some(J::U(a)), Some(J::U(b))) => Wc::Range(*a, *b),
                    _ => return None,
                },
                ("range", J::A(_)) => {
                    self.quirk = Some("list for a structure");
                    return None;
                }
                _ => return None,
            }),
            _ => return None,
        })
    }
}
fn dec(s: &str) -> Option<u64> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    d.parse().ok().filter(|x| *x <= u32::MAX as u64)
}
fn repeated(j: &J) -> bool {
    match j {
        J::A(a) => a.iter().any(repeated),
        J::O(m) => m.iter().enumerate().any(|(i, x)| repeated(&x.1) || m[..i].iter().any(|y| y.0 == x.0)),
        _ => false,
    }
}

// ---------------------------------------------------------------- the check

pub static C18: Prop = Prop {
    id: "C18",
    gen: gen_c18,
    run: run_c18,
    chunk: 100,
    rule: "a run stores a description in data form as another program would write it (JSON, YAML in flow or block style; any order of keys, layout, escapes, absent or null options, unknown keys), damages it up to 4 times (values, kinds of values, keys, structures lost, repeated, moved, renamed or added; bytes), imports it after every damage through text, bytes, a reader with short and interrupted reads or a value tree, and compares acceptance and the whole content with the independent reader; non-trivial: the stored text was damaged and still data, and no case left out applied",
    measure: "distinct (kinds and values present, accepted or first error of the reference, form)",
    real: "svd-rs serde implementations, serde, serde_json, serde_yaml",
    stub: "disk, hash keys, clock; the independent reader shares serde_json's syntax",
    assumptions: &[
        "keys that stand twice in one structure, lists in place of structures, structures in place of a choice and, in YAML, plain scalars in place of texts are left to serde",
        "damage to the bytes of YAML texts is not judged (C01 loads them)",
    ],
};
fn gen_c18(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 20 } else { 5 }));
    g.any_graph = r.pct(20);
    g.arrays = *r.pick(&[20, 50, 80]);
    let form = *r.pick(&["json", "json", "json", "flow", "block"]);
    let n = *r.pick(&[0u64, 1, 1, 2, 4]);
    let st = json!({"form": form, "ws": *r.pick(&["none", "pretty", "mixed"]), "esc": *r.pick(&[0u64, 0, 5, 40]), "nulls": r.pct(30),
        "extra": r.pct(30), "shuffle": r.pct(60), "seed": r.below(1 << 30)});
    let faults: Vec<Value> = (0..n).map(|_| if form == "json" && r.pct(15) { damage::gen_bytes(r) } else { gen_slip(r) }).collect();
    json!({"doc": gen::device_large(r, &g).to_json(), "st": st, "faults": faults, "io": gen_faults(r, 0, 10), "via": r.below(4)})
}
fn run_c18(sc: &Value, c: &mut Ctx) -> Res {
    let d = doc(sc, "doc")?;
    let st = &sc["st"];
    let yaml = matches!(text(st, "form"), "flow" | "block");
    let mut tree = sys::quiet(|| to_j(&d, &mut Rng::new(num(st, "seed")), st));
    let mut bytes = sys::quiet(|| render(&tree, st)).into_bytes();
    let old = bytes.clone();
    let disk = Disk::new();
    let faults = arr(sc, "faults");
    let mut touched = false;
    for i in 0..=faults.len() {
        if i > 0 {
            let f = &faults[i - 1];
            let k = sys::quiet(|| {
                if f.get("j").is_some() {
                    let k = slip(&mut tree, f)?;
                    bytes = render(&tree, st).into_bytes();
                    Some(k)
                } else if !yaml {
                    let k = damage::apply(&mut bytes, f, &old)?;
                    if let Some(t) = std::str::from_utf8(&bytes).ok().and_then(|s| serde_json::from_str(s).ok()) {
                        tree = t;
                    }
                    Some(k)
                } else {
                    None
                }
            });
            let Some(k) = k else { continue };
            c.fault(k);
            touched = true;
        }
        // the reference
        let mut rd = Rd { yaml, ..Default::default() };
        let want = sys::quiet(|| {
            let j = if yaml { Some(tree.clone()) } else { std::str::from_utf8(&bytes).ok().and_then(|s| serde_json::from_str::<J>(s).ok()) }?;
            if repeated(&j) {
                rd.quirk = Some("repeated key");
            }
            Some(rd.element(K::Device, &j))
        });
        // the import
        disk.set("f", bytes.clone());
        disk.crash(&Image::from_json(&json!({})));
        disk.plan(&sc["io"]);
        let es = |e: serde_json::Error| e.to_string();
        let ys = |e: serde_yaml::Error| e.to_string();
        let real: Result<Device, String> = match num(sc, "via") {
            0 => disk.read_all("f").map_err(|e| e.to_string()).and_then(|b| {
                let s = String::from_utf8(b).map_err(|e| e.to_string())?;
                if yaml { serde_yaml::from_str(&s).map_err(ys) } else { serde_json::from_str(&s).map_err(es) }
            }),
            1 => disk.read_all("f").map_err(|e| e.to_string()).and_then(|b| if yaml { serde_yaml::from_slice(&b).map_err(ys) } else { serde_json::from_slice(&b).map_err(es) }),
            2 => disk.open("f").map_err(|e| e.to_string()).and_then(|h| if yaml { serde_yaml::from_reader(h).map_err(ys) } else { serde_json::from_reader(h).map_err(es) }),
            _ => disk.read_all("f").map_err(|e| e.to_string()).and_then(|b| {
                if yaml {
                    serde_yaml::from_slice::<serde_yaml::Value>(&b).map_err(ys).and_then(|v| serde_yaml::from_value(v).map_err(ys))
                } else {
                    serde_json::from_slice::<Value>(&b).map_err(es).and_then(|v| serde_json::from_value(v).map_err(es))
                }
            }),
        };
        disk.plan(&json!([]));
        c.ev(&format!("{:?} {:?}", rd.err, real.as_ref().map(|_| ())));
        let Some(want) = want else {
            c.probe("not data");
            if real.is_ok() {
                return viol("malformed text accepted", "");
            }
            continue;
        };
        if rd.quirk.is_some() || rd.size > 100_000 {
            c.probe("left out");
            continue;
        }
        c.nontrivial |= touched;
        let kind = rd.err.clone().unwrap_or_default();
        c.state(hash_bytes(format!("{kind}{yaml}").as_bytes()) ^ crate::p_save::profile(&want));
        match (&rd.err, real) {
            (None, Ok(dev)) => {
                c.hit("accepted");
                if let Some(m) = sys::quiet(|| crate::model::diff(&want, &no_schema(&el(&dev)))) {
                    return viol("imported as something else", cut(&m));
                }
            }
            (None, Err(m)) => return viol("readable data refused", cut(&m)),
            (Some(e), Ok(_)) => return viol("unreadable data accepted", cut(e)),
            (Some(_), Err(_)) => {
                c.hit("refused");
                c.probe(&kind);
            }
        }
    }
    disk_faults(&disk, c);
    Ok(())
}
