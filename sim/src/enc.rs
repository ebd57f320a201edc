//! Encoder configurations and what they promise.

use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};
use svd_encoder::{Config, DerivableSorting, IdentifierFormat, NumberFormat, RcSorting, Sorting};

const NF: [NumberFormat; 8] = [
    NumberFormat::UpperHex,
    NumberFormat::UpperHex8,
    NumberFormat::UpperHex16,
    NumberFormat::LowerHex,
    NumberFormat::LowerHex8,
    NumberFormat::LowerHex16,
    NumberFormat::Dec,
    NumberFormat::Bin,
];
/// Numbers with a notation option, in the order of the `nf` list of a configuration.
pub const NUMS: usize = 11;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum By {
    None,
    Offset,
    Reversed,
    Name,
}
#[derive(Clone, Copy, Debug)]
pub struct Order {
    /// 0: together, 1: registers first, 2: clusters first
    pub first: u64,
    pub derived_last: bool,
    pub by: By,
}

pub fn gen(r: &mut Rng) -> Value {
    let plain = r.pct(25);
    let mut nf = vec![];
    let same = r.below(8);
    let how = r.below(3);
    for _ in 0..NUMS {
        nf.push(if how == 0 { same } else { r.below(8) });
    }
    let mut s = || if plain || r.pct(40) { json!([0, 0]) } else { json!([r.below(2), r.below(4)]) };
    let (ps, rs, fs) = (s(), s(), s());
    json!({"nf": if plain { json!([]) } else { json!(nf) }, "ps": ps, "rs": rs, "rf": if plain { 0 } else { r.below(3) }, "fs": fs,
        "br": if plain || r.pct(50) { 0 } else { r.range(1, 3) }})
}
pub fn order(v: &Value, k: &str) -> Order {
    Order {
        first: if k == "rs" { v["rf"].as_u64().unwrap_or(0) % 3 } else { 0 },
        derived_last: v[k][0].as_u64().unwrap_or(0) == 1,
        by: [By::None, By::Offset, By::Reversed, By::Name][v[k][1].as_u64().unwrap_or(0) as usize % 4],
    }
}
pub fn bits(v: &Value) -> Option<Bt> {
    [None, Some(Bt::Range), Some(Bt::OffWidth), Some(Bt::MsbLsb)][v["br"].as_u64().unwrap_or(0) as usize % 4]
}
fn ds(o: Order) -> DerivableSorting {
    let s = match o.by {
        By::None => None,
        By::Offset => Some(Sorting::Offset),
        By::Reversed => Some(Sorting::OffsetReversed),
        By::Name => Some(Sorting::Name),
    };
    if o.derived_last {
        DerivableSorting::DeriveLast(s)
    } else {
        DerivableSorting::Unchanged(s)
    }
}
pub fn nf(v: &Value, i: usize) -> Option<usize> {
    v["nf"][i].as_u64().map(|x| x as usize % 8)
}
pub fn config(v: &Value) -> Config {
    let mut c = Config::default();
    let n = |i: usize, d: NumberFormat| nf(v, i).map(|x| NF[x]).unwrap_or(d);
    c = c
        .peripheral_base_address(n(0, c.peripheral_base_address))
        .address_block_offset(n(1, c.address_block_offset))
        .address_block_size(n(2, c.address_block_size))
        .cluster_address_offset(n(3, c.cluster_address_offset))
        .register_address_offset(n(4, c.register_address_offset))
        .register_size(n(5, c.register_size))
        .register_reset_value(n(6, c.register_reset_value))
        .register_reset_mask(n(7, c.register_reset_mask))
        .enumerated_value_value(n(8, c.enumerated_value_value))
        .dim_dim(n(9, c.dim_dim))
        .dim_increment(n(10, c.dim_increment));
    c = c.peripheral_sorting(ds(order(v, "ps"))).field_sorting(ds(order(v, "fs")));
    let r = order(v, "rs");
    c = c.register_cluster_sorting(match r.first {
        0 => RcSorting::Unchanged(ds(r)),
        1 => RcSorting::RegistersFirst(ds(r)),
        _ => RcSorting::ClustersFirst(ds(r)),
    });
    if let Some(b) = bits(v) {
        // the option's type is not exported; it is set by its textual name
        c.update("field_bit_range", bits_text(b));
    }
    let f = |i: usize| case(v, i).map(|x| CASES[x]);
    c.peripheral_name(f(0))
        .interrupt_name(f(1))
        .cluster_name(f(2))
        .register_name(f(3))
        .field_name(f(4))
        .enumerated_values_name(f(5))
        .enumerated_value_name(f(6))
        .dim_array_index_header_enum_name_opt(f(7))
}
fn bits_text(b: Bt) -> &'static str {
    match b {
        Bt::Range => "BitRange",
        Bt::OffWidth => "OffsetWidth",
        Bt::MsbLsb => "MsbLsb",
    }
}
const CASES: [IdentifierFormat; 4] = [IdentifierFormat::Camel, IdentifierFormat::Pascal, IdentifierFormat::Snake, IdentifierFormat::Constant];
pub fn case(v: &Value, i: usize) -> Option<usize> {
    v["case"][i].as_u64().filter(|x| *x < 4).map(|x| x as usize)
}
trait HeaderEnum {
    fn dim_array_index_header_enum_name_opt(self, f: Option<IdentifierFormat>) -> Self;
}
impl HeaderEnum for Config {
    // this one has no method; it is a public field
    fn dim_array_index_header_enum_name_opt(mut self, f: Option<IdentifierFormat>) -> Self {
        self.dim_array_index_header_enum_name = f;
        self
    }
}
pub fn gen_case(r: &mut Rng) -> Value {
    let same = r.below(4);
    let how = r.below(3);
    let v: Vec<u64> = (0..8).map(|_| if how == 0 { same } else if r.pct(35) { 9 } else { r.below(4) }).collect();
    json!(v)
}
const NF_NAMES: [&str; 8] = ["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin"];
const NUM_KEYS: [&str; NUMS] = [
    "peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset", "register_address_offset",
    "register_size", "register_reset_value", "register_reset_mask", "enumerated_value_value", "dim_dim", "dim_increment",
];
const CASE_KEYS: [&str; 8] = [
    "peripheral_name", "interrupt_name", "cluster_name", "register_name", "field_name", "enumerated_values_name",
    "enumerated_value_name", "dim_array_index_header_enum_name",
];
/// The same configuration as settings: names and values as texts.
pub fn settings(v: &Value) -> Vec<(String, String)> {
    let mut l = vec![];
    for i in 0..NUMS {
        if let Some(x) = nf(v, i) {
            l.push((NUM_KEYS[i], NF_NAMES[x].to_string()));
        }
    }
    for i in 0..8 {
        if let Some(x) = case(v, i) {
            l.push((CASE_KEYS[i], ["Camel", "Pascal", "Snake", "Constant"][x].to_string()));
        }
    }
    for (k, n) in [("ps", "peripheral_sorting"), ("rs", "register_cluster_sorting"), ("fs", "field_sorting")] {
        let o = order(v, k);
        let mut p = vec![["", "RegistersFirst", "ClustersFirst"][o.first as usize], ["", "DerivedLast"][o.derived_last as usize], match o.by {
            By::None => "",
            By::Offset => "Offset",
            By::Reversed => "OffsetReversed",
            By::Name => "Name",
        }];
        p.retain(|x| !x.is_empty());
        if p.len() > 1 && v["swap"].as_bool() == Some(true) {
            p.reverse();
        }
        l.push((n, p.join(",")));
    }
    if let Some(b) = bits(v) {
        l.push(("field_bit_range", bits_text(b).to_string()));
    }
    l.into_iter().map(|(a, b)| (a.to_string(), b)).collect()
}

/// A name in an identifier format: words end at underscores, hyphens and spaces, between a
/// small and a capital letter, and before the last of several capitals a small letter follows.
pub fn recased(s: &str, f: usize) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut words: Vec<String> = vec![String::new()];
    for i in 0..c.len() {
        if matches!(c[i], '_' | '-' | ' ') {
            words.push(String::new());
            continue;
        }
        let up = |j: usize| c.get(j).is_some_and(|x| x.is_ascii_uppercase());
        let low = |j: usize| c.get(j).is_some_and(|x| x.is_ascii_lowercase());
        if i > 0 && up(i) && (low(i - 1) || up(i - 1) && low(i + 1)) {
            words.push(String::new());
        }
        words.last_mut().unwrap().push(c[i]);
    }
    words.retain(|w| !w.is_empty());
    let cap = |w: &str| -> String { w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
    let o = match f {
        0 => words.iter().enumerate().map(|(i, w)| if i == 0 { w.to_ascii_lowercase() } else { cap(w) }).collect::<Vec<_>>().concat(),
        1 => words.iter().map(|w| cap(w)).collect::<Vec<_>>().concat(),
        2 => words.join("_").to_ascii_lowercase(),
        _ => words.join("_").to_ascii_uppercase(),
    };
    o.replace("%S", "%s")
}
/// The description with the identifiers the options name rewritten. None: a name is one
/// the formats are not defined for (nothing but separators, letters beyond ASCII).
pub fn recase(e: &El, v: &Value) -> Option<El> {
    let mut x = e.clone();
    let mut odd = false;
    x.walk_mut(&mut |e| {
        let (own, fields): (usize, &[&'static str]) = match e.k {
            K::Peripheral => (0, &["name", "alternatePeripheral", "prependToName", "appendToName", "headerStructName"]),
            K::Interrupt => (1, &["name"]),
            K::Cluster => (2, &["name", "alternateCluster"]),
            K::Register => (3, &["name", "alternateRegister"]),
            K::Field => (4, &["name"]),
            K::Evs => (5, &["name"]),
            K::Ev => (6, &["name"]),
            K::Dai => (7, &["headerEnumName"]),
            _ => return,
        };
        let mut one = |s: &str, f: Option<usize>| match f {
            None => s.to_string(),
            Some(f) => {
                let t = recased(s, f);
                odd |= !s.is_ascii() || t.is_empty() && !s.is_empty();
                t
            }
        };
        for n in fields {
            if let Some(s) = e.s(n) {
                let t = one(&s, case(v, own));
                e.set_s(n, t);
            }
        }
        if let Some(s) = e.s("@derivedFrom") {
            let p: Vec<&str> = s.split('.').collect();
            // what the last parts of a path name
            let tail: &[usize] = match e.k {
                K::Peripheral => &[0],
                K::Cluster => &[2],
                K::Register => &[3],
                K::Field => &[4, 3],
                _ => &[5, 4, 3],
            };
            let n = p.len();
            let q: Vec<String> = p
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    let k = match tail.get(n - 1 - i) {
                        Some(k) => *k,
                        None if i == 0 => 0,
                        None => 2,
                    };
                    one(s, case(v, k))
                })
                .collect();
            e.set_s("@derivedFrom", q.join("."));
        }
    });
    (!odd).then_some(x)
}
/// Are identifiers rewritten and elements put in order at once?
pub fn both(v: &Value) -> bool {
    (0..8).any(|i| case(v, i).is_some()) && ["ps", "rs", "fs"].iter().any(|k| { let o = order(v, k); o.derived_last || o.first > 0 || o.by != By::None })
}

fn derived(e: &El) -> bool {
    e.sr("@derivedFrom").is_some()
        || e.k == K::Field && e.grp("enumeratedValues").iter().any(|v| v.sr("@derivedFrom").is_some())
}
fn key(e: &El) -> u64 {
    match e.k {
        K::Peripheral => e.n("baseAddress").unwrap_or(0),
        K::Field => e.bits().map(|b| b.0).unwrap_or(0),
        _ => e.n("addressOffset").unwrap_or(0),
    }
}
/// The class an ordering puts an element in: everything of a lower class comes first.
fn class(e: &El, o: Order) -> u8 {
    let a = match (o.first, e.k) {
        (1, K::Cluster) | (2, K::Register) => 2,
        _ => 0,
    };
    a + (o.derived_last && derived(e)) as u8
}
/// Is `got` the list `want` in the order asked for? Ties may come in any order, except
/// that a list that is not to be ordered keeps its order.
fn ordered(want: &[El], got: &[El], o: Order) -> Result<Vec<El>, String> {
    let mut w: Vec<&El> = want.iter().collect();
    w.sort_by_key(|e| class(e, o));
    match o.by {
        By::None => {}
        By::Offset => w.sort_by_key(|e| (class(e, o), key(e))),
        By::Reversed => w.sort_by_key(|e| (class(e, o), std::cmp::Reverse(key(e)))),
        By::Name => w.sort_by(|a, b| (class(a, o), a.name()).cmp(&(class(b, o), b.name()))),
    }
    let rank = |e: &El| -> (u8, u64, String) {
        (
            class(e, o),
            match o.by {
                By::Offset => key(e),
                By::Reversed => u64::MAX - key(e),
                _ => 0,
            },
            if o.by == By::Name { e.name().to_string() } else { String::new() },
        )
    };
    if w.len() != got.len() {
        return Ok(w.into_iter().cloned().collect());
    }
    for (a, b) in w.iter().zip(got) {
        if rank(a) != rank(b) {
            return Err(format!("{} `{}` where `{}` belongs", b.k.tag(), b.name(), a.name()));
        }
    }
    // within ties, take the order found
    let mut out: Vec<El> = w.iter().map(|e| (*e).clone()).collect();
    if o.by != By::None {
        let mut i = 0;
        while i < out.len() {
            let mut j = i + 1;
            while j < out.len() && rank(&out[j]) == rank(&out[i]) {
                j += 1;
            }
            if j - i > 1 {
                let mut pool: Vec<El> = out[i..j].to_vec();
                for k in i..j {
                    let g = &got[k];
                    let best = pool
                        .iter()
                        .position(|x| same_shell(x, g))
                        .or_else(|| pool.iter().position(|x| x.name() == g.name()))
                        .unwrap_or(0);
                    out[k] = pool.remove(best);
                }
            }
            i = j;
        }
    }
    Ok(out)
}
fn same_shell(a: &El, b: &El) -> bool {
    a.k == b.k && a.canon().f == b.canon().f
}

/// What saving `e` with configuration `v` must read back as, given what was read back (to
/// settle the order of ties). Err names an element out of order.
pub fn expected(e: &El, got: &El, v: &Value) -> Result<El, String> {
    let mut x = e.clone();
    if let Some(b) = bits(v) {
        x.walk_mut(&mut |f| {
            if let Some((o, w, _)) = f.bits() {
                f.f.insert("bits", V::R(o, w, b));
            }
        });
    }
    go(&mut x, got, v, true)?;
    Ok(x)
}
fn go(x: &mut El, got: &El, v: &Value, top: bool) -> Result<(), String> {
    let _ = top;
    let groups: Vec<&'static str> = x.g.keys().copied().collect();
    for g in groups {
        let o = match g {
            "peripherals" => Some(order(v, "ps")),
            "registers" => Some(order(v, "rs")),
            "fields" => Some(order(v, "fs")),
            _ => None,
        };
        let theirs = got.g.get(g).cloned().unwrap_or_default();
        if let Some(o) = o {
            let n = ordered(&x.g[g], &theirs, o)?;
            x.g.insert(g, n);
        } else if g == "children" {
            // inside a cluster the order is kept or the one asked for
            let o = order(v, "rs");
            let kept = x.g[g].iter().zip(&theirs).all(|(a, b)| a.name() == b.name() && a.k == b.k);
            if !kept {
                let n = ordered(&x.g[g], &theirs, o)?;
                x.g.insert(g, n);
            }
        }
        for (i, c) in x.g.get_mut(g).unwrap().iter_mut().enumerate() {
            if let Some(t) = theirs.get(i) {
                go(c, t, v, false)?;
            }
        }
    }
    Ok(())
}

/// Puts the options of `v` over those of `e`.
pub fn overlay(e: &mut Value, v: &Value) {
    for i in 0..NUMS {
        if let Some(x) = nf(v, i) {
            if !e["nf"].is_array() {
                e["nf"] = json!(vec![Value::Null; NUMS]);
            }
            e["nf"][i] = json!(x);
        }
    }
    for i in 0..8 {
        if let Some(x) = case(v, i) {
            if !e["case"].is_array() {
                e["case"] = json!([9, 9, 9, 9, 9, 9, 9, 9]);
            }
            e["case"][i] = json!(x);
        }
    }
    for k in ["ps", "rs", "fs", "rf"] {
        e[k] = v[k].clone();
    }
    if bits(v).is_some() {
        e["br"] = v["br"].clone();
    }
}
