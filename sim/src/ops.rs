//! Histories of edits to a stored description, made by several editors that do not know
//! of each other. An edit is a few numbers that pick among what is there, so that any
//! part of a history can be left out and the rest still applies.

use crate::gen::{self, at, at_mut, Addr};
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

const KINDS: &[&str] = &[
    "derive", "derive", "derive", "derive", "up", "down", "dangle", "underive", "rename", "drop", "copy", "array",
    "unarray", "edge", "prop", "unprop", "prop", "strip", "desc", "index", "next", "move",
];
pub fn gen_op(r: &mut Rng, only: &[&str]) -> Value {
    let k = if only.is_empty() { *r.pick(KINDS) } else { *r.pick(only) };
    json!({"op": k, "a": r.below(1 << 20), "b": r.below(1 << 20), "s": r.below(1 << 30)})
}
pub fn gen_ops(r: &mut Rng, n: u64, only: &[&str]) -> Vec<Value> {
    (0..n).map(|_| gen_op(r, only)).collect()
}

fn pick(v: &[Addr], n: u64) -> Option<Addr> {
    if v.is_empty() {
        None
    } else {
        Some(v[n as usize % v.len()].clone())
    }
}
fn of(d: &El, f: impl Fn(&El) -> bool) -> Vec<Addr> {
    gen::addrs(d).into_iter().filter(|a| f(at(d, a))).collect()
}
fn fresh(d: &El, parent: &[(&'static str, usize)], base: &str) -> String {
    let p = at(d, parent);
    let mut i = 0;
    loop {
        let n = format!("{base}c{i}");
        if !p.g.values().flatten().any(|e| e.name() == n || gen::inst_names(e).contains(&n)) {
            return n;
        }
        i += 1;
    }
}

/// Applies an edit; true if it changed something.
pub fn apply(d: &mut El, op: &Value) -> bool {
    let n = |k: &str| op.get(k).and_then(|x| x.as_u64()).unwrap_or(0);
    let (a, b) = (n("a"), n("b"));
    let mut r = Rng::new(n("s"));
    let before = d.clone();
    let derivable = |d: &El| of(d, |e| e.k.derivable());
    (|| -> Option<()> {
        match op.get("op")?.as_str()? {
            // any element of its kind
            k @ ("derive" | "up" | "down" | "next") => {
                let x = pick(&derivable(d), a)?;
                let kind = at(d, &x).k;
                let mut c: Vec<Addr> = of(d, |e| e.k == kind && (kind != K::Evs || e.sr("name").is_some()));
                match k {
                    // what contains it or what it contains: a description inside itself
                    "up" => c.retain(|y| x.starts_with(y)),
                    "down" => c.retain(|y| y.starts_with(&x)),
                    // a neighbour: chains and rings
                    "next" => c.retain(|y| y.len() == x.len() && y[..y.len() - 1] == x[..x.len() - 1] && *y != x),
                    _ => {}
                }
                let y = pick(&c, b)?;
                let t = gen::ref_text(d, &x, &y, &mut r)?;
                let e = at_mut(d, &x);
                e.set_s("@derivedFrom", t);
                if r.pct(50) {
                    match kind {
                        K::Peripheral => {
                            e.g.remove("registers");
                        }
                        K::Cluster => {
                            e.g.insert("children", vec![]);
                        }
                        K::Register => {
                            e.g.remove("fields");
                        }
                        K::Field => {
                            e.g.remove("enumeratedValues");
                        }
                        _ => {
                            e.g.insert("values", vec![]);
                        }
                    }
                }
            }
            "dangle" => {
                let x = pick(&derivable(d), a)?;
                let t = *r.pick(&["Nowhere", "A.Nowhere", "a.b.c", "a.b.c.d", "a.b.c.d.e", "."]);
                at_mut(d, &x).set_s("@derivedFrom", t);
            }
            "underive" => {
                let x = pick(&of(d, |e| e.f.contains_key("@derivedFrom")), a)?;
                at_mut(d, &x).f.remove("@derivedFrom");
            }
            "rename" => {
                let x = pick(&derivable(d), a)?;
                let (p, _) = (&x[..x.len() - 1], 0);
                let e = at(d, &x);
                if e.k == K::Evs && e.sr("name").is_none() {
                    return None;
                }
                let new = if e.is_array() { format!("{}%s", fresh(d, p, "N")) } else { fresh(d, p, "N") };
                at_mut(d, &x).set_s("name", new);
            }
            "drop" => {
                let all = of(d, |e| e.k != K::Device);
                let x = pick(&all, a)?;
                let (g, i) = *x.last()?;
                at_mut(d, &x[..x.len() - 1]).g.get_mut(g)?.remove(i);
            }
            "copy" => {
                let x = pick(&derivable(d), a)?;
                let p = x[..x.len() - 1].to_vec();
                let mut e = at(d, &x).clone();
                if e.k != K::Evs || e.sr("name").is_some() {
                    let n = fresh(d, &p, "K");
                    e.set_s("name", if e.is_array() { format!("{n}%s") } else { n });
                }
                let g = x.last()?.0;
                at_mut(d, &p).g.get_mut(g)?.push(e);
            }
            "move" => {
                let x = pick(&derivable(d), a)?;
                let (g, i) = *x.last()?;
                let v = at_mut(d, &x[..x.len() - 1]).g.get_mut(g)?;
                let e = v.remove(i);
                let to = b as usize % (v.len() + 1);
                v.insert(to, e);
            }
            "array" => {
                let x = pick(&of(d, |e| e.k.dimable()), a)?;
                let p = x[..x.len() - 1].to_vec();
                let n = fresh(d, &p, "V");
                let e = at_mut(d, &x);
                e.set_s("name", format!("{n}{}", r.pick(&["%s", "[%s]", "_%s_x"])));
                e.set_n("dim", r.range(0, 4));
                e.set_n("dimIncrement", *r.pick(&[0, 1, 4, 32]));
                e.f.remove("dimIndex");
                e.g.remove("dimArrayIndex");
                if r.pct(50) {
                    e.set_s("description", "number %s, again %s");
                }
                if r.pct(50) && e.k != K::Cluster && e.k != K::Field {
                    e.set_s("displayName", "shown %s");
                }
            }
            "unarray" => {
                let x = pick(&of(d, |e| e.is_array()), a)?;
                let e = at_mut(d, &x);
                for n in ["dim", "dimIncrement", "dimIndex", "dimName"] {
                    e.f.remove(n);
                }
                e.g.remove("dimArrayIndex");
                if b % 2 == 0 {
                    let n = e.name().replace("[%s]", "").replace("%s", "");
                    if n.is_empty() {
                        return None;
                    }
                    e.set_s("name", n);
                }
            }
            "index" => {
                let x = pick(&of(d, |e| e.is_array()), a)?;
                let e = at_mut(d, &x);
                let n = r.range(1, 4);
                e.set_n("dim", n);
                let mut names: Vec<String> = match r.below(3) {
                    0 => (0..n).map(|i| (i + b % 7).to_string()).collect(),
                    1 => (0..n).map(|i| ((b'A' + (i + b % 20) as u8) as char).to_string()).collect(),
                    _ => (0..n).map(|i| format!("q{}", i * 3)).collect(),
                };
                if r.pct(20) {
                    r.shuffle(&mut names);
                }
                e.f.insert("dimIndex", V::L(names.clone()));
                if r.pct(40) {
                    let mut dai = El::new(K::Dai);
                    let mut v = vec![];
                    for i in 0..r.range(1, n + 1) {
                        let mut ev = El::new(K::Ev);
                        ev.set_s("name", format!("X{}{i}", r.below(1000)));
                        ev.set_n("value", i + b % 7);
                        if r.pct(50) {
                            ev.set_s("description", "by index");
                        }
                        v.push(ev);
                    }
                    dai.g.insert("values", v);
                    e.g.insert("dimArrayIndex", vec![dai]);
                }
            }
            "edge" => {
                let x = pick(&of(d, |e| e.f.contains_key("addressOffset") || e.f.contains_key("baseAddress") || e.is_array()), a)?;
                let e = at_mut(d, &x);
                let small = [u32::MAX as u64, u32::MAX as u64 - 4, u32::MAX as u64 - 1, 1 << 31, 0, 100];
                if e.is_array() && r.pct(50) {
                    e.set_n("dimIncrement", *r.pick(&small));
                } else if e.f.contains_key("baseAddress") {
                    e.set_n("baseAddress", *r.pick(&[u64::MAX, u64::MAX - 3, u64::MAX - 400, 1 << 63, u32::MAX as u64, 0]));
                } else if e.f.contains_key("addressOffset") {
                    e.set_n("addressOffset", *r.pick(&small));
                }
            }
            "prop" => {
                let x = pick(&of(d, |e| matches!(e.k, K::Device | K::Peripheral | K::Cluster | K::Register)), a)?;
                let e = at_mut(d, &x);
                match b % 5 {
                    0 => e.set_n("size", *r.pick(&[8, 16, 32, 64])),
                    1 => e.set_s("access", *r.pick(ACCESS)),
                    2 => e.set_s("protection", *r.pick(PROT)),
                    3 => e.set_n("resetValue", r.below(200)),
                    _ => e.set_n("resetMask", r.below(200)),
                };
            }
            "unprop" => {
                let x = pick(&of(d, |e| PROP_NAMES.iter().any(|n| e.f.contains_key(n)) && e.k != K::Field && e.k != K::AddressBlock), a)?;
                let e = at_mut(d, &x);
                e.f.remove(PROP_NAMES[b as usize % 5]);
            }
            "strip" => {
                let x = pick(&derivable(d), a)?;
                let e = at_mut(d, &x);
                let keys: Vec<&'static str> = e
                    .f
                    .keys()
                    .copied()
                    .filter(|n| !matches!(*n, "name" | "addressOffset" | "baseAddress" | "bits" | "@derivedFrom" | "dim" | "dimIncrement"))
                    .collect();
                if keys.is_empty() {
                    return None;
                }
                let k = keys[b as usize % keys.len()];
                if k == "name" {
                    return None;
                }
                e.f.remove(k);
            }
            "desc" => {
                let x = pick(&of(d, |e| e.k.dimable()), a)?;
                let e = at_mut(d, &x);
                e.set_s("description", *r.pick(&["plain", "of %s", "%s%s", "[%s] %s"]));
                if e.k != K::Cluster && e.k != K::Field {
                    e.set_s("displayName", *r.pick(&["D", "D%s", "D[%s]"]));
                }
            }
            _ => {}
        }
        Some(())
    })();
    before != *d
}
