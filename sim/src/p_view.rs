//! C14, C15: what is computed from a description, at every point of its history.

use crate::conv;
use crate::gen::{self, idxs, inst_names, Addr};
use crate::model::*;
use crate::p_edit::{gen_c06, gen_pass, history, norm};
use crate::refexp::{inherited, instances};
use crate::rng::{hash_bytes, mix, Rng};
use crate::scen::*;
use crate::ses::{cut, gen_some};
use crate::sys;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use svd_parser::expand::{BlockPath, EnumPath, FieldPath, Index, RegisterPath};
use svd_rs::*;

/// A history of edits with saves, exports and expansions between them.
fn gen_history(r: &mut Rng, t: &Tier, refs: &[u64]) -> Value {
    let mut v = gen_c06(r, t);
    let mut g = gen_some(r, false);
    g.depth = r.below(3);
    g.arrays = *r.pick(&[20, 60]);
    g.enums = *r.pick(&[30, 60]);
    g.fields = r.range(1, 4);
    g.refs = *r.pick(refs);
    g.expandable = r.pct(60);
    v["doc"] = gen::device_large(r, &g).to_json();
    let n = r.below(3);
    for _ in 0..n {
        let s = gen_pass(r);
        if let Some(a) = v["steps"].as_array_mut() {
            let at = r.usize(a.len() + 1);
            a.insert(at, s);
        }
    }
    v
}

// ---------------------------------------------------------------- C14

pub static C14: Prop = Prop {
    id: "C14",
    gen: gen_c14,
    run: run_c14,
    chunk: 150,
    rule: "a run takes a description through a history of accepted and rejected edits, saves, exports and expansions, and after every step compares everything that is computed from its elements with a reference: bit positions and masks, members of arrays, indexes and ranges of them, accessors, and elements derived from their siblings; non-trivial: at least one mask of a field array, one expanded array or one derivation compared",
    measure: "distinct (kinds, array shapes and positions of the elements looked at)",
    real: "svd-rs",
    stub: "hash keys, clock",
    assumptions: &["arrays of more than 600 members, with another number of indexes than members, or that leave the address range are left out, except for bit masks"],
};
fn gen_c14(r: &mut Rng, t: &Tier) -> Value {
    let mut v = gen_history(r, t, &[0, 0, 20]);
    // bits are where masks may go wrong
    let n = r.below(4);
    for _ in 0..n {
        let mut e = El::new(K::Field);
        let o = *r.pick(&[0u64, 0, 1, 7, 8, 31, 32, 33, 60, 62, 63, 64, 65, 1 << 31, u32::MAX as u64]);
        let w = *r.pick(&[0u64, 1, 1, 2, 3, 4, 8, 31, 32, 33, 63, 64, 65, 1 << 31, u32::MAX as u64]);
        // no bits at all have a highest one only above the first
        let o = if w == 0 { o.max(1) } else { o };
        e.f.insert("bits", V::R(o, w, Bt::OffWidth));
        let s = json!({"do": "modify", "edit": e.to_json(), "k": "field", "n": r.below(1 << 16), "by": r.below(1 << 30), "level": 0});
        if let Some(a) = v["steps"].as_array_mut() {
            let at = r.usize(a.len() + 1);
            a.insert(at, s);
        }
    }
    v
}
fn run_c14(sc: &Value, c: &mut Ctx) -> Res {
    history(sc, c, Some(derived), None)
}
fn bits_of(o: u64, w: u64) -> u64 {
    (0..64).filter(|b| *b >= o && *b < o + w).fold(0, |m, b| m | 1 << b)
}
fn mask(m: &El) -> u64 {
    let (o, w, _) = m.bits().unwrap_or((0, 0, Bt::OffWidth));
    if !m.is_array() {
        return bits_of(o, w);
    }
    let (n, inc) = (m.n("dim").unwrap_or(0), m.n("dimIncrement").unwrap_or(0));
    // beyond the 64th member no bit is reached that was not before
    (0..n.min(65)).fold(0, |x, i| x | bits_of(o + i * inc, w))
}
fn eq<X: PartialEq + std::fmt::Debug>(what: &str, of: &El, got: X, want: X) -> Res {
    if got != want {
        return viol(what, cut(&format!("{} {}: {got:?} for {want:?}", of.k.tag(), of.name())));
    }
    Ok(())
}
fn strip(e: &mut El) {
    for n in ["dim", "dimIncrement", "dimIndex", "dimName"] {
        e.f.remove(n);
    }
    e.g.remove("dimArrayIndex");
}
/// What the members of an array are. None: not judged.
fn members(m: &El, pos: &'static str) -> Option<Vec<El>> {
    if m.n("dim")? > 600 {
        return None;
    }
    let inc = m.n("dimIncrement")?;
    let mut v = vec![];
    for x in instances(m).ok()? {
        let mut e = m.clone();
        strip(&mut e);
        e.set_s("name", x.name);
        e.f.remove("description");
        if let Some(d) = x.description {
            e.set_s("description", d);
        }
        if matches!(m.k, K::Register | K::Peripheral) {
            if let Some(d) = m.s("displayName") {
                e.set_s("displayName", gen::subst(&d, &x.idx));
            }
        }
        if m.k == K::Field {
            let (o, w, _) = m.bits()?;
            let o = o + x.i * inc;
            if o > u32::MAX as u64 {
                return None;
            }
            e.f.insert("bits", V::R(o, w, Bt::OffWidth));
        } else {
            let o = m.n(pos)? as u128 + x.i as u128 * inc as u128;
            if o > if m.k == K::Peripheral { u64::MAX as u128 } else { u32::MAX as u128 } {
                return None;
            }
            e.set_n(pos, o as u64);
        }
        v.push(norm(&e));
    }
    Some(v)
}
#[allow(clippy::too_many_arguments)]
fn array<I: Name + Description, O: PartialEq + std::fmt::Debug + TryFrom<u64>>(
    x: &MaybeArray<I>,
    m: &El,
    pos: &'static str,
    offsets: impl for<'a> Fn(&'a I, &'a DimElement) -> Vec<O>,
    expand: impl for<'a> Fn(&'a I, &'a DimElement) -> Vec<El>,
    c: &mut Ctx,
) -> Res {
    eq("array or single", m, (x.is_array(), x.is_single()), (m.is_array(), !m.is_array()))?;
    eq("name", m, Name::name(x), m.name())?;
    eq("description", m, Description::description(x), m.sr("description"))?;
    let MaybeArray::Array(i, d) = x else { return Ok(()) };
    let n = m.n("dim").unwrap_or(0);
    if n > 600 {
        return Ok(());
    }
    let ix = sys::quiet(|| idxs(m));
    if ix.len() as u64 != n {
        return Ok(());
    }
    eq("indexes", m, d.indexes().map(|s| s.to_string()).collect::<Vec<_>>(), ix.clone())?;
    // a range where it means the same indexes
    let num: Option<Vec<u32>> = ix.iter().map(|s| s.parse::<u32>().ok().filter(|v| v.to_string() == *s)).collect();
    let want = num.filter(|v| !v.is_empty() && v.windows(2).all(|w| w[0].checked_add(1) == Some(w[1]))).map(|v| (v[0], v[v.len() - 1]));
    let got = d.indexes_as_range().map(|r| (*r.start(), *r.end()));
    eq("indexes as a range", m, got, want)?;
    if let Some((a, b)) = got {
        eq("indexes from a range", m, DimElement::parse_indexes(&format!("{a}-{b}")), Some(ix.clone()))?;
    }
    if !ix.is_empty() && ix.iter().all(|s| !s.contains([',', '-'])) {
        eq("indexes from a list", m, DimElement::parse_indexes(&ix.join(",")), Some(ix))?;
    }
    let Some(want) = sys::quiet(|| members(m, pos)) else {
        c.hit("array outside the range");
        return Ok(());
    };
    eq("names of members", m, array::names(i, d).collect::<Vec<_>>(), want.iter().map(|e| e.name().to_string()).collect())?;
    eq("descriptions of members", m, array::descriptions(i, d).collect::<Vec<_>>(), want.iter().map(|e| e.s("description")).collect())?;
    let at = |e: &El| if e.k == K::Field { e.bits().map(|b| b.0) } else { e.n(pos) }.and_then(|v| O::try_from(v).ok());
    eq("positions of members", m, offsets(i, d).into_iter().map(Some).collect::<Vec<_>>(), want.iter().map(at).collect())?;
    let got = expand(i, d);
    eq("number of members", m, got.len(), want.len())?;
    for (g, w) in got.iter().zip(&want) {
        if let Some(s) = sys::quiet(|| diff(&norm(g), w)) {
            return viol("member of an array", cut(&format!("{} {}: {s}", m.k.tag(), m.name())));
        }
    }
    c.probe("arrays with their members compared");
    c.nontrivial = true;
    Ok(())
}
/// One element with what it lacks from another of its kind.
fn heir(a: &El, b: &El) -> El {
    let mut m = a.clone();
    for n in inherited(a.k) {
        if !m.f.contains_key(n) {
            if let Some(v) = b.f.get(n) {
                m.f.insert(n, v.clone());
            }
        }
    }
    let (always, groups): (bool, &[&'static str]) = match a.k {
        K::Peripheral => (false, &["registers", "addressBlock"]),
        K::Register => (false, &["fields"]),
        K::Cluster => (true, &["children"]),
        K::Field => (true, &["enumeratedValues"]),
        _ => (true, &["values"]),
    };
    for g in groups {
        if if always { a.grp(g).is_empty() } else { !a.g.contains_key(g) } {
            if let Some(v) = b.g.get(g) {
                m.g.insert(g, v.clone());
            }
        }
    }
    if a.k == K::Peripheral && a.grp("interrupt").is_empty() {
        m.g.insert("interrupt", b.grp("interrupt").to_vec());
    }
    if a.k.dimable() && !a.is_array() && b.is_array() && a.name().contains("%s") {
        for n in ["dim", "dimIncrement", "dimIndex"] {
            if let Some(v) = b.f.get(n) {
                m.f.insert(intern(n).unwrap(), v.clone());
            }
        }
        if let Some(v) = b.g.get("dimArrayIndex") {
            m.g.insert("dimArrayIndex", v.clone());
        }
    }
    m
}
fn pairs<X: DeriveFrom>(v: &[(&X, &El)], back: impl Fn(&X) -> El, c: &mut Ctx) -> Res {
    for w in v.windows(2) {
        for (a, b) in [(&w[0], &w[1]), (&w[1], &w[0])] {
            let x = a.0.derive_from(b.0);
            let s = sys::quiet(|| diff(&norm(&back(&x)), &norm(&heir(a.1, b.1))));
            if let Some(s) = s {
                return viol("element derived from another", cut(&format!("{} {} from {}: {s}", a.1.k.tag(), a.1.name(), b.1.name())));
            }
            c.nontrivial = true;
            c.probe("elements derived from siblings");
        }
    }
    Ok(())
}
fn access(a: Option<Access>, m: &El) -> Res {
    let t = m.sr("access");
    let want = t.map(|t| (t.starts_with("read"), t != "read-only"));
    eq("access", m, a.map(|a| (a.can_read(), a.can_write())), want)
}
fn field(f: &Field, m: &El, c: &mut Ctx) -> Res {
    let Some((o, w, _)) = m.bits() else { return Ok(()) };
    eq("position of a field", m, (f.lsb() as u64, f.bit_offset() as u64, f.bit_width() as u64), (o, o, w))?;
    if w > 0 && o + w - 1 <= u32::MAX as u64 {
        let msb = o + w - 1;
        eq("highest bit of a field", m, (f.msb() as u64, f.bit_range.msb() as u64), (msb, msb))?;
        let t = f.bit_range.bit_range();
        eq("bit range as text", m, t.clone(), format!("[{msb}:{o}]"))?;
        let b = |b: BitRange| (b.offset as u64, b.width as u64);
        // the width may be one more than there are positions
        if w <= u32::MAX as u64 {
            eq("bit range from text", m, BitRange::from_bit_range(&t).map(b), Some((o, w)))?;
            eq("bit range from its ends", m, b(BitRange::from_msb_lsb(msb as u32, o as u32)), (o, w))?;
        }
    }
    let info: &FieldInfo = f;
    eq("mask of a field", m, info.bitmask(), bits_of(o, w))?;
    eq("mask of a field", m, f.bitmask(), mask(m))?;
    if m.is_array() {
        c.probe("masks of field arrays");
        c.nontrivial = true;
    }
    if o + w > 64 {
        c.probe("fields that leave 64 bits");
    }
    access(f.access, m)?;
    array(f, m, "bits", |i, d| field::bit_offsets(i, d).collect::<Vec<u32>>(), |i, d| field::expand(i, d).map(|x| sys::quiet(|| conv::el_field_info(&x))).collect(), c)?;
    let v: Vec<_> = f.enumerated_values.iter().zip(m.grp("enumeratedValues")).collect();
    for (e, em) in &v {
        let u = em.sr("@derivedFrom").is_none().then(|| em.sr("usage").and_then(conv::usage).unwrap_or(Usage::ReadWrite));
        eq("usage", em, e.usage(), u)?;
        for (x, xm) in e.values.iter().zip(em.grp("values")) {
            eq("default", xm, x.is_default(), xm.b("isDefault") == Some(true))?;
        }
    }
    pairs(&v, conv::el_evs, c)
}
fn register(r: &Register, m: &El, c: &mut Ctx) -> Res {
    access(r.properties.access, m)?;
    let want = m.grp("fields").iter().fold(0, |x, f| x | mask(f));
    eq("mask of a register", m, r.bitmask(), want)?;
    let v: Vec<_> = r.fields().zip(m.grp("fields")).collect();
    for (f, fm) in &v {
        field(f, fm, c)?;
    }
    array(r, m, "addressOffset", |i, d| register::address_offsets(i, d).collect::<Vec<u32>>(), |i, d| register::expand(i, d).map(|x| sys::quiet(|| conv::el_register_info(&x))).collect(), c)?;
    pairs(&v, conv::el_field, c)
}
fn block(v: &[RegisterCluster], m: &[El], c: &mut Ctx) -> Res {
    let (mut rs, mut cs) = (vec![], vec![]);
    for (x, xm) in v.iter().zip(m) {
        eq("name", xm, x.name().as_str(), xm.name())?;
        eq("description", xm, x.description().as_deref(), xm.sr("description"))?;
        eq("derivedFrom", xm, x.derived_from().as_deref(), xm.sr("@derivedFrom"))?;
        eq("position", xm, Some(x.address_offset() as u64), xm.n("addressOffset"))?;
        match x {
            RegisterCluster::Register(r) => {
                register(r, xm, c)?;
                rs.push((r, xm));
            }
            RegisterCluster::Cluster(y) => {
                array(y, xm, "addressOffset", |i, d| cluster::address_offsets(i, d).collect::<Vec<u32>>(), |i, d| cluster::expand(i, d).map(|x| sys::quiet(|| conv::el_cluster_info(&x))).collect(), c)?;
                block(&y.children, xm.grp("children"), c)?;
                cs.push((y, xm));
            }
        }
    }
    pairs(&rs, conv::el_register, c)?;
    pairs(&cs, conv::el_cluster, c)
}
fn derived(d: &Device, m: &El, c: &mut Ctx) -> Res {
    let v: Vec<_> = d.peripherals.iter().zip(m.grp("peripherals")).collect();
    for (p, pm) in &v {
        array(p, pm, "baseAddress", |i, d| peripheral::base_addresses(i, d).collect::<Vec<u64>>(), |i, d| peripheral::expand(i, d).map(|x| sys::quiet(|| conv::el_peripheral_info(&x))).collect(), c)?;
        block(p.registers.as_deref().unwrap_or(&[]), pm.grp("registers"), c)?;
    }
    pairs(&v, conv::el_peripheral, c)?;
    if let (Some(x), Some(xm)) = (d.cpu.as_ref(), m.grp("cpu").first()) {
        eq("Cortex-M", xm, x.is_cortex_m(), xm.name().starts_with("CM"))?;
    }
    let mut h = 0;
    for e in sys::quiet(|| m.all().into_iter().cloned().collect::<Vec<_>>()) {
        h = mix(h ^ (e.k as u64) << 40 ^ e.n("dim").unwrap_or(0) ^ e.n("dimIncrement").unwrap_or(0) << 8 ^ e.bits().map_or(0, |b| mix(b.0 << 32 ^ b.1)));
    }
    c.state(h);
    Ok(())
}

// ---------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15",
    gen: gen_c15,
    run: run_c15,
    chunk: 150,
    rule: "a run takes a description through a history of accepted and rejected edits, renames, saves, exports and expansions, and after every step compares the index of the description with the paths of a reference tree, and prints, parses and compares every path; non-trivial: at least one array member and one path of four parts or more",
    measure: "distinct (set of paths)",
    real: "svd-parser's paths and index, svd-rs",
    stub: "hash keys, clock",
    assumptions: &["names contain no full stop", "descriptions with more than 4000 paths are left out"],
};
fn gen_c15(r: &mut Rng, t: &Tier) -> Value {
    let mut v = gen_history(r, t, &[0, 20]);
    let n = r.below(5);
    for _ in 0..n {
        let k = *r.pick(&[K::Peripheral, K::Register, K::Register, K::Cluster, K::Field, K::Evs]);
        let mut e = El::new(k);
        let n = *r.pick(&["A", "B", "A1", "R[%s]", "R%s", "CR0", "x", "a b", "é", "A_B"]);
        e.set_s("name", n);
        let s = json!({"do": "modify", "edit": e.to_json(), "k": k.tag(), "n": r.below(1 << 16), "by": r.below(1 << 30), "level": 0});
        if let Some(a) = v["steps"].as_array_mut() {
            let at = r.usize(a.len() + 1);
            a.insert(at, s);
        }
    }
    v
}
fn run_c15(sc: &Value, c: &mut Ctx) -> Res {
    history(sc, c, Some(paths), None)
}
type Paths = BTreeMap<(K2, Vec<String>), Vec<Addr>>;
/// Blocks are of two kinds, but have paths of one.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum K2 {
    Per,
    Clu,
    Reg,
    Fld,
    Evs,
}
fn name_all(e: &El, a: &Addr, up: &[Vec<String>], out: &mut Paths, left: &mut usize) -> Option<()> {
    let k = match e.k {
        K::Peripheral => K2::Per,
        K::Cluster => K2::Clu,
        K::Register => K2::Reg,
        K::Field => K2::Fld,
        K::Evs => K2::Evs,
        _ => return Some(()),
    };
    let mut own = vec![];
    if k != K2::Evs || e.f.contains_key("name") {
        own.push(e.name().to_string());
    }
    if e.is_array() {
        if e.n("dim")? > 500 {
            return None;
        }
        let n = inst_names(e);
        let dim = e.n("dim")? as usize;
        own.extend(n.into_iter().take(dim));
    }
    own.sort();
    own.dedup();
    if own.iter().any(|n| n.contains('.')) {
        return None;
    }
    let mut here = vec![];
    for u in up {
        for n in &own {
            let mut p = u.clone();
            p.push(n.clone());
            *left = left.checked_sub(1)?;
            let v = out.entry((k, p.clone())).or_default();
            v.push(a.clone());
            here.push(p);
        }
    }
    for g in ["registers", "children", "fields", "enumeratedValues"] {
        for (i, x) in e.grp(g).iter().enumerate() {
            let mut b = a.clone();
            b.push((intern(g).unwrap_or("registers"), i));
            name_all(x, &b, &here, out, left)?;
        }
    }
    Some(())
}
fn paths(d: &Device, m: &El, c: &mut Ctx) -> Res {
    let want: Option<Paths> = sys::quiet(|| {
        let mut out = Paths::new();
        let mut left = 4000;
        for (i, p) in m.grp("peripherals").iter().enumerate() {
            name_all(p, &vec![("peripherals", i)], &[vec![]], &mut out, &mut left)?;
        }
        Some(out)
    });
    let Some(want) = want else {
        c.hit("paths left out");
        return Ok(());
    };
    let ix = Index::create(d);
    let bp = |p: &BlockPath| [&[p.peripheral.clone()], &p.path[..]].concat();
    let rp = |p: &RegisterPath| [&bp(&p.block)[..], &[p.name.clone()]].concat();
    let fp = |p: &FieldPath| [&rp(&p.register)[..], &[p.name.clone()]].concat();
    let ep = |p: &EnumPath| [&fp(&p.field)[..], &[p.name.clone()]].concat();
    // every path of the index, with the element it leads to
    // (members of an array share one element, which is read once)
    let mut got: BTreeMap<(K2, Vec<String>), usize> = BTreeMap::new();
    let mut els: Vec<El> = vec![];
    sys::quiet(|| {
        let mut seen: BTreeMap<(K2, *const ()), usize> = BTreeMap::new();
        let mut put = |k: (K2, Vec<String>), at: *const (), f: &dyn Fn() -> El| {
            let i = *seen.entry((k.0, at)).or_insert_with(|| {
                els.push(norm(&f()));
                els.len() - 1
            });
            got.insert(k, i);
        };
        for (p, e) in &ix.peripherals {
            put((K2::Per, bp(p)), *e as *const _ as *const (), &|| conv::el_peripheral(e));
        }
        for (p, e) in &ix.clusters {
            put((K2::Clu, bp(p)), *e as *const _ as *const (), &|| conv::el_cluster(e));
        }
        for (p, e) in &ix.registers {
            put((K2::Reg, rp(p)), *e as *const _ as *const (), &|| conv::el_register(e));
        }
        for (p, e) in &ix.fields {
            put((K2::Fld, fp(p)), *e as *const _ as *const (), &|| conv::el_field(e));
        }
        for (p, e) in &ix.evs {
            put((K2::Evs, ep(p)), *e as *const _ as *const (), &|| conv::el_evs(e));
        }
    });
    let mut equal: BTreeMap<(usize, &Addr), bool> = BTreeMap::new();
    for k in want.keys() {
        if !got.contains_key(k) {
            return viol("element without a path", format!("{k:?}"));
        }
    }
    for (k, e) in &got {
        let Some(v) = want.get(k) else {
            return viol("path without an element", format!("{k:?}"));
        };
        // where several elements have one path, it leads to one of them
        let ok = sys::quiet(|| v.iter().any(|a| *equal.entry((*e, a)).or_insert_with(|| norm(gen::at(m, a)) == els[*e])));
        if !ok {
            return viol("path to another element", format!("{k:?}"));
        }
        if v.len() > 1 {
            c.probe("paths shared by elements");
        }
        if k.1.len() > 3 {
            c.probe("paths of four parts or more");
        }
    }
    // printed, parsed and compared
    let texts: Vec<(K2, String)> = want.keys().map(|(k, p)| (*k, p.join("."))).collect();
    let near = |t: &str| -> Vec<String> {
        let mut v = vec![format!("{t}."), format!(".{t}"), format!("{t}x"), format!("x{t}"), format!("{t}.x"), format!("x.{t}"), String::new(), t.to_lowercase()];
        if let Some((a, b)) = t.rsplit_once('.') {
            v.extend([a.to_string(), b.to_string(), format!("{a}..{b}"), format!("{a}_{b}"), format!("{a}. .{b}")]);
        }
        v.retain(|x| x != t);
        v
    };
    fn text<P: std::fmt::Display + PartialEq<str>>(k: &str, p: &P, want: &str, all: &[(K2, String)], near: Vec<String>) -> Res {
        if p.to_string() != want {
            return viol("printed path", format!("{k} {p} for {want}"));
        }
        if *p != *want {
            return viol("path compared with its text", format!("{k} {want}"));
        }
        if let Some(x) = all.iter().map(|x| &x.1).chain(&near).find(|x| *x != want && *p == ***x) {
            return viol("path compared with another's text", format!("{k} {want} and {x}"));
        }
        Ok(())
    }
    // a text that names no element is still a path of its own, whose parts are its own
    let back = |t: &str, fields: bool| -> Res {
        let parts = t.split('.').count();
        let join = |b: Option<String>, n: &str| b.map_or(n.to_string(), |b| format!("{b}.{n}"));
        let (b, n) = BlockPath::parse_str(t);
        let one = b.as_ref().map(|b| b.path.len() + 1) == (parts > 1).then(|| parts - 1) && join(b.map(|b| b.to_string()), n) == t;
        let (b, n) = RegisterPath::parse_str(t);
        let two = join(b.map(|b| b.to_string()), n) == t;
        let three = !fields || parts < 3 || {
            let (b, n) = FieldPath::parse_str(t);
            join(b.map(|b| b.to_string()), n) == t
        };
        if !(one && two && three) {
            return viol("parsed path", format!("{t:?} printed again"));
        }
        Ok(())
    };
    for (i, (k, t)) in texts.iter().enumerate() {
        if i % (texts.len() / 40 + 1) == 0 {
            for x in near(t).iter().chain([t]) {
                back(x, *k != K2::Per)?;
            }
        }
    }
    let some: Vec<(K2, String)> = texts.iter().step_by(texts.len() / 40 + 1).cloned().collect();
    // (of very many, some)
    let step = |n: usize| n / 100 + 1;
    for p in ix.peripherals.keys().chain(ix.clusters.keys()).step_by(step(ix.clusters.len())) {
        let w = bp(p).join(".");
        text("block", p, &w, &some, near(&w))?;
        let up = p.parent();
        let wantup = (!p.path.is_empty()).then(|| w.rsplit_once('.').map(|x| x.0.to_string())).flatten();
        eq("parent of a path", m, up.map(|u| u.to_string()), wantup)?;
        let (b, n) = BlockPath::parse_str(&w);
        match (p.path.last(), b) {
            (None, None) if n == p.peripheral => {}
            (Some(l), Some(b)) if n == l && Some(&b) == p.parent().as_ref() && b.new_cluster(n) == *p && p.name() == l => {}
            (_, b) => return viol("parsed path", format!("block {w}: {b:?} {n}")),
        }
    }
    for p in ix.registers.keys().step_by(step(ix.registers.len())) {
        let w = rp(p).join(".");
        text("register", p, &w, &some, near(&w))?;
        let (b, n) = RegisterPath::parse_str(&w);
        if b.map(|b| b.new_register(n)).as_ref() != Some(p) || *p.peripheral() != p.block.peripheral {
            return viol("parsed path", format!("register {w}"));
        }
    }
    for p in ix.fields.keys().step_by(step(ix.fields.len())) {
        let w = fp(p).join(".");
        text("field", p, &w, &some, near(&w))?;
        let (b, n) = FieldPath::parse_str(&w);
        if b.map(|b| b.new_field(n)).as_ref() != Some(p) || p.register() != &p.register || *p.peripheral() != p.register.block.peripheral {
            return viol("parsed path", format!("field {w}"));
        }
    }
    for p in ix.evs.keys().step_by(step(ix.evs.len())) {
        let w = ep(p).join(".");
        text("enumerated values", p, &w, &some, near(&w))?;
        if p.field() != &p.field || p.register() != &p.field.register || *p.peripheral() != p.field.register.block.peripheral || p.field.new_enum(p.name.as_str()) != *p {
            return viol("parsed path", format!("enumerated values {w}"));
        }
    }
    if want.keys().any(|k| k.1.len() > 3) && sys::quiet(|| m.all().iter().any(|e| e.is_array())) {
        c.nontrivial = true;
    }
    let mut h = 0u64;
    for t in &texts {
        h = mix(h ^ hash_bytes(t.1.as_bytes()) ^ t.0 as u64);
    }
    c.state(h);
    Ok(())
}
