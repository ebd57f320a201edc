//! C07, C08, C12: references, arrays and inherited defaults.

use crate::conv;
use crate::disk::{gen_faults, Disk, Image};
use crate::gen;
use crate::model::*;
use crate::ops;
use crate::refexp::{self, Bad};
use crate::refval::Lv;
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::ses::{arr, cut, disk_faults, doc, el, flag, gen_some, num, style, text, write};
use crate::sys;
use crate::xmlw::Style;
use serde_json::{json, Value};
use std::sync::atomic::Ordering::Relaxed;
use svd_rs::Device;

/// Schema attributes, which the data form does not carry, aside.
fn diff(a: &El, b: &El) -> Option<String> {
    sys::quiet(|| crate::ses::diff(&crate::p_save::no_schema(a), &crate::p_save::no_schema(b)))
}

/// How a description gets into memory after an edit.
fn gen_via(r: &mut Rng) -> Value {
    json!({"how": *r.pick(&["build", "build", "xml", "json", "real"]), "style": Style::gen(r).to_json(), "io": gen_faults(r, 0, 30), "crash": r.pct(50)})
}
/// None when it does not get there (which other properties judge).
fn get(d: &El, via: &Value, disk: &Disk, c: &mut Ctx) -> Option<Device> {
    let off = svd_rs::ValidateLevel::Disabled;
    let pass = |b: &[u8], c: &mut Ctx| -> Option<Vec<u8>> {
        disk.plan(&via["io"]);
        let r = disk.save("doc", b);
        if flag(via, "crash") {
            disk.crash(&Image::from_json(&json!({"keep": 0})));
        }
        disk.plan(&json!([]));
        if r.is_err() {
            c.hit("save not acknowledged");
            return None;
        }
        disk.read_all("doc").ok()
    };
    match text(via, "how") {
        "xml" => {
            let b = pass(write(d, &style(via, "style")).as_bytes(), c)?;
            let s = String::from_utf8(b).ok()?;
            svd_parser::parse_with_config(&s, &svd_parser::Config::default().validate_level(off)).ok()
        }
        "json" => {
            let dev = sys::quiet(|| conv::build_device(d, off)).ok()?;
            let b = pass(&serde_json::to_vec(&dev).ok()?, c)?;
            serde_json::from_slice(&b).ok()
        }
        "real" => {
            let dev = sys::quiet(|| conv::build_device(d, off)).ok()?;
            let s = svd_encoder::encode(&dev).ok()?;
            let b = pass(s.as_bytes(), c)?;
            let s = String::from_utf8(b).ok()?;
            svd_parser::parse_with_config(&s, &svd_parser::Config::default().validate_level(off)).ok()
        }
        _ => sys::quiet(|| conv::build_device(d, off)).ok(),
    }
}
fn bad_kind(b: &Bad) -> &'static str {
    match b {
        Bad::NotFound(_) => "names nothing",
        Bad::Cycle(_) => "circular",
        Bad::Range(_) => "out of range",
        Bad::Count(_) => "count",
        Bad::TooBig => "too big",
    }
}
fn refs(d: &El) -> u64 {
    d.all().iter().filter(|e| e.f.contains_key("@derivedFrom")).count() as u64
}
/// Shape of the reference graph, names aside.
fn graph(d: &El) -> u64 {
    let mut h = 0;
    for a in gen::addrs(d) {
        let e = gen::at(d, &a);
        if let Some(t) = e.sr("@derivedFrom") {
            h = crate::rng::mix(h ^ hash_bytes(format!("{:?} {} {} {}", e.k, a.len(), t.matches('.').count(), e.is_array()).as_bytes()));
        }
    }
    h
}

// ---------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    gen: gen_c07,
    run: run_c07,
    chunk: 100,
    rule: "a run lets independent editors add references, copies, arrays and moves to one stored description (any graph, cycles favoured), saving and reloading in between with or without a crash, and resolves it after every edit under a limit on processor time, stack and allocated bytes; non-trivial: the description held at least one reference when it was resolved",
    measure: "distinct (outcome, shape of the reference graph)",
    real: "svd-parser expand, svd-rs, readers and writers for the reloads",
    stub: "disk, hash keys, clock, memory accounting",
    assumptions: &["descriptions that stand for more than 20000 elements are not resolved"],
};
fn gen_c07(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 30 } else { 10 }));
    g.any_graph = r.pct(60);
    g.refs = *r.pick(&[0, 10, 30, 60, 90]);
    g.depth = r.below(4);
    g.enums = *r.pick(&[0, 30, 80]);
    let n = *r.pick(&[1u64, 2, 4, 8]);
    let only: &[&str] = match r.below(3) {
        0 => &[],
        1 => &["derive", "next", "up", "down"],
        _ => &["next", "next", "derive", "copy", "array"],
    };
    let mut steps = vec![];
    for o in ops::gen_ops(r, n, only) {
        steps.push(json!({"op": o, "via": gen_via(r)}));
    }
    json!({"doc": gen::device(r, &g).to_json(), "steps": steps, "chain": if r.pct(10) { r.range(5, 60) } else { 0 }, "ring": r.pct(50), "kind": r.below(4)})
}
/// A long chain or ring of elements, each derived from the next.
fn long_chain(d: &mut El, n: u64, ring: bool, kind: u64) {
    let Some(p) = d.g.get_mut("peripherals") else { return };
    if kind == 0 {
        for i in 0..n {
            let mut e = El::new(K::Peripheral);
            e.set_s("name", format!("Chain{i}")).set_n("baseAddress", i);
            if i + 1 < n || ring {
                e.set_s("@derivedFrom", format!("Chain{}", (i + 1) % n));
            }
            p.push(e);
        }
        return;
    }
    let mut host = El::new(K::Peripheral);
    host.set_s("name", "ChainHost").set_n("baseAddress", 0);
    let mut v = vec![];
    for i in 0..n {
        let to = format!("Chain{}", (i + 1) % n);
        let more = i + 1 < n || ring;
        match kind {
            1 => {
                let mut e = El::new(K::Cluster);
                e.set_s("name", format!("Chain{i}")).set_n("addressOffset", i);
                e.g.insert("children", vec![]);
                if more {
                    e.set_s("@derivedFrom", to);
                } else {
                    let mut x = El::new(K::Register);
                    x.set_s("name", "End").set_n("addressOffset", 0);
                    e.g.insert("children", vec![x]);
                }
                v.push(e);
            }
            2 => {
                let mut e = El::new(K::Register);
                e.set_s("name", format!("Chain{i}")).set_n("addressOffset", i);
                if more {
                    e.set_s("@derivedFrom", to);
                }
                v.push(e);
            }
            _ => {
                let mut e = El::new(K::Register);
                e.set_s("name", format!("Chain{i}")).set_n("addressOffset", i);
                let mut f = El::new(K::Field);
                f.set_s("name", "F").f.insert("bits", V::R(0, 1, Bt::Range));
                if more {
                    f.set_s("@derivedFrom", format!("ChainHost.{to}.F"));
                }
                e.g.insert("fields", vec![f]);
                v.push(e);
            }
        }
    }
    host.g.insert("registers", v);
    p.push(host);
}
fn run_c07(sc: &Value, c: &mut Ctx) -> Res {
    let mut d = doc(sc, "doc")?;
    if num(sc, "chain") > 0 {
        long_chain(&mut d, num(sc, "chain").min(80), flag(sc, "ring"), num(sc, "kind"));
    }
    let disk = Disk::new();
    let mut all = vec![json!({"op": {}, "via": {"how": "build"}})];
    all.extend(arr(sc, "steps"));
    for s in all {
        sys::quiet(|| ops::apply(&mut d, &s["op"]));
        let (n, want, fuzzy) = sys::quiet(|| (refexp::size_of(&d, 20_000), refexp::expand(&d, 20_000), refexp::ambiguous(&d)));
        let Some(n) = n else {
            c.probe("too large to resolve");
            continue;
        };
        sys::set_limit(1 << 30);
        let Some(dev) = get(&d, &s["via"], &disk, c) else { continue };
        let k = refs(&d);
        if k > 0 {
            c.nontrivial = true;
        }
        // copying an element, its properties and its path for every level of derivation
        let budget = (1 << 20) + (n as u64 + d.count() as u64) * 40_000;
        sys::set_limit(budget);
        let r = svd_parser::expand(&dev);
        let used = sys::BYTES.load(Relaxed);
        sys::set_limit(2 << 30);
        c.add("bytes allocated while resolving", used);
        if used / (n as u64 + d.count() as u64) > 4000 {
            c.hit("over 4000 bytes per element");
        }
        let out = match &r {
            Ok(_) => "resolved",
            Err(_) => "refused",
        };
        c.ev(&format!("{out} {:?}", r.as_ref().err().map(|m| format!("{m:#}"))));
        c.state(graph(&d) ^ hash_bytes(out.as_bytes()));
        c.hit(out);
        if let Err(b) = &want {
            c.probe(bad_kind(b));
            if matches!(b, Bad::Cycle(_)) && r.is_ok() && !fuzzy {
                return viol("circular reference accepted", format!("{b:?}"));
            }
        } else if k > 1 {
            c.probe("chains resolved");
        }
    }
    disk_faults(&disk, c);
    Ok(())
}

// ---------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08",
    gen: gen_c08,
    run: run_c08,
    chunk: 100,
    rule: "a run edits a stored description (references, arrays, index lists, copies, moves, properties, positions at the edge of their width), saves and reloads it with or without a crash, expands it under a random hash seed and compares the result element by element with the reference expansion; non-trivial: the description held a reference, an array or a cluster",
    measure: "distinct (outcome of the reference expansion, reference graph, kinds and properties present)",
    real: "svd-parser expand, svd-rs, readers and writers for the reloads",
    stub: "disk, hash keys, clock",
    assumptions: &[
        "descriptions in which two siblings answer to one name are skipped: which one a reference means is not defined",
        "descriptions that stand for more than 20000 elements are not expanded",
    ],
};
fn gen_c08(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 30 } else { 10 }));
    g.expandable = r.pct(90);
    g.refs = *r.pick(&[0, 10, 30, 60]);
    g.arrays = *r.pick(&[10, 30, 60]);
    g.depth = r.below(4);
    let n = *r.pick(&[0u64, 1, 2, 4]);
    let mut steps = vec![];
    for o in ops::gen_ops(r, n, &[]) {
        steps.push(json!({"op": o, "via": gen_via(r)}));
    }
    json!({"doc": gen::device_large(r, &g).to_json(), "via": gen_via(r), "steps": steps, "load": r.below(4)})
}
fn run_c08(sc: &Value, c: &mut Ctx) -> Res {
    let mut d = doc(sc, "doc")?;
    let disk = Disk::new();
    let mut all = vec![json!({"op": {}, "via": sc["via"]})];
    all.extend(arr(sc, "steps"));
    let mut last = None;
    for s in all {
        sys::quiet(|| ops::apply(&mut d, &s["op"]));
        let Some(dev) = get(&d, &s["via"], &disk, c) else { continue };
        let now = el(&dev);
        if let Some(m) = diff(&d, &now) {
            // judged by C03, C04, C09; here it only means another description was expanded
            return viol("reached memory changed", m);
        }
        // empty child lists, which count as absent but end an inheritance, are as they arrived
        d = now;
        let Some(want) = sys::quiet(|| {
            if refexp::ambiguous(&d) {
                return None;
            }
            refexp::size_of(&d, 20_000)?;
            Some(refexp::expand(&d, 20_000))
        }) else {
            c.probe("ambiguous or too large");
            last = None;
            continue;
        };
        let r = svd_parser::expand(&dev);
        let out = judge(&want, r, c)?;
        last = Some(out);
        if d.all().iter().any(|e| e.is_array() || e.k == K::Cluster || e.f.contains_key("@derivedFrom")) {
            c.nontrivial = true;
        }
        let kind = match &want {
            Ok(_) => "ok",
            Err(b) => bad_kind(b),
        };
        c.probe(kind);
        c.state(graph(&d) ^ crate::p_save::profile(&d) ^ hash_bytes(kind.as_bytes()));
    }
    // an expanded description stands for itself
    if let Some(Some(x)) = last {
        let again = match svd_parser::expand(&x) {
            Ok(a) => a,
            Err(e) => return viol("expanding twice fails", cut(&format!("{e:#}"))),
        };
        if let Some(m) = diff(&el(&x), &el(&again)) {
            return viol("expanding twice differs", cut(&m));
        }
    }
    // expansion as an option of loading
    let l = num(sc, "load");
    if l > 0 && !sys::quiet(|| refexp::ambiguous(&d) || refexp::size_of(&d, 20_000).is_none()) {
        let x = write(&d, &Style::plain());
        let cf = svd_parser::Config::default().validate_level(Lv::Off.real());
        match svd_parser::parse_with_config(&x, &cf) {
            Ok(dev) => d = el(&dev),
            Err(e) => return viol("load fails", cut(&format!("{e:#}"))),
        }
        let cf = cf.expand(true).expand_properties(l > 1);
        let want = sys::quiet(|| {
            if l > 1 {
                refexp::expand(&refexp::expand_properties(&d), 20_000)
            } else {
                refexp::expand(&d, 20_000)
            }
        });
        if want != Err(Bad::TooBig) {
            c.probe("expanded while loading");
            judge(&want, svd_parser::parse_with_config(&x, &cf), c)?;
        }
    }
    disk_faults(&disk, c);
    Ok(())
}
fn judge(want: &Result<El, Bad>, got: anyhow::Result<Device>, c: &mut Ctx) -> Result<Option<Device>, Viol> {
    c.ev(&format!("{:?}", got.as_ref().map(|d| d.peripherals.len()).map_err(|m| format!("{m:#}"))));
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if let Some(m) = diff(w, &el(&g)) {
                return viol("expansion differs", cut(&m));
            }
            Ok(Some(g))
        }
        (Ok(_), Err(m)) => viol("expansion refused", cut(&format!("{m:#}"))),
        (Err(b), Ok(_)) => viol("bad description expanded", format!("{b:?}")),
        (Err(_), Err(_)) => Ok(None),
    }
}

// ---------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12",
    gen: gen_c12,
    run: run_c12,
    chunk: 200,
    rule: "a run interleaves edits of register defaults and structure with applying the defaults (as a call or as an option of loading), saving and reloading with or without a crash, and applying them again, and compares the whole description with the reference after every step; non-trivial: applying the defaults changed a register",
    measure: "distinct (which defaults are set at which depth, step kind)",
    real: "svd-parser expand_properties and loading, svd-encoder, svd-rs",
    stub: "disk, hash keys, clock",
    assumptions: &["defaults that make a reset value wider than a size are applied without validation"],
};
fn gen_c12(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 30 } else { 10 }));
    g.depth = r.below(4);
    g.enums = 10;
    g.fields = r.below(2);
    g.refs = *r.pick(&[0, 20, 50]);
    let mut steps = vec![];
    for _ in 0..r.range(1, 6) {
        let k = *r.pick(&["edit", "edit", "apply", "apply", "load", "reload"]);
        steps.push(match k {
            "edit" => json!({"do": k, "op": ops::gen_op(r, &["prop", "prop", "unprop", "derive", "copy", "move", "underive", "array"])}),
            _ => json!({"do": k, "via": gen_via(r)}),
        });
    }
    steps.push(json!({"do": "apply"}));
    json!({"doc": gen::device(r, &g).to_json(), "steps": steps})
}
fn run_c12(sc: &Value, c: &mut Ctx) -> Res {
    let mut d = doc(sc, "doc")?;
    let disk = Disk::new();
    let off = svd_rs::ValidateLevel::Disabled;
    let Ok(mut dev) = sys::quiet(|| conv::build_device(&d, off)) else { return Ok(()) };
    let mut once = false;
    for s in arr(sc, "steps") {
        let what = text(&s, "do");
        match what {
            "edit" => {
                sys::quiet(|| ops::apply(&mut d, &s["op"]));
                match sys::quiet(|| conv::build_device(&d, off)) {
                    Ok(x) => dev = x,
                    Err(_) => return Ok(()),
                }
                once = false;
            }
            "apply" => {
                let want = sys::quiet(|| refexp::expand_properties(&d));
                svd_parser::expand_properties(&mut dev);
                if want != d {
                    c.nontrivial = true;
                    if once {
                        return viol("harness", "the reference is not idempotent");
                    }
                }
                d = want;
                once = true;
            }
            "load" => {
                let want = sys::quiet(|| refexp::expand_properties(&d));
                let x = write(&d, &style(&s["via"], "style"));
                let cf = svd_parser::Config::default().validate_level(off).expand_properties(true);
                match svd_parser::parse_with_config(&x, &cf) {
                    Ok(x) => dev = x,
                    Err(e) => return viol("load fails", cut(&format!("{e:#}"))),
                }
                if want != d {
                    c.nontrivial = true;
                }
                d = want;
                once = true;
            }
            _ => {
                if let Some(x) = get(&d, &s["via"], &disk, c) {
                    dev = x;
                }
            }
        }
        let got = el(&dev);
        c.ev(&format!("{what} {:x}", hash_bytes(format!("{got:?}").as_bytes())));
        if let Some(m) = diff(&d, &got) {
            return viol("differs", format!("after {what}: {}", cut(&m)));
        }
        let mut h = hash_bytes(what.as_bytes());
        for a in gen::addrs(&d) {
            let e = gen::at(&d, &a);
            if matches!(e.k, K::Device | K::Peripheral | K::Cluster | K::Register) {
                let m: Vec<bool> = PROP_NAMES.iter().map(|n| e.f.contains_key(n)).collect();
                h ^= crate::rng::mix(hash_bytes(format!("{:?}{}{m:?}{}", e.k, a.len(), e.f.contains_key("@derivedFrom")).as_bytes()));
            }
        }
        c.state(h);
    }
    disk_faults(&disk, c);
    Ok(())
}
