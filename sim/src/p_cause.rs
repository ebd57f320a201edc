//! C19: a refusal says why.

use crate::conv;
use crate::disk::{gen_faults, Disk};
use crate::gen;
use crate::model::*;
use crate::p_edit::{gen_c06, history};
use crate::p_parse::{bend, config, skip, store};
use crate::refparse::{self, Opt};
use crate::refval::{causes, Cause, Lv};
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::ses::*;
use crate::sys;
use crate::xmlw::Style;
use serde_json::{json, Value};
use svd_rs::*;

pub static C19: Prop = Prop {
    id: "C19",
    gen: gen_c19,
    run: run_c19,
    chunk: 150,
    rule: "a run bends a valid description a few times, each time builds it, validates it and loads it from storage over short and failing reads, edits it with edits of which many are rejected, and compares every refusal, by its public variant and by its message, with the reasons the reference finds; non-trivial: at least one refusal compared",
    measure: "distinct (reason, way it came about, level)",
    real: "svd-rs builders, validation and error types, svd-parser, std fs and io",
    stub: "file system under std fs (disk model), hash keys, clock",
    assumptions: &["of several reasons any one may be given"],
};
/// Values without which nothing is built: kind, tag, and what its builder calls it.
const NEEDED: &[(K, &str, &str)] = &[
    (K::Device, "name", "name"),
    (K::Cpu, "name", "name"),
    (K::Cpu, "revision", "revision"),
    (K::Cpu, "endian", "endian"),
    (K::Cpu, "mpuPresent", "mpupresent"),
    (K::Cpu, "fpuPresent", "fpupresent"),
    (K::Cpu, "nvicPrioBits", "nvicprioritybits"),
    (K::Cpu, "vendorSystickConfig", "hasvendorsystick"),
    (K::Peripheral, "name", "name"),
    (K::Peripheral, "baseAddress", "baseaddress"),
    (K::AddressBlock, "offset", "offset"),
    (K::AddressBlock, "size", "size"),
    (K::AddressBlock, "usage", "usage"),
    (K::Interrupt, "name", "name"),
    (K::Interrupt, "value", "value"),
    (K::Cluster, "name", "name"),
    (K::Cluster, "addressOffset", "addressoffset"),
    (K::Register, "name", "name"),
    (K::Register, "addressOffset", "addressoffset"),
    (K::Field, "name", "name"),
    (K::Field, "bits", "bitrange"),
    (K::Ev, "name", "name"),
];
/// Values of a device that only the strict level wants to be told.
const STRICT: &[(&str, &str)] = &[("version", "version"), ("description", "description"), ("addressUnitBits", "addressunitbits"), ("width", "width")];
fn plain(s: &str) -> String {
    s.chars().filter(|c| *c != '_' && !c.is_whitespace()).flat_map(char::to_lowercase).collect()
}
/// Every reason not to build one element, without what is inside.
fn reasons(e: &El, l: Lv) -> Vec<Cause> {
    let mut v = causes(e, l);
    for (k, t, n) in NEEDED {
        if *k == e.k && !e.f.contains_key(t) {
            v.push(Cause::Missing(n.to_string()));
        }
    }
    if e.k == K::Device && l == Lv::Strict {
        v.extend(STRICT.iter().filter(|x| !e.f.contains_key(x.0)).map(|x| Cause::Missing(x.1.into())));
    }
    if e.f.contains_key("dim") || e.is_array() {
        v.extend([("dim", "dim"), ("dimIncrement", "dimincrement")].iter().filter(|x| !e.f.contains_key(x.0)).map(|x| Cause::Missing(x.1.into())));
        v.extend(e.grp("dimArrayIndex").iter().flat_map(|d| d.grp("values")).flat_map(|x| reasons(x, l)));
    }
    v
}
fn whole(d: &El, l: Lv) -> Vec<Cause> {
    d.all().into_iter().flat_map(|e| reasons(e, l)).collect()
}
fn told(e: &SvdError) -> Cause {
    use svd_rs::*;
    match e {
        SvdError::Build(BuildError::Uninitialized(n)) => Cause::Missing(plain(n)),
        SvdError::Name(NameError::Invalid(n, t)) => Cause::Name(n.clone(), t.clone()),
        SvdError::Device(device::Error::EmptyDevice) => Cause::NoPeripherals,
        SvdError::Peripheral(peripheral::Error::EmptyRegisters) => Cause::NoRegisters,
        SvdError::Cluster(cluster::Error::EmptyCluster) => Cause::NoChildren,
        SvdError::Register(register::Error::EmptyFields) => Cause::NoFields,
        SvdError::Field(field::Error::IncompatibleEnumeratedValues) => Cause::Usages,
        SvdError::BitRange(bitrange::Error::ZeroWidth) => Cause::ZeroWidth,
        SvdError::EnumeratedValue(enumeratedvalue::Error::AbsentValue) => Cause::NoValue,
        SvdError::EnumeratedValue(enumeratedvalue::Error::ValueAndDefault(Some(n))) => Cause::ValueAndDefault(*n),
        SvdError::EnumeratedValue(enumeratedvalue::Error::OutOfRange(n, r)) if r.start == 0 => Cause::Value(*n, r.end),
        SvdError::EnumeratedValues(enumeratedvalues::Error::Empty) => Cause::NoValues,
        SvdError::RegisterProperties(registerproperties::Error::ValueTooLarge(a, b)) => Cause::Reset(*a, *b as u64),
        SvdError::RegisterProperties(registerproperties::Error::MaskTooLarge(a, b)) => Cause::Mask(*a, *b as u64),
        SvdError::RegisterProperties(registerproperties::Error::MaskConflict(a, b)) => Cause::Conflict(*a, *b),
        SvdError::WriteConstraint(writeconstraint::Error::OutOfRange(n, r)) if r.start == 0 => Cause::Constraint(*n, r.end),
        SvdError::WriteConstraint(writeconstraint::Error::ReversedRange(a, b)) => Cause::Reversed(*a, *b),
        e => Cause::Other(format!("{e:?}")),
    }
}
fn names(text: &str, c: &Cause) -> bool {
    let t = plain(text);
    c.words().iter().all(|w| t.contains(&plain(w)))
}
fn judge(how: &str, e: &SvdError, want: &[Cause], l: Lv, c: &mut Ctx) -> Res {
    let got = told(e);
    let alike = |w: &Cause| match (w, &got) {
        // of a path, the whole of it or the part that is wrong
        (Cause::Name(a, t), Cause::Name(b, u)) => t == u && (a == b || t == "derivedFrom" && b.split('.').any(|x| x == a)),
        _ => *w == got,
    };
    let text = e.to_string();
    c.ev(&format!("{how} {got:?}"));
    let Some(w) = want.iter().find(|w| alike(w)) else {
        return viol("another reason", cut(&format!("{how} at {l:?} says {got:?} ({text}), which is none of {want:?}")));
    };
    if !names(&text, w) {
        return viol("a message without the reason", cut(&format!("{how} at {l:?} says {text:?} for {w:?}")));
    }
    let kind = format!("{got:?}");
    let kind = kind.split(['(', ' ']).next().unwrap_or("");
    c.probe(kind);
    c.nontrivial = true;
    let miss = if let Cause::Missing(m) = &got { m.as_str() } else { "" };
    c.state(hash_bytes(format!("{how} {kind} {miss} {l:?}").as_bytes()));
    Ok(())
}
fn edited(e: &SvdError, new: &El, l: Lv, c: &mut Ctx) -> Res {
    let mut v = sys::quiet(|| reasons(new, l));
    if new.k == K::Cluster && !new.g.contains_key("children") {
        v.push(Cause::Missing("children".into()));
    }
    if new.k == K::Device && !new.g.contains_key("peripherals") {
        v.push(Cause::Missing("peripherals".into()));
    }
    if new.k.dimable() && !new.f.contains_key("dim") && !new.is_array() {
        // made an array without saying of how many
        v.extend(["dim", "dimincrement"].map(|n| Cause::Missing(n.into())));
    }
    judge("an edit", e, &v, l, c)
}
fn gen_c19(r: &mut Rng, t: &Tier) -> Value {
    let mut v = gen_c06(r, t);
    let mut g = gen_some(r, false);
    g.depth = r.below(3);
    g.enums = *r.pick(&[30, 80]);
    v["doc"] = gen::device(r, &g).to_json();
    // building from nothing, with something left out
    if let Some(a) = v["steps"].as_array_mut() {
        for s in a.iter_mut() {
            match text(s, "do") {
                "fresh" => leave_out(r, s),
                "wrap" if r.pct(30) => {
                    let n = *r.pick(&["dim", "dimIncrement"]);
                    if let Some(o) = s["edit"]["f"].as_object_mut() {
                        o.remove(n);
                    }
                }
                _ => {}
            }
        }
    }
    let n = r.range(1, 6);
    v["bends"] = (0..n)
        .map(|_| {
            let mut one = |r: &mut Rng| {
                if r.pct(40) {
                    json!({"drop": r.below(1 << 10), "a": r.below(1 << 20)})
                } else {
                    json!({"rule": r.below(40), "a": r.below(1 << 20), "b": r.below(1 << 20)})
                }
            };
            let k = *r.pick(&[1u64, 1, 1, 2]);
            let e: Vec<Value> = (0..k).map(|_| one(r)).collect();
            json!({"edits": e, "level": r.below(3), "io": gen_faults(r, 0, 6), "style": Style::gen(r).to_json()})
        })
        .collect();
    v
}
fn run_c19(sc: &Value, c: &mut Ctx) -> Res {
    let base = doc(sc, "doc")?;
    for b in arr(sc, "bends") {
        let mut d = base.clone();
        sys::quiet(|| {
            for e in arr(&b, "edits") {
                if e.get("drop").is_some() {
                    drop_one(&mut d, &e);
                } else {
                    bend(&mut d, &e);
                }
            }
        });
        bent(&d, &b, c)?;
    }
    history(sc, c, None, Some(edited))
}
fn leave_out(r: &mut Rng, s: &mut Value) {
    let Some(k) = K::from_tag(text(s, "k")) else { return };
    let mut l: Vec<&str> = NEEDED.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
    match k {
        K::Cluster => l.push("children"),
        K::Device => l.extend(["peripherals", "version", "description", "addressUnitBits", "width"]),
        _ => {}
    }
    if l.is_empty() || r.pct(40) {
        return;
    }
    let n = *r.pick(&l);
    for e in ["edit", "edit2"] {
        for g in ["f", "g"] {
            if let Some(o) = s[e][g].as_object_mut() {
                o.remove(n);
            }
        }
    }
}
/// Takes away one value that is needed.
fn drop_one(d: &mut El, v: &Value) {
    let all = NEEDED.len() as u64 + 7;
    let n = num(v, "drop") % all;
    let pick = |d: &El, f: &dyn Fn(&El) -> bool| {
        let l: Vec<_> = gen::addrs(d).into_iter().filter(|x| f(gen::at(d, x))).collect();
        (!l.is_empty()).then(|| l[num(v, "a") as usize % l.len()].clone())
    };
    if let Some((k, t, _)) = NEEDED.get(n as usize) {
        if let Some(a) = pick(d, &|e| e.k == *k) {
            gen::at_mut(d, &a).f.remove(t);
        }
    } else if n < NEEDED.len() as u64 + 2 {
        let t = ["dim", "dimIncrement"][n as usize - NEEDED.len()];
        if let Some(a) = pick(d, &|e| e.is_array()) {
            gen::at_mut(d, &a).f.remove(t);
        }
    } else if let Some((t, _)) = STRICT.get(n as usize - NEEDED.len() - 2) {
        d.f.remove(t);
    } else {
        d.g.remove("peripherals");
    }
}
fn bent(d: &El, b: &Value, c: &mut Ctx) -> Res {
    let l = Lv::from(num(b, "level"));
    let want = sys::quiet(|| whole(d, l));
    let mut want = want;
    let built = if d.g.contains_key("peripherals") {
        conv::build_device(d, l.real())
    } else {
        want.push(Cause::Missing("peripherals".into()));
        conv::fill_device(Device::builder(), d, l.real()).and_then(|b| b.build(l.real()))
    };
    if let Err(e) = built {
        judge("building", &e, &want, l, c)?;
    }
    if let Ok(x) = conv::build_device(d, Lv::Off.real()) {
        // what is there now, with what was put for what was left out
        if let Err(e) = x.validate_all(l.real()) {
            let m = sys::quiet(|| conv::el_device(&x));
            let want: Vec<Cause> = sys::quiet(|| whole(&m, l));
            judge("validating", &e, &want, l, c)?;
        }
    }
    let mut text = write(d, &style(b, "style")).into_bytes();
    let disk = Disk::new();
    let (_, got) = store(&disk, &mut text, &[], &[], &b["io"], c);
    disk_faults(&disk, c);
    let Some(Ok(s)) = got.map(String::from_utf8) else { return Ok(()) };
    let read = sys::quiet(|| refparse::parse(&s, &Opt { level: l, ignore_enums: false }));
    if read.declared > 100_000 || skip(read.quirk) || read.malformed || read.errs.is_empty() {
        return Ok(());
    }
    let Err(m) = svd_parser::parse_with_config(&s, &config(l, false)) else {
        return viol("fault not reported", cut(&read.errs[0].what));
    };
    let t = m.chain().map(|x| x.to_string()).collect::<Vec<_>>().join(": ");
    // all reasons of the text must be known to tell that none of them is named
    let mut known = vec![];
    for e in &read.errs {
        if let Some(n) = e.what.strip_prefix("missing ") {
            known.push(Cause::Missing(plain(n)));
        } else if e.what.starts_with("rule of") {
            known.extend(want.iter().cloned().filter(|w| !matches!(w, Cause::Missing(_))));
        } else {
            c.hit("another fault");
            return Ok(());
        }
    }
    let Some(w) = known.iter().find(|w| names(&t, w)) else {
        return viol("a message without the reason", cut(&format!("loading at {l:?} says {t:?} for {known:?}")));
    };
    let kind = format!("{w:?}");
    let kind = kind.split(['(', ' ']).next().unwrap_or("");
    c.probe(&format!("loading: {kind}"));
    c.nontrivial = true;
    c.state(hash_bytes(format!("loading {kind} {l:?}").as_bytes()));
    Ok(())
}
