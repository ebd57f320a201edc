//! C09, C10, C11: what a text is read as, when it is accepted, and how it is refused.

use crate::conv;
use crate::damage;
use crate::disk::{gen_faults, Disk, Image};
use crate::gen;
use crate::model::*;
use crate::ops;
use crate::refparse::{self, Opt};
use crate::refval::{self, Lv, LEVELS};
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::ses::diff;
use crate::ses::*;
use crate::sys;
use crate::xmlw::Style;
use serde_json::{json, Value};
use svd_rs::Device;

pub fn config(l: Lv, ienums: bool) -> svd_parser::Config {
    svd_parser::Config::default().validate_level(l.real()).ignore_enums(ienums)
}
/// Stores the text, damaged, and reads it back after a restart.
pub fn store(disk: &Disk, b: &mut Vec<u8>, faults: &[Value], old: &[u8], io: &Value, c: &mut Ctx) -> (usize, Option<Vec<u8>>) {
    let n = sys::quiet(|| hurt(b, faults, old, c));
    disk.set("f", b.clone());
    disk.crash(&Image::from_json(&json!({})));
    disk.plan(io);
    let r = disk.read_all("f");
    disk.plan(&json!([]));
    (n, r.ok())
}
fn gen_faulty(r: &mut Rng, n: u64) -> Vec<Value> {
    (0..n)
        .map(|_| if r.pct(80) { damage::gen_xml(r) } else { damage::gen_bytes(r) })
        .collect()
}
pub fn skip(q: Option<&str>) -> bool {
    matches!(q, Some("comment inside a value" | "huge array"))
}

// ---------------------------------------------------------------- C09

pub static C09: Prop = Prop {
    id: "C09",
    gen: gen_c09,
    run: run_c09,
    chunk: 100,
    rule: "a run writes a description in some layout and notation, damages the stored text up to 4 times (values, names, digits, attributes, elements lost, repeated, moved, renamed or added; bytes), loads it after every damage at some level with or without enumerations, and compares acceptance and the whole content with the independent reader; non-trivial: the text differed from what was written and was still markup, and no listed finding applied",
    measure: "distinct (kinds and values present, accepted or first error of the reference)",
    real: "svd-parser, svd-rs builders, roxmltree",
    stub: "disk, hash keys, clock; the independent reader shares roxmltree",
    assumptions: &[
        "comments and processing instructions inside a value are left to the listed finding",
        "arrays of more than 100000 elements are not read",
    ],
};
fn gen_c09(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 20 } else { 5 }));
    g.any_graph = r.pct(20);
    let n = *r.pick(&[0u64, 1, 1, 2, 4]);
    json!({"doc": gen::device(r, &g).to_json(), "style": Style::gen(r).to_json(), "ostyle": Style::gen(r).to_json(),
        "faults": gen_faulty(r, n), "io": gen_faults(r, 0, 10), "level": *r.pick(&[0u64, 0, 0, 1, 2]), "ienums": r.pct(25), "parts": r.pct(25)})
}
fn run_c09(sc: &Value, c: &mut Ctx) -> Res {
    let d = doc(sc, "doc")?;
    let mut b = write(&d, &style(sc, "style")).into_bytes();
    let old = write(&d, &style(sc, "ostyle")).into_bytes();
    let first = b.clone();
    let disk = Disk::new();
    let lv = Lv::from(num(sc, "level"));
    let ie = flag(sc, "ienums");
    let faults = arr(sc, "faults");
    for i in 0..=faults.len() {
        let f = if i == 0 { &[][..] } else { &faults[i - 1..i] };
        let (_, got) = store(&disk, &mut b, f, &old, &sc["io"], c);
        let Some(Ok(s)) = got.map(String::from_utf8) else { return Ok(()) };
        if s.as_bytes() != &b[..] {
            return viol("harness", "the disk changed the text");
        }
        let want = sys::quiet(|| refparse::parse(&s, &Opt { level: lv, ignore_enums: ie }));
        if flag(sc, "quirks") && want.quirk == Some("comment inside a value") {
            // a comment says nothing, wherever it stands
            let show = |s: &str| svd_parser::parse_with_config(s, &config(lv, ie)).map(|d| el(&d)).map_err(|e| format!("{e:#}"));
            let (with, without) = (show(&s), show(&s.replace("<!-- -->", "")));
            if with != without {
                let m = match (with, without) {
                    (Ok(a), Ok(b)) => crate::model::diff(&b, &a).unwrap_or_default(),
                    (a, b) => format!("with: {:?}, without: {:?}", a.map(|_| ()), b.map(|_| ())),
                };
                return viol("comment inside a value changes it", cut(&m));
            }
            continue;
        }
        if want.declared > 100_000 || skip(want.quirk) {
            c.probe("left out");
            continue;
        }
        let real = svd_parser::parse_with_config(&s, &config(lv, ie)).map_err(|e| format!("{e:#}"));
        c.ev(&format!("{} {:?}", want.errs.len(), real.as_ref().map(|_| ())));
        if want.malformed {
            c.probe("not markup");
            if real.is_ok() {
                return viol("malformed text accepted", "");
            }
            continue;
        }
        if b != first {
            c.nontrivial = true;
        }
        let kind = want.errs.first().map(|e| e.what.clone()).unwrap_or_default();
        let kind: String = kind.chars().take_while(|c| *c != '"').collect();
        c.state(hash_bytes(kind.as_bytes()) ^ want.dev.as_ref().map(crate::p_save::profile).unwrap_or(0));
        match (want.errs.first(), real) {
            (None, Ok(dev)) => {
                c.hit("accepted");
                let Some(w) = &want.dev else { return viol("harness", "no device and no error") };
                if let Some(m) = sys::quiet(|| crate::model::diff(&strip(w), &strip(&el(&dev)))) {
                    return viol("read as something else", cut(&m));
                }
                if flag(sc, "parts") {
                    parts(&s, &dev, &config(lv, ie), c)?;
                }
            }
            (None, Err(m)) => return viol("readable text refused", cut(&m)),
            (Some(e), Ok(_)) => return viol("unreadable text accepted", cut(&format!("{} in {} at byte {}", e.what, e.tag, e.pos))),
            (Some(_), Err(_)) => {
                c.hit("refused");
                c.probe(&kind);
            }
        }
    }
    // excluding enumerations removes them and nothing else
    Ok(())
}
/// Each element of an accepted text read by itself.
fn parts(s: &str, dev: &Device, cfg: &svd_parser::Config, c: &mut Ctx) -> Res {
    use svd_parser::Parse;
    use svd_rs::*;
    type N<'a, 'i> = roxmltree::Node<'a, 'i>;
    fn kids<'a, 'i>(n: N<'a, 'i>, tags: &[&str]) -> Vec<N<'a, 'i>> {
        n.children().filter(|x| tags.iter().any(|t| x.has_tag_name(*t))).collect()
    }
    fn same<T>(n: &N, want: &T, cfg: &svd_parser::Config) -> Res
    where
        T: Parse<Object = T, Config = svd_parser::Config> + PartialEq,
    {
        match T::parse(n, cfg) {
            Ok(x) if x == *want => Ok(()),
            Ok(_) => viol("an element by itself is read as something else", n.tag_name().name()),
            Err(_) => viol("an element by itself is refused", n.tag_name().name()),
        }
    }
    fn refused<T: Parse<Config = svd_parser::Config>>(n: &N, tag: &str, cfg: &svd_parser::Config) -> Res {
        if !n.has_tag_name(tag) && T::parse(n, cfg).is_ok() {
            return viol("an element of another kind is accepted", format!("{} as {tag}", n.tag_name().name()));
        }
        Ok(())
    }
    fn blocks(n: N, v: &[RegisterCluster], cfg: &svd_parser::Config) -> Res {
        let ns = kids(n, &["register", "cluster"]);
        if ns.len() != v.len() {
            return Ok(());
        }
        for (n, x) in ns.into_iter().zip(v) {
            same(&n, x, cfg)?;
            match x {
                RegisterCluster::Register(x) => {
                    same(&n, x, cfg)?;
                    same::<RegisterInfo>(&n, x, cfg)?;
                    same(&n, &x.properties, cfg)?;
                    let Some(fs) = n.children().find(|n| n.has_tag_name("fields")) else { continue };
                    let (fs, v) = (kids(fs, &["field"]), x.fields.as_deref().unwrap_or(&[]));
                    if fs.len() != v.len() {
                        continue;
                    }
                    for (n, x) in fs.into_iter().zip(v) {
                        same(&n, x, cfg)?;
                        same::<FieldInfo>(&n, x, cfg)?;
                        same(&n, &x.bit_range, cfg)?;
                        let es = kids(n, &["enumeratedValues"]);
                        if es.len() != x.enumerated_values.len() {
                            continue;
                        }
                        for (n, x) in es.into_iter().zip(&x.enumerated_values) {
                            same(&n, x, cfg)?;
                            let vs = kids(n, &["enumeratedValue"]);
                            if vs.len() == x.values.len() {
                                for (n, x) in vs.into_iter().zip(&x.values) {
                                    same(&n, x, cfg)?;
                                }
                            }
                        }
                    }
                }
                RegisterCluster::Cluster(x) => {
                    same(&n, x, cfg)?;
                    same::<ClusterInfo>(&n, x, cfg)?;
                    same(&n, &x.default_register_properties, cfg)?;
                    blocks(n, &x.children, cfg)?;
                }
            }
        }
        Ok(())
    }
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let Ok(t) = roxmltree::Document::parse(s) else { return Ok(()) };
    let Some(root) = t.root().children().find(|n| n.has_tag_name("device")) else { return Ok(()) };
    same(&root, dev, cfg)?;
    if let (Some(n), Some(x)) = (root.children().find(|n| n.has_tag_name("cpu")), &dev.cpu) {
        same(&n, x, cfg)?;
    }
    let Some(ps) = root.children().find(|n| n.has_tag_name("peripherals")) else { return Ok(()) };
    let ps = kids(ps, &["peripheral"]);
    if ps.len() == dev.peripherals.len() {
        for (n, x) in ps.into_iter().zip(&dev.peripherals) {
            same(&n, x, cfg)?;
            same::<PeripheralInfo>(&n, x, cfg)?;
            let is = kids(n, &["interrupt"]);
            if is.len() == x.interrupt.len() {
                for (n, x) in is.into_iter().zip(&x.interrupt) {
                    same(&n, x, cfg)?;
                }
            }
            let abs = kids(n, &["addressBlock"]);
            let v = x.address_block.as_deref().unwrap_or(&[]);
            if abs.len() == v.len() {
                for (n, x) in abs.into_iter().zip(v) {
                    same(&n, x, cfg)?;
                }
            }
            if let Some(rs) = n.children().find(|n| n.has_tag_name("registers")) {
                blocks(rs, x.registers.as_deref().unwrap_or(&[]), cfg)?;
            }
        }
    }
    for n in t.descendants().filter(|n| n.is_element()).take(150) {
        refused::<Device>(&n, "device", cfg)?;
        refused::<Cpu>(&n, "cpu", cfg)?;
        refused::<Peripheral>(&n, "peripheral", cfg)?;
        refused::<PeripheralInfo>(&n, "peripheral", cfg)?;
        refused::<Interrupt>(&n, "interrupt", cfg)?;
        refused::<Cluster>(&n, "cluster", cfg)?;
        refused::<Register>(&n, "register", cfg)?;
        refused::<Field>(&n, "field", cfg)?;
        refused::<FieldInfo>(&n, "field", cfg)?;
        refused::<EnumeratedValues>(&n, "enumeratedValues", cfg)?;
        refused::<EnumeratedValue>(&n, "enumeratedValue", cfg)?;
    }
    c.probe("elements by themselves");
    Ok(())
}
/// Absent and empty are told apart, apart from what the types cannot tell apart.
fn strip(e: &El) -> El {
    let mut x = e.clone();
    x.walk_mut(&mut |e| {
        let keep = |k: K, g: &str| matches!((k, g), (K::Peripheral, "registers") | (K::Register, "fields"));
        let k = e.k;
        e.g.retain(|g, v| !v.is_empty() || keep(k, g));
        e.f.retain(|n, v| match v {
            V::S(s) => {
                !s.is_empty()
                    || *n != "dimName" && (n.starts_with('@')
                    || match k {
                        K::Register | K::Device | K::Interrupt | K::Cpu | K::Dai => true,
                        _ => items(k).iter().any(|i| matches!(i, It::F(m, _, true) if m == n)),
                    })
            }
            _ => true,
        });
    });
    x
}

// ---------------------------------------------------------------- C10

pub static C10: Prop = Prop {
    id: "C10",
    gen: gen_c10,
    run: run_c10,
    chunk: 100,
    rule: "a run takes a description that satisfies a level, edits it or damages its stored text so that some rules may be broken, and brings it in at every level in three ways (load at the level, build at the level, load or import without validation and validate as a whole), comparing every answer with the reference rules and every accepted content with the unvalidated one; non-trivial: at least one level refused it, or a damage or edit changed it",
    measure: "distinct (answers per level, kinds and properties present)",
    real: "svd-rs validation and builders, svd-parser, serde_json import",
    stub: "disk, hash keys, clock",
    assumptions: &["what cannot be read even without validation is left to C09"],
};
fn gen_c10(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 20 } else { 5 }));
    g.any_graph = r.pct(20);
    g.enums = *r.pick(&[20, 60, 90]);
    let n = *r.pick(&[0u64, 1, 1, 2, 3]);
    let mut ed = vec![];
    for _ in 0..n {
        ed.push(json!({"rule": r.below(40), "a": r.below(1 << 20), "b": r.below(1 << 20)}));
    }
    let m = *r.pick(&[0u64, 0, 1, 2]);
    json!({"doc": gen::device(r, &g).to_json(), "style": Style::gen(r).to_json(), "ops": ops::gen_ops(r, m, &[]),
        "edits": ed, "faults": if r.pct(30) { gen_faulty(r, 1) } else { vec![] }, "io": gen_faults(r, 0, 10)})
}
pub const NAMES: &[&str] = &[
    "A", "", "1x", "a-b", "a b", "A%s", "A[%s]", "%s", "[%s]", "A%sB%s", "A[%s]B", "%s1", "a.b", "_", "é", "%s_x", "A%", "A[%s", "0", "x1", "A%s-", "A%s1", "%s%s", "A%s[%s]", "[%s]A",
    "a.b.c", ".a", "a.", "a..b", "A%s.B[%s].c",
];
/// Brings one element near a rule.
pub fn bend(d: &mut El, v: &Value) -> bool {
    let (k, a, b) = (num(v, "rule"), num(v, "a") as usize, num(v, "b") as usize);
    let before = d.clone();
    let of = |d: &El, f: &dyn Fn(&El) -> bool| -> Option<gen::Addr> {
        let l: Vec<_> = gen::addrs(d).into_iter().filter(|x| f(gen::at(d, x))).collect();
        (!l.is_empty()).then(|| l[a % l.len()].clone())
    };
    let nums = [0u64, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX];
    let n = nums[b % nums.len()];
    let n32 = n.min(u32::MAX as u64);
    let name = NAMES[b % NAMES.len()];
    (|| -> Option<()> {
        match k {
            0..=7 => {
                let x = of(d, &|e| e.f.contains_key("name") && !e.is_array())?;
                gen::at_mut(d, &x).set_s("name", name);
            }
            8..=11 => {
                let x = of(d, &|e| e.k.derivable())?;
                gen::at_mut(d, &x).set_s("@derivedFrom", name);
            }
            12 | 13 => {
                let x = of(d, &|e| e.k == K::Register)?;
                let f = if a % 2 == 0 { "alternateGroup" } else { "alternateRegister" };
                gen::at_mut(d, &x).set_s(f, name);
            }
            14..=17 => {
                let x = of(d, &|e| matches!(e.k, K::Device | K::Peripheral | K::Cluster | K::Register))?;
                let e = gen::at_mut(d, &x);
                e.set_n("size", n32);
                if k > 14 {
                    e.set_n("resetValue", nums[(b / 31) % nums.len()]);
                }
                if k > 15 {
                    e.set_n("resetMask", nums[(b / 997) % nums.len()]);
                }
            }
            18..=20 => {
                let x = of(d, &|e| e.k == K::Field)?;
                let e = gen::at_mut(d, &x);
                let w = nums[b % nums.len()].min(70);
                e.f.insert("bits", V::R(b as u64 / 50 % 64, w.max(if k == 18 { 0 } else { 1 }), [Bt::OffWidth, Bt::Range, Bt::MsbLsb][if w == 0 { 0 } else { b % 3 }]));
            }
            21..=24 => {
                let x = of(d, &|e| e.k == K::Ev)?;
                let e = gen::at_mut(d, &x);
                match b % 4 {
                    0 => {
                        e.f.remove("value");
                    }
                    1 => {
                        e.f.insert("isDefault", V::B(b % 8 > 3));
                    }
                    _ => {
                        e.set_n("value", nums[b / 4 % nums.len()]);
                    }
                }
            }
            25..=27 => {
                let x = of(d, &|e| e.k == K::Evs)?;
                let e = gen::at_mut(d, &x);
                match b % 4 {
                    0 => {
                        e.g.insert("values", vec![]);
                    }
                    1 => {
                        e.f.remove("usage");
                    }
                    _ => {
                        e.set_s("usage", USAGE[b / 4 % 3]);
                    }
                }
            }
            28 | 29 => {
                let x = of(d, &|e| e.k == K::Field && !e.grp("enumeratedValues").is_empty())?;
                let g = gen::at_mut(d, &x).g.get_mut("enumeratedValues")?;
                let y = g[b % g.len()].clone();
                g.push(y);
            }
            30 | 31 => {
                let x = of(d, &|e| matches!(e.k, K::Field | K::Register))?;
                gen::at_mut(d, &x).f.insert("writeConstraint", V::W(Wc::Range(n, nums[b / 22 % nums.len()])));
            }
            32 | 33 => {
                let x = of(d, &|e| !e.g.is_empty())?;
                let e = gen::at_mut(d, &x);
                let keys: Vec<&'static str> = e.g.keys().copied().collect();
                e.g.insert(keys[b % keys.len()], vec![]);
            }
            34 | 35 => {
                let x = of(d, &|e| e.f.contains_key("@derivedFrom"))?;
                gen::at_mut(d, &x).f.remove("@derivedFrom");
            }
            36 | 37 => {
                let x = of(d, &|e| e.is_array())?;
                let e = gen::at_mut(d, &x);
                e.set_s("name", name);
            }
            _ => {
                let x = of(d, &|e| e.k == K::Device || e.k == K::Peripheral)?;
                let e = gen::at_mut(d, &x);
                let g = if e.k == K::Device { "peripherals" } else { "registers" };
                e.g.insert(g, vec![]);
            }
        }
        Some(())
    })();
    *d != before
}
fn run_c10(sc: &Value, c: &mut Ctx) -> Res {
    let mut d = doc(sc, "doc")?;
    let mut changed = false;
    sys::quiet(|| {
        for o in arr(sc, "ops") {
            changed |= ops::apply(&mut d, &o);
        }
        for e in arr(sc, "edits") {
            changed |= bend(&mut d, &e);
        }
    });
    let disk = Disk::new();
    let mut b = write(&d, &style(sc, "style")).into_bytes();
    let (n, got) = store(&disk, &mut b, &arr(sc, "faults"), &[], &sc["io"], c);
    let Some(Ok(s)) = got.map(String::from_utf8) else { return Ok(()) };
    let r = sys::quiet(|| refparse::parse(&s, &Opt { level: Lv::Off, ignore_enums: false }));
    if r.declared > 100_000 || skip(r.quirk) {
        return Ok(());
    }
    let base = match svd_parser::parse_with_config(&s, &config(Lv::Off, false)) {
        Ok(x) => x,
        Err(_) => {
            c.probe("not readable");
            for l in LEVELS {
                if svd_parser::parse_with_config(&s, &config(l, false)).is_ok() {
                    return viol("a stricter level accepts more", format!("{l:?} accepts what cannot be read"));
                }
            }
            return Ok(());
        }
    };
    let e = el(&base);
    // the data form
    let j = serde_json::to_value(&base).map_err(|e| e.to_string()).and_then(|v| serde_json::from_value::<Device>(v).map_err(|e| e.to_string()));
    let mut answers = vec![];
    for l in LEVELS {
        let want = sys::quiet(|| refval::all(&e, l)) && !(l == Lv::Strict && lacks(&s));
        let want_whole = sys::quiet(|| refval::all(&e, l));
        answers.push(want);
        let loaded = svd_parser::parse_with_config(&s, &config(l, false));
        if loaded.is_ok() != want {
            return viol(
                if want { "load refuses what the level allows" } else { "load accepts what the level forbids" },
                format!("{l:?}: {}", cut(&loaded.as_ref().err().map(|e| format!("{e:#}")).unwrap_or_default())),
            );
        }
        // without options it is the weak level
        if l == Lv::Weak {
            let plain = svd_parser::parse(&s);
            if plain.is_ok() != want || plain.as_ref().ok() != loaded.as_ref().ok() {
                return viol("loading without options is not loading at the weak level", cut(&plain.err().map(|e| format!("{e:#}")).unwrap_or_default()));
            }
        }
        if let Ok(x) = &loaded {
            if let Some(m) = diff(&e, &el(x)) {
                return viol("the level changes the content", cut(&m));
            }
        }
        let built = conv::build_device(&e, l.real());
        if built.is_ok() != want_whole {
            return viol(
                if want_whole { "build refuses what the level allows" } else { "build accepts what the level forbids" },
                format!("{l:?}: {}", cut(&built.as_ref().err().map(|e| e.to_string()).unwrap_or_default())),
            );
        }
        if let Ok(x) = &built {
            if let Some(m) = diff(&e, &el(x)) {
                return viol("the level changes the content", format!("built: {}", cut(&m)));
            }
        }
        for (how, dev) in [("loaded", Some(&base)), ("imported", j.as_ref().ok()), ("built", built.as_ref().ok())] {
            let Some(dev) = dev else { continue };
            let v = dev.validate_all(l.real());
            if v.is_ok() != want_whole {
                return viol(
                    if want_whole { "validation refuses what the level allows" } else { "validation accepts what the level forbids" },
                    format!("{how}, {l:?}: {}", cut(&v.err().map(|e| e.to_string()).unwrap_or_default())),
                );
            }
        }
    }
    c.ev(&format!("{answers:?}"));
    if changed || n > 0 || answers.contains(&false) {
        c.nontrivial = true;
    }
    c.probe(match (answers[1], answers[2]) {
        (true, true) => "allowed at every level",
        (true, false) => "refused by strict",
        (false, false) => "refused by weak and strict",
        _ => "refused by weak alone",
    });
    c.state(hash_bytes(format!("{answers:?}").as_bytes()) ^ crate::p_save::profile(&e));
    Ok(())
}
/// The strict level also asks a document for what a device has a default for.
fn lacks(s: &str) -> bool {
    sys::quiet(|| {
        let strict = refparse::parse(s, &Opt { level: Lv::Strict, ignore_enums: false });
        strict.errs.iter().any(|e| e.what.starts_with("missing"))
    })
}

// ---------------------------------------------------------------- C11

pub static C11: Prop = Prop {
    id: "C11",
    gen: gen_c11,
    run: run_c11,
    chunk: 200,
    rule: "a run writes a valid description in some layout (line breaks, comments, attributes, byte order mark, other encodings of the same characters) and places one fault in it; when the independent reader finds exactly one error, the message of the real one must name that place, the element and what encloses it; non-trivial: the fault made exactly one error",
    measure: "distinct (kind of error, element at fault, kinds and presence of names of what encloses it)",
    real: "svd-parser, roxmltree positions",
    stub: "disk, hash keys, clock; the independent reader shares roxmltree's byte offsets and computes lines and columns itself",
    assumptions: &["only texts with exactly one fault are judged"],
};
fn gen_c11(r: &mut Rng, t: &Tier) -> Value {
    let g = gen_some(r, r.clone().pct(if t.thorough { 20 } else { 5 }));
    let mut f = vec![];
    let n = *r.pick(&[1u64, 1, 1, 2]);
    for _ in 0..n {
        f.push(damage::gen_xml(r));
    }
    let ed: Vec<Value> = if r.pct(30) { vec![json!({"rule": r.below(40), "a": r.below(1 << 20), "b": r.below(1 << 20)})] } else { vec![] };
    json!({"doc": gen::device(r, &g).to_json(), "style": Style::gen(r).to_json(), "edits": ed,
        "faults": f, "io": gen_faults(r, 0, 10), "level": r.range(0, g.level as u64), "ienums": r.pct(10), "expand": r.pct(10)})
}
fn run_c11(sc: &Value, c: &mut Ctx) -> Res {
    let mut d = doc(sc, "doc")?;
    sys::quiet(|| {
        for e in arr(sc, "edits") {
            bend(&mut d, &e);
        }
    });
    let mut b = write(&d, &style(sc, "style")).into_bytes();
    let disk = Disk::new();
    let (n, got) = store(&disk, &mut b, &arr(sc, "faults"), &[], &sc["io"], c);
    let Some(Ok(s)) = got.map(String::from_utf8) else { return Ok(()) };
    let (lv, ie) = (Lv::from(num(sc, "level")), flag(sc, "ienums"));
    let want = sys::quiet(|| refparse::parse(&s, &Opt { level: lv, ignore_enums: ie }));
    if want.declared > 100_000 || skip(want.quirk) || want.malformed || want.errs.len() != 1 {
        c.hit(if want.errs.is_empty() { "no fault" } else { "several faults" });
        return Ok(());
    }
    let e = &want.errs[0];
    if e.tag.is_empty() {
        c.probe("no device element to point at");
        return Ok(());
    }
    let r = svd_parser::parse_with_config(&s, &config(lv, ie).expand(flag(sc, "expand")));
    let Err(m) = r else {
        // judged by C09
        return viol("fault not reported", cut(&e.what));
    };
    let chain: Vec<String> = m.chain().map(|x| x.to_string()).collect();
    c.ev(&format!("{chain:?}"));
    let (row, col) = sys::quiet(|| refparse::row_col(refparse::unbom(&s), e.pos));
    let mut exp = vec![];
    for (t, n) in e.inside.iter().rev() {
        exp.push(match n {
            Some(n) => format!("In {t} `{n}`"),
            None => format!("In unknown {t}"),
        });
    }
    exp.push(match &e.name {
        Some(n) => format!("Parsing {} `{n}` at {row}:{col}", e.tag),
        None => format!("Parsing unknown {} at {row}:{col}", e.tag),
    });
    c.nontrivial = n > 0 || !arr(sc, "edits").is_empty();
    let kind: String = e.what.chars().take_while(|c| *c != '"').collect();
    c.probe(&kind);
    c.state(hash_bytes(format!("{kind} {} {:?} {:?}", e.tag, e.name.is_some(), e.inside.iter().map(|(t, n)| (t, n.is_some())).collect::<Vec<_>>()).as_bytes()));
    let norm = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").replace("` ", "`").replace(" `", "`");
    let got: Vec<String> = chain.iter().take(exp.len()).map(|s| norm(s)).collect();
    let exp: Vec<String> = exp.iter().map(|s| norm(s)).collect();
    if got != exp {
        return viol("points elsewhere", format!("{} is reported as {:?}, expected {:?}", e.what, chain, exp));
    }
    if chain.len() <= exp.len() {
        return viol("no cause", format!("{chain:?}"));
    }
    Ok(())
}
