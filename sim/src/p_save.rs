//! C02, C03, C04: what is saved and what is read back.

use crate::conv;
use crate::disk::{gen_faults, Disk, Image};
use crate::enc;
use crate::gen;
use crate::model::*;
use crate::refparse;
use crate::refval::{self, Lv};
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::ses::diff;
use crate::ses::*;
use crate::sys;
use serde_json::{json, Value};
use std::io::Write as _;
use svd_rs::Device;

fn device(e: &El) -> Result<Device, Viol> {
    match sys::quiet(|| conv::build_device(e, svd_rs::ValidateLevel::Disabled)) {
        Ok(d) => Ok(d),
        Err(m) => viol("cannot build", format!("{m}")),
    }
}

// ---------------------------------------------------------------- C02

pub static C02: Prop = Prop {
    id: "C02",
    gen: gen_c02,
    run: run_c02,
    chunk: 150,
    rule: "a run saves one description, then saves another over it while the simulated disk interrupts the save (crash with a torn, zero-extended, hole-ridden or stale image; disk full; I/O error; short and interrupted writes), restarts, and loads what is there; non-trivial: the save was interrupted or its bytes were still volatile at the crash, and the stored bytes are neither the complete old nor the complete new text",
    measure: "distinct (form, position of the interruption in the text in 1/64, image kind, outcome shape)",
    real: "svd-encoder, svd-parser, svd-rs (XML and JSON readers and writers), roxmltree, xmltree, serde_json",
    stub: "disk, hash keys, clock",
    assumptions: &[
        "a save truncates the file and writes it from the start; after a crash the disk holds a prefix of the new text, possibly extended by zeros or with zeroed sectors, or the old text, or the new text over a longer old one",
        "a rewrite in place that mixes complete pieces of two valid texts is outside: no text format can detect that",
    ],
};

/// A description much like the one given: a save of it differs in little.
fn vary(e: &El, r: &mut Rng) -> El {
    let mut x = e.clone();
    for _ in 0..r.range(1, 3) {
        let all = gen::addrs(&x);
        let a = r.pick(&all).clone();
        match r.below(3) {
            0 if !a.is_empty() => {
                // drop one of several
                let (g, i) = *a.last().unwrap();
                let p = gen::at_mut(&mut x, &a[..a.len() - 1]);
                if p.g[g].len() > 1 {
                    p.g.get_mut(g).unwrap().remove(i);
                }
            }
            1 if !a.is_empty() => {
                let (g, i) = *a.last().unwrap();
                let p = gen::at_mut(&mut x, &a[..a.len() - 1]);
                if !matches!(p.g[g][i].k, K::Cpu | K::Dai) {
                    let c = p.g[g][i].clone();
                    p.g.get_mut(g).unwrap().push(c);
                }
            }
            _ => {
                let e = gen::at_mut(&mut x, &a);
                if e.f.contains_key("description") {
                    e.set_s("description", gen::text(r));
                }
            }
        }
    }
    x
}

fn gen_c02(r: &mut Rng, _t: &Tier) -> Value {
    let g = gen_some(r, false);
    let old = gen::device(r, &g);
    let mut new = if r.pct(60) {
        vary(&old, r)
    } else {
        let g = gen_some(r, false);
        gen::device(r, &g)
    };
    // a text that fills blocks of its own, of which some do not reach the disk
    let long = r.pct(15);
    if long {
        let all: Vec<_> = gen::addrs(&new).into_iter().filter(|a| gen::at(&new, a).f.contains_key("description")).collect();
        if !all.is_empty() {
            let a = r.pick(&all).clone();
            let word = *r.pick(&["word", "abc", "réservé", "a&b"]);
            let n = r.range(1000, 3000) as usize / (word.len() + 1);
            gen::at_mut(&mut new, &a).set_s("description", vec![word; n.max(1)].join(" "));
        }
    }
    let mut io = gen_faults(r, 0, 60);
    let stop = r.below(5);
    if stop < 3 {
        let k = *r.pick(&["crash", "crash", "eio", "enospc", "nowrite"]);
        let at = *r.pick(&[1u64, 3, 8, 20, 80, 400]);
        io.as_array_mut().unwrap().push(json!({"at": r.below(at), "k": k}));
    }
    json!({"old": old.to_json(), "new": new.to_json(), "ecfg": enc::gen(r), "form": *r.pick(&["xml", "xml", "json"]),
        "io": io, "chunk": *r.pick(&[0u64, 16, 64, 512, 4096]), "pretty": r.pct(40), "sync": !(long || r.pct(40)), "crash": long || r.pct(75), "image": if long {
            Image { trunc: true, keep: 1000, grow: 0, holes: (0..r.range(1, 4)).map(|_| r.below(64)).collect() }.to_json()
        } else {
            Image::gen(r).to_json()
        },
        "again": r.pct(30), "level": r.below(3)})
}

/// Saves through small writes; Ok means acknowledged.
fn save_text(d: &Disk, s: &str, chunk: usize, sync: bool) -> std::io::Result<()> {
    let mut h = d.create("f")?;
    if chunk == 0 {
        h.write_all(s.as_bytes())?;
    } else {
        for c in s.as_bytes().chunks(chunk) {
            h.write_all(c)?;
        }
    }
    h.flush()?;
    if sync {
        d.sync("f")?;
    }
    Ok(())
}
fn save_json(d: &Disk, dev: &Device, chunk: usize, pretty: bool, sync: bool) -> Result<(), String> {
    let h = d.create("f").map_err(|e| e.to_string())?;
    let mut w = std::io::BufWriter::with_capacity(chunk.max(1), h);
    if pretty {
        serde_json::to_writer_pretty(&mut w, dev).map_err(|e| e.to_string())?;
    } else {
        serde_json::to_writer(&mut w, dev).map_err(|e| e.to_string())?;
    }
    w.flush().map_err(|e| e.to_string())?;
    let _ = w.into_parts();
    if sync {
        d.sync("f").map_err(|e| e.to_string())?;
    }
    Ok(())
}

fn run_c02(sc: &Value, c: &mut Ctx) -> Res {
    let (old, new) = (device(&doc(sc, "old")?)?, device(&doc(sc, "new")?)?);
    let form = text(sc, "form");
    let ec = enc::config(&sc["ecfg"]);
    let chunk = num(sc, "chunk") as usize;
    let disk = Disk::new();
    let cf = svd_parser::Config::default().validate_level(Lv::from(num(sc, "level")).real());
    let load = |b: &[u8]| -> Result<Device, String> {
        if form == "json" {
            serde_json::from_reader(b).map_err(|e| e.to_string())
        } else {
            let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
            svd_parser::parse_with_config(s, &cf).map_err(|e| format!("{e:#}"))
        }
    };
    let save = |dev: &Device, sync: bool| -> Result<(), String> {
        if form == "json" {
            save_json(&disk, dev, chunk, flag(sc, "pretty"), sync)
        } else {
            let s = svd_encoder::encode_with_config(dev, &ec).map_err(|e| e.to_string())?;
            save_text(&disk, &s, chunk, sync).map_err(|e| e.to_string())
        }
    };
    // what complete saves read back as
    if save(&new, true).is_err() {
        return viol("save fails", "saving to a faultless disk failed");
    }
    let full_new = disk.bytes("f").unwrap_or_default();
    if save(&old, true).is_err() {
        return viol("save fails", "saving to a faultless disk failed");
    }
    let full_old = disk.bytes("f").unwrap_or_default();
    let (want_old, want_new) = (load(&full_old), load(&full_new));
    let show = |r: &Result<Device, String>| r.as_ref().ok().map(el);
    let (w_old, w_new) = (show(&want_old), show(&want_new));

    disk.plan(&sc["io"]);
    let mut acked = false;
    let mut tries = 0;
    loop {
        let r = save(&new, flag(sc, "sync"));
        tries += 1;
        c.ev(&format!("save: {r:?} at op {}", disk.ops()));
        if r.is_ok() {
            acked = true;
            break;
        }
        if disk.is_dead() || !flag(sc, "again") || tries > 2 {
            break;
        }
    }
    let sync = flag(sc, "sync");
    if flag(sc, "crash") || disk.is_dead() {
        let mut im = Image::from_json(&sc["image"]);
        if !im.trunc && disk.bytes("f").as_deref() != Some(&full_new[..]) {
            // part of the new text over the old one in place: outside (see the assumptions)
            im.keep = 0;
        }
        disk.crash(&im);
    }
    disk.plan(&json!([]));
    disk_faults(&disk, c);
    let b = disk.bytes("f").unwrap_or_default();
    let place = if b == full_new {
        c.probe("complete new text");
        64
    } else if b == full_old {
        c.probe("complete old text");
        65
    } else {
        c.nontrivial = true;
        let same = b.iter().zip(&full_new).take_while(|(a, b)| a == b).count();
        if b.len() < full_new.len() {
            c.probe("proper prefix or shorter");
        }
        if b.len() > full_new.len() {
            c.probe("longer than the new text");
        }
        if b.starts_with(&full_new) {
            c.probe("new text and the rest of the old one");
        }
        if full_new.len() - same.min(full_new.len()) < 32 {
            c.probe("torn within the last 32 bytes");
        }
        same as u64 * 63 / full_new.len().max(1) as u64
    };
    let same = b.iter().zip(&full_new).take_while(|(a, b)| a == b).count();
    let got = load(&b);
    c.ev(&format!("{form} {place} {} bytes: {}", b.len(), got.as_ref().map(|_| "accepted").unwrap_or("rejected")));
    let sh = match &got {
        Ok(_) => 0,
        Err(m) => crate::p_load::shape(m),
    };
    c.state(hash_bytes(format!("{form} {place} {} {sh}", sc["image"]["grow"]).as_bytes()));
    match got {
        Err(m) => {
            if acked && sync && w_new.is_some() {
                return viol("acknowledged save lost", format!("an acknowledged and synced save does not load: {}", cut(&m)));
            }
        }
        Ok(d) => {
            let e = el(&d);
            let is_new = w_new.as_ref().is_some_and(|w| *w == e);
            let is_old = w_old.as_ref().is_some_and(|w| *w == e);
            let whole = |w: &[u8]| b.trim_ascii() == w.trim_ascii();
            if !whole(&full_new) && !whole(&full_old) {
                return viol(
                    "remnant accepted",
                    format!("the load accepts {} bytes that are neither text in full; the first {same} are the new text's start", b.len()),
                );
            }
            if !is_new && (acked && sync || !is_old) {
                let near = w_new.as_ref().and_then(|w| diff(w, &e)).unwrap_or_default();
                return viol(
                    "third description",
                    format!("after an interrupted save the load accepts {} bytes of which {} are the new text's start; against the new one: {}", b.len(), place, cut(&near)),
                );
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

pub static C03: Prop = Prop {
    id: "C03",
    gen: gen_c03,
    run: run_c03,
    chunk: 100,
    rule: "a run takes a generated description that satisfies a validation level through 1 to 4 cycles of save with an encoder configuration over a disk with short and interrupted writes, acknowledgement, crash with loss of everything volatile, restart, load by the real reader and by the independent reader, comparison with what was saved and with the order asked for; non-trivial: at least one complete cycle with at least one option away from its default or one fault",
    measure: "distinct (options of the last cycle, kinds and presence of values in the description)",
    real: "svd-encoder, svd-parser, svd-rs, xmltree, roxmltree",
    stub: "disk, hash keys, clock; the independent reader shares roxmltree with the real one",
    assumptions: &[
        "texts have no leading or trailing white space and no characters XML cannot carry",
        "identifier case options are not used (C13)",
    ],
};
fn gen_c03(r: &mut Rng, t: &Tier) -> Value {
    let big = r.pct(if t.thorough { 30 } else { 10 });
    let mut g = gen_some(r, big);
    if r.pct(20) {
        g.any_graph = true;
    }
    let d = gen::device_large(r, &g);
    let n = *r.pick(&[1u64, 1, 2, 3, 4]);
    let mut steps = vec![];
    for _ in 0..n {
        steps.push(json!({"ecfg": enc::gen(r), "io": gen_faults(r, 0, 20), "chunk": *r.pick(&[0u64, 7, 512]), "crash": r.pct(70),
            "image": Image::gen(r).to_json(), "level": r.range(0, g.level as u64)}));
    }
    json!({"doc": d.to_json(), "steps": steps})
}
/// Kinds and values present, for counting distinct descriptions.
pub fn profile(e: &El) -> u64 {
    let mut h = 0u64;
    for x in e.all() {
        let mut k = format!("{:?}", x.k);
        for n in x.f.keys() {
            k.push_str(n);
        }
        h ^= crate::rng::mix(hash_bytes(k.as_bytes()));
    }
    h
}
fn run_c03(sc: &Value, c: &mut Ctx) -> Res {
    let start = doc(sc, "doc")?;
    let mut dev = device(&start)?;
    let mut cur = el(&dev);
    if let Some(m) = diff(&start, &cur) {
        return viol("build differs", m);
    }
    let top = Lv::from(arr(sc, "steps").iter().map(|s| num(s, "level")).max().unwrap_or(0));
    if !sys::quiet(|| refval::all(&start, top)) {
        c.hit("not valid at the level asked for");
        return Ok(());
    }
    let disk = Disk::new();
    for (i, s) in arr(sc, "steps").iter().enumerate() {
        let ec = enc::config(&s["ecfg"]);
        match cycle(i, s, &ec, dev, cur, &disk, c)? {
            Some((d, e)) => (dev, cur) = (d, e),
            None => break,
        }
    }
    disk_faults(&disk, c);
    Ok(())
}
/// One cycle of save, perhaps crash, load and comparison. None: it was not acknowledged.
fn cycle(i: usize, s: &Value, ec: &svd_encoder::Config, dev: Device, cur: El, disk: &Disk, c: &mut Ctx) -> Result<Option<(Device, El)>, Viol> {
    let v = &s["ecfg"];
    let Some(saved) = sys::quiet(|| enc::recase(&cur, v)) else {
        c.probe("left out");
        return Ok(None);
    };
    disk.plan(&s["io"]);
    let x = match svd_encoder::encode_with_config(&dev, ec) {
        Ok(x) => x,
        Err(e) => return viol("save fails", e.to_string()),
    };
    c.ev(&format!("cycle {i}: {} bytes, digest {:x}", x.len(), hash_bytes(x.as_bytes())));
    if save_text(disk, &x, num(s, "chunk") as usize, true).is_err() {
        // not acknowledged
        return Ok(None);
    }
    if flag(s, "crash") {
        disk.crash(&Image::from_json(&s["image"]));
        c.hit("crash after acknowledgement");
    }
    disk.plan(&json!([]));
    let b = disk.read_all("f").unwrap_or_default();
    let Ok(b) = String::from_utf8(b) else { return viol("not text", "the saved bytes are not text") };
    let lv = Lv::from(num(s, "level"));
    let cf = svd_parser::Config::default().validate_level(lv.real());
    let back = match svd_parser::parse_with_config(&b, &cf) {
        Ok(d) => d,
        Err(e) => return viol("saved text does not load", cut(&format!("{e:#}"))),
    };
    let got = el(&back);
    // the independent reader
    let p = sys::quiet(|| refparse::parse(&b, &refparse::Opt { level: Lv::Off, ignore_enums: false }));
    let Some(theirs) = p.dev.filter(|_| p.errs.is_empty()) else { return viol("independent reader rejects", format!("{:?}", p.errs.first())) };
    if enc::both(v) {
        // the order among rewritten names is not judged
        if let Some(m) = diff(&theirs, &got) {
            return viol("independent reader differs", cut(&m));
        }
    } else {
        let want = match sys::quiet(|| enc::expected(&saved, &got, v)) {
            Ok(w) => w,
            Err(m) => return viol("order", format!("after sorting: {m} ({v})")),
        };
        if let Some(m) = diff(&want, &got) {
            return viol("reload differs", cut(&m));
        }
        if let Some(m) = diff(&want, &theirs) {
            return viol("independent reader differs", cut(&m));
        }
    }
    if let Some(m) = sys::quiet(|| notation(&b, v)) {
        return viol("notation", m);
    }
    c.nontrivial = true;
    c.state(hash_bytes(v.to_string().as_bytes()) ^ profile(&got));
    Ok(Some((back, got)))
}

/// A number that is not in the notation asked for.
fn notation(text: &str, v: &Value) -> Option<String> {
    let d = roxmltree::Document::parse(text).ok()?;
    for n in d.descendants().filter(|n| n.is_element()) {
        let p = n.parent_element().map(|p| p.tag_name().name()).unwrap_or("");
        let i = match (p, n.tag_name().name()) {
            ("peripheral", "baseAddress") => 0,
            ("addressBlock", "offset") => 1,
            ("addressBlock", "size") => 2,
            ("cluster", "addressOffset") => 3,
            ("register", "addressOffset") => 4,
            ("register", "size") => 5,
            ("register", "resetValue") => 6,
            ("register", "resetMask") => 7,
            ("enumeratedValue", "value") => 8,
            ("register" | "field" | "cluster" | "peripheral", "dim") => 9,
            ("register" | "field" | "cluster" | "peripheral", "dimIncrement") => 10,
            _ => continue,
        };
        let Some(f) = enc::nf(v, i) else { continue };
        let t = n.text().unwrap_or("");
        let Some(x) = refparse::number(t, u64::MAX) else { return Some(format!("{t} is no number")) };
        let wide = x > u32::MAX as u64;
        let want = match f {
            0 => format!("0x{x:X}"),
            1 => format!("0x{x:08X}"),
            2 if wide => format!("0x{x:016X}"),
            2 => format!("0x{x:08X}"),
            3 => format!("0x{x:x}"),
            4 => format!("0x{x:08x}"),
            5 if wide => format!("0x{x:016x}"),
            5 => format!("0x{x:08x}"),
            6 => format!("{x}"),
            _ => format!("0b{x:b}"),
        };
        if t != want {
            return Some(format!("{p}/{} is written {t}, not {want}", n.tag_name().name()));
        }
    }
    None
}

// ---------------------------------------------------------------- C04

pub static C04: Prop = Prop {
    id: "C04",
    gen: gen_c04,
    run: run_c04,
    chunk: 100,
    rule: "a run exports a generated description as JSON or YAML through a writer with short, interrupted and failing writes, crashes or not, imports it through a reader with the same kinds of faults, and compares, 1 to 3 times over, the forms mixed and with XML saves in between; non-trivial: an export was acknowledged and imported or an injected failure ended it",
    measure: "distinct (form, outcome, kinds and presence of values in the description)",
    real: "svd-rs serde implementations, serde_json, serde_yaml; svd-encoder and svd-parser for the XML steps",
    stub: "disk, hash keys, clock",
    assumptions: &["the XML schema attributes are not part of the data form"],
};
fn gen_c04(r: &mut Rng, t: &Tier) -> Value {
    let big = r.pct(if t.thorough { 30 } else { 10 });
    let mut g = gen_some(r, big);
    if r.pct(20) {
        g.any_graph = true;
    }
    g.arrays = *r.pick(&[20, 50, 80]);
    let d = gen::device_large(r, &g);
    let n = *r.pick(&[1u64, 1, 2, 3]);
    let mut steps = vec![];
    for _ in 0..n {
        steps.push(json!({"form": *r.pick(&["json", "json", "pretty", "yaml", "yaml", "value", "xml"]),
            "out": gen_faults(r, 10, 40), "in": gen_faults(r, 10, 40), "chunk": *r.pick(&[1u64, 16, 200, 8192]), "crash": r.pct(40)}));
    }
    json!({"doc": d.to_json(), "steps": steps, "sparse": r.pct(30), "seed": r.below(1 << 40)})
}
pub fn no_schema(e: &El) -> El {
    let mut x = e.clone();
    for n in ["@loc", "@xs", "@schemaVersion"] {
        x.f.remove(n);
    }
    x
}
fn run_c04(sc: &Value, c: &mut Ctx) -> Res {
    let start = doc(sc, "doc")?;
    let mut dev = device(&start)?;
    let want = no_schema(&el(&dev));
    // texts that serde_yaml does not give back even on their own (0b1) are its affair
    let yaml_ok = sys::quiet(|| {
        want.all().iter().flat_map(|e| e.f.values()).all(|v| {
            let own = |s: &String| serde_yaml::to_string(s).ok().and_then(|y| serde_yaml::from_str::<serde_yaml::Value>(&y).ok()).as_ref().and_then(|v| v.as_str()) == Some(s.as_str());
            match v {
                V::S(s) => own(s),
                V::L(l) => l.iter().all(own),
                _ => true,
            }
        })
    });
    let disk = Disk::new();
    for s in arr(sc, "steps") {
        let form = match text(&s, "form") {
            "yaml" if !yaml_ok => "json",
            f => f,
        };
        disk.plan(&s["out"]);
        let cap = num(&s, "chunk").clamp(1, 65536) as usize;
        let out = (|| -> Result<(), String> {
            let h = disk.create("f").map_err(|e| e.to_string())?;
            let mut w = std::io::BufWriter::with_capacity(cap, h);
            let r = match form {
                "json" => serde_json::to_writer(&mut w, &dev).map_err(|e| e.to_string()),
                "pretty" => serde_json::to_writer_pretty(&mut w, &dev).map_err(|e| e.to_string()),
                "yaml" => serde_yaml::to_writer(&mut w, &dev).map_err(|e| e.to_string()),
                "value" => serde_json::to_value(&dev)
                    .map_err(|e| e.to_string())
                    .and_then(|v| serde_json::to_writer(&mut w, &v).map_err(|e| e.to_string())),
                _ => svd_encoder::encode(&dev)
                    .map_err(|e| e.to_string())
                    .and_then(|x| w.write_all(x.as_bytes()).map_err(|e| e.to_string())),
            };
            let f = w.flush().map_err(|e| e.to_string());
            let _ = w.into_parts();
            r.and(f)?;
            disk.sync("f").map_err(|e| e.to_string())
        })();
        let hard = fatal(&s["out"], disk.ops());
        c.ev(&format!("{form} out {out:?} after {} operations", disk.ops()));
        if let Err(m) = out {
            disk_faults(&disk, c);
            c.nontrivial = true;
            if !hard {
                return viol("export fails", cut(&m));
            }
            return Ok(());
        }
        if flag(&s, "crash") {
            disk.crash(&Image::from_json(&json!({"trunc": true, "keep": 0})));
        }
        disk.plan(&s["in"]);
        let back: Result<Device, String> = match form {
            "json" | "pretty" => disk
                .open("f")
                .map_err(|e| e.to_string())
                .and_then(|h| serde_json::from_reader(std::io::BufReader::with_capacity(cap, h)).map_err(|e| e.to_string())),
            "value" => disk
                .open("f")
                .map_err(|e| e.to_string())
                .and_then(|h| serde_json::from_reader::<_, Value>(std::io::BufReader::with_capacity(cap, h)).map_err(|e| e.to_string()))
                .and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string())),
            "yaml" => disk
                .open("f")
                .map_err(|e| e.to_string())
                .and_then(|h| serde_yaml::from_reader(std::io::BufReader::with_capacity(cap, h)).map_err(|e| e.to_string())),
            _ => disk
                .read_all("f")
                .map_err(|e| e.to_string())
                .and_then(|b| String::from_utf8(b).map_err(|e| e.to_string()))
                .and_then(|t| {
                    svd_parser::parse_with_config(&t, &svd_parser::Config::default().validate_level(Lv::Off.real())).map_err(|e| format!("{e:#}"))
                }),
        };
        let hard = fatal(&s["in"], disk.ops());
        c.ev(&format!("{form} in {} after {} operations", back.is_ok(), disk.ops()));
        c.nontrivial = true;
        c.state(hash_bytes(format!("{form} {}", back.is_ok()).as_bytes()) ^ profile(&want));
        match back {
            Err(m) => {
                disk_faults(&disk, c);
                if !hard {
                    return viol("import fails", format!("{form}: {}", cut(&m)));
                }
                return Ok(());
            }
            Ok(d) => {
                let got = no_schema(&el(&d));
                if let Some(m) = diff(&want, &got) {
                    return viol("import differs", format!("{form}: {}", cut(&m)));
                }
                dev = d;
            }
        }
    }
    disk_faults(&disk, c);
    Ok(())
}
/// Did the plan hold a failure for good among the operations made?
fn fatal(plan: &Value, ops: u64) -> bool {
    plan.as_array().into_iter().flatten().any(|f| {
        !matches!(f["k"].as_str(), Some("short" | "eintr")) && f["at"].as_u64().is_some_and(|a| a < ops)
    })
}

// ---------------------------------------------------------------- C13, C16

pub static C13: Prop = Prop {
    id: "C13",
    gen: gen_c13,
    run: run_c13,
    chunk: 100,
    rule: "a run takes a generated description with references, also qualified ones, and arrays through 1 to 4 cycles of save with identifier formats over a disk with short and interrupted writes, acknowledgement, crash, restart and load, and compares everything read back, by the real and by the independent reader, with the description in which exactly the identifiers named by the options, and the references to them, are rewritten by an independent rewriting; non-trivial: at least one complete cycle with a format",
    measure: "distinct (formats of the last cycle, kinds and presence of values in the description)",
    real: "svd-encoder, convert_case, svd-parser, svd-rs, xmltree, roxmltree",
    stub: "disk, hash keys, clock; the independent reader shares roxmltree with the real one",
    assumptions: &["names are ASCII and not made of separators alone", "ordering options are not used at the same time (C03)"],
};
const WORDS: &[&str] = &[
    "Timer", "TIM1", "timer_control", "aCamelCase", "APascalCase", "USBPhy", "GPIOx", "CR1_IN", "x", "X", "A_b", "ADC-IN", "a__b", "Ch", "read data",
    "DMA2D", "I2Cx_SR", "_lead", "trail_", "ABc", "AbC", "a1B", "A1b", "TIM%s", "Ch[%s]", "reg%s_x", "a%sB", "%s_in", "In%s", "S%s", "_%s", "x%S", "UART_%sRX",
];
/// Gives some elements names of many shapes; references follow.
fn rename(d: &mut El, r: &mut Rng) {
    let n = r.range(1, 8);
    for _ in 0..n {
        let w = *r.pick(WORDS);
        let named: Vec<gen::Addr> = gen::addrs(d)
            .into_iter()
            .filter(|a| {
                let e = gen::at(d, a);
                e.f.contains_key("name") && !matches!(e.k, K::Device | K::Cpu) && (!w.contains("%s") || e.is_array()) && (!e.is_array() || w.contains("%s"))
            })
            .collect();
        if named.is_empty() {
            continue;
        }
        let a = r.pick(&named).clone();
        let e = gen::at_mut(d, &a);
        let old = e.name().to_string();
        let k = e.k;
        e.set_s("name", w);
        // references that name it, whole or as a part
        d.walk_mut(&mut |x| {
            if let Some(s) = x.s("@derivedFrom") {
                let t: Vec<&str> = s.split('.').map(|p| if p == old { w } else { p }).collect();
                x.set_s("@derivedFrom", t.join("."));
            }
            for f in ["alternatePeripheral", "alternateCluster", "alternateRegister", "headerStructName", "prependToName", "appendToName", "headerEnumName"] {
                if x.k == k && x.f.contains_key(f) && x.name().len() % 2 == 0 {
                    x.set_s(crate::model::intern(f).unwrap(), w);
                }
            }
        });
    }
}
fn gen_c13(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 30 } else { 10 }));
    g.level = 0;
    g.any_graph = r.pct(40);
    g.refs = *r.pick(&[30, 60, 80]);
    g.arrays = *r.pick(&[20, 50, 80]);
    let mut d = gen::device(r, &g);
    rename(&mut d, r);
    let mut case = enc::gen_case(r);
    let mut steps = vec![];
    for _ in 0..*r.pick(&[1u64, 1, 2, 3, 4]) {
        if r.pct(50) {
            case = enc::gen_case(r);
        }
        steps.push(json!({"ecfg": {"case": case}, "io": gen_faults(r, 0, 20), "chunk": *r.pick(&[0u64, 7, 512]), "crash": r.pct(70),
            "image": Image::gen(r).to_json(), "level": 0}));
    }
    json!({"doc": d.to_json(), "steps": steps})
}
fn run_c13(sc: &Value, c: &mut Ctx) -> Res {
    let start = doc(sc, "doc")?;
    let mut dev = device(&start)?;
    let mut cur = el(&dev);
    let disk = Disk::new();
    for (i, s) in arr(sc, "steps").iter().enumerate() {
        let ec = enc::config(&s["ecfg"]);
        match cycle(i, s, &ec, dev, cur, &disk, c)? {
            Some((d, e)) => (dev, cur) = (d, e),
            None => break,
        }
    }
    disk_faults(&disk, c);
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    gen: gen_c16,
    run: run_c16,
    chunk: 100,
    rule: "a run keeps encoder options in a settings file of names and values that grows over 1 to 4 cycles through interrupted and short writes, crashes and restarts; after every restart the program sets the options by name in the order of the file, unknown names among them, and saves; the text is compared with the one saved under the same options set directly, and what is read back with what the options promise; non-trivial: at least one complete cycle",
    measure: "distinct (options of the last cycle, kinds and presence of values in the description)",
    real: "svd-encoder, svd-parser, svd-rs, xmltree, roxmltree",
    stub: "disk, hash keys, clock, the settings file's format",
    assumptions: &["values that do not exist are not given: setting one is documented to panic"],
};
fn gen_c16(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, r.clone().pct(if t.thorough { 30 } else { 10 }));
    g.any_graph = r.pct(20);
    let mut d = gen::device(r, &g);
    if r.pct(50) {
        g.level = 0;
        d = gen::device(r, &g);
        rename(&mut d, r);
    }
    let mut steps = vec![];
    for _ in 0..*r.pick(&[1u64, 1, 2, 3, 4]) {
        let mut e = enc::gen(r);
        if r.pct(40) {
            e["case"] = enc::gen_case(r);
            if r.pct(60) {
                for k in ["ps", "rs", "fs"] {
                    e[k] = json!([0, 0]);
                }
                e["rf"] = json!(0);
            }
        }
        e["swap"] = json!(r.pct(50));
        steps.push(json!({"ecfg": e, "io": gen_faults(r, 0, 20), "chunk": *r.pick(&[0u64, 7, 512]), "crash": r.pct(70),
            "image": Image::gen(r).to_json(), "level": r.range(0, g.level as u64), "order": r.below(1 << 20), "unknown": r.pct(20)}));
    }
    json!({"doc": d.to_json(), "steps": steps})
}
fn run_c16(sc: &Value, c: &mut Ctx) -> Res {
    let start = doc(sc, "doc")?;
    let mut dev = device(&start)?;
    let mut cur = el(&dev);
    let top = Lv::from(arr(sc, "steps").iter().map(|s| num(s, "level")).max().unwrap_or(0));
    let disk = Disk::new();
    let mut file = String::new();
    // what the file says, the last value of a name counting
    let mut eff = json!({});
    for (i, s) in arr(sc, "steps").iter().enumerate() {
        let v = &s["ecfg"];
        let mut l = sys::quiet(|| enc::settings(v));
        let mut r = Rng::new(num(s, "order"));
        r.shuffle(&mut l);
        if flag(s, "unknown") {
            l.insert(l.len() / 2, ("peripheral_colour".into(), "Snake".into()));
        }
        for (k, x) in &l {
            file.push_str(&format!("{k}={x}\n"));
        }
        sys::quiet(|| enc::overlay(&mut eff, v));
        disk.plan(&s["io"]);
        let at = disk.create("settings").and_then(|mut h| h.write_all(file.as_bytes())).and_then(|_| disk.sync("settings"));
        if at.is_err() {
            break;
        }
        disk.crash(&Image::from_json(&s["image"]));
        disk.plan(&json!([]));
        let t = String::from_utf8(disk.read_all("settings").unwrap_or_default()).unwrap_or_default();
        if t != file {
            return viol("harness", "the settings were lost");
        }
        let mut named = svd_encoder::Config::default();
        for l in t.lines() {
            if let Some((k, x)) = l.split_once('=') {
                named.update(k, x);
            }
        }
        let direct = enc::config(&eff);
        let (a, b) = (svd_encoder::encode_with_config(&dev, &direct), svd_encoder::encode_with_config(&dev, &named));
        let (Ok(a), Ok(b)) = (a, b) else { return viol("save fails", "") };
        if a != b {
            let at = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| format!("{} and {}", x.trim(), y.trim())).unwrap_or_default();
            return viol("set by name differs from set directly", cut(&at));
        }
        if !sys::quiet(|| refval::all(&cur, top)) {
            c.hit("not valid at the level asked for");
            return Ok(());
        }
        let mut s2 = s.clone();
        s2["ecfg"] = eff.clone();
        match cycle(i, &s2, &named, dev, cur, &disk, c)? {
            Some((d, e)) => (dev, cur) = (d, e),
            None => break,
        }
    }
    disk_faults(&disk, c);
    Ok(())
}
