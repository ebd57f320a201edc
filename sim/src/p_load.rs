//! C01: loading damaged descriptions ends in a result or an error.

use crate::damage;
use crate::disk::{gen_faults, Disk};
use crate::gen;
use crate::refexp;
use crate::refparse;
use crate::refval::{Lv, LEVELS};
use crate::rng::{hash_bytes, Rng};
use crate::scen::*;
use crate::ses::*;
use crate::sys;
use crate::xmlw::Style;
use serde_json::{json, Value};
use svd_rs::Device;

pub static C01: Prop = Prop {
    id: "C01",
    gen: generate,
    run,
    chunk: 100,
    rule: "a run stores a generated description (XML or JSON), applies a sequence of damages to the stored bytes (truncation, flipped/overwritten bytes, zeroed and stale sectors, lost/duplicated/moved pieces, replaced values), loads it through a faulty reader under one load configuration, and then validates, resolves and saves what was accepted; non-trivial: at least one damage changed the bytes and loading got as far as well-formed markup or data",
    measure: "distinct (outcome message shape, load configuration, form)",
    real: "svd-parser, svd-rs (XML and JSON readers, builders, validation, expansion, comparison), svd-encoder, roxmltree, serde_json",
    stub: "disk, hash keys, clock, memory accounting",
    assumptions: &["damage is limited to the listed kinds, up to 6 per run", "elements are nested up to about 30 deep; nesting of a thousand and more is the known finding"],
};

fn generate(r: &mut Rng, _t: &Tier) -> Value {
    let mut g = gen_some(r, false);
    g.any_graph = r.pct(20);
    g.edge = *r.pick(&[0, 10, 40]);
    let d = gen::device(r, &g);
    let form = *r.pick(&["xml", "xml", "xml", "json", "json"]);
    let n = *r.pick(&[1u64, 1, 2, 3, 6]);
    let mix = r.below(4);
    let mut f = vec![];
    for _ in 0..n {
        let structured = mix != 0 && (mix == 1 || r.pct(70));
        f.push(match (structured, form) {
            (true, "xml") => damage::gen_xml(r),
            (true, _) => damage::gen_data(r),
            _ => damage::gen_bytes(r),
        });
    }
    json!({"doc": d.to_json(), "style": Style::gen(r).to_json(), "ostyle": Style::gen(r).to_json(),
        "form": form, "faults": f, "cfg": gen_cfg(r), "io": gen_faults(r, 5, 12)})
}

/// Shape of a message: letters only, so that numbers and names do not count as new states.
pub fn shape(s: &str) -> u64 {
    let t: String = s.split('`').step_by(2).collect::<Vec<_>>().join("`");
    hash_bytes(t.chars().filter(|c| !c.is_ascii_digit()).take(120).collect::<String>().as_bytes())
}

fn run(sc: &Value, c: &mut Ctx) -> Res {
    let d = doc(sc, "doc")?;
    let form = text(sc, "form");
    let (mut bytes, old) = sys::quiet(|| {
        let x = write(&d, &style(sc, "style"));
        let y = write(&d, &style(sc, "ostyle"));
        (x.into_bytes(), y.into_bytes())
    });
    let cf = cfg(&sc["cfg"]);
    if form != "xml" {
        // the data forms are exported by the real code
        let Ok(dev) = crate::conv::build_device(&d, svd_rs::ValidateLevel::Disabled) else {
            return Ok(());
        };
        bytes = serde_json::to_vec(&dev).unwrap_or_default();
    }
    // a history on record: elements nested far deeper than the generator makes them
    let deep = num(sc, "deep") as usize;
    if deep > 0 {
        let open = "<cluster><name>c</name><addressOffset>0</addressOffset>".repeat(deep);
        let shut = "</cluster>".repeat(deep);
        bytes = format!("<device><name>d</name><peripherals><peripheral><name>p</name><baseAddress>0</baseAddress><registers>{open}<register><name>r</name><addressOffset>0</addressOffset></register>{shut}</registers></peripheral></peripherals></device>").into_bytes();
    }
    let faults = arr(sc, "faults");
    let disk = Disk::new();
    let n = hurt(&mut bytes, &faults, &old, c);
    disk.set("f", bytes.clone());
    disk.plan(&sc["io"]);
    c.ev(&format!("{form} {} bytes", bytes.len()));
    let len = bytes.len();
    let want = sys::quiet(|| {
        std::str::from_utf8(&bytes).ok().filter(|_| form == "xml").map(|s| {
            refparse::parse(s, &refparse::Opt { level: Lv::Off, ignore_enums: flag(&sc["cfg"], "ienums") })
        })
    });
    let declared = want.as_ref().map(|w| w.declared).unwrap_or(0);
    let mut cf = cf;
    let own = want.as_ref().and_then(|w| w.dev.as_ref()).map(|e| e.count()).unwrap_or(1);
    let mut expanding = flag(&sc["cfg"], "expand");
    if expanding {
        if let Some(e) = want.as_ref().and_then(|w| w.dev.as_ref()) {
            if sys::quiet(|| refexp::size_of(e, 30_000)).is_none() {
                expanding = false;
                cf = cf.expand(false);
                c.probe("too large to expand");
            }
        }
    }
    sys::set_limit(allowance(len, if expanding { 30_000 } else { declared.min(1 << 20) }, if expanding { 16 } else { own.min(1000) }));
    let r: Result<Device, String> = match form {
        "xml" => {
            let b = match disk.read_all("f") {
                Ok(b) => b,
                Err(_) => {
                    disk_faults(&disk, c);
                    return Ok(());
                }
            };
            match String::from_utf8(b) {
                Err(_) => Err("not text".to_string()),
                Ok(s) => svd_parser::parse_with_config(&s, &cf).map_err(|e| format!("{e:#}")),
            }
        }
        _ => match disk.open("f") {
            Ok(h) => serde_json::from_reader(std::io::BufReader::new(h)).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
    };
    disk_faults(&disk, c);
    sys::set_limit(2 << 30);
    match r {
        Err(m) => {
            c.ev(&format!("error {m}"));
            c.hit("rejected");
            c.state(shape(&m) ^ hash_bytes(sc["cfg"].to_string().as_bytes()));
            if n > 0 && m != "not text" {
                c.nontrivial = true;
            }
        }
        Ok(dev) => {
            c.hit("accepted");
            if n > 0 {
                c.nontrivial = true;
                c.probe("damaged but accepted");
            }
            let e = el(&dev);
            c.state(hash_bytes(format!("{} {} {form}", sc["cfg"], e.count().ilog2()).as_bytes()));
            for l in LEVELS {
                let v = dev.validate_all(l.real());
                c.ev(&format!("{l:?} {:?}", v.as_ref().map_err(|e| e.to_string())));
            }
            if dev.clone() != dev {
                return viol("not equal to itself", "an accepted description is not equal to its clone");
            }
            // what follows a load: resolve, save, export
            if sys::quiet(|| refexp::size_of(&e, 30_000)).is_some() {
                sys::set_limit(allowance(len, 30_000, 16));
                match svd_parser::expand(&dev) {
                    Ok(x) => {
                        c.probe("expanded after damage");
                        c.ev(&format!("expanded {}", x.peripherals.len()));
                    }
                    Err(m) => c.ev(&format!("no expansion {m:#}")),
                }
            }
            let mut dd = dev.clone();
            svd_parser::expand_properties(&mut dd);
        }
    }
    Ok(())
}
