//! What the properties' workloads share.

use crate::damage;
use crate::disk::Disk;
use crate::gen::Gen;
use crate::model::*;
use crate::refval::Lv;
use crate::rng::Rng;
use crate::scen::*;
use crate::sys;
use crate::xmlw::{self, Style};
use serde_json::{json, Value};
use svd_rs::Device;

pub fn doc(v: &Value, k: &str) -> Result<El, Viol> {
    match v.get(k).and_then(El::from_json) {
        Some(e) => Ok(e),
        None => viol("bad scenario", "no description"),
    }
}
pub fn style(v: &Value, k: &str) -> Style {
    v.get(k).and_then(Style::from_json).unwrap_or_else(Style::plain)
}
pub fn arr(v: &Value, k: &str) -> Vec<Value> {
    v.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default()
}
pub fn flag(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
pub fn num(v: &Value, k: &str) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(0)
}
pub fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

pub fn gen_cfg(r: &mut Rng) -> Value {
    json!({"level": r.below(3), "expand": r.pct(40), "props": r.pct(40), "ienums": r.pct(20)})
}
pub fn cfg(v: &Value) -> svd_parser::Config {
    svd_parser::Config::default()
        .validate_level(Lv::from(num(v, "level")).real())
        .expand(flag(v, "expand"))
        .expand_properties(flag(v, "props"))
        .ignore_enums(flag(v, "ienums"))
}
pub fn level(r: &mut Rng) -> u8 {
    *r.pick(&[2, 2, 2, 1, 1, 0])
}
/// A varied generator configuration.
pub fn gen_some(r: &mut Rng, big: bool) -> Gen {
    let mut g = Gen::small(r);
    g.level = level(r);
    if big {
        g.peripherals = r.range(1, 5);
        g.regs = r.range(1, 6);
    }
    g
}

/// Applies the faults of a scenario to stored bytes.
pub fn hurt(b: &mut Vec<u8>, faults: &[Value], old: &[u8], c: &mut Ctx) -> usize {
    let mut n = 0;
    for f in faults {
        if let Some(k) = damage::apply(b, f, old) {
            c.fault(k);
            n += 1;
        }
    }
    n
}
pub fn disk_faults(d: &Disk, c: &mut Ctx) {
    for (k, n) in d.fired() {
        c.add(&format!("fault: {k}"), n);
    }
}

/// Bytes that loading or expanding may allocate in all for so much text and so many
/// declared elements.
pub fn allowance(text: usize, elements: u64, own: usize) -> u64 {
    (64 << 20) + text as u64 * 4000 + elements * (own as u64 * 64 + 4096)
}

pub fn write(e: &El, s: &Style) -> String {
    sys::quiet(|| xmlw::write(e, s))
}
pub fn el(d: &Device) -> El {
    sys::quiet(|| crate::conv::el_device(d))
}
pub fn diff(a: &El, b: &El) -> Option<String> {
    sys::quiet(|| crate::model::diff(&a.canon(), &b.canon()))
}
pub fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
