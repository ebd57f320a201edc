//! Damage to stored text: what a failing medium, a bad transfer, a half-done repair or a
//! slip of the hand leaves behind.

use crate::rng::Rng;
use serde_json::{json, Value};

const TOKENS: &[&str] = &[
    "0", "1", "2", "8", "31", "63", "64", "65", "-1", "+5", "4294967295", "4294967296", "4294967294", "2147483648",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "0xFFFFFFFF", "0xffffffffffffffff",
    "0x1_0", "0x", "0X1F", "0xG", "#", "#1x", "#01", "#1010", "0b", "0b101", "0b2", "0B11", "1e3", "1.5", "", " ", "\n",
    "true", "false", "True", "TRUE", "yes", "[31:0]", "[7:4]", "[4294967295:0]", "[0:31]", "[:]", "[5]", "[", "]",
    "[31:0", "31:0]", "[a:b]", "[64:0]", "[4294967295:4294967295]", "[ 7 : 4 ]", "0-4294967295", "0-3", "1-2", "3-1",
    "A-Z", "a-c", "Z-A", "A-z", "0,1,2", "0,1", ",", "0,,1", "A,B,C,D", "1-", "-", "-3", "0-1,2", "%s", "[%s]", "a%s",
    "%s[%s]", "a[%s]", "a.b", "a.b.c", "a.b.c.d", "a.b.c.d.e", ".", "..", "read-only", "read-write", "write-only",
    "read-writeOnce", "read", "write", "s", "n", "p", "S", "little", "clear", "set", "modify", "oneToClear", "uint8_t",
    "uint64_t *", "registers", "reserved", "x y", "9x", "a-b", "\u{e9}", "R0b", "A", "B", "CR", "SR", "a", "x_", "EN",
];
const TAGS: &[&str] = &[
    "name", "value", "dim", "dimIncrement", "dimIndex", "dimName", "dimArrayIndex", "register", "registers", "cluster",
    "field", "fields", "peripheral", "peripherals", "enumeratedValues", "enumeratedValue", "bitRange", "bitOffset",
    "bitWidth", "lsb", "msb", "addressOffset", "baseAddress", "size", "access", "resetValue", "resetMask",
    "writeConstraint", "range", "minimum", "maximum", "writeAsRead", "useEnumeratedValues", "isDefault", "description",
    "interrupt", "addressBlock", "offset", "usage", "cpu", "device", "width", "protection", "readAction", "dataType",
    "modifiedWriteValues", "displayName", "alternateRegister", "vendorExtensions", "unknownTag", "derivedFrom",
];
/// What slips into a value: at its start, at its end, or inside.
const BITS: &[&str] = &[
    "0", "1", "9", "0x", "0X", "0b", "#", "x", "X", "[", "]", ":", "-", "+", "_", ",", ".", " ", "\t", "\n", "%", "%s", "[%s]", "a", "F", "g",
    "Z", "\u{e9}", "\u{a0}", "\u{ff11}", "\u{661}", "\u{1f600}", "\u{130}", "\u{feff}", "\u{2003}", "'", "&", "/",
];
const ATTRS: &[&str] = &["derivedFrom", "schemaVersion", "name"];

pub fn gen_bytes(r: &mut Rng) -> Value {
    let at = r.below(1 << 20);
    match r.below(9) {
        0 => json!({"d":"trunc","at":at}),
        1 | 2 => json!({"d":"flip","at":at,"bit":r.below(8)}),
        3 => {
            let b = *r.pick(b"<>&/=\"' 0123456789-:[]%\0\xff\xc3\n.,x#");
            json!({"d":"set","at":at,"v":b})
        }
        4 => json!({"d":"zero","at":r.below(64)}),
        5 => json!({"d":"del","at":at,"n":r.range(1, *r.clone().pick(&[2, 16, 512]))}),
        6 => json!({"d":"dup","at":at,"n":r.range(1, *r.clone().pick(&[8, 64, 512])),"to":r.below(1<<20)}),
        7 => json!({"d":"stale","at":r.below(64),"n":r.range(1,3)}),
        _ => json!({"d":"ins","at":at,"t":r.pick(TOKENS)}),
    }
}
/// Damage that keeps markup balanced.
pub fn gen_xml(r: &mut Rng) -> Value {
    let i = r.below(1 << 20);
    let by = r.pct(60);
    let mut v = gen_xml_at(r, i);
    if by {
        v["by"] = json!(true);
    }
    v
}
fn gen_xml_at(r: &mut Rng, i: u64) -> Value {
    match r.below(28) {
        // before or after everything
        27 => {
            let t = match r.below(3) {
                0 => bit(r),
                1 => (*r.pick(&["\u{feff}", "\u{feff}\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ff1c}", "\u{f000}", "\u{ef}", "\u{ef}\u{bb}\u{bf}", "\0", "\u{1a}", "\u{85}", "<?xml version=\"1.0\"?>", "<!-- -->", "<a/>", "x", "&#32;"])).to_string(),
                _ => (*r.pick(&[" ", "\n", "\r\n", "\t", "\u{c}", "\u{2028}", "\u{200b}"])).to_string(),
            };
            json!({"d":"ends","t":t,"v":r.below(2)})
        }
        // values that are numbers, by other spellings of them
        23..=26 => {
            let t = match r.below(3) {
                0 => (*r.pick(&["u", "U", "l", "L", "ul", "h", "H", "k", "K", "b", "d", "x", "_", "f", "%", "p", "e0", ".0", "&#0;", "i32", "u64", "_u8"])).to_string(),
                1 => (r.range(33, 126) as u8 as char).to_string(),
                _ => bit(r),
            };
            json!({"d":"leaf-num","i":i,"n":r.below(16),"v":r.below(64),"t":t})
        }
        22 => {
            let (t, n) = index_range(r);
            json!({"d":"range","i":i,"t":t,"v":n})
        }
        16..=18 => json!({"d":"leaf-ins","i":i,"n":*r.clone().pick(&[0, 1 << 20, r.below(1<<10)]),"t":bit(r)}),
        19 => json!({"d":"leaf-chop","i":i,"n":*r.clone().pick(&[0, 1 << 20, r.below(1<<10)]),"v":r.range(1,3)}),
        20 => json!({"d":"leaf-rep","i":i,"n":*r.clone().pick(&[0, 0, r.below(1<<10)]),"v":r.range(1,4)}),
        21 => json!({"d":"leaf-case","i":i,"n":r.below(1<<10),"v":r.range(1,4)}),
        0 | 1 => json!({"d":"el-del","i":i}),
        2 => json!({"d":"el-empty","i":i}),
        3..=6 => json!({"d":"leaf-text","i":i,"t":r.pick(TOKENS)}),
        7 => json!({"d":"leaf-copy","i":i,"from":r.below(1<<20)}),
        8 => json!({"d":"el-dup","i":i}),
        9 => json!({"d":"el-move","i":i,"to":r.below(1<<20)}),
        10 => json!({"d":"el-copy","i":i,"to":r.below(1<<20)}),
        11 => json!({"d":"el-rename","i":i,"t":r.pick(TAGS)}),
        12 => json!({"d":"el-add","i":i,"t":r.pick(TAGS),"v":r.pick(TOKENS)}),
        13 => json!({"d":"attr-set","i":i,"a":r.pick(ATTRS),"t":r.pick(TOKENS)}),
        14 => json!({"d":"attr-del","i":i}),
        _ => json!({"d":"leaf-digit","i":i,"n":r.below(1<<10),"v":r.below(10)}),
    }
}
/// Damage to a data tree (JSON).
pub fn gen_data(r: &mut Rng) -> Value {
    let i = r.below(1 << 20);
    match r.below(8) {
        0 | 1 => json!({"d":"key-del","i":i}),
        2 | 3 => {
            let t = match r.below(4) {
                0 => json!(r.pick(&[0u64, 1, 64, 65, 255, 4294967295, 4294967296, u64::MAX, 2147483648])),
                1 => json!(r.pick(&[-1i64, i64::MIN, -2147483649])),
                2 => r.pick(&[json!(null), json!(true), json!([]), json!({}), json!(1.5), json!(1e300), json!([null]), json!(["0","1"])]).clone(),
                _ => json!(r.pick(TOKENS)),
            };
            json!({"d":"node-set","i":i,"t":t})
        }
        4 => json!({"d":"node-copy","i":i,"from":r.below(1<<20)}),
        5 => json!({"d":"key-rename","i":i,"t":r.pick(TAGS)}),
        6 => json!({"d":"key-add","i":i,"a":r.pick(TAGS),"t":r.pick(&[json!(0), json!("[7:0]"), json!("x"), json!(4294967295u64), json!(["0","1","2"]), json!(null), json!({})])}),
        _ => json!({"d":"arr-dup","i":i}),
    }
}

/// Text that may be a range of indexes, and the number of indexes it may stand for.
pub fn index_range(r: &mut Rng) -> (String, u64) {
    let most = if r.pct(10) { 40 } else { 6 };
    let n = r.range(1, most);
    let t = if r.pct(50) {
        let a = *r.pick(&[0u64, 0, 1, 1, 3, 9, 98, u32::MAX as u64 - 2]);
        let (a, b) = (a.to_string(), (a + n - 1).to_string());
        match r.below(14) {
            0 => format!("0{a}-{b}"),
            1 => format!("{a}-0{b}"),
            2 => format!("+{a}-{b}"),
            3 => format!("{a}-+{b}"),
            4 => format!("{a} - {b}"),
            5 => format!("{b}-{a}"),
            6 => format!("{a}-{b}-{b}"),
            7 => format!("-{b}"),
            8 => format!("{a}-"),
            9 => format!("{a}--{b}"),
            10 => format!("0x{a}-{b}"),
            11 => format!("{a}-{b},"),
            _ => format!("{a}-{b}"),
        }
    } else {
        let a = *r.pick(b"AABXYZZaabxyz@[`{/09:");
        let b = a.wrapping_add(n as u8 - 1).min(126);
        let (a, b) = (a as char, b as char);
        match r.below(12) {
            0 => format!("{a}{a}-{a}{b}"),
            1 => format!("{a} -{b}"),
            2 => format!("{a}- {b}"),
            3 => format!("{b}-{a}"),
            4 => format!("{a}-{}", b.to_ascii_lowercase()),
            5 => format!("{a}-{}", n - 1),
            6 => format!("0-{b}"),
            7 => format!("{a}-é"),
            _ => format!("{a}-{b}"),
        }
    };
    (t, if r.pct(10) { n + 1 } else { n })
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;")
}

/// Applies one piece of damage. `old` is what the medium held before. Returns the name of
/// the fault when it changed anything.
pub fn apply(b: &mut Vec<u8>, f: &Value, old: &[u8]) -> Option<&'static str> {
    let before = b.clone();
    let n = |k: &str| f.get(k).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    let t = || f.get("t").and_then(|x| x.as_str()).unwrap_or("").to_string();
    if b.is_empty() {
        return None;
    }
    let at = n("at") % b.len();
    let what = match f.get("d")?.as_str()? {
        "trunc" => {
            b.truncate(at);
            "truncation"
        }
        "flip" => {
            b[at] ^= 1 << (n("bit") % 8);
            "flipped bit"
        }
        "set" => {
            b[at] = n("v") as u8;
            "overwritten byte"
        }
        "zero" => {
            let secs = b.len().div_ceil(512);
            let s = n("at") % secs * 512;
            let e = (s + 512).min(b.len());
            b[s..e].fill(0);
            "zeroed sector"
        }
        "del" => {
            let e = (at + n("n")).min(b.len());
            b.drain(at..e);
            "lost bytes"
        }
        "dup" => {
            let e = (at + n("n")).min(b.len());
            let p = b[at..e].to_vec();
            let to = n("to") % b.len();
            b.splice(to..to, p);
            "duplicated bytes"
        }
        "stale" => {
            let secs = b.len().div_ceil(512);
            let s = n("at") % secs * 512;
            let e = (s + 512 * n("n")).min(b.len()).min(old.len());
            if s < e {
                b[s..e].copy_from_slice(&old[s..e]);
            }
            "stale sector"
        }
        "ins" => {
            b.splice(at..at, t().into_bytes());
            "inserted text"
        }
        "ends" => {
            if n("v") == 0 {
                b.splice(0..0, t().into_bytes());
            } else {
                b.extend_from_slice(t().as_bytes());
            }
            "text before or after the document"
        }
        "tail" => {
            b.extend_from_slice(t().as_bytes());
            "trailing text"
        }
        k if k.starts_with("el-") || k.starts_with("leaf-") || k.starts_with("attr-") => return xml(b, f, k),
        k => return data(b, f, k),
    };
    (*b != before).then_some(what)
}

fn xml(b: &mut Vec<u8>, f: &Value, k: &str) -> Option<&'static str> {
    let text = std::str::from_utf8(b).ok()?.to_string();
    let doc = roxmltree::Document::parse(&text).ok()?;
    let n = |k: &str| f.get(k).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    let t = f.get("t").and_then(|x| x.as_str()).unwrap_or("");
    let els: Vec<_> = doc.descendants().filter(|x| x.is_element()).collect();
    let leaf: Vec<_> = els.iter().copied().filter(|x| !x.children().any(|c| c.is_element())).collect();
    let by = f.get("by").is_some();
    let node = |v: &[roxmltree::Node], i: usize| -> Option<usize> {
        if v.is_empty() {
            return None;
        }
        if by {
            // every kind of element alike, however often it occurs
            let mut kinds: std::collections::BTreeMap<&str, Vec<usize>> = Default::default();
            for (n, x) in v.iter().enumerate() {
                kinds.entry(x.tag_name().name()).or_default().push(n);
            }
            let l = kinds.values().nth(i % kinds.len())?;
            return Some(l[i / kinds.len() % l.len()]);
        }
        Some(i % v.len())
    };
    let pick = |v: &[roxmltree::Node], i: usize| -> Option<(std::ops::Range<usize>, String)> {
        let x = v[node(v, i)?];
        Some((x.range(), x.tag_name().name().to_string()))
    };
    // end of the start tag within an element's text
    let start_end = |s: &str| -> usize {
        let mut q = None;
        for (i, c) in s.char_indices() {
            match (q, c) {
                (None, '"' | '\'') => q = Some(c),
                (Some(a), c) if a == c => q = None,
                (None, '>') => return i + 1,
                _ => {}
            }
        }
        s.len()
    };
    let mut out = text.clone();
    let what = match k {
        "el-del" => {
            let (r, _) = pick(&els, n("i"))?;
            out.replace_range(r, "");
            "lost element"
        }
        "el-empty" => {
            let (r, g) = pick(&els, n("i"))?;
            let s = &text[r.clone()];
            let e = start_end(s);
            let head = s[..e].trim_end_matches('>').trim_end_matches('/').to_string();
            out.replace_range(r, &format!("{head}></{g}>"));
            "emptied element"
        }
        "leaf-text" | "leaf-copy" | "leaf-digit" | "leaf-ins" | "leaf-chop" | "leaf-rep" | "leaf-case" | "leaf-num" => {
            let leaf = match k {
                "leaf-num" => leaf.iter().copied().filter(|x| x.text().is_some_and(|t| t.starts_with(|c: char| c.is_ascii_digit() || c == '#'))).collect(),
                _ => leaf,
            };
            let (r, g) = pick(&leaf, n("i"))?;
            let s = &text[r.clone()];
            let e = start_end(s);
            let head = s[..e].trim_end_matches('>').trim_end_matches('/').to_string();
            let v = match k {
                "leaf-text" => esc(t),
                "leaf-copy" => {
                    let x = leaf[n("from") % leaf.len()];
                    esc(x.text().unwrap_or(""))
                }
                _ => {
                    let x = leaf[node(&leaf, n("i"))?];
                    let mut c: Vec<char> = x.text().unwrap_or("").chars().collect();
                    if c.is_empty() && k != "leaf-ins" {
                        return None;
                    }
                    let p = if n("n") == 1 << 20 { c.len() } else { n("n") % (c.len() + (k == "leaf-ins") as usize) };
                    match k {
                        "leaf-num" => {
                            let all: String = c.iter().collect();
                            let val = crate::refparse::number(&all, u64::MAX).unwrap_or(n("v") as u64);
                            let p = n("v") % (c.len() + 1);
                            let q = match n("n") {
                                0..=3 => format!("{all}{t}"),
                                4 | 5 => format!("{t}{all}"),
                                6 | 7 => c[..p].iter().chain(t.chars().collect::<Vec<_>>().iter()).chain(c[p..].iter()).collect(),
                                8 => format!("0B{val:b}"),
                                9 => format!("0b{val:b}"),
                                10 => format!("#{val:b}"),
                                11 => format!("0X{val:X}"),
                                12 => format!("0x{val:x}{t}"),
                                13 => format!("{val:x}"),
                                14 => format!("#{val:b}{t}"),
                                _ => format!("0{val:o}"),
                            };
                            c = q.chars().collect();
                        }
                        "leaf-digit" => {
                            let p = p.min(c.len() - 1);
                            c[p] = char::from(b'0' + (n("v") % 10) as u8);
                        }
                        "leaf-ins" => {
                            c.splice(p..p, t.chars());
                        }
                        "leaf-chop" => {
                            let a = p.min(c.len().saturating_sub(n("v")));
                            c.drain(a..(a + n("v")).min(c.len()));
                        }
                        "leaf-rep" => {
                            let a = p.min(c.len());
                            let s = c[a..(a + n("v")).min(c.len())].to_vec();
                            c.splice(a..a, s);
                        }
                        _ => {
                            for x in c.iter_mut().skip(p).take(n("v")) {
                                *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                            }
                        }
                    }
                    esc(&c.into_iter().collect::<String>())
                }
            };
            out.replace_range(r, &format!("{head}>{v}</{g}>"));
            "replaced value"
        }
        // only in the history of the listed finding
        "leaf-comment" => {
            let (r, _) = pick(&leaf, n("i"))?;
            let p = r.start + start_end(&text[r.clone()]) + n("n");
            out.insert_str(text.is_char_boundary(p).then_some(p)?, "<!-- -->");
            "comment inside a value"
        }
        "el-dup" => {
            let (r, _) = pick(&els, n("i"))?;
            let s = text[r.clone()].to_string();
            out.insert_str(r.end, &s);
            "duplicated element"
        }
        "el-move" | "el-copy" => {
            let (r, _) = pick(&els, n("i"))?;
            let (q, _) = pick(&els, n("to"))?;
            if q.start >= r.start && q.start <= r.end {
                return None;
            }
            let s = text[r.clone()].to_string();
            if k == "el-copy" {
                out.insert_str(q.start, &s);
            } else if q.start > r.end {
                out.insert_str(q.start, &s);
                out.replace_range(r, "");
            } else {
                out.replace_range(r, "");
                out.insert_str(q.start, &s);
            }
            "moved element"
        }
        "el-rename" => {
            let (r, g) = pick(&els, n("i"))?;
            let s = text[r.clone()].to_string();
            let mut x = s.replacen(&format!("<{g}"), &format!("<{t}"), 1);
            if let Some(p) = x.rfind(&format!("</{g}")) {
                x.replace_range(p..p + 2 + g.len(), &format!("</{t}"));
            }
            out.replace_range(r, &x);
            "renamed element"
        }
        "el-add" => {
            let (r, g) = pick(&els, n("i"))?;
            let s = &text[r.clone()];
            let v = esc(f.get("v").and_then(|x| x.as_str()).unwrap_or(""));
            let add = if v.is_empty() { format!("<{t}/>") } else { format!("<{t}>{v}</{t}>") };
            let _ = g;
            let p = s.rfind("</")?;
            out.insert_str(r.start + p, &add);
            "extra element"
        }
        // another range of indexes for an array
        "range" => {
            let l: Vec<_> = els.iter().filter(|x| x.has_tag_name("dim")).collect();
            let dim = l.get(n("i") % l.len().max(1))?;
            let up = dim.parent()?;
            let new = format!("<dim>{}</dim>", n("v"));
            let idx = format!("<dimIndex>{}</dimIndex>", esc(t));
            match up.children().find(|x| x.has_tag_name("dimIndex")) {
                Some(x) if x.range().start > dim.range().start => {
                    out.replace_range(x.range(), &idx);
                    out.replace_range(dim.range(), &new);
                }
                Some(x) => {
                    out.replace_range(dim.range(), &new);
                    out.replace_range(x.range(), &idx);
                }
                None => out.replace_range(dim.range(), &(new + &idx)),
            }
            "range of indexes"
        }
        "attr-set" => {
            let (r, g) = pick(&els, n("i"))?;
            let a = f.get("a").and_then(|x| x.as_str()).unwrap_or("x");
            let x = els[node(&els, n("i"))?];
            if let Some(at) = x.attributes().find(|y| y.name() == a) {
                let q = at.range();
                out.replace_range(q, &format!("{a}=\"{}\"", esc(t).replace('"', "&quot;")));
            } else {
                out.insert_str(r.start + 1 + g.len(), &format!(" {a}=\"{}\"", esc(t).replace('"', "&quot;")));
            }
            "changed attribute"
        }
        "attr-del" => {
            let all: Vec<_> = els.iter().flat_map(|e| e.attributes()).collect();
            if all.is_empty() {
                return None;
            }
            let q = all[n("i") % all.len()].range();
            out.replace_range(q, "");
            "lost attribute"
        }
        _ => return None,
    };
    if out == text {
        return None;
    }
    *b = out.into_bytes();
    Some(what)
}

fn nodes(v: &Value, here: String, out: &mut Vec<String>) {
    out.push(here.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                nodes(x, format!("{here}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                nodes(x, format!("{here}/{i}"), out);
            }
        }
        _ => {}
    }
}
fn data(b: &mut Vec<u8>, f: &Value, k: &str) -> Option<&'static str> {
    let mut v: Value = serde_json::from_slice(b).ok()?;
    let n = |k: &str| f.get(k).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    let mut ps = Vec::new();
    nodes(&v, String::new(), &mut ps);
    let p = ps[n("i") % ps.len()].clone();
    let (par, last) = match p.rsplit_once('/') {
        Some((a, l)) => (a.to_string(), l.replace("~1", "/").replace("~0", "~")),
        None => (String::new(), String::new()),
    };
    let what = match k {
        "key-del" => {
            match v.pointer_mut(&par)? {
                Value::Object(m) => {
                    m.remove(&last)?;
                }
                Value::Array(a) => {
                    let i: usize = last.parse().ok()?;
                    if i < a.len() {
                        a.remove(i);
                    }
                }
                _ => return None,
            }
            "lost element"
        }
        "node-set" => {
            *v.pointer_mut(&p)? = f.get("t")?.clone();
            "replaced value"
        }
        "node-copy" => {
            let x = v.pointer(&ps[n("from") % ps.len()])?.clone();
            *v.pointer_mut(&p)? = x;
            "moved element"
        }
        "key-rename" => {
            let m = v.pointer_mut(&par)?.as_object_mut()?;
            let x = m.remove(&last)?;
            m.insert(f.get("t")?.as_str()?.to_string(), x);
            "renamed element"
        }
        "key-add" => {
            let m = v.pointer_mut(&p)?.as_object_mut()?;
            m.insert(f.get("a")?.as_str()?.to_string(), f.get("t")?.clone());
            "extra element"
        }
        "arr-dup" => {
            let a = v.pointer_mut(&p)?.as_array_mut()?;
            let x = a.first()?.clone();
            a.push(x);
            "duplicated element"
        }
        _ => return None,
    };
    *b = serde_json::to_vec(&v).ok()?;
    Some(what)
}

pub fn token(r: &mut Rng) -> &'static str {
    r.pick(TOKENS)
}
pub fn bit(r: &mut Rng) -> String {
    if r.pct(30) {
        return char::from(r.range(0x20, 0x7e) as u8).to_string();
    }
    r.pick(BITS).to_string()
}
pub fn tag(r: &mut Rng) -> &'static str {
    r.pick(TAGS)
}
