//! Writes a description tree as XML text in many layouts and number notations. This is
//! the "other tool" that produced the stored documents; it shares no code with svd-encoder.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Style {
    pub seed: u64,
    /// 0: all on one line, 1: two spaces, 2: tab, 3: windows line ends, 4: random
    pub indent: u8,
    pub bom: bool,
    pub decl: bool,
    /// percent of gaps with a comment or processing instruction
    pub comments: u64,
    /// percent of texts with surrounding white space
    pub pad: u64,
    /// percent of characters written as character references
    pub refs: u64,
    /// percent of texts in a CDATA section
    pub cdata: u64,
    /// children in schema order or shuffled
    pub shuffle: bool,
    /// number notation: 0 decimal, 1 hex, 2 mixed
    pub num: u8,
    /// percent of elements followed by elements the model does not know
    pub unknown: u64,
}

impl Style {
    pub fn plain() -> Style {
        Style {
            seed: 0,
            indent: 1,
            bom: false,
            decl: true,
            comments: 0,
            pad: 0,
            refs: 0,
            cdata: 0,
            shuffle: false,
            num: 0,
            unknown: 0,
        }
    }
    pub fn gen(r: &mut Rng) -> Style {
        let z = |r: &mut Rng, v: u64| if r.pct(50) { 0 } else { r.below(v) };
        Style {
            seed: r.next() >> 12,
            indent: r.below(5) as u8,
            bom: r.pct(15),
            decl: r.pct(70),
            comments: z(r, 20),
            pad: z(r, 60),
            refs: z(r, 15),
            cdata: z(r, 15),
            shuffle: r.pct(50),
            num: r.below(3) as u8,
            unknown: z(r, 8),
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        serde_json::json!([
            self.seed, self.indent, self.bom, self.decl, self.comments, self.pad, self.refs,
            self.cdata, self.shuffle, self.num, self.unknown
        ])
    }
    pub fn from_json(v: &serde_json::Value) -> Option<Style> {
        let n = |i: usize| v.get(i)?.as_u64();
        let b = |i: usize| v.get(i)?.as_bool();
        Some(Style {
            seed: n(0)?,
            indent: n(1)? as u8,
            bom: b(2)?,
            decl: b(3)?,
            comments: n(4)?,
            pad: n(5)?,
            refs: n(6)?,
            cdata: n(7)?,
            shuffle: b(8)?,
            num: n(9)? as u8,
            unknown: n(10)?,
        })
    }
}

struct W<'a> {
    o: String,
    s: &'a Style,
    r: Rng,
}

/// One child of an element as it will be written.
enum C<'a> {
    T(&'static str, String),
    Wc(Wc),
    E(&'a El),
    /// container with children
    B(&'static str, &'a [El]),
}

pub fn num(v: u64, how: u64, r: &mut Rng) -> String {
    match how {
        0 => format!("{v}"),
        1 => format!("0x{v:x}"),
        2 => format!("0x{v:X}"),
        3 => format!("0X{v:08X}"),
        4 => format!("0x{v:016x}"),
        5 => {
            let s = format!("{v:b}");
            // zeros may be written as "don't care"
            let s: String = s
                .chars()
                .map(|c| {
                    if c == '0' && r.pct(20) {
                        if r.pct(50) {
                            'x'
                        } else {
                            'X'
                        }
                    } else {
                        c
                    }
                })
                .collect();
            format!("#{s}")
        }
        6 => {
            let s = format!("{v:b}");
            let s: String = s
                .chars()
                .map(|c| if c == '0' && r.pct(20) { 'x' } else { c })
                .collect();
            format!("0b{s}")
        }
        7 => format!("00{v}"),
        _ => format!("+{v}"),
    }
}

impl<'a> W<'a> {
    fn n(&mut self, v: u64) -> String {
        let how = match self.s.num {
            0 => 0,
            1 => self.r.range(1, 2),
            _ => self.r.below(9),
        };
        num(v, how, &mut self.r)
    }
    fn b(&mut self, v: bool) -> String {
        let short = self.r.pct(50);
        match (v, short) {
            (true, false) => "true",
            (true, true) => "1",
            (false, false) => "false",
            (false, true) => "0",
        }
        .into()
    }
    fn esc(&mut self, s: &str, attr: bool) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '&' => o.push_str("&amp;"),
                '<' => o.push_str("&lt;"),
                '>' => o.push_str("&gt;"),
                '"' if attr => o.push_str("&quot;"),
                _ if self.r.pct(self.s.refs) => {
                    if self.r.pct(50) {
                        o.push_str(&format!("&#x{:X};", c as u32))
                    } else {
                        o.push_str(&format!("&#{};", c as u32))
                    }
                }
                _ => o.push(c),
            }
        }
        o
    }
    fn text(&mut self, s: &str, may_pad: bool) {
        if !s.is_empty() && !s.contains("]]>") && self.r.pct(self.s.cdata) {
            self.o.push_str("<![CDATA[");
            self.o.push_str(s);
            self.o.push_str("]]>");
            return;
        }
        let pad = may_pad && self.r.pct(self.s.pad);
        if pad {
            let p = *self.r.pick(&[" ", "\n", "\t", " \n   ", "\r\n"]);
            self.o.push_str(p);
        }
        let t = self.esc(s, false);
        self.o.push_str(&t);
        if pad {
            let p = *self.r.pick(&[" ", "\n", "", "\n\t"]);
            self.o.push_str(p);
        }
    }
    fn gap(&mut self, d: usize) {
        let mut ind = |w: &mut Self| match w.s.indent {
            0 => {}
            1 => {
                w.o.push('\n');
                w.o.push_str(&"  ".repeat(d));
            }
            2 => {
                w.o.push('\n');
                w.o.push_str(&"\t".repeat(d));
            }
            3 => {
                w.o.push_str("\r\n");
                w.o.push_str(&" ".repeat(d));
            }
            _ => {
                for _ in 0..w.r.below(3) {
                    w.o.push('\n');
                }
                for _ in 0..w.r.below(6) {
                    w.o.push(' ');
                }
            }
        };
        ind(self);
        if self.r.pct(self.s.comments) {
            let c = *self.r.pick(&[
                "<!-- c -->",
                "<!--<register><name>X</name></register>-->",
                "<?pi data?>",
                "<!-- é λ -->",
            ]);
            self.o.push_str(c);
            ind(self);
        }
    }
    fn leaf(&mut self, tag: &str, v: &str, d: usize) {
        self.gap(d);
        if v.is_empty() && self.r.pct(50) {
            self.o.push_str(&format!("<{tag}></{tag}>"));
            return;
        }
        self.o.push_str(&format!("<{tag}>"));
        let may_pad = !matches!(tag, "bitRange");
        self.text(v, may_pad);
        self.o.push_str(&format!("</{tag}>"));
    }
    fn items_of<'b>(&mut self, e: &'b El) -> Vec<C<'b>> {
        let mut v = Vec::new();
        for it in items(e.k) {
            match *it {
                It::F(n, ty, _) => {
                    let Some(x) = e.f.get(n) else { continue };
                    match (x, ty) {
                        (_, Ty::Attr) => {}
                        (V::S(s), _) => v.push(C::T(n, s.clone())),
                        (V::N(x), _) => {
                            let t = self.n(*x);
                            v.push(C::T(n, t))
                        }
                        (V::B(x), _) => {
                            let t = self.b(*x);
                            v.push(C::T(n, t))
                        }
                        (V::L(l), _) => v.push(C::T(n, self.idx(l))),
                        (V::R(o, w, t), _) => {
                            let msb = (o + w).wrapping_sub(1);
                            match t {
                                Bt::Range => v.push(C::T("bitRange", format!("[{msb}:{o}]"))),
                                Bt::OffWidth => {
                                    let (a, b) = (self.n(*o), self.n(*w));
                                    v.push(C::T("bitOffset", a));
                                    v.push(C::T("bitWidth", b));
                                }
                                Bt::MsbLsb => {
                                    let (a, b) = (self.n(*o), self.n(msb));
                                    v.push(C::T("lsb", a));
                                    v.push(C::T("msb", b));
                                }
                            }
                        }
                        (V::W(w), _) => v.push(C::Wc(*w)),
                    }
                }
                It::G(n) => {
                    let Some(c) = e.g.get(n) else { continue };
                    match (e.k, n) {
                        (K::Device, "peripherals")
                        | (K::Peripheral, "registers")
                        | (K::Register, "fields") => v.push(C::B(n, c)),
                        _ => {
                            for x in c {
                                v.push(C::E(x));
                            }
                        }
                    }
                }
            }
        }
        v
    }
    fn idx(&mut self, l: &[String]) -> String {
        // a run of consecutive numbers or letters may be written as a range
        let nums: Option<Vec<u32>> = l
            .iter()
            .map(|s| s.parse::<u32>().ok().filter(|n| &n.to_string() == s))
            .collect();
        if let Some(n) = nums {
            if n.len() > 1 && n.windows(2).all(|w| w[0].checked_add(1) == Some(w[1])) && self.r.pct(60) {
                return format!("{}-{}", n[0], n[n.len() - 1]);
            }
        }
        let lets: Option<Vec<u8>> = l
            .iter()
            .map(|s| match s.as_bytes() {
                [c] if c.is_ascii_alphabetic() => Some(*c),
                _ => None,
            })
            .collect();
        if let Some(n) = lets {
            let same = n.iter().all(|c| c.is_ascii_lowercase()) || n.iter().all(|c| c.is_ascii_uppercase());
            if n.len() > 1 && same && n.windows(2).all(|w| w[0] + 1 == w[1]) && self.r.pct(60) {
                return format!("{}-{}", n[0] as char, n[n.len() - 1] as char);
            }
        }
        l.join(",")
    }
    fn el(&mut self, e: &El, d: usize) {
        let tag = e.k.tag();
        self.gap(d);
        self.o.push('<');
        self.o.push_str(tag);
        if e.k == K::Device {
            let mut at = Vec::new();
            if let Some(s) = e.sr("@schemaVersion") {
                at.push(format!("schemaVersion=\"{}\"", self.esc(s, true)));
            }
            if let Some(s) = e.sr("@xs") {
                at.push(format!("xmlns:xs=\"{}\"", self.esc(s, true)));
                if let Some(s) = e.sr("@loc") {
                    at.push(format!("xs:noNamespaceSchemaLocation=\"{}\"", self.esc(s, true)));
                }
            }
            if self.s.shuffle {
                self.r.shuffle(&mut at);
            }
            for a in at {
                self.o.push(' ');
                self.o.push_str(&a);
            }
        }
        if let Some(s) = e.sr("@derivedFrom") {
            let t = self.esc(s, true);
            self.o.push_str(&format!(" derivedFrom=\"{t}\""));
        }
        let its = self.items_of(e);
        if its.is_empty() {
            self.o.push_str("/>");
            return;
        }
        self.o.push('>');
        let order = self.order(&its);
        let mut its: Vec<Option<C>> = its.into_iter().map(Some).collect();
        for i in order {
            match its[i].take().unwrap() {
                C::T(t, v) => self.leaf(t, &v, d + 1),
                C::Wc(w) => self.wc(w, d + 1),
                C::E(c) => self.el(c, d + 1),
                C::B(t, c) => {
                    self.gap(d + 1);
                    if c.is_empty() {
                        self.o.push_str(&format!("<{t}/>"));
                    } else {
                        self.o.push_str(&format!("<{t}>"));
                        for x in c {
                            self.el(x, d + 2);
                        }
                        self.gap(d + 1);
                        self.o.push_str(&format!("</{t}>"));
                    }
                }
            }
            if !matches!(e.k, K::Evs | K::Dai) && self.r.pct(self.s.unknown) {
                // elements of newer schema versions that this model does not describe
                self.gap(d + 1);
                let c = *self.r.pick(&[
                    "<vendorX/>",
                    "<extra><name>N</name></extra>",
                    "<note a=\"1\">t</note>",
                    "<disableCondition>x &lt; 1</disableCondition>",
                ]);
                self.o.push_str(c);
            }
        }
        self.gap(d);
        self.o.push_str(&format!("</{tag}>"));
    }
    /// Order in which to write the children: elements of one group keep their order.
    fn order(&mut self, its: &[C]) -> Vec<usize> {
        let n = its.len();
        let mut ix: Vec<usize> = (0..n).collect();
        if !self.s.shuffle {
            return ix;
        }
        self.r.shuffle(&mut ix);
        // put the grouped elements back in relative order
        let key = |i: usize| match &its[i] {
            C::E(e) => Some(match e.k {
                K::Cluster => K::Register,
                k => k,
            }),
            _ => None,
        };
        for k in KINDS {
            let pos: Vec<usize> = (0..n).filter(|p| key(ix[*p]) == Some(k)).collect();
            let mut v: Vec<usize> = pos.iter().map(|p| ix[*p]).collect();
            v.sort();
            for (p, x) in pos.into_iter().zip(v) {
                ix[p] = x;
            }
        }
        ix
    }
    fn wc(&mut self, w: Wc, d: usize) {
        self.gap(d);
        self.o.push_str("<writeConstraint>");
        match w {
            Wc::AsRead(b) => {
                let t = self.b(b);
                self.leaf("writeAsRead", &t, d + 1)
            }
            Wc::UseEnum(b) => {
                let t = self.b(b);
                self.leaf("useEnumeratedValues", &t, d + 1)
            }
            Wc::Range(a, b) => {
                self.gap(d + 1);
                self.o.push_str("<range>");
                let (a, b) = (self.n(a), self.n(b));
                self.leaf("minimum", &a, d + 2);
                self.leaf("maximum", &b, d + 2);
                self.gap(d + 1);
                self.o.push_str("</range>");
            }
        }
        self.gap(d);
        self.o.push_str("</writeConstraint>");
    }
}

pub fn write(e: &El, s: &Style) -> String {
    let mut w = W {
        o: String::new(),
        s,
        r: Rng::new(s.seed ^ 0x77),
    };
    if s.bom {
        w.o.push('\u{feff}');
    }
    if s.decl {
        w.o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>");
    }
    w.el(e, 0);
    if w.r.pct(50) {
        w.o.push('\n');
    }
    w.o
}
