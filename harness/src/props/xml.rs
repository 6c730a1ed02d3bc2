//! Generated SVG files: an abstract document, a generator, and a serialiser that writes the same
//! content in many spellings (prefixes, quotes, references, entities, CDATA, spacing).

use super::data::*;
use super::vals::*;
use crate::engine::Src;
use svgdom::{PaintFallback};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ns {
    Svg,
    Foreign,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ANs {
    None,
    Svg,
    Xlink,
    Xml,
    Foreign,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub text: String,
    /// Attributes that the declaration sets.
    pub sets: Vec<(String, Exp)>,
}

#[derive(Clone, Debug)]
pub enum Role {
    Exp(Exp),
    Id,
    Class,
    Style(Vec<Decl>),
    Dropped,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub ns: ANs,
    pub name: String,
    pub text: String,
    pub role: Role,
}

#[derive(Clone, Debug)]
pub enum Sub {
    Class(String),
    Id(String),
    /// name, operator (0 exists, 1 =, 2 ~=, 3 |=), value
    Attr(String, u8, String),
    FirstChild,
    Hover,
}

#[derive(Clone, Debug)]
pub struct Simple {
    pub tag: Option<String>,
    pub subs: Vec<Sub>,
}

/// Components with the combinator that precedes each (' ', '>', '+').
pub type Sel = Vec<(char, Simple)>;

#[derive(Clone, Debug)]
pub struct Rule {
    pub sels: Vec<Sel>,
    pub decls: Vec<Decl>,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub ns: Ns,
    pub tag: String,
    pub attrs: Vec<Attr>,
    pub kids: Vec<X>,
    pub rules: Vec<Rule>,
}

#[derive(Clone, Debug)]
pub enum X {
    E(Elem),
    T(String),
    C(String),
    P(String),
}

#[derive(Clone, Debug)]
pub struct XDoc {
    pub before: Vec<X>,
    pub root: Elem,
    pub after: Vec<X>,
}

pub fn known_elem(tag: &str) -> bool {
    ELEMENTS.contains(&tag)
}

// ---------------------------------------------------------------------------------------------
// Generator

#[derive(Clone)]
pub struct Cfg {
    pub max_elems: usize,
    pub max_depth: usize,
    /// Chances of 100 per child slot.
    pub unknown: u64,
    pub comments: u64,
    pub pis: u64,
    pub stray_text: u64,
    /// Chance of 100 that an element is a `text` element.
    pub text: u64,
    pub xmlspace: u64,
    /// Extra kinds of children inside `text` (unknown elements, titles, nested text).
    pub odd_text_kids: bool,
    pub attrs: u64,
    pub refs: u64,
    pub bad: u64,
    pub ids: Vec<String>,
    /// Chance of 100 that an element has an id.
    pub id_chance: u64,
    pub dup_ids: bool,
    pub sheets: usize,
    pub style_attrs: u64,
    pub classes: u64,
    pub foreign_attrs: u64,
    /// If not empty, attributes and properties come from this list.
    pub props: Vec<&'static str>,
    pub text_alphabet: &'static [&'static str],
    /// Any known element instead of a small pool.
    pub all_tags: bool,
    /// All CSS declarations are marked as important, so the mark makes no difference.
    pub important: bool,
}

pub const WORDY: &[&str] = &["a", " ", "b", "  ", "\n", "\t", " c", "d ", "é", "日本", "&", "<", ">", ";", "x y", "\n   ", "]]>", "]>", "]", "\"", "'", "😀", "\r", "\u{a0}", "#38;"];
pub const SPACY: &[&str] = &["a", " ", "b", "  ", "\n", "\t", " ", "c", " \n ", "é", "\r", "\u{a0}"];

impl Cfg {
    pub fn basic() -> Cfg {
        Cfg {
            max_elems: 14,
            max_depth: 6,
            unknown: 8,
            comments: 6,
            pis: 3,
            stray_text: 5,
            text: 14,
            xmlspace: 10,
            odd_text_kids: true,
            attrs: 3,
            refs: 4,
            bad: 1,
            ids: ["a", "b", "c", "id1", "nope", "x.y", "A"].iter().map(|s| s.to_string()).collect(),
            id_chance: 45,
            dup_ids: false,
            sheets: 0,
            style_attrs: 0,
            classes: 4,
            foreign_attrs: 8,
            props: Vec::new(),
            text_alphabet: WORDY,
            all_tags: true,
            important: false,
        }
    }
}

const COMMON: &[&str] = &[
    "g", "rect", "path", "svg", "use", "defs", "linearGradient", "radialGradient", "stop", "pattern", "clipPath", "mask", "filter",
    "feImage", "marker", "image", "circle", "polygon", "a", "symbol", "title", "desc", "animate", "set", "feComposite", "line",
];
pub const UNKNOWN: &[&str] = &["foo", "Rect", "rects", "svgg", "flowRoot", "hatch", "text2", "G", "rec", "style2", "t", "path-"];

/// Ids that cannot be referred to in a file, or not everywhere.
pub const ODD_IDS: &[&str] = &[" ", "p q", " p", "p ", "\u{a0}", "#p", "none", "url(#p)", "&p", "\u{2028}", "p\u{feff}", "p;q", "p\"q", "p'q", "p<q>", "p:q", "p\tq", "p\nq", "p]]>q", "p--q", "p/q%", "p,q.", "_p",
    "p-very-long-identifier-p-very-long-identifier-p-very-long-identifier-p-very-long-identifier-p-very-long-identifier-q"];

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub c: &'a Cfg,
    left: usize,
    used: Vec<String>,
    /// Unusual shape: 1 many children, 2 deep, 3 many attributes, 4 long text.
    big: u8,
}

/// Characters that code may mistake for spaces, line ends or the end of a text, and any other.
pub fn rare_char(s: &mut Src) -> char {
    if s.chance(1, 2) {
        *s.pick(&[
            '\u{2028}', '\u{2029}', '\u{85}', '\u{feff}', '\u{200b}', '\u{200d}', '\u{3000}', '\u{2003}', '\u{ad}', '\u{1680}', '\u{fffd}', '\u{7f}', '\u{9f}', '\u{e000}',
            '\u{10ffff}', '\u{202f}', '\u{205f}', '\u{301}', '\u{d7ff}',
        ])
    } else {
        loop {
            let c = match s.weighted(&[3, 3, 2, 1]) {
                0 => 0x20 + s.draw(0x60),
                1 => 0xa0 + s.draw(0x700),
                2 => s.draw(0xfffe),
                _ => 0x10000 + s.draw(0x100000),
            };
            match std::char::from_u32(c as u32) {
                // Only characters of XML; a CR is a line end.
                Some(c) if c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}' => return c,
                _ => {}
            }
        }
    }
}

/// Now and then a case is much larger than usual in one direction.
fn shape(s: &mut Src) -> u8 {
    if s.chance(1, 50) {
        1 + s.idx(4) as u8
    } else {
        0
    }
}

pub fn gen_doc(s: &mut Src, c: &Cfg) -> XDoc {
    let big = shape(s);
    let left = if big == 1 || big == 2 { c.max_elems * 6 } else { c.max_elems };
    let mut g = Gen { s, c, left, used: Vec::new(), big };
    let mut root = g.elem_with_tag("svg", 0, false);
    for _ in 0..c.sheets {
        if g.s.chance(2, 3) {
            let st = g.style_elem();
            let n = root.kids.len();
            let at = g.s.idx(n + 1);
            // Sometimes deeper.
            let mut placed = false;
            if g.s.chance(1, 3) {
                let inner = |e: &Elem| e.ns == Ns::Svg && known_elem(&e.tag) && e.tag != "style" && e.tag != "text";
                let mut cur = &mut root;
                loop {
                    let cand: Vec<usize> = (0..cur.kids.len()).filter(|i| matches!(&cur.kids[*i], X::E(e) if inner(e))).collect();
                    if cand.is_empty() || (placed && g.s.chance(1, 4)) {
                        break;
                    }
                    let i = cand[g.s.idx(cand.len())];
                    match cur.kids[i] {
                        X::E(ref mut e) => cur = e,
                        _ => unreachable!(),
                    }
                    placed = true;
                }
                if placed {
                    let at = g.s.idx(cur.kids.len() + 1);
                    cur.kids.insert(at, X::E(st.clone()));
                }
            }
            if !placed {
                root.kids.insert(at, X::E(st));
            }
        }
    }
    let mut before = Vec::new();
    let mut after = Vec::new();
    if g.s.chance(g.c.comments, 60) {
        for _ in 0..1 + g.s.count(1, 5) {
            before.push(X::C(g.comment()));
        }
    }
    if g.s.chance(g.c.pis, 60) {
        before.push(X::P("pi x='1'".into()));
    }
    if g.s.chance(g.c.comments, 60) {
        for _ in 0..1 + g.s.count(1, 5) {
            after.push(X::C(g.comment()));
        }
    }
    XDoc { before, root, after }
}

/// One `text` element.
pub fn gen_text(s: &mut Src, c: &Cfg) -> Elem {
    let big = shape(s);
    let mut g = Gen { s, c, left: c.max_elems, used: Vec::new(), big };
    g.text_elem(1)
}

impl<'a> Gen<'a> {
    fn comment(&mut self) -> String {
        if self.s.chance(1, 4) {
            return comment_text(self.s);
        }
        let t = self.s.pick(&[" c ", "", "comment", " a - b ", "<rect/>", "&amp; &", "日本", " \n x\t", "]]>", "x=\"1\" '", "-x"]).to_string();
        t
    }

    fn text(&mut self) -> String {
        let n = if self.big == 4 && self.s.chance(1, 4) { self.s.idx(400) } else { 1 + self.s.count(3, 9) };
        let mut t = String::new();
        if self.s.chance(1, 30) {
            t.push_str(printable(self.s).trim_matches(' '));
        }
        for _ in 0..n {
            if self.s.chance(1, 40) {
                t.push(rare_char(self.s));
                continue;
            }
            let f = *self.s.pick(self.c.text_alphabet);
            let k = if self.s.chance(1, 60) { self.s.idx(100) } else { 1 };
            t.push_str(&f.repeat(k));
        }
        // roxmltree joins a CR given by a character reference with a following LF.
        while t.contains("\r\n") {
            t = t.replace("\r\n", "\r");
        }
        t
    }

    pub fn vcfg<'b>(&'b self, css: bool) -> VCfg<'b> {
        VCfg { ids: &self.c.ids, refs: self.c.refs, bad: self.c.bad, css }
    }

    fn gen_value(&mut self, tag: &str, attr: &str, css: bool) -> GenVal {
        let v = VCfg { ids: &self.c.ids, refs: self.c.refs, bad: self.c.bad, css };
        value(self.s, tag, attr, &v)
    }

    fn attr_name(&mut self) -> &'static str {
        if !self.c.props.is_empty() {
            return *self.s.pick(&self.c.props);
        }
        match self.s.weighted(&[6, 3, 1]) {
            0 => *self.s.pick(TYPED_ATTRS),
            1 => *self.s.pick(STR_ATTRS),
            _ => *self.s.pick(ATTRIBUTES),
        }
    }

    fn attrs(&mut self, tag: &str) -> Vec<Attr> {
        let mut out: Vec<Attr> = Vec::new();
        let n = if self.big == 3 && self.c.attrs > 0 && self.s.chance(1, 3) { self.s.idx(70) } else { self.s.count(self.c.attrs, 10) };
        for _ in 0..n {
            if self.c.foreign_attrs > 0 && self.s.chance(self.c.foreign_attrs, 100) {
                // Unknown or foreign.
                let name = self.s.pick(&["x", "fill", "data", "id", "style", "href", "class", "transform"]).to_string();
                let (ns, name) = if self.s.chance(1, 2) { (ANs::Foreign, name) } else { (ANs::None, self.s.pick(&["data-x", "foo", "Fill", "xx", "fil", "viewbox"]).to_string()) };
                if !out.iter().any(|a| a.name == name && (a.ns == ns)) {
                    out.push(Attr { ns, name, text: string(self.s), role: Role::Dropped });
                }
                continue;
            }
            let name = self.attr_name();
            if ["id", "style", "class", "space", "xmlns"].contains(&name) || out.iter().any(|a| a.name == name && a.ns != ANs::Foreign) {
                continue;
            }
            let v = self.gen_value(tag, name, false);
            let ns = match name {
                "href" => {
                    if self.s.chance(1, 6) {
                        ANs::None
                    } else {
                        ANs::Xlink
                    }
                }
                "lang" | "base" if self.s.chance(1, 2) => ANs::Xml,
                "title" | "show" | "actuate" | "role" | "arcrole" if self.s.chance(1, 3) => ANs::Xlink,
                _ if self.c.sheets == 0 && self.s.chance(1, 60) => ANs::Svg,
                _ => ANs::None,
            };
            out.push(Attr { ns, name: name.to_string(), text: v.text, role: Role::Exp(v.exp) });
        }
        if self.s.chance(self.c.id_chance, 100) {
            let id = if self.s.chance(1, 30) {
                // Nothing refers to these.
                if self.s.chance(1, 3) {
                    printable(self.s)
                } else {
                    self.s.pick(ODD_IDS).to_string()
                }
            } else {
                self.s.pick(&self.c.ids).clone()
            };
            if id != "nope" && (self.c.dup_ids || !self.used.contains(&id)) {
                self.used.push(id.clone());
                let at = self.s.idx(out.len() + 1);
                out.insert(at, Attr { ns: ANs::None, name: "id".into(), text: id, role: Role::Id });
            }
        }
        if self.c.classes > 0 && self.s.chance(self.c.classes, 100) {
            let at = self.s.idx(out.len() + 1);
            let t = if self.s.chance(1, 12) {
                let n = self.s.idx(12);
                (0..n).map(|_| *self.s.pick(&["k", "m", "n", "km", "q", "a1", "m-k", "K"])).collect::<Vec<_>>().join(*self.s.pick(&[" ", "  "]))
            } else {
                self.s.pick(&["k", "m", "k m", "m k", "k  m", " k", "km", "n m-k", ""]).to_string()
            };
            out.insert(at, Attr { ns: ANs::None, name: "class".into(), text: t, role: Role::Class });
        }
        if self.c.style_attrs > 0 && self.s.chance(self.c.style_attrs, 100) {
            let n = self.s.count_long(2, 5, 24);
            let decls: Vec<Decl> = (0..n).map(|_| self.decl(tag)).collect();
            let text = self.decls_text(&decls);
            let at = self.s.idx(out.len() + 1);
            out.insert(at, Attr { ns: ANs::None, name: "style".into(), text, role: Role::Style(decls) });
        }
        if self.c.xmlspace > 0 && self.s.chance(self.c.xmlspace, 100) {
            self.push_space(&mut out);
        }
        out
    }

    fn push_space(&mut self, out: &mut Vec<Attr>) {
        let at = self.s.idx(out.len() + 1);
        let t = self.s.pick(&["preserve", "default", "preserve", "preserve", "default", "qwe", " preserve ", "Preserve", "PRESERVE", "", "preserved"]).to_string();
        let v = t.trim().to_string();
        out.insert(at, Attr { ns: ANs::Xml, name: "space".into(), text: t, role: Role::Exp(Exp::Val(v.into())) });
    }

    /// A CSS declaration. The element matters only for animation elements, whose `fill` is not a paint.
    fn decl(&mut self, _tag: &str) -> Decl {
        let r = self.s.weighted(&[10, 2, 1, 1]);
        let name: &'static str = match r {
            0 => {
                if self.c.props.is_empty() {
                    *self.s.pick(PRESENTATION)
                } else {
                    *self.s.pick(&self.c.props)
                }
            }
            1 => *self.s.pick(&["marker", "transform", "fill", "stroke"]),
            2 => *self.s.pick(&["x", "width", "d", "href", "class", "points", "id", "offset", "in", "line-height", "viewBox"]),
            _ => *self.s.pick(&["-inkscape-font", "foo", "text-align", "Fill", "margin"]),
        };
        let presentation = PRESENTATION.contains(&name) || name == "transform";
        if !presentation {
            let text = css_string(self.s);
            return Decl { name: name.to_string(), text, sets: Vec::new() };
        }
        let v = self.gen_value("rect", name, true);
        let sets = if name == "marker" {
            ["marker-start", "marker-mid", "marker-end"].iter().map(|n| (n.to_string(), v.exp.clone())).collect()
        } else {
            vec![(name.to_string(), v.exp.clone())]
        };
        Decl { name: name.to_string(), text: v.text, sets }
    }

    fn decls_text(&mut self, decls: &[Decl]) -> String {
        let mut t = String::new();
        if self.s.chance(1, 6) {
            t.push(' ');
        }
        for (i, d) in decls.iter().enumerate() {
            t.push_str(&d.name);
            t.push_str(*self.s.pick(&[":", ": ", " : "]));
            t.push_str(&d.text);
            if self.c.important {
                t.push_str(*self.s.pick(&[" !important", " ! important", "  !important "]));
            }
            if i + 1 < decls.len() || self.s.chance(1, 2) {
                t.push_str(*self.s.pick(&[";", "; ", " ; ", ";;", ";\n", "; /* c */ "]));
            }
        }
        t
    }

    fn simple(&mut self) -> Simple {
        let mut subs = Vec::new();
        let tag = if self.s.chance(1, 2) { Some(self.s.pick(&["rect", "g", "path", "svg", "circle", "use", "foo", "text", "tspan"]).to_string()) } else { None };
        let n = if tag.is_some() { self.s.weighted(&[16, 12, 4, 1, 1]) } else { self.s.weighted(&[4, 20, 8, 1, 1]) };
        for _ in 0..n {
            subs.push(match self.s.weighted(&[4, 3, 2, 2, 1]) {
                0 => Sub::Class(self.s.pick(&["k", "m", "km", "n"]).to_string()),
                1 => {
                    let ids: Vec<String> = self.c.ids.iter().filter(|i| i.chars().all(|c| c.is_ascii_alphanumeric()) && !i.starts_with(|c: char| c.is_ascii_digit())).cloned().collect();
                    Sub::Id(if ids.is_empty() { "a".to_string() } else { self.s.pick(&ids).clone() })
                }
                2 => Sub::FirstChild,
                3 => {
                    let op = self.s.idx(4) as u8;
                    let (n, v) = *self.s.pick(&[("class", "k"), ("class", "m"), ("data-x", "v"), ("lang", "en"), ("fill", "red"), ("class", "n")]);
                    Sub::Attr(n.to_string(), op, v.to_string())
                }
                _ => Sub::Hover,
            });
        }
        Simple { tag, subs }
    }

    fn selector(&mut self) -> Sel {
        let n = 1 + self.s.weighted(&[40, 24, 8, 2, 1, 1]);
        let mut out = Vec::new();
        for i in 0..n {
            let comb = if i == 0 { ' ' } else { *self.s.pick(&[' ', '>', '+']) };
            out.push((comb, self.simple()));
        }
        out
    }

    fn style_elem(&mut self) -> Elem {
        let mut attrs = Vec::new();
        if self.s.chance(1, 3) {
            attrs.push(Attr { ns: ANs::None, name: "type".into(), text: "text/css".into(), role: Role::Exp(Exp::Ignored) });
        }
        let mut css_type = true;
        if attrs.is_empty() && self.s.chance(1, 12) {
            attrs.push(Attr { ns: ANs::None, name: "type".into(), text: self.s.pick(&["text/plain", "text/x-sass"]).to_string(), role: Role::Exp(Exp::Ignored) });
            css_type = false;
        }
        let n = self.s.count_long(2, 5, 30);
        let mut rules = Vec::new();
        let mut text = String::new();
        for _ in 0..n {
            if self.s.chance(1, 10) {
                text.push_str(*self.s.pick(&["/* comment */", "@import url(x.css);", "@media print { rect { fill: red } }", "@font-face { font-family: X }", "\n"]));
            }
            let k = 1 + if self.s.chance(1, 40) { self.s.idx(10) } else { self.s.weighted(&[4, 1, 1]) };
            let sels: Vec<Sel> = (0..k).map(|_| self.selector()).collect();
            let nd = 1 + self.s.count_long(1, 4, 20);
            let decls: Vec<Decl> = (0..nd).map(|_| self.decl("rect")).collect();
            text.push_str(*self.s.pick(&["", " ", "\n"]));
            for (i, sel) in sels.iter().enumerate() {
                if i > 0 {
                    text.push_str(*self.s.pick(&[",", ", "]));
                }
                text.push_str(&sel_text(self.s, sel));
            }
            text.push_str(*self.s.pick(&["{", " {", " { ", "\n{\n"]));
            let d = self.decls_text(&decls);
            text.push_str(&d);
            text.push_str(*self.s.pick(&["}", " }", "\n}\n"]));
            rules.push(Rule { sels, decls });
        }
        if !css_type {
            rules.clear();
        }
        if self.s.chance(1, 8) {
            let n = self.s.pick(&["media", "title", "data-x"]).to_string();
            attrs.push(Attr { ns: ANs::None, name: n, text: self.s.pick(&["all", "print", "k"]).to_string(), role: Role::Exp(Exp::Ignored) });
        }
        let mut kids = Vec::new();
        // Comments and processing instructions do not belong to the style sheet.
        if self.s.chance(1, 5) {
            for _ in 0..1 + self.s.idx(3) {
                let mut at = self.s.idx(text.len() + 1);
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                if self.s.chance(1, 2) {
                    at = text[..at].rfind('}').map_or(0, |i| i + 1);
                }
                let rest = text.split_off(at);
                if !text.is_empty() {
                    kids.push(X::T(text));
                }
                text = rest;
                kids.push(if self.s.chance(1, 3) { X::P("pi".into()) } else { X::C(self.s.pick(&["c", " rect { fill: blue } ", "", "}"]).to_string()) });
            }
        }
        if !text.is_empty() {
            kids.push(X::T(text));
        }
        Elem { ns: Ns::Svg, tag: "style".into(), attrs, kids, rules }
    }

    fn tag(&mut self) -> String {
        if self.c.all_tags && self.s.chance(1, 3) {
            let t = *self.s.pick(ELEMENTS);
            if ["style", "text", "tspan", "tref", "textPath", "altGlyph"].contains(&t) {
                return "g".to_string();
            }
            return t.to_string();
        }
        self.s.pick(COMMON).to_string()
    }

    fn unknown_elem(&mut self, depth: usize) -> Elem {
        let foreign = self.s.chance(1, 2);
        let (ns, tag) = if foreign {
            (Ns::Foreign, self.s.pick(&["rect", "g", "svg", "foo", "text", "p"]).to_string())
        } else {
            (Ns::Svg, self.s.pick(UNKNOWN).to_string())
        };
        let mut e = self.elem_with_tag("g", depth, false);
        e.ns = ns;
        e.tag = tag;
        e
    }

    fn elem_with_tag(&mut self, tag: &str, depth: usize, _in_text: bool) -> Elem {
        self.left = self.left.saturating_sub(1);
        let attrs = self.attrs(tag);
        let mut kids: Vec<X> = Vec::new();
        if depth < if self.big == 2 { 60 } else { self.c.max_depth } {
            let avg = match (depth, self.big) {
                (_, 2) => 9,
                (0, 1) | (1, 1) => 40,
                (0, _) => 6,
                (1, _) => 2,
                _ => 1,
            };
            let mut n = 0;
            while self.left > 0 && n < if self.big == 1 { 120 } else { 12 } && self.s.chance(avg, avg + 1) {
                n += 1;
                let c = self.c;
                let w = [100, c.comments, c.pis, c.stray_text, c.text, c.unknown];
                match self.s.weighted(&w) {
                    0 => {
                        let t = self.tag();
                        let e = self.elem_with_tag(&t, depth + 1, false);
                        kids.push(X::E(e));
                    }
                    1 => {
                        let t = self.comment();
                        kids.push(X::C(t));
                    }
                    2 => kids.push(X::P("php echo 1".to_string())),
                    3 => {
                        if !matches!(kids.last(), Some(X::T(_))) {
                            let t = self.text();
                            if !t.trim().is_empty() {
                                kids.push(X::T(t));
                            }
                        }
                    }
                    4 => {
                        let e = self.text_elem(depth + 1);
                        kids.push(X::E(e));
                    }
                    _ => {
                        let e = self.unknown_elem(depth + 1);
                        kids.push(X::E(e));
                    }
                }
            }
        }
        Elem { ns: Ns::Svg, tag: tag.to_string(), attrs, kids, rules: Vec::new() }
    }

    pub fn text_elem(&mut self, depth: usize) -> Elem {
        self.left = self.left.saturating_sub(1);
        let attrs = self.attrs("text");
        let kids = self.text_kids(depth, 0);
        Elem { ns: Ns::Svg, tag: "text".into(), attrs, kids, rules: Vec::new() }
    }

    fn text_kids(&mut self, depth: usize, level: usize) -> Vec<X> {
        let mut kids: Vec<X> = Vec::new();
        let n = if self.big == 1 && level == 0 && self.s.chance(1, 2) { self.s.idx(60) } else if self.big == 2 { 1 + self.s.idx(4) } else { self.s.count(if level == 0 { 3 } else { 1 }, 7) };
        for _ in 0..n {
            if self.big == 2 && level > 0 {
                if self.left == 0 {
                    break;
                }
                self.left -= 1;
            }
            let odd = if self.c.odd_text_kids { 1 } else { 0 };
            let can = match (level, self.big) {
                (l, 2) if l < 30 => 12,
                (l, _) if l < 4 => 5,
                _ => 0,
            };
            match self.s.weighted(&[8, can, 1, odd, odd, odd]) {
                0 => {
                    if !matches!(kids.last(), Some(X::T(_))) {
                        let t = self.text();
                        kids.push(X::T(t));
                    }
                }
                1 => {
                    let tag = *self.s.pick(&["tspan", "tspan", "tspan", "tref", "textPath", "a", "altGlyph"]);
                    let mut attrs = self.attrs(tag);
                    if self.c.xmlspace > 0 && self.s.chance(1, 5) && !attrs.iter().any(|a| a.name == "space") {
                        self.push_space(&mut attrs);
                    }
                    let sub = self.text_kids(depth + 1, level + 1);
                    kids.push(X::E(Elem { ns: Ns::Svg, tag: tag.into(), attrs, kids: sub, rules: Vec::new() }));
                }
                2 => {
                    let t = self.comment();
                    kids.push(X::C(t));
                }
                3 => {
                    let tag = match *self.s.pick(&["title", "desc", "animate", "set", "g", "", ""]) {
                        "" => match *self.s.pick(ELEMENTS) {
                            "style" | "text" => "script",
                            t => t,
                        },
                        t => t,
                    };
                    let mut attrs = Vec::new();
                    if self.c.xmlspace > 0 && self.s.chance(1, 4) {
                        self.push_space(&mut attrs);
                    }
                    let mut sub = Vec::new();
                    if self.s.chance(1, 2) {
                        sub.push(X::T(self.text()));
                    }
                    kids.push(X::E(Elem { ns: Ns::Svg, tag: tag.into(), attrs, kids: sub, rules: Vec::new() }));
                }
                4 => {
                    let big = std::mem::replace(&mut self.big, 0);
                    let mut e = self.text_elem(depth + 1);
                    self.big = big;
                    if self.s.chance(1, 2) {
                        e.tag = "foo".into();
                    }
                    kids.push(X::E(e));
                }
                _ => kids.push(X::P("pi".into())),
            }
        }
        kids
    }
}

pub fn sel_text(s: &mut Src, sel: &Sel) -> String {
    let mut t = String::new();
    for (i, (c, simple)) in sel.iter().enumerate() {
        if i > 0 {
            match c {
                ' ' => t.push(' '),
                c => {
                    if s.chance(1, 2) {
                        t.push_str(&format!(" {} ", c));
                    } else {
                        t.push(*c);
                    }
                }
            }
        }
        match simple.tag {
            Some(ref n) => t.push_str(n),
            None => {
                if simple.subs.is_empty() || s.chance(1, 4) {
                    t.push('*');
                }
            }
        }
        for sub in &simple.subs {
            match sub {
                Sub::Class(n) => t.push_str(&format!(".{}", n)),
                Sub::Id(n) => t.push_str(&format!("#{}", n)),
                Sub::FirstChild => t.push_str(":first-child"),
                // None of them ever matches in a static document.
                Sub::Hover => t.push_str(*s.pick(&[":hover", ":focus", ":active", ":visited", ":link", ":lang(en)"])),
                Sub::Attr(n, op, v) => {
                    let o = ["", "=", "~=", "|="][*op as usize];
                    if *op == 0 {
                        t.push_str(&format!("[{}]", n));
                    } else {
                        t.push_str(&format!("[{}{}'{}']", n, o, v));
                    }
                }
            }
        }
    }
    t
}

// ---------------------------------------------------------------------------------------------
// Serialiser

const SVG_NS: &str = "http://www.w3.org/2000/svg";
const XLINK_NS: &str = "http://www.w3.org/1999/xlink";
const FOREIGN_NS2: &str = "http://example.com/g";
const FOREIGN_NS: &str = "http://example.com/f";

pub struct Ser<'a> {
    s: &'a mut Src,
    noise: bool,
    prefix: Option<&'static str>,
    xlink: &'static str,
    foreign: &'static str,
    ents: Vec<(String, String)>,
    in_entity: bool,
}

/// Writes the document. With `noise` the spelling varies, without it is plain.
pub fn serialise(doc: &XDoc, s: &mut Src, noise: bool) -> String {
    // One binding for the SVG namespace: roxmltree rejects files that bind it twice.
    let mode = if noise { s.weighted(&[3, 1]) } else { 0 };
    let prefix = match mode {
        0 => None,
        _ => Some(*s.pick(&["svg", "s", "n1"])),
    };
    let def_svg = mode != 1;
    let mut z = Ser {
        prefix,
        xlink: if noise { *s.pick(&["xlink", "xl"]) } else { "xlink" },
        foreign: "f",
        noise,
        ents: Vec::new(),
        in_entity: false,
        s,
    };
    let mut body = String::new();
    for x in &doc.before {
        z.node(&mut body, x, false, false);
        body.push('\n');
    }
    let mut decl: Vec<String> = Vec::new();
    if def_svg {
        decl.push(format!("xmlns={}", z.quoted_uri(SVG_NS)));
    }
    if let Some(p) = z.prefix {
        decl.push(format!("xmlns:{}={}", p, z.quoted_uri(SVG_NS)));
    }
    let u = z.quoted_uri(XLINK_NS);
    decl.push(format!("xmlns:{}={}", z.xlink, u));
    let u = z.quoted_uri(FOREIGN_NS);
    decl.push(format!("xmlns:{}={}", z.foreign, u));
    z.elem(&mut body, &doc.root, def_svg, false, &decl);
    for x in &doc.after {
        body.push('\n');
        z.node(&mut body, x, false, false);
    }
    let mut out = String::new();
    if z.noise && z.s.chance(1, 4) {
        out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    if !z.ents.is_empty() || (z.noise && z.s.chance(1, 12)) {
        out.push_str("<!DOCTYPE svg");
        if !z.ents.is_empty() {
            out.push_str(" [\n");
            for (n, v) in &z.ents {
                let q = if v.contains('\'') { '"' } else { '\'' };
                out.push_str(&format!("<!ENTITY {} {}{}{}>\n", n, q, v, q));
            }
            out.push(']');
        } else {
            out.push_str(" PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\"");
        }
        out.push_str(">\n");
    }
    out.push_str(&body);
    out
}

impl<'a> Ser<'a> {
    fn n(&mut self, num: u64, den: u64) -> bool {
        self.noise && self.s.chance(num, den)
    }

    fn quoted_uri(&mut self, uri: &str) -> String {
        if self.n(1, 3) {
            format!("'{}'", uri)
        } else {
            format!("\"{}\"", uri)
        }
    }

    fn charref(&mut self, c: char) -> String {
        if self.n(1, 2) {
            format!("&#{};", c as u32)
        } else {
            format!("&#x{:x};", c as u32)
        }
    }

    fn entity(&mut self, text: &str) -> String {
        if let Some(e) = self.ents.iter().find(|e| e.1 == text) {
            return format!("&{};", e.0);
        }
        let n = format!("e{}", self.ents.len());
        self.ents.push((n.clone(), text.to_string()));
        format!("&{};", n)
    }

    fn attr_value(&mut self, text: &str) -> String {
        let q = if self.n(1, 2) { '\'' } else { '"' };
        let mut o = String::new();
        o.push(q);
        if self.n(1, 25) && !self.in_entity && !text.is_empty() && text.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == '.') {
            let e = self.entity(text);
            o.push_str(&e);
            o.push(q);
            return o;
        }
        for c in text.chars() {
            let special = c == '<' || c == '&' || c == q;
            if special {
                let named = match c {
                    '<' => "&lt;",
                    '&' => "&amp;",
                    '"' => "&quot;",
                    _ => "&apos;",
                };
                if self.n(1, 3) {
                    let r = self.charref(c);
                    o.push_str(&r);
                } else {
                    o.push_str(named);
                }
            } else if c == '\n' || c == '\t' || c == '\r' {
                let r = self.charref(c);
                o.push_str(&r);
            } else if c == ' ' && self.n(1, 20) {
                o.push(*self.s.pick(&['\n', '\t']));
            } else if c == '>' && self.n(1, 2) {
                o.push_str("&gt;");
            } else if self.n(1, 60) {
                let r = self.charref(c);
                o.push_str(&r);
            } else {
                o.push(c);
            }
        }
        o.push(q);
        o
    }

    fn text(&mut self, out: &mut String, text: &str) {
        let chars: Vec<char> = text.chars().collect();
        let mut i = 0;
        // roxmltree takes more than ten entity references in one text for a loop.
        let mut refs = 0;
        while i < chars.len() {
            let c = chars[i];
            if self.n(1, 25) && !self.in_entity {
                // CDATA for a run without `]]>` and `\r`.
                let k = 1 + self.s.idx(6);
                let run: String = chars[i..(i + k).min(chars.len())].iter().collect();
                if !run.contains("]]>") && !run.contains('\r') && !run.ends_with(']') {
                    out.push_str("<![CDATA[");
                    out.push_str(&run);
                    out.push_str("]]>");
                    i += run.chars().count();
                    continue;
                }
            }
            if self.n(1, 40) && !self.in_entity && refs < 4 {
                let k = 1 + self.s.idx(4);
                let run: String = chars[i..(i + k).min(chars.len())].iter().collect();
                if run.chars().all(|c| c.is_ascii_alphanumeric()) {
                    refs += 1;
                    let e = self.entity(&run);
                    out.push_str(&e);
                    i += run.chars().count();
                    continue;
                }
            }
            match c {
                '<' => out.push_str("&lt;"),
                '&' => out.push_str("&amp;"),
                '\r' => {
                    let r = self.charref(c);
                    out.push_str(&r);
                }
                // xmlparser takes `]>` after a CDATA section for the end of a DOCTYPE.
                ']' if i == 0 || out.ends_with("]]>") => out.push_str("&#93;"),
                '>' if out.ends_with(']') || self.n(1, 3) => out.push_str("&gt;"),
                '\n' if self.n(1, 10) => out.push_str("\r\n"),
                c => {
                    if self.n(1, 50) {
                        let r = self.charref(c);
                        out.push_str(&r);
                    } else {
                        out.push(c);
                    }
                }
            }
            i += 1;
        }
    }

    fn node(&mut self, out: &mut String, x: &X, def_svg: bool, in_text: bool) {
        match x {
            X::E(e) => self.elem(out, e, def_svg, in_text, &[]),
            X::T(t) => self.text(out, t),
            X::C(t) => {
                out.push_str("<!--");
                out.push_str(t);
                out.push_str("-->");
            }
            X::P(t) => {
                out.push_str("<?");
                out.push_str(t);
                out.push_str("?>");
            }
        }
    }

    fn elem(&mut self, out: &mut String, e: &Elem, def_svg: bool, in_text: bool, decl: &[String]) {
        let mut def = def_svg;
        let mut decls: Vec<String> = decl.to_vec();
        let name = match e.ns {
            Ns::Svg => {
                if def && !(self.prefix.is_some() && self.n(1, 3)) {
                    e.tag.clone()
                } else if let Some(p) = self.prefix {
                    format!("{}:{}", p, e.tag)
                } else {
                    def = true;
                    decls.push(format!("xmlns=\"{}\"", SVG_NS));
                    e.tag.clone()
                }
            }
            Ns::Foreign => {
                if self.n(1, 3) {
                    def = false;
                    decls.push(format!("xmlns=\"{}\"", FOREIGN_NS2));
                    e.tag.clone()
                } else {
                    format!("{}:{}", self.foreign, e.tag)
                }
            }
        };
        out.push('<');
        out.push_str(&name);
        for d in &decls {
            out.push(' ');
            out.push_str(d);
        }
        for a in &e.attrs {
            out.push_str(if self.n(1, 8) { *self.s.pick(&["  ", "\n", "\t", "\n    "]) } else { " " });
            let p = match a.ns {
                ANs::None => String::new(),
                ANs::Svg => self.prefix.map(|p| format!("{}:", p)).unwrap_or_default(),
                ANs::Xlink => format!("{}:", self.xlink),
                ANs::Xml => "xml:".into(),
                ANs::Foreign => format!("{}:", self.foreign),
            };
            out.push_str(&p);
            out.push_str(&a.name);
            out.push_str(if self.n(1, 12) { " = " } else { "=" });
            let v = self.attr_value(&a.text);
            out.push_str(&v);
        }
        if e.kids.is_empty() {
            if self.n(1, 4) {
                out.push_str(&format!("></{}>", name));
            } else if self.n(1, 4) {
                out.push_str(" />");
            } else {
                out.push_str("/>");
            }
            return;
        }
        if self.n(1, 10) {
            out.push(' ');
        }
        out.push('>');
        let inside = in_text || (e.ns == Ns::Svg && e.tag == "text");
        let indent = !inside && e.tag != "style" && !["tspan", "tref", "textPath", "altGlyph"].contains(&e.tag.as_str());
        for k in &e.kids {
            if indent && (!self.noise || self.s.chance(1, 2)) {
                out.push('\n');
            }
            if e.tag == "style" {
                if let X::T(t) = k {
                    if self.n(1, 3) && !t.contains("]]>") {
                        out.push_str("<![CDATA[");
                        out.push_str(t);
                        out.push_str("]]>");
                        continue;
                    }
                }
            }
            self.node(out, k, def, inside);
        }
        if indent && (!self.noise || self.s.chance(1, 2)) {
            out.push('\n');
        }
        out.push_str(&format!("</{}>", name));
        if self.n(1, 12) {
            // Space before the closing bracket.
            out.pop();
            out.push_str(" >");
        }
    }
}

/// `Exp::Ref` helper used by models.
pub fn fallback_value(f: PaintFallback) -> svgdom::AttributeValue {
    match f {
        PaintFallback::None => svgdom::AttributeValue::None,
        PaintFallback::CurrentColor => svgdom::AttributeValue::CurrentColor,
        PaintFallback::Color(c) => svgdom::AttributeValue::Color(c),
    }
}
