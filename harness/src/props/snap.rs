//! Snapshots of a document: plain trees that can be compared.

use super::vals::same_value;
use std::collections::BTreeMap;
use svgdom::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Root,
    Elem,
    Text,
    Comment,
}

#[derive(Clone, Debug)]
pub enum V {
    P(AttributeValue),
    Link(usize),
    Func(usize),
    Paint(usize, Option<PaintFallback>),
    /// A link to a node outside the tree.
    Dangling(String),
}

#[derive(Clone, Debug)]
pub struct SN {
    pub kind: K,
    /// SVG names as they are, custom names as `~name`.
    pub tag: String,
    pub id: String,
    /// SVG names as they are, custom names as `~name`. Links hold preorder indices of elements.
    pub attrs: BTreeMap<String, V>,
    pub text: String,
    pub kids: Vec<SN>,
    /// Text outside of a `text` element.
    pub loose: bool,
}

pub fn key(name: &AttributeQName) -> String {
    match *name {
        QName::Id(id) => id.as_str().to_string(),
        QName::Name(ref n) => format!("~{}", n),
    }
}

pub fn tag_key(name: &TagName) -> String {
    match *name {
        QName::Id(id) => id.as_str().to_string(),
        QName::Name(ref n) => format!("~{}", n),
    }
}

pub fn elements(root: &Node, out: &mut Vec<Node>) {
    if root.is_element() {
        out.push(root.clone());
    }
    let mut c = root.first_child();
    while let Some(n) = c {
        elements(&n, out);
        c = n.next_sibling();
    }
}

pub fn snapshot(root: &Node) -> SN {
    let mut list = Vec::new();
    elements(root, &mut list);
    snap_node(root, &list, false)
}

fn snap_node(n: &Node, list: &[Node], in_text: bool) -> SN {
    let kind = match n.node_type() {
        NodeType::Root => K::Root,
        NodeType::Element => K::Elem,
        NodeType::Comment => K::Comment,
        NodeType::Text => K::Text,
    };
    let mut attrs = BTreeMap::new();
    for a in n.attributes().iter() {
        let find = |t: &Node| list.iter().position(|x| x == t);
        let v = match a.value {
            AttributeValue::Link(ref t) => find(t).map(V::Link).unwrap_or_else(|| V::Dangling(t.id().clone())),
            AttributeValue::FuncLink(ref t) => find(t).map(V::Func).unwrap_or_else(|| V::Dangling(t.id().clone())),
            AttributeValue::Paint(ref t, fb) => find(t).map(|i| V::Paint(i, fb)).unwrap_or_else(|| V::Dangling(t.id().clone())),
            ref v => V::P(v.clone()),
        };
        attrs.insert(key(&a.name), v);
    }
    let tag = if kind == K::Elem { tag_key(&n.tag_name()) } else { String::new() };
    let inside = in_text || tag == "text";
    let mut kids = Vec::new();
    let mut c = n.first_child();
    while let Some(x) = c {
        kids.push(snap_node(&x, list, inside));
        c = x.next_sibling();
    }
    SN { kind, tag, id: n.id().clone(), attrs, text: n.text().clone(), kids, loose: !in_text }
}

#[derive(Clone, Copy)]
pub struct Cmp {
    pub tol: f64,
    pub ids: bool,
    pub attrs: bool,
    pub comments: bool,
    /// Text compared exactly (inside `text`), otherwise only without whitespace.
    pub text: bool,
    /// Text (and its absence) matters at all.
    pub any_text: bool,
}

impl Cmp {
    pub fn all(tol: f64) -> Cmp {
        Cmp { tol, ids: true, attrs: true, comments: true, text: true, any_text: true }
    }
}

pub fn show(n: &SN) -> String {
    let mut o = String::new();
    show_to(n, 0, &mut o);
    o
}

fn show_to(n: &SN, d: usize, o: &mut String) {
    for _ in 0..d {
        o.push(' ');
    }
    match n.kind {
        K::Root => o.push_str("root"),
        K::Text => o.push_str(&format!("text {:?}", n.text)),
        K::Comment => o.push_str(&format!("comment {:?}", n.text)),
        K::Elem => {
            o.push_str(&n.tag);
            if !n.id.is_empty() {
                o.push_str(&format!(" id={:?}", n.id));
            }
            for (k, v) in &n.attrs {
                o.push_str(&format!(" {}={}", k, show_v(v)));
            }
        }
    }
    o.push('\n');
    for k in &n.kids {
        show_to(k, d + 1, o);
    }
}

pub fn show_v(v: &V) -> String {
    match v {
        V::P(AttributeValue::String(s)) => format!("{:?}", s),
        V::P(v) => {
            let mut t = format!("{:?}", v);
            t.truncate(t.char_indices().nth(160).map(|x| x.0).unwrap_or(t.len()));
            t
        }
        v => format!("{:?}", v),
    }
}

pub fn same_fb(a: &Option<PaintFallback>, b: &Option<PaintFallback>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(PaintFallback::None), Some(PaintFallback::None)) => true,
        (Some(PaintFallback::CurrentColor), Some(PaintFallback::CurrentColor)) => true,
        (Some(PaintFallback::Color(x)), Some(PaintFallback::Color(y))) => x.red == y.red && x.green == y.green && x.blue == y.blue,
        _ => false,
    }
}

pub fn same_v(a: &V, b: &V, tol: f64) -> bool {
    match (a, b) {
        (V::P(x), V::P(y)) => same_value(x, y, tol),
        (V::Link(x), V::Link(y)) => x == y,
        (V::Func(x), V::Func(y)) => x == y,
        (V::Paint(x, f), V::Paint(y, g)) => x == y && same_fb(f, g),
        (V::Dangling(x), V::Dangling(y)) => x == y,
        _ => false,
    }
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, ' ' | '\n' | '\r' | '\t')).collect()
}

/// Compares expected and actual trees; the first difference as (kind, text).
pub fn diff(e: &SN, a: &SN, c: &Cmp) -> Option<(&'static str, String)> {
    diff_at(e, a, c, "")
}

fn diff_at(e: &SN, a: &SN, c: &Cmp, path: &str) -> Option<(&'static str, String)> {
    let path = format!("{}/{}", path, if e.kind == K::Elem { e.tag.clone() } else { format!("{:?}", e.kind) });
    if e.kind != a.kind {
        return Some(("structure", format!("{}: expected a {:?} node, found {:?} {:?}", path, e.kind, a.kind, if a.kind == K::Elem { &a.tag } else { &a.text })));
    }
    if e.tag != a.tag {
        return Some(("structure", format!("{}: expected element '{}', found '{}'", path, e.tag, a.tag)));
    }
    if c.ids && e.id != a.id {
        return Some(("id", format!("{}: expected id {:?}, found {:?}", path, e.id, a.id)));
    }
    if e.kind == K::Comment && c.comments && e.text != a.text {
        return Some(("comment", format!("{}: expected comment {:?}, found {:?}", path, e.text, a.text)));
    }
    if e.kind == K::Text && c.any_text {
        let same = if c.text && !e.loose { e.text == a.text } else { squash(&e.text) == squash(&a.text) };
        if !same {
            return Some(("text", format!("{}: expected text {:?}, found {:?}", path, e.text, a.text)));
        }
    }
    if c.attrs {
        for (k, v) in &e.attrs {
            match a.attrs.get(k) {
                None => return Some(("attribute", format!("{}: attribute '{}' is missing, expected {}", path, k, show_v(v)))),
                Some(w) => {
                    if !same_v(v, w, c.tol) {
                        return Some(("attribute", format!("{}: attribute '{}': expected {}, found {}", path, k, show_v(v), show_v(w))));
                    }
                }
            }
        }
        for (k, w) in &a.attrs {
            if !e.attrs.contains_key(k) {
                return Some(("attribute", format!("{}: unexpected attribute '{}' = {}", path, k, show_v(w))));
            }
        }
    }
    let keep = |n: &&SN| match n.kind {
        K::Text => c.any_text && (c.text || !squash(&n.text).is_empty()),
        K::Comment => c.comments,
        _ => true,
    };
    let ek: Vec<&SN> = e.kids.iter().filter(keep).collect();
    let ak: Vec<&SN> = a.kids.iter().filter(keep).collect();
    for (x, y) in ek.iter().zip(&ak) {
        if let Some(d) = diff_at(x, y, c, &path) {
            return Some(d);
        }
    }
    if ek.len() != ak.len() {
        let textual = ek.iter().chain(&ak).any(|n| n.kind == K::Text);
        return Some((
            if textual { "text" } else { "structure" },
            format!("{}: expected {} children, found {}", path, ek.len(), ak.len()),
        ));
    }
    None
}
