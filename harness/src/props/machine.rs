//! C05, C06, C08, C09, C10, C19: histories of editing calls against a model.
//!
//! A history is a list of operations over an arena of node handles. Before each operation the
//! real state is read; the model computes the state that has to follow; each property compares
//! the part of the state it speaks about. The next step starts from the real state again.

use super::data::{ATTRIBUTES, ELEMENTS};
use super::snap::{key, same_fb, tag_key};
use super::vals::*;
use super::xml::*;
use crate::engine::*;
use crate::ensure;
use svgdom::*;

#[derive(Clone, Debug)]
pub enum Val {
    Plain(AttributeValue),
    /// Target, fallback, way of passing it.
    Link(u64, Option<PaintFallback>, u8),
}

#[derive(Clone, Debug)]
pub enum Op {
    Elem(usize),
    Node(bool, String),
    Append(u64, u64),
    Prepend(u64, u64),
    Before(u64, u64),
    After(u64, u64),
    Detach(u64),
    Set(u64, usize, Val),
    SetIfNone(u64, usize, Val),
    Unset(u64, usize),
    Id(u64, usize),
    Remove(u64),
    /// Start, mode, mask.
    Drain(u64, u8, u64),
    Copy(u64),
    DeepCopy(u64),
    Text(u64, String),
    Tag(u64, usize),
    /// Changes a stored plain value through the mutable attribute list.
    Poke(u64, u64, AttributeValue),
    /// A call that is documented to panic.
    Refused(u64, u8),
}

#[derive(Clone, Debug)]
pub enum Start {
    Empty,
    Text(String),
}

#[derive(Clone, Debug)]
pub struct History {
    pub start: Start,
    pub ops: Vec<Op>,
}

// ---- Pools

#[derive(Clone, Copy)]
pub enum Nm {
    Svg(AttributeId),
    Own(&'static str),
}

pub const NAMES: &[Nm] = &[
    Nm::Svg(AttributeId::Fill),
    Nm::Svg(AttributeId::Href),
    Nm::Svg(AttributeId::ClipPath),
    Nm::Own("data-a"),
    Nm::Svg(AttributeId::Stroke),
    Nm::Svg(AttributeId::X),
    Nm::Svg(AttributeId::Mask),
    Nm::Own("fill"),
    Nm::Svg(AttributeId::Filter),
    Nm::Svg(AttributeId::Opacity),
    Nm::Own("href"),
    Nm::Svg(AttributeId::MarkerStart),
    Nm::Svg(AttributeId::Width),
    Nm::Own("x"),
    Nm::Svg(AttributeId::Transform),
    Nm::Own("b"),
    Nm::Svg(AttributeId::Class),
    Nm::Own("B"),
    Nm::Own("a;b \"q\" 'r'"),
    Nm::Own("é:_.-1<&"),
    Nm::Own("Fill"),
    Nm::Own("#a\t.b\r]"),
    Nm::Own(".x"),
    Nm::Own("-y "),
    Nm::Own("a-name-that-is-longer-than-any-name-of-an-attribute-in-the-specification"),
];

impl Nm {
    pub fn r(&self) -> AttributeQNameRef<'static> {
        match *self {
            Nm::Svg(id) => QNameRef::Id(id),
            Nm::Own(n) => QNameRef::Name(n),
        }
    }
    fn key(&self) -> String {
        match *self {
            Nm::Svg(id) => id.as_str().to_string(),
            Nm::Own(n) => format!("~{}", n),
        }
    }
}

/// A name by its number: the short list first, then every SVG attribute.
pub fn nm(i: usize) -> Nm {
    if i < NAMES.len() {
        NAMES[i]
    } else {
        Nm::Svg(AttributeId::from_str(ATTRIBUTES[(i - NAMES.len()) % ATTRIBUTES.len()]).unwrap())
    }
}

fn any_name(s: &mut Src) -> usize {
    if s.chance(1, 8) {
        NAMES.len() + s.idx(ATTRIBUTES.len())
    } else {
        s.idx(NAMES.len())
    }
}

fn tg(i: usize) -> &'static str {
    if i < TAGS.len() {
        TAGS[i]
    } else {
        ELEMENTS[(i - TAGS.len()) % ELEMENTS.len()]
    }
}

fn any_tag(s: &mut Src) -> usize {
    if s.chance(1, 8) {
        TAGS.len() + s.idx(ELEMENTS.len())
    } else {
        s.idx(TAGS.len())
    }
}

const TAGS: &[&str] = &["g", "rect", "svg", "use", "text", "~custom", "linearGradient", "~g", "defs", "tspan"];
const IDS: &[&str] = &["a", "b", "c", "d", "e", "f", "", "b", "A", "aa", " a", "b ", "é", "x y", "a\r\nb", "\n", "a-very-long-identifier-that-does-not-fit-into-a-small-buffer", "1", "+1", "x\"y", "it's", "a;b", "<id>", "#a", "50%", "a,b", "a/b", "a:b", "_", ".x", "--", "a&b", "\t", "12", "url(#a)", "[]", "😀",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"];

fn any_text(s: &mut Src) -> String {
    if s.chance(1, 3) {
        wild(s)
    } else {
        s.pick(&["t", "", "u v", " ", "é<"]).to_string()
    }
}

fn make_elem(doc: &mut Document, tag: &str) -> Node {
    if tag.starts_with('~') {
        doc.create_element(&tag[1..])
    } else {
        doc.create_element(ElementId::from_str(tag).unwrap())
    }
}

fn set_tag(n: &mut Node, tag: &str) {
    if tag.starts_with('~') {
        n.set_tag_name(&tag[1..]);
    } else {
        n.set_tag_name(ElementId::from_str(tag).unwrap());
    }
}

// ---- Generation

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Tree,
    Attrs,
    Links,
    Remove,
    Copy,
    Data,
    All,
}

fn plain(s: &mut Src) -> AttributeValue {
    match s.idx(9) {
        8 => {
            let kinds = ["preserveAspectRatio", "width", "stroke-dasharray", "orient", "stdDeviation", "d", "points", "transform", "viewBox"];
            let a = if s.chance(1, 2) { *s.pick(&kinds) } else { *s.pick(TYPED_ATTRS) };
            match value(s, "rect", a, &VCfg { ids: &[], refs: 0, bad: 0, css: false }).exp {
                Exp::Val(v) => v,
                _ => AttributeValue::Inherit,
            }
        }
        0 => AttributeValue::Number(s.range(0, 9) as f64),
        1 if s.chance(1, 3) => AttributeValue::String(wild(s)),
        1 => AttributeValue::String(s.pick(&["v", "", "w", "url(#a)"]).to_string()),
        2 => AttributeValue::None,
        3 => AttributeValue::Length(Length::new(s.range(-3, 9) as f64, LengthUnit::Px)),
        4 => AttributeValue::Color(Color::new(s.draw(256) as u8, 0, 7)),
        5 => AttributeValue::NumberList(NumberList(vec![1.0, s.range(0, 3) as f64])),
        6 => AttributeValue::CurrentColor,
        _ => AttributeValue::Inherit,
    }
}

fn val(s: &mut Src, link: u64) -> Val {
    if s.chance(link, 12) {
        let fb = match s.weighted(&[4, 1, 1, 1]) {
            0 => None,
            1 => Some(PaintFallback::None),
            2 => Some(PaintFallback::CurrentColor),
            _ => Some(PaintFallback::Color(Color::new(1, 2, s.draw(9) as u8))),
        };
        Val::Link(s.draw(64), fb, s.draw(5) as u8)
    } else {
        Val::Plain(plain(s))
    }
}

pub fn gen_history(s: &mut Src, f: Focus) -> History {
    // Weights of: Elem Node Append Prepend Before After Detach Set SetIfNone Unset Id Remove Drain Copy DeepCopy Text Tag Poke Refused
    let w: [u64; 19] = match f {
        Focus::Tree => [3, 2, 8, 5, 8, 8, 4, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0],
        Focus::Attrs => [1, 0, 1, 0, 0, 0, 0, 14, 6, 8, 1, 1, 0, 0, 0, 0, 0, 3, 0],
        Focus::Links => [2, 1, 3, 1, 1, 1, 1, 20, 5, 6, 4, 2, 1, 1, 1, 0, 0, 1, 0],
        Focus::Remove => [2, 1, 6, 1, 1, 1, 1, 12, 0, 1, 3, 4, 3, 0, 1, 1, 0, 0, 0],
        Focus::Copy => [2, 2, 6, 1, 1, 1, 2, 8, 1, 3, 3, 1, 0, 4, 6, 4, 3, 1, 0],
        Focus::Data => [3, 4, 5, 2, 1, 1, 2, 6, 1, 2, 8, 1, 1, 1, 2, 8, 8, 1, 2],
        Focus::All => [2, 2, 6, 2, 2, 2, 2, 14, 2, 3, 3, 2, 1, 1, 2, 1, 1, 1, 0],
    };
    let link = match f {
        Focus::Tree => 1,
        Focus::Attrs => 3,
        _ => 9,
    };
    let mut ops = Vec::new();
    let parsed = s.chance(1, 3);
    let start = if parsed {
        let mut c = Cfg::basic();
        c.max_elems = 9;
        c.attrs = 2;
        c.foreign_attrs = 0;
        c.refs = 9;
        c.bad = 0;
        c.classes = 0;
        c.odd_text_kids = false;
        c.props = vec!["href", "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "x", "opacity"];
        let d = gen_doc(s, &c);
        Start::Text(serialise(&d, s, false))
    } else {
        // A small tree to work on.
        let n = if s.chance(1, 30) { s.idx(60) } else { 1 + s.idx(6) };
        // Anywhere, or a chain, or all children of one node.
        let deep = s.weighted(&[6, 1, 1]);
        for i in 0..n {
            ops.push(Op::Elem(any_tag(s)));
            let to = match deep {
                0 => s.draw(64),
                1 => i as u64,
                _ => 0,
            };
            ops.push(Op::Append(to, 1000));
            if f != Focus::Tree {
                ops.push(Op::Id(1000, s.idx(6)));
            }
        }
        Start::Empty
    };
    let n = 1 + s.count_long(14, 40, 120);
    // Sometimes most links go to one element, or most calls concern one element.
    let hot = if s.chance(1, 6) { Some(s.draw(8)) } else { None };
    let only = if s.chance(1, 12) { Some(s.draw(8)) } else { None };
    // Sometimes many of a kind: children of one node, attributes of one element, users of one element.
    let burst = if s.chance(1, 300) { Some((s.idx(n), 18 + s.idx(40), s.weighted(&[2, if f == Focus::Tree { 0 } else { 3 }, if link > 3 { 3 } else { 0 }]), s.draw(4))) } else { None };
    for i in 0..n {
        if let Some((at, many, kind, to)) = burst {
            if at == i {
                let first = s.idx(ATTRIBUTES.len());
                for j in 0..many {
                    match kind {
                        0 => {
                            ops.push(Op::Elem(any_tag(s)));
                            ops.push(if s.chance(1, 8) { Op::Prepend(to, 1000) } else { Op::Append(to, 1000) });
                        }
                        1 => ops.push(Op::Set(to, NAMES.len() + first + j, val(s, link / 9))),
                        _ => {
                            ops.push(Op::Elem(any_tag(s)));
                            if s.chance(3, 4) {
                                ops.push(Op::Append(s.draw(64), 1000));
                            }
                            ops.push(Op::Set(1000, any_name(s), Val::Link(to, None, 0)));
                        }
                    }
                }
            }
        }
        let mut op = match s.weighted(&w) {
            0 => Op::Elem(any_tag(s)),
            1 => Op::Node(s.chance(1, 2), any_text(s)),
            2 => Op::Append(s.draw(64), s.draw(64)),
            3 => Op::Prepend(s.draw(64), s.draw(64)),
            4 => Op::Before(s.draw(64), s.draw(64)),
            5 => Op::After(s.draw(64), s.draw(64)),
            6 => Op::Detach(s.draw(64)),
            7 => Op::Set(s.draw(192), any_name(s), val(s, link)),
            8 => Op::SetIfNone(s.draw(192), any_name(s), val(s, link)),
            9 => Op::Unset(s.draw(64), any_name(s)),
            10 => Op::Id(s.draw(64), if s.chance(3, 4) { s.idx(10) } else { s.idx(IDS.len()) }),
            11 => Op::Remove(s.draw(64)),
            12 => Op::Drain(s.draw(64), s.draw(4) as u8, s.draw(1 << 20)),
            13 => Op::Copy(s.draw(64)),
            14 => Op::DeepCopy(s.draw(64)),
            15 => Op::Text(s.draw(128), any_text(s)),
            17 => Op::Poke(s.draw(64), s.draw(64), plain(s)),
            18 => Op::Refused(s.draw(64), s.draw(4) as u8),
            _ => Op::Tag(s.draw(64), any_tag(s)),
        };
        if let Op::Set(ref mut a, _, ref mut v) | Op::SetIfNone(ref mut a, _, ref mut v) = op {
            if let (Some(h), Val::Link(ref mut t, _, _)) = (hot, v) {
                if s.chance(3, 4) {
                    *t = h;
                }
            }
            if let Some(o) = only {
                if s.chance(3, 4) {
                    *a = *a / 64 * 64 + o;
                }
            }
        }
        ops.push(op);
    }
    History { start, ops }
}

pub fn show_history(h: &History) -> String {
    let mut o = match h.start {
        Start::Empty => "empty document\n".to_string(),
        Start::Text(ref t) => format!("parsed: {}\n", t),
    };
    for op in &h.ops {
        o.push_str(&format!("{:?}\n", op));
    }
    o
}

// ---- State

#[derive(Clone, Debug)]
pub enum AV {
    P(AttributeValue),
    /// Kind (l, f, p), target, fallback.
    L(char, usize, Option<PaintFallback>),
}

#[derive(Clone, Debug)]
pub struct NS {
    pub kind: NodeType,
    pub tag: String,
    pub id: String,
    pub text: String,
    pub attrs: Vec<(String, AV)>,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub users: Vec<usize>,
    /// Removed from the document by remove_node or drain.
    pub gone: bool,
}

pub type St = Vec<NS>;

pub const LOST: usize = 99_999;
const MAX_NODES: usize = 140;

fn same_av(a: &AV, b: &AV) -> bool {
    match (a, b) {
        (AV::P(x), AV::P(y)) => same_value(x, y, 0.0),
        (AV::L(k, t, f), AV::L(l, u, g)) => k == l && t == u && same_fb(f, g),
        _ => false,
    }
}

fn same_attrs(a: &[(String, AV)], b: &[(String, AV)]) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.iter().filter(|(l, _)| l == k).count() == 1 && b.iter().any(|(l, w)| l == k && same_av(v, w)))
}

fn get<'a>(n: &'a NS, k: &str) -> Option<&'a AV> {
    n.attrs.iter().find(|(l, _)| l == k).map(|x| &x.1)
}

fn subtree(st: &St, i: usize) -> Vec<usize> {
    let mut out = vec![i];
    let mut k = 0;
    while k < out.len() {
        for c in &st[out[k]].kids {
            if *c < st.len() && !out.contains(c) {
                out.push(*c);
            }
        }
        k += 1;
    }
    out
}

fn is_ancestor_or_self(st: &St, a: usize, of: usize) -> bool {
    let mut x = Some(of);
    let mut steps = 0;
    while let Some(i) = x {
        if i == a || i >= st.len() || steps > 3000 {
            return true;
        }
        x = st[i].parent;
        steps += 1;
    }
    false
}

pub struct M {
    pub doc: Document,
    pub nodes: Vec<Node>,
}

impl M {
    pub fn find(&self, n: &Node) -> usize {
        self.nodes.iter().position(|x| x == n).unwrap_or(LOST)
    }

    pub fn start(h: &History) -> Option<M> {
        match h.start {
            Start::Empty => {
                let doc = Document::new();
                let root = doc.root();
                Some(M { doc, nodes: vec![root] })
            }
            Start::Text(ref t) => {
                let m = M::around(Document::from_str(t).ok()?);
                if m.nodes.len() > 3000 {
                    return None;
                }
                Some(m)
            }
        }
    }

    /// All nodes of a document, in document order.
    pub fn around(doc: Document) -> M {
        fn walk(n: &Node, out: &mut Vec<Node>) {
            out.push(n.clone());
            let mut c = n.first_child();
            while let Some(x) = c {
                if out.len() > 3000 {
                    return;
                }
                walk(&x, out);
                c = x.next_sibling();
            }
        }
        let mut nodes = Vec::new();
        walk(&doc.root(), &mut nodes);
        M { doc, nodes }
    }

    /// Reads the real state.
    pub fn observe(&self) -> St {
        self.nodes
            .iter()
            .map(|n| {
                let mut kids = Vec::new();
                let mut c = n.first_child();
                while let Some(x) = c {
                    kids.push(self.find(&x));
                    if kids.len() > self.nodes.len() + 2 {
                        break;
                    }
                    c = x.next_sibling();
                }
                let attrs = n
                    .attributes()
                    .iter()
                    .map(|a| {
                        let v = match a.value {
                            AttributeValue::Link(ref t) => AV::L('l', self.find(t), None),
                            AttributeValue::FuncLink(ref t) => AV::L('f', self.find(t), None),
                            AttributeValue::Paint(ref t, fb) => AV::L('p', self.find(t), fb),
                            ref v => AV::P(v.clone()),
                        };
                        (key(&a.name), v)
                    })
                    .collect();
                let mut users: Vec<usize> = n.linked_nodes().iter().map(|u| self.find(u)).collect();
                users.sort();
                NS {
                    kind: n.node_type(),
                    tag: if n.is_element() { tag_key(&n.tag_name()) } else { String::new() },
                    id: n.id().clone(),
                    text: n.text().clone(),
                    attrs,
                    parent: n.parent().map(|p| self.find(&p)),
                    kids,
                    users,
                    gone: n.is_detached(),
                }
            })
            .collect()
    }

    fn attribute(&self, name: usize, v: &Val, target: usize) -> Attribute {
        let q = nm(name).r();
        match v {
            Val::Plain(v) => Attribute::new(q, v.clone()),
            Val::Link(_, fb, way) => {
                let t = self.nodes[target].clone();
                match way {
                    0 => match nm(name) {
                        Nm::Svg(id) => (id, t).into(),
                        Nm::Own(n) => (n, t).into(),
                    },
                    1 => Attribute::new(q, AttributeValue::Paint(t, *fb)),
                    2 => Attribute::new(q, AttributeValue::Link(t)),
                    3 => Attribute::new(q, AttributeValue::FuncLink(t)),
                    _ => match nm(name) {
                        Nm::Svg(id) => (id, (t, *fb)).into(),
                        Nm::Own(n) => (n, (t, *fb)).into(),
                    },
                }
            }
        }
    }
}

/// What an operation was resolved to, and what has to follow.
pub enum Did {
    Skip,
    Tree,
    Attr { node: usize, name: usize, link: Option<usize>, expect_err: Option<Vec<&'static str>>, result: Result<(), String>, exact: bool },
    Id,
    Text,
    Removed { gone: Vec<usize>, expected: usize, returned: usize },
    Refused { panicked: bool },
    Copied { from: usize, to: usize, deep: bool },
}

fn pick<F: Fn(usize, &NS) -> bool>(st: &St, sel: u64, ok: F) -> Option<usize> {
    if sel == 1000 {
        let i = st.len() - 1;
        return if ok(i, &st[i]) { Some(i) } else { None };
    }
    let c: Vec<usize> = (0..st.len()).filter(|i| !st[*i].gone && ok(*i, &st[*i])).collect();
    if c.is_empty() {
        None
    } else {
        Some(c[sel as usize % c.len()])
    }
}

fn link_errors(st: &St, a: usize, t: usize) -> Vec<&'static str> {
    let mut e = Vec::new();
    if st[t].id.is_empty() {
        e.push("id");
    }
    if a == t || (!st[t].id.is_empty() && st[a].id == st[t].id) || st[a].users.contains(&t) {
        e.push("cross");
    }
    e
}

fn link_kind(name: usize, fb: Option<PaintFallback>) -> (char, Option<PaintFallback>) {
    match nm(name) {
        Nm::Svg(AttributeId::Href) => ('l', None),
        Nm::Svg(AttributeId::Fill) | Nm::Svg(AttributeId::Stroke) => ('p', fb),
        _ => ('f', None),
    }
}

impl M {
    /// Applies the operation to the real document and to `st`, which becomes the expected state.
    pub fn apply(&mut self, op: &Op, st: &mut St) -> Did {
        let elem = |_: usize, n: &NS| n.kind == NodeType::Element;
        let fresh = |kind, tag: String, text: String| NS { kind, tag, id: String::new(), text, attrs: Vec::new(), parent: None, kids: Vec::new(), users: Vec::new(), gone: false };
        fn unlink(st: &mut St, b: usize) {
            if let Some(p) = st[b].parent {
                st[p].kids.retain(|x| *x != b);
            }
            st[b].parent = None;
        }
        match op {
            Op::Elem(t) => {
                if self.nodes.len() >= MAX_NODES {
                    return Did::Skip;
                }
                let n = make_elem(&mut self.doc, tg(*t));
                self.nodes.push(n);
                st.push(fresh(NodeType::Element, tg(*t).to_string(), String::new()));
                Did::Tree
            }
            Op::Node(comment, text) => {
                if self.nodes.len() >= MAX_NODES {
                    return Did::Skip;
                }
                let k = if *comment { NodeType::Comment } else { NodeType::Text };
                let n = self.doc.create_node(k, text.as_str());
                self.nodes.push(n);
                st.push(fresh(k, String::new(), text.clone()));
                Did::Tree
            }
            Op::Append(a, b) | Op::Prepend(a, b) => {
                let b = match pick(st, *b, |i, _| i != 0) {
                    Some(b) => b,
                    None => return Did::Skip,
                };
                let leaf_too = *a % 16 == 15;
                let a = match pick(st, *a, |i, n| (leaf_too || n.kind == NodeType::Element || n.kind == NodeType::Root) && !is_ancestor_or_self(st, b, i)) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let (mut x, y) = (self.nodes[a].clone(), self.nodes[b].clone());
                unlink(st, b);
                st[b].parent = Some(a);
                if let Op::Append(..) = op {
                    st[a].kids.push(b);
                    x.append(y);
                } else {
                    st[a].kids.insert(0, b);
                    x.prepend(y);
                }
                Did::Tree
            }
            Op::Before(a, b) | Op::After(a, b) => {
                let b = match pick(st, *b, |i, _| i != 0) {
                    Some(b) => b,
                    None => return Did::Skip,
                };
                let a = match pick(st, *a, |i, n| n.parent.is_some() && !is_ancestor_or_self(st, b, i)) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let (mut x, y) = (self.nodes[a].clone(), self.nodes[b].clone());
                unlink(st, b);
                let p = st[a].parent.unwrap();
                st[b].parent = Some(p);
                let at = st[p].kids.iter().position(|k| *k == a).unwrap_or(0);
                if let Op::Before(..) = op {
                    st[p].kids.insert(at, b);
                    x.insert_before(y);
                } else {
                    st[p].kids.insert(at + 1, b);
                    x.insert_after(y);
                }
                Did::Tree
            }
            Op::Detach(a) => {
                let a = match pick(st, *a, |i, _| i != 0) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                unlink(st, a);
                self.nodes[a].clone().detach();
                Did::Tree
            }
            Op::Set(a, name, v) | Op::SetIfNone(a, name, v) => {
                let call = *a / 64;
                let a = match pick(st, *a, elem) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let if_none = if let Op::SetIfNone(..) = op { true } else { false };
                let k = nm(*name).key();
                let target = match v {
                    Val::Plain(_) => None,
                    Val::Link(t, _, _) => pick(st, *t, elem),
                };
                let errs = target.map(|t| link_errors(st, a, t)).unwrap_or_default();
                let exists = get(&st[a], &k).is_some();
                // Documented to panic on an error.
                let unchecked = if_none || call == 2;
                let attr = self.attribute(*name, v, target.unwrap_or(0));
                let mut x = self.nodes[a].clone();
                let mut exact = true;
                if errs.is_empty() && !(if_none && exists) {
                    if let Some(AV::L(_, t, _)) = get(&st[a], &k).cloned() {
                        if t < st.len() {
                            if let Some(p) = st[t].users.iter().position(|u| *u == a) {
                                st[t].users.remove(p);
                            }
                        }
                    }
                    let nv = match v {
                        Val::Plain(v) => AV::P(v.clone()),
                        Val::Link(_, fb, way) => {
                            let (kind, _) = link_kind(*name, None);
                            let fb = if (*way == 1 || *way == 4) && kind == 'p' { *fb } else { None };
                            exact = match way {
                                0 => true,
                                1 | 4 => kind == 'p',
                                2 => kind == 'l',
                                _ => kind == 'f',
                            };
                            AV::L(kind, target.unwrap(), fb)
                        }
                    };
                    match st[a].attrs.iter_mut().find(|x| x.0 == k) {
                        Some(x) => x.1 = nv,
                        None => st[a].attrs.push((k, nv)),
                    }
                    if let Some(t) = target {
                        st[t].users.push(a);
                        st[t].users.sort();
                    }
                }
                let result = if unchecked {
                    let r = no_panic(|| if if_none { x.set_attribute_if_none(attr) } else { x.set_attribute(attr) });
                    if let (Err(ref msg), true) = (&r, errs.is_empty() || (if_none && exists)) {
                        panic!("{}", msg);
                    }
                    r.map_err(|_| "panic".to_string())
                } else {
                    x.set_attribute_checked(attr).map_err(|e| match e {
                        Error::ElementMustHaveAnId => "id".to_string(),
                        Error::ElementCrosslink => "cross".to_string(),
                    })
                };
                let errs = if unchecked && !errs.is_empty() { vec!["panic"] } else { errs };
                Did::Attr {
                    node: a,
                    name: *name,
                    link: target,
                    expect_err: if errs.is_empty() || (if_none && exists) { None } else { Some(errs) },
                    result,
                    exact,
                }
            }
            Op::Unset(a, name) => {
                let mut k = nm(*name).key();
                // Mostly attributes that are there.
                let near = *a % 3 != 0;
                let a = if *name >= NAMES.len() && near {
                    match pick(st, *a / 3, |i, n| elem(i, n) && !n.attrs.is_empty()) {
                        Some(a) => {
                            k = st[a].attrs[*name % st[a].attrs.len()].0.clone();
                            a
                        }
                        None => return Did::Skip,
                    }
                } else {
                    match pick(st, *a / 3, |i, n| elem(i, n) && (!near || get(n, &k).is_some())) {
                        Some(a) => a,
                        None => return Did::Skip,
                    }
                };
                if let Some(AV::L(_, t, _)) = get(&st[a], &k).cloned() {
                    if t < st.len() {
                        if let Some(p) = st[t].users.iter().position(|u| *u == a) {
                            st[t].users.remove(p);
                        }
                    }
                }
                st[a].attrs.retain(|x| x.0 != k);
                let mut x = self.nodes[a].clone();
                if k.starts_with('~') {
                    x.remove_attribute(&k[1..]);
                } else {
                    x.remove_attribute(AttributeId::from_str(&k).unwrap());
                }
                Did::Attr { node: a, name: *name, link: None, expect_err: None, result: Ok(()), exact: true }
            }
            Op::Id(a, id) => {
                let id = IDS[*id];
                let a = match pick(st, *a, |i, n| elem(i, n) && (!id.is_empty() || n.users.is_empty())) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                st[a].id = id.to_string();
                self.nodes[a].clone().set_id(id);
                Did::Id
            }
            Op::Remove(a) => {
                let a = match pick(st, *a, |i, _| i != 0) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let gone = subtree(st, a);
                unlink(st, a);
                model_remove(st, &gone);
                self.doc.remove_node(self.nodes[a].clone());
                Did::Removed { gone, expected: 0, returned: 0 }
            }
            Op::Drain(a, mode, mask) => {
                let a = match pick(st, *a, |_, n| !n.kids.is_empty()) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let hit: Vec<usize> = (0..st.len())
                    .filter(|i| match mode {
                        0 => mask >> (i % 20) & 1 == 1,
                        1 => mask >> (i % 20) & 3 == 3,
                        2 => st[*i].tag == TAGS[*mask as usize % TAGS.len()],
                        _ => st[*i].kind == [NodeType::Text, NodeType::Comment, NodeType::Element][*mask as usize % 3],
                    })
                    .collect();
                let mut tops = Vec::new();
                fn find(st: &St, i: usize, hit: &[usize], out: &mut Vec<usize>) {
                    for k in &st[i].kids {
                        if hit.contains(k) {
                            out.push(*k);
                        } else {
                            find(st, *k, hit, out);
                        }
                    }
                }
                find(st, a, &hit, &mut tops);
                let mut gone = Vec::new();
                for t in &tops {
                    gone.extend(subtree(st, *t));
                }
                for t in &tops {
                    unlink(st, *t);
                }
                model_remove(st, &gone);
                let hn: Vec<Node> = hit.iter().map(|i| self.nodes[*i].clone()).collect();
                let returned = self.doc.drain(self.nodes[a].clone(), |n| hn.iter().any(|x| x == n));
                Did::Removed { gone, expected: tops.len(), returned }
            }
            Op::Copy(a) | Op::DeepCopy(a) => {
                let a = match pick(st, *a, |i, _| i != 0) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let deep = if let Op::DeepCopy(..) = op { true } else { false };
                let size = if deep { subtree(st, a).len() } else { 1 };
                if self.nodes.len() + size > MAX_NODES {
                    return Did::Skip;
                }
                let to = st.len();
                model_copy(st, a, deep);
                let x = self.nodes[a].clone();
                let c = if deep { self.doc.copy_node_deep(x) } else { self.doc.copy_node(x) };
                // New nodes in preorder.
                fn add(n: &Node, out: &mut Vec<Node>) {
                    if out.len() > 300 {
                        return;
                    }
                    out.push(n.clone());
                    let mut k = n.first_child();
                    while let Some(x) = k {
                        add(&x, out);
                        k = x.next_sibling();
                    }
                }
                let mut list = Vec::new();
                add(&c, &mut list);
                self.nodes.extend(list);
                Did::Copied { from: a, to, deep }
            }
            Op::Text(a, t) => {
                let by_ref = *a >= 64;
                let a = match pick(st, *a, |_, n| n.kind == NodeType::Text || n.kind == NodeType::Comment) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                st[a].text = t.clone();
                let mut x = self.nodes[a].clone();
                if by_ref {
                    *x.text_mut() = t.clone();
                } else {
                    x.set_text(t);
                }
                Did::Text
            }
            Op::Poke(a, w, v) => {
                let is_plain = |n: &NS| n.attrs.iter().any(|(_, v)| if let AV::P(..) = v { true } else { false });
                let a = match pick(st, *a, |i, n| elem(i, n) && is_plain(n)) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let spots: Vec<usize> = (0..st[a].attrs.len()).filter(|i| if let AV::P(..) = st[a].attrs[*i].1 { true } else { false }).collect();
                let at = spots[*w as usize / 4 % spots.len()];
                st[a].attrs[at].1 = AV::P(v.clone());
                let k = st[a].attrs[at].0.clone();
                let r: AttributeQNameRef = if k.starts_with('~') { QNameRef::Name(&k[1..]) } else { QNameRef::Id(AttributeId::from_str(&k).unwrap()) };
                let mut x = self.nodes[a].clone();
                let mut attrs = x.attributes_mut();
                match (w % 4, k.starts_with('~')) {
                    (0, _) => {
                        if let Some(x) = attrs.get_mut(r) {
                            x.value = v.clone();
                        }
                    }
                    (1, _) => {
                        if let Some(x) = attrs.get_value_mut(r) {
                            *x = v.clone();
                        }
                    }
                    (2, false) => {
                        for (id, x) in attrs.iter_mut().svg() {
                            if id.as_str() == k {
                                x.value = v.clone();
                            }
                        }
                    }
                    _ => {
                        for x in attrs.iter_mut() {
                            if key(&x.name) == k {
                                x.value = v.clone();
                            }
                        }
                    }
                }
                drop(attrs);
                Did::Attr { node: a, name: 0, link: None, expect_err: None, result: Ok(()), exact: true }
            }
            Op::Refused(a, what) => {
                let a = match pick(st, *a, elem) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                let mut x = self.nodes[a].clone();
                let doc = &mut self.doc;
                let r = no_panic(|| match what {
                    0 => x.set_tag_name(""),
                    1 => drop(doc.create_element("")),
                    2 => drop(doc.create_node(NodeType::Element, "t")),
                    _ => drop(doc.create_node(NodeType::Root, "t")),
                });
                Did::Refused { panicked: r.is_err() }
            }
            Op::Tag(a, t) => {
                let a = match pick(st, *a, elem) {
                    Some(a) => a,
                    None => return Did::Skip,
                };
                st[a].tag = tg(*t).to_string();
                set_tag(&mut self.nodes[a].clone(), tg(*t));
                Did::Text
            }
        }
    }
}

fn model_remove(st: &mut St, gone: &[usize]) {
    for g in gone {
        st[*g].gone = true;
    }
    for i in 0..st.len() {
        let out = st[i].gone;
        let g = gone.contains(&i);
        if out && !g {
            continue;
        }
        st[i].attrs.retain(|(_, v)| match v {
            AV::L(_, t, _) => !g && !gone.contains(t),
            _ => true,
        });
    }
    for i in 0..st.len() {
        if gone.contains(&i) {
            st[i].users.clear();
        } else {
            st[i].users.retain(|u| !gone.contains(u));
        }
    }
}

fn model_copy(st: &mut St, a: usize, deep: bool) -> usize {
    let to = st.len();
    let mut n = st[a].clone();
    n.id = String::new();
    n.parent = None;
    n.users = Vec::new();
    n.kids = Vec::new();
    let targets: Vec<usize> = n.attrs.iter().filter_map(|(_, v)| if let AV::L(_, t, _) = v { Some(*t) } else { None }).collect();
    st.push(n);
    for t in targets {
        if t < st.len() {
            st[t].users.push(to);
            st[t].users.sort();
        }
    }
    if deep {
        for k in st[a].kids.clone() {
            let c = model_copy(st, k, true);
            st[c].parent = Some(to);
            st[to].kids.push(c);
        }
    }
    to
}

pub fn describe(st: &St) -> String {
    let mut o = String::new();
    for (i, n) in st.iter().enumerate() {
        o.push_str(&format!(
            "  {} {:?} {} id={:?} parent={:?} kids={:?} users={:?} attrs={:?}{}{}\n",
            i,
            n.kind,
            n.tag,
            n.id,
            n.parent,
            n.kids,
            n.users,
            n.attrs.iter().map(|(k, v)| format!("{}={}", k, match v { AV::P(v) => format!("{:?}", v), AV::L(k, t, f) => format!("{}->{} {:?}", k, t, f) })).collect::<Vec<_>>(),
            if n.text.is_empty() { String::new() } else { format!(" text={:?}", n.text) },
            if n.gone { " gone" } else { "" }
        ));
    }
    o
}

macro_rules! step_fail {
    ($sig:expr, $i:expr, $op:expr, $pre:expr, $exp:expr, $act:expr, $($arg:tt)+) => {
        return fail($sig, format!("step {} {:?}: {}\nbefore:\n{}expected:\n{}found:\n{}", $i, $op, format!($($arg)+), describe($pre), describe($exp), describe($act)))
    };
}

type StepCheck = fn(&M, &Did, &St, &St, &St) -> Result<(), (String, String)>;

/// Runs a history; `check` judges each step. Panics count when `owns` says that the call is the
/// subject of the property, otherwise they end the history.
fn run_history(h: &History, owns: fn(&Op) -> bool, check: StepCheck, ctx: &mut Ctx) -> R {
    let mut m = match no_panic(|| M::start(h)) {
        Ok(Some(m)) => m,
        _ => return Ok(()),
    };
    let st = m.observe();
    if let Err((sig, msg)) = check(&m, &Did::Skip, &st, &st, &st) {
        return fail(&sig, format!("at the start: {}\nfound:\n{}", msg, describe(&st)));
    }
    let mut done = 0;
    for (i, op) in h.ops.iter().enumerate() {
        let pre = m.observe();
        let mut exp = pre.clone();
        let did = match no_panic(|| m.apply(op, &mut exp)) {
            Ok(d) => d,
            Err(msg) => {
                if owns(op) {
                    return fail("panic", format!("step {} {:?} panicked: {}\nbefore:\n{}", i, op, msg, describe(&pre)));
                }
                ctx.label("ended by a panic of another call");
                return Ok(());
            }
        };
        if let Did::Skip = did {
            continue;
        }
        done += 1;
        let act = m.observe();
        match no_panic(|| check(&m, &did, &pre, &exp, &act)) {
            Ok(Ok(())) => {}
            Ok(Err((sig, msg))) => step_fail!(&sig, i, op, &pre, &exp, &act, "{}", msg),
            Err(msg) => step_fail!("panic", i, op, &pre, &exp, &act, "a query panicked: {}", msg),
        }
        if act.iter().any(|n| n.kids.contains(&LOST) || n.parent == Some(LOST)) {
            ctx.label("ended by an unknown node");
            return Ok(());
        }
    }
    if done >= 5 {
        ctx.nontrivial = true;
    }
    if done >= 15 {
        ctx.label("15 or more effective calls");
    }
    Ok(())
}

type Ck = Result<(), (String, String)>;

macro_rules! want {
    ($cond:expr, $sig:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(($sig.to_string(), format!($($arg)+)));
        }
    };
}

// ---- C06

fn check_tree(m: &M, did: &Did, _pre: &St, exp: &St, act: &St) -> Ck {
    // Removal and copying are other properties; the queries still have to be consistent.
    let judged = match did {
        Did::Tree | Did::Skip => true,
        _ => false,
    };
    want!(!judged || exp.len() == act.len(), "shape", "{} nodes instead of {}", act.len(), exp.len());
    let live: Vec<usize> = (0..act.len()).filter(|i| !act[*i].gone).collect();
    if judged {
        for i in &live {
            want!(exp[*i].kids == act[*i].kids, "shape", "node {}: children {:?} instead of {:?}", i, act[*i].kids, exp[*i].kids);
            want!(exp[*i].parent == act[*i].parent, "shape", "node {}: parent {:?} instead of {:?}", i, act[*i].parent, exp[*i].parent);
            want!(exp[*i].kind == act[*i].kind && exp[*i].tag == act[*i].tag && exp[*i].text == act[*i].text, "content", "node {}: its type, name or text changed", i);
        }
    }
    // All queries describe the same tree.
    for i in &live {
        let i = *i;
        let n = &m.nodes[i];
        let kids = &act[i].kids;
        let f = |x: Option<Node>| x.map(|x| m.find(&x));
        want!(f(n.first_child()) == kids.first().cloned(), "first_child", "node {}", i);
        want!(f(n.last_child()) == kids.last().cloned(), "last_child", "node {}: {:?} with children {:?}", i, f(n.last_child()), kids);
        want!(n.has_children() == !kids.is_empty(), "has_children", "node {}", i);
        let mut back = Vec::new();
        let mut c = n.last_child();
        while let Some(x) = c {
            back.push(m.find(&x));
            if back.len() > act.len() {
                break;
            }
            c = x.previous_sibling();
        }
        back.reverse();
        want!(&back == kids, "siblings", "children of node {}: {:?} forwards, {:?} backwards", i, kids, back);
        for k in kids {
            want!(*k < act.len() && act[*k].parent == Some(i), "parent", "node {} is a child of {}, but its parent is {:?}", k, i, act.get(*k).map(|n| n.parent));
        }
        match act[i].parent {
            Some(p) => {
                want!(p < act.len() && act[p].kids.iter().filter(|k| **k == i).count() == 1, "parent", "the parent of node {} is {}, which does not have it as a child once", i, p);
                let at = act[p].kids.iter().position(|k| *k == i).unwrap();
                let prev = if at > 0 { Some(act[p].kids[at - 1]) } else { None };
                want!(f(n.previous_sibling()) == prev, "siblings", "previous sibling of node {}", i);
                want!(f(n.next_sibling()) == act[p].kids.get(at + 1).cloned(), "siblings", "next sibling of node {}", i);
                want!(n.has_parent() == (act[p].kind != NodeType::Root), "has_parent", "node {}", i);
            }
            None => {
                want!(n.previous_sibling().is_none() && n.next_sibling().is_none(), "siblings", "node {} has siblings, but no parent", i);
                want!(!n.has_parent(), "has_parent", "node {}", i);
            }
        }
        let mut top = i;
        let mut steps = 0;
        while let Some(p) = act[top].parent {
            top = p;
            steps += 1;
            want!(steps <= act.len(), "cycle", "the ancestors of node {} do not end", i);
        }
        want!(m.find(&n.root()) == top, "root", "the root of node {} is {}, not {}", i, m.find(&n.root()), top);
    }
    want!(m.find(&m.doc.root()) == 0, "root", "the document has another root");
    let svg = act[0].kids.iter().cloned().find(|k| *k < act.len() && act[*k].tag == "svg");
    want!(m.doc.svg_element().map(|n| m.find(&n)) == svg, "svg_element", "svg_element is not {:?}", svg);
    Ok(())
}

fn owns_tree(op: &Op) -> bool {
    match op {
        Op::Elem(..) | Op::Node(..) | Op::Append(..) | Op::Prepend(..) | Op::Before(..) | Op::After(..) | Op::Detach(..) => true,
        _ => false,
    }
}

pub fn c06_tree(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = if s.chance(1, 8) { Focus::All } else { Focus::Tree };
    let h = gen_history(s, f);
    ctx.set_input(&show_history(&h));
    run_history(&h, owns_tree, check_tree, ctx)
}

// ---- C10

fn check_attrs(m: &M, did: &Did, pre: &St, exp: &St, act: &St) -> Ck {
    let target = match did {
        Did::Attr { node, expect_err, result, exact, .. } => {
            // Whether a link is accepted is another property.
            if expect_err.is_some() || result.is_err() {
                return Ok(());
            }
            if *exact {
                want!(same_attrs(&exp[*node].attrs, &act[*node].attrs), "value", "the attributes of node {} are not the expected ones", node);
            } else {
                // A link of an unusual kind is stored as the kind that fits.
                let strip = |a: &[(String, AV)]| -> Vec<(String, AV)> {
                    a.iter().map(|(k, v)| (k.clone(), match v { AV::L(_, t, _) => AV::L('x', *t, None), v => v.clone() })).collect()
                };
                want!(same_attrs(&strip(&exp[*node].attrs), &strip(&act[*node].attrs)), "value", "the attributes of node {} are not the expected ones", node);
            }
            for i in 0..act.len() {
                if i != *node && !act[i].gone {
                    want!(same_attrs(&pre[i].attrs, &act[i].attrs), "other node", "the attributes of node {} changed", i);
                }
            }
            *node
        }
        Did::Skip => 0,
        _ => return Ok(()),
    };
    // All queries agree.
    let n = &m.nodes[target];
    if !n.is_element() {
        return Ok(());
    }
    let attrs = n.attributes();
    let st = &act[target].attrs;
    for (i, a) in st.iter().enumerate() {
        want!(!st[..i].iter().any(|b| b.0 == a.0), "duplicate", "node {} has two attributes '{}'", target, a.0);
    }
    want!(attrs.len() == st.len(), "len", "node {}", target);
    want!(attrs.is_empty() == st.is_empty(), "is_empty", "node {}", target);
    let svg: Vec<String> = attrs.iter().svg().map(|(id, a)| { let _ = a; id.as_str().to_string() }).collect();
    let want_svg: Vec<String> = st.iter().map(|a| a.0.clone()).filter(|k| !k.starts_with('~')).collect();
    want!(svg == want_svg, "svg iteration", "node {}: {:?} instead of {:?}", target, svg, want_svg);
    for (id, a) in attrs.iter().svg() {
        want!(a.id() == Some(id), "svg iteration", "node {}: '{}' comes with another attribute", target, id.as_str());
    }
    for a in attrs.iter() {
        let k = key(&a.name);
        want!(a.is_svg() == !k.starts_with('~'), "is_svg", "attribute '{}'", k);
        want!(a.id().is_some() == a.is_svg(), "id", "attribute '{}'", k);
        if let Some(id) = a.id() {
            want!(a.has_id(id), "has_id", "attribute '{}'", k);
        }
    }
    let same = |x: &AttributeValue, k: &str| -> bool {
        let y = match x {
            AttributeValue::Link(t) => AV::L('l', m.find(t), None),
            AttributeValue::FuncLink(t) => AV::L('f', m.find(t), None),
            AttributeValue::Paint(t, fb) => AV::L('p', m.find(t), *fb),
            v => AV::P(v.clone()),
        };
        get(&act[target], k).map(|v| same_av(v, &y)).unwrap_or(false)
    };
    let mut all: Vec<String> = NAMES.iter().map(|n| n.key()).collect();
    for (k, _) in st.iter() {
        if !all.contains(k) {
            all.push(k.clone());
        }
    }
    for k in &all {
        let k = k.as_str();
        let there = st.iter().any(|a| a.0 == k);
        let (c, g, v, h) = if k.starts_with('~') {
            let x = &k[1..];
            (attrs.contains(x), attrs.get(x), attrs.get_value(x), n.has_attribute(x))
        } else {
            let id = AttributeId::from_str(k).unwrap();
            (attrs.contains(id), attrs.get(id), attrs.get_value(id), n.has_attribute(id))
        };
        want!(c == there, "contains", "attribute '{}' of node {}", k, target);
        want!(h == there, "has_attribute", "attribute '{}' of node {}", k, target);
        want!(g.is_some() == there && g.map(|a| key(&a.name) == k && same(&a.value, k)).unwrap_or(true), "get", "attribute '{}' of node {}", k, target);
        want!(v.is_some() == there && v.map(|v| same(v, k)).unwrap_or(true), "get_value", "attribute '{}' of node {}", k, target);
    }
    drop(attrs);
    // The mutable views show the same.
    let mut n = n.clone();
    let mut attrs = n.attributes_mut();
    for k in &all {
        let k = k.as_str();
        let r: AttributeQNameRef = if k.starts_with('~') { QNameRef::Name(&k[1..]) } else { QNameRef::Id(AttributeId::from_str(k).unwrap()) };
        let there = st.iter().any(|a| a.0 == k);
        let g = attrs.get_mut(r).map(|a| key(&a.name) == k && same(&a.value, k));
        want!(g.is_some() == there && g.unwrap_or(true), "get_mut", "attribute '{}' of node {}", k, target);
        let v = attrs.get_value_mut(r).map(|v| same(v, k));
        want!(v.is_some() == there && v.unwrap_or(true), "get_value_mut", "attribute '{}' of node {}", k, target);
    }
    let keys: Vec<String> = attrs.iter_mut().map(|a| key(&a.name)).collect();
    want!(keys == st.iter().map(|a| a.0.clone()).collect::<Vec<_>>(), "iter_mut", "node {}", target);
    let keys: Vec<String> = attrs.iter_mut().svg().map(|(id, _)| id.as_str().to_string()).collect();
    want!(keys == want_svg, "svg iteration (mutable)", "node {}", target);
    Ok(())
}

fn owns_attr(op: &Op) -> bool {
    match op {
        Op::Set(..) | Op::SetIfNone(..) | Op::Unset(..) => true,
        _ => false,
    }
}

pub fn c10_attrs(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::Attrs);
    ctx.set_input(&show_history(&h));
    run_history(&h, owns_attr, check_attrs, ctx)
}

// ---- C05

fn check_links(m: &M, did: &Did, pre: &St, _exp: &St, act: &St) -> Ck {
    if let Did::Attr { node, link: Some(t), expect_err, result, .. } = did {
        match (expect_err, result) {
            (None, Err(e)) => return Err(("refused".to_string(), format!("a valid link from node {} to node {} was refused: {}", node, t, e))),
            (Some(e), Ok(())) => return Err(("accepted".to_string(), format!("the link from node {} to node {} had to be refused ({:?})", node, t, e))),
            (Some(want), Err(e)) => {
                want!(want.iter().any(|w| w == e), "error kind", "expected {:?}, found {}", want, e);
                for i in 0..act.len() {
                    let (p, a) = (&pre[i], &act[i]);
                    want!(same_attrs(&p.attrs, &a.attrs) && p.users == a.users, "refused call changed", "node {}", i);
                    want!(p.kids == a.kids && p.parent == a.parent && p.id == a.id && p.text == a.text && p.tag == a.tag && p.gone == a.gone, "refused call changed", "node {}", i);
                }
            }
            _ => {}
        }
    }
    for i in 0..act.len() {
        let mut w = Vec::new();
        for (j, n) in act.iter().enumerate() {
            for (_, v) in &n.attrs {
                if let AV::L(_, t, _) = v {
                    if *t == i {
                        w.push(j);
                    }
                }
            }
        }
        w.sort();
        want!(w == act[i].users, "users", "node {}: users are {:?}, but links come from {:?}", i, act[i].users, w);
        want!(m.nodes[i].uses_count() == w.len(), "uses_count", "node {}", i);
        want!(m.nodes[i].is_used() == !w.is_empty(), "is_used", "node {}", i);
    }
    for (i, n) in act.iter().enumerate() {
        for (k, v) in &n.attrs {
            if let AV::L(_, t, _) = v {
                want!(*t != LOST, "lost target", "attribute '{}' of node {} links to a node that was never created", k, i);
            }
        }
    }
    Ok(())
}

fn owns_links(op: &Op) -> bool {
    match op {
        Op::Set(..) | Op::SetIfNone(..) | Op::Unset(..) | Op::Remove(..) | Op::Drain(..) => true,
        _ => false,
    }
}

pub fn c05_links(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::Links);
    ctx.set_input(&show_history(&h));
    run_history(&h, owns_links, check_links, ctx)
}

/// Parsed documents: whatever the file says, users and links agree.
pub fn c05_parsed(s: &mut Src, ctx: &mut Ctx) -> R {
    let text = super::parse::links_file(s);
    ctx.set_input(&text);
    let h = History { start: Start::Text(text), ops: Vec::new() };
    let r = run_history(&h, owns_links, check_links, ctx);
    ctx.nontrivial = ctx.input.matches('#').count() >= 3;
    r
}

// ---- C08

fn check_remove(m: &M, did: &Did, pre: &St, exp: &St, act: &St) -> Ck {
    let (gone, expected, returned) = match did {
        Did::Removed { gone, expected, returned } => (gone, expected, returned),
        _ => return Ok(()),
    };
    want!(expected == returned, "drain count", "drain returned {}, expected {}", returned, expected);
    for g in gone {
        want!(act[*g].gone, "still there", "node {} was removed, but is_detached is false", g);
        for (k, v) in &act[*g].attrs {
            if let AV::L(..) = v {
                return Err(("link inside".to_string(), format!("removed node {} still has the link '{}'", g, k)));
            }
        }
    }
    for i in 0..act.len() {
        if gone.contains(&i) || pre[i].gone {
            continue;
        }
        want!(!act[i].gone, "too much", "node {} was removed as well", i);
        want!(act[i].kids == exp[i].kids, "shape", "node {}: children {:?} instead of {:?}", i, act[i].kids, exp[i].kids);
        want!(act[i].parent == exp[i].parent, "shape", "node {}: parent {:?} instead of {:?}", i, act[i].parent, exp[i].parent);
        want!(same_attrs(&exp[i].attrs, &act[i].attrs), "attributes", "node {}: attributes are not the expected ones", i);
        want!(act[i].id == pre[i].id && act[i].text == pre[i].text && act[i].tag == pre[i].tag && act[i].kind == pre[i].kind, "content", "node {} changed", i);
    }
    // None of the removed nodes can be reached.
    let mut list: Vec<Node> = vec![m.doc.root()];
    let mut k = 0;
    while k < list.len() && list.len() < 500 {
        let mut c = list[k].first_child();
        while let Some(x) = c {
            c = x.next_sibling();
            list.push(x);
        }
        k += 1;
    }
    for g in gone {
        want!(!list.contains(&m.nodes[*g]), "reachable", "removed node {} is still in the tree", g);
        want!(m.nodes[*g].parent().map(|p| gone.contains(&m.find(&p))).unwrap_or(true), "reachable", "removed node {} still has a parent in the tree", g);
    }
    Ok(())
}

fn owns_remove(op: &Op) -> bool {
    match op {
        Op::Remove(..) | Op::Drain(..) => true,
        _ => false,
    }
}

pub fn c08_remove(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::Remove);
    ctx.set_input(&show_history(&h));
    let r = run_history(&h, owns_remove, check_remove, ctx);
    ctx.nontrivial = ctx.nontrivial && h.ops.iter().any(|o| owns_remove(o));
    r
}

// ---- C09

fn check_copy(_m: &M, did: &Did, pre: &St, exp: &St, act: &St) -> Ck {
    let (from, to, deep) = match did {
        Did::Copied { from, to, deep } => (*from, *to, *deep),
        _ => return Ok(()),
    };
    want!(act.len() == exp.len(), "shape", "the copy has {} nodes, expected {}", act.len() - to, exp.len() - to);
    for i in to..act.len() {
        let (e, a) = (&exp[i], &act[i]);
        want!(e.kids == a.kids && e.parent == a.parent, "shape", "node {} of the copy (deep: {}): children {:?}, parent {:?}", i, deep, a.kids, a.parent);
        want!(e.kind == a.kind, "type", "node {} of the copy", i);
        want!(e.tag == a.tag, "name", "node {} of the copy", i);
        want!(e.text == a.text, "text", "node {} of the copy", i);
        want!(a.id.is_empty(), "id", "node {} of the copy has the id '{}'", i, a.id);
        want!(same_attrs(&e.attrs, &a.attrs), "attributes", "node {} of the copy", i);
        want!(!a.gone, "removed", "node {} of the copy does not belong to the document", i);
    }
    for i in 0..to {
        let (e, a, p) = (&exp[i], &act[i], &pre[i]);
        want!(p.kids == a.kids && p.parent == a.parent && p.kind == a.kind && p.tag == a.tag && p.text == a.text && p.id == a.id && p.gone == a.gone && same_attrs(&p.attrs, &a.attrs), "original changed", "node {} was changed by copying node {}", i, from);
        want!(e.users == a.users, "users", "node {}: users {:?}, expected {:?}", i, a.users, e.users);
    }
    Ok(())
}

fn owns_copy(op: &Op) -> bool {
    match op {
        Op::Copy(..) | Op::DeepCopy(..) => true,
        _ => false,
    }
}

pub fn c09_copy(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::Copy);
    ctx.set_input(&show_history(&h));
    let r = run_history(&h, owns_copy, check_copy, ctx);
    ctx.nontrivial = ctx.nontrivial && h.ops.iter().any(|o| owns_copy(o));
    r
}

/// Edits on one side of a copy leave the other side alone.
pub fn c09_independent(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::Copy);
    let pick_from = s.draw(64);
    let deep = !s.chance(1, 4);
    let n = 1 + s.count(4, 10);
    let edits: Vec<(bool, u64, Op)> = (0..n)
        .map(|_| {
            let op = match s.idx(9) {
                0 => Op::Set(0, any_name(s), val(s, 5)),
                1 => Op::Unset(0, any_name(s)),
                2 => Op::Text(0, "edited".to_string()),
                3 => Op::Tag(0, any_tag(s)),
                4 => Op::Id(0, s.idx(6)),
                5 => Op::Detach(0),
                6 => Op::Append(0, 0),
                7 => Op::Prepend(0, 0),
                _ => Op::SetIfNone(0, any_name(s), Val::Plain(AttributeValue::Number(77.0))),
            };
            (s.chance(1, 2), s.draw(64), op)
        })
        .collect();
    ctx.set_input(&format!("{}copy of {} (deep: {}), then {:?}", show_history(&h), pick_from, deep, edits));
    let mut m = match no_panic(|| M::start(&h)) {
        Ok(Some(m)) => m,
        _ => return Ok(()),
    };
    for op in &h.ops {
        let mut st = m.observe();
        if no_panic(|| m.apply(op, &mut st)).is_err() {
            return Ok(());
        }
        if m.observe().iter().any(|n| n.kids.contains(&LOST) || n.parent == Some(LOST)) {
            return Ok(());
        }
    }
    let mut st = m.observe();
    let op = if deep { Op::DeepCopy(pick_from) } else { Op::Copy(pick_from) };
    let (from, to) = match no_panic(|| m.apply(&op, &mut st)) {
        Ok(Did::Copied { from, to, .. }) => (from, to),
        _ => return Ok(()),
    };
    let mut done = 0;
    for (side, sel, op) in &edits {
        let pre = m.observe();
        // The two sides as they are now.
        let orig = subtree(&pre, from);
        let copy = subtree(&pre, to);
        if orig.iter().any(|i| copy.contains(i)) {
            return Ok(());
        }
        let (mine, other) = if *side { (&orig, &copy) } else { (&copy, &orig) };
        let t = mine[*sel as usize % mine.len()];
        let mut x = m.nodes[t].clone();
        let element = pre[t].kind == NodeType::Element;
        let r = no_panic(|| match op {
            Op::Set(_, name, v) | Op::SetIfNone(_, name, v) if element => {
                let target = match v {
                    Val::Plain(_) => None,
                    Val::Link(k, _, _) => pick(&pre, *k, |_, n| n.kind == NodeType::Element),
                };
                let a = m.attribute(*name, v, target.unwrap_or(0));
                if let Op::SetIfNone(..) = op {
                    x.set_attribute_if_none(a);
                } else {
                    let _ = x.set_attribute_checked(a);
                }
            }
            Op::Unset(_, name) if element => x.remove_attribute(nm(*name).r()),
            Op::Text(..) if !element => x.set_text("edited"),
            Op::Tag(_, t) if element => set_tag(&mut x, tg(*t)),
            Op::Id(_, i) if element => x.set_id(IDS[*i]),
            Op::Detach(..) if t != mine[0] => x.detach(),
            Op::Append(..) | Op::Prepend(..) if element => {
                let n = m.doc.create_element("added");
                m.nodes.push(n.clone());
                if let Op::Append(..) = op {
                    x.append(n);
                } else {
                    x.prepend(n);
                }
            }
            _ => {}
        });
        if r.is_err() {
            return Ok(());
        }
        done += 1;
        let act = m.observe();
        for i in other {
            let (p, a) = (&pre[*i], &act[*i]);
            ensure!(
                p.kids == a.kids && p.kind == a.kind && p.tag == a.tag && p.text == a.text && p.id == a.id && same_attrs(&p.attrs, &a.attrs),
                "dependent",
                "{:?} on node {} changed node {} on the other side of the copy\nbefore:\n{}after:\n{}",
                op, t, i, describe(&pre), describe(&act)
            );
            ensure!(*i == other[0] || p.parent == a.parent, "dependent", "{:?} on node {} moved node {} on the other side of the copy", op, t, i);
        }
    }
    ctx.nontrivial = done >= 2;
    Ok(())
}

// ---- C21

fn check_data(m: &M, did: &Did, pre: &St, exp: &St, act: &St) -> Ck {
    for i in 0..pre.len().min(act.len()) {
        if act[i].gone {
            continue;
        }
        let (e, a, p) = (&exp[i], &act[i], &pre[i]);
        want!(e.kind == a.kind, "type", "the type of node {} is {:?} instead of {:?}", i, a.kind, e.kind);
        want!(e.tag == a.tag, "name", "the name of node {} is '{}' instead of '{}'", i, a.tag, e.tag);
        want!(e.id == a.id, "id", "the id of node {} is '{}' instead of '{}'", i, a.id, e.id);
        want!(e.text == a.text, "text", "the text of node {} is {:?} instead of {:?}", i, a.text, e.text);
        match did {
            Did::Text | Did::Id | Did::Refused { .. } => {
                want!(p.kids == a.kids && p.parent == a.parent && p.gone == a.gone, "side effect", "node {}: its place in the tree changed", i);
                want!(same_attrs(&p.attrs, &a.attrs) && p.users == a.users, "side effect", "node {}: its attributes or users changed", i);
            }
            _ => {}
        }
    }
    if let Did::Refused { panicked } = did {
        want!(*panicked, "accepted", "an empty name or a wrong node type was accepted");
    }
    // New nodes.
    if let Did::Tree = did {
        for i in pre.len()..act.len() {
            let (e, a) = (&exp[i], &act[i]);
            want!(e.kind == a.kind && e.tag == a.tag && e.id == a.id && e.text == a.text, "new node", "node {} is {:?} '{}' {:?}", i, a.kind, a.tag, a.text);
            want!(a.attrs.is_empty() && a.users.is_empty() && a.kids.is_empty() && a.parent.is_none() && !a.gone, "new node", "node {} is not empty or belongs to something", i);
        }
    }
    for i in 0..act.len() {
        let a = &act[i];
        if a.gone {
            continue;
        }
        let n = &m.nodes[i];
        want!(n.node_type() == a.kind, "node_type", "node {}", i);
        want!(n.is_root() == (a.kind == NodeType::Root), "is_root", "node {}", i);
        want!(n.is_element() == (a.kind == NodeType::Element), "is_element", "node {}", i);
        want!(n.is_comment() == (a.kind == NodeType::Comment), "is_comment", "node {}", i);
        want!(n.is_text() == (a.kind == NodeType::Text), "is_text", "node {}", i);
        let svg = a.kind == NodeType::Element && !a.tag.starts_with('~');
        want!(n.is_svg_element() == svg, "is_svg_element", "node {}", i);
        want!(n.tag_id().map(|t| t.as_str().to_string()) == if svg { Some(a.tag.clone()) } else { None }, "tag_id", "node {}: {:?}", i, n.tag_id());
        for t in TAGS.iter().map(|t| t.to_string()).chain(Some(a.tag.clone())).filter(|t| !t.is_empty()) {
            let h = if t.starts_with('~') { n.has_tag_name(&t[1..]) } else { n.has_tag_name(ElementId::from_str(&t).unwrap()) };
            want!(h == (a.kind == NodeType::Element && t == a.tag), "has_tag_name", "node {} named '{}': has_tag_name({}) is {}", i, a.tag, t, h);
        }
        want!(n.has_id() == !a.id.is_empty(), "has_id", "node {}", i);
        want!(*n.text() == a.text && *n.clone().text_mut() == a.text, "text", "node {}", i);
        for (j, o) in m.nodes.iter().enumerate() {
            want!((n == o) == (i == j), "identity", "handles {} and {} compare as {}", i, j, n == o);
        }
        // References are written with the present id.
        for x in n.attributes().iter() {
            let want = match x.value {
                AttributeValue::Link(ref t) => format!("#{}", *t.id()),
                AttributeValue::FuncLink(ref t) | AttributeValue::Paint(ref t, None) => format!("url(#{})", *t.id()),
                _ => continue,
            };
            want!(x.value.to_string() == want, "reference text", "{} instead of {}", x.value, want);
        }
    }
    Ok(())
}

fn owns_data(op: &Op) -> bool {
    match op {
        Op::Elem(..) | Op::Node(..) | Op::Id(..) | Op::Text(..) | Op::Tag(..) => true,
        _ => false,
    }
}

pub fn c21_data(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::Data);
    ctx.set_input(&show_history(&h));
    run_history(&h, owns_data, check_data, ctx)
}

// ---- C19

fn exec(h: &History, keep: u64, doc_first: bool, check: bool) -> Result<(), String> {
    let mut m = match no_panic(|| M::start(h)) {
        Ok(Some(m)) => m,
        _ => return Ok(()),
    };
    for op in &h.ops {
        let mut st = m.observe();
        if st.iter().any(|n| n.kids.contains(&LOST) || n.parent == Some(LOST)) {
            break;
        }
        if no_panic(|| m.apply(op, &mut st)).is_err() {
            return Err("skip".to_string());
        }
    }
    let M { doc, nodes } = m;
    let kept: Vec<Node> = nodes.iter().enumerate().filter(|(i, _)| keep >> (i % 60) & 1 == 1).map(|x| x.1.clone()).collect();
    drop(nodes);
    if !doc_first {
        drop(kept);
        drop(doc);
        return Ok(());
    }
    drop(doc);
    if check {
        for (i, n) in kept.iter().enumerate() {
            let r = no_panic(|| -> Result<(), String> {
                if n.has_children() || n.first_child().is_some() || n.last_child().is_some() || n.children().count() != 0 {
                    return Err(format!("surviving handle {} still has children", i));
                }
                if n.is_used() || n.uses_count() != 0 || !n.linked_nodes().is_empty() {
                    return Err(format!("surviving handle {} is still used", i));
                }
                for a in n.attributes().iter() {
                    match a.value {
                        AttributeValue::Link(_) | AttributeValue::FuncLink(_) | AttributeValue::Paint(..) => {
                            return Err(format!("surviving handle {} still has a link", i));
                        }
                        _ => {}
                    }
                }
                // Still usable.
                let _ = (n.node_type(), n.id().len(), n.text().len(), n.parent(), n.next_sibling(), n.previous_sibling(), n.root(), n.is_detached());
                if n.is_element() {
                    let mut x = n.clone();
                    x.set_attribute((AttributeId::X, 5.0));
                    x.set_id("z");
                    if !x.has_attribute(AttributeId::X) || *x.id() != "z" {
                        return Err(format!("surviving handle {} cannot be edited", i));
                    }
                    x.remove_attribute(AttributeId::X);
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(e),
                Err(e) => return Err(format!("surviving handle {}: panic: {}", i, e)),
            }
        }
    }
    drop(kept);
    Ok(())
}

pub fn c19_drop(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = gen_history(s, Focus::All);
    let keep = match s.idx(3) {
        0 => 0,
        1 => s.next_mask(),
        _ => u64::max_value(),
    };
    let doc_first = keep != 0 && s.chance(2, 3);
    ctx.set_input(&format!("{}kept handles {:x}, document dropped first: {}", show_history(&h), keep, doc_first));
    measure(&h, keep, doc_first, ctx)?;
    ctx.nontrivial = h.ops.len() >= 5;
    if doc_first {
        ctx.label("handles outlive the document");
    }
    Ok(())
}

fn measure(h: &History, keep: u64, doc_first: bool, ctx: &mut Ctx) -> R {
    // Once to warm up lazily made state, then measured.
    match exec(h, keep, doc_first, true) {
        Ok(()) => {}
        Err(e) => {
            if e == "skip" {
                ctx.label("ended by a panic");
                return Ok(());
            }
            return fail("survivor", e);
        }
    }
    let before = crate::alloc::live();
    let r = exec(h, keep, doc_first, false);
    drop(r);
    let after = crate::alloc::live();
    if before != after {
        // Once more, to exclude anything made lazily.
        let b2 = crate::alloc::live();
        let _ = exec(h, keep, doc_first, false);
        let a2 = crate::alloc::live();
        ensure!(b2 == a2, "leak", "{} bytes in {} blocks were not released", a2.0 - b2.0, a2.1 - b2.1);
    }
    Ok(())
}

/// Files: accepted and rejected.
pub fn c19_parsed(s: &mut Src, ctx: &mut Ctx) -> R {
    let text = if s.chance(1, 2) { super::parse::links_file(s) } else { super::parse_total::damaged_text(s) };
    ctx.set_input(&text);
    ctx.nontrivial = text.len() > 60;
    if Document::from_str(&text).is_err() {
        ctx.label("rejected file");
    }
    let h = History { start: Start::Text(text), ops: Vec::new() };
    let keep = if s.chance(1, 3) { s.next_mask() } else { 0 };
    measure(&h, keep, keep != 0, ctx)
}
