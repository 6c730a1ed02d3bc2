//! What parsing an abstract document must give.

use super::snap::*;
use super::vals::*;
use super::xml::*;
use std::collections::BTreeMap;
use svgdom::*;

struct Flat<'a> {
    e: &'a Elem,
    parent: Option<usize>,
    prev: Option<usize>,
}

fn flatten<'a>(e: &'a Elem, parent: Option<usize>, prev: Option<usize>, out: &mut Vec<Flat<'a>>) -> usize {
    let me = out.len();
    out.push(Flat { e, parent, prev });
    let mut last = None;
    for k in &e.kids {
        if let X::E(c) = k {
            last = Some(flatten(c, Some(me), last, out));
        }
    }
    me
}

fn attr_text<'a>(e: &'a Elem, name: &str) -> Option<&'a str> {
    e.attrs.iter().find(|a| a.ns == ANs::None && a.name == name).map(|a| a.text.as_str())
}

fn simple_matches(f: &[Flat], i: usize, s: &Simple) -> bool {
    if let Some(ref t) = s.tag {
        if *t != f[i].e.tag {
            return false;
        }
    }
    s.subs.iter().all(|sub| match sub {
        Sub::Class(c) => attr_text(f[i].e, "class").map_or(false, |v| v.split(' ').any(|x| x == c)),
        Sub::Id(id) => attr_text(f[i].e, "id") == Some(id),
        Sub::FirstChild => f[i].prev.is_none(),
        Sub::Hover => false,
        Sub::Attr(n, op, v) => match attr_text(f[i].e, n) {
            None => false,
            Some(t) => match op {
                0 => true,
                1 => t == v,
                2 => t.split(' ').any(|x| x == v),
                _ => t == v || t.starts_with(&format!("{}-", v)),
            },
        },
    })
}

fn sel_matches(f: &[Flat], i: usize, sel: &[(char, Simple)]) -> bool {
    let (last, rest) = sel.split_last().unwrap();
    if !simple_matches(f, i, &last.1) {
        return false;
    }
    if rest.is_empty() {
        return true;
    }
    match last.0 {
        '>' => f[i].parent.map_or(false, |p| sel_matches(f, p, rest)),
        '+' => f[i].prev.map_or(false, |p| sel_matches(f, p, rest)),
        _ => {
            let mut p = f[i].parent;
            while let Some(x) = p {
                if sel_matches(f, x, rest) {
                    return true;
                }
                p = f[x].parent;
            }
            false
        }
    }
}

fn specificity(sel: &Sel) -> (u32, u32, u32) {
    let mut s = (0, 0, 0);
    for (_, c) in sel {
        if c.tag.is_some() {
            s.2 += 1;
        }
        for sub in &c.subs {
            match sub {
                Sub::Id(_) => s.0 += 1,
                _ => s.1 += 1,
            }
        }
    }
    s
}

const ANIM: &[&str] = &["set", "animate", "animateColor", "animateMotion", "animateTransform"];

#[derive(Default)]
struct St {
    attrs: BTreeMap<String, AttributeValue>,
    pending: Vec<(String, String, Option<PaintFallback>)>,
}

impl St {
    fn apply(&mut self, name: &str, e: &Exp) {
        match e {
            Exp::Ignored => {}
            Exp::Val(v) => {
                self.pending.retain(|p| p.0 != name);
                self.attrs.insert(name.to_string(), v.clone());
            }
            Exp::Clear => {
                self.attrs.remove(name);
            }
            Exp::Ref(id, fb) => self.pending.push((name.to_string(), id.clone(), *fb)),
        }
    }
    fn decl(&mut self, tag: &str, d: &Decl) {
        for (n, e) in &d.sets {
            if n == "fill" && ANIM.contains(&tag) {
                self.apply(n, &Exp::Val(AttributeValue::String(d.text.clone())));
            } else {
                self.apply(n, e);
            }
        }
    }
}

/// Facts about the case, used to classify it.
#[derive(Default, Debug)]
pub struct Facts {
    pub elems: usize,
    pub dropped_elems: usize,
    pub matched_rules: usize,
    pub overrides: usize,
    pub links: usize,
    pub missing: usize,
    pub refused: usize,
    pub forward: usize,
    pub text_pieces: usize,
}

struct B<'a> {
    flats: Vec<Flat<'a>>,
    rules: Vec<(&'a Sel, &'a [Decl])>,
    next: usize,
    /// Per kept element in preorder: id, attributes, pending references.
    els: Vec<(String, BTreeMap<String, V>, Vec<(String, String, Option<PaintFallback>)>)>,
    facts: Facts,
}

pub fn model(doc: &XDoc) -> (SN, Facts) {
    let mut flats = Vec::new();
    flatten(&doc.root, None, None, &mut flats);
    let mut rules: Vec<(&Sel, &[Decl])> = Vec::new();
    for f in &flats {
        for r in &f.e.rules {
            for s in &r.sels {
                rules.push((s, &r.decls));
            }
        }
    }
    rules.sort_by_key(|r| specificity(r.0)); // stable
    let mut b = B { flats, rules, next: 0, els: Vec::new(), facts: Facts::default() };
    let mut root = SN { kind: K::Root, tag: String::new(), id: String::new(), attrs: BTreeMap::new(), text: String::new(), kids: Vec::new(), loose: true };
    let misc = |x: &X, root: &mut SN| {
        if let X::C(t) = x {
            root.kids.push(leaf(K::Comment, t.clone(), true));
        }
    };
    for x in &doc.before {
        misc(x, &mut root);
    }
    let r = b.build(&doc.root, false);
    root.kids.push(r);
    for x in &doc.after {
        misc(x, &mut root);
    }
    b.resolve();
    let mut n = 0;
    fill_attrs(&mut root, &mut n, &b.els);
    normalise(&mut root, &mut b.facts);
    (root, b.facts)
}

fn leaf(kind: K, text: String, loose: bool) -> SN {
    SN { kind, tag: String::new(), id: String::new(), attrs: BTreeMap::new(), text, kids: Vec::new(), loose }
}

fn fill_attrs(n: &mut SN, i: &mut usize, els: &[(String, BTreeMap<String, V>, Vec<(String, String, Option<PaintFallback>)>)]) {
    if n.kind == K::Elem {
        n.attrs = els[*i].1.clone();
        *i += 1;
    }
    for k in &mut n.kids {
        fill_attrs(k, i, els);
    }
}

impl<'a> B<'a> {
    fn skip(&mut self, e: &Elem) {
        self.next += 1;
        for k in &e.kids {
            if let X::E(c) = k {
                self.skip(c);
            }
        }
    }

    fn build(&mut self, e: &Elem, in_text: bool) -> SN {
        let me = self.next;
        self.next += 1;
        self.facts.elems += 1;
        let tag = e.tag.as_str();
        let mut st = St::default();
        let mut id = String::new();
        let mut style: Option<&Vec<Decl>> = None;
        for a in &e.attrs {
            match a.role {
                Role::Exp(ref x) => st.apply(&a.name, x),
                Role::Id => id = a.text.clone(),
                Role::Style(ref d) => style = Some(d),
                Role::Class | Role::Dropped => {}
            }
        }
        let mut sources = 0;
        let matched: Vec<&[Decl]> = self.rules.iter().filter(|r| sel_matches(&self.flats, me, r.0)).map(|r| r.1).collect();
        for decls in matched {
            sources += 1;
            self.facts.matched_rules += 1;
            for d in decls {
                st.decl(tag, d);
            }
        }
        if let Some(d) = style {
            sources += 1;
            for d in d {
                st.decl(tag, d);
            }
        }
        if sources > 1 {
            self.facts.overrides += 1;
        }
        self.els.push((id.clone(), st.attrs.into_iter().map(|(k, v)| (k, V::P(v))).collect(), st.pending));
        let text_here = in_text || tag == "text";
        let mut n = SN { kind: K::Elem, tag: e.tag.clone(), id, attrs: BTreeMap::new(), text: String::new(), kids: Vec::new(), loose: !in_text };
        for k in &e.kids {
            match k {
                X::E(c) => {
                    if c.ns == Ns::Svg && known_elem(&c.tag) && c.tag != "style" {
                        let x = self.build(c, text_here);
                        n.kids.push(x);
                    } else {
                        self.facts.dropped_elems += 1;
                        self.skip(c);
                    }
                }
                X::C(t) => n.kids.push(leaf(K::Comment, t.clone(), !text_here)),
                X::T(t) => {
                    let keep = !t.trim().is_empty()
                        || ["altGlyph", "text", "textPath", "tref", "tspan"].contains(&tag)
                        || (tag == "a" && in_text);
                    if keep {
                        n.kids.push(leaf(K::Text, t.clone(), !text_here));
                    }
                }
                X::P(_) => {}
            }
        }
        n
    }

    fn resolve(&mut self) {
        for i in 0..self.els.len() {
            let pend = std::mem::replace(&mut self.els[i].2, Vec::new());
            for (attr, id, fb) in pend {
                match self.els.iter().position(|e| e.0 == id) {
                    Some(t) => {
                        let back = self.els[t].1.values().any(|v| match v {
                            V::Link(x) | V::Func(x) | V::Paint(x, _) => *x == i,
                            _ => false,
                        });
                        if self.els[i].0 == id || back {
                            self.facts.refused += 1;
                            continue;
                        }
                        self.facts.links += 1;
                        if t > i {
                            self.facts.forward += 1;
                        }
                        let v = match attr.as_str() {
                            "href" => V::Link(t),
                            "fill" | "stroke" => V::Paint(t, fb),
                            _ => V::Func(t),
                        };
                        self.els[i].1.insert(attr, v);
                    }
                    None => {
                        self.facts.missing += 1;
                        let v = match fb {
                            Some(f) => fallback_value(f),
                            None => match attr.as_str() {
                                "fill" => AttributeValue::None,
                                "href" => AttributeValue::String(format!("#{}", id)),
                                _ => AttributeValue::String(format!("url(#{})", id)),
                            },
                        };
                        self.els[i].1.insert(attr, V::P(v));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Text

struct Piece {
    text: String,
    depth: usize,
    preserve: bool,
}

/// Normalises the text of every outermost `text` element of the tree.
pub fn normalise(n: &mut SN, facts: &mut Facts) {
    norm(n, false, facts);
}

fn space_of(n: &SN, inherited: bool) -> bool {
    match n.attrs.get("space") {
        Some(V::P(AttributeValue::String(s))) => s == "preserve",
        _ => inherited,
    }
}

fn norm(n: &mut SN, preserve: bool, facts: &mut Facts) {
    let p = space_of(n, preserve);
    if n.kind == K::Elem && n.tag == "text" {
        let mut pieces = Vec::new();
        collect(n, 0, p, &mut pieces);
        facts.text_pieces = facts.text_pieces.max(pieces.len());
        process(&mut pieces);
        let mut i = 0;
        store(n, &pieces, &mut i);
        return;
    }
    for k in &mut n.kids {
        norm(k, p, facts);
    }
}

fn collect(n: &SN, depth: usize, preserve: bool, out: &mut Vec<Piece>) {
    for k in &n.kids {
        match k.kind {
            K::Text => out.push(Piece { text: k.text.clone(), depth, preserve }),
            K::Elem => collect(k, depth + 1, space_of(k, preserve), out),
            _ => {}
        }
    }
}

fn store(n: &mut SN, pieces: &[Piece], i: &mut usize) {
    for k in &mut n.kids {
        match k.kind {
            K::Text => {
                k.text = pieces[*i].text.clone();
                *i += 1;
            }
            K::Elem => store(k, pieces, i),
            _ => {}
        }
    }
    n.kids.retain(|k| k.kind != K::Text || !k.text.is_empty());
}

fn process(p: &mut Vec<Piece>) {
    // One stream of characters; every character knows its piece.
    let mut stream: Vec<(char, usize)> = Vec::new();
    for (i, x) in p.iter().enumerate() {
        for c in x.text.chars() {
            let c = if matches!(c, '\n' | '\r' | '\t') { ' ' } else { c };
            stream.push((c, i));
        }
    }
    // Maximal runs of spaces are judged as a whole.
    let mut keep = vec![true; stream.len()];
    let mut i = 0;
    while i < stream.len() {
        if stream[i].0 != ' ' {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < stream.len() && stream[j].0 == ' ' {
            j += 1;
        }
        // The spaces of a run, grouped by piece.
        let mut groups: Vec<(usize, usize, usize)> = Vec::new();
        for k in i..j {
            match groups.last_mut() {
                Some(g) if g.0 == stream[k].1 => g.2 = k + 1,
                _ => groups.push((stream[k].1, k, k + 1)),
            }
        }
        // Preserved spaces split the run: default spaces after one go away, the ones before it stay.
        let at_start = i == 0;
        let at_end = j == stream.len();
        let mut seg: Vec<usize> = Vec::new();
        let mut after_preserved = false;
        for gi in 0..=groups.len() {
            let preserved = gi < groups.len() && p[groups[gi].0].preserve;
            if gi == groups.len() || preserved {
                // Close the segment of default groups.
                if !seg.is_empty() {
                    let first = at_start && seg[0] == 0;
                    let last = at_end && gi == groups.len();
                    let mut winner = None;
                    if !first && !last && !after_preserved {
                        // The least nested one; the later of equal ones.
                        let mut w = seg[0];
                        for &g in &seg[1..] {
                            if p[groups[w].0].depth >= p[groups[g].0].depth {
                                w = g;
                            }
                        }
                        winner = Some(w);
                    }
                    for &g in &seg {
                        for k in groups[g].1..groups[g].2 {
                            keep[k] = winner == Some(g) && k == groups[g].1;
                        }
                    }
                }
                seg.clear();
                after_preserved = preserved;
            } else {
                seg.push(gi);
            }
        }
        i = j;
    }
    for x in p.iter_mut() {
        x.text.clear();
    }
    for (k, (c, i)) in stream.iter().enumerate() {
        if keep[k] {
            p[*i].text.push(*c);
        }
    }
}
