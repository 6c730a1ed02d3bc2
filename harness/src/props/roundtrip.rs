//! C11, C12: saving and reopening documents.

use super::data::*;
use super::model::*;
use super::parse::adjacent_texts;
use super::snap::*;
use super::vals::*;
use super::xml::*;
use crate::engine::*;
use svgdom::*;

/// Tolerance for printed numbers: svgtypes prints at least 11 significant decimals.
const TOL: f64 = 1e-9;

fn near_identity(t: &Transform) -> bool {
    let c = |a: f64, b: f64| (a - b).abs() < 1e-10;
    c(t.a, 1.0) && c(t.b, 0.0) && c(t.c, 0.0) && c(t.d, 1.0) && c(t.e, 0.0) && c(t.f, 0.0)
}

/// A transform that prints as the identity is not stored when it is read.
fn drop_identity(n: &mut SN) {
    n.attrs.retain(|_, v| !matches!(v, V::P(AttributeValue::Transform(ref t)) if near_identity(t)));
    for k in &mut n.kids {
        drop_identity(k);
    }
}

/// Text outside of `text` elements gets a line of its own.
fn has_loose(n: &SN) -> bool {
    (n.kind == K::Text && n.loose) || n.kids.iter().any(has_loose)
}

fn preserved_loose(n: &SN, p: bool) -> bool {
    let p = match n.attrs.get("space") {
        Some(V::P(AttributeValue::String(s))) => s == "preserve",
        _ => p,
    };
    (n.kind == K::Text && n.loose && p) || n.kids.iter().any(|k| preserved_loose(k, p))
}

fn num_tokens(s: &str) -> Vec<Result<f64, char>> {
    let mut out = Vec::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() || (b[i] == '-' && b.get(i + 1) == Some(&'0')) {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') {
                i += 1;
            }
            let t: String = b[st..i].iter().collect();
            match t.parse() {
                Ok(v) => out.push(Ok(v)),
                Err(_) => out.extend(t.chars().map(Err)),
            }
        } else {
            out.push(Err(b[i]));
            i += 1;
        }
    }
    out
}

/// Equal texts, up to the last printed digits of numbers.
fn same_output(a: &str, b: &str, skip_spaces: bool) -> bool {
    if a == b {
        return true;
    }
    let (mut x, mut y) = (num_tokens(a), num_tokens(b));
    if skip_spaces {
        let keep = |t: &Result<f64, char>| !matches!(t, Err(c) if c.is_ascii_whitespace());
        x.retain(keep);
        y.retain(keep);
    }
    x.len() == y.len()
        && x.iter().zip(&y).all(|p| match p {
            (Ok(m), Ok(n)) => close(*m, *n, TOL),
            (Err(m), Err(n)) => m == n,
            _ => false,
        })
}

fn first_diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let mut lo = i.saturating_sub(30).min(s.len());
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (i + 40).min(s.len());
        while !s.is_char_boundary(hi) {
            hi += 1;
        }
        s[lo..hi].to_string()
    };
    format!("{:?} / {:?}", cut(a), cut(b))
}

pub fn full_cfg(s: &mut Src) -> Cfg {
    let mut c = Cfg::basic();
    c.max_elems = 12;
    c.sheets = if s.chance(1, 4) { 1 } else { 0 };
    c.style_attrs = if s.chance(1, 3) { 25 } else { 0 };
    c.id_chance = 60;
    c.stray_text = 6;
    c.refs = 5;
    c.dup_ids = false;
    c.xmlspace = *s.pick(&[0, 10, 30]);
    c.ids = match s.idx(3) {
        0 => ["a", "b", "c", "nope"].iter().map(|x| x.to_string()).collect(),
        1 => ["a", "é", "b&c", "d<e", "x'y", "x\"y", "日本", "q>r", "nope"].iter().map(|x| x.to_string()).collect(),
        _ => ["a", "b", "c", "id1", "nope", "x.y", "A", "1", "-"].iter().map(|x| x.to_string()).collect(),
    };
    if s.chance(1, 5) {
        c.props = vec!["href", "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker", "d", "transform", "unicode", "points"];
    }
    c
}

/// Builds the document with API calls only.
pub fn build(sn: &SN, s: &mut Src) -> Document {
    let mut doc = Document::new();
    let mut elems: Vec<(Node, &SN)> = Vec::new();
    fn rec<'a>(doc: &mut Document, parent: &mut Node, n: &'a SN, elems: &mut Vec<(Node, &'a SN)>) {
        for k in &n.kids {
            let mut x = match k.kind {
                K::Elem => match k.tag.strip_prefix('~') {
                    Some(t) => doc.create_element(t),
                    None => doc.create_element(ElementId::from_str(&k.tag).unwrap()),
                },
                K::Text => doc.create_node(NodeType::Text, k.text.clone()),
                _ => doc.create_node(NodeType::Comment, k.text.clone()),
            };
            parent.append(x.clone());
            if k.kind == K::Elem {
                if !k.id.is_empty() {
                    x.set_id(k.id.clone());
                }
                elems.push((x.clone(), k));
                rec(doc, &mut x, k, elems);
            }
        }
    }
    let mut root = doc.root();
    rec(&mut doc, &mut root, sn, &mut elems);
    let nodes: Vec<Node> = elems.iter().map(|e| e.0.clone()).collect();
    let rev = s.chance(1, 2);
    for (n, sn) in elems.iter_mut() {
        let mut list: Vec<(&String, &V)> = sn.attrs.iter().collect();
        if rev {
            list.reverse();
        }
        for (k, v) in list {
            let value = match v {
                V::P(v) => v.clone(),
                V::Link(t) => AttributeValue::Link(nodes[*t].clone()),
                V::Func(t) => AttributeValue::FuncLink(nodes[*t].clone()),
                V::Paint(t, fb) => AttributeValue::Paint(nodes[*t].clone(), *fb),
                V::Dangling(_) => continue,
            };
            match k.strip_prefix('~') {
                Some(t) => n.set_attribute((t, value)),
                None => n.set_attribute((AttributeId::from_str(k).unwrap(), value)),
            }
        }
    }
    doc
}

/// Loose text as it is read: one line, single spaces.
fn tidy(n: &mut SN) {
    if n.kind == K::Text && n.loose {
        let t: Vec<&str> = n.text.split(|c| matches!(c, ' ' | '\n' | '\r' | '\t')).filter(|x| !x.is_empty()).collect();
        n.text = t.join(" ");
    }
    n.kids.iter_mut().for_each(tidy);
    n.kids.retain(|k| k.kind != K::Text || !k.text.is_empty());
}

/// svgtypes prints integers as 32-bit ones.
fn too_big(n: &SN) -> bool {
    n.attrs.values().any(|v| match v {
        V::P(AttributeValue::Transform(ref t)) => [t.a, t.b, t.c, t.d, t.e, t.f].iter().any(|x| !(x.abs() < 2147483000.0)),
        _ => false,
    }) || n.kids.iter().any(too_big)
}

fn reopen(doc: &Document, ctx: &mut Ctx) -> Result<SN, Fail> {
    let mut before = snapshot(&doc.root());
    if too_big(&before) {
        return Ok(before);
    }
    let s1 = doc.to_string();
    let again = match Document::from_str(&s1) {
        Ok(d) => d,
        Err(e) => return fail("rejected", format!("the saved file is rejected: {}\n{}", e, s1)),
    };
    let mut after = snapshot(&again.root());
    drop_identity(&mut before);
    drop_identity(&mut after);
    if let Some((sig, msg)) = diff(&before, &after, &Cmp::all(TOL)) {
        return fail(sig, format!("after saving and reopening: {}\nsaved:\n{}\nbefore:\n{}after:\n{}", msg, s1, show(&before), show(&after)));
    }
    // Preserved text outside of `text` elements grows by the indentation.
    if preserved_loose(&before, false) {
        ctx.label("preserved text outside text");
        return Ok(before);
    }
    let s2 = again.to_string();
    // Text outside of `text` elements is kept up to whitespace.
    if !same_output(&s1, &s2, has_loose(&before)) {
        return fail("saved again", format!("saving the reopened document gives another text: {}\nfirst:\n{}\nsecond:\n{}", first_diff(&s1, &s2), s1, s2));
    }
    Ok(before)
}

fn classify(sn: &SN, ctx: &mut Ctx) {
    fn walk(n: &SN, elems: &mut usize, links: &mut usize, text: &mut usize, loose: &mut usize) {
        if n.kind == K::Elem {
            *elems += 1;
        }
        if n.kind == K::Text {
            *text += 1;
            if n.loose {
                *loose += 1;
            }
        }
        *links += n.attrs.values().filter(|v| !matches!(v, V::P(_))).count();
        for k in &n.kids {
            walk(k, elems, links, text, loose);
        }
    }
    let (mut e, mut l, mut t, mut o) = (0, 0, 0, 0);
    walk(sn, &mut e, &mut l, &mut t, &mut o);
    ctx.nontrivial = e >= 3;
    if l > 0 {
        ctx.label("links");
    }
    if t > 0 {
        ctx.label("text");
    }
    if o > 0 {
        ctx.label("text outside text");
    }
}

pub fn c11_parsed(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = full_cfg(s);
    let d = gen_doc(s, &c);
    let noise = s.chance(1, 3);
    let text = serialise(&d, s, noise);
    ctx.set_input(&text);
    let doc = match Document::from_str(&text) {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    if adjacent_texts(&snapshot(&doc.root())) {
        return Ok(());
    }
    let b = reopen(&doc, ctx)?;
    classify(&b, ctx);
    Ok(())
}

pub fn c11_built(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = full_cfg(s);
    c.sheets = 0;
    c.unknown = 0;
    c.pis = 0;
    let d = gen_doc(s, &c);
    let (mut sn, _) = model(&d);
    tidy(&mut sn);
    if adjacent_texts(&sn) {
        return Ok(());
    }
    let doc = build(&sn, s);
    ctx.set_input(&show(&sn));
    let now = snapshot(&doc.root());
    if let Some((sig, msg)) = diff(&sn, &now, &Cmp::all(0.0)) {
        return fail(sig, format!("building the document with API calls: {}", msg));
    }
    let b = reopen(&doc, ctx)?;
    classify(&b, ctx);
    Ok(())
}

/// A parsed document, edited, then saved and reopened.
pub fn c11_edited(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = full_cfg(s);
    c.sheets = 0;
    // Moving text changes which setting applies to it.
    c.xmlspace = 0;
    c.unknown = 2;
    c.pis = 0;
    let d = gen_doc(s, &c);
    let text = serialise(&d, s, false);
    let mut log = text.clone();
    let mut doc = match Document::from_str(&text) {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    let n = 1 + s.count_long(5, 14, 50);
    let mut effects = 0;
    for _ in 0..n {
        // Elements outside of `text`, the root element excluded.
        let mut all = Vec::new();
        elements(&doc.root(), &mut all);
        let root = all.remove(0);
        let all: Vec<Node> = all.into_iter().filter(|n| !n.ancestors().skip(1).any(|a| a.has_tag_name(ElementId::Text))).collect();
        let holders: Vec<Node> = std::iter::once(root.clone()).chain(all.iter().filter(|n| !n.has_tag_name(ElementId::Text)).cloned()).collect();
        match s.weighted(&[5, 3, 2, 2, 1, 2, 2]) {
            0 => {
                let mut e = if all.is_empty() { root.clone() } else { s.pick(&all).clone() };
                let tag = e.tag_id().map(|t| t.as_str()).unwrap_or("g");
                let name = *s.pick(TYPED_ATTRS);
                let v = VCfg { ids: &c.ids, refs: 0, bad: 0, css: false };
                let g = value(s, tag, name, &v);
                if let Exp::Val(v) = g.exp {
                    log.push_str(&format!("\nset {}={:?} on {:?} {}", name, v, e.id(), tag));
                    e.set_attribute((AttributeId::from_str(name).unwrap(), v));
                    effects += 1;
                }
            }
            1 => {
                if all.is_empty() {
                    continue;
                }
                let mut e = s.pick(&all).clone();
                let ok: Vec<Node> = holders.iter().filter(|h| !h.ancestors().any(|a| a == e)).cloned().collect();
                if ok.is_empty() {
                    continue;
                }
                let mut h = s.pick(&ok).clone();
                log.push_str(&format!("\nmove {:?} {} to {:?} {}", e.id(), e.tag_name(), h.id(), h.tag_name()));
                e.detach();
                if s.chance(1, 2) {
                    h.append(e);
                } else {
                    h.prepend(e);
                }
                effects += 1;
            }
            2 => {
                if all.is_empty() {
                    continue;
                }
                let e = s.pick(&all).clone();
                log.push_str(&format!("\nremove {:?} {}", e.id(), e.tag_name()));
                doc.remove_node(e);
                effects += 1;
            }
            3 => {
                if all.is_empty() {
                    continue;
                }
                let e = s.pick(&all).clone();
                let mut h = s.pick(&holders).clone();
                log.push_str(&format!("\ncopy {:?} {} into {:?} {}", e.id(), e.tag_name(), h.id(), h.tag_name()));
                let x = doc.copy_node_deep(e.clone());
                h.append(x);
                effects += 1;
            }
            4 => {
                let mut h = s.pick(&holders).clone();
                let t = *s.pick(&["x", "- -", "a & b", ""]);
                let x = doc.create_node(NodeType::Comment, t);
                log.push_str(&format!("\ncomment {:?} in {:?} {}", t, h.id(), h.tag_name()));
                h.append(x);
                effects += 1;
            }
            5 => {
                let mut h = s.pick(&holders).clone();
                let tag = *s.pick(ELEMENTS);
                if ["style", "svg"].contains(&tag) || TEXT_CONTENT.contains(&tag) {
                    continue;
                }
                log.push_str(&format!("\nnew {} in {:?} {}", tag, h.id(), h.tag_name()));
                let x = doc.create_element(ElementId::from_str(tag).unwrap());
                h.append(x);
                effects += 1;
            }
            _ => {
                // A link between two elements with ids.
                let with_id: Vec<Node> = all.iter().filter(|n| n.has_id() && c.ids.contains(&*n.id())).cloned().collect();
                if with_id.is_empty() {
                    continue;
                }
                let t = s.pick(&with_id).clone();
                let mut e = s.pick(&all).clone();
                let name = *s.pick(&["href", "fill", "stroke", "mask", "clip-path", "filter", "marker-end"]);
                if e.tag_id().map(|t| ["set", "animate", "animateColor", "animateMotion", "animateTransform"].contains(&t.as_str())).unwrap_or(true) {
                    continue;
                }
                let v = match name {
                    "href" => AttributeValue::Link(t.clone()),
                    "fill" | "stroke" => AttributeValue::Paint(t.clone(), if s.chance(1, 2) { Some(PaintFallback::None) } else { None }),
                    _ => AttributeValue::FuncLink(t.clone()),
                };
                if e.set_attribute_checked((AttributeId::from_str(name).unwrap(), v)).is_ok() {
                    log.push_str(&format!("\nlink {} of {:?} {} to {:?}", name, e.id(), e.tag_name(), t.id()));
                    effects += 1;
                }
            }
        }
    }
    ctx.set_input(&log);
    if adjacent_texts(&snapshot(&doc.root())) {
        return Ok(());
    }
    let b = reopen(&doc, ctx)?;
    classify(&b, ctx);
    ctx.nontrivial = effects >= 2;
    Ok(())
}

// ---- C12

fn gen_indent(s: &mut Src) -> Indent {
    match s.weighted(&[3, 2, 1, 1, 1]) {
        0 => Indent::None,
        1 => Indent::Spaces(4),
        2 => Indent::Spaces(0),
        3 => Indent::Tabs,
        _ => Indent::Spaces(s.range(1, 9) as u8),
    }
}

pub fn gen_opts(s: &mut Src) -> WriteOptions {
    let bits = s.draw(128);
    let b = |i: u64| bits & (1 << i) != 0;
    WriteOptions {
        use_single_quote: s.chance(1, 2),
        indent: gen_indent(s),
        attributes_indent: gen_indent(s),
        values: ValueWriteOptions {
            trim_hex_colors: b(0),
            remove_leading_zero: b(1),
            use_compact_path_notation: b(2),
            join_arc_to_flags: b(3),
            remove_duplicated_path_commands: b(4),
            use_implicit_lineto_commands: b(5),
            simplify_transform_matrices: b(6),
            list_separator: match s.idx(3) {
                0 => ListSeparator::Space,
                1 => ListSeparator::Comma,
                _ => ListSeparator::CommaSpace,
            },
        },
    }
}

/// Consecutive close commands become one when duplicated commands are removed (in svgtypes).
fn collapse_close(n: &mut SN) -> bool {
    let mut found = false;
    for v in n.attrs.values_mut() {
        if let V::P(AttributeValue::Path(ref mut p)) = v {
            let before = p.0.len();
            p.0.dedup_by(|b, a| matches!((a, b), (PathSegment::ClosePath { abs: x }, PathSegment::ClosePath { abs: y }) if x == y));
            found |= p.0.len() != before;
        }
    }
    for k in &mut n.kids {
        found |= collapse_close(k);
    }
    found
}

pub fn c12_options(s: &mut Src, ctx: &mut Ctx) -> R {
    let opt = gen_opts(s);
    let mut c = full_cfg(s);
    if s.chance(1, 2) {
        c.props = vec!["d", "transform", "points", "fill", "stroke-dasharray", "x", "viewBox", "stdDeviation", "href", "unicode", "font-family", "opacity", "gradientTransform"];
    }
    let doc = if s.chance(1, 2) {
        let d = gen_doc(s, &c);
        let text = serialise(&d, s, false);
        ctx.set_input(&format!("{:?}\n{}", opt, text));
        match Document::from_str(&text) {
            Ok(d) => d,
            Err(_) => return Ok(()),
        }
    } else {
        c.unknown = 0;
        c.pis = 0;
        c.sheets = 0;
        let d = gen_doc(s, &c);
        let (mut sn, _) = model(&d);
        tidy(&mut sn);
        ctx.set_input(&format!("{:?}\n{}", opt, show(&sn)));
        build(&sn, s)
    };
    let before = snapshot(&doc.root());
    if adjacent_texts(&before) || too_big(&before) {
        return Ok(());
    }
    let plain = doc.to_string();
    let s1 = doc.to_string_with_opt(&opt);
    let s2 = doc.to_string_with_opt(&opt);
    if s1 != s2 {
        return fail("not stable", format!("writing twice gives different texts: {}", first_diff(&s1, &s2)));
    }
    if doc.to_string() != plain {
        return fail("not stable", "writing with options changes the default output".to_string());
    }
    if let Some((_, msg)) = diff(&before, &snapshot(&doc.root()), &Cmp::all(0.0)) {
        return fail("modified", format!("writing changed the document: {}", msg));
    }
    let (x, y) = match (Document::from_str(&plain), Document::from_str(&s1)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) => return fail("rejected", format!("the saved file is rejected: {}\n{}", e, plain)),
        (_, Err(e)) => return fail("rejected", format!("the saved file is rejected: {}\n{}", e, s1)),
    };
    let (mut x, mut y) = (snapshot(&x.root()), snapshot(&y.root()));
    drop_identity(&mut x);
    drop_identity(&mut y);
    if let Some((sig, msg)) = diff(&x, &y, &Cmp::all(TOL)) {
        if opt.values.remove_duplicated_path_commands && collapse_close(&mut x) {
            collapse_close(&mut y);
            if diff(&x, &y, &Cmp::all(TOL)).is_none() {
                ctx.known.push("repeated-close-path".to_string());
                ctx.nontrivial = true;
                return Ok(());
            }
        }
        return fail(sig, format!("with options: {}\ndefault:\n{}\nwith options:\n{}", msg, plain, s1));
    }
    classify(&before, ctx);
    if s1 != plain {
        ctx.label("other text");
    }
    Ok(())
}
