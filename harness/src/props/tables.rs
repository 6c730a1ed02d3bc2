//! C17, C18: names, categories and defaults.

use super::data::*;
use super::layout::written_names;
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use svgdom::*;

// ---- C17

fn check_elem_name(n: &str) -> R {
    let known = ELEMENTS.contains(&n);
    match ElementId::from_str(n) {
        Some(id) => {
            ensure!(known, "recognised", "{:?} is recognised as the element {:?}", n, id.as_str());
            ensure!(id.as_str() == n, "name", "element {:?} converts back to {:?}", n, id.as_str());
            ensure!(id.to_string() == n && format!("{:?}", id) == n, "name", "element {:?} is printed as {}", n, id);
        }
        None => ensure!(!known, "not recognised", "the element {:?} is not recognised", n),
    }
    Ok(())
}

fn check_attr_name(n: &str) -> R {
    let known = ATTRIBUTES.contains(&n);
    match AttributeId::from_str(n) {
        Some(id) => {
            ensure!(known, "recognised", "{:?} is recognised as the attribute {:?}", n, id.as_str());
            ensure!(id.as_str() == n, "name", "attribute {:?} converts back to {:?}", n, id.as_str());
            ensure!(id.to_string() == n && format!("{:?}", id) == n, "name", "attribute {:?} is printed as {}", n, id);
        }
        None => ensure!(!known, "not recognised", "the attribute {:?} is not recognised", n),
    }
    Ok(())
}

/// Whole tables: all names, all pairs of identifiers, all single edits of all names.
pub fn c17_all(_: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    ctx.set_input("all names and their single edits");
    for n in ELEMENTS.iter().chain(ATTRIBUTES) {
        check_elem_name(n)?;
        check_attr_name(n)?;
        for m in edits(n) {
            check_elem_name(&m)?;
            check_attr_name(&m)?;
        }
    }
    let e: Vec<ElementId> = ELEMENTS.iter().map(|n| ElementId::from_str(n).unwrap()).collect();
    for (i, x) in e.iter().enumerate() {
        for y in &e[i + 1..] {
            ensure!(x != y, "shared", "{} and {} share an identifier", x, y);
        }
    }
    let a: Vec<AttributeId> = ATTRIBUTES.iter().map(|n| AttributeId::from_str(n).unwrap()).collect();
    for (i, x) in a.iter().enumerate() {
        for y in &a[i + 1..] {
            ensure!(x != y, "shared", "{} and {} share an identifier", x, y);
        }
    }
    Ok(())
}

fn flip(c: char) -> String {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase().to_string()
    } else {
        c.to_ascii_lowercase().to_string()
    }
}

fn edits(n: &str) -> Vec<String> {
    let mut out = vec![
        n.to_uppercase(),
        n.to_lowercase(),
        format!(" {}", n),
        format!("{} ", n),
        format!("svg:{}", n),
        format!("xlink:{}", n),
        format!("{}\0", n),
        format!("{}s", n),
        n.replace('-', "_"),
        n.replace('-', ""),
    ];
    for (i, c) in n.char_indices() {
        out.push(format!("{}{}{}", &n[..i], flip(c), &n[i + 1..]));
        out.push(format!("{}{}", &n[..i], &n[i + 1..]));
        out.push(n[..i].to_string());
        out.push(n[i..].to_string());
    }
    out
}

fn gen_name(s: &mut Src) -> String {
    let base = |s: &mut Src| -> String { (*if s.chance(1, 2) { s.pick(ATTRIBUTES) } else { s.pick(ELEMENTS) }).to_string() };
    let mut t = base(s);
    let n = s.weighted(&[3, 5, 2, 1]);
    for _ in 0..n {
        let b: Vec<char> = t.chars().collect();
        let i = s.idx(b.len() + 1);
        let mut c = b.clone();
        match s.idx(8) {
            0 if i < b.len() => c[i] = flip(b[i]).chars().next().unwrap(),
            1 if i < b.len() => {
                c.remove(i);
            }
            2 => c.insert(i, *s.pick(&['a', '-', ' ', 's', ':', '\0', 'é', '1', 'x', '_'])),
            3 if i < b.len() => c[i] = *s.pick(&['a', 'b', 'e', 'o', 'r', '-', '1', '2', 'x', 'y', 'X', 'Y', 'R', 'é']),
            4 if i + 1 < b.len() => c.swap(i, i + 1),
            5 => {
                let o = base(s);
                c = b.iter().cloned().chain(o.chars()).collect();
            }
            6 => {
                // The tail of another name.
                let o: Vec<char> = base(s).chars().collect();
                let k = s.idx(o.len());
                c = b[..i].iter().cloned().chain(o[k..].iter().cloned()).collect();
            }
            _ => c = b.iter().map(|x| x.to_ascii_lowercase()).collect(),
        }
        t = c.into_iter().collect();
    }
    t
}

pub fn c17_names(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = gen_name(s);
    ctx.set_input(&format!("{:?}", n));
    ctx.nontrivial = true;
    if ELEMENTS.contains(&n.as_str()) || ATTRIBUTES.contains(&n.as_str()) {
        ctx.label("known");
    } else {
        ctx.label("other");
    }
    check_elem_name(&n)?;
    check_attr_name(&n)
}

fn xml_name(n: &str) -> bool {
    let mut c = n.chars();
    c.next().map_or(false, |x| x.is_ascii_alphabetic() || x == '_') && c.all(|x| x.is_ascii_alphanumeric() || x == '-' || x == '_') && !n.starts_with("xml")
}

pub fn c17_files(s: &mut Src, ctx: &mut Ctx) -> R {
    let tag = {
        let t = if s.chance(1, 2) { s.pick(ELEMENTS).to_string() } else { gen_name(s) };
        if xml_name(&t) && t != "style" {
            t
        } else {
            "g".to_string()
        }
    };
    let attr = {
        let t = if s.chance(1, 2) { s.pick(ATTRIBUTES).to_string() } else { gen_name(s) };
        if xml_name(&t) && !["id", "style", "class"].contains(&t.as_str()) {
            t
        } else {
            "x".to_string()
        }
    };
    let f = check_file(s, &tag, &attr)?;
    ctx.set_input(&f.0);
    ctx.nontrivial = true;
    ctx.label(if f.1 { "kept" } else { "dropped" });
    Ok(())
}

/// Every attribute on some element.
pub fn c17_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let tag = *s.pick(ELEMENTS);
    if tag == "style" {
        return Ok(());
    }
    let from = s.idx(10);
    ctx.nontrivial = true;
    for a in ATTRIBUTES.iter().skip(from).step_by(10) {
        if !["id", "style", "class", "xmlns"].contains(a) {
            ctx.set_input(&format!("{} {}", tag, a));
            check_file(s, tag, a)?;
        }
    }
    Ok(())
}

fn check_file(s: &mut Src, tag: &str, attr: &str) -> Result<(String, bool), Fail> {
    let v = VCfg { ids: &[], refs: 0, bad: 0, css: false };
    let (text, stored) = if ATTRIBUTES.contains(&attr) {
        let g = value(s, tag, attr, &v);
        (g.text, matches!(g.exp, Exp::Val(_)))
    } else {
        ("v".to_string(), true)
    };
    let esc = text.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\n', "&#xa;").replace('\t', "&#x9;").replace('\r', "&#xd;");
    let prefix = match attr {
        "href" => *s.pick(&["xlink:", ""]),
        "space" => "xml:",
        _ => "",
    };
    let file = format!("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"><g/><{} {}{}=\"{}\"/><defs/></svg>", tag, prefix, attr, esc);
    let doc = match Document::from_str(&file) {
        Ok(d) => d,
        Err(e) => return fail("rejected", format!("{}", e)),
    };
    let keep_tag = ELEMENTS.contains(&tag);
    let keep_attr = ATTRIBUTES.contains(&attr) && stored;
    let svg = doc.svg_element().unwrap();
    let mut kids = Vec::new();
    let mut c = svg.first_child();
    while let Some(x) = c {
        c = x.next_sibling();
        kids.push(x);
    }
    let want = if keep_tag { 3 } else { 2 };
    ensure!(kids.len() == want, "element", "<{}>: expected {} children, found {}", tag, want, kids.len());
    let shown = match attr {
        "href" => "xlink:href",
        "space" => "xml:space",
        a => a,
    };
    if keep_tag {
        let e = &kids[1];
        ensure!(e.tag_name().to_string() == tag && e.tag_id().map(|i| i.as_str()) == Some(tag), "element", "<{}> is stored as {}", tag, e.tag_name());
        let attrs = e.attributes();
        let names: Vec<String> = attrs.iter().map(|a| a.name.to_string()).collect();
        let want: Vec<String> = if keep_attr { vec![shown.to_string()] } else { Vec::new() };
        ensure!(names == want, "attribute", "<{} {}>: expected attributes {:?}, found {:?}", tag, attr, want, names);
        if keep_attr {
            ensure!(e.has_attribute(AttributeId::from_str(attr).unwrap()), "attribute", "<{} {}>: the attribute is not found by its identifier", tag, attr);
        }
    }
    // Written back with the same spelling.
    let out = doc.to_string();
    let w = match written_names(&out) {
        Ok(w) => w,
        Err(e) => return fail("output", format!("{} in {}", e, out)),
    };
    let tags: Vec<&str> = w.iter().map(|x| x.0.as_str()).collect();
    let want: Vec<&str> = if keep_tag { vec!["svg", "g", tag, "defs"] } else { vec!["svg", "g", "defs"] };
    ensure!(tags == want, "written", "expected elements {:?}, written {:?}", want, tags);
    if keep_tag {
        let want: Vec<String> = if keep_attr { vec![shown.to_string()] } else { Vec::new() };
        ensure!(w[2].1 == want, "written", "expected attributes {:?}, written {:?}", want, w[2].1);
    }
    Ok((file, keep_tag && keep_attr))
}

// ---- C18

type NodeQ = (&'static str, fn(&Node) -> bool, &'static [&'static str]);

const NODE_Q: &[NodeQ] = &[
    ("is_referenced", |n| n.is_referenced(), REFERENCED),
    ("is_basic_shape", |n| n.is_basic_shape(), BASIC_SHAPE),
    ("is_shape", |n| n.is_shape(), SHAPE),
    ("is_container", |n| n.is_container(), CONTAINER),
    ("is_text_content", |n| n.is_text_content(), TEXT_CONTENT),
    ("is_text_content_child", |n| n.is_text_content_child(), TEXT_CONTENT_CHILD),
    ("is_graphic", |n| n.is_graphic(), GRAPHIC),
    ("is_gradient", |n| n.is_gradient(), GRADIENT),
    ("is_paint_server", |n| n.is_paint_server(), PAINT_SERVER),
    ("is_filter_primitive", |n| n.is_filter_primitive(), FILTER_PRIMITIVE),
];

type AttrQ = (&'static str, fn(&AttributeId) -> bool, fn(&Attribute) -> bool, fn(&str) -> bool);

const ATTR_Q: &[AttrQ] = &[
    ("is_presentation", |a| a.is_presentation(), |a| a.is_presentation(), |n| PRESENTATION.contains(&n)),
    ("is_inheritable", |a| a.is_inheritable(), |a| a.is_inheritable(), |n| PRESENTATION.contains(&n) && !NON_INHERITED.contains(&n)),
    ("is_animation_event", |a| a.is_animation_event(), |a| a.is_animation_event(), |n| ANIMATION_EVENT.contains(&n)),
    ("is_graphical_event", |a| a.is_graphical_event(), |a| a.is_graphical_event(), |n| GRAPHICAL_EVENT.contains(&n)),
    ("is_document_event", |a| a.is_document_event(), |a| a.is_document_event(), |n| DOCUMENT_EVENT.contains(&n)),
    ("is_conditional_processing", |a| a.is_conditional_processing(), |a| a.is_conditional_processing(), |n| CONDITIONAL.contains(&n)),
    ("is_core", |a| a.is_core(), |a| a.is_core(), |n| CORE.contains(&n)),
    ("is_fill", |a| a.is_fill(), |a| a.is_fill(), |n| FILL.contains(&n)),
    ("is_stroke", |a| a.is_stroke(), |a| a.is_stroke(), |n| STROKE.contains(&n)),
];

fn check_node(n: &Node, tag: &str) -> R {
    for (q, f, t) in NODE_Q {
        let want = t.contains(&tag);
        ensure!(f(n) == want, "element category", "{} of '{}' is {}", q, tag, !want);
    }
    Ok(())
}

fn check_attr(a: &Attribute, name: &str, custom: bool) -> R {
    for (q, f, g, t) in ATTR_Q {
        let want = !custom && t(name);
        ensure!(g(a) == want, "attribute category", "{} of the attribute '{}' is {}", q, name, !want);
        if let Some(id) = a.id() {
            ensure!(f(&id) == want, "attribute category", "{} of the identifier '{}' is {}", q, name, !want);
        }
    }
    ensure!(!a.is_inheritable() || a.is_presentation(), "attribute category", "'{}' is inheritable but no presentation attribute", name);
    Ok(())
}

fn check_default(n: &str) -> R {
    let id = AttributeId::from_str(n).unwrap();
    let v = AttributeValue::default_value(id);
    let want = DEFAULTS.iter().find(|d| d.0 == n).map(|d| d.1);
    let same = match (want, &v) {
        (None, None) => true,
        (Some("none"), Some(AttributeValue::None)) => true,
        (Some(w), Some(AttributeValue::String(s))) => w.strip_prefix("s:") == Some(s),
        (Some(w), Some(AttributeValue::Color(c))) => w == format!("c:#{:02x}{:02x}{:02x}", c.red, c.green, c.blue),
        (Some(w), Some(AttributeValue::Number(x))) => w == format!("n:{}", x),
        (Some(w), Some(AttributeValue::Length(l))) => l.unit == LengthUnit::None && w == format!("l:{}", l.num),
        _ => false,
    };
    ensure!(same, "default", "the default of '{}' is {:?}, expected {:?}", n, v, want);
    match (Attribute::new_default(id), v) {
        (None, None) => {}
        (Some(a), Some(v)) => ensure!(a.has_id(id) && same_value(&a.value, &v, 0.0), "default", "the default attribute of '{}' is {}", n, a),
        (a, _) => return fail("default", format!("the default attribute of '{}' is {:?}", n, a)),
    }
    Ok(())
}

pub fn c18_all(_: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    ctx.set_input("all elements and attributes");
    let mut doc = Document::new();
    for t in ELEMENTS {
        let n = doc.create_element(ElementId::from_str(t).unwrap());
        check_node(&n, t)?;
        let n = doc.create_element(*t);
        check_node(&n, "")?;
    }
    check_node(&doc.root(), "")?;
    for a in ATTRIBUTES {
        let id = AttributeId::from_str(a).unwrap();
        check_attr(&Attribute::new(id, "v"), a, false)?;
        check_attr(&Attribute::new(*a, "v"), a, true)?;
        check_default(a)?;
    }
    Ok(())
}

pub fn c18_nodes(s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    let mut doc = Document::new();
    let mut root = doc.root();
    let n = 1 + s.count_long(4, 8, 40);
    let mut log = String::new();
    for _ in 0..n {
        let tag = *s.pick(ELEMENTS);
        let (mut e, shown) = match s.weighted(&[6, 2, 1, 1]) {
            0 => (doc.create_element(ElementId::from_str(tag).unwrap()), tag),
            1 => (doc.create_element(tag), ""),
            2 => (doc.create_node(NodeType::Text, tag), ""),
            _ => (doc.create_node(NodeType::Comment, tag), ""),
        };
        log.push_str(&format!("{} {:?}:", tag, e.node_type()));
        if e.is_element() {
            for _ in 0..s.count(2, 5) {
                let a = *s.pick(ATTRIBUTES);
                let custom = s.chance(1, 4);
                if custom {
                    e.set_attribute((a, "v"));
                } else {
                    e.set_attribute((AttributeId::from_str(a).unwrap(), "v"));
                }
                log.push_str(&format!(" {}{}", a, if custom { "(custom)" } else { "" }));
            }
        }
        log.push('\n');
        if s.chance(1, 2) {
            root.append(e.clone());
        }
        check_node(&e, shown)?;
        let c = if e.is_element() && s.chance(1, 2) { doc.copy_node(e.clone()) } else { e.clone() };
        check_node(&c, shown)?;
        for a in c.attributes().iter() {
            let name = match a.name {
                QName::Id(id) => id.as_str().to_string(),
                QName::Name(ref n) => n.clone(),
            };
            check_attr(a, &name, !a.is_svg())?;
            if let Some(id) = a.id() {
                check_default(id.as_str())?;
            }
        }
    }
    ctx.set_input(&log);
    Ok(())
}
