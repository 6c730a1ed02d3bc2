//! C20: kinds of values, conversions and printing.

use super::data::ATTRIBUTES;
use super::machine::{gen_history, show_history, Focus};
use super::layout::{gen_built, gen_string, value_text};
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use svgdom::*;

const KINDS: &[&str] = &[
    "none", "inherit", "current_color", "aspect_ratio", "color", "length", "length_list", "angle", "link", "func_link", "paint", "number",
    "number_list", "path", "points", "string", "transform", "viewbox",
];

fn kind_of(v: &AttributeValue) -> usize {
    match v {
        AttributeValue::None => 0,
        AttributeValue::Inherit => 1,
        AttributeValue::CurrentColor => 2,
        AttributeValue::AspectRatio(..) => 3,
        AttributeValue::Color(..) => 4,
        AttributeValue::Length(..) => 5,
        AttributeValue::LengthList(..) => 6,
        AttributeValue::Angle(..) => 7,
        AttributeValue::Link(..) => 8,
        AttributeValue::FuncLink(..) => 9,
        AttributeValue::Paint(..) => 10,
        AttributeValue::Number(..) => 11,
        AttributeValue::NumberList(..) => 12,
        AttributeValue::Path(..) => 13,
        AttributeValue::Points(..) => 14,
        AttributeValue::String(..) => 15,
        AttributeValue::Transform(..) => 16,
        AttributeValue::ViewBox(..) => 17,
    }
}

fn value_answers(v: &AttributeValue) -> Vec<bool> {
    vec![
        v.is_none(), v.is_inherit(), v.is_current_color(), v.is_aspect_ratio(), v.is_color(), v.is_length(), v.is_length_list(), v.is_angle(),
        v.is_link(), v.is_func_link(), v.is_paint(), v.is_number(), v.is_number_list(), v.is_path(), v.is_points(), v.is_string(),
        v.is_transform(), v.is_viewbox(),
    ]
}

/// An attribute has no `is_angle` query.
fn attr_answers(v: &Attribute) -> Vec<bool> {
    vec![
        v.is_none(), v.is_inherit(), v.is_current_color(), v.is_aspect_ratio(), v.is_color(), v.is_length(), v.is_length_list(), false,
        v.is_link(), v.is_func_link(), v.is_paint(), v.is_number(), v.is_number_list(), v.is_path(), v.is_points(), v.is_string(),
        v.is_transform(), v.is_viewbox(),
    ]
}

fn attr_name(q: &AttributeQName) -> String {
    match q {
        QName::Id(id) => match id.as_str() {
            "href" => "xlink:href".to_string(),
            "space" => "xml:space".to_string(),
            n => n.to_string(),
        },
        QName::Name(n) => n.clone(),
    }
}

fn tag_text(q: &TagName) -> String {
    match q {
        QName::Id(id) => id.as_str().to_string(),
        QName::Name(n) => n.clone(),
    }
}

fn check_attr(a: &Attribute) -> R {
    let v = &a.value;
    let k = kind_of(v);
    let got = value_answers(v);
    for i in 0..KINDS.len() {
        ensure!(got[i] == (i == k), "kind query", "is_{} of {:?} is {}", KINDS[i], v, got[i]);
    }
    let mut want = got.clone();
    want[7] = false;
    ensure!(attr_answers(a) == want, "attribute kind query", "the queries of the attribute {:?} do not agree with its value", a);
    let c = k == 8 || k == 9 || k == 10;
    ensure!(v.is_link_container() == c && a.is_link_container() == c, "is_link_container", "{:?}", v);

    let text = value_text(v, &ValueWriteOptions::default());
    ensure!(v.to_string() == text, "value text", "the value is printed as {:?}, expected {:?}", v.to_string(), text);
    let name = attr_name(&a.name);
    ensure!(a.name.to_string() == name, "name text", "the name is printed as {:?}, expected {:?}", a.name.to_string(), name);
    ensure!(a.to_string() == format!("{}='{}'", name, text), "attribute text", "the attribute is printed as {:?}, expected {}='{}'", a.to_string(), name, text);
    let _ = format!("{:?} {:?} {:?}", a, v, a.name);
    Ok(())
}

fn fb(s: &mut Src) -> PaintFallback {
    match s.idx(3) {
        0 => PaintFallback::None,
        1 => PaintFallback::CurrentColor,
        _ => PaintFallback::Color(color(s).1),
    }
}

const UNITS: &[LengthUnit] = &[
    LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm, LengthUnit::Mm, LengthUnit::Pt,
    LengthUnit::Pc, LengthUnit::Percent,
];

fn expect(got: AttributeValue, want: AttributeValue, what: &str) -> R {
    ensure!(kind_of(&got) == kind_of(&want) && (same_value(&got, &want, 0.0) || (8..=10).contains(&kind_of(&want)) && got == want), "conversion", "{}: {:?} instead of {:?}", what, got, want);
    Ok(())
}

fn small(s: &mut Src) -> f64 {
    number(s).1
}

/// Every kind of value, its conversions and queries.
pub fn c20_values(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut target = doc.create_element(ElementId::LinearGradient);
    target.set_id(*s.pick(&["a", "é", "x y", "1", "a'b"]));
    let kind = s.idx(KINDS.len());
    let f = fb(s);
    let n = small(s);
    let v: AttributeValue = match kind {
        0 => AttributeValue::None,
        1 => AttributeValue::Inherit,
        2 => AttributeValue::CurrentColor,
        8 => AttributeValue::Link(target.clone()),
        9 => AttributeValue::FuncLink(target.clone()),
        10 => AttributeValue::Paint(target.clone(), if s.chance(1, 2) { Some(f) } else { None }),
        15 => AttributeValue::String(gen_string(s)),
        11 => AttributeValue::Number(n),
        4 => AttributeValue::Color(color(s).1),
        _ => {
            let a = match kind {
                3 => "preserveAspectRatio",
                5 => "width",
                6 => "stroke-dasharray",
                7 => "orient",
                12 => "stdDeviation",
                13 => "d",
                14 => "points",
                16 => "transform",
                _ => "viewBox",
            };
            match value(s, "rect", a, &VCfg { ids: &[], refs: 0, bad: 0, css: false }).exp {
                Exp::Val(v) => v,
                _ => AttributeValue::Number(0.0),
            }
        }
    };
    let custom = s.chance(1, 4);
    let own = *s.pick(&["data-a", "href", "fill", "x:y"]);
    let name = *s.pick(ATTRIBUTES);
    let name = if s.chance(1, 4) { *s.pick(&["href", "space", "fill", "stroke"]) } else { name };
    let id = AttributeId::from_str(name).unwrap();
    ctx.nontrivial = true;
    ctx.label(KINDS[kind_of(&v)]);
    ctx.set_input(&format!("{} = {} {}", if custom { own } else { name }, KINDS[kind_of(&v)], value_text(&v, &ValueWriteOptions::default())));

    // Conversions of what the value holds.
    match v.clone() {
        AttributeValue::AspectRatio(x) => expect(AttributeValue::from(x), v.clone(), "aspect ratio")?,
        AttributeValue::Color(x) => {
            expect(AttributeValue::from(x), v.clone(), "colour")?;
            expect(AttributeValue::from(PaintFallback::Color(x)), v.clone(), "fallback colour")?;
        }
        AttributeValue::Length(x) => {
            expect(AttributeValue::from(x), v.clone(), "length")?;
            expect(AttributeValue::from((x.num, x.unit)), v.clone(), "number and unit")?;
        }
        AttributeValue::LengthList(x) => expect(AttributeValue::from(x), v.clone(), "length list")?,
        AttributeValue::Angle(x) => expect(AttributeValue::from(x), v.clone(), "angle")?,
        AttributeValue::Number(x) => expect(AttributeValue::from(x), v.clone(), "number")?,
        AttributeValue::NumberList(x) => expect(AttributeValue::from(x), v.clone(), "number list")?,
        AttributeValue::Path(x) => expect(AttributeValue::from(x), v.clone(), "path")?,
        AttributeValue::Points(x) => expect(AttributeValue::from(x), v.clone(), "points")?,
        AttributeValue::Transform(x) => expect(AttributeValue::from(x), v.clone(), "transform")?,
        AttributeValue::ViewBox(x) => expect(AttributeValue::from(x), v.clone(), "view box")?,
        AttributeValue::String(x) => {
            expect(AttributeValue::from(x.as_str()), v.clone(), "text")?;
            expect(AttributeValue::from(x), v.clone(), "string")?;
        }
        _ => {}
    }
    let i = if s.chance(1, 8) { *s.pick(&[i32::min_value(), i32::max_value(), -1]) } else { s.range(-100_000, 100_000) as i32 };
    let u = *s.pick(UNITS);
    expect(AttributeValue::from(i), AttributeValue::Number(i as f64), "integer")?;
    expect(AttributeValue::from((i, u)), AttributeValue::Length(Length::new(i as f64, u)), "integer and unit")?;
    expect(AttributeValue::from((n, u)), AttributeValue::Length(Length::new(n, u)), "number and unit")?;
    let want = match f {
        PaintFallback::None => AttributeValue::None,
        PaintFallback::CurrentColor => AttributeValue::CurrentColor,
        PaintFallback::Color(c) => AttributeValue::Color(c),
    };
    expect(AttributeValue::from(f), want, "paint fallback")?;

    // Attributes.
    let a = if custom { Attribute::new(own, v.clone()) } else { Attribute::new(id, v.clone()) };
    let b: Attribute = if custom { (own, v.clone()).into() } else { (id, v.clone()).into() };
    for x in &[&a, &b] {
        match (&x.name, custom) {
            (QName::Id(i), false) => ensure!(*i == id, "name", "{:?} instead of {}", i, name),
            (QName::Name(n), true) => ensure!(n == own, "name", "{:?} instead of {}", n, own),
            _ => return fail("name", format!("the name {} is stored as {:?}", if custom { own } else { name }, x.name)),
        }
        expect(x.value.clone(), v.clone(), "attribute value")?;
        ensure!(x.is_svg() == !custom, "is_svg", "{:?}", x.name);
        ensure!(x.id() == if custom { None } else { Some(id) }, "id", "{:?}", x.name);
        let back: AttributeQName = x.name.as_ref().into();
        ensure!(back == x.name, "name", "{:?} becomes {:?}", x.name, back);
        check_attr(x)?;
    }
    ensure!(a == b, "equal", "two attributes made from the same parts are not equal: {:?} {:?}", a, b);
    for n in ATTRIBUTES {
        let other = AttributeId::from_str(n).unwrap();
        let w = !custom && *n == name;
        ensure!(a.has_id(other) == w && a.name.has_id(other) == w && a.name.as_ref().has_id(other) == w, "has_id", "{:?} has_id {}", a.name, n);
    }

    // A node alone becomes the link that fits the name.
    let l: Attribute = if custom { (own, target.clone()).into() } else { (id, target.clone()).into() };
    let want = match (custom, name) {
        (false, "href") => AttributeValue::Link(target.clone()),
        (false, "fill") | (false, "stroke") => AttributeValue::Paint(target.clone(), None),
        _ => AttributeValue::FuncLink(target.clone()),
    };
    ensure!(l.value == want, "link conversion", "{:?} instead of {:?} for {:?}", l.value, want, l.name);
    check_attr(&l)?;
    let f = Some(f);
    let l: Attribute = if custom { (own, (target.clone(), f)).into() } else { (id, (target.clone(), f)).into() };
    ensure!(l.value == AttributeValue::Paint(target.clone(), f), "link conversion", "{:?}", l.value);
    check_attr(&l)?;
    Ok(())
}

/// Every node and attribute of a document is printed as it is stored.
pub fn c20_print(s: &mut Src, ctx: &mut Ctx) -> R {
    // Built with care for what can be written, or by any calls with any texts.
    let doc = if s.chance(1, 2) {
        let b = gen_built(s);
        ctx.set_input(&b.doc.to_string());
        ctx.nontrivial = b.elems >= 3;
        if b.links > 0 {
            ctx.label("links");
        }
        b.doc
    } else {
        let f = *s.pick(&[Focus::Data, Focus::All]);
        let h = gen_history(s, f);
        ctx.set_input(&show_history(&h));
        match no_panic(|| super::reads::built(&h)) {
            Ok(Some(m)) => {
                ctx.nontrivial = m.nodes.len() >= 4;
                m.doc
            }
            _ => return Ok(()),
        }
    };
    let mut list = vec![doc.root()];
    let mut k = 0;
    while k < list.len() {
        let mut c = list[k].first_child();
        while let Some(x) = c {
            c = x.next_sibling();
            list.push(x);
        }
        k += 1;
    }
    for n in &list {
        let attrs = n.attributes();
        let shown = n.to_string();
        let debug = format!("{:?}", n);
        match n.node_type() {
            NodeType::Root => ensure!(shown.is_empty(), "node text", "the root is printed as {:?}", shown),
            NodeType::Comment => {
                ensure!(shown == format!("<!--{}-->", *n.text()), "node text", "a comment is printed as {:?}", shown);
                ensure!(debug.contains(n.text().as_str()), "debug text", "{:?}", debug);
            }
            NodeType::Text => {
                ensure!(shown == *n.text(), "node text", "a text is printed as {:?}", shown);
                ensure!(debug.contains(n.text().as_str()), "debug text", "{:?}", debug);
            }
            NodeType::Element => {
                let mut parts = Vec::new();
                for a in attrs.iter() {
                    check_attr(a)?;
                    parts.push(format!("{}='{}'", attr_name(&a.name), value_text(&a.value, &ValueWriteOptions::default())));
                }
                let joined = parts.join(" ");
                ensure!(attrs.to_string() == joined, "list text", "attributes are printed as {:?}, expected {:?}", attrs.to_string(), joined);
                ensure!(format!("{:?}", *attrs).contains(&joined), "debug text", "{:?}", *attrs);
                let tag = tag_text(&n.tag_name());
                ensure!(n.tag_name().to_string() == tag, "name text", "{:?}", n.tag_name());
                let mut want = format!("<{}", tag);
                if n.has_id() {
                    want.push_str(&format!(" id='{}'", *n.id()));
                }
                if !parts.is_empty() {
                    want.push(' ');
                    want.push_str(&joined);
                }
                want.push('>');
                ensure!(shown == want, "node text", "an element is printed as {:?}, expected {:?}", shown, want);
                ensure!(debug.contains(&want[1..want.len() - 1]), "debug text", "{:?} does not show {:?}", debug, want);
                for u in n.linked_nodes().iter() {
                    ensure!(debug.contains(&format!("'{}'", *u.id())), "debug text", "{:?} does not show the user '{}'", debug, *u.id());
                }
            }
        }
    }
    Ok(())
}
