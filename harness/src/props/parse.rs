//! C02, C03, C04, C14, C15, C16: parsing compared with the model.

use super::data::*;
use super::model::*;
use super::snap::*;
use super::vals::*;
use super::xml::*;
use crate::engine::*;
use svgdom::*;

fn parse_case(doc: &XDoc, noise: bool, s: &mut Src, ctx: &mut Ctx, cmp: &Cmp) -> Result<(SN, Facts), Fail> {
    let text = serialise(doc, s, noise);
    ctx.set_input(&text);
    let (exp, facts) = model(doc);
    let got = match Document::from_str(&text) {
        Ok(d) => d,
        Err(e) => return fail("rejected", format!("a valid file was rejected: {}", e)),
    };
    let act = snapshot(&got.root());
    if let Some((sig, msg)) = diff(&exp, &act, cmp) {
        return fail(sig, format!("{}\nexpected:\n{}found:\n{}", msg, show(&exp), show(&act)));
    }
    Ok((exp, facts))
}

// ---- C02

pub fn c02_tree(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = Cfg::basic();
    c.unknown = 14;
    c.comments = 12;
    c.pis = 5;
    c.stray_text = 8;
    c.foreign_attrs = 18;
    c.max_elems = 18;
    c.bad = 0;
    c.refs = 2;
    if s.chance(1, 3) {
        c.props = STR_ATTRS.to_vec();
    }
    let doc = gen_doc(s, &c);
    let mut cmp = Cmp::all(1e-9);
    cmp.text = false;
    let (_, f) = parse_case(&doc, true, s, ctx, &cmp)?;
    ctx.nontrivial = f.elems >= 3;
    if f.dropped_elems > 0 {
        ctx.label("dropped elements");
    }
    if ctx.input.contains("<!ENTITY") {
        ctx.label("entities");
    }
    if ctx.input.contains("<![CDATA[") {
        ctx.label("cdata");
    }
    if ctx.input.contains("<!--") {
        ctx.label("comments");
    }
    Ok(())
}

/// Two spellings of the same content give the same document.
pub fn c02_spelling(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = Cfg::basic();
    c.max_elems = 10;
    c.foreign_attrs = 12;
    c.unknown = 10;
    let doc = gen_doc(s, &c);
    let a = serialise(&doc, s, false);
    let b = serialise(&doc, s, true);
    ctx.set_input(&format!("{}\n--- other spelling ---\n{}", a, b));
    let (da, db) = match (Document::from_str(&a), Document::from_str(&b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return fail("rejected", "a valid file was rejected".into()),
    };
    let mut cmp = Cmp::all(0.0);
    cmp.text = true;
    if let Some((sig, msg)) = diff(&snapshot(&da.root()), &snapshot(&db.root()), &cmp) {
        return fail(sig, msg);
    }
    ctx.nontrivial = a != b;
    Ok(())
}

// ---- C03

const CSS_PROPS: &[&str] = &[
    "fill", "stroke", "opacity", "stroke-width", "transform", "marker-start", "marker-end", "font-size", "clip-path", "display", "color",
    "fill-opacity", "stroke-dasharray", "visibility", "letter-spacing", "marker-mid",
];

pub fn cascade_doc(s: &mut Src) -> XDoc {
    let mut c = Cfg::basic();
    c.all_tags = s.chance(1, 4);
    c.max_elems = 9;
    c.text = 4;
    c.stray_text = 0;
    c.xmlspace = 0;
    c.unknown = 5;
    c.comments = 2;
    c.pis = 1;
    c.sheets = 1 + s.idx(3);
    c.style_attrs = 45;
    c.classes = 45;
    c.refs = 2;
    c.bad = 2;
    c.attrs = 2;
    c.important = s.chance(1, 12);
    c.props = match s.idx(4) {
        0 => CSS_PROPS.to_vec(),
        1 => CSS_PROPS[..4].to_vec(),
        2 => vec!["fill", "transform", "marker-start", "stroke"],
        _ => PRESENTATION.to_vec(),
    };
    c.ids = ["a", "b", "c", "id1"].iter().map(|x| x.to_string()).collect();
    gen_doc(s, &c)
}

pub fn c03_cascade(s: &mut Src, ctx: &mut Ctx) -> R {
    let doc = cascade_doc(s);
    let mut cmp = Cmp::all(1e-9);
    cmp.any_text = false;
    cmp.comments = false;
    let (_, f) = parse_case(&doc, s.chance(1, 3), s, ctx, &cmp)?;
    ctx.nontrivial = f.matched_rules > 0 || f.overrides > 0;
    if f.matched_rules > 0 {
        ctx.label("rules matched");
    }
    if f.matched_rules > 3 {
        ctx.label("several rules matched");
    }
    if f.overrides > 0 {
        ctx.label("several sources");
    }
    if f.links > 0 {
        ctx.label("links");
    }
    Ok(())
}

// ---- C04

pub fn links_doc(s: &mut Src) -> XDoc {
    let mut c = Cfg::basic();
    c.max_elems = 12;
    c.text = 3;
    c.stray_text = 0;
    c.xmlspace = 0;
    c.unknown = 10;
    c.comments = 1;
    c.pis = 0;
    c.attrs = 3;
    c.refs = 9;
    c.bad = 0;
    c.id_chance = 70;
    c.dup_ids = s.chance(1, 2);
    c.foreign_attrs = 3;
    if s.chance(1, 3) {
        c.sheets = 1;
    }
    if s.chance(1, 3) {
        c.style_attrs = 30;
    }
    c.ids = match s.idx(4) {
        3 => [
            "a", "a\"b", "c'd", "e&f", "g<h", "i;j", "k:l", "m%6e", "o#p", "q/r", "s,t", "u(v", "1", "-", "+2", "😀", "w--x", "]]>", "&amp;", "nope",
            "a-very-long-identifier-a-very-long-identifier-a-very-long-identifier-a-very-long-identifier-a-very-long-identifier",
        ]
        .iter()
        .map(|x| x.to_string())
        .collect(),
        0 => ["a", "b", "nope"].iter().map(|x| x.to_string()).collect(),
        1 => ["a", "b", "c", "nope", "A", "a1"].iter().map(|x| x.to_string()).collect(),
        _ => ["a", "b", "c", "d", "e", "nope", "x.y", "é-1", "a_b"].iter().map(|x| x.to_string()).collect(),
    };
    let all = ["href", "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker-mid", "marker-end", "marker"];
    c.props = if s.chance(1, 4) {
        // Long chains and circles of the same attribute.
        vec![*s.pick(&all), *s.pick(&all)]
    } else {
        all.to_vec()
    };
    gen_doc(s, &c)
}

/// A file with many references.
pub fn links_file(s: &mut Src) -> String {
    let d = links_doc(s);
    let noise = s.chance(1, 4);
    serialise(&d, s, noise)
}

pub fn c04_links(s: &mut Src, ctx: &mut Ctx) -> R {
    let doc = links_doc(s);
    let mut cmp = Cmp::all(1e-9);
    cmp.any_text = false;
    cmp.comments = false;
    let (_, f) = parse_case(&doc, s.chance(1, 4), s, ctx, &cmp)?;
    ctx.nontrivial = f.links + f.missing + f.refused >= 2;
    if f.links > 0 {
        ctx.label("resolved");
    }
    if f.forward > 0 {
        ctx.label("forward");
    }
    if f.missing > 0 {
        ctx.label("missing");
    }
    if f.refused > 0 {
        ctx.label("refused");
    }
    Ok(())
}

// ---- C14

const C14_TAGS: &[&str] = &["rect", "text", "tspan", "path", "linearGradient", "set", "animate", "svg", "marker", "glyph", "stop", "feComposite", "tref", "altGlyph", "animateMotion", "use"];

fn one_elem(tag: &str, attrs: Vec<Attr>) -> XDoc {
    let e = Elem { ns: Ns::Svg, tag: tag.into(), attrs, kids: Vec::new(), rules: Vec::new() };
    let kid = if tag == "tspan" || tag == "tref" || tag == "altGlyph" {
        Elem { ns: Ns::Svg, tag: "text".into(), attrs: Vec::new(), kids: vec![X::E(e)], rules: Vec::new() }
    } else {
        e
    };
    let target = Elem {
        ns: Ns::Svg,
        tag: "g".into(),
        attrs: vec![Attr { ns: ANs::None, name: "id".into(), text: "t1".into(), role: Role::Id }],
        kids: Vec::new(),
        rules: Vec::new(),
    };
    let root = Elem { ns: Ns::Svg, tag: "svg".into(), attrs: Vec::new(), kids: vec![X::E(target), X::E(kid)], rules: Vec::new() };
    XDoc { before: Vec::new(), root, after: Vec::new() }
}

pub fn c14_values(s: &mut Src, ctx: &mut Ctx) -> R {
    let tag = if s.chance(1, 4) {
        let t = *s.pick(ELEMENTS);
        if t == "style" { "g" } else { t }
    } else {
        *s.pick(C14_TAGS)
    };
    let ids = vec!["t1".to_string(), "nope".to_string()];
    let v = VCfg { ids: &ids, refs: 2, bad: 3, css: false };
    let mut attrs: Vec<Attr> = Vec::new();
    let n = 1 + s.count(3, 8);
    let mut typed = 0;
    for _ in 0..n {
        let name = match s.weighted(&[8, 1, 1]) {
            0 => *s.pick(TYPED_ATTRS),
            1 => *s.pick(STR_ATTRS),
            _ => *s.pick(ATTRIBUTES),
        };
        if ["id", "style", "class", "space", "xmlns"].contains(&name) || attrs.iter().any(|a| a.name == name) {
            continue;
        }
        let g = value(s, tag, name, &v);
        if kind(name) != Kind::Str {
            typed += 1;
        }
        if let Exp::Ignored = g.exp {
            ctx.label("invalid value");
        }
        let ns = if name == "href" { ANs::Xlink } else { ANs::None };
        attrs.push(Attr { ns, name: name.into(), text: g.text, role: Role::Exp(g.exp) });
    }
    let doc = one_elem(tag, attrs);
    let mut cmp = Cmp::all(1e-12);
    cmp.any_text = false;
    parse_case(&doc, s.chance(1, 4), s, ctx, &cmp)?;
    ctx.nontrivial = typed > 0;
    Ok(())
}

/// Every attribute on an element in turn: typed values with one attribute per file.
pub fn c14_each(s: &mut Src, ctx: &mut Ctx) -> R {
    let name = *s.pick(ATTRIBUTES);
    if ["id", "style", "class", "xmlns"].contains(&name) {
        return Ok(());
    }
    let tag = *s.pick(C14_TAGS);
    let ids = vec!["t1".to_string()];
    let v = VCfg { ids: &ids, refs: 1, bad: 2, css: false };
    let g = value(s, tag, name, &v);
    let ns = match name {
        "href" => ANs::Xlink,
        "space" => ANs::Xml,
        _ => ANs::None,
    };
    let doc = one_elem(tag, vec![Attr { ns, name: name.into(), text: g.text, role: Role::Exp(g.exp) }]);
    let mut cmp = Cmp::all(1e-12);
    cmp.any_text = false;
    parse_case(&doc, false, s, ctx, &cmp)?;
    ctx.nontrivial = true;
    Ok(())
}

// ---- C15, C16

pub fn text_doc(s: &mut Src, space: bool) -> XDoc {
    let mut c = Cfg::basic();
    c.attrs = if s.chance(1, 8) { 10 } else { 0 };
    c.refs = 0;
    c.classes = 0;
    c.id_chance = 0;
    c.foreign_attrs = 0;
    c.text_alphabet = SPACY;
    c.xmlspace = if space { 30 } else { 0 };
    c.odd_text_kids = s.chance(1, 3);
    c.max_elems = 30;
    let mut root = Elem { ns: Ns::Svg, tag: "svg".into(), attrs: Vec::new(), kids: Vec::new(), rules: Vec::new() };
    let n = 1 + s.weighted(&[5, 1, 1]);
    if space && s.chance(1, 5) {
        let v = *s.pick(&["preserve", "default"]);
        root.attrs.push(Attr { ns: ANs::Xml, name: "space".into(), text: v.into(), role: Role::Exp(Exp::Val(v.into())) });
    }
    for _ in 0..n {
        let e = gen_text(s, &c);
        if s.chance(1, 4) {
            // Text elements are independent of loose text around them.
            let tag = match *s.pick(&["g", "switch", "a", "symbol", "svg", "defs", "", ""]) {
                "" => match *s.pick(ELEMENTS) {
                    "style" | "text" => "marker",
                    t => t,
                },
                t => t,
            };
            let mut g = Elem { ns: Ns::Svg, tag: tag.to_string(), attrs: Vec::new(), kids: vec![X::E(e)], rules: Vec::new() };
            if space && s.chance(1, 4) {
                let v = *s.pick(&["preserve", "default"]);
                g.attrs.push(Attr { ns: ANs::Xml, name: "space".into(), text: v.into(), role: Role::Exp(Exp::Val(v.into())) });
            }
            let mut m = s.weighted(&[2, 1, 1, 1]);
            while m > 0 {
                m -= 1;
                match s.idx(4) {
                    0 if !matches!(g.kids.first(), Some(X::T(_))) => g.kids.insert(0, X::T(s.pick(&["a", " a ", "a ", " a"]).to_string())),
                    1 if !matches!(g.kids.last(), Some(X::T(_))) => g.kids.push(X::T(s.pick(&["b", " b ", "b ", " b"]).to_string())),
                    2 => {
                        let e2 = gen_text(s, &c);
                        g.kids.push(X::E(e2))
                    }
                    _ => g = Elem { ns: Ns::Svg, tag: "g".into(), attrs: Vec::new(), kids: vec![X::E(g)], rules: Vec::new() },
                }
            }
            root.kids.push(X::E(g));
        } else {
            root.kids.push(X::E(e));
        }
    }
    XDoc { before: Vec::new(), root, after: Vec::new() }
}

pub fn c15_text(s: &mut Src, ctx: &mut Ctx) -> R {
    let doc = text_doc(s, false);
    let (exp, f) = parse_case(&doc, s.chance(1, 5), s, ctx, &Cmp::all(1e-9))?;
    ctx.nontrivial = f.text_pieces >= 2;
    if f.text_pieces >= 4 {
        ctx.label("4 or more pieces");
    }
    if adjacent_texts(&exp) {
        return Ok(());
    }
    // Normalising again changes nothing: write the expected tree plainly and parse it.
    let mut again = String::from("<svg xmlns='http://www.w3.org/2000/svg'>");
    for k in &exp.kids[0].kids {
        plain(k, &mut again);
    }
    again.push_str("</svg>");
    match Document::from_str(&again) {
        Ok(d) => {
            let act = snapshot(&d.root());
            // `plain` writes no attributes.
            let mut cmp = Cmp::all(1e-9);
            cmp.attrs = false;
            if let Some((_, msg)) = diff(&exp, &act, &cmp) {
                return fail("not idempotent", format!("parsing normalised text again: {}\n{}", msg, again));
            }
        }
        Err(e) => return fail("rejected", format!("{} in {}", e, again)),
    }
    Ok(())
}

/// Text pieces next to each other become one when written.
pub fn adjacent_texts(n: &SN) -> bool {
    n.kids.windows(2).any(|w| w[0].kind == K::Text && w[1].kind == K::Text) || n.kids.iter().any(adjacent_texts)
}

fn plain(n: &SN, o: &mut String) {
    match n.kind {
        K::Text => o.push_str(&n.text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")),
        K::Comment => o.push_str(&format!("<!--{}-->", n.text)),
        _ => {
            o.push_str(&format!("<{}>", n.tag));
            for k in &n.kids {
                plain(k, o);
            }
            o.push_str(&format!("</{}>", n.tag));
        }
    }
}

pub fn c16_preserve(s: &mut Src, ctx: &mut Ctx) -> R {
    let doc = text_doc(s, true);
    let (_, f) = parse_case(&doc, s.chance(1, 5), s, ctx, &Cmp::all(1e-9))?;
    ctx.nontrivial = f.text_pieces >= 2 && ctx.input.contains("preserve");
    if ctx.input.contains("default") {
        ctx.label("mixed settings");
    }
    Ok(())
}
