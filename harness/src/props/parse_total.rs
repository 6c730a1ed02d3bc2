//! C01: parsing any text ends with a document or an error.

use super::data::*;
use super::xml::*;
use crate::engine::*;
use svgdom::*;

const SVG: &str = "http://www.w3.org/2000/svg";

/// Compares the outcome with the XML reader's view of the text.
fn check(text: &str, ctx: &mut Ctx, xml_errors_known: bool) -> R {
    let _ = xml_errors_known;
    let ro = match no_panic(|| {
        roxmltree::Document::parse(text)
            .map(|d| {
                let r = d.root_element();
                r.tag_name().namespace() == Some(SVG) && r.tag_name().name() == "svg"
            })
            .map_err(|e| e.to_string())
    }) {
        Ok(r) => r,
        Err(m) => return fail("reader-panic", format!("the XML reader panicked: {}", m)),
    };
    let got = match no_panic(|| Document::from_str(text)) {
        Ok(r) => r,
        Err(m) => return fail("panic", format!("panic: {}", m)),
    };
    match (&got, &ro) {
        (Ok(_), Ok(true)) => ctx.label("accepted"),
        (Err(ParserError::NoSvgElement), Ok(false)) => ctx.label("no svg element"),
        (Err(ParserError::RoXmlError(ref e)), Err(ref m)) if e.to_string() == *m => ctx.label("not XML"),
        (Ok(_), r) => return fail("accepted", format!("the text was accepted, but the XML reader says {:?}", r)),
        (Err(e), r) => return fail("rejected", format!("the text was rejected ({}), but the XML reader says {:?}", e, r)),
    }
    if let Ok(d) = got {
        // The document can be used.
        let mut n = 0;
        for x in d.root().descendants() {
            n += x.attributes().len();
        }
        std::hint::black_box(n);
        if let Err(m) = no_panic(|| d.to_string().len()) {
            return fail("write-panic", format!("writing the parsed document panicked: {}", m));
        }
    }
    Ok(())
}

fn cfg(s: &mut Src) -> Cfg {
    let mut c = Cfg::basic();
    c.bad = 4;
    c.max_elems = 8;
    c.sheets = s.idx(2);
    c.style_attrs = 20;
    c.dup_ids = true;
    c.classes = 10;
    c
}

/// Well-formed files with any attribute values, styles, text and links.
pub fn valid(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = cfg(s);
    let mut doc = gen_doc(s, &c);
    // Any garbage in attribute values and style sheets.
    let k = s.idx(4);
    for _ in 0..k {
        spoil(&mut doc.root, s);
    }
    if s.chance(1, 20) {
        doc.root.tag = s.pick(&["g", "text", "SVG", "foo", "style", "svg2"]).to_string();
    }
    if s.chance(1, 40) {
        doc.root.ns = Ns::Foreign;
    }
    let t = serialise(&doc, s, true);
    ctx.set_input(&t);
    ctx.nontrivial = true;
    check(&t, ctx, true)
}

/// Files full of references, style sheets or text.
pub fn dense(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut doc = match s.idx(4) {
        0 | 1 => super::parse::links_doc(s),
        2 => super::parse::cascade_doc(s),
        _ => super::parse::text_doc(s, true),
    };
    let k = s.idx(4);
    for _ in 0..k {
        spoil(&mut doc.root, s);
    }
    let noise = s.chance(1, 3);
    let t = serialise(&doc, s, noise);
    ctx.set_input(&t);
    ctx.nontrivial = true;
    check(&t, ctx, true)
}

pub const GARBAGE: &[&str] = &[
    "url(", "#", "url(#a", "url(#a)", "!important", "1e", "1e400", "-", ".", "..", "M", "M 1", "z", "rgb(", "rgb(300,1,1)", "%", "10%%", "none", "inherit", "{", "}", ";", ":", "/*", "*/", "@media", "\\", "'", "\"", "\u{0}x", "é", "日本", "😀", " ", "\n", "\t", "a", "0", "matrix(", "rotate(1 2", "scale()", ")", "(", ",", ",,", "<!--", "-->", "fill:red", "marker:url(#a)", "fill", "#fff", "#ff", "url()", "url(#)", "99999999999999999999", "NaN", "inf", "*", ".k", "#a{fill:red}", "rect>g+a", "[x=y]", "[", "]", ":first-child", ":nth-child(2)", "::x", "~", "|", "U+2000", "\u{feff}", "&", "<", "--x:y", "transform:rotate(",
    "m10-20a1 1 0 01.5.5", "A 1 1 0 5 0 1 1", "T", "0 0 10 10", "xMidYMid", "\u{a0}", "1deg", "1grad", "em", "5em", "style", "text/css", "preserve",
];

fn garbage(s: &mut Src) -> String {
    let n = s.count(3, 12);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*s.pick(GARBAGE));
    }
    t.replace('\u{0}', "")
}

fn spoil(e: &mut Elem, s: &mut Src) {
    if s.chance(1, 3) || e.kids.is_empty() {
        if e.attrs.is_empty() || s.chance(1, 3) {
            let names = ["d", "transform", "style", "fill", "class", "points", "x", "viewBox", "href", "stroke-dasharray", "unicode", "offset", "font-size", "preserveAspectRatio", "id", "clip-path", "orient", "opacity", "stdDeviation", "gradientTransform"];
            let n = *s.pick(&names);
            if !e.attrs.iter().any(|a| a.name == n) {
                let t = garbage(s);
                e.attrs.push(Attr { ns: if n == "href" { ANs::Xlink } else { ANs::None }, name: n.into(), text: t, role: Role::Dropped });
            }
        } else {
            let i = s.idx(e.attrs.len());
            let g = garbage(s);
            let at = s.idx(e.attrs[i].text.chars().count() + 1);
            let p = e.attrs[i].text.char_indices().nth(at).map(|x| x.0).unwrap_or(e.attrs[i].text.len());
            match s.idx(3) {
                0 => e.attrs[i].text = g,
                1 => e.attrs[i].text.insert_str(p, &g),
                _ => e.attrs[i].text.truncate(p),
            }
        }
        return;
    }
    let i = s.idx(e.kids.len());
    match e.kids[i] {
        X::E(ref mut k) => spoil(k, s),
        X::T(ref mut t) => {
            let g = garbage(s);
            let at = s.idx(t.chars().count() + 1);
            let p = t.char_indices().nth(at).map(|x| x.0).unwrap_or(t.len());
            if s.chance(1, 2) {
                t.insert_str(p, &g)
            } else {
                t.truncate(p)
            }
        }
        _ => {}
    }
}

fn escape(t: &str) -> String {
    t.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace("]]>", "]]&gt;").replace('\n', "&#10;").replace('\t', "&#9;")
}

/// Well-formed files in which whole values, styles and texts are short sequences of fragments.
pub fn slots(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = String::from("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><g id='a'/>");
    let n = 1 + s.count(2, 6);
    for _ in 0..n {
        let g = match s.weighted(&[4, 2, 1]) {
            0 => garbage(s),
            1 => s.pick(GARBAGE).replace('\u{0}', ""),
            // A fragment of it.
            _ => {
                let g = garbage(s);
                let k = s.idx(g.chars().count() + 1);
                g.chars().take(k).collect()
            }
        };
        let v = escape(&g);
        match s.idx(8) {
            0 if !g.contains("]]>") => t += &format!("<style><![CDATA[{}]]></style>", g),
            0 | 1 => t += &format!("<style>{}</style>", v),
            2 => t += &format!("<rect style=\"{}\" class='k'/>", v),
            3 | 4 => {
                let name = *s.pick(ATTRIBUTES);
                let tag = *s.pick(ELEMENTS);
                let name = match name {
                    "href" => "xlink:href",
                    "space" => "xml:space",
                    x => x,
                };
                t += &format!("<{} {}=\"{}\"/>", tag, name, v);
            }
            5 => t += &format!("<{0}>{1}</{0}>", s.pick(&["text", "title", "g", "tspan", "a"]), v),
            6 => t += &format!("<text>{}<tspan>{}</tspan>{}</text>", s.pick(&["", " ", "a"]), v, s.pick(&["", " ", "b"])),
            _ => t += &format!("<rect {}=\"{}\"/>", s.pick(&["fill", "d", "transform", "clip-path", "stroke", "id"]), v),
        }
    }
    t += "</svg>";
    ctx.set_input(&t);
    ctx.nontrivial = roxmltree::Document::parse(&t).is_ok();
    check(&t, ctx, true)
}

/// SVG files with local damage.
pub fn damaged(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = damaged_text(s);
    ctx.set_input(&t);
    ctx.nontrivial = true;
    check(&t, ctx, false)
}

pub fn damaged_text(s: &mut Src) -> String {
    let c = cfg(s);
    let doc = gen_doc(s, &c);
    let noise = s.chance(1, 2);
    let t = serialise(&doc, s, noise);
    let mut v: Vec<char> = t.chars().collect();
    let k = 1 + s.idx(3);
    for _ in 0..k {
        if v.is_empty() {
            break;
        }
        let i = s.idx(v.len());
        match s.idx(6) {
            0 => {
                v.remove(i);
            }
            1 => {
                let n = (i + 1 + s.idx(12)).min(v.len());
                v.drain(i..n);
            }
            2 => v.truncate(i),
            3 => {
                let g: Vec<char> = s.pick(GARBAGE).chars().collect();
                v.splice(i..i, g);
            }
            4 => {
                let n = (i + 1 + s.idx(30)).min(v.len());
                let part: Vec<char> = v[i..n].to_vec();
                let at = s.idx(v.len() + 1);
                v.splice(at..at, part);
            }
            _ => {
                v[i] = *s.pick(&['<', '>', '"', '\'', '&', '/', ' ', 'x', '=', '!', '-', '\u{1}', ']', '[', '?', ';', '#', '\u{fffe}']);
            }
        }
    }
    v.into_iter().collect()
}

const SOUP: &[&str] = &[
    "<svg xmlns='http://www.w3.org/2000/svg'>", "</svg>", "<svg>", "<g>", "</g>", "<rect/>", "<text>", "</text>", "<tspan>", "</tspan>", "<style>", "</style>", "<!-- c -->", "<?pi?>", "<![CDATA[", "]]>", "<!DOCTYPE svg [", "<!ENTITY a 'b'>", "<!ENTITY b '&a;&a;'>", "]>", "&a;", "&b;", "&#65;", "&#x41;", "&#0;", "&amp;", "<?xml version='1.0'?>", "text", " ", "\n", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' ", "fill='red'", "id='a'", "xlink:href='#a'", " style='fill:", "fill:red", "rect{fill:red}", ">", "/>", "<", "'", "\"", "=", "d='M 1 2'", "\u{0}", "\u{feff}", "é", "<use ", "<path ", "xml:space='preserve'", "<title>", "</title>", "<s:svg xmlns:s='http://www.w3.org/2000/svg'>", "</s:svg>", "<!ENTITY c '<rect/>'>", "&c;", "<!ENTITY d '&e;'>", "<!ENTITY e '&d;'>", "&d;",
];

/// Random sequences of markup fragments and characters.
pub fn soup(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = String::new();
    let wrap = s.chance(1, 2);
    if wrap {
        t.push_str("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>");
    }
    let n = s.count(10, 40);
    for _ in 0..n {
        match s.weighted(&[8, 1, 1]) {
            0 => t.push_str(*s.pick(SOUP)),
            1 => t.push_str(*s.pick(GARBAGE)),
            _ => {
                if let Some(c) = std::char::from_u32(s.draw(0x11_0000) as u32) {
                    t.push(c)
                }
            }
        }
    }
    if wrap {
        t.push_str("</svg>");
    }
    ctx.set_input(&t);
    ctx.nontrivial = roxmltree::Document::parse(&t).is_ok();
    check(&t, ctx, false)
}

/// Long and deep files: parsed, queried, written and dropped on a thread with the usual stack.
pub fn large(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = large_text(s);
    ctx.set_input(&t);
    ctx.nontrivial = true;
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || check(&t, ctx, true)).unwrap().join().unwrap_or_else(|_| fail("thread", "the checking thread panicked".to_string()))
    })
}

fn large_text(s: &mut Src) -> String {
    let mut t = String::from("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>");
    let wide = 1 + s.idx(3000);
    let deep = 1 + s.idx(160);
    let mid = 1 + s.idx(150);
    let (a, b) = (*s.pick(&["", " ", "a", " a ", "\n", "  b", "c  "]), *s.pick(&["", " ", "x", " y ", "\t", "<!--k-->"]));
    match s.idx(11) {
        0 | 1 => {
            // Nested elements, text pieces at every level.
            let tag = *s.pick(&["g", "text", "tspan", "a", "svg", "switch", "title", "symbol"]);
            let outer = *s.pick(&["", "text", "g", "title"]);
            if outer != "" {
                t += &format!("<{}>", outer);
            }
            for i in 0..deep {
                t += &format!("<{} id='n{}'>{}", tag, i, a);
            }
            for _ in 0..deep {
                t += &format!("{}</{}>", b, tag);
            }
            if outer != "" {
                t += &format!("</{}>", outer);
            }
        }
        2 => {
            let e = *s.pick(&["<rect/>", "<rect fill='red'/>", "<!--c-->", "<style/>", "<text> a </text>", "<use xlink:href='#a'/>", "<foo/>", "<title>q</title>"]);
            for _ in 0..wide {
                t += e;
                t += a;
            }
        }
        3 => {
            t += "<text>";
            for _ in 0..wide {
                t += &format!("{}<tspan>{}</tspan>", a, b);
            }
            t += "</text>";
        }
        4 => {
            let (name, item) = *s.pick(&[("d", "L 10 20 "), ("d", "h-.5"), ("points", "1,2 "), ("transform", "scale(1.01) "), ("stroke-dasharray", "1px,"), ("rotate", "1 "), ("style", "fill:red;"), ("style", "fill:url(#a);"), ("class", "k "), ("font-family", "é"), ("unicode", "é"), ("d", "M1"), ("fill", "url(#a"), ("href", "#"), ("id", "é")]);
            t += &format!("<path {}='{}", name, if name == "d" { "M 0 0 " } else { "" });
            for _ in 0..wide {
                t += item;
            }
            t += "'/>";
        }
        5 | 6 => {
            // Chains and circles of references.
            let attr = *s.pick(&["xlink:href", "fill", "clip-path", "marker-end"]);
            let step = 1 + s.idx(5);
            let circle = s.chance(1, 2);
            for i in 0..mid {
                let to = if i + step < mid || circle { (i + step) % mid } else { i };
                let v = if attr == "xlink:href" { format!("#n{}", to) } else { format!("url(#n{})", to) };
                t += &format!("<g id='n{}' {}='{}'/>", i, attr, v);
            }
        }
        7 => {
            let to = *s.pick(&["a", "zz"]);
            for i in 0..mid {
                t += &format!("<use xlink:href='#{}' fill='url(#{})' id='u{}'/>", to, to, i);
            }
            t += "<g id='a'/>";
        }
        8 => {
            t += "<style>";
            for i in 0..mid {
                t += &format!("{}{{{}}}\n", s.pick(&["rect", ".k", "#n1", "*", "g rect", "svg > g", "rect + rect"]), s.pick(&["fill:red", "fill:url(#a)", "marker:url(#a)", "opacity:.5", "x:y"]));
                let _ = i;
            }
            t += "</style>";
            for i in 0..mid {
                t += &format!("<rect class='k' id='n{}'/>", i);
            }
        }
        9 => {
            t += "<text>";
            for _ in 0..wide {
                t += *s.pick(&[" ", "a", "\n", "\t", "é", "&#xd;", "日 ", "]]", "&amp;", "<![CDATA[ ]]>", "<!--c-->"]);
            }
            t += "</text>";
        }
        _ => {
            t += "<rect";
            for i in 0..wide {
                t += &format!(" k{}='{}'", i, i);
            }
            t += " fill='red'/>";
        }
    }
    t += "</svg>";
    t
}

/// Parses a file with `n` nested elements on the default stack of the main thread.
pub fn probe_deep(n: usize) -> i32 {
    let mut t = String::from("<svg xmlns='http://www.w3.org/2000/svg'>");
    for _ in 0..n {
        t.push_str("<g>");
    }
    for _ in 0..n {
        t.push_str("</g>");
    }
    t.push_str("</svg>");
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || Document::from_str(&t).is_ok()).unwrap();
    match h.join() {
        Ok(_) => 0,
        Err(_) => 3,
    }
}
