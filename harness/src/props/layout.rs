//! C13: the written text, token by token, against the tree and the options.

use super::data::*;
use super::roundtrip::gen_opts;
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use svgdom::*;

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    /// Whitespace written before a node or tag (layout), then the node itself.
    Start { before: String, name: String, attrs: Vec<(String, String, char, String)>, empty: bool },
    End { before: String, name: String },
    Comment { before: String, text: String },
    Text(String),
}

// ---- Tokenizer of the output. Strict: anything that is not well-formed XML is an error.

struct Scan<'a> {
    s: &'a str,
    i: usize,
}

fn name_char(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '-' | '_' | ':' | '.')
}

/// Resolves references; a stray '<' is an error, and so is a stray '&' in an attribute.
/// `bare` gets the positions of stray '&' in the decoded text, where they are allowed.
fn decode(s: &str, in_text: bool, bare: &mut Vec<usize>) -> Result<String, String> {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        if c == '<' {
            return Err(format!("'<' in {:?}", s));
        }
        if c == '&' {
            let rest = &s[i + 1..];
            let end = rest.find(';');
            let ent = end.map(|e| &rest[..e]);
            let r = match ent {
                Some("amp") => Some('&'),
                Some("lt") => Some('<'),
                Some("gt") => Some('>'),
                Some("quot") => Some('"'),
                Some("apos") => Some('\''),
                Some(e) if e.starts_with("#x") => u32::from_str_radix(&e[2..], 16).ok().and_then(char::from_u32),
                Some(e) if e.starts_with('#') => e[1..].parse().ok().and_then(char::from_u32),
                _ => None,
            };
            match r {
                Some(x) => {
                    o.push(x);
                    i += 2 + end.unwrap();
                    continue;
                }
                None if in_text => {
                    bare.push(o.len());
                    o.push('&');
                    i += 1;
                    continue;
                }
                None => return Err(format!("'&' that starts no reference in {:?}", s)),
            }
        }
        // Whitespace other than a space is not kept in attribute values.
        if !in_text && matches!(c, '\t' | '\n' | '\r') {
            return Err(format!("raw whitespace {:?} in the attribute value {:?}", c, s));
        }
        o.push(c);
        i += c.len_utf8();
    }
    Ok(o)
}

impl<'a> Scan<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn name(&mut self) -> Result<String, String> {
        let n: String = self.rest().chars().take_while(|c| name_char(*c)).collect();
        if n.is_empty() {
            return Err(format!("a name is missing at {}", self.i));
        }
        self.i += n.len();
        Ok(n)
    }
    fn ws(&mut self) -> String {
        let n: String = self.rest().chars().take_while(|c| matches!(c, ' ' | '\n' | '\t')).collect();
        self.i += n.len();
        n
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> Result<(), String> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("{:?} is missing at {} before {:?}", t, self.i, self.rest().chars().take(20).collect::<String>()))
        }
    }
}

/// The tokens, and for every stray '&' in text whether a ';' follows it in the same text.
fn tokenize(s: &str, stray: &mut Vec<bool>) -> Result<Vec<Tok>, String> {
    let mut sc = Scan { s, i: 0 };
    let mut out: Vec<Tok> = Vec::new();
    let mut stack: Vec<String> = Vec::new();
    let mut roots = 0;
    loop {
        // Character data up to the next tag.
        let end = sc.rest().find('<').unwrap_or(sc.rest().len());
        let raw = &sc.rest()[..end];
        sc.i += end;
        if raw.contains("]]>") {
            return Err("']]>' in text".to_string());
        }
        let mut bare = Vec::new();
        let text = decode(raw, true, &mut bare)?;
        for b in bare {
            stray.push(text[b..].contains(';'));
        }
        if !text.is_empty() {
            if stack.is_empty() && !text.chars().all(|c| c.is_ascii_whitespace()) {
                return Err(format!("text {:?} outside of the root element", text));
            }
            out.push(Tok::Text(text));
        }
        if sc.rest().is_empty() {
            break;
        }
        if sc.eat("<!--") {
            let n = sc.rest().find("--").ok_or("comment without an end")?;
            let t = sc.rest()[..n].to_string();
            sc.i += n;
            sc.expect("-->")?;
            out.push(Tok::Comment { before: String::new(), text: t });
        } else if sc.eat("</") {
            let name = sc.name()?;
            sc.expect(">")?;
            match stack.pop() {
                Some(ref n) if *n == name => {}
                x => return Err(format!("end tag of '{}' closes {:?}", name, x)),
            }
            out.push(Tok::End { before: String::new(), name });
        } else {
            sc.expect("<")?;
            let name = sc.name()?;
            if stack.is_empty() {
                roots += 1;
            }
            let mut attrs: Vec<(String, String, char, String)> = Vec::new();
            let empty;
            loop {
                let w = sc.ws();
                if sc.eat("/>") {
                    empty = true;
                    if !w.is_empty() {
                        attrs.push((w, "/>".into(), ' ', String::new()));
                    }
                    break;
                }
                if sc.eat(">") {
                    empty = false;
                    if !w.is_empty() {
                        attrs.push((w, ">".into(), ' ', String::new()));
                    }
                    break;
                }
                if w.is_empty() {
                    return Err(format!("no space before an attribute at {}", sc.i));
                }
                let an = sc.name()?;
                sc.expect("=")?;
                let q = if sc.eat("\"") {
                    '"'
                } else if sc.eat("'") {
                    '\''
                } else {
                    return Err(format!("a quote is missing at {}", sc.i));
                };
                let n = sc.rest().find(q).ok_or("attribute value without an end")?;
                let raw = &sc.rest()[..n];
                sc.i += n + 1;
                let v = decode(raw, false, &mut Vec::new())?;
                if attrs.iter().any(|a| a.1 == an) {
                    return Err(format!("attribute '{}' occurs twice", an));
                }
                attrs.push((w, an, q, v));
            }
            if !empty {
                stack.push(name.clone());
            }
            out.push(Tok::Start { before: String::new(), name, attrs, empty });
        }
    }
    if !stack.is_empty() {
        return Err(format!("elements without end tags: {:?}", stack));
    }
    if roots != 1 {
        return Err(format!("{} root elements", roots));
    }
    Ok(out)
}

/// Names of the elements of a written file, with the names of their attributes.
pub fn written_names(s: &str) -> Result<Vec<(String, Vec<String>)>, String> {
    Ok(tokenize(s, &mut Vec::new())?
        .into_iter()
        .filter_map(|t| match t {
            Tok::Start { name, attrs, .. } => Some((name, attrs.into_iter().map(|a| a.1).collect())),
            _ => None,
        })
        .collect())
}

// ---- What has to be written.

fn unit(i: Indent) -> String {
    match i {
        Indent::None => String::new(),
        Indent::Spaces(n) => " ".repeat(n as usize),
        Indent::Tabs => "\t".to_string(),
    }
}

pub fn value_text(v: &AttributeValue, o: &ValueWriteOptions) -> String {
    let mut b: Vec<u8> = Vec::new();
    match v {
        AttributeValue::None => return "none".into(),
        AttributeValue::Inherit => return "inherit".into(),
        AttributeValue::CurrentColor => return "currentColor".into(),
        AttributeValue::String(s) => return s.clone(),
        AttributeValue::Link(n) => return format!("#{}", n.id()),
        AttributeValue::FuncLink(n) => return format!("url(#{})", n.id()),
        AttributeValue::Paint(n, fb) => {
            let mut t = format!("url(#{})", n.id());
            match fb {
                None => {}
                Some(PaintFallback::None) => t.push_str(" none"),
                Some(PaintFallback::CurrentColor) => t.push_str(" currentColor"),
                Some(PaintFallback::Color(c)) => {
                    c.write_buf_opt(o, &mut b);
                    t.push(' ');
                    t.push_str(std::str::from_utf8(&b).unwrap());
                }
            }
            return t;
        }
        AttributeValue::AspectRatio(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Color(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Length(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::LengthList(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Angle(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Number(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::NumberList(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Path(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Points(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::Transform(x) => x.write_buf_opt(o, &mut b),
        AttributeValue::ViewBox(x) => x.write_buf_opt(o, &mut b),
    }
    String::from_utf8(b).unwrap()
}

struct W<'a> {
    o: &'a WriteOptions,
    out: Vec<Tok>,
}

fn has_href(n: &Node) -> bool {
    if n.attributes().iter().any(|a| a.name == QName::Id(AttributeId::Href)) {
        return true;
    }
    let mut c = n.first_child();
    while let Some(x) = c {
        if has_href(&x) {
            return true;
        }
        c = x.next_sibling();
    }
    false
}

impl<'a> W<'a> {
    fn text(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        match self.out.last_mut() {
            Some(Tok::Text(ref mut x)) => x.push_str(t),
            _ => self.out.push(Tok::Text(t.to_string())),
        }
    }

    fn layout(&mut self, depth: usize, keep: bool) {
        if keep || self.o.indent == Indent::None {
            return;
        }
        let t = format!("{}{}", if self.out.is_empty() { "" } else { "\n" }, unit(self.o.indent).repeat(depth));
        self.text(&t);
    }

    fn node(&mut self, n: &Node, depth: usize, keep: bool) {
        self.layout(depth, keep);
        match n.node_type() {
            NodeType::Text => {
                let t = n.text().clone();
                self.text(&t);
                return;
            }
            NodeType::Comment => {
                self.out.push(Tok::Comment { before: String::new(), text: n.text().clone() });
                return;
            }
            _ => {}
        }
        let name = n.tag_name().to_string();
        let mut list: Vec<(String, String)> = Vec::new();
        if name == "svg" && n.has_tag_name(ElementId::Svg) && depth == 0 {
            list.push(("xmlns".into(), "http://www.w3.org/2000/svg".into()));
            if has_href(n) {
                list.push(("xmlns:xlink".into(), "http://www.w3.org/1999/xlink".into()));
            }
        }
        if !n.id().is_empty() {
            list.push(("id".into(), n.id().clone()));
        }
        let attrs = n.attributes();
        for a in ATTRIBUTES {
            for x in attrs.iter() {
                if let QName::Id(id) = x.name {
                    if id.as_str() == *a {
                        let shown = match *a {
                            "href" => "xlink:href",
                            "space" => "xml:space",
                            a => a,
                        };
                        list.push((shown.to_string(), value_text(&x.value, &self.o.values)));
                    }
                }
            }
        }
        for x in attrs.iter() {
            if let QName::Name(ref a) = x.name {
                list.push((a.clone(), value_text(&x.value, &self.o.values)));
            }
        }
        let q = if self.o.use_single_quote { '\'' } else { '"' };
        let sep = if self.o.attributes_indent == Indent::None {
            " ".to_string()
        } else if keep {
            "\n".to_string()
        } else {
            format!("\n{}{}", unit(self.o.indent).repeat(depth), unit(self.o.attributes_indent))
        };
        let attrs: Vec<(String, String, char, String)> = list.into_iter().map(|(a, v)| (sep.clone(), a, q, v)).collect();
        let empty = n.first_child().is_none();
        self.out.push(Tok::Start { before: String::new(), name: name.clone(), attrs, empty });
        let inner = keep || n.has_tag_name(ElementId::Text);
        let mut c = n.first_child();
        while let Some(x) = c {
            self.node(&x, depth + 1, inner);
            c = x.next_sibling();
        }
        if !empty {
            self.layout(depth, inner);
            self.out.push(Tok::End { before: String::new(), name });
        }
    }
}

fn expected(doc: &Document, o: &WriteOptions) -> Vec<Tok> {
    let mut w = W { o, out: Vec::new() };
    let mut c = doc.root().first_child();
    while let Some(x) = c {
        w.node(&x, 0, false);
        c = x.next_sibling();
    }
    if o.indent != Indent::None {
        w.text("\n");
    }
    w.out
}

// ---- Documents

const TEXTS: &[&str] = &[
    "a", "a b", "  lead", "trail  ", " ", "a\nb", "a\tb", "<tag>", "a < b", "x > y", "]]>", "&amp;", "&lt;&#65;", "a & b; c", "é日本😀", "\"q\" 'r'", "", "a;b",
    "]]", ">", "]>", "a]>b", "&;", "a && b;;",
];

pub fn gen_string(s: &mut Src) -> String {
    match s.weighted(&[3, 1, 1]) {
        0 => string(s),
        1 => format!(" {} ", string(s)),
        _ => s.pick(&["\"", "'", "\"'\"", "&", "&&", "<", "\n", "\t x \r", "url(#a)", "&quot;", "&#10;", "]]>", ""]).to_string(),
    }
}

pub struct Built {
    pub doc: Document,
    pub elems: usize,
    pub texts: usize,
    pub links: usize,
    pub custom: usize,
}

fn gen_value(s: &mut Src, name: &str, elems: &[Node]) -> AttributeValue {
    let targets: Vec<&Node> = elems.iter().filter(|e| e.has_id()).collect();
    if !targets.is_empty() && s.chance(1, 4) {
        let t = (*s.pick(&targets)).clone();
        return match s.idx(3) {
            0 => AttributeValue::Link(t),
            1 => AttributeValue::FuncLink(t),
            _ => {
                let fb = match s.idx(4) {
                    0 => None,
                    1 => Some(PaintFallback::None),
                    2 => Some(PaintFallback::CurrentColor),
                    _ => Some(PaintFallback::Color(color(s).1)),
                };
                AttributeValue::Paint(t, fb)
            }
        };
    }
    if s.chance(1, 3) {
        return AttributeValue::String(gen_string(s));
    }
    // Any kind of value; the writer does not ask whether it fits the attribute.
    let a = if s.chance(1, 2) { name } else { *s.pick(TYPED_ATTRS) };
    let v = VCfg { ids: &[], refs: 0, bad: 0, css: false };
    match value(s, "rect", a, &v).exp {
        Exp::Val(v) => v,
        _ => match s.idx(3) {
            0 => AttributeValue::None,
            1 => AttributeValue::Inherit,
            _ => AttributeValue::CurrentColor,
        },
    }
}

pub fn gen_built(s: &mut Src) -> Built {
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut b = Built { doc: Document::new(), elems: 0, texts: 0, links: 0, custom: 0 };
    if s.chance(1, 8) {
        for _ in 0..1 + s.count(1, 5) {
            let c = doc.create_node(NodeType::Comment, "before");
            root.append(c);
        }
    }
    let mut top = match s.weighted(&[8, 1, 1, 1]) {
        0 => doc.create_element(ElementId::Svg),
        1 => doc.create_element(ElementId::G),
        2 => doc.create_element(ElementId::Text),
        _ => doc.create_element("custom"),
    };
    root.append(top.clone());
    if s.chance(1, 3) {
        top.set_id("top");
    }
    if s.chance(1, 8) {
        for _ in 0..1 + s.count(1, 5) {
            let c = doc.create_node(NodeType::Comment, "after");
            root.append(c);
        }
    }
    let mut elems = vec![top];
    let n = s.count_long(7, 16, 80);
    for k in 0..n {
        // Mostly deep or at the end.
        let i = if s.chance(1, 2) { elems.len() - 1 } else { s.idx(elems.len()) };
        let mut p = elems[i].clone();
        match s.weighted(&[7, 3, 1]) {
            0 => {
                let mut e = match s.weighted(&[4, 3, 3, 1]) {
                    0 => doc.create_element(ElementId::from_str(*s.pick(ELEMENTS)).unwrap()),
                    1 => doc.create_element(ElementId::from_str(*s.pick(&["g", "svg", "rect", "a"])).unwrap()),
                    2 => doc.create_element(ElementId::from_str(*s.pick(&["text", "tspan", "textPath", "tref"])).unwrap()),
                    _ => {
                        b.custom += 1;
                        doc.create_element(*s.pick(&["custom", "my-el", "svg", "text", "x:y"]))
                    }
                };
                if s.chance(1, 3) {
                    if s.chance(1, 16) {
                        e.set_id(*s.pick(&[" ", "  ", "\n", "\u{a0}", "0", "-", "none", "\u{feff}"]));
                    } else {
                        e.set_id(format!("{}{}", s.pick(&["i", "é", "a&b", "q\"", "q'", "<", "x y", "t\tb", "url(#", "+", ".", "_", "%", "a;b", "a:b", "a,b", "A/", "--", "]]>"]), k));
                    }
                }
                if s.chance(1, 4) {
                    p.prepend(e.clone());
                } else {
                    p.append(e.clone());
                }
                b.elems += 1;
                elems.push(e);
            }
            1 => {
                let text = if s.chance(1, 5) { printable(s) } else { s.pick(TEXTS).to_string() };
                let t = doc.create_node(NodeType::Text, text);
                // Adjacent text nodes are one text in XML.
                if p.last_child().map_or(false, |c| c.is_text()) {
                    continue;
                }
                p.append(t);
                b.texts += 1;
            }
            _ => {
                let text = if s.chance(1, 4) { comment_text(s) } else { s.pick(&["c", "", " a & b < c ", "<g/>", "a - b", "\n x", "é"]).to_string() };
                let t = doc.create_node(NodeType::Comment, text);
                p.append(t);
            }
        }
    }
    let m = s.count_long(8, 24, 120);
    for _ in 0..m {
        let i = s.idx(elems.len());
        let mut e = elems[i].clone();
        if s.chance(1, 6) {
            let name = *s.pick(&["data-a", "foo", "x:y", "inkscape", "B", "b", "zz", "_q", "aa"]);
            let v = gen_value(s, name, &elems);
            b.custom += 1;
            if v.is_link_container() {
                if e.set_attribute_checked((name, v)).is_ok() {
                    b.links += 1;
                }
            } else {
                e.set_attribute((name, v));
            }
        } else {
            let name = if s.chance(1, 2) { *s.pick(TYPED_ATTRS) } else { *s.pick(ATTRIBUTES) };
            // 'id' has its own place, 'xmlns' is written by the writer.
            if ["id", "xmlns"].contains(&name) {
                continue;
            }
            let aid = AttributeId::from_str(name).unwrap();
            let mut v = gen_value(s, name, &elems);
            if name == "unicode" && !v.is_string() {
                // Anything but text is left out here.
                v = AttributeValue::String(gen_string(s));
            }
            if v.is_link_container() {
                if e.set_attribute_checked((aid, v)).is_ok() {
                    b.links += 1;
                }
            } else {
                e.set_attribute((aid, v));
            }
        }
    }
    b.doc = doc;
    b
}

fn documented_defaults() -> WriteOptions {
    WriteOptions {
        use_single_quote: false,
        indent: Indent::Spaces(4),
        attributes_indent: Indent::None,
        values: ValueWriteOptions {
            trim_hex_colors: false,
            remove_leading_zero: false,
            use_compact_path_notation: false,
            join_arc_to_flags: false,
            remove_duplicated_path_commands: false,
            use_implicit_lineto_commands: false,
            simplify_transform_matrices: false,
            list_separator: ListSeparator::Space,
        },
    }
}

pub fn c13_layout(s: &mut Src, ctx: &mut Ctx) -> R {
    // The plain conversion to text uses the documented defaults.
    let plain = s.chance(1, 4);
    let opt = if plain { documented_defaults() } else { gen_opts(s) };
    let b = gen_built(s);
    let out = match (plain, s.idx(3)) {
        (true, 0) => b.doc.to_string(),
        (true, 1) => b.doc.to_string_with_opt(&WriteOptions::default()),
        _ => b.doc.to_string_with_opt(&opt),
    };
    ctx.set_input(&format!("{:?}\n{}", opt, out));
    ctx.nontrivial = b.elems >= 2;
    check(&b.doc, &opt, &out, ctx)?;
    if b.links > 0 {
        ctx.label("links");
    }
    if b.texts > 0 {
        ctx.label("text");
    }
    if b.custom > 0 {
        ctx.label("custom names");
    }
    Ok(())
}

/// The same for documents that come from files.
pub fn c13_parsed(s: &mut Src, ctx: &mut Ctx) -> R {
    let opt = gen_opts(s);
    let c = super::roundtrip::full_cfg(s);
    let d = super::xml::gen_doc(s, &c);
    let text = super::xml::serialise(&d, s, false);
    let doc = match Document::from_str(&text) {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    if super::parse::adjacent_texts(&super::snap::snapshot(&doc.root())) {
        return Ok(());
    }
    let out = doc.to_string_with_opt(&opt);
    ctx.set_input(&format!("{:?}\n{}", opt, text));
    ctx.nontrivial = doc.root().descendants().count() > 3;
    check(&doc, &opt, &out, ctx)
}

fn check(doc: &Document, opt: &WriteOptions, out: &str, ctx: &mut Ctx) -> R {
    let mut stray = Vec::new();
    let toks = match tokenize(out, &mut stray) {
        Ok(t) => t,
        Err(e) => return fail("not well-formed", format!("{}\n{}", e, out)),
    };
    let exp = expected(doc, opt);
    let n = exp.len().max(toks.len());
    for i in 0..n {
        let (e, a) = (exp.get(i), toks.get(i));
        if e != a {
            if let (Some(Tok::Start { name: n1, attrs: a1, empty: e1, .. }), Some(Tok::Start { name: n2, attrs: a2, empty: e2, .. })) = (e, a) {
                ensure!(n1 == n2, "name", "expected the element '{}', found '{}' in\n{}", n1, n2, out);
                ensure!(e1 == e2, "structure", "element '{}': children or not differ in\n{}", n1, out);
                let names = |l: &Vec<(String, String, char, String)>| l.iter().map(|a| a.1.clone()).collect::<Vec<_>>();
                ensure!(names(a1) == names(a2), "attribute order", "element '{}': expected attributes {:?}, found {:?} in\n{}", n1, names(a1), names(a2), out);
                for (x, y) in a1.iter().zip(a2) {
                    ensure!(x.2 == y.2, "quote", "attribute '{}' is quoted with {} in\n{}", x.1, y.2, out);
                    ensure!(x.3 == y.3, "value", "attribute '{}': expected {:?}, found {:?} in\n{}", x.1, x.3, y.3, out);
                    ensure!(x.0 == y.0, "attribute layout", "attribute '{}': expected {:?} before it, found {:?} in\n{}", x.1, x.0, y.0, out);
                }
            }
            return fail("layout", format!("expected {:?}, found {:?} in\n{}", e, a, out));
        }
    }
    // A '&' that starts no reference is kept as is in text, unless a ';' follows.
    ensure!(!stray.iter().any(|x| *x), "not well-formed", "'&' before a ';' in text is not escaped in\n{}", out);
    if !stray.is_empty() {
        ctx.known.push("bare-ampersand".to_string());
    }
    Ok(())
}
