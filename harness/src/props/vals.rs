//! Attribute values: which kind an attribute calls for, and generators of spellings of valid and
//! invalid values together with the value that has to be stored.

use crate::engine::Src;
use svgdom::*;

/// What one declaration must do.
#[derive(Clone, Debug)]
pub enum Exp {
    /// Has no effect (invalid or empty value).
    Ignored,
    /// Stores this value.
    Val(AttributeValue),
    /// Identity transform: nothing is stored, an earlier value is dropped.
    Clear,
    /// A reference to an element id, with the paint fallback.
    Ref(String, Option<PaintFallback>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Href,
    LenOrList,
    Len,
    Offset,
    LenInherit,
    NumInherit,
    Opacity,
    Num,
    Dasharray,
    Fill,
    Stroke,
    Func,
    Color,
    Color2,
    NumList,
    Points,
    Path,
    Transform,
    FontSize,
    FontSizeAdjust,
    NoneInheritStr,
    InheritStr,
    Spacing,
    BaselineShift,
    Orient,
    Goh,
    Gov,
    ViewBox,
    Aspect,
    Unicode,
    Str,
}

pub fn kind(attr: &str) -> Kind {
    match attr {
        "href" => Kind::Href,
        "x" | "y" | "dx" | "dy" => Kind::LenOrList,
        "x1" | "y1" | "x2" | "y2" | "r" | "rx" | "ry" | "cx" | "cy" | "fx" | "fy" | "refX" | "refY" | "width" | "height"
        | "markerWidth" | "markerHeight" | "startOffset" => Kind::Len,
        "offset" => Kind::Offset,
        "stroke-dashoffset" | "stroke-width" => Kind::LenInherit,
        "stroke-miterlimit" => Kind::NumInherit,
        "opacity" | "fill-opacity" | "flood-opacity" | "stroke-opacity" | "stop-opacity" => Kind::Opacity,
        "k1" | "k2" | "k3" | "k4" => Kind::Num,
        "stroke-dasharray" => Kind::Dasharray,
        "fill" => Kind::Fill,
        "stroke" => Kind::Stroke,
        "clip-path" | "filter" | "marker" | "marker-end" | "marker-mid" | "marker-start" | "mask" => Kind::Func,
        "color" => Kind::Color,
        "lighting-color" | "flood-color" | "stop-color" => Kind::Color2,
        "stdDeviation" | "baseFrequency" | "rotate" => Kind::NumList,
        "points" => Kind::Points,
        "d" => Kind::Path,
        "transform" | "gradientTransform" | "patternTransform" => Kind::Transform,
        "font-size" => Kind::FontSize,
        "font-size-adjust" => Kind::FontSizeAdjust,
        "display" | "pointer-events" | "text-decoration" => Kind::NoneInheritStr,
        "clip-rule" | "color-interpolation" | "color-interpolation-filters" | "color-profile" | "color-rendering"
        | "direction" | "dominant-baseline" | "enable-background" | "fill-rule" | "font-family" | "font-stretch"
        | "font-style" | "font-variant" | "font-weight" | "image-rendering" | "kerning" | "overflow"
        | "shape-rendering" | "stroke-linecap" | "stroke-linejoin" | "text-anchor" | "text-rendering"
        | "unicode-bidi" | "visibility" | "writing-mode" => Kind::InheritStr,
        "letter-spacing" | "word-spacing" => Kind::Spacing,
        "baseline-shift" => Kind::BaselineShift,
        "orient" => Kind::Orient,
        "glyph-orientation-horizontal" => Kind::Goh,
        "glyph-orientation-vertical" => Kind::Gov,
        "viewBox" => Kind::ViewBox,
        "preserveAspectRatio" => Kind::Aspect,
        "unicode" => Kind::Unicode,
        _ => Kind::Str,
    }
}

pub const TYPED_ATTRS: &[&str] = &[
    "x", "fill", "stroke", "d", "transform", "points", "href", "width", "opacity", "stroke-dasharray", "clip-path", "mask",
    "filter", "marker-start", "marker-mid", "marker-end", "marker", "y", "dx", "dy", "x1", "y1", "x2", "y2", "r", "rx", "ry", "cx", "cy",
    "fx", "fy", "refX", "refY", "height", "markerWidth", "markerHeight", "startOffset", "offset",
    "stroke-dashoffset", "stroke-width", "stroke-miterlimit", "fill-opacity", "flood-opacity", "stroke-opacity",
    "stop-opacity", "k1", "k2", "k3", "k4", "color", "lighting-color", "flood-color", "stop-color", "stdDeviation",
    "baseFrequency", "rotate", "gradientTransform", "patternTransform", "font-size", "font-size-adjust", "display",
    "pointer-events", "text-decoration", "clip-rule", "font-family", "kerning", "visibility", "letter-spacing",
    "word-spacing", "baseline-shift", "orient", "glyph-orientation-horizontal", "glyph-orientation-vertical",
    "viewBox", "preserveAspectRatio", "unicode", "enable-background", "overflow", "font-weight", "writing-mode",
];

pub const STR_ATTRS: &[&str] = &[
    "title", "media", "type", "result", "in", "values", "lang", "base", "show", "actuate", "tableValues", "order",
    "onclick", "name", "glyph-name", "version", "textLength", "alignment-baseline", "clip", "cursor", "font", "keyTimes",
    "spreadMethod", "gradientUnits", "systemLanguage", "target", "u1", "g2", "k", "z", "to", "by", "path", "line-height",
];

pub struct GenVal {
    pub text: String,
    pub exp: Exp,
}

fn gv(text: impl Into<String>, v: AttributeValue) -> GenVal {
    GenVal { text: text.into(), exp: Exp::Val(v) }
}

fn ignored(text: impl Into<String>) -> GenVal {
    GenVal { text: text.into(), exp: Exp::Ignored }
}

thread_local! {
    /// simplecss does not read numbers with an exponent the way CSS does.
    static NO_EXP: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// A number and its spelling.
pub fn number(s: &mut Src) -> (String, f64) {
    if s.chance(1, 40) {
        // A tiny number.
        let t = format!("{}{}.{}{}", if s.chance(1, 2) { "-" } else { "" }, if s.chance(1, 2) { "0" } else { "" }, "0".repeat(2 + s.idx(4)), 1 + s.idx(99));
        let v: f64 = t.parse().unwrap();
        return (t, v);
    }
    let int = match s.weighted(&[4, 3, 2, 1]) {
        0 => s.range(0, 9),
        1 => s.range(0, 300),
        2 => s.range(0, 20000),
        _ => s.range(0, 2_000_000),
    };
    let digits = s.weighted(&[5, 2, 2, 1, 1, 0, 1]);
    let mut t = String::new();
    let neg = s.chance(1, 4);
    if neg {
        t.push('-');
    } else if s.chance(1, 12) {
        t.push('+');
    }
    if digits > 0 {
        let mut f = String::new();
        for _ in 0..digits {
            f.push((b'0' + s.draw(10) as u8) as char);
        }
        let drop_int = int == 0 && s.chance(1, 2);
        if !drop_int {
            t.push_str(&int.to_string());
        }
        t.push('.');
        t.push_str(&f);
    } else {
        if s.chance(1, 20) {
            t.push('0');
        }
        t.push_str(&int.to_string());
    }
    if int < 1000 && digits <= 3 && s.chance(1, 10) && !NO_EXP.with(|x| x.get()) {
        let e = s.range(-2, 3);
        t.push(if s.chance(1, 2) { 'E' } else { 'e' });
        if e >= 0 && s.chance(1, 2) {
            t.push('+');
        }
        t.push_str(&e.to_string());
    }
    let v: f64 = t.strip_prefix('+').unwrap_or(&t).parse().unwrap();
    (t, v)
}

const UNITS: &[(&str, LengthUnit)] = &[
    ("", LengthUnit::None),
    ("px", LengthUnit::Px),
    ("%", LengthUnit::Percent),
    ("em", LengthUnit::Em),
    ("ex", LengthUnit::Ex),
    ("in", LengthUnit::In),
    ("cm", LengthUnit::Cm),
    ("mm", LengthUnit::Mm),
    ("pt", LengthUnit::Pt),
    ("pc", LengthUnit::Pc),
];

pub fn length(s: &mut Src) -> (String, Length) {
    let (mut t, v) = number(s);
    let u = UNITS[if s.chance(1, 2) { s.idx(UNITS.len()) } else { 0 }];
    t.push_str(u.0);
    (t, Length::new(v, u.1))
}

const BAD: &[&str] = &["qwe", "!!", "", "rgb(", "#", "url(#)", "10zz", "ünïcode", "- 5"];

/// List separator; `compact` also allows no separator before a sign.
fn sep(s: &mut Src) -> &'static str {
    *s.pick(&[" ", ",", ", ", "  ", " ,", " , "])
}

fn join_numbers(s: &mut Src, parts: &[String]) -> String {
    let mut t = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            let sign = p.starts_with('-') || p.starts_with('+');
            let dot = p.starts_with('.') && parts[i - 1].contains('.') && !parts[i - 1].contains(|c| c == 'e' || c == 'E');
            if (sign || dot) && s.chance(1, 2) {
                // No separator is needed.
            } else {
                t.push_str(sep(s));
            }
        }
        t.push_str(p);
    }
    t
}

fn numbers(s: &mut Src, n: usize) -> (Vec<String>, Vec<f64>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    for _ in 0..n {
        let (t, v) = number(s);
        a.push(t);
        b.push(v);
    }
    (a, b)
}

const NAMED: &[(&str, (u8, u8, u8))] = &[
    ("black", (0, 0, 0)),
    ("red", (255, 0, 0)),
    ("green", (0, 128, 0)),
    ("blue", (0, 0, 255)),
    ("white", (255, 255, 255)),
    ("gray", (128, 128, 128)),
    ("grey", (128, 128, 128)),
    ("silver", (192, 192, 192)),
    ("orange", (255, 165, 0)),
    ("aliceblue", (240, 248, 255)),
    ("cornflowerblue", (100, 149, 237)),
    ("darkslategrey", (47, 79, 79)),
    ("lightgoldenrodyellow", (250, 250, 210)),
    ("rebeccapurple-none", (0, 0, 0)),
    ("yellowgreen", (154, 205, 50)),
    ("tan", (210, 180, 140)),
    ("indigo", (75, 0, 130)),
    ("papayawhip", (255, 239, 213)),
];

pub fn color(s: &mut Src) -> (String, Color) {
    match s.weighted(&[3, 3, 2, 2, 1]) {
        0 => {
            let (n, c) = loop_named(s);
            let n = if s.chance(1, 5) { n.to_uppercase() } else { n.to_string() };
            (n, Color::new(c.0, c.1, c.2))
        }
        1 => {
            let c = (s.draw(256) as u8, s.draw(256) as u8, s.draw(256) as u8);
            let t = format!("#{:02x}{:02x}{:02x}", c.0, c.1, c.2);
            (if s.chance(1, 3) { t.to_uppercase() } else { t }, Color::new(c.0, c.1, c.2))
        }
        2 => {
            let c = (s.draw(16) as u8, s.draw(16) as u8, s.draw(16) as u8);
            let t = format!("#{:x}{:x}{:x}", c.0, c.1, c.2);
            (if s.chance(1, 3) { t.to_uppercase() } else { t }, Color::new(c.0 * 17, c.1 * 17, c.2 * 17))
        }
        3 => {
            let c = (s.draw(256) as u8, s.draw(256) as u8, s.draw(256) as u8);
            let t = *s.pick(&[",", ", ", " , "]);
            let pad = *s.pick(&["", " "]);
            (format!("rgb({}{}{}{}{}{}{})", pad, c.0, t, c.1, t, c.2, pad), Color::new(c.0, c.1, c.2))
        }
        _ => {
            let c = (s.draw(6) as u8, s.draw(6) as u8, s.draw(6) as u8);
            (format!("rgb({}%, {}%,{}%)", c.0 as u32 * 20, c.1 as u32 * 20, c.2 as u32 * 20), Color::new(c.0 * 51, c.1 * 51, c.2 * 51))
        }
    }
}

fn loop_named(s: &mut Src) -> (&'static str, (u8, u8, u8)) {
    let n = NAMED[s.idx(NAMED.len())];
    if n.0.ends_with("-none") {
        NAMED[0]
    } else {
        n
    }
}

const STRS: &[&str] = &[
    "auto", "a b", "text", "Some text", "0", "1 2 3", "normal", "'Times New Roman', serif", "\"q\"", "a&b", "a<b>c", "x;y",
    "", "é日本", "😀", "a'b\"c", "&amp;", "url(x)", "#", "a\tb", "a\nb", "a\rb", "]]>", "%s {}", "a\u{a0}b", "1e5", "--", "\u{7f}x", "&#65;",
];

/// Keywords of SVG and CSS.
const KEYWORDS: &[&str] = &[
    "objectBoundingBox", "userSpaceOnUse", "evenodd", "nonzero", "preserve", "default", "pad", "reflect", "repeat", "matrix", "linear", "sum", "replace", "freeze",
    "indefinite", "italic", "bold", "collapse", "scroll", "visible", "hidden", "new", "embed", "simple", "SourceGraphic", "SourceAlpha", "sRGB", "linearRGB", "stitch",
    "noStitch", "erode", "dilate", "turbulence", "over", "in", "out", "atop", "xor", "strokeWidth", "always", "never", "true", "false", "round", "bevel", "miter", "butt",
    "square", "start", "middle", "end", "spacing", "exact", "align", "stretch", "0.5s", "10", "100%", "rect", "disable", "magnify", "translate",
];

/// A text value without leading or trailing whitespace.
pub fn string(s: &mut Src) -> String {
    if s.chance(1, 3) {
        let n = s.count_long(3, 12, 120);
        let mut t = String::new();
        for _ in 0..n {
            if s.chance(1, 4) {
                t.push((0x20 + s.draw(0x5f) as u8) as char);
                continue;
            }
            t.push(*s.pick(&['a', 'b', ' ', '&', '<', '>', '"', '\'', ';', '#', 'é', '日', '😀', '\t', '\n', '-', '.', '1', '/', '\r', ']']));
        }
        t.trim().to_string()
    } else {
        s.pick(STRS).to_string()
    }
}

/// Printable text, now and then a long one.
pub fn printable(s: &mut Src) -> String {
    let n = if s.chance(1, 12) { 100 + s.idx(1200) } else { 1 + s.count_long(4, 16, 90) };
    if n >= 100 {
        // Repeats, which are cheap to draw.
        let k = 1 + s.idx(6);
        let part: String = (0..k).map(|_| (0x20 + s.draw(0x5f) as u8) as char).collect();
        return part.chars().cycle().take(n).collect();
    }
    (0..n).map(|_| if s.chance(1, 12) { *s.pick(&['é', '日', '😀', '\u{a0}']) } else { (0x20 + s.draw(0x5f) as u8) as char }).collect()
}

/// Text of a comment that XML allows.
pub fn comment_text(s: &mut Src) -> String {
    let mut t = printable(s);
    while t.contains("--") {
        t = t.replace("--", "- ");
    }
    if t.ends_with('-') {
        t.push('.');
    }
    t
}

const WILD: &[&str] = &[
    "a", " ", "", "\n", "\r\n", "\t", "\r", "é", "日本", "😀", "&", "<", ">", "'", "\"", "&amp;", "--", "]]>", "#", "url(#a)", "A", "0", "-", "\u{a0}", "\u{0}", "none", ":", ";",
    "\u{feff}", "\u{301}", "{}", "%s", "\\",
];

/// Any text: for data that no syntax is imposed on.
pub fn wild(s: &mut Src) -> String {
    let n = s.count_long(2, 8, 40);
    let mut t = String::new();
    for _ in 0..n {
        if s.chance(1, 20) {
            let c = std::char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('?');
            t.push(c);
        } else if s.chance(1, 30) {
            let f = *s.pick(WILD);
            let k = s.idx(80);
            t.push_str(&f.repeat(k));
        } else if s.chance(1, 6) {
            t.push((b' ' + s.idx(95) as u8) as char);
        } else {
            t.push_str(*s.pick(WILD));
        }
    }
    t
}

/// Text value that survives the CSS tokenizer.
pub fn css_string(s: &mut Src) -> String {
    s.pick(&["auto", "normal", "evenodd", "Arial", "'Times New Roman', serif", "bold", "visible", "hidden", "a, b", "sRGB", "12", "10px 20px", "\"A\""])
        .to_string()
}

pub fn path(s: &mut Src, allow_error: bool) -> (String, Vec<PathSegment>) {
    let mut segs: Vec<PathSegment> = Vec::new();
    let mut t = String::new();
    let n = 1 + s.count_long(4, 14, 60);
    let mut last_cmd = ' ';
    for i in 0..n {
        let mut c = if i == 0 { 'm' } else { *s.pick(&['l', 'm', 'h', 'v', 'c', 's', 'q', 't', 'a', 'z']) };
        // Mostly repeat or not.
        if s.chance(1, 2) {
            c = c.to_ascii_uppercase();
        }
        let cnt = match c.to_ascii_lowercase() {
            'm' | 'l' | 't' => 2,
            'h' | 'v' => 1,
            'c' => 6,
            's' | 'q' => 4,
            'a' => 7,
            _ => 0,
        };
        let mut parts: Vec<String> = Vec::new();
        let mut vals: Vec<f64> = Vec::new();
        let arc = c.to_ascii_lowercase() == 'a';
        for k in 0..cnt {
            if arc && (k == 3 || k == 4) {
                let f = s.draw(2);
                parts.push(f.to_string());
                vals.push(f as f64);
            } else {
                let (p, mut v) = number(s);
                let mut p = p;
                if arc && k < 2 && v < 0.0 {
                    v = -v;
                    p = p[1..].to_string();
                }
                parts.push(p);
                vals.push(v);
            }
        }
        // Implicit command letter: the same command again, or a line after a move.
        let implied = match last_cmd {
            'm' => 'l',
            'M' => 'L',
            ' ' | 'z' | 'Z' => '\0',
            x => x,
        };
        let implicit = c == implied && s.chance(1, 2);
        if implicit {
            t.push_str(sep(s));
        } else {
            if i > 0 && s.chance(2, 3) {
                t.push(' ');
            }
            t.push(c);
            if s.chance(1, 2) {
                t.push(' ');
            }
            last_cmd = c;
        }
        if arc {
            t.push_str(&join_numbers(s, &parts[..3]));
            t.push_str(sep(s));
            t.push_str(&parts[3]);
            t.push_str(*s.pick(&[" ", "", ","]));
            t.push_str(&parts[4]);
            let sg = parts[5].starts_with('-') || parts[5].starts_with('+');
            // svgtypes takes a comma after a flag only without a space before it.
            t.push_str(if s.chance(1, 3) || (sg && s.chance(1, 2)) { "" } else { *s.pick(&[" ", ",", ", ", "  "]) });
            t.push_str(&join_numbers(s, &parts[5..]));
        } else {
            t.push_str(&join_numbers(s, &parts));
        }
        let abs = c.is_ascii_uppercase();
        let v = &vals;
        segs.push(match c.to_ascii_lowercase() {
            'm' => PathSegment::MoveTo { abs, x: v[0], y: v[1] },
            'l' => PathSegment::LineTo { abs, x: v[0], y: v[1] },
            't' => PathSegment::SmoothQuadratic { abs, x: v[0], y: v[1] },
            'h' => PathSegment::HorizontalLineTo { abs, x: v[0] },
            'v' => PathSegment::VerticalLineTo { abs, y: v[0] },
            'c' => PathSegment::CurveTo { abs, x1: v[0], y1: v[1], x2: v[2], y2: v[3], x: v[4], y: v[5] },
            's' => PathSegment::SmoothCurveTo { abs, x2: v[0], y2: v[1], x: v[2], y: v[3] },
            'q' => PathSegment::Quadratic { abs, x1: v[0], y1: v[1], x: v[2], y: v[3] },
            'a' => PathSegment::EllipticalArc {
                abs,
                rx: v[0],
                ry: v[1],
                x_axis_rotation: v[2],
                large_arc: v[3] == 1.0,
                sweep: v[4] == 1.0,
                x: v[5],
                y: v[6],
            },
            _ => PathSegment::ClosePath { abs },
        });
    }
    if allow_error && s.chance(1, 4) {
        // Broken data: everything before it is kept.
        t.push_str(*s.pick(&[" L", " L 10", " Q 1 2 3", " x 5 5", " C 1 2 3 4 5", " !", " A 1 2 3 4 5 6 7", " L a b M 1 2", " é", " H"]));
    }
    (t, segs)
}

fn transform(s: &mut Src, css: bool) -> (String, Transform) {
    let n = 1 + s.count_long(1, 3, 6);
    let mut t = String::new();
    let mut m = [1.0f64, 0.0, 0.0, 1.0, 0.0, 0.0];
    fn mul(a: &[f64; 6], b: &[f64; 6]) -> [f64; 6] {
        [
            a[0] * b[0] + a[2] * b[1],
            a[1] * b[0] + a[3] * b[1],
            a[0] * b[2] + a[2] * b[3],
            a[1] * b[2] + a[3] * b[3],
            a[0] * b[4] + a[2] * b[5] + a[4],
            a[1] * b[4] + a[3] * b[5] + a[5],
        ]
    }
    for i in 0..n {
        if i > 0 {
            t.push_str(if css { " " } else { *s.pick(&[" ", ", ", "  ", ","]) });
        }
        match s.weighted(&[4, 3, 3, 2, 1, 1]) {
            0 => {
                let k = 1 + s.idx(2);
                let (p, v) = numbers(s, k);
                t.push_str(&format!("translate({})", join_numbers(s, &p)));
                m = mul(&m, &[1.0, 0.0, 0.0, 1.0, v[0], if k == 2 { v[1] } else { 0.0 }]);
            }
            1 => {
                let k = 1 + s.idx(2);
                let (p, v) = numbers(s, k);
                t.push_str(&format!("scale({})", join_numbers(s, &p)));
                m = mul(&m, &[v[0], 0.0, 0.0, if k == 2 { v[1] } else { v[0] }, 0.0, 0.0]);
            }
            2 => {
                let (p, v) = numbers(s, 6);
                t.push_str(&format!("matrix({})", join_numbers(s, &p)));
                m = mul(&m, &[v[0], v[1], v[2], v[3], v[4], v[5]]);
            }
            3 => {
                let a = s.range(-180, 180) as f64;
                let r = a.to_radians();
                let rot = [r.cos(), r.sin(), -r.sin(), r.cos(), 0.0, 0.0];
                if s.chance(1, 2) {
                    let (p, v) = numbers(s, 2);
                    t.push_str(&format!("rotate({} {})", a, join_numbers(s, &p)));
                    m = mul(&m, &[1.0, 0.0, 0.0, 1.0, v[0], v[1]]);
                    m = mul(&m, &rot);
                    m = mul(&m, &[1.0, 0.0, 0.0, 1.0, -v[0], -v[1]]);
                } else {
                    t.push_str(&format!("rotate({})", a));
                    m = mul(&m, &rot);
                }
            }
            4 => {
                let a = s.range(-60, 60) as f64;
                t.push_str(&format!("skewX({})", a));
                m = mul(&m, &[1.0, 0.0, a.to_radians().tan(), 1.0, 0.0, 0.0]);
            }
            _ => {
                let a = s.range(-60, 60) as f64;
                t.push_str(&format!("skewY({})", a));
                m = mul(&m, &[1.0, a.to_radians().tan(), 0.0, 1.0, 0.0, 0.0]);
            }
        }
    }
    (t, Transform::new(m[0], m[1], m[2], m[3], m[4], m[5]))
}

fn near_identity(t: &Transform) -> bool {
    (t.a - 1.0).abs() < 1e-9 && t.b.abs() < 1e-9 && t.c.abs() < 1e-9 && (t.d - 1.0).abs() < 1e-9 && t.e.abs() < 1e-9 && t.f.abs() < 1e-9
}

fn clean_identity(t: &Transform) -> bool {
    t.a == 1.0 && t.b == 0.0 && t.c == 0.0 && t.d == 1.0 && t.e == 0.0 && t.f == 0.0
}

/// Configuration of the value generator.
pub struct VCfg<'a> {
    /// Ids that references may use.
    pub ids: &'a [String],
    /// Chance (of 12) of a reference in link-capable attributes.
    pub refs: u64,
    /// Chance (of 12) of an invalid value.
    pub bad: u64,
    /// The spelling must survive the CSS tokenizer.
    pub css: bool,
}

fn reference(s: &mut Src, c: &VCfg) -> String {
    let id = &c.ids[s.idx(c.ids.len())];
    if c.css && !id.chars().all(|c| c.is_alphanumeric() || "._-".contains(c)) {
        // Would need an escape, which simplecss does not know.
        return "nope".to_string();
    }
    id.clone()
}

fn func_text(s: &mut Src, id: &str) -> String {
    if s.chance(1, 6) {
        format!("url( #{} )", id)
    } else {
        format!("url(#{})", id)
    }
}

fn paint_ref(s: &mut Src, c: &VCfg) -> GenVal {
    let id = reference(s, c);
    let mut t = func_text(s, &id);
    let fb = match s.weighted(&[3, 1, 1, 2]) {
        0 => None,
        1 => {
            t.push_str(" none");
            Some(PaintFallback::None)
        }
        2 => {
            t.push_str(" currentColor");
            Some(PaintFallback::CurrentColor)
        }
        _ => {
            let (ct, cv) = color(s);
            t.push(' ');
            t.push_str(&ct);
            Some(PaintFallback::Color(cv))
        }
    };
    GenVal { text: t, exp: Exp::Ref(id, fb) }
}

fn paint(s: &mut Src, c: &VCfg) -> GenVal {
    match s.weighted(&[5, 1, 1, 1]) {
        0 => {
            let (t, v) = color(s);
            gv(t, v.into())
        }
        1 => gv("none", AttributeValue::None),
        2 => gv("inherit", AttributeValue::Inherit),
        _ => {
            let _ = c;
            gv("currentColor", AttributeValue::CurrentColor)
        }
    }
}

fn bad(s: &mut Src, c: &VCfg, list: &[&str]) -> GenVal {
    if c.css {
        // Only tokens that form a syntactically valid declaration.
        ignored(*s.pick(&["qwe", "zzz, yyy", "'text'"]))
    } else {
        ignored(*s.pick(list))
    }
}

const ASPECTS: &[(&str, Align)] = &[
    ("none", Align::None),
    ("xMidYMid", Align::XMidYMid),
    ("xMinYMin", Align::XMinYMin),
    ("xMidYMin", Align::XMidYMin),
    ("xMaxYMin", Align::XMaxYMin),
    ("xMinYMid", Align::XMinYMid),
    ("xMaxYMid", Align::XMaxYMid),
    ("xMinYMax", Align::XMinYMax),
    ("xMidYMax", Align::XMidYMax),
    ("xMaxYMax", Align::XMaxYMax),
];

/// A value for the attribute of the element.
pub fn value(s: &mut Src, tag: &str, attr: &str, c: &VCfg) -> GenVal {
    let k = kind(attr);
    let b = c.bad > 0 && s.chance(c.bad, 12);
    let r = c.refs > 0 && !c.ids.is_empty() && s.chance(c.refs, 12);
    NO_EXP.with(|x| x.set(c.css));
    let mut v = value_kind(s, tag, attr, k, b, r, c);
    NO_EXP.with(|x| x.set(false));
    // Keywords are case-sensitive.
    if k != Kind::Aspect && ["none", "inherit", "currentColor", "auto", "normal", "baseline", "sub", "super"].contains(&v.text.as_str()) && s.chance(1, 15) {
        let text = match s.idx(3) {
            0 => v.text.to_uppercase(),
            1 => v.text[..1].to_uppercase() + &v.text[1..],
            _ => v.text.to_lowercase(),
        };
        if text != v.text {
            match k {
                Kind::NoneInheritStr | Kind::InheritStr | Kind::FontSize | Kind::Str | Kind::Unicode => v = gv(text.clone(), AttributeValue::String(text)),
                // Not a paint on animation elements.
                Kind::Fill => {}
                _ if c.bad > 0 => v = ignored(text),
                _ => {}
            }
        }
    }
    // Surrounding whitespace is not part of the value.
    if !c.css && k != Kind::Unicode && s.chance(1, 10) {
        v.text = format!("{}{}{}", s.pick(&[" ", "  ", "\t", "\n "]), v.text, s.pick(&["", " ", "\n"]));
    }
    v
}

fn value_kind(s: &mut Src, tag: &str, attr: &str, k: Kind, b: bool, r: bool, c: &VCfg) -> GenVal {
    use AttributeValue as AV;
    match k {
        Kind::Href => {
            if r {
                let id = reference(s, c);
                GenVal { text: format!("#{}", id), exp: Exp::Ref(id, None) }
            } else {
                let t = s.pick(&["image.png", "http://example.com/?a=1&b=2", "data:image/png;base64,AAAA", "", "file.svg#a", "a b.png"]).to_string();
                gv(t.clone(), AV::String(t))
            }
        }
        Kind::LenOrList if ["text", "tspan", "tref", "altGlyph"].contains(&tag) => {
            if b {
                return bad(s, c, &["qwe", "1 2 qwe", "10, zz", "", " "]);
            }
            let n = 1 + s.count_long(1, 5, 40);
            let mut t = String::new();
            let mut l = Vec::new();
            for i in 0..n {
                let (p, v) = length(s);
                if i > 0 {
                    t.push_str(sep(s));
                }
                t.push_str(&p);
                l.push(v);
            }
            gv(t, AV::LengthList(LengthList(l)))
        }
        Kind::Len | Kind::LenOrList => {
            if b {
                return bad(s, c, BAD);
            }
            let (t, v) = length(s);
            gv(t, AV::Length(v))
        }
        Kind::Offset => {
            if b {
                return bad(s, c, &["qwe", "5px", "1mm", "", "0.5em"]);
            }
            let (mut t, v) = number(s);
            let mut u = LengthUnit::None;
            if s.chance(1, 2) {
                t.push('%');
                u = LengthUnit::Percent;
            }
            gv(t, AV::Length(Length::new(v, u)))
        }
        Kind::LenInherit => {
            if b {
                return bad(s, c, BAD);
            }
            if s.chance(1, 5) {
                return gv("inherit", AV::Inherit);
            }
            let (t, v) = length(s);
            gv(t, AV::Length(v))
        }
        Kind::NumInherit => {
            if b {
                return bad(s, c, &["qwe", "1px", "", "1 2", "5%"]);
            }
            if s.chance(1, 5) {
                return gv("inherit", AV::Inherit);
            }
            let (t, v) = number(s);
            gv(t, AV::Number(v))
        }
        Kind::Opacity => {
            if b {
                return bad(s, c, &["qwe", "1px", "", "0.5 0.5", "50%"]);
            }
            match s.weighted(&[3, 1, 1]) {
                0 => {
                    let n = s.range(0, 1000) as f64 / 1000.0;
                    gv(format!("{}", n), AV::Number(n))
                }
                1 => gv("inherit", AV::Inherit),
                _ => {
                    let (t, v) = number(s);
                    let v = if v < 0.0 { 0.0 } else if v > 1.0 { 1.0 } else { v };
                    gv(t, AV::Number(v))
                }
            }
        }
        Kind::Num => {
            if b {
                return bad(s, c, &["qwe", "1px", "", "1 2", "inherit"]);
            }
            let (t, v) = number(s);
            gv(t, AV::Number(v))
        }
        Kind::Dasharray => {
            if b {
                return bad(s, c, &["qwe", "1 2 q", "", "  "]);
            }
            match s.weighted(&[4, 1, 1]) {
                0 => {
                    let n = 1 + s.count_long(1, 5, 40);
                    let mut t = String::new();
                    let mut l = Vec::new();
                    for i in 0..n {
                        let (p, v) = length(s);
                        if i > 0 {
                            t.push_str(if c.css { *s.pick(&[" ", ", ", ","]) } else { sep(s) });
                        }
                        t.push_str(&p);
                        l.push(v);
                    }
                    gv(t, AV::LengthList(LengthList(l)))
                }
                1 => gv("none", AV::None),
                _ => gv("inherit", AV::Inherit),
            }
        }
        Kind::Fill => {
            if ["set", "animate", "animateColor", "animateMotion", "animateTransform"].contains(&tag) {
                let t = s.pick(&["freeze", "remove", "red", "none", "url(#a)", "qwe"]).to_string();
                return gv(t.clone(), AV::String(t));
            }
            if b {
                return bad(s, c, &["qwe", "", "#12", "rgb(1,2", "url(#a", "#gggggg", "url()"]);
            }
            if r {
                return paint_ref(s, c);
            }
            paint(s, c)
        }
        Kind::Stroke => {
            if b {
                return bad(s, c, &["qwe", "", "#12", "rgb(1,2", "url(#a", "#gggggg", "url()"]);
            }
            if r {
                return paint_ref(s, c);
            }
            paint(s, c)
        }
        Kind::Func => {
            if b {
                return bad(s, c, &["qwe", "", "#a", "url(#a", "url()", "url(#)"]);
            }
            if r {
                let id = reference(s, c);
                return GenVal { text: func_text(s, &id), exp: Exp::Ref(id, None) };
            }
            if s.chance(1, 2) {
                gv("none", AV::None)
            } else {
                gv("inherit", AV::Inherit)
            }
        }
        Kind::Color | Kind::Color2 => {
            if b {
                return bad(s, c, &["qwe", "", "#12", "rgb(1,2", "none", "url(#a)"]);
            }
            match s.weighted(&[4, 1, 1]) {
                0 => {
                    let (t, v) = color(s);
                    gv(t, v.into())
                }
                1 => gv("inherit", AV::Inherit),
                _ => {
                    if k == Kind::Color2 {
                        gv("currentColor", AV::CurrentColor)
                    } else {
                        let (t, v) = color(s);
                        gv(t, v.into())
                    }
                }
            }
        }
        Kind::NumList => {
            if b {
                return bad(s, c, &["qwe", "1 q", "", "inherit"]);
            }
            let n = 1 + s.count_long(1, 4, 40);
            let (p, v) = numbers(s, n);
            gv(join_numbers(s, &p), AV::NumberList(NumberList(v)))
        }
        Kind::Points => {
            if b {
                return bad(s, c, &["qwe", "", "1", "a b"]);
            }
            let n = 1 + s.count_long(2, 8, 60);
            let mut all = Vec::new();
            let mut pts = Vec::new();
            for _ in 0..n {
                let (p, v) = numbers(s, 2);
                all.extend(p);
                pts.push((v[0], v[1]));
            }
            gv(join_numbers(s, &all), AV::Points(Points(pts)))
        }
        Kind::Path => {
            if b {
                return ignored(*s.pick(&["qwe", "", "L 1 2", "10 20", "Z", "M", "M 10", "é"]));
            }
            let (t, v) = path(s, c.bad > 0);
            gv(t, AV::Path(Path(v)))
        }
        Kind::Transform => {
            if b {
                return if c.css {
                    ignored(*s.pick(&["qwe", "qwe(1)", "scale(q)", "translate(1 2 3)"]))
                } else {
                    ignored(*s.pick(&["qwe", "qwe(1)", "scale(", "scale(q)", "matrix(1 2 3)", "rotate()"]))
                };
            }
            if s.chance(1, 8) {
                return GenVal {
                    text: s.pick(&["translate(0)", "matrix(1 0 0 1 0 0)", "scale(1)", "rotate(0)", "translate(0,0) scale(1 1)", "skewX(0)"]).to_string(),
                    exp: Exp::Clear,
                };
            }
            let (t, v) = transform(s, c.css);
            if near_identity(&v) {
                if clean_identity(&v) {
                    GenVal { text: t, exp: Exp::Clear }
                } else {
                    // Within rounding of the identity: unspecified, avoid.
                    gv("translate(3 4)", AV::Transform(Transform::new_translate(3.0, 4.0)))
                }
            } else {
                gv(t, AV::Transform(v))
            }
        }
        Kind::FontSize => match s.weighted(&[4, 1, 2]) {
            0 => {
                let (t, v) = length(s);
                gv(t, AV::Length(v))
            }
            1 => gv("inherit", AV::Inherit),
            _ => {
                let t = s.pick(&["medium", "large", "xx-small", "smaller", "qwe"]).to_string();
                gv(t.clone(), AV::String(t))
            }
        },
        Kind::FontSizeAdjust => {
            if b {
                return bad(s, c, &["qwe", "1px", "", "1 2"]);
            }
            match s.weighted(&[3, 1, 1]) {
                0 => {
                    let (t, v) = number(s);
                    gv(t, AV::Number(v))
                }
                1 => gv("none", AV::None),
                _ => gv("inherit", AV::Inherit),
            }
        }
        Kind::NoneInheritStr => match s.weighted(&[3, 1, 1]) {
            0 => free_string(s, c, &["none", "inherit"]),
            1 => gv("none", AV::None),
            _ => gv("inherit", AV::Inherit),
        },
        Kind::InheritStr => match s.weighted(&[4, 1]) {
            0 => free_string(s, c, &["inherit"]),
            _ => gv("inherit", AV::Inherit),
        },
        Kind::Spacing => {
            if b {
                return bad(s, c, BAD);
            }
            match s.weighted(&[3, 1, 1]) {
                0 => {
                    let (t, v) = length(s);
                    gv(t, AV::Length(v))
                }
                1 => gv("normal", AV::String("normal".into())),
                _ => gv("inherit", AV::Inherit),
            }
        }
        Kind::BaselineShift => {
            if b {
                return bad(s, c, BAD);
            }
            match s.weighted(&[3, 2, 1]) {
                0 => {
                    let (t, v) = length(s);
                    gv(t, AV::Length(v))
                }
                1 => {
                    let t = *s.pick(&["baseline", "sub", "super"]);
                    gv(t, AV::String(t.into()))
                }
                _ => gv("inherit", AV::Inherit),
            }
        }
        Kind::Orient | Kind::Goh | Kind::Gov => {
            if b {
                return bad(s, c, &["qwe", "", "10px", "5 deg"]);
            }
            let w = s.weighted(&[4, 1, 1]);
            if w == 1 && k != Kind::Orient {
                return gv("inherit", AV::Inherit);
            }
            if w == 2 && k != Kind::Goh {
                return gv("auto", AV::String("auto".into()));
            }
            let (mut t, v) = number(s);
            let u = match s.idx(4) {
                0 | 1 => AngleUnit::Degrees,
                2 => {
                    t.push_str("grad");
                    AngleUnit::Gradians
                }
                _ => {
                    t.push_str("rad");
                    AngleUnit::Radians
                }
            };
            if u == AngleUnit::Degrees && s.chance(1, 2) {
                t.push_str("deg");
            }
            gv(t, AV::Angle(Angle::new(v, u)))
        }
        Kind::ViewBox => {
            if b {
                return bad(s, c, &["qwe", "", "0 0 10", "0 0 0 10", "0 0 10 -5", "a b c d"]);
            }
            let (mut p, mut v) = numbers(s, 4);
            for i in 2..4 {
                if v[i] <= 0.0 {
                    v[i] = s.range(1, 500) as f64;
                    p[i] = format!("{}", v[i]);
                }
            }
            gv(join_numbers(s, &p), AV::ViewBox(ViewBox::new(v[0], v[1], v[2], v[3])))
        }
        Kind::Aspect => {
            if b {
                return bad(s, c, &["qwe", "", "xMidYMid qwe", "slice"]);
            }
            let defer = s.chance(1, 3);
            let (n, align) = ASPECTS[s.idx(ASPECTS.len())];
            let w = s.idx(3);
            let slice = w == 2;
            let t = format!("{}{}{}", if defer { "defer " } else { "" }, n, ["", " meet", " slice"][w]);
            gv(t, AV::AspectRatio(AspectRatio { defer, align, slice }))
        }
        Kind::Unicode => {
            let mut t = string(s);
            if s.chance(1, 3) {
                t = format!("{}{}{}", s.pick(&["", " ", "  "]), t, s.pick(&["", " ", "\u{a0}"]));
            }
            gv(t.clone(), AV::String(t))
        }
        Kind::Str => {
            let words: &[&str] = match attr {
                "baseProfile" => &["none", "full", "basic", "tiny"],
                "version" => &["1.0", "1.1", "1.2", "2.0"],
                "type" => &["text/css", "text/javascript", "matrix", "rotate", "linear", "fractalNoise", "translate"],
                "target" => &["_blank", "_self", "main"],
                "lang" => &["en", "en-US", "fr"],
                "cursor" => &["pointer", "move", "auto"],
                "attributeName" | "attributeType" => &["x", "fill", "XML", "CSS", "transform"],
                _ => KEYWORDS,
            };
            // 'none' and the like are text here.
            if !c.css && s.chance(1, 4) {
                let t = s.pick(words).to_string();
                return gv(t.clone(), AV::String(t));
            }
            free_string(s, c, &[])
        }
    }
}

fn free_string(s: &mut Src, c: &VCfg, not: &[&str]) -> GenVal {
    let mut t = if c.css { css_string(s) } else { string(s) };
    if not.contains(&t.as_str()) {
        t = "auto".to_string();
    }
    gv(t.clone(), AttributeValue::String(t))
}

// ---------------------------------------------------------------------------------------------
// Comparison

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

fn seg_parts(p: &PathSegment) -> (u8, bool, Vec<f64>) {
    match *p {
        PathSegment::MoveTo { abs, x, y } => (b'm', abs, vec![x, y]),
        PathSegment::LineTo { abs, x, y } => (b'l', abs, vec![x, y]),
        PathSegment::HorizontalLineTo { abs, x } => (b'h', abs, vec![x]),
        PathSegment::VerticalLineTo { abs, y } => (b'v', abs, vec![y]),
        PathSegment::CurveTo { abs, x1, y1, x2, y2, x, y } => (b'c', abs, vec![x1, y1, x2, y2, x, y]),
        PathSegment::SmoothCurveTo { abs, x2, y2, x, y } => (b's', abs, vec![x2, y2, x, y]),
        PathSegment::Quadratic { abs, x1, y1, x, y } => (b'q', abs, vec![x1, y1, x, y]),
        PathSegment::SmoothQuadratic { abs, x, y } => (b't', abs, vec![x, y]),
        PathSegment::EllipticalArc { abs, rx, ry, x_axis_rotation, large_arc, sweep, x, y } => {
            (b'a', abs, vec![rx, ry, x_axis_rotation, large_arc as u8 as f64, sweep as u8 as f64, x, y])
        }
        PathSegment::ClosePath { abs } => (b'z', abs, vec![]),
    }
}

/// Equality of plain (non-link) values, numbers to within `tol`.
pub fn same_value(a: &AttributeValue, b: &AttributeValue, tol: f64) -> bool {
    use AttributeValue::*;
    let nums = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(*p, *q, tol));
    match (a, b) {
        (None, None) | (Inherit, Inherit) | (CurrentColor, CurrentColor) => true,
        (String(x), String(y)) => x == y,
        (Color(x), Color(y)) => x.red == y.red && x.green == y.green && x.blue == y.blue,
        (AspectRatio(x), AspectRatio(y)) => x.defer == y.defer && x.align == y.align && x.slice == y.slice,
        (Number(x), Number(y)) => close(*x, *y, tol),
        (Length(x), Length(y)) => x.unit == y.unit && close(x.num, y.num, tol),
        (Angle(x), Angle(y)) => x.unit == y.unit && close(x.num, y.num, tol),
        (LengthList(x), LengthList(y)) => {
            x.0.len() == y.0.len() && x.0.iter().zip(&y.0).all(|(p, q)| p.unit == q.unit && close(p.num, q.num, tol))
        }
        (NumberList(x), NumberList(y)) => nums(&x.0, &y.0),
        (Points(x), Points(y)) => x.0.len() == y.0.len() && x.0.iter().zip(&y.0).all(|(p, q)| close(p.0, q.0, tol) && close(p.1, q.1, tol)),
        (Path(x), Path(y)) => {
            x.0.len() == y.0.len()
                && x.0.iter().zip(&y.0).all(|(p, q)| {
                    let (p, q) = (seg_parts(p), seg_parts(q));
                    p.0 == q.0 && p.1 == q.1 && nums(&p.2, &q.2)
                })
        }
        (Transform(x), Transform(y)) => {
            // Products of rotations carry rounding errors that grow with the coordinates.
            let m = [x.a, x.b, x.c, x.d, x.e, x.f].iter().fold(1.0f64, |m, v| m.max(v.abs()));
            let t = tol.max(1e-12) * m * 10.0;
            (x.a - y.a).abs() <= t && (x.b - y.b).abs() <= t && (x.c - y.c).abs() <= t && (x.d - y.d).abs() <= t && (x.e - y.e).abs() <= t && (x.f - y.f).abs() <= t
        }
        (ViewBox(x), ViewBox(y)) => nums(&[x.x, x.y, x.w, x.h], &[y.x, y.y, y.w, y.h]),
        _ => false,
    }
}
