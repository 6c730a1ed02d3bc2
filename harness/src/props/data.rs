//! Name and category tables, written from the SVG 1.1 definitions; they do not come from the crate.

/// All SVG 1.1 element names.
pub const ELEMENTS: &[&str] = &[
    "a", "altGlyph", "altGlyphDef", "altGlyphItem", "animate", "animateColor", "animateMotion",
    "animateTransform", "circle", "clipPath", "color-profile", "cursor", "defs", "desc", "ellipse", "feBlend",
    "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting",
    "feDisplacementMap", "feDistantLight", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR",
    "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight",
    "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter", "font", "font-face",
    "font-face-format", "font-face-name", "font-face-src", "font-face-uri", "foreignObject", "g", "glyph",
    "glyphRef", "hkern", "image", "line", "linearGradient", "marker", "mask", "metadata", "missing-glyph",
    "mpath", "path", "pattern", "polygon", "polyline", "radialGradient", "rect", "script", "set", "stop",
    "style", "svg", "switch", "symbol", "text", "textPath", "title", "tref", "tspan", "use", "view", "vkern",
];

/// All supported attribute names, in the fixed order used by the writer (see ATTR_ORDER for exceptions).
pub const ATTRIBUTES: &[&str] = &[
    "accent-height", "accumulate", "actuate", "additive", "alignment-baseline", "alphabetic", "amplitude",
    "arabic-form", "arcrole", "ascent", "attributeName", "attributeType", "azimuth", "base", "baseFrequency",
    "baseline-shift", "baseProfile", "bbox", "begin", "bias", "by", "calcMode", "cap-height", "class", "clip",
    "clip-path", "clip-rule", "clipPathUnits", "color", "color-interpolation", "color-interpolation-filters",
    "color-profile", "color-rendering", "contentScriptType", "contentStyleType", "cursor", "cx", "cy", "d",
    "descent", "diffuseConstant", "direction", "display", "divisor", "dominant-baseline", "dur", "dx", "dy",
    "edgeMode", "elevation", "enable-background", "encoding", "end", "exponent", "externalResourcesRequired",
    "fill", "fill-opacity", "fill-rule", "filter", "filterRes", "filterUnits", "flood-color", "flood-opacity",
    "font", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant",
    "font-weight", "format", "from", "fx", "fy", "g1", "g2", "glyph-name", "glyph-orientation-horizontal",
    "glyph-orientation-vertical", "glyphRef", "gradientTransform", "gradientUnits", "hanging", "height",
    "horiz-adv-x", "horiz-origin-x", "horiz-origin-y", "href", "id", "ideographic", "image-rendering", "in",
    "in2", "intercept", "k", "k1", "k2", "k3", "k4", "kernelMatrix", "kernelUnitLength", "kerning",
    "keyPoints", "keySplines", "keyTimes", "lang", "lengthAdjust", "letter-spacing", "lighting-color",
    "limitingConeAngle", "line-height", "local", "marker", "marker-end", "marker-mid", "marker-start",
    "markerHeight", "markerUnits", "markerWidth", "mask", "maskContentUnits", "maskUnits", "mathematical",
    "max", "media", "method", "min", "mode", "name", "numOctaves", "offset", "onabort", "onactivate",
    "onbegin", "onclick", "onend", "onerror", "onfocusin", "onfocusout", "onload", "onmousedown",
    "onmousemove", "onmouseout", "onmouseover", "onmouseup", "onrepeat", "onresize", "onscroll", "onunload",
    "onzoom", "opacity", "operator", "order", "orient", "orientation", "origin", "overflow",
    "overline-position", "overline-thickness", "panose-1", "path", "pathLength", "patternContentUnits",
    "patternTransform", "patternUnits", "pointer-events", "points", "pointsAtX", "pointsAtY", "pointsAtZ",
    "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "r", "radius", "refX", "refY",
    "rendering-intent", "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "restart",
    "result", "role", "rotate", "rx", "ry", "scale", "seed", "shape-rendering", "show", "slope", "space",
    "spacing", "specularConstant", "specularExponent", "spreadMethod", "standalone", "startOffset",
    "stdDeviation", "stemh", "stemv", "stitchTiles", "stop-color", "stop-opacity", "strikethrough-position",
    "strikethrough-thickness", "string", "stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap",
    "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width", "style", "surfaceScale",
    "systemLanguage", "tableValues", "target", "targetX", "targetY", "text-anchor", "text-decoration",
    "text-rendering", "textLength", "title", "to", "transform", "type", "u1", "u2", "underline-position",
    "underline-thickness", "unicode", "unicode-bidi", "unicode-range", "units-per-em", "v-alphabetic",
    "v-hanging", "v-ideographic", "v-mathematical", "values", "version", "vert-adv-y", "vert-origin-x",
    "vert-origin-y", "viewBox", "viewTarget", "visibility", "width", "widths", "word-spacing", "writing-mode",
    "x", "x-height", "x1", "x2", "xChannelSelector", "xlink", "xmlns", "y", "y1", "y2", "yChannelSelector",
    "z", "zoomAndPan",
];

/// 
pub const REFERENCED: &[&str] = &[
    "altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern",
    "radialGradient", "symbol",
];

/// 
pub const BASIC_SHAPE: &[&str] = &[
    "rect", "circle", "ellipse", "line", "polyline", "polygon",
];

/// 
pub const SHAPE: &[&str] = &[
    "path", "rect", "circle", "ellipse", "line", "polyline", "polygon",
];

/// 
pub const CONTAINER: &[&str] = &[
    "a", "defs", "glyph", "g", "marker", "mask", "missing-glyph", "pattern", "svg", "switch", "symbol",
];

/// 
pub const TEXT_CONTENT: &[&str] = &[
    "altGlyph", "textPath", "text", "tref", "tspan",
];

/// 
pub const TEXT_CONTENT_CHILD: &[&str] = &[
    "altGlyph", "textPath", "tref", "tspan",
];

/// 
pub const GRAPHIC: &[&str] = &[
    "circle", "ellipse", "image", "line", "path", "polygon", "polyline", "rect", "text", "use",
];

/// 
pub const GRADIENT: &[&str] = &[
    "linearGradient", "radialGradient",
];

/// 
pub const PAINT_SERVER: &[&str] = &[
    "linearGradient", "radialGradient", "pattern",
];

/// 
pub const FILTER_PRIMITIVE: &[&str] = &[
    "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting",
    "feDisplacementMap", "feFlood", "feGaussianBlur", "feImage", "feMerge", "feMorphology", "feOffset",
    "feSpecularLighting", "feTile", "feTurbulence",
];

/// 
pub const PRESENTATION: &[&str] = &[
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "clip-rule", "color", "color-interpolation",
    "color-interpolation-filters", "color-profile", "color-rendering", "cursor", "direction", "display",
    "dominant-baseline", "enable-background", "fill", "fill-opacity", "fill-rule", "filter", "flood-color",
    "flood-opacity", "font", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style",
    "font-variant", "font-weight", "glyph-orientation-horizontal", "glyph-orientation-vertical",
    "image-rendering", "kerning", "letter-spacing", "lighting-color", "marker", "marker-end", "marker-mid",
    "marker-start", "mask", "opacity", "overflow", "pointer-events", "shape-rendering", "stop-color",
    "stop-opacity", "stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin",
    "stroke-miterlimit", "stroke-opacity", "stroke-width", "text-anchor", "text-decoration", "text-rendering",
    "unicode-bidi", "visibility", "word-spacing", "writing-mode",
];

/// Presentation properties that are not inherited (`visibility` too, as documented).
pub const NON_INHERITED: &[&str] = &[
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "display", "dominant-baseline",
    "enable-background", "filter", "flood-color", "flood-opacity", "lighting-color", "mask", "opacity",
    "overflow", "stop-color", "stop-opacity", "text-decoration", "unicode-bidi", "visibility",
];

/// 
pub const ANIMATION_EVENT: &[&str] = &[
    "onbegin", "onend", "onload", "onrepeat",
];

/// 
pub const GRAPHICAL_EVENT: &[&str] = &[
    "onactivate", "onclick", "onfocusin", "onfocusout", "onload", "onmousedown", "onmousemove", "onmouseout",
    "onmouseover", "onmouseup",
];

/// 
pub const DOCUMENT_EVENT: &[&str] = &[
    "onabort", "onerror", "onresize", "onscroll", "onunload", "onzoom",
];

/// 
pub const CONDITIONAL: &[&str] = &[
    "requiredExtensions", "requiredFeatures", "systemLanguage",
];

/// 
pub const CORE: &[&str] = &[
    "base", "lang", "space",
];

/// 
pub const FILL: &[&str] = &[
    "fill", "fill-opacity", "fill-rule",
];

/// 
pub const STROKE: &[&str] = &[
    "stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin",
    "stroke-miterlimit", "stroke-opacity", "stroke-width",
];

/// Expected defaults: name, kind, text.
pub const DEFAULTS: &[(&str, &str)] = &[
    ("alignment-baseline", "s:auto"),
    ("baseline-shift", "s:baseline"),
    ("clip", "s:auto"),
    ("clip-path", "none"),
    ("clip-rule", "s:nonzero"),
    ("color-interpolation", "s:sRGB"),
    ("color-interpolation-filters", "s:linearRGB"),
    ("color-profile", "s:auto"),
    ("color-rendering", "s:auto"),
    ("cursor", "s:auto"),
    ("direction", "s:ltr"),
    ("display", "s:inline"),
    ("dominant-baseline", "s:auto"),
    ("enable-background", "s:accumulate"),
    ("fill", "c:#000000"),
    ("fill-opacity", "n:1"),
    ("fill-rule", "s:nonzero"),
    ("filter", "none"),
    ("flood-color", "c:#000000"),
    ("flood-opacity", "n:1"),
    ("font-size", "s:medium"),
    ("font-size-adjust", "none"),
    ("font-stretch", "s:normal"),
    ("font-style", "s:normal"),
    ("font-variant", "s:normal"),
    ("font-weight", "s:normal"),
    ("glyph-orientation-horizontal", "s:0deg"),
    ("glyph-orientation-vertical", "s:auto"),
    ("image-rendering", "s:auto"),
    ("kerning", "s:auto"),
    ("letter-spacing", "s:normal"),
    ("lighting-color", "c:#ffffff"),
    ("marker", "none"),
    ("marker-end", "none"),
    ("marker-mid", "none"),
    ("marker-start", "none"),
    ("mask", "none"),
    ("opacity", "n:1"),
    ("shape-rendering", "s:auto"),
    ("stop-color", "c:#000000"),
    ("stop-opacity", "n:1"),
    ("stroke", "none"),
    ("stroke-dasharray", "none"),
    ("stroke-dashoffset", "l:0"),
    ("stroke-linecap", "s:butt"),
    ("stroke-linejoin", "s:miter"),
    ("stroke-miterlimit", "l:4"),
    ("stroke-opacity", "n:1"),
    ("stroke-width", "l:1"),
    ("text-anchor", "s:start"),
    ("text-decoration", "none"),
    ("text-rendering", "s:auto"),
    ("unicode-bidi", "s:normal"),
    ("visibility", "s:visible"),
    ("word-spacing", "s:normal"),
    ("writing-mode", "s:lr-tb"),
];
