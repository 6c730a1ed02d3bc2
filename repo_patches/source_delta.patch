From a2a33bc2392c3c3110462d932dfaee55854fd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 01/17] fix: a later declaration overrides a link set by an
 earlier one

Links were collected during parsing and applied after all other values,
so 'fill' from a 'style' attribute or a CSS rule lost to an earlier
'url(#id)' value of the same attribute.
---
 src/parser/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..6428320 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -41,6 +41,15 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    /// Forgets links that were collected for the specified attribute of the node.
+    ///
+    /// Nodes are processed one by one, so links of the current node are always at the end.
+    fn remove(&mut self, id: AttributeId, node: &Node) {
+        let start = self.list.iter().rposition(|l| l.node != *node).map_or(0, |i| i + 1);
+        let tail = self.list.split_off(start);
+        self.list.extend(tail.into_iter().filter(|l| l.attr_id != id));
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +227,11 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        // A new value overrides a link from the previous declaration.
+                        links.remove(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From 52d966aa0ab38b521f32703106837ed7d067fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:16 +0000
Subject: [PATCH 02/17] fix: an identity transform overrides a transform set by
 an earlier declaration

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6428320..5f5b5ec 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -522,6 +522,8 @@ fn _parse_svg_attribute_value<'a>(
             if !ts.is_default() {
                 AttributeValue::Transform(Transform::from_str(value)?)
             } else {
+                // An identity transform is not stored, but still overrides a previous one.
+                node.remove_attribute(aid);
                 return Ok(None);
             }
         }
-- 
2.43.0


From ed8dbaa5dd67b12ff751ab729647c6a17f3866a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 03/17] fix: expand the 'marker' shorthand in a 'style'
 attribute

It was expanded only in CSS rules, so 'style="marker:url(#m)"' produced
a 'marker' attribute, which is not a valid presentation attribute.
---
 src/parser/mod.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5f5b5ec..3710c90 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -134,8 +134,7 @@ fn process_node(
             }
 
             if let Some(attr) = xml_node.attribute_node("style") {
-                parse_style_attribute(&ro_doc, attr.value(), attr.value_range().start,
-                                      &mut e, links)?;
+                parse_style_attribute(&ro_doc, attr.value(), &mut e, links)?;
             }
 
             parent.append(e.clone());
@@ -659,18 +658,11 @@ fn parse_number(value: &str) -> Result<f64, svgtypes::Error> {
 fn parse_style_attribute(
     ro_doc: &roxmltree::Document,
     value: &str,
-    value_pos: usize,
     node: &mut Node,
     links: &mut Links,
 ) -> Result<(), ParserError> {
     for declaration in simplecss::DeclarationTokenizer::from(value) {
-        if let Some(id) = AttributeId::from_str(declaration.name) {
-            // Parse only the presentation attributes.
-            // `transform` isn't a presentation attribute, but should be parsed anyway.
-            if id.is_presentation() || id == AttributeId::Transform {
-                parse_svg_attribute_value(ro_doc, id, declaration.value, value_pos, node, links)?;
-            }
-        }
+        parse_css_attribute_value(ro_doc, declaration.name, declaration.value, node, links)?;
     }
 
     Ok(())
-- 
2.43.0


From 53ffcdf58796f1d45deb87c3bf4fe864b4c3b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 04/17] fix: do not link removed 'style' elements

A universal CSS rule with a FuncIRI also matches 'style' elements. They
are removed before the links resolving, but were still counted as users
of the linked element.
---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3710c90..28d2c90 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -669,7 +669,8 @@ fn parse_style_attribute(
 }
 
 fn resolve_links(doc: &Document, links: &mut Links) {
-    for d in &mut links.list {
+    // Skip nodes that are already removed, like `style` elements.
+    for d in links.list.iter_mut().filter(|d| !d.node.is_detached()) {
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From 1d83554cd547dd7cecc720f76a757128e7fd8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:48 +0000
Subject: [PATCH 05/17] fix: remove_node also removes links in non-SVG
 attributes

---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From 95318fd80ee69cf1163c79b965bf62c1db5c4868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 06/17] fix: do not panic when an inserted node already adjoins
 the target

The tree docs promise a panic only when nodes are borrowed by the user,
but re-appending the last child, for example, borrowed the same node twice.
---
 src/tree.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..b6a7205 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,11 +238,13 @@ impl<T> Node<T> {
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // Must be done before the borrowing, because nodes can be adjoining already.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
@@ -273,10 +275,12 @@ impl<T> Node<T> {
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // Must be done before the borrowing, because nodes can be adjoining already.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
@@ -305,10 +309,12 @@ impl<T> Node<T> {
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // Must be done before the borrowing, because nodes can be adjoining already.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
@@ -345,11 +351,13 @@ impl<T> Node<T> {
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // Must be done before the borrowing, because nodes can be adjoining already.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
-- 
2.43.0


From 1604c2eeb2ea2354ce38e125fef27fa3e50e02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 07/17] fix: Node::root() returns the root of the current tree

The root was cached in each node, but was not updated on detach and for
descendants of an inserted node, so it could be stale or even panic.
---
 src/tree.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index b6a7205..9610d35 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -94,10 +92,12 @@ impl<T> Node<T> {
     ///
     /// Panics if the node is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut root = self.clone();
+        while let Some(parent) = root.parent() {
+            root = parent;
         }
+
+        root
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -245,7 +245,6 @@ impl<T> Node<T> {
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -281,7 +280,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -315,7 +313,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -358,7 +355,6 @@ impl<T> Node<T> {
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From 7feb0dd5b8fc50e3908721157380855000f90a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 08/17] fix: escape attribute values on writing

'&' and '<' in ids, links and string values were written as is, which
produced a malformed XML or a different value on the next parsing.
Tabs and new lines were lost because of the attribute-value normalization.
---
 src/writer.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6d8f784..79ad4b8 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -197,7 +197,11 @@ fn write_attributes(
     }
 
     if node.has_id() {
-        xml.write_attribute("id", &node.id())
+        xml.write_attribute_raw("id", |buf| {
+            let start = buf.len();
+            buf.extend_from_slice(node.id().as_bytes());
+            escape_attribute_value(start, buf);
+        });
     }
 
     let attrs = node.attributes();
@@ -224,14 +228,45 @@ fn write_attributes(
             }
 
         } else {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            write_attribute_value(name, &attr.value, opt, xml);
         }
     }
 
     // write non-SVG attributes
     for attr in attrs.iter() {
         if let QName::Name(ref name) = attr.name {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            write_attribute_value(name, &attr.value, opt, xml);
+        }
+    }
+}
+
+fn write_attribute_value(
+    name: &str,
+    value: &AttributeValue,
+    opt: &WriteOptions,
+    xml: &mut XmlWriter,
+) {
+    xml.write_attribute_raw(name, |buf| {
+        let start = buf.len();
+        value.write_buf_opt(&opt.values, buf);
+        escape_attribute_value(start, buf);
+    });
+}
+
+/// Escapes characters that cannot be stored in an attribute value as is.
+///
+/// Quotes will be escaped by `xmlwriter`.
+fn escape_attribute_value(start: usize, buf: &mut Vec<u8>) {
+    let value = buf.split_off(start);
+    for c in value {
+        match c {
+            b'&' => buf.extend_from_slice(b"&amp;"),
+            b'<' => buf.extend_from_slice(b"&lt;"),
+            // Otherwise they will be replaced with a space by an XML parser.
+            b'\t' => buf.extend_from_slice(b"&#x9;"),
+            b'\n' => buf.extend_from_slice(b"&#xa;"),
+            b'\r' => buf.extend_from_slice(b"&#xd;"),
+            _ => buf.push(c),
         }
     }
 }
-- 
2.43.0


From 2654421726089a6fcb60ebe786727a8cf4c07c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:23 +0000
Subject: [PATCH 09/17] fix: a 'unicode' attribute that starts with '&#' is
 escaped too

It was written as is, so unicode='&amp;#x66;' became unicode='f' after a
resave and unicode='&amp;#' produced a malformed XML.
---
 src/writer.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 79ad4b8..5b3c343 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -274,14 +274,12 @@ fn escape_attribute_value(start: usize, buf: &mut Vec<u8>) {
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-    if unicode.starts_with("&#") {
-        out.extend_from_slice(unicode.as_bytes());
-    } else {
-        for c in unicode.chars() {
-            out.extend_from_slice(b"&#x");
-            write!(out, "{:x}", c as u32).unwrap();
-            out.push(b';');
-        }
+    // Character references are already resolved by the parser,
+    // so `&#` is just a text here.
+    for c in unicode.chars() {
+        out.extend_from_slice(b"&#x");
+        write!(out, "{:x}", c as u32).unwrap();
+        out.push(b';');
     }
 }
 
-- 
2.43.0


From 755b4baf3998e500a5b0be123e2372ae61c9879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:39 +0000
Subject: [PATCH 10/17] fix: escape text that can be mistaken for a reference
 or a CDATA end

'&amp;lt;' was written as '&lt;' and '&amp;zz;' as an unknown reference, so
the text was changed or the file was rejected on the next parsing.
---
 src/writer.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5b3c343..e2c41d9 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,7 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&node.text());
+                        xml.write_text(&escape_text(&node.text()));
                     }
                 }
             }
@@ -173,6 +173,26 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
     xml.end_document()
 }
 
+/// Escapes a text that can be mistaken for a markup.
+///
+/// - `&` will be escaped only when it can be treated as a start of a reference.
+/// - `>` will be escaped only as a part of `]]>`.
+/// - `<` will be escaped by `xmlwriter`.
+fn escape_text(text: &str) -> String {
+    let last_semicolon = text.rfind(';').unwrap_or(0);
+
+    let mut out = String::with_capacity(text.len());
+    for (i, c) in text.char_indices() {
+        match c {
+            '&' if i < last_semicolon => out.push_str("&amp;"),
+            '>' if text[..i].ends_with("]]") => out.push_str("&gt;"),
+            _ => out.push(c),
+        }
+    }
+
+    out
+}
+
 /// Writes attributes.
 ///
 /// Order:
-- 
2.43.0


From 266dd88febde43cc1b754478468a1df670f96727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:57 +0000
Subject: [PATCH 11/17] fix: keep whitespaces as is after a nested 'text'
 element

Closing a nested 'text' element re-enabled the indentation inside the
outer one, which adds whitespaces to its content.
---
 src/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index e2c41d9..4ed2e67 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -164,7 +164,9 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                 }
 
                 if node.has_tag_name(ElementId::Text) {
-                    xml.set_preserve_whitespaces(false);
+                    let is_nested = node.ancestors().skip(1)
+                        .any(|n| n.has_tag_name(ElementId::Text));
+                    xml.set_preserve_whitespaces(is_nested);
                 }
             }
         }
-- 
2.43.0


From d321ae9a442010875539e7e2d87d8b06459768be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:51 +0000
Subject: [PATCH 12/17] fix: whitespace processing of text elements with
 several text nodes

- a text element that starts with a child element or a comment was not
  processed as a whole, so it kept new lines and trailing spaces
- a trailing space was kept when both a leading and a trailing spaces are
  in two adjoining nodes
- a space was removed from nodes with xml:space='preserve'
- xml:space of an intermediate element was not inherited
- a text before a 'text' element was treated as a part of it
---
 src/parser/text.rs | 262 ++++++++++++++-------------------------------
 1 file changed, 81 insertions(+), 181 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..591a418 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementId,
     Node,
 };
 
@@ -35,225 +36,124 @@ enum XmlSpace {
 // - tabs and newlines removing/replacing
 // - spaces trimming
 pub fn prepare_text(doc: &mut Document) {
-    // Remember nodes that have 'xml:space' changed.
-    let mut nodes = Vec::new();
-
-    _prepare_text(&doc.root(), &mut nodes, XmlSpace::Default);
-
-    // Remove temporary 'xml:space' attributes created during the text processing.
-    for mut node in nodes {
-        node.remove_attribute(AttributeId::Space);
-    }
+    _prepare_text(&doc.root());
 
     let root = doc.root().clone();
     doc.drain(root, |n| n.is_text() && n.text().is_empty());
 }
 
-fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace) {
-    for mut node in parent.children().filter(|n| n.is_element()) {
-        let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
-
-        if let Some(child) = node.first_child() {
-            if child.is_text() {
-                prepare_text_children(&node, nodes, xmlspace);
-                continue;
-            }
+fn _prepare_text(parent: &Node) {
+    for node in parent.children().filter(|n| n.is_element()) {
+        if node.has_tag_name(ElementId::Text) || node.children().any(|n| n.is_text()) {
+            prepare_text_children(&node);
+        } else {
+            _prepare_text(&node);
         }
-
-        _prepare_text(&node, nodes, xmlspace);
     }
 }
 
-fn get_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, default: XmlSpace) -> XmlSpace {
-    {
-        let attrs = node.attributes();
-        let v = attrs.get_value(AttributeId::Space);
-        if let Some(&AttributeValue::String(ref s)) = v {
+// Returns `xml:space` of the text node, resolved using its ancestors.
+fn resolve_xmlspace(node: &Node) -> XmlSpace {
+    for n in node.ancestors() {
+        if let Some(&AttributeValue::String(ref s)) = n.attributes().get_value(AttributeId::Space) {
             return if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };
         }
     }
 
-    // 'xml:space' is not set - set it manually.
-    set_xmlspace(node, nodes, default);
-
-    default
+    XmlSpace::Default
 }
 
-fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
-    let xmlspace_str = match xmlspace {
-        XmlSpace::Default => "default",
-        XmlSpace::Preserve => "preserve",
-    };
-
-    node.set_attribute((AttributeId::Space, xmlspace_str));
-
-    nodes.push(node.clone());
-}
+fn prepare_text_children(parent: &Node) {
+    let mut nodes = Vec::new();
+    collect_text(parent, 0, parent.has_tag_name(ElementId::Text), &mut nodes);
 
-fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
-    // Trim all descendant text nodes.
-    for mut child in parent.descendants() {
-        if child.is_text() {
-            let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
-            let new_text = {
-                let text = child.text();
-                trim(text.as_ref(), child_xmlspace)
-            };
-            child.set_text(&new_text);
-        }
+    // Trim all text nodes.
+    for t in &mut nodes {
+        let new_text = trim(t.node.text().as_ref(), t.xmlspace);
+        t.node.set_text(&new_text);
     }
 
-    let mut nodes = Vec::new();
-    collect_text(parent, 0, &mut nodes);
-
+    // We manage all text nodes as a single text node
+    // and trying to remove duplicated spaces across nodes.
+    //
+    // For example    '<text>Text <tspan> text </tspan> text</text>'
+    // is the same is '<text>Text <tspan>text</tspan> text</text>'
+    //
     // `trim` method has already collapsed all spaces into a single one,
     // so we have to check only for one leading or trailing space.
 
-    if nodes.len() == 1 {
-        // Process element with a single text node child.
-
-        let mut node = nodes[0].0.clone();
-
-        if xmlspace == XmlSpace::Default {
-            let mut text = node.text_mut();
-
-            match text.len() {
-                0 => {} // An empty string. Do nothing.
-                1 => {
-                    // If string has only one character and it's a space - clear this string.
-                    if text.as_bytes()[0] == b' ' {
-                        text.clear();
-                    }
-                }
-                _ => {
-                    // 'text' has at least 2 bytes, so indexing is safe.
-                    let c1 = text.as_bytes()[0];
-                    let c2 = text.as_bytes()[text.len() - 1];
-
-                    if c1 == b' ' {
-                        text.remove_first();
-                    }
-
-                    if c2 == b' ' {
-                        text.remove_last();
-                    }
-                }
-            }
-        } else {
-            // Do nothing when xml:space=preserve.
+    // Remove leading spaces.
+    for t in &mut nodes {
+        if t.xmlspace == XmlSpace::Default && t.node.text().starts_with(' ') {
+            t.node.text_mut().remove_first();
         }
-    } else if nodes.len() > 1 {
-        // Process element with many text node children.
-
-        // We manage all text nodes as a single text node
-        // and trying to remove duplicated spaces across nodes.
-        //
-        // For example    '<text>Text <tspan> text </tspan> text</text>'
-        // is the same is '<text>Text <tspan>text</tspan> text</text>'
 
-        let mut i = 0;
-        let len = nodes.len() - 1;
-        let mut last_non_empty: Option<Node> = None;
-        while i < len {
-            // Process pairs.
-            let (mut node1, depth1) = nodes[i].clone();
-            let (mut node2, depth2) = nodes[i + 1].clone();
-
-            if node1.text().is_empty() {
-                if let Some(ref n) = last_non_empty {
-                    node1 = n.clone();
-                }
-            }
-
-            // Parent of the text node is always an element node and always exist,
-            // so unwrap is safe.
-            let xmlspace1 = get_xmlspace(&mut node1.parent().unwrap(), marked_nodes, xmlspace);
-            let xmlspace2 = get_xmlspace(&mut node2.parent().unwrap(), marked_nodes, xmlspace);
-
-            // >text<..>text<
-            //  1  2    3  4
-            let (c1, c2, c3, c4) = {
-                let text1 = node1.text();
-                let text2 = node2.text();
-
-                let bytes1 = text1.as_bytes();
-                let bytes2 = text2.as_bytes();
-
-                let c1 = bytes1.first().cloned();
-                let c2 = bytes1.last().cloned();
-                let c3 = bytes2.first().cloned();
-                let c4 = bytes2.last().cloned();
+        if !t.node.text().is_empty() {
+            break;
+        }
+    }
 
-                (c1, c2, c3, c4)
-            };
+    // Remove trailing spaces.
+    for t in nodes.iter_mut().rev() {
+        if t.xmlspace == XmlSpace::Default && t.node.text().ends_with(' ') {
+            t.node.text_mut().remove_last();
+        }
 
-            // NOTE: xml:space processing is mostly an undefined behavior,
-            // because everyone do this differently.
-            // We mimic Chrome behavior.
+        if !t.node.text().is_empty() {
+            break;
+        }
+    }
 
-            // Remove space from the second text node if both nodes has bound spaces.
-            // From: '<text>Text <tspan> text</tspan></text>'
-            // To:   '<text>Text <tspan>text</tspan></text>'
-            //
-            // See text-tspan-02-b.svg for details.
-            if c2 == Some(b' ') && c2 == c3 {
-                if depth1 < depth2 {
-                    if xmlspace2 == XmlSpace::Default {
-                        node2.text_mut().remove_first();
+    // NOTE: xml:space processing is mostly an undefined behavior,
+    // because everyone do this differently.
+    // We mimic Chrome behavior.
+
+    // Remove a space if both nodes in a pair has bound spaces.
+    // From: '<text>Text <tspan> text</tspan></text>'
+    // To:   '<text>Text <tspan>text</tspan></text>'
+    //
+    // See text-tspan-02-b.svg for details.
+    let mut prev: Option<TextNode> = None;
+    for mut curr in nodes {
+        if let Some(ref mut prev) = prev {
+            if prev.node.text().ends_with(' ') && curr.node.text().starts_with(' ') {
+                match (prev.xmlspace, curr.xmlspace) {
+                    (XmlSpace::Default, XmlSpace::Default) if prev.depth >= curr.depth => {
+                        prev.node.text_mut().remove_last();
                     }
-                } else {
-                    if xmlspace1 == XmlSpace::Default && xmlspace2 == XmlSpace::Default {
-                        node1.text_mut().remove_last();
-                    } else if xmlspace1 == XmlSpace::Preserve && xmlspace2 == XmlSpace::Default {
-                        node2.text_mut().remove_first();
+                    (_, XmlSpace::Default) => {
+                        curr.node.text_mut().remove_first();
                     }
+                    _ => {}
                 }
             }
+        }
 
-            let is_first = i == 0;
-            let is_last  = i == len - 1;
-
-            if     is_first
-                && c1 == Some(b' ')
-                && xmlspace1 == XmlSpace::Default
-                && !node1.text().is_empty()
-            {
-                // Remove leading space of the first text node.
-                node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
-            {
-                // Remove trailing space of the last text node.
-                // Also check that 'text2' is not empty already.
-                node2.text_mut().remove_last();
-            }
-
-            if     is_last
-                && c2 == Some(b' ')
-                && !node1.text().is_empty()
-                && node2.text().is_empty()
-                && node1.text().ends_with(' ')
-            {
-                node1.text_mut().remove_last();
-            }
-
-            if !node1.text().trim().is_empty() {
-                last_non_empty = Some(node1.clone());
-            }
-
-            i += 1;
+        if !curr.node.text().is_empty() {
+            prev = Some(curr);
         }
     }
 }
 
-fn collect_text(parent: &Node, depth: usize, nodes: &mut Vec<(Node, usize)>) {
+struct TextNode {
+    node: Node,
+    depth: usize,
+    xmlspace: XmlSpace,
+}
+
+fn collect_text(parent: &Node, depth: usize, is_inside_text: bool, nodes: &mut Vec<TextNode>) {
     for child in parent.children() {
         if child.is_text() {
-            nodes.push((child.clone(), depth));
+            nodes.push(TextNode {
+                node: child.clone(),
+                depth,
+                xmlspace: resolve_xmlspace(&child),
+            });
+        } else if child.has_tag_name(ElementId::Text) && !is_inside_text {
+            // A `text` element is independent from a text outside of it.
+            prepare_text_children(&child);
         } else if child.is_element() {
-            collect_text(&child, depth + 1, nodes);
+            collect_text(&child, depth + 1, is_inside_text, nodes);
         }
     }
 }
-- 
2.43.0


From 679feca91a6b61c1f3b8ca3ef494ad4ed44f994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:08 +0000
Subject: [PATCH 13/17] fix: an empty list of points is not stored

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 28d2c90..b1e56aa 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -226,6 +226,7 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
+                    AttributeValue::Points(ref points) if points.is_empty() => {}
                     _ => {
                         // A new value overrides a link from the previous declaration.
                         links.remove(id, node);
-- 
2.43.0


From 94a1f8a5b2e0c4726a51c5f143fd7c5daaa0cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:10 +0000
Subject: [PATCH 14/17] fix: 'k1'..'k4' are plain numbers and must not be
 limited to 0..1

---
 src/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b1e56aa..dd5ab0f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -395,9 +395,7 @@ fn _parse_svg_attribute_value<'a>(
         | AId::K2
         | AId::K3
         | AId::K4 => {
-            let n = parse_number(value)?;
-            let n = f64_bound(0.0, n, 1.0);
-            AttributeValue::Number(n)
+            AttributeValue::Number(parse_number(value)?)
         }
 
         AId::StrokeDasharray => {
-- 
2.43.0


From dbb9df6fdd73959ddfaefeaf855994d9a7681168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:33 +0000
Subject: [PATCH 15/17] fix: keep whitespaces inside 'textPath', 'altGlyph' and
 'a' of a text element

---
 src/parser/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index dd5ab0f..1889d2c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -149,16 +149,9 @@ fn process_node(
             let text = xml_node.text().unwrap();
             if text.trim().is_empty() {
                 // Whitespaces inside text elements are important.
-                if let Some(id) = parent.tag_id() {
-                    match id {
-                          ElementId::Text
-                        | ElementId::Tspan
-                        | ElementId::Tref => {
-                            let n = doc.create_node(NodeType::Text, text);
-                            parent.append(n);
-                        }
-                        _ => {}
-                    }
+                if is_text_content(parent) {
+                    let n = doc.create_node(NodeType::Text, text);
+                    parent.append(n);
                 }
             } else {
                 let n = doc.create_node(NodeType::Text, xml_node.text().unwrap());
@@ -186,6 +179,20 @@ fn process_node(
     Ok(())
 }
 
+// Checks that whitespaces inside the node are part of a text.
+fn is_text_content(node: &Node) -> bool {
+    match node.tag_id() {
+          Some(ElementId::AltGlyph)
+        | Some(ElementId::Text)
+        | Some(ElementId::TextPath)
+        | Some(ElementId::Tref)
+        | Some(ElementId::Tspan) => true,
+        // A link is transparent.
+        Some(ElementId::A) => node.ancestors().any(|n| n.has_tag_name(ElementId::Text)),
+        _ => false,
+    }
+}
+
 fn parse_svg_attribute<'a>(
     ro_doc: &roxmltree::Document,
     id: AttributeId,
-- 
2.43.0


From f54291545368494b42d958e37e854f604986e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:53 +0000
Subject: [PATCH 16/17] fix: escape '>' after a single ']' in a text

A text that starts with ']>' was written as is, but the XML parser treats it
as an end of a DTD, so the saved file was rejected.
---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 4ed2e67..a6f481c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -178,7 +178,7 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
 /// Escapes a text that can be mistaken for a markup.
 ///
 /// - `&` will be escaped only when it can be treated as a start of a reference.
-/// - `>` will be escaped only as a part of `]]>`.
+/// - `>` will be escaped only after `]`, which includes `]]>`.
 /// - `<` will be escaped by `xmlwriter`.
 fn escape_text(text: &str) -> String {
     let last_semicolon = text.rfind(';').unwrap_or(0);
@@ -187,7 +187,7 @@ fn escape_text(text: &str) -> String {
     for (i, c) in text.char_indices() {
         match c {
             '&' if i < last_semicolon => out.push_str("&amp;"),
-            '>' if text[..i].ends_with("]]") => out.push_str("&gt;"),
+            '>' if text[..i].ends_with(']') => out.push_str("&gt;"),
             _ => out.push(c),
         }
     }
-- 
2.43.0


From 24752dc6870555c0d936f840b4487c6cfad750b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:24 +0000
Subject: [PATCH 17/17] fix: read style sheets that contain XML comments

Only the first text node of a `style` element was used, so everything after an XML comment
(or the whole style sheet, if it starts with a comment) was lost.
---
 src/parser/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1889d2c..559f8b0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -61,7 +61,8 @@ pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
     let root = doc.root();
     let mut parent = root.clone();
 
-    let style_sheet = resolve_css(&ro_doc);
+    let styles = collect_styles(&ro_doc);
+    let style_sheet = resolve_css(&styles);
 
     for child in ro_doc.root().children() {
         process_node(&ro_doc, child, &style_sheet, &mut links, &mut doc, &mut parent)?;
@@ -755,8 +756,11 @@ impl simplecss::Element for XmlNode<'_, '_> {
     }
 }
 
-fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet<'a> {
-    let mut sheet = simplecss::StyleSheet::new();
+/// Collects content of all CSS `style` elements.
+///
+/// A style sheet can be separated by XML comments into multiple text nodes.
+fn collect_styles(ro_doc: &roxmltree::Document) -> Vec<String> {
+    let mut styles = Vec::new();
 
     for node in ro_doc.descendants().filter(|n| n.has_tag_name("style")) {
         match node.attribute("type") {
@@ -765,11 +769,16 @@ fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet
             None => {}
         }
 
-        let style = match node.text() {
-            Some(s) => s,
-            None => continue,
-        };
+        styles.push(node.children().filter(|n| n.is_text()).filter_map(|n| n.text()).collect());
+    }
+
+    styles
+}
+
+fn resolve_css(styles: &[String]) -> simplecss::StyleSheet {
+    let mut sheet = simplecss::StyleSheet::new();
 
+    for style in styles {
         sheet.parse_more(style);
     }
 
-- 
2.43.0

