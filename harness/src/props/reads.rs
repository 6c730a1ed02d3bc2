//! C22: reading has no effect and may overlap with other reading.
//! C23: documents do not affect each other, and parsing depends on the text only.

use super::machine::*;
use super::roundtrip::gen_opts;
use super::vals::wild;
use super::xml::*;
use crate::engine::*;
use crate::ensure;
use std::cell::Ref;
use svgdom::*;

enum Held<'a> {
    A(Ref<'a, Attributes>),
    S(Ref<'a, String>),
    T(Ref<'a, TagName>),
    U(Ref<'a, Vec<Node>>),
}

const KINDS: usize = 16;

fn cap<I: Iterator<Item = String>>(it: I) -> String {
    it.take(400).collect::<Vec<_>>().join(" ")
}

/// The answer to a question about a node or the document, as text.
fn ask(m: &M, i: usize, kind: usize, opt: &WriteOptions) -> String {
    let n = &m.nodes[i];
    let at = |x: Option<Node>| x.map(|x| m.find(&x).to_string()).unwrap_or_else(|| "-".to_string());
    match kind {
        0 => format!("{:?} {} {} {} {} {} {}", n.node_type(), n.is_root(), n.is_element(), n.is_comment(), n.is_text(), n.is_detached(), n.has_parent()),
        1 => format!("{:?} {:?} {}", *n.id(), *n.text(), n.has_id()),
        2 => format!("{:?} {:?} {} {} {}", *n.tag_name(), n.tag_id(), n.is_svg_element(), n.has_tag_name("g"), n.has_tag_name(ElementId::G)),
        3 => format!("{} {:?} {} {}", *n.attributes(), *n.attributes(), n.attributes().len(), n.attributes().is_empty()),
        4 => cap(NAMES.iter().map(|k| {
            let q = k.r();
            let a = n.attributes();
            format!("{} {} {:?} {:?}", n.has_attribute(q), a.contains(q), a.get(q).map(|a| a.to_string()), a.get_value(q).map(|v| v.to_string()))
        })),
        5 => format!("{} {} {}", n.is_used(), n.uses_count(), cap(n.linked_nodes().iter().map(|u| m.find(u).to_string()))),
        6 => format!("{} {} {} {} {} {} {}", at(n.parent()), at(n.first_child()), at(n.last_child()), at(n.previous_sibling()), at(n.next_sibling()), m.find(&n.root()), n.has_children()),
        7 => cap(n.children().map(|x| m.find(&x).to_string())) + "|" + &cap(n.children().rev().map(|x| m.find(&x).to_string())) + "|" + &cap(n.children().svg().map(|(id, x)| format!("{:?}{}", id, m.find(&x)))),
        8 => cap(n.descendants().map(|x| m.find(&x).to_string())) + "|" + &cap(n.descendants().svg().map(|(id, x)| format!("{:?}{}", id, m.find(&x)))),
        9 => {
            let f = |e: NodeEdge<NodeData>| match e {
                NodeEdge::Start(x) => format!("+{}", m.find(&x)),
                NodeEdge::End(x) => format!("-{}", m.find(&x)),
            };
            cap(n.traverse().map(&f)) + "|" + &cap(n.traverse().rev().map(&f))
        }
        10 => cap(n.ancestors().map(|x| m.find(&x).to_string())) + "|" + &cap(n.preceding_siblings().map(|x| m.find(&x).to_string())) + "|" + &cap(n.following_siblings().map(|x| m.find(&x).to_string())),
        11 => n.to_string(),
        12 => format!("{:?}", n),
        13 => format!(
            "{} {} {} {} {} {} {} {} {} {}",
            n.is_referenced(), n.is_basic_shape(), n.is_shape(), n.is_container(), n.is_text_content(), n.is_text_content_child(), n.is_graphic(), n.is_gradient(), n.is_paint_server(), n.is_filter_primitive()
        ),
        14 => cap(n.attributes().iter().map(|a| {
            format!("{} {:?} {} {} {} {} {}", a, a.id(), a.is_svg(), a.is_presentation(), a.is_inheritable(), a.value.is_link_container(), a.value)
        })),
        _ => format!("{} {} {} {}", m.find(&m.doc.root()), at(m.doc.svg_element()), m.doc, m.doc.to_string_with_opt(opt)),
    }
}

/// Runs a history to its end.
pub fn built(h: &History) -> Option<M> {
    let mut m = match no_panic(|| M::start(h)) {
        Ok(Some(m)) => m,
        _ => return None,
    };
    for op in &h.ops {
        let mut st = m.observe();
        if st.iter().any(|n| n.kids.contains(&LOST) || n.parent == Some(LOST)) {
            return None;
        }
        if no_panic(|| m.apply(op, &mut st)).is_err() {
            return None;
        }
    }
    let st = m.observe();
    if st.iter().any(|n| n.kids.contains(&LOST) || n.parent == Some(LOST)) {
        return None;
    }
    Some(m)
}

pub fn c22_reading(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = *s.pick(&[Focus::All, Focus::Links, Focus::Data]);
    let h = gen_history(s, f);
    ctx.set_input(&show_history(&h));
    let m = match no_panic(|| built(&h)) {
        Ok(Some(m)) => m,
        _ => {
            ctx.label("could not be built");
            return Ok(());
        }
    };
    let opt = gen_opts(s);
    let live: Vec<usize> = {
        let st = m.observe();
        (0..m.nodes.len()).filter(|i| !st[*i].gone).collect()
    };
    let before = describe(&m.observe());
    let hold_all = s.chance(1, 3);
    let count = 20 + s.idx(60);
    let mut asked: Vec<(usize, usize)> = Vec::new();
    for _ in 0..count {
        asked.push((*s.pick(&live), s.idx(KINDS)));
    }
    let mut first = Vec::new();
    // A text outside of the root element cannot be written.
    let writable = no_panic(|| m.doc.to_string()).is_ok();
    if !writable {
        asked.retain(|x| x.1 < KINDS - 1);
        ctx.label("not writable");
    }
    for (i, k) in &asked {
        match no_panic(|| ask(&m, *i, *k, &opt)) {
            Ok(r) => first.push(r),
            Err(_) => {
                ctx.label("ended by a panic of another call");
                return Ok(());
            }
        }
    }
    let after = describe(&m.observe());
    ensure!(before == after, "changed", "reading changed the document\nbefore:\n{}after:\n{}", before, after);
    {
        // The same questions while the answers to others are still in use.
        let mut held = Vec::new();
        for i in &live {
            let n = &m.nodes[*i];
            if hold_all || s.chance(1, 3) {
                match s.idx(5) {
                    0 => held.push(Held::A(n.attributes())),
                    1 => held.push(Held::S(n.id())),
                    2 => held.push(Held::S(n.text())),
                    3 => held.push(Held::T(n.tag_name())),
                    _ => held.push(Held::U(n.linked_nodes())),
                }
            }
        }
        let kids: Vec<_> = live.iter().take(6).map(|i| (*i, m.nodes[*i].descendants())).collect();
        for (k, (i, q)) in asked.iter().enumerate().rev() {
            match no_panic(|| ask(&m, *i, *q, &opt)) {
                Ok(r) => ensure!(r == first[k], "not repeatable", "question {} about node {}: first {:?}, then {:?}", q, i, first[k], r),
                Err(e) => return fail("panic while reading", format!("question {} about node {} panics while results of other queries are held: {}", q, i, e)),
            }
        }
        // Several iterations side by side.
        let single: Vec<Vec<usize>> = kids.iter().map(|(i, _)| m.nodes[*i].descendants().take(400).map(|x| m.find(&x)).collect()).collect();
        let mut its: Vec<_> = kids.into_iter().map(|x| x.1).collect();
        let mut got: Vec<Vec<usize>> = vec![Vec::new(); its.len()];
        let mut left = 400 * its.len();
        while left > 0 {
            let mut any = false;
            for (k, it) in its.iter_mut().enumerate() {
                left -= 1;
                if got[k].len() < 400 {
                    if let Some(x) = it.next() {
                        any = true;
                        got[k].push(m.find(&x));
                    }
                }
            }
            if !any {
                break;
            }
        }
        ensure!(got == single, "iterators", "iterations side by side give {:?}, one by one {:?}", got, single);
        let mut n = 0;
        for h in &held {
            n += match h {
                Held::A(a) => a.len(),
                Held::S(x) => x.len(),
                Held::T(t) => t.to_string().len(),
                Held::U(u) => u.len(),
            };
        }
        std::hint::black_box(n);
        if held.len() >= 3 {
            ctx.label("three or more results held");
        }
    }
    let after = describe(&m.observe());
    ensure!(before == after, "changed", "reading changed the document\nbefore:\n{}after:\n{}", before, after);
    ctx.nontrivial = m.nodes.len() >= 4;
    Ok(())
}

// ---- C23

fn some_text(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 2, 2, 2, 1]) {
        0 => {
            let c = super::roundtrip::full_cfg(s);
            let d = gen_doc(s, &c);
            serialise(&d, s, false)
        }
        1 => super::parse::links_file(s),
        2 => {
            let d = super::parse::cascade_doc(s);
            serialise(&d, s, false)
        }
        3 => {
            let space = s.chance(1, 2);
            let d = super::parse::text_doc(s, space);
            serialise(&d, s, false)
        }
        4 => super::parse_total::damaged_text(s),
        _ => wild(s),
    }
}

/// The whole state of a document and its written form.
fn full(m: &M) -> String {
    let w = no_panic(|| m.doc.to_string()).unwrap_or_else(|_| "cannot be written".to_string());
    format!("{}{}", describe(&m.observe()), w)
}

/// Everything that can be read from the result of parsing, as text.
fn outcome(text: &str) -> String {
    match no_panic(|| match Document::from_str(text) {
        Ok(doc) => {
            let m = M::around(doc);
            full(&m)
        }
        Err(e) => format!("error: {}", e),
    }) {
        Ok(s) => s,
        Err(e) => format!("panic: {}", e),
    }
}

fn cut(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let show = |t: &str| {
        let bytes = t.as_bytes();
        let lo = i.saturating_sub(120);
        let hi = (i + 200).min(bytes.len());
        String::from_utf8_lossy(&bytes[lo.min(hi)..hi]).to_string()
    };
    format!("...{}\nand\n...{}", show(a), show(b))
}

/// The result of parsing does not depend on what was parsed or done before.
pub fn c23_parsing(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = some_text(s);
    let fresh = s.chance(1, 4);
    let first = if fresh {
        // A new thread has none of the state that this one may have gathered.
        let t = a.clone();
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || outcome(&t));
        match r.map(|h| h.join()) {
            Ok(Ok(x)) => x,
            _ => return Ok(()),
        }
    } else {
        outcome(&a)
    };
    // Something else in between.
    let n = 1 + s.count(1, 4);
    let mut others = Vec::new();
    let mut docs = Vec::new();
    for _ in 0..n {
        // Often close to the first text, so that the same names, ids and values occur.
        let t = if s.chance(1, 3) { vary(s, &a) } else { some_text(s) };
        if let Ok(d) = no_panic(|| Document::from_str(&t)) {
            if let Ok(d) = d {
                if s.chance(1, 2) {
                    let _ = no_panic(|| d.to_string());
                }
                if s.chance(1, 2) {
                    docs.push(d);
                }
            }
        }
        others.push(t);
    }
    ctx.set_input(&format!("{}\n-- and then --\n{}", a, others.join("\n--\n")));
    ctx.nontrivial = a.len() > 60;
    if first.starts_with("error") {
        ctx.label("rejected file");
    }
    let again = outcome(&a);
    ensure!(first == again, "other result", "the same text gives another result after other documents were parsed: {}", cut(&first, &again));
    drop(docs);
    let again = outcome(&a);
    ensure!(first == again, "other result", "the same text gives another result after other documents were dropped: {}", cut(&first, &again));
    Ok(())
}

/// The same text with some small pieces changed.
fn vary(s: &mut Src, a: &str) -> String {
    let mut v: Vec<char> = a.chars().collect();
    for _ in 0..1 + s.idx(4) {
        if v.is_empty() {
            break;
        }
        let i = s.idx(v.len());
        match v[i] {
            '0'..='9' => v[i] = *s.pick(&['0', '1', '7']),
            'a'..='z' => v[i] = *s.pick(&['a', 'b', 'x']),
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// Two documents edited in turns end up as they would alone.
pub fn c23_editing(s: &mut Src, ctx: &mut Ctx) -> R {
    let (fa, fb) = (*s.pick(&[Focus::All, Focus::Links, Focus::Data]), *s.pick(&[Focus::All, Focus::Remove]));
    let ha = gen_history(s, fa);
    let hb = gen_history(s, fb);
    let drop_at = if s.chance(1, 3) { Some(s.idx(ha.ops.len() + 1)) } else { None };
    ctx.set_input(&format!("{}-- second document, dropped at {:?}\n{}", show_history(&ha), drop_at, show_history(&hb)));
    ctx.nontrivial = ha.ops.len() >= 5 && hb.ops.len() >= 5;
    let alone = match no_panic(|| built(&ha).map(|m| full(&m))) {
        Ok(Some(x)) => x,
        _ => {
            ctx.label("could not be built");
            return Ok(());
        }
    };
    let together = no_panic(|| -> Option<String> {
        let mut a = M::start(&ha)?;
        let mut b = M::start(&hb);
        let mut k = 0;
        for (i, op) in ha.ops.iter().enumerate() {
            if drop_at == Some(i) {
                b = None;
            }
            let mut st = a.observe();
            a.apply(op, &mut st);
            let mut broken = false;
            if let Some(ref mut b) = b {
                let n = s.idx(3);
                for _ in 0..n {
                    if k < hb.ops.len() {
                        let mut st = b.observe();
                        if no_panic(|| b.apply(&hb.ops[k], &mut st)).is_err() {
                            broken = true;
                            break;
                        }
                        k += 1;
                    }
                }
            }
            if broken {
                b = None;
            }
        }
        Some(full(&a))
    });
    match together {
        Ok(Some(t)) => ensure!(t == alone, "other result", "a document ends up differently when another one is edited at the same time: alone and together: {}", cut(&alone, &t)),
        Ok(None) => {}
        Err(e) => return fail("panic", format!("a call panics only when another document is edited at the same time: {}", e)),
    }
    Ok(())
}
