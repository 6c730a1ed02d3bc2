//! C07: node iterators against plain recursion over child lists.

use super::data::ELEMENTS;
use crate::engine::*;
use crate::ensure;
use svgdom::*;

#[derive(Clone, Debug, PartialEq)]
enum Edge {
    Start(usize),
    End(usize),
}

struct T {
    nodes: Vec<Node>,
    parent: Vec<Option<usize>>,
    kids: Vec<Vec<usize>>,
    svg: Vec<Option<ElementId>>,
}

fn find(t: &T, n: &Node) -> usize {
    t.nodes.iter().position(|x| x == n).unwrap_or(usize::max_value())
}

fn preorder(t: &T, i: usize, out: &mut Vec<usize>) {
    out.push(i);
    for k in &t.kids[i] {
        preorder(t, *k, out);
    }
}

fn edges(t: &T, i: usize, out: &mut Vec<Edge>) {
    out.push(Edge::Start(i));
    for k in &t.kids[i] {
        edges(t, *k, out);
    }
    out.push(Edge::End(i));
}

/// Drives a forward iterator; after its end it has to stay at the end.
fn forward<I: Iterator<Item = Node>>(t: &T, mut it: I, want: &[usize], what: &str, start: usize) -> R {
    let mut got = Vec::new();
    while let Some(n) = it.next() {
        got.push(find(t, &n));
        if got.len() > want.len() + 2 {
            break;
        }
    }
    ensure!(got == want, what, "{} of node {}: {:?}, expected {:?}", what, start, got, want);
    for _ in 0..3 {
        ensure!(it.next().is_none(), what, "{} of node {} yields items after its end", what, start);
    }
    Ok(())
}

/// Drives a double-ended iterator by a pattern of front (0) and back (1) calls.
fn both<I, X, F>(mut it: I, map: F, want: &[X], bits: &[bool], what: &str, start: usize) -> R
where
    I: DoubleEndedIterator,
    X: PartialEq + std::fmt::Debug + Clone,
    F: Fn(I::Item) -> X,
{
    let mut lo = 0;
    let mut hi = want.len();
    let mut i = 0;
    while lo < hi {
        let back = bits[i % bits.len()];
        i += 1;
        let (got, exp) = if back {
            hi -= 1;
            (it.next_back(), &want[hi])
        } else {
            lo += 1;
            (it.next(), &want[lo - 1])
        };
        let got = got.map(&map);
        ensure!(
            got.as_ref() == Some(exp),
            what,
            "{} of node {}: call {} ({}) gives {:?}, expected {:?} (calls {:?}, sequence {:?})",
            what, start, i, if back { "next_back" } else { "next" }, got, exp,
            (0..i).map(|k| if bits[k % bits.len()] { 'b' } else { 'f' }).collect::<String>(), want
        );
    }
    for k in 0..4 {
        let r = if bits[(i + k) % bits.len()] { it.next_back().map(&map) } else { it.next().map(&map) };
        ensure!(r.is_none(), what, "{} of node {} yields {:?} after its end (calls {:?})", what, start, r, (0..=i + k).map(|k| if bits[k % bits.len()] { 'b' } else { 'f' }).collect::<String>());
    }
    Ok(())
}

const TAGS: &[&str] = &["g", "rect", "~x", "svg", "text"];

fn build(s: &mut Src, doc: &mut Document) -> T {
    let root = doc.root();
    let mut t = T { nodes: vec![root], parent: vec![None], kids: vec![Vec::new()], svg: vec![None] };
    let n = s.count_long(8, 22, 90);
    let deep = s.chance(1, 4);
    let star = s.chance(1, 10);
    for _ in 0..n {
        let i = t.nodes.len();
        let (node, svg) = match s.weighted(&[5, 1, 1]) {
            0 => {
                let tag = if s.chance(1, 6) { *s.pick(ELEMENTS) } else { *s.pick(TAGS) };
                if tag.starts_with('~') {
                    (doc.create_element(&tag[1..]), None)
                } else {
                    let id = ElementId::from_str(tag).unwrap();
                    (doc.create_element(id), Some(id))
                }
            }
            1 => (doc.create_node(NodeType::Text, *s.pick(&["t", "", " "])), None),
            _ => (doc.create_node(NodeType::Comment, *s.pick(&["c", ""])), None),
        };
        t.nodes.push(node.clone());
        t.kids.push(Vec::new());
        t.svg.push(svg);
        // A few nodes stay roots of their own trees.
        if s.chance(1, 12) {
            t.parent.push(None);
            continue;
        }
        let p = if star && s.chance(7, 8) { i.min(1 + s.idx(2)) - 1 } else if deep { i - 1 - s.idx(i.min(3)) } else { s.idx(i) };
        let mut pn = t.nodes[p].clone();
        t.parent.push(Some(p));
        if s.chance(1, 3) {
            t.kids[p].insert(0, i);
            pn.prepend(node);
        } else {
            t.kids[p].push(i);
            pn.append(node);
        }
    }
    // Some moves, so that the links between nodes have a history.
    let moves = s.count(2, 6);
    for _ in 0..moves {
        let i = s.idx(t.nodes.len());
        if i == 0 || t.parent[i].is_none() {
            continue;
        }
        let p = t.parent[i].unwrap();
        t.kids[p].retain(|k| *k != i);
        t.parent[i] = None;
        let mut x = t.nodes[i].clone();
        x.detach();
        if s.chance(3, 4) {
            let mut sub = Vec::new();
            preorder(&t, i, &mut sub);
            let to = s.idx(t.nodes.len());
            if !sub.contains(&to) {
                t.kids[to].push(i);
                t.parent[i] = Some(to);
                t.nodes[to].clone().append(x);
            }
        }
    }
    t
}

pub fn c07_iters(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let t = match no_panic(|| build(s, &mut doc)) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    // The real shape has to be the intended one, otherwise the editing calls are at fault.
    for i in 0..t.nodes.len() {
        let mut got = Vec::new();
        let mut c = t.nodes[i].first_child();
        while let Some(x) = c {
            got.push(find(&t, &x));
            if got.len() > t.nodes.len() {
                break;
            }
            c = x.next_sibling();
        }
        let f = |n: Option<Node>| n.map(|n| find(&t, &n));
        if got != t.kids[i] || f(t.nodes[i].parent()) != t.parent[i] || f(t.nodes[i].last_child()) != t.kids[i].last().cloned() {
            ctx.label("tree could not be built");
            return Ok(());
        }
    }
    let pat: Vec<bool> = (0..1 + s.idx(9)).map(|_| s.chance(1, 2)).collect();
    ctx.set_input(&format!("children {:?}, parents {:?}, calls {:?}", t.kids, t.parent, pat.iter().map(|b| if *b { 'b' } else { 'f' }).collect::<String>()));
    ctx.nontrivial = t.nodes.len() >= 5;
    if t.parent.iter().filter(|p| p.is_none()).count() > 1 {
        ctx.label("several trees");
    }
    for i in 0..t.nodes.len() {
        let n = &t.nodes[i];
        let mut pre = Vec::new();
        preorder(&t, i, &mut pre);
        forward(&t, n.descendants(), &pre, "descendants", i)?;
        forward(&t, n.children(), &t.kids[i], "children", i)?;
        let mut anc = vec![i];
        while let Some(p) = t.parent[anc[anc.len() - 1]] {
            anc.push(p);
        }
        forward(&t, n.ancestors(), &anc, "ancestors", i)?;
        let sib: Vec<usize> = t.parent[i].map(|p| t.kids[p].clone()).unwrap_or_else(|| vec![i]);
        let at = sib.iter().position(|x| *x == i).unwrap();
        let before: Vec<usize> = sib[..=at].iter().rev().cloned().collect();
        forward(&t, n.preceding_siblings(), &before, "preceding_siblings", i)?;
        forward(&t, n.following_siblings(), &sib[at..], "following_siblings", i)?;

        both(n.children(), |x| find(&t, &x), &t.kids[i], &pat, "children", i)?;
        both(n.children(), |x| find(&t, &x), &t.kids[i], &[true], "children", i)?;
        let mut ed = Vec::new();
        edges(&t, i, &mut ed);
        let map = |e: NodeEdge<NodeData>| match e {
            NodeEdge::Start(x) => Edge::Start(find(&t, &x)),
            NodeEdge::End(x) => Edge::End(find(&t, &x)),
        };
        both(n.traverse(), map, &ed, &[false], "traverse", i)?;
        both(n.traverse(), map, &ed, &[true], "traverse", i)?;
        both(n.traverse(), map, &ed, &pat, "traverse", i)?;

        // SVG elements only.
        let want: Vec<(usize, ElementId)> = pre.iter().filter_map(|k| t.svg[*k].map(|id| (*k, id))).collect();
        let got: Vec<(usize, ElementId)> = n.descendants().svg().map(|(id, x)| (find(&t, &x), id)).collect();
        ensure!(got == want, "svg", "SVG descendants of node {}: {:?}, expected {:?}", i, got, want);
        let want: Vec<usize> = t.kids[i].iter().cloned().filter(|k| t.svg[*k].is_some()).collect();
        let got: Vec<usize> = n.children().svg().map(|(_, x)| find(&t, &x)).collect();
        ensure!(got == want, "svg", "SVG children of node {}: {:?}, expected {:?}", i, got, want);

        // Skipping.
        let n2 = *s.pick(&pre);
        let mut it = t.nodes[n2].descendants();
        let skip = s.idx(4);
        let mut want: Vec<usize> = Vec::new();
        preorder(&t, n2, &mut want);
        let got = it.nth(skip).map(|x| find(&t, &x));
        ensure!(got == want.get(skip).cloned(), "nth", "descendants of node {}: item {} is {:?}", n2, skip, got);
        let rest: Vec<usize> = it.map(|x| find(&t, &x)).collect();
        ensure!(rest.as_slice() == want.get(skip + 1..).unwrap_or(&[]), "nth", "descendants of node {} after item {}", n2, skip);
    }
    Ok(())
}
