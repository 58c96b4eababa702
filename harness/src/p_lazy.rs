//! C05 a window costs work for the window; C18 extreme sizes.

use crate::doc::{Doc, Kind, Lbl, Node, N};
use crate::alloc::allocations;
use crate::engine::{guard, Cx, Res};
use crate::gen::*;
use crate::model::*;
use crate::p_layout::{expect_focus, gen_focus, model_ok, Expect};
use crate::run::*;
use crate::src::Src;
use partial_pretty_printer::pane::{PaneSize, WidthStrategy};
use partial_pretty_printer::{CheckPos, Notation};
use crate::doc::Cnd;
use crate::p_pane::{compare_scene, run_scene, Opt, Rec, Scene, PN};

// ---- block-structured documents -----------------------------------------------------

const VLIST: usize = 0;
const BLOCK: usize = 1;
const PAIR: usize = 2;
const NAMED: usize = 3;
const STMT: usize = 4;
const STMT2: usize = 5;
const TEXT: usize = 6;
const COMMENT: usize = 7;
const HEADED: usize = 8;
const WRAP: usize = 9;
const COUNTED: usize = 10;

fn cats(v: Vec<N>) -> N {
    v.into_iter().reduce(cat).unwrap()
}
fn kid(i: isize) -> N {
    Notation::Child(i)
}
fn list(sep: Vec<N>) -> N {
    let mut v = vec![Notation::Left];
    v.extend(sep);
    v.push(Notation::Right);
    fold(kid(0), cats(v))
}

fn block_notations() -> Vec<N> {
    let args_flat = list(vec![lit(", ")]);
    let call = |first: N| {
        alt(
            first,
            cats(vec![lit("f("), ind("    ", None, cat(nl(), list(vec![lit(","), nl()]))), nl(), lit(")")]),
        )
    };
    vec![
        list(vec![nl()]),
        cats(vec![lit("{"), ind("  ", None, cat(nl(), list(vec![nl()]))), nl(), lit("}")]),
        cats(vec![kid(0), nl(), kid(1)]),
        cats(vec![lit("fn "), kid(0), ind("    ", None, cat(nl(), kid(1)))]),
        call(flat(cats(vec![lit("f("), args_flat.clone(), lit(")")]))),
        call(cats(vec![lit("g("), args_flat, lit(")")])),
        Notation::Text,
        cats(vec![lit("// "), Notation::Text, Notation::EndOfLine]),
        cats(vec![alt(flat(kid(0)), kid(0)), sty(Lbl(0), lit(":")), nl(), kid(-1)]),
        sty(Lbl(1), kid(0)),
        cats(vec![
            lit("#"),
            nl(),
            count(lit("none"), kid(0), cats(vec![kid(0), nl(), lit("-"), nl(), kid(-1)])),
        ]),
    ]
}

/// Whether hard newlines stand between this child and everything around it.
fn separated(parent: usize, index: usize) -> bool {
    match parent {
        VLIST | BLOCK | PAIR | COUNTED => true,
        NAMED | HEADED => index == 1,
        _ => false,
    }
}

struct Arena {
    nodes: Vec<Node>,
}

impl Arena {
    fn add(&mut self, note: usize) -> usize {
        let n = self.nodes.len();
        self.nodes.push(Node { note, kind: Kind::Kids(vec![]), conds: 0, id: n as u64, styled: false, parent: 0, index: 0 });
        n
    }
    fn text(&mut self, note: usize, s: &str) -> usize {
        let n = self.add(note);
        self.nodes[n].kind = Kind::Text(s.to_string());
        n
    }
    fn set(&mut self, n: usize, kids: Vec<usize>) -> usize {
        self.nodes[n].kind = Kind::Kids(kids);
        n
    }
    fn word(&mut self, s: &mut Src) -> usize {
        let w = *s.pick(&["a", "bb", "some", "longer_word", "漢字", "x1"]);
        self.text(TEXT, w)
    }
    fn stmt(&mut self, s: &mut Src, depth: usize) -> usize {
        let n = self.add(if s.chance(1, 2) { STMT } else { STMT2 });
        let k = s.weighted(&[1, 4, 4, 2, 1]);
        let kids = (0..k)
            .map(|_| if depth > 0 && s.chance(1, 4) { self.stmt(s, depth - 1) } else { self.word(s) })
            .collect();
        self.set(n, kids)
    }
    fn block(&mut self, s: &mut Src, depth: usize) -> usize {
        let leaf = depth == 0 || self.nodes.len() > 260;
        match s.weighted(&if leaf { [2, 4, 2, 0, 0, 0, 0, 0, 0, 0] } else { [1, 2, 1, 5, 6, 2, 3, 2, 1, 2] }) {
            0 => self.word(s),
            1 => self.stmt(s, 2),
            2 => self.text(COMMENT, "note"),
            k @ (3 | 4 | 9) => {
                let n = self.add([VLIST, BLOCK, COUNTED][if k == 9 { 2 } else { k - 3 }]);
                let lo = if k == 9 { 0 } else { 1 };
                let c = if k == 9 { s.range(lo, 4) } else { s.range(lo, 6) };
                let kids = (0..c).map(|_| self.block(s, depth - 1)).collect();
                self.set(n, kids)
            }
            5 => {
                let n = self.add(PAIR);
                let a = self.block(s, depth - 1);
                let b = self.block(s, depth - 1);
                self.set(n, vec![a, b])
            }
            6 => {
                let n = self.add(NAMED);
                let a = self.word(s);
                let b = self.block(s, depth - 1);
                self.set(n, vec![a, b])
            }
            7 => {
                let n = self.add(HEADED);
                let a = self.stmt(s, 1);
                let b = self.block(s, depth - 1);
                self.set(n, vec![a, b])
            }
            _ => {
                let n = self.add(WRAP);
                let a = self.block(s, depth - 1);
                self.set(n, vec![a])
            }
        }
    }
}

fn show_window(doc: &Doc, l: &Layout, lo: usize, hi: usize) -> String {
    let mut s = doc.dump();
    s.push_str("  lines:\n");
    for (i, x) in l.lines.iter().enumerate().take(120) {
        let mark = if i >= lo && i <= hi { ">" } else { " " };
        s.push_str(&format!("  {mark}{i:>4} {}\n", x.text()));
    }
    s
}

pub fn c05(cx: &mut Cx) -> Res {
    let mut a = Arena { nodes: vec![] };
    let s = &mut cx.src;
    let root = a.add(*s.pick(&[VLIST, BLOCK, VLIST, BLOCK]));
    let depth = s.range(2, 5);
    let c = s.range(2, 8);
    let kids = (0..c).map(|_| a.block(s, depth)).collect();
    a.set(root, kids);
    let doc = Doc::new(block_notations(), a.nodes, true);
    let width = *cx.src.pick(&[30u16, 0, 10, 20, 60, 80, 65535]);
    let m = Model::new(&doc);
    let l = m.print(width as u64, Mode::Documented, false);
    if !model_ok(&l) {
        return cx.discard("too big for the model");
    }
    assert!(l.err.is_none(), "{:?}\n{}", l.err, doc.dump());

    // Focus.
    let fnode = cx.src.below(doc.nodes.len());
    let path = doc.path_to(fnode);
    let target = match (&doc.nodes[fnode].kind, cx.src.below(4)) {
        (Kind::Text(t), 1) => Target::Text(cx.src.below(t.chars().count() + 1)),
        (_, 2) => Target::End,
        _ => Target::Start,
    };
    let Expect::At(at) = expect_focus(&doc, &l, &path, target) else {
        return cx.discard("focus not settled");
    };
    let f = at.line;
    let nups = cx.src.weighted(&[2, 2, 2, 2, 1, 1]);
    let ndowns = cx.src.weighted(&[2, 2, 2, 2, 1, 1]);
    let mut sched: Vec<bool> = vec![];
    let (mut u, mut d) = (nups, ndowns);
    while u + d > 0 {
        let up = u > 0 && (d == 0 || cx.src.chance(1, 2));
        sched.push(up);
        if up {
            u -= 1
        } else {
            d -= 1
        }
    }
    cx.describe(|| format!("width {width}, focus {path:?} {target:?}, pulls (up = true) {sched:?}\n{}", show_window(&doc, &l, f.saturating_sub(nups), f + ndowns)));

    // Where each node is, and what delimits it.
    let nn = doc.nodes.len();
    let mut range = vec![(usize::MAX, 0usize); nn];
    for o in &l.occs {
        let r = &mut range[o.node];
        r.0 = r.0.min(o.start.line);
        r.1 = r.1.max(o.end.line);
    }
    let mut on_path = vec![false; nn];
    on_path[fnode] = true;
    let mut x = fnode;
    while x != 0 {
        x = doc.nodes[x].parent;
        on_path[x] = true;
    }
    let sep: Vec<bool> =
        (0..nn).map(|n| n != 0 && separated(doc.nodes[doc.nodes[n].parent].note, doc.nodes[n].index)).collect();
    let far = |n: usize, lo: usize, hi: usize, slack: usize| {
        sep[n] && !on_path[n] && range[n].0 != usize::MAX && (range[n].1 + slack < lo || range[n].0 > hi + slack)
    };

    // 1. Blocks outside the window stay closed, after every pull.
    let stages = sched.len();
    let mut worst = 0;
    let mut small_allocs = 0;
    for k in [0, cx.src.below(stages + 1), stages] {
        doc.reset();
        doc.inst.track.set(true);
        cx.evals += 1;
        let done = &sched[..k];
        let (p, n) = allocations(|| guard(|| print(doc.root(), width, &path, target, false, &Sched::Only(done.to_vec()))));
        small_allocs = n;
        doc.inst.track.set(false);
        let p = p?.map_err(|e| format!("printing failed: {e:?}\n{}", doc.dump()))?;
        let ups = done.iter().filter(|b| **b).count();
        let downs = k - ups;
        let (lo, hi) = (f.saturating_sub(ups), f + downs);
        // The lines themselves (the rest is C03's business).
        if text_of(&p.focused()) != l.lines[f].text() {
            return Err(format!(
                "width {width}, focus {path:?} {target:?}: focused line {:?}, expected {:?}\n{}",
                text_of(&p.focused()),
                l.lines[f].text(),
                show_window(&doc, &l, lo, hi)
            ));
        }
        let mut touched = vec![false; nn];
        for t in doc.inst.touched.borrow().iter() {
            touched[*t as usize] = true;
        }
        // Nothing is computed ahead of being pulled.
        for (n, t) in touched.iter().enumerate() {
            if !t || n == 0 {
                continue;
            }
            let mut anc = doc.nodes[n].parent;
            loop {
                if far(anc, lo, hi, 0) {
                    return Err(format!(
                        "width {width}, focus {path:?} {target:?}, {ups} lines pulled up and {downs} down \
                         (window lines {lo}..={hi}): node {n} was consulted, but it lies inside node {anc}, \
                         a separate block on lines {}..={}\n{}",
                        range[anc].0,
                        range[anc].1,
                        show_window(&doc, &l, lo, hi)
                    ));
                }
                if anc == 0 {
                    break;
                }
                anc = doc.nodes[anc].parent;
            }
        }
        worst = worst.max(touched.iter().filter(|t| **t).count());
    }
    let (lo, hi) = (f.saturating_sub(nups), f + ndowns);
    let small = doc.inst.calls.get();
    let closed = (1..nn).filter(|n| far(*n, lo, hi, 1) && doc.kids(*n).is_some_and(|k| !k.is_empty())).count();
    cx.label_if(closed > 0, "blocks outside the window must stay closed");
    cx.label_if(closed > 8, "more than 8 of them");
    cx.label_if(worst * 2 < nn, "less than half of the document consulted");

    // 2. Accesses do not grow with what lies outside.
    let mut grown: Vec<Node> = doc.nodes.clone();
    let mut ngrown = 0;
    let extra = cx.src.range(20, 120);
    for n in 1..nn {
        if !far(n, lo, hi, 2) || !matches!(doc.nodes[n].note, VLIST | BLOCK) || cx.src.chance(1, 3) || ngrown >= 6 {
            continue;
        }
        ngrown += 1;
        let Kind::Kids(mut ks) = grown[n].kind.clone() else { unreachable!() };
        let mut b = Arena { nodes: std::mem::take(&mut grown) };
        let front = cx.src.chance(1, 2);
        for _ in 0..extra {
            let w = b.text(TEXT, "more");
            let v = b.add(BLOCK);
            let v = b.set(v, vec![w]);
            if front {
                ks.insert(0, v)
            } else {
                ks.push(v)
            }
        }
        grown = b.nodes;
        grown[n].kind = Kind::Kids(ks);
    }
    if ngrown > 0 {
        cx.label("document grown outside the window");
        let big = Doc::new(block_notations(), grown, true);
        cx.evals += 1;
        let (p, allocs) =
            allocations(|| guard(|| print(big.root(), width, &path, target, false, &Sched::Only(sched.clone()))));
        let p = p?.map_err(|e| format!("printing failed: {e:?}"))?;
        let n = big.inst.calls.get();
        if allocs > small_allocs + 64 {
            return Err(format!(
                "width {width}, focus {path:?} {target:?}, pulls {sched:?}: {small_allocs} memory allocations; after adding \
                 {} nodes inside {ngrown} blocks outside the window, {allocs}\n{}",
                big.nodes.len() - nn,
                show_window(&doc, &l, lo, hi)
            ));
        }
        if n > small + 32 {
            return Err(format!(
                "width {width}, focus {path:?} {target:?}, pulls {sched:?}: {small} document accesses; after adding \
                 {} nodes inside {ngrown} blocks outside the window, {n}\n{}",
                big.nodes.len() - nn,
                show_window(&doc, &l, lo, hi)
            ));
        }
        if text_of(&p.focused()) != l.lines[f].text() {
            return Err("the focused line changed when distant blocks grew".into());
        }
    }

    // 3. Going to some child among very many on a line takes work for the line, once.
    if cx.src.chance(1, 8) {
        cx.label("focus inside a long line");
        let mut b = Arena { nodes: vec![] };
        let root = b.add(VLIST);
        let row = b.add(STMT2);
        let flat = b.add(HEADED);
        let inner = b.add(STMT);
        let n = cx.src.range(100, 400);
        let kids: Vec<usize> = (0..n).map(|_| b.word(&mut cx.src)).collect();
        let on_inner = cx.src.chance(1, 2);
        let below = b.word(&mut cx.src);
        let first = b.word(&mut cx.src);
        b.set(if on_inner { inner } else { row }, kids.clone());
        b.set(if on_inner { row } else { inner }, vec![first]);
        b.set(flat, vec![inner, below]);
        b.set(root, vec![row, flat]);
        let d = Doc::new(block_notations(), b.nodes, true);
        let goal = *cx.src.pick(&kids);
        let w = *cx.src.pick(&[65535u16, 0, 80, 3000]);
        cx.evals += 1;
        let path = d.path_to(goal);
        let (p, allocs) = allocations(|| guard(|| print(d.root(), w, &path, target, false, &Sched::Only(vec![]))));
        let calls = d.inst.calls.get();
        p?.ok();
        if calls > 60 * (n as u64 + 20) || allocs > 20 * (n as u64 + 20) {
            return Err(format!(
                "focusing on a child of a node with {n} children on one line, at width {w}, took {calls} document \
                 accesses and {allocs} memory allocations"
            ));
        }
    }

    // 4. Printing everything is linear: k copies cost k times as much.
    if cx.src.chance(1, 4) {
        cx.label("whole document, repeated");
        let copies = |k: usize| {
            let mut b = Arena { nodes: vec![] };
            let root = b.add(VLIST);
            let mut kids = vec![];
            for _ in 0..k {
                let base = b.nodes.len();
                for n in &doc.nodes {
                    let mut n = n.clone();
                    n.id += base as u64;
                    if let Kind::Kids(ks) = &mut n.kind {
                        ks.iter_mut().for_each(|x| *x += base);
                    }
                    b.nodes.push(n);
                }
                kids.push(base);
            }
            b.set(root, kids);
            Doc::new(block_notations(), b.nodes, true)
        };
        let back = cx.src.chance(1, 2);
        let cost = |k: usize| -> Result<[u64; 2], String> {
            let d = copies(k);
            let t = if back { Target::End } else { Target::Start };
            let (p, allocs) = allocations(|| guard(|| print(d.root(), width, &[], t, false, &Sched::UpDown)));
            p?.map_err(|e| format!("printing failed: {e:?}"))?;
            Ok([d.inst.calls.get(), allocs])
        };
        cx.evals += 2;
        let (one, many) = (cost(2)?, cost(10)?);
        for (what, one, many) in [("document accesses", one[0], many[0]), ("memory allocations", one[1], many[1])] {
            if many > 5 * one * 5 / 4 + 100 {
                return Err(format!(
                    "width {width}, printing {}: 2 copies of the document take {one} {what}, 10 copies {many}\n{}",
                    if back { "upward from the end" } else { "downward from the start" },
                    show_window(&doc, &l, 1, 0)
                ));
            }
        }
    }
    // 5. Among very many siblings, a line still takes work for the line.
    if cx.src.chance(1, 30) {
        cx.label("very many siblings");
        let list_kind = *cx.src.pick(&[VLIST, BLOCK]);
        let nested = cx.src.chance(1, 2);
        let item = cx.src.below(4);
        let (before, after) = (cx.src.range(4, 1200), cx.src.range(4, 1200));
        // (A list is laid open when it is first reached, which may take work for
        // each of its items. That is no part of what is compared: a list in
        // another list is reached by the seek, and the first lines up and down
        // are left out.)
        let end = if nested { 2 } else { cx.src.below(3) };
        let first = [false, true];
        let siblings = |before: usize, after: usize| {
            let mut b = Arena { nodes: vec![] };
            let root = b.add(list_kind);
            let mut kids = vec![];
            for _ in 0..before + 1 + after {
                let x = match item {
                    0 => b.text(TEXT, "word"),
                    1 => {
                        let x = b.add(STMT);
                        let w = b.text(TEXT, "some");
                        b.set(x, vec![w])
                    }
                    2 => {
                        let x = b.add(BLOCK);
                        let w = b.text(TEXT, "some");
                        b.set(x, vec![w])
                    }
                    _ => b.text(COMMENT, "note"),
                };
                kids.push(x);
            }
            if nested {
                // in a list of their own, between two others
                let (x, y) = (b.text(TEXT, "x"), b.text(TEXT, "y"));
                let inner = b.add(list_kind);
                b.set(inner, kids);
                b.set(root, vec![x, inner, y]);
            } else {
                b.set(root, kids);
            }
            Doc::new(block_notations(), b.nodes, true)
        };
        let cost = |before: usize, after: usize| -> Result<[u64; 2], String> {
            let d = siblings(before, after);
            let list = if nested { d.nodes.iter().rposition(|n| n.note == list_kind && d.nodes[0].note == list_kind && n.id != 0 && matches!(&n.kind, Kind::Kids(k) if k.len() == before + after + 1)).unwrap() } else { 0 };
            let (node, t) = match end {
                0 => (0, Target::Start),
                1 => (0, Target::End),
                _ => (d.kids(list).unwrap()[before], Target::Start),
            };
            let path = d.path_to(node);
            let first = Sched::Only(first.to_vec());
            let (p, still_allocs) = allocations(|| guard(|| print(d.root(), width, &path, t, false, &first)));
            p?.map_err(|e| format!("printing failed: {e:?}"))?;
            let still = d.inst.calls.get();
            d.reset();
            let Sched::Only(mut whole) = first else { unreachable!() };
            whole.extend(&sched);
            let whole = Sched::Only(whole);
            let (p, allocs) = allocations(|| guard(|| print(d.root(), width, &path, t, false, &whole)));
            p?.map_err(|e| format!("printing failed: {e:?}"))?;
            Ok([d.inst.calls.get().saturating_sub(still), allocs.saturating_sub(still_allocs)])
        };
        cx.evals += 4;
        let (few, many) = (cost(8, 8)?, cost(before, after)?);
        for (what, few, many) in [("document accesses", few[0], many[0]), ("memory allocations", few[1], many[1])] {
            if many > few + 64 {
                return Err(format!(
                    "width {width}, pulls {sched:?} after focusing the {}: they take {few} {what} in a list of 17 \
                     lines or blocks, but {many} in one of {}",
                    ["start", "end", "middle"][end],
                    before + after + 1
                ));
            }
        }
    }
    Ok(closed > 0)
}

// ---- C18 ---------------------------------------------------------------------

/// Runs `f` on a thread with the stack of an ordinary main thread. Overflowing
/// it ends the process, which the supervising process turns into a violation.
fn on_small_stack<T>(f: impl FnOnce() -> T) -> T {
    struct AssertSend<T>(T);
    // The spawning thread does nothing but wait for the other one.
    unsafe impl<T> Send for AssertSend<T> {}
    let f = AssertSend(f);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                let f = f;
                AssertSend((f.0)())
            })
            .unwrap();
        h.join().expect("guarded thread").0
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dim {
    /// Very many lines.
    Lines,
    /// One line, very deeply nested.
    Depth,
    /// Deeply nested choices.
    Choices,
    /// Deeply nested blocks, on lines of their own.
    Blocks,
    /// Very many children on one line.
    Fan,
    /// A list built of nested pairs.
    Cons,
    /// Very many children that are not shown.
    Hidden,
    /// Very many levels of indentation.
    Indents,
}

/// Documents that grow along one dimension: `n` is the number of elements.
pub fn scaled(dim: Dim, n: usize, p: &[usize; 6]) -> Doc {
    let mut a = Arena { nodes: vec![] };
    let word = |a: &mut Arena, i: usize| a.text(TEXT, ["a", "bb", "word", "漢", ""][(i * p[0]) % 5]);
    let mut notes = block_notations();
    let extra = notes.len();
    // A level of nesting around child 0.
    notes.extend([
        cats(vec![lit("("), kid(0), lit(")")]),
        sty(Lbl(0), cats(vec![lit("<"), kid(-1)])),
        list(vec![lit(";")]),
        check(Cnd(0), CheckPos::Here, lit("!"), cats(vec![kid(0), lit(".")])),
        count(lit("0"), kid(0), cats(vec![kid(1), lit("/"), kid(0)])),
        // choices
        alt(flat(cats(vec![lit("["), kid(0), lit("]")])), cats(vec![lit("["), nl(), kid(0), nl(), lit("]")])),
        alt(cats(vec![lit("{"), kid(0)]), cats(vec![lit("|"), kid(0), nl(), lit("}")])),
        alt(cats(vec![lit("~"), kid(0)]), flat(cats(vec![lit("~~"), kid(0)]))),
        // blocks
        cats(vec![lit("do"), ind("", None, cat(nl(), kid(0)))]),
        cats(vec![ind("", Some(Lbl(1)), cats(vec![lit("in"), nl(), kid(0)])), nl(), lit("end")]),
        cats(vec![kid(0), nl(), lit(";")]),
        // hidden children
        fold(kid(0), check(Cnd(0), CheckPos::RightChild, Notation::Left, cats(vec![Notation::Left, lit(","), Notation::Right]))),
        fold(kid(0), check(Cnd(0), CheckPos::LeftChild, Notation::Right, cats(vec![Notation::Left, nl(), Notation::Right]))),
        // indentation
        ind("", None, kid(0)),
        ind(">", Some(Lbl(2)), kid(0)),
        ind("", None, sty(Lbl(1), cats(vec![lit("i"), kid(0)]))),
        flat(ind("", None, kid(0))),
        cats(vec![lit("("), kid(0), alt(lit(" "), nl()), lit("x"), nl(), lit(")")]),
    ]);
    let chain = |a: &mut Arena, kinds: &[usize]| {
        // Outermost first, so that node 0 is the root.
        let mut prev: Option<usize> = None;
        for i in 0..n {
            let k = kinds[(i / (1 + p[1]) + i % (1 + p[2])) % kinds.len()];
            let x = a.add(extra + k);
            if let Some(q) = prev {
                let mut ks = vec![x];
                if k != 99 && matches!(a.nodes[q].note - extra, 1 | 2 | 4) && p[3] % 2 == 1 {
                    // Some levels have a short text beside the nested node.
                    let w = word(a, i);
                    ks.push(w);
                    if a.nodes[q].note - extra != 2 {
                        ks.swap(0, 1);
                    }
                }
                a.set(q, ks);
            }
            prev = Some(x);
        }
        let w = word(a, 3);
        a.set(prev.unwrap(), vec![w]);
    };
    match dim {
        Dim::Lines => {
            let r = a.add([VLIST, BLOCK][p[1] % 2]);
            let mut kids = vec![];
            for i in 0..n {
                let k = if i % (1 + p[2]) == 0 {
                    let st = a.add(STMT + p[3] % 2);
                    let ws = (0..1 + i % 3).map(|j| word(&mut a, i + j)).collect();
                    a.set(st, ws)
                } else if i % (2 + p[4]) == 1 {
                    a.text(COMMENT, "x")
                } else {
                    word(&mut a, i)
                };
                kids.push(k);
            }
            a.set(r, kids);
        }
        Dim::Depth => {
            let kinds: Vec<usize> = (0..5).filter(|k| p[5] & (1 << k) != 0 || *k == p[4] % 5).collect();
            chain(&mut a, &kinds)
        }
        Dim::Choices => {
            let kinds: Vec<usize> = (5..8).filter(|k| p[5] & (1 << (k - 5)) != 0 || *k == 5 + p[4] % 3).collect();
            chain(&mut a, &kinds)
        }
        Dim::Blocks => {
            let kinds: Vec<usize> = (8..11).filter(|k| p[5] & (1 << (k - 8)) != 0 || *k == 8 + p[4] % 3).collect();
            chain(&mut a, &kinds)
        }
        Dim::Indents => {
            let kinds: Vec<usize> = (13..17).filter(|k| p[5] & (1 << (k - 13)) != 0 || *k == 13 + p[4] % 4).collect();
            chain(&mut a, &kinds);
            // A few line breaks at the innermost level.
            let leaf = a.nodes.len() - 1;
            let up = a.nodes[leaf - 1].clone();
            if let Kind::Kids(_) = up.kind {
                a.nodes[leaf - 1].note = extra + 17;
            }
        }
        Dim::Fan => {
            let r = a.add(STMT + p[1] % 2);
            let kids = (0..n).map(|i| word(&mut a, i)).collect();
            a.set(r, kids);
        }
        Dim::Cons => {
            let mut cell = a.add(PAIR);
            for i in 0..n {
                let w = word(&mut a, i);
                let next = if i + 1 < n { a.add(PAIR) } else { word(&mut a, i + 1) };
                a.set(cell, if p[1] % 3 == 0 { vec![next, w] } else { vec![w, next] });
                cell = next;
            }
        }
        Dim::Hidden => {
            let r = a.add(extra + 11 + p[1] % 2);
            let kids: Vec<usize> = (0..n).map(|i| word(&mut a, i)).collect();
            for (i, k) in kids.iter().enumerate() {
                if i % (1 + p[2]) != p[3] || p[4] % 2 == 0 {
                    a.nodes[*k].conds = 1;
                }
            }
            a.set(r, kids);
        }
    }
    Doc::new(notes, a.nodes, true)
}

pub fn same_lines(got: &[LLine], l: &Layout) -> Result<(), String> {
    if got.len() != l.lines.len() {
        return Err(format!("{} lines printed, expected {}", got.len(), l.lines.len()));
    }
    for (i, (g, w)) in got.iter().zip(&l.lines).enumerate() {
        let (g, w) = (text_of(g), w.text());
        if g != w {
            let short = |s: &str| s.chars().take(120).collect::<String>();
            return Err(format!(
                "line {i} is {:?} ({} characters), expected {:?} ({} characters)",
                short(&g),
                g.chars().count(),
                short(&w),
                w.chars().count()
            ));
        }
    }
    Ok(())
}

fn c18_scaled(cx: &mut Cx) -> Res {
    let s = &mut cx.src;
    let dim = *s.pick(&[Dim::Lines, Dim::Depth, Dim::Choices, Dim::Blocks, Dim::Fan, Dim::Cons, Dim::Hidden, Dim::Indents]);
    let max = if cx.thorough { 6 } else { 4 };
    let mut n = [50, 400, 3_000, 20_000, 60_000, 120_000][s.weighted(&[3, 6, 4, 2, 1, 1][..max])];
    let p = [s.below(5), s.below(6), s.below(6), s.below(6), s.below(6), s.below(32)];
    let width = *s.pick(&[40u16, 0, 1, 7, 80, 200, 65534, 65535]);
    // The printer looks ahead as far as the width, for each choice: nested
    // choices on one line cost depth times width.
    if dim == Dim::Choices && width > 1000 {
        n = n.min(400);
    }
    // More lines than 16 bits count.
    let far = dim == Dim::Lines && s.chance(1, 25);
    if far {
        n = s.range(66_000, 100_000);
    }
    // (Each level costs little.)
    if dim == Dim::Indents && n >= 3_000 && s.chance(1, 2) {
        n = 400_000;
    }
    // Every line repeats all of its indentation.
    if dim == Dim::Blocks && (p[5] & 3 != 0 || p[4] % 3 != 2) {
        n = n.min(1500);
    }
    let doc = scaled(dim, n, &p);
    cx.label(match dim {
        Dim::Lines => "many lines",
        Dim::Depth => "deep nesting on a line",
        Dim::Choices => "deeply nested choices",
        Dim::Blocks => "deeply nested blocks",
        Dim::Fan => "many children on a line",
        Dim::Cons => "list of nested pairs",
        Dim::Hidden => "many children, mostly hidden",
        Dim::Indents => "many levels of indentation",
    });
    cx.label_if(n >= 3000, "3000 elements or more");
    cx.label_if(far, "focus beyond line 65535");
    cx.describe(|| format!("{dim:?}, {n} elements, parameters {p:?}, width {width}"));
    let fail = |e: String| format!("{dim:?} with {n} elements, parameters {p:?}, width {width}: {e}");
    let mut m = Model::new(&doc);
    m.limit = 30_000_000;
    let l = m.print(width as u64, Mode::Documented, false);
    if !model_ok(&l) {
        return cx.discard("too big for the model");
    }
    assert!(l.err.is_none(), "{:?} {dim:?} {n} {p:?}", l.err);
    if width == u16::MAX && l.max_width() >= 65535 {
        return cx.discard("lines as wide as the largest width");
    }

    // From the start, and from somewhere.
    let node = if far || cx.src.chance(1, 3) { doc.nodes.len() - 1 - cx.src.below(doc.nodes.len().min(4)) } else { cx.src.below(doc.nodes.len()) };
    let path = doc.path_to(node);
    let target = if cx.src.chance(1, 2) { Target::End } else { Target::Start };
    let expect = expect_focus(&doc, &l, &path, target);
    let sched = if cx.src.chance(1, 2) { Sched::UpDown } else { Sched::DownUp };
    cx.evals += 2;
    doc.inst.fuel.set(400_000_000);
    let (a, calls, b) = on_small_stack(|| {
        let a = guard(|| print(doc.root(), width, &[], Target::Start, false, &Sched::DownUp));
        let calls = doc.inst.calls.get();
        let b = guard(|| print(doc.root(), width, &path, target, false, &sched));
        (a, calls, b)
    });
    let a = a.map_err(&fail)?.map_err(|e| fail(format!("printing failed: {e:?}")))?;
    if let Some(e) = a.down_err.as_ref().or(a.up_err.as_ref()) {
        return Err(fail(format!("printing failed after {} lines: {e:?}", a.lines().len())));
    }
    same_lines(&a.lines(), &l).map_err(&fail)?;
    let short = |p: &[usize]| format!("{} steps, {:?}...", p.len(), &p[..p.len().min(6)]);
    let b = b.map_err(&fail)?;
    match (b, expect) {
        (Ok(b), Expect::At(at)) => {
            if let Some(e) = b.down_err.as_ref().or(b.up_err.as_ref()) {
                return Err(fail(format!("printing from {} failed: {e:?}", short(&path))));
            }
            same_lines(&b.lines(), &l).map_err(|e| fail(format!("from {} {target:?}: {e}", short(&path))))?;
            if b.up.len() != at.line || text_of(&b.left).len() != at.off {
                return Err(fail(format!(
                    "from {} {target:?}: focus on line {} after {} bytes, expected line {} after {}",
                    short(&path), b.up.len(), text_of(&b.left).len(), at.line, at.off
                )));
            }
        }
        (Err(partial_pretty_printer::PrintingError::InvalidPath(_)), Expect::Invalid(_)) => (),
        (Ok(_), Expect::Unclear) | (Err(_), Expect::Unclear) => (),
        (Ok(_), _) => return Err(fail(format!("printing from {} succeeded", short(&path)))),
        (Err(e), _) => return Err(fail(format!("printing from {} failed: {e:?}", short(&path)))),
    }
    // The cost is proportional to the size.
    let small = scaled(dim, n / 4 + 1, &p);
    cx.evals += 1;
    on_small_stack(|| guard(|| print(small.root(), width, &[], Target::Start, false, &Sched::DownUp)))
        .map_err(&fail)?
        .map_err(|e| fail(format!("printing failed: {e:?}")))?;
    let base = small.inst.calls.get();
    // Looking ahead costs each choice up to a line, so lines must be full.
    if (n / 4 >= 4 * width as usize || dim != Dim::Choices) && calls > base * 6 + 2000 {
        return Err(fail(format!("{calls} document accesses, but {base} for {} elements", n / 4 + 1)));
    }
    Ok(n >= 400)
}

/// Replaces some texts, literals and indentations by enormous ones; how many.
pub fn blow_up(src: &mut Src, doc: &Doc) -> (Doc, usize) {
    let (mut raw, mut nodes) = (doc.raw.clone(), doc.nodes.clone());
    let mut blown = 0;
    let len = |s: &mut Src| {
        let n = *s.pick(&[65_535usize, 70_000, 65_534, 65_536, 65_537, 32_768, 131_071, 131_072, 131_075, 20_000]);
        if s.chance(1, 4) { n - s.below(8) } else { n }
    };
    for n in &mut nodes {
        if let Kind::Text(t) = &mut n.kind {
            if blown < 4 && src.chance(1, 3) {
                let k = len(src);
                *t = if src.chance(1, 4) { "漢".repeat(k / 2) + &"x".repeat(k % 2) } else { "x".repeat(k) };
                blown += 1;
            }
        }
    }
    fn blow(n: &mut N, s: &mut Src, blown: &mut usize, len: &dyn Fn(&mut Src) -> usize) {
        use Notation::*;
        match n {
            Literal(t) => {
                if *blown < 5 && !t.is_empty() && s.chance(1, 8) {
                    *t = "l".repeat(len(s));
                    *blown += 1;
                }
            }
            Indent(t, _, a) => {
                if *blown < 5 && s.chance(1, 4) {
                    *t = " ".repeat(len(s));
                    *blown += 1;
                }
                blow(a, s, blown, len)
            }
            Flat(a) | Style(_, a) => blow(a, s, blown, len),
            Concat(a, b) | Choice(a, b) | Check(_, _, a, b) => {
                blow(a, s, blown, len);
                blow(b, s, blown, len)
            }
            Count { zero, one, many } => {
                blow(zero, s, blown, len);
                blow(one, s, blown, len);
                blow(many, s, blown, len)
            }
            Fold { first, join } => {
                blow(first, s, blown, len);
                blow(join, s, blown, len)
            }
            Empty | Newline | EndOfLine | Text | Child(_) | FocusMark | Left | Right => (),
        }
    }
    for n in &mut raw {
        blow(n, src, &mut blown, &len);
    }
    (Doc::new(raw, nodes, doc.plain), blown)
}

/// Random documents in which some texts, literals and indents are enormous.
fn c18_wide(cx: &mut Cx) -> Res {
    let cfg = Cfg { long: false, max_nodes: 20, odd_unicode: false, deep: false, ..STD };
    let doc = gen_doc(&mut cx.src, &cfg);
    if repeats_too_much(&doc) {
        return cx.discard("too big for the model");
    }
    let (doc, blown) = blow_up(&mut cx.src, &doc);
    let m = Model::new(&doc);
    let wide = m.print(1 << 40, Mode::Documented, false);
    if !model_ok(&wide) {
        return cx.discard("too big for the model");
    }
    let hint = wide.lines[cx.src.below(wide.lines.len())].width;
    let width = match cx.src.below(4) {
        0 => *cx.src.pick(&[65535u16, 65534, 0, 80, 32768, 65533]),
        1 => cx.src.below(100) as u16,
        _ => (hint as i64 + cx.src.below(7) as i64 - 3).clamp(0, 65535) as u16,
    };
    let l = m.print(width as u64, Mode::Documented, false);
    if !model_ok(&l) || wide.lines.len() + l.lines.len() > 400 {
        return cx.discard("too big for the model");
    }
    let total: usize = l.lines.iter().map(|l| l.bytes).sum();
    if total > 6_000_000 {
        return cx.discard("too big for the model");
    }
    let over = l.lines.iter().any(|l| l.width >= 65535) || wide.lines.iter().any(|l| l.width >= 65535);
    if width == u16::MAX && (over || m.refused.get()) {
        // What is too wide to measure counts as 65535 columns.
        return cx.discard("lines as wide as the largest width");
    }
    cx.label_if(blown > 0, "an enormous text, literal or indentation");
    cx.label_if(over, "a line wider than the largest width");
    cx.label_if(l.choices > 0, "has a choice");
    cx.label_if(l.chose_second > 0 && l.choices > l.chose_second, "both options occur");
    cx.describe(|| {
        let mut d = String::new();
        for x in l.lines.iter().take(20) {
            d.push_str(&format!("    line of {} columns\n", x.width));
        }
        format!("width {width}, {blown} enormous pieces; expected\n{d}")
    });
    let fail = |e: String| {
        let lens: Vec<u64> = l.lines.iter().map(|l| l.width).take(30).collect();
        format!("width {width}, {blown} enormous pieces, expected line widths {lens:?}: {e}")
    };
    let (path, target, _) = gen_focus(cx, &doc, &l);
    let expect = expect_focus(&doc, &l, &path, target);
    let eol = l.err == Some(MErr::TextAfterEol);
    let a = guard(|| print(doc.root(), width, &[], Target::Start, false, &Sched::DownUp)).map_err(&fail)?;
    match a {
        Err(partial_pretty_printer::PrintingError::TextAfterEndOfLine) if eol => (),
        Err(e) => return Err(fail(format!("printing failed: {e:?}"))),
        Ok(a) => {
            if a.down_err.is_some() != eol {
                return Err(fail(format!("printing ends with {:?}, expected error: {eol}", a.down_err)));
            }
            if !eol {
                same_lines(&a.lines(), &l).map_err(&fail)?;
            }
        }
    }
    if eol {
        return Ok(false);
    }
    cx.evals += 1;
    if let Expect::At(at) = expect {
        let b = guard(|| print(doc.root(), width, &path, target, false, &Sched::UpDown))
            .map_err(&fail)?
            .map_err(|e| fail(format!("printing from {path:?} failed: {e:?}")))?;
        same_lines(&b.lines(), &l).map_err(|e| fail(format!("from {path:?} {target:?}: {e}")))?;
        if b.up.len() != at.line || text_of(&b.left).len() != at.off {
            return Err(fail(format!("from {path:?} {target:?}: the focus is in the wrong place")));
        }
    }
    // Line widths saturate.
    let r = guard(|| -> Result<(), String> {
        let (_, f, down) =
            partial_pretty_printer::pretty_print(doc.root(), width, &[], Target::Start.real(), None)
                .map_err(|e| format!("{e:?}"))?;
        let mut ws = vec![f.width() as u64];
        for x in down {
            ws.push(x.map_err(|e| format!("{e:?}"))?.width() as u64);
        }
        let want: Vec<u64> = l.lines.iter().map(|l| l.width.min(65535)).collect();
        if ws != want {
            return Err(format!("line widths {ws:?}, expected {want:?}"));
        }
        Ok(())
    })
    .map_err(&fail)?;
    r.map_err(&fail)?;
    cx.evals += 1;
    Ok(over && l.choices > 0)
}

/// Panes showing scaled or enormous content, and the largest windows.
fn c18_pane(cx: &mut Cx) -> Res {
    let s = &mut cx.src;
    let p = [s.below(5), s.below(6), s.below(6), s.below(6), s.below(6), s.below(32)];
    let (w, h) = *s.pick(&[(40u16, 12u32), (65535, 1), (65535, 3), (65534, 2), (3, 4000), (1, 30000), (0, 5), (200, 0), (32768, 4)]);
    let mut dim = *s.pick(&[Dim::Lines, Dim::Depth, Dim::Fan, Dim::Cons]);
    let mut n = *s.pick(&[40, 400, 3000]);
    // More rows than 16 bits count, all of them used.
    let far = s.chance(1, 12);
    let (w, h) = if far { (s.range(1, 3) as u16, s.range(66_000, 80_000) as u32) } else { (w, h) };
    if far {
        dim = Dim::Lines;
        n = s.range(66_000, 80_000);
    }
    let mut doc = scaled(dim, n, &p);
    if !far && s.chance(1, 3) {
        let k = *s.pick(&[65535usize, 65536, 70000, 65534, 32768]);
        let full = s.chance(1, 2);
        for n in doc.nodes.iter_mut().filter(|n| matches!(n.kind, Kind::Text(_))).take(3) {
            n.kind = Kind::Text(if full { "漢".repeat(k / 2) } else { "y".repeat(k) });
        }
        cx.label("enormous text");
    }
    let s = &mut cx.src;
    let node = s.below(doc.nodes.len());
    let opt = Opt {
        path: doc.path_to(node),
        target: if s.chance(1, 2) { Target::End } else { Target::Start },
        height: *s.pick(&[0.0f32, 0.5, 1.0, 0.3]),
        ws: *s.pick(&[WidthStrategy::Full, WidthStrategy::NoMoreThan(80), WidthStrategy::Fixed(60), WidthStrategy::NoMoreThan(65535)]),
        set_focus: s.chance(1, 2),
    };
    let unbounded = !far && s.chance(1, 4);
    let w = if unbounded { w.min(200) } else { w };
    let h = if unbounded { *s.pick(&[u32::MAX, u32::MAX - 1, 1 << 30, (1 << 24) + 4]) } else { h };
    let docp = PN::Doc { label: 0 };
    let fill = PN::Fill { ch: '#' };
    let note = match s.below(4) {
        k if unbounded => match k {
            0 | 1 => PN::Vert(vec![(PaneSize::Dynamic, docp)]),
            2 => PN::Vert(vec![(PaneSize::Fixed(2), fill), (PaneSize::Dynamic, docp)]),
            _ => PN::Vert(vec![(PaneSize::Dynamic, docp.clone()), (PaneSize::Dynamic, docp), (PaneSize::Fixed(1), fill)]),
        },
        0 => docp,
        1 => PN::Horz(vec![(PaneSize::Fixed(*s.pick(&[1u16, 5, 65535, 30000]) as usize), fill), (PaneSize::Proportional(1), docp)]),
        2 => PN::Vert(vec![(PaneSize::Dynamic, docp), (PaneSize::Proportional(usize::MAX), fill)]),
        _ => PN::Vert(vec![(PaneSize::Proportional(usize::MAX), docp), (PaneSize::Proportional(1), fill)]),
    };
    let scene = Scene { docs: vec![doc], content: vec![Some((0, opt))], note, width: w, height: h };
    cx.describe(|| format!("window {w}x{h}, {dim:?}, panes {:?}, {:?}", scene.note, scene.content));
    cx.label("pane");
    cx.label_if(unbounded, "window of unbounded height");
    cx.label_if(far, "more than 65535 rows");
    let start = thread_cpu_s();
    let r = compare_scene(cx, &scene).map_err(|e| e.chars().take(6000).collect::<String>())?;
    // Microseconds per line of the document; many seconds, when it is per row.
    // Processor time of this thread, so that a busy machine makes no difference.
    if unbounded && thread_cpu_s() - start > 4.0 {
        let mut win = Rec::new(w, h);
        let again = thread_cpu_s();
        let _ = guard(|| run_scene(&scene, &mut win));
        let t = thread_cpu_s() - again;
        if t > 4.0 {
            return Err(format!(
                "displaying a document of {} nodes in a dynamic pane of a {w}x{h} window takes {t:.1} s of work",
                scene.docs[0].nodes.len()
            ));
        }
    }
    Ok(r.is_some_and(|r| r.errs.is_empty() && r.doc_panes > 0))
}

fn thread_cpu_s() -> f64 {
    #[repr(C)]
    struct Timespec {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { s: 0, ns: 0 };
    // 3: CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0);
    t.s as f64 + t.ns as f64 / 1e9
}

pub fn c18(cx: &mut Cx) -> Res {
    match cx.src.weighted(&[6, 10, 2]) {
        0 => c18_scaled(cx),
        1 => c18_wide(cx),
        _ => c18_pane(cx),
    }
}
