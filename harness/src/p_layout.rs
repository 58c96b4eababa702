//! C01 layout, C02 width discipline, C03 focus independence, C04 focus
//! placement, C06 styles, C19 oracle, C20 metadata.

use crate::doc::{Doc, Pd, DU};
use crate::engine::{guard, Cx, Res};
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use partial_pretty_printer::{pretty_print, pretty_print_to_string, PrintingError};

/// Documents small enough for the model.
pub fn model_ok(l: &Layout) -> bool {
    !matches!(l.err, Some(MErr::TooBig))
}

pub fn gen_case(cx: &mut Cx, cfg: &Cfg) -> Option<(Doc, u16)> {
    let doc = gen_doc(&mut cx.src, cfg);
    if repeats_too_much(&doc) {
        return None;
    }
    let w = {
        let m = Model::new(&doc);
        let wide = m.print(65535, Mode::Documented, false);
        let narrow = m.print(0, Mode::Documented, false);
        if !model_ok(&wide) || !model_ok(&narrow) {
            None
        } else {
            if let Some(MErr::Mismatch(m) | MErr::Lookahead(m)) = wide.err.as_ref().or(narrow.err.as_ref()) {
                panic!("generated document does not fit its notations: {m:?}\n{}", doc.dump());
            }
            Some(gen_width(&mut cx.src, &[&wide, &narrow]))
        }
    };
    w.map(|w| (doc, w))
}

pub fn label_doc(cx: &mut Cx, doc: &Doc, l: &Layout) {
    cx.label_if(l.choices > 0, "has a choice");
    cx.label_if(l.chose_second > 0, "some choice takes option 2");
    cx.label_if(l.choices > l.chose_second && l.choices > 0, "some choice takes option 1");
    cx.label_if(l.chose_second > 0 && l.choices > l.chose_second, "both options occur");
    cx.label_if(l.lines.len() > 1, "several lines");
    cx.label_if(l.lines.len() > 8, "more than 8 lines");
    cx.label_if(l.eol_seen, "end-of-line shown");
    cx.label_if(l.err == Some(MErr::TextAfterEol), "text after end-of-line error");
    cx.label_if(doc.nodes.len() > 10, "more than 10 nodes");
    let mut depth = vec![0usize; doc.nodes.len()];
    for i in 1..doc.nodes.len() {
        depth[i] = depth[doc.nodes[i].parent] + 1;
    }
    cx.label_if(l.occs.iter().any(|o| depth[o.node] > 15), "displayed more than 15 levels deep");
    cx.label_if(l.lines.len() > 60, "more than 60 lines");
    cx.label_if(l.lines.iter().any(|l| l.width > 200), "line wider than 200");
    cx.label_if(l.occs.len() > 10, "more than 10 node occurrences");
    cx.label_if(!l.marks.is_empty(), "mark shown");
    let s: String = format!("{:?}", doc.raw);
    cx.label_if(s.contains("Fold"), "fold in notation");
    cx.label_if(s.contains("Count"), "count in notation");
    cx.label_if(s.contains("Check("), "check in notation");
    cx.label_if(s.contains("Flat("), "flat in notation");
    cx.label_if(
        l.lines.iter().any(|l| l.segs.iter().any(|s| s.from == From::Indent)),
        "indented line",
    );
    cx.label_if(
        l.lines.iter().any(|l| l.segs.iter().any(|s| s.s.chars().count() != width_of(s.s) as usize)),
        "wide or zero-width text shown",
    );
}

fn show_lines(ls: &[String]) -> String {
    ls.iter().map(|l| format!("    {l:?}\n")).collect()
}

/// Library lines from the document start against the model's.
fn compare_text(l: &Layout, res: &Result<Printed, PErr>) -> Result<(), String> {
    let eol = l.err == Some(MErr::TextAfterEol);
    let want: Vec<String> = if eol {
        l.lines[..l.lines.len() - 1].iter().map(|x| x.text()).collect()
    } else {
        l.lines.iter().map(|x| x.text()).collect()
    };
    let (got, err) = match res {
        Err(e) => (vec![], Some(e)),
        Ok(p) => {
            if !p.up.is_empty() || p.up_err.is_some() {
                return Err(format!(
                    "printing from the document start has lines above the first: {:?} {:?}",
                    p.up.iter().map(|l| text_of(l)).collect::<Vec<_>>(),
                    p.up_err
                ));
            }
            (p.lines().iter().map(|l| text_of(l)).collect::<Vec<_>>(), p.down_err.as_ref())
        }
    };
    match err {
        None if eol => {
            return Err(format!(
                "expected TextAfterEndOfLine at line {}, got no error; printed:\n{}",
                want.len(),
                show_lines(&got)
            ))
        }
        Some(PrintingError::TextAfterEndOfLine) if eol => (),
        Some(e) => return Err(format!("printing failed with {e:?} after {} lines; expected:\n{}", got.len(), show_lines(&want))),
        None => (),
    }
    if got != want {
        return Err(format!(
            "printed lines differ from the documented layout\n  expected:\n{}  got:\n{}",
            show_lines(&want),
            show_lines(&got)
        ));
    }
    Ok(())
}

/// Nodes with more children than 16 bits count: printed from the start, and
/// from a few of the children.
fn huge(cx: &mut Cx) -> Res {
    use crate::p_lazy::{same_lines, scaled, Dim};
    let s = &mut cx.src;
    let dim = *s.pick(&[Dim::Lines, Dim::Fan, Dim::Hidden]);
    let n = s.range(65_500, 80_000);
    let p = [s.below(5), s.below(6), s.below(6), s.below(6), s.below(6), s.below(32)];
    let width = *s.pick(&[40u16, 0, 1, 7, 80, 200, 65534]);
    let doc = scaled(dim, n, &p);
    let mut m = Model::new(&doc);
    m.limit = 30_000_000;
    let l = m.print(width as u64, Mode::Documented, false);
    if !model_ok(&l) || l.err.is_some() {
        return cx.discard("too big for the model");
    }
    cx.label("more than 65500 children");
    cx.describe(|| format!("{dim:?}, {n} elements, parameters {p:?}, width {width}"));
    let fail = |e: String| format!("{dim:?} with {n} elements, parameters {p:?}, width {width}: {e}");
    let a = print(doc.root(), width, &[], Target::Start, false, &Sched::DownUp)
        .map_err(|e| fail(format!("printing failed: {e:?}")))?;
    same_lines(&a.lines(), &l).map_err(&fail)?;
    for _ in 0..3 {
        let s = &mut cx.src;
        let i = match s.below(5) {
            0 => s.below(n),
            1 => n - 1 - s.below(4),
            2 => n,
            _ => 65_535 + s.below(4),
        };
        let mut path = vec![i];
        if s.chance(1, 4) {
            path.push(0);
        }
        let target = if s.chance(1, 2) { Target::End } else { Target::Start };
        let sched = if s.chance(1, 2) { Sched::UpDown } else { Sched::DownUp };
        let expect = expect_focus(&doc, &l, &path, target);
        cx.evals += 1;
        let fail = |e: String| fail(format!("from {path:?} {target:?}: {e}"));
        match (print(doc.root(), width, &path, target, false, &sched), expect) {
            (Ok(b), Expect::At(at)) => {
                same_lines(&b.lines(), &l).map_err(&fail)?;
                if b.up.len() != at.line || text_of(&b.left).len() != at.off {
                    return Err(fail(format!(
                        "focus on line {} after {} bytes, expected line {} after {}",
                        b.up.len(), text_of(&b.left).len(), at.line, at.off
                    )));
                }
            }
            (Err(PrintingError::InvalidPath(k)), Expect::Invalid(j)) if k == j => (),
            (_, Expect::Unclear) => (),
            (Ok(_), e) => return Err(fail(format!("printing succeeded, expected {e:?}"))),
            (Err(e), x) => return Err(fail(format!("error {e:?}, expected {x:?}"))),
        }
    }
    Ok(true)
}

pub fn c01(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 10_000) {
        return huge(cx);
    }
    let Some((doc, w)) = gen_case(cx, &STD) else {
        return cx.discard("too big for the model");
    };
    let m = Model::new(&doc);
    let l = m.print(w as u64, Mode::Documented, false);
    if !model_ok(&l) {
        return cx.discard("too big for the model");
    }
    label_doc(cx, &doc, &l);
    let use_default = cx.src.chance(1, 4);
    cx.describe(|| format!("width {w}\n{}output:\n{}", doc.dump(), l.text()));
    let res = if use_default {
        print(doc.root_default(), w, &[], Target::Start, false, &Sched::DownUp)
    } else {
        print(doc.root(), w, &[], Target::Start, false, &Sched::DownUp)
    };
    compare_text(&l, &res).map_err(|e| format!("{e}\n  width {w}\n{}", doc.dump()))?;
    let s = pretty_print_to_string(doc.root(), w);
    cx.evals += 1;
    match (&l.err, s) {
        (None, Ok(s)) => {
            if s != l.text() {
                return Err(format!("pretty_print_to_string gave {s:?}, expected {:?}\n  width {w}\n{}", l.text(), doc.dump()));
            }
        }
        (Some(_), Err(PrintingError::TextAfterEndOfLine)) => (),
        (e, s) => {
            return Err(format!("pretty_print_to_string gave {s:?}, expected error {e:?}\n  width {w}\n{}", doc.dump()))
        }
    }
    // a second width right at a threshold of this output
    if l.err.is_none() && l.choices > 0 && l.max_width() > 0 && l.max_width() <= 65535 {
        let w2 = (l.max_width() - 1) as u16;
        let l2 = m.print(w2 as u64, Mode::Documented, false);
        if model_ok(&l2) {
            cx.evals += 1;
            let res = print(doc.root(), w2, &[], Target::Start, false, &Sched::DownUp);
            compare_text(&l2, &res).map_err(|e| format!("{e}\n  width {w2}\n{}", doc.dump()))?;
        }
    }
    Ok(l.choices > 0 && l.lines.len() + l.occs.len() > 2)
}

pub fn c02(cx: &mut Cx) -> Res {
    let cfg = Cfg { eol: false, marks: false, wild: 10, max_nodes: 30, odd_unicode: false, deep: false, ..STD };
    let Some((doc, w)) = gen_case(cx, &cfg) else {
        return cx.discard("too big for the model");
    };
    let mut m = Model::new(&doc);
    m.limit = 200_000;
    match m.obeys_rule(m.root_item(false)) {
        Err(_) => return cx.discard("too big for the model"),
        Ok(false) => return cx.discard("breaks the choice rule"),
        Ok(true) => (),
    }
    let l = m.print(w as u64, Mode::Existential, false);
    let flat = m.print(w as u64, Mode::AllFirst, false);
    if !model_ok(&l) || !model_ok(&flat) {
        return cx.discard("too big for the model");
    }
    label_doc(cx, &doc, &l);
    let over = l.lines.iter().any(|x| x.width > w as u64);
    cx.label_if(over, "some line unavoidably too wide");
    cx.describe(|| format!("width {w}\n{}output:\n{}", doc.dump(), l.text()));
    let cxt = |e: String| format!("{e}\n  width {w}\n{}", doc.dump());
    let p = print(doc.root(), w, &[], Target::Start, false, &Sched::DownUp)
        .map_err(|e| cxt(format!("printing failed: {e:?}")))?;
    if let Some(e) = &p.down_err {
        return Err(cxt(format!("printing failed: {e:?}")));
    }
    let got: Vec<String> = p.lines().iter().map(|l| text_of(l)).collect();
    let widths: Vec<u64> = p.lines().iter().map(|l| l.iter().map(|s| s.w as u64).sum()).collect();
    let want: Vec<String> = l.lines.iter().map(|x| x.text()).collect();
    if got != want {
        return Err(cxt(format!(
            "not the best-fitting layout\n  best-fitting:\n{}  got:\n{}",
            show_lines(&want),
            show_lines(&got)
        )));
    }
    for (i, (lw, hopeless)) in widths.iter().zip(&l.hopeless).enumerate() {
        if *lw > w as u64 && !hopeless {
            return Err(cxt(format!("line {i} ({:?}) is wider than {w} although some way of resolving its choices fits", got[i])));
        }
        if *lw <= w as u64 && *hopeless {
            panic!("model: line {i} was declared hopeless but fits");
        }
    }
    // flat form fits => one line
    if flat.lines.len() == 1 && flat.max_width() <= w as u64 {
        cx.label("flat form fits");
        cx.label_if(flat.max_width() == w as u64, "flat form fits exactly");
        if got.len() != 1 || got[0] != flat.text() {
            return Err(cxt(format!("the flat form {:?} fits but this was printed:\n{}", flat.text(), show_lines(&got))));
        }
    }
    // reprinting at the widest line's width
    let ww = widths.iter().copied().max().unwrap_or(0);
    if ww <= w as u64 {
        cx.evals += 1;
        let s = pretty_print_to_string(doc.root(), ww as u16).map_err(|e| cxt(format!("reprinting failed: {e:?}")))?;
        if s != got.join("\n") {
            return Err(cxt(format!("printing again at the widest line's width {ww} changed the output\n  before:\n{}  after:\n{s}", show_lines(&got))));
        }
    }
    Ok(l.choices > 0)
}

// ---- focus points --------------------------------------------------------------

pub fn gen_target(cx: &mut Cx, doc: &Doc, node: usize) -> Target {
    match cx.src.weighted(&[3, 3, 2, 4]) {
        0 => Target::Start,
        1 => Target::End,
        2 => Target::Mark,
        _ => {
            let n = match &doc.nodes[node].kind {
                crate::doc::Kind::Text(t) => t.chars().count(),
                _ => 2,
            };
            let k = cx.src.below(n + 3);
            Target::Text(if k == n + 2 { usize::MAX } else { k })
        }
    }
}

/// Any node, preferably one that is displayed.
pub fn gen_focus_node(cx: &mut Cx, doc: &Doc, l: &Layout, target_hint: usize) -> usize {
    match target_hint {
        1 if !l.marks.is_empty() => cx.src.pick(&l.marks).0,
        2 if !l.texts.is_empty() => cx.src.pick(&l.texts).0,
        3 => cx.src.below(doc.nodes.len()),
        _ => cx.src.pick(&l.occs).node,
    }
}

pub fn gen_focus(cx: &mut Cx, doc: &Doc, l: &Layout) -> (Vec<usize>, Target, usize) {
    let hint = cx.src.below(5);
    let node = gen_focus_node(cx, doc, l, hint);
    let t = match hint {
        1 if !l.marks.is_empty() => Target::Mark,
        _ => gen_target(cx, doc, node),
    };
    (doc.path_to(node), t, node)
}

#[derive(Debug)]
pub enum Expect {
    At(At),
    Invalid(usize),
    NoMark,
    NoText,
    /// The documentation does not settle this one.
    Unclear,
}

/// Where the documentation puts the focus.
pub fn expect_focus(doc: &Doc, l: &Layout, path: &[usize], target: Target) -> Expect {
    let truncated = l.err.is_some();
    let missing = |e: Expect| if truncated { Expect::Unclear } else { e };
    // positions in l.occs of each node
    let mut at: Vec<Vec<usize>> = vec![vec![]; doc.nodes.len()];
    for (k, o) in l.occs.iter().enumerate() {
        at[o.node].push(k);
    }
    // position in l.occs of the found occurrence
    let mut cur = 0usize;
    for i in path {
        let node = l.occs[cur].node;
        let child = match doc.kids(node) {
            Some(k) if *i < k.len() => k[*i],
            _ => return missing(Expect::Invalid(*i)),
        };
        match at[child].first().copied() {
            None => return missing(Expect::Invalid(*i)),
            Some(k) => {
                // inside the parent occurrence found so far?
                let later_parent = at[node].get(1..).unwrap_or(&[]).iter().any(|j| cur < *j && *j < k);
                if later_parent {
                    return Expect::Unclear;
                }
                cur = k;
            }
        }
    }
    let occ = &l.occs[cur];
    match target {
        Target::Start => Expect::At(occ.start),
        Target::End => {
            if occ.closed {
                Expect::At(occ.end)
            } else {
                Expect::Unclear
            }
        }
        Target::Mark => match l.marks.iter().find(|m| m.0 == occ.node) {
            Some(m) => Expect::At(m.1),
            None => missing(Expect::NoMark),
        },
        Target::Text(n) => match l.texts.iter().find(|m| m.0 == occ.node) {
            Some(m) => {
                let t = match &doc.nodes[occ.node].kind {
                    crate::doc::Kind::Text(t) => t,
                    _ => unreachable!(),
                };
                let off: usize = t.chars().take(n).map(|c| c.len_utf8()).sum();
                Expect::At(At { line: m.1.line, off: m.1.off + off })
            }
            None => missing(Expect::NoText),
        },
    }
}

pub fn c04(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 8_000) {
        return huge(cx);
    }
    let cfg = Cfg { styles: false, ..STD };
    let Some((doc, w)) = gen_case(cx, &cfg) else {
        return cx.discard("too big for the model");
    };
    let m = Model::new(&doc);
    let l = m.print(w as u64, Mode::Documented, false);
    if !model_ok(&l) {
        return cx.discard("too big for the model");
    }
    let full = print(doc.root(), w, &[], Target::Start, false, &Sched::DownUp);
    if compare_text(&l, &full).is_err() {
        return cx.discard("layout differs (C01)");
    }
    label_doc(cx, &doc, &l);
    cx.describe(|| format!("width {w}\n{}output:\n{}", doc.dump(), l.text()));
    let n = cx.src.range(1, 6);
    let mut nontrivial = false;
    for _ in 0..n {
        let (mut path, target, _) = gen_focus(cx, &doc, &l);
        // sometimes a path that does not exist
        if cx.src.chance(1, 10) {
            let i = match cx.src.below(8) {
                7 => *cx.src.pick(&[100, 255, 256, 65_535, 65_536, 1 << 20, u32::MAX as usize, 1 << 40, usize::MAX]),
                k => k % 4,
            };
            path.push(i);
        }
        cx.describe(|| format!("focus {path:?} {target:?}"));
        let want = expect_focus(&doc, &l, &path, target);
        cx.evals += 1;
        let only = [Sched::UpDown, Sched::DownUp][cx.src.below(2)].clone();
        let got = print(doc.root(), w, &path, target, false, &only);
        let cxt = |e: String| {
            format!("{e}\n  path {path:?} target {target:?} width {w}\n{}  layout:\n{}", doc.dump(), l.text())
        };
        match want {
            Expect::Unclear => cx.label("focus not settled by the documentation"),
            Expect::Invalid(i) => {
                cx.label("invalid path");
                nontrivial = true;
                if !matches!(got, Err(PrintingError::InvalidPath(k)) if k == i) {
                    return Err(cxt(format!("expected InvalidPath({i}), got {}", brief(&got))));
                }
            }
            Expect::NoMark => {
                cx.label("missing mark");
                if !matches!(got, Err(PrintingError::MissingFocusMark)) {
                    return Err(cxt(format!("expected MissingFocusMark, got {}", brief(&got))));
                }
            }
            Expect::NoText => {
                cx.label("missing text");
                if !matches!(got, Err(PrintingError::MissingText)) {
                    return Err(cxt(format!("expected MissingText, got {}", brief(&got))));
                }
            }
            Expect::At(at) => {
                let eol_line = match l.err {
                    Some(MErr::TextAfterEol) => Some(l.lines.len() - 1),
                    _ => None,
                };
                if eol_line == Some(at.line) {
                    cx.label("focused line has text after end-of-line");
                    if !matches!(got, Err(PrintingError::TextAfterEndOfLine)) {
                        return Err(cxt(format!("expected TextAfterEndOfLine, got {}", brief(&got))));
                    }
                    continue;
                }
                let got = match got {
                    Ok(g) => g,
                    Err(e) => return Err(cxt(format!("expected focus at line {} offset {}, got error {e:?}", at.line, at.off))),
                };
                let line = l.lines[at.line].text();
                let (a, b) = line.split_at(at.off);
                if text_of(&got.left) != a || text_of(&got.right) != b {
                    return Err(cxt(format!(
                        "expected focus {a:?}|{b:?}, got {:?}|{:?}",
                        text_of(&got.left),
                        text_of(&got.right)
                    )));
                }
                if got.up_err.is_none() && got.up.len() != at.line {
                    return Err(cxt(format!("expected {} lines above the focus, got {}", at.line, got.up.len())));
                }
                if got.up_err.is_some() {
                    return Err(cxt(format!("error above the focus: {:?}", got.up_err)));
                }
                cx.label_if(at.line > 0, "focus below the first line");
                cx.label_if(!a.is_empty() && !b.is_empty(), "focus inside a line");
                match target {
                    Target::Start => cx.label("focus at start"),
                    Target::End => cx.label("focus at end"),
                    Target::Mark => cx.label("focus at mark"),
                    Target::Text(_) => cx.label("focus in text"),
                }
                let dup = l.occs.iter().filter(|o| doc.path_to(o.node) == path).count() > 1;
                cx.label_if(dup, "node shown several times");
                if at.line > 0 || at.off > 0 {
                    nontrivial = true;
                }
            }
        }
    }
    Ok(nontrivial)
}

pub fn brief(r: &Result<Printed, PErr>) -> String {
    match r {
        Err(e) => format!("error {e:?}"),
        Ok(p) => format!("focus {:?}|{:?} with {} lines above", text_of(&p.left), text_of(&p.right), p.up.len()),
    }
}

fn total_w(l: &[LSeg]) -> u64 {
    l.iter().map(|s| s.w as u64).sum()
}

fn same_line(a: &[LSeg], b: &[LSeg]) -> bool {
    norm(a) == norm(b) && total_w(a) == total_w(b)
}

pub fn c03(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 10_000) {
        return huge(cx);
    }
    let Some((doc, w)) = gen_case(cx, &STD) else {
        return cx.discard("too big for the model");
    };
    let m = Model::new(&doc);
    let l = m.print(w as u64, Mode::Documented, false);
    label_doc(cx, &doc, &l);
    let rs = cx.src.chance(1, 3);
    cx.describe(|| format!("width {w}\n{}output:\n{}", doc.dump(), l.text()));
    let use_default = cx.src.chance(1, 5);
    if use_default {
        c03_inner(cx, &doc, doc.root_default(), w, &l, rs)
    } else {
        c03_inner(cx, &doc, doc.root(), w, &l, rs)
    }
}

fn c03_inner<'d, P: Pd<'d>>(cx: &mut Cx, doc: &Doc, root: P, w: u16, l: &Layout, rs: bool) -> Res {
    let base = match print(root, w, &[], Target::Start, rs, &Sched::DownUp) {
        Err(_) => return cx.discard("first line cannot be printed"),
        Ok(b) => b,
    };
    let lines = base.lines();
    let truncated = base.down_err.is_some();
    let n = cx.src.range(1, 5);
    let mut nontrivial = false;
    for _ in 0..n {
        let (path, target, _) = gen_focus(cx, doc, l);
        let k = cx.src.below(12);
        let mut sched_bits = Vec::new();
        for _ in 0..k {
            sched_bits.push(cx.src.chance(1, 2));
        }
        let sched = match cx.src.below(4) {
            0 => Sched::UpDown,
            1 => Sched::DownUp,
            _ => Sched::Mix(sched_bits.clone()),
        };
        cx.describe(|| format!("focus {path:?} {target:?} {sched:?}"));
        let cxt = |e: String| {
            format!(
                "{e}\n  path {path:?} target {target:?} schedule {sched:?} width {w}\n{}  from the start:\n{}",
                doc.dump(),
                show_lines(&lines.iter().map(|l| format!("{:?}", norm(l))).collect::<Vec<_>>())
            )
        };
        cx.evals += 1;
        let p = match print(root, w, &path, target, rs, &sched) {
            Err(
                PrintingError::InvalidPath(_)
                | PrintingError::MissingFocusMark
                | PrintingError::MissingText,
            ) => {
                cx.label("focus point absent");
                continue;
            }
            Err(PrintingError::TextAfterEndOfLine) if truncated => continue,
            Err(e) => return Err(cxt(format!("unexpected error {e:?}"))),
            Ok(p) => p,
        };
        if p.unfused {
            return Err(cxt("an exhausted iterator produced another line".into()));
        }
        if p.up_err.is_some() || (p.down_err.is_some() && !truncated) {
            if truncated {
                continue; // focus lies below the unprintable line
            }
            return Err(cxt(format!("error away from the start: {:?} {:?}", p.up_err, p.down_err)));
        }
        let got = p.lines();
        if truncated && p.down_err.is_none() {
            return Err(cxt("the error seen from the start has vanished".into()));
        }
        let ok = got.len() == lines.len() && got.iter().zip(&lines).all(|(a, b)| same_line(a, b));
        if !ok {
            let k = got.iter().zip(&lines).position(|(a, b)| !same_line(a, b));
            return Err(cxt(format!(
                "lines differ (first at {k:?}; {} above the focus), got:\n{}",
                p.up.len(),
                show_lines(&got.iter().map(|l| format!("{:?} width {}", norm(l), total_w(l))).collect::<Vec<_>>())
            )));
        }
        // partial consumption
        let f = p.up.len();
        let q = match print(root, w, &path, target, rs, &Sched::Only(sched_bits.clone())) {
            Ok(q) => q,
            Err(e) => return Err(cxt(format!("second run failed: {e:?}"))),
        };
        let ups = sched_bits.iter().filter(|b| **b).count();
        let downs = sched_bits.len() - ups;
        let want_up = ups.min(f);
        let want_down = downs.min(lines.len() - f - 1);
        if q.up.len() != want_up || q.down.len() != want_down {
            return Err(cxt(format!(
                "after pulling {sched_bits:?} got {} lines up and {} down, expected {want_up} and {want_down}",
                q.up.len(),
                q.down.len()
            )));
        }
        for (i, x) in q.up.iter().enumerate() {
            if !same_line(x, &lines[f - 1 - i]) {
                return Err(cxt(format!("after pulling {sched_bits:?} line {i} above the focus is {:?}", norm(x))));
            }
        }
        for (i, x) in q.down.iter().enumerate() {
            if !same_line(x, &lines[f + 1 + i]) {
                return Err(cxt(format!("after pulling {sched_bits:?} line {i} below the focus is {:?}", norm(x))));
            }
        }
        cx.label_if(f > 0, "lines above the focus");
        cx.label_if(f > 0 && l.choices > 0, "lines above the focus, with choices");
        cx.label_if(matches!(sched, Sched::Mix(_)) && f > 0 && f + 1 < lines.len(), "interleaved in the middle");
        cx.label_if(matches!(target, Target::Text(_)), "text split");
        if lines.len() > 1 && (f > 0 || !p.left.is_empty()) {
            nontrivial = true;
        }
    }
    Ok(nontrivial)
}

/// An empty piece of text must be styled like something that is there.
fn empty_styles(line: &[LSeg], want: &MLine) -> Option<String> {
    let mut at = 0;
    for seg in line {
        if seg.s.is_empty() {
            let mut k = 0;
            let ok = want.segs.iter().any(|s| {
                let (a, b) = (k, k + s.s.len());
                k = b;
                a <= at && at <= b && s.style[..] == seg.sty[..]
            });
            if !ok {
                return Some(format!("an empty piece of text after {at} bytes has styles {:?}", seg.sty));
            }
        }
        at += seg.s.len();
    }
    None
}

pub fn c06(cx: &mut Cx) -> Res {
    let cfg = Cfg { odd_unicode: false, ..STD };
    let Some((doc, w)) = gen_case(cx, &cfg) else {
        return cx.discard("too big for the model");
    };
    let rs = cx.src.chance(1, 2);
    let m = Model::new(&doc);
    let l = m.print(w as u64, Mode::Documented, rs);
    if !model_ok(&l) {
        return cx.discard("too big for the model");
    }
    label_doc(cx, &doc, &l);
    cx.describe(|| format!("width {w} root style {rs}\n{}output:\n{}", doc.dump(), l.text()));
    let good = if l.err.is_some() { l.lines.len() - 1 } else { l.lines.len() };
    let want: Vec<Norm> = l.lines[..good].iter().map(norm_mline).collect();
    let mut nontrivial = false;
    for round in 0..3 {
        let (path, target) = if round == 0 {
            (vec![], Target::Start)
        } else {
            let (p, t, _) = gen_focus(cx, &doc, &l);
            (p, t)
        };
        cx.evals += 1;
        let p = match print(doc.root(), w, &path, target, rs, &Sched::UpDown) {
            Ok(p) => p,
            Err(_) => continue,
        };
        if p.up_err.is_some() {
            continue;
        }
        let printed = p.lines();
        let got: Vec<Norm> = printed.iter().map(|l| norm(l)).collect();
        if got.len() != want.len() {
            cx.label("layout differs (C01/C03)");
            continue;
        }
        for (i, (g, x)) in got.iter().zip(&want).enumerate() {
            if norm_text(g) != norm_text(x) {
                cx.label("layout differs (C01/C03)");
                continue;
            }
            if let Some(e) = empty_styles(&printed[i], &l.lines[i]) {
                return Err(format!(
                    "line {i}: {e}\n  expected {x:?}\n  got      {g:?}\n  path {path:?} target {target:?} width {w} root style {rs}\n{}",
                    doc.dump()
                ));
            }
            if g != x {
                return Err(format!(
                    "line {i} styled differently\n  expected {x:?}\n  got      {g:?}\n  (1 = root style, 1000+n = node n's style, 10000000+32n+l = label l looked up in node n)\n  path {path:?} target {target:?} width {w} root style {rs}\n{}",
                    doc.dump()
                ));
            }
            if x.len() > 1 {
                nontrivial = true;
            }
        }
    }
    // Styles only decorate: the same text comes out without any.
    if cx.src.chance(1, 4) {
        cx.evals += 1;
        let styled = pretty_print_to_string(doc.root(), w);
        let bare = pretty_print_to_string(DU(doc.root()), w);
        let same = match (&styled, &bare) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.to_string() == b.to_string(),
            _ => false,
        };
        if !same {
            return Err(format!("with styles {styled:?}, but without {bare:?}\n  width {w}\n{}", doc.dump()));
        }
    }
    cx.label_if(want.iter().flatten().any(|s| s.1.len() >= 4), "four or more styles combined");
    cx.label_if(
        l.lines.iter().any(|l| l.segs.iter().any(|s| s.from == From::Indent && !s.style.is_empty())),
        "styled indentation",
    );
    Ok(nontrivial)
}

pub fn c19(cx: &mut Cx) -> Res {
    let cfg = Cfg { odd_unicode: false, max_nodes: 25, deep: false, ..STD };
    let Some((mut doc, w)) = gen_case(cx, &cfg) else {
        return cx.discard("too big for the model");
    };
    if cx.src.chance(1, 400) {
        let (big, blown) = crate::p_lazy::blow_up(&mut cx.src, &doc);
        doc = big;
        cx.label_if(blown > 0, "an enormous text, literal or indentation");
    }
    // string widths: additive over characters for ordinary text
    let mut t = gen_str(&mut cx.src, &Cfg { odd_unicode: false, ..STD });
    if cx.src.chance(1, 4) {
        t.push_str(&gen_str(&mut cx.src, &STD));
    }
    let sw = partial_pretty_printer::testing::str_width(&t) as u64;
    if sw != width_of(&t) {
        return Err(format!("str_width({t:?}) = {sw}, display width is {}", width_of(&t)));
    }
    let w = w.min(9999);
    let m = Model::new(&doc);
    let l = m.print(w as u64, Mode::Documented, false);
    if !model_ok(&l) || l.steps > 8000 {
        return cx.discard("too big for the oracle");
    }
    if l.err.is_some() {
        return cx.discard("text after end-of-line");
    }
    let raw = format!("{:?}", doc.raw);
    let mut has_empty = false;
    for n in &doc.raw {
        crate::p_pane::note_strings(n, &mut |s| has_empty |= width_of(s) == 0);
    }
    for n in &doc.nodes {
        if let crate::doc::Kind::Text(t) = &n.kind {
            has_empty |= width_of(t) == 0;
        }
    }
    if raw.contains("EndOfLine") && has_empty {
        return cx.discard("empty text and end-of-line");
    }
    label_doc(cx, &doc, &l);
    cx.describe(|| format!("width {w}\n{}output:\n{}", doc.dump(), l.text()));
    let cxt = |e: String| format!("{e}\n  width {w}\n{}", doc.dump());
    let real = pretty_print_to_string(doc.root(), w).map_err(|e| cxt(format!("printing failed: {e:?}")))?;
    let oracle = guard(|| partial_pretty_printer::testing::oracular_pretty_print(doc.root(), w)).map_err(cxt)?;
    if real != oracle {
        return Err(cxt(format!("printer:\n{real}\noracle:\n{oracle}")));
    }
    Ok(l.choices > 0 && l.lines.len() > 1)
}

pub fn c20(cx: &mut Cx) -> Res {
    let Some((doc, w)) = gen_case(cx, &STD) else {
        return cx.discard("too big for the model");
    };
    let m = Model::new(&doc);
    let l = m.print(w as u64, Mode::Documented, false);
    label_doc(cx, &doc, &l);
    cx.describe(|| format!("width {w}\n{}output:\n{}", doc.dump(), l.text()));
    let base = match print(doc.root(), w, &[], Target::Start, false, &Sched::DownUp) {
        Ok(p) if p.down_err.is_none() => p.lines(),
        _ => return cx.discard("unprintable line"),
    };
    let mut nontrivial = false;
    for round in 0..4 {
        let (path, target) = if round == 0 {
            (vec![], Target::Start)
        } else {
            let (p, t, _) = gen_focus(cx, &doc, &l);
            (p, t)
        };
        let cxt = |e: String| format!("{e}\n  path {path:?} target {target:?} width {w}\n{}", doc.dump());
        cx.evals += 1;
        let Ok((up, focused, down)) = pretty_print(doc.root(), w, &path, target.real(), None) else {
            continue;
        };
        let split = if matches!(target, Target::Text(_)) {
            let a = lsegs(&focused.left_segments);
            let b = lsegs(&focused.right_segments);
            match (a.last(), b.first()) {
                (Some(x), Some(y)) => Some((a.len() - 1, x.clone(), y.clone())),
                _ => None,
            }
        } else {
            None
        };
        let fl = check_focused(focused).map_err(cxt)?;
        let mut all = Vec::new();
        for line in up {
            let Ok(line) = line else { break };
            all.push(check_line(&line).map_err(cxt)?);
        }
        all.reverse();
        let f = all.len();
        all.push(fl);
        for line in down {
            let Ok(line) = line else { break };
            all.push(check_line(&line).map_err(cxt)?);
        }
        for (i, line) in all.iter().enumerate() {
            for (j, seg) in line.iter().enumerate() {
                if seg_width_ok(seg) {
                    continue;
                }
                if let (true, Some((k, x, y))) = (i == f, &split) {
                    if j == *k || j == *k + 1 {
                        // halves of one text: together as wide as the text
                        let whole = format!("{}{}", x.s, y.s);
                        if x.w as u64 + y.w as u64 == width_of(&whole) {
                            cx.label("split text narrower than its halves");
                            continue;
                        }
                    }
                }
                return Err(cxt(format!(
                    "segment {:?} claims width {}, its display width is {}",
                    seg.s,
                    seg.w,
                    width_of(&seg.s)
                )));
            }
        }
        if all.len() != base.len() {
            cx.label("lines differ (C03)");
            continue;
        }
        for (a, b) in all.iter().zip(&base) {
            if text_of(a) == text_of(b) && total_w(a) != total_w(b) {
                return Err(cxt(format!(
                    "line {:?} is {} wide when focused here, {} when printed from the start",
                    text_of(a),
                    total_w(a),
                    total_w(b)
                )));
            }
        }
        cx.label_if(split.is_some(), "text split by the focus");
        nontrivial |= all.iter().any(|l| l.len() > 1);
    }
    Ok(nontrivial)
}
