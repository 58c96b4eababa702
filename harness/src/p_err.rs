//! C07 notation/document mismatches, C08 failing documents and windows.

use crate::doc::{DErr, Doc, Kind, Node, Pd, Sty, N};
use crate::engine::{guard, Cx, Res};
use crate::gen::*;
use crate::model::*;
use crate::p_layout::{expect_focus, gen_focus, gen_target, Expect};
use crate::p_pane::{gen_scene, run_scene, show_scene, PaneCfg, Rec, WErr};
use crate::run::*;
use crate::src::Src;
use crate::valid::flaws;
use partial_pretty_printer::pane::{PaneError, PaneNotation, PlainText};
use partial_pretty_printer::{pretty_print, pretty_print_to_string, CheckPos, Notation, PrintingError};

// ---- badly fitting documents ---------------------------------------------------------

const INDICES: [isize; 14] =
    [0, 1, -1, 2, -2, 3, -3, 4, 7, -7, isize::MAX, isize::MIN, isize::MIN + 1, isize::MAX - 1];

/// Replace some child indices.
fn skew(src: &mut Src, n: &N) -> N {
    use Notation::*;
    match n {
        Child(i) => Child(if src.chance(1, 3) { *src.pick(&INDICES) } else { *i }),
        Check(c, p, a, b) => {
            let p = match p {
                CheckPos::Here | CheckPos::Child(_) if src.chance(1, 3) => {
                    CheckPos::Child(*src.pick(&INDICES))
                }
                p => p.clone(),
            };
            let a = skew(src, a);
            check(c.clone(), p, a, skew(src, b))
        }
        Flat(a) => flat(skew(src, a)),
        Indent(s, l, a) => Indent(s.clone(), l.clone(), Box::new(skew(src, a))),
        Style(l, a) => Style(l.clone(), Box::new(skew(src, a))),
        Concat(a, b) => {
            let a = skew(src, a);
            cat(a, skew(src, b))
        }
        Choice(a, b) => {
            let a = skew(src, a);
            alt(a, skew(src, b))
        }
        Count { zero, one, many } => {
            let z = skew(src, zero);
            let o = skew(src, one);
            count(z, o, skew(src, many))
        }
        Fold { first, join } => {
            let f = skew(src, first);
            fold(f, skew(src, join))
        }
        Literal(_) | Empty | Newline | EndOfLine | Text | FocusMark | Left | Right => n.clone(),
    }
}

/// Documents that need not fit their notations at all.
pub fn gen_misfit(src: &mut Src, cfg: &Cfg) -> Doc {
    let ns = src.range(2, 4);
    let mut shapes = vec![Shape::Text];
    for _ in 1..ns {
        shapes.push(gen_shape(src));
    }
    let mut notes = Vec::new();
    for s in &shapes {
        let n = if src.chance(1, 5) {
            let mut found = None;
            for _ in 0..4 {
                let r = gen_raw(src, 3);
                if flaws(&r).is_empty() {
                    found = Some(no_breaks(&r));
                    break;
                }
            }
            found.unwrap_or_else(|| gen_notation(src, cfg, *s))
        } else {
            gen_notation(src, cfg, *s)
        };
        let n = if src.chance(1, 3) {
            let m = skew(src, &n);
            if flaws(&m).is_empty() {
                m
            } else {
                n
            }
        } else {
            n
        };
        notes.push(n);
    }
    let cfg = &Cfg { broad: cfg.broad && notes.iter().all(|n| lefts(n) <= 1), ..*cfg };
    let mut nodes = gen_tree(src, cfg, &shapes);
    let k = src.range(1, 5);
    for _ in 0..k {
        let i = if src.chance(1, 3) { 0 } else { src.below(nodes.len()) };
        match src.below(7) {
            0 => nodes[i].note = src.below(notes.len()),
            1 => nodes[i].kind = Kind::Text(gen_str(src, cfg)),
            2 => nodes[i].kind = Kind::Kids(vec![]),
            3 => {
                if let Kind::Kids(v) = &mut nodes[i].kind {
                    v.pop();
                }
            }
            4 => {
                if let Kind::Kids(v) = &mut nodes[i].kind {
                    v.truncate(1);
                }
            }
            _ => {
                if let Kind::Kids(v) = &nodes[i].kind {
                    let mut v = v.clone();
                    let n = nodes.len();
                    nodes.push(Node {
                        note: 0,
                        kind: Kind::Text(gen_str(src, cfg)),
                        conds: src.below(8) as u8,
                        id: 0xabcd_0000 + n as u64,
                        styled: false,
                        parent: 0,
                        index: 0,
                    });
                    let at = src.below(v.len() + 1);
                    v.insert(at, n);
                    nodes[i].kind = Kind::Kids(v);
                }
            }
        }
    }
    Doc::new(notes, nodes, !cfg.styles)
}

/// Raw notations may have control characters in their strings.
pub fn no_breaks(n: &N) -> N {
    use Notation::*;
    let b = |x: &N| Box::new(no_breaks(x));
    let t = |s: &str| s.replace(|c: char| c.is_control(), "~");
    match n {
        Literal(s) => Literal(t(s)),
        Flat(a) => Flat(b(a)),
        Indent(s, l, a) => Indent(t(s), l.clone(), b(a)),
        Style(l, a) => Style(l.clone(), b(a)),
        Concat(x, y) => Concat(b(x), b(y)),
        Choice(x, y) => Choice(b(x), b(y)),
        Check(c, p, x, y) => Check(c.clone(), p.clone(), b(x), b(y)),
        Count { zero, one, many } => Count { zero: b(zero), one: b(one), many: b(many) },
        Fold { first, join } => Fold { first: b(first), join: b(join) },
        Child(_) | Empty | Newline | EndOfLine | Text | FocusMark | Left | Right => n.clone(),
    }
}

fn as_mismatch(e: &PErr) -> Option<Mismatch> {
    use PrintingError::*;
    Some(match e {
        TextNotationOnTextlessDoc => Mismatch::TextOnTextless,
        ChildIndexOutOfBounds { index, len } => Mismatch::ChildIndex { index: *index, len: *len },
        ChildNotationOnChildlessDoc => Mismatch::ChildOnChildless,
        CheckPosChildIndexOutOfBounds { index, len } => {
            Mismatch::CheckPosIndex { index: *index, len: *len }
        }
        CheckPosChildOnChildlessDoc => Mismatch::CheckPosOnChildless,
        CountNotationOnChildlessDoc => Mismatch::CountOnChildless,
        NumChildrenChanged => Mismatch::FoldOnChildless,
        _ => return None,
    })
}

fn gen_path(src: &mut Src, doc: &Doc) -> (Vec<usize>, usize) {
    let mut path = vec![];
    let mut n = 0;
    while path.len() < 6 {
        let k = doc.kids(n).map_or(0, |k| k.len());
        if k == 0 || src.chance(1, 3) {
            if src.chance(1, 4) {
                path.push(*src.pick(&[0usize, 1, 2, 5, usize::MAX, isize::MAX as usize + 1]));
            }
            break;
        }
        let i = src.below(k);
        path.push(i);
        n = doc.kids(n).unwrap()[i];
    }
    (path, n)
}

pub fn c07(cx: &mut Cx) -> Res {
    let cfg = Cfg { max_nodes: 25, deep: false, ..STD };
    let doc = gen_misfit(&mut cx.src, &cfg);
    doc.inst.fuel.set(3_000_000);
    if repeats_too_much(&doc) {
        return cx.discard("a fold repeats too much");
    }
    let m = Model::new(&doc);
    let mut all = Vec::new();
    let complete = m.all_mismatches(m.root_item(false), &mut all).is_ok();
    let width = gen_width(&mut cx.src, &[]);
    let l = m.print(width as u64, Mode::Documented, false);
    if !model_ok_(&l) {
        return cx.discard("too big for the model");
    }
    let unavoidable = {
        let m = Model::new(&doc);
        m.unavoidable_mismatch(m.root_item(false)).unwrap_or(false)
    };
    let may_eol = format!("{:?}", doc.raw).contains("EndOfLine");
    cx.describe(|| {
        format!("width {width}\n{}mismatches {all:?}\nmodel: {:?}\n{}", doc.dump(), l.err, l.text())
    });
    cx.label_if(!complete, "too many layouts to list all mismatches");
    cx.label_if(all.is_empty() && complete, "everything fits");
    cx.label_if(all.len() > 1, "several mismatches");
    cx.label_if(unavoidable, "unavoidable mismatch");
    for x in &all {
        cx.label(match x {
            Mismatch::TextOnTextless => "text on textless node",
            Mismatch::ChildIndex { .. } => "child index out of bounds",
            Mismatch::ChildOnChildless => "child of a text node",
            Mismatch::CheckPosIndex { .. } => "check index out of bounds",
            Mismatch::CheckPosOnChildless => "child check on a text node",
            Mismatch::CountOnChildless => "count on a text node",
            Mismatch::FoldOnChildless => "fold on a text node",
        });
    }
    let rounds = cx.src.range(1, 3);
    let mut nontrivial = false;
    for round in 0..=rounds {
        let (path, target) = if round == 0 {
            (vec![], Target::Start)
        } else {
            let (p, n) = gen_path(&mut cx.src, &doc);
            let t = gen_target(cx, &doc, n);
            (p, t)
        };
        let sched = if round == 0 || cx.src.chance(1, 2) { Sched::DownUp } else { Sched::UpDown };
        let use_default = cx.src.chance(1, 4);
        cx.evals += 1;
        doc.reset();
        let cxt = |e: String| {
            format!(
                "{e}\n  path {path:?} target {target:?} {sched:?} width {width}\n{}  all mismatches: {all:?}\n  model: {:?} after {} lines",
                doc.dump(),
                l.err,
                l.lines.len() - 1
            )
        };
        let res = guard(|| {
            if use_default {
                print(doc.root_default(), width, &path, target, false, &sched)
            } else {
                print(doc.root(), width, &path, target, false, &sched)
            }
        })
        .map_err(cxt)?;
        if let Some(c) = doc.inst.contract.borrow().as_ref() {
            return Err(cxt(format!("the document API was misused: {c}")));
        }
        let mut errors: Vec<PErr> = Vec::new();
        let mut above_error = false;
        let got: Option<Vec<String>> = match res {
            Err(e) => {
                errors.push(e);
                None
            }
            Ok(p) => {
                above_error = p.up_err.is_some();
                let ls = p.lines().iter().map(|l| text_of(l)).collect();
                errors.extend(p.up_err);
                errors.extend(p.down_err);
                Some(ls)
            }
        };
        for e in &errors {
            match e {
                PrintingError::PrettyDoc(DErr::Fuel) => {
                    return Err(cxt("printing did not finish within 3,000,000 document accesses".into()))
                }
                PrintingError::PrettyDoc(e) => return Err(cxt(format!("made-up document error {e:?}"))),
                PrintingError::TextAfterEndOfLine => {
                    if !may_eol {
                        return Err(cxt("TextAfterEndOfLine without any end-of-line".into()));
                    }
                }
                PrintingError::InvalidPath(i) => {
                    if !path.contains(i) {
                        return Err(cxt(format!("InvalidPath({i}), which is not in the path")));
                    }
                }
                PrintingError::MissingFocusMark => {
                    if target != Target::Mark {
                        return Err(cxt("MissingFocusMark, but no mark was asked for".into()));
                    }
                }
                PrintingError::MissingText => {
                    if !matches!(target, Target::Text(_)) {
                        return Err(cxt("MissingText, but no text position was asked for".into()));
                    }
                }
                e => {
                    let Some(x) = as_mismatch(e) else {
                        return Err(cxt(format!("unexpected error {e:?}")));
                    };
                    nontrivial = true;
                    if complete && !all.contains(&x) {
                        return Err(cxt(format!("reported {e:?}, but the document contains no such mismatch")));
                    }
                }
            }
        }
        let mismatch = errors.iter().any(|e| as_mismatch(e).is_some());
        cx.label_if(mismatch, "mismatch reported");
        // required errors
        match &l.err {
            Some(MErr::Mismatch(_) | MErr::TextAfterEol) if errors.is_empty() => {
                return Err(cxt(format!(
                    "the layout needs {:?}, but printing reported no error",
                    l.err
                )));
            }
            _ => (),
        }
        if unavoidable && errors.is_empty() {
            return Err(cxt("every layout needs an impossible item, but printing reported no error".into()));
        }
        if let (true, true, Some(e)) = (complete && all.is_empty(), l.err.is_none(), errors.first()) {
            let focus_error = matches!(
                e,
                PrintingError::InvalidPath(_) | PrintingError::MissingFocusMark | PrintingError::MissingText
            );
            if !focus_error {
                return Err(cxt(format!("everything fits, but printing reported {e:?}")));
            }
        }
        // the lines that were printed are the right ones
        if let Some(got) = got {
            if !above_error {
                let good = if l.err.is_some() { l.lines.len() - 1 } else { l.lines.len() };
                let displayed = matches!(l.err, Some(MErr::Mismatch(_) | MErr::TextAfterEol) | None);
                if got.len() > good && displayed {
                    return Err(cxt(format!("printed {} lines, but only {good} are printable", got.len())));
                }
                for (i, (g, w)) in got.iter().zip(&l.lines[..good]).enumerate() {
                    if *g != w.text() {
                        return Err(cxt(format!("line {i} is {g:?}, expected {:?}", w.text())));
                    }
                }
                if errors.is_empty() && l.err.is_none() && got.len() != good {
                    return Err(cxt(format!("printed {} lines, expected {good}", got.len())));
                }
            }
        }
        if round == 0 {
            let s = guard(|| pretty_print_to_string(doc.root(), width)).map_err(cxt)?;
            if s.is_err() != !errors.is_empty() {
                return Err(cxt(format!(
                    "pretty_print_to_string gave {s:?}, printing line by line reported {errors:?}"
                )));
            }
        } else if !path.is_empty() && cx.src.chance(1, 6) {
            // and in a pane
            cx.evals += 1;
            let mut win: PlainText<Sty> = PlainText::new(width.min(60), 12);
            let note: PaneNotation<(), Sty> = PaneNotation::Doc { label: () };
            let opt = partial_pretty_printer::pane::PrintingOptions {
                focus_path: path.clone(),
                focus_target: target.real(),
                focus_height: 0.5,
                width_strategy: partial_pretty_printer::pane::WidthStrategy::Full,
                set_focus: true,
            };
            let r = guard(|| {
                partial_pretty_printer::pane::display_pane(&mut win, &note, &Sty::default(), &|_| {
                    Some((doc.root(), opt.clone()))
                })
            })
            .map_err(cxt)?;
            cx.label("shown in a pane");
            if let Err(e) = r {
                let ok = match &e {
                    PaneError::PrintingError(PrintingError::PrettyDoc(_)) => false,
                    PaneError::PrintingError(e) => match as_mismatch(e) {
                        Some(x) => !complete || all.contains(&x),
                        None => true,
                    },
                    _ => false,
                };
                if !ok {
                    return Err(cxt(format!("displaying the document failed with {e:?}")));
                }
            }
        }
    }
    Ok(nontrivial)
}

fn model_ok_(l: &Layout) -> bool {
    !matches!(l.err, Some(MErr::TooBig))
}

// ---- C08 --------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Focused(Vec<(String, u16, Vec<u32>)>, Vec<(String, u16, Vec<u32>)>),
    Line(bool, Vec<(String, u16, Vec<u32>)>),
    End(bool),
    Err(String),
    DocErr(DErr),
}

fn flat_line(l: &LLine) -> Vec<(String, u16, Vec<u32>)> {
    l.iter().map(|s| (s.s.clone(), s.w, s.sty.clone())).collect()
}

fn out_err(e: PErr) -> Out {
    match e {
        PrintingError::PrettyDoc(e) => Out::DocErr(e),
        e => Out::Err(format!("{e:?}")),
    }
}

/// Every operation's result, with the number of document calls made by then.
fn record<'d, P: Pd<'d>>(
    doc: &Doc,
    root: P,
    width: u16,
    path: &[usize],
    target: Target,
    rs: bool,
    sched: &[bool],
) -> Vec<(Out, u64)> {
    let style = Sty(vec![crate::doc::ROOT_ATOM]);
    let mut ops = Vec::new();
    let calls = || doc.inst.calls.get();
    match pretty_print(root, width, path, target.real(), if rs { Some(&style) } else { None }) {
        Err(e) => ops.push((out_err(e), calls())),
        Ok((mut up, f, mut down)) => {
            ops.push((
                Out::Focused(flat_line(&lsegs(&f.left_segments)), flat_line(&lsegs(&f.right_segments))),
                calls(),
            ));
            let mut done = [false, false];
            let mut i = 0;
            while !(done[0] && done[1]) && ops.len() < 3000 {
                let is_up = match sched.get(i) {
                    Some(b) => *b,
                    None => done[0],
                };
                i += 1;
                let slot = if is_up { 1 } else { 0 };
                if done[slot] {
                    continue;
                }
                let item = if is_up { up.next() } else { down.next() };
                let o = match item {
                    None => {
                        done[slot] = true;
                        Out::End(is_up)
                    }
                    Some(Err(e)) => {
                        // what follows an error is unspecified
                        done[slot] = true;
                        out_err(e)
                    }
                    Some(Ok(l)) => Out::Line(is_up, flat_line(&lsegs(&l.segments))),
                };
                let fatal = matches!(o, Out::DocErr(_));
                ops.push((o, calls()));
                if fatal {
                    break;
                }
            }
        }
    }
    ops
}

pub fn c08(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 4) {
        return c08_panes(cx);
    }
    let cfg = Cfg { max_nodes: 25, deep: false, ..STD };
    let misfit = cx.src.chance(1, 4);
    let doc = if misfit { gen_misfit(&mut cx.src, &cfg) } else { gen_doc(&mut cx.src, &cfg) };
    if repeats_too_much(&doc) {
        return cx.discard("a fold repeats too much");
    }
    doc.inst.fuel.set(3_000_000);
    let (width, l_steps) = {
        let m = Model::new(&doc);
        let l = m.print(30, Mode::Documented, false);
        if !model_ok_(&l) {
            return cx.discard("too big for the model");
        }
        (gen_width(&mut cx.src, &[&l]), l.steps)
    };
    if l_steps > 20_000 {
        return cx.discard("too big for the model");
    }
    let (path, target) = if misfit || cx.src.chance(1, 8) {
        let (path, n) = gen_path(&mut cx.src, &doc);
        let t = gen_target(cx, &doc, n);
        (path, t)
    } else {
        let m = Model::new(&doc);
        let l = m.print(width as u64, Mode::Documented, false);
        let (mut path, mut t, _) = gen_focus(cx, &doc, &l);
        for _ in 0..3 {
            if matches!(expect_focus(&doc, &l, &path, t), Expect::At(_)) {
                break;
            }
            let f = gen_focus(cx, &doc, &l);
            path = f.0;
            t = f.1;
        }
        (path, t)
    };
    let rs = cx.src.chance(1, 3);
    let bits = cx.src.below(10);
    let mut sched: Vec<bool> = Vec::new();
    for _ in 0..bits {
        sched.push(cx.src.chance(1, 2));
    }
    if cx.src.chance(1, 2) {
        sched.extend(vec![true; 50]);
    }
    let use_default = cx.src.chance(1, 3);
    cx.describe(|| format!("width {width} path {path:?} target {target:?} {sched:?}\n{}", doc.dump()));
    let run = |default: bool| {
        if default {
            record(&doc, doc.root_default(), width, &path, target, rs, &sched)
        } else {
            record(&doc, doc.root(), width, &path, target, rs, &sched)
        }
    };
    let cxt = |e: String| {
        format!(
            "{e}\n  path {path:?} target {target:?} width {width} schedule {sched:?} (true = up), default child operations: {use_default}\n{}",
            doc.dump()
        )
    };
    doc.reset();
    let base = guard(|| run(use_default)).map_err(cxt)?;
    let breach = doc.inst.contract.borrow().clone();
    if let Some(c) = breach {
        return Err(cxt(format!("the document API was misused: {c}")));
    }
    // a document relying on the default child operations prints the same
    doc.reset();
    cx.evals += 1;
    let other = guard(|| run(!use_default)).map_err(cxt)?;
    let breach = doc.inst.contract.borrow().clone();
    if let Some(c) = breach {
        return Err(cxt(format!("the document API was misused: {c}")));
    }
    let outs = |v: &[(Out, u64)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    if outs(&base) != outs(&other) {
        let k = outs(&base).iter().zip(outs(&other)).position(|(a, b)| *a != b);
        return Err(cxt(format!(
            "implementing the optional child operations changes operation {k:?}: {:?} with default {use_default}, {:?} with default {}",
            k.map(|k| &base[k].0),
            k.map(|k| &other[k].0),
            !use_default
        )));
    }
    let total = base.last().unwrap().1;
    let max = if cx.thorough { 400 } else { 60 };
    let ks: Vec<u64> = if total <= max {
        (0..total).collect()
    } else {
        let mut v = vec![0, total - 1];
        for _ in 0..max - 2 {
            v.push(cx.src.below(total as usize) as u64);
        }
        v.sort();
        v.dedup();
        v
    };
    cx.label_if(total <= max, "every call failed in turn");
    cx.label_if(misfit, "badly fitting document");
    cx.label_if(base.len() > 3, "several lines");
    cx.label_if(base.iter().filter(|o| matches!(o.0, Out::Line(true, _))).count() > 0, "lines above the focus");
    cx.label_if(base.iter().any(|o| matches!(o.0, Out::Err(_))), "ends in another error");

    for k in &ks {
        let k = *k;
        doc.reset();
        doc.inst.fail_at.set(k);
        cx.evals += 1;
        let got = guard(|| run(use_default))
            .map_err(|e| cxt(format!("when document call {k} fails: {e}")))?;
        let at = base.iter().position(|o| o.1 > k).unwrap();
        for (i, (g, b)) in got.iter().zip(&base).enumerate().take(at) {
            if g.0 != b.0 {
                return Err(cxt(format!(
                    "when document call {k} fails (during operation {at}), operation {i} already changes: {:?} became {:?}",
                    b.0, g.0
                )));
            }
        }
        match got.get(at) {
            Some((Out::DocErr(DErr::Injected(j)), _)) if *j == k => (),
            g => {
                return Err(cxt(format!(
                    "document call {k} failed during operation {at}, which then gave {:?} (without the failure: {:?})",
                    g.map(|g| &g.0),
                    base[at].0
                )))
            }
        }
        cx.sub_nontrivial += 1;
    }
    // and through pretty_print_to_string
    doc.reset();
    let s = guard(|| pretty_print_to_string(doc.root(), width)).map_err(cxt)?;
    let total = doc.inst.calls.get();
    if s.is_ok() && total > 0 {
        for _ in 0..4 {
            let k = cx.src.below(total as usize) as u64;
            doc.reset();
            doc.inst.fail_at.set(k);
            cx.evals += 1;
            match guard(|| pretty_print_to_string(doc.root(), width)).map_err(cxt)? {
                Err(PrintingError::PrettyDoc(DErr::Injected(j))) if j == k => (),
                r => {
                    return Err(cxt(format!(
                        "pretty_print_to_string gave {r:?} although document call {k} failed"
                    )))
                }
            }
        }
    }
    Ok(total > 3)
}

fn c08_panes(cx: &mut Cx) -> Res {
    let c = PaneCfg {
        labels: 2,
        fill: 2,
        doc: 6,
        dynamic: 4,
        huge: 0,
        bad_dynamic: 0,
        depth: cx.src.below(3),
        max_kids: 3, eol: false,
    };
    let Some(mut s) = gen_scene(cx, &c, 2, false) else {
        return cx.discard("too big for the model");
    };
    // Mostly small windows, in which many failures can be tried.
    let big = cx.src.chance(1, 12);
    if !big {
        s.width = s.width.min(24);
        s.height = s.height.min(10);
    }
    cx.label("pane display");
    cx.describe(|| show_scene(&s));
    let cxt = |e: String| format!("{e}\n{}", show_scene(&s));
    for d in &s.docs {
        d.reset();
    }
    let mut win = Rec::new(s.width, s.height);
    let base = guard(|| run_scene(&s, &mut win)).map_err(cxt)?;
    if base.is_err() {
        return cx.discard("focus absent");
    }
    for d in &s.docs {
        if let Some(c) = d.inst.contract.borrow().as_ref() {
            return Err(cxt(format!("the document API was misused: {c}")));
        }
    }
    let calls = win.calls.borrow().clone();
    let ops = win.ops.get();
    let doc_calls: Vec<u64> = s.docs.iter().map(|d| d.inst.calls.get()).collect();
    let tries = match (big, cx.thorough) {
        (true, false) => 8,
        (true, true) => 24,
        (false, false) => 16,
        (false, true) => 60,
    };
    cx.label_if(s.height > 24, "pane display in a tall window");
    let mut tried = std::collections::BTreeSet::new();
    for t in 0..tries {
        let k = if t == 0 { 0 } else { cx.src.below(ops as usize) as u64 };
        for d in &s.docs {
            d.reset();
        }
        let mut win = Rec::new(s.width, s.height);
        win.fail_at = k;
        cx.evals += 1;
        let r = guard(|| run_scene(&s, &mut win)).map_err(cxt)?;
        match r {
            Err(PaneError::PrettyWindowError(WErr(j))) if j == k => (),
            r => return Err(cxt(format!("window operation {k} failed, but displaying gave {r:?}"))),
        }
        if win.ops.get() != k + 1 {
            return Err(cxt(format!(
                "window operation {k} failed, but {} more were made afterwards",
                win.ops.get() - k - 1
            )));
        }
        let got = win.calls.borrow();
        if calls.get(..got.len()) != Some(&got[..]) {
            return Err(cxt(format!("window operation {k} failed, which changed what was drawn before it")));
        }
        cx.sub_nontrivial += tried.insert(k) as u64;
    }
    for (i, total) in doc_calls.iter().enumerate() {
        if *total == 0 {
            continue;
        }
        tried.clear();
        for t in 0..tries {
            let k = if t == 0 { *total - 1 } else { cx.src.below(*total as usize) as u64 };
            for d in &s.docs {
                d.reset();
            }
            s.docs[i].inst.fail_at.set(k);
            let mut win = Rec::new(s.width, s.height);
            cx.evals += 1;
            let r = guard(|| run_scene(&s, &mut win)).map_err(cxt)?;
            match r {
                Err(PaneError::PrintingError(PrintingError::PrettyDoc(DErr::Injected(j)))) if j == k => (),
                r => {
                    return Err(cxt(format!(
                        "call {k} to document {i} failed, but displaying gave {r:?}"
                    )))
                }
            }
            cx.sub_nontrivial += tried.insert(k) as u64;
        }
    }
    cx.label_if(doc_calls.iter().any(|c| *c > 0), "pane display with documents");
    Ok(ops > 2)
}
