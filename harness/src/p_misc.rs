//! C21 printings do not affect each other, C22 displayed forms and messages.

use crate::doc::{DErr, Doc, Kind, Node, Pd, Sty, N, ROOT_ATOM};
use crate::engine::{guard, Cx, Res};
use crate::gen::*;
use crate::model::*;
use crate::p_json::*;
use crate::p_layout::{expect_focus, gen_focus, label_doc, model_ok, Expect};
use crate::p_pane::{compare_scene, gen_scene, run_scene, show_scene, PaneCfg, Rec};
use crate::run::*;
use crate::src::Src;
use crate::valid::flaws;
use partial_pretty_printer::pane::PaneError;
use partial_pretty_printer::testing::oracular_pretty_print;
use partial_pretty_printer::{
    pretty_print, pretty_print_to_string, CheckPos, Notation, NotationError, Pos, PrintingError, Size,
};
use std::error::Error;

// ---- C21 ---------------------------------------------------------------------

type Lines<'d> = Box<dyn Iterator<Item = Result<LLine, PErr>> + 'd>;

/// A printing that was asked for, and what it should show.
struct Plan<'a> {
    doc: usize,
    width: u16,
    path: Vec<usize>,
    target: Target,
    root_style: bool,
    default_ops: bool,
    layout: &'a Layout<'a>,
    /// Where the focus is; None when the line cannot be printed.
    at: Option<At>,
}

struct Live<'d> {
    up: Lines<'d>,
    down: Lines<'d>,
    ups: usize,
    downs: usize,
    up_done: bool,
    down_done: bool,
}

fn start<'d, P: Pd<'d> + 'd>(root: P, p: &Plan) -> Result<(LLine, LLine, Lines<'d>, Lines<'d>), PErr> {
    let rs = Sty(vec![ROOT_ATOM]);
    let rs = if p.root_style { Some(&rs) } else { None };
    let (up, f, down) = pretty_print(root, p.width, &p.path, p.target.real(), rs)?;
    let (l, r) = (lsegs(&f.left_segments), lsegs(&f.right_segments));
    Ok((
        l,
        r,
        Box::new(up.map(|l| l.map(|l| lsegs(&l.segments)))),
        Box::new(down.map(|l| l.map(|l| lsegs(&l.segments)))),
    ))
}

fn begin<'d>(docs: &'d [Doc], p: &Plan) -> Result<Option<Live<'d>>, String> {
    let d = &docs[p.doc];
    let got = if p.default_ops { start(d.root_default(), p) } else { start(d.root(), p) };
    match (got, p.at) {
        (Err(PrintingError::TextAfterEndOfLine), None) => Ok(None),
        (Err(e), _) => Err(format!("starting it failed with {e:?}")),
        (Ok(_), None) => Err("starting it did not fail with TextAfterEndOfLine".into()),
        (Ok((l, r, up, down)), Some(at)) => {
            let mut line = l.clone();
            line.extend(r);
            let want = norm_mline(&p.layout.lines[at.line]);
            if norm(&line) != want || text_of(&l).len() != at.off {
                return Err(format!(
                    "the focused line is {:?}, split after {} bytes, expected {want:?}, split after {}",
                    norm(&line),
                    text_of(&l).len(),
                    at.off
                ));
            }
            Ok(Some(Live { up, down, ups: 0, downs: 0, up_done: false, down_done: false }))
        }
    }
}

/// Pull one line. Whether anything came is in `*_done`.
fn pull(p: &Plan, s: &mut Live, is_up: bool) -> Result<(), String> {
    let at = p.at.unwrap().line;
    let l = p.layout;
    let bad = if l.err.is_some() { l.lines.len() - 1 } else { usize::MAX };
    let (item, row, was_done) = if is_up {
        (s.up.next(), at.checked_sub(s.ups + 1), s.up_done)
    } else {
        let row = at + s.downs + 1;
        (s.down.next(), Some(row).filter(|r| *r < l.lines.len()), s.down_done)
    };
    if was_done {
        return match item {
            Some(Ok(_)) if row != Some(bad) => Err("an exhausted printing went on".into()),
            _ => Ok(()),
        };
    }
    let dir = if is_up { "above" } else { "below" };
    match (item, row) {
        (None, None) => (),
        (Some(Err(PrintingError::TextAfterEndOfLine)), Some(r)) if r == bad => (),
        (Some(Ok(line)), Some(r)) if r != bad => {
            let want = norm_mline(&l.lines[r]);
            if norm(&line) != want {
                return Err(format!("line {r} ({dir} the focus) is {:?}, expected {want:?}", norm(&line)));
            }
            if is_up {
                s.ups += 1
            } else {
                s.downs += 1
            }
            return Ok(());
        }
        (got, row) => {
            return Err(format!(
                "pulling {dir} the focus gave {:?}, expected line {row:?} of {}{}",
                got.map(|g| g.map(|l| norm(&l))),
                l.lines.len(),
                if bad == usize::MAX { "" } else { ", the last of which cannot be printed" }
            ))
        }
    }
    if is_up {
        s.up_done = true
    } else {
        s.down_done = true
    }
    Ok(())
}

/// Change what the document says without changing its shape.
fn edit(src: &mut Src, cfg: &Cfg, raw: &mut [N], nodes: &mut [Node], log: &mut Vec<String>) {
    let i = src.below(nodes.len());
    match src.weighted(&[4, 2, 2, 3, 2, 2]) {
        0 => {
            let texts: Vec<usize> = (0..nodes.len()).filter(|i| matches!(nodes[*i].kind, Kind::Text(_))).collect();
            if !texts.is_empty() {
                let i = *src.pick(&texts);
                let t = gen_str(src, cfg);
                log.push(format!("node {i} now says {t:?}"));
                nodes[i].kind = Kind::Text(t);
            }
        }
        1 => {
            nodes[i].conds = src.below(8) as u8;
            log.push(format!("node {i}'s conditions now are {:b}", nodes[i].conds));
        }
        2 => {
            nodes[i].styled ^= true;
            log.push(format!("node {i} now is styled: {}", nodes[i].styled));
        }
        3 => {
            let many: Vec<usize> =
                (0..nodes.len()).filter(|i| matches!(&nodes[*i].kind, Kind::Kids(k) if k.len() > 1)).collect();
            if !many.is_empty() {
                let i = *src.pick(&many);
                let Kind::Kids(k) = &mut nodes[i].kind else { unreachable!() };
                let (a, b) = (src.below(k.len()), src.below(k.len()));
                k.swap(a, b);
                log.push(format!("node {i}'s children {a} and {b} have changed places"));
            }
        }
        4 => {
            let k = src.below(raw.len());
            let old = raw[k].clone();
            let new = match src.below(4) {
                0 => flat(old),
                1 => ind("| ", None, old),
                2 => cat(lit("#"), old),
                _ => alt(old.clone(), old),
            };
            if flaws(&new).is_empty() {
                log.push(format!("notation {k} now is {new}"));
                raw[k] = new;
            }
        }
        _ => {
            let k = 1 + src.below(nodes.len());
            let ids: Vec<u64> = nodes.iter().map(|n| n.id).collect();
            for (i, n) in nodes.iter_mut().enumerate() {
                n.id = ids[(i + k) % ids.len()];
            }
            log.push(format!("each node now has the id of the {k}th one after it"));
        }
    }
}

/// Whether text or an empty string follows an end-of-line: the oracle's
/// answer is not prescribed there.
fn round(cx: &mut Cx, docs: &[Doc], history: &str) -> Result<Option<bool>, String> {
    let models: Vec<Model> = docs.iter().map(Model::new).collect();
    // what each document looks like at some widths
    let mut layouts: Vec<(usize, u16, bool, Layout)> = vec![];
    for (i, m) in models.iter().enumerate() {
        let wide = m.print(65535, Mode::Documented, false);
        let narrow = m.print(0, Mode::Documented, false);
        if !model_ok(&wide) || !model_ok(&narrow) {
            return Ok(None);
        }
        let n = cx.src.range(1, 3);
        for _ in 0..n {
            let w = gen_width(&mut cx.src, &[&wide, &narrow]);
            let rs = cx.src.chance(1, 4);
            let l = m.print(w as u64, Mode::Documented, rs);
            if !model_ok(&l) || matches!(l.err, Some(MErr::Mismatch(_) | MErr::Lookahead(_))) {
                return Ok(None);
            }
            layouts.push((i, w, rs, l));
        }
    }
    let n = cx.src.range(2, 7);
    let mut plans: Vec<Plan> = vec![];
    for _ in 0..n {
        let (doc, width, root_style, layout) = &layouts[cx.src.below(layouts.len())];
        let default_ops = cx.src.chance(1, 5);
        let mut p = Plan {
            doc: *doc,
            width: *width,
            path: vec![],
            target: Target::Start,
            root_style: *root_style,
            default_ops,
            layout,
            at: Some(At { line: 0, off: 0 }),
        };
        if layout.err.is_none() && cx.src.chance(3, 4) {
            let (path, target, _) = gen_focus(cx, &docs[*doc], layout);
            if let Expect::At(at) = expect_focus(&docs[*doc], layout, &path, target) {
                p.path = path;
                p.target = target;
                p.at = Some(at);
            }
        }
        if layout.err.is_some() && layout.lines.len() == 1 {
            p.at = None;
        }
        plans.push(p);
    }
    cx.describe(|| {
        let mut s = String::new();
        for (i, d) in docs.iter().enumerate() {
            s.push_str(&format!("document {i}:\n{}", d.dump()));
        }
        for (i, p) in plans.iter().enumerate() {
            s.push_str(&format!(
                "printing {i}: document {}, width {}, focus {:?} {:?}, root style {}\n",
                p.doc, p.width, p.path, p.target, p.root_style
            ));
        }
        s
    });
    let mut log: Vec<String> = vec![];
    let fail = |log: &[String], k: usize, e: String| {
        let p = &plans[k];
        Err(format!(
            "printing {k} (document {}, width {}, focus {:?} {:?}, root style {}) was affected by something else: {e}\n  events: {}\n{history}{}expected:\n{}",
            p.doc,
            p.width,
            p.path,
            p.target,
            p.root_style,
            log.join(", "),
            docs[p.doc].dump(),
            p.layout.text()
        ))
    };
    let mut live: Vec<Option<Live>> = (0..plans.len()).map(|_| None).collect();
    let mut begun = vec![false; plans.len()];
    let mut most_live = 0;
    let mut pulls = 0;
    let mut same_doc = false;
    let events = cx.src.range(6, 60);
    for _ in 0..events {
        let k = cx.src.below(plans.len());
        let p = &plans[k];
        match cx.src.weighted(&[8, 20, 1, 2, 1, 1]) {
            0 | 1 if !begun[k] => {
                log.push(format!("start {k}"));
                begun[k] = true;
                cx.evals += 1;
                live[k] = match begin(docs, p) {
                    Err(e) => return fail(&log, k, e),
                    Ok(s) => s,
                };
                let alive: Vec<usize> = (0..plans.len()).filter(|i| live[*i].is_some()).collect();
                most_live = most_live.max(alive.len());
                same_doc |= alive.iter().any(|i| alive.iter().any(|j| i < j && plans[*i].doc == plans[*j].doc));
            }
            0 | 1 => {
                let burst = cx.src.range(1, 3);
                for _ in 0..burst {
                    let is_up = cx.src.chance(1, 2);
                    if let Some(s) = &mut live[k] {
                        log.push(format!("pull {k} {}", if is_up { "up" } else { "down" }));
                        pulls += 1;
                        if let Err(e) = pull(p, s, is_up) {
                            return fail(&log, k, e);
                        }
                    }
                }
            }
            2 => {
                // drop it; it may be started again
                log.push(format!("drop {k}"));
                live[k] = None;
                begun[k] = false;
            }
            3 => {
                log.push(format!("print {k} to a string"));
                cx.evals += 1;
                let got = pretty_print_to_string(docs[p.doc].root(), p.width);
                match (&p.layout.err, got) {
                    (None, Ok(s)) if s == p.layout.text() => (),
                    (Some(_), Err(PrintingError::TextAfterEndOfLine)) => (),
                    (_, got) => return fail(&log, k, format!("printing it to a string gave {got:?}")),
                }
            }
            4 => {
                // a document that fails
                let d = &docs[p.doc];
                let calls = d.inst.calls.get();
                let after = cx.src.below(60) as u64;
                log.push(format!("print {k} to a string, its document failing after {after} calls"));
                d.inst.fail_at.set(calls + after);
                cx.evals += 1;
                let got = pretty_print_to_string(d.root(), p.width);
                let reached = d.inst.calls.get() > calls + after;
                d.inst.fail_at.set(u64::MAX);
                match (&p.layout.err, got) {
                    (None, Ok(s)) if s == p.layout.text() && !reached => (),
                    (Some(_), Err(PrintingError::TextAfterEndOfLine)) if !reached => (),
                    (_, Err(PrintingError::PrettyDoc(DErr::Injected(_)))) if reached => (),
                    (_, got) => {
                        return fail(
                            &log,
                            k,
                            format!("printing it to a string, its document {}, gave {got:?}", if reached { "failing" } else { "not failing" }),
                        )
                    }
                }
            }
            _ => {
                let d = &docs[p.doc];
                if d.nodes.len() < 12 && p.layout.choices < 6 && p.layout.err.is_none() && p.width < 200 {
                    log.push(format!("ask the oracle about {k}"));
                    let _ = guard(|| oracular_pretty_print(d.root(), p.width));
                }
            }
        }
    }
    // whatever is left
    for k in 0..plans.len() {
        if !begun[k] {
            log.push(format!("start {k}"));
            cx.evals += 1;
            live[k] = match begin(docs, &plans[k]) {
                Err(e) => return fail(&log, k, e),
                Ok(s) => s,
            };
        }
    }
    most_live = most_live.max(live.iter().filter(|s| s.is_some()).count());
    log.push("drain all, in turns".into());
    let mut any = true;
    let mut up_first = cx.src.chance(1, 2);
    while any {
        any = false;
        for k in 0..plans.len() {
            if let Some(s) = &mut live[k] {
                for _ in 0..2 {
                    let is_up = if s.up_done || s.down_done { s.down_done } else { up_first };
                    up_first = !up_first;
                    if !(s.up_done && s.down_done) {
                        any = true;
                        pulls += 1;
                        if let Err(e) = pull(&plans[k], s, is_up) {
                            return fail(&log, k, e);
                        }
                    }
                }
            }
        }
    }
    for p in &plans {
        label_doc(cx, &docs[p.doc], p.layout);
    }
    cx.label_if(most_live > 1, "several printings in progress");
    cx.label_if(same_doc, "several printings of one document in progress");
    cx.label_if(pulls > 30, "more than 30 lines pulled");
    let lively = plans.iter().any(|p| p.layout.lines.len() > 1 && p.layout.choices > 0);
    Ok(Some(most_live > 1 && lively))
}

pub fn c21(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 100) {
        return if cx.src.chance(1, 2) { threads(cx) } else { shared(cx) };
    }
    if cx.src.chance(1, 6) {
        return panes(cx);
    }
    let cfg = Cfg { max_nodes: 16, broad: false, deep: false, odd_unicode: false, ..STD };
    let nd = cx.src.range(1, 3);
    let mut docs: Vec<Doc> = vec![];
    for _ in 0..nd {
        let d = gen_doc(&mut cx.src, &cfg);
        if repeats_too_much(&d) {
            return cx.discard("too big for the model");
        }
        docs.push(d);
    }
    if docs.len() > 1 && cx.src.chance(1, 2) {
        // the same ids in all documents
        for d in &mut docs {
            for (i, n) in d.nodes.iter_mut().enumerate() {
                n.id = i as u64;
            }
        }
        cx.label("documents with the same ids");
    }
    let rounds = cx.src.range(1, 3);
    let mut nontrivial = false;
    let mut history = String::new();
    for r in 0..rounds {
        if r > 0 {
            let mut log = vec![];
            let mut parts: Vec<(Vec<N>, Vec<Node>, bool)> =
                docs.drain(..).map(|d| (d.raw, d.nodes, d.plain)).collect();
            for (i, (raw, nodes, _)) in parts.iter_mut().enumerate() {
                let edits = cx.src.below(4);
                for _ in 0..edits {
                    let mut l = vec![];
                    edit(&mut cx.src, &STD, raw, nodes, &mut l);
                    log.extend(l.iter().map(|l| format!("document {i}: {l}")));
                }
            }
            if cx.src.chance(1, 5) {
                let k = parts.len();
                parts.rotate_left(k / 2);
                log.push("the documents have changed places".into());
            }
            docs = parts.into_iter().map(|(r, n, p)| Doc::new(r, n, p)).collect();
            if docs.iter().any(repeats_too_much) {
                break;
            }
            history = format!("  the documents were printed before, then edited: {}\n", log.join("; "));
            let h = history.clone();
            cx.describe(|| h);
            cx.label_if(!log.is_empty(), "printed again after edits");
        }
        match round(cx, &docs, &history)? {
            None if r == 0 => return cx.discard("too big for the model"),
            None => break,
            Some(b) => nontrivial |= b,
        }
    }
    Ok(nontrivial)
}

/// The same panes displayed again and again, while what they show changes.
fn panes(cx: &mut Cx) -> Res {
    let c = PaneCfg {
        labels: 3,
        fill: 1,
        doc: 8,
        dynamic: 4,
        huge: 0,
        bad_dynamic: 0,
        depth: cx.src.below(3),
        max_kids: 3,
        eol: cx.src.chance(1, 4),
    };
    let cfg = Cfg { eol: c.eol, odd_unicode: false, combining: false, max_nodes: 25, ..STD };
    let Some(mut s) = gen_scene(cx, &c, 2, true) else {
        return cx.discard("too big for the model");
    };
    cx.label("panes displayed again and again");
    let mut log: Vec<String> = vec![];
    let mut lines = 0;
    let mut shown = 0;
    let rounds = cx.src.range(2, 5);
    for round in 0..rounds {
        if round > 0 {
            let changes = cx.src.range(1, 3);
            for _ in 0..changes {
                let k = cx.src.below(s.content.len());
                match cx.src.weighted(&[2, 2, 3, 2, 2, 2, 4, 1, 1]) {
                    0 => s.width = cx.src.range(1, 40) as u16,
                    1 => s.height = cx.src.range(1, 20) as u32,
                    2 => {
                        if let Some((d, _)) = &s.content[k] {
                            let d = *d;
                            let m = Model::new(&s.docs[d]);
                            let l = m.print(s.width as u64, Mode::Documented, false);
                            if !model_ok(&l) {
                                break;
                            }
                            let (path, target, _) = gen_focus(cx, &s.docs[d], &l);
                            log.push(format!("label {k} now has focus {path:?} {target:?}"));
                            let Some((_, o)) = &mut s.content[k] else { unreachable!() };
                            o.path = path;
                            o.target = target;
                        }
                    }
                    3 => {
                        if let Some((_, o)) = &mut s.content[k] {
                            o.height = cx.src.below(101) as f32 / 100.0;
                        }
                    }
                    4 => {
                        if let Some((_, o)) = &mut s.content[k] {
                            o.set_focus ^= true;
                        }
                    }
                    5 => {
                        let j = cx.src.below(s.content.len());
                        s.content.swap(j, k);
                        log.push(format!("labels {j} and {k} have changed places"));
                    }
                    6 => {
                        let d = s.docs.remove(cx.src.below(s.docs.len()));
                        let (mut raw, mut nodes, plain) = (d.raw, d.nodes, d.plain);
                        edit(&mut cx.src, &cfg, &mut raw, &mut nodes, &mut log);
                        let d = Doc::new(raw, nodes, plain);
                        if repeats_too_much(&d) {
                            return Ok(false);
                        }
                        // (which may swap the documents)
                        s.docs.push(d);
                    }
                    7 => {
                        log.push(format!("label {k} now shows nothing"));
                        s.content[k] = None;
                    }
                    _ => {
                        let old = s.content[k].clone();
                        let j = cx.src.below(s.content.len());
                        if let Some((_, o)) = &mut s.content[j] {
                            if let Some((_, new)) = old {
                                o.ws = new.ws;
                            }
                        }
                    }
                }
            }
            if cx.src.chance(1, 4) {
                // something else fails in between
                let d = &s.docs[0];
                let after = d.inst.calls.get() + cx.src.below(80) as u64;
                d.inst.fail_at.set(after);
                let mut win = Rec::new(s.width, s.height);
                let r = guard(|| run_scene(&s, &mut win).is_err());
                d.inst.fail_at.set(u64::MAX);
                log.push(format!("displaying fails: {r:?}"));
            }
        }
        cx.describe(|| show_scene(&s));
        let Some(r) = compare_scene(cx, &s).map_err(|e| format!("the display with number {round} is off: {e}\n{}", log.join("; ")))?
        else {
            return Ok(false);
        };
        shown += r.errs.is_empty() as usize;
        lines = lines.max(r.lines_shown);
    }
    Ok(shown > 1 && lines > 1)
}

/// Documents built and printed on several threads at once.
fn threads(cx: &mut Cx) -> Res {
    let cfg = Cfg { max_nodes: 16, broad: false, deep: false, odd_unicode: false, ..STD };
    let n = cx.src.range(2, 4);
    let mut jobs: Vec<(Vec<N>, Vec<Node>, bool, Vec<(u16, bool)>)> = vec![];
    for i in 0..n {
        let (raw, nodes, plain) = if i > 0 && cx.src.chance(1, 2) {
            // the same document, or another version of it
            let (mut r, mut n) = (jobs[0].0.clone(), jobs[0].1.clone());
            if cx.src.chance(1, 2) {
                edit(&mut cx.src, &STD, &mut r, &mut n, &mut vec![]);
            }
            (r, n, jobs[0].2)
        } else {
            let d = gen_doc(&mut cx.src, &cfg);
            (d.raw, d.nodes, d.plain)
        };
        let doc = Doc::new(raw.clone(), nodes.clone(), plain);
        if repeats_too_much(&doc) {
            return cx.discard("too big for the model");
        }
        let m = Model::new(&doc);
        let wide = m.print(65535, Mode::Documented, false);
        let narrow = m.print(0, Mode::Documented, false);
        if !model_ok(&wide) || !model_ok(&narrow) {
            return cx.discard("too big for the model");
        }
        let mut ws = vec![];
        for _ in 0..4 {
            let w = gen_width(&mut cx.src, &[&wide, &narrow]);
            let rs = cx.src.chance(1, 4);
            if model_ok(&m.print(w as u64, Mode::Documented, rs)) {
                ws.push((w, rs));
            }
        }
        jobs.push((raw, nodes, plain, ws));
    }
    cx.label("several threads");
    cx.evals += jobs.iter().map(|j| 10 * j.3.len() as u64).sum::<u64>();
    cx.describe(|| {
        let mut s = "several threads, each printing one of these, at these widths:\n".to_string();
        for (r, n, p, w) in &jobs {
            s.push_str(&format!("{w:?}\n{}", Doc::new(r.clone(), n.clone(), *p).dump()));
        }
        s
    });
    let barrier = std::sync::Barrier::new(jobs.len());
    let results: Vec<Result<bool, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(raw, nodes, plain, ws)| {
                let barrier = &barrier;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let doc = Doc::new(raw.clone(), nodes.clone(), *plain);
                        let m = Model::new(&doc);
                        let want: Vec<Layout> =
                            ws.iter().map(|(w, rs)| m.print(*w as u64, Mode::Documented, *rs)).collect();
                        barrier.wait();
                        let r = guard(|| {
                            for _ in 0..10 {
                                for ((w, rs), l) in ws.iter().zip(&want) {
                                    let got = print(doc.root(), *w, &[], Target::Start, *rs, &Sched::DownUp);
                                    let good = if l.err.is_some() { l.lines.len() - 1 } else { l.lines.len() };
                                    let ok = match &got {
                                        Err(PrintingError::TextAfterEndOfLine) => l.err.is_some() && good == 0,
                                        Err(_) => false,
                                        Ok(p) => {
                                            let got: Vec<Norm> = p.lines().iter().map(|l| norm(l)).collect();
                                            p.down_err.is_some() == l.err.is_some()
                                                && got == l.lines[..good].iter().map(norm_mline).collect::<Vec<_>>()
                                        }
                                    };
                                    if !ok {
                                        return Err(format!(
                                            "printed while other threads print, at width {w}:\n{}\nexpected:\n{}\n{}",
                                            match &got {
                                                Err(e) => format!("{e:?}"),
                                                Ok(p) => p.lines().iter().map(|l| text_of(l) + "\n").collect::<String>()
                                                    + &format!("{:?}", p.down_err),
                                            },
                                            l.text(),
                                            doc.dump()
                                        ));
                                    }
                                }
                            }
                            Ok(want.iter().any(|l| l.lines.len() > 1 && l.choices > 0))
                        });
                        match r {
                            Ok(r) => r,
                            Err(p) => Err(format!("printing on several threads panicked: {p}\n{}", doc.dump())),
                        }
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut nontrivial = false;
    for r in results {
        nontrivial |= r?;
    }
    Ok(nontrivial)
}

/// One sample document printed by several threads at once.
fn shared(cx: &mut Cx) -> Res {
    let mut budget = 30;
    let depth = cx.src.range(2, 5);
    let j = gen_j(&mut cx.src, depth, &mut budget, 3);
    let doc = build(&mut cx.src, &j);
    let n = cx.src.range(2, 5);
    let widths: Vec<u16> = (0..n).map(|_| *cx.src.pick(&[0u16, 3, 8, 12, 20, 30, 50, 80])).collect();
    let alone: Vec<Result<String, String>> = widths
        .iter()
        .map(|w| pretty_print_to_string(&doc, *w).map_err(|e| e.to_string()))
        .collect();
    cx.label("one document shared by several threads");
    cx.evals += 10 * n as u64;
    cx.describe(|| format!("shared by threads printing at widths {widths:?}: {j:?}"));
    let barrier = std::sync::Barrier::new(n);
    let got: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = widths
            .iter()
            .zip(&alone)
            .map(|(w, want)| {
                let (doc, barrier) = (&doc, &barrier);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        for _ in 0..10 {
                            let got = guard(|| pretty_print_to_string(doc, *w).map_err(|e| e.to_string()));
                            if got.as_ref().ok() != Some(want) {
                                return Err(format!(
                                    "printed at width {w} while other threads print it: {got:?}, alone: {want:?}"
                                ));
                            }
                        }
                        Ok(())
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for g in got {
        g.map_err(|e| format!("{e}\n  {j:?}"))?;
    }
    Ok(alone.iter().any(|a| a.as_ref().is_ok_and(|a| a.contains('\n'))))
}

// ---- C22 ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
struct Tok(u32);
type TN = Notation<Tok, Tok>;

struct Gen {
    next: u32,
    /// Five digits: whether a region's style is displayed is left open.
    next_open: u32,
}

impl Gen {
    fn tok(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn index(&mut self, src: &mut Src) -> isize {
        let t = self.tok() as isize;
        if src.chance(1, 2) {
            -t
        } else {
            t
        }
    }
}

fn gen_pos(src: &mut Src, g: &mut Gen) -> CheckPos {
    match src.below(5) {
        0 => CheckPos::Here,
        1 => CheckPos::LeftChild,
        2 => CheckPos::RightChild,
        _ => CheckPos::Child(g.index(src)),
    }
}

fn gen_tn(src: &mut Src, g: &mut Gen, depth: usize) -> TN {
    let d = if depth > 0 { 1 } else { 0 };
    let k = src.weighted(&[5, 1, 1, 4, 1, 1, 1, 1, 1, 8 * d, 5 * d, 2 * d, 3 * d, 3 * d, 4 * d, 3 * d, 3 * d]);
    let dd = depth.saturating_sub(1);
    let sub = |src: &mut Src, g: &mut Gen| Box::new(gen_tn(src, g, dd));
    match k {
        0 => Notation::Literal(format!("l{}", g.tok())),
        1 => Notation::Newline,
        2 => Notation::Empty,
        3 => Notation::Child(g.index(src)),
        4 => Notation::Text,
        5 => Notation::Left,
        6 => Notation::Right,
        7 => Notation::FocusMark,
        8 => Notation::EndOfLine,
        9 => {
            let a = sub(src, g);
            Notation::Concat(a, sub(src, g))
        }
        10 => {
            let a = sub(src, g);
            Notation::Choice(a, sub(src, g))
        }
        11 => Notation::Flat(sub(src, g)),
        12 => {
            let s = format!("i{}", g.tok());
            let l = if src.chance(1, 2) {
                g.next_open += 1;
                Some(Tok(g.next_open))
            } else {
                None
            };
            Notation::Indent(s, l, sub(src, g))
        }
        13 => {
            let t = Tok(g.tok());
            Notation::Style(t, sub(src, g))
        }
        14 => {
            let c = Tok(g.tok());
            let p = gen_pos(src, g);
            let a = sub(src, g);
            Notation::Check(c, p, a, sub(src, g))
        }
        15 => {
            let zero = sub(src, g);
            let one = sub(src, g);
            Notation::Count { zero, one, many: sub(src, g) }
        }
        _ => {
            let first = sub(src, g);
            Notation::Fold { first, join: sub(src, g) }
        }
    }
}

/// The numbers a notation was made with, in the order in which it says them.
fn toks(n: &TN, out: &mut Vec<i64>) {
    use Notation::*;
    let of = |s: &str| s[1..].parse::<i64>().unwrap();
    match n {
        Literal(s) => out.push(of(s)),
        Child(i) => out.push(*i as i64),
        Flat(a) => toks(a, out),
        Indent(s, _, a) => {
            out.push(of(s));
            toks(a, out)
        }
        Style(t, a) => {
            out.push(t.0 as i64);
            toks(a, out)
        }
        Concat(a, b) | Choice(a, b) => {
            toks(a, out);
            toks(b, out)
        }
        Check(c, p, a, b) => {
            out.push(c.0 as i64);
            if let CheckPos::Child(i) = p {
                out.push(*i as i64)
            }
            toks(a, out);
            toks(b, out)
        }
        Count { zero, one, many } => {
            toks(zero, out);
            toks(one, out);
            toks(many, out)
        }
        Fold { first, join } => {
            toks(first, out);
            toks(join, out)
        }
        Empty | Newline | EndOfLine | Text | FocusMark | Left | Right => (),
    }
}

/// The four-digit numbers in a text.
fn numbers(s: &str) -> Vec<i64> {
    let mut out = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() {
            let b = i;
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
            if i - b == 4 {
                let v: i64 = c[b..i].iter().collect::<String>().parse().unwrap();
                out.push(if b > 0 && c[b - 1] == '-' { -v } else { v });
            }
        } else {
            i += 1;
        }
    }
    out
}

/// One notation in the tree replaced by another of a different kind, or None
/// when what it says stays the same.
fn change(src: &mut Src, n: &TN, at: &mut usize, what: &mut String) -> TN {
    use Notation::*;
    if *at == 0 {
        *at = usize::MAX;
        let leaves = [Empty, Newline, EndOfLine, Text, FocusMark, Left, Right];
        let new = match n {
            Empty | Newline | EndOfLine | Text | FocusMark | Left | Right => {
                let same = |l: &TN| std::mem::discriminant(l) == std::mem::discriminant(n);
                let others: Vec<&TN> = leaves.iter().filter(|l| !same(l)).collect();
                match src.below(others.len() + 1) {
                    k if k < others.len() => others[k].clone(),
                    _ => Literal("l9999".into()),
                }
            }
            Literal(_) => leaves[src.below(leaves.len())].clone(),
            Child(i) if src.chance(1, 2) => Child(-*i),
            Child(i) => Child(*i + 1),
            Flat(a) => (**a).clone(),
            Indent(_, _, a) if src.chance(1, 2) => (**a).clone(),
            Indent(_, l, a) => Indent("i9999".into(), l.clone(), a.clone()),
            Style(_, a) => (**a).clone(),
            Concat(a, b) => Choice(a.clone(), b.clone()),
            Choice(a, b) => Concat(a.clone(), b.clone()),
            Check(c, p, a, b) if src.chance(1, 2) => {
                let others: Vec<CheckPos> = [CheckPos::Here, CheckPos::LeftChild, CheckPos::RightChild, CheckPos::Child(0), CheckPos::Child(-1)]
                    .into_iter()
                    .filter(|q| std::mem::discriminant(p) != std::mem::discriminant(q))
                    .collect();
                let q = src.pick(&others).clone();
                Check(c.clone(), q, a.clone(), b.clone())
            }
            Check(_, _, a, b) => Choice(a.clone(), b.clone()),
            Count { zero, one, many } => match src.below(3) {
                0 => Fold { first: one.clone(), join: many.clone() },
                1 => Concat(zero.clone(), Box::new(Concat(one.clone(), many.clone()))),
                _ => Choice(zero.clone(), Box::new(Choice(one.clone(), many.clone()))),
            },
            Fold { first, join } => match src.below(2) {
                0 => Concat(first.clone(), join.clone()),
                _ => Choice(first.clone(), join.clone()),
            },
        };
        *what = format!("{n:?} -> {new:?}");
        return new;
    }
    *at = at.wrapping_sub(1);
    let mut sub = |a: &TN| Box::new(if *at == usize::MAX { a.clone() } else { change(src, a, at, what) });
    match n {
        Flat(a) => Flat(sub(a)),
        Indent(s, l, a) => Indent(s.clone(), l.clone(), sub(a)),
        Style(t, a) => Style(t.clone(), sub(a)),
        Concat(a, b) => {
            let a = sub(a);
            Concat(a, sub(b))
        }
        Choice(a, b) => {
            let a = sub(a);
            Choice(a, sub(b))
        }
        Check(c, p, a, b) => {
            let a = sub(a);
            Check(c.clone(), p.clone(), a, sub(b))
        }
        Count { zero, one, many } => {
            let zero = sub(zero);
            let one = sub(one);
            Count { zero, one, many: sub(many) }
        }
        Fold { first, join } => {
            let first = sub(first);
            Fold { first, join: sub(join) }
        }
        other => other.clone(),
    }
}

fn count_tn(n: &TN) -> usize {
    use Notation::*;
    1 + match n {
        Flat(a) | Indent(_, _, a) | Style(_, a) => count_tn(a),
        Concat(a, b) | Choice(a, b) | Check(_, _, a, b) => count_tn(a) + count_tn(b),
        Count { zero, one, many } => count_tn(zero) + count_tn(one) + count_tn(many),
        Fold { first, join } => count_tn(first) + count_tn(join),
        _ => 0,
    }
}

#[derive(Debug)]
struct Oops(u64);
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "oops <{}>", self.0)
    }
}
impl Error for Oops {}

/// What each kind of printing error is about, and the numbers it should name.
fn printing_errors(i: usize, index: isize, len: usize, o: u64) -> Vec<(PrintingError<Oops>, Vec<String>)> {
    use PrintingError::*;
    let pair = vec![index.to_string(), len.to_string()];
    vec![
        (InvalidPath(i), vec![i.to_string()]),
        (TextNotationOnTextlessDoc, vec![]),
        (ChildIndexOutOfBounds { index, len }, pair.clone()),
        (ChildNotationOnChildlessDoc, vec![]),
        (CheckPosChildIndexOutOfBounds { index, len }, pair),
        (CheckPosChildOnChildlessDoc, vec![]),
        (CountNotationOnChildlessDoc, vec![]),
        (NumChildrenChanged, vec![]),
        (TextAfterEndOfLine, vec![]),
        (MissingFocusMark, vec![]),
        (MissingText, vec![]),
        (PrettyDoc(Oops(o)), vec![format!("oops <{o}>")]),
    ]
}

fn notation_errors(i: isize) -> Vec<(NotationError, Vec<String>)> {
    use NotationError::*;
    vec![
        (LeftOutsideJoin, vec![]),
        (RightOutsideJoin, vec![]),
        (CheckPosLeftOutsideJoin, vec![]),
        (CheckPosRightOutsideJoin, vec![]),
        (NestedFold, vec![]),
        (NestedCount, vec![]),
        (CountZeroChild, vec![]),
        (CountOneChildIndex(i), vec![i.to_string()]),
        (CountZeroCheckPosChild, vec![]),
        (CountOneCheckPosChildIndex(i), vec![i.to_string()]),
        (TextInsideCount, vec![]),
        (TextInsideFold, vec![]),
        (TextAfterEol, vec![]),
        (MultipleFocusMarks, vec![]),
    ]
}

/// The numbers (with sign) in a message, in order.
fn all_numbers(s: &str) -> Vec<String> {
    let mut out = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() {
            let mut b = i;
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
            if b > 0 && c[b - 1] == '-' {
                b -= 1;
            }
            out.push(c[b..i].iter().collect());
        } else {
            i += 1;
        }
    }
    out
}

fn messages<E: Error>(all: &[(E, Vec<String>)], unrelated: &[(E, Vec<String>)]) -> Result<(), String> {
    for (k, (e, names)) in all.iter().enumerate() {
        let m = e.to_string();
        let mut rest: &str = &m;
        for n in names {
            let wrapped = n.starts_with("oops");
            if !wrapped && all_numbers(&m) != *names {
                return Err(format!("the message for {e:?} is {m:?}, which should name {names:?}"));
            }
            match rest.find(n.as_str()) {
                Some(at) => rest = &rest[at + n.len()..],
                None => return Err(format!("the message for {e:?} is {m:?}, which does not name {n}")),
            }
        }
        if m.trim().is_empty() {
            return Err(format!("{e:?} has no message"));
        }
        // Different flaws read differently.
        for (j, (f, _)) in unrelated.iter().enumerate() {
            if j != k && f.to_string() == m {
                return Err(format!("{e:?} and {f:?} have the same message: {m:?}"));
            }
        }
    }
    Ok(())
}

fn any_number(src: &mut Src) -> u64 {
    match src.below(4) {
        0 => src.below(10) as u64,
        1 => *src.pick(&[u64::MAX, 0, 65_535, 65_536, u32::MAX as u64, i64::MAX as u64, 1 << 63]),
        2 => src.below(100_000) as u64,
        _ => ((src.raw() as u64) << 32) | src.raw() as u64,
    }
}

pub fn c22(cx: &mut Cx) -> Res {
    match cx.src.weighted(&[6, 2, 2]) {
        0 => {
            let mut g = Gen { next: 1000, next_open: 90_000 };
            let depth = cx.src.range(0, 6);
            let n = gen_tn(&mut cx.src, &mut g, depth);
            let shown = n.to_string();
            cx.describe(|| format!("{n:?}\ndisplayed as {shown}"));
            cx.label("displayed notation");
            let mut want = vec![];
            toks(&n, &mut want);
            if numbers(&shown) != want {
                return Err(format!("{n:?}\n  is displayed as {shown}\n  which says {:?}, expected {want:?}", numbers(&shown)));
            }
            if let Ok(v) = n.clone().validate() {
                cx.label("validated");
                if v.to_string() != shown {
                    return Err(format!("{n:?}\n  is displayed as {shown}\n  and once validated as {v}"));
                }
            }
            if format!("{}", n.clone()) != shown {
                return Err(format!("{n:?}\n  is displayed as {shown}\n  and its copy as {}", n.clone()));
            }
            // Something else reads differently.
            let k = count_tn(&n);
            let mut nontrivial = want.len() > 1;
            for _ in 0..3 {
                let mut at = cx.src.below(k);
                let mut what = String::new();
                let m = change(&mut cx.src, &n, &mut at, &mut what);
                cx.evals += 1;
                if m.to_string() == shown {
                    return Err(format!("two notations are displayed as {shown}\n  {n:?}\n  {m:?}\n  ({what})"));
                }
                nontrivial |= k > 2;
            }
            Ok(nontrivial)
        }
        1 => {
            cx.label("error messages");
            let (i, len, o) = (any_number(&mut cx.src), any_number(&mut cx.src), any_number(&mut cx.src));
            let index = any_number(&mut cx.src) as isize;
            let (i, len) = (i as usize, len as usize);
            cx.describe(|| format!("messages for path index {i}, child index {index}, {len} children, error {o}"));
            messages(&printing_errors(i, index, len, o), &printing_errors(i, index, len, o))?;
            messages(&notation_errors(index), &notation_errors(index))?;
            let under = format!("oops <{o}>");
            // wrapped errors can be reached
            let p: PrintingError<Oops> = Oops(o).into();
            if !matches!(&p, PrintingError::PrettyDoc(e) if e.0 == o) {
                return Err(format!("an error of the document was turned into {p:?}"));
            }
            if p.source().map(|e| e.to_string()) != Some(under.clone()) {
                return Err(format!("the cause of {p:?} is {:?}, expected {under}", p.source()));
            }
            for (e, _) in printing_errors(i, index, len, o) {
                let text = e.to_string();
                let is_doc = matches!(e, PrintingError::PrettyDoc(_));
                if e.source().is_some() != is_doc {
                    return Err(format!("the cause of {e:?} is {:?}", e.source()));
                }
                let pane: PaneError<Oops, Oops> = e.into();
                if !matches!(pane, PaneError::PrintingError(_)) || !pane.to_string().contains(&text) {
                    return Err(format!("the message for {pane:?} is {pane}, which does not contain {text:?}"));
                }
                if pane.source().map(|e| e.to_string()) != Some(text.clone()) {
                    return Err(format!("the cause of {pane:?} is {:?}, expected {text:?}", pane.source()));
                }
            }
            let w: PaneError<Oops, Oops> = PaneError::PrettyWindowError(Oops(o));
            if !w.to_string().contains(&under) || w.source().map(|e| e.to_string()) != Some(under) {
                return Err(format!("{w:?} reads {w}, with the cause {:?}", w.source()));
            }
            if PaneError::<Oops, Oops>::InvalidUseOfDynamic.source().is_some() {
                return Err("InvalidUseOfDynamic has a cause".into());
            }
            Ok(true)
        }
        _ => {
            cx.label("positions and sizes");
            let row = any_number(&mut cx.src) as u32;
            let col = any_number(&mut cx.src) as u16;
            let height = (any_number(&mut cx.src) as u32).min(u32::MAX - row);
            let width = (any_number(&mut cx.src) as u16).min(u16::MAX - col);
            cx.describe(|| format!("position {row}:{col}, size {height}:{width}"));
            let p = Pos { row, col };
            let s = Size { width, height };
            let q = p + s;
            if (q.row, q.col) != (row + height, col + width) {
                return Err(format!("{p:?} + {s:?} is {q:?}"));
            }
            let z = Pos::zero();
            if (z.row, z.col) != (0, 0) || z + s != (Pos { row: height, col: width }) {
                return Err(format!("the origin is {z:?}, and moved by {s:?} {:?}", z + s));
            }
            for (what, shown, want) in
                [("position", p.to_string(), format!("{row}:{col}")), ("size", s.to_string(), format!("{height}:{width}"))]
            {
                if shown != want {
                    return Err(format!("the {what} {want} is displayed as {shown}"));
                }
            }
            Ok(row as u64 != col as u64)
        }
    }
}
