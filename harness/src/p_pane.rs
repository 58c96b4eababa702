//! C11 space division, C12 drawing discipline, C13 document panes, C14 the
//! plain-text window. A recording window logs what the library draws; a
//! reference renderer, built on the reference printer, says what it should.

use crate::doc::{DErr, Doc, Kind, Node, Sty, D, N};
use crate::engine::{guard, Cx, Res};
use crate::gen::*;
use crate::model::*;
use crate::p_layout::{expect_focus, gen_focus, model_ok, Expect};
use crate::run::Target;
use crate::src::Src;
use partial_pretty_printer::pane::{
    display_pane, PaneError, PaneNotation, PaneSize, PlainText, PrettyWindow, PrintingOptions,
    WidthStrategy,
};
use partial_pretty_printer::{Pos, PrintingError, Size};
use std::collections::BTreeMap;
use std::fmt;
use unicode_width::UnicodeWidthChar;

pub type PN = PaneNotation<usize, Sty>;

// ---- recording window ------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Char { ch: char, row: u32, col: u16, style: Vec<u32>, full: bool },
    Focus { row: u32, col: u16 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WErr(pub u64);
impl fmt::Display for WErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "window failure {}", self.0)
    }
}
impl std::error::Error for WErr {}

pub struct Rec {
    pub size: Size,
    pub calls: std::cell::RefCell<Vec<Call>>,
    pub ops: std::cell::Cell<u64>,
    pub fail_at: u64,
}

impl Rec {
    pub fn new(width: u16, height: u32) -> Rec {
        Rec {
            size: Size { width, height },
            calls: Default::default(),
            ops: Default::default(),
            fail_at: u64::MAX,
        }
    }
    fn op(&self) -> Result<(), WErr> {
        let n = self.ops.get();
        self.ops.set(n + 1);
        if n == self.fail_at {
            Err(WErr(n))
        } else {
            Ok(())
        }
    }
}

impl PrettyWindow for Rec {
    type Error = WErr;
    type Style = Sty;
    fn size(&self) -> Result<Size, WErr> {
        self.op()?;
        Ok(self.size)
    }
    fn display_char(&mut self, ch: char, pos: Pos, style: &Sty, full_width: bool) -> Result<(), WErr> {
        self.op()?;
        self.calls.borrow_mut().push(Call::Char {
            ch,
            row: pos.row,
            col: pos.col,
            style: style.0.clone(),
            full: full_width,
        });
        Ok(())
    }
    fn set_focus(&mut self, pos: Pos) -> Result<(), WErr> {
        self.op()?;
        self.calls.borrow_mut().push(Call::Focus { row: pos.row, col: pos.col });
        Ok(())
    }
}

// ---- generating layouts --------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Opt {
    pub path: Vec<usize>,
    pub target: Target,
    pub height: f32,
    pub ws: WidthStrategy,
    pub set_focus: bool,
}

impl Opt {
    pub fn real(&self) -> PrintingOptions {
        PrintingOptions {
            focus_path: self.path.clone(),
            focus_target: self.target.real(),
            focus_height: self.height,
            width_strategy: self.ws,
            set_focus: self.set_focus,
        }
    }
}

pub struct Scene {
    pub docs: Vec<Doc>,
    /// What each label shows: (document, options), or nothing.
    pub content: Vec<Option<(usize, Opt)>>,
    pub note: PN,
    pub width: u16,
    pub height: u32,
}

#[derive(Clone, Copy)]
pub struct PaneCfg {
    pub labels: usize,
    /// Weight of fills relative to documents.
    pub fill: usize,
    pub doc: usize,
    pub dynamic: usize,
    pub huge: usize,
    pub bad_dynamic: usize,
    pub depth: usize,
    pub max_kids: usize,
    /// Documents with end-of-line marks, some of them with lines that cannot be printed.
    pub eol: bool,
}

struct PGen {
    next_fill: usize,
    next_style: u32,
}

const FILLS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
const WIDE_FILLS: &str = "字漢あいうえお界面｜";

fn gen_size(src: &mut Src, c: &PaneCfg, can_dynamic: bool) -> PaneSize {
    let dynamic = if can_dynamic { c.dynamic } else { c.bad_dynamic };
    match src.weighted(&[6, 5, dynamic, c.huge, c.huge]) {
        0 => PaneSize::Proportional(*src.pick(&[1, 2, 3, 1, 0, 5, 7, 10, 13, 100])),
        1 => PaneSize::Fixed(match src.weighted(&[20, 20, 20, 3, 40]) {
            0 => 1,
            1 => 0,
            2 => src.below(60),
            3 => *src.pick(&[60, 16, 32, 64, 100, 127, 128, 200, 255, 256, 257, 300, 512, 1000, 1024]),
            _ => src.below(9),
        }),
        2 => PaneSize::Dynamic,
        3 => PaneSize::Proportional(*src.pick(&[
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2,
            1 << 48,
            (1 << 48) + 1,
            1 << 62,
            usize::MAX / 65535,
            usize::MAX / 65535 + 1,
        ])),
        _ => PaneSize::Fixed(*src.pick(&[usize::MAX, 1 << 17, 1 << 33, 65535, 65536])),
    }
}

fn gen_pane(src: &mut Src, c: &PaneCfg, g: &mut PGen, depth: usize) -> PN {
    let split = if depth > 0 { 6 } else { 0 };
    let doc = if c.labels > 0 { c.doc } else { 0 };
    match src.weighted(&[c.fill, doc, split, split, if depth > 0 { 2 } else { 0 }]) {
        0 => {
            let i = g.next_fill;
            g.next_fill += 1;
            let ch = if src.chance(1, 8) {
                any_char(src, false)
            } else if src.chance(1, 6) {
                WIDE_FILLS.chars().nth(i % WIDE_FILLS.chars().count()).unwrap()
            } else {
                FILLS.chars().nth(i % FILLS.len()).unwrap()
            };
            PN::Fill { ch }
        }
        1 => PN::Doc { label: src.below(c.labels) },
        k @ (2 | 3) => {
            let n = match src.below(10) {
                0 => 0,
                1 => 1,
                _ => src.range(2, c.max_kids),
            };
            let mut v = Vec::new();
            let n = if n > 1 && src.chance(1, 40) { src.range(8, 45) } else { n };
            for _ in 0..n {
                let p = gen_pane(src, c, g, if n > 7 { 0 } else { depth - 1 });
                let mut q = &p;
                while let PN::Style { notation, .. } = q {
                    q = notation;
                }
                let can = matches!(q, PN::Doc { .. });
                let s = gen_size(src, c, can);
                if c.bad_dynamic > 0 && src.chance(1, 20) {
                    // a split that could be mistaken for the document in it
                    let inner = match src.below(5) {
                        0 => vec![],
                        1 => vec![(PaneSize::Dynamic, p.clone()), (PaneSize::Dynamic, p)],
                        _ => vec![(PaneSize::Dynamic, p)],
                    };
                    let mut p = if src.chance(1, 2) { PN::Horz(inner) } else { PN::Vert(inner) };
                    if src.chance(1, 4) {
                        g.next_style += 1;
                        let style = Sty(vec![2_000_000 + g.next_style]);
                        p = PN::Style { style, notation: Box::new(p) };
                    }
                    v.push((PaneSize::Dynamic, p));
                    continue;
                }
                v.push((s, p));
            }
            if k == 2 {
                PN::Horz(v)
            } else {
                PN::Vert(v)
            }
        }
        _ => {
            g.next_style += 1;
            let style = Sty(vec![2_000_000 + g.next_style]);
            PN::Style { style, notation: Box::new(gen_pane(src, c, g, depth - 1)) }
        }
    }
}

/// Every character takes one or two cells and strings are as wide as their characters.
fn pane_able(s: &str) -> bool {
    let mut w = 0;
    for ch in s.chars() {
        match ch.width() {
            Some(x @ (1 | 2)) => w += x as u64,
            _ => return false,
        }
    }
    w == width_of(s)
}

pub fn note_strings(n: &crate::doc::N, f: &mut dyn FnMut(&str)) {
    use partial_pretty_printer::Notation::*;
    match n {
        Literal(s) => f(s),
        Indent(s, _, a) => {
            f(s);
            note_strings(a, f)
        }
        Flat(a) | Style(_, a) => note_strings(a, f),
        Concat(a, b) | Choice(a, b) | Check(_, _, a, b) => {
            note_strings(a, f);
            note_strings(b, f)
        }
        Count { zero, one, many } => {
            note_strings(zero, f);
            note_strings(one, f);
            note_strings(many, f)
        }
        Fold { first, join } => {
            note_strings(first, f);
            note_strings(join, f)
        }
        Empty | Newline | EndOfLine | Text | FocusMark | Child(_) | Left | Right => (),
    }
}

fn doc_pane_able(d: &Doc) -> bool {
    let mut ok = true;
    for n in &d.raw {
        note_strings(n, &mut |s| ok &= pane_able(s));
    }
    for n in &d.nodes {
        if let Kind::Text(t) = &n.kind {
            ok &= pane_able(t);
        }
    }
    ok
}

/// The document among many texts, each on a line of its own, or nearly so.
fn stack_up(src: &mut Src, d: Doc) -> Doc {
    let (mut raw, mut nodes, plain) = (d.raw, d.nodes, d.plain);
    let (list, leaf) = (raw.len(), raw.len() + 1);
    let sep = match src.below(3) {
        0 => nl(),
        1 => cat(lit(","), nl()),
        _ => alt(lit(" "), nl()),
    };
    raw.push(fold(N::Child(0), cat(N::Left, cat(sep, N::Right))));
    raw.push(N::Text);
    for n in nodes.iter_mut() {
        if let Kind::Kids(k) = &mut n.kind {
            k.iter_mut().for_each(|c| *c += 1);
        }
    }
    let used: std::collections::BTreeSet<u64> = nodes.iter().map(|n| n.id).collect();
    let mut ids = (1000u64..).filter(|i| !used.contains(i));
    let mut mk = |note, kind| Node {
        note,
        kind,
        conds: 0,
        id: ids.next().unwrap(),
        styled: false,
        parent: 0,
        index: 0,
    };
    nodes.insert(0, mk(list, Kind::Kids(vec![])));
    let n = src.range(10, 200);
    let at = src.below(n);
    let mut kids = vec![];
    for i in 0..n {
        kids.push(if i == at { 1 } else { nodes.len() });
        if i != at {
            nodes.push(mk(leaf, Kind::Text(format!("{}", i * 7919 % 1000))));
        }
    }
    nodes[0].kind = Kind::Kids(kids);
    Doc::new(raw, nodes, plain)
}

pub fn gen_scene(cx: &mut Cx, c: &PaneCfg, ndocs: usize, bad_focus: bool) -> Option<Scene> {
    let mut g = PGen { next_fill: 0, next_style: 0 };
    let mut note = gen_pane(&mut cx.src, c, &mut g, c.depth);
    // mostly a split at the top
    for _ in 0..2 {
        if c.depth > 0 && !matches!(note, PN::Horz(_) | PN::Vert(_)) && cx.src.chance(3, 4) {
            note = gen_pane(&mut cx.src, c, &mut g, c.depth);
        }
    }
    let mut width = match cx.src.weighted(&[8, 6, 3]) {
        0 => cx.src.range(1, 40) as u16,
        1 => cx.src.range(1, 12) as u16,
        _ => *cx.src.pick(&[80u16, 0, 1, 2, 3, 100]),
    };
    let mut height = match cx.src.weighted(&[8, 6, 2]) {
        0 => cx.src.range(1, 20) as u32,
        1 => cx.src.range(1, 6) as u32,
        _ => *cx.src.pick(&[25u32, 0, 1, 2]),
    };
    // Now and then a wide window, or a tall one, then often with a long document.
    let big = cx.src.weighted(&[45, 1, 2]);
    if big == 1 {
        width = cx.src.range(100, 600) as u16;
        height = height.min(4);
    } else if big == 2 {
        height = cx.src.range(20, 300) as u32;
        width = width.min(30);
    }
    let dcfg = Cfg { eol: c.eol, odd_unicode: false, combining: false, max_nodes: 25, ..STD };
    let mut docs = Vec::new();
    for _ in 0..ndocs {
        let mut d = gen_doc(&mut cx.src, &dcfg);
        if big == 2 && cx.src.chance(1, 2) {
            d = stack_up(&mut cx.src, d);
        }
        if repeats_too_much(&d) {
            return None;
        }
        if !doc_pane_able(&d) {
            panic!("generated document has text that panes cannot show: {}", d.dump());
        }
        docs.push(d);
    }
    let mut content = Vec::new();
    for _ in 0..c.labels {
        if docs.is_empty() || cx.src.chance(1, 15) {
            content.push(None);
            continue;
        }
        let k = cx.src.below(docs.len());
        let m = Model::new(&docs[k]);
        let l = m.print(width as u64, Mode::Documented, false);
        if !model_ok(&l) {
            return None;
        }
        let (mut path, mut target, _) = gen_focus(cx, &docs[k], &l);
        // mostly a focus that exists
        for _ in 0..3 {
            if matches!(expect_focus(&docs[k], &l, &path, target), Expect::At(_)) {
                break;
            }
            if bad_focus && cx.src.chance(1, 4) {
                break;
            }
            let f = gen_focus(cx, &docs[k], &l);
            path = f.0;
            target = f.1;
        }
        if !bad_focus && !matches!(expect_focus(&docs[k], &l, &path, target), Expect::At(_)) {
            path = vec![];
            target = Target::Start;
        }
        let h = cx.src.weighted(&[3, 2, 2, 4]);
        let height = match h {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            _ => cx.src.below(101) as f32 / 100.0,
        };
        let ws = match cx.src.weighted(&[3, 2, 2]) {
            0 => WidthStrategy::Full,
            1 => WidthStrategy::NoMoreThan(*cx.src.pick(&[10u16, 0, 1, 5, 20, 40, 65535])),
            _ => WidthStrategy::Fixed(*cx.src.pick(&[10u16, 0, 1, 5, 20, 40, 65535])),
        };
        let set_focus = cx.src.chance(2, 3);
        content.push(Some((k, Opt { path, target, height, ws, set_focus })));
    }
    Some(Scene { docs, content, note, width, height })
}

pub const PANE_STYLE: u32 = 2_000_000;

pub fn run_scene<W: PrettyWindow<Style = Sty>>(
    s: &Scene,
    win: &mut W,
) -> Result<(), PaneError<W::Error, DErr>> {
    let get = |label: usize| -> Option<(D<'_>, PrintingOptions)> {
        s.content[label].as_ref().map(|(k, o)| (s.docs[*k].root(), o.real()))
    };
    display_pane(win, &s.note, &Sty(vec![PANE_STYLE]), &get)
}

pub fn show_scene(s: &Scene) -> String {
    let mut r = format!("  window {}x{}\n  panes {:?}\n", s.width, s.height, s.note);
    for (i, c) in s.content.iter().enumerate() {
        r.push_str(&format!("  label {i}: {c:?}\n"));
    }
    for (i, d) in s.docs.iter().enumerate() {
        r.push_str(&format!("  document {i}:\n{}", d.dump()));
    }
    r
}

// ---- the reference renderer ---------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Rect {
    r0: u64,
    r1: u64,
    c0: u64,
    c1: u64,
}

#[derive(Default)]
pub struct RefOut {
    pub cells: BTreeMap<(u32, u16), (char, Vec<u32>, bool)>,
    pub foci: Vec<(u32, u16)>,
    pub errs: Vec<String>,
    pub unclear: bool,
    pub too_big: bool,
    // statistics
    pub doc_panes: usize,
    pub lines_shown: usize,
    pub cut_lines: bool,
    pub above: bool,
    /// The most lines shown above a focus.
    pub most_above: u64,
    pub dynamic_shown: usize,
    pub prop_groups: usize,
    pub splits: usize,
}

/// Fixed, then dynamic, then proportional shares of `total`.
pub fn divide(total: u64, sizes: &[PaneSize], dynamic: &mut dyn FnMut(usize, u64) -> u64) -> Vec<u64> {
    let mut got = vec![0u64; sizes.len()];
    let mut left = total;
    for (i, s) in sizes.iter().enumerate() {
        if let PaneSize::Fixed(n) = s {
            got[i] = left.min(*n as u64);
            left -= got[i];
        }
    }
    for (i, s) in sizes.iter().enumerate() {
        if *s == PaneSize::Dynamic {
            got[i] = dynamic(i, left);
            left -= got[i];
        }
    }
    let ws: Vec<(usize, u128)> = sizes
        .iter()
        .enumerate()
        .filter_map(|(i, s)| match s {
            PaneSize::Proportional(w) => Some((i, *w as u128)),
            _ => None,
        })
        .collect();
    let sum: u128 = ws.iter().map(|w| w.1).sum();
    if sum > 0 {
        let mut rest = left;
        for (i, w) in &ws {
            got[*i] = (left as u128 * w / sum) as u64;
            rest -= got[*i];
        }
        // surplus cells, largest remainder first, leftmost on ties
        let mut order: Vec<(u128, usize)> =
            ws.iter().map(|(i, w)| (left as u128 * w % sum, *i)).collect();
        while rest > 0 {
            let mut best = 0;
            for k in 1..order.len() {
                if order[k].0 > order[best].0 {
                    best = k;
                }
            }
            let (_, i) = order.remove(best);
            got[i] += 1;
            rest -= 1;
        }
    }
    got
}

struct RefDoc {
    /// (segments, width) of each visible line
    lines: Vec<(Vec<(String, Vec<u32>)>, u64)>,
    first_row: u64,
    focus: Option<(u64, u64)>,
    style: Vec<u32>,
}

fn ref_doc(s: &Scene, label: usize, w: u64, h: u64, style: &[u32], out: &mut RefOut) -> Option<RefDoc> {
    let empty = RefDoc { lines: vec![], first_row: 0, focus: None, style: style.to_vec() };
    let Some((k, o)) = &s.content[label] else {
        return None;
    };
    if w == 0 || h == 0 {
        return Some(empty);
    }
    let doc = &s.docs[*k];
    let pw = match o.ws {
        WidthStrategy::Full => w,
        WidthStrategy::Fixed(x) => x as u64,
        WidthStrategy::NoMoreThan(x) => w.min(x as u64),
    };
    let mut m = Model::new(doc);
    if doc.nodes.len() > 1000 {
        m.limit = 10_000_000;
    }
    let l = m.print(pw, Mode::Documented, false);
    if !model_ok(&l) {
        out.too_big = true;
        return Some(empty);
    }
    let at = match expect_focus(doc, &l, &o.path, o.target) {
        Expect::At(at) => at,
        Expect::Unclear => {
            out.unclear = true;
            return Some(empty);
        }
        Expect::Invalid(i) => {
            out.errs.push(format!("{:?}", PrintingError::<DErr>::InvalidPath(i)));
            return Some(empty);
        }
        Expect::NoMark => {
            out.errs.push(format!("{:?}", PrintingError::<DErr>::MissingFocusMark));
            return Some(empty);
        }
        Expect::NoText => {
            out.errs.push(format!("{:?}", PrintingError::<DErr>::MissingText));
            return Some(empty);
        }
    };
    let row = (f32::round((h - 1) as f32 * o.height) as u64).min(h - 1);
    let above = row.min(at.line as u64);
    let below = (h - row - 1).min((l.lines.len() - 1 - at.line) as u64);
    let first = at.line as u64 - above;
    let last = at.line as u64 + below;
    if l.err.is_some() && last == l.lines.len() as u64 - 1 {
        out.errs.push(format!("{:?}", PrintingError::<DErr>::TextAfterEndOfLine));
        return Some(empty);
    }
    out.above |= above > 0;
    out.most_above = out.most_above.max(above);
    let mut lines = Vec::new();
    for ml in &l.lines[first as usize..=last as usize] {
        let segs = norm_mline(ml)
            .into_iter()
            .map(|(t, st)| {
                let mut full = style.to_vec();
                full.extend(st);
                (t, full)
            })
            .collect();
        lines.push((segs, ml.width));
    }
    let text = l.lines[at.line].text();
    let col = width_of(&text[..at.off]);
    let focus = if o.set_focus { Some((row, col)) } else { None };
    Some(RefDoc { lines, first_row: row - above, focus, style: style.to_vec() })
}

fn ref_show(d: &RefDoc, rect: Rect, out: &mut RefOut) {
    if let Some((r, c)) = d.focus {
        out.foci.push(((rect.r0 + r) as u32, (rect.c0 + c).min(65535) as u16));
    }
    out.doc_panes += 1;
    for row in rect.r0..rect.r1 {
        let mut col = rect.c0;
        let i = (row - rect.r0) as i64 - d.first_row as i64;
        if i >= 0 && (i as usize) < d.lines.len() {
            out.lines_shown += 1;
            'line: for (t, st) in &d.lines[i as usize].0 {
                for ch in t.chars() {
                    let cw = ch.width().unwrap() as u64;
                    if col + cw > rect.c1 {
                        out.cut_lines = true;
                        break 'line;
                    }
                    out.cells.insert((row as u32, col as u16), (ch, st.clone(), cw == 2));
                    col += cw;
                }
            }
        }
        while col < rect.c1 {
            out.cells.insert((row as u32, col as u16), (' ', d.style.clone(), false));
            col += 1;
        }
    }
}

fn ref_pane(s: &Scene, n: &PN, style: &[u32], rect: Rect, out: &mut RefOut) {
    match n {
        PN::Style { style: st, notation } => {
            let mut v = style.to_vec();
            v.extend_from_slice(&st.0);
            ref_pane(s, notation, &v, rect, out)
        }
        PN::Fill { ch } => {
            let cw = ch.width().unwrap() as u64;
            for row in rect.r0..rect.r1 {
                let mut col = rect.c0;
                while col + cw <= rect.c1 {
                    out.cells.insert((row as u32, col as u16), (*ch, style.to_vec(), cw == 2));
                    col += cw;
                }
                if col < rect.c1 {
                    out.cells.insert((row as u32, col as u16), (' ', style.to_vec(), false));
                }
            }
        }
        PN::Doc { label } => {
            if let Some(d) = ref_doc(s, *label, rect.c1 - rect.c0, rect.r1 - rect.r0, style, out) {
                ref_show(&d, rect, out);
            }
        }
        PN::Horz(v) | PN::Vert(v) => {
            let horz = matches!(n, PN::Horz(_));
            let (lo, total) = if horz {
                (rect.c0, rect.c1 - rect.c0)
            } else {
                (rect.r0, rect.r1 - rect.r0)
            };
            let across = if horz { rect.r1 - rect.r0 } else { rect.c1 - rect.c0 };
            let sizes: Vec<PaneSize> = v.iter().map(|x| x.0).collect();
            out.splits += 1;
            if sizes.iter().filter(|s| matches!(s, PaneSize::Proportional(_))).count() > 1 {
                out.prop_groups += 1;
            }
            let mut docs: Vec<Option<RefDoc>> = (0..v.len()).map(|_| None).collect();
            let mut bad = false;
            let got = divide(total, &sizes, &mut |i, left| {
                let mut p = &v[i].1;
                let mut st = style.to_vec();
                while let PN::Style { style, notation } = p {
                    st.extend_from_slice(&style.0);
                    p = notation;
                }
                let PN::Doc { label } = p else {
                    bad = true;
                    out.errs.push("InvalidUseOfDynamic".into());
                    return 0;
                };
                let d = if horz {
                    ref_doc(s, *label, left, across, &st, out)
                } else {
                    ref_doc(s, *label, across, left, &st, out)
                };
                let Some(mut d) = d else { return 0 };
                out.dynamic_shown += !d.lines.is_empty() as usize;
                let need = if horz {
                    d.lines.iter().map(|l| l.1).max().unwrap_or(0).min(left)
                } else {
                    if let Some(f) = &mut d.focus {
                        f.0 -= d.first_row;
                    }
                    d.first_row = 0;
                    d.lines.len() as u64
                };
                docs[i] = Some(d);
                need
            });
            if bad {
                return;
            }
            let mut at = lo;
            for (i, (size, p)) in v.iter().enumerate() {
                let r = if horz {
                    Rect { c0: at, c1: at + got[i], ..rect }
                } else {
                    Rect { r0: at, r1: at + got[i], ..rect }
                };
                at += got[i];
                if *size == PaneSize::Dynamic {
                    if let Some(d) = &docs[i] {
                        ref_show(d, r, out);
                    }
                } else {
                    ref_pane(s, p, style, r, out);
                }
            }
        }
    }
}

pub fn reference(s: &Scene) -> RefOut {
    let mut out = RefOut::default();
    let rect = Rect { r0: 0, r1: s.height as u64, c0: 0, c1: s.width as u64 };
    ref_pane(s, &s.note, &[PANE_STYLE], rect, &mut out);
    out
}

pub fn err_name(e: &PaneError<WErr, DErr>) -> String {
    match e {
        PaneError::InvalidUseOfDynamic => "InvalidUseOfDynamic".into(),
        PaneError::PrettyWindowError(w) => format!("window {w}"),
        PaneError::PrintingError(p) => format!("{p:?}"),
    }
}

fn picture(cells: &BTreeMap<(u32, u16), (char, Vec<u32>, bool)>) -> String {
    let mut s = String::new();
    let mut row = u32::MAX;
    let mut col = 0u32;
    for ((r, c), (ch, _, full)) in cells.iter() {
        if *r != row {
            if row != u32::MAX {
                s.push_str("|\n");
            }
            row = *r;
            s.push_str(&format!("    {r:>3} |"));
            col = 0;
        }
        while col < *c as u32 {
            s.push('·');
            col += 1;
        }
        s.push(*ch);
        col += 1 + *full as u32;
        if s.len() > 6000 {
            s.push_str("...");
            break;
        }
    }
    s.push_str("|\n");
    s
}

/// Runs the library on the scene and compares everything with the reference.
pub fn compare_scene(cx: &mut Cx, s: &Scene) -> Result<Option<RefOut>, String> {
    let r = reference(s);
    if r.too_big || r.unclear {
        cx.label("not settled by the documentation, or too big");
        return Ok(None);
    }
    let mut win = Rec::new(s.width, s.height);
    cx.evals += 1;
    let res = guard(|| run_scene(s, &mut win)).map_err(|e| format!("{e}\n{}", show_scene(s)))?;
    let cxt = |e: String| format!("{e}\n{}", show_scene(s));
    match res {
        Err(e) => {
            let name = err_name(&e);
            if !r.errs.contains(&name) {
                return Err(cxt(format!("display failed with {name}, expected {:?}", r.errs)));
            }
            cx.label("displaying fails as documented");
            return Ok(Some(r));
        }
        Ok(()) => {
            if let Some(e) = r.errs.first() {
                return Err(cxt(format!("display succeeded, expected error {e}")));
            }
        }
    }
    let mut cells = BTreeMap::new();
    let mut foci = Vec::new();
    for c in win.calls.borrow().iter() {
        match c {
            Call::Focus { row, col } => foci.push((*row, *col)),
            Call::Char { ch, row, col, style, full } => {
                if let Some(old) = cells.insert((*row, *col), (*ch, style.clone(), *full)) {
                    return Err(cxt(format!("cell ({row},{col}) written twice: {old:?} then {ch:?}")));
                }
            }
        }
    }
    if cells != r.cells {
        let mut diff = String::new();
        let keys: std::collections::BTreeSet<_> = cells.keys().chain(r.cells.keys()).collect();
        for k in keys.into_iter().filter(|k| cells.get(k) != r.cells.get(k)).take(5) {
            diff.push_str(&format!("    cell {k:?}: expected {:?}, got {:?}\n", r.cells.get(k), cells.get(k)));
        }
        return Err(cxt(format!(
            "the window does not show what it should\n{diff}  expected:\n{}  got:\n{}",
            picture(&r.cells),
            picture(&cells)
        )));
    }
    let mut a = foci.clone();
    let mut b = r.foci.clone();
    a.sort();
    b.sort();
    if a != b {
        return Err(cxt(format!("focus set to {foci:?}, expected {:?}", r.foci)));
    }
    Ok(Some(r))
}

// ---- C11 --------------------------------------------------------------------------------------

pub fn c11(cx: &mut Cx) -> Res {
    let with_docs = cx.src.chance(1, 3);
    let c = PaneCfg {
        labels: if with_docs { 2 } else { 0 },
        fill: 4,
        doc: 9,
        dynamic: 6,
        huge: 1,
        bad_dynamic: 0,
        depth: 1 + cx.src.below(3),
        max_kids: 7,
        eol: false,
    };
    let Some(mut s) = gen_scene(cx, &c, with_docs as usize, false) else {
        return cx.discard("too big for the model");
    };
    // always some split at the top
    if !matches!(s.note, PN::Horz(_) | PN::Vert(_)) {
        let mut g = PGen { next_fill: 20, next_style: 50 };
        let mut n = cx.src.range(2, 7);
        if cx.src.chance(1, 10) {
            n = cx.src.range(15, 60);
        }
        // Hundreds of panes, so that hundreds of cells are left over.
        let many = cx.src.chance(1, 60);
        if many {
            n = cx.src.range(200, 1200);
            s.width = cx.src.range(200, 1500) as u16;
            s.height = 1;
        }
        cx.label_if(many, "hundreds of panes");
        let mut v = vec![(gen_size(&mut cx.src, &c, false), s.note.clone())];
        for _ in 1..n {
            let p = gen_pane(&mut cx.src, &PaneCfg { doc: 0, ..c }, &mut g, 0);
            v.push((gen_size(&mut cx.src, &c, false), p));
        }
        let vert = cx.src.chance(1, 2);
        if many && vert {
            (s.width, s.height) = (1, s.width as u32);
        }
        s.note = if vert { PN::Vert(v) } else { PN::Horz(v) };
    }
    match cx.src.weighted(&[1500, 1, 1]) {
        0 => (),
        1 => {
            s.width = *cx.src.pick(&[65535u16, 65534, 40000]);
            s.height = 1;
        }
        _ => {
            s.height = *cx.src.pick(&[70_000u32, 65_536]);
            s.width = 1;
        }
    }
    if s.width as u64 * s.height as u64 > 200_000 {
        return cx.discard("window too big");
    }
    cx.describe(|| show_scene(&s));
    let Some(r) = compare_scene(cx, &s)? else {
        return Ok(false);
    };
    cx.label_if(r.prop_groups > 0, "two or more proportional panes share");
    cx.label_if(r.dynamic_shown > 0, "dynamic pane");
    cx.label_if(r.splits > 1, "nested splits");
    cx.label_if(s.width > 1000 || s.height > 1000, "very large window");
    let zero = has_size(&s.note, &|p| *p == PaneSize::Proportional(0));
    let huge = has_size(&s.note, &|p| matches!(p, PaneSize::Proportional(n) | PaneSize::Fixed(n) if *n > 1 << 32));
    cx.label_if(zero, "zero weight");
    cx.label_if(huge, "huge size or weight");
    Ok(r.errs.is_empty() && r.cells.len() > 1)
}

fn has_size(n: &PN, f: &dyn Fn(&PaneSize) -> bool) -> bool {
    match n {
        PN::Style { notation, .. } => has_size(notation, f),
        PN::Horz(v) | PN::Vert(v) => v.iter().any(|(s, p)| f(s) || has_size(p, f)),
        _ => false,
    }
}

// ---- C12 --------------------------------------------------------------------------------------

/// Give every leaf a style of its own, innermost, so that cells tell their pane.
fn tag_leaves(n: &PN, next: &mut u32) -> PN {
    match n {
        PN::Style { style, notation } => {
            PN::Style { style: style.clone(), notation: Box::new(tag_leaves(notation, next)) }
        }
        PN::Horz(v) => PN::Horz(v.iter().map(|(s, p)| (*s, tag_leaves(p, next))).collect()),
        PN::Vert(v) => PN::Vert(v.iter().map(|(s, p)| (*s, tag_leaves(p, next))).collect()),
        leaf => {
            *next += 1;
            PN::Style { style: Sty(vec![3_000_000 + *next]), notation: Box::new(leaf.clone()) }
        }
    }
}

pub fn c12(cx: &mut Cx) -> Res {
    let c = PaneCfg {
        labels: 3,
        fill: 3,
        doc: 5,
        dynamic: 3,
        huge: cx.src.chance(1, 4) as usize,
        bad_dynamic: cx.src.chance(1, 5) as usize,
        depth: [0, 1, 1, 2, 2, 2, 3, 3][cx.src.below(8)],
        max_kids: 5,
        eol: false,
    };
    let Some(mut s) = gen_scene(cx, &c, 2, false) else {
        return cx.discard("too big for the model");
    };
    if cx.src.chance(1, 1000) {
        s.width = 65535 - cx.src.below(3) as u16;
        s.height = cx.src.range(1, 2) as u32;
    }
    let mut next = 0;
    // The tags tell the panes apart, but also stand between a size and its document.
    let tagged = !cx.src.chance(1, 5);
    if tagged {
        s.note = tag_leaves(&s.note, &mut next);
    }
    cx.label_if(!tagged, "leaves without styles of their own");
    cx.describe(|| show_scene(&s));
    let cxt = |e: String| format!("{e}\n{}", show_scene(&s));
    let mut win = Rec::new(s.width, s.height);
    let res = guard(|| run_scene(&s, &mut win)).map_err(cxt)?;
    let invalid = has_bad_dynamic(&s.note);
    match &res {
        Err(PaneError::InvalidUseOfDynamic) => {
            cx.label("invalid use of dynamic");
            if !invalid {
                return Err(cxt("InvalidUseOfDynamic, but every dynamic pane holds a document".into()));
            }
        }
        Err(PaneError::PrintingError(
            PrintingError::InvalidPath(_) | PrintingError::MissingFocusMark | PrintingError::MissingText,
        )) => cx.label("focus absent"),
        Err(e) => return Err(cxt(format!("unexpected error {}", err_name(e)))),
        Ok(()) => {
            if invalid {
                return Err(cxt("a dynamic pane that is not a document was accepted".into()));
            }
        }
    }
    let mut owner: BTreeMap<(u32, u32), u32> = BTreeMap::new();
    let mut wide_at_edge = false;
    let calls = win.calls.borrow();
    for call in calls.iter() {
        let Call::Char { ch, row, col, style, full } = call else { continue };
        let w = ch.width().unwrap_or(1);
        if (w == 2) != *full {
            return Err(cxt(format!("{ch:?} is {w} columns wide but announced with full_width={full}")));
        }
        if *row >= s.height || *col as u32 + w.max(1) as u32 > s.width as u32 {
            return Err(cxt(format!("{ch:?} at ({row},{col}) is not wholly inside the window")));
        }
        let tag = style.iter().copied().find(|a| *a >= 3_000_000 && *a < 4_000_000);
        let tag = match tag {
            Some(tag) => tag,
            None if !tagged => 0,
            None => return Err(cxt(format!("{ch:?} at ({row},{col}) lacks its pane's style: {style:?}"))),
        };
        for k in 0..w.max(1) as u32 {
            if let Some(old) = owner.insert((*row, *col as u32 + k), tag) {
                return Err(cxt(format!("cell ({row},{}) written twice, by panes {old} and {tag}", *col as u32 + k)));
            }
        }
        wide_at_edge |= *full && *col as u32 + 2 == s.width as u32;
    }
    cx.label_if(wide_at_edge, "full-width character at the right edge");
    cx.label_if(s.width > 60000, "widest windows");
    // each pane's cells fill a rectangle
    let mut boxes: BTreeMap<u32, (u32, u32, u32, u32, u64)> = BTreeMap::new();
    for ((r, c), t) in &owner {
        let b = boxes.entry(*t).or_insert((*r, *r, *c, *c, 0));
        b.0 = b.0.min(*r);
        b.1 = b.1.max(*r);
        b.2 = b.2.min(*c);
        b.3 = b.3.max(*c);
        b.4 += 1;
    }
    if res.is_ok() {
        for (t, b) in boxes.iter().filter(|_| tagged) {
            let area = (b.1 - b.0 + 1) as u64 * (b.3 - b.2 + 1) as u64;
            if area != b.4 {
                return Err(cxt(format!(
                    "pane {t} spans rows {}..={} and columns {}..={} but only {} of its cells were written",
                    b.0, b.1, b.2, b.3, b.4
                )));
            }
        }
        // and no cell of a fill or document pane is left out
        let r = reference(&s);
        if !r.too_big && !r.unclear && r.errs.is_empty() {
            let mut want = 0u64;
            for (_, _, full) in r.cells.values() {
                want += 1 + *full as u64;
            }
            if owner.len() as u64 != want {
                return Err(cxt(format!("{} cells written, {want} belong to fill and document panes", owner.len())));
            }
        }
    }
    cx.label_if(boxes.len() > 2, "more than two panes with cells");
    cx.label_if(calls.iter().any(|c| matches!(c, Call::Char { full: true, .. })), "full-width characters drawn");
    cx.evals += 1;
    Ok(res.is_ok() && (boxes.len() > 1 || !tagged && owner.len() > 1))
}

fn has_bad_dynamic(n: &PN) -> bool {
    match n {
        PN::Style { notation, .. } => has_bad_dynamic(notation),
        PN::Horz(v) | PN::Vert(v) => v.iter().any(|(s, p)| {
            let mut q = p;
            while let PN::Style { notation, .. } = q {
                q = notation;
            }
            (*s == PaneSize::Dynamic && !matches!(q, PN::Doc { .. })) || has_bad_dynamic(p)
        }),
        _ => false,
    }
}

// ---- C13 --------------------------------------------------------------------------------------

pub fn c13(cx: &mut Cx) -> Res {
    let c = PaneCfg {
        labels: 2,
        fill: 1,
        doc: 8,
        dynamic: 5,
        huge: 0,
        bad_dynamic: 0,
        depth: cx.src.below(3),
        max_kids: 3,
        eol: cx.src.chance(1, 3),
    };
    let Some(s) = gen_scene(cx, &c, 2, true) else {
        return cx.discard("too big for the model");
    };
    cx.describe(|| show_scene(&s));
    let Some(r) = compare_scene(cx, &s)? else {
        return Ok(false);
    };
    cx.label_if(r.doc_panes > 0, "document pane");
    cx.label_if(r.doc_panes > 1, "several document panes");
    cx.label_if(r.above, "lines above the focus shown");
    cx.label_if(r.most_above > 30, "more than 30 lines above the focus shown");
    cx.label_if(r.cut_lines, "line cut at the pane edge");
    cx.label_if(r.dynamic_shown > 0, "dynamic pane");
    cx.label_if(!r.foci.is_empty(), "focus set");
    cx.label_if(r.errs.iter().any(|e| e == "TextAfterEndOfLine"), "a visible line has text after end-of-line");
    cx.label_if(r.foci.iter().any(|f| f.0 > 0 && f.1 > 0), "focus away from the origin");
    Ok(r.errs.is_empty() && r.lines_shown > 1)
}

/// A fixed input on which the tree is known to break C13: characters without a
/// width of their own. Returns what is wrong, if it is.
pub fn probe_zero_width() -> Option<String> {
    let node = |kind: Kind, note| crate::doc::Node { note, kind, conds: 0, id: 1, styled: false, parent: 0, index: 0 };
    let doc = Doc::new(
        vec![partial_pretty_printer::Notation::Text],
        vec![node(Kind::Text("e\u{301}x".into()), 0)],
        true,
    );
    let s = Scene {
        docs: vec![doc],
        content: vec![Some((
            0,
            Opt { path: vec![], target: Target::Text(2), height: 0.0, ws: WidthStrategy::Full, set_focus: true },
        ))],
        note: PN::Doc { label: 0 },
        width: 10,
        height: 1,
    };
    let mut win = Rec::new(10, 1);
    run_scene(&s, &mut win).ok()?;
    let calls = win.calls.borrow();
    let x = calls.iter().find_map(|c| match c {
        Call::Char { ch: 'x', col, .. } => Some(*col),
        _ => None,
    })?;
    let f = calls.iter().find_map(|c| match c {
        Call::Focus { col, .. } => Some(*col),
        _ => None,
    })?;
    if x != f {
        Some(format!(
            "text \"e\\u{{301}}x\" focused before 'x': focus set at column {f}, but 'x' is drawn at column {x} (zero-width characters are given a cell)"
        ))
    } else {
        None
    }
}

// ---- C14 --------------------------------------------------------------------------------------

fn rendered(cells: &BTreeMap<(u32, u16), (char, bool)>) -> String {
    let mut out = String::new();
    let Some(((last, _), _)) = cells.iter().next_back() else {
        return out;
    };
    for row in 0..=*last {
        let mut col = 0u32;
        for ((_, c), (ch, full)) in cells.range((row, 0)..=(row, u16::MAX)) {
            while col < *c as u32 {
                out.push(' ');
                col += 1;
            }
            out.push(*ch);
            col += 1 + *full as u32;
        }
        out.push('\n');
    }
    out
}

pub fn c14(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 4) {
        return c14_panes(cx);
    }
    let width = match cx.src.below(5) {
        0 => cx.src.range(1, 4) as u16,
        1 => *cx.src.pick(&[65535u16, 0, 200, 300, 1000]),
        _ => cx.src.range(1, 20) as u16,
    };
    let unbounded = cx.src.chance(1, 8);
    let height = if unbounded { u32::MAX } else { *cx.src.pick(&[8u32, 1, 3, 0, 40, 300]) };
    let mut win: PlainText<Sty> =
        if unbounded { PlainText::new_unbounded_height(width) } else { PlainText::new(width, height) };
    let n = cx.src.below(40);
    let mut cells: BTreeMap<(u32, u16), (char, bool)> = BTreeMap::new();
    let mut taken = std::collections::BTreeSet::new();
    let mut foci = Vec::new();
    let mut log = Vec::new();
    let mut backwards = false;
    let mut last = (0, 0);
    let mut wides = 0;
    for _ in 0..n {
        if cx.src.chance(1, 8) {
            let pos = Pos { row: cx.src.below(50) as u32, col: cx.src.below(50) as u16 };
            win.set_focus(pos).unwrap();
            foci.push(pos);
            log.push(format!("set_focus {pos}"));
            continue;
        }
        if width == 0 || height == 0 {
            continue;
        }
        let mut full = cx.src.chance(1, 3);
        let ch = if cx.src.chance(1, 8) {
            let c = any_char(&mut cx.src, false);
            full = c.width() == Some(2);
            c
        } else if full {
            *cx.src.pick(&['字', 'あ', '｜', '😀'])
        } else {
            *cx.src.pick(&['a', 'b', '#', ' ', 'é', 'ñ'])
        };
        let w = 1 + full as u32;
        if w > width as u32 {
            continue;
        }
        let row = match cx.src.weighted(&[20, 1]) {
            0 => cx.src.below(height.min(12) as usize) as u32,
            _ => *cx.src.pick(&[20u32, 63, 64, 100, 127, 128, 255, 256, 257, 300]) % height,
        };
        let span = width as usize - w as usize + 1;
        let col = match cx.src.weighted(&[6, 1, 1]) {
            1 if span > 64 => span - 1,
            2 if span > 64 => *cx.src.pick(&[64, 100, 127, 128, 199, 255, 256, 257, 511, 512]) % span,
            _ => cx.src.below(span.min(64)),
        } as u16;
        if (0..w).any(|k| taken.contains(&(row, col as u32 + k))) {
            continue;
        }
        for k in 0..w {
            taken.insert((row, col as u32 + k));
        }
        backwards |= (row, col) < last;
        last = (row, col);
        wides += full as usize;
        let style = Sty(vec![cx.src.below(3) as u32]);
        win.display_char(ch, Pos { row, col }, &style, full).unwrap();
        log.push(format!("display_char {ch:?} ({row},{col}) full={full}"));
        cells.insert((row, col), (ch, full));
    }
    cx.describe(|| format!("window {width}x{height}\n{}", log.join("\n")));
    let cxt = |e: String| format!("{e}\n  window {width}x{height}\n    {}", log.join("\n    "));
    if win.size().unwrap() != (Size { width, height }) {
        return Err(cxt(format!("reports size {}", win.size().unwrap())));
    }
    if win.focus_points() != &foci[..] {
        return Err(cxt(format!("reports focus points {:?}", win.focus_points())));
    }
    let got = win.to_string();
    let want = rendered(&cells);
    if got != want {
        return Err(cxt(format!("renders {got:?}, expected {want:?}")));
    }
    cx.label_if(backwards, "drawn out of order");
    cx.label_if(wides > 0, "full-width characters");
    cx.label_if(unbounded, "unbounded height");
    cx.label_if(!foci.is_empty(), "focus points set");
    Ok(cells.len() > 1 && (backwards || wides > 0))
}

fn c14_panes(cx: &mut Cx) -> Res {
    let c = PaneCfg {
        labels: 2,
        fill: 3,
        doc: 4,
        dynamic: 3,
        huge: 0,
        bad_dynamic: 0,
        depth: cx.src.below(3),
        max_kids: 4,
        eol: false,
    };
    let Some(s) = gen_scene(cx, &c, 1, false) else {
        return cx.discard("too big for the model");
    };
    cx.describe(|| show_scene(&s));
    cx.label("pane layout shown in a plain-text window");
    let mut rec = Rec::new(s.width, s.height);
    let mut win: PlainText<Sty> = PlainText::new(s.width, s.height);
    let a = run_scene(&s, &mut rec);
    let b = run_scene(&s, &mut win);
    if a.is_err() || b.is_err() {
        return cx.discard("focus absent");
    }
    let mut cells = BTreeMap::new();
    let mut foci = Vec::new();
    for call in rec.calls.borrow().iter() {
        match call {
            Call::Char { ch, row, col, full, .. } => {
                cells.insert((*row, *col), (*ch, *full));
            }
            Call::Focus { row, col } => foci.push(Pos { row: *row, col: *col }),
        }
    }
    let cxt = |e: String| format!("{e}\n{}", show_scene(&s));
    let want = rendered(&cells);
    if win.to_string() != want {
        return Err(cxt(format!("renders\n{}expected\n{want}", win)));
    }
    if win.focus_points() != &foci[..] {
        return Err(cxt(format!("focus points {:?}, expected {foci:?}", win.focus_points())));
    }
    Ok(cells.len() > 1)
}
