//! Reference printer, written from the documentation of the notations. It
//! prints a whole document front to back with a persistent stack of pending
//! notations, decides each choice by scanning ahead on that stack, and records
//! where every node, mark and text landed.

use crate::doc::{lookup_atom, node_atom, Doc, Kind, N, ROOT_ATOM};
use partial_pretty_printer::{CheckPos, Notation};
use std::rc::Rc;
use unicode_width::UnicodeWidthStr;

pub fn width_of(s: &str) -> u64 {
    UnicodeWidthStr::width(s) as u64
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// The documented rule: later choices take their second option.
    Documented,
    /// Later choices may be resolved in any way (documents without
    /// end-of-line items only).
    Existential,
    /// Always the first option.
    AllFirst,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum From {
    Literal,
    Text,
    Indent,
}

#[derive(Clone, Debug)]
pub struct MSeg<'a> {
    pub s: &'a str,
    pub style: Rc<Vec<u32>>,
    pub from: From,
}

#[derive(Clone, Debug, Default)]
pub struct MLine<'a> {
    pub segs: Vec<MSeg<'a>>,
    pub width: u64,
    pub bytes: usize,
}

impl<'a> MLine<'a> {
    pub fn text(&self) -> String {
        self.segs.iter().map(|s| s.s).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct At {
    pub line: usize,
    /// Byte offset in the line.
    pub off: usize,
}

#[derive(Clone, Debug)]
pub struct Occ {
    pub node: usize,
    pub start: At,
    /// Equal to `start` until the node has been printed completely.
    pub end: At,
    pub closed: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Mismatch {
    TextOnTextless,
    ChildIndex { index: isize, len: usize },
    ChildOnChildless,
    CheckPosIndex { index: isize, len: usize },
    CheckPosOnChildless,
    CountOnChildless,
    FoldOnChildless,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MErr {
    /// Text after an end-of-line, on the last line of `lines`.
    TextAfterEol,
    Mismatch(Mismatch),
    /// A mismatch met while looking ahead to decide a choice.
    Lookahead(Mismatch),
    /// The model's own work limit.
    TooBig,
}

pub struct Layout<'a> {
    pub lines: Vec<MLine<'a>>,
    pub occs: Vec<Occ>,
    /// Own marks, in layout order: (node, position).
    pub marks: Vec<(usize, At)>,
    /// Own texts, in layout order: (node, position of its start).
    pub texts: Vec<(usize, At)>,
    pub err: Option<MErr>,
    pub steps: u64,
    pub choices: usize,
    pub chose_second: usize,
    /// Choices whose decision needed content after the choice itself.
    pub eol_seen: bool,
    /// In `Existential` mode: lines at whose beginning no resolution fits.
    pub hopeless: Vec<bool>,
}

impl<'a> Layout<'a> {
    pub fn max_width(&self) -> u64 {
        self.lines.iter().map(|l| l.width).max().unwrap_or(0)
    }
    pub fn text(&self) -> String {
        self.lines.iter().map(|l| l.text()).collect::<Vec<_>>().join("\n")
    }
}

#[derive(Debug)]
struct Ind<'a> {
    s: &'a str,
    style: Rc<Vec<u32>>,
    outer: Option<Rc<Ind<'a>>>,
}

impl Drop for Ind<'_> {
    // (not recursively: there may be very many)
    fn drop(&mut self) {
        let mut next = self.outer.take();
        while let Some(x) = next {
            next = Rc::try_unwrap(x).ok().and_then(|mut x| x.outer.take());
        }
    }
}

#[derive(Clone, Copy)]
struct Join<'a> {
    /// Right child of the current join.
    k: usize,
    first: &'a N,
    join: &'a N,
}

#[derive(Clone)]
pub struct It<'a> {
    note: &'a N,
    node: usize,
    flat: bool,
    ind: Option<Rc<Ind<'a>>>,
    style: Rc<Vec<u32>>,
    join: Option<Join<'a>>,
}

enum Step<'a> {
    Nothing,
    Text(&'a str, From),
    Eol,
    Newline,
    Mark,
    Seq(It<'a>, It<'a>),
    Choice(It<'a>, It<'a>),
    /// Continue with this in the same node.
    Same(It<'a>),
    /// A child node's notation.
    Enter(It<'a>),
    Bad(Mismatch),
}

#[derive(Clone)]
enum Fr<'a> {
    It(It<'a>),
    Close(usize),
}
struct SNode<'a> {
    fr: Fr<'a>,
    next: Stack<'a>,
}
type Stack<'a> = Option<Rc<SNode<'a>>>;

fn push<'a>(s: &Stack<'a>, fr: Fr<'a>) -> Stack<'a> {
    Some(Rc::new(SNode { fr, next: s.clone() }))
}

pub fn norm_index(i: isize, len: usize) -> Option<usize> {
    if i >= 0 {
        if (i as usize) < len {
            Some(i as usize)
        } else {
            None
        }
    } else {
        let back = i.unsigned_abs();
        if back <= len {
            Some(len - back)
        } else {
            None
        }
    }
}

fn extend(style: &Rc<Vec<u32>>, atom: Option<u32>) -> Rc<Vec<u32>> {
    match atom {
        None => style.clone(),
        Some(a) => {
            let mut v = Vec::with_capacity(style.len() + 1);
            v.extend_from_slice(style);
            v.push(a);
            Rc::new(v)
        }
    }
}

pub struct Model<'a> {
    pub doc: &'a Doc,
    pub limit: u64,
    steps: std::cell::Cell<u64>,
    /// Some choice's first option was refused for being too wide.
    pub refused: std::cell::Cell<bool>,
}

impl<'a> Model<'a> {
    pub fn new(doc: &'a Doc) -> Model<'a> {
        Model { doc, limit: 60_000, steps: std::cell::Cell::new(0), refused: std::cell::Cell::new(false) }
    }

    fn tick(&self) -> Result<(), MErr> {
        let s = self.steps.get() + 1;
        self.steps.set(s);
        if s > self.limit {
            Err(MErr::TooBig)
        } else {
            Ok(())
        }
    }

    fn node_atom(&self, n: usize) -> Option<u32> {
        if self.doc.nodes[n].styled {
            Some(node_atom(n))
        } else {
            None
        }
    }

    fn label_atom(&self, n: usize, l: &crate::doc::Lbl) -> Option<u32> {
        if self.doc.plain {
            None
        } else {
            Some(lookup_atom(n, l))
        }
    }

    fn notation_of(&self, n: usize) -> &'a N {
        &self.doc.raw[self.doc.nodes[n].note]
    }

    pub fn root_item(&self, root_style: bool) -> It<'a> {
        let base = Rc::new(if root_style { vec![ROOT_ATOM] } else { vec![] });
        It {
            note: self.notation_of(0),
            node: 0,
            flat: false,
            ind: None,
            style: extend(&base, self.node_atom(0)),
            join: None,
        }
    }

    fn enter(&self, it: It<'a>, child: usize) -> It<'a> {
        let style = extend(&it.style, self.node_atom(child));
        It { note: self.notation_of(child), node: child, style, join: None, ..it }
    }

    fn step(&self, it: It<'a>) -> Step<'a> {
        use Notation::*;
        let kids = self.doc.kids(it.node);
        match it.note {
            Empty => Step::Nothing,
            Newline => Step::Newline,
            EndOfLine => Step::Eol,
            FocusMark => Step::Mark,
            Literal(s) => Step::Text(s, From::Literal),
            Text => match &self.doc.nodes[it.node].kind {
                Kind::Text(t) => Step::Text(t, From::Text),
                Kind::Kids(_) => Step::Bad(Mismatch::TextOnTextless),
            },
            Flat(a) => Step::Same(It { note: a, flat: true, ..it }),
            Indent(s, l, a) => {
                let style = extend(&it.style, l.as_ref().and_then(|l| self.label_atom(it.node, l)));
                let ind = Some(Rc::new(Ind { s, style, outer: it.ind.clone() }));
                Step::Same(It { note: a, ind, ..it })
            }
            Style(l, a) => {
                let style = extend(&it.style, self.label_atom(it.node, l));
                Step::Same(It { note: a, style, ..it })
            }
            Concat(a, b) => {
                let second = It { note: b, ..it.clone() };
                Step::Seq(It { note: a, ..it }, second)
            }
            Choice(a, b) => {
                if it.flat {
                    Step::Same(It { note: a, ..it })
                } else {
                    let second = It { note: b, ..it.clone() };
                    Step::Choice(It { note: a, ..it }, second)
                }
            }
            Check(c, pos, a, b) => {
                let target = match pos {
                    CheckPos::Here => it.node,
                    CheckPos::Child(i) => match kids {
                        None => return Step::Bad(Mismatch::CheckPosOnChildless),
                        Some(k) => match norm_index(*i, k.len()) {
                            None => {
                                return Step::Bad(Mismatch::CheckPosIndex { index: *i, len: k.len() })
                            }
                            Some(i) => k[i],
                        },
                    },
                    CheckPos::LeftChild => {
                        kids.expect("fold")[it.join.expect("validated: inside join").k - 1]
                    }
                    CheckPos::RightChild => {
                        kids.expect("fold")[it.join.expect("validated: inside join").k]
                    }
                };
                let holds = self.doc.nodes[target].conds & (1 << c.0) != 0;
                Step::Same(It { note: if holds { a } else { b }, ..it })
            }
            Child(i) => match kids {
                None => Step::Bad(Mismatch::ChildOnChildless),
                Some(k) => match norm_index(*i, k.len()) {
                    None => Step::Bad(Mismatch::ChildIndex { index: *i, len: k.len() }),
                    Some(i) => {
                        let c = k[i];
                        Step::Enter(self.enter(it, c))
                    }
                },
            },
            Count { zero, one, many } => match kids.map(|k| k.len()) {
                None => Step::Bad(Mismatch::CountOnChildless),
                Some(0) => Step::Same(It { note: zero, ..it }),
                Some(1) => Step::Same(It { note: one, ..it }),
                Some(_) => Step::Same(It { note: many, ..it }),
            },
            Fold { first, join } => match kids.map(|k| k.len()) {
                None => Step::Bad(Mismatch::FoldOnChildless),
                Some(0) => Step::Nothing,
                Some(1) => Step::Same(It { note: first, join: None, ..it }),
                Some(n) => {
                    let j = Join { k: n - 1, first, join };
                    Step::Same(It { note: join, join: Some(j), ..it })
                }
            },
            Left => {
                let j = it.join.expect("validated: inside join");
                if j.k == 1 {
                    Step::Same(It { note: j.first, join: None, ..it })
                } else {
                    Step::Same(It { note: j.join, join: Some(Join { k: j.k - 1, ..j }), ..it })
                }
            }
            Right => {
                let j = it.join.expect("validated: inside join");
                let c = kids.expect("fold")[j.k];
                Step::Enter(self.enter(it, c))
            }
        }
    }

    /// Would `first` and the pending stack fit, as documented?
    fn fits(
        &self,
        first: &It<'a>,
        stack: &Stack<'a>,
        room: i64,
        at_eol: bool,
    ) -> Result<bool, MErr> {
        let mut room = room;
        let mut at_eol = at_eol;
        if room < 0 {
            self.refused.set(true);
            return Ok(false);
        }
        let mut st = push(stack, Fr::It(first.clone()));
        while let Some(top) = st {
            self.tick()?;
            st = top.next.clone();
            let it = match &top.fr {
                Fr::Close(_) => continue,
                Fr::It(it) => it.clone(),
            };
            match self.step(it) {
                Step::Nothing | Step::Mark => (),
                Step::Eol => at_eol = true,
                Step::Newline => return Ok(true),
                Step::Text(s, _) => {
                    if at_eol {
                        return Ok(false);
                    }
                    room -= width_of(s) as i64;
                    if room < 0 {
                        self.refused.set(true);
                        return Ok(false);
                    }
                }
                Step::Seq(a, b) => {
                    st = push(&st, Fr::It(b));
                    st = push(&st, Fr::It(a));
                }
                Step::Choice(_, b) => st = push(&st, Fr::It(b)),
                Step::Same(i) | Step::Enter(i) => st = push(&st, Fr::It(i)),
                Step::Bad(m) => return Err(MErr::Lookahead(m)),
            }
        }
        Ok(true)
    }

    /// Smallest width of (a first line ending in a newline, a single line)
    /// over all resolutions of the choices. `None`: impossible.
    pub fn first_line(&self, it: It<'a>) -> Result<(Option<u64>, Option<u64>), MErr> {
        self.tick()?;
        fn min(a: Option<u64>, b: Option<u64>) -> Option<u64> {
            match (a, b) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            }
        }
        Ok(match self.step(it) {
            Step::Nothing | Step::Mark => (None, Some(0)),
            Step::Eol => (None, Some(0)),
            Step::Newline => (Some(0), None),
            Step::Text(s, _) => (None, Some(width_of(s))),
            Step::Seq(a, b) => {
                let (an, ao) = self.first_line(a)?;
                match ao {
                    None => (an, None),
                    Some(w) => {
                        let (bn, bo) = self.first_line(b)?;
                        (min(an, bn.map(|x| x + w)), bo.map(|x| x + w))
                    }
                }
            }
            Step::Choice(a, b) => {
                let (an, ao) = self.first_line(a)?;
                let (bn, bo) = self.first_line(b)?;
                (min(an, bn), min(ao, bo))
            }
            Step::Same(i) | Step::Enter(i) => self.first_line(i)?,
            Step::Bad(m) => return Err(MErr::Mismatch(m)),
        })
    }

    /// Does every choice in the document (in every context it can appear in)
    /// obey the documented rule, judged by what the options can look like on
    /// their first line?
    pub fn obeys_rule(&self, it: It<'a>) -> Result<bool, MErr> {
        self.tick()?;
        Ok(match self.step(it) {
            Step::Nothing | Step::Mark | Step::Eol | Step::Newline | Step::Text(..) => true,
            Step::Seq(a, b) => self.obeys_rule(a)? && self.obeys_rule(b)?,
            Step::Choice(a, b) => {
                let (an, ao) = self.first_line(a.clone())?;
                let (bn, bo) = self.first_line(b.clone())?;
                // Any first line of x that ends in a newline is matched by one of y.
                let nl_ok = match an {
                    None => true,
                    Some(w) => matches!(bn, Some(v) if v <= w),
                };
                // Any one-line x is matched by a y that is no wider.
                let one_ok = match ao {
                    None => true,
                    Some(w) => matches!(bn, Some(v) if v <= w) || matches!(bo, Some(v) if v <= w),
                };
                nl_ok && one_ok && self.obeys_rule(a)? && self.obeys_rule(b)?
            }
            Step::Same(i) | Step::Enter(i) => self.obeys_rule(i)?,
            Step::Bad(m) => return Err(MErr::Mismatch(m)),
        })
    }

    /// Smallest possible width of the rest of the line over all resolutions.
    fn best_rest(&self, first: Option<&It<'a>>, stack: &Stack<'a>) -> Result<u64, MErr> {
        let mut best: Option<u64> = None;
        let mut sofar = 0;
        if let Some(it) = first {
            let (nl, one) = self.first_line(it.clone())?;
            best = nl;
            match one {
                None => return Ok(best.expect("some resolution exists")),
                Some(w) => sofar = w,
            }
        }
        let mut st = stack;
        while let Some(top) = st {
            self.tick()?;
            if let Fr::It(it) = &top.fr {
                let (nl, one) = self.first_line(it.clone())?;
                if let Some(w) = nl {
                    let w = w + sofar;
                    best = Some(best.map_or(w, |b| b.min(w)));
                }
                match one {
                    None => return Ok(best.expect("some resolution exists")),
                    Some(w) => sofar += w,
                }
            }
            st = &top.next;
        }
        Ok(best.map_or(sofar, |b| b.min(sofar)))
    }

    /// Visit everything the document could possibly evaluate (both options of
    /// every choice) and collect all mismatches.
    pub fn all_mismatches(&self, it: It<'a>, out: &mut Vec<Mismatch>) -> Result<(), MErr> {
        self.tick()?;
        match self.step(it) {
            Step::Nothing | Step::Mark | Step::Eol | Step::Newline | Step::Text(..) => (),
            Step::Seq(a, b) | Step::Choice(a, b) => {
                self.all_mismatches(a, out)?;
                self.all_mismatches(b, out)?;
            }
            Step::Same(i) | Step::Enter(i) => self.all_mismatches(i, out)?,
            Step::Bad(m) => {
                if !out.contains(&m) {
                    out.push(m)
                }
            }
        }
        Ok(())
    }

    /// Resolve the choices by `decide` regardless of width (used to ask
    /// whether a mismatch is unavoidable: it lies on no choice at all).
    pub fn unavoidable_mismatch(&self, it: It<'a>) -> Result<bool, MErr> {
        self.tick()?;
        Ok(match self.step(it) {
            Step::Nothing | Step::Mark | Step::Eol | Step::Newline | Step::Text(..) => false,
            Step::Seq(a, b) => self.unavoidable_mismatch(a)? || self.unavoidable_mismatch(b)?,
            Step::Choice(a, b) => self.unavoidable_mismatch(a)? && self.unavoidable_mismatch(b)?,
            Step::Same(i) | Step::Enter(i) => self.unavoidable_mismatch(i)?,
            Step::Bad(_) => true,
        })
    }

    pub fn print(&self, width: u64, mode: Mode, root_style: bool) -> Layout<'a> {
        self.steps.set(0);
        self.refused.set(false);
        let mut l = Layout {
            lines: vec![MLine::default()],
            occs: Vec::new(),
            marks: Vec::new(),
            texts: Vec::new(),
            err: None,
            steps: 0,
            choices: 0,
            chose_second: 0,
            eol_seen: false,
            hopeless: Vec::new(),
        };
        if let Err(e) = self.print_into(width, mode, root_style, &mut l) {
            l.err = Some(e);
        }
        l.steps = self.steps.get();
        l
    }

    fn print_into(
        &self,
        width: u64,
        mode: Mode,
        root_style: bool,
        l: &mut Layout<'a>,
    ) -> Result<(), MErr> {
        let mut at_eol = false;
        let here = |l: &Layout<'a>| At { line: l.lines.len() - 1, off: l.lines.last().unwrap().bytes };
        let mut st: Stack<'a> = None;
        l.occs.push(Occ { node: 0, start: here(l), end: here(l), closed: false });
        st = push(&st, Fr::Close(0));
        st = push(&st, Fr::It(self.root_item(root_style)));
        if mode == Mode::Existential {
            let w = self.best_rest(None, &st)?;
            l.hopeless.push(w > width);
        }
        while let Some(top) = st {
            self.tick()?;
            st = top.next.clone();
            let it = match &top.fr {
                Fr::Close(k) => {
                    l.occs[*k].end = here(l);
                    l.occs[*k].closed = true;
                    continue;
                }
                Fr::It(it) => it.clone(),
            };
            let (node, style, ind) = (it.node, it.style.clone(), it.ind.clone());
            match self.step(it) {
                Step::Nothing => (),
                Step::Mark => {
                    let p = here(l);
                    l.marks.push((node, p))
                }
                Step::Eol => {
                    at_eol = true;
                    l.eol_seen = true;
                }
                Step::Newline => {
                    at_eol = false;
                    let mut chain = Vec::new();
                    let mut i = &ind;
                    while let Some(x) = i {
                        chain.push(x.clone());
                        i = &x.outer;
                    }
                    let mut line = MLine::default();
                    for x in chain.into_iter().rev() {
                        line.width += width_of(x.s);
                        line.bytes += x.s.len();
                        line.segs.push(MSeg {
                            s: x.s,
                            style: x.style.clone(),
                            from: From::Indent,
                        });
                    }
                    if mode == Mode::Existential {
                        let w = self.best_rest(None, &st)?;
                        l.hopeless.push(line.width + w > width);
                    }
                    l.lines.push(line);
                }
                Step::Text(s, from) => {
                    if from == From::Text {
                        let p = here(l);
                        l.texts.push((node, p));
                    }
                    if at_eol {
                        return Err(MErr::TextAfterEol);
                    }
                    let line = l.lines.last_mut().unwrap();
                    line.width += width_of(s);
                    line.bytes += s.len();
                    line.segs.push(MSeg { s, style, from });
                }
                Step::Seq(a, b) => {
                    st = push(&st, Fr::It(b));
                    st = push(&st, Fr::It(a));
                }
                Step::Choice(a, b) => {
                    l.choices += 1;
                    let used = l.lines.last().unwrap().width;
                    let take_first = match mode {
                        Mode::Documented => {
                            self.fits(&a, &st, width as i64 - used as i64, at_eol)?
                        }
                        Mode::Existential => {
                            used + self.best_rest(Some(&a), &st)? <= width
                        }
                        Mode::AllFirst => true,
                    };
                    if !take_first {
                        l.chose_second += 1;
                    }
                    st = push(&st, Fr::It(if take_first { a } else { b }));
                }
                Step::Same(i) => st = push(&st, Fr::It(i)),
                Step::Enter(i) => {
                    let p = here(l);
                    let k = l.occs.len();
                    l.occs.push(Occ { node: i.node, start: p, end: p, closed: false });
                    st = push(&st, Fr::Close(k));
                    st = push(&st, Fr::It(i));
                }
                Step::Bad(m) => return Err(MErr::Mismatch(m)),
            }
        }
        Ok(())
    }
}

/// A line reduced to what is observable: maximal runs of equally styled,
/// non-empty text.
pub type Norm = Vec<(String, Vec<u32>)>;

pub fn norm_add(n: &mut Norm, s: &str, style: &[u32]) {
    if s.is_empty() {
        return;
    }
    if let Some((t, st)) = n.last_mut() {
        if st[..] == style[..] {
            t.push_str(s);
            return;
        }
    }
    n.push((s.to_string(), style.to_vec()));
}

pub fn norm_mline(l: &MLine) -> Norm {
    let mut n = Norm::new();
    for s in &l.segs {
        norm_add(&mut n, s.s, &s.style);
    }
    n
}
