//! Independent account of the documented notation flaws: walks every way
//! through the notation, as the set of reachable (after-end-of-line, marked)
//! situations, and lists every flaw it contains.

use crate::doc::N;
use partial_pretty_printer::{CheckPos, Notation};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Flaw {
    LeftOutsideJoin,
    RightOutsideJoin,
    CheckPosLeftOutsideJoin,
    CheckPosRightOutsideJoin,
    NestedFold,
    NestedCount,
    CountZeroChild,
    CountOneChildIndex(isize),
    CountZeroCheckPosChild,
    CountOneCheckPosChildIndex(isize),
    TextInsideCount,
    TextInsideFold,
    TextAfterEol,
    MultipleFocusMarks,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Cnt {
    No,
    Zero,
    One,
    Many,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Fld {
    No,
    First,
    Join,
}

/// Bit `eol + 2*mark` of the set is set if some way through the notation so far
/// ends in that situation.
type Set = u8;
const START: Set = 1;

fn map(s: Set, f: impl Fn(bool, bool) -> (bool, bool)) -> Set {
    let mut r = 0;
    for i in 0..4u8 {
        if s & (1 << i) != 0 {
            let (e, m) = f(i & 1 != 0, i & 2 != 0);
            r |= 1 << (e as u8 + 2 * m as u8);
        }
    }
    r
}

pub fn flaws(n: &N) -> Vec<Flaw> {
    let mut out = Vec::new();
    walk(n, START, Cnt::No, Fld::No, &mut out);
    out
}

fn only_child(i: isize) -> bool {
    i == 0 || i == -1
}

fn walk(n: &N, s: Set, c: Cnt, f: Fld, out: &mut Vec<Flaw>) -> Set {
    use Notation::*;
    let may_eol = s & 0b1010 != 0;
    let must_mark = s & 0b0011 == 0;
    match n {
        Empty => s,
        Newline => map(s, |_, m| (false, m)),
        EndOfLine => map(s, |_, m| (true, m)),
        Literal(_) => {
            if may_eol {
                out.push(Flaw::TextAfterEol);
            }
            map(s, |_, m| (false, m))
        }
        Text => {
            if c != Cnt::No {
                out.push(Flaw::TextInsideCount);
            }
            if f != Fld::No {
                out.push(Flaw::TextInsideFold);
            }
            if may_eol {
                out.push(Flaw::TextAfterEol);
            }
            map(s, |_, m| (false, m))
        }
        FocusMark => {
            if must_mark {
                out.push(Flaw::MultipleFocusMarks);
            }
            map(s, |e, _| (e, true))
        }
        Flat(a) | Indent(_, _, a) | Style(_, a) => walk(a, s, c, f, out),
        Concat(a, b) => {
            let s = walk(a, s, c, f, out);
            walk(b, s, c, f, out)
        }
        Choice(a, b) => walk(a, s, c, f, out) | walk(b, s, c, f, out),
        Check(_, pos, a, b) => {
            match pos {
                CheckPos::Here => (),
                CheckPos::Child(i) => match c {
                    Cnt::Zero => out.push(Flaw::CountZeroCheckPosChild),
                    Cnt::One if !only_child(*i) => out.push(Flaw::CountOneCheckPosChildIndex(*i)),
                    _ => (),
                },
                CheckPos::LeftChild => {
                    if f != Fld::Join {
                        out.push(Flaw::CheckPosLeftOutsideJoin)
                    }
                }
                CheckPos::RightChild => {
                    if f != Fld::Join {
                        out.push(Flaw::CheckPosRightOutsideJoin)
                    }
                }
            }
            walk(a, s, c, f, out) | walk(b, s, c, f, out)
        }
        Child(i) => {
            match c {
                Cnt::Zero => out.push(Flaw::CountZeroChild),
                Cnt::One if !only_child(*i) => out.push(Flaw::CountOneChildIndex(*i)),
                _ => (),
            }
            map(s, |_, m| (false, m))
        }
        Count { zero, one, many } => {
            if c != Cnt::No {
                out.push(Flaw::NestedCount);
            }
            walk(zero, s, Cnt::Zero, f, out)
                | walk(one, s, Cnt::One, f, out)
                | walk(many, s, Cnt::Many, f, out)
        }
        Fold { first, join } => {
            if f != Fld::No {
                out.push(Flaw::NestedFold);
            }
            walk(first, START, c, Fld::First, out);
            walk(join, START, c, Fld::Join, out);
            START
        }
        Left => {
            if f != Fld::Join {
                out.push(Flaw::LeftOutsideJoin);
            }
            START
        }
        Right => {
            if f != Fld::Join {
                out.push(Flaw::RightOutsideJoin);
            }
            START
        }
    }
}
