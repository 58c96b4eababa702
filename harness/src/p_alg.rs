//! C10: meaning-preserving rewrites of notations change nothing.

use crate::doc::{Doc, Kind, Node, N};
use crate::engine::{guard, Cx, Res};
use crate::gen::*;
use crate::model::*;
use crate::p_layout::{gen_case, gen_focus, model_ok};
use crate::p_valid::size;
use crate::run::*;
use crate::src::Src;
use partial_pretty_printer::{notation_constructors as nc, CheckPos, Notation, PrintingError, Width};

#[derive(Clone, Copy)]
struct Ctx<'a> {
    nodes: &'a [Node],
    node: usize,
    flat: bool,
    /// Inside a fold's join, where left and right have a meaning.
    join: bool,
}

impl<'a> Ctx<'a> {
    fn kids(&self) -> Option<&'a [usize]> {
        match &self.nodes[self.node].kind {
            Kind::Text(_) => None,
            Kind::Kids(k) => Some(k),
        }
    }
}

struct Log {
    used: Vec<&'static str>,
    budget: usize,
}

/// join with left, right and the checks of their children replaced.
fn instantiate(j: &N, left: &N, k: usize) -> N {
    use Notation::*;
    let b = |x: &N| Box::new(instantiate(x, left, k));
    match j {
        Left => left.clone(),
        Right => Child(k as isize),
        Check(c, p, x, y) => {
            let p = match p {
                CheckPos::LeftChild => CheckPos::Child(k as isize - 1),
                CheckPos::RightChild => CheckPos::Child(k as isize),
                p => p.clone(),
            };
            Check(c.clone(), p, b(x), b(y))
        }
        Flat(a) => Flat(b(a)),
        Indent(s, l, a) => Indent(s.clone(), l.clone(), b(a)),
        Style(l, a) => Style(l.clone(), b(a)),
        Concat(x, y) => Concat(b(x), b(y)),
        Choice(x, y) => Choice(b(x), b(y)),
        Count { zero, one, many } => Count { zero: b(zero), one: b(one), many: b(many) },
        Fold { first, join } => Fold { first: b(first), join: b(join) },
        Empty | Newline | EndOfLine | Literal(_) | Text | Child(_) | FocusMark => j.clone(),
    }
}

/// Can display newlines of its own or of something else?
fn newline_free(n: &N) -> bool {
    use Notation::*;
    match n {
        Newline | Child(_) | Left | Right | Fold { .. } => false,
        Flat(a) | Indent(_, _, a) | Style(_, a) => newline_free(a),
        Concat(a, b) | Choice(a, b) | Check(_, _, a, b) => newline_free(a) && newline_free(b),
        Count { zero, one, many } => newline_free(zero) && newline_free(one) && newline_free(many),
        Empty | EndOfLine | Literal(_) | Text | FocusMark => true,
    }
}

fn rewrite(src: &mut Src, n: &N, cx: Ctx, log: &mut Log) -> N {
    use Notation::*;
    // parts first
    let mut r = match n {
        Flat(a) => flat(rewrite(src, a, Ctx { flat: true, ..cx }, log)),
        Indent(s, l, a) => Indent(s.clone(), l.clone(), Box::new(rewrite(src, a, cx, log))),
        Style(l, a) => Style(l.clone(), Box::new(rewrite(src, a, cx, log))),
        Concat(a, b) => {
            let a = rewrite(src, a, cx, log);
            cat(a, rewrite(src, b, cx, log))
        }
        Choice(a, b) => {
            let a = rewrite(src, a, cx, log);
            alt(a, rewrite(src, b, cx, log))
        }
        Check(c, p, a, b) => {
            let a = rewrite(src, a, cx, log);
            check(c.clone(), p.clone(), a, rewrite(src, b, cx, log))
        }
        Count { zero, one, many } => {
            let z = rewrite(src, zero, cx, log);
            let o = rewrite(src, one, cx, log);
            count(z, o, rewrite(src, many, cx, log))
        }
        Fold { first, join } => {
            // The join is also evaluated in other places than the first option
            // of the choices around it, but always inside the same flats.
            let f = rewrite(src, first, cx, log);
            fold(f, rewrite(src, join, Ctx { join: true, ..cx }, log))
        }
        leaf => leaf.clone(),
    };
    let times = src.weighted(&[4, 4, 1]);
    for _ in 0..times {
        r = step(src, r, cx, log);
    }
    r
}

fn take(log: &mut Log, what: &'static str, grows: usize) -> bool {
    if log.budget < grows {
        return false;
    }
    log.budget -= grows;
    if !log.used.contains(&what) {
        log.used.push(what);
    }
    true
}

fn step(src: &mut Src, n: N, cx: Ctx, log: &mut Log) -> N {
    use Notation::*;
    // rules that apply anywhere
    match src.below(10) {
        0 if take(log, "empty added", 2) => return cat(empty(), n),
        1 if take(log, "empty added", 2) => return cat(n, empty()),
        2 if cx.flat && take(log, "flat inside flat", 1) => return flat(n),
        _ => (),
    }
    let sz = size(&n);
    match n {
        Count { zero, one, many } => match cx.kids().map(|k| k.len()) {
            Some(k) if take(log, "count resolved", 0) => match k {
                0 => *zero,
                1 => *one,
                _ => *many,
            },
            _ => Count { zero, one, many },
        },
        Check(c, p, a, b) => {
            let target = match (&p, cx.kids()) {
                (CheckPos::Here, _) => Some(cx.node),
                (CheckPos::Child(i), Some(k)) => norm_index(*i, k.len()).map(|i| k[i]),
                _ => None,
            };
            match target {
                Some(t) if src.chance(2, 3) && take(log, "check resolved", 0) => {
                    if cx.nodes[t].conds & (1 << c.0) != 0 {
                        *a
                    } else {
                        *b
                    }
                }
                _ => match p {
                    CheckPos::Child(i) => {
                        let len = cx.kids().map_or(0, |k| k.len()) as isize;
                        let j = if i < 0 { i + len } else { i - len };
                        if len > 0 && -len <= i && i < len && take(log, "check index negated", 0) {
                            check(c, CheckPos::Child(j), *a, *b)
                        } else {
                            check(c, p, *a, *b)
                        }
                    }
                    p => nc::check(c, p, *a, *b),
                },
            }
        }
        Fold { first, join } => {
            let Some(k) = cx.kids() else { return fold(*first, *join) };
            let r = match k.len() {
                0 => empty(),
                1 => (*first).clone(),
                n => {
                    let mut acc = (*first).clone();
                    for k in 1..n {
                        acc = instantiate(&join, &acc, k);
                        if size(&acc) > 2000 {
                            return nc::fold(nc::Fold { first: *first, join: *join });
                        }
                    }
                    acc
                }
            };
            if take(log, "fold unrolled", size(&r)) {
                r
            } else {
                fold(*first, *join)
            }
        }
        Child(i) => {
            let len = cx.kids().map_or(0, |k| k.len()) as isize;
            let j = if i < 0 { i + len } else { i - len };
            if len > 0 && -len <= i && i < len && take(log, "child index negated", 0) {
                nc::child(j)
            } else {
                nc::child(i)
            }
        }
        Concat(a, b) => match src.below(6) {
            0 => match *a {
                Concat(x, y) if take(log, "regrouped", 0) => cat(*x, cat(*y, *b)),
                a => cat(a, *b),
            },
            1 => match *b {
                Concat(x, y) if take(log, "regrouped", 0) => cat(cat(*a, *x), *y),
                b => cat(*a, b),
            },
            2 => match (*a, *b) {
                (Empty, x) | (x, Empty) if take(log, "empty removed", 0) => x,
                (a, b) => cat(a, b),
            },
            3 => match *a {
                Choice(x, y) if !cx.join && take(log, "rest moved into choice", 2 * size(&b)) => {
                    alt(cat(*x, (*b).clone()), cat(*y, *b))
                }
                a => cat(a, *b),
            },
            4 => match (*a, *b) {
                (x, Concat(n, y)) if matches!(*n, Newline) && take(log, "operator ^", 0) => x ^ *y,
                (Concat(x, n), y) if matches!(*n, Newline) && take(log, "operator ^", 0) => *x ^ y,
                (a, b) => cat(a, b),
            },
            _ => {
                take(log, "operator +", 0);
                *a + *b
            }
        },
        Flat(a) => match (*a, src.below(4)) {
            (Flat(x), _) if take(log, "flat in flat removed", 0) => flat(*x),
            (Concat(x, y), 0 | 1) if take(log, "flat distributed", 1) => cat(flat(*x), flat(*y)),
            (a, 2) if cx.flat && take(log, "flat in flat removed", 0) => a,
            (a, _) => nc::flat(a),
        },
        Choice(a, b) => {
            if cx.flat && take(log, "choice inside flat resolved", 0) {
                *a
            } else {
                take(log, "operator |", 0);
                *a | *b
            }
        }
        Indent(s, l, a) => {
            if newline_free(&a) && src.chance(1, 2) && take(log, "useless indentation removed", 0) {
                return *a;
            }
            match *a {
                Concat(x, y) => {
                    let spaces = l.is_none() && s.bytes().all(|b| b == b' ');
                    if spaces && matches!(*x, Newline) && src.chance(2, 3) && take(log, "operator >>", 0) {
                        s.len() as Width >> *y
                    } else if take(log, "indent distributed", sz) {
                        cat(ind(&s, l.clone(), *x), ind(&s, l, *y))
                    } else {
                        cat_ind(s, l, *x, *y)
                    }
                }
                a => nc::indent(&s, l, a),
            }
        }
        Style(l, a) => match *a {
            a @ (Newline | EndOfLine | FocusMark | Empty) if take(log, "style without text removed", 0) => a,
            Concat(x, y) if take(log, "style distributed", 1) => {
                cat(sty(l.clone(), *x), sty(l, *y))
            }
            a => nc::style(l, a),
        },
        Literal(s) => {
            let chars: Vec<usize> = s.char_indices().map(|c| c.0).collect();
            if chars.len() >= 2 {
                let k = chars[1 + src.below(chars.len() - 1)];
                let (x, y) = s.split_at(k);
                if width_of(x) + width_of(y) == width_of(&s) && take(log, "literal split", 2) {
                    return cat(lit(x), lit(y));
                }
            }
            nc::lit(&s)
        }
        Empty => nc::empty(),
        Newline => nc::nl(),
        EndOfLine => nc::eol(),
        Text => nc::text(),
        FocusMark => nc::mark(),
        Left => nc::left(),
        Right => nc::right(),
    }
}

fn cat_ind(s: String, l: Option<crate::doc::Lbl>, x: N, y: N) -> N {
    ind(&s, l, cat(x, y))
}

fn show(r: &Result<Printed, PErr>) -> String {
    match r {
        Err(e) => format!("error {e:?}"),
        Ok(p) => {
            let ls: String = p.lines().iter().map(|l| format!("    {:?}\n", norm(l))).collect();
            format!(
                "focus {:?}|{:?}, {} lines above, errors {:?} {:?}\n{ls}",
                norm(&p.left),
                norm(&p.right),
                p.up.len(),
                p.up_err,
                p.down_err
            )
        }
    }
}

fn failed(r: &Result<Printed, PErr>) -> Option<&PErr> {
    match r {
        Err(e) => Some(e),
        Ok(p) => p.up_err.as_ref().or(p.down_err.as_ref()),
    }
}

/// Without a line that cannot be printed, everything must agree. With one, both
/// must say so, and agree on what they showed before; how far they get depends
/// on which lines are laid out together.
fn differ(a: &Result<Printed, PErr>, b: &Result<Printed, PErr>) -> Option<&'static str> {
    let (ea, eb) = (failed(a), failed(b));
    let eol = |e: Option<&PErr>| matches!(e, Some(PrintingError::TextAfterEndOfLine));
    if ea.is_some() != eb.is_some() {
        return Some("only one fails");
    }
    if !eol(ea) && !eol(eb) && format!("{ea:?}") != format!("{eb:?}") {
        return Some("different errors");
    }
    let (Ok(a), Ok(b)) = (a, b) else { return None };
    if norm(&a.left) != norm(&b.left) || norm(&a.right) != norm(&b.right) {
        return Some("different focused lines");
    }
    for (x, y, errors) in [
        (&a.up, &b.up, a.up_err.is_some() || b.up_err.is_some()),
        (&a.down, &b.down, a.down_err.is_some() || b.down_err.is_some()),
    ] {
        if x.iter().zip(y).any(|(l, m)| norm(l) != norm(m)) || !errors && x.len() != y.len() {
            return Some("different lines");
        }
    }
    None
}

pub fn c10(cx: &mut Cx) -> Res {
    let cfg = Cfg { max_nodes: 30, ..STD };
    let Some((doc, w)) = gen_case(cx, &cfg) else {
        return cx.discard("too big for the model");
    };
    let l = {
        let m = Model::new(&doc);
        m.print(w as u64, Mode::Documented, false)
    };
    if !model_ok(&l) {
        return cx.discard("too big for the model");
    }
    let mut log = Log { used: vec![], budget: 3000 };
    let mut notes = Vec::new();
    let mut nodes = doc.nodes.clone();
    for i in 0..nodes.len() {
        let n = &doc.raw[doc.nodes[i].note];
        let c = Ctx { nodes: &doc.nodes, node: i, flat: false, join: false };
        notes.push(rewrite(&mut cx.src, n, c, &mut log));
    }
    for (i, n) in nodes.iter_mut().enumerate() {
        n.note = i;
    }
    let doc2 = Doc::new(notes, nodes, doc.plain);
    doc2.inst.fuel.set(20_000_000);
    cx.describe(|| format!("width {w}\n{}rewritten:\n{}output:\n{}", doc.dump(), doc2.dump(), l.text()));
    for u in &log.used {
        cx.label(u);
    }
    let rs = cx.src.chance(1, 3);
    let cxt = |e: String| {
        format!("{e}\n  width {w}, rewrites {:?}\n  before:\n{}  after:\n{}", log.used, doc.dump(), doc2.dump())
    };
    for round in 0..3 {
        let (path, target) = if round == 0 {
            (vec![], Target::Start)
        } else {
            let (p, t, _) = gen_focus(cx, &doc, &l);
            (p, t)
        };
        let run = |d: &Doc| print(d.root(), w, &path, target, rs, &Sched::UpDown);
        cx.evals += 2;
        let a = guard(|| run(&doc)).map_err(cxt)?;
        let b = guard(|| run(&doc2)).map_err(cxt)?;
        if let Some(e) = differ(&a, &b) {
            return Err(cxt(format!(
                "rewriting changed the output at path {path:?} target {target:?}: {e}\n  before: {}\n  after:  {}",
                show(&a),
                show(&b)
            )));
        }
        cx.label_if(failed(&a).is_some(), "printing fails");
    }
    let deep = log.used.iter().any(|u| !u.starts_with("operator") && !u.starts_with("empty"));
    Ok(deep && (l.choices > 0 || l.lines.len() > 1))
}
