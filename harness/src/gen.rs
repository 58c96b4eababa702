//! Generators: notations, documents, widths, focus points.

use crate::doc::{Cnd, Doc, Kind, Lbl, Node, N};
use crate::model::{width_of, Layout};
use crate::src::Src;
use crate::valid::flaws;
use partial_pretty_printer::{CheckPos, Notation};
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Text,
    Fixed(usize),
    Var,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub eol: bool,
    pub marks: bool,
    pub checks: bool,
    pub styles: bool,
    /// Percentage of sorts whose notation is generated without structure.
    pub wild: usize,
    pub max_nodes: usize,
    pub unicode: bool,
    pub empty_text: bool,
    /// Allow zero-width and joining characters.
    pub odd_unicode: bool,
    /// Allow characters that take no column and leave the others as they are.
    pub combining: bool,
    pub long: bool,
    /// Allow a node with very many children.
    pub broad: bool,
    /// Allow very deep trees.
    pub deep: bool,
}

pub const STD: Cfg = Cfg {
    eol: true,
    marks: true,
    checks: true,
    styles: true,
    wild: 35,
    max_nodes: 40,
    unicode: true,
    empty_text: true,
    odd_unicode: true,
    combining: true,
    long: true,
    broad: true,
    deep: true,
};

pub fn empty() -> N {
    Notation::Empty
}
pub fn lit(s: &str) -> N {
    Notation::Literal(s.to_string())
}
pub fn cat(a: N, b: N) -> N {
    Notation::Concat(Box::new(a), Box::new(b))
}
pub fn alt(a: N, b: N) -> N {
    Notation::Choice(Box::new(a), Box::new(b))
}
pub fn flat(a: N) -> N {
    Notation::Flat(Box::new(a))
}
pub fn ind(s: &str, l: Option<Lbl>, a: N) -> N {
    Notation::Indent(s.to_string(), l, Box::new(a))
}
pub fn sty(l: Lbl, a: N) -> N {
    Notation::Style(l, Box::new(a))
}
pub fn check(c: Cnd, p: CheckPos, a: N, b: N) -> N {
    Notation::Check(c, p, Box::new(a), Box::new(b))
}
pub fn count(zero: N, one: N, many: N) -> N {
    Notation::Count { zero: Box::new(zero), one: Box::new(one), many: Box::new(many) }
}
pub fn fold(first: N, join: N) -> N {
    Notation::Fold { first: Box::new(first), join: Box::new(join) }
}
pub fn nl() -> N {
    Notation::Newline
}

const ASCII: [&str; 10] = ["a", "bb", "ccc", "dddd", "eeeee", "x y", "ffffffffffff", " ", ",", "g"];
const WIDE: [&str; 5] = ["字", "漢字", "é", "ñandú", "ｱwあ"];
const ODD: [&str; 8] = [
    "e\u{301}",
    "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}",
    "\u{644}\u{627}",
    "\u{200B}",
    "a\u{FE0F}\u{20E3}",
    "\u{1F1E9}\u{1F1EA}",
    "\u{1100}\u{1161}\u{11A8}",
    "\u{2764}\u{FE0F}!",
];

/// Ranges of code points: scripts, symbols, planes; some with full-width characters.
const RANGES: [(u32, u32); 24] = [
    (0x21, 0x7E),
    (0xA1, 0xFF),
    (0x100, 0x24F),
    (0x370, 0x3FF),
    (0x400, 0x4FF),
    (0x5D0, 0x5EA),
    (0x620, 0x64A),
    (0x1100, 0x115F),
    (0x2010, 0x2027),
    (0x2190, 0x23FF),
    (0x2500, 0x27BF),
    (0x2E80, 0x303E),
    (0x3041, 0x33FF),
    (0x3400, 0x4DBF),
    (0x4E00, 0x9FFF),
    (0xAC00, 0xD7A3),
    (0xE000, 0xF8FF),
    (0xF900, 0xFAFF),
    (0xFE30, 0xFE6F),
    (0xFF01, 0xFFE6),
    (0x1F300, 0x1FAFF),
    (0x20000, 0x2FFFD),
    (0x30000, 0x3FFFD),
    (0x10000, 0x10FFFF),
];

/// Any character; unless `odd`, one that takes one or two columns.
pub fn any_char(src: &mut Src, odd: bool) -> char {
    let (lo, hi) = *src.pick(&RANGES);
    let c = char::from_u32(lo + src.below((hi - lo + 1) as usize) as u32).unwrap_or('a');
    match c.width() {
        Some(1 | 2) => c,
        Some(_) if odd => c,
        _ => 'a',
    }
}

pub fn gen_str(src: &mut Src, cfg: &Cfg) -> String {
    let k = src.weighted(&[
        20,
        3,
        if cfg.empty_text { 2 } else { 0 },
        if cfg.unicode { 3 } else { 0 },
        if cfg.odd_unicode { 2 } else { 0 },
        if cfg.long { 1 } else { 0 },
        if cfg.unicode { 2 } else { 0 },
        if cfg.combining { 1 } else { 0 },
    ]);
    match k {
        0 => src.pick(&ASCII).to_string(),
        1 => {
            let n = src.range(1, 3);
            (0..n).map(|_| *src.pick(&ASCII)).collect()
        }
        2 => String::new(),
        3 => {
            let n = src.range(1, 3);
            (0..n).map(|i| if i == 1 { *src.pick(&ASCII) } else { *src.pick(&WIDE) }).collect()
        }
        4 => {
            let n = src.range(1, 3);
            (0..n).map(|i| if i == 1 { *src.pick(&ASCII) } else { *src.pick(&ODD) }).collect()
        }
        5 => {
            let n = src.range(10, 40);
            if src.chance(1, 12) {
                let unit = if cfg.unicode { *src.pick(&["w", "ab ", "字x", "é"]) } else { "w" };
                return unit.repeat(n * 10);
            }
            "w".repeat(n)
        }
        7 => src.pick(&["e\u{301}", "\u{301}", "a\u{200B}b", "字\u{300}x", "\u{200B}", "o\u{308}\u{323}"]).to_string(),
        _ => {
            let n = src.range(1, 4);
            let s: String = (0..n).map(|_| any_char(src, cfg.odd_unicode)).collect();
            let apart: u64 = s.chars().map(|c| c.width().unwrap_or(0) as u64).sum();
            if cfg.odd_unicode || apart == width_of(&s) {
                s
            } else {
                "b".into()
            }
        }
    }
}

fn gen_sep(src: &mut Src, cfg: &Cfg) -> String {
    match src.weighted(&[4, 4, 2, 2, 1, 2]) {
        0 => " ".into(),
        1 => ", ".into(),
        2 => "(".into(),
        3 => "->".into(),
        4 => {
            if cfg.empty_text {
                String::new()
            } else {
                ";".into()
            }
        }
        _ => gen_str(src, cfg),
    }
}

fn gen_lbl(src: &mut Src) -> Lbl {
    Lbl(src.below(4) as u8)
}
fn gen_cnd(src: &mut Src) -> Cnd {
    Cnd(src.below(3) as u8)
}
fn gen_indent_str(src: &mut Src, cfg: &Cfg) -> String {
    match src.weighted(&[
        16,
        12,
        8,
        4,
        4,
        if cfg.unicode { 4 } else { 0 },
        if cfg.odd_unicode { 2 } else { 0 },
        if cfg.unicode { 2 } else { 0 },
        1,
    ]) {
        0 => "  ".into(),
        1 => "    ".into(),
        2 => "// ".into(),
        3 => "        ".into(),
        4 => {
            if cfg.empty_text {
                "".into()
            } else {
                "|".into()
            }
        }
        5 => "｜".into(),
        7 => {
            let mut s = gen_str(src, cfg);
            if src.chance(2, 3) {
                s.push(' ');
            }
            s
        }
        8 => {
            let most = if src.chance(1, 8) { 700 } else { 40 };
            let n = src.range(9, most);
            " ".repeat(n)
        }
        _ => (*src.pick(&["\u{301}", "\u{200B}", "-\u{301}", "\u{1F468}\u{200D}", "\u{FE0F}"])).into(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum CountCx {
    No,
    Zero,
    One,
    Many,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum FoldCx {
    No,
    First,
    Join,
}

#[derive(Clone, Copy)]
struct Nx {
    shape: Shape,
    count: CountCx,
    fold: FoldCx,
}

impl Nx {
    /// How many children there are at least, here.
    fn children(&self) -> usize {
        match self.shape {
            Shape::Text => 0,
            Shape::Fixed(n) => n,
            Shape::Var => {
                let c = match self.count {
                    CountCx::No | CountCx::Zero => 0,
                    CountCx::One => 1,
                    CountCx::Many => 2,
                };
                let f = match (self.fold, self.count) {
                    (FoldCx::No, _) | (_, CountCx::Zero) => 0,
                    (_, CountCx::One) => 1,
                    (FoldCx::First, _) => 1,
                    (FoldCx::Join, _) => 2,
                };
                c.max(f)
            }
        }
    }
}

fn gen_child_index(src: &mut Src, n: usize) -> isize {
    let i = src.below(n);
    if src.chance(1, 4) {
        i as isize - n as isize
    } else {
        i as isize
    }
}

/// For variadic nodes only indices valid for every possible count.
fn gen_child(src: &mut Src, nx: &Nx) -> Option<isize> {
    let n = nx.children();
    if n == 0 {
        None
    } else {
        Some(gen_child_index(src, n))
    }
}

fn gen_pos(src: &mut Src, nx: &Nx) -> CheckPos {
    let n = nx.children();
    let join = nx.fold == FoldCx::Join;
    match src.weighted(&[2, if n > 0 { 2 } else { 0 }, if join { 3 } else { 0 }, if join { 2 } else { 0 }]) {
        0 => CheckPos::Here,
        1 => CheckPos::Child(gen_child_index(src, n)),
        2 => CheckPos::LeftChild,
        _ => CheckPos::RightChild,
    }
}

/// Any notation at all that the shape can support.
fn wild(src: &mut Src, cfg: &Cfg, nx: Nx, depth: usize) -> N {
    let kids = nx.children();
    let var = nx.shape == Shape::Var;
    let d = if depth > 0 { 1 } else { 0 };
    let k = src.weighted(&[
        8,                                                          // 0 literal
        3,                                                          // 1 newline
        1,                                                          // 2 empty
        if kids > 0 { 8 } else { 0 },                               // 3 child
        if nx.shape == Shape::Text { 6 } else { 0 },                // 4 text
        if nx.fold == FoldCx::Join { 8 } else { 0 },                // 5 left
        if nx.fold == FoldCx::Join { 8 } else { 0 },                // 6 right
        if cfg.marks { 1 } else { 0 },                              // 7 mark
        if cfg.eol { 1 } else { 0 },                                // 8 eol
        16 * d,                                                     // 9 concat
        8 * d,                                                      // 10 choice
        d,                                                          // 11 flat
        3 * d,                                                      // 12 indent
        if cfg.styles { 2 * d } else { 0 },                         // 13 style
        if cfg.checks { 2 * d } else { 0 },                         // 14 check
        if var && nx.count == CountCx::No { 3 * d } else { 0 },     // 15 count
        if var && nx.fold == FoldCx::No { 5 * d } else { 0 },       // 16 fold
        4 * d,                                                      // 17 a ^ b
        if cfg.eol { d } else { 0 },                                // 18 eol + nl
    ]);
    let dd = depth.saturating_sub(1);
    match k {
        0 => lit(&gen_str(src, cfg)),
        1 => nl(),
        2 => empty(),
        3 => Notation::Child(gen_child(src, &nx).unwrap()),
        4 => Notation::Text,
        5 => Notation::Left,
        6 => Notation::Right,
        7 => Notation::FocusMark,
        8 => Notation::EndOfLine,
        9 => {
            let a = wild(src, cfg, nx, dd);
            cat(a, wild(src, cfg, nx, dd))
        }
        10 => {
            let a = wild(src, cfg, nx, dd);
            alt(a, wild(src, cfg, nx, dd))
        }
        11 => flat(wild(src, cfg, nx, dd)),
        12 => {
            let s = gen_indent_str(src, cfg);
            let l = if cfg.styles && src.chance(1, 2) { Some(gen_lbl(src)) } else { None };
            ind(&s, l, wild(src, cfg, nx, dd))
        }
        13 => sty(gen_lbl(src), wild(src, cfg, nx, dd)),
        14 => {
            let c = gen_cnd(src);
            let p = gen_pos(src, &nx);
            let a = wild(src, cfg, nx, dd);
            check(c, p, a, wild(src, cfg, nx, dd))
        }
        15 => {
            let z = wild(src, cfg, Nx { count: CountCx::Zero, ..nx }, dd);
            let o = wild(src, cfg, Nx { count: CountCx::One, ..nx }, dd);
            let m = wild(src, cfg, Nx { count: CountCx::Many, ..nx }, dd);
            count(z, o, m)
        }
        16 => {
            let f = wild(src, cfg, Nx { fold: FoldCx::First, ..nx }, dd);
            let j = wild(src, cfg, Nx { fold: FoldCx::Join, ..nx }, dd);
            fold(f, j)
        }
        17 => {
            let a = wild(src, cfg, nx, dd);
            cat(cat(a, nl()), wild(src, cfg, nx, dd))
        }
        _ => {
            let a = wild(src, cfg, nx, dd);
            cat(cat(a, cat(Notation::EndOfLine, nl())), wild(src, cfg, nx, dd))
        }
    }
}

/// Wrap an atom in zero or more decorations.
fn wrap(src: &mut Src, cfg: &Cfg, nx: Nx, x: N, depth: usize) -> N {
    if depth == 0 {
        return x;
    }
    match src.weighted(&[
        16,
        if cfg.styles { 3 } else { 0 },
        2,
        1,
        if cfg.checks { 2 } else { 0 },
        3,
        if cfg.marks { 2 } else { 0 },
        2,
        2,
        if cfg.eol { 1 } else { 0 },
        if cfg.marks { 1 } else { 0 },
    ]) {
        0 => x,
        1 => {
            let l = gen_lbl(src);
            sty(l, wrap(src, cfg, nx, x, depth - 1))
        }
        2 => {
            let s = gen_indent_str(src, cfg);
            let l = if cfg.styles && src.chance(1, 2) { Some(gen_lbl(src)) } else { None };
            ind(&s, l, wrap(src, cfg, nx, x, depth - 1))
        }
        3 => flat(x),
        4 => {
            let c = gen_cnd(src);
            let p = gen_pos(src, &nx);
            let y = match src.below(3) {
                0 => cat(lit(&gen_sep(src, cfg)), x.clone()),
                1 => empty(),
                _ => cat(x.clone(), nl()),
            };
            if src.chance(1, 2) {
                check(c, p, y, x)
            } else {
                check(c, p, x, y)
            }
        }
        5 => {
            let a = lit(&gen_sep(src, cfg));
            let b = lit(&gen_sep(src, cfg));
            cat(cat(a, wrap(src, cfg, nx, x, depth - 1)), b)
        }
        6 => cat(Notation::FocusMark, x),
        7 => alt(flat(x.clone()), x),
        8 => {
            let s = gen_indent_str(src, cfg);
            alt(x.clone(), ind(&s, None, cat(nl(), x)))
        }
        9 => cat(x, Notation::EndOfLine),
        _ => cat(x, Notation::FocusMark),
    }
}

fn glue(src: &mut Src, cfg: &Cfg, a: N, b: N, dup: usize) -> N {
    match src.weighted(&[
        3,
        4,
        5,
        6,
        3,
        if dup > 0 { 3 } else { 0 },
        if dup > 0 { 5 } else { 0 },
        if cfg.eol { 1 } else { 0 },
        if dup > 0 { 2 } else { 0 },
    ]) {
        0 => cat(a, b),
        1 => cat(a, cat(lit(&gen_sep(src, cfg)), b)),
        2 => cat(cat(a, nl()), b),
        3 => {
            let s = gen_sep(src, cfg);
            cat(a, cat(alt(lit(&s), nl()), b))
        }
        4 => {
            let s = gen_indent_str(src, cfg);
            let l = if cfg.styles && src.chance(1, 3) { Some(gen_lbl(src)) } else { None };
            cat(a, ind(&s, l, cat(nl(), b)))
        }
        5 => {
            let s = gen_sep(src, cfg);
            let i = gen_indent_str(src, cfg);
            cat(a, alt(cat(lit(&s), b.clone()), ind(&i, None, cat(nl(), b))))
        }
        6 => {
            let s = gen_sep(src, cfg);
            alt(flat(cat(a.clone(), cat(lit(&s), b.clone()))), cat(cat(a, nl()), b))
        }
        7 => cat(a, cat(Notation::EndOfLine, cat(nl(), b))),
        _ => {
            let s = gen_sep(src, cfg);
            alt(cat(a.clone(), cat(lit(&s), b.clone())), cat(cat(a, nl()), b))
        }
    }
}

fn seq(src: &mut Src, cfg: &Cfg, nx: Nx, items: &[N], dup: usize) -> N {
    match items.len() {
        0 => match src.weighted(&[4, 1, if cfg.marks { 2 } else { 0 }]) {
            0 => lit(&gen_str(src, cfg)),
            1 => empty(),
            _ => cat(lit("["), cat(Notation::FocusMark, lit("]"))),
        },
        1 => {
            let x = items[0].clone();
            wrap(src, cfg, nx, x, 3)
        }
        n => {
            let k = src.range(1, n - 1);
            let dd = dup.saturating_sub(1);
            let a = seq(src, cfg, nx, &items[..k], dd);
            let b = seq(src, cfg, nx, &items[k..], dd);
            let g = glue(src, cfg, a, b, dup);
            if src.chance(1, 6) {
                wrap(src, cfg, nx, g, 2)
            } else {
                g
            }
        }
    }
}

fn structured(src: &mut Src, cfg: &Cfg, shape: Shape) -> N {
    let nx = Nx { shape, count: CountCx::No, fold: FoldCx::No };
    match shape {
        Shape::Text => {
            let mut items = vec![Notation::Text];
            if src.chance(1, 6) {
                items.push(lit(&gen_str(src, cfg)));
            }
            if src.chance(1, 10) {
                items.push(Notation::Text);
            }
            seq(src, cfg, nx, &items, 2)
        }
        Shape::Fixed(n) => {
            let mut items: Vec<N> = (0..n)
                .map(|i| {
                    let neg = src.chance(1, 5);
                    Notation::Child(if neg { i as isize - n as isize } else { i as isize })
                })
                .collect();
            if n > 0 && src.chance(1, 8) {
                items.remove(src.below(n));
            }
            if n > 0 && src.chance(1, 8) {
                let i = gen_child_index(src, n);
                items.push(Notation::Child(i));
            }
            if items.len() > 1 && src.chance(1, 8) {
                let k = items.len();
                let (a, b) = (src.below(k), src.below(k));
                items.swap(a, b);
            }
            if src.chance(1, 4) {
                let k = src.below(items.len() + 1);
                items.insert(k, lit(&gen_str(src, cfg)));
            }
            seq(src, cfg, nx, &items, 2)
        }
        Shape::Var => {
            let open = src.chance(1, 2);
            let f_first = |src: &mut Src| {
                let i = if src.chance(1, 8) { -1 } else { 0 };
                wrap(src, cfg, Nx { fold: FoldCx::First, ..nx }, Notation::Child(i), 2)
            };
            let f_join = |src: &mut Src| {
                let jx = Nx { fold: FoldCx::Join, ..nx };
                let mut items = vec![Notation::Left, Notation::Right];
                if src.chance(1, 20) {
                    items.swap(0, 1);
                }
                if src.chance(1, 20) {
                    items.remove(src.below(2));
                }
                seq(src, cfg, jx, &items, 1)
            };
            let body = match src.weighted(&[5, 4, 4]) {
                0 => {
                    let f = f_first(src);
                    fold(f, f_join(src))
                }
                1 => {
                    // group: everything on one line, or one per line
                    let s = gen_sep(src, cfg);
                    let i = gen_indent_str(src, cfg);
                    let sep = if cfg.checks && src.chance(1, 2) {
                        check(gen_cnd(src), CheckPos::LeftChild, lit(","), empty())
                    } else {
                        empty()
                    };
                    let single = fold(
                        flat(Notation::Child(0)),
                        cat(Notation::Left, cat(lit(&s), flat(Notation::Right))),
                    );
                    let multi = fold(
                        Notation::Child(0),
                        cat(Notation::Left, cat(sep, cat(nl(), Notation::Right))),
                    );
                    if src.chance(1, 2) {
                        alt(
                            cat(lit("["), cat(single, lit("]"))),
                            cat(cat(lit("["), ind(&i, None, cat(nl(), multi))), cat(nl(), lit("]"))),
                        )
                    } else {
                        alt(single, multi)
                    }
                }
                _ => {
                    // flow wrap
                    let s = gen_sep(src, cfg);
                    fold(
                        Notation::Child(0),
                        cat(Notation::Left, cat(alt(lit(&s), nl()), Notation::Right)),
                    )
                }
            };
            let body = match src.weighted(&[3, 4]) {
                0 => body,
                _ => {
                    let z = seq(src, cfg, Nx { count: CountCx::Zero, ..nx }, &[], 0);
                    // (a join with checks of the second child cannot appear there)
                    let reusable = flaws(&count(empty(), body.clone(), empty()))
                        .iter()
                        .all(|f| matches!(f, crate::valid::Flaw::TextAfterEol | crate::valid::Flaw::MultipleFocusMarks));
                    let o = if src.chance(1, 2) && reusable {
                        body.clone()
                    } else {
                        seq(src, cfg, Nx { count: CountCx::One, ..nx }, &[Notation::Child(0)], 1)
                    };
                    count(z, o, body)
                }
            };
            if open {
                let mut items = vec![lit(&gen_str(src, cfg)), body];
                if src.chance(1, 2) {
                    items.push(lit(&gen_str(src, cfg)));
                }
                seq(src, cfg, nx, &items, 1)
            } else {
                body
            }
        }
    }
}

/// Remove end-of-lines and all but the first mark.
pub fn tame(n: &N, marks: &mut usize) -> N {
    use Notation::*;
    let b = |x: &N, m: &mut usize| Box::new(tame(x, m));
    match n {
        EndOfLine => Empty,
        FocusMark => {
            *marks += 1;
            if *marks > 1 {
                Empty
            } else {
                FocusMark
            }
        }
        Flat(a) => Flat(b(a, marks)),
        Indent(s, l, a) => Indent(s.clone(), l.clone(), b(a, marks)),
        Style(l, a) => Style(l.clone(), b(a, marks)),
        Concat(x, y) => {
            let x = b(x, marks);
            Concat(x, b(y, marks))
        }
        Choice(x, y) => {
            let x = b(x, marks);
            Choice(x, b(y, marks))
        }
        Check(c, p, x, y) => {
            let x = b(x, marks);
            Check(c.clone(), p.clone(), x, b(y, marks))
        }
        Count { zero, one, many } => {
            let zero = b(zero, marks);
            let one = b(one, marks);
            Count { zero, one, many: b(many, marks) }
        }
        Fold { first, join } => {
            let first = b(first, marks);
            Fold { first, join: b(join, marks) }
        }
        other => other.clone(),
    }
}

pub fn gen_notation(src: &mut Src, cfg: &Cfg, shape: Shape) -> N {
    let is_wild = src.below(100) >= 100 - cfg.wild;
    let n = if is_wild {
        let depth = src.range(1, 5);
        wild(src, cfg, Nx { shape, count: CountCx::No, fold: FoldCx::No }, depth)
    } else {
        structured(src, cfg, shape)
    };
    if flaws(&n).is_empty() {
        n
    } else {
        let mut m = 0;
        let n = tame(&n, &mut m);
        debug_assert!(flaws(&n).is_empty(), "{n} {:?}", flaws(&n));
        n
    }
}

pub fn gen_shape(src: &mut Src) -> Shape {
    match src.weighted(&[2, 3, 4]) {
        0 => Shape::Text,
        1 => Shape::Fixed(match *src.pick(&[1, 2, 3, 4, 0, 2]) {
            4 if src.chance(1, 6) => *src.pick(&[5, 8, 12, 17]),
            k => k,
        }),
        _ => Shape::Var,
    }
}

pub fn gen_doc(src: &mut Src, cfg: &Cfg) -> Doc {
    let ns = src.range(2, 5);
    let mut shapes = vec![Shape::Text];
    for _ in 1..ns {
        let s = gen_shape(src);
        shapes.push(s);
    }
    let mut notes = Vec::new();
    for s in &shapes {
        notes.push(gen_notation(src, cfg, *s));
    }
    let cfg = Cfg { broad: cfg.broad && notes.iter().all(|n| lefts(n) <= 1), ..*cfg };
    let nodes = gen_tree(src, &cfg, &shapes);
    Doc::new(notes, nodes, !cfg.styles)
}

/// How many times what was joined so far is repeated, at most.
pub fn lefts(n: &N) -> usize {
    use Notation::*;
    match n {
        Left => 1,
        Flat(a) | Indent(_, _, a) | Style(_, a) => lefts(a),
        Concat(a, b) => lefts(a) + lefts(b),
        Choice(a, b) | Check(_, _, a, b) => lefts(a).max(lefts(b)),
        Count { zero, one, many } => lefts(zero).max(lefts(one)).max(lefts(many)),
        Fold { join, .. } => lefts(join),
        _ => 0,
    }
}

/// A fold that shows what it joined so far more than once doubles it with every
/// child. The library lays out all of it that no choice holds back, even behind
/// a line that cannot be printed, where the model stops.
pub fn repeats_too_much(doc: &Doc) -> bool {
    let mut cost = vec![1f64; doc.nodes.len()];
    for i in (0..doc.nodes.len()).rev() {
        if let Some(k) = doc.kids(i) {
            let note = &doc.raw[doc.nodes[i].note];
            let l = lefts(note).max(1) as f64;
            let mut seen = vec![0usize; k.len() + 1];
            shown(note, k.len(), &mut seen);
            let inner: f64 = (k.iter().enumerate())
                .map(|(j, c)| cost[*c] * (seen[j] + seen[k.len()]).max(1) as f64)
                .sum();
            cost[i] += inner * l.powi(k.len() as i32 - 1);
        }
    }
    cost[0] > 30_000.0
}

/// How many times each child, and (at the end) the right child of the fold, is
/// shown at most when no choice holds it back.
fn shown(n: &N, len: usize, seen: &mut Vec<usize>) {
    use Notation::*;
    let mut most = |xs: &[&N]| {
        let mut best = seen.clone();
        for x in xs {
            let mut s = seen.clone();
            shown(x, len, &mut s);
            for (b, s) in best.iter_mut().zip(s) {
                *b = (*b).max(s);
            }
        }
        *seen = best;
    };
    match n {
        Child(i) => {
            if let Some(i) = crate::model::norm_index(*i, len) {
                seen[i] += 1;
            }
        }
        Right => seen[len] += 1,
        Flat(a) | Indent(_, _, a) | Style(_, a) => shown(a, len, seen),
        Concat(a, b) => {
            shown(a, len, seen);
            shown(b, len, seen);
        }
        Choice(a, b) | Check(_, _, a, b) => most(&[a, b]),
        Count { zero, one, many } => most(&[zero, one, many]),
        Fold { first, join } => {
            shown(first, len, seen);
            shown(join, len, seen);
        }
        _ => {}
    }
}

/// A tree whose nodes fit the shapes of their sorts.
pub fn gen_tree(src: &mut Src, cfg: &Cfg, shapes: &[Shape]) -> Vec<Node> {
    let mut budget = match src.weighted(&[4, 4, 2]) {
        0 => 12.min(cfg.max_nodes),
        1 => 30.min(cfg.max_nodes),
        _ => cfg.max_nodes,
    };
    let id_mul = [1u64, 7, 0x9E37_79B9_7F4A_7C15, 1 << 32, 1 << 16][src.below(5)];
    let branching: Vec<usize> =
        (0..shapes.len()).filter(|i| !matches!(shapes[*i], Shape::Text | Shape::Fixed(0))).collect();
    let leaves: Vec<usize> = (0..shapes.len())
        .filter(|i| matches!(shapes[*i], Shape::Text | Shape::Fixed(0)))
        .collect();
    let mut nodes: Vec<Node> = Vec::new();
    let root_sort = if branching.is_empty() || src.chance(1, 30) {
        src.below(shapes.len())
    } else {
        *src.pick(&branching)
    };
    // (node index, depth); breadth first so that budgets spread out
    let mut queue = std::collections::VecDeque::new();
    let mk = |sort: usize, nodes: &mut Vec<Node>| {
        let n = nodes.len();
        nodes.push(Node {
            note: sort,
            kind: Kind::Kids(vec![]),
            conds: 0,
            id: (n as u64 + 5).wrapping_mul(id_mul),
            styled: false,
            parent: 0,
            index: 0,
        });
        n
    };
    let r = mk(root_sort, &mut nodes);
    queue.push_back((r, 0usize));
    budget = budget.saturating_sub(1);
    let depth_first = src.chance(1, 3);
    // Now and then one node has very many small children.
    let mut broad = if cfg.broad && src.chance(1, 40) {
        let most = if src.chance(1, 5) { 700 } else { 150 };
        src.range(60, most)
    } else {
        0
    };
    // Now and then a tree is very deep, with one branch going on below the others.
    let max_depth = if cfg.deep && src.chance(1, 40) { src.range(16, 80) } else { 12 };
    let mut copies: Vec<(usize, usize)> = Vec::new();
    while let Some((n, depth)) = if depth_first { queue.pop_back() } else { queue.pop_front() } {
        let sort = nodes[n].note;
        nodes[n].conds = src.below(8) as u8;
        nodes[n].styled = cfg.styles && src.chance(1, 2);
        let k = match shapes[sort] {
            Shape::Text => {
                nodes[n].kind = Kind::Text(gen_str(src, cfg));
                continue;
            }
            Shape::Fixed(k) => k,
            Shape::Var => match src.weighted(&[2, 2, 5, 4, 1]) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => src.range(3, 5),
                _ => src.range(6, 14),
            }
            .min(budget + 1),
        };
        let is_broad = broad > 0 && k >= 2 && matches!(shapes[sort], Shape::Var);
        let k = if is_broad { broad } else { k };
        if is_broad {
            broad = 0;
        }
        let mut kids = Vec::new();
        let spine = if k > 0 && max_depth > 12 && depth < max_depth && !branching.is_empty() {
            Some(src.below(k))
        } else {
            None
        };
        for j in 0..k {
            if is_broad && j >= 60 {
                // (enough choices for all of them would be too many)
                let c = mk(0, &mut nodes);
                copies.push((c, kids[j * 7 % 60]));
                kids.push(c);
                continue;
            }
            let s = if spine == Some(j) && !is_broad {
                *src.pick(&branching)
            } else if is_broad || budget == 0 || depth >= 12 {
                if leaves.is_empty() {
                    0
                } else {
                    *src.pick(&leaves)
                }
            } else {
                match src.weighted(&[3, 3, 2]) {
                    0 => *src.pick(&leaves),
                    1 if !branching.is_empty() => *src.pick(&branching),
                    _ => src.below(shapes.len()),
                }
            };
            budget = budget.saturating_sub(1);
            let c = mk(s, &mut nodes);
            kids.push(c);
            queue.push_back((c, depth + 1));
        }
        nodes[n].kind = Kind::Kids(kids);
    }
    for (c, from) in copies {
        let Node { note, kind, conds, styled, .. } = nodes[from].clone();
        nodes[c] = Node { note, kind, conds, styled, ..nodes[c].clone() };
    }
    nodes
}

/// A width, biased to the thresholds where layouts change.
pub fn gen_width(src: &mut Src, hints: &[&Layout]) -> u16 {
    let mut ws: Vec<u64> = Vec::new();
    for h in hints {
        for l in h.lines.iter().take(40) {
            ws.push(l.width);
        }
        ws.push(h.max_width());
    }
    if ws.is_empty() {
        ws.push(10);
    }
    match src.weighted(&[6, 8, 2, 1]) {
        0 => src.below(41) as u16,
        1 => {
            let w = *src.pick(&ws) as i64 + src.below(5) as i64 - 2;
            w.clamp(0, 65535) as u16
        }
        2 => *src.pick(&[80u16, 0, 1, 120]),
        _ => *src.pick(&[65535u16, 65534, 9999, 1000, 32768]),
    }
}

/// Any raw notation, valid or not.
pub fn gen_raw(src: &mut Src, depth: usize) -> N {
    let d = if depth > 0 { 1 } else { 0 };
    let k = src.weighted(&[
        4, 2, 2, 2, 2, 2, 2, 2, 2, 8 * d, 4 * d, d, d, d, 4 * d, 4 * d, 4 * d,
    ]);
    let dd = depth.saturating_sub(1);
    let idx = |src: &mut Src| *src.pick(&[0isize, 1, -1, -2, 2, 7, isize::MAX, isize::MIN]);
    match k {
        0 => lit(*src.pick(&["a", "", "\u{1F600}", "\"\\\u{7}\n", "字"])),
        1 => nl(),
        2 => empty(),
        3 => Notation::Child(idx(src)),
        4 => Notation::Text,
        5 => Notation::Left,
        6 => Notation::Right,
        7 => Notation::FocusMark,
        8 => Notation::EndOfLine,
        9 => {
            let a = gen_raw(src, dd);
            cat(a, gen_raw(src, dd))
        }
        10 => {
            let a = gen_raw(src, dd);
            alt(a, gen_raw(src, dd))
        }
        11 => flat(gen_raw(src, dd)),
        12 => {
            let l = if src.chance(1, 2) { Some(gen_lbl(src)) } else { None };
            let s = *src.pick(&["  ", "", "\t\"字"]);
            ind(s, l, gen_raw(src, dd))
        }
        13 => sty(gen_lbl(src), gen_raw(src, dd)),
        14 => {
            let c = gen_cnd(src);
            let p = match src.below(4) {
                0 => CheckPos::Here,
                1 => CheckPos::Child(idx(src)),
                2 => CheckPos::LeftChild,
                _ => CheckPos::RightChild,
            };
            let a = gen_raw(src, dd);
            check(c, p, a, gen_raw(src, dd))
        }
        15 => {
            let z = gen_raw(src, dd);
            let o = gen_raw(src, dd);
            count(z, o, gen_raw(src, dd))
        }
        _ => {
            let f = gen_raw(src, dd);
            fold(f, gen_raw(src, dd))
        }
    }
}
