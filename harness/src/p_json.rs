//! C15 the sample JSON documents, C16 the sample tree and style.

use crate::engine::{Cx, Res};
use crate::model::width_of;
use crate::src::Src;
use partial_pretty_printer::doc_examples::json::*;
use partial_pretty_printer::doc_examples::tree::{Contents, Tree, TreeCondition, TreeNotation};
use partial_pretty_printer::doc_examples::{BasicStyle, Color};
use partial_pretty_printer::notation_constructors as nc;
use partial_pretty_printer::{
    pretty_print, pretty_print_to_string, CheckPos, FocusTarget, PrettyDoc, Segment,
    Style as StyleTrait,
};
use std::sync::OnceLock;

/// (colour, bold), with the colour as an index into `COLORS`.
pub type Look = (usize, bool);
const COLORS: [Color; 8] = [
    Color::White,
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
];
const NAMES: [&str; 8] = ["White", "Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan"];

fn look(s: &BasicStyle) -> Look {
    let c = match s.color {
        Color::White => 0,
        Color::Black => 1,
        Color::Red => 2,
        Color::Green => 3,
        Color::Yellow => 4,
        Color::Blue => 5,
        Color::Magenta => 6,
        Color::Cyan => 7,
    };
    (c, s.bold)
}

fn mk(l: Look) -> BasicStyle {
    BasicStyle { color: COLORS[l.0], bold: l.1 }
}

/// The styled characters of a line.
pub type Chars = Vec<(char, Look)>;

fn chars_of<'d, P: PrettyDoc<'d, Style = BasicStyle>>(segs: &[Segment<'d, P>]) -> Chars {
    segs.iter().flat_map(|s| s.str.chars().map(|c| (c, look(&s.style)))).collect()
}

fn show(l: &Chars) -> String {
    let mut out = String::new();
    let mut cur = None;
    for (c, k) in l {
        if cur != Some(*k) {
            out.push_str(&format!("{{{}{}}}", if k.1 { "bold " } else { "" }, NAMES[k.0]));
            cur = Some(*k);
        }
        out.push(*c);
    }
    out
}

fn show_all(ls: &[Chars]) -> String {
    ls.iter().map(|l| format!("    {}\n", show(l))).collect()
}

fn print_all(
    doc: &Tree<BasicStyle>,
    width: u16,
    path: &[usize],
    target: FocusTarget,
) -> Result<(Vec<Chars>, usize, usize), String> {
    let (up, focused, down) =
        pretty_print(doc, width, path, target, None).map_err(|e| format!("printing failed: {e}"))?;
    let mut lines: Vec<Chars> = Vec::new();
    for l in up {
        lines.push(chars_of(&l.map_err(|e| format!("printing upward failed: {e}"))?.segments));
    }
    lines.reverse();
    let row = lines.len();
    let mut f = chars_of(&focused.left_segments);
    let col = f.len();
    f.extend(chars_of(&focused.right_segments));
    lines.push(f);
    for l in down {
        lines.push(chars_of(&l.map_err(|e| format!("printing downward failed: {e}"))?.segments));
    }
    Ok((lines, row, col))
}

// ---- C15 ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Str(String),
    Num(f64),
    Arr(Vec<J>),
    Obj(Vec<Entry>),
    Comment(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Pair(String, J),
    Comment(Vec<String>),
}

const PIECES: &[&str] = &[
    "a", "", "key", "some longer text", "\"", "\\", "\\n", "\n", "\t", "\r", "\u{0}", "\u{1f}", "\u{1b}[31m", "\\u00e9", "\\\"", "é", "漢字", "𝄞", "e\u{301}",
    "//", ",", ", ", "[", "{", "]}", ": ", "/", "null", " ", "0123456789", "👩‍🔬", "// no",
];

fn gen_str(s: &mut Src) -> String {
    let n = s.weighted(&[6, 4, 2, 1]);
    let mut n = if s.chance(1, 12) { 0 } else { n + 1 };
    if s.chance(1, 800) {
        n = s.range(20, 400);
    }
    (0..n).map(|_| *s.pick(PIECES)).collect()
}

fn gen_num(s: &mut Src) -> f64 {
    match s.below(9) {
        0 => s.below(10) as f64,
        1 => -(s.below(1000) as f64),
        2 => s.below(1_000_000) as f64 / 64.0,
        3 => *s.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, -0.0, 5e-324, 1e21, 1e-7, 1e16, 0.1 + 0.2]),
        4 => (s.below(1 << 30) as f64) * 1e10 + 0.5,
        5 => {
            let f = f64::from_bits(((s.raw() as u64) << 32) | s.raw() as u64);
            if f.is_finite() {
                f
            } else {
                1.0
            }
        }
        _ => s.below(100) as f64,
    }
}

const WORDS: &[&str] =
    &["a", "word", "comment", "//", "\"", "[1,", "x", "漢字", "considerably-longer-word", "e\u{301}", "*/", "{"];

fn gen_words(s: &mut Src) -> Vec<String> {
    let n = s.weighted(&[3, 4, 4, 4, 3, 2, 1, 1, 1]);
    let mut n = if n == 8 { 8 + s.below(20) } else { n };
    if s.chance(1, 200) {
        n = s.range(30, 200);
    }
    (0..n).map(|_| s.pick(WORDS).to_string()).collect()
}

/// `comments` is the chance in 20 of a comment where one may stand.
pub fn gen_j(s: &mut Src, depth: usize, budget: &mut usize, comments: usize) -> J {
    let leaf = depth == 0 || *budget == 0;
    *budget = budget.saturating_sub(1);
    match s.weighted(&if leaf { [2, 2, 4, 4, 0, 0] } else { [1, 1, 2, 2, 5, 5] }) {
        0 => J::Null,
        1 => J::Bool(s.chance(1, 2)),
        2 => J::Num(gen_num(s)),
        3 => J::Str(gen_str(s)),
        4 => {
            let mut n = s.weighted(&[2, 3, 4, 3, 2, 1, 1]);
            if s.chance(1, 200) {
                n = s.range(7, 150);
            }
            J::Arr(
                (0..n)
                    .map(|_| {
                        if s.below(20) < comments {
                            J::Comment(gen_words(s))
                        } else {
                            gen_j(s, depth - 1, budget, comments)
                        }
                    })
                    .collect(),
            )
        }
        _ => {
            let mut n = s.weighted(&[2, 3, 4, 3, 2, 1]);
            if s.chance(1, 200) {
                n = s.range(7, 150);
            }
            J::Obj(
                (0..n)
                    .map(|_| {
                        if s.below(20) < comments {
                            Entry::Comment(gen_words(s))
                        } else {
                            Entry::Pair(gen_str(s), gen_j(s, depth - 1, budget, comments))
                        }
                    })
                    .collect(),
            )
        }
    }
}

fn comment_text(s: &mut Src, words: &[String]) -> String {
    // However the words are spaced, they are the words.
    let mut t = String::new();
    if s.chance(1, 6) {
        t.push_str("  ");
    }
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            t.push_str(*s.pick(&[" ", "  ", "\t", "\n", " \n "]));
        }
        t.push_str(w);
    }
    if s.chance(1, 6) {
        t.push('\n');
    }
    t
}

pub fn build(s: &mut Src, j: &J) -> Json {
    match j {
        J::Null => json_null(),
        J::Bool(b) => json_bool(*b),
        J::Str(x) => json_string(x),
        J::Num(f) => json_number(*f),
        J::Comment(w) => json_comment(&comment_text(s, w)),
        J::Arr(xs) => {
            let xs = xs.iter().map(|x| build(s, x)).collect();
            json_array(xs)
        }
        J::Obj(es) => {
            let es = es
                .iter()
                .map(|e| match e {
                    Entry::Pair(k, v) => {
                        let v = build(s, v);
                        json_object_pair(k, v)
                    }
                    Entry::Comment(w) => json_comment(&comment_text(s, w)),
                })
                .collect();
            json_object(es)
        }
    }
}

const PLAIN: Look = (0, false);
const CONST: Look = (3, true);
const STRING: Look = (6, false);
const NUMBER: Look = (5, false);
const COMMENT: Look = (4, false);

fn put(out: &mut Chars, s: &str, l: Look) {
    out.extend(s.chars().map(|c| (c, l)));
}

fn has_comment(j: &J) -> bool {
    match j {
        J::Arr(xs) => xs.iter().any(|x| matches!(x, J::Comment(_)) || has_comment(x)),
        J::Obj(es) => es.iter().any(|e| match e {
            Entry::Comment(_) => true,
            Entry::Pair(_, v) => has_comment(v),
        }),
        J::Comment(_) => true,
        _ => false,
    }
}

fn one_line(j: &J, out: &mut Chars) {
    match j {
        J::Null => put(out, "null", CONST),
        J::Bool(b) => put(out, if *b { "true" } else { "false" }, CONST),
        J::Str(s) => put(out, &format!("\"{s}\""), STRING),
        J::Num(f) => put(out, &f.to_string(), NUMBER),
        J::Comment(_) => unreachable!(),
        J::Arr(xs) => {
            put(out, "[", PLAIN);
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    put(out, ", ", PLAIN);
                }
                one_line(x, out);
            }
            put(out, "]", PLAIN);
        }
        J::Obj(es) => {
            put(out, "{", PLAIN);
            for (i, e) in es.iter().enumerate() {
                if i > 0 {
                    put(out, ", ", PLAIN);
                }
                let Entry::Pair(k, v) = e else { unreachable!() };
                put(out, &format!("\"{k}\""), STRING);
                put(out, ": ", PLAIN);
                one_line(v, out);
            }
            put(out, "}", PLAIN);
        }
    }
}

/// The sum of the display widths of the printed pieces, as the printer counts.
fn flat_width(j: &J) -> u64 {
    match j {
        J::Null => 4,
        J::Bool(b) => 5 - *b as u64,
        J::Str(s) => 2 + width_of(s),
        J::Num(f) => f.to_string().len() as u64,
        J::Comment(_) => unreachable!(),
        J::Arr(xs) => {
            2 + xs.iter().map(flat_width).sum::<u64>() + 2 * (xs.len() as u64).saturating_sub(1)
        }
        J::Obj(es) => {
            2 + es
                .iter()
                .map(|e| match e {
                    Entry::Pair(k, v) => 4 + width_of(k) + flat_width(v),
                    Entry::Comment(_) => unreachable!(),
                })
                .sum::<u64>()
                + 2 * (es.len() as u64).saturating_sub(1)
        }
    }
}

struct Spec {
    width: u64,
    lines: Vec<Chars>,
    /// Width of the line in progress.
    col: u64,
    broken: usize,
    whole: usize,
    wraps: usize,
}

impl Spec {
    fn newline(&mut self, level: usize) {
        let mut l = Chars::new();
        put(&mut l, &" ".repeat(4 * level), PLAIN);
        self.lines.push(l);
        self.col = 4 * level as u64;
    }
    fn put(&mut self, s: &str, l: Look) {
        put(self.lines.last_mut().unwrap(), s, l);
        self.col += width_of(s);
    }
    fn comment(&mut self, words: &[String], level: usize) {
        self.put("// ", COMMENT);
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                if self.col + 1 + width_of(w) <= self.width {
                    self.put(" ", COMMENT);
                } else {
                    self.newline(level);
                    self.put("// ", COMMENT);
                    self.wraps += 1;
                }
            }
            self.put(w, COMMENT);
        }
    }
    /// `tail`: what follows the value on its last line ("" or ",").
    fn value(&mut self, j: &J, level: usize, tail: &str) {
        let (open, close, n) = match j {
            J::Comment(w) => return self.comment(w, level),
            J::Arr(xs) => ("[", "]", xs.len()),
            J::Obj(es) => ("{", "}", es.len()),
            _ => (" ", " ", 0),
        };
        let fits = n == 0
            || (!has_comment(j) && self.col + flat_width(j) + tail.len() as u64 <= self.width);
        if fits {
            let mut l = Chars::new();
            one_line(j, &mut l);
            self.col += flat_width(j);
            self.lines.last_mut().unwrap().extend(l);
            self.whole += (n > 0) as usize;
        } else {
            self.broken += 1;
            self.put(open, PLAIN);
            let last_value = match j {
                J::Arr(xs) => xs.iter().rposition(|x| !matches!(x, J::Comment(_))),
                J::Obj(es) => es.iter().rposition(|x| !matches!(x, Entry::Comment(_))),
                _ => unreachable!(),
            };
            for i in 0..n {
                self.newline(level + 1);
                let comma = if Some(i) < last_value { "," } else { "" };
                match j {
                    J::Arr(xs) => match &xs[i] {
                        J::Comment(w) => self.comment(w, level + 1),
                        v => self.value(v, level + 1, comma),
                    },
                    J::Obj(es) => match &es[i] {
                        Entry::Comment(w) => self.comment(w, level + 1),
                        Entry::Pair(k, v) => {
                            self.put(&format!("\"{k}\""), STRING);
                            self.put(": ", PLAIN);
                            self.value(v, level + 1, comma);
                        }
                    },
                    _ => unreachable!(),
                }
            }
            self.newline(level);
            self.put(close, PLAIN);
        }
        self.put(tail, PLAIN);
    }
}

/// A parser for what was printed, independent of the layout. Comments are
/// lines of their own whose first characters are `//`; `\u{0}` stands for them.
struct Parser {
    c: Vec<char>,
    i: usize,
}

impl Parser {
    fn ws(&mut self) {
        while self.i < self.c.len() && matches!(self.c[self.i], ' ' | '\n') {
            self.i += 1;
        }
    }
    fn eat(&mut self, ch: char) -> bool {
        self.ws();
        if self.c.get(self.i) == Some(&ch) {
            self.i += 1;
            return true;
        }
        false
    }
    fn string(&mut self) -> Result<String, String> {
        if !self.eat('"') {
            return Err(format!("expected a string at character {}", self.i));
        }
        let mut s = String::new();
        loop {
            match self.c.get(self.i) {
                None => return Err("unterminated string".into()),
                Some('"') => {
                    self.i += 1;
                    return Ok(s);
                }
                Some('\n') => return Err("line break inside a string".into()),
                Some('\\') => {
                    s.push('\\');
                    s.push(*self.c.get(self.i + 1).ok_or("unterminated escape")?);
                    self.i += 2;
                }
                Some(c) => {
                    s.push(*c);
                    self.i += 1;
                }
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.c.get(self.i) {
            Some('"') => Ok(J::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut xs = vec![];
                if self.eat(']') {
                    return Ok(J::Arr(xs));
                }
                loop {
                    xs.push(self.value()?);
                    if self.eat(']') {
                        return Ok(J::Arr(xs));
                    }
                    if !self.eat(',') {
                        return Err(format!("expected `,` or `]` at character {}", self.i));
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut es = vec![];
                if self.eat('}') {
                    return Ok(J::Obj(es));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    if !self.eat(':') {
                        return Err(format!("expected `:` at character {}", self.i));
                    }
                    es.push(Entry::Pair(k, self.value()?));
                    if self.eat('}') {
                        return Ok(J::Obj(es));
                    }
                    if !self.eat(',') {
                        return Err(format!("expected `,` or `}}` at character {}", self.i));
                    }
                }
            }
            Some(_) => {
                let start = self.i;
                while self
                    .c
                    .get(self.i)
                    .is_some_and(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '+' | '.'))
                {
                    self.i += 1;
                }
                let w: String = self.c[start..self.i].iter().collect();
                match w.as_str() {
                    "null" => Ok(J::Null),
                    "true" => Ok(J::Bool(true)),
                    "false" => Ok(J::Bool(false)),
                    w => match w.parse::<f64>() {
                        Ok(f) if f.is_finite() && !w.starts_with(['+', '.']) => Ok(J::Num(f)),
                        _ => Err(format!("unexpected {:?} at character {start}", w)),
                    },
                }
            }
            None => Err("unexpected end".into()),
        }
    }
}

/// How the contents of a string are printed between its quotes: some way of
/// writing it in JSON, which one is up to the sample.
fn shown_str(s: &str) -> Result<String, String> {
    if !s.contains(|c: char| c == '"' || c == '\\' || c < ' ') {
        return Ok(s.to_string());
    }
    let text = pretty_print_to_string(&json_string(s), 65535).map_err(|e| format!("printing failed: {e}"))?;
    match serde_json::from_str::<String>(&text) {
        Ok(back) if back == s => Ok(text[1..text.len() - 1].to_string()),
        back => Err(format!("the string {s:?} is printed as {text:?}, which means {back:?}")),
    }
}

/// The value with its strings as they are printed.
fn shown(j: &J) -> Result<J, String> {
    Ok(match j {
        J::Str(s) => J::Str(shown_str(s)?),
        J::Arr(xs) => J::Arr(xs.iter().map(shown).collect::<Result<_, _>>()?),
        J::Obj(es) => J::Obj(
            es.iter()
                .map(|e| {
                    Ok(match e {
                        Entry::Pair(k, v) => Entry::Pair(shown_str(k)?, shown(v)?),
                        Entry::Comment(w) => Entry::Comment(w.clone()),
                    })
                })
                .collect::<Result<_, String>>()?,
        ),
        j => j.clone(),
    })
}

/// One JSON text without comments, and nothing else.
pub fn parse_printed(text: &str) -> Result<J, String> {
    let mut p = Parser { c: text.chars().collect(), i: 0 };
    let j = p.value()?;
    p.ws();
    if p.i != p.c.len() {
        return Err("something follows the value".into());
    }
    Ok(j)
}

/// The lines of a value on its own, and how many containers are spread out and whole.
pub fn layout_of(j: &J, width: u64) -> (Vec<Chars>, usize, usize) {
    let mut sp = Spec { width, lines: vec![vec![]], col: 0, broken: 0, whole: 0, wraps: 0 };
    sp.value(j, 0, "");
    (sp.lines, sp.broken, sp.whole)
}

pub fn chars_plain(lines: &[Chars]) -> Vec<String> {
    lines.iter().map(|l| l.iter().map(|c| c.0).collect()).collect()
}

fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(x), J::Num(y)) => x.to_bits() == y.to_bits(),
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|(a, b)| match (a, b) {
                    (Entry::Pair(k, v), Entry::Pair(l, w)) => k == l && same(v, w),
                    _ => false,
                })
        }
        _ => a == b,
    }
}

fn strip(j: &J) -> Option<J> {
    match j {
        J::Comment(_) => None,
        J::Arr(xs) => Some(J::Arr(xs.iter().filter_map(strip).collect())),
        J::Obj(es) => Some(J::Obj(
            es.iter()
                .filter_map(|e| match e {
                    Entry::Comment(_) => None,
                    Entry::Pair(k, v) => Some(Entry::Pair(k.clone(), strip(v).unwrap())),
                })
                .collect(),
        )),
        j => Some(j.clone()),
    }
}

fn comments_of(j: &J, out: &mut Vec<Vec<String>>) {
    match j {
        J::Comment(w) => out.push(w.clone()),
        J::Arr(xs) => xs.iter().for_each(|x| comments_of(x, out)),
        J::Obj(es) => es.iter().for_each(|e| match e {
            Entry::Comment(w) => out.push(w.clone()),
            Entry::Pair(_, v) => comments_of(v, out),
        }),
        _ => (),
    }
}

fn random_path<'a>(s: &mut Src, mut t: &'a Json) -> (Vec<usize>, &'a Json) {
    let mut path = vec![];
    while let Contents::Children(c) = &t.contents {
        if c.is_empty() || s.chance(1, 4) {
            break;
        }
        let i = s.below(c.len());
        path.push(i);
        t = &c[i];
    }
    (path, t)
}

pub fn c15(cx: &mut Cx) -> Res {
    let s = &mut cx.src;
    let comments = *s.pick(&[0, 0, 3, 8]);
    let nroots = s.weighted(&[6, 2, 2, 1, 1]);
    let mut budget = 25;
    let mut roots: Vec<J> = vec![];
    for _ in 0..nroots.max(1) {
        let depth = s.range(1, 5);
        roots.push(if s.below(20) < comments {
            J::Comment(gen_words(s))
        } else {
            gen_j(s, depth, &mut budget, comments)
        });
    }
    if s.chance(1, 100) {
        // nested deeply
        let n = s.range(6, 60);
        for _ in 0..n {
            let r = roots.pop().unwrap();
            let other = if s.chance(1, 3) { Some(gen_num(s)) } else { None };
            let first = s.chance(1, 2);
            let (mut before, mut after) = (vec![], vec![]);
            if let Some(x) = other {
                if first { &mut before } else { &mut after }.push(J::Num(x));
            }
            roots.push(if s.chance(1, 2) {
                J::Arr(before.into_iter().chain([r]).chain(after).collect())
            } else {
                let keyed = |j| match j {
                    J::Comment(w) => Entry::Comment(w),
                    j => Entry::Pair("k".into(), j),
                };
                J::Obj(before.into_iter().chain([r]).chain(after).map(keyed).collect())
            });
        }
    }
    if nroots == 4 && s.chance(1, 4) {
        roots.clear();
    }
    let wrapped = nroots > 0;
    let docs: Vec<Json> = roots.iter().map(|r| build(s, r)).collect();
    let doc = if wrapped { json_roots(docs) } else { docs.into_iter().next().unwrap() };
    // From here on, strings are what stands between their quotes.
    let values = roots.clone();
    let roots: Vec<J> = match roots.iter().map(shown).collect() {
        Ok(roots) => roots,
        Err(e) => {
            cx.describe(|| format!("{values:?}"));
            return Err(e);
        }
    };

    // Widths: anything, or one off from where some line changes.
    let mut w = *s.pick(&[80u64, 0, 1, 5, 10, 20, 30, 40, 60, 100, 65535]);
    let spec = |w: u64| {
        let mut sp = Spec { width: w, lines: vec![vec![]], col: 0, broken: 0, whole: 0, wraps: 0 };
        for (i, r) in roots.iter().enumerate() {
            if i > 0 {
                sp.newline(0);
            }
            sp.value(r, 0, "");
        }
        sp
    };
    if s.chance(2, 3) {
        let sp = spec(w);
        let l = s.pick(&sp.lines);
        let lw = width_of(&l.iter().map(|c| c.0).collect::<String>());
        w = (lw + s.below(4) as u64).saturating_sub(2).min(65535);
    }
    let sp = spec(w);
    let width = w as u16;

    cx.label_if(sp.broken > 0, "a container is spread over lines");
    cx.label_if(sp.whole > 0, "a container is on one line");
    cx.label_if(sp.wraps > 0, "a comment wraps");
    cx.label_if(sp.lines.len() > 8, "more than 8 lines");
    cx.label_if(roots != values, "a string needs escapes");
    cx.label_if(wrapped, "several values or comments at the top");
    let mut want_comments = vec![];
    roots.iter().for_each(|r| comments_of(r, &mut want_comments));
    cx.label_if(!want_comments.is_empty(), "has a comment");
    cx.describe(|| format!("width {w}\n{values:?}\nexpected:\n{}", show_all(&sp.lines)));

    // Meaning: parse what was printed.
    let text = pretty_print_to_string(&doc, width).map_err(|e| format!("printing failed: {e}"))?;
    let mut body = String::new();
    let mut words: Vec<String> = vec![];
    for l in text.split('\n') {
        let t = l.trim_start_matches(' ');
        if let Some(c) = t.strip_prefix("//") {
            words.extend(c.split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()));
        } else {
            body.push_str(l);
            body.push('\n');
        }
    }
    let fail = |what: String| format!("width {w}: {what}\nprinted:\n{text}");
    let want_words: Vec<String> = want_comments.iter().flatten().cloned().collect();
    // A wrapped word of a comment that is itself `//` merges with the prefix
    // only in this crude reading, never in the exact comparison below.
    if words.iter().filter(|w| *w != "//").ne(want_words.iter().filter(|w| *w != "//")) {
        return Err(fail(format!("comments read back as {words:?}, expected {want_words:?}")));
    }
    let mut p = Parser { c: body.chars().collect(), i: 0 };
    for r in roots.iter().filter_map(strip) {
        let v = p.value().map_err(|e| fail(format!("not JSON any more: {e}")))?;
        if !same(&v, &r) {
            return Err(fail(format!("parses back as {v:?}, expected {r:?}")));
        }
    }
    p.ws();
    if p.i != p.c.len() {
        return Err(fail("something follows the last value".into()));
    }

    // Layout and colours, from some focus path.
    let (path, node) = random_path(&mut cx.src, &doc);
    let (target, at) = match (&node.contents, cx.src.below(3)) {
        (Contents::Children(c), _) if c.is_empty() && node.is_comment => (FocusTarget::Mark, "comment"),
        (Contents::Children(c), _) if c.is_empty() => (FocusTarget::Start, "start"),
        (_, 1) => (FocusTarget::End, "end"),
        (Contents::Text(t), 2) => (FocusTarget::Text(cx.src.below(t.chars().count() + 2)), "text"),
        _ => (FocusTarget::Start, "start"),
    };
    cx.evals += 1;
    let (lines, row, col) = print_all(&doc, width, &path, target)
        .map_err(|e| fail(format!("focus {path:?} {at}: {e}")))?;
    if lines != sp.lines {
        return Err(format!(
            "width {w}, focus {path:?} {at}: the lines are not those of well-laid-out JSON\n  expected:\n{}  got:\n{}",
            show_all(&sp.lines),
            show_all(&lines)
        ));
    }
    let want: String = sp.lines.iter().map(|l| l.iter().map(|c| c.0).collect::<String>()).collect::<Vec<_>>().join("\n");
    if want != text {
        return Err(fail(format!("printing to a string differs from the lines, expected:\n{want}")));
    }
    // Where the focus is: at the first or last character of the value.
    let line: String = lines[row].iter().map(|c| c.0).collect();
    let left: String = line.chars().take(col).collect();
    let right: String = line.chars().skip(col).collect();
    let ok = match at {
        "comment" => left.ends_with("// ") && right.is_empty(),
        "text" => match &node.contents {
            Contents::Text(t) => {
                let n = if let FocusTarget::Text(n) = target { n } else { unreachable!() };
                let a: String = t.chars().take(n).collect();
                let b: String = t.chars().skip(n).collect();
                left.ends_with(&a) && right.starts_with(&b)
            }
            _ => true,
        },
        "start" => match &node.contents {
            Contents::Text(t) => right.starts_with(t.as_str()) || right.starts_with(&format!("\"{t}\"")),
            Contents::Children(_) if node.is_comment => right.starts_with("//"),
            _ => true,
        },
        _ => true,
    };
    if !ok {
        return Err(format!("width {w}: the focus {path:?} {at} splits a line into {left:?} and {right:?}"));
    }
    Ok(sp.broken > 0 || sp.whole > 0 || sp.wraps > 0)
}

// ---- C16 ---------------------------------------------------------------------

const LABELS: [&str; 28] = [
    "red", "bold_red", "white", "bold_white", "black", "bold_black", "green", "bold_green", "yellow",
    "bold_yellow", "blue", "bold_blue", "magenta", "bold_magenta", "cyan", "bold_cyan", "", "bold_",
    "Red", "bold red", "RED", "boldred", "bold_orange", "open", "red ", "bold", "_red", "custom",
];

fn label_look(l: &str) -> Look {
    let (bold, c) = match l.strip_prefix("bold_") {
        Some(c) => (true, c),
        None => (false, l),
    };
    match NAMES.iter().position(|n| n.to_lowercase() == c) {
        Some(i) => (i, bold),
        None => PLAIN,
    }
}

struct Notes {
    text: [TreeNotation; 3],
    branch: [TreeNotation; 4],
}

fn notes() -> &'static Notes {
    static N: OnceLock<Notes> = OnceLock::new();
    N.get_or_init(|| {
        use nc::*;
        use TreeCondition::*;
        let v = |n: partial_pretty_printer::Notation<&'static str, TreeCondition>| n.validate().unwrap();
        let fold = |join| nc::fold(Fold { first: child(0), join });
        Notes {
            text: [
                v(text()),
                v(style("bold_blue", lit("'") + check(IsEmptyText, CheckPos::Here, lit("~"), text()) + lit("'"))),
                v(style("custom", style("red", text()) + lit("!")) + check(IsComment, CheckPos::Here, lit("#"), empty())),
            ],
            branch: [
                v(lit("[")
                    + fold(
                        left()
                            + check(NeedsSeparator, CheckPos::LeftChild, lit(","), lit(" "))
                            + check(NeedsSeparator, CheckPos::RightChild, lit(">"), empty())
                            + right(),
                    )
                    + lit("]")),
                v(style("cyan", lit("(") + fold(left() + check(IsComment, CheckPos::RightChild, lit("/"), lit(";")) + right()) + lit(")"))),
                v(count(Count {
                    zero: lit("0"),
                    one: check(IsEmptyText, CheckPos::Child(0), lit("_"), style("custom", child(0))),
                    many: check(NeedsSeparator, CheckPos::Child(0), lit("+"), lit("-"))
                        + style("bold_red", style("custom", child(0)))
                        + check(IsEmptyText, CheckPos::Child(-1), lit("_"), child(-1)),
                })),
                v(check(IsComment, CheckPos::Here, style("yellow", lit("#")), empty())
                    + fold(left() + check(IsEmptyText, CheckPos::LeftChild, lit("e"), lit("f")) + right())),
            ],
        }
    })
}

#[derive(Clone, Debug)]
struct M {
    id: u32,
    /// Index of the notation among those for its kind of node.
    note: usize,
    text: Option<String>,
    kids: Vec<M>,
    comment: bool,
    /// Known for children of branches only.
    sep: Option<bool>,
    style: Look,
    overrides: Vec<(&'static str, Look)>,
}

impl M {
    fn lookup(&self, l: &'static str) -> Look {
        self.overrides.iter().find(|o| o.0 == l).map(|o| o.1).unwrap_or_else(|| label_look(l))
    }
    fn empty_text(&self) -> bool {
        self.text.as_deref() == Some("")
    }
    fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
}

fn over(outer: Look, inner: Look) -> Look {
    (inner.0, outer.1 || inner.1)
}

/// What a tree prints, given the style around it.
fn expect(m: &M, around: Option<Look>, out: &mut Chars) {
    let here = match around {
        None => m.style,
        Some(a) => over(a, m.style),
    };
    let st = |l: &'static str| over(here, m.lookup(l));
    if let Some(t) = &m.text {
        match m.note {
            0 => put(out, t, here),
            1 => {
                let s = st("bold_blue");
                put(out, "'", s);
                put(out, if t.is_empty() { "~" } else { t }, s);
                put(out, "'", s);
            }
            _ => {
                let s = st("custom");
                put(out, t, over(s, m.lookup("red")));
                put(out, "!", s);
                put(out, if m.comment { "#" } else { "" }, here);
            }
        }
        return;
    }
    let kid = |i: usize, a: Look, out: &mut Chars| expect(&m.kids[i], Some(a), out);
    let sep = |i: usize| m.kids[i].sep.unwrap();
    let n = m.kids.len();
    match m.note {
        0 => {
            put(out, "[", here);
            for i in 0..n {
                if i > 0 {
                    put(out, if sep(i - 1) { "," } else { " " }, here);
                    put(out, if sep(i) { ">" } else { "" }, here);
                }
                kid(i, here, out);
            }
            put(out, "]", here);
        }
        1 => {
            let s = st("cyan");
            put(out, "(", s);
            for i in 0..n {
                if i > 0 {
                    put(out, if m.kids[i].comment { "/" } else { ";" }, s);
                }
                kid(i, s, out);
            }
            put(out, ")", s);
        }
        2 => match n {
            0 => put(out, "0", here),
            1 if m.kids[0].empty_text() => put(out, "_", here),
            1 => kid(0, st("custom"), out),
            _ => {
                put(out, if sep(0) { "+" } else { "-" }, here);
                kid(0, over(st("bold_red"), m.lookup("custom")), out);
                if m.kids[n - 1].empty_text() {
                    put(out, "_", here)
                } else {
                    kid(n - 1, here, out)
                }
            }
        },
        _ => {
            if m.comment {
                put(out, "#", st("yellow"));
            }
            for i in 0..n {
                if i > 0 {
                    put(out, if m.kids[i - 1].empty_text() { "e" } else { "f" }, here);
                }
                kid(i, here, out);
            }
        }
    }
}

type T = Tree<BasicStyle>;

fn compare(t: &T, m: &M, probe: &'static str) -> Result<(), String> {
    let e = |what: String| Err(format!("node {}: {what}", m.id));
    if t.id != m.id || PrettyDoc::id(t).unwrap() != m.id {
        return e(format!("id {} expected {}", t.id, m.id));
    }
    if t.is_comment != m.comment {
        return e(format!("is_comment {}", t.is_comment));
    }
    if let Some(s) = m.sep {
        if t.needs_separator != s {
            return e(format!("needs_separator {} expected {s}", t.needs_separator));
        }
        if t.condition(&TreeCondition::NeedsSeparator).unwrap() != s {
            return e(format!("condition NeedsSeparator is not {s}"));
        }
    }
    if t.condition(&TreeCondition::IsComment).unwrap() != m.comment {
        return e(format!("condition IsComment is not {}", m.comment));
    }
    if t.condition(&TreeCondition::IsEmptyText).unwrap() != m.empty_text() {
        return e(format!("condition IsEmptyText is not {}", m.empty_text()));
    }
    if look(&t.node_style) != m.style || look(&PrettyDoc::node_style(t).unwrap()) != m.style {
        return e(format!("node style {:?}", t.node_style));
    }
    for l in m.overrides.iter().map(|o| o.0).chain([probe]) {
        let got = look(&t.lookup_style(l).unwrap());
        if got != m.lookup(l) {
            return e(format!("style of label {l:?} is {got:?}, expected {:?}", m.lookup(l)));
        }
    }
    match (&t.contents, &m.text) {
        (Contents::Text(x), Some(y)) if x == y => {
            if t.num_children().unwrap().is_some() || t.unwrap_text().unwrap() != y {
                return e("text node through the document trait".into());
            }
        }
        (Contents::Children(c), None) if c.len() == m.kids.len() => {
            if t.num_children().unwrap() != Some(c.len()) {
                return e("number of children through the document trait".into());
            }
            for (i, (a, b)) in c.iter().zip(&m.kids).enumerate() {
                if t.unwrap_child(i).unwrap().id != b.id {
                    return e(format!("child {i} through the document trait"));
                }
                if i > 0 && (&c[i]).unwrap_prev_sibling(t, i - 1).unwrap().id != m.kids[i - 1].id {
                    return e(format!("sibling before child {i} through the document trait"));
                }
                compare(a, b, probe)?;
            }
            if let Some(k) = m.kids.last() {
                if t.unwrap_last_child().unwrap().id != k.id {
                    return e("last child through the document trait".into());
                }
            }
        }
        _ => return e("contents changed".into()),
    }
    Ok(())
}

fn gen_look(s: &mut Src) -> Look {
    (s.below(8), s.chance(1, 3))
}

pub fn c16(cx: &mut Cx) -> Res {
    T::reset_id();
    let notes = notes();
    let mut next = 0u32;
    let mut pool: Vec<(T, M)> = vec![];
    let mut log: Vec<String> = vec![];
    let nops = cx.src.range(1, 30);
    let mut nontrivial = false;
    if cx.src.chance(1, 40_000) {
        let n = *cx.src.pick(&[256u32, 65_536, 70_000, 200_000]);
        for _ in 0..n {
            T::new_branch(&notes.branch[0], vec![]);
        }
        next = n;
        log.push(format!("{n} nodes made and dropped"));
        cx.label("very many nodes made");
    }
    for _ in 0..nops {
        let s = &mut cx.src;
        let op = s.weighted(&[6, 7, 3, 2, 3, 4, 1, 1]);
        let need = !matches!(op, 0 | 1 | 7);
        let k = if pool.is_empty() { 0 } else { s.below(pool.len()) };
        if need && pool.is_empty() {
            continue;
        }
        match op {
            0 => {
                let text = s.pick(&["x", "", "text", "漢", " "]).to_string();
                let note = s.below(3);
                log.push(format!("{}: text node {text:?}, notation t{note}, id {next}", pool.len()));
                let t = T::new_text(&notes.text[note], text.clone());
                let m = M { id: next, note, text: Some(text), kids: vec![], comment: false, sep: Some(false), style: PLAIN, overrides: vec![] };
                next += 1;
                pool.push((t, m));
            }
            1 => {
                let mut n = s.weighted(&[1, 2, 4, 4, 3, 2]).min(pool.len());
                if s.chance(1, 400) {
                    // very many children
                    let most = *s.pick(&[20, 40, 80, 300]);
                    let more = s.range(6, most);
                    for _ in 0..more {
                        let text = "x".to_string();
                        let mut t = T::new_text(&notes.text[0], text.clone());
                        let mut m = M { id: next, note: 0, text: Some(text), kids: vec![], comment: false, sep: Some(false), style: PLAIN, overrides: vec![] };
                        if s.chance(1, 3) {
                            t = t.into_comment();
                            m.comment = true;
                        }
                        next += 1;
                        pool.push((t, m));
                    }
                    log.push(format!("{more} text nodes, some of them comments"));
                    n = pool.len();
                    cx.label("very many children");
                }
                let s = &mut cx.src;
                let mut ts = vec![];
                let mut ms: Vec<M> = vec![];
                let mut from = vec![];
                for _ in 0..n {
                    let i = s.below(pool.len());
                    let (t, m) = pool.swap_remove(i);
                    from.push(m.id);
                    ts.push(t);
                    ms.push(m);
                }
                let note = s.below(4);
                log.push(format!("branch of nodes {from:?}, notation b{note}, id {next}"));
                let t = T::new_branch(&notes.branch[note], ts);
                let last = ms.iter().rposition(|m| !m.comment);
                for (i, m) in ms.iter_mut().enumerate() {
                    m.sep = Some(!m.comment && Some(i) < last);
                    cx.label_if(m.sep == Some(true), "a child needs a separator");
                    nontrivial |= m.sep == Some(true);
                }
                cx.label_if(ms.iter().any(|m| m.comment), "a child is a comment");
                let m = M { id: next, note, text: None, kids: ms, comment: false, sep: Some(false), style: PLAIN, overrides: vec![] };
                next += 1;
                pool.push((t, m));
            }
            2 => {
                let (t, mut m) = pool.swap_remove(k);
                log.push(format!("node {} becomes a comment", m.id));
                let t = t.into_comment();
                m.comment = true;
                pool.push((t, m));
            }
            3 => {
                let (t, mut m) = pool.swap_remove(k);
                m.style = gen_look(s);
                log.push(format!("node {} gets style {:?}", m.id, m.style));
                let t = t.with_style(mk(m.style));
                pool.push((t, m));
                nontrivial = true;
            }
            4 => {
                let (t, mut m) = pool.swap_remove(k);
                let l = *s.pick(&["custom", "red", "bold_red", "cyan", "bold_blue", "yellow", "open"]);
                let st = gen_look(s);
                log.push(format!("node {} gets style {st:?} for label {l}", m.id));
                cx.label_if(m.overrides.iter().any(|o| o.0 == l), "a label is overridden twice");
                m.overrides.push((l, st));
                let t = t.with_style_override(l, mk(st));
                pool.push((t, m));
            }
            5 => {
                // Take a branch apart; its children go back to the pool.
                if pool[k].1.text.is_some() {
                    continue;
                }
                let (t, m) = pool.swap_remove(k);
                log.push(format!("take node {} apart", m.id));
                let Contents::Children(c) = t.contents else { return Err("branch has no children".into()) };
                if !c.is_empty() {
                    cx.label("children reused from a branch taken apart");
                }
                for (t, mut m) in c.into_iter().zip(m.kids) {
                    m.sep = None;
                    pool.push((t, m));
                }
            }
            6 => {
                // A clone is the same tree; only one of them stays.
                let c = pool[k].0.clone();
                log.push(format!("clone node {}", pool[k].1.id));
                pool[k].0 = c;
            }
            _ => {
                // Another thread counts for itself.
                if s.chance(1, 8) {
                    let n = s.below(4);
                    let ids = std::thread::spawn(move || {
                        (0..n).map(|_| json_null().id).collect::<Vec<_>>()
                    })
                    .join()
                    .map_err(|_| "another thread panicked".to_string())?;
                    if ids != (0..n as u32).collect::<Vec<_>>() {
                        return Err(format!("a new thread's ids are {ids:?}"));
                    }
                    cx.label("another thread");
                } else if s.chance(1, 3) {
                    log.push("reset ids, drop every node".into());
                    pool.clear();
                    T::reset_id();
                    next = 0;
                }
            }
        }
        for (t, m) in &pool {
            let probe = LABELS[cx.src.below(LABELS.len())];
            if let Err(e) = compare(t, m, probe) {
                return Err(format!("{e}\nafter:\n  {}", log.join("\n  ")));
            }
        }
    }
    // Combining and naming styles.
    let (a, b) = (gen_look(&mut cx.src), gen_look(&mut cx.src));
    let c = look(&<BasicStyle as StyleTrait>::combine(&mk(a), &mk(b)));
    if c != over(a, b) {
        return Err(format!("combining outer {a:?} with inner {b:?} gives {c:?}"));
    }
    if look(&mk(a).bold()) != (a.0, true) || look(&mk(a).color(COLORS[b.0])) != (b.0, a.1) {
        return Err(format!("bold or color applied to {a:?} with {b:?}"));
    }
    if look(&BasicStyle::new()) != PLAIN || look(&BasicStyle::default()) != PLAIN {
        return Err("a new style is not plain white".into());
    }
    let l = LABELS[cx.src.below(LABELS.len())];
    if look(&BasicStyle::from(l)) != label_look(l) {
        return Err(format!("label {l:?} names {:?}", look(&BasicStyle::from(l))));
    }
    // Printing.
    cx.label_if(pool.iter().any(|p| p.1.size() > 4), "a tree of more than 4 nodes");
    for (t, m) in pool.iter().take(3) {
        let mut want = Chars::new();
        expect(m, None, &mut want);
        let (lines, _, _) = print_all(t, *cx.src.pick(&[80, 0, 10]), &[], FocusTarget::Start)
            .map_err(|e| format!("{e}\nafter:\n  {}", log.join("\n  ")))?;
        cx.evals += 1;
        if lines != vec![want.clone()] {
            return Err(format!(
                "node {} prints\n    {}\n  expected\n    {}\nafter:\n  {}",
                m.id,
                show_all(&lines).trim(),
                show(&want),
                log.join("\n  ")
            ));
        }
    }
    cx.describe(|| log.join("\n"));
    Ok(nontrivial)
}
