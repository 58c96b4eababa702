//! C09 validation, C17 serialization.

use crate::doc::{Cnd, Doc, Lbl, N, VN};
use crate::engine::{Cx, Res};
use crate::gen::*;
use crate::run::*;
use crate::src::Src;
use crate::valid::{flaws, Flaw};
use partial_pretty_printer::{CheckPos, Notation, NotationError, ValidNotation};
use serde::{Deserialize, Serialize};

pub fn size(n: &N) -> usize {
    use Notation::*;
    1 + match n {
        Flat(a) | Indent(_, _, a) | Style(_, a) => size(a),
        Concat(a, b) | Choice(a, b) | Check(_, _, a, b) => size(a) + size(b),
        Count { zero, one, many } => size(zero) + size(one) + size(many),
        Fold { first, join } => size(first) + size(join),
        Empty | Newline | EndOfLine | Literal(_) | Text | Child(_) | FocusMark | Left | Right => 0,
    }
}

/// Apply `f` to the k-th part (counted front to back).
pub fn at(n: &N, k: &mut usize, f: &mut dyn FnMut(&N) -> N) -> N {
    use Notation::*;
    if *k == 0 {
        *k = usize::MAX;
        return f(n);
    }
    *k = k.wrapping_sub(1);
    if *k > usize::MAX / 2 {
        return n.clone();
    }
    let mut b = |x: &N| -> Box<N> { Box::new(at(x, k, f)) };
    match n {
        Flat(a) => Flat(b(a)),
        Indent(s, l, a) => Indent(s.clone(), l.clone(), b(a)),
        Style(l, a) => Style(l.clone(), b(a)),
        Concat(x, y) => {
            let x = b(x);
            Concat(x, b(y))
        }
        Choice(x, y) => {
            let x = b(x);
            Choice(x, b(y))
        }
        Check(c, p, x, y) => {
            let x = b(x);
            Check(c.clone(), p.clone(), x, b(y))
        }
        Count { zero, one, many } => {
            let zero = b(zero);
            let one = b(one);
            Count { zero, one, many: b(many) }
        }
        Fold { first, join } => {
            let first = b(first);
            Fold { first, join: b(join) }
        }
        leaf => leaf.clone(),
    }
}

fn mutate(src: &mut Src, n: &N) -> N {
    let mut k = src.below(size(n));
    at(n, &mut k, &mut |x: &N| {
        let x = x.clone();
        match src.below(14) {
            0 => gen_raw(src, 0),
            1 => gen_raw(src, 1),
            2 => cat(Notation::EndOfLine, x),
            3 => cat(x, Notation::EndOfLine),
            4 => cat(Notation::FocusMark, x),
            5 => cat(x, Notation::FocusMark),
            6 => {
                let y = gen_raw(src, 0);
                cat(x, y)
            }
            7 => {
                let y = gen_raw(src, 1);
                alt(y, x)
            }
            8 => {
                let y = gen_raw(src, 1);
                check(Cnd(0), *src.pick(&[P(0), P(1), P(2), P(3), P(4)]).pos(), x, y)
            }
            9 => {
                let y = gen_raw(src, 0);
                match src.below(3) {
                    0 => count(x, y, empty()),
                    1 => count(empty(), x, y),
                    _ => count(y, empty(), x),
                }
            }
            10 => {
                let y = gen_raw(src, 0);
                if src.chance(1, 2) {
                    fold(x, y)
                } else {
                    fold(y, x)
                }
            }
            11 => Notation::Child(*src.pick(&[0, -1, 1, -2, 5])),
            12 => empty(),
            _ => nl(),
        }
    })
}

/// (CheckPos is not Copy.)
#[derive(Clone, Copy)]
struct P(u8);
impl P {
    fn pos(self) -> Box<CheckPos> {
        Box::new(match self.0 {
            0 => CheckPos::Here,
            1 => CheckPos::Child(0),
            2 => CheckPos::LeftChild,
            3 => CheckPos::RightChild,
            _ => CheckPos::Child(-2),
        })
    }
}

fn gen_any(src: &mut Src) -> N {
    let mut n = match src.weighted(&[3, 4]) {
        0 => {
            let d = src.range(0, 4);
            gen_raw(src, d)
        }
        _ => {
            let shape = gen_shape(src);
            gen_notation(src, &STD, shape)
        }
    };
    let k = src.below(3);
    for _ in 0..k {
        n = mutate(src, &n);
    }
    n
}

fn as_flaw(e: &NotationError) -> Flaw {
    use NotationError::*;
    match e {
        LeftOutsideJoin => Flaw::LeftOutsideJoin,
        RightOutsideJoin => Flaw::RightOutsideJoin,
        CheckPosLeftOutsideJoin => Flaw::CheckPosLeftOutsideJoin,
        CheckPosRightOutsideJoin => Flaw::CheckPosRightOutsideJoin,
        NestedFold => Flaw::NestedFold,
        NestedCount => Flaw::NestedCount,
        CountZeroChild => Flaw::CountZeroChild,
        CountOneChildIndex(i) => Flaw::CountOneChildIndex(*i),
        CountZeroCheckPosChild => Flaw::CountZeroCheckPosChild,
        CountOneCheckPosChildIndex(i) => Flaw::CountOneCheckPosChildIndex(*i),
        TextInsideCount => Flaw::TextInsideCount,
        TextInsideFold => Flaw::TextInsideFold,
        TextAfterEol => Flaw::TextAfterEol,
        MultipleFocusMarks => Flaw::MultipleFocusMarks,
    }
}

pub fn c09(cx: &mut Cx) -> Res {
    let n = gen_any(&mut cx.src);
    let want = flaws(&n);
    cx.describe(|| format!("{n}   // {n:?}\nflaws {want:?}"));
    let cxt = |e: String| format!("{e}\n  notation {n}\n  {n:?}");
    match n.clone().validate() {
        Ok(v) => {
            if !want.is_empty() {
                return Err(cxt(format!("accepted, but it has the flaws {want:?}")));
            }
            cx.label("accepted");
            if !format!("{v:?}").contains(&format!("{n:?}")) || format!("{v}") != format!("{n}") {
                return Err(cxt(format!("validation changed the notation to {v:?}")));
            }
        }
        Err(e) => {
            let f = as_flaw(&e);
            cx.label("rejected");
            if want.len() > 1 {
                cx.label("several flaws");
            }
            if !want.contains(&f) {
                return Err(cxt(format!("rejected with {e:?}, but its flaws are {want:?}")));
            }
            if let Flaw::CountOneChildIndex(i) | Flaw::CountOneCheckPosChildIndex(i) = &f {
                cx.label("error with an index");
                if !e.to_string().contains(&i.to_string()) {
                    return Err(cxt(format!("the message {:?} does not name the index {i}", e.to_string())));
                }
            }
            cx.label(match f {
                Flaw::LeftOutsideJoin => "LeftOutsideJoin",
                Flaw::RightOutsideJoin => "RightOutsideJoin",
                Flaw::CheckPosLeftOutsideJoin => "CheckPosLeftOutsideJoin",
                Flaw::CheckPosRightOutsideJoin => "CheckPosRightOutsideJoin",
                Flaw::NestedFold => "NestedFold",
                Flaw::NestedCount => "NestedCount",
                Flaw::CountZeroChild => "CountZeroChild",
                Flaw::CountOneChildIndex(_) => "CountOneChildIndex",
                Flaw::CountZeroCheckPosChild => "CountZeroCheckPosChild",
                Flaw::CountOneCheckPosChildIndex(_) => "CountOneCheckPosChildIndex",
                Flaw::TextInsideCount => "TextInsideCount",
                Flaw::TextInsideFold => "TextInsideFold",
                Flaw::TextAfterEol => "TextAfterEol",
                Flaw::MultipleFocusMarks => "MultipleFocusMarks",
            });
        }
    }
    Ok(size(&n) > 2)
}

// ---- C17 -------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
enum RichLabel {
    #[default]
    Unit,
    Tuple(i64, String),
    Struct { name: String, on: Option<bool> },
}

fn rich(n: &N) -> Notation<RichLabel, String> {
    use Notation::*;
    let b = |x: &N| Box::new(rich(x));
    let l = |l: &Lbl| match l.0 {
        0 => RichLabel::Unit,
        1 => RichLabel::Tuple(i64::MIN, "\u{0}\"字".into()),
        2 => RichLabel::Struct { name: "Left".into(), on: None },
        _ => RichLabel::Struct { name: String::new(), on: Some(true) },
    };
    let c = |c: &Cnd| ["", "Empty", "a \u{1F600}\n"][c.0 as usize % 3].to_string();
    match n {
        Empty => Empty,
        Newline => Newline,
        EndOfLine => EndOfLine,
        Literal(s) => Literal(s.clone()),
        Text => Text,
        Child(i) => Child(*i),
        FocusMark => FocusMark,
        Left => Left,
        Right => Right,
        Flat(a) => Flat(b(a)),
        Indent(s, x, a) => Indent(s.clone(), x.as_ref().map(l), b(a)),
        Style(x, a) => Style(l(x), b(a)),
        Concat(x, y) => Concat(b(x), b(y)),
        Choice(x, y) => Choice(b(x), b(y)),
        Check(k, p, x, y) => Check(c(k), p.clone(), b(x), b(y)),
        Count { zero, one, many } => Count { zero: b(zero), one: b(one), many: b(many) },
        Fold { first, join } => Fold { first: b(first), join: b(join) },
    }
}

fn round_trip<T: Serialize + for<'a> Deserialize<'a> + std::fmt::Debug>(
    n: &T,
    how: usize,
) -> Result<T, String> {
    let e = |e: serde_json::Error| format!("conversion failed: {e}");
    match how {
        0 => serde_json::from_str(&serde_json::to_string(n).map_err(e)?).map_err(e),
        1 => serde_json::from_value(serde_json::to_value(n).map_err(e)?).map_err(e),
        2 => serde_json::from_slice(&serde_json::to_vec_pretty(n).map_err(e)?).map_err(e),
        3 => {
            let mut v = Vec::new();
            serde_json::to_writer(&mut v, n).map_err(e)?;
            serde_json::from_reader(&v[..]).map_err(e)
        }
        // a binary format
        4 => {
            let mut v = Vec::new();
            ciborium::into_writer(n, &mut v).map_err(|e| format!("conversion failed: {e}"))?;
            ciborium::from_reader(&v[..]).map_err(|e| format!("conversion failed: {e}"))
        }
        _ => {
            let e = |e: ciborium::value::Error| format!("conversion failed: {e}");
            ciborium::Value::serialized(n).map_err(e)?.deserialized().map_err(e)
        }
    }
}

pub fn c17(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 3) {
        // whole documents print the same
        let doc = gen_doc(&mut cx.src, &STD);
        if repeats_too_much(&doc) {
            return cx.discard("too big for the model");
        }
        let w = gen_width(&mut cx.src, &[]);
        let how = cx.src.below(6);
        cx.label_if(how > 3, "binary format");
        cx.describe(|| format!("width {w}\n{}", doc.dump()));
        cx.label("document printed with the returned notations");
        let mut raw = Vec::new();
        for n in &doc.raw {
            raw.push(round_trip(n, how).map_err(|e| format!("{e}\n{}", doc.dump()))?);
        }
        let doc2 = Doc::new(raw, doc.nodes.clone(), doc.plain);
        let run = |d: &Doc| match print(d.root(), w, &[], Target::Start, false, &Sched::DownUp) {
            Err(e) => format!("{e:?}"),
            Ok(p) => {
                let l: Vec<_> = p
                    .lines()
                    .iter()
                    .map(|l| l.iter().map(|s| (s.s.clone(), s.sty.clone())).collect::<Vec<_>>())
                    .collect();
                format!("{l:?} {:?}", p.down_err)
            }
        };
        cx.evals += 1;
        let (a, b) = (run(&doc), run(&doc2));
        if a != b {
            return Err(format!("prints {a} before and {b} after serialization\n  width {w}\n{}", doc.dump()));
        }
        return Ok(true);
    }
    let n = gen_any(&mut cx.src);
    cx.describe(|| format!("{n:?}"));
    let how = cx.src.below(6);
    cx.label_if(how > 3, "binary format");
    let m: N = round_trip(&n, how).map_err(|e| format!("{e}\n  notation {n:?}"))?;
    if format!("{m:?}") != format!("{n:?}") {
        return Err(format!("came back different\n  before {n:?}\n  after  {m:?}"));
    }
    let v = |x: N| -> Result<VN, NotationError> { x.validate() };
    let show = |r: Result<ValidNotation<Lbl, Cnd>, NotationError>| match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("{e:?}"),
    };
    let (a, b) = (show(v(n.clone())), show(v(m)));
    if a != b {
        return Err(format!("validates differently\n  notation {n:?}\n  before {a}\n  after {b}"));
    }
    cx.evals += 1;
    let r = rich(&n);
    let s: Notation<RichLabel, String> =
        round_trip(&r, how).map_err(|e| format!("{e}\n  notation {r:?}"))?;
    if format!("{s:?}") != format!("{r:?}") {
        return Err(format!("came back different\n  before {r:?}\n  after  {s:?}"));
    }
    cx.label_if(flaws(&n).is_empty(), "valid notation");
    Ok(size(&n) > 1)
}
