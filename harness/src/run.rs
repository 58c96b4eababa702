//! Running the real printer and turning its output into comparable values.

use crate::doc::{DErr, Pd, Sty};
use crate::model::{norm_add, width_of, Norm};
use partial_pretty_printer::{
    pretty_print, FocusTarget, FocusedLine, Line, PrettyDoc, PrintingError, Segment,
};

pub type PErr = PrintingError<DErr>;

#[derive(Clone, Debug)]
pub struct LSeg {
    pub s: String,
    pub w: u16,
    pub sty: Vec<u32>,
}

pub type LLine = Vec<LSeg>;

pub fn lsegs<'d, P: PrettyDoc<'d, Style = Sty>>(segs: &[Segment<'d, P>]) -> LLine {
    segs.iter()
        .map(|s| LSeg { s: s.str.to_string(), w: s.width, sty: s.style.0.clone() })
        .collect()
}

pub fn norm(l: &[LSeg]) -> Norm {
    let mut n = Norm::new();
    for s in l {
        norm_add(&mut n, &s.s, &s.sty);
    }
    n
}

pub fn text_of(l: &[LSeg]) -> String {
    l.iter().map(|s| s.s.as_str()).collect()
}

pub fn norm_text(n: &Norm) -> String {
    n.iter().map(|s| s.0.as_str()).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target {
    Start,
    End,
    Mark,
    Text(usize),
}

impl Target {
    pub fn real(self) -> FocusTarget {
        match self {
            Target::Start => FocusTarget::Start,
            Target::End => FocusTarget::End,
            Target::Mark => FocusTarget::Mark,
            Target::Text(n) => FocusTarget::Text(n),
        }
    }
}

pub struct Printed {
    /// Nearest line first.
    pub up: Vec<LLine>,
    pub up_err: Option<PErr>,
    pub left: LLine,
    pub right: LLine,
    pub down: Vec<LLine>,
    pub down_err: Option<PErr>,
    /// An iterator yielded something after reporting its end.
    pub unfused: bool,
}

impl Printed {
    pub fn focused(&self) -> LLine {
        let mut l = self.left.clone();
        l.extend(self.right.iter().cloned());
        l
    }
    /// All lines, top to bottom.
    pub fn lines(&self) -> Vec<LLine> {
        let mut v: Vec<LLine> = self.up.iter().rev().cloned().collect();
        v.push(self.focused());
        v.extend(self.down.iter().cloned());
        v
    }
}

/// How the two iterators are consumed.
#[derive(Clone, Debug)]
pub enum Sched {
    DownUp,
    UpDown,
    /// true = up; afterwards both are drained.
    Mix(Vec<bool>),
    /// true = up; afterwards nothing more is pulled.
    Only(Vec<bool>),
}

pub const MAX_LINES: usize = 1_000_000;

#[allow(clippy::too_many_arguments)]
pub fn print<'d, P: Pd<'d>>(
    root: P,
    width: u16,
    path: &[usize],
    target: Target,
    root_style: bool,
    sched: &Sched,
) -> Result<Printed, PErr> {
    let rs = Sty(vec![crate::doc::ROOT_ATOM]);
    let rs = if root_style { Some(&rs) } else { None };
    let (mut up, focused, mut down) = pretty_print(root, width, path, target.real(), rs)?;
    let mut p = Printed {
        up: vec![],
        up_err: None,
        left: lsegs(&focused.left_segments),
        right: lsegs(&focused.right_segments),
        down: vec![],
        down_err: None,
        unfused: false,
    };
    let mut up_done = false;
    let mut down_done = false;
    {
        let mut pull = |is_up: bool, p: &mut Printed| -> bool {
            let (done, item) = if is_up {
                (up_done, up.next())
            } else {
                (down_done, down.next())
            };
            if done {
                let errored = if is_up { p.up_err.is_some() } else { p.down_err.is_some() };
                if item.is_some() && !errored {
                    p.unfused = true;
                }
                return false;
            }
            match item {
                None => {
                    if is_up {
                        up_done = true
                    } else {
                        down_done = true
                    }
                    false
                }
                Some(Err(e)) => {
                    if is_up {
                        up_done = true;
                        p.up_err = Some(e);
                    } else {
                        down_done = true;
                        p.down_err = Some(e);
                    }
                    false
                }
                Some(Ok(line)) => {
                    let l = lsegs(&line.segments);
                    if is_up {
                        p.up.push(l)
                    } else {
                        p.down.push(l)
                    }
                    p.up.len() + p.down.len() < MAX_LINES
                }
            }
        };
        match sched {
            Sched::DownUp => {
                while pull(false, &mut p) {}
                while pull(true, &mut p) {}
            }
            Sched::UpDown => {
                while pull(true, &mut p) {}
                while pull(false, &mut p) {}
            }
            Sched::Mix(v) => {
                for b in v {
                    pull(*b, &mut p);
                }
                while pull(true, &mut p) {}
                while pull(false, &mut p) {}
                // exhausted iterators stay exhausted
                pull(true, &mut p);
                pull(false, &mut p);
                pull(true, &mut p);
            }
            Sched::Only(v) => {
                for b in v {
                    pull(*b, &mut p);
                }
            }
        }
    }
    Ok(p)
}

/// Check the accessors of a focused line and the line made from it.
pub fn check_focused<'d, P: Pd<'d>>(f: FocusedLine<'d, P>) -> Result<LLine, String> {
    let left: String = f.left_segments.iter().map(|s| s.str).collect();
    let right: String = f.right_segments.iter().map(|s| s.str).collect();
    let lw: u64 = f.left_segments.iter().map(|s| s.width as u64).sum();
    let rw: u64 = f.right_segments.iter().map(|s| s.width as u64).sum();
    if f.to_left_string() != left {
        return Err(format!("left string {:?}, segments say {left:?}", f.to_left_string()));
    }
    if f.to_right_string() != right {
        return Err(format!("right string {:?}, segments say {right:?}", f.to_right_string()));
    }
    if f.to_string() != format!("{left}{right}") {
        return Err(format!("string {:?}, segments say {left:?}+{right:?}", f.to_string()));
    }
    let cap = |w: u64| w.min(65535);
    if f.left_width() as u64 != cap(lw) || f.right_width() as u64 != cap(rw) {
        return Err(format!(
            "left/right widths {}/{}, segments say {lw}/{rw}",
            f.left_width(),
            f.right_width()
        ));
    }
    if f.width() as u64 != cap(lw + rw) {
        return Err(format!("width {}, segments say {}", f.width(), lw + rw));
    }
    let mut all = lsegs(&f.left_segments);
    all.extend(lsegs(&f.right_segments));
    let l: Line<'d, P> = Line::from(f);
    let got = lsegs(&l.segments);
    let show = |l: &LLine| l.iter().map(|s| (s.s.clone(), s.w, s.sty.clone())).collect::<Vec<_>>();
    if show(&got) != show(&all) {
        return Err(format!("converting the focused line gave {:?}, expected {:?}", show(&got), show(&all)));
    }
    check_line(&l)
}

pub fn check_line<'d, P: Pd<'d>>(l: &Line<'d, P>) -> Result<LLine, String> {
    let s: String = l.segments.iter().map(|s| s.str).collect();
    let w: u64 = l.segments.iter().map(|s| s.width as u64).sum();
    if l.to_string() != s {
        return Err(format!("line string {:?}, segments say {s:?}", l.to_string()));
    }
    if l.width() as u64 != w.min(65535) {
        return Err(format!("line width {}, segments say {w}", l.width()));
    }
    if s.contains('\n') {
        return Err(format!("line {s:?} contains a line break"));
    }
    Ok(lsegs(&l.segments))
}

pub fn seg_width_ok(s: &LSeg) -> bool {
    s.w as u64 == width_of(&s.s).min(65535)
}
