//! The document type the checks print: an arena of nodes with instrumented
//! `PrettyDoc` implementations.

use partial_pretty_printer::{Notation, PrettyDoc, Style, ValidNotation};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Lbl(pub u8);
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cnd(pub u8);

pub type N = Notation<Lbl, Cnd>;
pub type VN = ValidNotation<Lbl, Cnd>;

/// Styles form a free monoid: the list of atoms, outermost first.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Sty(pub Vec<u32>);

impl Style for Sty {
    fn combine(outer: &Sty, inner: &Sty) -> Sty {
        let mut v = outer.0.clone();
        v.extend_from_slice(&inner.0);
        Sty(v)
    }
}

pub const ROOT_ATOM: u32 = 1;
pub fn node_atom(n: usize) -> u32 {
    1000 + n as u32
}
pub fn lookup_atom(n: usize, l: &Lbl) -> u32 {
    10_000_000 + (n as u32) * 32 + l.0 as u32
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DErr {
    Injected(u64),
    Fuel,
    Contract(String),
}
impl fmt::Display for DErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DErr {}

#[derive(Clone, Debug)]
pub enum Kind {
    Text(String),
    Kids(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub note: usize,
    pub kind: Kind,
    pub conds: u8,
    pub id: u64,
    pub styled: bool,
    pub parent: usize,
    pub index: usize,
}

pub struct Inst {
    pub calls: Cell<u64>,
    pub fuel: Cell<u64>,
    pub fail_at: Cell<u64>,
    pub contract: RefCell<Option<String>>,
    pub track: Cell<bool>,
    pub touched: RefCell<Vec<u32>>,
}

impl Default for Inst {
    fn default() -> Inst {
        Inst {
            calls: Cell::new(0),
            fuel: Cell::new(20_000_000),
            fail_at: Cell::new(u64::MAX),
            contract: RefCell::new(None),
            track: Cell::new(false),
            touched: RefCell::new(Vec::new()),
        }
    }
}

pub struct Doc {
    pub raw: Vec<N>,
    pub valid: Vec<VN>,
    pub labels: Vec<u64>,
    pub conds: Vec<u64>,
    pub nodes: Vec<Node>,
    /// Whether unstyled lookups should yield the empty style.
    pub plain: bool,
    pub inst: Inst,
}

pub fn scan(n: &N, labels: &mut u64, conds: &mut u64) {
    use Notation::*;
    match n {
        Flat(a) => scan(a, labels, conds),
        Indent(_, l, a) => {
            if let Some(l) = l {
                *labels |= 1 << l.0;
            }
            scan(a, labels, conds)
        }
        Style(l, a) => {
            *labels |= 1 << l.0;
            scan(a, labels, conds)
        }
        Concat(a, b) | Choice(a, b) => {
            scan(a, labels, conds);
            scan(b, labels, conds)
        }
        Check(c, _, a, b) => {
            *conds |= 1 << c.0;
            scan(a, labels, conds);
            scan(b, labels, conds)
        }
        Count { zero, one, many } => {
            scan(zero, labels, conds);
            scan(one, labels, conds);
            scan(many, labels, conds)
        }
        Fold { first, join } => {
            scan(first, labels, conds);
            scan(join, labels, conds)
        }
        Empty | Newline | EndOfLine | Literal(_) | Text | Child(_) | FocusMark | Left | Right => (),
    }
}

impl Doc {
    /// `valid` is obtained by `validate()`; when the reference says the
    /// notation is flawless but the library rejects it (C09's business), the
    /// library's test-only constructor is used so that other checks still run.
    pub fn new(raw: Vec<N>, mut nodes: Vec<Node>, plain: bool) -> Doc {
        let valid = raw
            .iter()
            .map(|n| match n.clone().validate() {
                Ok(v) => v,
                Err(_) => n.clone().cheat_validation_for_testing_only(),
            })
            .collect();
        let mut labels = Vec::new();
        let mut conds = Vec::new();
        for n in &raw {
            let (mut l, mut c) = (0, 0);
            scan(n, &mut l, &mut c);
            labels.push(l);
            conds.push(c);
        }
        // fill in parents
        for i in 0..nodes.len() {
            if let Kind::Kids(ks) = nodes[i].kind.clone() {
                for (j, k) in ks.iter().enumerate() {
                    nodes[*k].parent = i;
                    nodes[*k].index = j;
                }
            }
        }
        Doc { raw, valid, labels, conds, nodes, plain, inst: Inst::default() }
    }

    pub fn reset(&self) {
        self.inst.calls.set(0);
        self.inst.fail_at.set(u64::MAX);
        *self.inst.contract.borrow_mut() = None;
        self.inst.touched.borrow_mut().clear();
    }

    pub fn root(&self) -> D<'_> {
        D { doc: self, n: 0 }
    }
    pub fn root_default(&self) -> DD<'_> {
        DD { doc: self, n: 0 }
    }

    pub fn kids(&self, n: usize) -> Option<&[usize]> {
        match &self.nodes[n].kind {
            Kind::Text(_) => None,
            Kind::Kids(k) => Some(k),
        }
    }

    pub fn path_to(&self, mut n: usize) -> Vec<usize> {
        let mut p = Vec::new();
        while n != 0 {
            p.push(self.nodes[n].index);
            n = self.nodes[n].parent;
        }
        p.reverse();
        p
    }

    fn enter(&self, n: usize) -> Result<(), DErr> {
        let c = self.inst.calls.get();
        self.inst.calls.set(c + 1);
        if self.inst.track.get() {
            self.inst.touched.borrow_mut().push(n as u32);
        }
        if c == self.inst.fail_at.get() {
            return Err(DErr::Injected(c));
        }
        if c >= self.inst.fuel.get() {
            return Err(DErr::Fuel);
        }
        Ok(())
    }

    fn breach(&self, msg: String) -> DErr {
        let mut c = self.inst.contract.borrow_mut();
        if c.is_none() {
            *c = Some(msg.clone());
        }
        DErr::Contract(msg)
    }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        for (i, n) in self.raw.iter().enumerate() {
            s.push_str(&format!("  notation {i}: {n}   // {n:?}\n"));
        }
        for (i, n) in self.nodes.iter().enumerate() {
            if i > 60 {
                s.push_str(&format!("  ... {} nodes\n", self.nodes.len()));
                break;
            }
            s.push_str(&format!(
                "  node {i} (id {}): notation {}, conds {:b}, {}{:?}\n",
                n.id,
                n.note,
                n.conds,
                if n.styled { "styled, " } else { "" },
                n.kind
            ));
        }
        s
    }
}

/// Common interface of the two document types.
pub trait Pd<'d>:
    PrettyDoc<'d, Id = u64, Style = Sty, StyleLabel = Lbl, Condition = Cnd, Error = DErr>
{
}

#[derive(Clone, Copy)]
pub struct D<'d> {
    pub doc: &'d Doc,
    pub n: usize,
}
/// Same document, relying on the trait's default child operations.
#[derive(Clone, Copy)]
pub struct DD<'d> {
    pub doc: &'d Doc,
    pub n: usize,
}

macro_rules! base_impl {
    ($T:ident) => {
        type Id = u64;
        type Style = Sty;
        type StyleLabel = Lbl;
        type Condition = Cnd;
        type Error = DErr;

        fn id(self) -> Result<u64, DErr> {
            self.doc.enter(self.n)?;
            Ok(self.doc.nodes[self.n].id)
        }
        fn notation(self) -> Result<&'d VN, DErr> {
            self.doc.enter(self.n)?;
            Ok(&self.doc.valid[self.doc.nodes[self.n].note])
        }
        fn condition(self, c: &Cnd) -> Result<bool, DErr> {
            self.doc.enter(self.n)?;
            let node = &self.doc.nodes[self.n];
            let own = self.doc.conds[node.note];
            let par = self.doc.conds[self.doc.nodes[node.parent].note];
            if (own | par) & (1 << c.0) == 0 {
                return Err(self.doc.breach(format!(
                    "condition {c:?} asked of node {}, but neither its notation nor its parent's checks it",
                    self.n
                )));
            }
            Ok(node.conds & (1 << c.0) != 0)
        }
        fn lookup_style(self, l: Lbl) -> Result<Sty, DErr> {
            self.doc.enter(self.n)?;
            let node = &self.doc.nodes[self.n];
            if self.doc.labels[node.note] & (1 << l.0) == 0 {
                return Err(self.doc.breach(format!(
                    "style {l:?} looked up in node {}, whose notation does not use it",
                    self.n
                )));
            }
            if self.doc.plain {
                return Ok(Sty::default());
            }
            Ok(Sty(vec![lookup_atom(self.n, &l)]))
        }
        fn node_style(self) -> Result<Sty, DErr> {
            self.doc.enter(self.n)?;
            if self.doc.nodes[self.n].styled {
                Ok(Sty(vec![node_atom(self.n)]))
            } else {
                Ok(Sty::default())
            }
        }
        fn num_children(self) -> Result<Option<usize>, DErr> {
            self.doc.enter(self.n)?;
            Ok(self.doc.kids(self.n).map(|k| k.len()))
        }
        fn unwrap_text(self) -> Result<&'d str, DErr> {
            self.doc.enter(self.n)?;
            match &self.doc.nodes[self.n].kind {
                Kind::Text(t) => Ok(t),
                Kind::Kids(_) => Err(self
                    .doc
                    .breach(format!("unwrap_text on node {}, which has no text", self.n))),
            }
        }
        fn unwrap_child(self, i: usize) -> Result<Self, DErr> {
            self.doc.enter(self.n)?;
            match self.doc.kids(self.n) {
                Some(k) if i < k.len() => Ok($T { doc: self.doc, n: k[i] }),
                k => Err(self.doc.breach(format!(
                    "unwrap_child({i}) on node {}, which has {:?} children",
                    self.n,
                    k.map(|k| k.len())
                ))),
            }
        }
    };
}

impl<'d> PrettyDoc<'d> for D<'d> {
    base_impl!(D);
    fn unwrap_last_child(self) -> Result<Self, DErr> {
        self.doc.enter(self.n)?;
        match self.doc.kids(self.n) {
            Some(k) if !k.is_empty() => Ok(D { doc: self.doc, n: k[k.len() - 1] }),
            k => Err(self.doc.breach(format!(
                "unwrap_last_child on node {}, which has {:?} children",
                self.n,
                k.map(|k| k.len())
            ))),
        }
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, DErr> {
        self.doc.enter(self.n)?;
        match self.doc.kids(parent.n) {
            Some(k) if i + 1 < k.len() && k[i + 1] == self.n => Ok(D { doc: self.doc, n: k[i] }),
            k => Err(self.doc.breach(format!(
                "unwrap_prev_sibling(parent {}, {i}) on node {}: not that parent's child {} ({:?} children)",
                parent.n,
                self.n,
                i + 1,
                k.map(|k| k.len())
            ))),
        }
    }
}
impl<'d> PrettyDoc<'d> for DD<'d> {
    base_impl!(DD);
}

/// The same document with no styles to speak of, and ids that all have the same hash.
#[derive(Clone, Copy)]
pub struct DU<'d>(pub D<'d>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Same(u64);
impl std::hash::Hash for Same {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl<'d> PrettyDoc<'d> for DU<'d> {
    type Id = Same;
    type Style = ();
    type StyleLabel = Lbl;
    type Condition = Cnd;
    type Error = DErr;
    fn id(self) -> Result<Same, DErr> {
        self.0.id().map(Same)
    }
    fn notation(self) -> Result<&'d VN, DErr> {
        self.0.notation()
    }
    fn condition(self, c: &Cnd) -> Result<bool, DErr> {
        self.0.condition(c)
    }
    fn lookup_style(self, l: Lbl) -> Result<(), DErr> {
        self.0.lookup_style(l).map(|_| ())
    }
    fn node_style(self) -> Result<(), DErr> {
        self.0.node_style().map(|_| ())
    }
    fn num_children(self) -> Result<Option<usize>, DErr> {
        self.0.num_children()
    }
    fn unwrap_text(self) -> Result<&'d str, DErr> {
        self.0.unwrap_text()
    }
    fn unwrap_child(self, i: usize) -> Result<Self, DErr> {
        self.0.unwrap_child(i).map(DU)
    }
}

impl<'d> Pd<'d> for D<'d> {}
impl<'d> Pd<'d> for DD<'d> {}
