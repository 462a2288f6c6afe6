//! Abstract values and abstract states.
use crate::lang::{self, CSet, L};
use rustc_middle::mir::BasicBlock;
use rustc_middle::ty::{Instance, Ty};
use std::rc::Rc;

pub type BId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum MV {
    C(u128),
    /// value = code point + k (wrapping at the width of the value)
    Lin(i64),
}
/// A total function of the char/byte stored in one segment.
pub type PMap = Rc<Vec<(u32, u32, MV)>>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct LinLen {
    pub k: i64,
    /// (tape, from boundary, to boundary, coefficient)
    pub t: Vec<(u8, BId, BId, i32)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Piece {
    /// bytes of tape t between two boundaries
    T(u8, BId, BId),
    C(Rc<Vec<u8>>, u32, u32),
    /// UTF-8 encoding of a char that is a function of the char in a segment
    Ch(u8, BId, PMap),
    /// one byte computed from the char/byte in a segment
    By(u8, BId, PMap),
    /// text whose content is not tracked
    Any,
    /// one character that is not tracked
    AnyChar,
    /// everything streamed to the output so far
    Out,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Rope(pub Rc<Vec<Piece>>);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Root {
    Local(u32, u32),
    Heap(u32),
    Const(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(u32),
    I(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub root: Root,
    pub path: Rc<Vec<PE>>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val<'tcx> {
    Undef,
    C(u128, u8),
    Map(u8, BId, PMap, u8),
    /// sum of functions of different segments and a constant, no two of which share a bit
    Sum(Rc<Vec<(u8, BId, PMap)>>, u128, u8),
    Len(Rc<LinLen>),
    Top(u8),
    /// some number that is at least this (a counter after widening)
    Ge(u64),
    Atom(u32, bool),
    Agg(u32, Rc<Vec<Val<'tcx>>>),
    Ref(Ptr),
    Slice(Ptr, u32, u32),
    Str(Rope),
    /// String / Vec<u8> contents
    Buf(Rope),
    Fn(Instance<'tcx>),
    Dyn(Rc<Val<'tcx>>, Ty<'tcx>),
    /// fmt argument: value pointer and formatting function
    FmtArg(Rc<Val<'tcx>>, Instance<'tcx>, Ty<'tcx>),
    FmtArgs(Rc<Vec<FmtItem<'tcx>>>),
    /// an output sink: 0 = the root output channel, otherwise wraps a writer
    Sink(Option<Rc<(Val<'tcx>, Ty<'tcx>)>>, u64),
    Opaque(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FmtItem<'tcx> {
    Lit(Rope),
    Arg(Val<'tcx>, Instance<'tcx>, Ty<'tcx>, u64),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Part {
    L(L),
    Var(u32, bool),
    Hole(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Seg {
    pub parts: Vec<Part>,
    /// single char (byte=false) or single byte (byte=true) segment with this value set
    pub ch: Option<(CSet, bool)>,
    pub kept: bool,
    pub tagged: bool,
    pub born: u32,
}
impl Seg {
    pub fn new(l: L) -> Seg {
        Seg { parts: vec![Part::L(l)], ch: None, kept: false, tagged: false, born: 0 }
    }
    pub fn is_open(&self) -> bool {
        self.parts.iter().any(|p| !matches!(p, Part::L(_)))
    }
    pub fn vars(&self) -> Vec<u32> {
        self.parts.iter().filter_map(|p| if let Part::Var(v, _) = p { Some(*v) } else { None }).collect()
    }
}
pub fn byte_set_lang(s: &CSet) -> L {
    lang::syms(s.iter().map(|&(a, b)| (a as u16, b as u16)).collect())
}
pub fn ch_lang(c: &(CSet, bool)) -> L {
    if c.1 {
        byte_set_lang(&c.0)
    } else {
        lang::cset_lang(&c.0)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tape {
    pub b: Vec<BId>,
    pub s: Vec<Seg>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FrameKind<'tcx> {
    Body,
    /// sequence of formatting items written to the sink pointed to by the pointer
    Seq(Rc<Vec<FmtItem<'tcx>>>, u32, Val<'tcx>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame<'tcx> {
    pub inst: Instance<'tcx>,
    pub kind: FrameKind<'tcx>,
    pub bb: BasicBlock,
    pub stmt: usize,
    pub locals: Vec<Val<'tcx>>,
    /// where the caller wants the result
    pub dest: Option<Ptr>,
    pub target: Option<BasicBlock>,
    pub loops: Vec<(u32, u32)>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct State<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub heap: Vec<Val<'tcx>>,
    pub tapes: Vec<Tape>,
    pub nextb: BId,
    pub clock: u32,
    /// streaming output position on tape 0 (None: outputs are not tracked)
    pub outpos: Option<(u8, BId)>,
    pub outerr: bool,
    /// pieces written so far in pieces mode
    pub out: Rope,
    pub imprecise: bool,
    pub assume: Vec<(u32, bool)>,
    pub note: Rc<Vec<String>>,
}

pub fn c_bool<'tcx>(b: bool) -> Val<'tcx> {
    Val::C(b as u128, 1)
}
pub fn usz<'tcx>(n: u64) -> Val<'tcx> {
    Val::C(n as u128, 8)
}
pub fn unit<'tcx>() -> Val<'tcx> {
    Val::Agg(0, Rc::new(vec![]))
}
pub fn agg<'tcx>(v: u32, f: Vec<Val<'tcx>>) -> Val<'tcx> {
    Val::Agg(v, Rc::new(f))
}
pub fn some<'tcx>(v: Val<'tcx>) -> Val<'tcx> {
    agg(1, vec![v])
}
pub fn none<'tcx>() -> Val<'tcx> {
    agg(0, vec![])
}
pub fn ok<'tcx>(v: Val<'tcx>) -> Val<'tcx> {
    agg(0, vec![v])
}
pub fn err<'tcx>(v: Val<'tcx>) -> Val<'tcx> {
    agg(1, vec![v])
}
pub fn trunc(v: u128, sz: u8) -> u128 {
    if sz >= 16 {
        v
    } else if sz == 1 {
        v & 0xff
    } else {
        v & ((1u128 << (8 * sz as u32)) - 1)
    }
}
impl Rope {
    pub fn new(v: Vec<Piece>) -> Rope {
        let mut r: Vec<Piece> = vec![];
        let mut first_empty: Option<Piece> = None;
        for p in v {
            match &p {
                Piece::T(_, a, b) if a == b => {
                    if first_empty.is_none() {
                        first_empty = Some(p);
                    }
                    continue;
                }
                Piece::C(_, _, 0) => continue,
                _ => {}
            }
            let mut merged = None;
            if let Some(l) = r.last() {
                match (l, &p) {
                    (Piece::T(t1, a, b), Piece::T(t2, c, d)) if t1 == t2 && b == c => merged = Some(Piece::T(*t1, *a, *d)),
                    (Piece::C(x, xo, xl), Piece::C(y, yo, yl)) => {
                        let mut w = x[*xo as usize..(*xo + *xl) as usize].to_vec();
                        w.extend_from_slice(&y[*yo as usize..(*yo + *yl) as usize]);
                        let n = w.len() as u32;
                        merged = Some(Piece::C(Rc::new(w), 0, n));
                    }
                    (Piece::Any, Piece::Any) => merged = Some(Piece::Any),
                    _ => {}
                }
            }
            match merged {
                Some(m) => {
                    r.pop();
                    r.push(m);
                }
                None => r.push(p),
            }
        }
        if r.is_empty() {
            if let Some(p) = first_empty {
                r.push(p);
            }
        }
        Rope(Rc::new(r))
    }
    pub fn konst(b: &[u8]) -> Rope {
        Rope::new(vec![Piece::C(Rc::new(b.to_vec()), 0, b.len() as u32)])
    }
    pub fn cat(&self, o: &Rope) -> Rope {
        let mut v = (*self.0).clone();
        v.extend(o.0.iter().cloned());
        Rope::new(v)
    }
    pub fn as_const(&self) -> Option<Vec<u8>> {
        let mut r = vec![];
        for p in self.0.iter() {
            match p {
                Piece::C(b, o, n) => r.extend_from_slice(&b[*o as usize..(*o + *n) as usize]),
                Piece::T(_, a, b) if a == b => {}
                _ => return None,
            }
        }
        Some(r)
    }
}
impl LinLen {
    pub fn c(k: i64) -> LinLen {
        LinLen { k, t: vec![] }
    }
    pub fn add(&self, o: &LinLen, sign: i64) -> LinLen {
        let mut r = LinLen { k: self.k + sign * o.k, t: self.t.clone() };
        for &(t, a, b, c) in &o.t {
            r.t.push((t, a, b, c * sign as i32));
        }
        r
    }
}
