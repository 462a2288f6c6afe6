//! Fixpoint exploration of a root function.
use crate::interp::*;
use crate::lang::{self, L};
use crate::tape::*;
use crate::val::*;
use rustc_middle::mir::START_BLOCK;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub const SEP: u16 = lang::MARK + 31;

#[derive(Default)]
pub struct VarInfo {
    pub prods: Vec<Vec<Part>>,
    pub set: HashSet<Vec<Part>>,
}
pub struct Opts {
    pub max_steps: u64,
    pub max_states: usize,
    pub stream: bool,
}
#[derive(Default, Clone)]
pub struct Report {
    /// label -> language over tagged bytes
    /// (first language: inputs; others: one tagged language per text in the result)
    pub outcomes: BTreeMap<String, Vec<L>>,
    /// labels reached through an over-approximation only
    pub imprecise: BTreeMap<String, Vec<L>>,
    pub undecided: Vec<String>,
    pub steps: u64,
    pub states: usize,
    pub nodes: usize,
    pub resumes: usize,
    pub functions: Vec<String>,
}
pub struct Analysis<'a, 'tcx> {
    pub w: &'a mut World<'tcx>,
    pub opts: Opts,
    seen: HashSet<State<'tcx>>,
    exact: HashMap<State<'tcx>, Vec<State<'tcx>>>,
    nodes: HashMap<State<'tcx>, u32>,
    vars: Vec<VarInfo>,
    work: Vec<State<'tcx>>,
    parked: VecDeque<(State<'tcx>, Vec<u32>)>,
    resumed: HashMap<(State<'tcx>, Vec<u32>), Vec<L>>,
    out: HashMap<(String, bool), HashSet<Vec<Vec<Part>>>>,
    /// tapes whose whole content appears in results as one symbol
    pub sym_tapes: Vec<u8>,
    undecided: BTreeMap<String, usize>,
    nresume: usize,
    nmerge: usize,
    pool: BTreeMap<Vec<u32>, Vec<State<'tcx>>>,
    pub summary: bool,
    widening: HashMap<Vec<(rustc_hir::def_id::DefId, u32)>, HashMap<Vec<u32>, Seen>>,
    pub sum_vals: HashMap<String, Val<'tcx>>,
}

/// Visits boundaries / heap cells / locals mentioned by a value.
fn visit<'tcx>(v: &Val<'tcx>, f: &mut dyn FnMut(Item)) {
    match v {
        Val::Undef | Val::C(..) | Val::Top(_) | Val::Ge(_) | Val::Atom(..) | Val::Fn(_) | Val::Opaque(_) => {}
        Val::Map(t, b, ..) => f(Item::Char(*t, *b)),
        Val::Sum(x, ..) => x.iter().for_each(|(t, b, _)| f(Item::Char(*t, *b))),
        Val::Len(l) => {
            for &(t, a, b, _) in &l.t {
                f(Item::Bound(t, a));
                f(Item::Bound(t, b));
            }
        }
        Val::Agg(_, fs) => fs.iter().for_each(|x| visit(x, f)),
        Val::Ref(p) | Val::Slice(p, ..) => f(Item::Root(p.root)),
        Val::Str(r) | Val::Buf(r) => visit_rope(r, f),
        Val::Dyn(x, _) | Val::FmtArg(x, ..) => visit(x, f),
        Val::FmtArgs(i) => visit_items(i, f),
        Val::Sink(Some(x), _) => visit(&x.0, f),
        Val::Sink(None, _) => {}
    }
}
fn visit_items<'tcx>(i: &[FmtItem<'tcx>], f: &mut dyn FnMut(Item)) {
    for x in i {
        match x {
            FmtItem::Lit(r) => visit_rope(r, f),
            FmtItem::Arg(v, ..) => visit(v, f),
        }
    }
}
fn visit_rope(r: &Rope, f: &mut dyn FnMut(Item)) {
    for p in r.0.iter() {
        match p {
            Piece::T(t, a, b) => {
                f(Item::Bound(*t, *a));
                f(Item::Bound(*t, *b));
                f(Item::Cover(*t, *a, *b));
            }
            Piece::Ch(t, b, _) | Piece::By(t, b, _) => f(Item::Char(*t, *b)),
            _ => {}
        }
    }
}
/// A map which acts uniformly on its domain is written over the full range, so that states
/// differing only in the set of possible characters can be joined.
fn widen_map(m: PMap) -> PMap {
    if let Some(&(_, _, v)) = m.first() {
        if matches!(v, MV::Lin(_)) && m.iter().all(|x| x.2 == v) {
            return Rc::new(vec![(0, 0x10FFFF, v)]);
        }
    }
    m
}
fn norm_rope(st: &State<'_>, r: Rope) -> Rope {
    if !r.0.iter().any(|p| matches!(p, Piece::Ch(..) | Piece::By(..))) {
        return r;
    }
    let f = |t: u8, b: BId, m: &PMap| -> PMap {
        match &st.seg(t, st.bidx(t, b)).ch {
            Some(c) => widen_map(Rc::new(restrict(m, &c.0))),
            None => m.clone(),
        }
    };
    Rope::new(
        r.0.iter()
            .map(|p| match p {
                Piece::Ch(t, b, m) => Piece::Ch(*t, *b, f(*t, *b, m)),
                Piece::By(t, b, m) => Piece::By(*t, *b, f(*t, *b, m)),
                p => p.clone(),
            })
            .collect(),
    )
}
/// A length written as a constant plus the length of a range is written without the constant when
/// the neighbouring segments account for it (so that loop iterations look alike).
/// Expresses a length as the length of one stretch of text, from and to boundaries that are
/// mentioned anyway if possible.
fn absorb(st: &State<'_>, l: LinLen, ropes: &HashSet<(u8, BId)>) -> LinLen {
    if l.t.is_empty() || l.t.iter().any(|x| x.3 != 1 || x.0 != l.t[0].0) {
        return l;
    }
    let t = l.t[0].0;
    let n = st.tapes[t as usize].s.len();
    let mut cf = vec![0; n];
    for &(_, a, b, _) in &l.t {
        let (i, j) = (st.bidx(t, a), st.bidx(t, b));
        if i >= j {
            return l;
        }
        cf[i..j].iter_mut().for_each(|x| *x += 1);
    }
    let fixed = |s: usize| match st.seg_minmax(t, s) {
        (a, Some(b)) if a == b => Some(a as i64),
        _ => None,
    };
    let (i, j) = (cf.iter().position(|x| *x != 0).unwrap(), cf.iter().rposition(|x| *x != 0).unwrap() + 1);
    let mut rest = l.k;
    for s in i..j {
        match (fixed(s), cf[s]) {
            (_, 1) => {}
            (Some(w), 0) => rest -= w,
            _ => return l,
        }
    }
    if rest < 0 {
        return l;
    }
    let b = &st.tapes[t as usize].b;
    let mut rights = vec![(0, j)];
    let mut sum = 0;
    for s in j..n {
        match fixed(s) {
            Some(w) => sum += w,
            None => break,
        }
        rights.push((sum, s + 1));
    }
    let mut lefts = vec![(0, i)];
    sum = 0;
    for s in (0..i).rev() {
        match fixed(s) {
            Some(w) => sum += w,
            None => break,
        }
        lefts.push((sum, s));
    }
    let mut best: Option<(u32, usize, usize)> = None;
    for &(x, p) in &lefts {
        for &(y, q) in &rights {
            if x + y == rest {
                let sc = 2 * (ropes.contains(&(t, b[p])) as u32 + ropes.contains(&(t, b[q])) as u32) + (p == i || q == j) as u32;
                if best.map_or(true, |z| sc > z.0) {
                    best = Some((sc, p, q));
                }
            }
        }
    }
    match best {
        Some((sc, p, q)) if sc > 0 => LinLen { k: 0, t: vec![(t, b[p], b[q], 1)] },
        _ => l,
    }
}
/// Boundaries of texts mentioned by a value.
fn rope_bounds<'tcx>(v: &Val<'tcx>, o: &mut HashSet<(u8, BId)>) {
    match v {
        Val::Agg(_, f) => f.iter().for_each(|x| rope_bounds(x, o)),
        Val::Str(r) | Val::Buf(r) => r.0.iter().for_each(|p| {
            if let Piece::T(t, a, b) = p {
                o.insert((*t, *a));
                o.insert((*t, *b));
            }
        }),
        Val::Dyn(x, _) | Val::FmtArg(x, ..) => rope_bounds(x, o),
        Val::Sink(Some(x), _) => rope_bounds(&x.0, o),
        _ => {}
    }
}
enum Item {
    Bound(u8, BId),
    Char(u8, BId),
    Cover(u8, BId, BId),
    Root(Root),
}
struct Ren<'m> {
    b: &'m HashMap<(u8, BId), BId>,
    h: &'m HashMap<u32, u32>,
}
impl<'m> Ren<'m> {
    fn rope(&self, r: &Rope) -> Rope {
        if r.0.iter().all(|p| matches!(p, Piece::C(..) | Piece::Any | Piece::AnyChar)) {
            return r.clone();
        }
        Rope::new(
            r.0.iter()
                .map(|p| match p {
                    Piece::T(t, a, b) => Piece::T(*t, self.b[&(*t, *a)], self.b[&(*t, *b)]),
                    Piece::Ch(t, b, m) => Piece::Ch(*t, self.b[&(*t, *b)], m.clone()),
                    Piece::By(t, b, m) => Piece::By(*t, self.b[&(*t, *b)], m.clone()),
                    p => p.clone(),
                })
                .collect(),
        )
    }
    fn ptr(&self, p: &Ptr) -> Ptr {
        match p.root {
            Root::Heap(h) => Ptr { root: Root::Heap(*self.h.get(&h).unwrap_or(&u32::MAX)), path: p.path.clone() },
            _ => p.clone(),
        }
    }
    fn items<'tcx>(&self, i: &[FmtItem<'tcx>]) -> Rc<Vec<FmtItem<'tcx>>> {
        Rc::new(
            i.iter()
                .map(|x| match x {
                    FmtItem::Lit(r) => FmtItem::Lit(self.rope(r)),
                    FmtItem::Arg(v, a, b, c) => FmtItem::Arg(self.val(v), *a, *b, *c),
                })
                .collect(),
        )
    }
    fn val<'tcx>(&self, v: &Val<'tcx>) -> Val<'tcx> {
        match v {
            Val::Undef | Val::C(..) | Val::Top(_) | Val::Ge(_) | Val::Atom(..) | Val::Fn(_) | Val::Opaque(_) => v.clone(),
            Val::Map(t, b, m, s) => Val::Map(*t, self.b[&(*t, *b)], m.clone(), *s),
            Val::Sum(x, c, s) => Val::Sum(Rc::new(x.iter().map(|(t, b, m)| (*t, self.b[&(*t, *b)], m.clone())).collect()), *c, *s),
            Val::Len(l) => Val::Len(Rc::new(LinLen { k: l.k, t: l.t.iter().map(|&(t, a, b, c)| (t, self.b[&(t, a)], self.b[&(t, b)], c)).collect() })),
            Val::Agg(n, fs) => {
                if fs.is_empty() {
                    v.clone()
                } else {
                    Val::Agg(*n, Rc::new(fs.iter().map(|x| self.val(x)).collect()))
                }
            }
            Val::Ref(p) => Val::Ref(self.ptr(p)),
            Val::Slice(p, a, b) => Val::Slice(self.ptr(p), *a, *b),
            Val::Str(r) => Val::Str(self.rope(r)),
            Val::Buf(r) => Val::Buf(self.rope(r)),
            Val::Dyn(x, t) => Val::Dyn(Rc::new(self.val(x)), *t),
            Val::FmtArg(x, i, t) => Val::FmtArg(Rc::new(self.val(x)), *i, *t),
            Val::FmtArgs(i) => Val::FmtArgs(self.items(i)),
            Val::Sink(Some(x), o) => Val::Sink(Some(Rc::new((self.val(&x.0), x.1))), *o),
            Val::Sink(None, o) => Val::Sink(None, *o),
        }
    }
}

#[derive(Default)]
struct Seen {
    consts: std::collections::BTreeSet<u64>,
    lens: HashSet<String>,
    lo: Option<u64>,
}
impl<'a, 'tcx> Analysis<'a, 'tcx> {
    pub fn new(w: &'a mut World<'tcx>, opts: Opts) -> Self {
        Analysis {
            w,
            opts,
            seen: HashSet::default(),
            exact: HashMap::default(),
            nodes: HashMap::default(),
            vars: vec![],
            work: vec![],
            parked: VecDeque::new(),
            resumed: HashMap::default(),
            out: HashMap::default(),
            sym_tapes: vec![],
            undecided: BTreeMap::new(),
            nresume: 0,
            nmerge: 0,
            pool: BTreeMap::new(),
            summary: false,
            widening: HashMap::default(),
            sum_vals: HashMap::default(),
        }
    }
    /// Garbage collection and canonical naming of a state at a block start.
    fn canon(&mut self, st: &mut State<'tcx>) {
        let nf = st.frames.len();
        // normalise lengths and maps first so that they mention as little as possible
        let mut marked: HashSet<(u32, u32)> = HashSet::default();
        let mut hmark: Vec<u32> = vec![];
        let mut hset: HashSet<u32> = HashSet::default();
        let mut queue: Vec<Val<'tcx>> = vec![];
        let mut todo: Vec<(u32, u32)> = vec![];
        for k in 0..nf {
            let f = &st.frames[k];
            if let FrameKind::Seq(items, idx, sink) = &f.kind {
                for it in items.iter().skip(*idx as usize) {
                    if let FmtItem::Arg(v, ..) = it {
                        queue.push(v.clone());
                    }
                }
                queue.push(sink.clone());
                todo.extend((0..f.locals.len() as u32).map(|l| (k as u32, l)));
                continue;
            }
            let info = self.w.body(f.inst).unwrap();
            if k + 1 == nf {
                if f.stmt == 0 {
                    todo.extend(info.live[f.bb.as_usize()].iter().map(|l| (k as u32, *l)));
                } else {
                    todo.extend((0..f.locals.len() as u32).map(|l| (k as u32, l)));
                }
            } else {
                let c = &st.frames[k + 1];
                let dest = match &c.dest {
                    Some(p) if p.path.is_empty() && p.root == Root::Local(k as u32, if let Root::Local(_, l) = p.root { l } else { 0 }) => {
                        if let Root::Local(_, l) = p.root {
                            Some(l)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(t) = c.target {
                    todo.extend(info.live[t.as_usize()].iter().filter(|l| Some(**l) != dest).map(|l| (k as u32, *l)));
                }
            }
            if let Some(p) = &f.dest {
                if let Root::Heap(h) = p.root {
                    if h != u32::MAX && hset.insert(h) {
                        hmark.push(h);
                    }
                }
                if !p.path.is_empty() {
                    if let Root::Local(a, b) = p.root {
                        todo.push((a, b));
                    }
                }
            }
        }
        todo.sort();
        for x in todo {
            if marked.insert(x) {
                queue.push(st.frames[x.0 as usize].locals[x.1 as usize].clone());
            }
        }
        // trace (order of first visit gives canonical heap numbers)
        let mut qi = 0;
        let mut hq: Vec<u32> = hmark.clone();
        let mut hi = 0;
        loop {
            if qi < queue.len() {
                let v = queue[qi].clone();
                qi += 1;
                let mut nl = vec![];
                let mut nh = vec![];
                visit(&v, &mut |i| {
                    if let Item::Root(r) = i {
                        match r {
                            Root::Local(a, b) => nl.push((a, b)),
                            Root::Heap(h) => nh.push(h),
                            _ => {}
                        }
                    }
                });
                for x in nl {
                    if (x.0 as usize) < st.frames.len() && marked.insert(x) {
                        queue.push(st.frames[x.0 as usize].locals[x.1 as usize].clone());
                    }
                }
                for h in nh {
                    if h != u32::MAX && hset.insert(h) {
                        hq.push(h);
                    }
                }
                continue;
            }
            if hi < hq.len() {
                queue.push(st.heap[hq[hi] as usize].clone());
                hi += 1;
                continue;
            }
            break;
        }
        let mut ropes: HashSet<(u8, BId)> = HashSet::default();
        for x in &marked {
            rope_bounds(&st.frames[x.0 as usize].locals[x.1 as usize], &mut ropes);
        }
        hq.iter().for_each(|h| rope_bounds(&st.heap[*h as usize], &mut ropes));
        ropes.extend(st.outpos);
        for k in 0..nf {
            for l in 0..st.frames[k].locals.len() {
                if !marked.contains(&(k as u32, l as u32)) {
                    st.frames[k].locals[l] = Val::Undef;
                } else {
                    let v = st.frames[k].locals[l].clone();
                    st.frames[k].locals[l] = self.norm_deep(st, v, &ropes);
                }
            }
        }
        let heap: Vec<Val<'tcx>> = hq.iter().map(|h| st.heap[*h as usize].clone()).collect();
        let heap: Vec<Val<'tcx>> = heap.into_iter().map(|v| self.norm_deep(st, v, &ropes)).collect();
        let hmap: HashMap<u32, u32> = hq.iter().enumerate().map(|(i, h)| (*h, i as u32)).collect();
        st.heap = heap;
        // referenced boundaries
        let mut refd: HashSet<(u8, BId)> = HashSet::default();
        let mut chars: HashSet<(u8, BId)> = HashSet::default();
        let mut cover: Vec<(u8, BId, BId)> = vec![];
        {
            let mut held = vec![];
            let mut f = |i: Item| match i {
                Item::Bound(t, b) => {
                    refd.insert((t, b));
                }
                Item::Char(t, b) => {
                    chars.insert((t, b));
                }
                Item::Cover(t, a, b) => cover.push((t, a, b)),
                _ => {}
            };
            for (k, fr) in st.frames.iter().enumerate() {
                for (l, v) in fr.locals.iter().enumerate() {
                    // texts kept together for the whole analysis (the values of variables): see below
                    match v {
                        Val::Agg(_, g) if k < 2 && st.outpos.is_some() && g.iter().filter(|x| matches!(x, Val::Str(_))).count() > 1 => held.push((k, l)),
                        v => visit(v, &mut f),
                    }
                }
                if let FrameKind::Seq(items, _, sink) = &fr.kind {
                    visit_items(items, &mut f);
                    visit(sink, &mut f);
                }
            }
            for v in &st.heap {
                visit(v, &mut f);
            }
            visit_rope(&st.out, &mut f);
            // such a text is not read again once the output has passed its beginning
            for (k, l) in held {
                let Val::Agg(n, g) = st.frames[k].locals[l].clone() else { unreachable!() };
                let g: Vec<Val<'tcx>> = g
                    .iter()
                    .map(|x| {
                        if let (Val::Str(r), Some((pt, pb))) = (x, st.outpos) {
                            if let [Piece::T(t, a, e)] = r.0[..] {
                                let (i, j, p) = (st.bidx(t, a), st.bidx(t, e), st.bidx(pt, pb));
                                let within = |b: &(u8, BId)| b.0 == t && st.bidx(t, b.1) > i && st.bidx(t, b.1) <= j;
                                if t < pt || t == pt && (i < p || i == p && (refd.iter().any(within) || chars.iter().any(within))) {
                                    return Val::Str(Rope::new(vec![Piece::Any]));
                                }
                            }
                        }
                        x.clone()
                    })
                    .collect();
                let mut f = |i: Item| match i {
                    Item::Bound(t, b) => {
                        refd.insert((t, b));
                    }
                    Item::Char(t, b) => {
                        chars.insert((t, b));
                    }
                    _ => {}
                };
                g.iter().for_each(|x| visit(x, &mut f));
                st.frames[k].locals[l] = Val::Agg(n, Rc::new(g));
            }
        }
        for &(t, b) in &chars {
            let i = st.bidx(t, b);
            refd.insert((t, b));
            let nb = st.tapes[t as usize].b[i + 1];
            refd.insert((t, nb));
        }
        // text that nothing refers to any more cannot be copied later: write behind it
        if let Some((t, b)) = st.outpos {
            let tape = &st.tapes[t as usize];
            let mut i = st.bidx(t, b);
            let covers: Vec<(usize, usize)> = cover.iter().filter(|c| c.0 == t).map(|c| (st.bidx(t, c.1), st.bidx(t, c.2))).collect();
            while i < tape.s.len() && !refd.contains(&(t, tape.b[i])) && !covers.iter().any(|c| c.0 <= i && i < c.1) {
                i += 1;
            }
            if i < tape.s.len() || refd.contains(&(t, tape.b[i])) {
                st.outpos = Some((t, tape.b[i]));
            }
        }
        if let Some(p) = st.outpos {
            refd.insert(p);
        }
        // merge segments
        let mut bmap: HashMap<(u8, BId), BId> = HashMap::default();
        let mut next = 0u32;
        for ti in 0..st.tapes.len() {
            let t = ti as u8;
            let old = st.tapes[ti].clone();
            let n = old.s.len();
            let written = match st.outpos {
                Some((u, b)) if u == t => old.b.iter().position(|x| *x == b).unwrap_or(0),
                Some((u, _)) if u > t => n + 1,
                _ => 0,
            };
            let mut nb: Vec<BId> = vec![];
            let mut ns: Vec<Seg> = vec![];
            let mut cur: Option<Seg> = None;
            next += 1;
            nb.push(next);
            bmap.insert((t, old.b[0]), next);
            for i in 0..n {
                let mut g = old.s[i].clone();
                if !(g.ch.is_some() && chars.contains(&(t, old.b[i]))) {
                    g.ch = None;
                }
                g.born = 0;
                if g.is_open() {
                } else if g.parts.len() > 1 {
                    let v: Vec<L> = g.parts.iter().map(|p| if let Part::L(l) = p { *l } else { unreachable!() }).collect();
                    g.parts = vec![Part::L(lang::concat_all(&v))];
                }
                cur = Some(match cur {
                    None => g,
                    Some(c) => merge(c, g),
                });
                let last = i + 1 == n;
                if last || refd.contains(&(t, old.b[i + 1])) {
                    let c = cur.take().unwrap();
                    let is_eps = c.ch.is_none() && c.parts.iter().all(|p| matches!(p, Part::L(l) if *l == lang::eps()));
                    if is_eps && (!last || !ns.is_empty()) {
                        // unify the boundaries
                        bmap.insert((t, old.b[i + 1]), next);
                    } else if !last && written > i + 1 && old.s[i + 1].tagged && !chars.contains(&(t, old.b[i + 1])) && pure_output(&c) {
                        // text written before the boundary belongs to what follows
                        bmap.insert((t, old.b[i + 1]), next);
                        cur = Some(c);
                    } else {
                        ns.push(c);
                        next += 1;
                        nb.push(next);
                        bmap.insert((t, old.b[i + 1]), next);
                    }
                }
            }
            st.tapes[ti] = Tape { b: nb, s: ns };
        }
        st.nextb = next;
        let r = Ren { b: &bmap, h: &hmap };
        for fr in st.frames.iter_mut() {
            for v in fr.locals.iter_mut() {
                *v = r.val(v);
            }
            if let FrameKind::Seq(items, _, sink) = &mut fr.kind {
                *items = r.items(items);
                *sink = r.val(sink);
            }
            if let Some(p) = &mut fr.dest {
                *p = r.ptr(p);
            }
            fr.loops.clear();
        }
        for v in st.heap.iter_mut() {
            *v = r.val(v);
        }
        st.out = r.rope(&st.out);
        st.outpos = st.outpos.map(|p| (p.0, bmap[&p]));
        st.clock = 0;
    }
    fn norm_deep(&self, st: &State<'tcx>, v: Val<'tcx>, ropes: &HashSet<(u8, BId)>) -> Val<'tcx> {
        match v {
            Val::Agg(n, fs) if self.w.sbuf && st.outpos.is_some() && counted(&fs).is_some() => {
                // a buffer with a fill count: what lies behind it is not tracked
                let (k, size) = counted(&fs).unwrap();
                Val::Agg(
                    n,
                    Rc::new(
                        fs.iter()
                            .map(|x| match x {
                                Val::Agg(m, v) if v.len() >= 4 => {
                                    let live = (k * v.len()).div_ceil(size);
                                    let v: Vec<Val<'tcx>> = v.iter().enumerate().map(|(i, x)| if i >= live { Val::Undef } else { x.clone() }).collect();
                                    self.norm_deep(st, Val::Agg(*m, Rc::new(v)), ropes)
                                }
                                x => self.norm_deep(st, x.clone(), ropes),
                            })
                            .collect(),
                    ),
                )
            }
            Val::Agg(n, fs) if fs.len() >= 4 && self.w.sbuf && st.outpos.is_some() => {
                // bytes of a buffer computed from text which has already been written: not tracked any more
                let (pt, pb) = st.outpos.unwrap();
                let p = st.bidx(pt, pb);
                let old = |t: u8, b: BId| t < pt || t == pt && st.bidx(t, b) < p;
                let before = fs;
                let mut fs: Vec<Val<'tcx>> = before
                    .iter()
                    .map(|x| match x {
                        Val::Map(t, b, _, 1) if old(*t, *b) => Val::Undef,
                        Val::Sum(x, _, 1) if x.iter().all(|(t, b, _)| old(*t, *b)) => Val::Undef,
                        x => self.norm_deep(st, x.clone(), ropes),
                    })
                    .collect();
                if fs.len() >= 8 && fs.iter().all(|x| matches!(x, Val::Undef | Val::C(_, 1) | Val::Map(_, _, _, 1) | Val::Sum(_, _, 1))) {
                    // and the constants in between
                    let last = (0..fs.len()).rev().find(|i| matches!(fs[*i], Val::Undef) && !matches!(before[*i], Val::Undef)).unwrap_or(0);
                    for (i, x) in fs.iter_mut().enumerate() {
                        if i < last && matches!(x, Val::C(..)) || matches!(x, Val::C(0, _)) {
                            *x = Val::Undef;
                        }
                    }
                }
                Val::Agg(n, Rc::new(fs))
            }
            Val::Agg(n, fs) if !fs.is_empty() => Val::Agg(n, Rc::new(fs.iter().map(|x| self.norm_deep(st, x.clone(), ropes)).collect())),
            Val::Sum(..) => self.w.norm(st, v),
            Val::Map(..) => match self.w.norm(st, v) {
                Val::Map(t, b, m, s) => Val::Map(t, b, widen_map(m), s),
                v => v,
            },
            Val::Len(_) => match self.w.norm(st, v) {
                Val::Len(l) => Val::Len(Rc::new(absorb(st, (*l).clone(), ropes))),
                v => v,
            },
            Val::Str(r) => Val::Str(norm_rope(st, r)),
            Val::Buf(r) => Val::Buf(norm_rope(st, r)),
            v => v,
        }
    }
    fn add_prod(&mut self, v: u32, p: Vec<Part>) {
        if p == vec![Part::Var(v, false)] {
            return;
        }
        let i = &mut self.vars[v as usize];
        if i.set.insert(p.clone()) {
            i.prods.push(p);
        }
    }
    fn cands(s: &State<'tcx>) -> Vec<(usize, usize)> {
        let mut cand: Vec<(usize, usize)> = vec![];
        for (ti, t) in s.tapes.iter().enumerate() {
            for (i, g) in t.s.iter().enumerate() {
                if g.ch.is_none() {
                    cand.push((ti, i));
                }
            }
        }
        cand
    }
    fn all_segs(s: &State<'tcx>) -> Vec<(usize, usize)> {
        s.tapes.iter().enumerate().flat_map(|(t, x)| (0..x.s.len()).map(move |i| (t, i))).collect()
    }
    fn shape(s: &State<'tcx>, cand: &[(usize, usize)]) -> State<'tcx> {
        let mut shape = s.clone();
        for &(t, i) in cand {
            let g = &mut shape.tapes[t].s[i];
            g.parts = vec![Part::Hole(0)];
            if let Some(c) = &mut g.ch {
                c.0 = Rc::new(vec![]);
            }
        }
        shape
    }
    /// Union of two part lists differing in exactly one closed part.
    fn join_parts(a: &[Part], b: &[Part]) -> Option<Vec<Part>> {
        if a.len() != b.len() {
            return None;
        }
        let d: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
        if d.len() != 1 {
            return None;
        }
        if let (Part::L(x), Part::L(y)) = (&a[d[0]], &b[d[0]]) {
            let mut r = a.to_vec();
            r[d[0]] = Part::L(lang::union(*x, *y));
            return Some(r);
        }
        None
    }
    /// Merges states of one program point which differ in one segment only (exact union).
    fn merge_bucket(&mut self, v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        let mut groups: Vec<(State<'tcx>, Vec<State<'tcx>>)> = vec![];
        let mut idx: HashMap<State<'tcx>, usize> = HashMap::default();
        for s in v {
            let sh = Self::shape(&s, &Self::all_segs(&s));
            match idx.get(&sh) {
                Some(&i) => groups[i].1.push(s),
                None => {
                    idx.insert(sh.clone(), groups.len());
                    groups.push((sh, vec![s]));
                }
            }
        }
        let mut out = vec![];
        for (_, mut g) in groups {
            let cand = Self::all_segs(&g[0]);
            loop {
                let mut changed = false;
                let mut i = 0;
                while i < g.len() {
                    let mut j = i + 1;
                    while j < g.len() {
                        let d: Vec<&(usize, usize)> = cand.iter().filter(|&&(t, k)| g[i].tapes[t].s[k].parts != g[j].tapes[t].s[k].parts).collect();
                        if d.is_empty() {
                            g.remove(j);
                            changed = true;
                            continue;
                        }
                        if d.len() == 1 {
                            let (t, k) = *d[0];
                            if let (Some(x), Some(y)) = (&g[i].tapes[t].s[k].ch, &g[j].tapes[t].s[k].ch) {
                                let tagged = g[i].tapes[t].s[k].tagged;
                                let un = if tagged { Self::join_parts(&g[i].tapes[t].s[k].parts, &g[j].tapes[t].s[k].parts) } else { None };
                                if tagged && un.is_none() {
                                    j += 1;
                                    continue;
                                }
                                let mut v = (*x.0).clone();
                                v.extend(y.0.iter().cloned());
                                let c = (lang::cs(v), x.1);
                                g[i].tapes[t].s[k].parts = un.unwrap_or_else(|| vec![Part::L(ch_lang(&c))]);
                                g[i].tapes[t].s[k].ch = Some(c);
                                g.remove(j);
                                changed = true;
                                continue;
                            }
                            if let Some(p) = Self::join_parts(&g[i].tapes[t].s[k].parts, &g[j].tapes[t].s[k].parts) {
                                g[i].tapes[t].s[k].parts = p;
                                g.remove(j);
                                changed = true;
                                continue;
                            }
                        }
                        j += 1;
                    }
                    i += 1;
                }
                if !changed {
                    break;
                }
            }
            // states differing in one open segment: join through a variable
            let mut i = 0;
            while i < g.len() {
                let mut j = i + 1;
                while j < g.len() {
                    let d: Vec<(usize, usize)> = cand.iter().cloned().filter(|&(t, k)| g[i].tapes[t].s[k].parts != g[j].tapes[t].s[k].parts).collect();
                    if d.is_empty() {
                        g.remove(j);
                        continue;
                    }
                    if d.len() == 1 {
                        let (t, k) = d[0];
                        if g[i].tapes[t].s[k].ch.is_none() && (g[i].tapes[t].s[k].is_open() || g[j].tapes[t].s[k].is_open()) {
                            let mut key = g[i].clone();
                            key.tapes[t].s[k].parts = vec![Part::Hole(0)];
                            let (a, b) = (g[i].tapes[t].s[k].parts.clone(), g[j].tapes[t].s[k].parts.clone());
                            match self.nodes.get(&key) {
                                Some(&v) => {
                                    self.add_prod(v, b.clone());
                                    if b == vec![Part::Var(v, false)] {
                                        self.add_prod(v, a);
                                        g[i].tapes[t].s[k].parts = b;
                                    }
                                }
                                None => {
                                    let v = self.vars.len() as u32;
                                    self.vars.push(VarInfo::default());
                                    self.nodes.insert(key, v);
                                    self.add_prod(v, a);
                                    self.add_prod(v, b);
                                    g[i].tapes[t].s[k].parts = vec![Part::Var(v, false)];
                                }
                            }
                            g.remove(j);
                            continue;
                        }
                    }
                    j += 1;
                }
                i += 1;
            }
            out.extend(g);
        }
        out
    }
    /// Handles arrival at a merge point. Returns the state to explore, if any.
    fn arrive(&mut self, s: State<'tcx>, head: bool) -> Option<State<'tcx>> {
        let cand = Self::cands(&s);
        for &(t, i) in &cand {
            let mut k = s.clone();
            k.tapes[t].s[i].parts = vec![Part::Hole(0)];
            if let Some(&v) = self.nodes.get(&k) {
                if s.tapes[t].s[i].parts == vec![Part::Var(v, false)] {
                    continue;
                }
                self.add_prod(v, s.tapes[t].s[i].parts.clone());
                return None;
            }
        }
        let all = Self::all_segs(&s);
        let shape = Self::shape(&s, &all);
        let list = self.exact.entry(shape.clone()).or_default();
        let mut hit = None;
        for e in list.iter() {
            let d: Vec<&(usize, usize)> = all.iter().filter(|&&(t, i)| e.tapes[t].s[i].parts != s.tapes[t].s[i].parts).collect();
            if d.iter().all(|&&(t, i)| {
                let (x, y) = (&s.tapes[t].s[i].parts, &e.tapes[t].s[i].parts);
                x.len() == y.len()
                    && x.iter().zip(y.iter()).all(|(a, b)| match (a, b) {
                        (Part::L(a), Part::L(b)) => lang::subset(*a, *b),
                        (a, b) => a == b,
                    })
            }) {
                return None;
            }
            if d.len() == 1 && cand.contains(d[0]) {
                let g = &s.tapes[d[0].0].s[d[0].1];
                let h = &e.tapes[d[0].0].s[d[0].1];
                let open = g.is_open() || h.is_open();
                if head && (!open || hit.is_none()) {
                    hit = Some((d[0].0, d[0].1, h.parts.clone()));
                }
            }
        }
        match hit {
            Some((t, i, ep)) => {
                let v = self.vars.len() as u32;
                self.vars.push(VarInfo::default());
                let mut k = s.clone();
                k.tapes[t].s[i].parts = vec![Part::Hole(0)];
                self.nodes.insert(k.clone(), v);
                self.add_prod(v, ep);
                self.add_prod(v, s.tapes[t].s[i].parts.clone());
                k.tapes[t].s[i].parts = vec![Part::Var(v, false)];
                if self.w.trace {
                    eprintln!("  node v{}", v);
                }
                self.exact.get_mut(&shape).unwrap().push(k.clone());
                Some(k)
            }
            None => {
                if list.len() >= 600 {
                    if std::env::var_os("VP_DUMP").is_some() && self.undecided.is_empty() {
                        eprintln!("== too many at {:?}", list[0].frames.iter().map(|f| (self.w.tcx.def_path_str(f.inst.def_id()), f.bb)).collect::<Vec<_>>());
                        for x in list.iter().take(30) {
                            eprintln!("   {}", short(&show_tapes(x)));
                        }
                        for f in 0..list[0].frames.len() {
                            for l in 0..list[0].frames[f].locals.len() {
                                let mut vs: Vec<String> = list.iter().map(|x| format!("{:?}", x.frames[f].locals[l])).collect();
                                vs.sort();
                                vs.dedup();
                                if vs.len() > 1 {
                                    eprintln!("   frame {} local {} {} values: {:?}", f, l, vs.len(), &vs[..3.min(vs.len())]);
                                }
                            }
                        }
                    }
                    *self.undecided.entry("too many states at one merge point".into()).or_insert(0) += 1;
                    return None;
                }
                list.push(s.clone());
                Some(s)
            }
        }
    }
    fn prio(&mut self, st: &State<'tcx>) -> Vec<u32> {
        let mut k = vec![];
        for f in &st.frames {
            match &f.kind {
                FrameKind::Body => {
                    let info = self.w.body(f.inst).unwrap();
                    k.push(info.rpo[f.bb.as_usize()]);
                }
                FrameKind::Seq(_, i, _) => k.push(*i),
            }
        }
        k.push(u32::MAX);
        k
    }
    fn undec(&mut self, st: &State<'tcx>, why: String) {
        let mut at = vec![];
        for f in st.frames.iter().rev().take(4) {
            at.push(short(&self.w.name(f.inst.def_id())));
        }
        *self.undecided.entry(format!("{} [in {}]", why, at.join(" < "))).or_insert(0) += 1;
    }
    /// Called when control reached a new block: merge-point handling.
    fn settle(&mut self, mut st: State<'tcx>, ret: bool) -> Option<State<'tcx>> {
        let f = st.frames.last().unwrap();
        let mut point = 0;
        if let FrameKind::Body = f.kind {
            let info = self.w.body(f.inst).unwrap();
            if f.stmt == 0 {
                if info.heads.contains_key(&f.bb.as_u32()) {
                    point = 2;
                } else if info.joins.contains(&f.bb.as_u32()) || ret {
                    point = 1;
                }
            }
        }
        if point == 0 {
            return Some(st);
        }
        self.canon(&mut st);
        if point == 2 && self.widen(&mut st) {
            self.canon(&mut st);
        }
        self.nmerge += 1;
        if self.nmerge > self.opts.max_states || (self.nmerge % 4096 == 0 && crate::memory() > 9000) {
            *self.undecided.entry("state budget exhausted".into()).or_insert(0) += 1;
            if std::env::var("VP_HIST").is_ok() {
                let mut h: BTreeMap<String, usize> = Default::default();
                for st in &self.seen {
                    let s = st.frames.iter().rev().take(3).map(|f| format!("{}:{:?}", self.w.name(f.inst.def_id()).rsplit("::").next().unwrap(), f.bb)).collect::<Vec<_>>().join(" < ");
                    *h.entry(s).or_default() += 1;
                }
                let mut h: Vec<_> = h.into_iter().map(|(a, b)| (b, a)).collect();
                h.sort();
                for (n, s) in h.iter().rev().take(25) {
                    eprintln!("HIST {} {}", n, s);
                }
                if let Ok(at) = std::env::var("VP_HIST") {
                    for st in self.seen.iter().filter(|st| {
                        let f = st.frames.last().unwrap();
                        format!("{}:{:?}", self.w.name(f.inst.def_id()).rsplit("::").next().unwrap(), f.bb) == at
                    }).skip(std::env::var("VP_SKIP").ok().and_then(|x| x.parse().ok()).unwrap_or(0)).take(40) {
                        eprintln!("  S {} out={:?}", short(&show_tapes(st)), st.outpos);
                        for f in &st.frames {
                            eprintln!("  S   {}", short(&format!("{:?}", f.locals.iter().enumerate().filter(|x| *x.1 != Val::Undef).collect::<Vec<_>>())));
                        }
                        eprintln!("  S  h {:?}", st.heap);
                    }
                }
            }
            self.work.clear();
            self.parked.clear();
            self.pool.clear();
            return None;
        }
        let k = self.prio(&st);
        self.pool.entry(k).or_default().push(st);
        None
    }
    /// Replaces counters and lengths that take more and more values at a loop head by what is known
    /// of all their values.
    fn widen(&mut self, st: &mut State<'tcx>) -> bool {
        fn go<'tcx>(v: &mut Val<'tcx>, path: &mut Vec<u32>, seen: &mut HashMap<Vec<u32>, Seen>, changed: &mut bool) {
            match v {
                Val::Agg(_, f) => {
                    for i in 0..f.len() {
                        if matches!(f[i], Val::Agg(..) | Val::C(_, 8) | Val::Len(_) | Val::Ge(_)) {
                            let mut x = f[i].clone();
                            path.push(i as u32);
                            go(&mut x, path, seen, changed);
                            path.pop();
                            if x != f[i] {
                                Rc::make_mut(f)[i] = x;
                            }
                        }
                    }
                }
                Val::C(_, 8) | Val::Len(_) | Val::Ge(_) => {
                    let e = match seen.get_mut(path) {
                        Some(e) => e,
                        None => seen.entry(path.clone()).or_default(),
                    };
                    match v {
                        Val::C(c, 8) if e.lo.is_none() && (*c as u64) < 1 << 32 => {
                            e.consts.insert(*c as u64);
                            if e.consts.len() > 16 {
                                e.lo = e.consts.iter().nth(2).cloned();
                            }
                        }
                        Val::Len(l) if e.lens.len() <= 200 => {
                            e.lens.insert(format!("{:?}", l));
                        }
                        _ => {}
                    }
                    let n = match (&*v, e.lo) {
                        (Val::C(c, 8), Some(lo)) if *c as u64 >= lo && (*c as u64) < 1 << 32 => Val::Ge(lo),
                        (Val::Ge(c), Some(lo)) if *c >= lo => Val::Ge(lo),
                        (Val::Len(_), _) if e.lens.len() > 200 => Val::Top(8),
                        _ => return,
                    };
                    if n != *v {
                        *v = n;
                        *changed = true;
                    }
                }
                _ => {}
            }
        }
        let key: Vec<(rustc_hir::def_id::DefId, u32)> = st.frames.iter().map(|f| (f.inst.def_id(), f.bb.as_u32())).collect();
        let seen = self.widening.entry(key).or_default();
        let mut changed = false;
        for (k, f) in st.frames.iter_mut().enumerate() {
            if let FrameKind::Body = f.kind {
                for l in 0..f.locals.len() {
                    if matches!(f.locals[l], Val::Agg(..) | Val::C(_, 8) | Val::Len(_) | Val::Ge(_)) {
                        go(&mut f.locals[l], &mut vec![k as u32, l as u32], seen, &mut changed);
                    }
                }
            }
        }
        changed
    }
    /// Takes the next program point from the pool.
    fn next_bucket(&mut self) -> bool {
        let (_, v) = match self.pool.pop_first() {
            Some(x) => x,
            None => return false,
        };
        for s in self.merge_bucket(v) {
            let f = s.frames.last().unwrap();
            let info = self.w.body(f.inst).unwrap();
            let head = info.heads.contains_key(&f.bb.as_u32());
            if self.w.trace {
                let n = self.w.name(f.inst.def_id());
                eprintln!("  {} {} bb{} {}", if head { "head" } else { "join" }, short(&n), f.bb.as_u32(), show_tapes(&s));
            }
            if self.w.trace && std::env::var_os("VP_FULL").is_some() {
                eprintln!("  FULL {:?} heap {:?} out {:?} {:?} {:?}", s.frames.iter().map(|f| (&f.locals, &f.dest, &f.loops)).collect::<Vec<_>>(), s.heap, s.outpos, s.out, s.tapes);
            }
            if let Some(s) = self.arrive(s, head) {
                if self.seen.insert(s.clone()) {
                    self.work.push(s);
                }
            }
        }
        true
    }
    /// Runs a state until it forks, ends, parks or reaches a merge point.
    fn run(&mut self, mut st: State<'tcx>) {
        loop {
            if self.w.steps > self.opts.max_steps || self.w.steps % 64 == 0 && std::time::Instant::now() > self.w.deadline {
                *self.undecided.entry("step budget exhausted".into()).or_insert(0) += 1;
                self.work.clear();
                self.parked.clear();
                self.pool.clear();
                return;
            }
            let is_call = {
                let f = st.frames.last().unwrap();
                match f.kind {
                    FrameKind::Body => {
                        let info = self.w.body(f.inst).unwrap();
                        f.stmt >= info.body.basic_blocks[f.bb].statements.len()
                    }
                    _ => true,
                }
            };
            let backup = if is_call { Some(st.clone()) } else { None };
            let r = self.w.step(&mut st);
            match r {
                Ok(Flow::Next) => {}
                Ok(Flow::Done(v, t)) => {
                    self.done(st, v, t);
                    return;
                }
                Ok(Flow::Panic(m)) => {
                    self.finish(&st, format!("panic: {}", m), vec![]);
                    return;
                }
                Ok(j) => match self.settle(st, matches!(j, Flow::Ret)) {
                    Some(s) => st = s,
                    None => return,
                },
                Err(Stop::Fork(v)) => {
                    let b = backup.as_ref().unwrap_or(&st);
                    let key = |s: &State<'tcx>| (s.frames.len(), s.frames.last().unwrap().bb, s.frames.last().unwrap().stmt);
                    let k = key(b);
                    for s in v.into_iter().rev() {
                        if key(&s) != k {
                            if let Some(s) = self.settle(s, false) {
                                self.work.push(s);
                            }
                        } else {
                            self.work.push(s);
                        }
                    }
                    return;
                }
                Err(Stop::Suspend(v)) => {
                    let s = backup.unwrap_or(st);
                    let mut v = v;
                    v.sort();
                    v.dedup();
                    self.parked.push_back((s, v));
                    return;
                }
                Err(Stop::Unsupported(m)) => {
                    self.undec(&st, m);
                    return;
                }
            }
        }
    }
    fn done(&mut self, st: State<'tcx>, v: Val<'tcx>, t: Ty<'tcx>) {
        let mut texts: Vec<Vec<Part>> = vec![];
        let mut label = String::new();
        if self.summary {
            let v = self.norm_deep(&st, v, &HashSet::default());
            let mut open = vec![];
            fn maps<'tcx>(v: &Val<'tcx>, o: &mut Vec<Val<'tcx>>) -> bool {
                match v {
                    Val::C(..) | Val::Fn(_) => true,
                    Val::Agg(_, f) => f.iter().all(|x| maps(x, o)),
                    Val::Map(..) => {
                        o.push(v.clone());
                        true
                    }
                    _ => false,
                }
            }
            if !maps(&v, &mut open) || st.outerr || !st.note.is_empty() || !st.assume.is_empty() || !st.out.0.is_empty() {
                self.undec(&st, format!("summary result {:?}", v));
                return;
            }
            if let Some(Val::Map(t, b, m, _)) = open.first() {
                let e = st.fork_map::<()>(*t, *b, m).unwrap_err();
                self.stop(&st, e);
                return;
            }
            let label = format!("{:?}", v);
            self.sum_vals.insert(label.clone(), v);
            self.finish(&st, label, vec![]);
            return;
        }
        let r = self.render(&st, &v, t, &mut label, &mut texts);
        match r {
            Ok(()) => {
                if !st.out.0.is_empty() {
                    label.push_str(" out=$");
                    let o = st.out.clone();
                    match self.rope_parts(&st, &o) {
                        Ok(p) => texts.push(p),
                        Err(e) => {
                            self.stop(&st, e);
                            return;
                        }
                    }
                }
                self.finish(&st, label, texts)
            }
            Err(e) => self.stop(&st, e),
        }
    }
    fn stop(&mut self, st: &State<'tcx>, e: Stop<'tcx>) {
        match e {
            Stop::Fork(v) => {
                for s in v {
                    self.work.push(s);
                }
            }
            Stop::Suspend(v) => self.parked.push_back((st.clone(), v)),
            Stop::Unsupported(m) => self.undec(st, m),
        }
    }
    /// The parts of the tapes with the text `r` marked as output.
    fn rope_parts(&mut self, st: &State<'tcx>, r: &Rope) -> R<'tcx, Vec<Part>> {
        #[derive(Clone)]
        enum Tok {
            Lit(Vec<u8>),
            Seg(usize, usize),
            Fun(usize, usize, PMap, bool),
            Sym(u16),
        }
        let mut toks: Vec<Tok> = vec![];
        for p in r.0.iter() {
            match p {
                Piece::C(b, a, l) => toks.push(Tok::Lit(b[*a as usize..(*a + *l) as usize].to_vec())),
                Piece::T(t, a, b) => {
                    let (i, j) = (st.bidx(*t, *a), st.bidx(*t, *b));
                    let ti = *t as usize;
                    if self.sym_tapes.contains(t) {
                        if i == 0 && j == st.tapes[ti].s.len() {
                            toks.push(Tok::Sym(lang::MARK + *t as u16));
                        } else if i != j {
                            return unsup("part of a symbolic argument in the result");
                        }
                        continue;
                    }
                    for k in i..j {
                        toks.push(Tok::Seg(ti, k));
                    }
                }
                Piece::Ch(t, b, m) | Piece::By(t, b, m) => {
                    let i = st.bidx(*t, *b);
                    let set = match &st.seg(*t, i).ch {
                        Some(c) => c.0.clone(),
                        None => return unsup("char piece"),
                    };
                    let m2 = restrict(m, &set);
                    let by = matches!(p, Piece::By(..));
                    if m2.len() == 1 {
                        if let (_, _, MV::C(c)) = m2[0] {
                            toks.push(Tok::Lit(if by { vec![c as u8] } else { char::from_u32(c as u32).unwrap_or('?').to_string().into_bytes() }));
                            continue;
                        }
                    }
                    let wide = set.iter().map(|x| x.1 - x.0 + 1).sum::<u32>() > 600;
                    if !wide || m2.iter().all(|x| x.2 == MV::Lin(0)) {
                        toks.push(Tok::Fun(*t as usize, i, Rc::new(m2), by));
                        continue;
                    }
                    return st.fork_map(*t, *b, &Rc::new(m2));
                }
                Piece::Any | Piece::AnyChar => return unsup("untracked text in the result"),
                Piece::Out => return unsup("streamed text inside another text"),
            }
        }
        let mut parts: Vec<Part> = vec![];
        let (mut ti, mut i) = (0usize, 0usize);
        let plain = |st: &State<'tcx>, parts: &mut Vec<Part>, t: usize, k: usize| -> R<'tcx, ()> {
            let g = &st.tapes[t].s[k];
            if g.tagged || g.kept && st.outpos.is_some() {
                return unsup("result text together with output");
            }
            parts.extend(g.parts.iter().cloned());
            Ok(())
        };
        let mut n = 0;
        while n < toks.len() {
            match toks[n].clone() {
                Tok::Lit(b) => {
                    parts.push(Part::L(lang::as_output(lang::bytes(&b))));
                    n += 1;
                }
                Tok::Sym(m) => {
                    parts.push(Part::L(lang::word(&[m])));
                    n += 1;
                }
                Tok::Seg(t, k) | Tok::Fun(t, k, ..) => {
                    if (t, k) < (ti, i) {
                        return unsup("result text is not in input order");
                    }
                    while (ti, i) < (t, k) {
                        if i >= st.tapes[ti].s.len() {
                            parts.push(Part::L(lang::word(&[SEP])));
                            ti += 1;
                            i = 0;
                            continue;
                        }
                        plain(st, &mut parts, ti, i)?;
                        i += 1;
                    }
                    // gather everything computed from this segment
                    let mut e = n;
                    let mut fun = false;
                    let mut last = n;
                    while e < toks.len() {
                        match &toks[e] {
                            Tok::Seg(a, b) if (*a, *b) == (t, k) => last = e,
                            Tok::Fun(a, b, ..) if (*a, *b) == (t, k) => {
                                fun = true;
                                last = e;
                            }
                            Tok::Lit(_) => {}
                            _ => break,
                        }
                        e += 1;
                    }
                    let g = &st.tapes[t].s[k];
                    if g.tagged {
                        return unsup("result text together with output");
                    }
                    if !fun && last == n {
                        for p in &g.parts {
                            parts.push(match p {
                                Part::L(l) => Part::L(lang::keep(*l)),
                                Part::Var(v, _) => Part::Var(*v, true),
                                p => p.clone(),
                            });
                        }
                    } else if last == n && matches!(&toks[n], Tok::Fun(_, _, m, _) if m.iter().all(|x| x.2 == MV::Lin(0))) {
                        parts.push(Part::L(lang::keep(ch_lang(g.ch.as_ref().unwrap()))));
                    } else {
                        let (set, byte) = g.ch.clone().ok_or_else(|| Stop::Unsupported("text used twice".into()))?;
                        if set.iter().map(|x| x.1 - x.0 + 1).sum::<u32>() > 600 {
                            return unsup("computed text over a large range");
                        }
                        let mut alts = vec![];
                        for &(lo, hi) in set.iter() {
                            for x in lo..=hi {
                                let mut w: Vec<u16> = if byte { vec![x as u16] } else { char::from_u32(x).unwrap().to_string().bytes().map(|b| b as u16).collect() };
                                let own = w.clone();
                                for tk in &toks[n..=last] {
                                    match tk {
                                        Tok::Lit(b) => w.extend(b.iter().map(|b| *b as u16 + lang::O)),
                                        Tok::Seg(..) => w.extend(own.iter().map(|b| *b + lang::O)),
                                        Tok::Fun(_, _, m, by) => {
                                            let v = m.iter().find(|r| r.0 <= x && x <= r.1).map(|r| match r.2 {
                                                MV::C(c) => c as u32,
                                                MV::Lin(k) => (x as i64 + k) as u32,
                                            });
                                            let v = v.ok_or_else(|| Stop::Unsupported("computed text".into()))?;
                                            if *by {
                                                w.push(v as u8 as u16 + lang::O);
                                            } else {
                                                w.extend(char::from_u32(v).unwrap_or('?').to_string().bytes().map(|b| b as u16 + lang::O));
                                            }
                                        }
                                        Tok::Sym(_) => unreachable!(),
                                    }
                                }
                                alts.push(lang::word(&w));
                            }
                        }
                        parts.push(Part::L(lang::union_all(&alts)));
                    }
                    n = last + 1;
                    i += 1;
                }
            }
        }
        loop {
            if i >= st.tapes[ti].s.len() {
                ti += 1;
                i = 0;
                if ti >= st.tapes.len() {
                    break;
                }
                parts.push(Part::L(lang::word(&[SEP])));
                continue;
            }
            plain(st, &mut parts, ti, i)?;
            i += 1;
        }
        Ok(parts)
    }
    fn render(&mut self, st: &State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>, o: &mut String, texts: &mut Vec<Vec<Part>>) -> R<'tcx, ()> {
        let v = self.w.norm(st, v.clone());
        match (&v, t.kind()) {
            (Val::C(c, _), ty::Bool) => o.push_str(if *c != 0 { "true" } else { "false" }),
            (Val::C(c, _), ty::Char) => o.push_str(&format!("{:?}", char::from_u32(*c as u32).unwrap_or('?'))),
            (Val::C(c, s), ty::Int(_)) => o.push_str(&format!("{}", sext(*c, *s))),
            (Val::C(c, _), _) => o.push_str(&format!("{}", c)),
            (Val::Map(tp, b, m, _), _) => return st.fork_map(*tp, *b, m),
            (Val::Len(_), _) => o.push_str("len"),
            (Val::Str(r) | Val::Buf(r), _) => {
                if r.0.iter().any(|p| matches!(p, Piece::Any | Piece::AnyChar)) {
                    o.push('?');
                } else {
                    if r.0[..] == [Piece::Out] {
                        texts.push(vec![Part::Hole(7)]);
                    } else {
                        let p = self.rope_parts(st, r)?;
                        texts.push(p);
                    }
                    o.push('$');
                }
            }
            (Val::Top(_) | Val::Ge(_), _) => o.push('?'),
            (Val::Atom(i, neg), _) => o.push_str(&format!("{}[{}]", if *neg { "!" } else { "" }, self.w.atoms[*i as usize])),
            (Val::Ref(p), _) => {
                let x = self.w.read(st, p)?;
                let it = t.builtin_deref(true).unwrap_or(t);
                return self.render(st, &x, it, o, texts);
            }
            (Val::Agg(_, fs), ty::Tuple(ts)) => {
                o.push('(');
                for (i, (x, ty)) in fs.iter().zip(ts.iter()).enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    self.render(st, x, ty, o, texts)?;
                }
                o.push(')');
            }
            (Val::Agg(var, fs), ty::Adt(d, args)) if d.is_enum() => {
                let vd = d.variant(rustc_abi::VariantIdx::from_u32(*var));
                o.push_str(vd.name.as_str());
                if !vd.fields.is_empty() {
                    o.push('(');
                    for (i, fd) in vd.fields.iter().enumerate() {
                        if i > 0 {
                            o.push_str(", ");
                        }
                        let ft = self.w.tcx.normalize_erasing_regions(self.w.env, fd.ty(self.w.tcx, args));
                        let x = fs.get(i).cloned().unwrap_or(Val::Undef);
                        self.render(st, &x, ft, o, texts)?;
                    }
                    o.push(')');
                }
            }
            (Val::Agg(_, fs), ty::Adt(d, args)) if d.is_struct() => {
                let vd = d.non_enum_variant();
                let mut first = true;
                let many = vd.fields.iter().count() > 1;
                if many {
                    o.push('{');
                }
                for (i, fd) in vd.fields.iter().enumerate() {
                    let ft = self.w.tcx.normalize_erasing_regions(self.w.env, fd.ty(self.w.tcx, args));
                    if let ty::Adt(d, _) = ft.kind() {
                        if d.is_phantom_data() {
                            continue;
                        }
                    }
                    if !first {
                        o.push_str(", ");
                    }
                    first = false;
                    let x = fs.get(i).cloned().unwrap_or(Val::Undef);
                    self.render(st, &x, ft, o, texts)?;
                }
                if many {
                    o.push('}');
                }
            }
            (Val::Agg(_, fs), _) => {
                let et = t.builtin_index().unwrap_or(t);
                o.push('[');
                for x in fs.iter() {
                    self.render(st, x, et, o, texts)?;
                    o.push(',');
                }
                o.push(']');
            }
            (Val::Undef, _) => o.push('_'),
            (v, _) => return unsup(format!("result {:?}", v)),
        }
        Ok(())
    }
    fn finish(&mut self, st: &State<'tcx>, mut label: String, texts: Vec<Vec<Part>>) {
        if st.outerr {
            label.push_str(" [write failed]");
        }
        for n in st.note.iter() {
            label.push_str(&format!(" [{}]", n));
        }
        for (i, b) in &st.assume {
            let a = &self.w.atoms[*i as usize];
            if !a.starts_with("pending") {
                label.push_str(&format!(" [{}={}]", a, b));
            }
        }
        let mut parts: Vec<Part> = vec![];
        let any_out = st.outpos.is_some();
        for (ti, t) in st.tapes.iter().enumerate() {
            if ti > 0 {
                parts.push(Part::L(lang::word(&[SEP])));
            }
            for i in 0..t.b.len() {
                if i < t.s.len() {
                    let g = &t.s[i];
                    for p in &g.parts {
                        parts.push(match p {
                            Part::L(l) if g.kept && any_out => Part::L(lang::keep(*l)),
                            Part::Var(v, _) if g.kept && any_out => Part::Var(*v, true),
                            p => p.clone(),
                        });
                    }
                }
            }
        }
        if self.w.trace {
            eprintln!("  outcome {} {}", label, show_parts(&parts));
        }
        let mut all = vec![parts.clone()];
        all.extend(texts.into_iter().map(|t| if t == vec![Part::Hole(7)] { parts.clone() } else { t }));
        self.out.entry((label, st.imprecise)).or_default().insert(all);
    }

    // ---------------------------------------------------------- solving
    fn solve(&self, want: &[u32]) -> HashMap<u32, Result<L, String>> {
        let mut done: HashMap<u32, Result<L, String>> = HashMap::default();
        // Tarjan over reachable variables
        struct T<'x> {
            idx: HashMap<u32, usize>,
            low: HashMap<u32, usize>,
            on: HashSet<u32>,
            stack: Vec<u32>,
            n: usize,
            sccs: Vec<Vec<u32>>,
            vars: &'x [VarInfo],
        }
        fn go(t: &mut T, v: u32) {
            t.idx.insert(v, t.n);
            t.low.insert(v, t.n);
            t.n += 1;
            t.stack.push(v);
            t.on.insert(v);
            let vars = t.vars;
            for p in &vars[v as usize].prods {
                for x in p {
                    if let Part::Var(u, _) = x {
                        if !t.idx.contains_key(u) {
                            go(t, *u);
                            let l = t.low[&v].min(t.low[u]);
                            t.low.insert(v, l);
                        } else if t.on.contains(u) {
                            let l = t.low[&v].min(t.idx[u]);
                            t.low.insert(v, l);
                        }
                    }
                }
            }
            if t.low[&v] == t.idx[&v] {
                let mut c = vec![];
                loop {
                    let x = t.stack.pop().unwrap();
                    t.on.remove(&x);
                    c.push(x);
                    if x == v {
                        break;
                    }
                }
                t.sccs.push(c);
            }
        }
        let mut t = T { idx: Default::default(), low: Default::default(), on: Default::default(), stack: vec![], n: 0, sccs: vec![], vars: &self.vars };
        for &v in want {
            if !t.idx.contains_key(&v) {
                go(&mut t, v);
            }
        }
        // only variables used outside of their component are needed as such
        let mut comp: HashMap<u32, usize> = HashMap::default();
        for (i, c) in t.sccs.iter().enumerate() {
            for v in c {
                comp.insert(*v, i);
            }
        }
        let mut needed: HashSet<u32> = want.iter().cloned().collect();
        for (v, i) in &comp {
            for p in &self.vars[*v as usize].prods {
                for x in p {
                    if let Part::Var(u, _) = x {
                        if comp[u] != *i {
                            needed.insert(*u);
                        }
                    }
                }
            }
        }
        for c in t.sccs {
            match self.solve_scc(&c, &needed, &done) {
                Ok(v) => done.extend(v.into_iter().map(|(k, l)| (k, Ok(l)))),
                Err(e) => done.extend(c.iter().map(|v| (*v, Err(e.clone())))),
            }
        }
        done
    }
    fn solve_scc(&self, c: &[u32], needed: &HashSet<u32>, done: &HashMap<u32, Result<L, String>>) -> Result<Vec<(u32, L)>, String> {
        let inside: HashSet<u32> = c.iter().cloned().collect();
        // direction
        let (mut left, mut right) = (true, true);
        let mut multi = false;
        for &v in c {
            for p in &self.vars[v as usize].prods {
                let pos: Vec<usize> = p.iter().enumerate().filter(|(_, x)| matches!(x, Part::Var(u, _) if inside.contains(u))).map(|x| x.0).collect();
                if pos.len() > 1 {
                    multi = true;
                }
                if let Some(&k) = pos.first() {
                    if k != 0 {
                        left = false;
                    }
                    if k + 1 != p.len() {
                        right = false;
                    }
                }
            }
        }
        if multi || (!left && !right) {
            return Err("non-linear loop language".into());
        }
        let mut nfa = lang::Nfa::default();
        let hub = nfa.state();
        let st: HashMap<u32, usize> = c.iter().map(|v| (*v, nfa.state())).collect();
        // bodies between the same two states
        let mut edges: BTreeMap<(usize, usize), Vec<L>> = BTreeMap::new();
        for &v in c {
            for p in &self.vars[v as usize].prods {
                let mut from = hub;
                let mut to = st[&v];
                let mut body: &[Part] = p;
                if left {
                    if let Some(Part::Var(u, k)) = p.first() {
                        if inside.contains(u) {
                            if *k {
                                return Err("kept recursion".into());
                            }
                            from = st[u];
                            body = &p[1..];
                        }
                    }
                } else {
                    // right linear: state(v) --body--> state(u) / hub
                    from = st[&v];
                    to = hub;
                    if let Some(Part::Var(u, k)) = p.last() {
                        if inside.contains(u) {
                            if *k {
                                return Err("kept recursion".into());
                            }
                            to = st[u];
                            body = &p[..p.len() - 1];
                        }
                    }
                }
                let mut ls: Vec<L> = vec![];
                for x in body {
                    ls.push(match x {
                        Part::L(l) => *l,
                        Part::Var(u, k) => {
                            let l = done[u].clone()?;
                            if *k {
                                lang::keep(l)
                            } else {
                                l
                            }
                        }
                        Part::Hole(_) => lang::empty(),
                    });
                }
                edges.entry((from, to)).or_default().push(lang::concat_all(&ls));
            }
        }
        for ((from, to), ls) in edges {
            nfa.lang(from, lang::union_all(&ls), to);
        }
        let vs: Vec<u32> = c.iter().cloned().filter(|v| needed.contains(v)).collect();
        if left {
            nfa.start(hub);
            let r = nfa.determinize_many(&vs.iter().map(|v| st[v]).collect::<Vec<_>>());
            return Ok(vs.into_iter().zip(r).collect());
        }
        let mut r = vec![];
        for v in vs {
            let mut m = nfa.clone();
            m.start(st[&v]);
            m.accept(hub);
            r.push((v, m.determinize()));
        }
        Ok(r)
    }
    fn close(&self, p: &[Part], d: &HashMap<u32, Result<L, String>>) -> Result<L, String> {
        let mut ls: Vec<L> = vec![];
        for x in p {
            ls.push(match x {
                Part::L(l) => *l,
                Part::Var(v, k) => {
                    let l = d[v].clone()?;
                    if *k {
                        lang::keep(l)
                    } else {
                        l
                    }
                }
                _ => lang::empty(),
            });
        }
        Ok(lang::concat_all(&ls))
    }
    fn resume_all(&mut self) -> bool {
        let p: Vec<(State<'tcx>, Vec<u32>)> = self.parked.drain(..).collect();
        let mut progress = false;
        for (s, vs) in p {
            self.resumed.entry((s, vs)).or_default();
        }
        let keys: Vec<(State<'tcx>, Vec<u32>)> = self.resumed.keys().cloned().collect();
        let mut all: Vec<u32> = keys.iter().flat_map(|k| k.1.iter().cloned()).collect();
        all.sort();
        all.dedup();
        let solved = self.solve(&all);
        for k in keys {
            let mut d: HashMap<u32, L> = HashMap::default();
            let mut err = None;
            for v in &k.1 {
                match &solved[v] {
                    Ok(l) => {
                        d.insert(*v, *l);
                    }
                    Err(e) => err = Some(e.clone()),
                }
            }
            if let Some(e) = err {
                self.undec(&k.0.clone(), e);
                self.resumed.remove(&k);
                continue;
            }
            let now: Vec<L> = k.1.iter().map(|v| d[v]).collect();
            let old = self.resumed.get(&k).unwrap();
            if *old == now {
                continue;
            }
            self.resumed.insert(k.clone(), now);
            let mut s = k.0.clone();
            for t in s.tapes.iter_mut() {
                for g in t.s.iter_mut() {
                    for p in g.parts.iter_mut() {
                        if let Part::Var(v, kk) = p {
                            if let Some(l) = d.get(v) {
                                if k.1.contains(v) {
                                    *p = Part::L(if *kk { lang::keep(*l) } else { *l });
                                }
                            }
                        }
                    }
                    if !g.is_open() && g.parts.len() > 1 {
                        let v: Vec<L> = g.parts.iter().map(|p| if let Part::L(l) = p { *l } else { unreachable!() }).collect();
                        g.parts = vec![Part::L(lang::concat_all(&v))];
                    }
                }
            }
            self.work.push(s);
            self.nresume += 1;
            progress = true;
        }
        progress
    }
    pub fn analyze(&mut self, st: State<'tcx>) -> Report {
        self.work.push(st);
        let mut rounds = 0;
        loop {
            loop {
                while let Some(s) = self.work.pop() {
                    self.run(s);
                }
                if !self.next_bucket() {
                    break;
                }
            }
            rounds += 1;
            if rounds > 25 {
                *self.undecided.entry("languages do not converge".into()).or_insert(0) += 1;
                break;
            }
            if !self.resume_all() {
                break;
            }
        }
        let mut rep = Report { steps: self.w.steps, states: self.seen.len(), nodes: self.nodes.len(), resumes: self.nresume, ..Default::default() };
        let mut all: Vec<u32> = self.out.values().flatten().flatten().flatten().filter_map(|x| if let Part::Var(v, _) = x { Some(*v) } else { None }).collect();
        all.sort();
        all.dedup();
        let solved = self.solve(&all);
        for ((label, imp), set) in &self.out {
            let n = set.iter().next().map_or(0, |x| x.len());
            let mut acc: Vec<Vec<L>> = vec![vec![]; n];
            for v in set {
                for (k, p) in v.iter().enumerate() {
                    match self.close(p, &solved) {
                        Ok(l) => acc[k].push(l),
                        Err(e) => {
                            *self.undecided.entry(e).or_insert(0) += 1;
                        }
                    }
                }
            }
            let m = if *imp { &mut rep.imprecise } else { &mut rep.outcomes };
            let mut v: Vec<L> = acc.iter().map(|v| lang::union_all(v)).collect();
            if self.w.sbuf && !v.is_empty() {
                v[0] = crate::equiv::domain(v[0]);
            }
            m.insert(label.clone(), v);
        }
        rep.undecided = self.undecided.iter().map(|(k, n)| format!("{} (x{})", k, n)).collect();
        rep
    }
}
/// A struct of byte arrays and one small count: the count and the largest array size.
fn counted(fs: &[Val<'_>]) -> Option<(usize, usize)> {
    let byte = |x: &Val<'_>| matches!(x, Val::Undef | Val::C(_, 1) | Val::Map(_, _, _, 1) | Val::Sum(_, _, 1));
    let mut count = None;
    let mut size = 0;
    for f in fs {
        match f {
            Val::Agg(_, v) if v.len() >= 4 && v.iter().all(byte) => size = size.max(v.len()),
            Val::C(k, _) if count.is_none() => count = Some(*k as usize),
            _ => return None,
        }
    }
    let k = count?;
    if size > 0 && k <= size { Some((k, size)) } else { None }
}
fn pure_output(s: &Seg) -> bool {
    s.tagged && s.ch.is_none() && s.parts.iter().all(|p| matches!(p, Part::L(l) if lang::input_of(*l) == lang::eps()))
}
fn merge(a: Seg, b: Seg) -> Seg {
    let eps = |s: &Seg| s.ch.is_none() && s.parts.iter().all(|p| matches!(p, Part::L(l) if *l == lang::eps()));
    if eps(&a) {
        return b;
    }
    if eps(&b) {
        return a;
    }
    let plain = |s: &Seg| -> Vec<Part> {
        if s.tagged {
            return s.parts.clone();
        }
        s.parts
            .iter()
            .map(|p| match p {
                Part::L(l) if s.kept => Part::L(lang::keep(*l)),
                Part::Var(v, _) if s.kept => Part::Var(*v, true),
                p => p.clone(),
            })
            .collect()
    };
    let same = a.kept == b.kept && a.tagged == b.tagged;
    let mut r = Seg { parts: vec![], ch: None, kept: a.kept && same, tagged: if same { a.tagged } else { true }, born: 0 };
    let (pa, pb) = if same { (a.parts, b.parts) } else { (plain(&a), plain(&b)) };
    if !same {
        r.kept = false;
    }
    for p in pa.into_iter().chain(pb) {
        match (r.parts.last_mut(), &p) {
            (Some(Part::L(x)), Part::L(y)) => *x = lang::concat(*x, *y),
            _ => r.parts.push(p),
        }
    }
    r
}
pub fn short(s: &str) -> String {
    // drop generic arguments for readability
    s.rsplit("::").next().unwrap_or(s).to_string()
}
pub fn show_parts(p: &[Part]) -> String {
    p.iter()
        .map(|x| match x {
            Part::L(l) => match lang::singleton(*l) {
                Some(w) => format!("'{}'", lang::show(&w)),
                None => format!("L{}[{}~{}]", l, lang::dfa(*l).n(), lang::shortest(*l).map(|w| lang::show(&w)).unwrap_or_default()),
            },
            Part::Var(v, k) => format!("v{}{}", v, if *k { "k" } else { "" }),
            Part::Hole(_) => "_".into(),
        })
        .collect::<Vec<_>>()
        .join("")
}
pub fn show_tapes(st: &State<'_>) -> String {
    st.tapes
        .iter()
        .map(|t| {
            let mut o = String::new();
            for i in 0..t.b.len() {
                o.push_str(&format!(" {}", t.b[i]));
                if i < t.s.len() {
                    let g = &t.s[i];
                    o.push_str(&format!(" {}{}{}{}", if g.kept { "K" } else { "" }, if g.tagged { "T" } else { "" }, if g.ch.is_some() { "c" } else { "" }, show_parts(&g.parts)));
                }
            }
            o
        })
        .collect::<Vec<_>>()
        .join(" || ")
}
pub fn initial<'tcx>(w: &mut World<'tcx>, inst: Instance<'tcx>, stream: bool, init: &[L]) -> Result<State<'tcx>, String> {
    let info = w.body(inst).ok_or("no body")?;
    let n = info.body.arg_count;
    let mut locals = vec![Val::Undef; info.body.local_decls.len()];
    let mut tapes = vec![];
    let mut nextb = 0;
    for i in 1..=n {
        let t = info.body.local_decls[rustc_middle::mir::Local::from_usize(i)].ty;
        let inner = t.builtin_deref(true);
        match inner {
            Some(x) if w.is_strlike(x) => {
                let mut l = param_lang(x).ok_or_else(|| format!("unsupported root parameter {}", t))?;
                if let Some(x) = init.get(tapes.len()) {
                    l = *x;
                }
                if let (0, Ok(r)) = (tapes.len(), std::env::var("VP_INIT")) {
                    l = crate::spec::inter(l, crate::spec::regex(&r));
                }
                nextb += 2;
                let k = tapes.len() as u8;
                tapes.push(Tape { b: vec![nextb - 1, nextb], s: vec![Seg::new(l)] });
                locals[i] = Val::Str(Rope::new(vec![Piece::T(k, nextb - 1, nextb)]));
            }
            _ => return Err(format!("unsupported root parameter {}", t)),
        }
    }
    let outpos = if stream { Some(tapes.first().map(|t: &Tape| (0u8, t.b[0])).ok_or("streaming root without input")?) } else { None };
    Ok(State {
        frames: vec![Frame { inst, kind: FrameKind::Body, bb: START_BLOCK, stmt: 0, locals, dest: None, target: None, loops: vec![] }],
        heap: vec![],
        tapes,
        nextb,
        clock: 0,
        outpos,
        outerr: false,
        out: Rope::default(),
        imprecise: false,
        assume: vec![],
        note: Rc::new(vec![]),
    })
}
/// The set of texts a parameter of this type can hold (its type invariant).
pub fn param_lang(t: Ty<'_>) -> Option<L> {
    match t.kind() {
        ty::Str => Some(lang::utf8()),
        ty::Slice(_) => Some(lang::all_bytes()),
        ty::Adt(d, args) => {
            let dbg = format!("{:?}", args);
            let iri = dbg.contains("IriSpec");
            crate::spec::type_lang(&short(&format!("{:?}", d)), iri)
        }
        _ => None,
    }
}
