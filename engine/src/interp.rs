//! Abstract interpreter for monomorphic MIR.
use crate::lang;
use crate::tape::*;
use crate::val::*;
use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use crate::lang::L;
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::rc::Rc;

pub struct BodyInfo<'tcx> {
    pub body: Body<'tcx>,
    pub live: Vec<HashSet<u32>>,
    pub heads: HashMap<u32, HashSet<u32>>,
    pub joins: HashSet<u32>,
    /// reverse post-order number of each block, loop bodies before loop exits
    pub rpo: Vec<u32>,
    pub is_std: bool,
}
pub struct World<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub bodies: HashMap<Instance<'tcx>, Option<Rc<BodyInfo<'tcx>>>>,
    pub consts: Vec<(Val<'tcx>, Ty<'tcx>)>,
    pub const_idx: HashMap<(rustc_middle::mir::interpret::AllocId, u64, Ty<'tcx>), u32>,
    pub const_val: HashMap<(Val<'tcx>, Ty<'tcx>), u32>,
    pub names: HashMap<DefId, Rc<String>>,
    pub models: HashMap<String, DefId>,
    pub called: HashMap<String, usize>,
    pub deadline: std::time::Instant,
    pub summaries: HashMap<(Instance<'tcx>, Vec<Val<'tcx>>), Option<Summary<'tcx>>>,
    /// functions analysed while building each summary
    pub preds: HashMap<(Ty<'tcx>, String, Val<'tcx>, Vec<Val<'tcx>>), Option<(L, Vec<String>)>>,
    pub sum_called: HashMap<(Instance<'tcx>, Vec<Val<'tcx>>), Vec<String>>,
    pub scalars: HashMap<String, Option<(Vec<Vec<u128>>, Vec<String>)>>,
    pub steps: u64,
    pub fail_writes: bool,
    /// the first String that grows is streamed
    pub sbuf: bool,
    pub atoms: Vec<String>,
    pub trace: bool,
}
pub enum Flow<'tcx> {
    Next,
    Jump,
    Ret,
    /// root returned this value
    Done(Val<'tcx>, Ty<'tcx>),
    Panic(String),
}
#[derive(Clone, Debug)]
pub enum Pl {
    Mem(Ptr),
    Data(Rope),
    Slice(Ptr, u32, u32),
    Byte(Rope, LinLen),
    /// element of a constant-size array selected by a char-derived index
    MapIdx(Ptr, u8, BId, PMap),
}
pub enum CallRes<'tcx> {
    Val(Val<'tcx>),
    Push(Frame<'tcx>),
    Panic(String),
    /// call this instance with these args instead
    Call(Instance<'tcx>, Vec<Val<'tcx>>),
}

pub fn signed(t: Ty<'_>) -> bool {
    matches!(t.kind(), ty::Int(_))
}

/// A count that the characters of no text reach.
pub const FAR: u64 = 1 << 62;
impl<'tcx> World<'tcx> {
    pub fn size_of(&self, t: Ty<'tcx>) -> u8 {
        match t.kind() {
            ty::Bool => 1,
            ty::Char => 4,
            ty::Int(i) => (i.bit_width().unwrap_or(64) / 8) as u8,
            ty::Uint(i) => (i.bit_width().unwrap_or(64) / 8) as u8,
            _ => match self.tcx.layout_of(self.env.as_query_input(t)) {
                Ok(l) => l.size.bytes().min(255) as u8,
                Err(_) => 8,
            },
        }
    }
    pub fn name(&mut self, d: DefId) -> Rc<String> {
        if let Some(n) = self.names.get(&d) {
            return n.clone();
        }
        let n = Rc::new(with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))));
        self.names.insert(d, n.clone());
        n
    }
    pub fn body(&mut self, i: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let r = self.load_body(i).map(Rc::new);
        self.bodies.insert(i, r.clone());
        r
    }
    fn load_body(&mut self, i: Instance<'tcx>) -> Option<BodyInfo<'tcx>> {
        match i.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return None;
                }
            }
            InstanceKind::Shim(_) => {}
            _ => return None,
        }
        let b = self.tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, b.clone()));
        let n = body.basic_blocks.len();
        let mut live: Vec<HashSet<u32>> = vec![HashSet::default(); n];
        // backward liveness
        let mut changed = true;
        while changed {
            changed = false;
            for bb in (0..n).rev() {
                let blk = &body.basic_blocks[BasicBlock::from_usize(bb)];
                let mut l: HashSet<u32> = HashSet::default();
                let term = blk.terminator();
                for s in term.successors() {
                    l.extend(live[s.as_usize()].iter());
                }
                live_term(term, &mut l);
                for st in blk.statements.iter().rev() {
                    live_stmt(st, &mut l);
                }
                if l != live[bb] {
                    live[bb] = l;
                    changed = true;
                }
            }
        }
        // loop heads via DFS back edges
        let mut color = vec![0u8; n];
        let mut heads: HashMap<u32, HashSet<u32>> = HashMap::default();
        let succ: Vec<Vec<usize>> = (0..n)
            .map(|b| {
                let t = body.basic_blocks[BasicBlock::from_usize(b)].terminator();
                t.successors().map(|x| x.as_usize()).filter(|x| !body.basic_blocks[BasicBlock::from_usize(*x)].is_cleanup).collect()
            })
            .collect();
        let mut stack = vec![(0usize, 0usize)];
        color[0] = 1;
        let mut back: Vec<(usize, usize)> = vec![];
        while let Some((b, k)) = stack.pop() {
            if k < succ[b].len() {
                stack.push((b, k + 1));
                let s = succ[b][k];
                if color[s] == 0 {
                    color[s] = 1;
                    stack.push((s, 0));
                } else if color[s] == 1 {
                    back.push((b, s));
                }
            } else {
                color[b] = 2;
            }
        }
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
        for b in 0..n {
            for &s in &succ[b] {
                pred[s].push(b);
            }
        }
        for (b, h) in back {
            let set = heads.entry(h as u32).or_default();
            set.insert(h as u32);
            let mut st = vec![b];
            while let Some(x) = st.pop() {
                if set.insert(x as u32) {
                    st.extend(pred[x].iter());
                }
            }
        }
        let joins = (0..n).filter(|&b| pred[b].len() > 1).map(|b| b as u32).collect();
        let mut rpo = vec![u32::MAX; n];
        {
            let inner = |b: usize| heads.values().filter(|s| s.contains(&(b as u32))).min_by_key(|s| s.len());
            let order = |b: usize| -> Vec<usize> {
                let mut v = succ[b].clone();
                if let Some(s) = inner(b) {
                    v.sort_by_key(|x| s.contains(&(*x as u32)));
                }
                v
            };
            let mut done = vec![false; n];
            let mut post = vec![];
            let mut st: Vec<(usize, Vec<usize>, usize)> = vec![(0, order(0), 0)];
            done[0] = true;
            while let Some((b, o, k)) = st.pop() {
                if k < o.len() {
                    let x = o[k];
                    st.push((b, o, k + 1));
                    if !done[x] {
                        done[x] = true;
                        st.push((x, order(x), 0));
                    }
                } else {
                    post.push(b);
                }
            }
            for (i, b) in post.iter().rev().enumerate() {
                rpo[*b] = i as u32;
            }
        }
        let krate = self.tcx.crate_name(i.def_id().krate);
        let is_std = matches!(krate.as_str(), "core" | "alloc" | "std");
        Some(BodyInfo { body, live, heads, joins, rpo, is_std })
    }

    // ---------------------------------------------------------------- memory
    pub fn read(&self, st: &State<'tcx>, p: &Ptr) -> R<'tcx, Val<'tcx>> {
        let mut v = match p.root {
            Root::Local(f, l) => match st.frames.get(f as usize) {
                Some(fr) => &fr.locals[l as usize],
                None => return unsup("dangling frame pointer"),
            },
            Root::Heap(h) => &st.heap[h as usize],
            Root::Const(c) => &self.consts[c as usize].0,
        };
        for e in p.path.iter() {
            let i = match e {
                PE::F(i) | PE::I(i) => *i as usize,
            };
            match v {
                Val::Agg(_, f) if i < f.len() => v = &f[i],
                Val::Undef => return Ok(Val::Undef),
                // transparent wrappers around natively modelled values
                Val::Buf(_) | Val::Str(_) | Val::Sink(..) | Val::Ref(_) | Val::Slice(..) | Val::Opaque(_) | Val::Dyn(..) | Val::Fn(_) => {}
                _ => return unsup(format!("projection {:?} of {:?}", e, v)),
            }
        }
        Ok(v.clone())
    }
    pub fn write(&self, st: &mut State<'tcx>, p: &Ptr, x: Val<'tcx>) -> R<'tcx, ()> {
        let v = match p.root {
            Root::Local(f, l) => &mut st.frames[f as usize].locals[l as usize],
            Root::Heap(h) => &mut st.heap[h as usize],
            Root::Const(_) => return unsup("write to constant"),
        };
        fn go<'tcx>(v: &mut Val<'tcx>, path: &[PE], x: Val<'tcx>) -> Result<(), String> {
            if path.is_empty() {
                *v = x;
                return Ok(());
            }
            let i = match path[0] {
                PE::F(i) | PE::I(i) => i as usize,
            };
            match v {
                Val::Agg(_, f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i {
                        f.push(Val::Undef);
                    }
                    go(&mut f[i], &path[1..], x)
                }
                Val::Undef => {
                    let mut f = vec![Val::Undef; i + 1];
                    go(&mut f[i], &path[1..], x)?;
                    *v = Val::Agg(0, Rc::new(f));
                    Ok(())
                }
                Val::Buf(_) | Val::Str(_) | Val::Sink(..) => go(v, &path[1..], x),
                _ => Err(format!("write projection into {:?}", v)),
            }
        }
        go(v, &p.path, x).map_err(Stop::Unsupported)
    }
    pub fn alloc(&self, st: &mut State<'tcx>, v: Val<'tcx>) -> Ptr {
        st.heap.push(v);
        Ptr { root: Root::Heap(st.heap.len() as u32 - 1), path: Rc::new(vec![]) }
    }
    pub fn konst(&mut self, v: Val<'tcx>, t: Ty<'tcx>) -> Ptr {
        let k = (v.clone(), t);
        let id = match self.const_val.get(&k) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(k.clone());
                self.const_val.insert(k, i);
                i
            }
        };
        Ptr { root: Root::Const(id), path: Rc::new(vec![]) }
    }
    /// Strips single-field wrappers until a pointer-like value is found.
    pub fn peel(&self, v: &Val<'tcx>) -> Val<'tcx> {
        let mut v = v.clone();
        loop {
            match &v {
                Val::Agg(_, f) => {
                    let c: Vec<&Val> = f.iter().filter(|x| !matches!(x, Val::Agg(_, g) if g.is_empty())).filter(|x| !matches!(x, Val::Undef)).collect();
                    if c.len() == 1 && !(matches!(c[0], Val::C(_, 1) | Val::Map(_, _, _, 1) | Val::Sum(_, _, 1)) && f.iter().filter(|x| matches!(x, Val::Undef)).count() >= 3) {
                        v = c[0].clone();
                    } else {
                        return v;
                    }
                }
                _ => return v,
            }
        }
    }
    pub fn deref(&self, v: &Val<'tcx>) -> R<'tcx, Pl> {
        match self.peel(v) {
            Val::Ref(p) => Ok(Pl::Mem(p)),
            Val::Str(r) => Ok(Pl::Data(r)),
            Val::Slice(p, o, n) => Ok(Pl::Slice(p, o, n)),
            Val::Dyn(p, _) => self.deref(&p),
            x => unsup(format!("dereference of {:?}", x)),
        }
    }
    pub fn place(&mut self, st: &State<'tcx>, pl: &Place<'tcx>) -> R<'tcx, Pl> {
        let f = st.frames.len() as u32 - 1;
        let mut cur = Pl::Mem(Ptr { root: Root::Local(f, pl.local.as_u32()), path: Rc::new(vec![]) });
        for e in pl.projection.iter() {
            cur = match (e, cur) {
                (ProjectionElem::Deref, c) => {
                    let v = self.read_pl(st, &c)?;
                    self.deref(&v)?
                }
                (ProjectionElem::Field(i, _), Pl::Mem(p)) => {
                    let mut path = (*p.path).clone();
                    path.push(PE::F(i.as_u32()));
                    Pl::Mem(Ptr { root: p.root, path: Rc::new(path) })
                }
                (ProjectionElem::Field(..), c) => c,
                (ProjectionElem::Downcast(..), c) => c,
                (ProjectionElem::OpaqueCast(..), c) => c,
                (ProjectionElem::Index(l), c) => {
                    let iv = st.frames[f as usize].locals[l.as_usize()].clone();
                    let iv = self.norm(st, iv);
                    self.index(st, c, iv)?
                }
                (ProjectionElem::ConstantIndex { offset, min_length: _, from_end }, c) => {
                    if from_end {
                        let l = self.pl_len(st, &c)?;
                        let k = l.add(&LinLen::c(offset as i64), -1);
                        let v = st.len_val(k);
                        self.index(st, c, v)?
                    } else {
                        self.index(st, c, usz(offset))?
                    }
                }
                (ProjectionElem::Subslice { from, to, from_end }, c) => match c {
                    Pl::Slice(p, o, n) => {
                        let t = if from_end { n - to as u32 } else { to as u32 };
                        Pl::Slice(p, o + from as u32, t - from as u32)
                    }
                    Pl::Data(r) => {
                        let to = if from_end { st.rope_len(&r)?.add(&LinLen::c(to as i64), -1) } else { LinLen::c(to as i64) };
                        let (l, _) = match st.split_rope(&r, &to)? {
                            Some(x) => x,
                            None => return unsup("subslice out of range"),
                        };
                        let (_, m) = match st.split_rope(&l, &LinLen::c(from as i64))? {
                            Some(x) => x,
                            None => return unsup("subslice out of range"),
                        };
                        Pl::Data(m)
                    }
                    Pl::Mem(p) => {
                        let v = self.read(st, &p)?;
                        let n = match v {
                            Val::Agg(_, f) => f.len() as u32,
                            _ => return unsup("subslice"),
                        };
                        let t = if from_end { n - to as u32 } else { to as u32 };
                        Pl::Slice(p, from as u32, t - from as u32)
                    }
                    _ => return unsup("subslice"),
                },
                (e, c) => return unsup(format!("projection {:?} on {:?}", e, c)),
            };
        }
        Ok(cur)
    }
    fn pl_len(&self, st: &State<'tcx>, c: &Pl) -> R<'tcx, LinLen> {
        Ok(match c {
            Pl::Data(r) => st.rope_len(r)?,
            Pl::Slice(_, _, n) => LinLen::c(*n as i64),
            Pl::Mem(p) => match self.read(st, p)? {
                Val::Agg(_, f) => LinLen::c(f.len() as i64),
                _ => return unsup("length of place"),
            },
            _ => return unsup("length of place"),
        })
    }
    pub fn index(&self, st: &State<'tcx>, c: Pl, iv: Val<'tcx>) -> R<'tcx, Pl> {
        match (c, iv) {
            (Pl::Mem(p), Val::C(k, _)) => {
                if let Val::Str(r) | Val::Buf(r) = self.read(st, &p)? {
                    return Ok(Pl::Byte(r, LinLen::c(k as i64)));
                }
                let mut path = (*p.path).clone();
                path.push(PE::I(k as u32));
                Ok(Pl::Mem(Ptr { root: p.root, path: Rc::new(path) }))
            }
            (Pl::Slice(p, o, _), Val::C(k, _)) => {
                let mut path = (*p.path).clone();
                path.push(PE::I(o + k as u32));
                Ok(Pl::Mem(Ptr { root: p.root, path: Rc::new(path) }))
            }
            (Pl::Data(r), Val::C(k, _)) => Ok(Pl::Byte(r, LinLen::c(k as i64))),
            (Pl::Data(r), Val::Len(l)) => Ok(Pl::Byte(r, (*l).clone())),
            (Pl::Mem(p), Val::Map(t, b, m, _)) => Ok(Pl::MapIdx(p, t, b, m)),
            (Pl::Slice(p, o, _), Val::Map(t, b, m, _)) => {
                let m2 = map_apply(&m, |lo, hi, v| {
                    vec![(lo, hi, match v {
                        MV::C(c) => MV::C(c + o as u128),
                        MV::Lin(k) => MV::Lin(k + o as i64),
                    })]
                });
                Ok(Pl::MapIdx(p, t, b, Rc::new(m2)))
            }
            (Pl::Data(r), Val::Map(t, b, m, _)) => {
                if let Some(bytes) = r.as_const() {
                    let _ = bytes;
                    return Ok(Pl::MapIdx(Ptr { root: Root::Const(u32::MAX), path: Rc::new(vec![]) }, t, b, m)).and_then(|_: Pl| unsup("char-indexed constant string"));
                }
                unsup("char-indexed string")
            }
            (c, i) => unsup(format!("index {:?} of {:?}", i, c)),
        }
    }
    pub fn read_pl(&mut self, st: &State<'tcx>, p: &Pl) -> R<'tcx, Val<'tcx>> {
        match p {
            Pl::Mem(p) => {
                let v = self.read(st, p)?;
                Ok(self.norm(st, v))
            }
            Pl::Data(r) => Ok(Val::Str(r.clone())),
            Pl::Slice(p, o, n) => Ok(Val::Slice(p.clone(), *o, *n)),
            Pl::Byte(r, off) => match st.split_rope(r, off)? {
                None => unsup("byte index out of range"),
                Some((_, rest)) => match st.first_byte(&rest)? {
                    Some((v, _)) => Ok(v),
                    None => unsup("byte index out of range"),
                },
            },
            Pl::MapIdx(p, t, b, m) => {
                let arr = match self.read(st, p)? {
                    Val::Agg(_, f) => f,
                    _ => return unsup("map-indexed non-array"),
                };
                let i = st.bidx(*t, *b);
                let set = st.seg(*t, i).ch.clone().unwrap().0;
                let m = restrict(m, &set);
                let mut out = vec![];
                let mut sz = 1;
                for (lo, hi, v) in m {
                    for x in lo..=hi {
                        let k = match v {
                            MV::C(c) => c as usize,
                            MV::Lin(k) => (x as i64 + k) as usize,
                        };
                        match arr.get(k) {
                            Some(Val::C(c, s)) => {
                                sz = *s;
                                out.push((x, x, MV::C(*c)));
                            }
                            Some(_) => return unsup("map-indexed array of non-integers"),
                            None => return unsup("map index out of range"),
                        }
                        if out.len() > 4096 {
                            return unsup("map index over a large range");
                        }
                    }
                }
                Ok(st.norm_map(*t, *b, &Rc::new(norm_pm(out)), sz))
            }
        }
    }
    pub fn norm(&self, st: &State<'tcx>, v: Val<'tcx>) -> Val<'tcx> {
        match v {
            Val::Map(t, b, m, s) => st.norm_map(t, b, &m, s),
            Val::Sum(x, mut c, s) => {
                let mut o = vec![];
                for (t, b, m) in x.iter() {
                    match st.norm_map(*t, *b, m, s) {
                        Val::C(y, _) => c |= y,
                        Val::Map(t, b, m, _) => o.push((t, b, m)),
                        _ => unreachable!(),
                    }
                }
                match o.len() {
                    0 => Val::C(c, s),
                    1 => {
                        let (t, b, m) = o.pop().unwrap();
                        let r = if c == 0 { (*m).clone() } else { map_apply(&m, |lo, hi, v| each(lo, hi, v, |x| x | c)) };
                        st.norm_map(t, b, &Rc::new(r), s)
                    }
                    _ => Val::Sum(Rc::new(o), c, s),
                }
            }
            Val::Len(l) => st.len_val((*l).clone()),
            v => v,
        }
    }

    // ---------------------------------------------------------------- constants
    pub fn const_to_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let tcx = self.tcx;
        match (v, t.kind()) {
            (ConstValue::ZeroSized, ty::FnDef(..)) => Ok(unit()),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) => {
                let sz = i.size().bytes() as u8;
                Ok(Val::C(i.to_bits(i.size()), sz))
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) => Ok(Val::C(i.to_bits(i.size()), 8)),
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                self.ptr_const(id, off.bytes(), t, None)
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(..) | ty::RawPtr(..)) => self.ptr_const(alloc_id, 0, t, Some(meta)),
            (_, ty::Ref(..) | ty::RawPtr(..)) => {
                // indirect fat pointer
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let a = tcx.global_alloc(alloc_id).unwrap_memory();
                    let a = a.inner();
                    let p = a.read_scalar(&tcx, AllocRange { start: offset, size: Size::from_bytes(8) }, true);
                    let fat = self.size_of(t) == 16;
                    let meta = if fat {
                        a.read_scalar(&tcx, AllocRange { start: offset + Size::from_bytes(8), size: Size::from_bytes(8) }, false).ok().and_then(|s| s.to_target_usize(&tcx).discard_err())
                    } else {
                        None
                    };
                    if let Ok(Scalar::Ptr(p, _)) = p {
                        let (prov, off) = p.into_raw_parts();
                        return self.ptr_const(prov.alloc_id(), off.bytes(), t, meta);
                    }
                }
                unsup("constant pointer")
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let sz = self.size_of(t);
                match a.inner().read_scalar(&tcx, AllocRange { start: offset, size: Size::from_bytes(sz as u64) }, false) {
                    Ok(Scalar::Int(i)) => Ok(Val::C(i.to_bits(i.size()), sz)),
                    _ => unsup("constant scalar"),
                }
            }
            (_, ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) => {
                if let ty::Array(e, n) = t.kind() {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        if let ConstValue::Indirect { alloc_id, offset } = v {
                            let n = n.try_to_target_usize(tcx).unwrap();
                            let a = tcx.global_alloc(alloc_id).unwrap_memory();
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..(offset.bytes() + n) as usize);
                            return Ok(agg(0, b.iter().map(|x| Val::C(*x as u128, 1)).collect()));
                        }
                    }
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return Ok(Val::Undef);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<_> = d.fields.to_vec();
                        let mut out = vec![];
                        for (fv, ft) in fs {
                            out.push(self.const_to_val(fv, ft)?);
                        }
                        Ok(agg(d.variant.map(|v| v.as_u32()).unwrap_or(0), out))
                    }
                    None => unsup(format!("constant of type {}", t)),
                }
            }
            (ConstValue::ZeroSized, _) => Ok(unit()),
            _ => unsup(format!("constant {:?} of type {}", v, t)),
        }
    }
    fn is_u8(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Uint(ty::UintTy::U8))
    }
    /// Is this unsized type a (newtype of) str or [u8]?
    pub fn is_strlike(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Str => true,
            ty::Slice(e) => self.is_u8(*e),
            ty::Adt(..) => {
                let tail = self.tcx.struct_tail_for_codegen(t, self.env);
                matches!(tail.kind(), ty::Str) || matches!(tail.kind(), ty::Slice(e) if self.is_u8(*e))
            }
            _ => false,
        }
    }
    fn ptr_const(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>) -> R<'tcx, Val<'tcx>> {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => return Ok(Val::Fn(instance)),
            GlobalAlloc::Static(d) => {
                let inner = t.builtin_deref(true).unwrap();
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    let aid = tcx.reserve_and_set_memory_alloc(a);
                    let v = self.const_to_val(ConstValue::Indirect { alloc_id: aid, offset: Size::from_bytes(off) }, inner)?;
                    let p = self.konst(v, inner);
                    return Ok(Val::Ref(p));
                }
                return unsup("static");
            }
            GlobalAlloc::Memory(_) => {}
            _ => return unsup("constant pointer to non-memory"),
        }
        let inner = match t.builtin_deref(true) {
            Some(i) => i,
            None => return unsup("constant pointer type"),
        };
        if let Some(n) = meta {
            let tail = tcx.struct_tail_for_codegen(inner, self.env);
            let a = tcx.global_alloc(id).unwrap_memory();
            match tail.kind() {
                ty::Str => {}
                ty::Slice(e) if self.is_u8(*e) => {}
                ty::Slice(e) => {
                    let at = Ty::new_array(tcx, *e, n);
                    let v = self.const_to_val(ConstValue::Indirect { alloc_id: id, offset: Size::from_bytes(off) }, at)?;
                    let p = self.konst(v, at);
                    return Ok(Val::Slice(p, 0, n as u32));
                }
                _ => return unsup("constant fat pointer"),
            }
            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
            return Ok(Val::Str(Rope::konst(b)));
        }
        if let Some(&i) = self.const_idx.get(&(id, off, inner)) {
            return Ok(Val::Ref(Ptr { root: Root::Const(i), path: Rc::new(vec![]) }));
        }
        let v = self.const_to_val(ConstValue::Indirect { alloc_id: id, offset: Size::from_bytes(off) }, inner)?;
        let p = self.konst(v, inner);
        if let Root::Const(i) = p.root {
            self.const_idx.insert((id, off, inner), i);
        }
        Ok(Val::Ref(p))
    }
    pub fn operand(&mut self, st: &State<'tcx>, o: &Operand<'tcx>) -> R<'tcx, Val<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, p)?;
                self.read_pl(st, &pl)
            }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(..) = t.kind() {
                    return Ok(unit());
                }
                match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
                    Ok(v) => self.const_to_val(v, t),
                    Err(_) => unsup("constant evaluation"),
                }
            }
            Operand::RuntimeChecks(_) => Ok(c_bool(false)),
        }
    }

    /// The variant of a zero-sized enum type.
    fn only_variant(&self, t: Ty<'tcx>) -> Option<VariantIdx> {
        let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        match l.variants {
            rustc_abi::Variants::Single { index } if l.is_zst() => Some(index),
            _ => None,
        }
    }
    // ---------------------------------------------------------------- arithmetic
    pub fn binop(&mut self, st: &State<'tcx>, op: BinOp, a: Val<'tcx>, b: Val<'tcx>, t: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        use BinOp::*;
        let a = self.peel(&self.norm(st, a));
        let b = self.peel(&self.norm(st, b));
        let sg = signed(t);
        let cmpop = matches!(op, Eq | Ne | Lt | Le | Gt | Ge);
        let over = matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow);
        if op == Cmp {
            let lt = self.binop(st, Lt, a.clone(), b.clone(), t)?;
            let eq = self.binop(st, Eq, a, b, t)?;
            return match (lt, eq) {
                (Val::C(1, _), _) => Ok(agg(0, vec![])),
                (_, Val::C(1, _)) => Ok(agg(1, vec![])),
                (Val::C(0, _), Val::C(0, _)) => Ok(agg(2, vec![])),
                (Val::Map(t, b, m, _), _) => st.fork_map(t, b, &m),
                (_, Val::Map(t, b, m, _)) => st.fork_map(t, b, &m),
                _ => unsup("three-way comparison"),
            };
        }
        if let Some(r) = self.sum_bin(st, op, &a, &b, signed(t))? {
            return Ok(r);
        }
        // a limit that no text reaches stays out of reach when counts of characters are taken from it
        if !sg && matches!(op, Sub | SubUnchecked | SubWithOverflow) {
            let far = match &a {
                Val::C(x, 8) => *x == u64::MAX as u128,
                Val::Ge(x) => *x >= FAR,
                _ => false,
            };
            let count = match &b {
                Val::C(y, 8) => *y > 0 && *y < 1 << 32,
                Val::Ge(y) => *y < 1 << 32,
                _ => false,
            };
            if far && count {
                let v = Val::Ge(FAR);
                return Ok(if over { agg(0, vec![v, c_bool(false)]) } else { v });
            }
        }
        match (&a, &b) {
            (Val::C(x, s), Val::C(y, s2)) => {
                let (r, o) = arith(op, *x, *y, *s, *s2, sg).ok_or_else(|| Stop::Unsupported(format!("binop {:?}", op)))?;
                if cmpop {
                    return Ok(c_bool(r != 0));
                }
                if over {
                    return Ok(agg(0, vec![Val::C(r, *s), c_bool(o)]));
                }
                Ok(Val::C(r, *s))
            }
            (Val::Len(_), Val::C(..)) | (Val::C(..), Val::Len(_)) | (Val::Len(_), Val::Len(_)) => {
                let f = |v: &Val<'tcx>| match v {
                    Val::Len(l) => (**l).clone(),
                    Val::C(c, _) => LinLen::c(*c as u64 as i64),
                    _ => unreachable!(),
                };
                let (x, y) = (f(&a), f(&b));
                if cmpop {
                    let d = x.add(&y, -1);
                    use std::cmp::Ordering::*;
                    let r = match op {
                        Eq => st.sign(&d).map(|x| x == Equal),
                        Ne => st.sign(&d).map(|x| x != Equal),
                        Lt => st.neg(&d),
                        Le => st.pos(&d).map(|x| !x),
                        Gt => st.pos(&d),
                        Ge => st.neg(&d).map(|x| !x),
                        _ => unreachable!(),
                    };
                    return match r {
                        // lengths of unrelated texts: either way
                        Err(Stop::Unsupported(m)) if m == crate::tape::UNDECIDABLE_LEN => Ok(Val::Top(1)),
                        r => Ok(c_bool(r?)),
                    };
                }
                match op {
                    Add | AddUnchecked => Ok(st.len_val(x.add(&y, 1))),
                    AddWithOverflow => Ok(agg(0, vec![st.len_val(x.add(&y, 1)), c_bool(false)])),
                    Sub | SubUnchecked => Ok(st.len_val(x.add(&y, -1))),
                    SubWithOverflow => {
                        let d = x.add(&y, -1);
                        let o = st.neg(&d)?;
                        Ok(agg(0, vec![st.len_val(d), c_bool(o)]))
                    }
                    MulWithOverflow | Mul => match (&a, &b) {
                        (Val::Len(_), Val::C(k, _)) => {
                            let mut r = LinLen::c(0);
                            for _ in 0..*k {
                                r = r.add(&x, 1);
                            }
                            let v = st.len_val(r);
                            Ok(if over { agg(0, vec![v, c_bool(false)]) } else { v })
                        }
                        _ => Ok(Val::Top(8)),
                    },
                    _ => Ok(Val::Top(8)),
                }
            }
            (Val::Map(t1, b1, m, s), Val::C(y, s2)) => {
                let (s, s2, y) = (*s, *s2, *y);
                self.map_bin(st, op, *t1, *b1, m, s, s2, y, true, sg)
            }
            (Val::C(x, s2), Val::Map(t1, b1, m, s)) => {
                let (s, s2, x) = (*s, *s2, *x);
                self.map_bin(st, op, *t1, *b1, m, s, s2, x, false, sg)
            }
            (Val::Map(t1, b1, m1, s), Val::Map(t2, b2, m2, s2)) => {
                if t1 == t2 && b1 == b2 {
                    // pointwise on common refinement
                    let mut out = vec![];
                    let mut out2 = vec![];
                    for &(lo, hi, v) in m1.iter() {
                        for &(lo2, hi2, w) in m2.iter() {
                            let (l, h) = (lo.max(lo2), hi.min(hi2));
                            if l > h {
                                continue;
                            }
                            if h - l > 0x3000 {
                                return st.fork_map(*t1, *b1, m1);
                            }
                            for x in l..=h {
                                let g = |v: MV| match v {
                                    MV::C(c) => c,
                                    MV::Lin(k) => (x as i64 + k) as u128,
                                };
                                let (r, o) = arith(op, g(v), g(w), *s, *s2, sg).ok_or_else(|| Stop::Unsupported("binop".into()))?;
                                out.push((x, x, MV::C(r)));
                                out2.push((x, x, MV::C(o as u128)));
                            }
                        }
                    }
                    let rs = if cmpop { 1 } else { *s };
                    let v = st.norm_map(*t1, *b1, &Rc::new(norm_pm(out)), rs);
                    if over {
                        let o = st.norm_map(*t1, *b1, &Rc::new(norm_pm(out2)), 1);
                        return Ok(agg(0, vec![v, o]));
                    }
                    return Ok(v);
                }
                // concretise the smaller one
                st.fork_map(*t1, *b1, m1)
            }
            (Val::Map(t1, b1, m, _), Val::Len(_)) | (Val::Len(_), Val::Map(t1, b1, m, _)) => st.fork_map(*t1, *b1, m),
            (Val::Atom(..), Val::C(y, _)) | (Val::C(y, _), Val::Atom(..)) if matches!(op, Eq | Ne | BitXor) => {
                let at = if let Val::Atom(i, n) = &a { (*i, *n) } else if let Val::Atom(i, n) = &b { (*i, *n) } else { unreachable!() };
                let flip = match op {
                    Eq => *y == 0,
                    _ => *y != 0,
                };
                Ok(Val::Atom(at.0, at.1 ^ flip))
            }
            (Val::Ge(lo), Val::C(c, _)) if !cmpop && (*c as u64) < 1 << 32 && matches!(op, Add | AddWithOverflow | AddUnchecked) || !cmpop && (*c as u64) <= *lo && matches!(op, Sub | SubWithOverflow | SubUnchecked) => {
                let v = Val::Ge(if matches!(op, Add | AddWithOverflow | AddUnchecked) { lo + *c as u64 } else { lo - *c as u64 });
                Ok(if over { agg(0, vec![v, c_bool(false)]) } else { v })
            }
            (Val::C(c, _), Val::Ge(lo)) if (*c as u64) < 1 << 32 && matches!(op, Add | AddWithOverflow | AddUnchecked) => {
                let v = Val::Ge(lo + *c as u64);
                Ok(if over { agg(0, vec![v, c_bool(false)]) } else { v })
            }
            (Val::Ge(lo), Val::C(c, _)) if cmpop && (*c as u64) < *lo => Ok(c_bool(matches!(op, Ne | Gt | Ge))),
            (Val::C(c, _), Val::Ge(lo)) if cmpop && (*c as u64) < *lo => Ok(c_bool(matches!(op, Ne | Lt | Le))),
            (Val::Ge(lo), Val::C(c, _)) if cmpop && *c as u64 == *lo && matches!(op, Lt | Ge) => Ok(c_bool(matches!(op, Ge))),
            (Val::C(c, _), Val::Ge(lo)) if cmpop && *c as u64 == *lo && matches!(op, Gt | Le) => Ok(c_bool(matches!(op, Le))),
            (Val::Ge(_), _) => {
                let a = Val::Top(8);
                self.binop(st, op, a, b.clone(), t)
            }
            (_, Val::Ge(_)) => {
                let b = Val::Top(8);
                self.binop(st, op, a.clone(), b, t)
            }
            (Val::Top(s), _) | (_, Val::Top(s)) => {
                let v = Val::Top(if cmpop { 1 } else { *s });
                // lengths and counters do not overflow
                let sure = *s >= 4 && matches!(op, AddWithOverflow);
                Ok(if over { agg(0, vec![v, if sure { c_bool(false) } else { Val::Top(1) }]) } else { v })
            }
            (Val::Agg(v1, f1), Val::Agg(v2, f2)) if cmpop && f1.is_empty() && f2.is_empty() => {
                let (r, _) = arith(op, *v1 as u128, *v2 as u128, 4, 4, false).unwrap();
                Ok(c_bool(r != 0))
            }
            (Val::Ref(p), Val::Ref(q)) if matches!(op, Eq | Ne) => Ok(c_bool((p == q) == (op == Eq))),
            _ => unsup(format!("binop {:?} on {:?}, {:?}", op, a, b)),
        }
    }
    /// Operations that produce or use sums over several segments.
    fn sum_bin(&mut self, st: &State<'tcx>, op: BinOp, a: &Val<'tcx>, b: &Val<'tcx>, sg: bool) -> R<'tcx, Option<Val<'tcx>>> {
        use BinOp::*;
        let sz = |v: &Val<'tcx>| match v {
            Val::C(_, s) | Val::Map(_, _, _, s) | Val::Sum(_, _, s) => *s,
            _ => 0,
        };
        let is = |v: &Val<'tcx>| matches!(v, Val::Sum(..));
        let (mut x, mut y) = match (sum_parts(a), sum_parts(b)) {
            (Some(x), Some(y)) => (x, y),
            _ => return if is(a) || is(b) { unsup(format!("binop {:?} on a computed number", op)) } else { Ok(None) },
        };
        if !is(a) && !is(b) {
            // two functions of different segments, wide enough to be worth tracking together
            match (a, b) {
                (Val::Map(t, u, _, s), Val::Map(t2, u2, _, s2)) if (t, u) != (t2, u2) && *s <= 4 && *s2 <= 4 && matches!(op, Add | AddUnchecked | AddWithOverflow | BitOr) => {}
                _ => return Ok(None),
            }
        }
        let s = sz(a);
        if sg && matches!(op, Lt | Le | Gt | Ge) {
            // flipping the sign bit turns the signed order into the unsigned one
            let sign = 1u128 << (8 * s as u32 - 1);
            for p in [&mut x, &mut y] {
                match p.0.iter_mut().find(|q| mask_of(&q.2) & sign != 0) {
                    Some(q) => q.2 = Rc::new(map_apply(&q.2, |lo, hi, v| each(lo, hi, v, |z| z ^ sign))),
                    None => p.1 ^= sign,
                }
            }
        }
        if sg && matches!(op, Shr | ShrUnchecked | AddWithOverflow) {
            return self.sum_fork(st, a, b);
        }
        match op {
            Add | AddUnchecked | AddWithOverflow | BitOr | BitXor => {
                let mut seen = x.1 | y.1;
                let mut clash = x.1 & y.1 != 0;
                let mut o = x.0.clone();
                o.extend(y.0.iter().cloned());
                for (_, _, m) in &o {
                    let k = mask_of(m);
                    clash |= seen & k != 0;
                    seen |= k;
                }
                if !clash {
                    let v = self.norm(st, Val::Sum(Rc::new(o), x.1 | y.1, s));
                    return Ok(Some(if op == AddWithOverflow { agg(0, vec![v, c_bool(false)]) } else { v }));
                }
                if (x.0.is_empty() || y.0.is_empty()) && matches!(op, Add | AddUnchecked | AddWithOverflow) {
                    // add the constant to the term it overlaps
                    let (p, k) = if y.0.is_empty() { (&x, y.1) } else { (&y, x.1) };
                    for i in 0..p.0.len() {
                        let mut o = p.0.clone();
                        if range_of(&o[i].2).1 + k >= 1 << (8 * s as u32) {
                            continue;
                        }
                        o[i].2 = Rc::new(map_apply(&o[i].2, |lo, hi, v| each(lo, hi, v, |z| z + k)));
                        let mut seen = p.1;
                        if o.iter().all(|(_, _, m)| {
                            let k = mask_of(m);
                            let ok = seen & k == 0;
                            seen |= k;
                            ok
                        }) {
                            let v = self.norm(st, Val::Sum(Rc::new(o), p.1, s));
                            return Ok(Some(if op == AddWithOverflow { agg(0, vec![v, c_bool(false)]) } else { v }));
                        }
                    }
                }
                self.sum_fork(st, a, b)
            }
            BitAnd if y.0.is_empty() || x.0.is_empty() => {
                let (p, k) = if y.0.is_empty() { (&x, y.1) } else { (&y, x.1) };
                let o = p.0.iter().map(|(t, b, m)| (*t, *b, Rc::new(map_apply(m, |lo, hi, v| each(lo, hi, v, |z| z & k))))).collect();
                Ok(Some(self.norm(st, Val::Sum(Rc::new(o), p.1 & k, s))))
            }
            Shr | ShrUnchecked if y.0.is_empty() => {
                let k = y.1 as u32 & (8 * s as u32 - 1);
                let o = x.0.iter().map(|(t, b, m)| (*t, *b, Rc::new(map_apply(m, |lo, hi, v| each(lo, hi, v, |z| z >> k))))).collect();
                Ok(Some(self.norm(st, Val::Sum(Rc::new(o), x.1 >> k, s))))
            }
            Shl | ShlUnchecked if y.0.is_empty() => {
                let k = y.1 as u32 & (8 * s as u32 - 1);
                let o = x.0.iter().map(|(t, b, m)| (*t, *b, Rc::new(map_apply(m, |lo, hi, v| each(lo, hi, v, |z| trunc(z << k, s)))))).collect();
                Ok(Some(self.norm(st, Val::Sum(Rc::new(o), trunc(x.1 << k, s), s))))
            }
            Eq | Ne | Lt | Le | Gt | Ge if y.0.is_empty() || x.0.is_empty() => {
                let (p, k, left) = if y.0.is_empty() { (&x, y.1, true) } else { (&y, x.1, false) };
                // total range
                let mut terms: Vec<(u128, u128, usize)> = p.0.iter().enumerate().map(|(i, (_, _, m))| { let (l, h) = range_of(m); (h, l, i) }).collect();
                terms.sort();
                let (h, l, i) = terms.pop().unwrap();
                let (rl, rh) = terms.iter().fold((p.1, p.1), |q, z| (q.0 + z.1, q.1 + z.0));
                let dec = |l: u128, h: u128| -> Option<bool> {
                    let (a, b) = if left { ((l, h), (k, k)) } else { ((k, k), (l, h)) };
                    match op {
                        Lt => if a.1 < b.0 { Some(true) } else if a.0 >= b.1 { Some(false) } else { None },
                        Le => if a.1 <= b.0 { Some(true) } else if a.0 > b.1 { Some(false) } else { None },
                        Gt => if a.0 > b.1 { Some(true) } else if a.1 <= b.0 { Some(false) } else { None },
                        Ge => if a.0 >= b.1 { Some(true) } else if a.1 < b.0 { Some(false) } else { None },
                        _ => if h < k || l > k { Some(op == Ne) } else if l == h { Some(op == Eq) } else { None },
                    }
                };
                if let Some(r) = dec(rl + l, rh + h) {
                    return Ok(Some(c_bool(r)));
                }
                let (t, b, m) = &p.0[i];
                // split the biggest term: decided values together, the others one by one
                let m2 = map_apply(m, |lo, hi, v| {
                    each(lo, hi, v, |z| match dec(z + rl, z + rh) {
                        Some(r) => r as u128,
                        None => 2 + z,
                    })
                });
                Ok(Some(st.fork_map(*t, *b, &Rc::new(m2))?))
            }
            _ => self.sum_fork(st, a, b),
        }
    }
    /// Splits on the values of one part of a sum.
    pub fn sum_fork<T>(&self, st: &State<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> R<'tcx, T> {
        for v in [a, b] {
            if let Val::Sum(x, ..) = v {
                let (t, b, m) = x.iter().min_by_key(|(_, _, m)| m.len()).unwrap();
                return st.fork_map(*t, *b, m);
            }
        }
        unsup("sum")
    }
    fn map_bin(&mut self, st: &State<'tcx>, op: BinOp, t: u8, b: BId, m: &PMap, s: u8, s2: u8, y: u128, left: bool, sg: bool) -> R<'tcx, Val<'tcx>> {
        use BinOp::*;
        let cmpop = matches!(op, Eq | Ne | Lt | Le | Gt | Ge);
        let over = matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow);
        let mut out = vec![];
        let mut ov = vec![];
        for &(lo, hi, v) in m.iter() {
            match v {
                MV::C(c) => {
                    let (r, o) = if left { arith(op, c, y, s, s2, sg) } else { arith(op, y, c, s2, s, sg) }.ok_or_else(|| Stop::Unsupported(format!("binop {:?}", op)))?;
                    out.push((lo, hi, MV::C(r)));
                    ov.push((lo, hi, MV::C(o as u128)));
                }
                MV::Lin(k) => {
                    let (vl, vh) = (lo as i64 + k, hi as i64 + k);
                    if cmpop && (0..=i64::MAX as u128).contains(&y) && vl >= 0 && !(sg && s < 8) {
                        let y = y as i64;
                        // split at y
                        for (l, h) in [(vl, vh.min(y - 1)), (vl.max(y), vh.min(y)), (vl.max(y + 1), vh)] {
                            if l > h {
                                continue;
                            }
                            let (r, _) = if left { arith(op, l as u128, y as u128, 8, 8, false) } else { arith(op, y as u128, l as u128, 8, 8, false) }.unwrap();
                            out.push(((l - k) as u32, (h - k) as u32, MV::C(r)));
                        }
                        continue;
                    }
                    let max: i64 = if s >= 8 { i64::MAX } else { (1i64 << (8 * s as u32)) - 1 };
                    let lin = match op {
                        Add | AddUnchecked | AddWithOverflow if y < (1 << 40) => Some(y as i64),
                        Sub | SubUnchecked | SubWithOverflow if left && y < (1 << 40) => Some(-(y as i64)),
                        _ => None,
                    };
                    if let (Some(d), false) = (lin, sg) {
                        if vl + d >= 0 && vh + d <= max {
                            out.push((lo, hi, MV::Lin(k + d)));
                            ov.push((lo, hi, MV::C(0)));
                            continue;
                        }
                        // wrap-around part
                        let ok_lo = (vl + d).max(0);
                        let ok_hi = (vh + d).min(max);
                        if ok_lo <= ok_hi {
                            let (a, z) = ((ok_lo - k - d) as u32, (ok_hi - k - d) as u32);
                            out.push((a, z, MV::Lin(k + d)));
                            ov.push((a, z, MV::C(0)));
                        }
                        let w = if s >= 8 { 0 } else { max + 1 };
                        if vl + d < 0 {
                            let h = (-1i64).min(vh + d);
                            let (a, z) = (lo, (h - k - d) as u32);
                            if s >= 8 {
                                for x in a..=z {
                                    let r = (x as i64 + k + d) as u64 as u128;
                                    out.push((x, x, MV::C(r)));
                                    ov.push((x, x, MV::C(1)));
                                }
                            } else {
                                out.push((a, z, MV::Lin(k + d + w)));
                                ov.push((a, z, MV::C(1)));
                            }
                        }
                        if vh + d > max {
                            let l = (max + 1).max(vl + d);
                            let (a, z) = ((l - k - d) as u32, hi);
                            out.push((a, z, MV::Lin(k + d - w)));
                            ov.push((a, z, MV::C(1)));
                        }
                        continue;
                    }
                    if hi - lo > 0x3000 {
                        // shifts / masks over large ranges: only by splitting on blocks
                        if matches!(op, Shr | ShrUnchecked) && left {
                            let sh = y as u32;
                            let mut x = lo;
                            loop {
                                let val = (x as i64 + k) as u64;
                                let blk_end = (((val >> sh) + 1) << sh) - 1;
                                let e = ((blk_end as i64 - k) as u64).min(hi as u64) as u32;
                                out.push((x, e, MV::C((val >> sh) as u128)));
                                ov.push((x, e, MV::C(0)));
                                if e >= hi {
                                    break;
                                }
                                x = e + 1;
                            }
                            continue;
                        }
                        return unsup(format!("operator {:?} over a large character range", op));
                    }
                    for x in lo..=hi {
                        let c = (x as i64 + k) as u128;
                        let (r, o) = if left { arith(op, c, y, s, s2, sg) } else { arith(op, y, c, s2, s, sg) }.ok_or_else(|| Stop::Unsupported(format!("binop {:?}", op)))?;
                        out.push((x, x, MV::C(r)));
                        ov.push((x, x, MV::C(o as u128)));
                    }
                }
            }
        }
        let rs = if cmpop { 1 } else if left || !matches!(op, Shl | Shr) { s } else { s2 };
        let v = st.norm_map(t, b, &Rc::new(norm_pm(out)), rs);
        if over {
            let o = st.norm_map(t, b, &Rc::new(norm_pm(ov)), 1);
            return Ok(agg(0, vec![v, o]));
        }
        Ok(v)
    }
    fn cast_int(&mut self, st: &State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let ts = self.size_of(to);
        let v = self.norm(st, v);
        match v {
            Val::C(c, s) => {
                let c = if signed(from) { sext(c, s) as u128 } else { c };
                Ok(Val::C(trunc(c, ts), ts))
            }
            Val::Agg(var, f) if f.is_empty() => {
                let d = from.discriminant_for_variant(self.tcx, VariantIdx::from_u32(var)).map(|d| d.val).unwrap_or(var as u128);
                Ok(Val::C(trunc(d, ts), ts))
            }
            Val::Sum(..) if ts >= 8 || (signed(from) && ts > self.size_of(from)) => self.sum_fork(st, &v, &v),
            Val::Sum(x, c, _) => {
                let o = x.iter().map(|(t, b, m)| (*t, *b, Rc::new(map_apply(m, |lo, hi, v| each(lo, hi, v, |z| trunc(z, ts)))))).collect();
                Ok(self.norm(st, Val::Sum(Rc::new(o), trunc(c, ts), ts)))
            }
            Val::Map(t, b, m, s) => {
                if signed(from) {
                    return st.fork_map(t, b, &m);
                }
                let _ = s;
                let max: i64 = if ts >= 8 { i64::MAX } else { (1i64 << (8 * ts as u32)) - 1 };
                let mut out = vec![];
                for &(lo, hi, v) in m.iter() {
                    match v {
                        MV::C(c) => out.push((lo, hi, MV::C(trunc(c, ts)))),
                        MV::Lin(k) => {
                            // split on blocks of 2^(8*ts)
                            let mut x = lo;
                            loop {
                                let val = x as i64 + k;
                                let q = if max == i64::MAX { 0 } else { val / (max + 1) };
                                let base = if max == i64::MAX { 0 } else { q * (max + 1) };
                                let end = if max == i64::MAX { hi as i64 } else { (base + max - k).min(hi as i64) };
                                out.push((x, end as u32, MV::Lin(k - base)));
                                if end >= hi as i64 {
                                    break;
                                }
                                x = end as u32 + 1;
                            }
                        }
                    }
                }
                Ok(st.norm_map(t, b, &Rc::new(norm_pm(out)), ts))
            }
            Val::Len(l) => {
                if ts == 8 {
                    Ok(Val::Len(l))
                } else {
                    Ok(Val::Top(ts))
                }
            }
            Val::Ge(c) if ts == 8 => Ok(Val::Ge(c)),
            Val::Top(_) | Val::Ge(_) => Ok(Val::Top(ts)),
            Val::Atom(i, n) => Ok(Val::Atom(i, n)),
            v => unsup(format!("int cast of {:?}", v)),
        }
    }
    /// Rewraps a core value into the (transparent) structure of type `to`.
    pub fn transmute(&mut self, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        if from == to {
            return Ok(v);
        }
        if let Val::Buf(_) = v {
            return Ok(v);
        }
        let core = match to.kind() {
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) | ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => return Ok(self.peel(&v)),
            ty::Array(..) | ty::Tuple(..) => return Ok(v),
            ty::Adt(d, args) if d.is_struct() => {
                let inner = self.peel(&v);
                let fs = &d.non_enum_variant().fields;
                let mut out = vec![];
                let mut placed = false;
                for f in fs.iter() {
                    let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                    let zst = self.tcx.layout_of(self.env.as_query_input(ft)).map(|l| l.is_zst()).unwrap_or(false);
                    if zst {
                        out.push(unit());
                    } else {
                        if placed {
                            return unsup(format!("transmute {} -> {}", from, to));
                        }
                        placed = true;
                        out.push(self.transmute(inner.clone(), from, ft)?);
                    }
                }
                agg(0, out)
            }
            ty::Adt(d, _) if d.is_enum() => {
                // u8 -> fieldless enum, or Option<NonNull> etc.
                match self.peel(&v) {
                    Val::C(c, _) => {
                        for (i, _) in d.variants().iter_enumerated() {
                            if to.discriminant_for_variant(self.tcx, i).map(|x| x.val) == Some(c) {
                                return Ok(agg(i.as_u32(), vec![]));
                            }
                        }
                        return unsup("transmute to enum");
                    }
                    _ => return unsup(format!("transmute {} -> {}", from, to)),
                }
            }
            ty::Adt(d, _) if d.is_union() => return Ok(v),
            ty::Pat(..) => return Ok(self.peel(&v)),
            _ => return unsup(format!("transmute {} -> {}", from, to)),
        };
        Ok(core)
    }
    pub fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rvalue<'tcx>, dt: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let inst = st.frames.last().unwrap().inst;
        let info = self.body(inst).unwrap();
        let body = &info.body;
        match rv {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                Ok(agg(0, vec![v; n as usize]))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let pl = self.place(st, p)?;
                match pl {
                    Pl::Mem(p) => Ok(Val::Ref(p)),
                    Pl::Data(r) => Ok(Val::Str(r)),
                    Pl::Slice(p, o, n) => Ok(Val::Slice(p, o, n)),
                    Pl::Byte(..) | Pl::MapIdx(..) => {
                        let v = self.read_pl(st, &pl)?;
                        // reference to an immutable element: box the value in a fresh cell
                        Ok(Val::Ref(self.alloc(st, v)))
                    }
                }
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(st, p)?;
                self.read_pl(st, &pl)
            }
            Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, p)?;
                self.read_pl(st, &pl)
            }
            Rvalue::Cast(kind, o, to) => {
                let v = self.operand(st, o)?;
                let from = o.ty(&body.local_decls, self.tcx);
                match kind {
                    CastKind::IntToInt => self.cast_int(st, v, from, *to),
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => Ok(v),
                    CastKind::Transmute | CastKind::BoxDerefTransmute => {
                        let fs = self.size_of(from);
                        if let (ty::Char | ty::Int(_) | ty::Uint(_) | ty::Bool, ty::Char | ty::Int(_) | ty::Uint(_) | ty::Bool) = (from.kind(), to.kind()) {
                            let v = self.norm(st, v);
                            return Ok(match v {
                                Val::Map(t, b, m, _) => Val::Map(t, b, m, fs),
                                Val::Sum(x, c, _) => Val::Sum(x, c, fs),
                                v => v,
                            });
                        }
                        self.transmute(v, from, *to)
                    }
                    CastKind::PointerCoercion(pc, _) => {
                        use rustc_middle::ty::adjustment::PointerCoercion::*;
                        match pc {
                            Unsize => self.unsize(st, v, from, *to),
                            ReifyFnPointer(..) => match from.kind() {
                                ty::FnDef(d, a) => {
                                    let i = Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, a.no_bound_vars().unwrap());
                                    match i {
                                        Some(i) => Ok(Val::Fn(i)),
                                        None => unsup("fn pointer"),
                                    }
                                }
                                _ => unsup("reify"),
                            },
                            ClosureFnPointer(_) => match from.kind() {
                                ty::Closure(d, a) => Ok(Val::Fn(Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce))),
                                _ => unsup("closure fn pointer"),
                            },
                            _ => Ok(v),
                        }
                    }
                    CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance => unsup("pointer/integer cast"),
                    _ => unsup("float cast"),
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(st, &ab.0)?;
                let b = self.operand(st, &ab.1)?;
                let t = ab.0.ty(&body.local_decls, self.tcx);
                self.binop(st, *op, a, b, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                let t = o.ty(&body.local_decls, self.tcx);
                match op {
                    UnOp::Not => match self.norm(st, v) {
                        Val::C(c, s) => Ok(if t.is_bool() { Val::C((c == 0) as u128, 1) } else { Val::C(trunc(!c, s), s) }),
                        Val::Map(tp, b, m, s) => {
                            if t.is_bool() {
                                let r = map_apply(&m, |lo, hi, v| match v {
                                    MV::C(c) => vec![(lo, hi, MV::C((c == 0) as u128))],
                                    MV::Lin(_) => (lo..=hi).map(|x| (x, x, MV::C((x == 0) as u128))).collect(),
                                });
                                Ok(st.norm_map(tp, b, &Rc::new(r), 1))
                            } else {
                                st.fork_map(tp, b, &m).map(|_: ()| Val::Top(s))
                            }
                        }
                        Val::Atom(i, n) => Ok(Val::Atom(i, !n)),
                        Val::Top(s) => Ok(Val::Top(s)),
                        Val::Ge(_) => Ok(Val::Top(8)),
                        v => unsup(format!("not of {:?}", v)),
                    },
                    UnOp::Neg => match self.norm(st, v) {
                        Val::C(c, s) => Ok(Val::C(trunc((!c).wrapping_add(1), s), s)),
                        Val::Map(tp, b, m, _) => st.fork_map(tp, b, &m),
                        v => unsup(format!("neg of {:?}", v)),
                    },
                    UnOp::PtrMetadata => match self.peel(&v) {
                        Val::Str(r) => {
                            let l = st.rope_len(&r)?;
                            Ok(st.len_val(l))
                        }
                        Val::Slice(_, _, n) => Ok(usz(n as u64)),
                        Val::Ref(_) => Ok(unit()),
                        v => unsup(format!("metadata of {:?}", v)),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, p)?;
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let v = self.read_pl(st, &pl)?;
                match v {
                    Val::Agg(var, _) => {
                        let d = t.discriminant_for_variant(self.tcx, VariantIdx::from_u32(var));
                        let sz = self.size_of(dt);
                        Ok(Val::C(trunc(d.map(|d| d.val).unwrap_or(0), sz), sz))
                    }
                    // a type with a single possible variant needs no storage
                    Val::Undef if self.only_variant(t).is_some() => {
                        let d = t.discriminant_for_variant(self.tcx, self.only_variant(t).unwrap());
                        let sz = self.size_of(dt);
                        Ok(Val::C(trunc(d.map(|d| d.val).unwrap_or(0), sz), sz))
                    }
                    v => unsup(format!("discriminant of {:?} ({})", v, t)),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops.iter() {
                    vs.push(self.operand(st, o)?);
                }
                match &**k {
                    AggregateKind::Adt(_, var, _, _, Some(_)) => {
                        let _ = var;
                        Ok(vs.pop().unwrap())
                    }
                    AggregateKind::Adt(_, var, _, _, None) => Ok(agg(var.as_u32(), vs)),
                    AggregateKind::RawPtr(..) => {
                        // (thin pointer, metadata)
                        match (&vs[0], &vs[1]) {
                            (Val::Str(r), n) => {
                                let n = match n {
                                    Val::C(c, _) => LinLen::c(*c as i64),
                                    Val::Len(l) => (**l).clone(),
                                    _ => return Ok(Val::Str(r.clone())),
                                };
                                match st.split_rope(r, &n)? {
                                    Some((a, _)) => Ok(Val::Str(a)),
                                    None => unsup("raw slice out of range"),
                                }
                            }
                            (Val::Slice(p, o, _), Val::C(n, _)) => Ok(Val::Slice(p.clone(), *o, *n as u32)),
                            (a, _) => Ok(a.clone()),
                        }
                    }
                    _ => Ok(agg(0, vs)),
                }
            }
            Rvalue::ThreadLocalRef(_) => unsup("thread local"),
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(st, o),
        }
    }
    fn unsize(&mut self, st: &State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let fi = match from.builtin_deref(true) {
            Some(x) => x,
            None => return unsup(format!("unsize {} -> {}", from, to)),
        };
        let ti = to.builtin_deref(true).unwrap();
        match (fi.kind(), ti.kind()) {
            (ty::Array(e, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(self.tcx).unwrap() as u32;
                match self.peel(&v) {
                    Val::Ref(p) => {
                        if self.is_u8(*e) {
                            // constant byte arrays become ropes
                            if let Val::Agg(_, f) = self.read(st, &p)? {
                                if f.iter().all(|x| matches!(x, Val::C(..))) && matches!(p.root, Root::Const(_)) {
                                    let b: Vec<u8> = f.iter().map(|x| if let Val::C(c, _) = x { *c as u8 } else { 0 }).collect();
                                    return Ok(Val::Str(Rope::konst(&b)));
                                }
                            }
                        }
                        Ok(Val::Slice(p, 0, n))
                    }
                    Val::Str(r) => Ok(Val::Str(r)),
                    v => unsup(format!("unsize array pointer {:?}", v)),
                }
            }
            (_, ty::Dynamic(..)) => {
                if let ty::Dynamic(..) = fi.kind() {
                    return Ok(v);
                }
                Ok(Val::Dyn(Rc::new(v), fi))
            }
            _ => unsup(format!("unsize {} -> {}", from, to)),
        }
    }

    // ---------------------------------------------------------------- stepping
    pub fn goto(&self, st: &mut State<'tcx>, bb: BasicBlock) {
        let n = st.frames.len();
        let f = &mut st.frames[n - 1];
        f.bb = bb;
        f.stmt = 0;
    }
    pub fn step(&mut self, st: &mut State<'tcx>) -> R<'tcx, Flow<'tcx>> {
        self.steps += 1;
        let fi = st.frames.len() - 1;
        if let FrameKind::Seq(..) = st.frames[fi].kind {
            return self.step_seq(st);
        }
        let inst = st.frames[fi].inst;
        let info = self.body(inst).unwrap();
        let (bb, si) = (st.frames[fi].bb, st.frames[fi].stmt);
        let blk = &info.body.basic_blocks[bb];
        if si < blk.statements.len() {
            let s = &blk.statements[si];
            match &s.kind {
                StatementKind::Assign(b) => {
                    let (pl, rv) = &**b;
                    let dt = pl.ty(&info.body.local_decls, self.tcx).ty;
                    let v = self.rvalue(st, rv, dt)?;
                    let p = self.place(st, pl)?;
                    match p {
                        Pl::Mem(p) => self.write(st, &p, v)?,
                        p => return unsup(format!("assignment to {:?}", p)),
                    }
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let p = self.place(st, place)?;
                    match p {
                        Pl::Mem(p) => {
                            let old = self.read(st, &p)?;
                            let f = match old {
                                Val::Agg(_, f) => f,
                                _ => Rc::new(vec![]),
                            };
                            self.write(st, &p, Val::Agg(variant_index.as_u32(), f))?
                        }
                        _ => return unsup("set discriminant"),
                    }
                }
                StatementKind::Intrinsic(i) => {
                    if let NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i {
                        return unsup("copy_nonoverlapping");
                    }
                }
                _ => {}
            }
            st.frames[fi].stmt += 1;
            return Ok(Flow::Next);
        }
        let term = blk.terminator();
        match &term.kind {
            TerminatorKind::Goto { target, .. } => {
                self.goto(st, *target);
                Ok(Flow::Jump)
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(Flow::Jump)
            }
            TerminatorKind::Drop { target, .. } => {
                self.goto(st, *target);
                Ok(Flow::Jump)
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, discr)?;
                let v = self.norm(st, v);
                match v {
                    Val::C(c, _) => {
                        let t = targets.target_for_value(c);
                        self.goto(st, t);
                        Ok(Flow::Jump)
                    }
                    Val::Sum(..) => self.sum_fork(st, &v, &v),
                    Val::Map(t, b, m, sz) => {
                        // partition the character set by target
                        let mut by: HashMap<BasicBlock, Vec<(u32, u32)>> = HashMap::default();
                        let mut order = vec![];
                        let mut put = |bb: BasicBlock, lo: u32, hi: u32| {
                            if !by.contains_key(&bb) {
                                order.push(bb);
                            }
                            by.entry(bb).or_default().push((lo, hi));
                        };
                        for &(lo, hi, v) in m.iter() {
                            match v {
                                MV::C(c) => put(targets.target_for_value(trunc(c, sz)), lo, hi),
                                MV::Lin(k) => {
                                    let mut rest = vec![(lo, hi)];
                                    for (val, bb) in targets.iter() {
                                        let x = val as i64 - k;
                                        if x >= lo as i64 && x <= hi as i64 {
                                            put(bb, x as u32, x as u32);
                                            let hole = lang::cs(vec![(x as u32, x as u32)]);
                                            let mut nr = vec![];
                                            for (a, z) in rest {
                                                if (hole[0].0) > a && hole[0].0 <= z {
                                                    nr.push((a, hole[0].0 - 1));
                                                } else if hole[0].0 > z || hole[0].0 < a {
                                                    nr.push((a, z));
                                                    continue;
                                                }
                                                if hole[0].0 >= a && hole[0].0 < z {
                                                    nr.push((hole[0].0 + 1, z));
                                                }
                                            }
                                            rest = nr;
                                        }
                                    }
                                    for (a, z) in rest {
                                        put(targets.otherwise(), a, z);
                                    }
                                }
                            }
                        }
                        if order.len() == 1 {
                            self.goto(st, order[0]);
                            return Ok(Flow::Jump);
                        }
                        let i = st.bidx(t, b);
                        let mut alts = vec![];
                        for bb in order {
                            let set = lang::cs(by.remove(&bb).unwrap());
                            if let Some(mut s) = st.with_ch(t, i, (*set).clone()) {
                                self.goto(&mut s, bb);
                                alts.push(Some(s));
                            }
                        }
                        st.fork(alts)
                    }
                    Val::Len(l) => {
                        // compare with each explicit target in turn
                        for (val, bb) in targets.iter() {
                            let d = l.add(&LinLen::c(val as i64), -1);
                            if st.sign(&d)? == std::cmp::Ordering::Equal {
                                self.goto(st, bb);
                                return Ok(Flow::Jump);
                            }
                        }
                        self.goto(st, targets.otherwise());
                        Ok(Flow::Jump)
                    }
                    Val::Atom(id, neg) => {
                        let mut alts = vec![];
                        let known = st.assume.iter().find(|x| x.0 == id).map(|x| x.1);
                        for truth in [true, false] {
                            if let Some(k) = known {
                                if k != truth {
                                    continue;
                                }
                            }
                            let mut s = st.clone();
                            if known.is_none() {
                                s.assume.push((id, truth));
                                s.assume.sort();
                            }
                            self.goto(&mut s, targets.target_for_value((truth ^ neg) as u128));
                            alts.push(Some(s));
                        }
                        st.fork(alts)
                    }
                    Val::Ge(lo) if targets.iter().all(|(v, _)| v < lo as u128) => {
                        self.goto(st, targets.otherwise());
                        Ok(Flow::Jump)
                    }
                    Val::Top(_) | Val::Ge(_) => {
                        let mut alts = vec![];
                        let mut seen = HashSet::default();
                        for bb in targets.all_targets().iter() {
                            if seen.insert(*bb) {
                                let mut s = st.clone();
                                s.imprecise = true;
                                self.goto(&mut s, *bb);
                                alts.push(Some(s));
                            }
                        }
                        st.fork(alts)
                    }
                    v => unsup(format!("switch on {:?}", v)),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(st, cond)?;
                match self.norm(st, v) {
                    Val::C(c, _) => {
                        if (c != 0) == *expected {
                            self.goto(st, *target);
                            Ok(Flow::Jump)
                        } else {
                            let kind = match &**msg {
                                AssertKind::BoundsCheck { .. } => "index out of bounds",
                                AssertKind::Overflow(..) => "arithmetic overflow",
                                _ => "assertion",
                            };
                            Ok(Flow::Panic(format!("{} in {}", kind, self.name(inst.def_id()))))
                        }
                    }
                    Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
                    Val::Top(_) => {
                        st.imprecise = true;
                        self.goto(st, *target);
                        Ok(Flow::Jump)
                    }
                    v => unsup(format!("assert on {:?}", v)),
                }
            }
            TerminatorKind::Return => {
                let v = st.frames[fi].locals[0].clone();
                let v = if let Val::Undef = v { unit() } else { v };
                if fi == 0 {
                    return Ok(Flow::Done(v, info.body.local_decls[RETURN_PLACE].ty));
                }
                self.ret(st, v)
            }
            TerminatorKind::Unreachable => Ok(Flow::Panic(format!("unreachable code reached in {}", self.name(inst.def_id())))),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&info.body.local_decls, self.tcx);
                let mut vals = vec![];
                for a in args.iter() {
                    vals.push(self.operand(st, &a.node)?);
                }
                let arg_tys: Vec<Ty<'tcx>> = args.iter().map(|a| a.node.ty(&info.body.local_decls, self.tcx)).collect();
                let callee = match ft.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap();
                        match Instance::try_resolve(self.tcx, self.env, *d, a) {
                            Ok(Some(i)) => i,
                            _ => return unsup(format!("unresolved call {}", ft)),
                        }
                    }
                    ty::FnPtr(..) => {
                        let v = self.operand(st, func)?;
                        match self.peel(&v) {
                            Val::Fn(i) => i,
                            v => return unsup(format!("call through {:?}", v)),
                        }
                    }
                    _ => return unsup(format!("call of {}", ft)),
                };
                let dest = match self.place(st, destination)? {
                    Pl::Mem(p) => p,
                    _ => return unsup("call destination"),
                };
                let rust_call = match ft.kind() {
                    ty::FnDef(..) => ft.fn_sig(self.tcx).skip_binder().abi() == rustc_abi::ExternAbi::RustCall,
                    _ => false,
                };
                let _ = arg_tys;
                self.do_call(st, callee, vals, rust_call, dest, *target)
            }
            k => unsup(format!("terminator {:?}", k)),
        }
    }
    pub fn ret(&mut self, st: &mut State<'tcx>, v: Val<'tcx>) -> R<'tcx, Flow<'tcx>> {
        let f = st.frames.pop().unwrap();
        let d = f.dest.clone().unwrap();
        if let FrameKind::Seq(..) = st.frames.last().unwrap().kind {
            let n = st.frames.len() - 1;
            st.frames[n].locals[0] = v;
            return Ok(Flow::Jump);
        }
        self.write(st, &d, v)?;
        match f.target {
            Some(t) => {
                self.goto(st, t);
                Ok(Flow::Ret)
            }
            None => Ok(Flow::Panic("return from a diverging function".into())),
        }
    }
    pub fn do_call(&mut self, st: &mut State<'tcx>, callee: Instance<'tcx>, mut vals: Vec<Val<'tcx>>, rust_call: bool, dest: Ptr, target: Option<BasicBlock>) -> R<'tcx, Flow<'tcx>> {
        let mut callee = callee;
        if rust_call {
            // untuple
            let last = vals.pop().unwrap();
            let is_closure_like = match callee.def {
                InstanceKind::Item(d) => self.tcx.is_closure_like(d),
                _ => false,
            };
            let _ = is_closure_like;
            match last {
                Val::Agg(_, f) => vals.extend(f.iter().cloned()),
                v => return unsup(format!("rust-call argument {:?}", v)),
            }
        }
        let mut n = 0;
        loop {
            n += 1;
            if n > 20 {
                return unsup("call indirection");
            }
            match self.intrinsic(st, callee, &vals, rust_call)? {
                None => break,
                Some(CallRes::Val(v)) => {
                    if let FrameKind::Seq(..) = st.frames.last().unwrap().kind {
                        let k = st.frames.len() - 1;
                        st.frames[k].locals[0] = v;
                        return Ok(Flow::Jump);
                    }
                    self.write(st, &dest, v)?;
                    return match target {
                        Some(t) => {
                            self.goto(st, t);
                            Ok(Flow::Jump)
                        }
                        None => Ok(Flow::Panic("diverging call".into())),
                    };
                }
                Some(CallRes::Panic(s)) => return Ok(Flow::Panic(s)),
                Some(CallRes::Push(mut f)) => {
                    f.dest = Some(dest);
                    f.target = target;
                    st.frames.push(f);
                    return Ok(Flow::Jump);
                }
                Some(CallRes::Call(i, v)) => {
                    callee = i;
                    vals = v;
                }
            }
        }
        match self.try_summary(st, callee, &vals)? {
            Some(SumOut::Ret(v)) => {
                let nm = self.name(callee.def_id());
                *self.called.entry((*nm).clone()).or_insert(0) += 1;
                if let FrameKind::Seq(..) = st.frames.last().unwrap().kind {
                    let k = st.frames.len() - 1;
                    st.frames[k].locals[0] = v;
                    return Ok(Flow::Jump);
                }
                self.write(st, &dest, v)?;
                return match target {
                    Some(t) => {
                        self.goto(st, t);
                        Ok(Flow::Ret)
                    }
                    None => Ok(Flow::Panic("diverging call".into())),
                };
            }
            Some(SumOut::Panic(m)) => return Ok(Flow::Panic(m)),
            None => {}
        }
        let f = self.make_frame(st, callee, vals, dest, target)?;
        if st.frames.len() > 60 {
            return unsup("call depth");
        }
        let rec = st.frames.iter().filter(|x| x.inst == callee).count();
        if rec >= 3 {
            return unsup(format!("recursion in {}", self.name(callee.def_id())));
        }
        let nm = self.name(callee.def_id());
        *self.called.entry((*nm).clone()).or_insert(0) += 1;
        st.frames.push(f);
        Ok(Flow::Jump)
    }
    pub fn make_frame(&mut self, _st: &State<'tcx>, callee: Instance<'tcx>, vals: Vec<Val<'tcx>>, dest: Ptr, target: Option<BasicBlock>) -> R<'tcx, Frame<'tcx>> {
        let info = match self.body(callee) {
            Some(b) => b,
            None => return unsup(format!("no MIR for {} [{}]", self.name(callee.def_id()), callee)),
        };
        let body = &info.body;
        let mut locals = vec![Val::Undef; body.local_decls.len()];
        let ac = body.arg_count;
        if let Some(sp) = body.spread_arg {
            let k = sp.as_usize();
            for i in 1..k {
                locals[i] = vals[i - 1].clone();
            }
            locals[k] = agg(0, vals[k - 1..].to_vec());
        } else if ac == vals.len() {
            for (i, v) in vals.into_iter().enumerate() {
                locals[i + 1] = v;
            }
        } else if ac == 2 {
            locals[1] = vals[0].clone();
            locals[2] = agg(0, vals[1..].to_vec());
        } else {
            return unsup(format!("argument count for {}", callee));
        }
        Ok(Frame { inst: callee, kind: FrameKind::Body, bb: START_BLOCK, stmt: 0, locals, dest: Some(dest), target, loops: vec![] })
    }
    pub fn dummy_dest(&self) -> Ptr {
        Ptr { root: Root::Heap(u32::MAX), path: Rc::new(vec![]) }
    }
    /// Creates the initial state of a root function.
    pub fn field(&self, v: &Val<'tcx>, i: usize) -> Val<'tcx> {
        match v {
            Val::Agg(_, f) => f.get(i).cloned().unwrap_or(Val::Undef),
            _ => v.clone(),
        }
    }
    pub fn fidx(&self, i: usize) -> FieldIdx {
        FieldIdx::from_usize(i)
    }
}

fn live_place(p: &Place<'_>, l: &mut HashSet<u32>) {
    l.insert(p.local.as_u32());
    for e in p.projection.iter() {
        if let ProjectionElem::Index(i) = e {
            l.insert(i.as_u32());
        }
    }
}
fn live_op(o: &Operand<'_>, l: &mut HashSet<u32>) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        live_place(p, l);
    }
}
fn live_def(p: &Place<'_>, l: &mut HashSet<u32>) {
    if p.projection.is_empty() {
        l.remove(&p.local.as_u32());
    } else if p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
        live_place(p, l);
    } else {
        for e in p.projection.iter() {
            if let ProjectionElem::Index(i) = e {
                l.insert(i.as_u32());
            }
        }
    }
}
fn live_stmt(s: &Statement<'_>, l: &mut HashSet<u32>) {
    match &s.kind {
        StatementKind::Assign(b) => {
            live_def(&b.0, l);
            match &b.1 {
                Rvalue::Use(o, _) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::WrapUnsafeBinder(o, _) => live_op(o, l),
                Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Reborrow(_, _, p) => live_place(p, l),
                Rvalue::BinaryOp(_, ab) => {
                    live_op(&ab.0, l);
                    live_op(&ab.1, l);
                }
                Rvalue::Aggregate(_, ops) => {
                    for o in ops.iter() {
                        live_op(o, l);
                    }
                }
                Rvalue::ThreadLocalRef(_) => {}
            }
        }
        StatementKind::SetDiscriminant { place, .. } => live_def(place, l),
        StatementKind::StorageDead(x) | StatementKind::StorageLive(x) => {
            l.remove(&x.as_u32());
        }
        _ => {}
    }
}
fn live_term(t: &Terminator<'_>, l: &mut HashSet<u32>) {
    match &t.kind {
        TerminatorKind::SwitchInt { discr, .. } => live_op(discr, l),
        TerminatorKind::Return => {
            l.insert(0);
        }
        TerminatorKind::Call { func, args, destination, .. } => {
            live_def(destination, l);
            live_op(func, l);
            for a in args.iter() {
                live_op(&a.node, l);
            }
        }
        TerminatorKind::Assert { cond, .. } => live_op(cond, l),
        _ => {}
    }
}
pub fn sext(v: u128, s: u8) -> i128 {
    if s >= 16 {
        return v as i128;
    }
    let sh = 128 - 8 * s as u32;
    ((v << sh) as i128) >> sh
}
/// (result, overflow)
pub fn arith(op: BinOp, a: u128, b: u128, s: u8, s2: u8, sg: bool) -> Option<(u128, bool)> {
    use BinOp::*;
    let bits = 8 * s as u32;
    let cmp = |x: bool| Some((x as u128, false));
    let (ia, ib) = (sext(a, s), sext(b, s2));
    Some(match op {
        Eq => return cmp(a == b),
        Ne => return cmp(a != b),
        Lt => return cmp(if sg { ia < ib } else { a < b }),
        Le => return cmp(if sg { ia <= ib } else { a <= b }),
        Gt => return cmp(if sg { ia > ib } else { a > b }),
        Ge => return cmp(if sg { ia >= ib } else { a >= b }),
        Add | AddUnchecked | AddWithOverflow => {
            if sg {
                let r = ia.wrapping_add(ib);
                let t = trunc(r as u128, s);
                (t, sext(t, s) != r)
            } else {
                let r = a.wrapping_add(b);
                let t = trunc(r, s);
                (t, t != r)
            }
        }
        Sub | SubUnchecked | SubWithOverflow => {
            if sg {
                let r = ia.wrapping_sub(ib);
                let t = trunc(r as u128, s);
                (t, sext(t, s) != r)
            } else {
                (trunc(a.wrapping_sub(b), s), a < b)
            }
        }
        Mul | MulUnchecked | MulWithOverflow => {
            if sg {
                let r = ia.wrapping_mul(ib);
                let t = trunc(r as u128, s);
                (t, sext(t, s) != r)
            } else {
                let r = a.wrapping_mul(b);
                let t = trunc(r, s);
                (t, t != r)
            }
        }
        Div => {
            if b == 0 {
                return None;
            }
            if sg {
                (trunc(ia.wrapping_div(ib) as u128, s), false)
            } else {
                (a / b, false)
            }
        }
        Rem => {
            if b == 0 {
                return None;
            }
            if sg {
                (trunc(ia.wrapping_rem(ib) as u128, s), false)
            } else {
                (a % b, false)
            }
        }
        BitXor => (a ^ b, false),
        BitAnd => (a & b, false),
        BitOr => (a | b, false),
        Shl | ShlUnchecked => (trunc(a.checked_shl((b % bits as u128) as u32).unwrap_or(0), s), b >= bits as u128),
        Shr | ShrUnchecked => {
            if sg {
                (trunc((ia >> (b % bits as u128) as u32) as u128, s), false)
            } else {
                (a >> (b % bits as u128) as u32, b >= bits as u128)
            }
        }
        Cmp | Offset => return None,
    })
}

// ---------------------------------------------------------------- summaries
#[derive(Clone, Debug)]
pub enum SumOut<'tcx> {
    Ret(Val<'tcx>),
    Panic(String),
}
pub type Summary<'tcx> = Rc<Vec<(SumOut<'tcx>, crate::lang::L)>>;

fn closed_val(v: &Val<'_>) -> bool {
    match v {
        Val::C(..) | Val::Fn(_) => true,
        Val::Agg(_, f) => f.iter().all(closed_val),
        _ => false,
    }
}
impl<'tcx> World<'tcx> {
    fn sum_type(&self, t: Ty<'tcx>, depth: usize) -> bool {
        match t.kind() {
            ty::Bool | ty::Never => true,
            ty::Tuple(l) => l.iter().all(|x| self.sum_type(x, depth + 1)),
            ty::Adt(d, args) if depth < 5 && (d.is_enum() || d.is_struct()) => d.all_fields().all(|f| self.sum_type(self.norm_ty(f.ty(self.tcx, args)), depth + 1)),
            _ => false,
        }
    }
    fn norm_ty(&self, t: rustc_middle::ty::Unnormalized<'tcx, Ty<'tcx>>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, t).unwrap_or(self.tcx.types.usize)
    }
    /// A function of one text whose result carries no reference to it is analysed once, over all
    /// inputs; a call then only splits the argument by the outcome languages.
    pub fn try_summary(&mut self, st: &State<'tcx>, callee: Instance<'tcx>, vals: &[Val<'tcx>]) -> R<'tcx, Option<SumOut<'tcx>>> {
        if !matches!(callee.def, ty::InstanceKind::Item(_)) || self.tcx.is_closure_like(callee.def_id()) || vals.is_empty() {
            return Ok(None);
        }
        if self.tcx.crate_name(callee.def_id().krate).as_str() != "iri_string" {
            return Ok(None);
        }
        if let Some(v) = self.scalar_sum(st, callee, vals) {
            return Ok(Some(SumOut::Ret(v)));
        }
        let mut txt = None;
        for (i, v) in vals.iter().enumerate() {
            match self.peel(v) {
                Val::Str(r) if txt.is_none() => txt = Some((i, r)),
                x if closed_val(&x) => {}
                _ => return Ok(None),
            }
        }
        let (ti, rope) = match txt {
            Some(x) => x,
            None => return Ok(None),
        };
        if rope.as_const().is_some() || rope.0.iter().any(|p| !matches!(p, Piece::T(..) | Piece::C(..))) {
            return Ok(None);
        }
        let mut kv: Vec<Val<'tcx>> = vals.to_vec();
        kv[ti] = Val::Undef;
        let key = (callee, kv);
        if !self.summaries.contains_key(&key) {
            self.summaries.insert(key.clone(), None);
            let before = std::mem::take(&mut self.called);
            let s = self.make_summary(callee, vals, ti);
            self.sum_called.insert(key.clone(), self.called.keys().cloned().collect());
            self.called = before;
            self.summaries.insert(key.clone(), s);
        }
        let sum = match &self.summaries[&key] {
            Some(s) => s.clone(),
            None => return Ok(None),
        };
        if let Some(c) = self.sum_called.get(&key) {
            for c in c.clone() {
                *self.called.entry(c).or_insert(0) += 1;
            }
        }
        let ls: Vec<_> = sum.iter().map(|x| x.1).collect();
        match st.classify(&rope, &ls)? {
            Some(k) => Ok(Some(sum[k].0.clone())),
            None => Ok(None),
        }
    }
    /// A function of two bytes that is the sum of a function of each: the table is computed once.
    fn scalar_sum(&mut self, st: &State<'tcx>, callee: Instance<'tcx>, vals: &[Val<'tcx>]) -> Option<Val<'tcx>> {
        fn segs<'tcx>(v: &Val<'tcx>, o: &mut Vec<(u8, BId)>) -> bool {
            match v {
                Val::C(..) => true,
                Val::Agg(_, f) => f.iter().all(|x| segs(x, o)),
                Val::Map(t, b, ..) => {
                    if !o.contains(&(*t, *b)) {
                        o.push((*t, *b));
                    }
                    true
                }
                _ => false,
            }
        }
        fn subst<'tcx>(v: &Val<'tcx>, o: &[(u8, BId)], x: &[u32]) -> Val<'tcx> {
            match v {
                Val::Agg(k, f) => Val::Agg(*k, Rc::new(f.iter().map(|y| subst(y, o, x)).collect())),
                Val::Map(t, b, m, s) => {
                    let c = x[o.iter().position(|z| *z == (*t, *b)).unwrap()];
                    let e = m.iter().find(|e| e.0 <= c && c <= e.1).unwrap();
                    Val::C(
                        match e.2 {
                            MV::C(k) => k,
                            MV::Lin(k) => (c as i64 + k) as u128,
                        },
                        *s,
                    )
                }
                v => v.clone(),
            }
        }
        let vals: Vec<Val<'tcx>> = vals.iter().map(|v| if let Val::Agg(k, f) = v { Val::Agg(*k, Rc::new(f.iter().map(|x| self.norm(st, x.clone())).collect())) } else { self.norm(st, v.clone()) }).collect();
        let mut o = vec![];
        if !vals.iter().all(|v| segs(v, &mut o)) || o.len() != 2 {
            return None;
        }
        let sets: Vec<Vec<u32>> = o.iter().map(|&(t, b)| st.seg(t, st.bidx(t, b)).ch.as_ref().map(|c| if c.0.iter().map(|r| r.1 - r.0 + 1).sum::<u32>() > 600 { vec![] } else { c.0.iter().flat_map(|r| r.0..=r.1).collect() }).unwrap_or_default()).collect();
        if sets.iter().any(|s| s.is_empty()) || sets[0].len() * sets[1].len() > 600 {
            return None;
        }
        let info = self.body(callee)?;
        if info.body.spread_arg.is_some() || info.body.arg_count != vals.len() || !matches!(info.body.return_ty().kind(), ty::Uint(_)) {
            return None;
        }
        let sz = self.size_of(info.body.return_ty());
        let key = format!("{:?} {:?} {:?}", callee, vals.iter().map(|v| subst(v, &o, &[sets[0][0], sets[1][0]])).collect::<Vec<_>>(), (&sets, vals.iter().map(|v| format!("{:?}", v).replace(&format!("Map({}, {},", o[0].0, o[0].1), "A(").replace(&format!("Map({}, {},", o[1].0, o[1].1), "B(")).collect::<Vec<_>>()));
        if !self.scalars.contains_key(&key) {
            let n = info.body.local_decls.len();
            let before = std::mem::take(&mut self.called);
            let fw = std::mem::replace(&mut self.fail_writes, false);
            let mut tab: Option<Vec<Vec<u128>>> = Some(vec![]);
            'out: for &x in &sets[0] {
                let mut row = vec![];
                for &y in &sets[1] {
                    let mut locals = vec![Val::Undef; n];
                    for (i, v) in vals.iter().enumerate() {
                        locals[i + 1] = subst(v, &o, &[x, y]);
                    }
                    let st = State {
                        frames: vec![Frame { inst: callee, kind: FrameKind::Body, bb: START_BLOCK, stmt: 0, locals, dest: None, target: None, loops: vec![] }],
                        heap: vec![],
                        tapes: vec![],
                        nextb: 0,
                        clock: 0,
                        outpos: None,
                        outerr: false,
                        out: Rope::default(),
                        imprecise: false,
                        assume: vec![],
                        note: Rc::new(vec![]),
                    };
                    let steps = self.steps;
                    let mut a = crate::analyze::Analysis::new(self, crate::analyze::Opts { max_steps: steps + 2_000, max_states: 100, stream: false });
                    a.summary = true;
                    let rep = a.analyze(st);
                    let sv = std::mem::take(&mut a.sum_vals);
                    let v: Vec<_> = sv.into_values().collect();
                    match (&v[..], rep.undecided.is_empty(), rep.outcomes.len()) {
                        ([Val::C(c, _)], true, 1) => row.push(*c),
                        _ => {
                            tab = None;
                            break 'out;
                        }
                    }
                }
                tab.as_mut().unwrap().push(row);
            }
            self.fail_writes = fw;
            let funs: Vec<String> = std::mem::replace(&mut self.called, before).into_keys().collect();
            self.scalars.insert(key.clone(), tab.map(|t| (t, funs)));
        }
        let (tab, funs) = self.scalars[&key].clone()?;
        for f in funs {
            *self.called.entry(f).or_insert(0) += 1;
        }
        // f(x, y) = g(x) + h(y) with h as small as possible
        let mask = |v: &[u128]| v.iter().fold(0, |a, b| a | b);
        let h: Vec<u128> = { let m = *tab[0].iter().min()?; tab[0].iter().map(|v| v - m).collect() };
        let g: Vec<u128> = tab.iter().map(|r| r[0].checked_sub(h[0])).collect::<Option<_>>()?;
        if tab.iter().enumerate().any(|(i, r)| r.iter().enumerate().any(|(j, v)| *v != g[i] + h[j])) || mask(&g) & mask(&h) != 0 {
            return None;
        }
        let pm = |k: usize, f: &[u128]| Rc::new(norm_pm(sets[k].iter().zip(f).map(|(c, v)| (*c, *c, MV::C(*v))).collect()));
        Some(self.norm(st, Val::Sum(Rc::new(vec![(o[0].0, o[0].1, pm(0, &g)), (o[1].0, o[1].1, pm(1, &h))]), 0, sz)))
    }
    /// Copies a value into a fresh state; `None` if it depends on the inputs.
    fn close_val(&self, st: &State<'tcx>, v: &Val<'tcx>, heap: &mut Vec<Val<'tcx>>, depth: usize) -> Option<Val<'tcx>> {
        if depth > 8 {
            return None;
        }
        match v {
            Val::C(..) | Val::Fn(_) => Some(v.clone()),
            Val::Agg(k, f) => {
                let g: Option<Vec<Val<'tcx>>> = f.iter().map(|x| self.close_val(st, x, heap, depth + 1)).collect();
                Some(Val::Agg(*k, Rc::new(g?)))
            }
            Val::Str(r) => r.as_const().map(|_| v.clone()),
            Val::Ref(p) => {
                if let Root::Const(_) = p.root {
                    return Some(v.clone());
                }
                let x = self.read(st, p).ok()?;
                let y = self.close_val(st, &x, heap, depth + 1)?;
                heap.push(y);
                Some(Val::Ref(Ptr { root: Root::Heap(heap.len() as u32 - 1), path: Rc::new(vec![]) }))
            }
            _ => None,
        }
    }
    /// The bytes or chars (as a language) that satisfy a predicate, if it depends on nothing else.
    pub fn pred_lang(&mut self, st: &State<'tcx>, f: &Val<'tcx>, ft: Ty<'tcx>, model: &str, chars: bool) -> Option<L> {
        let mut heap = vec![];
        let fv = self.close_val(st, f, &mut heap, 0)?;
        let key = (ft, model.to_string(), fv.clone(), heap.clone());
        if let Some(l) = self.preds.get(&key) {
            let l = l.clone();
            if let Some((_, c)) = &l {
                for c in c {
                    *self.called.entry(c.clone()).or_insert(0) += 1;
                }
            }
            return l.map(|x| x.0);
        }
        self.preds.insert(key.clone(), None);
        let d = *self.models.get(&format!("model:{}", model))?;
        let callee = self.resolve(d, self.tcx.mk_args(&[ft.into()])).ok()?;
        let n = self.body(callee)?.body.local_decls.len();
        let mut locals = vec![Val::Undef; n];
        locals[1] = Val::Str(Rope::new(vec![Piece::T(0, 1, 2)]));
        locals[2] = fv;
        let l = if chars { crate::lang::cset_lang(&crate::lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)])) } else { crate::lang::syms(vec![(0, 255)]) };
        let st = State {
            frames: vec![Frame { inst: callee, kind: FrameKind::Body, bb: START_BLOCK, stmt: 0, locals, dest: None, target: None, loops: vec![] }],
            heap,
            tapes: vec![Tape { b: vec![1, 2], s: vec![Seg::new(l)] }],
            nextb: 2,
            clock: 0,
            outpos: None,
            outerr: false,
            out: Rope::default(),
            imprecise: false,
            assume: vec![],
            note: Rc::new(vec![]),
        };
        let before = std::mem::take(&mut self.called);
        let fw = std::mem::replace(&mut self.fail_writes, false);
        let steps = self.steps;
        let mut a = crate::analyze::Analysis::new(self, crate::analyze::Opts { max_steps: steps + 100_000, max_states: 5_000, stream: false });
        a.summary = true;
        let rep = a.analyze(st);
        let sv = std::mem::take(&mut a.sum_vals);
        self.fail_writes = fw;
        let funs: Vec<String> = std::mem::replace(&mut self.called, before).into_keys().collect();
        if !rep.undecided.is_empty() || !rep.imprecise.is_empty() {
            return None;
        }
        let (mut yes, mut no) = (crate::lang::empty(), crate::lang::empty());
        for (k, ls) in &rep.outcomes {
            match sv.get(k) {
                Some(Val::C(1, _)) => yes = crate::lang::union(yes, ls[0]),
                Some(Val::C(0, _)) => no = crate::lang::union(no, ls[0]),
                _ if ls[0] == crate::lang::empty() => {}
                _ => return None,
            }
        }
        if crate::lang::union(yes, no) != l || crate::lang::inter(yes, no) != crate::lang::empty() {
            return None;
        }
        for c in &funs {
            *self.called.entry(c.clone()).or_insert(0) += 1;
        }
        self.preds.insert(key, Some((yes, funs)));
        Some(yes)
    }
    fn make_summary(&mut self, callee: Instance<'tcx>, vals: &[Val<'tcx>], ti: usize) -> Option<Summary<'tcx>> {
        let info = self.body(callee)?;
        let body = &info.body;
        if body.spread_arg.is_some() || body.arg_count != vals.len() {
            return None;
        }
        if !self.sum_type(body.return_ty(), 0) {
            return None;
        }
        let t = body.local_decls[rustc_middle::mir::Local::from_usize(ti + 1)].ty;
        let inner = t.builtin_deref(true)?;
        if !self.is_strlike(inner) {
            return None;
        }
        let mut x = inner;
        while let ty::Adt(d, a) = x.kind() {
            let f = d.all_fields().last()?;
            x = self.norm_ty(f.ty(self.tcx, a));
        }
        let l = if x.is_str() { crate::lang::utf8() } else { crate::lang::star(crate::lang::all_bytes()) };
        let mut locals = vec![Val::Undef; body.local_decls.len()];
        for (i, v) in vals.iter().enumerate() {
            locals[i + 1] = v.clone();
        }
        locals[ti + 1] = Val::Str(Rope::new(vec![Piece::T(0, 1, 2)]));
        let st = State {
            frames: vec![Frame { inst: callee, kind: FrameKind::Body, bb: START_BLOCK, stmt: 0, locals, dest: None, target: None, loops: vec![] }],
            heap: vec![],
            tapes: vec![Tape { b: vec![1, 2], s: vec![Seg::new(l)] }],
            nextb: 2,
            clock: 0,
            outpos: None,
            outerr: false,
            out: Rope::default(),
            imprecise: false,
            assume: vec![],
            note: Rc::new(vec![]),
        };
        let fw = std::mem::replace(&mut self.fail_writes, false);
        let steps = self.steps;
        let mut a = crate::analyze::Analysis::new(self, crate::analyze::Opts { max_steps: steps + 400_000, max_states: 30_000, stream: false });
        a.summary = true;
        let rep = a.analyze(st);
        let mut sv = std::mem::take(&mut a.sum_vals);
        self.fail_writes = fw;
        if self.trace {
            eprintln!("SUMMARY {} {:?} und={:?}", callee, rep.outcomes.keys().collect::<Vec<_>>(), rep.undecided);
        }
        if !rep.undecided.is_empty() || !rep.imprecise.is_empty() || rep.outcomes.is_empty() || rep.outcomes.len() > 40 {
            return None;
        }
        let mut r = vec![];
        let mut all = vec![];
        for (k, ls) in rep.outcomes {
            let l = ls[0];
            if l == crate::lang::empty() {
                continue;
            }
            all.push(l);
            if let Some(v) = sv.remove(&k) {
                r.push((SumOut::Ret(v), l));
            } else if let Some(m) = k.strip_prefix("panic: ") {
                r.push((SumOut::Panic(m.to_string()), l));
            } else {
                return None;
            }
        }
        if crate::lang::union_all(&all) != l {
            return None;
        }
        Some(Rc::new(r))
    }
}

/// Pointwise function of a part of a map.
pub fn each(lo: u32, hi: u32, v: MV, f: impl Fn(u128) -> u128) -> Vec<(u32, u32, MV)> {
    match v {
        MV::C(c) => vec![(lo, hi, MV::C(f(c)))],
        MV::Lin(k) => (lo..=hi).map(|x| (x, x, MV::C(f((x as i64 + k) as u128)))).collect(),
    }
}
fn range_of(m: &PMap) -> (u128, u128) {
    let (mut l, mut h) = (u128::MAX, 0);
    for &(lo, hi, v) in m.iter() {
        let (a, b) = match v {
            MV::C(c) => (c, c),
            MV::Lin(k) => ((lo as i64 + k) as u128, (hi as i64 + k) as u128),
        };
        l = l.min(a);
        h = h.max(b);
    }
    (l, h)
}
/// The bits that any value of the map may have.
fn mask_of(m: &PMap) -> u128 {
    let mut r = 0;
    for &(lo, hi, v) in m.iter() {
        match v {
            MV::C(c) => r |= c,
            MV::Lin(k) => {
                let (a, b) = ((lo as i64 + k) as u128, (hi as i64 + k) as u128);
                let d = a ^ b;
                r |= a | b;
                if d != 0 {
                    r |= (1u128 << (128 - d.leading_zeros())) - 1;
                }
            }
        }
    }
    r
}
fn sum_parts<'tcx>(v: &Val<'tcx>) -> Option<(Vec<(u8, BId, PMap)>, u128)> {
    match v {
        Val::C(c, _) => Some((vec![], *c)),
        Val::Map(t, b, m, _) => Some((vec![(*t, *b, m.clone())], 0)),
        Val::Sum(x, c, _) => Some(((**x).clone(), *c)),
        _ => None,
    }
}
