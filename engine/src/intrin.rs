//! Semantics of the standard-library vocabulary (calls which are not analysed from MIR).
use crate::interp::*;
use crate::lang::{self, CSet, L};
use crate::tape::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArg, GenericArgKind, Instance, InstanceKind, Ty};
use rustc_span::Symbol;
use std::cmp::Ordering;
use rustc_data_structures::fx::FxHashMap as HashMap;
use std::rc::Rc;

type CR<'tcx> = R<'tcx, Option<CallRes<'tcx>>>;
fn v<'tcx>(x: Val<'tcx>) -> CR<'tcx> {
    Ok(Some(CallRes::Val(x)))
}
fn pan<'tcx>(s: impl Into<String>) -> CR<'tcx> {
    Ok(Some(CallRes::Panic(s.into())))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Str,
    Bytes,
    StringT,
    VecU8,
    BoxStr,
    Chars,
    ArrIter,
    SplitIter,
    ChunkIter,
    BytesIter,
    IterU8,
    IterT,
    SliceT,
    Char,
    Int,
    Formatter,
    Arguments,
    Other,
}

impl<'tcx> World<'tcx> {
    pub fn adt_path(&mut self, t: Ty<'tcx>) -> Option<Rc<String>> {
        match t.kind() {
            ty::Adt(d, _) => Some(self.name(d.did())),
            _ => None,
        }
    }
    pub fn kind_of(&mut self, t: Ty<'tcx>) -> K {
        let t = t.peel_refs();
        match t.kind() {
            ty::Str => K::Str,
            ty::Slice(e) => {
                if e.is_integral() && self.size_of(*e) == 1 {
                    K::Bytes
                } else {
                    K::SliceT
                }
            }
            ty::Array(e, _) => {
                if e.is_integral() && self.size_of(*e) == 1 {
                    K::Bytes
                } else {
                    K::SliceT
                }
            }
            ty::Char => K::Char,
            ty::Int(_) | ty::Uint(_) => K::Int,
            ty::Adt(d, args) => {
                let n = self.name(d.did());
                match n.as_str() {
                    "alloc::string::String" => K::StringT,
                    "alloc::vec::Vec" => {
                        if args.type_at(0) == self.tcx.types.u8 {
                            K::VecU8
                        } else {
                            K::Other
                        }
                    }
                    "core::str::iter::Chars" => K::Chars,
                    "core::array::iter::IntoIter" => K::ArrIter,
                    "core::str::iter::Split" => K::SplitIter,
                    "core::slice::iter::ChunksExactMut" | "core::slice::iter::ChunksExact" | "core::slice::iter::Chunks" | "core::slice::iter::ChunksMut" => K::ChunkIter,
                    "core::str::iter::Bytes" => K::BytesIter,
                    "core::slice::iter::IterMut" => K::IterT,
                    "core::slice::iter::Iter" => {
                        if args.type_at(1) == self.tcx.types.u8 {
                            K::IterU8
                        } else {
                            K::IterT
                        }
                    }
                    "alloc::boxed::Box" | "alloc::rc::Rc" | "alloc::sync::Arc" | "alloc::rcs::rc::Rc" | "alloc::rcs::arc::Arc" | "alloc::rcs::sync::Arc" => {
                        if self.is_strlike(args.type_at(0)) {
                            K::BoxStr
                        } else {
                            K::Other
                        }
                    }
                    "core::fmt::Formatter" => K::Formatter,
                    "core::fmt::Arguments" => K::Arguments,
                    _ => K::Other,
                }
            }
            _ => K::Other,
        }
    }
    /// The text behind a string-like value or a reference to one.
    pub fn rope_of(&self, st: &State<'tcx>, x: &Val<'tcx>) -> R<'tcx, Rope> {
        match self.peel(x) {
            Val::Str(r) | Val::Buf(r) => Ok(r),
            Val::Ref(p) => {
                let y = self.read(st, &p)?;
                if let Val::Agg(_, f) = &y {
                    if let Some(r) = self.bytes_rope(st, f) {
                        return Ok(r);
                    }
                }
                self.rope_of(st, &y)
            }
            Val::Slice(p, o, n) => {
                let y = self.read(st, &p)?;
                if let Val::Agg(_, f) = &y {
                    if let Some(r) = self.bytes_rope(st, &f[o as usize..(o + n) as usize]) {
                        return Ok(r);
                    }
                }
                unsup("byte slice contents")
            }
            Val::Dyn(p, _) => self.rope_of(st, &p),
            Val::C(..) | Val::Map(..) => unsup("text of a scalar"),
            y => unsup(format!("text of {:?}", y)),
        }
    }
    fn bytes_rope(&self, st: &State<'tcx>, f: &[Val<'tcx>]) -> Option<Rope> {
        let mut ps = vec![];
        for x in f {
            match self.norm(st, x.clone()) {
                Val::C(c, 1) => ps.push(Piece::C(Rc::new(vec![c as u8]), 0, 1)),
                Val::Map(t, b, m, 1) => ps.push(Piece::By(t, b, m)),
                _ => return None,
            }
        }
        Some(Rope::new(ps))
    }
    fn put_in(old: &Val<'tcx>, new: &Val<'tcx>) -> Option<Val<'tcx>> {
        match old {
            Val::Str(_) | Val::Buf(_) | Val::Slice(..) => Some(new.clone()),
            Val::Agg(va, f) => {
                for (i, x) in f.iter().enumerate() {
                    if let Some(y) = Self::put_in(x, new) {
                        let mut g = (**f).clone();
                        g[i] = y;
                        return Some(Val::Agg(*va, Rc::new(g)));
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// Replaces the text inside the object behind a (possibly nested) reference.
    pub fn put(&self, st: &mut State<'tcx>, target: &Val<'tcx>, new: Val<'tcx>) -> R<'tcx, ()> {
        match self.peel(target) {
            Val::Ref(p) => {
                let old = self.read(st, &p)?;
                if let Val::Ref(_) = self.peel(&old) {
                    return self.put(st, &old, new);
                }
                match Self::put_in(&old, &new) {
                    Some(x) => self.write(st, &p, x),
                    None => unsup(format!("update of {:?}", old)),
                }
            }
            x => unsup(format!("update through {:?}", x)),
        }
    }
    pub fn boxed(&self, st: &mut State<'tcx>, x: Val<'tcx>) -> Val<'tcx> {
        Val::Ref(self.alloc(st, x))
    }
    pub fn as_len(&self, st: &State<'tcx>, x: &Val<'tcx>) -> R<'tcx, LinLen> {
        match self.norm(st, self.peel(x)) {
            Val::C(c, _) => Ok(LinLen::c(c as u64 as i64)),
            Val::Len(l) => Ok((*l).clone()),
            Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
            y => self.unsum(st, y, "index value"),
        }
    }
    fn range_of(&mut self, st: &State<'tcx>, x: &Val<'tcx>, t: Ty<'tcx>, len: &LinLen) -> R<'tcx, Option<(LinLen, LinLen)>> {
        let n = match self.adt_path(t) {
            Some(n) => n,
            None => return Ok(None),
        };
        let zero = LinLen::c(0);
        Ok(Some(match n.rsplit("::").next().unwrap() {
            "Range" => (self.as_len(st, &self.field(x, 0))?, self.as_len(st, &self.field(x, 1))?),
            "RangeFrom" => (self.as_len(st, &self.field(x, 0))?, len.clone()),
            "RangeTo" => (zero, self.as_len(st, &self.field(x, 0))?),
            "RangeFull" => (zero, len.clone()),
            "RangeInclusive" => {
                let e = self.as_len(st, &self.field(x, 1))?;
                (self.as_len(st, &self.field(x, 0))?, e.add(&LinLen::c(1), 1))
            }
            "RangeToInclusive" => {
                let e = self.as_len(st, &self.field(x, 0))?;
                (zero, e.add(&LinLen::c(1), 1))
            }
            _ => return Ok(None),
        }))
    }
    /// (before, middle, after) or None when out of range / not on a char boundary.
    pub fn slice3(&self, st: &State<'tcx>, r: &Rope, a: &LinLen, b: &LinLen, chars: bool) -> R<'tcx, Option<(Rope, Rope, Rope)>> {
        if st.neg(&b.add(a, -1))? {
            return Ok(None);
        }
        let (l, right) = match st.split_rope(r, b)? {
            Some(x) => x,
            None => return Ok(None),
        };
        let (left, mid) = match st.split_rope(&l, a)? {
            Some(x) => x,
            None => return Ok(None),
        };
        if chars && (!st.at_char_boundary(&right)? || !st.at_char_boundary(&mid.cat(&right))?) {
            return Ok(None);
        }
        Ok(Some((left, mid, right)))
    }
    fn iter_rope(&self, st: &State<'tcx>, x: &Val<'tcx>) -> R<'tcx, Rope> {
        self.rope_of(st, x)
    }
    pub fn byte_lang(set: &[u8]) -> L {
        lang::syms(set.iter().map(|&b| (b as u16, b as u16)).collect())
    }
    fn trait_by_path(&mut self, p: &str) -> Option<DefId> {
        if let Some(d) = self.models.get(p) {
            return Some(*d);
        }
        let all: Vec<DefId> = self.tcx.all_traits_including_private().collect();
        for d in all {
            let n = self.name(d);
            self.models.entry((*n).clone()).or_insert(d);
        }
        self.models.get(p).cloned()
    }
    pub fn trait_method(&mut self, tr: &str, m: &str, args: Vec<GenericArg<'tcx>>) -> R<'tcx, Instance<'tcx>> {
        let d = match self.trait_by_path(tr) {
            Some(d) => d,
            None => return unsup(format!("trait {}", tr)),
        };
        let sym = Symbol::intern(m);
        let it = self.tcx.associated_items(d).in_definition_order().find(|a| a.opt_name() == Some(sym)).map(|a| a.def_id);
        let it = match it {
            Some(x) => x,
            None => return unsup(format!("method {}::{}", tr, m)),
        };
        self.resolve(it, self.tcx.mk_args(&args))
    }
    pub fn resolve(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> R<'tcx, Instance<'tcx>> {
        match Instance::try_resolve(self.tcx, self.env, d, a) {
            Ok(Some(i)) => Ok(i),
            _ => unsup(format!("unresolved {}", self.tcx.def_path_str(d))),
        }
    }
    fn unify(&self, p: Ty<'tcx>, t: Ty<'tcx>, m: &mut HashMap<u32, GenericArg<'tcx>>) {
        match (p.kind(), t.kind()) {
            (ty::Param(q), _) => {
                m.entry(q.index).or_insert(t.into());
            }
            (ty::Ref(_, a, _), ty::Ref(_, b, _)) => self.unify(*a, *b, m),
            (ty::RawPtr(a, _), ty::RawPtr(b, _)) => self.unify(*a, *b, m),
            (ty::Slice(a), ty::Slice(b)) => self.unify(*a, *b, m),
            (ty::Array(a, n), ty::Array(b, k)) => {
                self.unify(*a, *b, m);
                if let ty::ConstKind::Param(q) = n.kind() {
                    m.entry(q.index).or_insert((*k).into());
                }
            }
            (ty::Tuple(a), ty::Tuple(b)) => {
                for (x, y) in a.iter().zip(b.iter()) {
                    self.unify(x, y, m);
                }
            }
            (ty::Adt(_, a), ty::Adt(_, b)) => {
                for (x, y) in a.iter().zip(b.iter()) {
                    if let (GenericArgKind::Type(x), GenericArgKind::Type(y)) = (x.kind(), y.kind()) {
                        self.unify(x, y, m);
                    }
                }
            }
            _ => {}
        }
    }
    pub fn sig_of(&self, i: Instance<'tcx>) -> (Vec<Ty<'tcx>>, Ty<'tcx>) {
        let t = i.ty(self.tcx, self.env);
        let s = match t.kind() {
            ty::Closure(_, a) => a.as_closure().sig(),
            ty::FnDef(..) | ty::FnPtr(..) => t.fn_sig(self.tcx),
            _ => return (vec![], self.tcx.types.unit),
        };
        let s = self.tcx.normalize_erasing_late_bound_regions(self.env, s);
        (s.inputs().to_vec(), s.output())
    }
    /// Redirect to a Rust model of a std function.
    fn model(&mut self, name: &str, callee: Instance<'tcx>, vals: &[Val<'tcx>]) -> CR<'tcx> {
        let key = format!("model:{}", name);
        let d = match self.models.get(&key) {
            Some(d) => *d,
            None => return unsup(format!("no model {}", name)),
        };
        let (inp, out) = self.sig_of(callee);
        let ms = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let mut m = HashMap::default();
        for (p, t) in ms.inputs().iter().zip(inp.iter()) {
            self.unify(*p, *t, &mut m);
        }
        self.unify(ms.output(), out, &mut m);
        let g = self.tcx.generics_of(d);
        let mut args: Vec<GenericArg<'tcx>> = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => args.push(self.tcx.lifetimes.re_erased.into()),
                _ => match m.get(&(i as u32)) {
                    Some(a) => args.push(*a),
                    None => return unsup(format!("model {} generic {}", name, i)),
                },
            }
        }
        let i = self.resolve(d, self.tcx.mk_args(&args))?;
        Ok(Some(CallRes::Call(i, vals.to_vec())))
    }

    // ------------------------------------------------------------ formatting
    fn parse_template(&self, t: &[u8], args: &[Val<'tcx>]) -> Option<Vec<FmtItem<'tcx>>> {
        let mut i = 0;
        let mut out = vec![];
        let mut next = 0usize;
        loop {
            let n = *t.get(i)?;
            i += 1;
            if n == 0 {
                return Some(out);
            } else if n < 0x80 {
                out.push(FmtItem::Lit(Rope::konst(t.get(i..i + n as usize)?)));
                i += n as usize;
            } else if n == 0x80 {
                let l = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as usize;
                i += 2;
                out.push(FmtItem::Lit(Rope::konst(t.get(i..i + l)?)));
                i += l;
            } else {
                let mut o: u64 = 0;
                if n & 1 != 0 {
                    o |= u32::from_le_bytes([*t.get(i)?, *t.get(i + 1)?, *t.get(i + 2)?, *t.get(i + 3)?]) as u64;
                    i += 4;
                }
                for bit in [1u8, 2] {
                    if n & (1 << bit) != 0 {
                        let w = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as u64;
                        i += 2;
                        o |= w << (16 * (bit as u64 + 1));
                    }
                }
                if n & 0x30 != 0 {
                    return None;
                }
                if n & 8 != 0 {
                    next = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as usize;
                    i += 2;
                }
                match args.get(next)? {
                    Val::FmtArg(x, f, ty) => out.push(FmtItem::Arg((**x).clone(), *f, *ty, o)),
                    _ => return None,
                }
                next += 1;
            }
        }
    }
    fn seq_frame(&self, items: Rc<Vec<FmtItem<'tcx>>>, writer: Val<'tcx>, wt: Ty<'tcx>, inst: Instance<'tcx>) -> Frame<'tcx> {
        Frame {
            inst,
            kind: FrameKind::Seq(items, 0, Val::Sink(Some(Rc::new((writer, wt))), 0)),
            bb: rustc_middle::mir::START_BLOCK,
            stmt: 0,
            locals: vec![Val::Undef],
            dest: None,
            target: None,
            loops: vec![],
        }
    }
    pub fn step_seq(&mut self, st: &mut State<'tcx>) -> R<'tcx, Flow<'tcx>> {
        let n = st.frames.len() - 1;
        let (items, idx, sink) = match &st.frames[n].kind {
            FrameKind::Seq(a, b, c) => (a.clone(), *b, c.clone()),
            _ => unreachable!(),
        };
        if idx > 0 {
            match st.frames[n].locals[0].clone() {
                Val::Agg(1, _) => {
                    return self.ret(st, err(unit()));
                }
                Val::Agg(0, _) => {}
                x => return unsup(format!("fmt result {:?}", x)),
            }
        }
        if idx as usize >= items.len() {
            return self.ret(st, ok(unit()));
        }
        let it = items[idx as usize].clone();
        // commit the index only when the call is successfully started
        let save = st.frames[n].kind.clone();
        st.frames[n].kind = FrameKind::Seq(items, idx + 1, sink.clone());
        let (w, wt, opts) = match &sink {
            Val::Sink(Some(x), o) => (x.0.clone(), x.1, *o),
            _ => return unsup("sink"),
        };
        let _ = opts;
        let r = match it {
            FmtItem::Lit(r) => {
                let i = self.trait_method("core::fmt::Write", "write_str", vec![wt.into()])?;
                self.do_call(st, i, vec![w, Val::Str(r)], false, self.dummy_dest(), None)
            }
            FmtItem::Arg(x, f, _, o) => {
                let s = Val::Sink(Some(Rc::new((w, wt))), o);
                let cell = self.boxed(st, s);
                self.do_call(st, f, vec![x, cell], false, self.dummy_dest(), None)
            }
        };
        if let Err(e) = r {
            st.frames[n].kind = save.clone();
            return Err(match e {
                Stop::Fork(mut v) => {
                    for s in v.iter_mut() {
                        s.frames.truncate(n + 1);
                        s.frames[n].kind = save.clone();
                    }
                    Stop::Fork(v)
                }
                e => e,
            });
        }
        r
    }
    fn sink_of(&self, st: &State<'tcx>, x: &Val<'tcx>) -> R<'tcx, (Val<'tcx>, Ty<'tcx>, u64)> {
        let mut y = self.peel(x);
        for _ in 0..5 {
            match y {
                Val::Sink(Some(s), o) => return Ok((s.0.clone(), s.1, o)),
                Val::Ref(p) => y = self.peel(&self.read(st, &p)?),
                z => return unsup(format!("formatter {:?}", z)),
            }
        }
        unsup("formatter")
    }
    fn write_to(&mut self, st: &mut State<'tcx>, f: &Val<'tcx>, r: Rope) -> CR<'tcx> {
        let (w, wt, _) = self.sink_of(st, f)?;
        let i = self.trait_method("core::fmt::Write", "write_str", vec![wt.into()])?;
        Ok(Some(CallRes::Call(i, vec![w, Val::Str(r)])))
    }
    /// Text of a char value.
    pub fn char_rope(&mut self, st: &State<'tcx>, c: &Val<'tcx>) -> R<'tcx, Rope> {
        match self.norm(st, self.peel(c)) {
            Val::C(c, _) => match char::from_u32(c as u32) {
                Some(c) => Ok(Rope::konst(c.to_string().as_bytes())),
                None => unsup("invalid char"),
            },
            Val::Map(t, b, m, _) => {
                let i = st.bidx(t, b);
                let ident = m.iter().all(|&(lo, hi, x)| x == MV::Lin(0) || (lo == hi && x == MV::C(lo as u128)));
                let isch = matches!(&st.seg(t, i).ch, Some((s, byte)) if !*byte || s.last().unwrap().1 < 128);
                if ident && isch {
                    return Ok(Rope::new(vec![Piece::T(t, b, st.tapes[t as usize].b[i + 1])]));
                }
                Ok(Rope::new(vec![Piece::Ch(t, b, m)]))
            }
            Val::Top(_) => Ok(Rope::new(vec![Piece::Any])),
            x @ Val::Sum(..) => {
                let u = self.tcx.types.u32;
                let mut n = 1;
                for (i, k) in [0x80u128, 0x800, 0x10000].iter().enumerate() {
                    if let Val::C(1, _) = self.binop(st, rustc_middle::mir::BinOp::Ge, x.clone(), Val::C(*k, 4), u)? {
                        n = i + 2;
                    }
                }
                let mut ps = vec![];
                for i in 0..n {
                    let sh = 6 * (n - 1 - i) as u128;
                    let y = self.binop(st, rustc_middle::mir::BinOp::Shr, x.clone(), Val::C(sh, 4), u)?;
                    let (m, o) = match (i, n) {
                        (0, 1) => (0x7f, 0),
                        (0, _) => (0xff, [0, 0, 0xc0u128, 0xe0, 0xf0][n]),
                        _ => (0x3f, 0x80),
                    };
                    let y = self.binop(st, rustc_middle::mir::BinOp::BitAnd, y, Val::C(m, 4), u)?;
                    let y = self.binop(st, rustc_middle::mir::BinOp::BitOr, y, Val::C(o, 4), u)?;
                    match y {
                        Val::C(c, _) => ps.push(Piece::C(Rc::new(vec![c as u8]), 0, 1)),
                        Val::Map(t, b, m, _) => ps.push(Piece::By(t, b, m)),
                        y => return self.sum_fork(st, &y, &y),
                    }
                }
                Ok(Rope::new(ps))
            }
            x => unsup(format!("text of char {:?}", x)),
        }
    }

    // ------------------------------------------------------------ comparisons
    fn seg_list(&self, st: &State<'tcx>, r: &Rope) -> Option<Vec<(u8, usize)>> {
        let mut out = vec![];
        for p in r.0.iter() {
            match p {
                Piece::T(t, a, b) => {
                    for i in st.bidx(*t, *a)..st.bidx(*t, *b) {
                        if !st.is_empty_seg(*t, i) {
                            out.push((*t, i));
                        }
                    }
                }
                _ => return None,
            }
        }
        Some(out)
    }
    fn restrict_seg(&self, st: &State<'tcx>, t: u8, i: usize, l: L) -> Option<State<'tcx>> {
        if let Some((c, byte)) = st.seg(t, i).ch.clone() {
            // keep the char structure
            let set: CSet = if byte {
                bytes_of(l)
            } else {
                let mut v: Vec<(u32, u32)> = vec![];
                for (s, rest) in lang::first_chars(l).iter() {
                    if lang::accepts_eps(*rest) {
                        v.extend(s.iter().cloned());
                    }
                }
                lang::cs(v)
            };
            return st.with_ch(t, i, lang::cs_inter(&c, &set));
        }
        st.with_seg(t, i, l)
    }
    /// Does the text start with the constant? Forks until decided.
    pub fn starts_const(&self, st: &State<'tcx>, r: &Rope, w: &[u8], whole: bool) -> R<'tcx, bool> {
        // walk pieces
        let mut w = w.to_vec();
        for (pi, p) in r.0.iter().enumerate() {
            let later_empty = r.0[pi + 1..].iter().all(|q| matches!(q, Piece::T(_, a, b) if a == b) || matches!(q, Piece::C(_, _, 0)));
            match p {
                Piece::C(b, o, n) => {
                    let s = &b[*o as usize..(*o + *n) as usize];
                    let k = s.len().min(w.len());
                    if s[..k] != w[..k] {
                        return Ok(false);
                    }
                    if w.len() < s.len() {
                        return Ok(!whole);
                    }
                    w = w[k..].to_vec();
                }
                Piece::T(t, a, e) => {
                    let (i0, j) = (st.bidx(*t, *a), st.bidx(*t, *e));
                    for i in i0..j {
                        if st.is_empty_seg(*t, i) {
                            continue;
                        }
                        if w.is_empty() && !whole {
                            return Ok(true);
                        }
                        let l = st.seg_lang(*t, i)?;
                        // decomposition of l
                        let last = later_empty && (i + 1..j).all(|x| st.is_empty_seg(*t, x));
                        let full = lang::bytes(&w);
                        let hit = if whole { if last { lang::inter(l, full) } else { lang::empty() } } else { lang::inter(l, lang::concat(full, lang::all_bytes())) };
                        if hit == l {
                            return Ok(true);
                        }
                        let mut alts: Vec<L> = vec![];
                        if hit != lang::empty() {
                            alts.push(hit);
                        }
                        let mut rest = lang::diff(l, hit);
                        let mut prefixes = vec![];
                        if !last {
                            let top = if whole { w.len() + 1 } else { w.len() };
                            for k in 0..top {
                                let pl = lang::bytes(&w[..k]);
                                if lang::inter(rest, pl) != lang::empty() {
                                    rest = lang::diff(rest, pl);
                                    prefixes.push((k, pl));
                                }
                            }
                        }
                        if hit == lang::empty() && prefixes.is_empty() {
                            return Ok(false);
                        }
                        if hit == lang::empty() && prefixes.len() == 1 && rest == lang::empty() {
                            // consumed exactly
                            w = w[prefixes[0].0..].to_vec();
                            continue;
                        }
                        if st.seg(*t, i).tagged {
                            return unsup("re-reading input already consumed by output");
                        }
                        alts.extend(prefixes.iter().map(|x| x.1));
                        if rest != lang::empty() {
                            alts.push(rest);
                        }
                        return st.fork(alts.into_iter().map(|x| self.restrict_seg(st, *t, i, x)).collect());
                    }
                }
                Piece::Ch(t, b, m) | Piece::By(t, b, m) => {
                    if w.is_empty() && !whole {
                        return Ok(true);
                    }
                    return st.fork_map(*t, *b, m);
                }
                Piece::Out => return unsup("reading streamed output"),
                Piece::AnyChar => return unsup("reading untracked text"),
                Piece::Any => {
                    if w.is_empty() && !whole {
                        return Ok(true);
                    }
                    return unsup("comparison of untracked text");
                }
            }
        }
        Ok(w.is_empty())
    }
    pub fn ends_const(&self, st: &State<'tcx>, r: &Rope, w: &[u8]) -> R<'tcx, bool> {
        let mut w = w.to_vec();
        for p in r.0.iter().rev() {
            if w.is_empty() {
                return Ok(true);
            }
            match p {
                Piece::C(b, o, n) => {
                    let s = &b[*o as usize..(*o + *n) as usize];
                    let k = s.len().min(w.len());
                    if s[s.len() - k..] != w[w.len() - k..] {
                        return Ok(false);
                    }
                    w.truncate(w.len() - k);
                }
                Piece::T(t, a, e) => {
                    let (i0, j) = (st.bidx(*t, *a), st.bidx(*t, *e));
                    for i in (i0..j).rev() {
                        if st.is_empty_seg(*t, i) {
                            continue;
                        }
                        if w.is_empty() {
                            return Ok(true);
                        }
                        let l = st.seg_lang(*t, i)?;
                        let full = lang::bytes(&w);
                        let hit = lang::inter(l, lang::concat(lang::all_bytes(), full));
                        if hit == l {
                            return Ok(true);
                        }
                        let mut alts: Vec<L> = vec![];
                        if hit != lang::empty() {
                            alts.push(hit);
                        }
                        let mut rest = lang::diff(l, hit);
                        let mut pre = vec![];
                        for k in 0..w.len() {
                            let pl = lang::bytes(&w[w.len() - k..]);
                            if lang::inter(rest, pl) != lang::empty() {
                                rest = lang::diff(rest, pl);
                                pre.push((k, pl));
                            }
                        }
                        if hit == lang::empty() && pre.is_empty() {
                            return Ok(false);
                        }
                        if hit == lang::empty() && pre.len() == 1 && rest == lang::empty() {
                            let k = pre[0].0;
                            w.truncate(w.len() - k);
                            continue;
                        }
                        if st.seg(*t, i).tagged {
                            return unsup("re-reading input already consumed by output");
                        }
                        alts.extend(pre.iter().map(|x| x.1));
                        if rest != lang::empty() {
                            alts.push(rest);
                        }
                        return st.fork(alts.into_iter().map(|x| self.restrict_seg(st, *t, i, x)).collect());
                    }
                }
                Piece::Ch(t, b, m) | Piece::By(t, b, m) => return st.fork_map(*t, *b, m),
                Piece::Out => return unsup("reading streamed output"),
                Piece::Any | Piece::AnyChar => return unsup("comparison of untracked text"),
            }
        }
        Ok(w.is_empty())
    }
    /// The rest of the text after the given leading part. Forks until decided.
    fn strip_rope(&mut self, st: &State<'tcx>, mut r: Rope, mut q: Rope) -> R<'tcx, Option<Rope>> {
        fn trim<'tcx>(st: &State<'tcx>, r: &Rope) -> Rope {
            let mut v = (*r.0).clone();
            while !v.is_empty() {
                match v[0].clone() {
                    Piece::C(_, _, 0) => {}
                    Piece::T(_, a, b) if a == b => {}
                    Piece::T(t, a, b) => {
                        let i = st.bidx(t, a);
                        if !st.is_empty_seg(t, i) {
                            break;
                        }
                        v[0] = Piece::T(t, st.tapes[t as usize].b[i + 1], b);
                        continue;
                    }
                    _ => break,
                }
                if v.len() == 1 {
                    break;
                }
                v.remove(0);
            }
            Rope::new(v)
        }
        for _ in 0..64 {
            q = trim(st, &q);
            r = trim(st, &r);
            match (q.0.first().cloned(), r.0.first().cloned()) {
                (None, _) => return Ok(Some(r)),
                (Some(Piece::C(_, _, 0)), _) => return Ok(Some(r)),
                (Some(Piece::T(_, a, b)), _) if a == b => return Ok(Some(r)),
                (Some(Piece::T(t, a, e)), Some(Piece::T(u, b, f))) if t == u && a == b && b != f => {
                    // the same text
                    let nb = st.tapes[t as usize].b[st.bidx(t, a) + 1];
                    let (mut x, mut y) = ((*q.0).clone(), (*r.0).clone());
                    x[0] = Piece::T(t, nb, e);
                    y[0] = Piece::T(t, nb, f);
                    q = Rope::new(x);
                    r = Rope::new(y);
                    continue;
                }
                (Some(Piece::C(b, o, n)), _) => {
                    let w = b[o as usize..(o + n) as usize].to_vec();
                    if !self.starts_const(st, &r, &w, false)? {
                        return Ok(None);
                    }
                    match st.split_rope(&r, &LinLen::c(n as i64))? {
                        Some((_, y)) => r = y,
                        None => return unsup("strip_prefix"),
                    }
                    let mut x = (*q.0).clone();
                    x.remove(0);
                    q = Rope::new(x);
                    continue;
                }
                _ => {}
            }
            let (c, q2) = match st.first_char(&q)? {
                None => return Ok(Some(r)),
                Some(x) => x,
            };
            let (d, r2) = match st.first_char(&r)? {
                None => return Ok(None),
                Some(x) => x,
            };
            let eq = match (self.norm(st, c), self.norm(st, d)) {
                (Val::C(x, _), Val::C(y, _)) => x == y,
                (Val::Map(t, b, m, _), Val::C(k, _)) | (Val::C(k, _), Val::Map(t, b, m, _)) => {
                    let f = map_apply(&m, |lo, hi, y| match y {
                        MV::C(c) => vec![(lo, hi, MV::C((c == k) as u128))],
                        MV::Lin(o) => {
                            let z = k as i64 - o;
                            let mut v = vec![];
                            if z < lo as i64 || z > hi as i64 {
                                v.push((lo, hi, MV::C(0)));
                            } else {
                                let z = z as u32;
                                if lo < z {
                                    v.push((lo, z - 1, MV::C(0)));
                                }
                                v.push((z, z, MV::C(1)));
                                if z < hi {
                                    v.push((z + 1, hi, MV::C(0)));
                                }
                            }
                            v
                        }
                    });
                    match st.norm_map(t, b, &Rc::new(f), 1) {
                        Val::C(x, _) => x == 1,
                        Val::Map(t, b, m, _) => return st.fork_map(t, b, &m),
                        _ => return unsup("character comparison"),
                    }
                }
                (Val::Map(t, b, m, _), Val::Map(u, e, n, _)) if t == u && b == e => {
                    let set = st.seg(t, st.bidx(t, b)).ch.clone().unwrap().0;
                    let (m, n) = (crate::tape::restrict(&m, &set), crate::tape::restrict(&n, &set));
                    let mut f = vec![];
                    for &(lo, hi, x) in &m {
                        for (lo, hi, y) in crate::tape::restrict(&n, &[(lo, hi)]) {
                            match (x, y) {
                                (MV::C(x), MV::C(y)) => f.push((lo, hi, MV::C((x == y) as u128))),
                                (MV::Lin(x), MV::Lin(y)) => f.push((lo, hi, MV::C((x == y) as u128))),
                                (MV::C(k), MV::Lin(o)) | (MV::Lin(o), MV::C(k)) => {
                                    for z in lo..=hi {
                                        f.push((z, z, MV::C((z as i64 + o == k as i64) as u128)));
                                    }
                                }
                            }
                        }
                    }
                    f.sort_by_key(|x| x.0);
                    match st.norm_map(t, b, &Rc::new(f), 1) {
                        Val::C(x, _) => x == 1,
                        Val::Map(t, b, m, _) => return st.fork_map(t, b, &m),
                        _ => return unsup("character comparison"),
                    }
                }
                _ => return unsup("comparison of two symbolic characters"),
            };
            if !eq {
                return Ok(None);
            }
            q = q2;
            r = r2;
        }
        unsup("long text comparison")
    }
    pub fn rope_eq(&mut self, st: &State<'tcx>, a: &Rope, b: &Rope) -> R<'tcx, Val<'tcx>> {
        if a == b && !a.0.iter().any(|p| matches!(p, Piece::Any | Piece::AnyChar)) {
            return Ok(c_bool(true));
        }
        if let Some(w) = b.as_const() {
            return Ok(c_bool(self.starts_const(st, a, &w, true)?));
        }
        if let Some(w) = a.as_const() {
            return Ok(c_bool(self.starts_const(st, b, &w, true)?));
        }
        let (la, lb) = (self.seg_list(st, a), self.seg_list(st, b));
        if la.is_some() && la == lb {
            return Ok(c_bool(true));
        }
        // whole independent tapes: an uninterpreted (but consistent) fact
        if let (Some(x), Some(y)) = (whole_tape(st, a), whole_tape(st, b)) {
            let (x, y) = (x.min(y), x.max(y));
            return Ok(Val::Atom(self.atom(format!("tape{}==tape{}", x, y)), false));
        }
        // different fixed contents
        let (x, y) = (st.rope_len(a)?, st.rope_len(b)?);
        if st.sign(&x.add(&y, -1))? != Ordering::Equal {
            return Ok(c_bool(false));
        }
        unsup("comparison of two symbolic texts")
    }
    pub fn atom(&mut self, s: String) -> u32 {
        if let Some(i) = self.atoms.iter().position(|x| *x == s) {
            return i as u32;
        }
        self.atoms.push(s);
        self.atoms.len() as u32 - 1
    }
    fn ptr_val(&self, st: &State<'tcx>, x: &Val<'tcx>) -> R<'tcx, Val<'tcx>> {
        match self.peel(x) {
            Val::Ref(p) => {
                let y = self.read(st, &p)?;
                Ok(self.norm(st, y))
            }
            y => Ok(y),
        }
    }
    /// dereferences as many references as possible
    fn deep(&self, st: &State<'tcx>, x: &Val<'tcx>) -> R<'tcx, Val<'tcx>> {
        let mut y = self.peel(x);
        for _ in 0..6 {
            match y {
                Val::Ref(p) => {
                    let z = self.read(st, &p)?;
                    y = self.peel(&self.norm(st, z));
                }
                z => return Ok(z),
            }
        }
        Ok(y)
    }
    /// constant ASCII byte set for a simple pattern argument
    fn pat(&mut self, st: &State<'tcx>, x: &Val<'tcx>, t: Ty<'tcx>) -> R<'tcx, Pat> {
        let k = self.kind_of(t);
        match k {
            K::Char => match self.norm(st, self.deep(st, x)?) {
                Val::C(c, _) if c < 128 => Ok(Pat::Set(vec![c as u8])),
                Val::C(c, _) => Ok(Pat::Lit(char::from_u32(c as u32).unwrap().to_string().into_bytes())),
                Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
                _ => unsup("pattern char"),
            },
            K::Str | K::StringT => {
                let r = self.rope_of(st, x)?;
                match r.as_const() {
                    Some(w) => Ok(Pat::Lit(w)),
                    None => Ok(Pat::Rope(r)),
                }
            }
            K::SliceT => {
                // array or slice of chars
                let els: Vec<Val<'tcx>> = match self.deep(st, x)? {
                    Val::Agg(_, f) => f.to_vec(),
                    Val::Slice(p, o, n) => match self.read(st, &p)? {
                        Val::Agg(_, f) => f[o as usize..(o + n) as usize].to_vec(),
                        _ => return unsup("pattern set"),
                    },
                    _ => return Ok(Pat::Other),
                };
                let mut s = vec![];
                for e in els {
                    match e {
                        Val::C(c, _) if c < 128 => s.push(c as u8),
                        _ => return unsup("pattern set"),
                    }
                }
                Ok(Pat::Set(s))
            }
            _ => Ok(Pat::Other),
        }
    }
    fn head_in(&self, st: &State<'tcx>, r: &Rope, set: &[u8], last: bool) -> R<'tcx, bool> {
        let c = if last { st.last_char(r)? } else { st.first_char(r)? };
        match c {
            None => Ok(false),
            Some((x, _)) => match x {
                Val::C(c, _) => Ok(c < 128 && set.contains(&(c as u8))),
                Val::Map(t, b, m, _) => {
                    let i = st.bidx(t, b);
                    let mut yes = vec![];
                    for &(lo, hi, x) in m.iter() {
                        match x {
                            MV::C(c) => {
                                if c < 128 && set.contains(&(c as u8)) {
                                    yes.push((lo, hi));
                                }
                            }
                            MV::Lin(k) => {
                                for &s in set {
                                    let p = s as i64 - k;
                                    if p >= lo as i64 && p <= hi as i64 {
                                        yes.push((p as u32, p as u32));
                                    }
                                }
                            }
                        }
                    }
                    let cur = st.seg(t, i).ch.clone().unwrap().0;
                    let yes = lang::cs_inter(&cur, &lang::cs(yes));
                    let no = lang::cs_inter(&cur, &lang::cs_compl(&yes));
                    if yes.is_empty() {
                        return Ok(false);
                    }
                    if no.is_empty() {
                        return Ok(true);
                    }
                    st.fork(vec![st.with_ch(t, i, yes), st.with_ch(t, i, no)])
                }
                _ => unsup("pattern head"),
            },
        }
    }
    fn find_lit(&self, st: &State<'tcx>, r: &Rope, w: &[u8], last: bool) -> R<'tcx, Option<(Rope, Rope, Rope)>> {
        // single-segment implementation through language splitting
        if w.is_empty() {
            return Ok(Some(if last { (r.clone(), Rope::default(), Rope::default()) } else { (Rope::default(), Rope::default(), r.clone()) }));
        }
        if w.len() == 1 {
            let set = Self::byte_lang(w);
            let f = if last { st.find_last(r, set)? } else { st.find_first(r, set)? };
            return Ok(match f {
                None => None,
                Some((a, rest)) => match st.split_rope(&rest, &LinLen::c(1))? {
                    Some((x, y)) => Some((a, x, y)),
                    None => None,
                },
            });
        }
        // run the (mirrored) matching automaton over the pieces, splitting each by the state it leads to
        enum It {
            S(u8, usize),
            W(Vec<u8>),
        }
        let mut its: Vec<It> = vec![];
        for p in r.0.iter() {
            match p {
                Piece::T(t, a, b) => {
                    for i in st.bidx(*t, *a)..st.bidx(*t, *b) {
                        if !st.is_empty_seg(*t, i) {
                            its.push(It::S(*t, i));
                        }
                    }
                }
                Piece::C(b, o, n) => its.push(It::W(b[*o as usize..(*o + *n) as usize].to_vec())),
                _ => return unsup("substring search in computed text"),
            }
        }
        let rev = |l: L| if last { lang::reverse(l) } else { l };
        let k = w.len();
        let wd: Vec<u8> = if last { w.iter().rev().cloned().collect() } else { w.to_vec() };
        let sub = |w: &[u8]| -> Vec<u16> { w.iter().map(|b| *b as u16).collect() };
        let any = lang::all_bytes();
        let wl = lang::bytes(&wd);
        let has = lang::concat_all(&[any, wl, any]);
        let none_l = lang::diff(any, has);
        let mut ends = vec![];
        let mut longer = lang::empty();
        for q in (0..k).rev() {
            let e = lang::concat(any, lang::bytes(&wd[..q]));
            ends.push(lang::inter(none_l, lang::diff(e, longer)));
            longer = lang::union(longer, e);
        }
        ends.reverse();
        let fin = lang::diff(lang::concat(any, wl), lang::concat_all(&[any, wl, lang::len_ge(1)]));
        let lq = |l: L, q: usize| {
            let d = lang::dfa(l);
            let mut s = 0;
            for b in sub(&wd[..q]) {
                s = d.step(s, b);
            }
            lang::from_state(l, s)
        };
        let mut q = 0;
        let order: Vec<usize> = if last { (0..its.len()).rev().collect() } else { (0..its.len()).collect() };
        for j in order {
            let l = match &its[j] {
                It::S(t, i) => rev(st.seg_lang(*t, *i)?),
                It::W(b) => rev(lang::bytes(b)),
            };
            let go: Vec<(usize, L)> = (0..k).map(|n| (n, lang::inter(l, lq(ends[n], q)))).filter(|x| x.1 != lang::empty()).collect();
            let f = lq(fin, q);
            let hit = lang::inter(l, lang::concat(f, any));
            if hit == lang::empty() && go.len() == 1 {
                q = go[0].0;
                continue;
            }
            if go.is_empty() && lang::subset(l, f) {
                let (before, inside) = if last { (j, true) } else { (j + 1, false) };
                let mut off = LinLen::c(0);
                for x in &its[..before] {
                    off = off.add(&match x {
                        It::S(t, i) => st.rope_len(&Rope::new(vec![Piece::T(*t, st.tapes[*t as usize].b[*i], st.tapes[*t as usize].b[*i + 1])]))?,
                        It::W(b) => LinLen::c(b.len() as i64),
                    }, 1);
                }
                if !inside {
                    off.k -= k as i64;
                }
                return match st.split_rope(r, &off)? {
                    Some((a, rest)) => match st.split_rope(&rest, &LinLen::c(k as i64))? {
                        Some((x, y)) => Ok(Some((a, x, y))),
                        None => unsup("substring split"),
                    },
                    None => unsup("substring split"),
                };
            }
            let (t, i) = match &its[j] {
                It::S(t, i) => (*t, *i),
                It::W(b) => {
                    // a constant: find the end of the match in it
                    let bs: Vec<u8> = if last { b.iter().rev().cloned().collect() } else { b.clone() };
                    let mut full: Vec<u8> = wd[..q].to_vec();
                    full.extend(&bs);
                    let Some(at) = full.windows(k).position(|x| x == &wd[..]) else { return unsup("substring in constant") };
                    let end = at + k - q;
                    let mut off = LinLen::c(0);
                    for x in &its[..j] {
                        off = off.add(&match x {
                            It::S(t, i) => st.rope_len(&Rope::new(vec![Piece::T(*t, st.tapes[*t as usize].b[*i], st.tapes[*t as usize].b[*i + 1])]))?,
                            It::W(b) => LinLen::c(b.len() as i64),
                        }, 1);
                    }
                    off.k += if last { b.len() as i64 - end as i64 } else { end as i64 - k as i64 };
                    return match st.split_rope(r, &off)? {
                        Some((a, rest)) => match st.split_rope(&rest, &LinLen::c(k as i64))? {
                            Some((x, y)) => Ok(Some((a, x, y))),
                            None => unsup("substring split"),
                        },
                        None => unsup("substring split"),
                    };
                }
            };
            if st.seg(t, i).tagged {
                return unsup("re-reading input already consumed by output");
            }
            let mut alts: Vec<Option<State<'tcx>>> = go.iter().map(|(_, x)| self.restrict_seg(st, t, i, rev(*x))).collect();
            if hit != lang::empty() {
                if st.seg(t, i).ch.is_some() {
                    alts.push(self.restrict_seg(st, t, i, rev(hit)));
                } else {
                    for (x, y) in lang::split_ps(l, f, any).iter() {
                        if lang::subset(*y, lang::eps()) {
                            alts.push(self.restrict_seg(st, t, i, rev(*x)));
                        } else {
                            let (x, y) = (rev(*x), rev(*y));
                            alts.push(st.with_split(t, i, &if last { [(y, None), (x, None)] } else { [(x, None), (y, None)] }));
                        }
                    }
                }
            }
            return st.fork(alts);
        }
        Ok(None)
    }
    fn rope_len_val(&self, st: &State<'tcx>, r: &Rope) -> R<'tcx, Val<'tcx>> {
        if r.0.iter().any(|p| matches!(p, Piece::Any | Piece::AnyChar)) {
            return Ok(Val::Top(8));
        }
        let l = st.rope_len(r)?;
        Ok(st.len_val(l))
    }
    pub fn rope_empty(&self, st: &State<'tcx>, r: &Rope) -> R<'tcx, bool> {
        for p in r.0.iter() {
            match p {
                Piece::C(_, _, n) if *n > 0 => return Ok(false),
                Piece::Ch(..) | Piece::By(..) | Piece::AnyChar => return Ok(false),
                Piece::Out => return unsup("reading streamed output"),
                Piece::Any => return unsup("emptiness of untracked text"),
                Piece::T(t, a, e) => {
                    for i in st.bidx(*t, *a)..st.bidx(*t, *e) {
                        if st.seg_minmax(*t, i).0 > 0 {
                            return Ok(false);
                        }
                    }
                }
                _ => {}
            }
        }
        let l = st.rope_len(r)?;
        Ok(st.sign(&l)? == Ordering::Equal)
    }
    fn utf8_ok(&self, st: &State<'tcx>, r: &Rope) -> R<'tcx, bool> {
        let mut bytes: Vec<u8> = vec![];
        let mut langs = vec![];
        let mut pos: Vec<(u8, usize)> = vec![];
        for p in r.0.iter() {
            match p {
                Piece::C(b, o, n) => {
                    bytes.extend_from_slice(&b[*o as usize..(*o + *n) as usize]);
                    langs.push(lang::bytes(&b[*o as usize..(*o + *n) as usize]));
                }
                Piece::T(t, a, e) => {
                    for i in st.bidx(*t, *a)..st.bidx(*t, *e) {
                        if matches!(&st.seg(*t, i).ch, Some((_, false))) {
                            langs.push(st.seg_lang(*t, i)?);
                            continue;
                        }
                        langs.push(st.seg_lang(*t, i)?);
                        pos.push((*t, i));
                    }
                }
                Piece::Ch(..) => langs.push(lang::bytes(b"a")),
                Piece::By(t, b, m) => {
                    let i = st.bidx(*t, *b);
                    let set = st.seg(*t, i).ch.clone().unwrap().0;
                    let m = restrict(m, &set);
                    let vals: Vec<(u32, u32)> = m.iter().map(|&(lo, hi, x)| match x {
                        MV::C(c) => (c as u32, c as u32),
                        MV::Lin(k) => ((lo as i64 + k) as u32, (hi as i64 + k) as u32),
                    }).collect();
                    langs.push(byte_set_lang(&lang::cs(vals)));
                }
                Piece::Out => return unsup("reading streamed output"),
                Piece::Any | Piece::AnyChar => return Ok(true),
            }
        }
        let all = lang::concat_all(&langs);
        let good = lang::inter(all, lang::utf8());
        if good == all {
            return Ok(true);
        }
        if good == lang::empty() {
            return Ok(false);
        }
        if pos.len() == 1 && r.0.len() == 1 {
            let (t, i) = pos[0];
            let l = st.seg_lang(t, i)?;
            let g = lang::inter(l, lang::utf8());
            if langs.iter().filter(|x| **x != lang::eps()).count() == 1 && !st.seg(t, i).tagged {
                return st.fork(vec![self.restrict_seg(st, t, i, g), self.restrict_seg(st, t, i, lang::diff(l, g))]);
            }
        }
        // fork on the byte maps
        for p in r.0.iter() {
            if let Piece::By(t, b, m) = p {
                return st.fork_map(*t, *b, m);
            }
        }
        unsup("UTF-8 validity")
    }

    // ------------------------------------------------------------ dispatcher
    pub fn intrinsic(&mut self, st: &mut State<'tcx>, callee: Instance<'tcx>, a: &Vec<Val<'tcx>>, _rust_call: bool) -> CR<'tcx> {
        let tcx = self.tcx;
        let d = callee.def_id();
        if let InstanceKind::Virtual(m, _) = callee.def {
            let s = self.peel(&a[0]);
            let s = match s {
                Val::Ref(p) => self.peel(&self.read(st, &p)?),
                s => s,
            };
            return match s {
                Val::Dyn(p, t) => {
                    let mut args: Vec<GenericArg<'tcx>> = vec![t.into()];
                    args.extend(callee.args.iter().skip(1));
                    let i = self.resolve(m, tcx.mk_args(&args))?;
                    let mut w = a.clone();
                    w[0] = (*p).clone();
                    Ok(Some(CallRes::Call(i, w)))
                }
                s => unsup(format!("virtual call on {:?}", s)),
            };
        }
        if let InstanceKind::Intrinsic(_) = callee.def {
            return self.rust_intrinsic(st, callee, a);
        }
        let krate = tcx.crate_name(d.krate);
        let name = self.name(d);
        if d.is_local() {
            if name.ends_with("vp_write") {
                let r = self.rope_of(st, &a[a.len() - 1])?;
                return self.output(st, r);
            }
            if name.ends_with("models::any_char") {
                return v(Val::Str(Rope::new(vec![Piece::AnyChar])));
            }
            if name.ends_with("models::unsupported") {
                return unsup("model");
            }
            if name.ends_with("vp_tape") {
                return unsup("vp_tape");
            }
            return Ok(None);
        }
        if krate.as_str() == "memchr" {
            return self.memchr(st, &name, a);
        }
        if !matches!(krate.as_str(), "core" | "alloc" | "std") {
            return Ok(None);
        }
        if !matches!(callee.def, InstanceKind::Item(_)) {
            return Ok(None);
        }
        if tcx.is_closure_like(d) {
            return Ok(None);
        }
        // panics
        if name.starts_with("core::panicking::") || name.starts_with("std::rt::begin_panic") || name.contains("unwrap_failed") || name.contains("expect_failed") || name.contains("slice_error_fail") || name.contains("slice_index_fail") || name.contains("_index_len_fail") || name.contains("_order_fail") || name.contains("handle_alloc_error") || name.contains("capacity_overflow") {
            let who = st.frames.iter().rev().find(|f| !matches!(tcx.crate_name(f.inst.def_id().krate).as_str(), "core" | "alloc" | "std")).map(|f| f.inst.def_id());
            let who = who.map(|w| (*self.name(w)).clone()).unwrap_or_default();
            let msg = a.first().and_then(|x| if let Val::Str(r) = x { r.as_const().map(|b| String::from_utf8_lossy(&b).into_owned()) } else { None }).unwrap_or_else(|| name.rsplit("::").next().unwrap_or("").to_string());
            return pan(format!("panic `{}` in {}", msg, who));
        }
        let item = tcx.item_name(d);
        let item = item.as_str();
        let (inp, out) = self.sig_of(callee);
        let k0 = match inp.first() {
            Some(t) => self.kind_of(*t),
            None => K::Other,
        };
        let k1 = match inp.get(1) {
            Some(t) => self.kind_of(*t),
            None => K::Other,
        };
        let refdepth = |t: Ty<'tcx>| {
            let mut n = 0;
            let mut t = t;
            while let ty::Ref(_, x, _) = t.kind() {
                n += 1;
                t = *x;
            }
            n
        };
        let trait_name: Option<Rc<String>> = {
            let t = tcx.trait_of_assoc(d).or_else(|| tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_id(i)));
            t.map(|t| self.name(t))
        };
        let tn = trait_name.as_ref().map(|x| x.as_str()).unwrap_or("");
        if matches!(item, "new" | "get") && inp.len() == 1 && name.contains("num::nonzero") {
            if item == "get" {
                let x = self.deep(st, &a[0])?;
                return v(x);
            }
            let s = self.size_of(inp[0]);
            let z = self.binop(st, rustc_middle::mir::BinOp::Eq, a[0].clone(), Val::C(0, s), inp[0])?;
            return match self.norm(st, z) {
                Val::C(0, _) => v(some(a[0].clone())),
                Val::C(_, _) => v(none()),
                Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
                _ => unsup("number that may be zero"),
            };
        }
        let strk = |k: K| matches!(k, K::Str | K::Bytes | K::StringT | K::VecU8 | K::BoxStr);
        let ob = |st: &mut State<'tcx>, w: &World<'tcx>, o: Option<Val<'tcx>>| match o {
            None => none(),
            Some(x) => some(w.boxed(st, x)),
        };

        // ---- fmt
        if name.starts_with("core::fmt::rt::") && item.starts_with("new_") {
            let tr = match item {
                "new_display" => "Display",
                "new_debug" => "Debug",
                "new_upper_hex" => "UpperHex",
                "new_lower_hex" => "LowerHex",
                _ => return unsup(format!("format trait {}", item)),
            };
            let t = callee.args.types().next().unwrap();
            let f = self.trait_method(&format!("core::fmt::{}", tr), "fmt", vec![t.into()])?;
            return v(Val::FmtArg(Rc::new(a[0].clone()), f, t));
        }
        if name.contains("core::fmt::Arguments") || name.contains("core::fmt::rt::<impl core::fmt::Arguments") {
            match item {
                "new" => {
                    let t = self.rope_of(st, &a[0])?.as_const();
                    let args = match self.deep(st, &a[1])? {
                        Val::Agg(_, f) => f.to_vec(),
                        Val::FmtArg(..) => vec![self.deep(st, &a[1])?],
                        Val::Slice(p, o, n) => match self.read(st, &p)? {
                            Val::Agg(_, f) => f[o as usize..(o + n) as usize].to_vec(),
                            _ => return unsup("format arguments"),
                        },
                        x => return unsup(format!("format arguments {:?}", x)),
                    };
                    return match t.and_then(|t| self.parse_template(&t, &args)) {
                        Some(i) => v(Val::FmtArgs(Rc::new(i))),
                        None => unsup("format template"),
                    };
                }
                "from_str" | "from_str_nonconst" => {
                    let r = self.rope_of(st, &a[0])?;
                    return v(Val::FmtArgs(Rc::new(vec![FmtItem::Lit(r)])));
                }
                "as_str" | "as_statically_known_str" => {
                    if let Val::FmtArgs(i) = self.deep(st, &a[0])? {
                        if let (1, Some(FmtItem::Lit(r))) = (i.len(), i.first()) {
                            return v(some(Val::Str(r.clone())));
                        }
                    }
                    return v(none());
                }
                _ => {}
            }
        }
        if tn == "core::fmt::Write" && item == "write_fmt" && k0 != K::Formatter {
            // default method (or forwarding): write the items through this writer
            if refdepth(inp[0]) == 1 {
                let t = inp[0].peel_refs();
                if let Val::FmtArgs(i) = self.deep(st, &a[1])? {
                    return Ok(Some(CallRes::Push(self.seq_frame(i, a[0].clone(), t, callee))));
                }
            }
            return Ok(None);
        }
        if name.as_str() == "core::fmt::write" {
            if let Val::FmtArgs(i) = self.deep(st, &a[1])? {
                let (w, t) = match self.peel(&a[0]) {
                    Val::Dyn(p, t) => ((*p).clone(), t),
                    x => return unsup(format!("fmt::write to {:?}", x)),
                };
                return Ok(Some(CallRes::Push(self.seq_frame(i, w, t, callee))));
            }
            return unsup("fmt::write");
        }
        if name.as_str() == "alloc::fmt::format" || name.as_str() == "alloc::fmt::format::format_inner" {
            return self.model("fmt_format", callee, a);
        }
        if k0 == K::Formatter {
            match item {
                "write_str" => {
                    let r = self.rope_of(st, &a[1])?;
                    return self.write_to(st, &a[0], r);
                }
                "write_char" => {
                    let r = self.char_rope(st, &a[1])?;
                    return self.write_to(st, &a[0], r);
                }
                "write_fmt" => {
                    let (w, t, _) = self.sink_of(st, &a[0])?;
                    if let Val::FmtArgs(i) = self.deep(st, &a[1])? {
                        return Ok(Some(CallRes::Push(self.seq_frame(i, w, t, callee))));
                    }
                    return unsup("write_fmt");
                }
                "pad" => {
                    let (_, _, o) = self.sink_of(st, &a[0])?;
                    if o >> 32 == 0 {
                        let r = self.rope_of(st, &a[1])?;
                        return self.write_to(st, &a[0], r);
                    }
                    return unsup("padded output");
                }
                "alternate" => {
                    let (_, _, o) = self.sink_of(st, &a[0])?;
                    return v(c_bool(o & (1 << 23) != 0));
                }
                _ => return unsup(format!("Formatter::{}", item)),
            }
        }
        if tn.starts_with("core::fmt::") && item == "fmt" && inp.len() == 2 {
            let last = tn.rsplit("::").next().unwrap();
            match (last, k0) {
                ("Display", K::Char) => {
                    let x = self.deep(st, &a[0])?;
                    let r = self.char_rope(st, &x)?;
                    return self.write_to(st, &a[1], r);
                }
                ("Display", K::Str | K::StringT | K::BoxStr) if refdepth(inp[0]) == 1 => {
                    let r = self.rope_of(st, &a[0])?;
                    let (_, _, o) = self.sink_of(st, &a[1])?;
                    if o >> 32 != 0 {
                        return unsup("padded output");
                    }
                    return self.write_to(st, &a[1], r);
                }
                ("UpperHex" | "LowerHex", K::Int) => {
                    let x = self.deep(st, &a[0])?;
                    let (_, _, o) = self.sink_of(st, &a[1])?;
                    let w = (o >> 32) & 0xffff;
                    let zero = o & (1 << 24) != 0;
                    let up = last == "UpperHex";
                    let r = self.hex_rope(st, &x, w as usize, zero, up)?;
                    return self.write_to(st, &a[1], r);
                }
                ("Display", K::Int) => {
                    let x = self.deep(st, &a[0])?;
                    if let Val::C(c, _) = x {
                        return self.write_to(st, &a[1], Rope::konst(c.to_string().as_bytes()));
                    }
                    return self.write_to(st, &a[1], Rope::new(vec![Piece::Any]));
                }
                ("Debug", _) => return self.write_to(st, &a[1], Rope::new(vec![Piece::Any])),
                ("Display", K::Arguments) => {
                    let (w, t, _) = self.sink_of(st, &a[1])?;
                    if let Val::FmtArgs(i) = self.deep(st, &a[0])? {
                        return Ok(Some(CallRes::Push(self.seq_frame(i, w, t, callee))));
                    }
                    return unsup("Arguments display");
                }
                _ => return Ok(None),
            }
        }

        // ---- memory helpers
        match name.as_str() {
            "core::mem::replace" | "core::ptr::replace" => {
                let old = self.ptr_val(st, &a[0])?;
                if let Pl::Mem(p) = self.deref(&a[0])? {
                    self.write(st, &p, a[1].clone())?;
                    return v(old);
                }
                return unsup("mem::replace");
            }
            "core::mem::swap" => {
                let (x, y) = (self.ptr_val(st, &a[0])?, self.ptr_val(st, &a[1])?);
                if let (Pl::Mem(p), Pl::Mem(q)) = (self.deref(&a[0])?, self.deref(&a[1])?) {
                    self.write(st, &p, y)?;
                    self.write(st, &q, x)?;
                    return v(unit());
                }
                return unsup("mem::swap");
            }
            "core::mem::take" => {
                if k0 == K::StringT || k0 == K::VecU8 {
                    let x = self.rope_of(st, &a[0])?;
                    self.put(st, &a[0], Val::Buf(Rope::default()))?;
                    return v(Val::Buf(x));
                }
                return Ok(None);
            }
            "core::mem::forget" | "core::mem::drop" | "core::hint::black_box" => return v(if item == "black_box" { a[0].clone() } else { unit() }),
            "core::ptr::read" => {
                let x = self.ptr_val(st, &a[0])?;
                return v(x);
            }
            "core::ptr::write" => {
                if let Pl::Mem(p) = self.deref(&a[0])? {
                    self.write(st, &p, a[1].clone())?;
                    return v(unit());
                }
                return unsup("ptr::write");
            }
            "core::hint::unreachable_unchecked" => return pan("unreachable_unchecked"),
            "core::hint::assert_unchecked" => return v(unit()),
            "core::str::converts::from_utf8_unchecked" | "core::str::from_utf8_unchecked" | "core::str::converts::from_utf8_unchecked_mut" => {
                let r = self.rope_of(st, &a[0])?;
                return v(Val::Str(r));
            }
            "core::str::converts::from_utf8" => {
                let r = match self.rope_of(st, &a[0]) {
                    Ok(r) => r,
                    // computed bytes in memory
                    Err(Stop::Unsupported(m)) if m == "byte slice contents" => return self.model("from_utf8", callee, a),
                    Err(e) => return Err(e),
                };
                let small = !r.0.iter().any(|p| matches!(p, Piece::T(..) | Piece::Out | Piece::Any));
                return match self.utf8_ok(st, &r) {
                    Ok(true) => v(ok(Val::Str(r))),
                    Ok(false) if !small => v(err(Val::Opaque(1))),
                    Ok(false) => self.model("from_utf8", callee, a),
                    Err(Stop::Unsupported(_)) if small => self.model("from_utf8", callee, a),
                    Err(e) => Err(e),
                };
            }
            "core::str::converts::from_raw_parts" | "core::slice::raw::from_raw_parts" => {
                if let Val::Str(r) = self.peel(&a[0]) {
                    let n = self.as_len(st, &a[1])?;
                    return match st.split_rope(&r, &n)? {
                        Some((x, _)) => v(Val::Str(x)),
                        None => unsup("from_raw_parts"),
                    };
                }
                return unsup("from_raw_parts");
            }
            "core::char::convert::from_u32" | "core::char::methods::<impl char>::from_u32" => {
                let u = tcx.types.u32;
                for (k, r) in [(0xd800u128, true), (0xe000, false), (0x110000, true)] {
                    match self.binop(st, rustc_middle::mir::BinOp::Lt, a[0].clone(), Val::C(k, 4), u)? {
                        Val::C(1, _) => return v(if r { some(a[0].clone()) } else { none() }),
                        Val::C(_, _) => {}
                        Val::Map(t, b, m, _) => return st.fork_map(t, b, &m),
                        _ => return Ok(None),
                    }
                }
                return v(none());
            }
            "core::char::convert::from_u32_unchecked" | "core::char::methods::<impl char>::from_u32_unchecked" => return v(a[0].clone()),
            "core::slice::raw::from_ref" => {
                // one-element slice
                let x = self.ptr_val(st, &a[0])?;
                let p = self.alloc(st, agg(0, vec![x]));
                return v(Val::Slice(p, 0, 1));
            }
            _ => {}
        }
        if matches!(item, "from_raw" | "from_raw_in") && matches!(inp[0].kind(), ty::RawPtr(..)) && self.kind_of(out) == K::BoxStr {
            return v(Val::Str(self.rope_of(st, &a[0])?));
        }
        // ---- identity conversions on text
        if strk(k0) && inp.len() == 1 {
            let r = match item {
                "as_bytes" | "as_str" | "as_ref" | "deref" | "borrow" | "as_slice" | "as_mut_str" | "deref_mut" | "as_mut" | "as_bytes_mut" | "as_mut_vec" | "as_mut_slice" | "as_ptr" | "as_mut_ptr" | "leak" | "borrow_mut" => {
                    if matches!(item, "as_ref" | "borrow") {
                        // AsRef<OsStr>/AsRef<Path> are not text
                        let o = out.peel_refs();
                        if !self.is_strlike(o) {
                            return Ok(None);
                        }
                    }
                    if matches!(item, "as_mut_vec" | "deref_mut" | "as_mut_str" | "as_bytes_mut" | "as_mut_slice" | "as_mut" | "borrow_mut") {
                        // a mutable view of the same object
                        if matches!(self.peel(&a[0]), Val::Ref(_)) {
                            return v(a[0].clone());
                        }
                    }
                    if refdepth(inp[0]) > 1 && matches!(item, "as_ref" | "borrow" | "deref") {
                        let o = out.peel_refs();
                        if !self.is_strlike(o) || refdepth(out) > 1 {
                            return Ok(None);
                        }
                    }
                    Some(Val::Str(self.rope_of(st, &a[0])?))
                }
                "into_boxed_str" | "into_raw" | "from_raw" | "copy_from_slice" | "into_boxed_bytes" | "into_boxed_slice" | "as_ptr_range" => Some(Val::Str(self.rope_of(st, &a[0])?)),
                "into_bytes" | "into_string" | "into_vec" => Some(Val::Buf(self.rope_of(st, &a[0])?)),
                "to_string" | "to_owned" | "to_vec" | "into_owned" => {
                    let kk = self.kind_of(out);
                    if matches!(kk, K::StringT | K::VecU8) && refdepth(inp[0]) <= 1 {
                        Some(Val::Buf(self.rope_of(st, &a[0])?))
                    } else {
                        None
                    }
                }
                "clone" => {
                    if refdepth(inp[0]) == 1 {
                        let r = self.rope_of(st, &a[0])?;
                        Some(if matches!(k0, K::StringT | K::VecU8) { Val::Buf(r) } else { Val::Str(r) })
                    } else {
                        Some(self.ptr_val(st, &a[0])?)
                    }
                }
                "spec_to_string" => Some(Val::Buf(self.rope_of(st, &a[0])?)),
                "from" | "into" => {
                    let kk = self.kind_of(out);
                    match kk {
                        K::StringT | K::VecU8 => Some(Val::Buf(self.rope_of(st, &a[0])?)),
                        K::BoxStr => Some(Val::Str(self.rope_of(st, &a[0])?)),
                        _ => None,
                    }
                }
                "len" => {
                    let r = self.rope_of(st, &a[0])?;
                    Some(self.rope_len_val(st, &r)?)
                }
                "is_empty" => {
                    let r = self.rope_of(st, &a[0])?;
                    Some(c_bool(self.rope_empty(st, &r)?))
                }
                "is_ascii" => {
                    let r = self.rope_of(st, &a[0])?;
                    Some(c_bool(st.rope_in(&r, lang::syms(vec![(0, 127)]))?))
                }
                "iter" | "iter_mut" | "into_iter" if matches!(self.deep(st, &a[0]), Ok(Val::Slice(..))) => Some(self.deep(st, &a[0])?),
                "chars" | "bytes" | "iter" | "into_iter" if k0 != K::VecU8 || item == "iter" => {
                    if item == "into_iter" && refdepth(inp[0]) == 0 {
                        None
                    } else {
                        Some(Val::Str(self.rope_of(st, &a[0])?))
                    }
                }
                "first" | "last" => {
                    let r = self.rope_of(st, &a[0])?;
                    let x = if item == "first" { st.first_byte(&r)? } else { st.last_byte(&r)? };
                    Some(ob(st, self, x.map(|y| y.0)))
                }
                "split_first" | "split_last" => {
                    let r = self.rope_of(st, &a[0])?;
                    let x = if item == "split_first" { st.first_byte(&r)? } else { st.last_byte(&r)? };
                    Some(match x {
                        None => none(),
                        Some((b, rest)) => {
                            let b = self.boxed(st, b);
                            some(agg(0, vec![b, Val::Str(rest)]))
                        }
                    })
                }
                "capacity" => Some(Val::Top(8)),
                "shrink_to_fit" => Some(unit()),
                "clear" => {
                    self.put(st, &a[0], Val::Buf(Rope::default()))?;
                    Some(unit())
                }
                "pop" => {
                    let r = self.rope_of(st, &a[0])?;
                    let x = if k0 == K::StringT { st.last_char(&r)? } else { st.last_byte(&r)? };
                    Some(match x {
                        None => none(),
                        Some((c, rest)) => {
                            self.put(st, &a[0], Val::Buf(rest))?;
                            some(c)
                        }
                    })
                }
                "to_ascii_lowercase" | "to_ascii_uppercase" | "make_ascii_lowercase" | "make_ascii_uppercase" => return unsup(format!("text {}", item)),
                "is_char_boundary" => None,
                _ => None,
            };
            if let Some(x) = r {
                return v(x);
            }
        }
        if matches!(k0, K::SliceT) && inp.len() == 1 {
            match (item, self.deep(st, &a[0])?) {
                ("len", Val::Slice(_, _, n)) => return v(usz(n as u64)),
                ("is_empty", Val::Slice(_, _, n)) => return v(c_bool(n == 0)),
                ("iter" | "iter_mut" | "as_slice" | "into_iter", Val::Slice(p, o, n)) => return v(Val::Slice(p, o, n)),
                ("iter" | "iter_mut" | "as_slice" | "into_iter", Val::Agg(_, f)) if refdepth(inp[0]) == 1 => {
                    if let Val::Ref(p) = self.peel(&a[0]) {
                        return v(Val::Slice(p, 0, f.len() as u32));
                    }
                }
                ("first", Val::Slice(p, o, n)) => {
                    if n == 0 {
                        return v(none());
                    }
                    let mut path = (*p.path).clone();
                    path.push(PE::I(o));
                    return v(some(Val::Ref(Ptr { root: p.root, path: Rc::new(path) })));
                }
                _ => {}
            }
        }
        if strk(k0) && name.contains("core::cmp::") || (strk(k0) && matches!(item, "eq" | "ne" | "cmp" | "partial_cmp") && tn.starts_with("core::cmp")) {
            if strk(k1) && matches!(item, "eq" | "ne") && refdepth(inp[0]) == 1 && refdepth(inp[1]) == 1 {
                let (x, y) = (self.rope_of(st, &a[0])?, self.rope_of(st, &a[1])?);
                let r = self.rope_eq(st, &x, &y)?;
                let r = match (item, r) {
                    ("ne", Val::C(c, s)) => Val::C((c == 0) as u128, s),
                    ("ne", Val::Atom(i, n)) => Val::Atom(i, !n),
                    (_, r) => r,
                };
                return v(r);
            }
            if strk(k1) && matches!(item, "cmp" | "partial_cmp" | "lt" | "le" | "gt" | "ge") && refdepth(inp[0]) == 1 && refdepth(inp[1]) == 1 {
                let (x, y) = (self.rope_of(st, &a[0])?, self.rope_of(st, &a[1])?);
                if let (Some(p), Some(q)) = (whole_tape(st, &x), whole_tape(st, &y)) {
                    // uninterpreted but consistent three-way result
                    let (s, l) = (p.min(q), p.max(q));
                    let lt = self.atom(format!("tape{}<tape{}", s, l));
                    let eq = self.atom(format!("tape{}==tape{}", s, l));
                    for at in [eq, lt] {
                        if !st.assume.iter().any(|z| z.0 == at) {
                            if at == lt && st.assume.contains(&(eq, true)) {
                                continue;
                            }
                            let mut alts = vec![];
                            for b in [true, false] {
                                let mut n = st.clone();
                                n.assume.push((at, b));
                                n.assume.sort();
                                alts.push(Some(n));
                            }
                            return st.fork(alts);
                        }
                    }
                    let o: i8 = if st.assume.contains(&(eq, true)) { 0 } else if st.assume.contains(&(lt, true)) == (p < q) { -1 } else { 1 };
                    let ov = |o: i8| agg((o + 1) as u32, vec![]);
                    return v(match item {
                        "cmp" => ov(o),
                        "partial_cmp" => some(ov(o)),
                        "lt" => c_bool(o < 0),
                        "le" => c_bool(o <= 0),
                        "gt" => c_bool(o > 0),
                        _ => c_bool(o >= 0),
                    });
                }
                return unsup("ordering of texts");
            }
        }
        if strk(k0) || k0 == K::SliceT {
            if let Some(x) = self.text_ops(st, callee, item, tn, &inp, out, k0, k1, a)? {
                return Ok(Some(x));
            }
        }
        // ---- iterators
        if item == "into_iter" && inp.len() == 1 && matches!(inp[0].kind(), ty::Array(..)) {
            return v(a[0].clone());
        }
        if k0 == K::ArrIter && matches!(item, "next" | "next_back") {
            if let Val::Ref(p) = self.peel(&a[0]) {
                let old = self.read(st, &p)?;
                if let Val::Agg(g, f) = &old {
                    let mut f = (**f).clone();
                    if f.is_empty() {
                        return v(none());
                    }
                    let x = if item == "next" { f.remove(0) } else { f.pop().unwrap() };
                    self.write(st, &p, Val::Agg(*g, Rc::new(f)))?;
                    return v(some(x));
                }
            }
            return unsup("array iterator");
        }
        if k0 == K::ChunkIter {
            let old = self.deep(st, &a[0])?;
            if let Val::Agg(_, f) = &old {
                if let (Val::Slice(p, o, n), Val::C(k, _)) = (&f[0], &f[1]) {
                    let k = (*k as u32).min(*n);
                    match item {
                        "next" => {
                            if *n == 0 {
                                return v(none());
                            }
                            let x = Val::Slice(p.clone(), *o, k);
                            let rest = Val::Slice(p.clone(), o + k, n - k);
                            self.put(st, &a[0], rest)?;
                            return v(some(x));
                        }
                        "into_iter" | "by_ref" => return v(a[0].clone()),
                        "len" => return v(usz((n / (*if let Val::C(k, _) = &f[1] { k } else { unreachable!() } as u32).max(1)) as u64)),
                        _ => {}
                    }
                }
            }
        }
        if name.contains("iter::adapters::zip::Zip") || tn.contains("zip::ZipImpl") {
            match item {
                "new" if inp.len() == 2 => return v(agg(0, vec![a[0].clone(), a[1].clone()])),
                "next" => return self.model("zip_next", callee, a),
                "next_back" | "nth" | "fold" | "size_hint" | "len" => return unsup("zip"),
                _ => {}
            }
        }
        if k0 == K::SplitIter && matches!(item, "next") {
            return self.model("split_next", callee, a);
        }
        if matches!(k0, K::ArrIter | K::SplitIter) && self.models.contains_key(&format!("model:it_{}", item)) {
            return self.model(&format!("it_{}", item), callee, a);
        }
        if matches!(k0, K::Chars | K::BytesIter | K::IterU8 | K::IterT) {
            if let Some(x) = self.iter_ops(st, callee, item, tn, &inp, k0, a)? {
                return Ok(Some(x));
            }
        }
        if matches!(item, "find" | "rfind" | "position" | "rposition" | "all" | "any") && inp.len() == 2 && matches!(name_of_adapter(self, inp[0]), Some(true)) {
            // copied() bytes of a slice
            if let Val::Ref(_) | Val::Agg(..) | Val::Str(_) = self.peel(&a[0]) {
                if let Ok(_) = self.iter_rope(st, &a[0]) {
                    if let Some(r) = self.scan(st, item, inp[1], K::BytesIter, a)? {
                        return Ok(Some(r));
                    }
                }
            }
        }
        if tn == "core::iter::traits::iterator::Iterator" || tn == "core::iter::Iterator" || tn.ends_with("DoubleEndedIterator") {
            match item {
                "position" | "rposition" => return self.model(if item == "position" { "it_position" } else { "it_rposition" }, callee, a),
                "count" if inp.len() == 1 && matches!(inp[0].kind(), ty::Adt(d, _) if self.name(d.did()).as_str() == "core::iter::adapters::take::Take") => {
                    // all that is left, if the limit is out of reach
                    let tk = self.ptr_val(st, &a[0])?;
                    if let Val::Agg(_, f) = &tk {
                        let far = match f.get(1) {
                            Some(Val::C(x, 8)) => *x == u64::MAX as u128,
                            Some(Val::Ge(x)) => *x >= crate::interp::FAR,
                            _ => false,
                        };
                        if let (true, Val::Ref(_)) = (far, &f[0]) {
                            if let Ok(r) = self.iter_rope(st, &f[0]) {
                                let n = st.rope_len(&r)?;
                                if let Some((_, rest)) = st.split_rope(&r, &n)? {
                                    self.put(st, &f[0], Val::Str(rest))?;
                                    return v(Val::Ge(0));
                                }
                            }
                        }
                    }
                    return self.model("it_count", callee, a);
                }
                "count" if self.models.contains_key("model:it_count") => return Ok(None),
                _ => {}
            }
        }
        // constructors
        match (self.kind_of(out), item) {
            (K::StringT | K::VecU8, "new" | "with_capacity") if inp.len() <= 1 && refdepth(out) == 0 => return v(Val::Buf(Rope::default())),
            (K::StringT | K::VecU8, "default") if inp.is_empty() => return v(Val::Buf(Rope::default())),
            (K::StringT | K::VecU8, "from_utf8_unchecked") => {
                let r = self.rope_of(st, &a[0])?;
                return v(Val::Buf(r));
            }
            (K::StringT, "from") if k0 == K::Char => {
                let r = self.char_rope(st, &a[0])?;
                return v(Val::Buf(r));
            }
            (K::StringT, "to_string") if k0 == K::Char => {
                let x = self.deep(st, &a[0])?;
                let r = self.char_rope(st, &x)?;
                return v(Val::Buf(r));
            }
            (K::StringT, "to_string" | "spec_to_string") => return self.model("to_string", callee, a),
            _ => {}
        }
        if k0 == K::Char {
            match item {
                "encode_utf8" => {
                    let r = self.char_rope(st, &a[0])?;
                    return v(Val::Str(r));
                }
                "is_alphanumeric" | "is_alphabetic" | "is_numeric" | "is_whitespace" | "is_control" | "is_uppercase" | "is_lowercase" if refdepth(inp[0]) == 0 => {
                    return self.char_pred(st, &a[0], match item {
                        "is_alphanumeric" => |c| c.is_alphanumeric(),
                        "is_alphabetic" => |c| c.is_alphabetic(),
                        "is_numeric" => |c| c.is_numeric(),
                        "is_whitespace" => |c| c.is_whitespace(),
                        "is_control" => |c| c.is_control(),
                        "is_uppercase" => |c| c.is_uppercase(),
                        _ => |c: char| c.is_lowercase(),
                    });
                }
                _ => {}
            }
        }
        if name.as_str() == "alloc::string::String::from_utf8" || (k0 == K::VecU8 && item == "from_utf8") {
            let r = self.rope_of(st, &a[0])?;
            return if self.utf8_ok(st, &r)? { v(ok(Val::Buf(r))) } else { v(err(Val::Opaque(1))) };
        }
        Ok(None)
    }
    fn char_pred(&self, st: &State<'tcx>, x: &Val<'tcx>, f: fn(char) -> bool) -> CR<'tcx> {
        match self.norm(st, self.peel(x)) {
            Val::C(c, _) => v(c_bool(char::from_u32(c as u32).map(f).unwrap_or(false))),
            Val::Map(t, b, m, _) => {
                let r = map_apply(&m, |lo, hi, y| {
                    let mut o: Vec<(u32, u32, MV)> = vec![];
                    for z in lo..=hi {
                        let c = match y {
                            MV::C(c) => c as u32,
                            MV::Lin(k) => (z as i64 + k) as u32,
                        };
                        let w = MV::C(char::from_u32(c).map(f).unwrap_or(false) as u128);
                        if let Some(l) = o.last_mut() {
                            if l.2 == w {
                                l.1 = z;
                                continue;
                            }
                        }
                        o.push((z, z, w));
                    }
                    o
                });
                v(st.norm_map(t, b, &Rc::new(r), 1))
            }
            y => self.unsum(st, y, "char predicate"),
        }
    }
    fn hex_rope(&mut self, st: &State<'tcx>, x: &Val<'tcx>, w: usize, zero: bool, up: bool) -> R<'tcx, Rope> {
        match self.norm(st, x.clone()) {
            Val::C(c, _) => {
                let mut s = if up { format!("{:X}", c) } else { format!("{:x}", c) };
                while s.len() < w {
                    s.insert(0, if zero { '0' } else { ' ' });
                }
                Ok(Rope::konst(s.as_bytes()))
            }
            Val::Map(t, b, m, 1) => {
                let dig = |n: u32| -> u128 {
                    let s = if up { format!("{:X}", n) } else { format!("{:x}", n) };
                    s.as_bytes()[0] as u128
                };
                let part = |shift: u32| {
                    map_apply(&m, |lo, hi, y| {
                        (lo..=hi)
                            .map(|z| {
                                let c = match y {
                                    MV::C(c) => c as u32,
                                    MV::Lin(k) => (z as i64 + k) as u32,
                                };
                                (z, z, MV::C(dig((c >> shift) & 15)))
                            })
                            .collect()
                    })
                };
                if zero && w == 2 {
                    let (h, l) = (part(4), part(0));
                    let mk = |m: Vec<(u32, u32, MV)>| match st.norm_map(t, b, &Rc::new(m), 1) {
                        Val::C(c, _) => Piece::C(Rc::new(vec![c as u8]), 0, 1),
                        Val::Map(t, b, m, _) => Piece::By(t, b, m),
                        _ => unreachable!(),
                    };
                    return Ok(Rope::new(vec![mk(h), mk(l)]));
                }
                if zero && w == 1 && m.iter().all(|&(_, hi, y)| match y { MV::C(c) => c < 16, MV::Lin(k) => (hi as i64 + k) < 16 }) {
                    return Ok(match st.norm_map(t, b, &Rc::new(part(0)), 1) {
                        Val::C(c, _) => Rope::konst(&[c as u8]),
                        Val::Map(t, b, m, _) => Rope::new(vec![Piece::By(t, b, m)]),
                        _ => unreachable!(),
                    });
                }
                st.fork_map(t, b, &m)
            }
            Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
            Val::Top(_) => Ok(Rope::new(vec![Piece::Any])),
            x @ Val::Sum(_, _, 1) if zero && w == 2 => {
                let u = self.tcx.types.u8;
                let mut r = Rope::default();
                for (op, k) in [(rustc_middle::mir::BinOp::Shr, 4), (rustc_middle::mir::BinOp::BitAnd, 15)] {
                    let d = self.binop(st, op, x.clone(), Val::C(k, 1), u)?;
                    if let Val::Sum(..) = d {
                        return self.sum_fork(st, &d, &d);
                    }
                    r = r.cat(&self.hex_rope(st, &d, 1, true, up)?);
                }
                Ok(r)
            }
            x => self.unsum(st, x, "hex"),
        }
    }
    fn unsum<T>(&self, st: &State<'tcx>, x: Val<'tcx>, what: &str) -> R<'tcx, T> {
        match x {
            Val::Sum(..) => self.sum_fork(st, &x, &x),
            x => unsup(format!("{} of {:?}", what, x)),
        }
    }
    fn rust_intrinsic(&mut self, st: &mut State<'tcx>, callee: Instance<'tcx>, a: &Vec<Val<'tcx>>) -> CR<'tcx> {
        let item = self.tcx.item_name(callee.def_id());
        let (inp, out) = self.sig_of(callee);
        let item = item.as_str();
        match item {
            "likely" | "unlikely" | "black_box" => v(a[0].clone()),
            "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => v(unit()),
            "ub_checks" | "overflow_checks" | "contract_checks" => v(c_bool(false)),
            "is_val_statically_known" => v(c_bool(false)),
            "needs_drop" => v(c_bool(false)),
            "size_of" | "align_of" | "min_align_of" => {
                let t = callee.args.type_at(0);
                match self.tcx.layout_of(self.env.as_query_input(t)) {
                    Ok(l) => v(usz(if item == "size_of" { l.size.bytes() } else { l.align.abi.bytes() })),
                    Err(_) => unsup("size_of"),
                }
            }
            "read_via_copy" | "volatile_load" => {
                let x = self.ptr_val(st, &a[0])?;
                v(x)
            }
            "write_via_move" => {
                if let Pl::Mem(p) = self.deref(&a[0])? {
                    self.write(st, &p, a[1].clone())?;
                    return v(unit());
                }
                unsup("write_via_move")
            }
            "transmute" | "transmute_unchecked" => {
                let x = self.transmute(a[0].clone(), inp[0], out)?;
                v(x)
            }
            "discriminant_value" => {
                let t = inp[0].peel_refs();
                match self.deep(st, &a[0])? {
                    Val::Agg(va, _) => {
                        let d = t.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(va)).map(|d| d.val).unwrap_or(va as u128);
                        let s = self.size_of(out);
                        v(Val::C(trunc(d, s), s))
                    }
                    x => unsup(format!("discriminant_value {:?}", x)),
                }
            }
            "saturating_sub" | "saturating_add" => {
                let op = if item == "saturating_sub" { rustc_middle::mir::BinOp::SubWithOverflow } else { rustc_middle::mir::BinOp::AddWithOverflow };
                let r = self.binop(st, op, a[0].clone(), a[1].clone(), inp[0])?;
                let (x, o) = (self.field(&r, 0), self.field(&r, 1));
                let s = self.size_of(inp[0]);
                match self.norm(st, o) {
                    Val::C(0, _) => v(x),
                    Val::C(_, _) => v(Val::C(if item == "saturating_sub" { 0 } else { trunc(u128::MAX, s) }, s)),
                    Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
                    _ => v(Val::Top(s)),
                }
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "unchecked_div" | "unchecked_rem" | "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                use rustc_middle::mir::BinOp::*;
                let op = match item {
                    "wrapping_add" | "unchecked_add" => Add,
                    "wrapping_sub" | "unchecked_sub" => Sub,
                    "wrapping_mul" | "unchecked_mul" => Mul,
                    "unchecked_shl" => Shl,
                    "unchecked_shr" => Shr,
                    "add_with_overflow" => AddWithOverflow,
                    "sub_with_overflow" => SubWithOverflow,
                    "mul_with_overflow" => MulWithOverflow,
                    "unchecked_rem" => Rem,
                    _ => Div,
                };
                let r = self.binop(st, op, a[0].clone(), a[1].clone(), inp[0])?;
                v(r)
            }
            "three_way_compare" => {
                let r = self.binop(st, rustc_middle::mir::BinOp::Cmp, a[0].clone(), a[1].clone(), inp[0])?;
                v(r)
            }
            "ptr_metadata" => match self.peel(&a[0]) {
                Val::Str(r) => {
                    let x = self.rope_len_val(st, &r)?;
                    v(x)
                }
                Val::Slice(_, _, n) => v(usz(n as u64)),
                _ => v(unit()),
            },
            "aggregate_raw_ptr" => v(a[0].clone()),
            "select_unpredictable" => match self.norm(st, a[0].clone()) {
                Val::C(c, _) => v(if c != 0 { a[1].clone() } else { a[2].clone() }),
                Val::Map(t, b, m, _) => st.fork_map(t, b, &m),
                x => unsup(format!("select on {:?}", x)),
            },
            "const_eval_select" => {
                // call the run-time variant
                let t = callee.args.type_at(2);
                match t.kind() {
                    ty::FnDef(d, args) => {
                        let i = self.resolve(*d, args.no_bound_vars().unwrap())?;
                        let f = match &a[0] {
                            Val::Agg(_, f) => f.to_vec(),
                            _ => vec![],
                        };
                        Ok(Some(CallRes::Call(i, f)))
                    }
                    _ => unsup("const_eval_select"),
                }
            }
            "unreachable" | "abort" => pan(format!("intrinsic {}", item)),
            "type_id" | "type_name" => v(Val::Opaque(2)),
            _ => {
                if self.tcx.is_mir_available(callee.def_id()) && self.tcx.intrinsic(callee.def_id()).map_or(false, |i| !i.must_be_overridden) {
                    let i = Instance { def: InstanceKind::Item(callee.def_id()), args: callee.args };
                    return Ok(Some(CallRes::Call(i, a.clone())));
                }
                unsup(format!("intrinsic {}", item))
            }
        }
    }
    fn memchr(&mut self, st: &mut State<'tcx>, name: &str, a: &Vec<Val<'tcx>>) -> CR<'tcx> {
        let f = name.rsplit("::").next().unwrap();
        let (n, last) = match f {
            "memchr" => (1, false),
            "memchr2" => (2, false),
            "memchr3" => (3, false),
            "memrchr" => (1, true),
            "memrchr2" => (2, true),
            "memrchr3" => (3, true),
            _ => return unsup(format!("memchr function {}", name)),
        };
        let mut set = vec![];
        for x in &a[..n] {
            match self.norm(st, x.clone()) {
                Val::C(c, _) => set.push(c as u8),
                _ => return unsup("memchr needle"),
            }
        }
        let r = self.rope_of(st, &a[n])?;
        let set = Self::byte_lang(&set);
        let x = if last { st.find_last(&r, set)? } else { st.find_first(&r, set)? };
        match x {
            None => v(none()),
            Some((l, _)) => {
                let n = st.rope_len(&l)?;
                v(some(st.len_val(n)))
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn text_ops(&mut self, st: &mut State<'tcx>, callee: Instance<'tcx>, item: &str, _tn: &str, inp: &[Ty<'tcx>], out: Ty<'tcx>, k0: K, k1: K, a: &Vec<Val<'tcx>>) -> CR<'tcx> {
        let _ = out;
        // constant-size memory (arrays and slices of arrays)
        let mem = if matches!(k0, K::SliceT | K::Bytes) {
            match self.deep(st, &a[0])? {
                Val::Slice(p, o, n) => Some((p, o, n)),
                Val::Agg(_, f) => match self.peel(&a[0]) {
                    Val::Ref(p) => Some((p, 0, f.len() as u32)),
                    _ => None,
                },
                _ => None,
            }
        } else {
            None
        };
        if let Some((p, o, n)) = mem {
            match item {
                "fill" => {
                    for i in o..o + n {
                        let mut path = (*p.path).clone();
                        path.push(PE::I(i));
                        self.write(st, &Ptr { root: p.root, path: Rc::new(path) }, a[1].clone())?;
                    }
                    return v(unit());
                }
                "chunks_exact_mut" | "chunks_exact" | "chunks" | "chunks_mut" => {
                    if let Val::C(k, _) = self.norm(st, a[1].clone()) {
                        if k > 0 {
                            let all = if item.starts_with("chunks_exact") { n - n % k as u32 } else { n };
                            return v(agg(0, vec![Val::Slice(p, o, all), usz(k as u64)]));
                        }
                    }
                }
                "copy_within" | "copy_from_slice" | "clone_from_slice" => {
                    let (q, from, len, to) = if item == "copy_within" {
                        let len = LinLen::c(n as i64);
                        let (x, y) = match self.range_of(st, &a[1], inp[1], &len)? {
                            Some(r) => r,
                            None => return unsup("copy_within range"),
                        };
                        let d = match self.as_len(st, &a[2]) {
                            Ok(d) if d.t.is_empty() && x.t.is_empty() && y.t.is_empty() => d.k,
                            Ok(_) => return unsup("copy_within range"),
                            Err(e) => return Err(e),
                        };
                        if x.k > y.k || y.k > n as i64 || d + y.k - x.k > n as i64 {
                            return pan("copy_within out of range");
                        }
                        (p.clone(), o + x.k as u32, (y.k - x.k) as u32, o + d as u32)
                    } else {
                        match self.deep(st, &a[1])? {
                            Val::Slice(q, b, m) if m == n => (q, b, n, o),
                            Val::Slice(..) => return pan("copy_from_slice length mismatch"),
                            Val::Agg(_, f) if f.len() as u32 == n => match self.peel(&a[1]) {
                                Val::Ref(q) => (q, 0, n, o),
                                _ => return unsup("copy_from_slice"),
                            },
                            _ => (p.clone(), 0, u32::MAX, 0),
                        }
                    };
                    if len != u32::MAX {
                        let at = |p: &Ptr, i: u32| {
                            let mut path = (*p.path).clone();
                            path.push(PE::I(i));
                            Ptr { root: p.root, path: Rc::new(path) }
                        };
                        let mut vals = vec![];
                        for i in 0..len {
                            vals.push(self.read(st, &at(&q, from + i))?);
                        }
                        for (i, x) in vals.into_iter().enumerate() {
                            self.write(st, &at(&p, to + i as u32), x)?;
                        }
                        return v(unit());
                    }
                }
                "split_at_mut" | "split_at" => {
                    if let Val::C(k, _) = self.norm(st, a[1].clone()) {
                        if k as u32 <= n {
                            return v(agg(0, vec![Val::Slice(p.clone(), o, k as u32), Val::Slice(p, o + k as u32, n - k as u32)]));
                        }
                        return pan("split_at out of range");
                    }
                    if let Val::Len(l) = self.norm(st, a[1].clone()) {
                        for k in 0..=n.min(16) {
                            if st.sign(&l.add(&LinLen::c(k as i64), -1))? == Ordering::Equal {
                                return v(agg(0, vec![Val::Slice(p.clone(), o, k), Val::Slice(p, o + k, n - k)]));
                            }
                        }
                    }
                }
                "index_mut" | "get_mut" | "index" | "get" if inp.len() == 2 && (item.ends_with("mut") || k0 == K::Bytes && self.rope_of(st, &a[0]).is_err()) => {
                    let len = LinLen::c(n as i64);
                    if let Some((x, y)) = self.range_of(st, &a[1], inp[1], &len)? {
                        if x.t.is_empty() && y.t.is_empty() && x.k <= y.k && y.k <= n as i64 {
                            let s = Val::Slice(p, o + x.k as u32, (y.k - x.k) as u32);
                            return v(if item.starts_with("get") { some(s) } else { s });
                        }
                        if x.t.is_empty() && y.t.is_empty() {
                            return if item.starts_with("get") { v(none()) } else { pan("slice index") };
                        }
                        return unsup("mutable slice of an array");
                    }
                }
                _ => {}
            }
        }
        if k0 == K::SliceT {
            // constant-size slices of other element types
            if matches!(item, "index" | "get") && inp.len() == 2 {
                let (p, o, n) = match self.deep(st, &a[0])? {
                    Val::Slice(p, o, n) => (p, o, n),
                    Val::Agg(_, f) => match self.peel(&a[0]) {
                        Val::Ref(p) => (p, 0, f.len() as u32),
                        _ => return Ok(None),
                    },
                    _ => return Ok(None),
                };
                let len = LinLen::c(n as i64);
                if let Some((x, y)) = self.range_of(st, &a[1], inp[1], &len)? {
                    if x.t.is_empty() && y.t.is_empty() && x.k <= y.k && y.k <= n as i64 {
                        let s = Val::Slice(p, o + x.k as u32, (y.k - x.k) as u32);
                        return v(if item == "get" { some(s) } else { s });
                    }
                    return if item == "get" { v(none()) } else { pan("slice index") };
                }
                if let Val::C(i, _) = self.norm(st, a[1].clone()) {
                    if (i as u32) < n {
                        let mut path = (*p.path).clone();
                        path.push(PE::I(o + i as u32));
                        let r = Val::Ref(Ptr { root: p.root, path: Rc::new(path) });
                        return v(if item == "get" { some(r) } else { r });
                    }
                    return if item == "get" { v(none()) } else { pan("slice index") };
                }
            }
            if item == "contains" {
                // contains(&x): element constants
                let els: Vec<Val<'tcx>> = match self.deep(st, &a[0])? {
                    Val::Slice(p, o, n) => match self.read(st, &p)? {
                        Val::Agg(_, f) => f[o as usize..(o + n) as usize].to_vec(),
                        _ => return Ok(None),
                    },
                    Val::Agg(_, f) => f.to_vec(),
                    _ => return Ok(None),
                };
                let x = self.deep(st, &a[1])?;
                let mut res = Val::C(0, 1);
                for e in els {
                    if !matches!(e, Val::C(..)) {
                        return unsup("contains");
                    }
                    let t = inp[1].peel_refs();
                    let r = self.binop(st, rustc_middle::mir::BinOp::Eq, x.clone(), e, t)?;
                    res = self.binop(st, rustc_middle::mir::BinOp::BitOr, res, r, self.tcx.types.bool)?;
                }
                return v(res);
            }
            return Ok(None);
        }
        let chars = matches!(k0, K::Str | K::StringT | K::BoxStr);
        let wrap = |r: Rope| Val::Str(r);
        match item {
            "index" | "get" | "get_unchecked" | "index_mut" if inp.len() == 2 => {
                let r = self.rope_of(st, &a[0])?;
                let len = if r.0.iter().any(|p| matches!(p, Piece::Any | Piece::AnyChar)) { LinLen::c(0) } else { st.rope_len(&r)? };
                if let Some((x, y)) = self.range_of(st, &a[1], inp[1], &len)? {
                    return match self.slice3(st, &r, &x, &y, chars)? {
                        Some((_, m, _)) => v(if item == "get" { some(wrap(m)) } else { wrap(m) }),
                        None => {
                            if item == "get" {
                                v(none())
                            } else {
                                self.panic_here(st, "text slice out of range or off a char boundary")
                            }
                        }
                    };
                }
                // single index
                let n = self.as_len(st, &a[1])?;
                let b = match st.split_rope(&r, &n)? {
                    None => None,
                    Some((_, rest)) => st.first_byte(&rest)?.map(|x| x.0),
                };
                match b {
                    None => {
                        if item == "get" {
                            v(none())
                        } else {
                            self.panic_here(st, "byte index out of range")
                        }
                    }
                    Some(x) => {
                        let x = self.boxed(st, x);
                        v(if item == "get" { some(x) } else { x })
                    }
                }
            }
            "split_at" | "split_at_checked" | "split_at_unchecked" => {
                let r = self.rope_of(st, &a[0])?;
                let n = self.as_len(st, &a[1])?;
                let res = match st.split_rope(&r, &n)? {
                    Some((x, y)) if !chars || st.at_char_boundary(&y)? => Some((x, y)),
                    _ => None,
                };
                match res {
                    Some((x, y)) => {
                        let p = agg(0, vec![wrap(x), wrap(y)]);
                        v(if item == "split_at_checked" { some(p) } else { p })
                    }
                    None => {
                        if item == "split_at_checked" {
                            v(none())
                        } else {
                            self.panic_here(st, "split_at out of range")
                        }
                    }
                }
            }
            "is_char_boundary" => {
                let r = self.rope_of(st, &a[0])?;
                let n = self.as_len(st, &a[1])?;
                match st.split_rope(&r, &n)? {
                    Some((_, y)) => {
                        let b = st.at_char_boundary(&y)?;
                        v(c_bool(b))
                    }
                    None => v(c_bool(false)),
                }
            }
            "split" if k0 == K::Str => self.model("str_split", callee, a),
            "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "contains" | "find" | "rfind" | "split_once" | "rsplit_once" | "split" | "rsplit" | "splitn" | "trim_start_matches" | "trim_end_matches" | "trim_matches" | "matches" | "split_inclusive" | "match_indices" | "rsplitn" | "split_terminator" => {
                let pi = if item == "splitn" || item == "rsplitn" { 2 } else { 1 };
                if k0 == K::Bytes && !matches!(item, "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "contains") {
                    return Ok(None);
                }
                let p = if k0 == K::Bytes {
                    if item == "contains" {
                        match self.norm(st, self.deep(st, &a[1])?) {
                            Val::C(c, _) => Pat::Set(vec![c as u8]),
                            Val::Map(t, b, m, _) => {
                                // constant set contains a symbolic byte
                                let r = self.rope_of(st, &a[0])?;
                                if let Some(w) = r.as_const() {
                                    let f = map_apply(&m, |lo, hi, y| match y {
                                        MV::C(c) => vec![(lo, hi, MV::C(w.contains(&(c as u8)) as u128))],
                                        MV::Lin(k) => (lo..=hi).map(|z| (z, z, MV::C(w.contains(&((z as i64 + k) as u8)) as u128))).collect(),
                                    });
                                    return v(st.norm_map(t, b, &Rc::new(f), 1));
                                }
                                return st.fork_map(t, b, &m);
                            }
                            _ => return unsup("byte contains"),
                        }
                    } else {
                        let r = self.rope_of(st, &a[1])?;
                        match r.as_const() {
                            Some(w) => Pat::Lit(w),
                            None => return unsup("byte pattern"),
                        }
                    }
                } else {
                    self.pat(st, &a[pi], inp[pi])?
                };
                let trimmed = match &p {
                    Pat::Set(w) if k0 == K::Str && matches!(item, "trim_start_matches" | "trim_end_matches") => {
                        let mut c: Vec<(u32, u32)> = w.iter().map(|b| (*b as u32, *b as u32)).collect();
                        c.sort();
                        c.dedup();
                        Some(lang::cset_lang(&lang::cs(c)))
                    }
                    _ => None,
                };
                if matches!(p, Pat::Other) || trimmed.is_some() {
                    if k0 == K::Str && matches!(item, "contains" | "find" | "rfind" | "split_once" | "rsplit_once" | "trim_start_matches" | "trim_end_matches") {
                        let trim = item.starts_with("trim");
                        let r = self.rope_of(st, &a[0])?;
                        if let Some(set) = trimmed.or_else(|| self.pred_lang(st, &a[pi], inp[pi], "pred_char", true)) {
                            let all = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
                            let set = if trim { lang::diff(all, set) } else { set };
                            let back = matches!(item, "rfind" | "rsplit_once" | "trim_end_matches");
                            if let Some(hit) = self.scan_rope(st, &r, set, back)? {
                                let after = match &hit {
                                    Some((_, rest)) if matches!(item, "split_once" | "rsplit_once" | "trim_end_matches") => match st.first_char(rest)? {
                                        Some((_, y)) => y,
                                        None => return unsup("scan"),
                                    },
                                    _ => r.clone(),
                                };
                                return match (item, hit) {
                                    ("contains", h) => v(c_bool(h.is_some())),
                                    ("trim_start_matches", Some((_, rest))) => v(wrap(rest)),
                                    ("trim_end_matches", Some(_)) => {
                                        let l = st.rope_len(&r)?.add(&st.rope_len(&after)?, -1);
                                        match st.split_rope(&r, &l)? {
                                            Some((x, _)) => v(wrap(x)),
                                            None => unsup("scan"),
                                        }
                                    }
                                    ("trim_start_matches" | "trim_end_matches", None) => match st.split_rope(&r, &if back { LinLen::c(0) } else { st.rope_len(&r)? })? {
                                        Some((x, y)) => v(wrap(if back { x } else { y })),
                                        None => unsup("scan"),
                                    },
                                    (_, None) => v(none()),
                                    ("find" | "rfind", Some((x, _))) => {
                                        let n = st.rope_len(&x)?;
                                        v(some(st.len_val(n)))
                                    }
                                    (_, Some((x, _))) => v(some(agg(0, vec![wrap(x), wrap(after)]))),
                                };
                            }
                        }
                    }
                    return self.model(&format!("str_{}", item), callee, a);
                }
                let r = self.rope_of(st, &a[0])?;
                if let Pat::Rope(q) = &p {
                    if matches!(item, "starts_with" | "strip_prefix") {
                        let f = self.strip_rope(st, r.clone(), q.clone())?;
                        return match (item, f) {
                            ("starts_with", f) => v(c_bool(f.is_some())),
                            (_, None) => v(none()),
                            (_, Some(y)) => v(some(wrap(y))),
                        };
                    }
                    return unsup("pattern text");
                }
                match item {
                    "starts_with" | "strip_prefix" => {
                        let (yes, n) = match &p {
                            Pat::Lit(w) => (self.starts_const(st, &r, w, false)?, w.len()),
                            Pat::Set(s) => (if k0 == K::Bytes { return unsup("byte set") } else { self.head_in(st, &r, s, false)? }, 1),
                            _ => unreachable!(),
                        };
                        if item == "starts_with" {
                            return v(c_bool(yes));
                        }
                        if !yes {
                            return v(none());
                        }
                        match st.split_rope(&r, &LinLen::c(n as i64))? {
                            Some((_, y)) => v(some(wrap(y))),
                            None => unsup("strip_prefix"),
                        }
                    }
                    "ends_with" | "strip_suffix" => {
                        let (yes, n) = match &p {
                            Pat::Lit(w) => (self.ends_const(st, &r, w)?, w.len()),
                            Pat::Set(s) => (self.head_in(st, &r, s, true)?, 1),
                            _ => unreachable!(),
                        };
                        if item == "ends_with" {
                            return v(c_bool(yes));
                        }
                        if !yes {
                            return v(none());
                        }
                        let l = st.rope_len(&r)?.add(&LinLen::c(n as i64), -1);
                        match st.split_rope(&r, &l)? {
                            Some((x, _)) => v(some(wrap(x))),
                            None => unsup("strip_suffix"),
                        }
                    }
                    "contains" | "find" | "rfind" | "split_once" | "rsplit_once" => {
                        let last = item.starts_with('r');
                        let f = match &p {
                            Pat::Lit(w) => self.find_lit(st, &r, w, last)?,
                            Pat::Set(s) => {
                                let set = Self::byte_lang(s);
                                let q = if last { st.find_last(&r, set)? } else { st.find_first(&r, set)? };
                                match q {
                                    None => None,
                                    Some((x, rest)) => match st.split_rope(&rest, &LinLen::c(1))? {
                                        Some((y, z)) => Some((x, y, z)),
                                        None => return unsup("find"),
                                    },
                                }
                            }
                            _ => unreachable!(),
                        };
                        match (item, f) {
                            ("contains", f) => v(c_bool(f.is_some())),
                            (_, None) => v(none()),
                            ("find" | "rfind", Some((x, _, _))) => {
                                let n = st.rope_len(&x)?;
                                v(some(st.len_val(n)))
                            }
                            (_, Some((x, _, z))) => v(some(agg(0, vec![wrap(x), wrap(z)]))),
                        }
                    }
                    _ => self.model(&format!("str_{}", item), callee, a),
                }
            }
            "eq_ignore_ascii_case" => {
                let (x, y) = (self.rope_of(st, &a[0])?, self.rope_of(st, &a[1])?);
                let (r, w) = match (x.as_const(), y.as_const()) {
                    (_, Some(w)) => (x, w),
                    (Some(w), _) => (y, w),
                    _ => {
                        if let (Some(p), Some(q)) = (whole_tape(st, &x), whole_tape(st, &y)) {
                            return v(Val::Atom(self.atom(format!("tape{}=~tape{}", p.min(q), p.max(q))), false));
                        }
                        return unsup("case-insensitive comparison");
                    }
                };
                let segs = match self.seg_list(st, &r) {
                    Some(s) => s,
                    None => return unsup("case-insensitive comparison"),
                };
                let l = lang::concat_all(&w.iter().map(|b| Self::byte_lang(&[b.to_ascii_lowercase(), b.to_ascii_uppercase()])).collect::<Vec<_>>());
                let tot: Vec<L> = segs.iter().map(|x| st.seg_lang(x.0, x.1)).collect::<Result<_, _>>()?;
                let all = lang::concat_all(&tot);
                let i = lang::inter(all, l);
                if i == all {
                    return v(c_bool(true));
                }
                if i == lang::empty() {
                    return v(c_bool(false));
                }
                if segs.len() == 1 && !st.seg(segs[0].0, segs[0].1).tagged {
                    let (t, ix) = segs[0];
                    return st.fork(vec![self.restrict_seg(st, t, ix, i), self.restrict_seg(st, t, ix, lang::diff(all, i))]);
                }
                unsup("case-insensitive comparison")
            }
            // ---- owned buffers
            "push_str" | "write_str" | "extend_from_slice" | "extend" if matches!(k0, K::StringT | K::VecU8) && (item != "extend" || k0 == K::VecU8 && matches!(k1, K::Bytes)) => {
                let r = self.rope_of(st, &a[0])?;
                let s = self.rope_of(st, &a[1])?;
                self.append(st, &a[0], r, s)?;
                v(if item == "write_str" { ok(unit()) } else { unit() })
            }
            "push" | "write_char" if matches!(k0, K::StringT | K::VecU8) => {
                let r = self.rope_of(st, &a[0])?;
                let s = if k1 == K::Char {
                    self.char_rope(st, &a[1])?
                } else {
                    match self.bytes_rope(st, &[a[1].clone()]) {
                        Some(s) => s,
                        None => {
                            let x = self.norm(st, a[1].clone());
                            if let Val::Sum(..) = x {
                                return self.sum_fork(st, &x, &x);
                            }
                            return unsup("push of byte");
                        }
                    }
                };
                self.append(st, &a[0], r, s)?;
                v(if item == "write_char" { ok(unit()) } else { unit() })
            }
            "reserve" | "reserve_exact" => v(unit()),
            "try_reserve" | "try_reserve_exact" => {
                if self.fail_writes && !st.outerr {
                    let mut s = st.clone();
                    s.outerr = true;
                    let mut t = st.clone();
                    t.outerr = true;
                    let _ = t;
                    return v(ok(unit()));
                }
                v(ok(unit()))
            }
            "truncate" | "split_off" => {
                let r = self.rope_of(st, &a[0])?;
                let n = self.as_len(st, &a[1])?;
                match st.split_rope(&r, &n)? {
                    Some((x, y)) => {
                        if chars && !st.at_char_boundary(&y)? {
                            return self.panic_here(st, "not a char boundary");
                        }
                        self.put(st, &a[0], Val::Buf(x))?;
                        v(if item == "truncate" { unit() } else { Val::Buf(y) })
                    }
                    None => {
                        if item == "truncate" {
                            v(unit())
                        } else {
                            self.panic_here(st, "split_off out of range")
                        }
                    }
                }
            }
            "drain" | "replace_range" => {
                let r = self.rope_of(st, &a[0])?;
                let len = st.rope_len(&r)?;
                let (x, y) = match self.range_of(st, &a[1], inp[1], &len)? {
                    Some(z) => z,
                    None => return unsup("range"),
                };
                match self.slice3(st, &r, &x, &y, chars)? {
                    Some((l, m, t)) => {
                        if item == "drain" {
                            self.put(st, &a[0], Val::Buf(l.cat(&t)))?;
                            v(Val::Str(m))
                        } else {
                            let s = self.rope_of(st, &a[2])?;
                            self.put(st, &a[0], Val::Buf(l.cat(&s).cat(&t)))?;
                            v(unit())
                        }
                    }
                    None => self.panic_here(st, "range out of bounds"),
                }
            }
            "insert_str" | "insert" => {
                let r = self.rope_of(st, &a[0])?;
                let n = self.as_len(st, &a[1])?;
                match st.split_rope(&r, &n)? {
                    Some((x, y)) => {
                        if chars && !st.at_char_boundary(&y)? {
                            return self.panic_here(st, "not a char boundary");
                        }
                        let s = if item == "insert_str" {
                            self.rope_of(st, &a[2])?
                        } else if k0 == K::StringT {
                            self.char_rope(st, &a[2])?
                        } else {
                            match self.bytes_rope(st, &[a[2].clone()]) {
                                Some(s) => s,
                                None => return unsup("insert of byte"),
                            }
                        };
                        self.put(st, &a[0], Val::Buf(x.cat(&s).cat(&y)))?;
                        v(unit())
                    }
                    None => self.panic_here(st, "insert out of range"),
                }
            }
            "extend" | "from_iter" if matches!(k0, K::StringT) => self.model(&format!("string_{}", item), callee, a),
            "copy_from_slice" | "clone_from_slice" => {
                let s = self.rope_of(st, &a[1])?;
                let x = match self.peel(&a[0]) {
                    Val::Slice(_, _, n) => LinLen::c(n as i64),
                    _ => {
                        let r = self.rope_of(st, &a[0])?;
                        st.rope_len(&r)?
                    }
                };
                let y = st.rope_len(&s)?;
                if st.sign(&x.add(&y, -1))? != Ordering::Equal {
                    return self.panic_here(st, "copy_from_slice length mismatch");
                }
                // write into a fixed array
                if let Val::Slice(p, o, n) = self.peel(&a[0]) {
                    let mut rest = s;
                    for i in 0..n {
                        match st.first_byte(&rest)? {
                            Some((b, r2)) => {
                                let mut path = (*p.path).clone();
                                path.push(PE::I(o + i));
                                self.write(st, &Ptr { root: p.root, path: Rc::new(path) }, b)?;
                                rest = r2;
                            }
                            None => return unsup("copy_from_slice"),
                        }
                    }
                    return v(unit());
                }
                unsup("copy_from_slice")
            }
            "add" | "add_assign" if k0 == K::StringT => {
                let r = self.rope_of(st, &a[0])?;
                let s = self.rope_of(st, &a[1])?;
                if item == "add" {
                    return v(Val::Buf(r.cat(&s)));
                }
                self.append(st, &a[0], r, s)?;
                v(unit())
            }
            "to_ascii_lowercase" | "to_ascii_uppercase" => unsup(format!("text {}", item)),
            "char_indices" => Ok(None),
            "parse" => {
                // a text of one to four digits always fits
                let size = match out.kind() {
                    ty::Adt(_, g) => match g.types().next().map(|t| t.kind().clone()) {
                        Some(ty::Uint(ty::UintTy::U16)) => 2,
                        Some(ty::Uint(ty::UintTy::U32)) => 4,
                        Some(ty::Uint(ty::UintTy::U64 | ty::UintTy::Usize)) => 8,
                        _ => return Ok(None),
                    },
                    _ => return Ok(None),
                };
                let r = self.rope_of(st, &a[0])?;
                if r.as_const().is_some() {
                    return Ok(None);
                }
                let mut ls = vec![];
                for (t, i) in match self.seg_list(st, &r) {
                    Some(l) => l,
                    None => return Ok(None),
                } {
                    ls.push(st.seg_lang(t, i)?);
                }
                let l = lang::concat_all(&ls);
                if lang::subset(l, crate::spec::rep(crate::spec::digit(), 1, 4)) {
                    return v(ok(Val::Top(size)));
                }
                Ok(None)
            }
            "hash" if matches!(k0, K::StringT) => {
                self.model("string_hash", callee, a)
            }
            _ => Ok(None),
        }
    }
    pub fn panic_here(&mut self, st: &State<'tcx>, msg: &str) -> CR<'tcx> {
        let tcx = self.tcx;
        let who = st.frames.iter().rev().find(|f| !matches!(tcx.crate_name(f.inst.def_id().krate).as_str(), "core" | "alloc" | "std")).map(|f| f.inst.def_id());
        let who = who.map(|w| (*self.name(w)).clone()).unwrap_or_default();
        pan(format!("{} in {}", msg, who))
    }
    fn iter_ops(&mut self, st: &mut State<'tcx>, callee: Instance<'tcx>, item: &str, _tn: &str, inp: &[Ty<'tcx>], k0: K, a: &Vec<Val<'tcx>>) -> CR<'tcx> {
        let byref = matches!(inp[0].kind(), ty::Ref(..));
        if k0 == K::IterT || matches!(self.deep(st, &a[0]), Ok(Val::Slice(..))) {
            let (p, o, n) = match self.deep(st, &a[0])? {
                Val::Slice(p, o, n) => (p, o, n),
                _ => return Ok(None),
            };
            let el = |i: u32| {
                let mut path = (*p.path).clone();
                path.push(PE::I(i));
                Val::Ref(Ptr { root: p.root, path: Rc::new(path) })
            };
            return match item {
                "next" => {
                    if n == 0 {
                        return v(none());
                    }
                    self.put(st, &a[0], Val::Slice(p.clone(), o + 1, n - 1))?;
                    v(some(el(o)))
                }
                "next_back" => {
                    if n == 0 {
                        return v(none());
                    }
                    self.put(st, &a[0], Val::Slice(p.clone(), o, n - 1))?;
                    v(some(el(o + n - 1)))
                }
                "len" => v(usz(n as u64)),
                "size_hint" => v(agg(0, vec![usz(n as u64), some(usz(n as u64))])),
                "as_slice" => v(Val::Slice(p, o, n)),
                "clone" => self.ptr_val(st, &a[0]).and_then(v),
                "into_iter" | "by_ref" => v(a[0].clone()),
                "all" | "any" | "find" | "find_map" | "fold" | "for_each" | "try_fold" | "try_for_each" | "map_while" | "count" | "last" | "nth" => self.model(&format!("it_{}", item), callee, a),
                "position" | "rposition" => self.model(&format!("it_{}", item), callee, a),
                _ => Ok(None),
            };
        }
        match item {
            "next" | "next_back" if byref => {
                let r = self.iter_rope(st, &a[0])?;
                let x = match (k0, item) {
                    (K::Chars, "next") => st.first_char(&r)?,
                    (K::Chars, _) => st.last_char(&r)?,
                    (_, "next") => st.first_byte(&r)?,
                    _ => st.last_byte(&r)?,
                };
                match x {
                    None => v(none()),
                    Some((c, rest)) => {
                        self.put(st, &a[0], Val::Str(rest))?;
                        let c = if k0 == K::IterU8 { self.boxed(st, c) } else { c };
                        v(some(c))
                    }
                }
            }
            "as_str" | "as_slice" | "as_ref" => {
                let r = self.iter_rope(st, &a[0])?;
                v(Val::Str(r))
            }
            "clone" => self.ptr_val(st, &a[0]).and_then(v),
            "len" if k0 != K::Chars => {
                let r = self.iter_rope(st, &a[0])?;
                let x = self.rope_len_val(st, &r)?;
                v(x)
            }
            "is_empty" if k0 != K::Chars => {
                let r = self.iter_rope(st, &a[0])?;
                let x = self.rope_empty(st, &r)?;
                v(c_bool(x))
            }
            "size_hint" => v(agg(0, vec![Val::Top(8), some(Val::Top(8))])),
            "count" if k0 != K::Chars => {
                let r = self.iter_rope(st, &a[0])?;
                let x = self.rope_len_val(st, &r)?;
                v(x)
            }
            "into_iter" | "by_ref" => v(a[0].clone()),
            "all" | "any" | "find" | "rfind" | "position" | "rposition" if a.len() == 2 => {
                if let Some(r) = self.scan(st, item, inp[1], k0, a)? {
                    return Ok(Some(r));
                }
                if k0 == K::Chars && item == "position" {
                    return self.model("it_position_count", callee, a);
                }
                self.model(&format!("it_{}", item), callee, a)
            }
            "all" | "any" | "find" | "find_map" | "fold" | "for_each" | "try_fold" | "try_for_each" | "position" | "rposition" | "last" | "nth" | "rfind" | "rfold" | "try_rfold" | "advance_by" | "count" => {
                if self.models.contains_key(&format!("model:it_{}", item)) {
                    return self.model(&format!("it_{}", item), callee, a);
                }
                Ok(None)
            }
            _ => Ok(None),
        }
    }
    /// Searching with a predicate that depends on the element only.
    fn scan(&mut self, st: &mut State<'tcx>, item: &str, ft: Ty<'tcx>, k0: K, a: &Vec<Val<'tcx>>) -> R<'tcx, Option<CallRes<'tcx>>> {
        let chars = k0 == K::Chars;
        let byitem = matches!(item, "find" | "rfind");
        if chars && item == "rposition" {
            return Ok(None);
        }
        let m = match (k0, byitem) {
            (K::Chars, false) => "pred_char",
            (K::Chars, true) => "pred_char_ref",
            (K::BytesIter, false) => "pred_byte",
            (K::BytesIter, true) | (K::IterU8, false) => "pred_byte_ref",
            (K::IterU8, true) => "pred_byte_ref2",
            _ => return Ok(None),
        };
        let r = self.iter_rope(st, &a[0])?;
        let set = match self.pred_lang(st, &a[1], ft, m, chars) {
            Some(l) => l,
            None => return Ok(None),
        };
        let all = if chars { lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)])) } else { lang::syms(vec![(0, 255)]) };
        let set = if item == "all" { lang::diff(all, set) } else { set };
        let hit = match self.scan_rope(st, &r, set, matches!(item, "rfind" | "rposition"))? {
            Some(h) => h,
            None => return Ok(None),
        };
        let some_el = |e: &Option<(Rope, Rope)>| e.is_some();
        let found = some_el(&hit);
        let back = matches!(item, "rfind" | "rposition");
        let res = match (item, &hit) {
            ("any", _) => c_bool(found),
            ("all", _) => c_bool(!found),
            (_, None) => none(),
            // a number of characters, which need not be the number of bytes
            ("position" | "rposition", Some(_)) if chars => some(Val::Top(8)),
            ("position" | "rposition", Some((x, _))) => {
                let n = st.rope_len(x)?;
                some(st.len_val(n))
            }
            (_, Some((_, rest))) => {
                let e = if chars { st.first_char(rest)? } else { st.first_byte(rest)? };
                match e {
                    Some((c, _)) => some(if k0 == K::IterU8 { self.boxed(st, c) } else { c }),
                    None => return unsup("scan"),
                }
            }
        };
        // what is left of the iterator
        let left = match &hit {
            None => match st.split_rope(&r, &if back { LinLen::c(0) } else { st.rope_len(&r)? })? {
                Some((x, y)) => if back { x } else { y },
                None => return unsup("scan"),
            },
            Some((x, _)) if back => x.clone(),
            Some((_, rest)) => {
                let e = if chars { st.first_char(rest)? } else { st.first_byte(rest)? };
                match e {
                    Some((_, y)) => y,
                    None => return unsup("scan"),
                }
            }
        };
        self.put(st, &a[0], Val::Str(left))?;
        Ok(Some(CallRes::Val(res)))
    }
    /// First or last occurrence of an element of the set; `None` if it cannot be told this way.
    fn scan_rope(&mut self, st: &State<'tcx>, r: &Rope, set: L, back: bool) -> R<'tcx, Option<Option<(Rope, Rope)>>> {
        if r.0.iter().any(|p| !matches!(p, Piece::T(..) | Piece::C(..))) {
            return Ok(None);
        }
        if set == lang::empty() {
            return Ok(Some(None));
        }
        if lang::minmax_len(set).1 != Some(1) && r.0.iter().any(|p| matches!(p, Piece::C(..))) {
            return Ok(None);
        }
        Ok(Some(if back { st.find_last(r, set)? } else { st.find_first(r, set)? }))
    }
    fn output(&mut self, st: &mut State<'tcx>, r: Rope) -> CR<'tcx> {
        if self.fail_writes {
            let at = self.atom("write fails".into());
            match st.assume.iter().find(|x| x.0 == at) {
                Some((_, true)) => {}
                _ => {}
            }
            // nondeterministic failure, at most once
            if !st.outerr {
                let key = self.atom(format!("pending{}", 0));
                if let Some(pos) = st.assume.iter().position(|x| x.0 == key) {
                    let b = st.assume[pos].1;
                    st.assume.remove(pos);
                    if b {
                        st.outerr = true;
                        return v(err(unit()));
                    }
                } else {
                    let mut alts = vec![];
                    for b in [true, false] {
                        let mut n = st.clone();
                        n.assume.push((key, b));
                        n.assume.sort();
                        alts.push(Some(n));
                    }
                    return st.fork(alts);
                }
            } else {
                // a write after a failed write
                st.note = Rc::new(vec!["write after a failed write".into()]);
            }
            return v(ok(unit()));
        }
        if st.outpos.is_some() {
            self.forget_scratch(st, &r);
            return self.stream(st, r);
        }
        st.out = st.out.cat(&r);
        v(ok(unit()))
    }
    /// The part of a scratch buffer which has been written is not tracked any more, nor is what lies
    /// more than two bytes behind it (reading it again makes the case undecided).
    fn forget_scratch(&self, st: &mut State<'tcx>, r: &Rope) {
        let mut n = 0;
        for p in r.0.iter() {
            match p {
                Piece::C(_, _, k) => n += *k as usize,
                Piece::By(..) => n += 1,
                _ => return,
            }
        }
        if n == 0 || n > 64 {
            return;
        }
        let byte = |x: &Val<'tcx>| matches!(x, Val::Undef | Val::C(_, 1) | Val::Map(_, _, _, 1) | Val::Sum(_, _, 1));
        let part = |x: &Val<'tcx>| {
            let Val::Agg(k, f) = x else { return None };
            if f.len() < 8.max(n) || !f.iter().all(byte) {
                return None;
            }
            let s = (0..=f.len() - n).find(|s| self.bytes_rope(st, &f[*s..*s + n]).as_ref() == Some(r))?;
            let g = f.iter().enumerate().map(|(i, x)| if (i < s + n || i >= s + n + 2) && !matches!(x, Val::C(0x25, 1)) { Val::Undef } else { x.clone() }).collect();
            Some(Val::Agg(*k, Rc::new(g)))
        };
        let mut todo = vec![];
        for (k, fr) in st.frames.iter().enumerate() {
            for (l, v) in fr.locals.iter().enumerate() {
                if let Some(y) = part(v) {
                    todo.push((Some(k), l, y));
                }
            }
        }
        for (l, v) in st.heap.iter().enumerate() {
            if let Some(y) = part(v) {
                todo.push((None, l, y));
            }
        }
        for (k, l, y) in todo {
            match k {
                Some(k) => st.frames[k].locals[l] = y,
                None => st.heap[l] = y,
            }
        }
    }
    /// Streaming output: the text is placed on the tapes, in input order.
    fn stream(&mut self, st: &mut State<'tcx>, r: Rope) -> CR<'tcx> {
        let mut toks = vec![];
        for p in r.0.iter() {
            match p {
                Piece::C(b, o, n) => {
                    if *n > 0 {
                        toks.push(Tok::Lit(b[*o as usize..(*o + *n) as usize].to_vec()));
                    }
                }
                Piece::T(t, a, e) => {
                    let (i, j) = (st.bidx(*t, *a), st.bidx(*t, *e));
                    for x in i..j {
                        if !st.is_empty_seg(*t, x) && st.seg_minmax(*t, x).1 != Some(0) {
                            toks.push(Tok::Seg(*t, st.tapes[*t as usize].b[x]));
                        }
                    }
                }
                Piece::Ch(t, b, m) | Piece::By(t, b, m) => {
                    let by = matches!(p, Piece::By(..));
                    let (set, isb) = st.seg(*t, st.bidx(*t, *b)).ch.clone().unwrap();
                    let m = restrict(m, &set);
                    if let Some(c) = const_of(&m, 4) {
                        toks.push(Tok::Lit(if by { vec![c as u8] } else { char::from_u32(c as u32).unwrap().to_string().into_bytes() }));
                        continue;
                    }
                    if m.iter().all(|x| x.2 == MV::Lin(0)) && (by == isb || set.last().unwrap().1 < 128) {
                        toks.push(Tok::Seg(*t, *b));
                        continue;
                    }
                    if set.iter().map(|x| x.1 - x.0 + 1).sum::<u32>() > 600 {
                        return st.fork_map(*t, *b, &Rc::new(m));
                    }
                    toks.push(Tok::Fun(*t, *b, Rc::new(m), by));
                }
                Piece::Any | Piece::AnyChar | Piece::Out => return unsup("output of untracked text"),
            }
        }
        let mut n = 0;
        while n < toks.len() {
            let (t, b) = match &toks[n] {
                Tok::Lit(w) => {
                    st.insert_out(lang::as_output(lang::bytes(w)));
                    n += 1;
                    continue;
                }
                Tok::Seg(t, b) | Tok::Fun(t, b, ..) => (*t, *b),
            };
            let i = st.bidx(t, b);
            let (pt, pb) = st.outpos.unwrap();
            if t < pt || t == pt && i < st.bidx(pt, pb) {
                return unsup("output is not in input order");
            }
            let g = st.seg(t, i).clone();
            if g.tagged || g.kept {
                return unsup("input copied twice");
            }
            let mut last = n;
            for (e, x) in toks.iter().enumerate().skip(n) {
                match x {
                    Tok::Seg(t2, b2) | Tok::Fun(t2, b2, ..) if (*t2, *b2) == (t, b) => last = e,
                    Tok::Lit(_) => {}
                    _ => break,
                }
            }
            if last == n && matches!(toks[n], Tok::Seg(..)) {
                st.tapes[t as usize].s[i].kept = true;
            } else {
                let (set, byte) = match &g.ch {
                    Some(c) if c.0.iter().map(|x| x.1 - x.0 + 1).sum::<u32>() <= 600 => c.clone(),
                    _ => return unsup("input copied twice"),
                };
                let l = tagged_lang(&set, byte, &toks[n..=last])?;
                let g = &mut st.tapes[t as usize].s[i];
                g.parts = vec![Part::L(l)];
                g.tagged = true;
            }
            st.outpos = Some((t, st.tapes[t as usize].b[i + 1]));
            n = last + 1;
        }
        v(ok(unit()))
    }
    /// Appends to an owned buffer.
    fn append(&mut self, st: &mut State<'tcx>, target: &Val<'tcx>, old: Rope, s: Rope) -> R<'tcx, ()> {
        if self.sbuf {
            if st.outpos.is_none() && s.as_const().map_or(true, |x| !x.is_empty()) {
                st.outpos = Some((0, st.tapes[0].b[0]));
                self.forget_scratch(st, &s);
                self.put(st, target, Val::Buf(Rope::new(vec![Piece::Out])))?;
                self.stream(st, old)?;
                self.stream(st, s)?;
                return Ok(());
            }
            if old.0[..] == [Piece::Out] {
                self.forget_scratch(st, &s);
                self.stream(st, s)?;
                return Ok(());
            }
        }
        self.put(st, target, Val::Buf(old.cat(&s)))
    }
}
pub enum Pat {
    Lit(Vec<u8>),
    Set(Vec<u8>),
    Rope(Rope),
    Other,
}
pub fn whole_tape(st: &State<'_>, r: &Rope) -> Option<u8> {
    if r.0.len() != 1 {
        return None;
    }
    match &r.0[0] {
        Piece::T(t, a, e) => {
            let tp = &st.tapes[*t as usize];
            if tp.b[0] == *a && *tp.b.last().unwrap() == *e {
                Some(*t)
            } else {
                None
            }
        }
        _ => None,
    }
}
impl<'tcx> State<'tcx> {
    /// Inserts output-only text at the output position of tape 0.
    pub fn insert_out(&mut self, l: L) {
        let (t, pos) = self.outpos.unwrap();
        let i = self.bidx(t, pos);
        let nb = self.fresh();
        let mut s = Seg::new(l);
        s.tagged = true;
        s.born = self.clock;
        // the inserted segment ends at `pos`'s position; text before keeps boundary `pos`?
        // boundaries: ... b[i-1] seg[i-1] pos seg[i] ...  ->  ... pos' is reused for the right side
        let tp = &mut self.tapes[t as usize];
        tp.s.insert(i, s);
        tp.b.insert(i, nb);
        // references which ended exactly at `pos` now include the inserted segment; since it has
        // no input bytes this does not change their text.
    }
}

thread_local! {
    static TAGGED: std::cell::RefCell<HashMap<(CSet, bool, Vec<Tok>), L>> = Default::default();
}
/// The language of one char of the set together with the text computed from it.
fn tagged_lang<'tcx>(set: &CSet, byte: bool, toks: &[Tok]) -> R<'tcx, L> {
    // boundaries do not matter
    let key: Vec<Tok> = toks.iter().map(|t| match t {
        Tok::Seg(t, _) => Tok::Seg(*t, 0),
        Tok::Fun(t, _, m, b) => Tok::Fun(*t, 0, m.clone(), *b),
        x => x.clone(),
    }).collect();
    let key = (set.clone(), byte, key);
    if let Some(l) = TAGGED.with(|m| m.borrow().get(&key).cloned()) {
        return Ok(l);
    }
                let mut alts = vec![];
                for &(lo, hi) in set.iter() {
                    for x in lo..=hi {
                        let own: Vec<u16> = if byte { vec![x as u16] } else { char::from_u32(x).unwrap().to_string().bytes().map(|b| b as u16).collect() };
                        let mut w = vec![];
                        for tk in toks {
                            match tk {
                                Tok::Lit(b) => w.extend(b.iter().map(|b| *b as u16 + lang::O)),
                                Tok::Seg(..) => w.extend(own.iter().map(|b| *b + lang::O)),
                                Tok::Fun(_, _, m, by) => {
                                    let v = m.iter().find(|r| r.0 <= x && x <= r.1).map(|r| match r.2 {
                                        MV::C(c) => c as u32,
                                        MV::Lin(k) => (x as i64 + k) as u32,
                                    });
                                    let v = v.ok_or_else(|| Stop::Unsupported("computed text".into()))?;
                                    if *by {
                                        w.push(v as u8 as u16 + lang::O);
                                    } else {
                                        w.extend(char::from_u32(v).unwrap_or('?').to_string().bytes().map(|b| b as u16 + lang::O));
                                    }
                                }
                            }
                        }
                        w.extend(own);
                        alts.push(lang::word(&w));
                    }
                }
    let l = lang::union_all(&alts);
    TAGGED.with(|m| m.borrow_mut().insert(key, l));
    Ok(l)
}
/// A piece of output.
#[derive(Clone, PartialEq, Eq, Hash)]
enum Tok {
    Lit(Vec<u8>),
    Seg(u8, BId),
    Fun(u8, BId, PMap, bool),
}

/// `Copied` or `Cloned` over the bytes of a slice.
fn name_of_adapter<'tcx>(w: &mut World<'tcx>, t: Ty<'tcx>) -> Option<bool> {
    if let ty::Adt(d, args) = t.peel_refs().kind() {
        let n = w.name(d.did());
        if matches!(n.as_str(), "core::iter::adapters::copied::Copied" | "core::iter::adapters::cloned::Cloned") {
            return Some(w.kind_of(args.type_at(0)) == K::IterU8);
        }
    }
    None
}
