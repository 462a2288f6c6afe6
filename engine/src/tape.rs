//! Operations on the segmented input tapes of a state.
use crate::lang::{self, CSet, L};
use crate::val::*;
use std::rc::Rc;

pub enum Stop<'tcx> {
    /// replace the state by these (re-execute the same program point)
    Fork(Vec<State<'tcx>>),
    /// needs the language of these variables
    Suspend(Vec<u32>),
    Unsupported(String),
}
pub type R<'tcx, T> = Result<T, Stop<'tcx>>;
pub const UNDECIDABLE_LEN: &str = "undecidable length comparison";
pub fn unsup<'tcx, T>(s: impl Into<String>) -> R<'tcx, T> {
    Err(Stop::Unsupported(s.into()))
}

pub fn full_chars() -> CSet {
    lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)])
}

/// The content of a segment whose input text is restricted to `l`.
fn tagged_part(g: &Seg, l: L) -> L {
    if !g.tagged {
        return l;
    }
    let v: Vec<L> = g.parts.iter().map(|p| if let Part::L(l) = p { *l } else { panic!("VP: open output segment") }).collect();
    crate::equiv::restrict(lang::concat_all(&v), l)
}
impl<'tcx> State<'tcx> {
    pub fn bidx(&self, t: u8, b: BId) -> usize {
        match self.tapes[t as usize].b.iter().position(|&x| x == b) {
            Some(i) => i,
            None => panic!("VP: boundary {} lost on tape {}: {:?}", b, t, self.tapes[t as usize].b),
        }
    }
    pub fn fresh(&mut self) -> BId {
        self.nextb += 1;
        self.nextb
    }
    pub fn seg(&self, t: u8, i: usize) -> &Seg {
        &self.tapes[t as usize].s[i]
    }
    /// The (closed, plain) language of a segment.
    pub fn seg_lang(&self, t: u8, i: usize) -> R<'tcx, L> {
        let s = self.seg(t, i);
        if let Some(c) = &s.ch {
            return Ok(ch_lang(c));
        }
        if s.is_open() {
            return Err(Stop::Suspend(s.vars()));
        }
        let v: Vec<L> = s.parts.iter().map(|p| if let Part::L(l) = p { *l } else { unreachable!() }).collect();
        let l = lang::concat_all(&v);
        if s.tagged {
            return Ok(lang::input_of(l));
        }
        Ok(l)
    }
    pub fn is_empty_seg(&self, t: u8, i: usize) -> bool {
        let s = self.seg(t, i);
        s.ch.is_none() && s.parts.iter().all(|p| matches!(p, Part::L(l) if *l == lang::eps()))
    }
    pub fn seg_minmax(&self, t: u8, i: usize) -> (u32, Option<u32>) {
        let s = self.seg(t, i);
        if let Some(c) = &s.ch {
            return lang::minmax_len(ch_lang(c));
        }
        let mut mn = 0;
        let mut mx = Some(0);
        for p in &s.parts {
            match p {
                Part::L(l) => {
                    let l = if s.tagged { lang::input_of(*l) } else { *l };
                    let (a, b) = lang::minmax_len(l);
                    mn += a;
                    mx = match (mx, b) {
                        (Some(x), Some(y)) => Some(x + y),
                        _ => None,
                    };
                }
                _ => mx = None,
            }
        }
        (mn, mx)
    }
    pub fn with_seg(&self, t: u8, i: usize, l: L) -> Option<State<'tcx>> {
        if l == lang::empty() {
            return None;
        }
        let mut s = self.clone();
        let g = &mut s.tapes[t as usize].s[i];
        let keep = tagged_part(g, l);
        g.parts = vec![Part::L(keep)];
        g.ch = None;
        Some(s)
    }
    pub fn with_ch(&self, t: u8, i: usize, c: Vec<(u32, u32)>) -> Option<State<'tcx>> {
        if c.is_empty() {
            return None;
        }
        let mut s = self.clone();
        let g = &mut s.tapes[t as usize].s[i];
        let byte = g.ch.as_ref().unwrap().1;
        let c = Rc::new(c);
        let l = ch_lang(&(c.clone(), byte));
        g.parts = vec![Part::L(tagged_part(g, l))];
        g.ch = Some((c, byte));
        Some(s)
    }
    /// Replaces segment i by the given sequence (lang, ch) of segments.
    pub fn with_split(&self, t: u8, i: usize, segs: &[(L, Option<(CSet, bool)>)]) -> Option<State<'tcx>> {
        if segs.iter().any(|x| x.0 == lang::empty()) {
            return None;
        }
        let mut s = self.clone();
        let old = s.tapes[t as usize].s[i].clone();
        let mut new = vec![];
        let mut nb = vec![];
        for (k, (l, c)) in segs.iter().enumerate() {
            let mut g = old.clone();
            g.parts = vec![Part::L(*l)];
            g.ch = c.clone();
            new.push(g);
            if k > 0 {
                nb.push(s.fresh());
            }
        }
        let tp = &mut s.tapes[t as usize];
        tp.s.splice(i..i + 1, new);
        tp.b.splice(i + 1..i + 1, nb);
        Some(s)
    }
    pub fn fork<T>(&self, alts: Vec<Option<State<'tcx>>>) -> R<'tcx, T> {
        Err(Stop::Fork(alts.into_iter().flatten().collect()))
    }
    fn readable(&self, t: u8, i: usize) -> R<'tcx, ()> {
        if self.seg(t, i).tagged {
            return unsup("re-reading input already consumed by output");
        }
        Ok(())
    }

    // ------------------------------------------------------------ lengths
    /// Per-segment coefficients and constant.
    fn coefs(&self, l: &LinLen) -> (i64, Vec<Vec<i32>>) {
        let mut c: Vec<Vec<i32>> = self.tapes.iter().map(|t| vec![0; t.s.len()]).collect();
        for &(t, a, b, k) in &l.t {
            let (i, j) = (self.bidx(t, a), self.bidx(t, b));
            if i <= j {
                for x in i..j {
                    c[t as usize][x] += k;
                }
            } else {
                for x in j..i {
                    c[t as usize][x] -= k;
                }
            }
        }
        (l.k, c)
    }
    pub fn norm_len(&self, l: &LinLen) -> LinLen {
        let (mut k, mut c) = self.coefs(l);
        let mut t = vec![];
        for (ti, v) in c.iter_mut().enumerate() {
            let mut i = 0;
            while i < v.len() {
                let (mn, mx) = self.seg_minmax(ti as u8, i);
                if v[i] != 0 && mx == Some(mn) {
                    k += v[i] as i64 * mn as i64;
                    v[i] = 0;
                }
                i += 1;
            }
            let mut i = 0;
            while i < v.len() {
                if v[i] == 0 {
                    i += 1;
                    continue;
                }
                // extend over equal coefs; fixed-length segments (zeroed) break the run
                let mut j = i;
                while j + 1 < v.len() && v[j + 1] == v[i] {
                    j += 1;
                }
                t.push((ti as u8, self.tapes[ti].b[i], self.tapes[ti].b[j + 1], v[i]));
                i = j + 1;
            }
        }
        LinLen { k, t }
    }
    pub fn len_val(&self, l: LinLen) -> Val<'tcx> {
        let n = self.norm_len(&l);
        if n.t.is_empty() {
            Val::C(n.k as u64 as u128, 8)
        } else {
            Val::Len(Rc::new(n))
        }
    }
    /// Decides the sign of l: Less / Equal / Greater than zero, splitting as needed.
    /// `want` lists the thresholds of interest: only (l < 0), (l <= 0) matter.
    pub fn sign(&self, l: &LinLen) -> R<'tcx, std::cmp::Ordering> {
        self.sign_at(l, true, true)
    }
    /// l < 0 ?
    pub fn neg(&self, l: &LinLen) -> R<'tcx, bool> {
        Ok(self.sign_at(l, true, false)? == std::cmp::Ordering::Less)
    }
    /// l > 0 ?
    pub fn pos(&self, l: &LinLen) -> R<'tcx, bool> {
        Ok(self.sign_at(l, false, true)? == std::cmp::Ordering::Greater)
    }
    /// `lt`: negative must be told from zero; `gt`: positive must be told from zero.
    fn sign_at(&self, l: &LinLen, lt: bool, gt: bool) -> R<'tcx, std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let n = self.norm_len(l);
        let (mut lo, mut hi) = (Some(n.k), Some(n.k));
        let (_, c) = self.coefs(&n);
        let mut vary: Vec<(u8, usize, i32)> = vec![];
        for (ti, v) in c.iter().enumerate() {
            for (i, &k) in v.iter().enumerate() {
                if k == 0 {
                    continue;
                }
                let (mn, mx) = self.seg_minmax(ti as u8, i);
                vary.push((ti as u8, i, k));
                let a = Some(mn as i64 * k as i64);
                let b = mx.map(|m| m as i64 * k as i64);
                let (a, b) = if k > 0 { (a, b) } else { (b, a) };
                lo = lo.zip(a).map(|(x, y)| x + y);
                hi = hi.zip(b).map(|(x, y)| x + y);
            }
        }
        if vary.is_empty() {
            return Ok(n.k.cmp(&0));
        }
        if let Some(l) = lo {
            if l > 0 {
                return Ok(Greater);
            }
        }
        if let Some(h) = hi {
            if h < 0 {
                return Ok(Less);
            }
        }
        if lo == Some(0) && hi == Some(0) {
            return Ok(Equal);
        }
        if !gt && lo.map_or(false, |x| x >= 0) {
            return Ok(Equal);
        }
        if !lt && hi.map_or(false, |x| x <= 0) {
            return Ok(Equal);
        }
        // lengths of texts of different inputs are unrelated: splitting gets nowhere
        let far = |x: &(u8, usize, i32)| !self.seg(x.0, x.1).is_open() && self.seg_minmax(x.0, x.1).1.is_none();
        if vary.iter().any(|x| far(x) && vary.iter().any(|y| far(y) && y.0 != x.0 && (x.2 > 0) != (y.2 > 0))) {
            return unsup(UNDECIDABLE_LEN);
        }
        // split one variable segment
        for &(t, i, k) in &vary {
            if self.seg(t, i).is_open() && vary.iter().any(|x| !self.seg(x.0, x.1).is_open()) {
                continue;
            }
            if vary.len() == 1 {
                // k*len + n.k <=> 0
                let lang = self.seg_lang(t, i)?;
                self.readable(t, i)?;
                let k = k as i64;
                let z = -n.k; // k*len <=> z
                let neg = k < 0;
                let (z, k) = if k < 0 { (-z, -k) } else { (z, k) };
                // len <=> z/k
                let f = z.div_euclid(k);
                let exact = z.rem_euclid(k) == 0;
                let mut alts = vec![];
                if f < 0 {
                    return unsup("length comparison");
                }
                let ge = lang::len_ge(f as u32);
                let above = lang::len_ge(f as u32 + 1);
                // orientation: with a negative coefficient the order is reversed
                let (lt, gt) = if neg { (gt, lt) } else { (lt, gt) };
                if exact && !lt {
                    alts.push(self.with_seg(t, i, lang::diff(lang, above)));
                } else if exact && !gt {
                    alts.push(self.with_seg(t, i, lang::diff(lang, ge)));
                    alts.push(self.with_seg(t, i, lang::inter(lang, ge)));
                    return self.fork(alts);
                } else if exact {
                    alts.push(self.with_seg(t, i, lang::diff(lang, ge)));
                    alts.push(self.with_seg(t, i, lang::inter(lang, lang::diff(ge, above))));
                } else {
                    alts.push(self.with_seg(t, i, lang::diff(lang, above)));
                }
                alts.push(self.with_seg(t, i, lang::inter(lang, above)));
                return self.fork(alts);
            }
            let (mn, mx) = self.seg_minmax(t, i);
            if self.seg(t, i).is_open() || mn > 40 {
                continue;
            }
            let _ = mx;
            let lang = self.seg_lang(t, i)?;
            if self.seg(t, i).tagged {
                continue;
            }
            let gt = lang::len_ge(mn + 1);
            return self.fork(vec![self.with_seg(t, i, lang::diff(lang, gt)), self.with_seg(t, i, lang::inter(lang, gt))]);
        }
        for &(t, i, _) in &vary {
            if self.seg(t, i).is_open() {
                return Err(Stop::Suspend(self.seg(t, i).vars()));
            }
        }
        unsup(UNDECIDABLE_LEN)
    }

    // ------------------------------------------------------------ ropes
    pub fn rope_len(&self, r: &Rope) -> R<'tcx, LinLen> {
        let mut l = LinLen::c(0);
        for p in r.0.iter() {
            match p {
                Piece::T(t, a, b) => l.t.push((*t, *a, *b, 1)),
                Piece::C(_, _, n) => l.k += *n as i64,
                Piece::By(..) => l.k += 1,
                Piece::Ch(t, b, m) => {
                    // length of the encoded char
                    let f: Vec<(u32, u32, MV)> = map_apply(m, |lo, hi, v| match v {
                        MV::C(c) => vec![(lo, hi, MV::C(u8len(c as u32) as u128))],
                        MV::Lin(k) => {
                            let mut o = vec![];
                            for (a, z) in [(0u32, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)] {
                                let l = (lo as i64 + k).max(a as i64);
                                let h = (hi as i64 + k).min(z as i64);
                                if l <= h {
                                    o.push(((l - k) as u32, (h - k) as u32, MV::C(u8len(a) as u128)));
                                }
                            }
                            o
                        }
                    });
                    let v = self.norm_map(*t, *b, &Rc::new(f), 8);
                    match v {
                        Val::C(c, _) => l.k += c as i64,
                        Val::Map(t, b, m, _) => return self.fork_map(t, b, &m),
                        _ => unreachable!(),
                    }
                }
                Piece::Out => return unsup("reading streamed output"),
                Piece::Any | Piece::AnyChar => return unsup("length of untracked text"),
            }
        }
        Ok(l)
    }
    /// Restricts a map to the current content of its segment.
    pub fn norm_map(&self, t: u8, b: BId, m: &PMap, sz: u8) -> Val<'tcx> {
        let i = self.bidx(t, b);
        let set = match &self.seg(t, i).ch {
            Some(c) => c.0.clone(),
            None => panic!("VP: map on a non-char segment"),
        };
        let r = restrict(m, &set);
        if let Some(c) = const_of(&r, sz) {
            return Val::C(c, sz);
        }
        Val::Map(t, b, Rc::new(r), sz)
    }
    /// Forks on every distinct constant value of a map (or every char).
    pub fn fork_map<T>(&self, t: u8, b: BId, m: &PMap) -> R<'tcx, T> {
        let i = self.bidx(t, b);
        let set = self.seg(t, i).ch.clone().unwrap().0;
        let r = restrict(m, &set);
        let mut by: std::collections::BTreeMap<u128, Vec<(u32, u32)>> = Default::default();
        for (lo, hi, v) in r {
            match v {
                MV::C(c) => by.entry(c).or_default().push((lo, hi)),
                MV::Lin(k) => {
                    if hi - lo > 400 {
                        return unsup("case split over a large character range");
                    }
                    for x in lo..=hi {
                        by.entry((x as i64 + k) as u128).or_default().push((x, x));
                    }
                }
            }
        }
        if by.len() > 600 {
            return unsup("case split over too many values");
        }
        let alts = by.into_values().map(|s| self.with_ch(t, i, (*lang::cs(s)).clone())).collect();
        self.fork(alts)
    }

    /// Makes the segment starting at rope position 0 begin with a single char; returns
    /// None when the rope is empty.
    pub fn first_char(&self, r: &Rope) -> R<'tcx, Option<(Val<'tcx>, Rope)>> {
        let mut v = (*r.0).clone();
        while !v.is_empty() {
            match v[0].clone() {
                Piece::C(b, o, n) => {
                    if n == 0 {
                        v.remove(0);
                        continue;
                    }
                    let s = &b[o as usize..(o + n) as usize];
                    let (c, l) = match decode(s) {
                        Some(x) => x,
                        None => return unsup("non UTF-8 constant"),
                    };
                    v[0] = Piece::C(b.clone(), o + l, n - l);
                    return Ok(Some((Val::C(c as u128, 4), Rope::new(v))));
                }
                Piece::T(t, a, e) => {
                    if a == e {
                        let last = v.len() == 1;
                        if last {
                            return Ok(None);
                        }
                        v.remove(0);
                        continue;
                    }
                    let i = self.bidx(t, a);
                    let nb = self.tapes[t as usize].b[i + 1];
                    if self.is_empty_seg(t, i) {
                        v[0] = Piece::T(t, nb, e);
                        continue;
                    }
                    self.readable(t, i)?;
                    let sg = self.seg(t, i);
                    match &sg.ch {
                        Some((c, false)) => {
                            let m: PMap = Rc::new(c.iter().map(|&(x, y)| (x, y, MV::Lin(0))).collect());
                            let val = self.norm_map(t, a, &m, 4);
                            v[0] = Piece::T(t, nb, e);
                            return Ok(Some((val, tail_rope(v, t, e))));
                        }
                        Some((c, true)) => {
                            if c.last().unwrap().1 < 0x80 {
                                return self.fork(vec![{
                                    let mut s = self.clone();
                                    s.tapes[t as usize].s[i].ch = Some((c.clone(), false));
                                    Some(s)
                                }]);
                            }
                            return unsup("char read inside a multi-byte character");
                        }
                        None => {}
                    }
                    let l = self.seg_lang(t, i)?;
                    let mut alts = vec![];
                    if lang::accepts_eps(l) {
                        alts.push(self.with_seg(t, i, lang::eps()));
                    }
                    for (c, rest) in lang::first_chars(l).iter() {
                        alts.push(self.with_split(t, i, &[(lang::cset_lang(c), Some((c.clone(), false))), (*rest, None)]));
                    }
                    return self.fork(alts);
                }
                Piece::Ch(t, b, m) => {
                    let val = self.norm_map(t, b, &m, 4);
                    v.remove(0);
                    return Ok(Some((val, Rope::new(v))));
                }
                Piece::By(t, b, m) => {
                    let val = self.norm_map(t, b, &m, 1);
                    match val {
                        Val::C(c, _) if c < 128 => {
                            v.remove(0);
                            return Ok(Some((Val::C(c, 4), Rope::new(v))));
                        }
                        Val::Map(t, b, m, _) => {
                            v.remove(0);
                            return Ok(Some((Val::Map(t, b, m, 4), Rope::new(v))));
                        }
                        _ => return unsup("char from raw byte"),
                    }
                }
                Piece::Out => return unsup("reading streamed output"),
                Piece::AnyChar => {
                    v.remove(0);
                    return Ok(Some((Val::Top(4), Rope::new(v))));
                }
                Piece::Any => return unsup("reading untracked text"),
            }
        }
        Ok(None)
    }
    pub fn last_char(&self, r: &Rope) -> R<'tcx, Option<(Val<'tcx>, Rope)>> {
        let mut v = (*r.0).clone();
        while !v.is_empty() {
            let z = v.len() - 1;
            match v[z].clone() {
                Piece::C(b, o, n) => {
                    if n == 0 {
                        v.pop();
                        continue;
                    }
                    let s = String::from_utf8_lossy(&b[o as usize..(o + n) as usize]).into_owned();
                    let c = s.chars().last().unwrap();
                    v[z] = Piece::C(b.clone(), o, n - c.len_utf8() as u32);
                    return Ok(Some((Val::C(c as u128, 4), Rope::new(v))));
                }
                Piece::T(t, a, e) => {
                    if a == e {
                        if z == 0 {
                            return Ok(None);
                        }
                        v.pop();
                        continue;
                    }
                    let i = self.bidx(t, e) - 1;
                    let pb = self.tapes[t as usize].b[i];
                    if self.is_empty_seg(t, i) {
                        v[z] = Piece::T(t, a, pb);
                        continue;
                    }
                    self.readable(t, i)?;
                    match &self.seg(t, i).ch {
                        Some((c, false)) => {
                            let m: PMap = Rc::new(c.iter().map(|&(x, y)| (x, y, MV::Lin(0))).collect());
                            let val = self.norm_map(t, pb, &m, 4);
                            v[z] = Piece::T(t, a, pb);
                            return Ok(Some((val, Rope::new(v))));
                        }
                        Some((c, true)) => {
                            if c.last().unwrap().1 < 0x80 {
                                return self.fork(vec![{
                                    let mut s = self.clone();
                                    s.tapes[t as usize].s[i].ch = Some((c.clone(), false));
                                    Some(s)
                                }]);
                            }
                            return unsup("char read inside a multi-byte character");
                        }
                        None => {}
                    }
                    let l = self.seg_lang(t, i)?;
                    let mut alts = vec![];
                    if lang::accepts_eps(l) {
                        alts.push(self.with_seg(t, i, lang::eps()));
                    }
                    for (c, pre) in lang::last_chars(l).iter() {
                        alts.push(self.with_split(t, i, &[(*pre, None), (lang::cset_lang(c), Some((c.clone(), false)))]));
                    }
                    return self.fork(alts);
                }
                _ => return unsup("reading computed text backwards"),
            }
        }
        Ok(None)
    }
    /// First byte of the rope.
    pub fn first_byte(&self, r: &Rope) -> R<'tcx, Option<(Val<'tcx>, Rope)>> {
        let mut v = (*r.0).clone();
        while !v.is_empty() {
            match v[0].clone() {
                Piece::C(b, o, n) => {
                    if n == 0 {
                        v.remove(0);
                        continue;
                    }
                    let c = b[o as usize];
                    v[0] = Piece::C(b.clone(), o + 1, n - 1);
                    return Ok(Some((Val::C(c as u128, 1), Rope::new(v))));
                }
                Piece::T(t, a, e) => {
                    if a == e {
                        if v.len() == 1 {
                            return Ok(None);
                        }
                        v.remove(0);
                        continue;
                    }
                    let i = self.bidx(t, a);
                    let nb = self.tapes[t as usize].b[i + 1];
                    if self.is_empty_seg(t, i) {
                        v[0] = Piece::T(t, nb, e);
                        continue;
                    }
                    self.readable(t, i)?;
                    if let Some((c, byte)) = &self.seg(t, i).ch {
                        if *byte || c.last().unwrap().1 < 0x80 {
                            let m: PMap = Rc::new(c.iter().map(|&(x, y)| (x, y, MV::Lin(0))).collect());
                            let val = self.norm_map(t, a, &m, 1);
                            v[0] = Piece::T(t, nb, e);
                            return Ok(Some((val, tail_rope(v, t, e))));
                        }
                    }
                    let l = self.seg_lang(t, i)?;
                    let mut alts = vec![];
                    if lang::accepts_eps(l) {
                        alts.push(self.with_seg(t, i, lang::eps()));
                    }
                    for (c, rest) in first_bytes(l) {
                        let ascii = c.last().unwrap().1 < 0x80;
                        alts.push(self.with_split(t, i, &[(byte_set_lang(&c), Some((c.clone(), !ascii))), (rest, None)]));
                    }
                    return self.fork(alts);
                }
                Piece::By(t, b, m) => {
                    let val = self.norm_map(t, b, &m, 1);
                    v.remove(0);
                    return Ok(Some((val, Rope::new(v))));
                }
                Piece::Ch(t, b, m) => {
                    let val = self.norm_map(t, b, &m, 4);
                    match val {
                        Val::C(c, _) => {
                            let ch = char::from_u32(c as u32).unwrap();
                            let s = ch.to_string();
                            v[0] = Piece::C(Rc::new(s.clone().into_bytes()), 0, s.len() as u32);
                            continue;
                        }
                        Val::Map(t, b, m, _) if m.iter().all(|&(_, hi, f)| match f {
                            MV::C(c) => c < 128,
                            MV::Lin(k) => hi as i64 + k < 128,
                        }) =>
                        {
                            v.remove(0);
                            return Ok(Some((Val::Map(t, b, m, 1), Rope::new(v))));
                        }
                        _ => return unsup("byte read of computed char"),
                    }
                }
                Piece::Out => return unsup("reading streamed output"),
                Piece::Any | Piece::AnyChar => return unsup("reading untracked text"),
            }
        }
        Ok(None)
    }
    pub fn last_byte(&self, r: &Rope) -> R<'tcx, Option<(Val<'tcx>, Rope)>> {
        let mut v = (*r.0).clone();
        while !v.is_empty() {
            let z = v.len() - 1;
            match v[z].clone() {
                Piece::C(b, o, n) => {
                    if n == 0 {
                        v.pop();
                        continue;
                    }
                    let c = b[(o + n - 1) as usize];
                    v[z] = Piece::C(b.clone(), o, n - 1);
                    return Ok(Some((Val::C(c as u128, 1), Rope::new(v))));
                }
                Piece::T(t, a, e) => {
                    if a == e {
                        if z == 0 {
                            return Ok(None);
                        }
                        v.pop();
                        continue;
                    }
                    let i = self.bidx(t, e) - 1;
                    let pb = self.tapes[t as usize].b[i];
                    if self.is_empty_seg(t, i) {
                        v[z] = Piece::T(t, a, pb);
                        continue;
                    }
                    self.readable(t, i)?;
                    if let Some((c, byte)) = &self.seg(t, i).ch {
                        if *byte || c.last().unwrap().1 < 0x80 {
                            let m: PMap = Rc::new(c.iter().map(|&(x, y)| (x, y, MV::Lin(0))).collect());
                            let val = self.norm_map(t, pb, &m, 1);
                            v[z] = Piece::T(t, a, pb);
                            return Ok(Some((val, Rope::new(v))));
                        }
                    }
                    let l = self.seg_lang(t, i)?;
                    let mut alts = vec![];
                    if lang::accepts_eps(l) {
                        alts.push(self.with_seg(t, i, lang::eps()));
                    }
                    for (pre, last) in lang::split_at_end(l, 1).iter() {
                        // last: language of single bytes
                        let c = bytes_of(*last);
                        let ascii = c.last().unwrap().1 < 0x80;
                        alts.push(self.with_split(t, i, &[(*pre, None), (*last, Some((c, !ascii)))]));
                    }
                    return self.fork(alts);
                }
                _ => return unsup("reading computed text backwards"),
            }
        }
        Ok(None)
    }

    /// Splits a rope at a byte offset. None: out of range.
    pub fn split_rope(&self, r: &Rope, off: &LinLen) -> R<'tcx, Option<(Rope, Rope)>> {
        let off = self.norm_len(off);
        let (mut k, mut c) = self.coefs(&off);
        let remaining = |c: &Vec<Vec<i32>>| c.iter().any(|v| v.iter().any(|&x| x != 0));
        // Walk the rope; the position is identified when all length terms are consumed.
        let v = &r.0;
        let mut pi = 0usize; // piece index
        // current position within piece pi: either boundary (tape) or const offset
        let mut pos_b: Option<usize> = None; // index of boundary in the tape
        let mut pos_c: u32 = 0;
        let cur_done = |pi: usize| pi >= v.len();
        loop {
            if !remaining(&c) && k <= 0 {
                break;
            }
            if cur_done(pi) {
                break;
            }
            match &v[pi] {
                Piece::T(t, a, e) => {
                    let i = pos_b.unwrap_or_else(|| self.bidx(*t, *a));
                    let ei = self.bidx(*t, *e);
                    if i >= ei {
                        pi += 1;
                        pos_b = None;
                        continue;
                    }
                    if c[*t as usize][i] == 1 {
                        c[*t as usize][i] = 0;
                        pos_b = Some(i + 1);
                        continue;
                    }
                    let (mn, mx) = self.seg_minmax(*t, i);
                    if mx == Some(mn) && c[*t as usize][i] == 0 && (remaining(&c) || k >= mn as i64) {
                        k -= mn as i64;
                        pos_b = Some(i + 1);
                        continue;
                    }
                    if remaining(&c) {
                        // some later or foreign length is pending
                        if c[*t as usize][i] != 0 {
                            return unsup("slice offset with a scaled length");
                        }
                        // fork on the length of this segment if bounded, else give up
                        if let Some(m) = mx {
                            if m <= 16 {
                                let l = self.seg_lang(*t, i)?;
                                self.readable(*t, i)?;
                                let alts = (mn..=m).map(|n| self.with_seg(*t, i, lang::inter(l, lang::len_eq(n)))).collect();
                                return self.fork(alts);
                            }
                        }
                        return unsup("slice offset relative to an unrelated length");
                    }
                    // only a positive constant remains
                    let l = self.seg_lang(*t, i)?;
                    self.readable(*t, i)?;
                    let kk = k as u32;
                    if mn >= kk {
                        let mut alts = vec![];
                        for (x, y) in lang::split_at(l, kk).iter() {
                            alts.push(self.with_split(*t, i, &[(*x, None), (*y, None)]));
                        }
                        return self.fork(alts);
                    }
                    let ge = lang::len_ge(kk);
                    let mut alts = vec![];
                    let lg = lang::inter(l, ge);
                    if lg != lang::empty() {
                        for (x, y) in lang::split_at(lg, kk).iter() {
                            alts.push(self.with_split(*t, i, &[(*x, None), (*y, None)]));
                        }
                    }
                    let sh = lang::diff(l, ge);
                    if sh != lang::empty() {
                        for n in mn..kk {
                            alts.push(self.with_seg(*t, i, lang::inter(sh, lang::len_eq(n))));
                        }
                    }
                    return self.fork(alts);
                }
                Piece::C(_, _, n) => {
                    let left = n - pos_c;
                    if left == 0 {
                        pi += 1;
                        pos_c = 0;
                        continue;
                    }
                    if k <= 0 && !remaining(&c) {
                        break;
                    }
                    let take = if remaining(&c) { left as i64 } else { (left as i64).min(k) };
                    k -= take;
                    pos_c += take as u32;
                }
                Piece::By(..) => {
                    k -= 1;
                    pi += 1;
                }
                _ => return unsup("offset into computed text"),
            }
        }
        if remaining(&c) {
            // The text ended before the offset: out of range unless what is left adds up to 0.
            let mut least = k;
            let mut open = None;
            for (t, v) in c.iter().enumerate() {
                for (i, &x) in v.iter().enumerate() {
                    if x != 0 {
                        let (mn, _) = self.seg_minmax(t as u8, i);
                        least += x as i64 * mn as i64;
                        if x < 0 {
                            return unsup("slice offset relative to an unrelated length");
                        }
                        open = Some((t as u8, i));
                    }
                }
            }
            if least > 0 {
                return Ok(None);
            }
            // a segment whose length is not fixed (one whose length is fixed is part of `k`)
            let Some((t, i)) = open else {
                return unsup("slice offset relative to an unrelated length");
            };
            let l = self.seg_lang(t, i)?;
            self.readable(t, i)?;
            let (mn, _) = self.seg_minmax(t, i);
            let far = mn + (1 - least) as u32;
            let mut alts: Vec<_> = (mn..far).map(|n| self.with_seg(t, i, lang::inter(l, lang::len_eq(n)))).collect();
            alts.push(self.with_seg(t, i, lang::inter(l, lang::len_ge(far))));
            return self.fork(alts);
        }
        if k > 0 {
            return Ok(None);
        }
        // build the two halves
        let mut left: Vec<Piece> = v[..pi.min(v.len())].to_vec();
        let mut right: Vec<Piece> = vec![];
        if pi < v.len() {
            match &v[pi] {
                Piece::T(t, a, e) => {
                    let i = pos_b.unwrap_or_else(|| self.bidx(*t, *a));
                    let b = self.tapes[*t as usize].b[i];
                    left.push(Piece::T(*t, *a, b));
                    right.push(Piece::T(*t, b, *e));
                }
                Piece::C(b, o, n) => {
                    left.push(Piece::C(b.clone(), *o, pos_c));
                    right.push(Piece::C(b.clone(), o + pos_c, n - pos_c));
                }
                p => right.push(p.clone()),
            }
            right.extend_from_slice(&v[pi + 1..]);
        } else if let Some(Piece::T(t, _, e)) = v.last() {
            right.push(Piece::T(*t, *e, *e));
        }
        if k < 0 {
            // step back -k bytes from here
            let mut lr = Rope::new(left);
            let mut n = -k;
            while n > 0 {
                match self.last_byte(&lr)? {
                    None => return Ok(None),
                    Some((_, rest)) => {
                        // the removed byte moves to the right half
                        let cut = self.rope_tail_after(&lr, &rest);
                        let mut w = cut;
                        w.extend(right);
                        right = w;
                        lr = rest;
                        n -= 1;
                    }
                }
            }
            return Ok(Some((lr, Rope::new(right))));
        }
        Ok(Some((Rope::new(left), Rope::new(right))))
    }
    fn rope_tail_after(&self, full: &Rope, head: &Rope) -> Vec<Piece> {
        // the last byte of `full` that is not in `head`
        match full.0.iter().rev().find(|p| !matches!(p, Piece::T(t, a, b) if self.bidx(*t, *a) == self.bidx(*t, *b))) {
            Some(Piece::C(b, o, n)) => vec![Piece::C(b.clone(), o + n - 1, 1)],
            Some(Piece::T(t, _, e)) => {
                let mut i = self.bidx(*t, *e);
                loop {
                    i -= 1;
                    if !self.is_empty_seg(*t, i) {
                        break;
                    }
                }
                let _ = head;
                vec![Piece::T(*t, self.tapes[*t as usize].b[i], *e)]
            }
            _ => vec![],
        }
    }
    /// Ok(true) when position 0 of `right` is a char boundary (given it follows `left`).
    pub fn at_char_boundary(&self, right: &Rope) -> R<'tcx, bool> {
        for p in right.0.iter() {
            match p {
                Piece::C(b, o, n) => {
                    if *n == 0 {
                        continue;
                    }
                    return Ok((b[*o as usize] & 0xC0) != 0x80);
                }
                Piece::T(t, a, e) => {
                    let (mut i, j) = (self.bidx(*t, *a), self.bidx(*t, *e));
                    while i < j {
                        if self.is_empty_seg(*t, i) {
                            i += 1;
                            continue;
                        }
                        if let Some((c, byte)) = &self.seg(*t, i).ch {
                            if !*byte {
                                return Ok(true);
                            }
                            let cont = lang::cs_inter(c, &[(0x80, 0xBF)]);
                            if cont.is_empty() {
                                return Ok(true);
                            }
                            let non = lang::cs_inter(c, &[(0, 0x7F), (0xC0, 0xFF)]);
                            if non.is_empty() {
                                return Ok(false);
                            }
                            return self.fork(vec![self.with_ch(*t, i, cont), self.with_ch(*t, i, non)]);
                        }
                        if self.seg(*t, i).is_open() {
                            // an opened segment always consists of whole characters only if it
                            // was consumed as such; require its language
                            let l = self.seg_lang(*t, i)?;
                            let cont = lang::inter(l, cont_start());
                            if cont == lang::empty() && !lang::accepts_eps(l) {
                                return Ok(true);
                            }
                        }
                        let l = self.seg_lang(*t, i)?;
                        let cont = lang::inter(l, cont_start());
                        let eps = lang::accepts_eps(l);
                        if cont == lang::empty() && !eps {
                            return Ok(true);
                        }
                        if cont == lang::empty() {
                            // empty or starting with a boundary: look at what follows only when empty
                            // (splitting is avoided if everything after is fine too)
                            i += 1;
                            continue;
                        }
                        if cont == l {
                            return Ok(false);
                        }
                        self.readable(*t, i)?;
                        return self.fork(vec![self.with_seg(*t, i, cont), self.with_seg(*t, i, lang::diff(l, cont))]);
                    }
                }
                Piece::Ch(..) => return Ok(true),
                Piece::By(t, b, m) => {
                    let ascii = |l: &Val<'tcx>| match l {
                        Val::C(c, _) => Some(*c < 128),
                        Val::Map(_, _, m, _) => m.iter().try_fold(true, |a, &(_, hi, v)| match v {
                            MV::C(c) => Some(a && c < 128),
                            MV::Lin(k) if (hi as i64 + k) < 128 => Some(a),
                            _ => None,
                        }),
                        _ => None,
                    };
                    match ascii(&self.norm_map(*t, *b, m, 1)) {
                        Some(true) => return Ok(true),
                        _ => return unsup("char boundary in computed bytes"),
                    }
                }
                Piece::Out => return unsup("reading streamed output"),
                Piece::Any | Piece::AnyChar => return Ok(true),
            }
        }
        Ok(true)
    }
    /// Finds the first byte in `set` (ASCII byte set language). None = not found.
    /// Returns (before, from) ropes.
    pub fn find_first(&self, r: &Rope, set: L) -> R<'tcx, Option<(Rope, Rope)>> {
        let v = &r.0;
        for (pi, p) in v.iter().enumerate() {
            match p {
                Piece::C(b, o, n) => {
                    for x in 0..*n {
                        if lang::contains(set, &[b[(o + x) as usize] as u16]) {
                            let mut l = v[..pi].to_vec();
                            l.push(Piece::C(b.clone(), *o, x));
                            let mut rr = vec![Piece::C(b.clone(), o + x, n - x)];
                            rr.extend_from_slice(&v[pi + 1..]);
                            return Ok(Some((Rope::new(l), Rope::new(rr))));
                        }
                    }
                }
                Piece::T(t, a, e) => {
                    let (i0, j) = (self.bidx(*t, *a), self.bidx(*t, *e));
                    for i in i0..j {
                        let l = self.seg_lang(*t, i)?;
                        let no = lang::without(l, set);
                        if no == l {
                            continue;
                        }
                        // starts with a set byte?
                        let st = lang::inter(l, lang::concat(set, lang::all_bytes()));
                        if st == l {
                            let b = self.tapes[*t as usize].b[i];
                            let mut lft = v[..pi].to_vec();
                            lft.push(Piece::T(*t, *a, b));
                            let mut rr = vec![Piece::T(*t, b, *e)];
                            rr.extend_from_slice(&v[pi + 1..]);
                            return Ok(Some((Rope::new(lft), Rope::new(rr))));
                        }
                        self.readable(*t, i)?;
                        if let Some((c, byte)) = self.seg(*t, i).ch.clone() {
                            let mut hit: Vec<(u32, u32)> = (0..128u32).filter(|x| lang::contains(set, &[*x as u16])).map(|x| (x, x)).collect();
                            if !lang::subset(set, lang::syms(vec![(0, 255)])) {
                                hit.clear();
                                c.iter().for_each(|r| lang::chars_in(set, r.0, r.1, &mut hit));
                            }
                            let hit = lang::cs(hit);
                            let _ = byte;
                            return self.fork(vec![
                                self.with_ch(*t, i, lang::cs_inter(&c, &hit)),
                                self.with_ch(*t, i, lang::cs_inter(&c, &lang::cs_compl(&hit))),
                            ]);
                        }
                        let mut alts = vec![];
                        if no != lang::empty() {
                            alts.push(self.with_seg(*t, i, no));
                        }
                        for (x, y) in lang::split_first(l, set).iter() {
                            if *x == lang::eps() {
                                alts.push(self.with_seg(*t, i, *y));
                            } else {
                                alts.push(self.with_split(*t, i, &[(*x, None), (*y, None)]));
                            }
                        }
                        return self.fork(alts);
                    }
                }
                _ => return unsup("searching computed text"),
            }
        }
        Ok(None)
    }
    pub fn find_last(&self, r: &Rope, set: L) -> R<'tcx, Option<(Rope, Rope)>> {
        let v = &r.0;
        for (pi, p) in v.iter().enumerate().rev() {
            match p {
                Piece::C(b, o, n) => {
                    for x in (0..*n).rev() {
                        if lang::contains(set, &[b[(o + x) as usize] as u16]) {
                            let mut l = v[..pi].to_vec();
                            l.push(Piece::C(b.clone(), *o, x));
                            let mut rr = vec![Piece::C(b.clone(), o + x, n - x)];
                            rr.extend_from_slice(&v[pi + 1..]);
                            return Ok(Some((Rope::new(l), Rope::new(rr))));
                        }
                    }
                }
                Piece::T(t, a, e) => {
                    let (i0, j) = (self.bidx(*t, *a), self.bidx(*t, *e));
                    for i in (i0..j).rev() {
                        let l = self.seg_lang(*t, i)?;
                        let no = lang::without(l, set);
                        if no == l {
                            continue;
                        }
                        let nots = lang::star(lang::others(set));
                        let st = lang::inter(l, lang::concat(set, nots));
                        if st == l {
                            let b = self.tapes[*t as usize].b[i];
                            let mut lft = v[..pi].to_vec();
                            lft.push(Piece::T(*t, *a, b));
                            let mut rr = vec![Piece::T(*t, b, *e)];
                            rr.extend_from_slice(&v[pi + 1..]);
                            return Ok(Some((Rope::new(lft), Rope::new(rr))));
                        }
                        self.readable(*t, i)?;
                        if let Some((c, _)) = self.seg(*t, i).ch.clone() {
                            let mut hit: Vec<(u32, u32)> = (0..128u32).filter(|x| lang::contains(set, &[*x as u16])).map(|x| (x, x)).collect();
                            if !lang::subset(set, lang::syms(vec![(0, 255)])) {
                                hit.clear();
                                c.iter().for_each(|r| lang::chars_in(set, r.0, r.1, &mut hit));
                            }
                            let hit = lang::cs(hit);
                            return self.fork(vec![
                                self.with_ch(*t, i, lang::cs_inter(&c, &hit)),
                                self.with_ch(*t, i, lang::cs_inter(&c, &lang::cs_compl(&hit))),
                            ]);
                        }
                        let mut alts = vec![];
                        if no != lang::empty() {
                            alts.push(self.with_seg(*t, i, no));
                        }
                        for (x, y) in lang::split_last(l, set).iter() {
                            if *x == lang::eps() {
                                alts.push(self.with_seg(*t, i, *y));
                            } else {
                                alts.push(self.with_split(*t, i, &[(*x, None), (*y, None)]));
                            }
                        }
                        return self.fork(alts);
                    }
                }
                _ => return unsup("searching computed text"),
            }
        }
        Ok(None)
    }
    /// Which of the (disjoint, together exhaustive) languages the text belongs to; forks when the
    /// text is not confined to one of them. None: too many pieces to decide.
    pub fn classify(&self, r: &Rope, ls: &[L]) -> R<'tcx, Option<usize>> {
        let ds: Vec<_> = ls.iter().map(|l| lang::dfa(*l)).collect();
        let mut q: Vec<u32> = vec![0; ls.len()];
        let mut segs: Vec<(Option<(u8, usize)>, L)> = vec![];
        for p in r.0.iter() {
            match p {
                Piece::C(b, o, n) => segs.push((None, lang::bytes(&b[*o as usize..(*o + *n) as usize]))),
                Piece::T(t, a, e) => {
                    for i in self.bidx(*t, *a)..self.bidx(*t, *e) {
                        segs.push((Some((*t, i)), self.seg_lang(*t, i)?));
                    }
                }
                _ => return Ok(None),
            }
        }
        let live: Vec<usize> = (0..segs.len()).filter(|&i| segs[i].1 != lang::eps()).collect();
        for (n, &i) in live.iter().enumerate() {
            let l = segs[i].1;
            let last = n + 1 == live.len();
            // product of the outcome automata over the words of l
            let mut alts: Vec<(L, Vec<u32>)> = vec![];
            if last {
                for k in 0..ls.len() {
                    let x = lang::inter(l, lang::from_state(ls[k], q[k]));
                    if x != lang::empty() {
                        alts.push((x, vec![k as u32]));
                    }
                }
            } else if let Some(w) = lang::singleton(l) {
                for k in 0..ls.len() {
                    for &s in &w {
                        q[k] = ds[k].step(q[k], s);
                    }
                }
                continue;
            } else {
                alts.push((l, vec![]));
                for k in 0..ls.len() {
                    let mut nx = vec![];
                    for (m, v) in alts {
                        let sub = lang::from_state(ls[k], q[k]);
                        let d = lang::dfa(sub);
                        for e in 0..d.n() as u32 {
                            let x = lang::inter(m, lang::to_state(sub, e));
                            if x != lang::empty() {
                                // state of the original automaton: run the shortest word
                                let mut s = q[k];
                                for c in lang::shortest(x).unwrap() {
                                    s = ds[k].step(s, c);
                                }
                                let mut v = v.clone();
                                v.push(s);
                                nx.push((x, v));
                            }
                        }
                    }
                    alts = nx;
                    if alts.len() > 24 {
                        return Ok(None);
                    }
                }
            }
            if alts.len() == 1 {
                if last {
                    return Ok(Some(alts[0].1[0] as usize));
                }
                q = alts[0].1.clone();
                continue;
            }
            let (t, j) = match segs[i].0 {
                Some(x) => x,
                None => return Ok(None),
            };
            if self.seg(t, j).tagged {
                return Ok(None);
            }
            let ch = self.seg(t, j).ch.clone();
            let mut out = vec![];
            for (x, _) in alts {
                match &ch {
                    None => out.push(self.with_seg(t, j, x)),
                    Some((_, byte)) => {
                        let c = if *byte { bytes_of(x) } else { chars_of(x) };
                        out.push(self.with_ch(t, j, (*c).clone()));
                    }
                }
            }
            return self.fork(out);
        }
        // empty text
        for k in 0..ls.len() {
            if ds[k].acc[q[k] as usize] {
                return Ok(Some(k));
            }
        }
        Ok(None)
    }
    /// Whole-rope language test: Ok(true) if every possible content is in `l`, Ok(false) if none;
    /// forks otherwise. Only for ropes with a single segment or after per-segment splitting.
    pub fn rope_in(&self, r: &Rope, set: L) -> R<'tcx, bool> {
        // "all bytes in set*" test
        for p in r.0.iter() {
            match p {
                Piece::C(b, o, n) => {
                    for x in 0..*n {
                        if !lang::contains(set, &[b[(o + x) as usize] as u16]) {
                            return Ok(false);
                        }
                    }
                }
                Piece::T(t, a, e) => {
                    let (i0, j) = (self.bidx(*t, *a), self.bidx(*t, *e));
                    let st = lang::star(set);
                    for i in i0..j {
                        let l = self.seg_lang(*t, i)?;
                        let y = lang::inter(l, st);
                        if y == l {
                            continue;
                        }
                        if y == lang::empty() {
                            return Ok(false);
                        }
                        if let Some((c, byte)) = self.seg(*t, i).ch.clone() {
                            let mut hit: Vec<(u32, u32)> = (0..128u32).filter(|x| lang::contains(set, &[*x as u16])).map(|x| (x, x)).collect();
                            if !lang::subset(set, lang::syms(vec![(0, 255)])) {
                                hit.clear();
                                c.iter().for_each(|r| lang::chars_in(set, r.0, r.1, &mut hit));
                            }
                            let _ = byte;
                            return self.fork(vec![
                                self.with_ch(*t, i, lang::cs_inter(&c, &lang::cs(hit.clone()))),
                                self.with_ch(*t, i, lang::cs_inter(&c, &lang::cs_compl(&lang::cs(hit)))),
                            ]);
                        }
                        self.readable(*t, i)?;
                        return self.fork(vec![self.with_seg(*t, i, y), self.with_seg(*t, i, lang::diff(l, y))]);
                    }
                }
                _ => return unsup("class test on computed text"),
            }
        }
        Ok(true)
    }
}
fn tail_rope(v: Vec<Piece>, t: u8, e: BId) -> Rope {
    let _ = (t, e);
    Rope::new(v)
}
pub fn cont_start() -> L {
    lang::concat(lang::syms(vec![(0x80, 0xBF)]), lang::all_bytes())
}
pub fn u8len(c: u32) -> u32 {
    if c < 0x80 {
        1
    } else if c < 0x800 {
        2
    } else if c < 0x10000 {
        3
    } else {
        4
    }
}
pub fn decode(s: &[u8]) -> Option<(u32, u32)> {
    let st = match std::str::from_utf8(s) {
        Ok(x) => x,
        Err(e) => std::str::from_utf8(&s[..e.valid_up_to()]).ok()?,
    };
    let c = st.chars().next()?;
    Some((c as u32, c.len_utf8() as u32))
}
pub fn bytes_of(l: L) -> CSet {
    lang::cs((0..256u32).filter(|x| lang::contains(l, &[*x as u16])).map(|x| (x, x)).collect())
}
/// The characters of a language of single-character words.
pub fn chars_of(l: L) -> CSet {
    let mut v = vec![];
    for (c, rest) in lang::first_chars(l).iter() {
        if lang::accepts_eps(*rest) {
            v.extend(c.iter().cloned());
        }
    }
    lang::cs(v)
}
pub fn first_bytes(l: L) -> Vec<(CSet, L)> {
    let d = lang::dfa(l);
    let mut by: std::collections::BTreeMap<(L, bool), Vec<(u32, u32)>> = Default::default();
    for b in 0..256u32 {
        let q = d.step(0, b as u16);
        if q == d.dead {
            continue;
        }
        let r = lang::from_state(l, q);
        if r == lang::empty() {
            continue;
        }
        by.entry((r, b < 128)).or_default().push((b, b));
    }
    by.into_iter().map(|((r, _), s)| (lang::cs(s), r)).collect()
}
pub fn map_apply(m: &[(u32, u32, MV)], f: impl Fn(u32, u32, MV) -> Vec<(u32, u32, MV)>) -> Vec<(u32, u32, MV)> {
    let mut r = vec![];
    for &(a, b, v) in m {
        r.extend(f(a, b, v));
    }
    norm_pm(r)
}
pub fn norm_pm(mut r: Vec<(u32, u32, MV)>) -> Vec<(u32, u32, MV)> {
    r.sort();
    let mut o: Vec<(u32, u32, MV)> = vec![];
    for (a, b, v) in r {
        if let Some(l) = o.last_mut() {
            if l.2 == v && l.1 + 1 == a {
                l.1 = b;
                continue;
            }
        }
        o.push((a, b, v));
    }
    o
}
pub fn restrict(m: &[(u32, u32, MV)], set: &[(u32, u32)]) -> Vec<(u32, u32, MV)> {
    let mut r = vec![];
    let (mut i, mut j) = (0, 0);
    while i < m.len() && j < set.len() {
        let lo = m[i].0.max(set[j].0);
        let hi = m[i].1.min(set[j].1);
        if lo <= hi {
            let v = m[i].2;
            let v = match v {
                MV::Lin(k) if lo == hi => MV::C((lo as i64 + k) as u128),
                v => v,
            };
            r.push((lo, hi, v));
        }
        if m[i].1 < set[j].1 {
            i += 1;
        } else {
            j += 1;
        }
    }
    norm_pm(r)
}
pub fn const_of(m: &[(u32, u32, MV)], sz: u8) -> Option<u128> {
    let mut c = None;
    for &(_, _, v) in m {
        match v {
            MV::C(x) => {
                let x = trunc(x, sz);
                if c.is_some() && c != Some(x) {
                    return None;
                }
                c = Some(x);
            }
            _ => return None,
        }
    }
    c
}
