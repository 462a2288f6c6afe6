//! Regular languages over tagged bytes: interned minimal complete DFAs.
//!
//! Symbols 0..=255 are plain input bytes.  256..=511 are input bytes which are
//! also copied to the output, 512..=767 are output-only (inserted) bytes, and
//! 768.. are markers (piece boundaries in result words).
use std::cell::RefCell;
use rustc_data_structures::fx::FxHashMap as HashMap;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub const NSYM: usize = 256 * 3 + 32;
pub const K: u16 = 256;
pub const O: u16 = 512;
pub const MARK: u16 = 768;
pub type L = u32; // language id

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Dfa {
    pub ncls: usize,
    pub cls: Rc<Vec<u16>>, // NSYM -> class
    pub trans: Vec<u32>,   // n * ncls
    pub acc: Vec<bool>,
    pub dead: u32, // index of dead state or u32::MAX
}
impl Dfa {
    pub fn n(&self) -> usize {
        self.acc.len()
    }
    #[inline]
    pub fn step(&self, q: u32, sym: u16) -> u32 {
        self.trans[q as usize * self.ncls + self.cls[sym as usize] as usize]
    }
    fn reps(&self) -> Vec<u16> {
        let mut r = vec![u16::MAX; self.ncls];
        for s in (0..NSYM).rev() {
            r[self.cls[s] as usize] = s as u16;
        }
        r
    }
}

pub type CSet = Rc<Vec<(u32, u32)>>;
pub type SymSet = Vec<(u16, u16)>;

#[derive(Default)]
struct Ctx {
    dfas: Vec<Rc<Dfa>>,
    intern: HashMap<Rc<Dfa>, L>,
    bin: HashMap<(u8, L, L), L>,
    un: HashMap<(u8, L, u32), L>,
    firstchars: HashMap<L, Rc<Vec<(CSet, L)>>>,
    lastchars: HashMap<L, Rc<Vec<(CSet, L)>>>,
    split: HashMap<(u8, L, L), Rc<Vec<(L, L)>>>,
    csl: HashMap<CSet, L>,
    minmax: HashMap<L, (u32, Option<u32>)>,
}
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

pub fn dfa(l: L) -> Rc<Dfa> {
    CTX.with(|c| c.borrow().dfas[l as usize].clone())
}

thread_local! { static DEADLINE: std::cell::Cell<(u32, Option<std::time::Instant>)> = const { std::cell::Cell::new((0, None)) }; }
pub fn set_deadline(t: Option<std::time::Instant>) {
    DEADLINE.with(|d| d.set((0, t)));
}
fn tick() {
    DEADLINE.with(|d| {
        let (n, t) = d.get();
        d.set((n.wrapping_add(1), t));
        if n % 256 == 0 && t.map_or(false, |t| std::time::Instant::now() > t) {
            panic!("VP: time limit in automaton construction");
        }
    })
}
/// A nondeterministic automaton under construction.
#[derive(Default, Clone)]
pub struct Nfa {
    pub eps: Vec<Vec<usize>>,
    pub tr: Vec<Vec<(SymSet, usize)>>,
    /// embedded DFAs: (state, embedded dfa, to): from `state` read a word of dfa, end in `to`
    pub acc: Vec<bool>,
    pub starts: Vec<usize>,
}
impl Nfa {
    pub fn state(&mut self) -> usize {
        self.eps.push(vec![]);
        self.tr.push(vec![]);
        self.acc.push(false);
        self.acc.len() - 1
    }
    pub fn start(&mut self, a: usize) {
        self.starts.push(a);
    }
    pub fn accept(&mut self, a: usize) {
        self.acc[a] = true;
    }
    pub fn sym(&mut self, a: usize, s: SymSet, b: usize) {
        self.tr[a].push((s, b));
    }
    pub fn eps(&mut self, a: usize, b: usize) {
        self.eps[a].push(b);
    }
    /// Adds a path from `a` to `b` spelled by words of `l`.
    pub fn lang(&mut self, a: usize, l: L, b: usize) {
        if l == empty() {
            return;
        }
        if l == eps() {
            self.eps(a, b);
            return;
        }
        let d = dfa(l);
        let n = d.n();
        let ids: Vec<usize> = (0..n).map(|q| if q as u32 == d.dead { usize::MAX } else { self.state() }).collect();
        let sets = class_sets(&d);
        for q in 0..n {
            if ids[q] == usize::MAX {
                continue;
            }
            let mut by: BTreeMap<u32, SymSet> = BTreeMap::new();
            for c in 0..d.ncls {
                let t = d.trans[q * d.ncls + c];
                if t == d.dead {
                    continue;
                }
                by.entry(t).or_default().extend(sets[c].iter().cloned());
            }
            for (t, s) in by {
                self.sym(ids[q], norm_syms(s), ids[t as usize]);
            }
            if d.acc[q] {
                self.eps(ids[q], b);
            }
        }
        self.eps(a, ids[0]);
    }
    fn closure(&self, set: &mut Vec<usize>, stamp: &mut Vec<u32>, now: &mut u32) {
        stamp.resize(self.eps.len(), 0);
        *now += 1;
        let n = *now;
        let mut i = 0;
        set.retain(|&q| {
            let new = stamp[q] != n;
            stamp[q] = n;
            new
        });
        while i < set.len() {
            let q = set[i];
            for &r in &self.eps[q] {
                if stamp[r] != n {
                    stamp[r] = n;
                    set.push(r);
                }
            }
            i += 1;
        }
        // states that only pass on do not matter
        set.retain(|&q| !self.tr[q].is_empty() || self.acc[q]);
        set.sort_unstable();
    }
    pub fn determinize(&self) -> L {
        let (d, order) = self.subsets();
        let acc: Vec<bool> = order.iter().map(|s| s.iter().any(|&q| self.acc[q])).collect();
        finish(Dfa { acc, ..d })
    }
    /// One language for each of the given accepting states.
    pub fn determinize_many(&self, accs: &[usize]) -> Vec<L> {
        let mut n = self.clone();
        for &a in accs {
            n.acc[a] = true;
        }
        let (d, order) = n.subsets();
        accs.iter().map(|a| finish(Dfa { acc: order.iter().map(|s| s.binary_search(a).is_ok()).collect(), trans: d.trans.clone(), cls: d.cls.clone(), ..d })).collect()
    }
    fn subsets(&self) -> (Dfa, Vec<Vec<usize>>) {
        // symbol classes
        let mut cuts = vec![false; NSYM + 1];
        cuts[0] = true;
        for v in &self.tr {
            for (s, _) in v {
                for &(a, b) in s {
                    cuts[a as usize] = true;
                    cuts[b as usize + 1] = true;
                }
            }
        }
        // interval ids
        let mut iv = vec![0u16; NSYM];
        let mut reps = vec![];
        let mut cur = 0u16;
        for s in 0..NSYM {
            if cuts[s] && s > 0 {
                cur += 1;
            }
            if reps.len() == cur as usize {
                reps.push(s as u16);
            }
            iv[s] = cur;
        }
        let nc = reps.len();
        let mut idx: HashMap<Vec<usize>, u32> = HashMap::default();
        let mut order: Vec<Vec<usize>> = vec![];
        let mut s0 = self.starts.clone();
        let (mut stamp, mut now) = (vec![], 0u32);
        self.closure(&mut s0, &mut stamp, &mut now);
        idx.insert(s0.clone(), 0);
        order.push(s0);
        let mut trans: Vec<u32> = vec![];
        let mut i = 0;
        while i < order.len() {
            tick();
            let set = order[i].clone();
            let mut tg: Vec<Vec<usize>> = vec![vec![]; nc];
            for &q in &set {
                for (s, t) in &self.tr[q] {
                    for &(a, b) in s {
                        let ca = iv[a as usize] as usize;
                        let cb = iv[b as usize] as usize;
                        for c in ca..=cb {
                            tg[c].push(*t);
                        }
                    }
                }
            }
            let mut memo: HashMap<Vec<usize>, u32> = HashMap::default();
            for c in 0..nc {
                let mut v = std::mem::take(&mut tg[c]);
                v.sort_unstable();
                v.dedup();
                let id = match memo.get(&v) {
                    Some(&x) => x,
                    None => {
                        let mut w = v.clone();
                        self.closure(&mut w, &mut stamp, &mut now);
                        let id = match idx.get(&w) {
                            Some(&x) => x,
                            None => {
                                let x = order.len() as u32;
                                idx.insert(w.clone(), x);
                                order.push(w);
                                x
                            }
                        };
                        memo.insert(v, id);
                        id
                    }
                };
                trans.push(id);
            }
            i += 1;
            if order.len() > 60000 {
                panic!("VP: automaton too large");
            }
        }
        (Dfa { ncls: nc, cls: Rc::new(iv), trans, acc: vec![], dead: u32::MAX }, order)
    }
}

fn norm_syms(mut s: SymSet) -> SymSet {
    s.sort();
    let mut r: SymSet = vec![];
    for (a, b) in s {
        if let Some(l) = r.last_mut() {
            if a as u32 <= l.1 as u32 + 1 {
                if b > l.1 {
                    l.1 = b;
                }
                continue;
            }
        }
        r.push((a, b));
    }
    r
}
fn class_sets(d: &Dfa) -> Vec<SymSet> {
    let mut v: Vec<SymSet> = vec![vec![]; d.ncls];
    let mut s = 0usize;
    while s < NSYM {
        let c = d.cls[s];
        let mut e = s;
        while e + 1 < NSYM && d.cls[e + 1] == c {
            e += 1;
        }
        v[c as usize].push((s as u16, e as u16));
        s = e + 1;
    }
    v
}

/// A partition of 0..n refined in place (Valmari and Lehtinen).
struct Parts {
    elems: Vec<u32>,
    loc: Vec<u32>,
    set: Vec<u32>,
    first: Vec<u32>,
    past: Vec<u32>,
    marked: Vec<u32>,
    touched: Vec<u32>,
}
impl Parts {
    fn new(n: usize) -> Parts {
        Parts { elems: (0..n as u32).collect(), loc: (0..n as u32).collect(), set: vec![0; n], first: vec![0], past: vec![n as u32], marked: vec![0], touched: vec![] }
    }
    fn mark(&mut self, e: u32) {
        let s = self.set[e as usize] as usize;
        let i = self.loc[e as usize];
        let j = self.first[s] + self.marked[s];
        if i < j {
            return;
        }
        self.elems.swap(i as usize, j as usize);
        self.loc[self.elems[i as usize] as usize] = i;
        self.loc[e as usize] = j;
        if self.marked[s] == 0 {
            self.touched.push(s as u32);
        }
        self.marked[s] += 1;
    }
    fn split(&mut self) {
        while let Some(s) = self.touched.pop() {
            let s = s as usize;
            let j = self.first[s] + self.marked[s];
            if j == self.past[s] {
                self.marked[s] = 0;
                continue;
            }
            let z = self.first.len();
            if self.marked[s] <= self.past[s] - j {
                self.first.push(self.first[s]);
                self.past.push(j);
                self.first[s] = j;
            } else {
                self.past.push(self.past[s]);
                self.first.push(j);
                self.past[s] = j;
            }
            self.marked.push(0);
            self.marked[s] = 0;
            for i in self.first[z]..self.past[z] {
                self.set[self.elems[i as usize] as usize] = z as u32;
            }
        }
    }
}
/// The coarsest partition of the states that respects acceptance and transitions.
fn refine(d: &Dfa) -> (Vec<u32>, usize) {
    let n = d.n();
    let nc = d.ncls;
    // states that can accept
    let mut rdeg = vec![0u32; n + 1];
    for q in 0..n {
        for c in 0..nc {
            rdeg[d.trans[q * nc + c] as usize + 1] += 1;
        }
    }
    for i in 0..n {
        rdeg[i + 1] += rdeg[i];
    }
    let mut pos = rdeg.clone();
    let mut rev = vec![0u32; n * nc];
    for q in 0..n {
        for c in 0..nc {
            let t = d.trans[q * nc + c] as usize;
            rev[pos[t] as usize] = q as u32;
            pos[t] += 1;
        }
    }
    let mut prod = vec![false; n];
    let mut st: Vec<u32> = vec![];
    for q in 0..n {
        if d.acc[q] {
            prod[q] = true;
            st.push(q as u32);
        }
    }
    while let Some(q) = st.pop() {
        for &r in &rev[rdeg[q as usize] as usize..rdeg[q as usize + 1] as usize] {
            if !prod[r as usize] {
                prod[r as usize] = true;
                st.push(r);
            }
        }
    }
    // live transitions, by class
    let mut tt: Vec<u32> = vec![];
    let mut th: Vec<u32> = vec![];
    let mut tc: Vec<u32> = vec![];
    for c in 0..nc {
        for q in 0..n {
            let t = d.trans[q * nc + c];
            if prod[q] && prod[t as usize] {
                tt.push(q as u32);
                th.push(t);
                tc.push(c as u32);
            }
        }
    }
    let m = tt.len();
    let mut b = Parts::new(n);
    for q in 0..n {
        if !prod[q] {
            b.mark(q as u32);
        }
    }
    b.split();
    for q in 0..n {
        if d.acc[q] {
            b.mark(q as u32);
        }
    }
    b.split();
    // cords: transitions of one class
    let mut cords = Parts::new(m);
    if m > 0 {
        let mut z = 0usize;
        cords.first.clear();
        cords.past.clear();
        cords.marked.clear();
        let mut i = 0;
        while i < m {
            let mut j = i;
            while j < m && tc[j] == tc[i] {
                cords.set[j] = z as u32;
                j += 1;
            }
            cords.first.push(i as u32);
            cords.past.push(j as u32);
            cords.marked.push(0);
            z += 1;
            i = j;
        }
    }
    // incoming transitions of each state
    let mut ideg = vec![0u32; n + 1];
    for &h in &th {
        ideg[h as usize + 1] += 1;
    }
    for i in 0..n {
        ideg[i + 1] += ideg[i];
    }
    let mut pos = ideg.clone();
    let mut inc = vec![0u32; m];
    for (i, &h) in th.iter().enumerate() {
        inc[pos[h as usize] as usize] = i as u32;
        pos[h as usize] += 1;
    }
    // every block but one initial one has been, or is, a splitter; simply use them all
    let mut bi = 0usize;
    let mut ci = 0usize;
    if m > 0 {
        loop {
            if ci < cords.first.len() {
                for i in cords.first[ci]..cords.past[ci] {
                    b.mark(tt[cords.elems[i as usize] as usize]);
                }
                b.split();
                ci += 1;
                continue;
            }
            if bi < b.first.len() {
                for i in b.first[bi]..b.past[bi] {
                    let q = b.elems[i as usize] as usize;
                    for &x in &inc[ideg[q] as usize..ideg[q + 1] as usize] {
                        cords.mark(x);
                    }
                }
                cords.split();
                bi += 1;
                continue;
            }
            break;
        }
    }
    // blocks in order of their first state
    let mut ren = vec![u32::MAX; b.first.len()];
    let mut np = 0;
    let mut part = vec![0u32; n];
    for q in 0..n {
        let s = b.set[q] as usize;
        if ren[s] == u32::MAX {
            ren[s] = np;
            np += 1;
        }
        part[q] = ren[s];
    }
    (part, np as usize)
}
/// Minimises, canonicalises and interns.
fn finish(d: Dfa) -> L {
    let n = d.n();
    let nc = d.ncls;
    let (part, np) = refine(&d);
    // reduced machine
    let mut rep = vec![usize::MAX; np];
    for q in 0..n {
        if rep[part[q] as usize] == usize::MAX {
            rep[part[q] as usize] = q;
        }
    }
    // merge classes with identical columns
    let mut colmap: HashMap<Vec<u32>, u16> = HashMap::default();
    let mut cmap = vec![u16::MAX; nc];
    let mut newcls = vec![0u16; NSYM];
    let mut cols: Vec<Vec<u32>> = vec![];
    for s in 0..NSYM {
        let c = d.cls[s] as usize;
        if cmap[c] == u16::MAX {
            let col: Vec<u32> = (0..np).map(|p| part[d.trans[rep[p] * nc + c] as usize]).collect();
            let l = cols.len() as u16;
            let id = *colmap.entry(col.clone()).or_insert(l);
            if id == l {
                cols.push(col);
            }
            cmap[c] = id;
        }
        newcls[s] = cmap[c];
    }
    let ncl = cols.len();
    // BFS numbering
    let mut num = vec![u32::MAX; np];
    let mut order = vec![];
    let s0 = part[0] as usize;
    num[s0] = 0;
    order.push(s0);
    let mut i = 0;
    while i < order.len() {
        let q = order[i];
        for c in 0..ncl {
            let t = cols[c][q] as usize;
            if num[t] == u32::MAX {
                num[t] = order.len() as u32;
                order.push(t);
            }
        }
        i += 1;
    }
    let m = order.len();
    let mut trans = vec![0u32; m * ncl];
    let mut acc = vec![false; m];
    let mut dead = u32::MAX;
    for (i, &q) in order.iter().enumerate() {
        let mut all = true;
        for c in 0..ncl {
            let t = num[cols[c][q] as usize];
            trans[i * ncl + c] = t;
            if t != i as u32 {
                all = false;
            }
        }
        acc[i] = d.acc[rep[q]];
        if all && !acc[i] {
            dead = i as u32;
        }
    }
    let r = Rc::new(Dfa { ncls: ncl, cls: Rc::new(newcls), trans, acc, dead });
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(&l) = c.intern.get(&r) {
            return l;
        }
        let l = c.dfas.len() as L;
        c.dfas.push(r.clone());
        c.intern.insert(r, l);
        l
    })
}

pub fn empty() -> L {
    thread_local! { static X: L = { let mut n=Nfa::default(); let s=n.state(); n.starts=vec![s]; n.determinize() } }
    X.with(|x| *x)
}
pub fn eps() -> L {
    thread_local! { static X: L = { empty(); let mut n=Nfa::default(); let s=n.state(); n.starts=vec![s]; n.acc[s]=true; n.determinize() } }
    X.with(|x| *x)
}
/// All words over plain input bytes.
pub fn all_bytes() -> L {
    thread_local! { static X: L = star(syms(vec![(0,255)])) }
    X.with(|x| *x)
}
/// All well-formed UTF-8.
pub fn utf8() -> L {
    thread_local! { static X: L = star(cset_lang(&Rc::new(vec![(0,0xD7FF),(0xE000,0x10FFFF)]))) }
    X.with(|x| *x)
}
pub fn syms(s: SymSet) -> L {
    let s = norm_syms(s);
    let mut n = Nfa::default();
    let a = n.state();
    let b = n.state();
    n.sym(a, s, b);
    n.acc[b] = true;
    n.starts = vec![a];
    n.determinize()
}
pub fn word(w: &[u16]) -> L {
    let mut n = Nfa::default();
    let mut a = n.state();
    n.starts = vec![a];
    for &c in w {
        let b = n.state();
        n.sym(a, vec![(c, c)], b);
        a = b;
    }
    n.acc[a] = true;
    n.determinize()
}
pub fn bytes(w: &[u8]) -> L {
    word(&w.iter().map(|&b| b as u16).collect::<Vec<_>>())
}

fn memo_bin(op: u8, a: L, b: L, f: impl FnOnce() -> L) -> L {
    if let Some(x) = CTX.with(|c| c.borrow().bin.get(&(op, a, b)).cloned()) {
        return x;
    }
    let r = f();
    CTX.with(|c| c.borrow_mut().bin.insert((op, a, b), r));
    r
}
pub fn memo_un(op: u8, a: L, k: u32, f: impl FnOnce() -> L) -> L {
    if let Some(x) = CTX.with(|c| c.borrow().un.get(&(op, a, k)).cloned()) {
        return x;
    }
    let r = f();
    CTX.with(|c| c.borrow_mut().un.insert((op, a, k), r));
    r
}

fn product(a: L, b: L, f: fn(bool, bool) -> bool) -> L {
    let (da, db) = (dfa(a), dfa(b));
    let mut pm: HashMap<(u16, u16), u16> = HashMap::default();
    let mut pairs = vec![];
    let mut cls = vec![0u16; NSYM];
    for s in 0..NSYM {
        let k = (da.cls[s], db.cls[s]);
        let l = pairs.len() as u16;
        let id = *pm.entry(k).or_insert(l);
        if id == l {
            pairs.push(k);
        }
        cls[s] = id;
    }
    let nc = pairs.len();
    let mut idx: HashMap<(u32, u32), u32> = HashMap::default();
    let mut order = vec![(0u32, 0u32)];
    idx.insert((0, 0), 0);
    let mut trans = vec![];
    let mut i = 0;
    while i < order.len() {
        tick();
        if order.len() > 1_000_000 {
            panic!("VP: automaton too large");
        }
        let (p, q) = order[i];
        for &(ca, cb) in &pairs {
            let t = (da.trans[p as usize * da.ncls + ca as usize], db.trans[q as usize * db.ncls + cb as usize]);
            let l = order.len() as u32;
            let id = *idx.entry(t).or_insert(l);
            if id == l {
                order.push(t);
            }
            trans.push(id);
        }
        i += 1;
    }
    let acc = order.iter().map(|&(p, q)| f(da.acc[p as usize], db.acc[q as usize])).collect();
    finish(Dfa { ncls: nc, cls: Rc::new(cls), trans, acc, dead: u32::MAX })
}
pub fn inter(a: L, b: L) -> L {
    if a == b {
        return a;
    }
    if a == empty() || b == empty() {
        return empty();
    }
    let (a, b) = (a.min(b), a.max(b));
    memo_bin(0, a, b, || product(a, b, |x, y| x && y))
}
pub fn union(a: L, b: L) -> L {
    if a == b || b == empty() {
        return a;
    }
    if a == empty() {
        return b;
    }
    let (a, b) = (a.min(b), a.max(b));
    memo_bin(1, a, b, || product(a, b, |x, y| x || y))
}
pub fn diff(a: L, b: L) -> L {
    if a == b {
        return empty();
    }
    if b == empty() {
        return a;
    }
    memo_bin(2, a, b, || product(a, b, |x, y| x && !y))
}
pub fn subset(a: L, b: L) -> bool {
    a == b || diff(a, b) == empty()
}
pub fn concat(a: L, b: L) -> L {
    if a == empty() || b == empty() {
        return empty();
    }
    if a == eps() {
        return b;
    }
    if b == eps() {
        return a;
    }
    memo_bin(3, a, b, || {
        if let Some(l) = concat_det(a, b) {
            return l;
        }
        let mut n = Nfa::default();
        let s = n.state();
        let m = n.state();
        let e = n.state();
        n.starts = vec![s];
        n.lang(s, a, m);
        n.lang(m, b, e);
        n.acc[e] = true;
        n.determinize()
    })
}
/// Concatenation when no word of `a` is a proper prefix of another: the automata are simply joined.
fn concat_det(a: L, b: L) -> Option<L> {
    let (x, y) = (dfa(a), dfa(b));
    if x.dead == u32::MAX {
        return None;
    }
    for q in 0..x.n() {
        if x.acc[q] && x.trans[q * x.ncls..(q + 1) * x.ncls].iter().any(|t| *t != x.dead) {
            return None;
        }
    }
    let mut pair: HashMap<(u16, u16), u16> = HashMap::default();
    let mut rep: Vec<(u16, u16)> = vec![];
    let mut cls = vec![0u16; NSYM];
    for s in 0..NSYM {
        let k = (x.cls[s], y.cls[s]);
        let l = rep.len() as u16;
        let id = *pair.entry(k).or_insert(l);
        if id == l {
            rep.push(k);
        }
        cls[s] = id;
    }
    let nx = x.n() as u32;
    let ny = y.n() as u32;
    // the states of b, then one sink
    let sink = nx + ny;
    let mut trans = Vec::with_capacity((nx + ny + 1) as usize * rep.len());
    let mut acc = vec![];
    for q in 0..nx as usize {
        let at = if x.acc[q] { Some(0usize) } else { None };
        for (cx, cy) in &rep {
            let t = match at {
                Some(r) => nx + y.trans[r * y.ncls + *cy as usize],
                None => x.trans[q * x.ncls + *cx as usize],
            };
            trans.push(if t == x.dead && at.is_none() { sink } else { t });
        }
        acc.push(at.is_some() && y.acc[0]);
    }
    for q in 0..ny as usize {
        for (_, cy) in &rep {
            trans.push(nx + y.trans[q * y.ncls + *cy as usize]);
        }
        acc.push(y.acc[q]);
    }
    trans.extend(std::iter::repeat(sink).take(rep.len()));
    acc.push(false);
    tick();
    Some(finish(Dfa { ncls: rep.len(), cls: Rc::new(cls), trans, acc, dead: u32::MAX }))
}
pub fn concat_all(v: &[L]) -> L {
    if v.iter().any(|&x| x == empty()) {
        return empty();
    }
    match v.len() {
        0 => eps(),
        1 => v[0],
        2 => concat(v[0], v[1]),
        _ => {
            let mut n = Nfa::default();
            let mut s = n.state();
            n.starts = vec![s];
            for &l in v {
                let m = n.state();
                n.lang(s, l, m);
                s = m;
            }
            n.acc[s] = true;
            n.determinize()
        }
    }
}
pub fn union_all(v: &[L]) -> L {
    let mut v: Vec<L> = v.iter().cloned().filter(|&x| x != empty()).collect();
    v.sort();
    v.dedup();
    match v.len() {
        0 => empty(),
        1 => v[0],
        2 => union(v[0], v[1]),
        _ => {
            // balanced
            let m = v.len() / 2;
            let a = union_all(&v[..m]);
            let b = union_all(&v[m..]);
            union(a, b)
        }
    }
}
pub fn star(a: L) -> L {
    memo_un(0, a, 0, || {
        let mut n = Nfa::default();
        let s = n.state();
        n.starts = vec![s];
        n.acc[s] = true;
        n.lang(s, a, s);
        n.determinize()
    })
}
/// words w such that word·w in a — language from state q
pub fn from_state(a: L, q: u32) -> L {
    if q == 0 {
        return a;
    }
    memo_un(1, a, q, || {
        let d = dfa(a);
        // renumber so q is the start: BFS
        let n = d.n();
        let mut num = vec![u32::MAX; n];
        let mut order = vec![q];
        num[q as usize] = 0;
        let mut i = 0;
        while i < order.len() {
            let p = order[i] as usize;
            for c in 0..d.ncls {
                let t = d.trans[p * d.ncls + c];
                if num[t as usize] == u32::MAX {
                    num[t as usize] = order.len() as u32;
                    order.push(t);
                }
            }
            i += 1;
        }
        let mut trans = vec![];
        for &p in &order {
            for c in 0..d.ncls {
                trans.push(num[d.trans[p as usize * d.ncls + c] as usize]);
            }
        }
        let acc = order.iter().map(|&p| d.acc[p as usize]).collect();
        finish(Dfa { ncls: d.ncls, cls: d.cls.clone(), trans, acc, dead: u32::MAX })
    })
}
/// words leading from the start to state q
pub fn to_state(a: L, q: u32) -> L {
    memo_un(2, a, q, || {
        let d = dfa(a);
        let mut x = (*d).clone();
        for i in 0..x.acc.len() {
            x.acc[i] = i as u32 == q;
        }
        finish(x)
    })
}
pub fn accepts_eps(a: L) -> bool {
    dfa(a).acc[0]
}
pub fn contains(a: L, w: &[u16]) -> bool {
    let d = dfa(a);
    let mut q = 0;
    for &s in w {
        q = d.step(q, s);
    }
    d.acc[q as usize]
}
pub fn reverse(a: L) -> L {
    memo_un(3, a, 0, || {
        let d = dfa(a);
        let mut n = Nfa::default();
        for _ in 0..d.n() {
            n.state();
        }
        let sets = class_sets(&d);
        for q in 0..d.n() {
            for c in 0..d.ncls {
                let t = d.trans[q * d.ncls + c];
                if t != d.dead {
                    n.sym(t as usize, sets[c].clone(), q);
                }
            }
            if d.acc[q] {
                n.starts.push(q);
            }
        }
        n.acc[0] = true;
        n.determinize()
    })
}
/// Retags plain input bytes as kept (K).
pub fn keep(a: L) -> L {
    retag(a, 4, |s| if s < 256 { s + K } else { s })
}
/// Retags everything so that plain bytes become output-only.
pub fn as_output(a: L) -> L {
    retag(a, 5, |s| if s < 256 { s + O } else { s })
}
fn retag(a: L, op: u8, f: fn(u16) -> u16) -> L {
    memo_un(op, a, 0, || hom(a, &|s| Some(f(s))))
}
/// Symbol-to-symbol (or erasing) homomorphism.
pub fn hom(a: L, f: &dyn Fn(u16) -> Option<u16>) -> L {
    let d = dfa(a);
    let mut n = Nfa::default();
    for _ in 0..d.n() {
        n.state();
    }
    let sets = class_sets(&d);
    // precompute images of class sets
    let mut im: Vec<(SymSet, bool)> = vec![];
    for s in &sets {
        let mut o = vec![];
        let mut er = false;
        for &(x, y) in s {
            for k in x..=y {
                match f(k) {
                    Some(z) => o.push((z, z)),
                    None => er = true,
                }
            }
        }
        im.push((norm_syms(o), er));
    }
    for q in 0..d.n() {
        for c in 0..d.ncls {
            let t = d.trans[q * d.ncls + c];
            if t == d.dead {
                continue;
            }
            if !im[c].0.is_empty() {
                n.sym(q, im[c].0.clone(), t as usize);
            }
            if im[c].1 {
                n.eps(q, t as usize);
            }
        }
        n.acc[q] = d.acc[q];
    }
    n.starts = vec![0];
    n.determinize()
}
/// Words whose image under the symbol map (`None`: erased) is in `a`.
pub fn inv_hom(a: L, f: &dyn Fn(u16) -> Option<u16>) -> L {
    let d = dfa(a);
    let mut n = Nfa::default();
    for _ in 0..d.n() {
        n.state();
    }
    for q in 0..d.n() {
        let mut by: BTreeMap<u32, SymSet> = BTreeMap::new();
        for z in 0..NSYM as u16 {
            let t = match f(z) {
                None => q as u32,
                Some(c) => d.step(q as u32, c),
            };
            if t != d.dead {
                by.entry(t).or_default().push((z, z));
            }
        }
        for (t, v) in by {
            n.sym(q, norm_syms(v), t as usize);
        }
        n.acc[q] = d.acc[q];
    }
    n.starts = vec![0];
    n.determinize()
}
/// The input projection of a tagged language (markers and outputs erased).
pub fn input_of(a: L) -> L {
    memo_un(6, a, 0, || {
        hom(a, &|s| {
            if s < 256 {
                Some(s)
            } else if s < 512 {
                Some(s - K)
            } else {
                None
            }
        })
    })
}
/// The output projection of a tagged language, as plain bytes.
pub fn output_of(a: L) -> L {
    memo_un(7, a, 0, || {
        hom(a, &|s| {
            if s < 256 || s >= MARK {
                None
            } else if s < 512 {
                Some(s - K)
            } else {
                Some(s - O)
            }
        })
    })
}
pub fn shortest(a: L) -> Option<Vec<u16>> {
    let d = dfa(a);
    let reps = d.reps();
    // prefer printable representatives
    let sets = class_sets(&d);
    let mut rep = reps.clone();
    for c in 0..d.ncls {
        'o: for pref in [(b'a', b'z'), (b'0', b'9'), (b'!', b'~')] {
            for &(x, y) in &sets[c] {
                for base in [0u16, K, O] {
                    let lo = (pref.0 as u16 + base).max(x);
                    let hi = (pref.1 as u16 + base).min(y);
                    if lo <= hi {
                        rep[c] = lo;
                        break 'o;
                    }
                }
            }
        }
    }
    let mut prev: Vec<Option<(u32, u16)>> = vec![None; d.n()];
    let mut seen = vec![false; d.n()];
    let mut q = VecDeque::new();
    q.push_back(0u32);
    seen[0] = true;
    while let Some(p) = q.pop_front() {
        if d.acc[p as usize] {
            let mut w = vec![];
            let mut x = p;
            while let Some((y, s)) = prev[x as usize] {
                w.push(s);
                x = y;
            }
            w.reverse();
            return Some(w);
        }
        for c in 0..d.ncls {
            let t = d.trans[p as usize * d.ncls + c];
            if !seen[t as usize] {
                seen[t as usize] = true;
                prev[t as usize] = Some((p, rep[c]));
                q.push_back(t);
            }
        }
    }
    None
}
/// Renders a tagged word: input plain, kept as `b`, inserted as `+{..}`, dropped input when any tagging occurs as `-{..}`.
pub fn show(w: &[u16]) -> String {
    let tagged = w.iter().any(|&s| s >= 256 && s < MARK);
    let mut out = String::new();
    let mut i = 0;
    let esc = |b: &[u8]| -> String {
        let mut r = String::new();
        for ch in String::from_utf8_lossy(b).chars() {
            if ch == '\u{FFFD}' {
                return b.iter().map(|x| if (0x20..0x7f).contains(x) { (*x as char).to_string() } else { format!("\\x{:02X}", x) }).collect();
            }
            if ch.is_control() {
                r.push_str(&ch.escape_default().to_string());
            } else {
                r.push(ch);
            }
        }
        r
    };
    while i < w.len() {
        let t = w[i] / 256;
        let mut j = i;
        let mut b = vec![];
        if w[i] >= MARK {
            out.push_str(&format!("⟨{}⟩", w[i] - MARK));
            i += 1;
            continue;
        }
        while j < w.len() && w[j] / 256 == t && w[j] < MARK {
            b.push((w[j] % 256) as u8);
            j += 1;
        }
        let s = esc(&b);
        match t {
            0 if tagged => out.push_str(&format!("-[{}]", s)),
            0 | 1 => out.push_str(&s),
            _ => out.push_str(&format!("+[{}]", s)),
        }
        i = j;
    }
    out
}

pub fn minmax_len(a: L) -> (u32, Option<u32>) {
    if let Some(x) = CTX.with(|c| c.borrow().minmax.get(&a).cloned()) {
        return x;
    }
    let r = (|| {
        let d = dfa(a);
        let n = d.n();
        let min = shortest(a).map(|w| w.len() as u32).unwrap_or(0);
        // live states: reachable (all) and co-reachable
        let mut live: Vec<bool> = d.acc.clone();
        loop {
            let mut ch = false;
            for q in 0..n {
                if !live[q] && (0..d.ncls).any(|c| live[d.trans[q * d.ncls + c] as usize]) {
                    live[q] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // longest path, detect cycles via DFS
        fn go(d: &Dfa, live: &[bool], q: usize, st: &mut Vec<u8>, best: &mut Vec<u32>) -> bool {
            if st[q] == 1 {
                return false;
            }
            if st[q] == 2 {
                return true;
            }
            st[q] = 1;
            let mut b = 0;
            for c in 0..d.ncls {
                let t = d.trans[q * d.ncls + c] as usize;
                if live[t] {
                    if !go(d, live, t, st, best) {
                        return false;
                    }
                    b = b.max(best[t] + 1);
                }
            }
            best[q] = b;
            st[q] = 2;
            true
        }
        if n == 0 || !live[0] {
            return (0, Some(0));
        }
        let mut st = vec![0u8; n];
        let mut best = vec![0u32; n];
        if go(&d, &live, 0, &mut st, &mut best) {
            (min, Some(best[0]))
        } else {
            (min, None)
        }
    })();
    CTX.with(|c| c.borrow_mut().minmax.insert(a, r));
    r
}
/// If the language is a single short word, returns it.
pub fn singleton(a: L) -> Option<Vec<u16>> {
    let (mn, mx) = minmax_len(a);
    if mx != Some(mn) || mn > 4096 {
        return None;
    }
    let w = shortest(a)?;
    if word(&w) == a {
        Some(w)
    } else {
        None
    }
}

// ---------------------------------------------------------------- char sets
pub fn cs(v: Vec<(u32, u32)>) -> CSet {
    Rc::new(norm_cs(v))
}
fn norm_cs(mut v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    v.retain(|x| x.0 <= x.1);
    v.sort();
    let mut r: Vec<(u32, u32)> = vec![];
    for (a, b) in v {
        if let Some(l) = r.last_mut() {
            if a <= l.1.saturating_add(1) {
                if b > l.1 {
                    l.1 = b;
                }
                continue;
            }
        }
        r.push((a, b));
    }
    r
}
pub fn cs_inter(a: &[(u32, u32)], b: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut r = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        let lo = a[i].0.max(b[j].0);
        let hi = a[i].1.min(b[j].1);
        if lo <= hi {
            r.push((lo, hi));
        }
        if a[i].1 < b[j].1 {
            i += 1;
        } else {
            j += 1;
        }
    }
    r
}
pub fn cs_union(a: &[(u32, u32)], b: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    norm_cs(v)
}
pub fn cs_compl(a: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut r = vec![];
    let mut n = 0u32;
    for &(x, y) in a {
        if x > n {
            r.push((n, x - 1));
        }
        n = y + 1;
    }
    if n <= 0x10FFFF {
        r.push((n, 0x10FFFF));
    }
    cs_inter(&r, &[(0, 0xD7FF), (0xE000, 0x10FFFF)])
}
/// UTF-8 byte-range sequences for a code point range (standard splitting).
pub fn utf8_seqs(lo: u32, hi: u32, out: &mut Vec<Vec<(u8, u8)>>) {
    if lo > hi {
        return;
    }
    for &(a, b) in &[(0u32, 0x7Fu32), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)] {
        let l = lo.max(a);
        let h = hi.min(b);
        if l > h {
            continue;
        }
        if l != lo || h != hi {
            utf8_seqs(l, h, out);
        } else {
            // same length
            let n = if b == 0x7F { 1 } else if b == 0x7FF { 2 } else if b == 0xFFFF { 3 } else { 4 };
            for i in 1..n {
                let m = (1u32 << (6 * i)) - 1;
                if (l & !m) != (h & !m) {
                    if (l & m) != 0 {
                        utf8_seqs(l, l | m, out);
                        utf8_seqs((l | m) + 1, h, out);
                        return;
                    }
                    if (h & m) != m {
                        utf8_seqs(l, (h & !m) - 1, out);
                        utf8_seqs(h & !m, h, out);
                        return;
                    }
                }
            }
            let e = |c: u32| -> Vec<u8> {
                match n {
                    1 => vec![c as u8],
                    2 => vec![0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
                    3 => vec![0xE0 | (c >> 12) as u8, 0x80 | ((c >> 6) & 63) as u8, 0x80 | (c & 63) as u8],
                    _ => vec![0xF0 | (c >> 18) as u8, 0x80 | ((c >> 12) & 63) as u8, 0x80 | ((c >> 6) & 63) as u8, 0x80 | (c & 63) as u8],
                }
            };
            out.push(e(l).into_iter().zip(e(h)).collect());
        }
        if h == hi {
            return;
        }
    }
}
pub fn cset_lang(s: &CSet) -> L {
    if let Some(x) = CTX.with(|c| c.borrow().csl.get(s).cloned()) {
        return x;
    }
    let mut n = Nfa::default();
    let a = n.state();
    let b = n.state();
    n.starts = vec![a];
    n.acc[b] = true;
    for (lo, hi) in cs_inter(s, &[(0, 0xD7FF), (0xE000, 0x10FFFF)]) {
        let mut v = vec![];
        utf8_seqs(lo, hi, &mut v);
        for seq in v {
            let mut q = a;
            for (i, &(x, y)) in seq.iter().enumerate() {
                let t = if i + 1 == seq.len() { b } else { n.state() };
                n.sym(q, vec![(x as u16, y as u16)], t);
                q = t;
            }
        }
    }
    let r = n.determinize();
    CTX.with(|c| c.borrow_mut().csl.insert(s.clone(), r));
    r
}
/// Groups code points that can start a word of `a` by the state reached.
fn char_step(d: &Dfa, q0: u32) -> Vec<(CSet, u32)> {
    let mut by: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
    // suffix tables: for state q with k continuation bytes left: list of (offset lo, hi, target)
    fn cont(d: &Dfa, q: u32, k: u32, memo: &mut HashMap<(u32, u32), Rc<Vec<(u32, u32, u32)>>>) -> Rc<Vec<(u32, u32, u32)>> {
        if q == d.dead {
            return Rc::new(vec![]);
        }
        if let Some(x) = memo.get(&(q, k)) {
            return x.clone();
        }
        let mut r: Vec<(u32, u32, u32)> = vec![];
        if k == 0 {
            r.push((0, 0, q));
        } else {
            let span = 1u32 << (6 * (k - 1));
            for b in 0x80u32..=0xBF {
                let t = d.step(q, b as u16);
                for &(lo, hi, tt) in cont(d, t, k - 1, memo).iter() {
                    let (l, h) = ((b - 0x80) * span + lo, (b - 0x80) * span + hi);
                    if let Some(last) = r.last_mut() {
                        if last.2 == tt && last.1 + 1 == l {
                            last.1 = h;
                            continue;
                        }
                    }
                    r.push((l, h, tt));
                }
            }
        }
        let r = Rc::new(r);
        memo.insert((q, k), r.clone());
        r
    }
    let mut memo = HashMap::default();
    for b in 0u32..0x80 {
        let t = d.step(q0, b as u16);
        if t != d.dead {
            by.entry(t).or_default().push((b, b));
        }
    }
    for b in 0xC2u32..=0xF4 {
        let t = d.step(q0, b as u16);
        if t == d.dead {
            continue;
        }
        let (k, base, min, max) = if b < 0xE0 {
            (1, (b & 0x1F) << 6, 0x80, 0x7FF)
        } else if b < 0xF0 {
            (2, (b & 0x0F) << 12, 0x800, 0xFFFF)
        } else {
            (3, (b & 0x07) << 18, 0x10000, 0x10FFFF)
        };
        for &(lo, hi, tt) in cont(d, t, k, &mut memo).iter() {
            let l = (base + lo).max(min);
            let h = (base + hi).min(max);
            if l <= h {
                by.entry(tt).or_default().push((l, h));
            }
        }
    }
    by.into_iter()
        .map(|(t, v)| (Rc::new(cs_inter(&norm_cs(v), &[(0, 0xD7FF), (0xE000, 0x10FFFF)])), t))
        .filter(|x| !x.0.is_empty())
        .collect()
}
/// Decomposes non-empty words by first char: list of (char set, rest language).
pub fn first_chars(a: L) -> Rc<Vec<(CSet, L)>> {
    if let Some(x) = CTX.with(|c| c.borrow().firstchars.get(&a).cloned()) {
        return x;
    }
    let d = dfa(a);
    let mut by: BTreeMap<L, Vec<(u32, u32)>> = BTreeMap::new();
    for (s, q) in char_step(&d, 0) {
        let l = from_state(a, q);
        if l != empty() {
            by.entry(l).or_default().extend(s.iter().cloned());
        }
    }
    let r = Rc::new(by.into_iter().map(|(l, s)| (cs(s), l)).collect::<Vec<_>>());
    CTX.with(|c| c.borrow_mut().firstchars.insert(a, r.clone()));
    r
}
/// Decomposes by last char: list of (char set, prefix language).
pub fn last_chars(a: L) -> Rc<Vec<(CSet, L)>> {
    if let Some(x) = CTX.with(|c| c.borrow().lastchars.get(&a).cloned()) {
        return x;
    }
    let d = dfa(a);
    // for every state q: set of chars C such that step(q, c) accepting. Prefix = to_state(q) (deterministic, so disjoint)
    let mut by: BTreeMap<L, Vec<(u32, u32)>> = BTreeMap::new();
    let mut raw: Vec<(Vec<(u32, u32)>, L)> = vec![];
    for q in 0..d.n() as u32 {
        if q == d.dead {
            continue;
        }
        let mut set = vec![];
        for (s, t) in char_step(&d, q) {
            if d.acc[t as usize] {
                set.extend(s.iter().cloned());
            }
        }
        if set.is_empty() {
            continue;
        }
        let p = inter(to_state(a, q), all_bytes());
        if p != empty() {
            raw.push((norm_cs(set), p));
        }
    }
    // merge: same char set -> union of prefixes; same prefix -> union of sets
    let mut bys: BTreeMap<Vec<(u32, u32)>, L> = BTreeMap::new();
    for (s, p) in raw {
        let e = bys.entry(s).or_insert(empty());
        *e = union(*e, p);
    }
    for (s, p) in bys {
        by.entry(p).or_default().extend(s);
    }
    let r = Rc::new(by.into_iter().map(|(l, s)| (cs(s), l)).collect::<Vec<_>>());
    CTX.with(|c| c.borrow_mut().lastchars.insert(a, r.clone()));
    r
}

/// Splits words w = x·y of `a` with x in `p` and y in `s`: exact list of product
/// rectangles (X_i, Y_i) whose union is { (x,y) : xy in a, x in p, y in s }.
pub fn split_ps(a: L, p: L, s: L) -> Rc<Vec<(L, L)>> {
    let d = dfa(a);
    let mut by: BTreeMap<L, L> = BTreeMap::new();
    for q in 0..d.n() as u32 {
        if q == d.dead {
            continue;
        }
        let y = inter(from_state(a, q), s);
        if y == empty() {
            continue;
        }
        let x = inter(to_state(a, q), p);
        if x == empty() {
            continue;
        }
        let e = by.entry(y).or_insert(empty());
        *e = union(*e, x);
    }
    // same X: union the Y
    let mut byx: BTreeMap<L, L> = BTreeMap::new();
    for (y, x) in by {
        let e = byx.entry(x).or_insert(empty());
        *e = union(*e, y);
    }
    Rc::new(byx.into_iter().collect())
}
pub fn split_memo(kind: u8, a: L, k: L, f: impl FnOnce() -> Rc<Vec<(L, L)>>) -> Rc<Vec<(L, L)>> {
    if let Some(x) = CTX.with(|c| c.borrow().split.get(&(kind, a, k)).cloned()) {
        return x;
    }
    let r = f();
    CTX.with(|c| c.borrow_mut().split.insert((kind, a, k), r.clone()));
    r
}
/// split at the first position where a byte of `set` occurs: (before, from-that-byte-on)
pub fn split_first(a: L, set: L) -> Rc<Vec<(L, L)>> {
    split_memo(0, a, set, || {
        let not = star(others(set));
        let y = concat(set, all_bytes());
        split_ps(a, not, y)
    })
}
/// split at the last position where a byte of `set` occurs: (before, from-that-byte-on)
pub fn split_last(a: L, set: L) -> Rc<Vec<(L, L)>> {
    split_memo(1, a, set, || {
        let not = star(others(set));
        let y = concat(set, not);
        split_ps(a, all_bytes(), y)
    })
}
pub fn without(a: L, set: L) -> L {
    inter(a, star(others(set)))
}
/// The elements that are not in the set: bytes, or characters when the set has longer ones.
pub fn others(set: L) -> L {
    let by = syms(vec![(0, 255)]);
    if subset(set, by) {
        diff(by, set)
    } else {
        diff(cset_lang(&cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)])), set)
    }
}
/// The characters of a range whose encoding is in the language.
pub fn chars_in(set: L, lo: u32, hi: u32, out: &mut Vec<(u32, u32)>) {
    let l = cset_lang(&cs(vec![(lo, hi)]));
    if l == empty() || inter(l, set) == empty() {
        return;
    }
    if subset(l, set) {
        out.push((lo, hi));
        return;
    }
    let m = (lo + hi) / 2;
    chars_in(set, lo, m, out);
    chars_in(set, m + 1, hi, out);
}
pub fn len_eq(k: u32) -> L {
    let any = syms(vec![(0, 255)]);
    let mut n = Nfa::default();
    let mut s = n.state();
    n.starts = vec![s];
    for _ in 0..k {
        let m = n.state();
        n.lang(s, any, m);
        s = m;
    }
    n.acc[s] = true;
    n.determinize()
}
pub fn len_ge(k: u32) -> L {
    memo_un(8, eps(), k, || concat(len_eq(k), all_bytes()))
}
/// split at byte offset k from the start
pub fn split_at(a: L, k: u32) -> Rc<Vec<(L, L)>> {
    let l = memo_un(9, eps(), k, || len_eq(k));
    split_memo(2, a, l, || split_ps(a, l, all_bytes()))
}
/// split k bytes before the end
pub fn split_at_end(a: L, k: u32) -> Rc<Vec<(L, L)>> {
    let l = memo_un(9, eps(), k, || len_eq(k));
    split_memo(3, a, l, || split_ps(a, all_bytes(), l))
}
pub fn stats() -> usize {
    CTX.with(|c| c.borrow().dfas.len())
}
