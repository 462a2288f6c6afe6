//! Equivalence of functional transductions given as tagged languages.
use crate::lang::{self, Dfa, K, L, MARK, O};
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::collections::VecDeque;

/// The input words of a tagged language (tape separators are part of the input).
pub fn domain(a: L) -> L {
    lang::memo_un(20, a, 0, || {
        lang::hom(a, &|s| {
            if s < 256 {
                Some(s)
            } else if s < 512 {
                Some(s - K)
            } else if s == crate::analyze::SEP {
                Some(s)
            } else {
                None
            }
        })
    })
}
fn is_out(s: u16) -> bool {
    (O..MARK).contains(&s) || (s >= MARK && s != crate::analyze::SEP)
}
fn out_sym(s: u16) -> u16 {
    if (O..MARK).contains(&s) {
        s - O
    } else {
        s
    }
}
/// One output of the transduction for the given input.
pub fn apply(a: L, w: &[u16]) -> Option<Vec<u16>> {
    let d = lang::dfa(a);
    let mut seen: HashSet<(u32, usize)> = HashSet::default();
    let mut q = VecDeque::new();
    q.push_back((0u32, 0usize, vec![]));
    while let Some((s, i, out)) = q.pop_front() {
        if !seen.insert((s, i)) {
            continue;
        }
        if i == w.len() && d.acc[s as usize] {
            return Some(out);
        }
        for (sym, t) in edges_out(&d, s) {
            let mut o: Vec<u16> = out.clone();
            o.push(out_sym(sym));
            q.push_back((t, i, o));
        }
        if i < w.len() {
            let c = w[i];
            let t = d.step(s, c);
            if t != d.dead {
                q.push_back((t, i + 1, out.clone()));
            }
            if c < 256 {
                let t = d.step(s, c + K);
                if t != d.dead {
                    let mut o = out.clone();
                    o.push(c);
                    q.push_back((t, i + 1, o));
                }
            }
        }
    }
    None
}
fn edges_out(d: &Dfa, s: u32) -> Vec<(u16, u32)> {
    let mut r = vec![];
    for sym in O..(lang::NSYM as u16) {
        if is_out(sym) {
            let t = d.step(s, sym);
            if t != d.dead {
                r.push((sym, t));
            }
        }
    }
    r
}
pub enum Eq {
    Same,
    /// input, output of a, output of b
    Differ(Vec<u16>, Option<Vec<u16>>, Option<Vec<u16>>),
    Unknown(String),
}
/// Compares two functional transductions with equal domains.
pub fn same(a: L, b: L) -> Eq {
    if a == b {
        return Eq::Same;
    }
    let (da, db) = (lang::dfa(a), lang::dfa(b));
    type N = (u32, u32);
    // edges of the synchronised product: (input symbol or none, outputs of a, outputs of b, target)
    let mut ids: HashMap<N, usize> = HashMap::default();
    let mut nodes: Vec<N> = vec![(0, 0)];
    ids.insert((0, 0), 0);
    #[derive(Clone)]
    struct Ed {
        inp: Option<u16>,
        oa: Option<u16>,
        ob: Option<u16>,
        to: usize,
    }
    let mut edges: Vec<Vec<Ed>> = vec![];
    let mut oc: HashMap<(bool, u32), std::rc::Rc<Vec<(u16, u32)>>> = HashMap::default();
    let mut i = 0;
    while i < nodes.len() {
        if nodes.len() > 400_000 {
            return Eq::Unknown("product too large".into());
        }
        let (x, y) = nodes[i];
        let mut es: Vec<Ed> = vec![];
        let mut add = |inp, oa, ob, t: N, es: &mut Vec<Ed>| {
            let n = nodes.len();
            let to = *ids.entry(t).or_insert(n);
            if to == n {
                nodes.push(t);
            }
            es.push(Ed { inp, oa, ob, to });
        };
        let ea = oc.entry((false, x)).or_insert_with(|| std::rc::Rc::new(edges_out(&da, x))).clone();
        for &(s, t) in ea.iter() {
            add(None, Some(out_sym(s)), None, (t, y), &mut es);
        }
        let eb = oc.entry((true, y)).or_insert_with(|| std::rc::Rc::new(edges_out(&db, y))).clone();
        for &(s, t) in eb.iter() {
            add(None, None, Some(out_sym(s)), (x, t), &mut es);
        }
        for c in (0..256u16).chain(Some(crate::analyze::SEP)) {
            let va: Vec<(Option<u16>, u32)> = [(None, da.step(x, c)), (Some(c), if c < 256 { da.step(x, c + K) } else { da.dead })].into_iter().filter(|z| z.1 != da.dead).collect();
            if va.is_empty() {
                continue;
            }
            let vb: Vec<(Option<u16>, u32)> = [(None, db.step(y, c)), (Some(c), if c < 256 { db.step(y, c + K) } else { db.dead })].into_iter().filter(|z| z.1 != db.dead).collect();
            for &(oa, t) in &va {
                for &(ob, u) in &vb {
                    add(Some(c), oa, ob, (t, u), &mut es);
                }
            }
        }
        edges.push(es);
        i += 1;
    }
    // co-reachability
    let n = nodes.len();
    let mut rev: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, es) in edges.iter().enumerate() {
        for e in es {
            rev[e.to].push(i);
        }
    }
    let mut co = vec![false; n];
    let mut nxt: Vec<Option<(usize, usize)>> = vec![None; n]; // edge toward acceptance
    let mut q = VecDeque::new();
    for i in 0..n {
        if da.acc[nodes[i].0 as usize] && db.acc[nodes[i].1 as usize] {
            co[i] = true;
            q.push_back(i);
        }
    }
    while let Some(i) = q.pop_front() {
        for &p in &rev[i] {
            if !co[p] {
                co[p] = true;
                let k = edges[p].iter().position(|e| e.to == i).unwrap();
                nxt[p] = Some((k, i));
                q.push_back(p);
            }
        }
    }
    if !co[0] {
        return Eq::Same; // no common input
    }
    // delays
    let mut delay: Vec<Option<(i8, Vec<u16>)>> = vec![None; n];
    let mut par: Vec<Option<(usize, Option<u16>)>> = vec![None; n];
    delay[0] = Some((0, vec![]));
    let mut q = VecDeque::new();
    q.push_back(0usize);
    let path = |par: &Vec<Option<(usize, Option<u16>)>>, mut i: usize| {
        let mut w = vec![];
        while let Some((p, c)) = par[i] {
            if let Some(c) = c {
                w.push(c);
            }
            i = p;
        }
        w.reverse();
        w
    };
    let suffix = |mut i: usize| {
        let mut w = vec![];
        while let Some((k, t)) = nxt[i] {
            if let Some(c) = edges[i][k].inp {
                w.push(c);
            }
            i = t;
        }
        w
    };
    let witness = |ws: Vec<Vec<u16>>| {
        for w in ws {
            let (x, y) = (apply(a, &w), apply(b, &w));
            if x != y {
                return Eq::Differ(w, x, y);
            }
        }
        Eq::Unknown("no witness for differing outputs".into())
    };
    while let Some(i) = q.pop_front() {
        let d = delay[i].clone().unwrap();
        if da.acc[nodes[i].0 as usize] && db.acc[nodes[i].1 as usize] && !d.1.is_empty() {
            return witness(vec![path(&par, i)]);
        }
        for e in &edges[i] {
            if !co[e.to] {
                continue;
            }
            let mut d2 = d.clone();
            let mut bad = false;
            for (side, o) in [(1i8, e.oa), (-1i8, e.ob)] {
                if let Some(o) = o {
                    if d2.0 == 0 || d2.0 == side {
                        d2.0 = side;
                        d2.1.push(o);
                    } else if d2.1[0] == o {
                        d2.1.remove(0);
                        if d2.1.is_empty() {
                            d2.0 = 0;
                        }
                    } else {
                        bad = true;
                    }
                }
            }
            let here = || {
                let mut w = path(&par, i);
                if let Some(c) = e.inp {
                    w.push(c);
                }
                w
            };
            if bad {
                let mut w = here();
                w.extend(suffix(e.to));
                return witness(vec![w]);
            }
            match &delay[e.to] {
                None => {
                    delay[e.to] = Some(d2);
                    par[e.to] = Some((i, e.inp));
                    q.push_back(e.to);
                }
                Some(x) if *x != d2 => {
                    let s = suffix(e.to);
                    let mut w = here();
                    let mut w2 = path(&par, e.to);
                    w.extend(s.iter());
                    w2.extend(s.iter());
                    return witness(vec![w, w2]);
                }
                _ => {}
            }
        }
    }
    Eq::Same
}

/// The tagged language with its input words restricted to `l`.
pub fn restrict(a: L, l: L) -> L {
    // outputs may be inserted anywhere: lift `l` to tagged words by a homomorphism inverse
    lang::inter(a, lang::inv_hom(l, &|s| if is_out(s) { None } else if (K..O).contains(&s) { Some(s - K) } else { Some(s) }))
}
