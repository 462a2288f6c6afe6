//! The obligations: for every harness root the expected result as a function of the input,
//! written from the RFC grammar (`spec.rs`), and the comparison with the analysed code.
use crate::analyze::{Report, SEP};
use crate::equiv::{self, Eq};
use crate::lang::{self, L};
use crate::spec::*;
use std::collections::BTreeMap;

pub struct Case {
    pub prop: &'static str,
    pub root: String,
    pub what: String,
    pub anchor: &'static str,
    pub exp: Box<dyn Fn() -> Exp>,
    /// input languages to analyse (default: the type's); a superset of the inputs judged, or a
    /// restriction when the expectation is only written for part of the inputs
    pub init: Option<Box<dyn Fn() -> Vec<L>>>,
    /// recorded findings: key, result, inputs on which this (wrong) result is known
    pub known: Vec<(&'static str, &'static str, Box<dyn Fn() -> L>)>,
}
/// label -> [inputs, tagged inputs per text of the result]
pub type Exp = Vec<(String, Vec<L>)>;
pub struct Bad {
    pub key: String,
    pub text: String,
}
#[derive(Default)]
pub struct Verdict {
    pub bad: Vec<Bad>,
    pub undecided: Vec<String>,
    pub known: Vec<String>,
    pub checked: usize,
}
fn show(w: &[u16]) -> String {
    let mut o = String::new();
    for (i, p) in w.split(|c| *c == SEP).enumerate() {
        if i > 0 {
            o.push_str(" , ");
        }
        o.push_str(&format!("`{}`", lang::show(p)));
    }
    o
}
pub fn compare(c: &Case, r: &Report) -> Verdict {
    let mut v = Verdict { undecided: r.undecided.clone(), ..Default::default() };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compare2(c, r)));
    match res {
        Ok(x) => {
            v.bad.extend(x.bad);
            v.known.extend(x.known);
            v.undecided.extend(x.undecided);
            v.checked += x.checked;
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            v.undecided.push(format!("comparison failed: {}", m));
        }
    }
    v
}
/// The texts of the result which are values of a type with a grammar: result, text number, grammar.
fn typed(c: &Case) -> Vec<(String, usize, L)> {
    let (m, f) = c.root.split_once("::").unwrap_or(("", &c.root));
    let f = f.strip_prefix("r_").unwrap_or(f);
    let p: Vec<&str> = m.split('_').collect();
    let one = |l: &str, g: L| vec![(l.to_string(), 1, g)];
    let gram = |x: &str| if x == "i" { IRI } else { URI };
    let kind = |k: &str| match k {
        "full" => Some(Kind::Full),
        "abs" | "absolute" => Some(Kind::Absolute),
        "ref" => Some(Kind::Reference),
        "rel" => Some(Kind::Relative),
        _ => None,
    };
    let of = |g: G, k: &str| match k {
        "query" => g.query(),
        "frag" => g.fragment(),
        k => g.kind(kind(k).unwrap()),
    };
    match (p[0], p.len()) {
        ("c", 3) if f.contains("try_from") || f == "new" || f.contains("serde") || f.contains("from_str") => one("Ok($)", of(gram(p[1]), p[2])),
        ("b", 3) => one("Some($)", of(gram(p[1]), p[2])),
        ("prefixed", 1) => {
            let (g, k) = f.split_once('_').unwrap();
            one("Ok($)", of(gram(g), k))
        }
        ("f", 3) if f.starts_with("set_fragment") => one("$", of(gram(p[1]), p[2])),
        ("k", 3) if f.starts_with("remove_") || f == "mask_dedicated" => one("$", of(gram(p[1]), p[2])),
        ("kd", 2) => {
            let g = gram(p[1]);
            match f.strip_prefix("owned_").unwrap_or(f) {
                "to_iri" | "into_iri" => vec![("Ok($)".to_string(), 1, g.full()), ("Err($)".to_string(), 1, g.relative())],
                "to_relative_iri" | "into_relative_iri" => vec![("Ok($)".to_string(), 1, g.relative()), ("Err($)".to_string(), 1, g.full())],
                "to_absolute" | "into_absolute" => one("$", g.absolute()),
                "to_absolute_and_fragment" | "into_absolute_and_fragment" => {
                    vec![("($, None)".to_string(), 1, g.absolute()), ("($, Some($))".to_string(), 1, g.absolute()), ("($, Some($))".to_string(), 2, g.fragment())]
                }
                n => match n.rsplit_once('_') {
                    Some((a, k)) if kind(k).is_some() => one(if a.ends_with("try") { "Ok($)" } else { "$" }, of(g, k)),
                    _ => vec![],
                },
            }
        }
        ("m", 2) => match f {
            "as_uri" => one("Some($)", of(URI, p[1])),
            "try_into_uri" => one("Ok($)", of(URI, p[1])),
            "encode_dedicated_sb" => one("$", of(URI, p[1])),
            f if f.contains("as_iri") || f.contains("into_iri") => one("$", of(IRI, p[1])),
            _ => vec![],
        },
        ("template", 1) => match f {
            "varname" => one("Ok($)", varname()),
            "append" => vec![],
            _ => one("Ok($)", template()),
        },
        _ => vec![],
    }
}
/// Judges only whether every value made matches the grammar of its type.
pub fn validity(c: &Case, r: &Report) -> Verdict {
    let mut v = Verdict { undecided: r.undecided.clone(), ..Default::default() };
    let host = c.root.contains("replace_host") && !c.root.contains("_ret");
    let want = typed(c);
    for (fine, m) in [(true, &r.outcomes), (false, &r.imprecise)] {
        for (label, x) in m {
            if host {
                // a host that does not match the grammar must not be put in
                let g = if c.root.starts_with("k_i") { IRI } else { URI };
                let marked = lang::syms(vec![(0, SEP - 1), (lang::MARK + 1, lang::MARK + 1)]);
                let any = star(marked);
                let put = cat(&[any, lang::word(&[lang::MARK + 1]), any, lang::syms(vec![(SEP, SEP)]), diff(utf8(), g.host())]);
                for k in 1..x.len() {
                    v.checked += 1;
                    if let Some(w) = lang::shortest(inter(unmark(x[k]), put)) {
                        let t = format!("{}: a host that does not match the grammar is put in on input {}", c.what, show(&w));
                        if fine { v.bad.push(Bad { key: format!("{} -> {}", c.root, label), text: t }) } else { v.undecided.push(t) }
                    }
                }
                continue;
            }
            for (l, k, g) in &want {
                if l != label {
                    continue;
                }
                let Some(t) = (if *k == 1 && x.len() == 1 { Some(keep(x[0])) } else { x.get(*k).copied() }) else {
                    v.undecided.push(format!("result {} has no text {}", label, k));
                    continue;
                };
                v.checked += 1;
                let o = lang::output_of(t);
                if let Some(w) = lang::shortest(lang::diff(o, *g)) {
                    let t = format!("{}: the value `{}` made by this operation does not match the grammar of its type", c.what, lang::show(&w));
                    let known = c.known.iter().any(|(_, l, of)| l == label && lang::subset(lang::diff(o, *g), of()));
                    if known {
                        v.known.extend(c.known.iter().map(|k| k.0.to_string()));
                    } else if fine {
                        v.bad.push(Bad { key: format!("{} -> {} text {}", c.root, label, k), text: t });
                    } else {
                        v.undecided.push(t);
                    }
                }
            }
        }
    }
    v.known.dedup();
    v
}
/// Does the validity mode say anything about this case?
pub fn has_values(c: &Case) -> bool {
    !typed(c).is_empty() || c.root.contains("replace_host") && !c.root.contains("_ret")
}
/// Judges only whether some input makes the operation panic.
pub fn panics(c: &Case, r: &Report) -> Verdict {
    let mut v = Verdict { undecided: r.undecided.clone(), ..Default::default() };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut v = Verdict::default();
        let of = c.init.as_ref().map(|_| lang::union_all(&(c.exp)().iter().map(|e| equiv::domain(e.1[0])).collect::<Vec<_>>()));
        for (m, exact) in [(&r.outcomes, true), (&r.imprecise, false)] {
            for (label, x) in m {
                v.checked += 1;
                if !label.starts_with("panic") {
                    continue;
                }
                let mut d = equiv::domain(x[0]);
                if let Some(o) = of {
                    d = lang::inter(d, o);
                }
                if let Some(w) = lang::shortest(d) {
                    if exact {
                        v.bad.push(Bad { key: format!("{} -> {}", c.root, label), text: format!("{}: input {} leads to {}", c.what, show(&w), label) });
                    } else {
                        v.undecided.push(format!("possible {}", label));
                    }
                }
            }
        }
        v
    }));
    match res {
        Ok(x) => {
            v.bad = x.bad;
            v.undecided.extend(x.undecided);
            v.checked = x.checked;
        }
        Err(_) => v.undecided.push("the comparison failed".into()),
    }
    v
}
/// An inserted text that is empty is no text.
fn unmark(a: L) -> L {
    let mut a = a;
    for t in 1..4u16 {
        let mk = lang::MARK + t;
        let with = cat(&[star(lang::syms(vec![(0, SEP)])), lang::word(&[mk]), star(lang::syms(vec![(0, SEP)]))]);
        if inter(a, with) == lang::empty() {
            continue;
        }
        // words whose input t is empty
        let tape = star(lang::syms(vec![(0, SEP - 1)]));
        let sep = lang::word(&[SEP]);
        let blank = star(lang::syms(vec![(lang::O, SEP - 1)]));
        let mut e = vec![];
        for _ in 0..t {
            e.push(tape);
            e.push(sep);
        }
        e.push(blank);
        let e = alt(&[cat(&e), cat(&[cat(&e), sep, star(lang::syms(vec![(0, SEP)]))])]);
        let none = inter(a, e);
        a = union(diff(a, e), lang::hom(none, &|s| if s == mk { None } else { Some(s) }));
    }
    a
}
fn union(a: L, b: L) -> L {
    lang::union(a, b)
}
fn compare2(c: &Case, r0: &Report) -> Verdict {
    let mut r = Report { outcomes: r0.outcomes.clone(), imprecise: r0.imprecise.clone(), undecided: r0.undecided.clone(), ..Default::default() };
    let sym = c.root.contains("_sym");
    if sym {
        for m in [&mut r.outcomes, &mut r.imprecise] {
            for x in m.values_mut() {
                x.iter_mut().for_each(|l| *l = unmark(*l));
            }
        }
    }
    if c.prop == "P18" {
        // the answer is right in every case of the comparison of the texts
        for m in [&mut r.outcomes, &mut r.imprecise] {
            let mut n: BTreeMap<String, Vec<L>> = BTreeMap::new();
            for (l, x) in std::mem::take(m) {
                let l = if l.starts_with("true [") && !l.contains("=~") { "true".to_string() } else { l };
                match n.get_mut(&l) {
                    None => {
                        n.insert(l, x);
                    }
                    Some(y) => y.iter_mut().zip(x).for_each(|(a, b)| *a = lang::union(*a, b)),
                }
            }
            *m = n;
        }
    }
    let mut v = Verdict::default();
    let mut exp: BTreeMap<String, Vec<L>> = BTreeMap::new();
    for (l, mut x) in (c.exp)() {
        if sym {
            x.iter_mut().for_each(|l| *l = unmark(*l));
        }
        match exp.get_mut(&l) {
            None => {
                exp.insert(l, x);
            }
            Some(y) => {
                for (a, b) in y.iter_mut().zip(x) {
                    *a = lang::union(*a, b);
                }
            }
        }
    }
    if c.init.is_some() {
        // the analysed inputs may be a superset of the inputs the expectation speaks about
        let dom = lang::union_all(&exp.values().map(|e| equiv::domain(e[0])).collect::<Vec<_>>());
        for m in [&mut r.outcomes, &mut r.imprecise] {
            for x in m.values_mut() {
                x.iter_mut().for_each(|l| *l = equiv::restrict(*l, dom));
            }
        }
    }
    let mut covered = vec![];
    for (label, x) in &r.outcomes {
        let dom = equiv::domain(x[0]);
        if dom == lang::empty() {
            continue;
        }
        covered.push(dom);
        let e = exp.get(label).cloned().unwrap_or_default();
        let ed = e.first().map_or(lang::empty(), |e| equiv::domain(*e));
        let mut bad = lang::diff(dom, ed);
        let mut dom = dom;
        for (k, l, of) in &c.known {
            if l == label {
                let of = of();
                if lang::inter(bad, of) != lang::empty() {
                    v.known.push(k.to_string());
                }
                bad = lang::diff(bad, of);
                dom = lang::diff(dom, lang::diff(of, ed));
            }
        }
        let x: Vec<L> = if dom == equiv::domain(x[0]) { x.clone() } else { x.iter().map(|l| equiv::restrict(*l, dom)).collect() };
        v.checked += 1;
        if let Some(w) = lang::shortest(bad) {
            let want: Vec<&String> = exp.iter().filter(|(_, e)| lang::contains(equiv::domain(e[0]), &w)).map(|e| e.0).collect();
            let want = if want.is_empty() { "no such input is expected".to_string() } else { format!("expected {}", want.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(" or ")) };
            v.bad.push(Bad { key: format!("{} -> {}", c.root, label), text: format!("{}: on input {} the result is {}, {}", c.what, show(&w), label, want) });
            continue;
        }
        for k in 0..x.len().max(e.len()) {
            if k == 0 && x[0] == dom && e[0] == ed {
                continue;
            }
            let (Some(a), Some(b)) = (x.get(k), e.get(k)) else {
                if k < e.len() {
                    v.undecided.push(format!("result {} has no text {}", label, k));
                }
                continue;
            };
            match equiv::same(*a, *b) {
                Eq::Same => v.checked += 1,
                Eq::Differ(w, x, y) => {
                    let f = |x: &Option<Vec<u16>>| x.as_ref().map_or("(none)".into(), |x| show(x));
                    v.bad.push(Bad { key: format!("{} -> {} text {}", c.root, label, k), text: format!("{}: on input {} text {} of the result {} is {}, expected {}", c.what, show(&w), k, label, f(&x), f(&y)) });
                }
                Eq::Unknown(m) => v.undecided.push(format!("{} text {}: {}", label, k, m)),
            }
        }
    }
    for (label, x) in &r.imprecise {
        let dom = equiv::domain(x[0]);
        let e = exp.get(label).cloned().unwrap_or_default();
        let ed = e.first().map_or(lang::empty(), |e| equiv::domain(*e));
        // an over-approximated outcome is fine if it agrees with the expectation, and says nothing otherwise
        let fits = lang::subset(dom, ed)
            && e.len() == x.len()
            && (1..e.len()).all(|k| {
                v.checked += 1;
                matches!(equiv::same(x[k], equiv::restrict(e[k], equiv::domain(x[k]))), Eq::Same)
            });
        if dom != lang::empty() && !fits {
            v.undecided.push(format!("imprecise outcome {}", label));
        }
        covered.push(dom);
    }
    let all: Vec<L> = exp.values().map(|e| equiv::domain(e[0])).collect();
    let miss = lang::diff(lang::union_all(&all), lang::union_all(&covered));
    if let Some(w) = lang::shortest(miss) {
        if r.undecided.is_empty() {
            v.undecided.push(format!("no result found for input {}", show(&w)));
        }
    }
    v
}
pub struct Table(pub BTreeMap<String, Case>);
impl Table {
    fn init(&mut self, root: &str, f: impl Fn() -> Vec<L> + 'static) {
        self.0.get_mut(root).unwrap().init = Some(Box::new(f));
    }
    fn known(&mut self, root: &str, key: &'static str, label: &'static str, of: impl Fn() -> L + 'static) {
        self.0.get_mut(root).unwrap().known.push((key, label, Box::new(of)));
    }
    fn add(&mut self, prop: &'static str, root: &str, what: &str, anchor: &'static str, exp: impl Fn() -> Exp + 'static) {
        let c = Case { prop, root: root.to_string(), what: what.to_string(), anchor, exp: Box::new(exp), init: None, known: vec![] };
        assert!(self.0.insert(root.to_string(), c).is_none(), "duplicate root {}", root);
    }
}
fn x(l: &str, v: &[L]) -> (String, Vec<L>) {
    (l.to_string(), v.to_vec())
}
/// A yes/no answer on a set of inputs.
fn pred(yes: L, of: L) -> Exp {
    vec![x("true", &[inter(yes, of)]), x("false", &[diff(of, yes)])]
}
pub fn table() -> BTreeMap<String, Case> {
    let mut t = Table(BTreeMap::new());
    validators(&mut t);
    construction(&mut t);
    accessors(&mut t);
    password(&mut t);
    kinds(&mut t);
    hosts(&mut t);
    mapping(&mut t);
    percent(&mut t);
    expand(&mut t);
    normal(&mut t);
    resolution(&mut t);
    comparisons(&mut t);
    templates(&mut t);
    writers(&mut t);
    builder(&mut t);
    t.0
}
/// The pieces of a reference, in order.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    Scheme,
    Colon,
    NoScheme,
    Slashes,
    User,
    PwColon,
    Pw,
    NoPw,
    At,
    NoUser,
    Host,
    PortColon,
    Port,
    NoPort,
    NoAuth,
    Path,
    QMark,
    Query,
    NoQuery,
    Hash,
    Frag,
    NoFrag,
}
/// All texts of a kind, with `f` applied to each piece (`None`: no text with that piece).
fn shape(g: G, k: Kind, f: &dyn Fn(P, L) -> Option<L>) -> L {
    let e = lang::eps();
    let seq = |v: &[(P, L)]| -> Option<L> {
        let mut r = vec![];
        for (p, l) in v {
            r.push(f(*p, *l)?);
        }
        Some(cat(&r))
    };
    let any = |v: &[Option<L>]| -> Option<L> {
        let v: Vec<L> = v.iter().flatten().cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(alt(&v))
        }
    };
    let user = any(&[
        any(&[seq(&[(P::User, g.user()), (P::NoPw, e), (P::At, s("@"))]), seq(&[(P::User, g.user()), (P::PwColon, s(":")), (P::Pw, g.userinfo()), (P::At, s("@"))])]),
        seq(&[(P::NoUser, e)]),
    ]);
    let port = any(&[seq(&[(P::PortColon, s(":")), (P::Port, g.port())]), seq(&[(P::NoPort, e)])]);
    let auth = (|| Some(cat(&[f(P::Slashes, s("//"))?, user?, f(P::Host, g.host())?, port?])))();
    let with = auth.and_then(|a| Some(cat(&[a, f(P::Path, g.path_abempty())?])));
    let no = |p: L| seq(&[(P::NoAuth, e), (P::Path, p)]);
    let sch = if k == Kind::Relative { None } else { seq(&[(P::Scheme, g.scheme()), (P::Colon, s(":"))]) };
    let full = sch.and_then(|x| Some(cat(&[x, any(&[with, no(g.path_na())])?])));
    let rel = if k == Kind::Full || k == Kind::Absolute { None } else { f(P::NoScheme, e).and_then(|x| Some(cat(&[x, any(&[with, no(g.path_rel())])?]))) };
    let head = any(&[full, rel]);
    let q = any(&[seq(&[(P::QMark, s("?")), (P::Query, g.query())]), seq(&[(P::NoQuery, e)])]);
    let fr = if k == Kind::Absolute { f(P::NoFrag, e) } else { any(&[seq(&[(P::Hash, s("#")), (P::Frag, g.fragment())]), seq(&[(P::NoFrag, e)])]) };
    (|| Some(cat(&[head?, q?, fr?])))().unwrap_or(lang::empty())
}
/// Texts of the kind without any of the given pieces; the pieces in `k` are the result.
fn pick(g: G, kd: Kind, not: &[P], kept: &[P]) -> L {
    let (not, kept) = (not.to_vec(), kept.to_vec());
    shape(g, kd, &move |p, l| if not.contains(&p) { None } else if kept.contains(&p) { Some(keep(l)) } else { Some(l) })
}
const KINDS: [(&str, Kind); 4] = [("full", Kind::Full), ("abs", Kind::Absolute), ("ref", Kind::Reference), ("rel", Kind::Relative)];
const AUTH: [P; 8] = [P::User, P::PwColon, P::Pw, P::At, P::Host, P::PortColon, P::Port, P::NoPort];
fn gi(g: G) -> &'static str {
    if g.iri {
        "i"
    } else {
        "u"
    }
}
fn sp(g: G) -> &'static str {
    if g.iri {
        "IriSpec"
    } else {
        "UriSpec"
    }
}
fn tyname(k: &str) -> &'static str {
    match k {
        "full" => "RiStr",
        "abs" => "RiAbsoluteStr",
        "ref" => "RiReferenceStr",
        "rel" => "RiRelativeStr",
        "query" => "RiQueryStr",
        _ => "RiFragmentStr",
    }
}
/// The result equals the whole input.
fn ident(l: &str, of: L) -> (String, Vec<L>) {
    x(l, &[of, keep(of)])
}
fn construction(t: &mut Table) {
    for g in [URI, IRI] {
        for k in ["full", "abs", "ref", "rel", "query", "frag"] {
            let ty = tyname(k);
            let m = format!("c_{}_{}", gi(g), k);
            let l = move || type_lang(ty, g.iri).unwrap();
            let a = "src/types/generic/*.rs, src/raw.rs, src/spec/internal.rs";
            for (f, e) in [
                ("new", "Err(())"),
                ("try_from_str", "Err(())"),
                ("owned_try_from_str", "Err(())"),
                ("owned_from_str", "Err(())"),
                ("serde_borrowed", "Err(())"),
                ("serde_owned_str", "Err(())"),
                ("serde_owned_string", "Err(())"),
            ] {
                t.add("P04", &format!("{}::r_{}", m, f), &format!("{} of {}<{}> accepts exactly the grammar and keeps the text", f, ty, sp(g)), a, move || vec![ident("Ok($)", l()), x(e, &[diff(utf8(), l())])]);
            }
            for f in ["try_from_bytes", "owned_try_from_bytes"] {
                t.add("P04", &format!("{}::r_{}", m, f), &format!("{} of {}<{}> accepts exactly the grammar and keeps the text", f, ty, sp(g)), a, move || {
                    vec![ident("Ok($)", l()), x("Err(())", &[diff(star(lang::syms(vec![(0, 255)])), l())])]
                });
            }
            t.add("P22", &format!("{}::r_owned_try_from_string", m), &format!("{}<{}> from String gives back the same text in both directions", ty, sp(g)), a, move || vec![ident("Ok($)", l()), ident("Err($)", diff(utf8(), l()))]);
            for f in ["as_str", "as_ref_str", "into_str", "display", "owned_display", "to_owned", "boxed", "owned_into_box", "rc", "arc", "serialize", "owned_serialize"] {
                t.add("P04", &format!("{}::r_{}", m, f), &format!("{} of {}<{}> is the text itself", f, ty, sp(g)), a, move || vec![ident("$", l())]);
            }
            t.add("P04", &format!("{}::r_len", m), &format!("len/is_empty of {}<{}>", ty, sp(g)), a, move || vec![x("true", &[l()])]);
            t.add("P04", &format!("{}::r_owned_views", m), &format!("as_slice/as_ref/borrow/clone of the owned {}<{}>", ty, sp(g)), a, move || vec![x("($, $, $, $)", &[l(), keep(l()), keep(l()), keep(l()), keep(l())])]);
            t.add("P04", &format!("{}::r_cow", m), &format!("Cow of {}<{}>", ty, sp(g)), a, move || vec![x("($, $)", &[l(), keep(l()), keep(l())])]);
        }
        for (f, pre, n) in [("query", "?", "RiQueryStr"), ("frag", "#", "RiFragmentStr")] {
            t.add("P04", &format!("prefixed::r_{}_{}", gi(g), f), &format!("{}<{}>::from_prefixed", n, sp(g)), "src/types/generic/{query,fragment}.rs", move || {
                let l = type_lang(n, g.iri).unwrap();
                let ok = cat(&[s(pre), l]);
                vec![x("Ok($)", &[ok, cat(&[s(pre), keep(l)])]), x("Err(())", &[diff(utf8(), ok)])]
            });
        }
    }
}
fn accessors(t: &mut Table) {
    for g in [URI, IRI] {
        for (kn, k) in KINDS {
            let m = format!("k_{}_{}", gi(g), kn);
            let a = "src/types/generic/*.rs, src/parser/trusted.rs";
            let all = move || g.kind(k);
            // optional piece: label when present / absent
            let mut optp = |prop: &'static str, m: &str, f: &str, anchor: &'static str, kept: &'static [P], absent: &'static [P], present: &'static [P]| {
                t.add(prop, &format!("{}::r_{}", m, f), &format!("{} of {}<{}>", f, tyname(kn), sp(g)), anchor, move || {
                    let yes = pick(g, k, absent, kept);
                    vec![x("Some($)", &[equiv::domain(yes), yes]), x("None", &[pick(g, k, present, &[])])]
                });
            };
            optp("P06", &m, "authority", a, &AUTH, &[P::NoAuth], &[P::Slashes]);
            for f in ["query", "query_str"] {
                optp("P06", &m, f, a, &[P::Query], &[P::NoQuery], &[P::Query]);
            }
            if k != Kind::Absolute {
                for f in ["fragment", "fragment_str"] {
                    optp("P06", &format!("f_{}_{}", gi(g), kn), f, a, &[P::Frag], &[P::NoFrag], &[P::Frag]);
                }
            }
            optp("P07", &m, "host", "src/components/authority.rs, src/parser/trusted.rs", &[P::Host], &[P::NoAuth], &[P::Slashes]);
            t.add("P06", &format!("{}::r_path", m), &format!("path_str of {}<{}>", tyname(kn), sp(g)), a, move || vec![x("$", &[all(), pick(g, k, &[], &[P::Path])])]);
            let ca = "src/components/authority.rs, src/parser/trusted.rs";
            for (f, kept, no) in [("userinfo", &[P::User, P::PwColon, P::Pw][..], P::NoUser), ("port", &[P::Port][..], P::NoPort)] {
                t.add("P07", &format!("{}::r_{}", m, f), &format!("{} of the authority of {}<{}>", f, tyname(kn), sp(g)), ca, move || {
                    let yes = pick(g, k, &[P::NoAuth, no], kept);
                    let has = if no == P::NoUser { P::At } else { P::Port };
                    vec![x("Some(Some($))", &[equiv::domain(yes), yes]), x("Some(None)", &[pick(g, k, &[P::NoAuth, has], &[])]), x("None", &[pick(g, k, &[P::Slashes], &[])])]
                });
            }
            t.add("P07", &format!("{}::r_reg_name", m), &format!("reg_name of the authority of {}<{}>", tyname(kn), sp(g)), ca, move || {
                let name = diff(g.reg_name(), g.ipv4());
                let yes = shape(g, k, &|p, l| match p {
                    P::NoAuth => None,
                    P::Host => Some(keep(name)),
                    _ => Some(l),
                });
                let no = shape(g, k, &|p, l| match p {
                    P::NoAuth => None,
                    P::Host => Some(diff(g.host(), name)),
                    _ => Some(l),
                });
                vec![x("Some(Some($))", &[equiv::domain(yes), yes]), x("Some(None)", &[no]), x("None", &[pick(g, k, &[P::Slashes], &[])])]
            });
            if k != Kind::Absolute {
                let m = format!("f_{}_{}", gi(g), kn);
                let a = "src/types/generic/*.rs (set_fragment), src/raw.rs";
                let rest: Vec<P> = vec![P::Hash, P::Frag];
                t.add("P08", &format!("{}::r_set_fragment_none", m), &format!("set_fragment(None) on {}<{}>", tyname(kn), sp(g)), a, {
                    let rest = rest.clone();
                    move || vec![x("$", &[all(), shape(g, k, &|p, l| if rest.contains(&p) { Some(l) } else { Some(keep(l)) })])]
                });
                t.add("P08", &format!("{}::r_set_fragment_some", m), &format!("set_fragment(Some) on {}<{}>", tyname(kn), sp(g)), a, move || {
                    let body = shape(g, k, &|p, l| if rest.contains(&p) { Some(l) } else { Some(keep(l)) });
                    let sep = lang::syms(vec![(SEP, SEP)]);
                    let dom = cat(&[all(), sep, g.fragment()]);
                    vec![x("$", &[dom, cat(&[body, sep, out("#"), keep(g.fragment())])])]
                });
            }
        }
        // what a resolver shows of its base
        let m = format!("view_{}", gi(g));
        let k = Kind::Absolute;
        let ra = "src/resolve.rs, src/components.rs, src/parser/trusted.rs";
        t.add("P06", &format!("{}::r_base", m), &format!("base of a resolver for {}", sp(g)), ra, move || vec![ident("$", g.kind(k))]);
        for (f, kept) in [("scheme", P::Scheme), ("path", P::Path)] {
            t.add("P06", &format!("{}::r_{}", m, f), &format!("{} of a resolver for {}", f, sp(g)), ra, move || vec![x("$", &[g.kind(k), pick(g, k, &[], &[kept])])]);
        }
        for (f, kept, no, yes) in [("authority", &AUTH[..], P::NoAuth, P::Slashes), ("query", &[P::Query][..], P::NoQuery, P::Query), ("query_str", &[P::Query][..], P::NoQuery, P::Query)] {
            t.add("P06", &format!("{}::r_{}", m, f), &format!("{} of a resolver for {}", f, sp(g)), ra, move || {
                let l = pick(g, k, &[no], kept);
                vec![x("Some($)", &[equiv::domain(l), l]), x("None", &[pick(g, k, &[yes], &[])])]
            });
        }
        for (f, k, some) in [("full", Kind::Full, false), ("abs", Kind::Absolute, false), ("ref", Kind::Reference, true)] {
            t.add("P06", &format!("scheme::r_{}_{}", gi(g), f), &format!("scheme_str of {}<{}>", tyname(f), sp(g)), "src/types/generic/*.rs, src/parser/trusted.rs", move || {
                let yes = pick(g, k, &[P::NoScheme], &[P::Scheme]);
                let l = if some { "Some($)" } else { "$" };
                vec![x(l, &[equiv::domain(yes), yes]), x("None", &[pick(g, k, &[P::Scheme], &[])])]
            });
        }
    }
}
/// The builder: a value is built exactly when its components, put together as RFC 3986 section 5.3
/// says, are a text of the kind that has exactly these components.
fn builder(t: &mut Table) {
    let sep = lang::syms(vec![(SEP, SEP)]);
    let ins = lang::word(&[lang::MARK + 1]);
    let a = "src/build.rs";
    for g in [URI, IRI] {
        for (kn, k) in KINDS {
            let m = format!("b_{}_{}", gi(g), kn);
            // inputs in order; (u)serinfo, user without colon (n), (w) password, (o) port
            for (f, ts) in [("empty", "p"), ("s", "sp"), ("h", "hp"), ("sh", "shp"), ("uh", "uhp"), ("uph", "nwhp"), ("upnone", "nh"), ("ho", "hop"), ("q", "pq"), ("f", "pf"), ("spqf", "spqf"), ("all", "suhopqf"), ("last", "shpqf"), ("unset", "p"), ("unset_inner", "hp")] {
                t.add("P15", &format!("{}::r_{}", m, f), &format!("building a {}<{}> from the components {}", tyname(kn), sp(g), ts), a, move || {
                    let has = |c: char| ts.contains(c);
                    let kind_ok = match k {
                        Kind::Full => has('s'),
                        Kind::Absolute => has('s') && !has('f'),
                        Kind::Reference => true,
                        Kind::Relative => !has('s'),
                    };
                    let mut parts = vec![];
                    let mut all = vec![];
                    for (i, c) in ts.chars().enumerate() {
                        if i > 0 {
                            parts.push(sep);
                            all.push(sep);
                        }
                        all.push(utf8());
                        let user = ts.contains("u") || ts.contains("n");
                        let slashes = |first: bool| if first { out("//") } else { lang::eps() };
                        parts.push(match c {
                            's' => cat(&[keep(g.scheme()), out(":")]),
                            'u' => cat(&[out("//"), keep(g.userinfo()), out("@")]),
                            'n' => cat(&[out("//"), keep(g.user()), if has('w') { out(":") } else { out("@") }]),
                            'w' => cat(&[keep(g.userinfo()), out("@")]),
                            'h' => cat(&[slashes(!user), keep(g.host())]),
                            'o' => cat(&[out(":"), keep(g.port())]),
                            'p' => keep(if has('h') { g.path_abempty() } else if has('s') { g.path_na() } else { g.path_rel() }),
                            'q' => cat(&[out("?"), keep(g.query())]),
                            _ => cat(&[out("#"), keep(g.fragment())]),
                        });
                    }
                    let all = cat(&all);
                    if !kind_ok {
                        return vec![x("None", &[all])];
                    }
                    let yes = cat(&parts);
                    vec![x("Some($)", &[equiv::domain(yes), yes]), x("None", &[diff(all, equiv::domain(yes))])]
                });
            }
            let rf = Kind::Reference;
            for f in ["from", "from_owned"] {
                t.add("P15", &format!("{}::r_{}", m, f), &format!("a builder made from a {}<{}> builds it again", tyname(kn), sp(g)), a, move || vec![ident("Some($)", g.kind(k))]);
            }
            for f in ["from_any", "from_dedicated", "from_into"] {
                t.add("P15", &format!("{}::r_{}", m, f), &format!("a builder made from a reference builds exactly the {}<{}> among them", tyname(kn), sp(g)), a, move || {
                    vec![ident("Some($)", g.kind(k)), x("None", &[diff(g.kind(rf), g.kind(k))])]
                });
            }
            // with one component removed
            let edit = move |f: &str| -> L {
                match f {
                    "query" => shape(g, k, &|p, l| Some(if p == P::QMark || p == P::Query { l } else { keep(l) })),
                    "fragment" => shape(g, if k == Kind::Absolute { Kind::Full } else { k }, &|p, l| Some(if p == P::Hash || p == P::Frag { l } else { keep(l) })),
                    "authority" => shape(g, k, &|p, l| {
                        Some(match p {
                            P::Path => keep(if l == g.path_abempty() { diff(l, cat(&[s("//"), utf8()])) } else { l }),
                            P::Slashes | P::User | P::PwColon | P::Pw | P::At | P::Host | P::PortColon | P::Port => l,
                            _ => keep(l),
                        })
                    }),
                    // scheme
                    _ => {
                        if k == Kind::Full || k == Kind::Absolute {
                            return lang::empty();
                        }
                        shape(g, Kind::Reference, &|p, l| {
                            Some(match p {
                                P::Scheme | P::Colon => l,
                                P::Path => keep(if l == g.path_abempty() { l } else { inter(l, g.path_rel()) }),
                                _ => keep(l),
                            })
                        })
                    }
                }
            };
            for f in ["query", "fragment", "authority", "scheme"] {
                t.add("P15", &format!("{}::r_from_unset_{}", m, f), &format!("unset_{} on a builder made from a reference, building a {}<{}>", f, tyname(kn), sp(g)), a, move || {
                    let yes = edit(f);
                    let dom = equiv::domain(yes);
                    let mut v = vec![x("None", &[diff(g.kind(rf), dom)])];
                    if yes != lang::empty() {
                        v.push(x("Some($)", &[dom, yes]));
                    }
                    v
                });
            }
            // with one component replaced
            for f in ["host", "path", "query"] {
                t.add("P15", &format!("{}::r_from_{}_sym", m, f), &format!("{}() on a builder made from a reference, building a {}<{}>", f, tyname(kn), sp(g)), a, move || {
                    let all = cat(&[g.kind(rf), sep, utf8()]);
                    let yes = match f {
                        "host" => cat(&[
                            shape(g, k, &|p, l| {
                                Some(match p {
                                    P::NoAuth => cat(&[out("//"), ins]),
                                    P::Path => keep(inter(l, g.path_abempty())),
                                    P::Host => cat(&[ins, l]),
                                    _ => keep(l),
                                })
                            }),
                            sep,
                            g.host(),
                        ]),
                        "path" => {
                            let part = |not: [P; 2], new: L| {
                                cat(&[shape(g, k, &|p, l| if not.contains(&p) { None } else { Some(if p == P::Path { cat(&[ins, l]) } else { keep(l) }) }), sep, new])
                            };
                            alt(&[part([P::NoAuth, P::NoAuth], g.path_abempty()), part([P::Slashes, P::NoScheme], g.path_na()), part([P::Slashes, P::Scheme], g.path_rel())])
                        }
                        _ => cat(&[
                            shape(g, k, &|p, l| {
                                Some(match p {
                                    P::NoQuery => cat(&[out("?"), ins]),
                                    P::Query => cat(&[ins, l]),
                                    _ => keep(l),
                                })
                            }),
                            sep,
                            g.query(),
                        ]),
                    };
                    let dom = equiv::domain(yes);
                    vec![x("Some($)", &[dom, yes]), x("None", &[diff(all, dom)])]
                });
            }
        }
    }
}
/// Writers to caller-supplied buffers: a byte buffer of four bytes, a string.
fn writers(t: &mut Table) {
    let a = "src/format.rs";
    let g = || URI.kind(Kind::Reference);
    let whole = move || keep(g());
    let masked = || pw(URI, Kind::Reference, &|p, l| if p == P::Pw { l } else { keep(l) });
    // at most four bytes are written
    let four = || {
        let n = star(lang::syms(vec![(0, 255)]));
        let o = lang::syms(vec![(256, SEP - 1)]);
        cat(&[n, opt(cat(&[o, n])), opt(cat(&[o, n])), opt(cat(&[o, n])), opt(cat(&[o, n]))])
    };
    let fits = move |l: L| inter(l, four());
    for (f, tag) in [("slice", Box::new(whole) as Box<dyn Fn() -> L>), ("slice_mask", Box::new(masked))] {
        let tag = std::rc::Rc::new(tag);
        let t1 = tag.clone();
        t.add("P19", &format!("wr::r_{}_fits", f), "write_to_slice to four bytes succeeds exactly when the text fits", a, move || {
            let yes = equiv::domain(fits(t1()));
            vec![x("true", &[yes]), x("false", &[diff(g(), yes)])]
        });
        t.add("P19", &format!("wr::r_{}_text", f), "write_to_slice to four bytes gives the whole text or an error", a, move || {
            let yes = fits(tag());
            vec![x("Some($)", &[equiv::domain(yes), yes]), x("None", &[diff(g(), equiv::domain(yes))])]
        });
    }
    t.add("P19", "wr::r_append", "try_append_to_string appends the whole text", a, move || vec![x("Some($)", &[g(), cat(&[out("x"), keep(g())])])]);
    t.add("P19", "wr::r_try_to_string", "try_to_string gives the whole text", a, move || vec![ident("Some($)", g())]);
    t.add("P19", "wr::r_try_dedicated", "try_to_dedicated_string gives the whole text", a, move || vec![x("Some($)", &[g(), masked()])]);
}
/// Whole text with the password pieces rewritten.
fn pw(g: G, k: Kind, f: &dyn Fn(P, L) -> L) -> L {
    shape(g, k, &|p, l| Some(f(p, l)))
}
fn password(t: &mut Table) {
    for g in [URI, IRI] {
        for (kn, k) in KINDS {
            let m = format!("k_{}_{}", gi(g), kn);
            let a = "src/mask_password.rs, src/types/generic/macros.rs";
            let all = move || g.kind(k);
            let mut one = |f: &str, what: &str, out: Box<dyn Fn(P, L) -> L>| {
                t.add("P09", &format!("{}::r_{}", m, f), &format!("{} on {}<{}>", what, tyname(kn), sp(g)), a, move || vec![x("$", &[all(), pw(g, k, &*out)])]);
            };
            let hide = |p: P, l: L| if p == P::Pw { l } else { keep(l) };
            one("mask", "mask_password().to_string()", Box::new(hide));
            one("mask_dedicated", "mask_password().to_dedicated_string()", Box::new(hide));
            one("remove_password", "remove_password_inline()", Box::new(|p, l| if p == P::Pw || p == P::PwColon { l } else { keep(l) }));
            one("remove_nonempty_password", "remove_nonempty_password_inline()", Box::new(hide));
            one("mask_replace", "mask_password().replace_password(\"X\")", Box::new(|p, l| if p == P::Pw { cat(&[out("X"), l]) } else { keep(l) }));
            one("mask_replace_with_isempty", "replace_password_with()", Box::new(|p, l| if p == P::Pw { alt(&[out("E"), cat(&[out("N"), diff(l, lang::eps())])]) } else { keep(l) }));
        }
    }
}
fn hosts(t: &mut Table) {
    let sep = lang::syms(vec![(SEP, SEP)]);
    let ins = lang::word(&[lang::MARK + 1]);
    for g in [URI, IRI] {
        for (kn, k) in KINDS {
            let m = format!("k_{}_{}", gi(g), kn);
            let a = "src/types/generic/*.rs (replace_host), src/types/generic.rs";
            for (f, reg) in [("replace_host", false), ("replace_host_reg_name", true), ("try_replace_host", false), ("try_replace_host_reg_name", true)] {
                // values whose host is replaced, and the others
                let old = move || if reg { diff(g.reg_name(), g.ipv4()) } else { g.host() };
                let with = move |mk: &dyn Fn(L) -> L, host: &dyn Fn(L) -> L| {
                    shape(g, k, &|p, l| match p {
                        P::NoAuth => None,
                        P::Host => Some(host(inter(l, old()))),
                        _ => Some(mk(l)),
                    })
                };
                t.add("P10", &format!("{}::r_{}_sym", m, f), &format!("{} on {}<{}> substitutes exactly the host", f, tyname(kn), sp(g)), a, move || {
                    let yes = cat(&[with(&|l| keep(l), &|l| cat(&[ins, l])), sep, g.host()]);
                    let dom = cat(&[g.kind(k), sep, utf8()]);
                    let no = diff(dom, equiv::domain(yes));
                    let tno = alt(&[cat(&[keep(diff(g.kind(k), with(&|l| l, &|l| l))), sep, utf8()]), cat(&[keep(with(&|l| l, &|l| l)), sep, diff(utf8(), g.host())])]);
                    let _ = no;
                    vec![x("$", &[dom, alt(&[yes, tno])])]
                });
                t.add("P10", &format!("{}::r_{}_ret_sym", m, f), &format!("{} on {}<{}> returns the new host exactly when it was put in", f, tyname(kn), sp(g)), a, move || {
                    let w = with(&|l| l, &|l| l);
                    let yes = cat(&[w, sep, g.host()]);
                    let no = diff(cat(&[g.kind(k), sep, utf8()]), yes);
                    let (s, n) = if f.starts_with("try") { ("Some(Some($))", "Some(None)") } else { ("Some($)", "None") };
                    vec![x(s, &[yes, cat(&[ins, yes])]), x(n, &[no])]
                });
            }
        }
    }
}
fn kinds(t: &mut Table) {
    for g in [URI, IRI] {
        let m = format!("kd_{}", gi(g));
        let a = "src/types/generic/*.rs, src/convert.rs";
        let mut same = |f: &str, k: Kind, what: &str| t.add("P05", &format!("{}::r_{}", m, f), &format!("{} ({})", what, sp(g)), a, move || vec![ident("$", g.kind(k))]);
        use Kind::*;
        for (f, k) in [("abs_as_full", Absolute), ("abs_as_ref", Absolute), ("full_as_ref", Full), ("rel_as_ref", Relative), ("abs_into_full", Absolute), ("abs_into_ref", Absolute), ("full_into_ref", Full), ("rel_into_ref", Relative)] {
            same(f, k, "a wider kind views the same text");
        }
        for (f, k) in [("owned_abs_into_full", Absolute), ("owned_abs_into_ref", Absolute), ("owned_full_into_ref", Full), ("owned_rel_into_ref", Relative)] {
            same(f, k, "a wider kind owns the same text");
        }
        for (f, from, to, e) in [
            ("full_try_abs", Full, Absolute, false),
            ("ref_try_full", Reference, Full, false),
            ("ref_try_abs", Reference, Absolute, false),
            ("ref_try_rel", Reference, Relative, false),
            ("to_iri", Reference, Full, true),
            ("to_relative_iri", Reference, Relative, true),
            ("owned_full_try_abs", Full, Absolute, true),
            ("owned_ref_try_full", Reference, Full, true),
            ("owned_ref_try_abs", Reference, Absolute, true),
            ("owned_ref_try_rel", Reference, Relative, true),
            ("into_iri", Reference, Full, true),
            ("into_relative_iri", Reference, Relative, true),
        ] {
            t.add("P05", &format!("{}::r_{}", m, f), &format!("{}: narrowing succeeds exactly on the narrower grammar, keeps the text ({})", f, sp(g)), a, move || {
                let no = diff(g.kind(from), g.kind(to));
                vec![ident("Ok($)", g.kind(to)), if e { ident("Err($)", no) } else { x("Err(())", &[no]) }]
            });
        }
        for f in ["to_absolute", "into_absolute"] {
            t.add("P05", &format!("{}::r_{}", m, f), &format!("{} drops exactly the fragment ({})", f, sp(g)), a, move || {
                vec![x("$", &[g.full(), shape(g, Full, &|p, l| Some(if p == P::Hash || p == P::Frag { l } else { keep(l) }))])]
            });
        }
        for f in ["to_absolute_and_fragment", "into_absolute_and_fragment"] {
            t.add("P05", &format!("{}::r_{}", m, f), &format!("{} splits at the fragment ({})", f, sp(g)), a, move || {
                let body = shape(g, Full, &|p, l| if p == P::NoFrag { None } else { Some(if p == P::Hash || p == P::Frag { l } else { keep(l) }) });
                let fr = pick(g, Full, &[P::NoFrag], &[P::Frag]);
                vec![x("($, Some($))", &[equiv::domain(fr), body, fr]), x("($, None)", &[g.absolute(), keep(g.absolute())])]
            });
        }
        t.add("P07", &format!("{}::r_ref_components", m), &format!("AuthorityComponents::from_iri host ({})", sp(g)), "src/components/authority.rs", move || {
            let yes = pick(g, Reference, &[P::NoAuth], &[P::Host]);
            vec![x("Some($)", &[equiv::domain(yes), yes]), x("None", &[pick(g, Reference, &[P::Slashes], &[])])]
        });
    }
}
/// The RFC 3987 mapping: every non-ASCII character becomes its UTF-8 octets, percent-encoded.
pub fn to_uri(l: L) -> L {
    let hi: Vec<L> = (0x80u16..0x100).map(|b| cat(&[lang::syms(vec![(b, b)]), out(&format!("%{:02X}", b))])).collect();
    let each = star(alt(&[keep(lang::syms(vec![(0, 0x7F)])), alt(&hi)]));
    // restrict the input side
    equiv::restrict(each, l)
}
/// Every comparison agrees with the comparison of the texts: the harness function is constantly true.
fn comparisons(t: &mut Table) {
    let sep = lang::syms(vec![(SEP, SEP)]);
    let a = "src/types/generic/macros.rs";
    let ks = ["full", "abs", "ref", "rel", "query", "frag"];
    let ty = |k: &str| tyname(k);
    for g in [URI, IRI] {
        for k in ks {
            let l = move || type_lang(ty(k), g.iri).unwrap();
            let m = format!("eq_{}_{}", gi(g), k);
            for f in ["hash", "owned_hash"] {
                t.add("P18", &format!("{}::r_{}", m, f), &format!("hash of {}<{}> is the hash of its text", ty(k), sp(g)), a, move || vec![x("true", &[l()])]);
            }
            for f in ["slice_slice", "rslice_slice", "rslice_cowslice", "owned_owned", "owned_slice", "owned_rslice", "owned_cowslice"] {
                t.add("P18", &format!("{}::r_{}", m, f), &format!("==, != and order of {} with {}<{}> are those of the texts", f, ty(k), sp(g)), a, move || vec![x("true", &[cat(&[l(), sep, l()])])]);
            }
            for f in ["slice_str", "slice_rstr", "rslice_str", "slice_cowstr", "rslice_cowstr", "owned_str", "owned_rstr", "owned_cowstr", "owned_string"] {
                t.add("P18", &format!("{}::r_{}", m, f), &format!("==, != and order of {} with {}<{}> are those of the texts", f, ty(k), sp(g)), a, move || vec![x("true", &[cat(&[l(), sep, utf8()])])]);
            }
        }
    }
    for k in ks {
        for f in ["rslice_slice", "rslice_cowslice", "owned_owned", "owned_slice", "owned_rslice", "owned_cowslice"] {
            t.add("P18", &format!("es_{}::r_{}", k, f), &format!("==, != and order of {} between the IRI and the URI {} are those of the texts", f, ty(k)), a, move || {
                vec![x("true", &[cat(&[type_lang(ty(k), true).unwrap(), sep, type_lang(ty(k), false).unwrap()])])]
            });
        }
    }
    for (g, h) in [(IRI, IRI), (IRI, URI), (URI, IRI), (URI, URI)] {
        for (k, j) in [("abs", "full"), ("abs", "ref"), ("full", "ref"), ("rel", "ref")] {
            for f in ["slice_slice", "rslice_slice", "slice_rslice", "slice_cow", "rslice_cow", "cow_slice", "cow_rslice", "slice_owned", "rslice_owned", "cow_owned", "owned_slice", "owned_rslice", "owned_cow", "owned_owned"] {
                t.add("P18", &format!("ex_{}{}_{}_{}::r_{}", gi(g), gi(h), k, j, f), &format!("==, != and order of {} between {}<{}> and {}<{}> are those of the texts", f, ty(k), sp(g), ty(j), sp(h)), a, move || {
                    vec![x("true", &[cat(&[type_lang(ty(k), g.iri).unwrap(), sep, type_lang(ty(j), h.iri).unwrap()])])]
                });
            }
        }
    }
    for f in ["slice_slice", "owned_owned"] {
        t.add("P18", &format!("et::r_{}", f), &format!("==, != and order of {} of URI templates are those of the texts", f), "src/template/string.rs", move || vec![x("true", &[cat(&[ascii_template(), sep, ascii_template()])])]);
    }
    for f in ["slice_str", "slice_rstr", "rslice_str", "slice_cowstr", "rslice_cowstr", "owned_str", "owned_rstr", "owned_cowstr", "owned_string"] {
        t.add("P18", &format!("et::r_{}", f), &format!("==, != and order of {} of URI templates are those of the texts", f), "src/template/string.rs", move || vec![x("true", &[cat(&[ascii_template(), sep, utf8()])])]);
    }
    for f in ["hash", "owned_hash"] {
        t.add("P18", &format!("et::r_{}", f), "hash of a URI template is the hash of its text", "src/template/string.rs", move || vec![x("true", &[ascii_template()])]);
    }
}
fn templates(t: &mut Table) {
    let a = "src/template/parser/validate.rs, src/template/string.rs, src/template/string/owned.rs";
    // literals outside ASCII are rejected: recorded finding
    let foreign = || diff(template(), ascii_template());
    for f in ["new", "try_from_str", "owned_try_from_str", "owned_from_str"] {
        let r = format!("template::r_{}", f);
        t.add("P16", &r, &format!("{}: exactly the templates of RFC 6570", f), a, move || vec![ident("Ok($)", template()), x("Err(())", &[diff(utf8(), template())])]);
        t.known(&r, "template-non-ascii-literal", "Err(())", foreign);
    }
    for f in ["try_from_bytes", "owned_try_from_bytes"] {
        let r = format!("template::r_{}", f);
        t.add("P16", &r, &format!("{}: exactly the templates of RFC 6570", f), a, move || vec![ident("Ok($)", template()), x("Err(())", &[diff(star(lang::syms(vec![(0, 255)])), template())])]);
        t.known(&r, "template-non-ascii-literal", "Err(())", foreign);
    }
    let r = "template::r_owned_try_from_string";
    t.add("P16", r, "owned template from String gives back the same text in both directions", a, move || vec![ident("Ok($)", template()), ident("Err($)", diff(utf8(), template()))]);
    t.known(r, "template-non-ascii-literal", "Err($)", foreign);
    t.add("P16", "template::r_varname", "VarName::new: exactly the varname production", "src/template/components.rs", move || vec![ident("Ok($)", varname()), x("Err(())", &[diff(utf8(), varname())])]);
    let l = ascii_template;
    for f in ["as_str", "as_ref_str", "into_str", "display", "owned_display", "to_owned", "boxed", "owned_into_box", "rc", "arc"] {
        t.add("P16", &format!("template::r_{}", f), &format!("{} of a template is the text itself", f), a, move || vec![ident("$", l())]);
    }
    t.add("P16", "template::r_len", "len/is_empty of a template", a, move || vec![x("true", &[l()])]);
    t.add("P16", "template::r_owned_views", "as_slice/as_ref/borrow/clone of the owned template", a, move || vec![x("($, $, $, $)", &[l(), keep(l()), keep(l()), keep(l()), keep(l())])]);
    t.add("P16", "template::r_append", "append concatenates", a, move || {
        let sep = lang::syms(vec![(SEP, SEP)]);
        vec![x("$", &[cat(&[l(), sep, l()]), cat(&[keep(l()), sep, keep(l())])])]
    });
    // variables
    let va = "src/template/string.rs (variables), src/template/components.rs, src/template/parser.rs";
    let lits = || star(ascii_literals());
    let rest = || cat(&[star(cat(&[s(","), varspec()])), s("}"), ascii_template()]);
    let modi = || opt(alt(&[cat(&[s(":"), maxlen()]), s("*")]));
    t.add("P16", "template::r_var_first", "variables(): the first variable name", va, move || {
        let yes = cat(&[lits(), s("{"), opt(operator()), keep(varname()), modi(), rest()]);
        vec![x("Some($)", &[equiv::domain(yes), yes]), x("None", &[lits()])]
    });
    t.add("P16", "template::r_var_second", "variables(): the second variable name", va, move || {
        let one = cat(&[lits(), s("{"), opt(operator()), varspec()]);
        let yes = alt(&[cat(&[one, s(","), keep(varname()), modi(), rest()]), cat(&[one, s("}"), lits(), s("{"), opt(operator()), keep(varname()), modi(), rest()])]);
        vec![x("Some($)", &[equiv::domain(yes), yes]), x("None", &[alt(&[lits(), cat(&[one, s("}"), lits()])])])]
    });
}
fn mapping(t: &mut Table) {
    for k in ["full", "abs", "ref", "rel", "query", "frag"] {
        let m = format!("m_{}", k);
        let ty = tyname(k);
        let a = "src/convert.rs, src/types/iri.rs, src/types/uri.rs";
        let i = move || type_lang(ty, true).unwrap();
        let u = move || type_lang(ty, false).unwrap();
        for f in ["uri_as_iri", "owned_uri_as_iri", "owned_uri_into_iri"] {
            t.add("P14", &format!("{}::r_{}", m, f), &format!("{} of {}: a URI is the same IRI", f, ty), a, move || vec![ident("$", u())]);
        }
        t.add("P14", &format!("{}::r_as_uri", m), &format!("as_uri of {}: exactly the URIs", ty), a, move || vec![ident("Some($)", u()), x("None", &[diff(i(), u())])]);
        t.add("P14", &format!("{}::r_try_into_uri", m), &format!("try_into_uri of {}", ty), a, move || vec![ident("Ok($)", u()), ident("Err($)", diff(i(), u()))]);
        for (f, l) in [("encode_display_sb", "$"), ("encode_dedicated_sb", "$")] {
            t.add("P14", &format!("{}::r_{}", m, f), &format!("{} of {}: RFC 3987 section 3.1 mapping", f, ty), a, move || vec![x(l, &[i(), to_uri(i())])]);
            t.init(&format!("{}::r_{}", m, f), || vec![lang::all_bytes()]);
        }
    }
}
/// characters of `ok` are kept, all others become their UTF-8 octets, percent-encoded
pub fn encoded_except(ok: L) -> L {
    let each: Vec<L> = (0u16..0x100).map(|b| cat(&[lang::syms(vec![(b, b)]), out(&format!("%{:02X}", b))])).collect();
    let one_char = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
    let enc = equiv::restrict(star(alt(&each)), diff(one_char, ok));
    star(alt(&[keep(ok), enc]))
}
/// RFC 6570 section 3.2.1: how one operator writes values
#[derive(Clone, Copy)]
struct Op {
    id: &'static str,
    op: &'static str,
    first: &'static str,
    sep: &'static str,
    named: bool,
    ifemp: &'static str,
    reserved: bool,
}
const OPS: [Op; 8] = [
    Op { id: "none", op: "", first: "", sep: ",", named: false, ifemp: "", reserved: false },
    Op { id: "plus", op: "+", first: "", sep: ",", named: false, ifemp: "", reserved: true },
    Op { id: "dot", op: ".", first: ".", sep: ".", named: false, ifemp: "", reserved: false },
    Op { id: "slash", op: "/", first: "/", sep: "/", named: false, ifemp: "", reserved: false },
    Op { id: "semi", op: ";", first: ";", sep: ";", named: true, ifemp: "", reserved: false },
    Op { id: "query", op: "?", first: "?", sep: "&", named: true, ifemp: "=", reserved: false },
    Op { id: "amp", op: "&", first: "&", sep: "&", named: true, ifemp: "=", reserved: false },
    Op { id: "hash", op: "#", first: "#", sep: ",", named: false, ifemp: "", reserved: true },
];
fn reserved() -> L {
    one(":/?#[]@!$&'()*+,;=")
}
/// section 1.5 and 3.2.1: a value with everything but the allowed characters percent-encoded
fn enc(g: G, res: bool) -> L {
    // (for IRIs, RFC 6570 knows no private characters; everything that may appear in an IRI is kept, as by `PercentEncoded::characters`)
    let ok = if res { alt(&[g.unreserved(), reserved(), if g.iri { iprivate() } else { lang::empty() }]) } else { g.unreserved() };
    if !res {
        return encoded_except(ok);
    }
    // triplets are copied, other percent signs are encoded
    let stray = cat(&[s("%"), out("%25")]);
    let each: Vec<L> = (0u16..0x100).map(|b| cat(&[lang::syms(vec![(b, b)]), out(&format!("%{:02X}", b))])).collect();
    let one_char = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
    let other = equiv::restrict(star(alt(&each)), diff(one_char, alt(&[ok, s("%")])));
    let all = star(alt(&[keep(ok), keep(pct()), other, stray]));
    let any = || star(lang::syms(vec![(0, SEP - 1)]));
    diff(all, cat(&[any(), stray, keep(hexdig()), keep(hexdig()), any()]))
}
/// texts with at most two percent signs
fn two(plain: &dyn Fn() -> L) -> L {
    cat(&[plain(), rep(cat(&[s("%"), plain()]), 0, 2)])
}
fn expand(t: &mut Table) {
    let an = "src/template/expand.rs, src/template/string.rs, src/parser/str/maybe_pct_encoded.rs";
    let line = || cat(&[star(lang::syms(vec![(0, 9), (11, 255)])), s("\n"), lang::all_bytes()]);
    for g in [URI, IRI] {
        for o in OPS {
            for small in [false, true] {
            if small && o.reserved { continue; }
            let sfx = if small { "0" } else { "" };
            let m = format!("ex_{}_{}", gi(g), o.id);
            let plain = || star(lang::cset_lang(&lang::cs(vec![(0, 0x24), (0x26, 0xD7FF), (0xE000, 0x10FFFF)])));
            // texts given to the reserved operators in the cases with several values: without percent signs
            let dom = move || if o.reserved || small { plain() } else { utf8() };
            let v = move || equiv::restrict(enc(g, o.reserved), dom());
            let nonempty = move |l: L| equiv::restrict(l, diff(utf8(), lang::eps()));
            // name and value
            let named = move |name: &str, l: L| {
                if !o.named {
                    return l;
                }
                alt(&[cat(&[out(name), out("="), nonempty(l)]), out(&format!("{}{}", name, o.ifemp))])
            };
            let x1 = move |l: L| equiv::restrict(l, star(lang::syms(vec![(0, 9), (11, 255)])));
            let nl = || s("\n");
            let pair = move |f: &dyn Fn(L, L) -> L| {
                let l = f(x1(v()), v());
                let d = equiv::domain(l);
                vec![x("None", &[diff(dom(), line())]), x("Some($)", &[d, l])]
            };
            let w = format!("{{{}…}} in a template expanded for {}{}", o.op, sp(g), if small { ", values without percent signs" } else { "" });
            t.add("P17", &format!("{}::r_x{}_sb", m, sfx), &format!("{}: one string", w), an, move || {
                let d = if o.reserved { two(&plain) } else { dom() };
                let e = equiv::restrict(enc(g, o.reserved), d);
                vec![x("Some($)", &[d, cat(&[out(o.first), if o.named { alt(&[cat(&[out("x="), nonempty(e)]), out(&format!("x{}", o.ifemp))]) } else { e }])])]
            });
            if !small { t.add("P17", &format!("{}::r_un", m), &format!("{}: an undefined variable and an empty string", w), an, move || {
                let n = if o.named { format!("n{}", o.ifemp) } else { String::new() };
                vec![x("Some($)", &[utf8(), out(&format!("a{}{}b", o.first, n))])]
            }); }
            if !small { t.add("P17", &format!("{}::r_ef", m), &format!("{}: nothing but undefined and empty collections", w), an, move || vec![x("Some($)", &[utf8(), out("ab")])]); }
            t.add("P17", &format!("{}::r_xs{}_sb", m, sfx), &format!("{}: a string between undefined and empty variables", w), an, move || vec![x("Some($)", &[dom(), cat(&[out(o.first), named("x", v())])])]);
            t.add("P17", &format!("{}::r_nx{}_sb", m, sfx), &format!("{}: an empty string and the first character of a string", w), an, move || {
                let one_char = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
                let l = alt(&[equiv::restrict(v(), lang::eps()), cat(&[equiv::restrict(v(), one_char), dom()])]);
                let n = if o.named { format!("n{}", o.ifemp) } else { String::new() };
                vec![x("Some($)", &[dom(), cat(&[out("b"), out(o.first), out(&n), out(o.sep), named("x", l), out("c")])])]
            });
            for (r, k) in if small { vec![] } else { vec![("lp", "a list"), ("dp", "an associative array")] } {
                t.add("P17", &format!("{}::r_{}_sb", m, r), &format!("{}: {} with a prefix modifier", w, k), an, move || vec![x("None", &[utf8()])]);
            }
            t.add("P17", &format!("{}::r_xy{}_sb", m, sfx), &format!("{}: two strings and an undefined variable between them", w), an, move || {
                pair(&|a, b| cat(&[out(o.first), named("x", a), nl(), out(o.sep), named("y", b)]))
            });
            t.add("P17", &format!("{}::r_x3{}_sb", m, sfx), &format!("{}: the first three characters of a string", w), an, move || {
                let one_char = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
                let pre = equiv::restrict(v(), rep(one_char, 0, 3));
                let long = cat(&[equiv::restrict(v(), rep(one_char, 3, 3)), dom()]);
                let l = alt(&[pre, long]);
                vec![x("Some($)", &[dom(), cat(&[out(o.first), named("x", l)])])]
            });
            t.add("P17", &format!("{}::r_l{}_sb", m, sfx), &format!("{}: a list", w), an, move || {
                pair(&|a, b| cat(&[out(o.first), if o.named { out("l=") } else { lang::eps() }, a, nl(), out(","), b, out(",d")]))
            });
            t.add("P17", &format!("{}::r_le{}_sb", m, sfx), &format!("{}: an exploded list", w), an, move || {
                let d = if o.named { "l=d" } else { "d" };
                pair(&|a, b| cat(&[out(o.first), named("l", a), nl(), out(o.sep), named("l", b), out(o.sep), out(d)]))
            });
            t.add("P17", &format!("{}::r_d{}_sb", m, sfx), &format!("{}: an associative array", w), an, move || {
                pair(&|a, b| cat(&[out(o.first), if o.named { out("d=") } else { lang::eps() }, a, nl(), out(","), b, out(",k,d")]))
            });
            t.add("P17", &format!("{}::r_de{}_sb", m, sfx), &format!("{}: an exploded associative array", w), an, move || {
                let k = if o.named { format!("k{}", o.ifemp) } else { "k=".to_string() };
                pair(&|a, b| {
                    let ab = if o.named { alt(&[cat(&[a, nl(), out("="), nonempty(b)]), cat(&[a, nl(), out(o.ifemp)])]) } else { cat(&[a, nl(), out("="), b]) };
                    cat(&[out(o.first), ab, out(o.sep), out(&k)])
                })
            });
            t.add("P17", &format!("{}::r_g{}_sb", m, sfx), &format!("{}: an associative array whose second entry is any", w), an, move || {
                pair(&|a, b| cat(&[out(o.first), out(if o.named { "g=" } else { "" }), out("k,v,"), a, nl(), out(","), b]))
            });
            t.add("P17", &format!("{}::r_ge{}_sb", m, sfx), &format!("{}: an exploded associative array whose second entry is any", w), an, move || {
                pair(&|a, b| {
                    let ab = if o.named { alt(&[cat(&[a, nl(), out("="), nonempty(b)]), cat(&[a, nl(), out(o.ifemp)])]) } else { cat(&[a, nl(), out("="), b]) };
                    cat(&[out(o.first), out("k=v"), out(o.sep), ab])
                })
            });
            // a value that is written in two pieces
            let pieces = move |parts: Vec<(L, L)>| {
                let l: Vec<L> = parts.into_iter().map(|(a, b)| {
                    if !o.named {
                        return cat(&[out(o.first), a, nl(), b]);
                    }
                    let e = |l: L| equiv::restrict(l, lang::eps());
                    alt(&[
                        cat(&[out(o.first), out("p="), nonempty(a), nl(), b]),
                        cat(&[out(o.first), out("p="), e(a), nl(), nonempty(b)]),
                        cat(&[out(o.first), out("p"), out(o.ifemp), e(a), nl(), e(b)]),
                    ])
                }).collect();
                let l = alt(&l);
                vec![x("None", &[diff(dom(), line())]), x("Some($)", &[equiv::domain(l), l])]
            };
            t.add("P17", &format!("{}::r_p{}_sb", m, sfx), &format!("{}: a value that is written in two pieces", w), an, move || pieces(vec![(x1(v()), v())]));
            t.add("P17", &format!("{}::r_p2{}_sb", m, sfx), &format!("{}: the first two characters of a value that is written in two pieces", w), an, move || {
                let one_char = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
                let line_char = diff(one_char, s("\n"));
                let first = |n: u32| {
                    let short = (0..n).map(|i| equiv::restrict(v(), rep(one_char, i, i))).collect::<Vec<_>>();
                    let long = if n == 0 { dom() } else { cat(&[equiv::restrict(v(), rep(one_char, n, n)), dom()]) };
                    alt(&[alt(&short), long])
                };
                let rest = star(lang::syms(vec![(0, 9), (11, 255)]));
                let all2 = equiv::restrict(cat(&[equiv::restrict(v(), rep(line_char, 2, 2)), dom()]), inter(rest, dom()));
                pieces(vec![
                    (equiv::restrict(v(), lang::eps()), first(2)),
                    (equiv::restrict(v(), line_char), first(1)),
                    (all2, dom()),
                ])
            });
            if o.reserved {
                t.init(&format!("{}::r_x_sb", m), move || vec![two(&plain)]);
            } else if small {
                t.init(&format!("{}::r_x0_sb", m), move || vec![plain()]);
            }
            if o.reserved || small {
                for r in ["xs", "nx", "xy", "x3", "l", "le", "d", "de", "g", "ge", "p", "p2"] {
                    t.init(&format!("{}::r_{}{}_sb", m, r, sfx), move || vec![plain()]);
                }
            }
            }
        }
        t.add("P17", &format!("expand::r_nothing_{}_sb", gi(g)), &format!("any template expanded for {} without any variable defined", sp(g)), an, move || {
            vec![x("Some($)", &[ascii_template(), star(alt(&[keep(ascii_literals()), expression()]))])]
        });
    }
    t.add("P17", "expand::r_dynamic_sb", "a{x}b{?u,y:2} expanded with a mutable context", an, move || {
        let one_char = lang::cset_lang(&lang::cs(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
        let e = enc(URI, false);
        let a = equiv::restrict(e, star(lang::syms(vec![(0, 9), (11, 255)])));
        let b = alt(&[equiv::restrict(e, rep(one_char, 0, 2)), cat(&[equiv::restrict(e, rep(one_char, 2, 2)), utf8()])]);
        let l = cat(&[out("a"), a, s("\n"), out("b?y="), b]);
        vec![x("None", &[diff(utf8(), line())]), x("Some($)", &[equiv::domain(l), l])]
    });
}
fn anything() -> L {
    star(lang::syms(vec![(0, SEP - 1)]))
}
fn with(l: L) -> L {
    cat(&[anything(), l, anything()])
}
fn without(l: L) -> L {
    diff(anything(), with(l))
}
/// percent-encoded characters that case and percent-encoding normalization changes: lowercase digits, unreserved characters
fn unnormal_pct(g: G) -> L {
    let lower = alt(&[cat(&[s("%"), rng(b'a', b'f')]), cat(&[s("%"), hexdig(), rng(b'a', b'f')])]);
    let each: Vec<L> = (0u16..0x100).map(|b| cat(&[lang::syms(vec![(b, b)]), out(&format!("%{:02X}", b))])).collect();
    let enc = equiv::restrict(star(alt(&each)), g.unreserved());
    alt(&[lower, lang::output_of(enc)])
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Default,
    Rfc3986,
    Preserving,
}
/// RFC 3986 section 6.2.2, RFC 3987 section 5.3.2: the normalized texts
fn normalized(g: G, k: Kind, m: Mode) -> L {
    let good = without(unnormal_pct(g));
    let upper = rng(b'A', b'Z');
    let nonascii = alt(&[rng(0x80, 0xFF), cat(&[s("%"), alt(&[rng(b'8', b'9'), rng(b'A', b'F'), rng(b'a', b'f')]), hexdig()])]);
    let tripl = cat(&[s("%"), alt(&[digit(), upper]), alt(&[digit(), upper])]);
    let lower = star(alt(&[lang::syms(vec![(0, 0x24), (0x26, 0x40), (0x5B, 0xFF)]), tripl]));
    let host = alt(&[inter(inter(g.host(), good), with(nonascii)), diff(inter(inter(g.host(), good), lower), with(nonascii))]);
    let port = cat(&[s(":"), plus(digit())]);
    let auth = cat(&[opt(cat(&[inter(g.userinfo(), good), s("@")])), host, opt(port)]);
    let dots = alt(&[s("."), s("..")]);
    let nodots = diff(lang::all_bytes(), alt(&[dots, cat(&[dots, s("/"), lang::all_bytes()]), cat(&[lang::all_bytes(), s("/"), dots]), cat(&[lang::all_bytes(), s("/"), dots, s("/"), lang::all_bytes()])]));
    let na = inter(g.path_na(), good);
    let clean = inter(na, nodots);
    // the WHATWG form for a path that would otherwise look like an authority
    let whatwg = inter(na, cat(&[s("/.//"), nodots]));
    let path = match m {
        Mode::Rfc3986 => clean,
        Mode::Default => alt(&[clean, whatwg]),
        Mode::Preserving => alt(&[clean, whatwg, diff(na, cat(&[s("/"), lang::all_bytes()]))]),
    };
    let hier = alt(&[cat(&[s("//"), auth, inter(inter(g.path_abempty(), good), nodots)]), path]);
    let scheme = diff(g.scheme(), with(upper));
    let f = if k == Kind::Full { opt(cat(&[s("#"), inter(g.fragment(), good)])) } else { lang::eps() };
    cat(&[scheme, s(":"), hier, opt(cat(&[s("?"), inter(g.query(), good)])), f])
}
/// a percent-encoded octet that stays encoded, its digits in upper case
fn stays(b: u16) -> L {
    let d = |x: u16| {
        let (u, l) = (format!("{:X}", x), format!("{:x}", x));
        if x < 10 { keep(s(&u)) } else { alt(&[keep(s(&u)), cat(&[s(&l), out(&u)])]) }
    };
    cat(&[keep(s("%")), d(b >> 4), d(b & 15)])
}
/// a percent-encoded octet in either case, as input only
fn triplet(b: u16) -> L {
    let d = |x: u16| alt(&[s(&format!("{:X}", x)), s(&format!("{:x}", x))]);
    cat(&[s("%"), d(b >> 4), d(b & 15)])
}
/// case and percent-encoding normalization (RFC 3986 sections 6.2.2.1 and 6.2.2.2) of any text whose percent signs start triplets
fn pct_normal(g: G, lower: bool) -> L {
    let un = |b: u16| b < 128 && (b as u8 as char).is_ascii_alphanumeric() || b < 128 && "-._~".contains(b as u8 as char);
    let case = |b: u16| if lower && b < 128 { (b as u8 as char).to_ascii_lowercase() } else { b as u8 as char };
    let mut v = vec![];
    for b in 0u16..128 {
        if un(b) {
            v.push(cat(&[triplet(b), out(&case(b).to_string())]));
        } else {
            v.push(stays(b));
        }
        if b != 0x25 {
            let plain = lang::syms(vec![(b, b)]);
            v.push(if case(b) as u16 == b { keep(plain) } else { cat(&[plain, out(&case(b).to_string())]) });
        }
    }
    v.push(keep(lang::syms(vec![(0x80, 0xFF)])));
    let high: Vec<L> = (128u16..256).map(stays).collect();
    v.push(alt(&high));
    if !g.iri {
        return star(alt(&v));
    }
    let (mut dec, mut undec) = (vec![], vec![]);
    let mut cs = vec![];
    lang::chars_in(ucschar(), 0, 0x10FFFF, &mut cs);
    let mut seqs = vec![];
    for (lo, hi) in cs {
        for (lo, hi) in [(lo, hi.min(0xD7FF)), (lo.max(0xE000), hi)] {
            if lo <= hi {
                lang::utf8_seqs(lo, hi, &mut seqs);
            }
        }
    }
    for q in &seqs {
        let part = |f: &dyn Fn(u16) -> L| cat(&q.iter().map(|(lo, hi)| alt(&(*lo as u16..=*hi as u16).map(f).collect::<Vec<_>>())).collect::<Vec<_>>());
        dec.push(part(&|b| cat(&[triplet(b), lang::as_output(lang::syms(vec![(b, b)]))])));
        undec.push(part(&stays));
    }
    v.push(alt(&dec));
    let any = || star(lang::syms(vec![(0, SEP - 1)]));
    diff(star(alt(&v)), cat(&[any(), alt(&undec), any()]))
}
fn lowercase() -> L {
    let each: Vec<L> = (0u16..256).map(|b| if (65..=90).contains(&b) { cat(&[lang::syms(vec![(b, b)]), out(&((b + 32) as u8 as char).to_string())]) } else { keep(lang::syms(vec![(b, b)])) }).collect();
    star(alt(&each))
}
/// `remove_dot_segments` (RFC 3986 section 5.2.4) on paths of `n` segments, each from the given language, joined by slashes
/// (after a leading slash if `absolute`), with the `/.` the WHATWG prescribes before a `//` if there is no authority
fn dotless(seg: L, norm: L, n: usize, absolute: bool, auth: bool) -> L {
    dotless_each(&vec![seg; n], norm, absolute, auth)
}
fn dotless_each(segs: &[L], norm: L, absolute: bool, auth: bool) -> L {
    let lead: Vec<L> = (0..segs.len()).map(|i| if i > 0 || absolute { s("/") } else { lang::eps() }).collect();
    alt(&dotless_parts(segs, &lead, norm, absolute, auth).into_iter().map(|x| x.1).collect::<Vec<_>>())
}
/// the cases, and whether the result of RFC 3986 would start with two slashes; `lead` is the input before each segment
fn dotless_parts(segs: &[L], lead_in: &[L], norm: L, absolute: bool, auth: bool) -> Vec<(bool, L)> {
    let n = segs.len();
    let d1 = alt(&[s("."), s("%2e"), s("%2E")]);
    let d2 = cat(&[d1, d1]);
    let kinds: Vec<[L; 4]> = segs.iter().map(|seg| [inter(*seg, d1), inter(*seg, d2), inter(*seg, lang::eps()), diff(*seg, alt(&[d1, d2, lang::eps()]))]).collect();
    let mut all = vec![];
    let open: Vec<Vec<usize>> = kinds.iter().map(|k| (0..4).filter(|&j| k[j] != lang::empty()).collect()).collect();
    for code in 0..open.iter().map(|x| x.len()).product() {
        let mut c: usize = code;
        let k: Vec<usize> = open.iter().map(|x| { let v = x[c % x.len()]; c /= x.len(); v }).collect();
        if !absolute && n > 1 && k[0] == 2 {
            continue;
        }
        // (slash, segment or none)
        let mut o: Vec<(bool, Option<usize>)> = vec![];
        let mut lead = absolute;
        for i in 0..n {
            let last = i + 1 == n;
            match k[i] {
                // a leading `./` or `../`, or the whole rest `.` or `..`
                0 | 1 if !lead => continue,
                0 | 1 => {
                    if k[i] == 1 {
                        o.pop();
                    }
                    if last {
                        o.push((true, None));
                    }
                }
                _ => o.push((lead, Some(i))),
            }
            lead = true;
        }
        let empty = |x: Option<usize>| x.map_or(true, |i| k[i] == 2);
        // what is left after a leading `./` may begin with a slash
        let f = o.first().map_or(0, |x| (!x.0 && empty(x.1)) as usize);
        let guard = !auth && o.len() > f + 1 && o[f].0 && empty(o[f].1);
        let mut p = vec![if guard { out("/.") } else { lang::eps() }];
        let mut done = 0;
        let skip = |p: &mut Vec<L>, from: usize, to: usize| {
            for i in from..to {
                p.push(lead_in[i]);
                p.push(kinds[i][k[i]]);
            }
        };
        for (slash, i) in &o {
            if *slash {
                p.push(out("/"));
            }
            if let Some(i) = i {
                skip(&mut p, done, *i);
                p.push(lead_in[*i]);
                p.push(equiv::restrict(norm, kinds[*i][k[*i]]));
                done = i + 1;
            }
        }
        skip(&mut p, done, n);
        all.push((guard, cat(&p)));
    }
    all
}
fn normalizer(t: &mut Table, an: &'static str, g: G, k: Kind, kn: &str) {
    let m = format!("n_{}_{}", gi(g), kn);
    let nopct = || lang::syms(vec![(0, 0x24), (0x26, 0xFF)]);
    let pre = |x: &str| keep(s(x));
    let r = |n: L, l: L| equiv::restrict(n, l);
    let n = move || pct_normal(g, false);
    let segs = move || inter(g.segment(), star(nopct()));
    let mut add = |root: &str, what: &str, f: Box<dyn Fn() -> L>| {
        let name = format!("{}::{}", m, root);
        let f = std::rc::Rc::new(f);
        let f2 = f.clone();
        t.add("P12", &name, &format!("normalization of {:?} values for {}: {}", k, sp(g), what), an, move || {
            let l = f();
            vec![x("$", &[equiv::domain(l), l])]
        });
        t.init(&name, move || vec![equiv::domain(f2())]);
    };
    add("r_norm_opaque_sb", "a scheme and a path without slash and with at most two percent-encoded octets", Box::new(move || cat(&[r(lowercase(), g.scheme()), pre(":"), dotless(inter(g.segment(), cat(&[star(nopct()), rep(cat(&[s("%"), star(nopct())]), 0, 2)])), n(), 1, false, false)])));
    let f = move || if k == Kind::Full { opt(cat(&[pre("#"), r(n(), g.fragment())])) } else { lang::eps() };
    add("r_norm_tail_sb", "query and fragment", Box::new(move || cat(&[pre("a:"), opt(cat(&[pre("?"), r(n(), g.query())])), f()])));
    add("r_norm_userinfo_sb", "userinfo", Box::new(move || cat(&[pre("a://"), r(n(), g.userinfo()), pre("@b")])));
    // a host is lowercased if it is ASCII only
    let ascii = || star(lang::syms(vec![(0, 127)]));
    add("r_norm_host_sb", "registered name or IPv4 address without percent-encoding", Box::new(move || {
        let h = inter(g.reg_name(), star(nopct()));
        cat(&[pre("a://"), alt(&[r(lowercase(), inter(h, ascii())), keep(diff(h, ascii()))])])
    }));
    add("r_norm_pcthost_sb", "registered name with at most one percent-encoded octet", Box::new(move || {
        let h = inter(g.reg_name(), cat(&[star(nopct()), opt(cat(&[s("%"), star(nopct())]))]));
        let high = cat(&[s("%"), alt(&[rng(b'8', b'9'), rng(b'A', b'F'), rng(b'a', b'f')]), hexdig()]);
        let a = diff(inter(h, ascii()), with(high));
        cat(&[pre("a://"), alt(&[r(pct_normal(g, true), a), r(n(), diff(h, a))])])
    }));
    add("r_norm_literal_sb", "IPvFuture literals and IPv6 literals of up to six characters", Box::new(move || {
        let short = inter(g.ipv6(), rep(alt(&[hexdig(), s(":")]), 0, 6));
        cat(&[pre("a://["), r(lowercase(), alt(&[short, g.ipvfuture()])), pre("]")])
    }));
    add("r_norm_port_sb", "userinfo, host and port", Box::new(move || {
        let port = opt(alt(&[s(":"), keep(cat(&[s(":"), plus(digit())]))]));
        cat(&[pre("a://"), opt(keep(s("u@"))), keep(opt(s("b"))), port, keep(opt(s("/"))), opt(keep(s("?")))])
    }));
    for (root, auth) in [("r_norm_path_sb", true), ("r_pres_path_sb", true)] {
        add(root, "up to four path segments without percent-encoding after an authority", Box::new(move || {
            let d = |i| dotless(segs(), star(keep(nopct())), i, true, auth);
            cat(&[pre("a://b"), alt(&[lang::eps(), d(1), d(2), d(3), d(4)])])
        }));
    }
    for (root, n) in [("r_norm_deep8_sb", 8), ("r_norm_deep7_sb", 7)] {
        add(root, &format!("{} fixed path segments, followed by two others without percent-encoding", n), Box::new(move || {
            let mut v: Vec<L> = (1..=n).map(|i| s(&i.to_string())).collect();
            v.extend([segs(), segs()]);
            cat(&[pre("a://b"), dotless_each(&v, star(keep(nopct())), true, true)])
        }));
    }
    let few = |n: usize| vec![alt(&[s("a"), s("."), s(".."), lang::eps()]); n];
    let copy = move || star(keep(nopct()));
    add("r_norm_chain_sb", "four or five segments `a`, `.`, `..` or empty after an authority", Box::new(move || {
        cat(&[pre("a://b"), alt(&[dotless_each(&few(4), copy(), true, true), dotless_each(&few(5), copy(), true, true)])])
    }));
    add("r_norm_chain_absolute_sb", "three or four segments `a`, `.`, `..` or empty after a slash, no authority", Box::new(move || {
        cat(&[pre("a:"), inter2(alt(&[dotless_each(&few(3), copy(), true, false), dotless_each(&few(4), copy(), true, false)]), g.path_na())])
    }));
    add("r_norm_chain_rootless_sb", "three or four segments `a`, `.`, `..` or empty, no slash before, no authority", Box::new(move || {
        cat(&[pre("a:"), inter2(alt(&[dotless_each(&few(3), copy(), false, false), dotless_each(&few(4), copy(), false, false)]), g.path_na())])
    }));
    add("r_norm_pctpath_sb", "a path segment of up to three letters, dots and percent-encoded characters after another one", Box::new(move || {
        let seg = rep(alt(&[one("a."), cat(&[s("%"), one("2C"), one("2eEF")])]), 0, 3);
        cat(&[pre("a://b"), dotless_each(&[s("c"), seg], n(), true, true)])
    }));
    for root in ["r_norm_absolute_sb", "r_pres_absolute_sb"] {
        add(root, "up to three segments after a slash, no authority", Box::new(move || {
            let d = |i| dotless(segs(), star(keep(nopct())), i, true, false);
            cat(&[pre("a:"), inter2(alt(&[d(1), d(2), d(3)]), g.path_na())])
        }));
    }
    add("r_norm_rootless_sb", "up to three segments, no slash before, no authority", Box::new(move || {
        let d = |i| dotless(segs(), star(keep(nopct())), i, false, false);
        cat(&[pre("a:"), inter2(alt(&[d(1), d(2), d(3)]), g.path_na())])
    }));
    add("r_pres_rootless_sb", "a path without leading slash, no authority", Box::new(move || {
        cat(&[pre("a:"), r(n(), g.path_rootless())])
    }));
}
/// the part of a transduction on a language of inputs
fn inter2(a: L, l: L) -> L {
    equiv::restrict(a, l)
}
/// RFC 3986 section 5.2.2 for a base with the given path (leading slash, segments) and references with up to `m` path segments
fn resolved(g: G, scheme: L, auth: Option<L>, abs: bool, base_segs: &[L], m: usize, norm: bool) -> L {
    let text = star(lang::syms(vec![(0, 0x24), (0x26, 0xFF)]));
    let seg = inter(g.segment(), text);
    let base = base_segs.len();
    let q = |l: &dyn Fn(L) -> L| opt(l(cat(&[s("?"), g.query()])));
    let del = |l: L| l;
    let keep = |l: L| if norm { equiv::restrict(pct_normal(g, false), l) } else { self::keep(l) };
    let pre = if norm { cat(&[s("B"), out("b"), self::keep(s("://")), s("H"), out("h")]) } else { cat(&[keep(cat(&[scheme, s(":")])), match auth { Some(a) => keep(cat(&[s("//"), a])), None => lang::eps() }]) };
    let isauth = auth.is_some();
    // the path of the base, valid without authority
    let shape = |abs: bool| -> L {
        let segs: Vec<L> = base_segs.iter().enumerate().map(|(i, x)| cat(&[if i > 0 || abs { s("/") } else { lang::eps() }, *x])).collect();
        let p = cat(&segs);
        if isauth { p } else { inter(p, g.path_na()) }
    };
    let tail = cat(&[opt(keep(cat(&[s("?"), g.query()]))), opt(keep(cat(&[s("#"), g.fragment()])))]);
    let frag = opt(keep(cat(&[s("#"), g.fragment()])));
    let mut v = vec![];
    // no path in the reference; normalization also removes the dot segments of the base
    let own = if norm && base > 0 { equiv::restrict(dotless_each(base_segs, star(self::keep(lang::syms(vec![(0, 0xFF)]))), abs, isauth), shape(abs)) } else { keep(shape(abs)) };
    v.push(cat(&[own, q(&del), s("\n"), keep(cat(&[s("?"), g.query()])), frag]));
    v.push(cat(&[own, q(&keep), s("\n"), frag]));
    for n in 1..=m {
        // an absolute path; any input before it is dropped
        let segs = vec![seg; n];
        let mut lead = vec![s("/"); n];
        let all: Vec<L> = dotless_parts(&segs, &lead, star(self::keep(lang::syms(vec![(0, 0xFF)]))), true, isauth).into_iter().map(|x| x.1).collect();
        let abspath = equiv::restrict(alt(&all), g.path_absolute());
        v.push(cat(&[shape(abs), q(&del), s("\n"), abspath, tail]));
        // a relative path
        let kept = base.saturating_sub(1);
        let merged_abs = if base == 0 { isauth } else { abs || kept > 0 };
        let last = if base > 0 { cat(&[if abs || kept > 0 { s("/") } else { lang::eps() }, base_segs[kept]]) } else { lang::eps() };
        let mut segs = base_segs[..kept].to_vec();
        let first = if n == 1 { diff(inter(seg, g.segment_nz_nc()), lang::eps()) } else { inter(seg, g.segment_nz_nc()) };
        segs.push(first);
        segs.extend(vec![seg; n - 1]);
        lead = (0..kept).map(|i| if i > 0 || abs { s("/") } else { lang::eps() }).collect();
        lead.push(cat(&[last, q(&del), s("\n")]));
        lead.extend(vec![s("/"); n - 1]);
        // a base without leading slash keeps its first segment as such
        let absolute = if kept > 0 { abs } else { merged_abs };
        let parts: Vec<L> = dotless_parts(&segs, &lead, star(self::keep(lang::syms(vec![(0, 0xFF)]))), absolute, isauth).into_iter().map(|x| x.1).collect();
        let ok = cat(&[if base > 0 { shape(abs) } else { lang::eps() }, q(&del), s("\n"), star(lang::syms(vec![(0, 0xFF)]))]);
        v.push(cat(&[equiv::restrict(alt(&parts), ok), tail]));
    }
    cat(&[pre, alt(&v)])
}
fn resolution(t: &mut Table) {
    let an = "src/resolve.rs, src/normalize.rs, src/normalize/path.rs";
    for g in [URI, IRI] {
        let mut add = |root: &str, what: &str, f: Box<dyn Fn() -> L>| {
            let name = format!("res_{}::{}", gi(g), root);
            let f = std::rc::Rc::new(f);
            let f2 = f.clone();
            t.add("P11", &name, &format!("resolution for {}: {}", sp(g), what), an, move || {
                let l = f();
                vec![x("Some($)", &[equiv::domain(l), l])]
            });
            t.init(&name, move || vec![equiv::domain(f2())]);
        };
        let a = || s("a");
        let seg = move || inter(g.segment(), star(lang::syms(vec![(0, 0x24), (0x26, 0xFF)])));
        for n in [8, 9] {
            add(&format!("r_deep{}_sb", n), &format!("base with {} fixed path segments, reference of up to two path segments", n), Box::new(move || {
                let base: Vec<L> = (1..=n).map(|i| s(&i.to_string())).collect();
                resolved(g, a(), Some(s("h")), true, &base, 2, false)
            }));
        }
        for n in 0..3 {
            add(&format!("r_auth{}_sb", n), &format!("base with an authority and {} path segments, reference of up to {} path segments without authority", n, if n < 2 { 3 } else { 2 }), Box::new(move || resolved(g, a(), Some(s("h")), true, &vec![seg(); n], if n < 2 { 3 } else { 2 }, false)));
        }
        add("r_base_sb", "base with any scheme and authority and one path segment, reference without path or with one path segment", Box::new(move || resolved(g, g.scheme(), Some(g.authority()), true, &[seg()], 1, false)));
        for n in 0..3 {
            add(&format!("r_rootless{}_sb", n), &format!("base without authority and with {} segments in a path without leading slash", n), Box::new(move || resolved(g, a(), None, false, &vec![seg(); n], if n < 2 { 3 } else { 2 }, false)));
        }
        for n in 1..3 {
            add(&format!("r_absolute{}_sb", n), &format!("base without authority and with {} segments after a slash", n), Box::new(move || resolved(g, a(), None, true, &vec![seg(); n], if n < 2 { 3 } else { 2 }, false)));
        }
        for n in 0..2 {
            add(&format!("r_and_normalize{}_sb", n), &format!("resolution with normalization: base with an authority and {} path segments, reference of up to two path segments", n), Box::new(move || resolved(g, a(), Some(s("H")), true, &vec![seg(); n], 2, true)));
        }
        add("r_full_sb", "reference with a scheme or an authority", Box::new(move || {
            let seg = inter(g.segment(), star(lang::syms(vec![(0, 0x24), (0x26, 0xFF)])));
            let copy = || star(keep(lang::syms(vec![(0, 0xFF)])));
            let d = |n: usize, abs: bool, auth: bool| dotless(seg, copy(), n, abs, auth);
            let tail = cat(&[opt(keep(cat(&[s("?"), g.query()]))), opt(keep(cat(&[s("#"), g.fragment()])))]);
            let hier = alt(&[
                cat(&[keep(cat(&[s("//"), g.authority()])), alt(&[lang::eps(), d(1, true, true), d(2, true, true)])]),
                equiv::restrict(alt(&[lang::eps(), d(1, true, false), d(2, true, false), d(1, false, false), d(2, false, false)]), g.path_na()),
            ]);
            let auth = cat(&[keep(cat(&[s("//"), g.authority()])), alt(&[lang::eps(), d(1, true, true), d(2, true, true)])]);
            let rest = cat(&[opt(s("//h/x")), opt(s("?q")), s("\n")]);
            alt(&[
                cat(&[s("a:"), rest, keep(cat(&[g.scheme(), s(":")])), hier, tail]),
                cat(&[keep(s("a:")), rest, auth, tail]),
            ])
        }));
    }
}
fn normal(t: &mut Table) {
    let an = "src/normalize.rs, src/normalize/pct_case.rs, src/normalize/path.rs, src/parser/trusted.rs, src/types/generic/normal.rs";
    for g in [URI, IRI] {
        for (k, kn) in [(Kind::Full, "full"), (Kind::Absolute, "abs")] {
            for (m, r, what) in [(Mode::Default, "r_is_normalized", "is_normalized"), (Mode::Rfc3986, "r_is_normalized_rfc3986", "is_normalized_rfc3986"), (Mode::Preserving, "r_is_normalized_preserving", "is_normalized_but_authorityless_relative_path_preserved")] {
                t.add("P12", &format!("n_{}_{}::{}", gi(g), kn, r), &format!("{} of {:?} values for {}", what, k, sp(g)), an, move || {
                    let y = normalized(g, k, m);
                    vec![x("true", &[y]), x("false", &[diff(g.kind(k), y)])]
                });
            }
            normalizer(t, an, g, k, kn);
        }
    }
}
fn percent(t: &mut Table) {
    let an = "src/percent_encode.rs";
    for g in [URI, IRI] {
        let m = if g.iri { "pe_i" } else { "pe_u" };
        let mut go = |f: &'static str, ok: fn(G) -> L| {
            t.add("P13", &format!("{}::r_{}_sb", m, f), &format!("percent-encoding in the context {} of {}", f, sp(g)), an, move || vec![x("$", &[utf8(), encoded_except(ok(g))])]);
        };
        go("reg_name", |g| alt(&[g.unreserved(), subdelims()]));
        go("user", |g| alt(&[g.unreserved(), subdelims()]));
        go("password", |g| alt(&[g.unreserved(), subdelims()]));
        go("path_segment", |g| alt(&[g.unreserved(), subdelims(), one(":@")]));
        go("path", |g| alt(&[g.unreserved(), subdelims(), one(":@/")]));
        go("query", |g| alt(&[g.unreserved(), subdelims(), one(":@/?"), if g.iri { iprivate() } else { lang::empty() }]));
        go("fragment", |g| alt(&[g.unreserved(), subdelims(), one(":@/?")]));
        go("unreserve", |g| g.unreserved());
        go("characters", |g| alt(&[g.unreserved(), subdelims(), one(":/?#[]@"), if g.iri { iprivate() } else { lang::empty() }]));
    }
    let dn = "src/percent_encode/decode.rs";
    let all = || lang::all_bytes();
    let has_triplet = || cat(&[lang::all_bytes(), pct(), lang::all_bytes()]);
    t.add("P13", "percent::r_not_yet_decoded", "not_yet_decoded is the input", dn, move || vec![ident("$", all())]);
    t.add("P13", "percent::r_to_bytes", "to_bytes: the input unless it has a triplet", dn, move || vec![ident("Some($)", diff(all(), has_triplet())), x("None", &[has_triplet()])]);
    t.add("P13", "percent::r_fragment_next", "the first fragment and the rest", dn, move || {
        let plain = || lang::syms(vec![(0, b'%' as u16 - 1), (b'%' as u16 + 1, 255)]);
        let rest = || opt(cat(&[s("%"), lang::all_bytes()]));
        let d = cat(&[plus(plain()), rest()]);
        let stray = cat(&[s("%"), diff(lang::all_bytes(), cat(&[hexdig(), hexdig(), lang::all_bytes()]))]);
        let trip = cat(&[pct(), all()]);
        vec![
            x("None", &[lang::eps()]),
            x("Some((0, $, $))", &[d, cat(&[keep(plus(plain())), rest()]), cat(&[plus(plain()), keep(rest())])]),
            x("Some((1, $, $))", &[stray, stray, cat(&[s("%"), keep(diff(lang::all_bytes(), cat(&[hexdig(), hexdig(), lang::all_bytes()])))])]),
            x("Some((2, $, $))", &[trip, trip, cat(&[pct(), keep(all())])]),
        ]
    });
    let triplets = || {
        let mut v = vec![];
        for b in 0u16..0x100 {
            let hx = |n: u16| alt(&[s(&format!("{:x}", n)), s(&format!("{:X}", n))]);
            v.push(cat(&[s("%"), hx(b >> 4), hx(b & 15), lang::as_output(lang::syms(vec![(b, b)]))]));
        }
        v
    };
    // leftmost-greedy decoding
    let dec = move || {
        let v = triplets();
        let plain = keep(lang::syms(vec![(0, b'%' as u16 - 1), (b'%' as u16 + 1, 255)]));
        let two = keep(cat(&[hexdig(), hexdig()]));
        // texts in which no kept percent sign starts a triplet
        let bad = cat(&[star(lang::syms(vec![(0, SEP)])), keep(s("%")), two, star(lang::syms(vec![(0, SEP)]))]);
        diff(star(alt(&[plain, keep(s("%")), alt(&v)])), bad)
    };
    t.add("P13", "percent::r_into_bytes_sb", "into_bytes decodes exactly the triplets", dn, move || vec![x("$", &[all(), dec()])]);
    t.add("P13", "percent::r_fragment_byte_sb", "the byte of a fragment that is a decoded triplet", dn, move || {
        let trip = cat(&[pct(), all()]);
        let decoded = cat(&[alt(&triplets()), all()]);
        vec![x("None", &[diff(all(), trip)]), x("Some($)", &[trip, decoded])]
    });
}
fn validators(t: &mut Table) {
    for g in [URI, IRI] {
        let m = if g.iri { "iri" } else { "uri" };
        let p = if g.iri { "P02" } else { "P01" };
        let sp = if g.iri { "IriSpec" } else { "UriSpec" };
        let mut go = |f: &'static str, prop, l: fn(G) -> L| {
            t.add(prop, &format!("v_{}::r_{}", m, f), &format!("validate::{}::<{}>", f, sp), "src/validate.rs", move || pred(l(g), utf8()));
        };
        go("iri", p, G::full);
        go("iri_reference", p, G::reference);
        go("absolute_iri", p, G::absolute);
        go("relative_ref", p, G::relative);
        go("path", p, G::path);
        go("query", p, G::query);
        go("fragment", p, G::fragment);
        go("authority", "P03", G::authority);
        go("host", "P03", G::host);
        go("scheme", p, G::scheme);
        go("path_segment", p, G::segment);
        go("port", "P03", G::port);
        go("reg_name", "P03", |g| diff(g.reg_name(), g.ipv4()));
        go("userinfo", "P03", G::userinfo);
    }
}
