//! Passes over the generic MIR and the types of the analysed crate itself (no instantiation).
//!
//! * `errflow` (P19): assuming that a write reported an error, every path to the return reports failure.
//! * `surface` (P23): what safe code can reach of the types that carry a grammar.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::collections::{BTreeMap, BTreeSet};

/// What is known of a value.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Sh {
    Unk,
    /// the error itself, or something made from it
    Err,
    Var(u32, Vec<Sh>),
    Int(u128),
    Ref(String),
}
impl Sh {
    fn carries(&self) -> bool {
        match self {
            Sh::Err => true,
            Sh::Var(_, v) => v.iter().any(|x| x.carries()),
            _ => false,
        }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct St {
    env: BTreeMap<String, Sh>,
    lost: bool,
}
pub struct Finding {
    pub fun: String,
    pub span: String,
    pub text: String,
}
#[derive(Default)]
pub struct Flow {
    pub sites: usize,
    pub exempt: usize,
    pub paths: usize,
    pub bad: Vec<Finding>,
    pub undecided: Vec<Finding>,
    pub functions: Vec<(String, usize)>,
}
struct An<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    paths: usize,
}
fn adt_name<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<String> {
    match t.kind() {
        ty::Adt(a, _) => Some(tcx.def_path_str(a.did())),
        _ => None,
    }
}
fn is(n: &str, suffix: &str) -> bool {
    n.ends_with(suffix)
}
/// Is the type an error reported by a destination (or derived from one)?
fn is_error<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    let Some(n) = adt_name(tcx, t) else { return false };
    is(&n, "fmt::Error") || is(&n, "TryReserveError") || is(&n, "CapacityOverflowError")
}
/// Template expansion reports a failed write with its own error type.
fn is_template_error<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    adt_name(tcx, t).map_or(false, |n| n == "template::error::Error")
}
fn mentions_template_error<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    t.walk().any(|g| match g.kind() {
        GenericArgKind::Type(t) => is_template_error(tcx, t),
        _ => false,
    })
}
/// Functions of the crate which write (return a write error, or call one which does).
fn writers<'tcx>(tcx: TyCtxt<'tcx>, ids: &[LocalDefId]) -> HashSet<DefId> {
    let mut calls: HashMap<DefId, HashSet<DefId>> = HashMap::default();
    let mut w: HashSet<DefId> = HashSet::default();
    for id in ids {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        for data in body.basic_blocks.iter() {
            if let TerminatorKind::Call { func, destination, .. } = &data.terminator().kind {
                if let Some((f, _)) = func.const_fn_def() {
                    calls.entry(d).or_default().insert(f);
                }
                let rt = destination.ty(&body.local_decls, tcx).ty;
                if !shapes(tcx, rt).is_empty() && !mentions_template_error(tcx, rt) {
                    w.insert(d);
                }
            }
        }
    }
    loop {
        let n = w.len();
        for (d, c) in &calls {
            if c.iter().any(|x| w.contains(x)) {
                w.insert(*d);
            }
        }
        if w.len() == n {
            return w;
        }
    }
}
/// The shapes of a value of type `t` which carry such an error.
fn shapes<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Vec<Sh> {
    if is_error(tcx, t) || is_template_error(tcx, t) {
        return vec![Sh::Err];
    }
    let mut r = vec![];
    if let ty::Adt(a, args) = t.kind() {
        let n = tcx.def_path_str(a.did());
        let k = if is(&n, "result::Result") { 0 } else if is(&n, "option::Option") { 1 } else if is(&n, "ControlFlow") { 2 } else { return r };
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        // field type of each variant
        let fields: Vec<(u32, Ty<'tcx>)> = match k {
            0 => vec![(0, tys[0]), (1, tys[1])],
            1 => vec![(1, tys[0])],
            _ => vec![(0, tys[1]), (1, tys[0])],
        };
        for (v, ft) in fields {
            for s in shapes(tcx, ft) {
                r.push(Sh::Var(v, vec![s]));
            }
            if k == 2 && v == 1 && matches!(ft.kind(), ty::Param(_)) {
                r.push(Sh::Var(1, vec![Sh::Err]));
            }
        }
    }
    r
}
/// Does returning this value report failure?
fn fails(tcx: TyCtxt<'_>, s: &Sh, t: Ty<'_>) -> bool {
    match (s, t.kind()) {
        (Sh::Err, _) => true,
        (Sh::Var(v, f), ty::Adt(a, args)) => {
            let n = tcx.def_path_str(a.did());
            let tys: Vec<_> = args.types().collect();
            if is(&n, "result::Result") {
                *v == 1 || f.first().map_or(false, |x| fails(tcx, x, tys[0]))
            } else if is(&n, "ControlFlow") {
                *v == 1
            } else if is(&n, "option::Option") {
                // None out of a conversion that can only fail by writing
                f.first().map_or(false, |x| fails(tcx, x, tys[0]))
            } else {
                s.carries()
            }
        }
        _ => false,
    }
}
/// A writer which owns all its state cannot be the caller's destination.
fn closed_writer<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    let t = t.peel_refs();
    let ty::Adt(a, args) = t.kind() else { return false };
    let n = tcx.def_path_str(a.did());
    if n.ends_with("string::String") {
        return true; // writing to a String reports no error
    }
    if !a.did().is_local() || !a.is_struct() {
        return false;
    }
    let w = tcx.all_traits_including_private().find(|t| tcx.def_path_str(*t).ends_with("fmt::Write"));
    let Some(w) = w else { return false };
    let implements = tcx.all_local_trait_impls(()).get(&w).map_or(false, |v| {
        v.iter().any(|i| matches!(tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip().kind(), ty::Adt(b, _) if b.did() == a.did()))
    });
    implements && a.all_fields().all(|f| own(tcx, f.ty(tcx, args).skip_norm_wip()))
}
fn own<'tcx>(_tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    !t.walk().any(|g| match g.kind() {
        GenericArgKind::Type(t) => matches!(t.kind(), ty::Ref(_, _, Mutability::Mut) | ty::RawPtr(..) | ty::Param(_) | ty::Dynamic(..) | ty::Alias(..) | ty::Closure(..)),
        _ => false,
    })
}
impl<'tcx> An<'tcx> {
    fn key(&self, p: Place<'tcx>) -> String {
        format!("{:?}", p)
    }
    fn read(&self, body: &Body<'tcx>, st: &St, p: Place<'tcx>) -> Sh {
        if let Some(s) = st.env.get(&self.key(p)) {
            return s.clone();
        }
        // the longest known prefix, then its fields
        for k in (0..p.projection.len()).rev() {
            let pre = Place { local: p.local, projection: self.tcx.mk_place_elems(&p.projection[..k]) };
            let Some(s) = st.env.get(&self.key(pre)) else { continue };
            let mut s = s.clone();
            let mut i = k;
            while i < p.projection.len() {
                s = match (p.projection[i], s) {
                    (PlaceElem::Downcast(_, v), Sh::Var(w, f)) => if v.as_u32() == w { Sh::Var(w, f) } else { return Sh::Unk },
                    (PlaceElem::Field(n, _), Sh::Var(_, f)) => f.get(n.index()).cloned().unwrap_or(Sh::Unk),
                    (PlaceElem::Deref, Sh::Ref(k)) => st.env.get(&k).cloned().unwrap_or(Sh::Unk),
                    (_, Sh::Err) => Sh::Err,
                    _ => return Sh::Unk,
                };
                i += 1;
            }
            return s;
        }
        let _ = body;
        Sh::Unk
    }
    fn write(&self, st: &mut St, p: Place<'tcx>, s: Sh) {
        let k = self.key(p);
        if p.projection.is_empty() {
            // everything below the local is overwritten
            let pre = format!("{:?}", p.local);
            st.env.retain(|x, _| !mentions(x, &pre));
        }
        if s == Sh::Unk {
            st.env.remove(&k);
            // a partly known aggregate is no longer known
            if !p.projection.is_empty() {
                st.env.remove(&format!("{:?}", p.local));
            }
        } else {
            st.env.insert(k, s);
        }
    }
    fn operand(&self, body: &Body<'tcx>, st: &St, o: &Operand<'tcx>) -> Sh {
        match o {
            Operand::Copy(p) | Operand::Move(p) => match self.read(body, st, *p) {
                Sh::Unk if matches!(p.ty(&body.local_decls, self.tcx).ty.kind(), ty::Ref(..)) => Sh::Ref(format!("(*{:?})", p)),
                x => x,
            },
            Operand::Constant(c) => {
                if let Some(v) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
                    return Sh::Int(v.to_bits(v.size()));
                }
                // `Err(fmt::Error)` and the like may be a constant
                let t = c.const_.ty();
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                                if let Some(i) = d.variant {
                                    let n = d.fields.len();
                                    return Sh::Var(i.as_u32(), vec![Sh::Unk; n]);
                                }
                            }
                        }
                    }
                }
                Sh::Unk
            }
            #[allow(unreachable_patterns)]
            _ => Sh::Unk,
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, st: &St, r: &Rvalue<'tcx>) -> Sh {
        match r {
            Rvalue::Use(o, ..) | Rvalue::Cast(_, o, _) => self.operand(body, st, o),
            Rvalue::Ref(_, _, p) => Sh::Ref(self.key(*p)),
            Rvalue::Aggregate(k, f) => {
                let fs: Vec<Sh> = f.iter().map(|o| self.operand(body, st, o)).collect();
                match &**k {
                    AggregateKind::Adt(_, v, ..) => Sh::Var(v.as_u32(), fs),
                    AggregateKind::Tuple => Sh::Var(0, fs),
                    _ => Sh::Unk,
                }
            }
            Rvalue::Discriminant(p) => match self.read(body, st, *p) {
                Sh::Var(v, _) => {
                    let t = p.ty(&body.local_decls, self.tcx).ty;
                    if let ty::Adt(a, _) = t.kind() {
                        if a.is_enum() {
                            return Sh::Int(a.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(v)).val);
                        }
                    }
                    Sh::Unk
                }
                _ => Sh::Unk,
            },
            Rvalue::UnaryOp(UnOp::Not, o) => match self.operand(body, st, o) {
                Sh::Int(x) if x < 2 => Sh::Int(1 - x),
                _ => Sh::Unk,
            },
            _ => Sh::Unk,
        }
    }
    /// The value a call returns when one of its arguments carries the error; None when it diverges.
    fn call(&mut self, body: &Body<'tcx>, st: &mut St, f: &Operand<'tcx>, args: &[Sh], ret: Ty<'tcx>, depth: usize) -> Option<Vec<Sh>> {
        let Some((did, cargs)) = f.const_fn_def() else {
            st.lost |= args.iter().any(|a| self.reaches(st, a));
            return Some(vec![Sh::Unk]);
        };
        let n = self.tcx.def_path_str(did);
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        let a0 = args.first().cloned().unwrap_or(Sh::Unk);
        let deref = |s: &Sh| match s {
            Sh::Ref(k) => st.env.get(k).cloned().unwrap_or(Sh::Unk),
            x => x.clone(),
        };
        if !args.iter().any(|a| self.reaches(st, a)) {
            // the combinators are still understood for known variants
            if !matches!(deref(&a0), Sh::Var(..)) {
                return Some(vec![Sh::Unk]);
            }
        }
        let kind = |t: &str| n.contains(t);
        let v = deref(&a0);
        let res = kind("result::Result") || kind("Result::<");
        let opt = kind("option::Option") || kind("Option::<");
        let ctl = kind("ControlFlow");
        let out = match last.as_str() {
            "branch" => {
                let t = cargs.types().next();
                match (v, t.and_then(|t| adt_name(self.tcx, t))) {
                    (Sh::Var(i, f), Some(a)) => {
                        if is(&a, "result::Result") {
                            if i == 1 { Sh::Var(1, vec![Sh::Var(1, f)]) } else { Sh::Var(0, f) }
                        } else if is(&a, "option::Option") {
                            if i == 0 { Sh::Var(1, vec![Sh::Var(0, vec![])]) } else { Sh::Var(0, f) }
                        } else if i == 1 {
                            Sh::Var(1, vec![Sh::Var(1, f)])
                        } else {
                            Sh::Var(0, f)
                        }
                    }
                    _ => Sh::Unk,
                }
            }
            "from_residual" | "from" | "into" | "clone" | "from_output" => v,
            "is_err" if res => match v { Sh::Var(i, _) => Sh::Int((i == 1) as u128), _ => Sh::Unk },
            "is_ok" if res => match v { Sh::Var(i, _) => Sh::Int((i == 0) as u128), _ => Sh::Unk },
            "is_some" if opt => match v { Sh::Var(i, _) => Sh::Int((i == 1) as u128), _ => Sh::Unk },
            "is_none" if opt => match v { Sh::Var(i, _) => Sh::Int((i == 0) as u128), _ => Sh::Unk },
            "is_break" if ctl => match v { Sh::Var(i, _) => Sh::Int((i == 1) as u128), _ => Sh::Unk },
            "is_continue" if ctl => match v { Sh::Var(i, _) => Sh::Int((i == 0) as u128), _ => Sh::Unk },
            "unwrap" | "expect" if res || opt => match v {
                Sh::Var(1, _) if res => return None,
                Sh::Var(0, _) if opt => return None,
                Sh::Var(_, f) => f.first().cloned().unwrap_or(Sh::Unk),
                _ => Sh::Unk,
            },
            "unwrap_err" | "expect_err" | "into_err" if res => match v { Sh::Var(1, f) => f[0].clone(), Sh::Var(..) => return None, _ => Sh::Unk },
            "map_err" if res => match v { Sh::Var(1, _) => Sh::Var(1, vec![Sh::Err]), x => x },
            "map" | "and_then" | "and" | "inspect" | "inspect_err" | "as_ref" | "as_mut" | "copied" | "cloned" | "map_or_default" if res => match v {
                Sh::Var(1, f) => Sh::Var(1, f),
                Sh::Var(0, f) if f.iter().any(|x| x.carries()) => Sh::Var(0, f),
                _ => Sh::Unk,
            },
            "ok" if res => match v { Sh::Var(1, _) => Sh::Var(0, vec![]), Sh::Var(_, f) => Sh::Var(1, f), _ => Sh::Unk },
            "err" if res => match v { Sh::Var(1, f) => Sh::Var(1, f), Sh::Var(..) => Sh::Var(0, vec![]), _ => Sh::Unk },
            "ok_or" | "ok_or_else" if opt => match v { Sh::Var(0, _) => Sh::Var(1, vec![Sh::Err]), Sh::Var(_, f) => Sh::Var(0, f), _ => Sh::Unk },
            "map" | "and_then" if opt => match v { Sh::Var(0, _) => Sh::Var(0, vec![]), Sh::Var(_, f) if last == "map" && f.iter().any(|x| x.carries()) => Sh::Var(1, f), _ => Sh::Unk },
            "map_or" | "map_or_else" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" | "or" | "or_else" | "is_ok_and" | "is_err_and" | "is_some_and" | "iter" | "into_iter" if res || opt => Sh::Unk,
            "drop" | "forget" => Sh::Unk,
            _ => {
                // a function of the crate: analyse it with the argument
                if did.is_local() && depth < 3 && self.tcx.is_mir_available(did) && self.tcx.trait_of_assoc(did).is_none() {
                    let cb = self.tcx.optimized_mir(did);
                    let mut s = St { env: BTreeMap::new(), lost: false };
                    for (i, a) in args.iter().enumerate() {
                        let l = Local::from_usize(i + 1);
                        match a {
                            Sh::Ref(k) => {
                                for (e, x) in &st.env {
                                    if mentions(e, k) {
                                        s.env.insert(e.replace(k.as_str(), &format!("(*{:?})", l)), x.clone());
                                    }
                                }
                            }
                            Sh::Unk => {}
                            x => {
                                s.env.insert(format!("{:?}", l), x.clone());
                            }
                        }
                    }
                    if let Some(outs) = self.explore(cb, START_BLOCK, s, depth + 1) {
                        let mut r: Vec<Sh> = vec![];
                        for (o, lost) in outs {
                            st.lost |= lost;
                            if !r.contains(&o) {
                                r.push(o);
                            }
                        }
                        return if r.is_empty() { None } else { Some(r) };
                    }
                }
                st.lost = true;
                let _ = ret;
                Sh::Unk
            }
        };
        Some(vec![out])
    }
    fn reaches(&self, st: &St, s: &Sh) -> bool {
        match s {
            Sh::Ref(k) => st.env.iter().any(|(e, x)| x.carries() && mentions(e, k)),
            x => x.carries(),
        }
    }
    /// The values returned on all paths from `bb` (None when there are too many).
    fn explore(&mut self, body: &Body<'tcx>, bb: BasicBlock, st: St, depth: usize) -> Option<BTreeSet<(Sh, bool)>> {
        let mut seen = BTreeSet::new();
        let mut work = vec![(bb, st)];
        let mut out = BTreeSet::new();
        while let Some((b, mut st)) = work.pop() {
            if !seen.insert((b, st.clone())) {
                continue;
            }
            if seen.len() > 20_000 {
                return None;
            }
            let data = &body.basic_blocks[b];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let v = self.rvalue(body, &st, &a.1);
                        self.write(&mut st, a.0, v);
                    }
                    StatementKind::SetDiscriminant { place, .. } => self.write(&mut st, **place, Sh::Unk),
                    StatementKind::StorageDead(l) => {
                        let p = format!("{:?}", l);
                        st.env.retain(|x, _| !mentions(x, &p));
                    }
                    _ => {}
                }
            }
            match &data.terminator().kind {
                TerminatorKind::Return => {
                    self.paths += 1;
                    let r = st.env.get("_0").cloned().unwrap_or(Sh::Unk);
                    out.insert((r, st.lost));
                }
                TerminatorKind::Goto { target, .. } => work.push((*target, st)),
                TerminatorKind::SwitchInt { discr, targets } => match self.operand(body, &st, discr) {
                    Sh::Int(v) => work.push((targets.target_for_value(v), st)),
                    _ => {
                        for t in targets.all_targets() {
                            work.push((*t, st.clone()));
                        }
                    }
                },
                TerminatorKind::Drop { target, .. } => work.push((*target, st)),
                TerminatorKind::Assert { target, .. } => work.push((*target, st)),
                TerminatorKind::FalseEdge { real_target, .. } => work.push((*real_target, st)),
                TerminatorKind::FalseUnwind { real_target, .. } => work.push((*real_target, st)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let Some(t) = target else { continue };
                    let a: Vec<Sh> = args.iter().map(|x| self.operand(body, &st, &x.node)).collect();
                    let ret = destination.ty(&body.local_decls, self.tcx).ty;
                    // what a mutable reference reaches may be overwritten
                    let vals = self.call(body, &mut st, func, &a, ret, depth);
                    for (x, op) in a.iter().zip(args.iter()) {
                        if let Sh::Ref(k) = x {
                            if matches!(op.node.ty(&body.local_decls, self.tcx).kind(), ty::Ref(_, _, Mutability::Mut)) {
                                st.env.retain(|e, _| !mentions(e, k));
                            }
                        }
                    }
                    for v in vals.into_iter().flatten() {
                        let mut s = st.clone();
                        self.write(&mut s, *destination, v);
                        work.push((*t, s));
                    }
                }
                _ => {}
            }
        }
        Some(out)
    }
}
fn mentions(key: &str, local: &str) -> bool {
    // `_1` in `((_1 as Err).0)` but not in `_12`
    let mut i = 0;
    while let Some(p) = key[i..].find(local) {
        let e = i + p + local.len();
        if !key[e..].starts_with(|c: char| c.is_ascii_digit()) {
            return true;
        }
        i = e;
    }
    false
}
pub fn errflow<'tcx>(tcx: TyCtxt<'tcx>) -> Flow {
    let mut fl = Flow::default();
    let mut ids: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    ids.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
    let wr = writers(tcx, &ids);
    for id in ids {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let name = tcx.def_path_str(d);
        let ret = body.local_decls[RETURN_PLACE].ty;
        let mut an = An { tcx, env: TypingEnv::post_analysis(tcx, d), paths: 0 };
        let mut sites = 0;
        for (_, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            let TerminatorKind::Call { func, args, destination, target: Some(target), .. } = &data.terminator().kind else { continue };
            let Some((did, cargs)) = func.const_fn_def() else { continue };
            let rt = destination.ty(&body.local_decls, tcx).ty;
            let sh = shapes(tcx, rt);
            if sh.is_empty() {
                continue;
            }
            let n = tcx.def_path_str(did);
            // not a write: makes the error itself, or only moves it
            let last = n.rsplit("::").next().unwrap_or("");
            let moves = args.iter().any(|a| !shapes(tcx, a.node.ty(&body.local_decls, tcx).peel_refs()).is_empty());
            if mentions_template_error(tcx, rt) && !wr.contains(&did) {
                continue;
            }
            if is_error(tcx, rt) || moves || last == "from_residual" || last == "branch" {
                continue;
            }
            if destination.projection.iter().any(|p| matches!(p, PlaceElem::Deref)) {
                continue;
            }
            // a writer of the crate which owns all its state stops early on purpose
            let closed = args.iter().any(|a| closed_writer(tcx, a.node.ty(&body.local_decls, tcx))) || cargs.types().any(|t| closed_writer(tcx, t));
            if closed {
                fl.exempt += 1;
                continue;
            }
            sites += 1;
            let span = tcx.sess.source_map().span_to_diagnostic_string(data.terminator().source_info.span);
            for s in sh {
                let mut st = St { env: BTreeMap::new(), lost: false };
                an.write(&mut st, *destination, s);
                let call = n.clone();
                match an.explore(body, *target, st, 0) {
                    None => fl.undecided.push(Finding { fun: name.clone(), span: span.clone(), text: format!("too many paths after the call of {}", call) }),
                    Some(outs) => {
                        for (o, lost) in outs {
                            if fails(tcx, &o, ret) {
                                continue;
                            }
                            let f = Finding { fun: name.clone(), span: span.clone(), text: format!("an error reported by the call of {} is not reported by {}", call, name) };
                            if lost { fl.undecided.push(f) } else { fl.bad.push(f) }
                        }
                    }
                }
            }
        }
        fl.paths += an.paths;
        fl.sites += sites;
        if sites > 0 {
            fl.functions.push((name, sites));
        }
    }
    fl
}

/// What safe code can reach of the types which carry a grammar (P23).
#[derive(Default)]
pub struct Surface {
    pub types: Vec<String>,
    pub functions: usize,
    pub impls: usize,
    pub fields: usize,
    pub rules: BTreeMap<&'static str, usize>,
    pub bad: Vec<Finding>,
    pub notes: Vec<String>,
}
struct Sf<'tcx> {
    tcx: TyCtxt<'tcx>,
    valid: HashSet<DefId>,
}
impl<'tcx> Sf<'tcx> {
    /// (kind, specification) of the validated types in a type
    fn validated(&self, t: Ty<'tcx>) -> Vec<(String, String)> {
        let mut v = vec![];
        for g in t.walk() {
            if let GenericArgKind::Type(t) = g.kind() {
                if let ty::Adt(a, args) = t.kind() {
                    if self.valid.contains(&a.did()) {
                        let n = self.tcx.item_name(a.did()).to_string();
                        let k = n.strip_prefix("Ri").unwrap_or(&n);
                        let k = k.strip_suffix("String").or(k.strip_suffix("Str")).unwrap_or(k).to_string();
                        let s = args.types().next().map(|t| t.to_string()).unwrap_or_default();
                        let s = s.rsplit("::").next().unwrap_or("").to_string();
                        v.push((k, s));
                    }
                }
            }
        }
        v
    }
    fn raw_text(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Str => true,
            ty::Slice(t) => matches!(t.kind(), ty::Uint(ty::UintTy::U8)),
            ty::Adt(a, args) => {
                let n = self.tcx.def_path_str(a.did());
                n.ends_with("string::String") || (n.ends_with("vec::Vec") && args.types().next().map_or(false, |t| matches!(t.kind(), ty::Uint(ty::UintTy::U8))))
            }
            _ => false,
        }
    }
    fn text(&self, t: Ty<'tcx>, of: DefId) -> bool {
        t.walk().any(|g| match g.kind() {
            GenericArgKind::Type(t) => {
                self.raw_text(t)
                    || matches!(t.kind(), ty::Char)
                    || matches!(t.kind(), ty::Param(_)) && self.tcx.param_env(of).caller_bounds().any(|p| {
                        p.as_trait_clause().map_or(false, |c| {
                            let c = c.skip_binder();
                            c.self_ty() == t && {
                                let n = self.tcx.def_path_str(c.trait_ref.def_id);
                                n.ends_with("ToString") || n.ends_with("Display") || c.trait_ref.args.types().skip(1).any(|x| self.raw_text(x.peel_refs()))
                            }
                        })
                    })
            }
            _ => false,
        })
    }
    /// Every text of `a` is a text of `b`.
    fn contained(a: &(String, String), b: &(String, String)) -> bool {
        let k = a.0 == b.0 || matches!((a.0.as_str(), b.0.as_str()), ("Absolute", "" | "Reference") | ("" | "Relative", "Reference"));
        k && (a.1 == b.1 || (a.1 == "UriSpec" && b.1 == "IriSpec"))
    }
    /// The part of a result which is there without a check: nothing below Result and Option.
    fn unchecked_part(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match t.kind() {
            ty::Adt(a, _) => {
                let n = self.tcx.def_path_str(a.did());
                if n.ends_with("result::Result") || n.ends_with("option::Option") { None } else { Some(t) }
            }
            _ => Some(t),
        }
    }
    /// A mutable reference to raw text somewhere in the type.
    fn mut_text(&self, t: Ty<'tcx>) -> bool {
        t.walk().any(|g| match g.kind() {
            GenericArgKind::Type(t) => matches!(t.kind(), ty::Ref(_, x, Mutability::Mut) if self.raw_text(*x)),
            _ => false,
        })
    }
}
pub fn surface<'tcx>(tcx: TyCtxt<'tcx>) -> Surface {
    let mut r = Surface::default();
    let mut valid = HashSet::default();
    let ev = tcx.effective_visibilities(());
    // types with a constructor that must not be called on arbitrary text
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if tcx.def_kind(d) != DefKind::AssocFn {
            continue;
        }
        let n = tcx.item_name(d).to_string();
        if !(n.contains("unchecked") || n.contains("trusted")) {
            continue;
        }
        let Some(im) = tcx.inherent_impl_of_assoc(d) else { continue };
        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        let out = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output().peel_refs();
        if out != st {
            continue;
        }
        if let ty::Adt(a, _) = st.kind() {
            if a.did().is_local() && ev.is_reachable(a.did().expect_local()) {
                valid.insert(a.did());
            }
        }
    }
    let s = Sf { tcx, valid };
    r.types = s.valid.iter().map(|d| tcx.item_name(*d).to_string()).collect();
    r.types.sort();
    let sp = |d: DefId| tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
    let mut count: BTreeMap<&'static str, usize> = BTreeMap::new();
    // fields
    for d in &s.valid {
        for f in tcx.adt_def(*d).all_fields() {
            r.fields += 1;
            *count.entry("the text is not a visible field").or_default() += 1;
            if f.vis.is_public() {
                r.bad.push(Finding { fun: tcx.def_path_str(*d), span: sp(f.did), text: format!("the field {} of {} is public", f.name, tcx.def_path_str(*d)) });
            }
        }
    }
    // trait impls
    let forbidden = ["fmt::Write", "io::Write", "iter::Extend", "ops::AddAssign", "iter::FromIterator", "ops::DerefMut", "ops::IndexMut", "borrow::BorrowMut", "convert::AsMut", "bytemuck::Pod", "FromIterator", "Extend"];
    for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
        let tn = tcx.def_path_str(*tr);
        for im in impls {
            let d = im.to_def_id();
            let tref = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            let me = tref.self_ty();
            let mv = s.validated(me);
            let args: Vec<Ty<'tcx>> = tref.args.types().skip(1).collect();
            let av: Vec<(String, String)> = args.iter().flat_map(|t| s.validated(*t)).collect();
            if mv.is_empty() && av.is_empty() {
                continue;
            }
            r.impls += 1;
            let owner = matches!(me.kind(), ty::Adt(a, _) if s.valid.contains(&a.did()));
            if owner {
                *count.entry("no trait for editing text is implemented").or_default() += 1;
                if forbidden.iter().any(|f| tn.ends_with(f)) {
                    r.bad.push(Finding { fun: format!("{}", tref), span: sp(d), text: format!("{} gives safe code a way to change or assemble the text without a check", tref) });
                }
            }
            let (from, to, name): (Vec<Ty<'tcx>>, Vec<Ty<'tcx>>, &'static str) = if tn.ends_with("convert::From") {
                (args.clone(), vec![me], "infallible conversions go from contained grammars only")
            } else if tn.ends_with("convert::AsRef") || tn.ends_with("borrow::Borrow") || tn.ends_with("convert::Into") {
                (vec![me], args.clone(), "views go from contained grammars only")
            } else {
                continue;
            };
            let fv: Vec<_> = from.iter().flat_map(|t| s.validated(*t)).collect();
            let tv: Vec<_> = to.iter().flat_map(|t| s.validated(*t)).collect();
            if tv.is_empty() {
                continue;
            }
            *count.entry(name).or_default() += 1;
            for b in &tv {
                let text = fv.is_empty() && from.iter().any(|t| s.text(*t, d));
                let ok = fv.is_empty() && !text || fv.iter().any(|a| Sf::contained(a, b)) || !fv.is_empty() && from.iter().any(|t| matches!(t.peel_refs().kind(), ty::Adt(a, _) if !s.valid.contains(&a.did()) && !wrapper(tcx, a.did())));
                if !ok {
                    r.bad.push(Finding { fun: format!("{}", tref), span: sp(d), text: format!("{} makes a value without a check from texts its grammar does not contain", tref) });
                }
            }
        }
    }
    // functions
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let of_trait = tcx.trait_impl_of_assoc(d).is_some();
        if !of_trait && !ev.is_reachable(id) {
            continue;
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        if !sig.safety().is_safe() {
            continue;
        }
        let name = tcx.def_path_str(d);
        let ins: Vec<Ty<'tcx>> = sig.inputs().to_vec();
        let iv: Vec<_> = ins.iter().flat_map(|t| s.validated(*t)).collect();
        let out = sig.output();
        let ov = s.validated(out);
        if iv.is_empty() && ov.is_empty() {
            continue;
        }
        r.functions += 1;
        if !iv.is_empty() {
            *count.entry("no safe function hands out its text mutably").or_default() += 1;
            if s.mut_text(out) {
                r.bad.push(Finding { fun: name.clone(), span: sp(d), text: format!("the safe function {} hands out mutable text of a validated value", name) });
            }
        }
        let Some(o) = s.unchecked_part(out) else { continue };
        for b in s.validated(o) {
            *count.entry("functions without a check make values from contained grammars only").or_default() += 1;
            if iv.is_empty() {
                if ins.iter().any(|t| s.text(*t, d)) {
                    r.bad.push(Finding { fun: name.clone(), span: sp(d), text: format!("the safe function {} makes a {}-kind value from text without a check", name, b.0) });
                }
            } else if !iv.iter().any(|a| Sf::contained(a, &b)) {
                r.notes.push(format!("{} narrows {:?} to {:?}", name, iv, b));
            }
        }
    }
    r.notes.sort();
    r.rules = count;
    r
}
fn wrapper(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let n = tcx.def_path_str(d);
    ["boxed::Box", "rc::Rc", "sync::Arc", "borrow::Cow", "option::Option"].iter().any(|x| n.ends_with(x))
}
