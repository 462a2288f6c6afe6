#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
mod analyze;
mod cases;
mod equiv;
mod interp;
mod intrin;
mod lang;
mod lint;
mod spec;
mod tape;
mod val;
use analyze::*;
use interp::World;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{Instance, TyCtxt, TypingEnv};
use rustc_data_structures::fx::FxHashMap as HashMap;

struct Cb;
/// no obligation over a part of another one's inputs (see `expand` in cases.rs)
fn whole(root: &str) -> bool {
    !(root.starts_with("ex_") && root.ends_with("0_sb"))
}
/// Runs every root claimed by this process and writes one JSON line per root.
fn run<'tcx>(tcx: TyCtxt<'tcx>) {
    let filt = std::env::var("VP_ROOTS").unwrap_or_default();
    let prop = std::env::var("VP_PROP").unwrap_or_default();
    let wanted = |c: &cases::Case| prop.is_empty() || prop.split(',').any(|p| p == c.prop);
    let panics = std::env::var("VP_MODE").map_or(false, |m| m == "panic");
    let values = std::env::var("VP_MODE").map_or(false, |m| m == "valid");
    let wanted = |c: &cases::Case| wanted(c) && (!values || cases::has_values(c));
    // obligations over a part of another one's inputs add nothing to the properties that go through all obligations
    let wanted = |c: &cases::Case| wanted(c) && (prop.is_empty() || prop == "P17" || whole(&c.root));
    let trace = std::env::var("VP_TRACE").is_ok();
    let claim = std::env::var("VP_CLAIM").ok();
    let out = std::env::var("VP_OUT").ok();
    let limit: u64 = std::env::var("VP_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(300);
    let mut roots = vec![];
    let mut models = HashMap::default();
    for id in tcx.hir_body_owners() {
        let d = id.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let p = tcx.def_path_str(d);
        let n = tcx.item_name(d).to_string();
        if p.contains("models::") {
            models.insert(format!("model:{}", n), d);
        } else if n.starts_with("r_") {
            let short = p.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::");
            roots.push((short, d));
        }
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    std::panic::set_hook(Box::new(move |i| {
        if trace {
            eprintln!("{}", i);
        }
    }));
    let table = cases::table();
    let mut lines = String::new();
    if claim.is_none() || std::env::var("VP_SHARD").map_or(false, |x| x == "0") {
        // obligations without a root and roots without an obligation are reported by the runner
        for c in table.values() {
            if wanted(c) {
                let k = if roots.iter().any(|r| r.0 == c.root) { "expect" } else { "missing" };
                lines.push_str(&format!("{{\"{}\":{},\"prop\":{}}}\n", k, js(&c.root), js(c.prop)));
            }
        }
    }
    let out_file = out.as_ref().map(|o| format!("{}.{}", o, std::env::var("VP_SHARD").unwrap_or_default()));
    let append = |l: &str| {
        use std::io::Write;
        if let Some(o) = &out_file {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(o).unwrap();
            f.write_all(l.as_bytes()).unwrap();
        }
    };
    append(&lines);
    let budget: u64 = std::env::var("VP_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(1 << 30);
    let start = std::time::Instant::now();
    let mut w = world(tcx, models.clone(), trace);
    for (n, d) in roots {
        if start.elapsed().as_secs() > budget {
            break;
        }
        if !filt.is_empty() && !filt.split(',').any(|f| n.contains(f)) {
            continue;
        }
        let case = table.get(&n);
        if !prop.is_empty() && case.map_or(true, |c| !wanted(c)) {
            continue;
        }
        if let Some(c) = &claim {
            if std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{}/{}", c, n.replace("::", "."))).is_err() {
                continue;
            }
        }
        let t0 = std::time::Instant::now();
        lang::set_deadline(Some(t0 + std::time::Duration::from_secs(limit + 10)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut w, &n, d, limit, &case.and_then(|c| c.init.as_ref()).map(|f| f()).unwrap_or_default())));
        let t = t0.elapsed().as_secs_f64();
        let (r, funs) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                let mut r = Report::default();
                r.undecided.push(e);
                (r, vec![])
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                let mut r = Report::default();
                r.undecided.push(format!("analyser failure: {}", m));
                w = world(tcx, models.clone(), trace);
                (r, vec![])
            }
        };
        lang::set_deadline(Some(std::time::Instant::now() + std::time::Duration::from_secs(limit)));
        let v = case.map(|c| if panics { cases::panics(c, &r) } else if values { cases::validity(c, &r) } else { cases::compare(c, &r) });
        lang::set_deadline(None);
        if out.is_none() {
            println!("ROOT {} steps={} states={} nodes={} resumes={} langs={} {:.2}s", n, r.steps, r.states, r.nodes, r.resumes, lang::stats(), t);
            let eg = |x: &Vec<lang::L>| x.iter().map(|x| format!("L{} n={} e.g. {}", x, lang::dfa(*x).n(), lang::shortest(*x).map(|w| lang::show(&w)).unwrap_or_default())).collect::<Vec<_>>().join(" | ");
            let brief = v.as_ref().map_or(false, |v| v.bad.is_empty() && v.undecided.is_empty()) && std::env::var("VP_V").is_err();
            if !brief {
                for (l, x) in &r.outcomes {
                    println!("   {} : {}", l, eg(x));
                }
                for (l, x) in &r.imprecise {
                    println!("   ~ {} : {}", l, eg(x));
                }
            }
            match &v {
                None => {
                    for u in &r.undecided {
                        println!("   UNDECIDED {}", u);
                    }
                    println!("   (no expectation)")
                }
                Some(v) => {
                    for u in &v.undecided {
                        println!("   UNDECIDED {}", u);
                    }
                    for b in &v.bad {
                        println!("   VIOLATION {} {}", b.key, b.text);
                    }
                    if brief {
                        println!("   ok {} inputs classes {}", v.checked, r.outcomes.len());
                    }
                }
            }
        }
        if let (Some(v), Some(c)) = (v, case) {
            let list = |x: &[String]| format!("[{}]", x.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            append(&format!(
                "{{\"root\":{},\"prop\":{},\"what\":{},\"anchor\":{},\"bad\":[{}],\"undecided\":{},\"known\":{},\"outcomes\":{},\"checked\":{},\"steps\":{},\"states\":{},\"seconds\":{:.2},\"functions\":{}}}\n",
                js(&n), js(c.prop), js(&c.what), js(c.anchor),
                v.bad.iter().map(|b| format!("{{\"key\":{},\"text\":{}}}", js(&b.key), js(&b.text))).collect::<Vec<_>>().join(","),
                list(&v.undecided), list(&v.known), r.outcomes.len(), v.checked, r.steps, r.states, t, list(&funs)
            ));
        }
        if claim.is_some() && memory() > 1500 {
            std::process::exit(FULL);
        }
    }
}
/// exit code of an analysis process that asks to be replaced
const FULL: i32 = 77;
/// memory in use, in MB
pub fn memory() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 20
}
fn js(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn world<'tcx>(tcx: TyCtxt<'tcx>, models: HashMap<String, rustc_hir::def_id::DefId>, trace: bool) -> World<'tcx> {
    World {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        bodies: HashMap::default(),
        consts: vec![],
        const_idx: HashMap::default(),
        const_val: HashMap::default(),
        names: HashMap::default(),
        models,
        called: HashMap::default(),
        steps: 0,
        summaries: Default::default(),
        sum_called: Default::default(),
        scalars: Default::default(),
        preds: Default::default(),
        fail_writes: false,
        sbuf: false,
        atoms: vec![],
        trace,
        deadline: std::time::Instant::now(),
    }
}
fn one<'tcx>(w: &mut World<'tcx>, n: &str, d: rustc_hir::def_id::DefId, limit: u64, init: &[lang::L]) -> Result<(Report, Vec<String>), String> {
    w.called.clear();
    w.steps = 0;
    w.fail_writes = n.contains("_failw");
    w.deadline = std::time::Instant::now() + std::time::Duration::from_secs(limit);
    let inst = Instance::mono(w.tcx, d);
    let stream = n.contains("_stream");
    w.sbuf = n.contains("_sb");
    let st = initial(w, inst, stream, init)?;
    let mut a = Analysis::new(w, Opts { max_steps: 20_000_000, max_states: 200_000, stream });
    if n.contains("_sym") {
        a.sym_tapes = vec![1, 2, 3];
    }
    let r = a.analyze(st);
    let mut funs: Vec<String> = w.called.keys().cloned().filter(|x| x.contains("iri_string")).collect();
    funs.sort();
    funs.dedup();
    Ok((r, funs))
}
/// The passes over the analysed crate itself; one JSON line each.
fn lint_run<'tcx>(tcx: TyCtxt<'tcx>) {
    let fnd = |v: &[lint::Finding]| v.iter().map(|b| format!("{{\"fun\":{},\"span\":{},\"text\":{}}}", js(&b.fun), js(&b.span), js(&b.text))).collect::<Vec<_>>().join(",");
    let f = lint::errflow(tcx);
    let mut o = format!(
        "{{\"pass\":\"errflow\",\"sites\":{},\"exempt\":{},\"paths\":{},\"bad\":[{}],\"undecided\":[{}],\"functions\":[{}]}}\n",
        f.sites, f.exempt, f.paths, fnd(&f.bad), fnd(&f.undecided),
        f.functions.iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect::<Vec<_>>().join(",")
    );
    let s = lint::surface(tcx);
    o.push_str(&format!(
        "{{\"pass\":\"surface\",\"types\":[{}],\"functions\":{},\"impls\":{},\"fields\":{},\"rules\":{{{}}},\"bad\":[{}],\"notes\":[{}]}}\n",
        s.types.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), s.functions, s.impls, s.fields,
        s.rules.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        fnd(&s.bad), s.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
    ));
    match std::env::var("VP_OUT") {
        Ok(p) => std::fs::write(format!("{}.lint", p), o).unwrap(),
        Err(_) => eprint!("{}", o.replace("},", "},\n")),
    }
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        if name.as_str() == "iri_string" && std::env::var("VP_LINT").is_ok() {
            lint_run(tcx);
        }
        if name.as_str() == "vp_roots" {
            if std::env::var("VP_SHARDS").is_err() {
                run(tcx);
            }
            if std::env::var("VP_SHARD").is_ok() {
                return rustc_driver::Compilation::Stop;
            }
        }
        rustc_driver::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let (Ok(k), true) = (std::env::var("VP_SHARDS"), args.iter().any(|a| a == "vp_roots")) {
        // the analysis of the harness crate is split over several processes
        let k: usize = k.parse().unwrap_or(1);
        let exe = std::env::current_exe().unwrap();
        let budget: u64 = std::env::var("VP_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(1 << 30);
        let start = std::time::Instant::now();
        let kids: Vec<_> = (0..k)
            .map(|i| {
                let (exe, args) = (exe.clone(), args.clone());
                std::thread::spawn(move || loop {
                    let left = budget.saturating_sub(start.elapsed().as_secs());
                    let c = std::process::Command::new(&exe).args(&args[1..]).env_remove("VP_SHARDS").env("VP_SHARD", i.to_string()).env("VP_BUDGET", left.to_string()).stdout(std::process::Stdio::inherit()).spawn();
                    match c.and_then(|mut c| c.wait()) {
                        // a process that has grown large is replaced by a fresh one
                        Ok(s) if s.code() == Some(FULL) => continue,
                        s => return s.map(|s| s.success()).unwrap_or(false),
                    }
                })
            })
            .collect();
        let mut ok = true;
        for c in kids {
            ok &= c.join().unwrap_or(false);
        }
        if !ok {
            eprintln!("vp-engine: an analysis process failed");
        }
    }
    // deep recursion in the analyser needs a large stack
    unsafe { std::env::set_var("RUST_MIN_STACK", (1usize << 30).to_string()) };
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
