#!/usr/bin/env python3
"""Runs the static analysis for one property: check.py <property> [quick|thorough]

Compiles /repo's current source and the harness crate (/verif/roots) with the analysis driver
(/verif/engine) in place of rustc, lets the driver decide every obligation of the property from the
compiler's MIR, and reports. Nothing of /repo is executed.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CACHE = os.path.join(V, ".cache")
sys.path.insert(0, os.path.join(V, "tools"))
from config import FULL, PROPS, KNOWN_FILE  # noqa: E402

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()

def build_engine():
    exe = os.path.join(V, "engine/target/debug/vp-engine")
    r = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=os.path.join(V, "engine"))
    if r.returncode != 0 or not os.path.exists(exe):
        print(r.stdout)
        print("ERROR: the analysis driver does not build")
        sys.exit(3)
    return exe

def analyse(exe, prop, features, limit, budget, mode, shards=8):
    """one run of the driver over the harness built with the given features"""
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run.", dir=CACHE)
    try:
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Awarnings"
        env["VP_MODE"] = mode
        features, _, build = features.partition("@")
        if build == "release":
            env["RUSTFLAGS"] += " -Cdebug-assertions=off -Coverflow-checks=on"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
        env["VP_SHARDS"] = str(shards)
        env["VP_PROP"] = prop
        env["VP_CLAIM"] = os.path.join(tmp, "claim")
        env["VP_OUT"] = os.path.join(tmp, "out")
        env["VP_LIMIT"] = str(limit)
        env["VP_BUDGET"] = str(budget)
        for k in ("VP_ROOTS", "VP_TRACE", "VP_V", "VP_SHARD", "RUSTC_WRAPPER"):
            env.pop(k, None)
        os.makedirs(env["VP_CLAIM"])
        cmd = ["cargo", "+nightly", "check", "--offline"]
        if features:
            cmd += ["--features", features]
        r = sh(cmd, cwd=os.path.join(V, "roots"), env=env)
        recs = []
        for f in sorted(glob.glob(env["VP_OUT"] + ".*")):
            for line in open(f):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass  # a cut-off last line of a process that was ended
        return r.returncode, r.stdout, recs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def lint(exe, features):
    """the passes of the driver over iri-string itself (no harness)"""
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="lint.", dir=CACHE)
    try:
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTFLAGS"] = "-Awarnings"
        env["RUSTC_WRAPPER"] = exe
        env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
        env["VP_LINT"] = "1"
        env["VP_SHARDS"] = "0"
        env["VP_OUT"] = os.path.join(tmp, "out")
        for k in ("VP_ROOTS", "VP_TRACE", "VP_V", "VP_SHARD", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(k, None)
        cmd = ["cargo", "+nightly", "check", "--offline"] + (["--features", features] if features else [])
        r = sh(cmd, cwd=os.path.join(V, "roots"), env=env)
        f = env["VP_OUT"] + ".lint"
        recs = [json.loads(x) for x in open(f)] if os.path.exists(f) else []
        return r.stdout, {x["pass"]: x for x in recs}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def errflow(exe, tier):
    """P19: an error of the destination is reported on every path"""
    out = {"bad": [], "undecided": [], "done": [], "notes": [], "per": []}
    for cfg in ["std,memchr,serde", ""]:
        log, p = lint(exe, cfg)
        p = p.get("errflow")
        if p is None:
            print(log[-3000:])
            out["undecided"].append(("errflow[%s]" % cfg, "iri-string does not compile in this configuration"))
            continue
        hit = {}
        for k in ("bad", "undecided"):
            for b in p[k]:
                hit.setdefault(b["fun"], []).append(k)
                if k == "bad":
                    out["bad"].append({"key": "%s at %s" % (b["fun"], b["span"]), "text": b["text"]})
                else:
                    out["undecided"].append(("%s at %s" % (b["fun"], b["span"]), b["text"]))
        for fun, n in p["functions"]:
            out["per"].append({"config": cfg or "(no features)", "obligation": fun, "rule": "after each of its %d fallible writes, every path on which the write failed returns a failure" % n, "decided": fun not in hit, "violations": hit.get(fun, []).count("bad")})
            if fun not in hit:
                out["done"].append("%s[%s]" % (fun, cfg))
        out["notes"].append("[%s] %d fallible writes in %d functions, %d paths from a failed write to a return, %d writes into sinks that own their state (stop early on purpose) exempt" % (cfg, p["sites"], len(p["functions"]), p["paths"], p["exempt"]))
    return out

def surface(exe, tier):
    """P23: rules on the types and signatures that safe code can reach"""
    out = {"bad": [], "undecided": [], "done": [], "notes": [], "per": []}
    log, p = lint(exe, "std,memchr,serde")
    p = p.get("surface")
    if p is None:
        print(log[-3000:])
        out["undecided"].append(("surface", "iri-string does not compile"))
        return out
    for b in p["bad"]:
        out["bad"].append({"key": "%s at %s" % (b["fun"], b["span"]), "text": b["text"]})
    if len(p["types"]) < 15:
        out["undecided"].append(("surface", "only %d types with a grammar were recognised" % len(p["types"])))
    for r, n in sorted(p["rules"].items()):
        out["done"].append(r)
        out["per"].append({"config": "std,memchr,serde", "obligation": r, "rule": "%d uses checked" % n, "decided": True})
    out["notes"].append("types: %s; %d functions, %d trait impls, %d fields" % (", ".join(p["types"]), p["functions"], p["impls"], p["fields"]))
    out["notes"] += ["judged by the value obligations: " + n for n in p["notes"]]
    return out

HOOKS = {"errflow": errflow, "surface": surface}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[prop]
    exe = build_engine()
    bad, undecided, done, expected, known = [], [], [], set(), {}
    notes = []
    for ln in open(os.path.join(V, KNOWN_FILE)):
        if ln.startswith("KNOWN-FINDING:"):
            f = ln.split(None, 3)
            known[f[2]] = (f[1] == "property=" + prop, f[3].strip())
    seen_known = set()
    configs = P["configs"] if tier == "quick" else P.get("configs_thorough", P["configs"])
    limit = P.get("limit", 90) if tier == "quick" else 1500
    budget = P.get("budget", 500) if tier == "quick" else 6000
    steps = states = checked = outcomes = 0
    functions = set()
    per = []
    for conf in configs:
        feat, props = conf if isinstance(conf, tuple) else (conf, prop)
        rc, log, recs = analyse(exe, props, feat, limit, budget // len(configs), P.get("mode", "full"), P.get("shards", 8))
        cfg = feat or "(no features)"
        if rc != 0:
            errs = [l for l in log.splitlines() if l.startswith("error")]
            bad.append({"key": "harness[%s]" % cfg, "text": "the public API the property speaks about no longer compiles against the harness: " + "; ".join(errs[:5])})
            print(log[-4000:])
            continue
        exp = {r["expect"] for r in recs if "expect" in r}
        fin = {r["root"]: r for r in recs if "root" in r}
        for r in recs:
            if "missing" in r and feat.partition("@")[0] == FULL:
                undecided.append((cfg, r["missing"], "no such harness function in this configuration"))
        for e in sorted(exp - set(fin)):
            undecided.append((cfg, e, "the analysis did not get to it"))
        expected |= {(cfg, e) for e in exp}
        for n, r in sorted(fin.items()):
            steps += r["steps"]; states += r["states"]; checked += r["checked"]; outcomes += r["outcomes"]
            functions.update(r["functions"])
            for k in r.get("known", []):
                if k in known:
                    if known[k][0]:
                        seen_known.add(k)
                else:
                    bad.append({"key": "%s known %s" % (n, k), "text": "%s: exempted behaviour %s is not in %s" % (n, k, KNOWN_FILE)})
            for b in r["bad"]:
                bad.append({"key": b["key"], "text": "[%s] %s (%s)" % (cfg, b["text"], r["anchor"])})
            for u in r["undecided"]:
                undecided.append((cfg, n, u))
            ok = not r["bad"] and not r["undecided"]
            if ok:
                done.append((cfg, n))
            per.append({"config": cfg, "obligation": n, "rule": r["what"], "anchor": r["anchor"], "decided": ok, "outcome_classes": r["outcomes"], "comparisons": r["checked"], "violations": len(r["bad"])})
    for hook in P.get("extra", []):
        res = HOOKS[hook](exe, tier)
        bad += res["bad"]
        for u in res.get("undecided", []):
            undecided.append(("-", u[0], u[1]))
        for d in res["done"]:
            done.append(("-", d)); expected.add(("-", d))
        for b in res["bad"]:
            expected.add(("-", b["key"]))
        notes += res.get("notes", [])
        per += res.get("per", [])
    for u in sorted(set(undecided)):
        print("UNDECIDED [%s] %s: %s" % (u[0], u[1], u[2][:300]))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k][1]))
    if len(per) > 400:
        # the same obligation in several configurations: one line
        grouped = {}
        for p in per:
            g = grouped.setdefault(p["obligation"], {"obligation": p["obligation"], "rule": p["rule"], "anchor": p["anchor"], "configs": 0, "decided": 0, "violations": 0}) if "anchor" in p else None
            if g is None:
                grouped[len(grouped)] = p
            else:
                g["configs"] += 1; g["decided"] += p["decided"]; g["violations"] += p["violations"]
        per = list(grouped.values())
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": P["explain"],
            "obligations": len(expected), "discharged": len(done), "undecided": len({(u[0], u[1]) for u in undecided}),
            "configurations": [(c if isinstance(c, str) else c[0]) or "(no features)" for c in configs],
            "result_classes_compared": outcomes, "language_comparisons": checked,
            "abstract_states": states, "transfer_steps": steps,
            "functions_analysed": sorted(functions), "rules": per, "notes": notes,
        },
        "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), **(dict(indent=1) if len(per) < 200 else dict(separators=(",\n", ":"))))
    print("%s: %d of %d obligations decided, %d violations, %.1fs" % (prop, len(done), len(expected), len(bad), time.time() - t0))
    if not bad and not done:
        print("ERROR: no obligation of this property could be decided on this tree")
        sys.exit(3)
    if bad:
        rep = os.path.join(V, "evidence", prop + ".violations.txt")
        with open(rep, "w") as f:
            for b in bad:
                f.write("%s\n    %s\n" % (b["key"], b["text"]))
        for b in bad[:20]:
            print("  " + b["key"] + "\n      " + b["text"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        sys.exit(1)

COMMON_ASSUMPTIONS = [
    "rustc's MIR construction (nightly) and the transfer functions of the analyser for core/alloc are faithful",
    "arithmetic on string lengths does not wrap and allocation does not fail unless the rule says so",
]
if __name__ == "__main__":
    main()
