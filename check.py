#!/usr/bin/env python3
"""Decides one property: symbolic execution of the compiler's LLVM IR of the real code.

usage: check.py PROPERTY quick|thorough      run the check
       check.py --build                      build engine, IR and replay binary
       check.py --entry NAME [params...]     run one entry by hand

Exit 0: every assertion holds for all values within the bounds. Exit 1: a counterexample that the
native replay confirms (line VIOLATION). Exit 3: the check could not decide (never a pass)."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", SOURCE_DATE_EPOCH="1700000000")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
sys.path.insert(0, HERE)
from plan import PLAN, ENTRY_INFO  # noqa: E402


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def cargo(args, cwd, target, extra=None):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, target))
    if extra:
        env.update(extra)
    return subprocess.Popen(["cargo"] + args, cwd=os.path.join(HERE, cwd), env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(hooks=True, cli=False):
    """engine, IR of harness plus the current /repo (and its command-line program), native replay"""
    os.makedirs(BUILD, exist_ok=True)
    flags = {"RUSTFLAGS": "--cfg optivorbis_verif"} if hooks else {}
    tag = ("cli_" if cli else "") + ("hooks" if hooks else "plain")
    feature = "cli" if cli else "quiet"
    if cli:
        flags["CARGO_BIN_NAME"] = "optivorbis"
    deps = os.path.join(BUILD, "ir_" + tag, "release", "deps")
    for f in glob.glob(deps + "/vharness*.ll") + glob.glob(deps + "/vharness*.d"):
        os.remove(f)
    # whatever depends on /repo is always rebuilt, whatever the file times say
    for t in ("ir_" + tag, "replay_" + tag):
        for n in ("vharness", "replay", "optivorbis", "vorbis_bitpack"):
            for d in glob.glob(os.path.join(BUILD, t, "release", ".fingerprint", n + "-*")):
                shutil.rmtree(d)
    lock = os.path.join("/repo", "Cargo.lock")
    if os.path.exists(lock):
        for d in ("harness", "replay"):
            shutil.copy(lock, os.path.join(HERE, d, "Cargo.lock"))
    ps = [("engine", cargo(["build", "--release", "--offline"], "symex", "engine")),
          ("IR", cargo(["rustc", "--offline", "--release", "--features", feature, "--", "--emit=llvm-ir", "-C", "relocation-model=static", "-C", "no-vectorize-loops",
                        "-C", "no-vectorize-slp"], "harness", "ir_" + tag, flags)),
          ("replay", cargo(["build", "--release", "--offline", "--features", feature], "replay", "replay_" + tag,
                           flags | {"RUSTFLAGS": flags.get("RUSTFLAGS", "") + " -C link-arg=-rdynamic"}))]
    errs = []
    for n, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            errs.append(f"building the {n} failed:\n" + "\n".join(x for x in out.splitlines() if "warning" not in x)[-3000:])
    if errs:
        if hooks:
            log(errs[0])
            log("building with the verification hooks failed; continuing without the checks that need them")
            return build(False, cli)
        raise Inconclusive("\n".join(errs))
    lls = glob.glob(deps + "/vharness*.ll")
    if len(lls) != 1:
        raise Inconclusive(f"expected one IR file, found {lls}")
    return {"ir": lls[0], "engine": os.path.join(BUILD, "engine", "release", "symex"),
            "replay": os.path.join(BUILD, "replay_" + tag, "release", "replay"), "hooks": hooks}


def run_entry(b, run, out):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [b["engine"], b["ir"], run["entry"], "--out", out, "--secs", str(run.get("secs", 240)),
           "--query-ms", str(run.get("query_ms", 60000)), "--sample", str(run.get("sample", 50)),
           "--insns", str(run.get("insns", 200_000_000)), "--frontier", str(run.get("frontier", 400))]
    if run.get("linear"):
        cmd.append("--linear")
    if run.get("params"):
        cmd += ["--params", ",".join(str(x) for x in run["params"])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out + "/result.json"):
        raise Inconclusive(f"engine failed on {run['entry']}: exit {p.returncode} {p.stderr[-500:]}")
    return json.load(open(out + "/result.json"))


def replay(b, files, timeout):
    res = []
    for i in range(0, len(files), 40):
        chunk = files[i:i + 40]
        p = subprocess.run([b["replay"]] + chunk, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        for l in p.stdout.splitlines():
            if l.startswith("{"):
                res.append(json.loads(l))
        if p.returncode != 0:
            res.append({"file": chunk[-1], "result": f"crash:exit {p.returncode}", "asserts": [], "obs": [], "outcome": f"crash {p.stderr[-200:]}"})
    return res


def confirm(b, f, kind, ident):
    """does the real code, run natively on the recorded inputs, fail too?"""
    try:
        r = replay(b, [f], 60)
    except subprocess.TimeoutExpired:
        return kind == "hang", "does not terminate within 60 s"
    if not r:
        return False, "no replay output"
    r = r[0]
    if kind == "assert":
        return ident in r["asserts"], r["result"]
    if kind == "panic":
        return str(r["result"]).startswith(("panic:", "crash:")) or str(r.get("outcome") or "").startswith(("panic:", "crash")), str(r.get("outcome") or r["result"])
    return False, r["result"]


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def check(prop, tier):
    t0 = time.time()
    plan = PLAN[prop]
    b = build(cli=plan.get("cli", False))
    runs = plan[tier] if tier in plan else plan["quick"]
    if not b["hooks"]:
        runs = [r for r in runs if not ENTRY_INFO.get(r["entry"], {}).get("hook")]
        if not runs:
            raise Inconclusive("this check needs the verification hooks")
    known = [k for k in known_findings() if k["status"] == "known" and k["property"] == prop]
    tot = dict(states=0, transitions=0, queries=0, solver=0.0, rewritten=0)
    samples, traces, functions, reports, problems, violations, seen_known = [], 0, set(), [], [], [], {}
    rdir = os.path.join(HERE, ".build", "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    for n, run in enumerate(runs):
        out = os.path.join(BUILD, "out", f"{prop}_{n}_{run['entry']}")
        r = run_entry(b, run, out)
        log(f"  {run['entry']} {run.get('params', '')}: {r['wall_s']}s, {int(r['paths_completed'])} paths completed, "
            f"{int(r['paths_assumed_away'])} excluded, {int(r['instructions'])} instructions, {int(r['assertions_checked'])} assertions, "
            f"{int(r['queries'])} solver queries ({r['solver_time_s']:.1f}s)")
        # counterexamples
        groups = {}
        for v in r["violations"]:
            groups.setdefault(v["key"], []).append(v["file"])
        for key, files in sorted(groups.items()):
            kind, ident = key.split(":", 1)
            if kind == "assert" and plan.get("panics_only"):
                continue
            ok, why = False, ""
            for f in files[:6]:
                ok, why = confirm(b, f, kind, ident)
                if ok:
                    break
            if not ok:
                problems.append(f"{run['entry']}: counterexample {key} is not confirmed by the native run ({why}) [{files[0]}]")
                continue
            kf = [k for k in known if kind == "assert" and k["entry"] == run["entry"] and k["assert"] == ident]
            if kf:
                seen_known[kf[0]["id"]] = kf[0]
                continue
            dst = os.path.join(rdir, f"{run['entry']}_{hashlib.sha1(key.encode()).hexdigest()[:8]}.txt")
            shutil.copy(f, dst)
            violations.append((key, dst, why))
        # completeness
        if int(r["crashed_workers"]):
            problems.append(f"{run['entry']}: {r['crashed_workers']} worker(s) died")
        if int(r["errors"]):
            problems.append(f"{run['entry']}: {int(r['errors'])} path(s) not decided: {r['error_messages']}")
        if int(r["dropped"]):
            problems.append(f"{run['entry']}: {int(r['dropped'])} path(s) left when the time was up")
        if int(r["queries_unknown"]):
            problems.append(f"{run['entry']}: {int(r['queries_unknown'])} undecided queries")
        for c in run.get("covers", ENTRY_INFO.get(run["entry"], {}).get("covers", [])):
            if not r["covers"].get(c):
                problems.append(f"{run['entry']}: situation not reached: {c}")
        if not r["asserts"]:
            problems.append(f"{run['entry']}: no assertion reached")
        # engine against native execution
        fs = sorted(glob.glob(out + "/sample_*.txt"))
        if fs:
            step = max(1, len(fs) // 120)
            fs = fs[::step]
            for x in replay(b, fs, 600):
                obs = [int(l.split()[1]) for l in open(x["file"]) if l.startswith("obs ")]
                bad = [a for a in x["asserts"] if not a.startswith("known:")]
                if x["result"] not in ("ok",) and not (x["result"].startswith("assert:") and not bad):
                    problems.append(f"{run['entry']}: native run of a completed path ends with {x['result']} [{x['file']}]")
                elif obs != x["obs"]:
                    problems.append(f"{run['entry']}: native run observes other values than the encoding [{x['file']}]")
                else:
                    traces += 1
            txt = open(fs[len(fs) // 2]).read().splitlines()
            samples.append({"entry": run["entry"], "path_inputs": [l[3:] for l in txt if l.startswith("in ")][:60],
                            "observed": [l[4:] for l in txt if l.startswith("obs ")][:60]})
        elif not violations:
            problems.append(f"{run['entry']}: no path completed")
        tot["states"] += int(r["paths_completed"] + r["paths_assumed_away"] + r["panics"])
        tot["transitions"] += int(r["instructions"])
        tot["queries"] += int(r["queries"])
        tot["solver"] += r["solver_time_s"]
        functions |= {f for f in r["functions"] if "optivorbis" in f or "vorbis_bitpack" in f or "ogg::" in f}
        reports.append({k: r.get(k) for k in ("entry", "wall_s", "paths_completed", "paths_assumed_away", "instructions", "forks",
                                              "assertions_checked", "asserts", "covers", "queries", "queries_sat", "queries_unsat",
                                              "query_cache_hits", "solver_time_s", "max_query_s", "max_inputs_per_path", "z3")}
                       | {"params": run.get("params", []), "bounds": ENTRY_INFO.get(run["entry"], {}).get("bounds", "")})
        if not violations:
            shutil.rmtree(out, ignore_errors=True)
        if violations and time.time() - t0 > 200:
            break
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": traces,
            "samples": samples or [{"note": "no completed path"}],
            "explanation": "states = symbolic paths explored to their end, transitions = LLVM IR instructions executed symbolically; "
                           "each path stands for every input value satisfying its path condition",
            "bounds": plan["bounds"], "outside": plan.get("outside", ""),
            "functions_encoded": sorted(functions), "solver_queries": tot["queries"], "solver_time_s": round(tot["solver"], 2),
            "runs": reports, "hooks": b["hooks"],
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": plan.get("assumptions", []) + [
            "the IR that rustc emits for the harness, the repository and its dependencies is what is executed; memory allocation never fails",
            "the operations modelled by the interpreter agree with the hardware (checked by replaying sampled paths natively)"],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for k in known:
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
        if k["id"] not in seen_known and any(r["entry"] == k["entry"] for r in runs):
            log(f"  (note: {k['id']} was not observed in this run)")
    for p in problems:
        log("PROBLEM:", p)
    if violations:
        for key, dst, why in violations:
            log(f"VIOLATION property={prop} replay={dst}  ({key}; native run: {why})")
        return 1
    if problems:
        return 3
    log(f"property {prop} holds within the stated bounds ({ev['wall_s']}s)")
    return 0


def main():
    if sys.argv[1] == "--build":
        log(build())
        log(build(cli=True))
        return 0
    if sys.argv[1] == "--entry":
        b = build(cli=sys.argv[2].startswith("h_cli"))
        args = [a for a in sys.argv[3:] if not a.startswith("--")]
        r = run_entry(b, {"entry": sys.argv[2], "params": args, "secs": 600}, os.path.join(BUILD, "out", "manual"))
        r.pop("functions")
        vs = r.pop("violations")
        if "--full" in sys.argv:
            log(json.dumps(r, indent=1))
        else:
            log({k: r[k] for k in ("wall_s", "paths_completed", "paths_assumed_away", "instructions", "queries", "solver_time_s", "max_query_s",
                                   "errors", "error_messages", "dropped", "crashed_workers", "queries_unknown", "covers")}, "asserts:", len(r["asserts"]))
        g = {}
        for v in vs:
            g.setdefault(v["key"], []).append(v["file"])
        for k, f in g.items():
            log("CEX", k, confirm(b, f[0], *k.split(":", 1)), f[0])
        return 0
    try:
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    except Inconclusive as e:
        log("INCONCLUSIVE:", e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
