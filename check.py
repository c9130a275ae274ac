#!/usr/bin/env python3
"""Decide one property: extract the functions under contract from /repo's current source, let Verus
discharge every obligation, and exercise the compiled code against the same contract.

usage: check.py ID [--tier quick|thorough] [--secs N] [--no-harness] [--no-proof]
exit 0: held on everything explored;  exit 1: VIOLATION line;  exit 2: nothing could be decided.
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", PYO3_PYTHON="/usr/bin/python3",
           PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", "")
ENV.pop("RUSTFLAGS", None)
VERUS = ["verus", "--triggers-mode", "silent", "--multiple-errors", "6", "--output-json", "--time-expanded"]


def run(cmd, timeout=600, cwd=HERE, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, d(e.stdout), d(e.stderr) + "\ntimeout"


def build_extractor():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "xt"))
    rc, o, e = run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(HERE, "tools/extract"), env=env)
    if rc != 0:
        print(e[-3000:], file=sys.stderr)
        return None
    return os.path.join(BUILD, "xt/debug/vextract")


def build_harness(kind):
    """kind: 'core' (crate harness) or 'schema' (crate harness-schema)"""
    d = os.path.join(HERE, "harness" if kind == "core" else "harness-schema")
    target = os.path.join(REPO, "target")
    if not os.path.isdir(target):
        target = os.path.join(BUILD, "target")
    env = dict(ENV, CARGO_TARGET_DIR=target)
    rc, o, e = run(["cargo", "build", "--offline", "-q"], cwd=d, env=env, timeout=800)
    if rc != 0:
        return None, e
    return os.path.join(target, "debug", "vharness" if kind == "core" else "vharness-schema"), ""


def module_fns(report):
    return [r for r in report if "fn" in r and not r.get("trusted")]


def verus(path, timeout, seed=None):
    t = time.time()
    rc, o, e = run(VERUS + (["--smt-option", f"smt.random_seed={seed}"] if seed else []) + [path], timeout=timeout, cwd=os.path.dirname(path))
    res = {"rc": rc, "stderr": e, "wall": time.time() - t, "ok": False, "decided": False, "failed": [], "fns": {}, "verified": 0, "errors": 0, "smt_ms": 0}
    try:
        d = json.loads(o[o.index("{"):])
    except Exception:
        return res
    vr = d.get("verification-results", {})
    if "verified" not in vr or vr.get("encountered-vir-error"):
        return res
    smt = d.get("times-ms", {}).get("smt", {})
    if "verified" in vr and vr["verified"] + vr["errors"] == 0:
        return res
    res["smt_ms"] = smt.get("smt-run", 0)
    res["verified"], res["errors"] = vr["verified"], vr["errors"]
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::", 1)[1]
            res["fns"][n] = res["fns"].get(n, True) and f["success"]
    res["failed"] = [n for n, s in res["fns"].items() if not s]
    res["decided"] = True
    res["ok"] = vr.get("success", False) and rc == 0
    return res


def run_unit(x, unit, tier):
    """returns dict(status = proved | failed | undecided, ...)"""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(HERE, "contracts/units", unit + ".vrs")
    out, rep = os.path.join(gen, unit + ".rs"), os.path.join(gen, unit + ".json")
    rc, o, e = run([x, REPO, src, out, rep], timeout=60)
    if rc != 0:
        return {"unit": unit, "status": "undecided", "reason": "extraction: " + e.strip()[-400:]}
    report = json.load(open(rep))
    outp = os.path.join(gen, unit + "_probe.rs")
    rc, o, e = run([x, REPO, src, outp, rep + ".probe", "--probe"], timeout=60)
    if rc != 0:
        return {"unit": unit, "status": "undecided", "reason": "extraction (probe): " + e.strip()[-400:]}
    tmo = 150 if tier == "quick" else 600
    with cf.ThreadPoolExecutor(2) as ex:
        f1, f2 = ex.submit(verus, out, tmo), ex.submit(verus, outp, tmo)
        r, p = f1.result(), f2.result()
    fns = [x["as"] if x.get("as") else x["fn"] for x in module_fns(report)]
    R = {"unit": unit, "report": report, "verus": r, "fns": fns, "path": out}
    if not r["decided"]:
        R.update(status="undecided", reason="verifier did not accept the extracted text: " + tail(r["stderr"][max(0, r["stderr"].find("error")):], 600))
        return R
    # vacuity: with `assert(false)` put first in each function, each function must fail
    if p["decided"]:
        vac = []
        for f in module_fns(report):
            n = f.get("path") or f["fn"]
            hit = [k for k in p["fns"] if k == n or k.endswith("::" + n)]
            if hit and all(p["fns"][k] for k in hit):
                vac.append(n)
        R["vacuous"] = vac
        R["probed"] = len(module_fns(report))
        if vac:
            R.update(status="undecided", reason="contradictory preconditions in " + ", ".join(vac))
            return R
    if r["ok"]:
        R["status"] = "proved"
        return R
    # an obligation the solver discharges under another random seed is discharged
    with cf.ThreadPoolExecutor(2) as ex:
        for q in ex.map(lambda k: verus(out, tmo, k), (1, 2)):
            if q["decided"] and set(q["fns"]) == set(r["fns"]):
                r["failed"] = [n for n in r["failed"] if n in q["failed"]]
                if q["ok"] or not r["failed"]:
                    R["verus"] = dict(q if q["ok"] else r, ok=True, failed=[], errors=0, verified=max(q["verified"], r["verified"] + r["errors"]))
                    R["status"] = "proved"
                    return R
    # split resource-limit failures (no answer) from refuted/unproved obligations
    errs = re.split(r"\n(?=error)", r["stderr"])
    hard = [e for e in errs if e.startswith("error") and "Resource limit" not in e and "aborting due" not in e]
    if not hard:
        R.update(status="undecided", reason="solver resource limit: " + tail(r["stderr"], 600))
    else:
        R.update(status="failed", failures=hard)
    return R


def tail(s, n):
    s = s.strip()
    return s if len(s) <= n else s[:n] + " ..."


def harness(exe, pid, seed, secs, known):
    cmd = [exe, pid, "--seed", str(seed), "--secs", str(secs)]
    if known:
        cmd += ["--known", ";".join(known)]
    # inputs are generated from small domains; a run-away allocation of broken code must not end the sandbox
    # a failing solve writes files into its working directory
    rc, o, e = run(["bash", "-c", "cd \"$1\"; shift; ulimit -v 25165824; exec \"$@\"", "x", BUILD] + cmd, timeout=secs + 150)
    try:
        line = [l for l in o.splitlines() if l.startswith("{")][-1]
        return json.loads(line)
    except Exception:
        return {"cases": 0, "nontrivial": 0, "groups": [], "samples": [], "known_hits": [], "fail": {"group": "?", "case": -1, "message": f"the harness process ended abnormally (exit {rc}): {tail(e, 500)}", "log": ""}}


def main():
    pid = sys.argv[1]
    arg = lambda k, d: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = json.load(open(os.path.join(HERE, "contracts/props.json")))[pid]
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))) if k.get("property") == pid and k.get("status") == "open"]
    secs = float(arg("--secs", conf.get("secs", 8) if tier == "quick" else conf.get("secs_thorough", 120)))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    do_proof, do_h = "--no-proof" not in sys.argv, "--no-harness" not in sys.argv
    kind = conf.get("harness", "core")
    units, hres, hexe, herr = [], None, None, ""
    with cf.ThreadPoolExecutor(10) as ex:
        fh = ex.submit(build_harness, kind) if do_h and kind != "none" else None
        if do_proof and conf["units"]:
            x = build_extractor()
            if x:
                units = list(ex.map(lambda u: run_unit(x, u, tier), conf["units"]))
            else:
                units = [{"unit": u, "status": "undecided", "reason": "the extractor did not build"} for u in conf["units"]]
        if fh:
            hexe, herr = fh.result()
    t_proof = time.time() - t0
    for u in units:
        if u["status"] == "proved":
            print(f"PROVED   unit={u['unit']} functions={len(u['fns'])} obligations={u['verus']['verified']} smt_ms={u['verus']['smt_ms']}")
        elif u["status"] == "failed":
            print(f"FAILED   unit={u['unit']} in {', '.join(u['verus']['failed'])}")
        else:
            print(f"PROOF-NOT-REDONE unit={u['unit']}: {u['reason']}")
    # a unit may serve several properties: only failures in the functions this property rests on count here
    for u in units:
        pat = conf.get("focus", {}).get(u["unit"])
        if u["status"] == "failed" and pat and u["verus"]["failed"] and not any(re.search(pat, n) for n in u["verus"]["failed"]):
            u["status"] = "proved-in-part"
            u["reason"] = "obligations outside this property failed: " + ", ".join(u["verus"]["failed"])
            print(f"NOTE     unit={u['unit']}: " + u["reason"])
    failed = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]
    if hexe:
        hres = harness(hexe, pid, seed, secs, [k["key"] for k in known])
        if (failed or undecided) and not hres["fail"]:
            more = harness(hexe, pid, seed + 7919, max(20, secs * 2), [k["key"] for k in known])
            for k in ("cases", "nontrivial"):
                more[k] += hres[k]
            hres = more
        print(f"BOUNDED  cases={hres['cases']} nontrivial={hres['nontrivial']}")
    elif do_h and kind != "none":
        print("BOUNDED-NOT-RUN the harness did not build against the current source: " + tail(herr, 600))

    violation = None
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{pid}.json")
    obligations = [{"unit": u["unit"], "functions": u["verus"]["failed"], "verifier_output": u["failures"]} for u in failed]
    if hres and hres["fail"]:
        f = hres["fail"]
        json.dump({"property": pid, "failing_input": f, "failed_obligations": obligations,
                   "replay": f"cd {HERE} && {hexe} {pid} --group {f['group']} --case {f['case']}"}, open(rpath, "w"), indent=1)
        violation = ""
        print(f"CONTRACT VIOLATED by the compiled code [{f['group']} case {f['case']}]: {tail(f['message'], 500)}")
    elif failed:
        json.dump({"property": pid, "failing_input": None, "failed_obligations": obligations}, open(rpath, "w"), indent=1)
        violation = " no-failing-input-found"
        for o in obligations:
            for t in o["verifier_output"][:3]:
                print(tail(t, 700))

    for i, k in enumerate(known):
        hits = (hres or {}).get("known_hits") or []
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + (f" (reproduced {hits[i]} times in this run)" if i < len(hits) else ""))

    nob = sum(u["verus"]["verified"] + u["verus"]["errors"] for u in units if "verus" in u and u["verus"]["decided"])
    ndis = sum(u["verus"]["verified"] for u in units if "verus" in u and u["verus"]["decided"])
    fcon = [{"function": f.get("path") or f["fn"], "source": f["file"], "line": int(f.get("line") or 0), "unit": u["unit"], "discharged": u["status"] == "proved" or not any(n == (f.get("path") or f["fn"]) for n in u["verus"]["failed"]), "inlined": f.get("inlined", ""), "dropped": f.get("dropped", "")}
            for u in units if "report" in u and "verus" in u for f in module_fns(u["report"])]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": conf.get("level", "proof"),
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "vextract " + REPO + " contracts/units/{" + ",".join(conf["units"]) + "}.vrs | " + " ".join(VERUS[:3]),
            "trusted_base": conf.get("trusted", []) + ["Verus 0.2026.09.13.671956e and its bundled Z3", "tools/extract (see its README.md for every rewrite it performs)", "rustc"],
            "functions_under_contract": fcon,
            "units": [{"unit": u["unit"], "status": u["status"], "reason": u.get("reason", ""), "verified": u.get("verus", {}).get("verified", 0), "smt_ms": u.get("verus", {}).get("smt_ms", 0), "vacuity_probes": u.get("probed", 0), "backend": "Verus/Z3"} for u in units],
            "solver_time_ms": sum(u.get("verus", {}).get("smt_ms", 0) for u in units),
            "bounded_standin": None if not hres else {"label": "bounded (never counted as proved)", "what": conf.get("bounded", ""), "seconds": secs, "evaluations": hres["cases"], "distinct_nontrivial": hres["nontrivial"], "groups": hres["groups"], "samples": hres["samples"][:6]},
            "bounded_only": conf.get("bounded_only", []),
            "contracts_proved_in_another_unit": sorted({f"{r.get('path') or r['fn']} (unit {r['trusted']})" for u in units if "report" in u for r in u["report"] if r.get("trusted") and r.get("fn")}),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation is not None else 0,
    }
    if conf.get("level", "proof") == "exploration" and hres:
        ev["coverage"].update(evaluations=hres["cases"], distinct_nontrivial=hres["nontrivial"], rule=conf.get("bounded", ""), samples=hres["samples"][:6])
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: proof {t_proof:.0f}s, total {time.time() - t0:.0f}s")
    if violation is not None:
        print(f"VIOLATION property={pid} replay={rpath}{violation}")
        sys.exit(1)
    if conf["units"] and not any(u["status"].startswith("proved") for u in units) and do_proof and not hres:
        print("nothing could be decided")
        sys.exit(2)
    sys.exit(0)


main()
