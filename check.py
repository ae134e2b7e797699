"""python3-vt check.py <property> [--tier quick|thorough] [--only NAME]: decide one property."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings
warnings.simplefilter("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get("SX_REPO", "/repo")


def child(conn, hname, ob, cfg):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (cfg["mem"], cfg["mem"]))
    try:
        h, restore = loaded[hname]
        from symx import worker
        r = worker.run_obligation(h, ob, cfg, restore)
    except BaseException as e:
        import traceback
        r = {"name": ob["name"], "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-3000:]}
    conn.send(r)
    conn.close()


loaded = {}


def load(hname):
    from symx import instr, core
    instr.install(REPO, HERE)
    core.set_engine(core.Engine())
    import soynlp
    h = importlib.import_module("harness." + hname)
    restore = instr.snapshot(("soynlp", "harness"))
    loaded[hname] = (h, restore)
    obs = core.conc(h.OBLIGATIONS, None)
    mods = sorted(m for m in sys.modules if m.split(".")[0] == "soynlp")
    return h, obs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    evid = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
    evfile = os.path.join(evid, pid + ".json")
    hname = pid.lower()
    try:
        h, obs = load(hname)
        loaderr = None
    except BaseException as e:
        import traceback
        loaderr = traceback.format_exc()
        obs = []
    known = known_findings(pid)
    obs = [o for o in obs if o.get("tier", "quick") == "quick" or tier == "thorough"]
    obs = [o for o in obs if not (o.get("quick_only") and tier == "thorough")]
    if a.only:
        obs = [o for o in obs if o["name"].startswith(a.only)]
    total = a.budget or (420 if tier == "quick" else 3600)
    results = []
    queue = list(enumerate(obs))
    running = {}
    ctx = mp.get_context("fork")
    hard = t0 + total
    stop = False
    while queue or running:
        while queue and len(running) < a.jobs and not stop:
            i, ob = queue.pop(0)
            left = hard - time.monotonic()
            budget = max(5.0, min(ob.get("budget", 10 ** 6), left))
            cfg = {"seed": seed, "tier": tier, "budget": budget, "max_samples": 3000,
                   "validate": ob.get("validate", 120 if tier == "quick" else 600), "debug": a.debug,
                   "mem": int((24 << 30) / max(1, min(a.jobs, 4)))}
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(w, hname, ob, cfg))
            p.start()
            w.close()
            running[i] = (p, r, ob, time.monotonic())
        if stop:
            queue = []
        done = mp.connection.wait([x[1] for x in running.values()], timeout=1.0)
        for i, (p, r, ob, ts) in list(running.items()):
            if r in done:
                try:
                    res = r.recv()
                except EOFError:
                    res = {"name": ob["name"], "error": "worker ended (memory limit?)"}
                p.join()
                res["ob"] = {k: ob.get(k) for k in ("name", "bound", "base", "fn", "params", "expect")}
                results.append((i, res))
                del running[i]
                if a.verbose or a.debug:
                    show(res)
                if res.get("violation"):
                    stop = True
            elif stop or time.monotonic() > hard + 120:
                p.kill()
                p.join()
                if not stop:
                    results.append((i, {"name": ob["name"], "error": "time limit", "ob": {"name": ob["name"], "base": ob.get("base")}}))
                del running[i]
    results = [r for _, r in sorted(results, key=lambda x: x[0])]
    code = report(pid, tier, seed, results, loaderr, evfile, time.monotonic() - t0, known)
    sys.stdout.flush()
    os._exit(code)


def show(r):
    print("  %-28s %s" % (r["name"], json.dumps({k: r.get(k) for k in ("incomplete", "error", "reached", "wall_s", "validated", "stats")}, ensure_ascii=False)), file=sys.stderr)
    if r.get("trace"):
        print(r["trace"], file=sys.stderr)
    if r.get("disagree"):
        print("   disagree: " + json.dumps(r["disagree"][:2], ensure_ascii=False)[:1500], file=sys.stderr)
    if r.get("violation"):
        print("   violation: " + json.dumps(r["violation"], ensure_ascii=False)[:2500], file=sys.stderr)
    if r.get("limits"):
        print("   limits: " + json.dumps(r["limits"], ensure_ascii=False)[:2500], file=sys.stderr)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    out.append(line[len("finding: "):])
    return out


def report(pid, tier, seed, results, loaderr, evfile, wall, known):
    import hashlib
    agg = {"paths": 0, "decisions": 0, "queries": 0, "solver_s": 0.0, "checks": 0, "check_queries": 0, "infeasible": 0,
           "concretizations": 0, "unknown": 0}
    funcs, validated, viol, errors, inconclusive, disagree, vacuous = set(), 0, None, [], [], [], []
    obl = []
    for r in results:
        if r.get("error"):
            errors.append("%s: %s" % (r["name"], r["error"]))
            continue
        st = r["stats"]
        for k in agg:
            agg[k] += st.get(k, 0)
        funcs.update(r["functions"])
        validated += r.get("validated", 0)
        if r.get("violation") and viol is None:
            viol = r
        if r.get("incomplete"):
            inconclusive.append("%s: %s" % (r["name"], r["incomplete"]))
        disagree.extend(("%s" % r["name"], d) for d in r.get("disagree", []))
        ob = r.get("ob", {})
        miss = [e for e in (ob.get("expect") or []) if e not in r["reached"]]
        if not r.get("violation") and not r.get("incomplete") and (st["paths"] == 0 or miss):
            vacuous.append("%s: paths=%d, not reached: %s" % (r["name"], st["paths"], miss))
        obl.append({"name": r["name"], "bound": ob.get("bound"), "paths": st["paths"], "decisions": st["decisions"],
                    "queries": st["queries"], "solver_s": round(st["solver_s"], 3), "assertions": st["checks"],
                    "assertion_queries": st["check_queries"], "validated": r.get("validated", 0), "wall_s": r["wall_s"],
                    "complete": not r.get("incomplete"), "incomplete": r.get("incomplete"),
                    "reached": r["reached"], "concretised_library_calls": r.get("notes", {})})
    code = 0
    if loaderr:
        print("ERROR: soynlp could not be encoded:\n" + loaderr[-2000:])
        code = 3
    for k in known:
        print("KNOWN-FINDING: " + k)
    for x in inconclusive:
        print("INCONCLUSIVE: " + x)
    if viol is not None:
        v = viol["violation"]
        h = hashlib.sha1(json.dumps(v["job"], sort_keys=True).encode()).hexdigest()[:10]
        rp = os.path.join("evidence", "replays", "%s-%s.json" % (pid, h))
        with open(os.path.join(HERE, rp), "w", encoding="utf-8") as f:
            json.dump(dict(v["job"], property=pid, message=v["msg"], outcome=v["replay"],
                           how="PYTHONHASHSEED=%s /opt/venv/bin/python /verif/symx/concrete.py <this file>" % v["replay"].get("hashseed", "0")),
                      f, ensure_ascii=False, indent=1)
        print("obligation %s: %s" % (viol["name"], v["msg"]))
        print("inputs: %s" % json.dumps(v["inputs"], ensure_ascii=False)[:1500])
        print("real code: %s" % (v["replay"].get("msg") or v["replay"]["status"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif code == 0:
        if vacuous or ((errors or disagree) and os.environ.get("SX_STRICT")):
            code = 3
        elif not any(r.get("stats", {}).get("paths") for r in results):
            print("ERROR: nothing was explored")
            code = 3
        else:
            base = [r for r in results if r.get("ob", {}).get("base")]
            if base and not any(r.get("stats", {}).get("paths") for r in base):
                print("ERROR: no base obligation was explored")
                code = 3
    for x in errors:
        print("ERROR: " + x)
    for x in vacuous:
        print("VACUOUS: " + x)
    for n, d in disagree[:4]:
        print("DISAGREEMENT between encoding and code in %s: %s" % (n, json.dumps(d, ensure_ascii=False)[:1500]))
    complete = sum(1 for o in obl if o["complete"])
    cov = {"states": agg["paths"], "transitions": agg["decisions"], "traces_validated_against_impl": validated,
           "samples": [{"obligation": o["name"], "bound": o["bound"], "paths": o["paths"]} for o in obl][:12],
           "solver_queries": agg["queries"], "solver_seconds": round(agg["solver_s"], 3), "assertions_reached": agg["checks"],
           "assertion_queries": agg["check_queries"], "infeasible_branches": agg["infeasible"],
           "concretisations": agg["concretizations"], "solver_unknown": agg["unknown"],
           "functions_encoded": sorted(funcs), "obligations": obl,
           "obligations_complete": complete, "obligations_total": len(results),
           "explanation": "states = execution paths of the real code explored symbolically; transitions = symbolic branch decisions; every path stands for all inputs satisfying its path condition"}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions(pid), "wall_s": round(wall, 3), "violations": 1 if viol is not None else 0}
    with open(evfile, "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    print("%s %s: %d obligations (%d complete), %d paths, %d decisions, %d solver queries (%.1f s), %d paths replayed on the real code, %.1f s -> exit %d"
          % (pid, tier, len(results), complete, agg["paths"], agg["decisions"], agg["queries"], agg["solver_s"], validated, wall, code))
    return code


def assumptions(pid):
    base = ["bounds stated per obligation in coverage.obligations; nothing is claimed outside them",
            "floating-point numbers that depend on symbolic inputs are exact rationals",
            "sets iterate in insertion order in the encoding; replays use three hash seeds",
            "library calls (re, collections, files, pickle, json, numpy/scipy containers) are modelled by symx/shims.py and symx/regex.py; sampled paths are replayed on the real libraries"]
    try:
        h = loaded[pid.lower()][0]
        return base + [str(x) for x in getattr(h, "ASSUMPTIONS", [])]
    except Exception:
        return base


if __name__ == "__main__":
    main()
