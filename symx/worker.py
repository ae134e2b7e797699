"""Runs one obligation symbolically; replays counterexamples on the real code."""
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback
from . import core
from .core import Engine, ViolationFound, Control, Unsupported, EngineError, PathAbort, Restart, BudgetExceeded

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = os.environ.get("SX_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("SX_REPO", "/repo")


class PathTimeout(Control):
    pass


class Replayer:
    """a process of the real environment that runs harnesses concretely"""

    def __init__(self, hashseed="0"):
        self.p = None
        self.hashseed = hashseed

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED=self.hashseed, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
        self.p = subprocess.Popen([VENV, os.path.join(HERE, "symx", "concrete.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def run(self, job, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {"status": "error", "msg": "replayer died", "observed": []}
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.close(kill=True)
            return {"status": "timeout", "msg": "no result after %d s" % timeout, "observed": []}
        line = self.p.stdout.readline()
        if not line:
            self.close(kill=True)
            return {"status": "error", "msg": "replayer died", "observed": []}
        return json.loads(line)

    def close(self, kill=False):
        if self.p is not None:
            try:
                if kill:
                    self.p.kill()
                else:
                    self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
            self.p = None


def replay(job, timeout=60):
    """replay under several hash seeds (set order); the first that fails counts"""
    last = None
    for seed in ("0", "1", "2"):
        r = Replayer(seed)
        last = r.run(job, timeout)
        r.close(kill=last["status"] in ("timeout", "error"))
        if last["status"] in ("violation", "exception", "timeout"):
            last["hashseed"] = seed
            return last
    return last


def run_obligation(harness, ob, cfg, restore):
    """explore; returns a plain result dictionary"""
    t0 = time.monotonic()
    eng = Engine(seed=cfg["seed"], timeout_ms=cfg.get("timeout_ms", 30000), deadline=t0 + cfg["budget"],
                 max_paths=ob.get("max_paths", 10 ** 9))
    core.set_engine(eng)
    eng.per_path.append(restore)
    params = dict(ob.get("params") or {})
    params.setdefault("tier", cfg["tier"])
    from .api import SymS
    fn = getattr(harness, ob["fn"])
    mod = harness.__name__.split(".")[-1]
    samples = []
    cuts = []
    limits = {}
    res = {"name": ob["name"], "violation": None, "disagree": []}
    path_limit = ob.get("path_limit", 120)
    from .ops import SymDict
    sparams = SymDict({k: _sym(v) for k, v in params.items()})

    def job(inputs):
        return {"module": mod, "function": ob["fn"], "params": params, "inputs": inputs}

    def candidate(v):
        """a counterexample: does the real code do it too?"""
        r = replay(job(v.inputs))
        if r["status"] in ("violation", "exception") or (r["status"] == "timeout" and v.kind == "timeout"):
            res["violation"] = {"msg": v.msg, "inputs": v.inputs, "replay": r, "job": job(v.inputs)}
            return True
        if v.kind in ("exception", "timeout"):
            limits["not reproduced: " + v.msg[:200]] = limits.get("not reproduced: " + v.msg[:200], 0) + 1
        else:
            res["disagree"].append({"msg": v.msg, "inputs": v.inputs, "replay": r})
        return False

    def cut():
        """inputs that lead to where the encoding stops, for the real code to run from"""
        if len(cuts) >= cfg["validate"]:
            return
        try:
            if not eng.has_reals():
                cuts.append(eng.concrete_inputs(None, shadow=True))
            else:
                m = eng.dyadic_model()
                if m is not None:
                    cuts.append({k: core.conc(v, m) for k, (_, v) in eng.inputs.items()})
        except Exception:
            pass

    def onalarm(signum, frame):
        raise PathTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    stop = False
    while not stop:
        eng.start_path()
        S = SymS(eng, sparams)
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            try:
                fn(S)
                eng.stats["paths"] += 1
                n = eng.stats["paths"]
                if not eng.has_reals():
                    if len(samples) < cfg["max_samples"]:
                        samples.append((eng.concrete_inputs(None, shadow=True), core.conc(eng.observed, None)))
                elif len(samples) < cfg["validate"] and (n <= 40 or n % 10 == 0):
                    # floats: take a model whose reals are exact
                    m = eng.dyadic_model()
                    if m is not None:
                        samples.append(({k: core.conc(v, m) for k, (_, v) in eng.inputs.items()}, core.conc(eng.observed, m)))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Restart:
            continue
        except PathAbort:
            eng.stats["aborted"] = eng.stats.get("aborted", 0) + 1
        except ViolationFound as v:
            eng.stats["paths"] += 1
            if candidate(v):
                break
            eng.incomplete = "counterexample not reproduced"
            res["unreproduced"] = res.get("unreproduced", 0) + 1
            if res["unreproduced"] >= 6:
                break
        except BudgetExceeded as e:
            eng.incomplete = "budget: %s" % e
        except Unsupported as e:
            k = "unsupported: %s" % (e,)
            limits[k] = limits.get(k, 0) + 1
            cut()
        except PathTimeout as e:
            if cfg.get("debug"):
                print("".join(traceback.format_tb(e.__traceback__)[-12:]), file=sys.stderr)
            if eng.out_of_time():
                eng.incomplete = "time budget"
                break
            v = ViolationFound("no result within %d s" % path_limit, eng.concrete_inputs(None, shadow=True), "timeout")
            if candidate(v):
                break
        except EngineError as e:
            k = "engine: %s" % (e,)
            limits[k] = limits.get(k, 0) + 1
            cut()
            if limits[k] > 20:
                eng.incomplete = k
                break
        except RecursionError as e:
            v = ViolationFound("RecursionError", eng.concrete_inputs(None, shadow=True), "exception")
            if candidate(v):
                break
        except Exception as e:
            tb = traceback.format_exc()
            if cfg.get("debug"):
                print(tb, file=sys.stderr)
            v = ViolationFound("unexpected %s: %s" % (type(e).__name__, e), eng.concrete_inputs(None, shadow=True), "exception")
            if candidate(v):
                break
            limits["trace: " + tb[-600:]] = 1
        if eng.stats["paths"] >= eng.max_paths:
            if any(not d.done for d in eng.stack):
                eng.incomplete = "path budget"
            break
        if not eng.backtrack():
            break
    if limits and not eng.incomplete:
        eng.incomplete = "; ".join("%s (x%d)" % kv for kv in list(limits.items())[:2])[:700]
    res.update(stats=eng.stats, reached=sorted(eng.reached), functions=sorted(eng.functions), incomplete=eng.incomplete,
               limits=limits, notes=eng.notes, wall_s=round(time.monotonic() - t0, 3))
    # agreement of encoding and code on models of the explored paths
    n = len(samples)
    want = cfg["validate"]
    if n > want:
        samples = [samples[i * n // want] for i in range(want)]
    res["validated"] = 0
    if samples and res["violation"] is None:
        from .concrete import norm, same
        rp = Replayer("0")
        for inputs, observed in samples:
            r = rp.run(job(inputs), 60)
            if r["status"] == "ok":
                obs = json.loads(json.dumps([norm(o) for o in observed]))
                if same(obs, r["observed"]):
                    res["validated"] += 1
                else:
                    res["disagree"].append({"msg": "observations differ", "inputs": inputs, "symbolic": obs, "real": r["observed"]})
            elif r["status"] in ("violation", "exception"):
                # the real code fails on this path's model although the encoding did not
                rr = replay(job(inputs))
                if rr["status"] in ("violation", "exception"):
                    res["violation"] = {"msg": "on the real code: " + r.get("msg", ""), "inputs": inputs, "replay": rr, "job": job(inputs)}
                    break
            else:
                res["disagree"].append({"msg": "replay " + r["status"], "inputs": inputs, "replay": r})
            if len(res["disagree"]) > 5:
                break
        rp.close()
    # where the encoding stopped: the real code on one input of each such path
    res["cut_replays"] = 0
    if cuts and res["violation"] is None:
        rp = Replayer("0")
        t1 = time.monotonic()
        for inputs in cuts:
            if time.monotonic() - t1 > 60:
                break
            r = rp.run(job(inputs), 30)
            res["cut_replays"] += r["status"] == "ok"
            if r["status"] in ("violation", "exception"):
                rr = replay(job(inputs))
                if rr["status"] in ("violation", "exception"):
                    res["violation"] = {"msg": "on the real code: " + r.get("msg", ""), "inputs": inputs, "replay": rr, "job": job(inputs)}
                    break
        rp.close()
    res["disagree"] = res["disagree"][:5]
    return res


def _sym(v):
    from .ops import SymDict
    if isinstance(v, dict):
        return SymDict({k: _sym(x) for k, x in v.items()})
    if isinstance(v, list):
        return [_sym(x) for x in v]
    return v
