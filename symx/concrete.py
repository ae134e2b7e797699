"""Replay of harnesses on the real, uninstrumented code (runs under /opt/venv)."""
import json
import os
import shutil
import sys
import tempfile


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class ConcS:
    symbolic = False

    def __init__(self, inputs, params):
        self._in = inputs
        self.params = params
        self.tier = params.get("tier", "quick")
        self.observed = []
        self._tmp = None

    def _get(self, label):
        if label not in self._in:
            raise KeyError("input %s is missing" % label)
        return self._in[label]

    def char(self, label, dom=None):
        return self._get(label)

    def text(self, label, n, dom=None):
        return self._get(label)

    def int(self, label, lo, hi):
        return self._get(label)

    def real(self, label, lo=None, hi=None):
        return float(self._get(label))

    def bool(self, label):
        return bool(self._get(label))

    def choose(self, label, options):
        return list(options)[self._get(label)]

    def flag(self, label):
        return self.choose(label, [False, True])

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def all_of(self, cs):
        return all([bool(c) for c in cs])

    def any_of(self, cs):
        return any([bool(c) for c in cs])

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return bool(a == b)

    def ite(self, c, a, b):
        return a if c else b

    def is_in(self, ch, dom):
        from symx.domains import DOM
        rs = DOM[dom] if isinstance(dom, str) else dom
        return any(a <= ord(ch) <= b for a, b in rs)

    def check(self, c, msg):
        if not c:
            raise CheckFailed(msg)

    def check_eq(self, a, b, msg):
        if not a == b:
            raise CheckFailed("%s: %r != %r" % (msg, a, b))

    def close(self, a, b, tol=1e-9):
        return abs(a - b) <= tol

    def reach(self, label):
        pass

    def observe(self, *vals):
        self.observed.append([norm(v) for v in vals])

    def attempt(self, fn, *a, **k):
        try:
            return (None, fn(*a, **k))
        except Exception as e:
            return (type(e).__name__, None)

    def fork(self, c):
        return bool(c)

    def _dir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="sxreplay")
        return self._tmp

    def path(self, name):
        return os.path.join(self._dir(), name)

    def write_file(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return p

    def read_file(self, path):
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)


def norm(v):
    """JSON-able, order-insensitive for sets and dicts"""
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((norm(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
    if isinstance(v, dict):
        return ["dict"] + sorted(([norm(k), norm(x)] for k, x in v.items()), key=lambda x: json.dumps(x, sort_keys=True))
    if hasattr(v, "item") and getattr(v, "ndim", 1) == 0:
        return norm(v.item())
    if hasattr(v, "toarray"):
        return norm(v.toarray())
    if hasattr(v, "tolist"):
        return norm(v.tolist())
    return repr(type(v).__name__)


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and int(a) == int(b))


def run_one(mod, fname, params, inputs):
    import importlib
    import traceback
    m = importlib.import_module("harness." + mod)
    fn = getattr(m, fname)
    s = ConcS(inputs, params)
    res = {"status": "ok"}
    try:
        fn(s)
    except CheckFailed as e:
        res = {"status": "violation", "msg": str(e)}
    except AssumeFailed:
        res = {"status": "assume"}
    except KeyError as e:
        if "is missing" in str(e):
            res = {"status": "missing", "msg": str(e)}
        else:
            res = {"status": "exception", "msg": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:]}
    except Exception as e:
        res = {"status": "exception", "msg": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:]}
    res["observed"] = s.observed
    s.cleanup()
    return res


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = os.environ.get("SX_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import contextlib
    import io
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    if len(sys.argv) > 1:
        # replay file: print the outcome, exit 1 if the property is violated
        with open(sys.argv[1], encoding="utf-8") as f:
            job = json.load(f)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = run_one(job["module"], job["function"], job["params"], job["inputs"])
        print(json.dumps({"inputs": job["inputs"], "result": r}, ensure_ascii=False, indent=1))
        sys.exit(1 if r["status"] in ("violation", "exception") else 0)
    out = sys.stdout
    for line in sys.stdin:
        job = json.loads(line)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                r = run_one(job["module"], job["function"], job["params"], job["inputs"])
            except BaseException as e:
                r = {"status": "error", "msg": repr(e), "observed": []}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
