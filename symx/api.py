"""The harness interface, in its symbolic form (see concrete.py for the replay form)."""
from . import core
from .core import SymBool, SymNum, b_and, b_or, b_not, num_in, rnorm, PathAbort
from .strs import SymStr, mkstr, codes, is_str
from .ops import sx_eq, SymDict, SymSet, is_sym
from .domains import DOM


class SymS:
    symbolic = True

    def __init__(self, eng, params):
        self._e = eng
        self.params = params
        self.tier = params.get("tier", "quick")

    # ---- inputs
    def _reg(self, label, kind, v):
        if label in self._e.inputs:
            raise core.EngineError("duplicate input label %s" % label)
        self._e.inputs[label] = (kind, v)
        return v

    def _code(self, name, dom):
        if dom == "syllable":
            a = self._e.new_var(name + ".cho", ((0, 18),))
            b = self._e.new_var(name + ".jung", ((0, 20),))
            c = self._e.new_var(name + ".jong", ((0, 27),))
            return a * 588 + b * 28 + c + 44032
        if dom == "open_syllable":
            a = self._e.new_var(name + ".cho", ((0, 18),))
            b = self._e.new_var(name + ".jung", ((0, 20),))
            return a * 588 + b * 28 + 44032
        rs = DOM[dom] if isinstance(dom, str) else rnorm([tuple(x) for x in dom])
        return self._e.new_var(name, rs)

    def char(self, label, dom="text"):
        return self._reg(label, "str", mkstr((self._code(label, dom),)))

    def text(self, label, n, dom="text"):
        """n characters over a domain (or a list of domains, one per character)"""
        doms = [dom] * n if isinstance(dom, str) or (dom and isinstance(dom[0], tuple)) else dom
        return self._reg(label, "str", mkstr([self._code("%s.%d" % (label, i), doms[i]) for i in range(n)]))

    def int(self, label, lo, hi):
        return self._reg(label, "int", self._e.new_var(label, ((lo, hi),)))

    def real(self, label, lo=None, hi=None):
        x = self._e.new_var(label, None, isreal=True)
        if lo is not None:
            for a in x.lin:
                a.rlo = lo
            self._e.assume(x >= lo)
        if hi is not None:
            self._e.assume(x <= hi)
        return self._reg(label, "real", x)

    def bool(self, label):
        x = self._e.new_var(label, ((0, 1),))
        return self._reg(label, "bool", x == 1)

    def choose(self, label, options):
        """one of a list of options (all are explored)"""
        options = list(options)
        x = self._e.new_var(label, ((0, len(options) - 1),)) if len(options) > 1 else 0
        i = self._e.concretize(x)
        self._reg(label, "int", i)
        return options[i]

    def flag(self, label):
        return self.choose(label, [False, True])

    # ---- logic
    def assume(self, c):
        self._e.assume(c if isinstance(c, (bool, SymBool)) else bool(c))

    def all_of(self, cs):
        return b_and([_b(c) for c in cs])

    def any_of(self, cs):
        return b_or([_b(c) for c in cs])

    def not_(self, c):
        return b_not(_b(c))

    def implies(self, a, b):
        return b_or([b_not(_b(a)), _b(b)])

    def iff(self, a, b):
        a, b = _b(a), _b(b)
        return b_or([b_and([a, b]), b_and([b_not(a), b_not(b)])])

    def eq(self, a, b):
        r = sx_eq(a, b)
        return r if isinstance(r, (bool, SymBool)) else bool(r)

    def ite(self, c, a, b):
        c = _b(c)
        return core.num_ite(c, a, b)

    def is_in(self, ch, dom):
        """character ch lies in a named domain or list of ranges"""
        rs = DOM[dom] if isinstance(dom, str) else rnorm([tuple(x) for x in dom])
        return num_in(codes(ch)[0], rs)

    # ---- results
    def check(self, c, msg):
        self._e.check(c if isinstance(c, (bool, SymBool)) else bool(c), msg)

    def check_eq(self, a, b, msg):
        self.check(self.eq(a, b), msg)

    def close(self, a, b, tol=1e-9):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return b_and([_b(a - b <= tol), _b(b - a <= tol)])
        return abs(a - b) <= tol

    def reach(self, label):
        self._e.reached.add(label)

    def observe(self, *vals):
        self._e.observed.append([core.freeze(v) for v in vals])

    def attempt(self, fn, *a, **k):
        """(exception type name or None, result)"""
        try:
            return (None, fn(*a, **k))
        except Exception as e:
            return (type(e).__name__, None)

    def fork(self, c):
        """decide a condition now"""
        return bool(c)

    # ---- files
    def path(self, name):
        return "/sx/" + name

    def write_file(self, name, text):
        from .shims import vfs
        vfs().files["/sx/" + name] = text
        return "/sx/" + name

    def read_file(self, path):
        from .shims import vfs
        return vfs().files[path]


def _b(c):
    return c if isinstance(c, (bool, SymBool)) else bool(c)
