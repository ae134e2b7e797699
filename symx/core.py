"""Engine and scalar symbolic values.

Exploration: every execution follows one model (each symbolic value carries the
value it has in that model, its *shadow*); every branch on a symbolic condition
adds the condition to the path constraint; afterwards the last branch whose other
side the solver finds satisfiable is flipped and the harness is re-executed.  When
nothing is left to flip, all values of the symbolic inputs have been covered.
"""
import time
from fractions import Fraction
import math
import z3

FULL_UNI = ((0, 0xD7FF), (0xE000, 0x10FFFF))


class Control(BaseException):
    """Engine control flow; never caught by code under test."""


class PathAbort(Control):
    pass


class Restart(Control):
    pass


class SpecFail(Control):
    pass


class BudgetExceeded(Control):
    pass


class Unsupported(Control):
    pass


class EngineError(Control):
    pass


class ViolationFound(Control):
    def __init__(self, msg, inputs, kind="check"):
        self.msg, self.inputs, self.kind = msg, inputs, kind


ENG = None


def set_engine(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------- range sets
def rnorm(rs):
    rs = sorted((a, b) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def rinter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def rminus(x, y):
    out = []
    for a, b in x:
        cur = a
        for c, d in y:
            if d < cur:
                continue
            if c > b:
                break
            if c > cur:
                out.append((cur, c - 1))
            cur = max(cur, d + 1)
            if cur > b:
                break
        if cur <= b:
            out.append((cur, b))
    return tuple(out)


def runion(x, y):
    return rnorm(list(x) + list(y))


def rin(v, rs):
    for a, b in rs:
        if a <= v <= b:
            return True
        if v < a:
            return False
    return False


def rsize(rs):
    return sum(b - a + 1 for a, b in rs)


def riter(rs):
    for a, b in rs:
        yield from range(a, b + 1)


# ---------------------------------------------------------------- atoms
class Atom:
    """A basic symbolic number: a solver variable, or an opaque term over others.

    root/values: when the atom is a function of one small-domain variable."""
    __slots__ = ("_term", "dom", "sh", "isreal", "root", "values", "name", "key", "mk", "div", "rat", "rlo")
    counter = 0

    def __init__(self, term, sh, dom=None, isreal=False, root=None, values=None, name=None, mk=None):
        self._term = term
        self.mk = mk
        self.sh = sh
        self.dom = dom  # ranges or None (unbounded)
        self.isreal = isreal
        self.root = root
        self.values = values
        self.name = name
        self.div = None     # (linear part, constant, modulus, remainder atom) of a quotient
        self.rat = None     # the same number as a quotient of products of polynomials
        self.rlo = None     # a lower bound known from the start (reals)
        Atom.counter += 1
        self.key = Atom.counter

    @property
    def term(self):
        if self._term is None:
            self._term = self.mk()
        return self._term

    @property
    def lo(self):
        return self.dom[0][0] if self.dom else None

    @property
    def hi(self):
        return self.dom[-1][1] if self.dom else None


SMALL = 70


def _small(atom):
    """(root atom, domain list) if the atom is a function of a small-domain variable."""
    r = atom.root if atom.root is not None else atom
    if r.isreal or not r.dom:
        return None
    if rsize(r.dom) > SMALL:
        return None
    return r


def z3val(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v.numerator) + "/" + str(v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
    raise EngineError("z3val %r" % (v,))


def range_term(x, rs, dom=None):
    """z3 formula x in rs; dom: values outside dom do not matter."""
    if dom is not None:
        # widen: merge ranges whose gap is outside dom
        rs = rinter(rs, dom)
        if not rs:
            return z3.BoolVal(False)
        gaps = rminus(dom, rs)
        merged = [rs[0]]
        for a, b in rs[1:]:
            if not rinter(gaps, ((merged[-1][1] + 1, a - 1),)):
                merged[-1] = (merged[-1][0], b)
            else:
                merged.append((a, b))
        lo, hi = dom[0][0], dom[-1][1]
        parts = []
        for a, b in merged:
            noleft = not rinter(gaps, ((lo, a - 1),)) if a > lo else True
            noright = not rinter(gaps, ((b + 1, hi),)) if b < hi else True
            if a == b and not (noleft or noright):
                parts.append(x == a)
                continue
            c = []
            if not noleft:
                c.append(x >= a)
            if not noright:
                c.append(x <= b)
            if not c:
                return z3.BoolVal(True)
            parts.append(c[0] if len(c) == 1 else z3.And(*c))
    else:
        parts = [(x == a) if a == b else z3.And(x >= a, x <= b) for a, b in rs]
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("_term", "sh", "atom", "rs")

    def __init__(self, term, sh, atom=None, rs=None):
        self._term = term
        self.sh = sh
        self.atom = atom
        self.rs = rs

    @property
    def term(self):
        if self._term is None:
            self._term = range_term(self.atom.term, self.rs, self.atom.dom)
        return self._term

    def __bool__(self):
        return ENG.branch(self)

    def __repr__(self):
        return "<SymBool %s>" % self.sh

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.term == o.term, self.sh == o.sh)
        if isinstance(o, bool):
            return self if o else b_not(self)
        return b_int(self) == o

    def __ne__(self, o):
        return b_not(self == o)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_and([self, o])
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_or([self, o])
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return b_int(self) + o

    def __radd__(self, o):
        return o + b_int(self)

    def __sub__(self, o):
        return b_int(self) - o

    def __rsub__(self, o):
        return o - b_int(self)

    def __mul__(self, o):
        return b_int(self) * o

    def __rmul__(self, o):
        return o * b_int(self)

    def __neg__(self):
        return -b_int(self)

    def __lt__(self, o):
        return b_int(self) < (b_int(o) if isinstance(o, SymBool) else o)

    def __gt__(self, o):
        return b_int(self) > (b_int(o) if isinstance(o, SymBool) else o)

    def __le__(self, o):
        return b_int(self) <= (b_int(o) if isinstance(o, SymBool) else o)

    def __ge__(self, o):
        return b_int(self) >= (b_int(o) if isinstance(o, SymBool) else o)


def b_int(b):
    if isinstance(b, bool):
        return int(b)
    return mk_atom_num(z3.If(b.term, z3.IntVal(1), z3.IntVal(0)), int(b.sh), ((0, 1),))


def mkbool(term, sh):
    if z3.is_true(term):
        return True
    if z3.is_false(term):
        return False
    return SymBool(term, sh)


def atom_in(atom, rs):
    """SymBool/bool: atom's value in rs (rs normalised)."""
    if atom.dom is not None:
        rs = rinter(rs, atom.dom)
        if not rs:
            return False
        if rs == atom.dom:
            return True
    if not rs:
        return False
    return SymBool(None, rin(atom.sh, rs), atom, rs)


def b_not(b):
    if isinstance(b, bool):
        return not b
    if b.atom is not None and b.atom.dom is not None:
        return SymBool(z3.Not(b._term) if b._term is not None else None, not b.sh, b.atom, rminus(b.atom.dom, b.rs))
    t = b.term
    if z3.is_not(t):
        return SymBool(t.arg(0), not b.sh)
    return SymBool(z3.Not(t), not b.sh)


def _split(bs, absorbing):
    out = []
    for b in bs:
        if isinstance(b, bool):
            if b == absorbing:
                return None
            continue
        if not isinstance(b, SymBool):
            raise EngineError("boolean expected, got %r" % (b,))
        out.append(b)
    return out


def b_and(bs):
    bs = _split(bs, False)
    if bs is None:
        return False
    if not bs:
        return True
    return _combine(bs, True)


def b_or(bs):
    bs = _split(bs, True)
    if bs is None:
        return True
    if not bs:
        return False
    return _combine(bs, False)


def _combine(bs, conj):
    byatom = {}
    rest = []
    for b in bs:
        if b.atom is not None and b.atom.dom is not None:
            cur = byatom.get(b.atom)
            if cur is None:
                byatom[b.atom] = b.rs
            else:
                byatom[b.atom] = rinter(cur, b.rs) if conj else runion(cur, b.rs)
        else:
            rest.append(b)
    out = list(rest)
    for a, rs in byatom.items():
        v = atom_in(a, rs)
        if v is True or v is False:
            if v != conj:
                return v
            continue
        out.append(v)
    if not out:
        return conj
    if len(out) == 1:
        return out[0]
    seen = {}
    for b in out:
        seen[b.term.get_id()] = b
    out = list(seen.values())
    if len(out) == 1:
        return out[0]
    terms = [b.term for b in out]
    if conj:
        return SymBool(z3.And(*terms), all(b.sh for b in out))
    return SymBool(z3.Or(*terms), any(b.sh for b in out))


# ---------------------------------------------------------------- numbers
class SymNum:
    """Linear combination of atoms plus a constant; isreal: a float-like value."""
    __slots__ = ("lin", "const", "isreal", "_term", "_sh")

    def __init__(self, lin, const, isreal):
        self.lin = lin          # dict atom -> coef
        self.const = const
        self.isreal = isreal
        self._term = None
        self._sh = None

    def key(self):
        return (tuple(sorted((a.key, c) for a, c in self.lin.items())), self.const)

    # -- views
    @property
    def sh(self):
        if self._sh is None:
            s = self.const
            for a, c in self.lin.items():
                s += a.sh * c
            if self.isreal:
                s = Fraction(s)
            self._sh = s
        return self._sh

    @property
    def term(self):
        if self._term is None:
            realterm = self.isreal
            parts = []
            for a, c in sorted(self.lin.items(), key=lambda x: x[0].key):
                t = a.term
                if realterm and not a.isreal:
                    t = z3.ToReal(t)
                if c == 1:
                    parts.append(t)
                else:
                    parts.append(t * z3val(Fraction(c) if realterm else c))
            if self.const != 0 or not parts:
                parts.append(z3val(Fraction(self.const) if realterm else self.const))
            t = parts[0] if len(parts) == 1 else z3.Sum(*parts)
            self._term = t
        return self._term

    def bounds(self):
        lo = hi = self.const
        for a, c in self.lin.items():
            alo, ahi = a.lo, a.hi
            if alo is None:
                return None, None
            if c > 0:
                lo += alo * c
                hi += ahi * c
            else:
                lo += ahi * c
                hi += alo * c
        return lo, hi

    def path_bounds(self):
        """bounds on the current path"""
        lo = hi = self.const
        for a, c in self.lin.items():
            d = ENG.dom.get(a, a.dom)
            if not d:
                return None, None
            x, y = d[0][0] * c, d[-1][1] * c
            lo += min(x, y)
            hi += max(x, y)
        return lo, hi

    def root(self):
        """small-domain root this number is a function of, or None"""
        r = None
        for a in self.lin:
            s = _small(a)
            if s is None or (r is not None and s is not r):
                return None
            r = s
        return r

    def vec(self, r):
        """values over the root's domain"""
        out = []
        for i, v in enumerate(riter(r.dom)):
            s = self.const
            for a, c in self.lin.items():
                s += (a.values[i] if a.root is not None else v) * c
            out.append(s)
        return out

    def single(self):
        """(atom, coef, const) if one integer atom"""
        if len(self.lin) == 1:
            (a, c), = self.lin.items()
            return a, c, self.const
        return None

    def __repr__(self):
        return "<SymNum %s>" % (self.sh,)

    def __hash__(self):
        return hash(ENG.concretize(self))

    def __index__(self):
        if self.isreal:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ENG.concretize(self)

    def __int__(self):
        return ENG.concretize(num_trunc(self) if self.isreal else self)

    def __float__(self):
        return float(ENG.concretize(self))

    def __bool__(self):
        r = num_cmp(self, 0, "==")
        return not r if isinstance(r, bool) else bool(b_not(r))

    # -- arithmetic
    def __add__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return num_lin(self, 1, o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return num_lin(self, 1, o, -1)

    def __rsub__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return num_lin(o, 1, self, -1)

    def __neg__(self):
        return num_lin(self, -1, ZERO, 0)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.bounds()
        if lo is not None and lo >= 0:
            return self
        return num_ite(num_cmp(self, 0, "<"), -self, self)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) or type(o).__name__ == "SymStr":
            return o * ENG.concretize(self)
        o = as_num(o)
        if o is None:
            return NotImplemented
        return num_mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return num_div(self, o)

    def __rtruediv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return num_div(o, self)

    def __floordiv__(self, o):
        return num_divmod(self, o)[0]

    def __mod__(self, o):
        return num_divmod(self, o)[1]

    def __divmod__(self, o):
        return num_divmod(self, o)

    def __rfloordiv__(self, o):
        return o // ENG.concretize(self)

    def __rmod__(self, o):
        return o % ENG.concretize(self)

    def __pow__(self, o):
        if isinstance(o, SymNum):
            o = ENG.concretize(o)
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, float) and o == 1.0:
            return self
        return pyval(ENG.concretize(self), self.isreal) ** o

    def __rpow__(self, o):
        return o ** pyval(ENG.concretize(self), self.isreal)

    def __round__(self, n=None):
        return round(pyval(ENG.concretize(self), self.isreal), n)

    def __eq__(self, o):
        return num_cmp(self, o, "==")

    def __ne__(self, o):
        return num_cmp(self, o, "!=")

    def __lt__(self, o):
        return num_cmp(self, o, "<")

    def __le__(self, o):
        return num_cmp(self, o, "<=")

    def __gt__(self, o):
        return num_cmp(self, o, ">")

    def __ge__(self, o):
        return num_cmp(self, o, ">=")

    def __format__(self, spec):
        return format(pyval(ENG.concretize(self), self.isreal), spec)

    def __str__(self):
        return str(pyval(ENG.concretize(self), self.isreal))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return num_trunc(self) == self

    def bit_length(self):
        return ENG.concretize(self).bit_length()


def pyval(v, isreal):
    if isreal:
        return float(v)
    return v


ZERO = SymNum({}, 0, False)


def as_num(o):
    if isinstance(o, SymNum):
        return o
    if isinstance(o, bool):
        return SymNum({}, int(o), False)
    if isinstance(o, int):
        return SymNum({}, o, False)
    if isinstance(o, SymBool):
        return as_num(b_int(o))
    if isinstance(o, Fraction):
        return SymNum({}, o, True)
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return None
        return SymNum({}, Fraction(o), True)
    if type(o).__module__ == "numpy" and getattr(o, "ndim", 1) == 0:
        return as_num(o.item())
    return None


def _fold_div(lin, const):
    """rest - m * (rest // m) is the remainder atom"""
    for a, ca in lin.items():
        if a.div is None:
            continue
        rl, rc, m, ratom = a.div
        if ca % m:
            continue
        t = -ca // m
        if all(lin.get(k) == t * c for k, c in rl.items()):
            lin = dict(lin)
            del lin[a]
            for k in rl:
                del lin[k]
            v = lin.get(ratom, 0) + t
            if v:
                lin[ratom] = v
            else:
                lin.pop(ratom, None)
            return _fold_div(lin, const - t * rc)
    return lin, const


def finish(lin, const, isreal):
    if not isreal and len(lin) > 1:
        lin, const = _fold_div(lin, const)
    if not lin:
        if isreal:
            f = float(const)
            return f if Fraction(f) == const else ExactFrac(const)
        return int(const)
    return SymNum(lin, const, isreal)


def ExactFrac(c):
    # a constant that is not a float: keep exact as an atom-free number
    return SymNum({}, c, True)


def num_lin(a, ca, b, cb):
    lin = {}
    if ca:
        for k, c in a.lin.items():
            lin[k] = c * ca
    if cb:
        for k, c in b.lin.items():
            v = lin.get(k, 0) + c * cb
            if v == 0:
                lin.pop(k, None)
            else:
                lin[k] = v
    return finish(lin, a.const * ca + b.const * cb, a.isreal or b.isreal)


def num_scale(a, c, isreal):
    if c == 0:
        return finish({}, 0, isreal)
    return finish({k: v * c for k, v in a.lin.items()}, a.const * c, isreal)


def mk_atom_num(term, sh, dom=None, isreal=False):
    t = ENG.intern_atom(term, sh, dom, isreal)
    return SymNum({t: 1}, 0, isreal)


def num_mul(a, b):
    isreal = a.isreal or b.isreal
    if not b.lin:
        return num_scale(a, b.const, isreal)
    if not a.lin:
        return num_scale(b, a.const, isreal)
    ra, rb = a.root(), b.root()
    if ra is not None and ra is rb and not isreal:
        return from_vec(ra, [x * y for x, y in zip(a.vec(ra), b.vec(rb))])
    ta, tb = a.term, b.term
    if isreal:
        ta = ta if a.isreal else z3.ToReal(ta)
        tb = tb if b.isreal else z3.ToReal(tb)
    dom = None
    if not isreal:
        (l1, h1), (l2, h2) = a.bounds(), b.bounds()
        if l1 is not None and l2 is not None:
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            dom = ((min(ps), max(ps)),)
    ENG.stats["nonlinear"] = ENG.stats.get("nonlinear", 0) + 1
    return rat_atom(ta * tb, a.sh * b.sh, dom, isreal, a, b, False)


def num_div(a, b):
    if not b.lin:
        if b.const == 0:
            raise ZeroDivisionError("division by zero")
        return num_scale(a, Fraction(1) / Fraction(b.const), True)
    z = num_cmp(b, 0, "==")
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError("division by zero")
    if len(a.lin) == len(b.lin) and a.lin:
        # proportional?
        k0 = next(iter(b.lin))
        if k0 in a.lin:
            q = Fraction(a.lin[k0]) / Fraction(b.lin[k0])
            if all(Fraction(a.lin.get(k, 0)) == q * c for k, c in b.lin.items()) and Fraction(a.const) == q * b.const:
                return finish({}, q, True)
    if not a.lin and a.const == 0:
        return 0.0
    ta = a.term if a.isreal else z3.ToReal(a.term)
    tb = b.term if b.isreal else z3.ToReal(b.term)
    ENG.stats["nonlinear"] = ENG.stats.get("nonlinear", 0) + 1
    return rat_atom(ta / tb, Fraction(a.sh) / Fraction(b.sh), None, True, a, b, True)


# ---- rational functions: products and quotients in a normal form, so that equal ones are seen to be equal
# polynomial: {monomial: coefficient}, a monomial is a sorted tuple of atom keys; factor: its canonical tuple
RAT_LIMIT = 400
RAT_ATOMS = {}


class Rat:
    __slots__ = ("coef", "num", "den")

    def __init__(self, coef, num, den):
        self.coef, self.num, self.den = coef, num, den    # Fraction, sorted tuples of factors


def _rfactor(poly):
    """(coefficient, factor or None if constant) of a non-zero polynomial"""
    items = sorted(poly.items())
    if len(items) == 1 and items[0][0] == ():
        return items[0][1], None
    # leading monomial: the last in order; a single monomial splits into its atoms
    c = items[-1][1]
    return c, tuple((m, k / c) for m, k in items)


def _rsplit(poly):
    """(coefficient, list of factors)"""
    if len(poly) == 1:
        (m, c), = poly.items()
        return c, [(((a,), Fraction(1)),) for a in m]
    # common atoms
    common = None
    for m in poly:
        if common is None:
            common = list(m)
        else:
            left = list(m)
            keep = []
            for a in common:
                if a in left:
                    left.remove(a)
                    keep.append(a)
            common = keep
    if common:
        new = {}
        for m, c in poly.items():
            left = list(m)
            for a in common:
                left.remove(a)
            new[tuple(left)] = c
        poly = new
    c, f = _rfactor(poly)
    return c, [(((a,), Fraction(1)),) for a in common] + ([f] if f is not None else [])


def _rat(coef, num, den):
    den = list(den)
    out = []
    for f in num:
        if f in den:
            den.remove(f)
        else:
            out.append(f)
    return Rat(coef, tuple(sorted(out)), tuple(sorted(den)))


def _pmul(a, b):
    if len(a) * len(b) > 4 * RAT_LIMIT:
        return None
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r if len(r) <= RAT_LIMIT else None


def _rexpand(factors, coef=Fraction(1)):
    p = {(): Fraction(coef)}
    for f in factors:
        p = _pmul(p, dict(f))
        if p is None:
            return None
    return p


def rat_of(x):
    """normal form of a number, or None when it is too large"""
    if len(x.lin) > RAT_LIMIT:
        return None
    plain = {}
    if x.const:
        plain[()] = Fraction(x.const)
    parts = []
    for a, c in x.lin.items():
        if a.rat is not None:
            parts.append((Fraction(c), a.rat))
        else:
            RAT_ATOMS[a.key] = a
            plain[(a.key,)] = Fraction(c)
    if plain:
        c, fs = _rsplit(plain)
        parts.append((Fraction(1), _rat(c, fs, ())))
    if not parts:
        return Rat(Fraction(0), (), ())
    if len(parts) == 1:
        c, r = parts[0]
        return Rat(c * r.coef, r.num, r.den)
    den = []
    for c, r in parts:
        have = list(den)
        for f in r.den:
            if f in have:
                have.remove(f)
            else:
                den.append(f)
    total = {}
    for c, r in parts:
        left = list(den)
        for f in r.den:
            left.remove(f)
        p = _rexpand(list(r.num) + left, c * r.coef)
        if p is None:
            return None
        for m, v in p.items():
            w = total.get(m, 0) + v
            if w:
                total[m] = w
            else:
                total.pop(m, None)
    if not total:
        return Rat(Fraction(0), (), ())
    c, fs = _rsplit(total)
    return _rat(c, fs, den)


def rat_atom(term, sh, dom, isreal, a, b, div):
    ra, rb = rat_of(a), rat_of(b)
    r = None
    if ra is not None and rb is not None and ra.coef and rb.coef:
        r = _rat(ra.coef / rb.coef, ra.num + rb.den, ra.den + rb.num) if div else _rat(ra.coef * rb.coef, ra.num + rb.num, ra.den + rb.den)
        if not r.num and not r.den:
            return finish({}, r.coef, isreal)
        if len(r.den) == 0 and len(r.num) == 1 and all(len(m) <= 1 for m, _ in r.num[0]):
            # linear again
            lin = {RAT_ATOMS[m[0]]: c * r.coef for m, c in r.num[0] if m}
            const = sum([c * r.coef for m, c in r.num[0] if not m], Fraction(0))
            if isreal:
                return finish(lin, const, True)
            if all(v.denominator == 1 for v in lin.values()) and const.denominator == 1:
                return finish({k: int(v) for k, v in lin.items()}, int(const), False)
    x = mk_atom_num(term, sh, dom, isreal)
    if r is not None:
        (at, _), = x.lin.items()
        if at.rat is None:
            at.rat = r
    return x


def _alo(a):
    return a.lo if a.lo is not None else a.rlo


def _positive(f, strict):
    """whether a factor is obviously not negative (positive, if strict)"""
    some = False
    for m, c in f:
        if c < 0:
            return False
        los = [_alo(RAT_ATOMS[k]) for k in m]
        if any(l is None or l < 0 for l in los):
            return False
        if all(l > 0 for l in los):
            some = True
    return some or not strict


def _pterm(f):
    """(z3 term, value) of a factor, scaled by a positive number"""
    k = 1
    for m, c in f:
        k = k * c.denominator // math.gcd(k, c.denominator)
    isint = all(not RAT_ATOMS[a].isreal for m, _ in f for a in m)
    ts = []
    sh = Fraction(0)
    for m, c in f:
        c = c * k
        t = None
        v = Fraction(1)
        for a in m:
            at = RAT_ATOMS[a]
            u = at.term if isint or at.isreal else z3.ToReal(at.term)
            t = u if t is None else t * u
            v *= Fraction(at.sh)
        sh += v * c
        cv = z3.IntVal(int(c)) if isint else z3val(Fraction(c))
        ts.append(cv if t is None else t if c == 1 else t * cv)
    return (ts[0] if len(ts) == 1 else z3.Sum(*ts)), sh, isint


def rat_cmp(d, op):
    """d op 0 by its normal form; None when that does not help"""
    r = rat_of(d)
    if r is None:
        return None
    if r.coef == 0:
        return bool(_pycmp(0, 0, op))
    if any(not _positive(f, False) for f in r.den):
        if op not in ("==", "!="):
            return None
    fs = [f for f in r.num if not _positive(f, True)]
    if not fs:
        return bool(_pycmp(1 if r.coef > 0 else -1, 0, op))
    if r.coef < 0:
        op = _FLIP[op]
    if len(fs) == 1 and all(len(m) <= 1 for m, _ in fs[0]):
        lin = {RAT_ATOMS[m[0]]: c for m, c in fs[0] if m}
        const = sum([c for m, c in fs[0] if not m], Fraction(0))
        if all(not a.isreal for a in lin):
            k = 1
            for c in list(lin.values()) + [const]:
                k = k * c.denominator // math.gcd(k, c.denominator)
            x = finish({a: int(c * k) for a, c in lin.items()}, int(const * k), False)
        else:
            x = finish(lin, const, True)
        return num_cmp(x, 0, op) if isinstance(x, SymNum) else bool(_pycmp(x, 0, op))
    if op in ("==", "!=") and len(fs) > 1:
        parts = [rat_zero(f) for f in fs]
        z = b_or(parts)
        return z if op == "==" else b_not(z)
    ts, sh, allint = [], Fraction(1), True
    for f in fs:
        t, v, isint = _pterm(f)
        ts.append((t, isint))
        sh *= v
        allint = allint and isint
    t = None
    for u, isint in ts:
        if isint and not allint:
            u = z3.ToReal(u)
        t = u if t is None else t * u
    zero = z3.IntVal(0) if allint else z3val(Fraction(0))
    cond = {"==": lambda: t == zero, "!=": lambda: z3.Not(t == zero), "<": lambda: z3.Not(t >= zero), "<=": lambda: t <= zero,
            ">": lambda: z3.Not(t <= zero), ">=": lambda: t >= zero}[op]()
    return SymBool(cond, bool(_pycmp(sh, 0, op)))


LOGARG = {}      # atom of a logarithm -> its argument


def log_cmp(d, op):
    """log(x) op constant and log(x) op log(y), by monotonicity"""
    if any(at not in LOGARG for at in d.lin):
        return None
    items = sorted(d.lin.items(), key=lambda kv: -kv[1])
    if len(items) == 1:
        (at, c), = items
        v = math.exp(float(-d.const / c)) if d.const else 1
        return num_cmp(LOGARG[at], v, op if c > 0 else _FLIP[op])
    (a, c), (b, e) = items
    if c == -e and not d.const:
        return num_cmp(LOGARG[a], LOGARG[b], op)
    return None


def rat_zero(f):
    t, v, isint = _pterm(f)
    return SymBool(t == (z3.IntVal(0) if isint else z3val(Fraction(0))), v == 0)


def from_vec(root, vals):
    """number that takes vals over root's domain"""
    ds = list(riter(root.dom))
    if len(set(vals)) == 1:
        return int(vals[0])
    if len(ds) >= 2 and isinstance(vals[0], int):
        step = Fraction(vals[1] - vals[0], ds[1] - ds[0])
        if step.denominator == 1:
            step = int(step)
            base = vals[0] - step * ds[0]
            if all(base + step * d == v for d, v in zip(ds, vals)):
                return finish({root: step}, base, False)
    a = ENG.fn_atom(root, tuple(vals))
    return SymNum({a: 1}, 0, False)


def fn_term(root, vals):
    ds = list(riter(root.dom))
    groups = []
    for d, v in zip(ds, vals):
        if groups and groups[-1][1] == v:
            groups[-1][0] = d
        else:
            groups.append([d, v])
    t = z3val(groups[-1][1])
    for d, v in reversed(groups[:-1]):
        t = z3.If(root.term <= d, z3val(v), t)
    return t


def num_divmod(a, m):
    a = as_num(a)
    if isinstance(m, SymNum):
        m = ENG.concretize(m)
    if isinstance(m, float) or a.isreal:
        m = Fraction(m)
        if m == 0:
            raise ZeroDivisionError("float modulo")
        q = num_floor(num_scale(a, Fraction(1) / m, True))
        q = q * 1.0
        return q, a - q * m
    if m == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    lo, hi = a.bounds()
    mult, rest, rc = {}, {}, a.const
    for k, c in a.lin.items():
        if c % m == 0:
            mult[k] = c // m
        else:
            rest[k] = c
    qc, rc = divmod(a.const, m)
    restn = SymNum(rest, rc, False)
    if m > 0:
        rlo, rhi = restn.bounds()
        if rlo is not None:
            k0 = rlo // m
            if rhi // m == k0:
                q = finish(mult, qc + k0, False)
                r = finish(rest, rc - k0 * m, False)
                return q, r
    r = a.root()
    if r is not None:
        v = a.vec(r)
        return from_vec(r, [x // m for x in v]), from_vec(r, [x % m for x in v])
    if m < 0:
        raise Unsupported("division by negative constant")
    # general: quotient of rest
    lo, hi = restn.path_bounds()
    if lo is not None and lo // m == hi // m:
        k0 = lo // m
        return finish(mult, qc + k0, False), finish(rest, rc - k0 * m, False)
    dom = ((lo // m, hi // m),) if lo is not None else None
    qa = ENG.intern_atom(restn.term / z3.IntVal(m), restn.sh // m, dom, False)
    if qa.div is None:
        ra = ENG.intern_atom(restn.term % z3.IntVal(m), restn.sh % m, ((0, m - 1),), False)
        qa.div = (rest, rc, m, ra)
    else:
        qa.div[3].sh = restn.sh % m
    qq = num_lin(SymNum({qa: 1}, 0, False), 1, SymNum(mult, qc, False), 1)
    return qq, SymNum({qa.div[3]: 1}, 0, False)


def num_floor(x):
    x = as_num(x)
    if not x.isreal:
        return finish(x.lin, x.const, False)
    if not x.lin:
        import math
        return math.floor(x.const)
    import math
    lo, hi = x.bounds()
    dom = ((math.floor(lo), math.floor(hi)),) if lo is not None else None
    return mk_atom_num(z3.ToInt(x.term), math.floor(x.sh), dom, False)


def num_trunc(x):
    x = as_num(x)
    if not x.isreal:
        return finish(x.lin, x.const, False)
    if not x.lin:
        return int(x.const)
    c = num_cmp(x, 0, ">=")
    if c is True:
        return num_floor(x)
    if c is False:
        return -as_num(num_floor(-x))
    return num_ite(c, num_floor(x), 0 - as_num(num_floor(-x)))


def num_ite(c, a, b):
    """numeric if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    na, nb = as_num(a), as_num(b)
    isreal = na.isreal or nb.isreal
    if na.lin == nb.lin and na.const == nb.const:
        return a
    if c.atom is not None and not isreal:
        r = c.atom
        if _small(r) is r and (not na.lin or na.root() is r) and (not nb.lin or nb.root() is r):
            va, vb = na.vec(r), nb.vec(r)
            return from_vec(r, [x if rin(d, c.rs) else y for d, x, y in zip(riter(r.dom), va, vb)])
    ta = na.term if (na.isreal or not isreal) else (z3.ToReal(na.term) if na.lin else z3val(Fraction(na.const)))
    tb = nb.term if (nb.isreal or not isreal) else (z3.ToReal(nb.term) if nb.lin else z3val(Fraction(nb.const)))
    (l1, h1), (l2, h2) = na.bounds(), nb.bounds()
    dom = None
    if l1 is not None and l2 is not None:
        dom = ((min(l1, l2), max(h1, h2)),)
    return mk_atom_num(z3.If(c.term, ta, tb), na.sh if c.sh else nb.sh, dom, isreal)


_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def _pycmp(x, y, op):
    if op == "==":
        return x == y
    if op == "!=":
        return x != y
    if op == "<":
        return x < y
    if op == "<=":
        return x <= y
    if op == ">":
        return x > y
    return x >= y


def num_cmp(a, b, op):
    a = as_num(a)
    if isinstance(b, float) and (b != b or b in (float("inf"), float("-inf"))):
        return _pycmp(0.0, b, op)
    nb = as_num(b)
    if nb is None:
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    d = num_lin(a, 1, nb, -1)
    d = as_num(d)
    if not d.lin:
        return bool(_pycmp(d.const, 0, op))
    lo, hi = d.bounds()
    if lo is not None:
        if op in ("==", "!="):
            if lo > 0 or hi < 0:
                return op == "!="
        elif op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif op == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif op == ">":
            if lo > 0:
                return True
            if hi <= 0:
                return False
        elif op == ">=":
            if lo >= 0:
                return True
            if hi < 0:
                return False
    if LOGARG and d.isreal and len(d.lin) <= 2:
        q = log_cmp(d, op)
        if q is not None:
            return q
    if any(at.rat is not None for at in d.lin):
        q = rat_cmp(d, op)
        if q is not None:
            return q
    r = d.root()
    if r is not None:
        vs = d.vec(r)
        rs = rnorm([(x, x) for x, v in zip(riter(r.dom), vs) if _pycmp(v, 0, op)])
        return atom_in(r, rs)
    s = d.single()
    if s is not None and not s[0].isreal and s[0].dom is not None:
        at, c, k = s
        # c*x + k op 0
        lo, hi = at.lo, at.hi
        q = Fraction(-k) / Fraction(c)
        o = op if c > 0 else _FLIP[op]
        import math
        if o in ("==", "!="):
            rs = ((int(q), int(q)),) if q.denominator == 1 else ()
            rs = rinter(rs, at.dom)
            if o == "!=":
                rs = rminus(at.dom, rs)
        elif o == "<":
            rs = ((lo, math.ceil(q) - 1),)
        elif o == "<=":
            rs = ((lo, math.floor(q)),)
        elif o == ">":
            rs = ((math.floor(q) + 1, hi),)
        else:
            rs = ((math.ceil(q), hi),)
        return atom_in(at, rnorm(rs))
    if op in ("==", "!=") and not d.isreal:
        ra, rb = a.root(), nb.root()
        if ra is not None and rb is not None and a.lin and nb.lin and ra is not rb:
            # functions of two different small variables
            ma, mb = {}, {}
            for x, v in zip(riter(ra.dom), a.vec(ra)):
                ma.setdefault(v, []).append((x, x))
            for x, v in zip(riter(rb.dom), nb.vec(rb)):
                mb.setdefault(v, []).append((x, x))
            common = [v for v in ma if v in mb]
            if len(common) == 0:
                return op == "!="
            ident = all(a_.root is None for a_ in a.lin) and all(b_.root is None for b_ in nb.lin)
            if not (ident and len(common) > 3):
                res = b_or([b_and([atom_in(ra, rnorm(ma[v])), atom_in(rb, rnorm(mb[v]))]) for v in common])
                return res if op == "==" else b_not(res)
    sh = _pycmp(d.sh, 0, op)
    # canonical orientation for term sharing
    items = sorted(d.lin.items(), key=lambda x: x[0].key)
    neg = items[0][1] < 0
    dd = SymNum({k: -v for k, v in d.lin.items()}, -d.const, d.isreal) if neg else d
    o = _FLIP[op] if neg else op
    pos = {k: v for k, v in dd.lin.items() if v > 0}
    negs = {k: -v for k, v in dd.lin.items() if v < 0}
    c = dd.const
    L = SymNum(pos, c if c > 0 else 0, d.isreal)
    R = SymNum(negs, -c if c < 0 else 0, d.isreal)
    lt, rt = L.term, R.term
    if o == "==":
        return SymBool(lt == rt, sh)
    if o == "!=":
        return SymBool(z3.Not(lt == rt), sh)
    if o == "<":
        return SymBool(z3.Not(lt >= rt), sh)
    if o == "<=":
        return SymBool(lt <= rt, sh)
    if o == ">":
        return SymBool(z3.Not(lt <= rt), sh)
    return SymBool(lt >= rt, sh)


def num_in(x, rs):
    """x (SymNum) lies in the integer ranges rs"""
    if not isinstance(x, SymNum):
        return rin(x, rs)
    r = x.root()
    if r is not None:
        return atom_in(r, rnorm([(d, d) for d, v in zip(riter(r.dom), x.vec(r)) if rin(v, rs)]))
    s = x.single()
    if s is not None and s[1] == 1:
        at, _, k = s
        return atom_in(at, tuple((a - k, b - k) for a, b in rs))
    lo, hi = x.bounds()
    if lo is not None:
        c = rinter(rs, ((lo, hi),))
        if not c:
            return False
        if c == ((lo, hi),):
            return True
        return SymBool(range_term(x.term, c, ((lo, hi),)), rin(x.sh, c))
    return SymBool(range_term(x.term, rs), rin(x.sh, rs))


# ---------------------------------------------------------------- engine
class Decision:
    __slots__ = ("sb", "outcome", "done", "value", "tid")

    def __init__(self, sb, outcome, done, value=None):
        self.sb, self.outcome, self.done, self.value = sb, outcome, done, value
        self.tid = sb.term.get_id()


class Engine:
    def __init__(self, seed=1, timeout_ms=20000, deadline=None, max_paths=10 ** 9, max_decisions=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.solver.set("random_seed", seed)
        self.stack = []
        self.pos = 0
        self.model = None
        self.known = {}
        self.dom = {}
        self.inputs = {}
        self.stats = {"paths": 0, "decisions": 0, "queries": 0, "solver_s": 0.0, "checks": 0,
                      "check_queries": 0, "unknown": 0, "concretizations": 0, "infeasible": 0, "restarts": 0}
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.spec = 0
        self.atoms = {}
        self.fns = {}
        self.varcache = {}
        self.known_terms = []
        self.digits = {}
        self.reached = set()
        self.observed = []
        self.incomplete = None
        self.functions = set()
        self.notes = {}
        self.run_id = 0
        self.per_path = []      # callables run at the start of each path

    # ---- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        return r

    def out_of_time(self):
        return self.deadline is not None and time.monotonic() > self.deadline

    # ---- atoms
    def intern_atom(self, term, sh, dom, isreal):
        k = (term.get_id(), dom)
        a = self.atoms.get(k)
        if a is None:
            a = Atom(term, sh, dom, isreal)
            self.atoms[k] = a
        else:
            a.sh = sh
        return a

    def fn_atom(self, root, vals):
        k = (root, vals)
        a = self.fns.get(k)
        sh = None
        for d, v in zip(riter(root.dom), vals):
            if d == root.sh:
                sh = v
                break
        if a is None:
            a = Atom(None, sh, rnorm([(v, v) for v in set(vals)]), False, root, vals,
                     mk=lambda: fn_term(root, vals))
            self.fns[k] = a
        else:
            a.sh = sh
        return a

    # ---- branching
    def branch(self, sb, value=None):
        term_id = None
        if sb.atom is not None and sb.atom.dom is not None:
            cur = self.dom.get(sb.atom, sb.atom.dom)
            inter = rinter(cur, sb.rs)
            if not inter:
                return False
            if inter == cur:
                return True
        tid = sb.term.get_id()
        k = self.known.get(tid)
        if k is not None:
            return k
        if z3.is_not(sb.term):
            k = self.known.get(sb.term.arg(0).get_id())
            if k is not None:
                return not k
        if self.spec:
            raise SpecFail()
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d.tid != tid:
                raise EngineError("non-deterministic re-execution at decision %d: %s vs %s" % (self.pos, d.sb.term, sb.term))
            self.pos += 1
            out = d.outcome
            if out != sb.sh:
                raise EngineError("shadow disagrees with decision %s (%s vs %s)" % (sb.term, out, sb.sh))
        else:
            if len(self.stack) >= self.max_decisions:
                raise BudgetExceeded("decisions")
            if (len(self.stack) & 15) == 0 and self.out_of_time():
                raise BudgetExceeded("time")
            out = sb.sh
            self.solver.push()
            self.solver.add(sb.term if out else z3.Not(sb.term))
            self.stack.append(Decision(sb, out, False, value))
            self.pos += 1
            self.stats["decisions"] += 1
        self._learn(sb, out, tid)
        return out

    def _learn(self, sb, out, tid):
        self.known[tid] = out
        self.known_terms.append(sb)
        if sb.atom is not None and sb.atom.dom is not None:
            cur = self.dom.get(sb.atom, sb.atom.dom)
            self.dom[sb.atom] = rinter(cur, sb.rs) if out else rminus(cur, sb.rs)
        elif out and z3.is_and(sb.term):
            for c in sb.term.children():
                self.known[c.get_id()] = True
        elif not out and z3.is_or(sb.term):
            for c in sb.term.children():
                self.known[c.get_id()] = False
        elif z3.is_not(sb.term):
            self.known[sb.term.arg(0).get_id()] = not out

    def decide(self, b):
        return b if isinstance(b, bool) else bool(b)

    def concretize(self, x):
        """fix a number to one value (the others are explored as alternatives)"""
        if isinstance(x, bool) or not isinstance(x, (SymNum, SymBool)):
            return x
        if isinstance(x, SymBool):
            return bool(x)
        if not x.lin:
            return x.const
        lo, hi = x.bounds()
        if lo is not None and lo == hi:
            return lo
        self.stats["concretizations"] += 1
        while True:
            # on re-execution the decision that comes next tells the value tried (if it is ours)
            vs = [x.sh]
            if self.pos < len(self.stack) and self.stack[self.pos].value is not None:
                vs.insert(0, self.stack[self.pos].value)
            pos = self.pos
            for v in vs:
                c = num_cmp(x, v, "==")
                if c is True or (c is not False and self.branch(c, v)):
                    return v
                if self.pos != pos:
                    break
            else:
                raise EngineError("shadow of %s is not a possible value" % (x,))

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise PathAbort()
            return
        if not isinstance(b, SymBool):
            b = bool(b)
            if not b:
                raise PathAbort()
            return
        if b.atom is not None and b.atom.dom is not None:
            cur = self.dom.get(b.atom, b.atom.dom)
            inter = rinter(cur, b.rs)
            if not inter:
                raise PathAbort()
            if inter == cur:
                return
        tid = b.term.get_id()
        k = self.known.get(tid)
        if k is True:
            return
        if k is False:
            raise PathAbort()
        if self.spec:
            raise SpecFail()
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d.tid != tid or not d.outcome:
                raise EngineError("non-deterministic re-execution at assumption")
            self.pos += 1
        else:
            self.solver.push()
            self.solver.add(b.term)
            if b.sh:
                self.stack.append(Decision(b, True, True))
                self.pos += 1
            else:
                r = self._check()
                if r == z3.sat:
                    self.model = self.solver.model()
                    self.stack.append(Decision(b, True, True))
                    self.stats["restarts"] += 1
                    raise Restart()
                self.solver.pop()
                if r == z3.unknown:
                    self.stats["unknown"] += 1
                    self.incomplete = "solver unknown on an assumption"
                raise PathAbort()
        self._learn(b, True, tid)

    # ---- inputs
    def new_var(self, name, dom=None, isreal=False, exclude=()):
        """a fresh input variable (integer over ranges dom, or real)"""
        k = (name, dom, isreal)
        a = self.varcache.get(k)
        if a is None:
            t = z3.Real(name) if isreal else z3.Int(name)
            a = Atom(t, None, dom, isreal, name=name)
            self.varcache[k] = a
        v = None
        if self.model is not None:
            mv = self.model.eval(a.term)
            if isreal and z3.is_rational_value(mv):
                v = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            elif isreal and z3.is_algebraic_value(mv):
                raise EngineError("algebraic model value")
            elif not isreal and z3.is_int_value(mv):
                v = mv.as_long()
        if v is None or (dom is not None and not rin(v, dom)):
            v = Fraction(0) if isreal else (dom[0][0] if dom else 0)
        a.sh = v
        n = SymNum({a: 1}, 0, isreal)
        if dom is not None:
            # domain constraint (as an assumption with its own term, so that it is not
            # short-circuited by the atom's known domain)
            t = range_term(a.term, dom)
            sb = SymBool(t, True)
            self.assume(sb)
        return n

    # ---- assertions
    def check(self, b, msg):
        self.stats["checks"] += 1
        if not isinstance(b, (bool, SymBool)):
            b = bool(b)
        if b is True:
            return
        if b is False:
            self.fail(msg)
        if b.atom is not None and b.atom.dom is not None:
            cur = self.dom.get(b.atom, b.atom.dom)
            if rinter(cur, b.rs) == cur:
                return
        if self.known.get(b.term.get_id()) is True:
            return
        if not b.sh:
            self.fail(msg)
        self.stats["check_queries"] += 1
        self.solver.push()
        self.solver.add(z3.Not(b.term))
        r = self._check()
        if r == z3.sat:
            m = self.solver.model()
            inputs = self.concrete_inputs(m)
            self.solver.pop()
            raise ViolationFound(msg, inputs)
        self.solver.pop()
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.incomplete = "solver unknown on an assertion"

    def fail(self, msg, kind="check"):
        m = None
        # prefer exactly representable reals
        r = self._check()
        if r == z3.sat:
            m = self.solver.model()
        raise ViolationFound(msg, self.concrete_inputs(m, shadow=True), kind)

    def concrete_inputs(self, model, shadow=False):
        """values of every input created so far, from the model (or shadows)"""
        if not shadow and model is not None:
            model = self._dyadic(model)
        out = {}
        for label, (kind, val) in self.inputs.items():
            out[label] = conc(val, None if shadow else model)
        return out

    def _dyadic(self, model):
        reals = [a for (n, d, r), a in self.varcache.items() if r]
        if not reals:
            return model
        r = self.dyadic_model()
        return model if r is None else r

    def has_reals(self):
        return any(r for (n, d, r) in self.varcache)

    def dyadic_model(self):
        """a model of the path condition whose reals are exact as floats, or None"""
        self.solver.push()
        for (n, d, r), a in self.varcache.items():
            if r:
                self.solver.add(z3.IsInt(a.term * 1024))
        self.solver.set("timeout", 3000)
        r = self._check()
        model = self.solver.model() if r == z3.sat else None
        self.solver.set("timeout", self.timeout_ms)
        self.solver.pop()
        return model

    # ---- exploration
    def start_path(self):
        self.run_id += 1
        self.vfs = None
        self.pos = 0
        self.known = {}
        self.known_terms = []
        self.digits = {}
        self.dom = {}
        self.inputs = {}
        self.observed = []
        self.spec = 0
        for f in self.per_path:
            f()

    def backtrack(self):
        """flip the deepest decision with an unexplored satisfiable side"""
        while self.stack:
            if self.out_of_time():
                self.incomplete = self.incomplete or "time budget"
                return False
            d = self.stack.pop()
            self.solver.pop()
            if d.done:
                continue
            self.solver.push()
            self.solver.add(z3.Not(d.sb.term) if d.outcome else d.sb.term)
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
                self.stack.append(Decision(d.sb, not d.outcome, True, d.value))
                return True
            self.solver.pop()
            if r == z3.unknown:
                self.stats["unknown"] += 1
                self.incomplete = "solver unknown on a branch"
            else:
                self.stats["infeasible"] += 1
        return False

    def explore(self, fn, on_path=None):
        """run fn over all paths; returns None, or a ViolationFound"""
        while True:
            self.start_path()
            try:
                fn()
                self.stats["paths"] += 1
                if on_path:
                    on_path()
            except Restart:
                continue
            except PathAbort:
                self.stats["aborted"] = self.stats.get("aborted", 0) + 1
            except BudgetExceeded as e:
                self.incomplete = "budget: %s" % e
                if self.out_of_time():
                    return
            if self.stats["paths"] >= self.max_paths:
                if any(not d.done for d in self.stack):
                    self.incomplete = "path budget"
                return
            if not self.backtrack():
                return


def num_model(x, model):
    """value of a SymNum in a model (None: shadow)"""
    if not isinstance(x, SymNum):
        return x
    if model is None:
        return x.sh
    v = model.eval(x.term, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    # unassigned
    return x.sh


def freeze(v):
    """a copy of a value whose containers no longer change"""
    f = getattr(v, "__sx_freeze__", None)
    if f is not None:
        return f()
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def conc(v, model):
    """concrete python value of a symbolic value"""
    if isinstance(v, SymNum):
        x = num_model(v, model)
        return float(x) if v.isreal else int(x)
    if isinstance(v, SymBool):
        if model is None:
            return v.sh
        return z3.is_true(model.eval(v.term, model_completion=True))
    c = getattr(v, "__sx_conc__", None)
    if c is not None:
        return c(model)
    if isinstance(v, list):
        return [conc(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple(conc(x, model) for x in v)
    return v
