"""Structural operations and containers with symbolic keys."""
from . import core
from .core import SymBool, SymNum, b_and, b_or, b_not, num_cmp, num_ite, Unsupported, SpecFail
from .strs import SymStr, is_str, str_eq, str_lt, str_contains, codes, codes_eq, conc_all, mkstr

_PRIM = (str, int, float, bool, type(None), bytes)


def is_sym(x):
    """x contains something symbolic (looking through tuples)"""
    if isinstance(x, (SymStr, SymNum, SymBool)):
        return True
    if isinstance(x, tuple):
        for y in x:
            if is_sym(y):
                return True
        return False
    if isinstance(x, SymSet):
        return x._nsym > 0
    return False


def sx_eq(a, b):
    """a == b as a bool or SymBool, without forking where possible"""
    ta, tb = type(a), type(b)
    if ta in _PRIM and tb in _PRIM:
        return a == b
    if ta is SymStr or tb is SymStr:
        if is_str(a) and is_str(b):
            return codes_eq(codes(a), codes(b))
        if ta is SymStr and (tb in _PRIM or isinstance(b, (tuple, list, SymNum))):
            return False
        if tb is SymStr and (ta in _PRIM or isinstance(a, (tuple, list, SymNum))):
            return False
    if ta is SymNum or tb is SymNum:
        if ta is SymNum:
            return num_cmp(a, b, "==")
        return num_cmp(b, a, "==")
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = sx_eq(x, y)
            if not isinstance(r, (bool, SymBool)):
                r = bool(r)
            if r is False:
                return False
            if r is not True:
                parts.append(r)
        return b_and(parts)
    r = a == b
    return r


def sx_ne(a, b):
    ta, tb = type(a), type(b)
    if ta in _PRIM and tb in _PRIM:
        return a != b
    if isinstance(a, (SymStr, SymNum, SymBool, tuple, list)) or isinstance(b, (SymStr, SymNum, SymBool, tuple, list)):
        r = sx_eq(a, b)
        if isinstance(r, (bool, SymBool)):
            return b_not(r)
        return not r
    return a != b


def _ordered(x):
    return type(x) in _PRIM or is_str(x) or isinstance(x, (SymNum, SymBool, tuple, list))


def sx_lt(a, b):
    """a < b, merged over tuples/lists"""
    if type(a) in _PRIM and type(b) in _PRIM:
        return a < b
    if is_str(a) and is_str(b):
        return str_lt(a, b)
    if isinstance(a, SymNum):
        r = num_cmp(a, b, "<")
        if r is NotImplemented:
            raise TypeError("'<' not supported")
        return r
    if isinstance(b, SymNum):
        r = num_cmp(b, a, ">")
        if r is NotImplemented:
            raise TypeError("'<' not supported")
        return r
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a < b
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            if not (_ordered(x) and _ordered(y)):
                # cannot be merged: decide the elements one after another
                for u, v in zip(a, b):
                    if u is not v and not bool(sx_eq(u, v)):
                        return sx_lt(u, v)
                return len(a) < len(b)
        res = len(a) < len(b)
        open_ = []
        for x, y in zip(a, b):
            if x is y:
                continue
            eq = sx_eq(x, y)
            if eq is True:
                continue
            if eq is False:
                # what comes after is never compared
                res = sx_lt(x, y)
                break
            open_.append((x, y, eq))
        for x, y, eq in reversed(open_):
            res = b_or([sx_lt(x, y), b_and([eq, res])])
        return res
    return a < b


def sx_in(x, c):
    """x in c"""
    if isinstance(c, (SymDict, SymSet)):
        return c._contains(x)
    if isinstance(c, _Keys):
        return c.d._contains(x)
    if is_str(c):
        return str_contains(c, x)
    if isinstance(c, (list, tuple)):
        if type(x) in _PRIM and all(type(y) in _PRIM for y in c):
            return x in c
        parts = []
        for y in c:
            if x is y:
                return True
            r = sx_eq(x, y)
            if not isinstance(r, (bool, SymBool)):
                r = bool(r)
            if r is True:
                return True
            if r is not False:
                parts.append(r)
        return b_or(parts)
    if isinstance(c, range):
        if isinstance(x, SymNum):
            if c.step == 1:
                return b_and([num_cmp(x, c.start, ">="), num_cmp(x, c.stop, "<")])
            return b_or([num_cmp(x, v, "==") for v in c])
        return x in c
    if isinstance(c, (dict, set, frozenset)):
        if is_sym(x):
            return b_or([r for r in (sx_eq(x, y) for y in c)])
        return x in c
    if hasattr(type(c), "__contains__"):
        return x in c
    for y in c:
        if x is y or sx_eq(x, y):
            return True
    return False


def shadow_true(b):
    return b if isinstance(b, bool) else b.sh


class _H:
    """handle of a symbolic key"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


_MISSING = object()


def _shape(k):
    """cheap discriminator: keys with different shapes are unequal"""
    if isinstance(k, (str, SymStr)):
        return ("s", len(k))
    if isinstance(k, (int, float, SymNum, SymBool)):
        return "n"
    if isinstance(k, tuple):
        return tuple(_shape(x) for x in k)
    return type(k)


class _Table:
    """Ordered collection of pairwise different keys (some symbolic)."""
    __slots__ = ("_d", "_nsym")

    def _init(self):
        self._d = {}
        self._nsym = 0

    def _cands(self, key):
        """handles that may equal a (symbolic or concrete) key: [(handle, formula)]"""
        sh = _shape(key)
        out = []
        keysym = is_sym(key)
        for h in self._d:
            if isinstance(h, _H):
                k = h.key
            elif keysym:
                k = h
            else:
                continue
            if k is key:
                return [(h, True)]
            if _shape(k) != sh:
                continue
            r = sx_eq(key, k)
            if r is True:
                return [(h, True)]
            if r is False:
                continue
            out.append((h, r))
        return out

    def _find(self, key):
        """the handle holding key, or _MISSING (forks on symbolic equality)"""
        if isinstance(key, (list, SymDict)) or (isinstance(key, SymSet) and not isinstance(key, SymFrozenSet)):
            raise TypeError("unhashable type: %r" % type(key).__name__)
        if not self._d:
            return _MISSING
        if not is_sym(key):
            if key in self._d:
                return key
            if not self._nsym:
                return _MISSING
        elif isinstance(key, SymSet):
            key = conc_all(key)
            return key if key in self._d else _MISSING
        cands = self._cands(key)
        if not cands:
            return _MISSING
        if len(cands) == 1 and cands[0][1] is True:
            return cands[0][0]
        for h, r in cands:
            if r is True or core.ENG.branch(r):
                return h
        return _MISSING

    def _contains(self, key):
        if isinstance(key, (list, SymDict)):
            raise TypeError("unhashable type: %r" % type(key).__name__)
        if not self._d:
            return False
        if not is_sym(key):
            if key in self._d:
                return True
            if not self._nsym:
                return False
        return b_or([r for _, r in self._cands(key)])

    def __contains__(self, key):
        return bool(self._contains(key))

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def _key(self, h):
        return h.key if isinstance(h, _H) else h

    def __iter__(self):
        n = len(self._d)
        for h in list(self._d):
            if len(self._d) != n:
                raise RuntimeError("%s changed size during iteration" % ("dictionary" if isinstance(self, SymDict) else "Set"))
            yield h.key if isinstance(h, _H) else h

    def _handle(self, key):
        """a fresh handle for a key known to be absent"""
        if is_sym(key):
            self._nsym += 1
            return _H(key)
        return key

    def _del(self, h):
        if isinstance(h, _H):
            self._nsym -= 1
        return self._d.pop(h)


class _Keys:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __repr__(self):
        return "dict_keys(...)"

    def _set(self):
        return SymSet(self.d)

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __eq__(self, o):
        return self._set() == (o._set() if isinstance(o, _Keys) else o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)


class _Values:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        n = len(self.d._d)
        for h in list(self.d._d):
            if len(self.d._d) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield self.d._d[h]

    def __len__(self):
        return len(self.d)


class _Items:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        n = len(self.d._d)
        for h in list(self.d._d):
            if len(self.d._d) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield (h.key if isinstance(h, _H) else h, self.d._d[h])

    def __len__(self):
        return len(self.d)


def _numeric(v):
    return isinstance(v, (int, float, SymNum)) and not isinstance(v, bool)


class SymDict(_Table):
    __slots__ = ("__dict__",)

    def __init__(self, *args, **kw):
        self._init()
        if args:
            self._fill(args[0])
        for k, v in kw.items():
            self[k] = v

    def _fill(self, src):
        if isinstance(src, SymDict):
            if not self._d:
                self._d = dict(src._d)
                self._nsym = src._nsym
            else:
                for k, v in src.items():
                    self[k] = v
        elif isinstance(src, dict):
            for k, v in src.items():
                self[k] = v
        elif hasattr(src, "keys"):
            for k in src.keys():
                self[k] = src[k]
        else:
            for kv in src:
                k, v = kv
                self[k] = v

    def _codes(self, key):
        """{code: number} of a table from single characters to numbers, if key is a symbolic one"""
        if not isinstance(key, SymStr) or len(key) != 1 or self._nsym or len(self._d) <= 2:
            return None
        m = {}
        for h, v in self._d.items():
            if type(v) is not int:
                return None
            if isinstance(h, str) and len(h) == 1:
                m[ord(h)] = v
        return m or None

    def __getitem__(self, key):
        m = self._codes(key)
        if m:
            from .strs import code_table
            r = code_table(key.cs[0], m, next(iter(m.values())))
            if r is not None:
                return r if self._contains(key) else self.__missing__(key)
        h = self._find(key)
        if h is _MISSING:
            return self.__missing__(key)
        return self._d[h]

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, v):
        h = self._find(key)
        if h is _MISSING:
            h = self._handle(key)
        self._d[h] = v

    def __delitem__(self, key):
        h = self._find(key)
        if h is _MISSING:
            raise KeyError(key)
        self._del(h)

    def get(self, key, default=None):
        if is_sym(key) or (self._nsym and key not in self._d):
            # merged lookup of symbolic numbers: no fork
            if not isinstance(key, SymSet) and _numeric(default) and len(self._d) <= 8:
                cands = self._cands(key)
                if not cands:
                    return default
                if len(cands) > 1 or cands[0][1] is not True:
                    vals = [self._d[h] for h, _ in cands]
                    if all(_numeric(v) for v in vals) and (isinstance(default, SymNum) or any(isinstance(v, SymNum) for v in vals)):
                        res = default
                        for (h, r), v in zip(cands, vals):
                            res = num_ite(r, v, res)
                        return res
            m = self._codes(key) if type(default) is int else None
            if m:
                from .strs import code_table
                r = code_table(key.cs[0], m, default)
                if r is not None:
                    return r
        h = self._find(key)
        if h is _MISSING:
            return default
        return self._d[h]

    def setdefault(self, key, default=None):
        h = self._find(key)
        if h is _MISSING:
            h = self._handle(key)
            self._d[h] = default
        return self._d[h]

    def pop(self, key, *default):
        h = self._find(key)
        if h is _MISSING:
            if default:
                return default[0]
            raise KeyError(key)
        return self._del(h)

    def popitem(self):
        if not self._d:
            raise KeyError("popitem(): dictionary is empty")
        h = next(reversed(self._d))
        k = self._key(h)
        return (k, self._del(h))

    def keys(self):
        return _Keys(self)

    def values(self):
        return _Values(self)

    def items(self):
        return _Items(self)

    def clear(self):
        self._init()

    def copy(self):
        c = type(self).__new__(type(self))
        c._d = dict(self._d)
        c._nsym = self._nsym
        c.__dict__.update(self.__dict__)
        return c
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        c = type(self).__new__(type(self))
        memo[id(self)] = c
        c._nsym = self._nsym
        c.__dict__.update(self.__dict__)
        c._d = {h: copy.deepcopy(v, memo) for h, v in self._d.items()}
        return c

    def update(self, *args, **kw):
        if args:
            self._fill(args[0])
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __eq__(self, o):
        if isinstance(o, dict):
            o = SymDict(o)
        if not isinstance(o, SymDict):
            return False
        if len(self) != len(o):
            return False
        for k, v in self.items():
            h = o._find(k)
            if h is _MISSING:
                return False
            if not sx_eq(v, o._d[h]):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c

    def __ior__(self, o):
        self.update(o)
        return self

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __repr__(self):
        return repr(self.__sx_conc__(None))

    def __sx_conc__(self, model):
        return {_hashable(core.conc(k, model)): core.conc(v, model) for k, v in self.items()}

    def __sx_freeze__(self):
        c = SymDict.__new__(SymDict)
        c._nsym = self._nsym
        c._d = {h: core.freeze(v) for h, v in self._d.items()}
        return c

    def __sx_plain__(self, f):
        return {f(k): f(v) for k, v in self.items()}


def _hashable(x):
    if isinstance(x, list):
        return tuple(_hashable(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    return x


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *args, **kw):
        self._init()
        self.default_factory = default_factory
        if args:
            self._fill(args[0])
        for k, v in kw.items():
            self[k] = v

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self._d[self._handle(key)] = v
        return v


class SymCounter(SymDict):
    def __init__(self, *args, **kw):
        self._init()
        if args and args[0] is not None:
            self.update(args[0])
        if kw:
            self.update(kw)

    def __missing__(self, key):
        return 0

    def update(self, it=None, **kw):
        if it is not None:
            if isinstance(it, (SymDict, dict)):
                for k, v in it.items():
                    self[k] = self[k] + v
            else:
                for k in it:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def subtract(self, it=None, **kw):
        if isinstance(it, (SymDict, dict)):
            for k, v in it.items():
                self[k] = self[k] - v
        elif it is not None:
            for k in it:
                self[k] = self[k] - 1

    def most_common(self, n=None):
        from .shims import sx_sorted
        r = sx_sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def __add__(self, o):
        r = SymCounter()
        for k, v in self.items():
            r[k] = r[k] + v
        for k, v in o.items():
            r[k] = r[k] + v
        return r._pos()

    def __sub__(self, o):
        r = SymCounter(self)
        for k, v in o.items():
            r[k] = r[k] - v
        return r._pos()

    def _pos(self):
        r = SymCounter()
        for k, v in self.items():
            if v > 0:
                r[k] = v
        return r

    def __and__(self, o):
        r = SymCounter()
        for k, v in self.items():
            w = o[k]
            m = v if v < w else w
            if m > 0:
                r[k] = m
        return r


class SymSet(_Table):
    def __init__(self, it=()):
        self._init()
        if isinstance(it, SymSet):
            self._d = dict(it._d)
            self._nsym = it._nsym
        else:
            for x in it:
                self._add(x)

    def _add(self, x):
        h = self._find(x)
        if h is _MISSING:
            self._d[self._handle(x)] = None

    def add(self, x):
        self._add(x)

    def discard(self, x):
        h = self._find(x)
        if h is not _MISSING:
            self._del(h)

    def remove(self, x):
        h = self._find(x)
        if h is _MISSING:
            raise KeyError(x)
        self._del(h)

    def pop(self):
        if not self._d:
            raise KeyError("pop from an empty set")
        h = next(iter(self._d))
        k = self._key(h)
        self._del(h)
        return k

    def clear(self):
        self._init()

    def copy(self):
        return type(self)(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return type(self)(self)

    def update(self, *its):
        for it in its:
            for x in it:
                self._add(x)

    def union(self, *its):
        c = type(self)(self)
        for it in its:
            for x in it:
                c._add(x)
        return c

    def intersection(self, *its):
        cur = self
        for it in its:
            it = it if isinstance(it, _Table) else SymSet(it)
            cur = type(self)(x for x in cur if sx_in(x, it))
        return type(self)(cur)

    def difference(self, *its):
        cur = self
        for it in its:
            it = it if isinstance(it, _Table) else SymSet(it)
            cur = type(self)(x for x in cur if not sx_in(x, it))
        return type(self)(cur)

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        c = self.intersection(*its)
        self._d, self._nsym = dict(c._d), c._nsym

    def issubset(self, o):
        o = o if isinstance(o, _Table) else SymSet(o)
        return all(bool(sx_in(x, o)) for x in self)

    def issuperset(self, o):
        return all(bool(sx_in(x, self)) for x in o)

    def isdisjoint(self, o):
        return not any(bool(sx_in(x, self)) for x in o)

    def _other(self, o):
        if isinstance(o, (SymSet, set, frozenset, _Keys)):
            return SymSet(o)
        return None

    def __or__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else self.union(o)
    __ror__ = __or__

    def __and__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else self.intersection(o)
    __rand__ = __and__

    def __sub__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else self.difference(o)

    def __rsub__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else o.difference(self)

    def __xor__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else self.symmetric_difference(o)

    def __ior__(self, o):
        if self._other(o) is None:
            return NotImplemented
        self.update(o)
        return self

    def __isub__(self, o):
        if self._other(o) is None:
            return NotImplemented
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = SymSet(o)
        if not isinstance(o, SymSet):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return repr(self.__sx_conc__(None))

    def __sx_conc__(self, model):
        return {_hashable(core.conc(k, model)) for k in self}

    def __sx_plain__(self, f):
        return {f(k) for k in self}


class SymFrozenSet(SymSet):
    def __hash__(self):
        return hash(frozenset(conc_all(x) for x in self))


# ------------------------------------------------------------ logic used by the instrumentation
def sx_not(x):
    if isinstance(x, SymBool):
        return b_not(x)
    return not x


def sx_bool(x):
    """truth value without forking when possible"""
    if isinstance(x, (bool, SymBool)):
        return x
    if isinstance(x, SymNum):
        return num_cmp(x, 0, "!=")
    return bool(x)


def speculate(f):
    """evaluate a pure expression without forking; None if not possible"""
    e = core.ENG
    e.spec += 1
    try:
        return (f(),)
    except SpecFail:
        return None
    except Exception:
        return None
    finally:
        e.spec -= 1


def sx_and(*fs):
    """short-circuit conjunction of pure operands; merges symbolic conditions"""
    acc = []
    i, n = 0, len(fs)
    while i < n:
        if acc:
            r = speculate(fs[i])
            if r is None or not isinstance(r[0], (bool, SymBool)):
                # cannot merge: decide what we have
                if not b_and(acc):
                    return False
                acc = []
                v = fs[i]()
            else:
                v = r[0]
        else:
            v = fs[i]()
        if isinstance(v, SymBool):
            acc.append(v)
        else:
            if i == n - 1:
                if not acc:
                    return v
                if v is True:
                    return b_and(acc)
                if v is False:
                    return False
                if b_and(acc):
                    return v
                return False
            if not v:
                if acc and v is not False:
                    if b_and(acc):
                        return v
                    return False
                return v if not acc else False
        i += 1
    return b_and(acc)


def sx_or(*fs):
    acc = []
    i, n = 0, len(fs)
    while i < n:
        if acc:
            r = speculate(fs[i])
            if r is None or not isinstance(r[0], (bool, SymBool)):
                if b_or(acc):
                    return True
                acc = []
                v = fs[i]()
            else:
                v = r[0]
        else:
            v = fs[i]()
        if isinstance(v, SymBool):
            acc.append(v)
        else:
            if i == n - 1:
                if not acc:
                    return v
                if v is False:
                    return b_or(acc)
                if v is True:
                    return True
                if b_or(acc):
                    return True
                return v
            if v:
                if acc and v is not True:
                    if b_or(acc):
                        return True
                    return v
                return v if not acc else True
        i += 1
    return b_or(acc)


NO = object()


def sx_merge(test, fa, fb):
    """both values of a pure conditional in one, where both are numbers or truth values; NO otherwise"""
    if isinstance(test, SymBool):
        a = speculate(fa)
        if a is not None and _numeric(a[0]):
            b = speculate(fb)
            if b is not None and _numeric(b[0]):
                return num_ite(test, a[0], b[0])
        elif a is not None and isinstance(a[0], (bool, SymBool)):
            b = speculate(fb)
            if b is not None and isinstance(b[0], (bool, SymBool)):
                return b_or([b_and([test, a[0]]), b_and([b_not(test), b[0]])])
    return NO


def sx_ifexp(test, fa, fb):
    v = sx_merge(test, fa, fb)
    if v is not NO:
        return v
    return fa() if test else fb()


def sx_min(vals):
    r = vals[0]
    for v in vals[1:]:
        r = num_ite(sx_lt(v, r), v, r)
    return r


def sx_max(vals):
    r = vals[0]
    for v in vals[1:]:
        r = num_ite(sx_lt(r, v), v, r)
    return r
