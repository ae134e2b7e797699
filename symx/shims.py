"""Replacements for built-ins and library modules seen by instrumented code."""
import builtins as _b
import functools as _functools
import os as _os
import sys as _sys
import types as _types
import math as _math
from fractions import Fraction
import collections as _collections
from . import core
from .core import SymBool, SymNum, b_and, b_or, num_ite, num_cmp, Unsupported, as_num
from . import strs
from .strs import (SymStr, METHODS, mkstr, codes, conc_all, is_str, seq_get, seq_index, to_str, fmt_value,
                   concretize_str, split_lines, conc_str)
from .ops import (SymDict, SymSet, SymFrozenSet, SymDefaultDict, SymCounter, is_sym, sx_eq, sx_ne, sx_lt, sx_in,
                  sx_not, sx_and, sx_or, sx_ifexp, sx_merge, NO, sx_min, sx_max, _Keys, _Values, _Items, _PRIM, _numeric)
from .regex import ReModule, SPattern, SMatch


# ------------------------------------------------------------ type objects
class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, SymStr))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, (str, SymStr))

    def __call__(cls, *a, **k):
        if not a:
            return ""
        if len(a) > 1 or k:
            if isinstance(a[0], strs.SymBytes):
                return a[0].s
            return str(*a, **k)
        return to_str(a[0])

    def __getattr__(cls, name):
        if name == "maketrans":
            return lambda *a: sx_dict(str.maketrans(*[conc_all(x) for x in a]))
        f = getattr(str, name)
        return lambda s, *a, **k: sx_m(s, name, *a, **k)


class sx_str(metaclass=_StrMeta):
    pass


sx_str.__name__ = sx_str.__qualname__ = "str"


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SymBool)) or (isinstance(o, SymNum) and not o.isreal)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)

    def __call__(cls, x=0, *a):
        if a:
            return int(conc_all(x), *a)
        if isinstance(x, SymNum):
            return core.num_trunc(x)
        if isinstance(x, SymBool):
            return core.b_int(x)
        if isinstance(x, SymStr):
            n = strs.text_num(x)
            return int(concretize_str(x)) if n is None else n
        return int(x)

    def __getattr__(cls, name):
        return getattr(int, name)


class sx_int(metaclass=_IntMeta):
    pass


sx_int.__name__ = sx_int.__qualname__ = "int"


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SymNum) and o.isreal)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymBool):
            x = core.b_int(x)
        if isinstance(x, SymNum):
            return SymNum(x.lin, x.const, True)
        if isinstance(x, SymStr):
            n = strs.text_num(x)
            return float(concretize_str(x)) if n is None else SymNum(n.lin, n.const, True)
        return float(x)

    def __getattr__(cls, name):
        return getattr(float, name)


class sx_float(metaclass=_FloatMeta):
    pass


sx_float.__name__ = sx_float.__qualname__ = "float"


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SymBool))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, bool)

    def __call__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return num_cmp(x, 0, "!=")
        return bool(x)


class sx_bool(metaclass=_BoolMeta):
    pass


sx_bool.__name__ = sx_bool.__qualname__ = "bool"


class _DictMeta(type):
    def __instancecheck__(cls, o):
        if cls is sx_dict:
            return isinstance(o, (SymDict, dict))
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is sx_dict:
            return issubclass(c, (SymDict, dict))
        return type.__subclasscheck__(cls, c)

    def __call__(cls, *a, **k):
        if cls is sx_dict:
            return SymDict(*a, **k)
        return type.__call__(cls, *a, **k)


class sx_dict(SymDict, metaclass=_DictMeta):
    pass


sx_dict.__name__ = sx_dict.__qualname__ = "dict"


class _SetMeta(type):
    def __instancecheck__(cls, o):
        if cls is sx_set:
            return isinstance(o, (SymSet, set)) and not isinstance(o, SymFrozenSet)
        if cls is sx_frozenset:
            return isinstance(o, (SymFrozenSet, frozenset))
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is sx_set:
            return issubclass(c, (SymSet, set)) and not issubclass(c, SymFrozenSet)
        return type.__subclasscheck__(cls, c)

    def __call__(cls, *a):
        if cls is sx_set:
            return SymSet(*a)
        if cls is sx_frozenset:
            return SymFrozenSet(*a)
        return type.__call__(cls, *a)


class sx_set(SymSet, metaclass=_SetMeta):
    pass


class sx_frozenset(SymFrozenSet, metaclass=_SetMeta):
    pass


sx_set.__name__ = sx_set.__qualname__ = "set"
sx_frozenset.__name__ = sx_frozenset.__qualname__ = "frozenset"

_TYPEMAP = {str: sx_str, SymStr: sx_str, int: sx_int, float: sx_float, bool: sx_bool, SymBool: sx_bool,
            SymDict: sx_dict, dict: sx_dict, SymSet: sx_set, set: sx_set, SymFrozenSet: sx_frozenset,
            frozenset: sx_frozenset}


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymNum):
                return sx_float if x.isreal else sx_int
            return _TYPEMAP.get(type(x), type(x))
        return type(*a, **k)


class sx_type(metaclass=_TypeMeta):
    pass


# ------------------------------------------------------------ functions
def sx_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return c.cs[0]
    return ord(c)


def sx_chr(n):
    if isinstance(n, SymNum):
        lo, hi = n.bounds()
        if lo is None or lo < 0 or hi > 0x10FFFF:
            if not b_and([num_cmp(n, 0, ">="), num_cmp(n, 0x10FFFF, "<=")]):
                raise ValueError("chr() arg not in range(0x110000)")
        return SymStr((n,))
    return chr(n)


class _Key:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return bool(sx_lt(self.k, o.k))


def _plainkey(k):
    if type(k) in _PRIM:
        return True
    if type(k) is tuple:
        return all(_plainkey(x) for x in k)
    return False


def sx_sorted(it, *, key=None, reverse=False):
    items = list(it)
    if hasattr(key, "__sx_cmp__"):
        return sorted(items, key=key, reverse=bool(reverse))
    keys = [key(x) if key is not None else x for x in items]
    if all(_plainkey(k) for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(reverse))
    else:
        ks = [_Key(k) for k in keys]
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
    return [items[i] for i in order]


_NODEF = object()


def _extreme(name, a, key, default, less):
    if len(a) == 1:
        items = list(a[0])
        if not items:
            if default is not _NODEF:
                return default
            raise ValueError("%s() iterable argument is empty" % name)
    else:
        items = list(a)
    if key is None:
        if all(type(x) in _PRIM for x in items):
            return getattr(_b, name)(items)
        if all(_numeric(x) for x in items):
            return sx_min(items) if name == "min" else sx_max(items)
        keys = items
    else:
        keys = [key(x) for x in items]
    bi = 0
    for i in range(1, len(items)):
        c = sx_lt(keys[i], keys[bi]) if name == "min" else sx_lt(keys[bi], keys[i])
        if c:
            bi = i
    return items[bi]


def sx_bmin(*a, key=None, default=_NODEF):
    return _extreme("min", a, key, default, True)


def sx_bmax(*a, key=None, default=_NODEF):
    return _extreme("max", a, key, default, False)


def sx_sum(it, start=0):
    s = start
    for x in it:
        s = s + x
    return s


def sx_abs(x):
    return abs(x)


def sx_repr(x):
    return repr(conc_all(x))


def sx_print(*a, **k):
    return None


def sx_hash(x):
    return hash(conc_all(x))


def sx_format(x, spec=""):
    return fmt_value(x, None, spec)


def sx_pow(a, b, *m):
    return a ** b if not m else pow(conc_all(a), conc_all(b), *m)


def sx_divmod(a, b):
    return (a // b, a % b)


def sx_iter(*a):
    return iter(*a)


def sx_callable(x):
    return callable(x)


# ---- operators inserted by the instrumentation
_LISTM = {"sort", "index", "count", "remove"}


def _anysym(args):
    for x in args:
        if isinstance(x, (SymStr, SymNum, SymBool)):
            return True
        if isinstance(x, tuple) and is_sym(x):
            return True
    return False


def sx_m(obj, name, *a, **k):
    t = type(obj)
    if t is str:
        f = METHODS.get(name)
        if f is None:
            return getattr(obj, name)(*a, **k)
        if name == "join":
            if len(a) == 1:
                items = list(a[0])
                if any(type(x) is SymStr for x in items):
                    return f(obj, items)
                return obj.join(items)
        elif name == "format":
            if all(type(x) in _PRIM for x in a) and all(type(x) in _PRIM for x in k.values()):
                return obj.format(*a, **k)
            return f(obj, *a, **k)
        elif name == "translate":
            return f(obj, *a)
        elif _anysym(a) or _anysym(k.values()):
            return f(obj, *a, **k)
        return getattr(obj, name)(*a, **k)
    if t is list:
        if name == "sort":
            obj[:] = sx_sorted(obj, **k)
            return None
        if name == "index":
            if len(a) == 1 and isinstance(a[0], SymStr) and len(a[0]) == 1:
                return seq_index(obj, a[0], ValueError("x is not in list"))
            if type(a[0]) in _PRIM and all(type(x) in _PRIM for x in obj):
                return obj.index(*a)
            rng = range(len(obj))[slice(*a[1:])] if len(a) > 1 else range(len(obj))
            if len(a) == 2:
                rng = range(len(obj))[a[1]:]
            for i in rng:
                if obj[i] is a[0] or sx_eq(obj[i], a[0]):
                    return i
            raise ValueError("%r is not in list" % (a[0],))
        if name == "count":
            n = 0
            for x in obj:
                if x is a[0] or sx_eq(x, a[0]):
                    n += 1
            return n
        if name == "remove":
            for i, x in enumerate(obj):
                if x is a[0] or sx_eq(x, a[0]):
                    del obj[i]
                    return None
            raise ValueError("list.remove(x): x not in list")
        return getattr(obj, name)(*a, **k)
    if t is tuple and name in ("index", "count"):
        return sx_m(list(obj), name, *a)
    if t is dict and name in ("get", "pop", "setdefault") and is_sym(a[0]):
        return getattr(SymDict(obj), name)(*a, **k)
    return getattr(obj, name)(*a, **k)


def sx_get(obj, idx):
    if isinstance(idx, SymNum) and isinstance(obj, (list, tuple, str)):
        return seq_get(obj, idx)
    if type(obj) is dict and is_sym(idx):
        return SymDict(obj)[idx]
    return obj[idx]


def sx_mod(a, b):
    if isinstance(a, (str, SymStr)):
        return strs.sx_percent(a, b)
    return a % b


def sx_notin(x, c):
    return sx_not(sx_in(x, c))


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(map(ord, p))
        else:
            v, convr, spec = p
            out.extend(codes(fmt_value(v, convr, spec)))
    return mkstr(out)


def sx_mkdict(keys, vals):
    d = SymDict()
    for k, v in zip(keys, vals):
        if k is _UNPACK:
            d.update(v)
        else:
            d[k] = v
    return d


_UNPACK = object()


def sx_fn(name):
    core.ENG.functions.add(name)


# ------------------------------------------------------------ files
class VFS:
    def __init__(self):
        self.files = {}
        self.dirs = {"/sx"}


def vfs():
    e = core.ENG
    v = getattr(e, "vfs", None)
    if v is None:
        v = e.vfs = VFS()
    return v


def _p(path):
    path = concretize_str(path) if isinstance(path, SymStr) else str(path)
    return _os.path.normpath(path)


class SFile:
    def __init__(self, path, mode):
        self.path, self.mode, self.name = path, mode, path
        self.closed = False
        v = vfs()
        if "r" in mode and "+" not in mode:
            if path in v.files:
                data = v.files[path]
            elif _os.path.exists(path):
                with _b.open(path, encoding=None if "b" in mode else "utf-8", mode="rb" if "b" in mode else "r") as f:
                    data = f.read()
            else:
                raise FileNotFoundError(2, "No such file or directory", path)
            self.data = data
            self._lines = None
        else:
            d = _os.path.dirname(path)
            if d and not (d in v.dirs or _os.path.isdir(d) or any(p.startswith(d + "/") for p in v.files)):
                raise FileNotFoundError(2, "No such file or directory", path)
            self.data = v.files.get(path, "") if "a" in mode else ""
            self._parts = [self.data] if self.data else []
            v.files[path] = self.data
        self.pos = 0

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        self._chk()
        if not is_str(s):
            if "b" in self.mode:
                vfs().files[self.path] = s
                return 0
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self._parts.append(s)
        return len(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self):
        if "w" in self.mode or "a" in self.mode:
            if "b" not in self.mode:
                vfs().files[self.path] = METHODS["join"]("", self._parts)

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True

    def _ls(self):
        if self._lines is None:
            if isinstance(self.data, str):
                self._lines = self.data.splitlines(keepends=True) if not any(ord(c) in (0x85, 0x2028, 0x2029, 11, 12, 13, 28, 29, 30) for c in self.data) \
                    else [mkstr(x) for x in split_lines(codes(self.data.replace("\r\n", "\n").replace("\r", "\n")), True)]
            else:
                self._lines = [mkstr(x) for x in split_lines(codes(self.data), True)]
        return self._lines

    def __iter__(self):
        return self

    def __next__(self):
        self._chk()
        ls = self._ls()
        if self.pos >= len(ls):
            raise StopIteration
        self.pos += 1
        return ls[self.pos - 1]

    def readline(self):
        try:
            return next(self)
        except StopIteration:
            return ""

    def readlines(self):
        return list(self)

    def read(self):
        self._chk()
        if self.pos == 0:
            self.pos = 10 ** 9
            return self.data
        r = METHODS["join"]("", self._ls()[self.pos:])
        self.pos = 10 ** 9
        return r

    def seek(self, n):
        if n != 0:
            raise Unsupported("seek")
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def sx_open(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    return SFile(_p(path), mode)


class _PathMod:
    sep = "/"

    def exists(self, p):
        p = _p(p)
        v = vfs()
        return p in v.files or p in v.dirs or any(f.startswith(p + "/") for f in v.files) or _os.path.exists(p)

    def isfile(self, p):
        return _p(p) in vfs().files or _os.path.isfile(_p(p))

    def isdir(self, p):
        p = _p(p)
        return p in vfs().dirs or any(f.startswith(p + "/") for f in vfs().files) or _os.path.isdir(p)

    def __getattr__(self, name):
        f = getattr(_os.path, name)
        if callable(f):
            return lambda *a, **k: f(*[conc_all(x) for x in a], **k)
        return f


class ModuleShim(_types.ModuleType):
    def __init__(self, name, real=None, /, **attrs):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        real = self.__dict__.get("_real")
        if real is None or (name.startswith("__") and name != "__version__"):
            raise AttributeError("module %r has no attribute %r" % (self.__name__, name))
        v = getattr(real, name)
        return v


class ConcretizingShim(ModuleShim):
    """functions of the real module, on concretised arguments"""

    def __getattr__(self, name):
        v = ModuleShim.__getattr__(self, name)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            core.ENG.notes[self.__name__ + "." + name] = core.ENG.notes.get(self.__name__ + "." + name, 0) + 1
            return v(*[conc_all(x) for x in a], **{n: conc_all(x) for n, x in k.items()})
        return f


def _makedirs(p, mode=0o777, exist_ok=False):
    p = _p(p)
    while p and p != "/":
        vfs().dirs.add(p)
        p = _os.path.dirname(p)


def _remove(p):
    if _p(p) not in vfs().files:
        raise FileNotFoundError(2, "No such file", p)
    del vfs().files[_p(p)]


path_shim = _PathMod()
os_shim = ModuleShim("os", None, path=path_shim, makedirs=_makedirs, mkdir=_makedirs, sep="/", linesep="\n",
                     remove=_remove, unlink=_remove, getpid=lambda: 1, getcwd=lambda: "/", environ=SymDict() if False else {},
                     listdir=lambda p: [f[len(_p(p)) + 1:] for f in vfs().files if f.startswith(_p(p) + "/")] or _os.listdir(_p(p)),
                     name="posix", fspath=_os.fspath)


class _Out:
    def write(self, s):
        return 0

    def flush(self):
        pass


sys_shim = ModuleShim("sys", None, version_info=_sys.version_info, version=_sys.version, maxsize=_sys.maxsize,
                      stdout=_Out(), stderr=_Out(), argv=["x"], platform="linux", modules=_sys.modules,
                      getsizeof=lambda x: 64, path=_sys.path, getrecursionlimit=_sys.getrecursionlimit,
                      setrecursionlimit=lambda n: None, float_info=_sys.float_info)


# pickle/json: structural copies
def _deep(x):
    import copy
    return copy.deepcopy(x)


class _Pickled:
    def __init__(self, obj):
        self.obj = _check_picklable(obj)


def _check_picklable(x, seen=None):
    """a structural copy, refusing what pickle refuses (lambdas and local functions)"""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return seen[id(x)]
    if isinstance(x, _types.FunctionType):
        if "<lambda>" in x.__qualname__ or "<locals>" in x.__qualname__:
            raise AttributeError("Can't pickle local object %r" % x.__qualname__)
        return x
    if isinstance(x, SymDict):
        c = type(x).__new__(type(x))
        seen[id(x)] = c
        c._nsym = x._nsym
        for n, v in x.__dict__.items():
            c.__dict__[n] = _check_picklable(v, seen)
        c._d = {h: _check_picklable(v, seen) for h, v in x._d.items()}
        return c
    if isinstance(x, (list,)):
        c = []
        seen[id(x)] = c
        c.extend(_check_picklable(v, seen) for v in x)
        return c
    if isinstance(x, tuple):
        v = [_check_picklable(y, seen) for y in x]
        return type(x)(*v) if hasattr(x, "_fields") else tuple(v)
    if isinstance(x, SymSet):
        return x.copy()
    if isinstance(x, (SymStr, SymNum, SymBool)) or type(x) in _PRIM:
        return x
    import copy
    return copy.deepcopy(x)


def _pdump(obj, f, *a, **k):
    vfs().files[f.path] = _Pickled(obj)


def _pload(f, *a, **k):
    d = f.data
    if not isinstance(d, _Pickled):
        raise EOFError("Ran out of input")
    return _check_picklable(d.obj)


pickle_shim = ModuleShim("pickle", None, dump=_pdump, load=_pload, dumps=lambda o, *a: _Pickled(o),
                         loads=lambda p: _check_picklable(p.obj), HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4)


def _jsonable(x):
    if isinstance(x, (SymDict, dict)):
        d = SymDict()
        for k, v in x.items():
            if not is_str(k):
                if isinstance(k, (SymNum, int, float)) or k is None:
                    k = str(conc_all(k)) if not isinstance(k, bool) and k is not None else {True: "true", False: "false", None: "null"}[k]
                else:
                    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            d[k] = _jsonable(v)
        return d
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str, SymStr, SymNum, SymBool)):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


class _Json:
    def __init__(self, obj):
        self.obj = _jsonable(obj)


def _jdump(obj, f, *a, **k):
    vfs().files[f.path] = _Json(obj)
    f._parts = []
    f.flush = lambda: None


def _jload(f, *a, **k):
    d = f.data
    if isinstance(d, _Json):
        return _jsonable(d.obj)
    import json
    return _symify(json.loads(d))


def _symify(x):
    if isinstance(x, dict):
        return SymDict({k: _symify(v) for k, v in x.items()})
    if isinstance(x, list):
        return [_symify(v) for v in x]
    return x


class _JsonText:
    """text produced by json.dumps, only good for json.loads or writing to a file"""


json_shim = ModuleShim("json", None, dump=_jdump, load=_jload,
                       dumps=lambda o, *a, **k: __import__("json").dumps(conc_all(o), *a, **k),
                       loads=lambda s, *a, **k: _symify(__import__("json").loads(conc_all(s))))


# functools
def _lru_cache(maxsize=128, typed=False):
    def deco(fn):
        state = {"e": None, "d": None}

        @_functools.wraps(fn)
        def g(*a, **k):
            e = core.ENG
            key = (a, tuple(sorted(k.items())))
            tag = (id(e), e.run_id)
            if state["e"] != tag:
                state["e"], state["d"] = tag, SymDict()
            d = state["d"]
            if key in d:
                return d[key]
            v = fn(*a, **k)
            d[key] = v
            return v
        g.cache_clear = lambda: state.update(e=None)
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


functools_shim = ModuleShim("functools", _functools, lru_cache=_lru_cache, cache=lambda f: _lru_cache(None)(f))

collections_shim = ModuleShim("collections", _collections, defaultdict=SymDefaultDict, Counter=SymCounter,
                              OrderedDict=SymDict)


# math
def _isnum(x):
    return isinstance(x, (SymNum, SymBool))


def _mfun(name):
    f = getattr(_math, name)

    def g(*a):
        if any(_isnum(x) for x in a):
            if name in ("floor",):
                return core.num_floor(a[0])
            if name == "ceil":
                return -as_num(core.num_floor(-as_num(a[0])))
            if name == "log" and len(a) == 1:
                return uf("log", a[0])
            if name == "exp":
                return uf("exp", a[0])
            if name == "fabs":
                return abs(a[0])
            return f(*[conc_all(x) for x in a])
        return f(*a)
    return g


import z3 as _z3
_UFS = {}


_LOGARG = core.LOGARG


def uf(name, x):
    """an uninterpreted real function (nothing but exp(log(x)) = x is assumed); shadow from math"""
    x = as_num(x)
    if not x.lin:
        return getattr(_math, name)(float(x.const))
    if name == "exp" and len(x.lin) == 1 and x.const == 0:
        (at, k), = x.lin.items()
        if k == 1 and at in _LOGARG:
            return _LOGARG[at]
    if name == "log" and not num_cmp(x, 0, ">"):
        raise ValueError("math domain error")
    f = _UFS.get(name)
    if f is None:
        f = _UFS[name] = _z3.Function(name, _z3.RealSort(), _z3.RealSort())
    t = x.term if x.isreal else _z3.ToReal(x.term)
    r = core.mk_atom_num(f(t), Fraction(getattr(_math, name)(float(x.sh))), None, True)
    if name == "log":
        (at, _), = r.lin.items()
        _LOGARG[at] = x
    return r


class _MathShim(ModuleShim):
    def __getattr__(self, name):
        v = getattr(_math, name)
        return _mfun(name) if callable(v) else v


math_shim = _MathShim("math", _math)


def conc_deep(x):
    return conc_all(x)


# numpy: the few functions soynlp uses on symbolic values; otherwise the real ones
class NArr:
    """a small dense array (one or two dimensions) whose entries may be symbolic"""

    def __init__(self, shape, data, matrix=False):
        self.shape, self.data_, self.matrix = tuple(shape), data, matrix

    def _like(self, data, shape=None):
        shape = self.shape if shape is None else tuple(shape)
        return NArr(shape, data, self.matrix and len(shape) == 2)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self.data_)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        n, m = self.shape
        return self._like([self.data_[i * m + j] for j in range(m) for i in range(n)], (m, n))

    def transpose(self):
        return self.T

    def __len__(self):
        return self.shape[0]

    def __bool__(self):
        if len(self.data_) != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.data_[0])

    def _flat(self, idx):
        """list of (flat position, condition)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) != len(self.shape):
            raise Unsupported("partial index")
        res = [(0, True)]
        for i, n in zip(idx, self.shape):
            new = []
            if isinstance(i, SymNum):
                if not b_and([num_cmp(i, -n, ">="), num_cmp(i, n, "<")]):
                    raise IndexError("index is out of bounds")
                lo, hi = i.bounds()
                for v in range(n):
                    c = num_cmp(i, v, "==")
                    if lo is not None and lo < 0 or lo is None:
                        c = b_or([c, num_cmp(i, v - n, "==")])
                    if c is False:
                        continue
                    new.extend((p * n + v, b_and([q, c])) for p, q in res)
            else:
                i = i.__index__()
                if not -n <= i < n:
                    raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
                new = [(p * n + i % n, q) for p, q in res]
            res = new
        return res

    def _positions(self, idx):
        """positions named by an array or list of numbers or of truth values, of a one-dimensional array"""
        xs = list(idx)
        if xs and isinstance(xs[0], (bool, SymBool)):
            if len(xs) != len(self.data_):
                raise IndexError("boolean index did not match indexed array")
            return [i for i, x in enumerate(xs) if x]
        out = []
        for x in xs:
            i = core.ENG.concretize(x) if isinstance(x, SymNum) else x.__index__()
            if not -len(self.data_) <= i < len(self.data_):
                raise IndexError("index is out of bounds")
            out.append(i % len(self.data_) if self.data_ else i)
        return out

    def _spread(self, idx):
        """a row and column index, at least one of which is a list of positions: (the pairs it names, their shape), or None"""
        if not (isinstance(idx, tuple) and self.ndim == len(idx) == 2):
            return None
        if not any(isinstance(x, (list, tuple, range, NArr)) for x in idx):
            return None
        parts = []
        for x, n in zip(idx, self.shape):
            if isinstance(x, slice):
                parts.append(range(n)[x])
                continue
            if isinstance(x, (list, tuple, range, NArr)):
                xs = list(x.data_ if isinstance(x, NArr) else x)
                if xs and isinstance(xs[0], (bool, SymBool)):
                    if len(xs) != n:
                        raise IndexError("boolean index did not match indexed array")
                    xs = [i for i, v in enumerate(xs) if v]
                parts.append(xs)
            else:
                parts.append(x)
        r, c = parts
        if any(isinstance(x, slice) for x in idx):
            return [(i, j) for i in r for j in c], (len(r), len(c))
        k = max(len(x) if isinstance(x, list) else 1 for x in parts)
        if any(isinstance(x, list) and len(x) == 0 for x in parts):
            k = 0
        cols = []
        for x in parts:
            if isinstance(x, list):
                if len(x) not in (1, k):
                    raise IndexError("shape mismatch: indexing arrays could not be broadcast together")
                cols.append(x * k if len(x) == 1 else x)
            else:
                cols.append([x] * k)
        return list(zip(*cols)), (k,)

    def __getitem__(self, idx):
        spread = self._spread(idx)
        if spread:
            return NArr(spread[1], [self[ij] for ij in spread[0]])
        if isinstance(idx, (NArr, list)):
            if self.ndim == 2 and isinstance(idx, NArr) and idx.shape == self.shape:
                ds = [self.data_[i] for i, x in enumerate(idx.data_) if x]
                return NArr((len(ds),), ds)
            if self.ndim == 2:
                rows = [self[i] for i in (idx.data_ if isinstance(idx, NArr) else idx)]
                return NArr((len(rows), self.shape[1]), [v for r in rows for v in r.data_])
            ps = self._positions(idx)
            return NArr((len(ps),), [self.data_[i] for i in ps])
        if isinstance(idx, slice):
            if self.ndim != 1:
                m = self.shape[1]
                rs = range(self.shape[0])[idx]
                return self._like([v for i in rs for v in self.data_[i * m:(i + 1) * m]], (len(rs), m))
            d = self.data_[idx]
            return NArr((len(d),), d)
        if isinstance(idx, tuple) and self.ndim == 2 and any(isinstance(x, slice) for x in idx):
            r, c = [range(n)[x] if isinstance(x, slice) else x for x, n in zip(idx, self.shape)]
            m = self.shape[1]
            if isinstance(r, range) and isinstance(c, range):
                return self._like([self.data_[i * m + j] for i in r for j in c], (len(r), len(c)))
            if isinstance(r, range):
                out = [self[i, c] for i in r]
                return NArr((len(r), 1) if self.matrix else (len(r),), out, self.matrix)
            out = [self[r, j] for j in c]
            return NArr((1, len(c)) if self.matrix else (len(c),), out, self.matrix)
        if not isinstance(idx, tuple) and self.ndim == 2:
            i = idx.__index__()
            n = self.shape[1]
            if not -self.shape[0] <= i < self.shape[0]:
                raise IndexError("index out of bounds")
            i %= self.shape[0]
            row = self.data_[i * n:(i + 1) * n]
            return NArr((1, n), row, True) if self.matrix else NArr((n,), row)
        if self.ndim == 1 and isinstance(idx, SymNum):
            return seq_get(self.data_, idx)
        fl = self._flat(idx)
        if len(fl) == 1:
            return self.data_[fl[0][0]]
        r = self.data_[fl[-1][0]]
        for p, c in fl[:-1]:
            r = num_ite(c, self.data_[p], r)
        return r

    def __setitem__(self, idx, v):
        if isinstance(idx, tuple) and self.ndim == len(idx) == 2 and any(isinstance(x, slice) for x in idx):
            idx = tuple(list(range(n)[x]) if isinstance(x, slice) else x for x, n in zip(idx, self.shape))
            if all(isinstance(x, list) for x in idx):
                idx = ([i for i in idx[0] for j in idx[1]], [j for i in idx[0] for j in idx[1]])
        spread = self._spread(idx)
        if spread:
            vs = list(v.data_ if isinstance(v, NArr) else v) if isinstance(v, (NArr, list, tuple)) else [v]
            if len(vs) == 1:
                vs = vs * len(spread[0])
            if len(vs) != len(spread[0]):
                raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            for ij, x in zip(spread[0], vs):
                self[ij] = x
            return
        if isinstance(idx, (NArr, list)):
            if isinstance(idx, NArr) and idx.ndim == 2:
                ps = [i for i, x in enumerate(idx.data_) if x]
            else:
                ps = self._positions(idx)
            vs = list(v) if isinstance(v, (NArr, list, tuple)) else [v] * len(ps)
            if len(vs) != len(ps):
                raise ValueError("shape mismatch")
            for p, x in zip(ps, vs):
                self.data_[p] = x
            return
        if isinstance(idx, slice) and self.ndim == 1:
            ps = range(len(self.data_))[idx]
            vs = list(v) if isinstance(v, (NArr, list, tuple)) else [v] * len(ps)
            if len(vs) != len(ps):
                raise ValueError("could not broadcast input array")
            for p, x in zip(ps, vs):
                self.data_[p] = x
            return
        if not isinstance(idx, tuple) and self.ndim == 2:
            i = idx.__index__()
            n = self.shape[1]
            if not -self.shape[0] <= i < self.shape[0]:
                raise IndexError("index out of bounds")
            i %= self.shape[0]
            vs = (v.data_ if isinstance(v, NArr) else list(v)) if isinstance(v, (NArr, list, tuple)) else [v] * n
            if len(vs) != n:
                raise ValueError("could not broadcast input array")
            self.data_[i * n:(i + 1) * n] = vs
            return
        fl = self._flat(idx)
        if len(fl) == 1 and fl[0][1] is True:
            self.data_[fl[0][0]] = v
            return
        for p, c in fl:
            self.data_[p] = num_ite(c, v, self.data_[p])

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def tolist(self):
        if self.ndim == 1:
            return list(self.data_)
        m = self.shape[1]
        return [list(self.data_[i * m:(i + 1) * m]) for i in range(self.shape[0])]

    def copy(self):
        return self._like(list(self.data_))

    def argsort(self, axis=-1, kind=None):
        if self.ndim != 1:
            raise Unsupported("argsort of a matrix")
        return NArr((len(self.data_),), sx_sorted(range(len(self.data_)), key=lambda i: self.data_[i]))

    def astype(self, t, **k):
        if t in (float, sx_float):
            return self._like([x * 1.0 for x in self.data_])
        if t in (int, sx_int):
            return self._like([sx_int(x) for x in self.data_])
        return self.copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [x.__index__() for x in shape]
        n = len(self.data_)
        if self.matrix and len(shape) == 1:
            shape = [1] + shape
        if -1 in shape:
            k = 1
            for x in shape:
                if x != -1:
                    k *= x
            shape[shape.index(-1)] = n // k if k else 0
        k = 1
        for x in shape:
            k *= x
        if k != n:
            raise ValueError("cannot reshape array")
        return NArr(shape, list(self.data_), self.matrix)

    def flatten(self):
        return self.reshape(-1)
    ravel = flatten

    def _bin(self, o, f):
        if isinstance(o, (list, tuple)):
            o = _np_asarray(o)
        if not isinstance(o, NArr):
            return self._like([f(x, o) for x in self.data_])
        a, b = (1,) * (2 - self.ndim) + self.shape, (1,) * (2 - o.ndim) + o.shape
        if any(x != y and x != 1 and y != 1 for x, y in zip(a, b)):
            raise ValueError("operands could not be broadcast together")
        n, m = [y if x == 1 else x for x, y in zip(a, b)]
        out = [f(self.data_[(i if a[0] > 1 else 0) * a[1] + (j if a[1] > 1 else 0)], o.data_[(i if b[0] > 1 else 0) * b[1] + (j if b[1] > 1 else 0)])
               for i in range(n) for j in range(m)]
        return NArr((m,) if self.ndim == o.ndim == 1 else (n, m), out, self.matrix or o.matrix)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: y - x)

    def __mul__(self, o):
        if isinstance(o, NArr) and (self.matrix or o.matrix):
            return self.dot(o)
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: y * x)

    def __truediv__(self, o):
        return self._bin(o, _np_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda x, y: _np_div(y, x))

    def __pow__(self, p):
        if self.matrix:
            raise Unsupported("matrix power")
        return self._bin(p, _np_power)

    def __neg__(self):
        return self._like([-x for x in self.data_])

    def _inplace(self, r):
        if r.shape != self.shape:
            raise ValueError("non-broadcastable output operand")
        self.data_[:] = r.data_
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __lt__(self, o):
        return self._bin(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._bin(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._bin(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._bin(o, lambda x, y: x >= y)

    def __eq__(self, o):
        return self._bin(o, lambda x, y: sx_eq(x, y))

    def __ne__(self, o):
        return self._bin(o, lambda x, y: sx_ne(x, y))
    __hash__ = None

    def __and__(self, o):
        return self._bin(o, lambda x, y: b_and([x, y]))

    def __or__(self, o):
        return self._bin(o, lambda x, y: b_or([x, y]))

    def __invert__(self):
        return self._like([sx_not(x) for x in self.data_])

    def dot(self, o):
        if not isinstance(o, NArr) or self.ndim != 2 or o.ndim != 2:
            if isinstance(o, NArr) and self.ndim == o.ndim == 1:
                return sx_sum([x * y for x, y in zip(self.data_, o.data_)])
            raise Unsupported("dot")
        (n, k), (k2, m) = self.shape, o.shape
        if k != k2:
            raise ValueError("shapes not aligned")
        return NArr((n, m), [sx_sum([self.data_[i * k + t] * o.data_[t * m + j] for t in range(k)]) for i in range(n) for j in range(m)], self.matrix or o.matrix)
    __matmul__ = dot

    def sum(self, axis=None):
        if axis is None:
            return sx_sum(self.data_)
        n, m = self.shape
        if axis in (1, -1):
            r = [sx_sum(self.data_[i * m:(i + 1) * m]) for i in range(n)]
            return NArr((n, 1), r, True) if self.matrix else NArr((n,), r)
        r = [sx_sum(self.data_[j::m]) for j in range(m)]
        return NArr((1, m), r, True) if self.matrix else NArr((m,), r)

    def max(self):
        return sx_bmax(self.data_)

    def min(self):
        return sx_bmin(self.data_)

    def mean(self):
        return sx_sum(self.data_) / len(self.data_)

    def any(self):
        return b_or([sx_ne(x, 0) if not isinstance(x, (bool, SymBool)) else x for x in self.data_])

    def all(self):
        return b_and([sx_ne(x, 0) if not isinstance(x, (bool, SymBool)) else x for x in self.data_])

    def nonzero(self):
        ps = [i for i, x in enumerate(self.data_) if (x if isinstance(x, (bool, SymBool)) else sx_ne(x, 0))]
        if self.ndim == 1:
            return (NArr((len(ps),), ps),)
        m = self.shape[1]
        return NArr((len(ps),), [i // m for i in ps]), NArr((len(ps),), [i % m for i in ps])

    def __sx_conc__(self, model):
        return core.conc(self.tolist(), model)

    def __sx_plain__(self, f):
        import numpy
        return numpy.asarray(f(self.tolist()))


def _np_div(x, y):
    z = sx_eq(y, 0)
    if z:
        raise Unsupported("division by zero in an array")
    return x / y


class _NumpyShim(ModuleShim):
    def __getattr__(self, name):
        import numpy as np
        v = getattr(np, name)
        if isinstance(v, np.ufunc) or (callable(v) and not isinstance(v, type)):
            def f(*a, **k):
                return v(*[conc_all(x) for x in a], **k)
            return f
        return v


def _np_zeros(shape, dtype=float, **k):
    if not isinstance(shape, tuple):
        shape = (shape,)
    shape = tuple(x.__index__() for x in shape)
    n = 1
    for x in shape:
        n *= x
    return NArr(shape, [0.0 if dtype in (float, sx_float) else 0] * n)


def _np_asarray(x, dtype=None, **k):
    if isinstance(x, NArr):
        return NArr(x.shape, x.data_) if x.matrix else x
    if isinstance(x, Csr):
        raise Unsupported("array of a sparse matrix")
    if isinstance(x, (list, tuple)):
        x = list(x)
        if x and isinstance(x[0], (list, tuple, NArr)):
            return NArr((len(x), len(x[0])), [v for r in x for v in r])
        return NArr((len(x),), x)
    return x


def _np_array(x, dtype=None, **k):
    r = _np_asarray(x)
    return r.copy() if isinstance(r, NArr) else r


def _np_power(a, b):
    if isinstance(a, NArr):
        return NArr(a.shape, [_np_power(x, b) for x in a.data_], a.matrix)
    if isinstance(a, (SymNum, SymBool)):
        if isinstance(b, SymNum):
            b = conc_all(b)
        if isinstance(b, int) or float(b) in (1.0, 2.0, 3.0):
            return a ** int(b)
        return a ** b
    if isinstance(b, (SymNum, SymBool)):
        return a ** b
    import numpy as np
    return float(np.power(float(a), float(b)))


def _np_sqrt(a):
    import numpy as np
    if isinstance(a, SymNum):
        return float(np.sqrt(float(conc_all(a))))
    return float(np.sqrt(a)) if isinstance(a, (int, float)) else np.sqrt(a)


def _np_elem(name):
    def f(x, *a, **k):
        import numpy as np
        if isinstance(x, NArr):
            return NArr(x.shape, [f(v) for v in x.data_], x.matrix)
        if isinstance(x, (list, tuple)):
            return f(_np_asarray(x))
        if isinstance(x, SymNum):
            if name == "log" and num_cmp(x, 0, "<="):
                raise Unsupported("logarithm of a number that is not positive")
            return uf(name, x)
        return float(getattr(np, name)(float(x)))
    return f


def _np_where(c, *ab):
    if not ab:
        return c.nonzero()
    a, b = ab
    if not isinstance(c, NArr):
        return num_ite(c, a, b)
    pick = lambda t, i: t.data_[i] if isinstance(t, NArr) else t
    return NArr(c.shape, [num_ite(x, pick(a, i), pick(b, i)) for i, x in enumerate(c.data_)])


def _np_ones(shape, dtype=float, **k):
    z = _np_zeros(shape, dtype)
    z.data_ = [x + 1 for x in z.data_]
    return z


def _np_minmax(f):
    def g(a, b):
        if isinstance(a, NArr):
            return a._bin(b, lambda x, y: f(x, y))
        if isinstance(b, NArr):
            return b._bin(a, lambda x, y: f(x, y))
        return f(a, b)
    return g


def _np_arange(*a):
    r = list(range(*[conc_all(x) for x in a]))
    return NArr((len(r),), r)


def _np_plain(name):
    def f(x, *a, **k):
        if isinstance(x, (NArr, Csr)):
            return getattr(x, name)(*a, **k)
        if isinstance(x, (list, tuple)):
            return getattr(_np_asarray(x), name)(*a, **k)
        import numpy as np
        return getattr(np, name)(conc_all(x), *a, **k)
    return f


numpy_shim = _NumpyShim("numpy", None, zeros=_np_zeros, ones=_np_ones, asarray=_np_asarray, array=_np_array, power=_np_power,
                        sqrt=_np_sqrt, ndarray=NArr, log=_np_elem("log"), exp=_np_elem("exp"), where=_np_where,
                        maximum=_np_minmax(sx_bmax), minimum=_np_minmax(sx_bmin), arange=_np_arange,
                        **{n: _np_plain(n) for n in ("sum", "nonzero", "any", "all", "mean", "ravel", "reshape")})


class Csr:
    """sparse matrix from coordinates (duplicates are summed)"""

    def __init__(self, arg, shape=None, dtype=None, **kw):
        self._view = None
        self.cells_ = SymDict()
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (rows, cols) = arg
            data, rows, cols = list(data), list(rows), list(cols)
            if not len(data) == len(rows) == len(cols):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is None:
                if not rows:
                    raise ValueError("cannot infer dimensions from zero sized index arrays")
                shape = (sx_bmax(rows) + 1, sx_bmax(cols) + 1)
            for i, j, v in zip(rows, cols, data):
                if not (0 <= i and i < shape[0]):
                    raise ValueError("row index exceeds matrix dimensions")
                if not (0 <= j and j < shape[1]):
                    raise ValueError("column index exceeds matrix dimensions")
                self.cells_[(i, j)] = self.cells_.get((i, j), 0) + v
        elif isinstance(arg, tuple):
            shape = arg
        elif isinstance(arg, Csr):
            self.cells_ = arg.cells.copy()
            shape = arg.shape
        elif isinstance(arg, NArr) and arg.ndim == 2 or isinstance(arg, list):
            a = _np_asarray(arg)
            shape = a.shape
            for i in range(shape[0]):
                for j in range(shape[1]):
                    v = a.data_[i * shape[1] + j]
                    if sx_ne(v, 0):
                        self.cells_[(i, j)] = v
        else:
            raise Unsupported("csr_matrix(%r)" % type(arg).__name__)
        self.shape = tuple(shape)

    # values changed through an array handed out by .data
    @property
    def cells(self):
        if self._view is not None:
            ks, arr = self._view
            for k, v in zip(ks, arr.data_):
                self.cells_[k] = v
        return self.cells_

    @property
    def data(self):
        if self._view is None or len(self._view[0]) != len(self.cells_):
            ks = [k for k, v in sx_sorted(list(self.cells.items()), key=lambda kv: kv[0])]
            self._view = (ks, NArr((len(ks),), [self.cells_[k] for k in ks]))
        return self._view[1]

    @data.setter
    def data(self, arr):
        ks = [k for k, v in sx_sorted(list(self.cells.items()), key=lambda kv: kv[0])]
        arr = _np_asarray(arr)
        if len(arr) != len(ks):
            raise Unsupported("data of another length")
        self._view = (ks, arr)

    @property
    def row(self):
        self.data
        return NArr((len(self._view[0]),), [k[0] for k in self._view[0]])

    @property
    def col(self):
        self.data
        return NArr((len(self._view[0]),), [k[1] for k in self._view[0]])
    indices = col

    @property
    def indptr(self):
        rows = self.row.data_
        return NArr((self.shape[0] + 1,), [len([r for r in rows if r < i]) for i in range(self.shape[0] + 1)])

    @property
    def nnz(self):
        return len(self.cells)

    @property
    def T(self):
        return self.transpose()

    def transpose(self):
        r = Csr((self.shape[1], self.shape[0]))
        for (i, j), v in self.cells.items():
            r.cells_[(j, i)] = v
        return r

    def get(self, i, j):
        return self.cells.get((i, j), 0)

    def getrow(self, i):
        return self[i]

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        n, m = self.shape
        if len(shape) != 2 or shape[0] not in (n, -1) or shape[1] not in (m, -1) or tuple(shape) == (-1, -1):
            raise Unsupported("reshape of a sparse matrix")
        return self.copy()

    def __getitem__(self, ij):
        if isinstance(ij, tuple) and not any(isinstance(x, slice) for x in ij):
            return self.get(*ij)
        if isinstance(ij, int):
            return Csr(([self.cells[k] for k in self.cells if k[0] == ij], ([0 for k in self.cells if k[0] == ij], [k[1] for k in self.cells if k[0] == ij])), shape=(1, self.shape[1]))
        raise Unsupported("csr slice")

    def __setitem__(self, ij, v):
        if not isinstance(ij, tuple) or any(isinstance(x, slice) for x in ij):
            raise Unsupported("csr slice")
        i, j = ij
        if not (0 <= i and i < self.shape[0] and 0 <= j and j < self.shape[1]):
            raise IndexError("index out of bounds")
        self.cells[(i, j)] = v
        self._view = None

    def toarray(self):
        n, m = self.shape
        return NArr((n, m), [self.get(i, j) for i in range(n) for j in range(m)])

    def todense(self):
        a = self.toarray()
        a.matrix = True
        return a

    def tocsr(self, **k):
        return self
    tocoo = tocsc = todok = tolil = tocsr

    def copy(self):
        return Csr(self)

    def astype(self, t):
        return Csr(self)

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        cells = SymDict()
        for k, v in self.cells.items():
            if sx_ne(v, 0):
                cells[k] = v
        self.cells_, self._view = cells, None

    def sum(self, axis=None):
        a = self.toarray()
        if axis is None:
            return sx_sum(list(self.cells.values()))
        a.matrix = True
        return a.sum(axis)

    def diagonal(self):
        return NArr((min(self.shape),), [self.get(i, i) for i in range(min(self.shape))])

    def _map(self, f):
        r = Csr(self.shape)
        for k, v in self.cells.items():
            r.cells_[k] = f(v)
        return r

    def __truediv__(self, o):
        if isinstance(o, (NArr, Csr)):
            raise Unsupported("division of a sparse matrix")
        if sx_eq(o, 0):
            raise Unsupported("division by zero in a matrix")
        return self._map(lambda v: v / o)

    def __neg__(self):
        return self._map(lambda v: -v)

    def __mul__(self, o):
        if isinstance(o, (Csr, NArr)):
            return self.dot(o)
        return self._map(lambda v: v * o)

    def __rmul__(self, o):
        return self._map(lambda v: o * v)

    def power(self, p):
        return self._map(lambda v: _np_power(v, p))

    def multiply(self, o):
        if not isinstance(o, (Csr, NArr)):
            return self._map(lambda v: v * o)
        if isinstance(o, Csr):
            o = o.toarray()
        shape = (1,) * (2 - o.ndim) + o.shape
        r = Csr(self.shape)
        for (i, j), v in self.cells.items():
            r.cells_[(i, j)] = v * o.data_[(i if shape[0] > 1 else 0) * shape[1] + (j if shape[1] > 1 else 0)]
        return r

    def __add__(self, o):
        if not isinstance(o, Csr):
            raise Unsupported("sum of a sparse matrix")
        r = Csr(self)
        for k, v in o.cells.items():
            r.cells_[k] = r.cells_.get(k, 0) + v
        return r

    def dot(self, o):
        if not isinstance(o, Csr):
            raise Unsupported("product of a sparse matrix")
        if self.shape[1] != o.shape[0]:
            raise ValueError("dimension mismatch")
        cells = {}
        for (i, k), v in self.cells.items():
            for (k2, j), w in o.cells.items():
                if k == k2:
                    cells.setdefault((i, j), []).append(v * w)
        r = Csr((self.shape[0], o.shape[1]))
        for k in sorted(cells):
            s = sx_sum(cells[k])
            # scipy keeps no zeros in a product
            if sx_ne(s, 0):
                r.cells_[k] = s
        return r
    __matmul__ = dot

    def nonzero(self):
        ks = [k for k, v in sx_sorted(list(self.cells.items()), key=lambda kv: kv[0]) if sx_ne(v, 0)]
        return NArr((len(ks),), [k[0] for k in ks]), NArr((len(ks),), [k[1] for k in ks])

    def __sx_conc__(self, model):
        return self.toarray().__sx_conc__(model)

    def __sx_plain__(self, f):
        import scipy.sparse
        return scipy.sparse.csr_matrix(self.toarray().__sx_plain__(f))


class Diag(Csr):
    """diagonal matrix; .data is one row with the diagonal"""

    def __init__(self, values):
        self.diag = NArr((1, len(values)), list(values))
        self.shape = (len(values), len(values))
        self._view = None

    @property
    def cells(self):
        r = SymDict()
        for i, v in enumerate(self.diag.data_):
            r[(i, i)] = v
        return r

    @property
    def data(self):
        return self.diag

    @data.setter
    def data(self, v):
        self.diag = v


def _sp_diags(values, offsets=0, shape=None, **k):
    xs = list(values)
    if len(xs) == 1 and isinstance(xs[0], (list, tuple, NArr)):
        xs = list(xs[0])
    if offsets not in (0, [0]) or shape is not None and tuple(shape) != (len(xs), len(xs)):
        raise Unsupported("diags")
    if any(isinstance(x, (list, tuple, NArr)) for x in xs):
        raise Unsupported("diags")
    return Diag(xs)


class _NoCode:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise Unsupported("library call " + self.name)


class _LibShim(ModuleShim):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _NoCode(self.__name__ + "." + name)


scipy_sparse = _LibShim("scipy.sparse", None, csr_matrix=Csr, coo_matrix=Csr, csc_matrix=Csr, dok_matrix=Csr, lil_matrix=Csr,
                        diags=_sp_diags, issparse=lambda x: isinstance(x, Csr))
scipy_shim = _LibShim("scipy", None, sparse=scipy_sparse)
sk_utils_ext = _LibShim("sklearn.utils.extmath", None)
sk_utils = _LibShim("sklearn.utils", None, extmath=sk_utils_ext)


def _rows(x):
    a = _np_asarray(x.toarray() if isinstance(x, Csr) else x)
    n = a.shape[1]
    return [a.data_[i * n:(i + 1) * n] for i in range(a.shape[0])]


def _pairwise_distances(X, Y=None, metric="euclidean", **kw):
    if metric != "cosine" or kw:
        raise Unsupported("pairwise distances: " + str(metric))
    xs = _rows(X)
    ys = xs if Y is None else _rows(Y)

    def unit(row):
        q = 0
        for v in row:
            q = q + v * v
        n = _np_sqrt(q)
        return [v / n if n else 0.0 for v in row]

    us, vs = [unit(r) for r in xs], [unit(r) for r in ys]
    out = []
    for i, u in enumerate(us):
        for j, v in enumerate(vs):
            if Y is None and i == j:
                out.append(0.0)
                continue
            d = 1
            for a, b in zip(u, v):
                d = d - a * b
            out.append(sx_bmin(sx_bmax(d, 0.0), 2.0))
    return NArr((len(us), len(vs)), out)


sk_metrics = _LibShim("sklearn.metrics", None, pairwise_distances=_pairwise_distances)
sklearn_shim = _LibShim("sklearn", None, utils=sk_utils, metrics=sk_metrics)


class _Proc:
    def __init__(self, *a):
        pass

    def memory_info(self):
        return _types.SimpleNamespace(rss=1024 ** 3)


psutil_shim = ModuleShim("psutil", None, Process=_Proc,
                         virtual_memory=lambda: _types.SimpleNamespace(available=1.0, total=2.0, percent=50.0, used=1.0))
warnings_shim = ModuleShim("warnings", None, warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None,
                           simplefilter=lambda *a, **k: None)
pprint_shim = ModuleShim("pprint", None, pprint=sx_print)

SHIMS = {"re": ReModule, "os": os_shim, "os.path": path_shim, "sys": sys_shim, "pickle": pickle_shim, "json": json_shim,
         "functools": functools_shim, "collections": collections_shim, "math": math_shim, "numpy": numpy_shim,
         "scipy": scipy_shim, "scipy.sparse": scipy_sparse, "sklearn": sklearn_shim, "sklearn.utils": sk_utils,
         "sklearn.utils.extmath": sk_utils_ext, "sklearn.metrics": sk_metrics, "psutil": psutil_shim,
         "warnings": warnings_shim, "pprint": pprint_shim}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if root in SHIMS:
            if name not in SHIMS:
                return _b.__import__(name, globals, locals, fromlist, level)
            if fromlist:
                return SHIMS[name]
            return SHIMS[root]
    return _b.__import__(name, globals, locals, fromlist, level)


class _RangeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, range)


def make_builtins():
    d = dict(vars(_b))
    d.update({
        "str": sx_str, "int": sx_int, "float": sx_float, "bool": sx_bool, "dict": sx_dict, "set": sx_set,
        "frozenset": sx_frozenset, "type": sx_type, "ord": sx_ord, "chr": sx_chr, "sorted": sx_sorted,
        "min": sx_bmin, "max": sx_bmax, "sum": sx_sum, "repr": sx_repr, "print": sx_print, "open": sx_open,
        "hash": sx_hash, "format": sx_format, "pow": sx_pow, "divmod": sx_divmod, "__import__": sx_import,
        "_sx_eq": sx_eq, "_sx_ne": sx_ne, "_sx_in": sx_in, "_sx_notin": sx_notin, "_sx_not": sx_not,
        "_sx_and": sx_and, "_sx_or": sx_or, "_sx_ifexp": sx_ifexp, "_sx_merge": sx_merge, "_sx_no": NO, "_sx_m": sx_m, "_sx_get": sx_get,
        "_sx_mod": sx_mod, "_sx_fstr": sx_fstr, "_sx_dict": SymDict, "_sx_mkdict": sx_mkdict, "_sx_set": SymSet,
        "_sx_unpack": _UNPACK, "_sx_fn": sx_fn,
    })
    return d
