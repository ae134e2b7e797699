"""Symbolic strings: concrete length, each character a concrete or symbolic code point."""
from . import core
from .core import SymBool, SymNum, b_and, b_or, b_not, num_cmp, num_in, atom_in, rnorm, riter, rin, Unsupported
import re._parser as _rp
import sys
import unicodedata


def _mkranges(pred):
    out = []
    start = None
    for c in range(0x110000):
        p = pred(c)
        if p and start is None:
            start = c
        elif not p and start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return tuple(out)


_CLS = {}


def char_class(name):
    """range set of a str predicate over all of Unicode"""
    r = _CLS.get(name)
    if r is None:
        if name == "word":
            r = _mkranges(lambda c: chr(c).isalnum() or c == 95)
        else:
            r = _mkranges(lambda c: getattr(chr(c), name)())
        _CLS[name] = r
    return r


SPACE = _mkranges(lambda c: c < 0x3001 and chr(c).isspace())


class SymStr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __len__(self):
        return len(self.cs)

    def __repr__(self):
        return "<SymStr %r>" % conc_str(self)

    def __sx_conc__(self, model):
        return "".join(chr(c if isinstance(c, int) else int(core.num_model(c, model))) for c in self.cs)

    def __str__(self):
        return concretize_str(self)

    def __hash__(self):
        return hash(concretize_str(self))

    def __bool__(self):
        return len(self.cs) > 0

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        return b_not(str_eq(self, o))

    def __lt__(self, o):
        return str_lt(self, o)

    def __gt__(self, o):
        return str_lt(o, self)

    def __le__(self, o):
        return b_not(str_lt(o, self))

    def __ge__(self, o):
        return b_not(str_lt(self, o))

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError("can only concatenate str (not %r) to str" % type(o).__name__)
        return SymStr(self.cs + codes(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError("can only concatenate str (not %r) to str" % type(o).__name__)
        return SymStr(codes(o) + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        return sx_percent(self, args)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr((self.cs[i],))

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __contains__(self, s):
        return bool(str_contains(self, s))

    def __format__(self, spec):
        return format(concretize_str(self), spec)

    def __getattr__(self, name):
        f = METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if hasattr(str, name) and not name.startswith("__"):
            core.ENG.notes["str." + name] = core.ENG.notes.get("str." + name, 0) + 1
            return lambda *a, **k: getattr(concretize_str(self), name)(*a, **k)
        raise AttributeError("'str' object has no attribute %r" % name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def codes(s):
    if isinstance(s, SymStr):
        return s.cs
    return tuple(map(ord, s))


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if not isinstance(c, int):
            return SymStr(cs)
    return "".join(map(chr, cs))


def conc_str(s):
    return s if isinstance(s, str) else s.__sx_conc__(None)


def concretize_str(s):
    if isinstance(s, str):
        return s
    return "".join(chr(c if isinstance(c, int) else core.ENG.concretize(c)) for c in s.cs)


def is_str(x):
    return isinstance(x, (str, SymStr))


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return num_cmp(a, b, "==")


def codes_eq(x, y):
    if len(x) != len(y):
        return False
    parts = []
    for a, b in zip(x, y):
        if a is b:
            continue
        r = ceq(a, b)
        if r is False:
            return False
        if r is True:
            continue
        parts.append(r)
    return b_and(parts)


def str_eq(a, b):
    if not is_str(b) or not is_str(a):
        return False
    return codes_eq(codes(a), codes(b))


def str_lt(a, b):
    if not is_str(b) or not is_str(a):
        raise TypeError("'<' not supported between instances of %r and %r" % (type(a).__name__, type(b).__name__))
    x, y = codes(a), codes(b)
    res = len(x) < len(y)
    for p, q in reversed(list(zip(x, y))):
        if isinstance(p, int) and isinstance(q, int):
            if p < q:
                res = True
            elif p > q:
                res = False
            continue
        if p is q:
            continue
        lt = num_cmp(p, q, "<")
        eq = num_cmp(p, q, "==")
        res = b_or([lt, b_and([eq, res])])
    return res


def str_contains(s, sub):
    if not is_str(sub):
        raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    x, y = codes(s), codes(sub)
    n, m = len(x), len(y)
    if m == 1 and all(isinstance(c, int) for c in x) and not isinstance(y[0], int):
        return num_in(y[0], rnorm([(c, c) for c in x]))
    out = []
    for i in range(n - m + 1):
        r = codes_eq(x[i:i + m], y)
        if r is True:
            return True
        out.append(r)
    return b_or(out)


# ------------------------------------------------------------ methods
def c_in(c, ranges):
    return rin(c, ranges) if isinstance(c, int) else num_in(c, ranges)


def all_class(s, name):
    if not len(s):
        return False
    return b_and([c_in(c, char_class(name)) for c in s.cs])


def m_split(s, sep=None, maxsplit=-1):
    cs = codes(s)
    maxsplit = maxsplit.__index__()
    if sep is None:
        out, cur, i, n = [], [], 0, len(cs)
        while i < n:
            while i < n and c_in(cs[i], SPACE):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                j = n
                while j > i and c_in(cs[j - 1], SPACE):
                    j -= 1
                out.append(mkstr(cs[i:j]))
                return out
            j = i
            while j < n and not c_in(cs[j], SPACE):
                j += 1
            out.append(mkstr(cs[i:j]))
            i = j
        return out
    y = codes(sep)
    if not y:
        raise ValueError("empty separator")
    out, start, i = [], 0, 0
    while i + len(y) <= len(cs):
        if (maxsplit < 0 or len(out) < maxsplit) and codes_eq(cs[i:i + len(y)], y):
            out.append(mkstr(cs[start:i]))
            i += len(y)
            start = i
        else:
            i += 1
    out.append(mkstr(cs[start:]))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit == -1:
        return m_split(s, sep)
    r = mkstr(tuple(reversed(codes(s))))
    parts = m_split(r, None if sep is None else mkstr(tuple(reversed(codes(sep)))), maxsplit)
    return [mkstr(tuple(reversed(codes(p)))) for p in reversed(parts)]


def _stripset(chars):
    if chars is None:
        return lambda c: c_in(c, SPACE)
    ch = codes(chars)
    return lambda c: b_or([ceq(c, d) for d in ch])


def m_lstrip(s, chars=None):
    p = _stripset(chars)
    cs = codes(s)
    i = 0
    while i < len(cs) and p(cs[i]):
        i += 1
    return mkstr(cs[i:])


def m_rstrip(s, chars=None):
    p = _stripset(chars)
    cs = codes(s)
    j = len(cs)
    while j > 0 and p(cs[j - 1]):
        j -= 1
    return mkstr(cs[:j])


def m_strip(s, chars=None):
    return m_rstrip(m_lstrip(s, chars), chars)


def m_join(s, items):
    sep = codes(s)
    out = []
    for i, x in enumerate(items):
        if not is_str(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.extend(sep)
        out.extend(codes(x))
    return mkstr(out)


def _slice(s, start, end):
    n = len(s)
    a, b, _ = slice(start, end).indices(n)
    return a, b


def m_startswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        return b_or([m_startswith(s, q, start, end) for q in p])
    a, b = _slice(s, start, end)
    x, y = codes(s)[a:b], codes(p)
    return codes_eq(x[:len(y)], y) if len(x) >= len(y) else False


def m_endswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        return b_or([m_endswith(s, q, start, end) for q in p])
    a, b = _slice(s, start, end)
    x, y = codes(s)[a:b], codes(p)
    return codes_eq(x[len(x) - len(y):], y) if len(x) >= len(y) else False


def m_find(s, sub, start=None, end=None):
    a, b = _slice(s, start, end)
    x, y = codes(s), codes(sub)
    for i in range(a, b - len(y) + 1):
        if codes_eq(x[i:i + len(y)], y):
            return i
    return -1


def m_rfind(s, sub, start=None, end=None):
    a, b = _slice(s, start, end)
    x, y = codes(s), codes(sub)
    for i in range(b - len(y), a - 1, -1):
        if codes_eq(x[i:i + len(y)], y):
            return i
    return -1


def m_index(s, sub, start=None, end=None):
    if isinstance(s, str) and start is None and end is None and isinstance(sub, SymStr) and len(sub) == 1:
        return seq_index(list(s), sub, ValueError("substring not found"))
    r = m_find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def m_rindex(s, sub, start=None, end=None):
    r = m_rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def m_count(s, sub, start=None, end=None):
    a, b = _slice(s, start, end)
    x, y = codes(s), codes(sub)
    if not y:
        return b - a + 1
    n, i = 0, a
    while i + len(y) <= b:
        if codes_eq(x[i:i + len(y)], y):
            n += 1
            i += len(y)
        else:
            i += 1
    return n


def m_replace(s, old, new, count=-1):
    cs, o, w = codes(s), codes(old), codes(new)
    if not o:
        raise Unsupported("replace of empty string")
    out, i, n = [], 0, 0
    while i < len(cs):
        if (count < 0 or n < count) and i + len(o) <= len(cs) and codes_eq(cs[i:i + len(o)], o):
            out.extend(w)
            i += len(o)
            n += 1
        else:
            out.append(cs[i])
            i += 1
    return mkstr(out)


def m_partition(s, sep):
    i = m_find(s, sep)
    if i < 0:
        return (s, "", "")
    return (mkstr(codes(s)[:i]), sep, mkstr(codes(s)[i + len(sep):]))


def m_rpartition(s, sep):
    i = m_rfind(s, sep)
    if i < 0:
        return ("", "", s)
    return (mkstr(codes(s)[:i]), sep, mkstr(codes(s)[i + len(sep):]))


def m_splitlines(s, keepends=False):
    parts = split_lines(codes(s), True)
    if keepends:
        return [mkstr(p) for p in parts]
    return [m_rstrip_nl(mkstr(p)) for p in parts]


def m_rstrip_nl(p):
    cs = codes(p)
    if cs and ceq(cs[-1], 10):
        cs = cs[:-1]
    return mkstr(cs)


def split_lines(cs, keep):
    """lines of a text stream (only '\\n' ends a line; '\\r' is outside the modelled files)"""
    out, cur = [], []
    for c in cs:
        cur.append(c)
        if ceq(c, 10):
            out.append(tuple(cur))
            cur = []
    if cur:
        out.append(tuple(cur))
    return out


def _case(method):
    def f(s):
        out = []
        for c in codes(s):
            if isinstance(c, int):
                out.extend(map(ord, getattr(chr(c), method)()))
                continue
            out.append(map_char(c, method))
        return mkstr(out)
    return f


_CASEMAP = {}


def map_char(c, method):
    """code point after a one-to-one case mapping (by forking on the offset class)"""
    tbl = _CASEMAP.get(method)
    if tbl is None:
        tbl = {}
        for x in range(0x110000):
            if 0xD800 <= x <= 0xDFFF:
                continue
            y = getattr(chr(x), method)()
            if len(y) != 1:
                tbl.setdefault(None, []).append((x, x))
            elif ord(y) != x:
                tbl.setdefault(ord(y) - x, []).append((x, x))
        tbl = {k: rnorm(v) for k, v in tbl.items()}
        _CASEMAP[method] = tbl
    for off, rs in tbl.items():
        if c_in(c, rs):
            if off is None:
                raise Unsupported("case mapping that changes the length")
            return c + off
    return c


def m_format(s, *args, **kw):
    import string
    out = []
    auto = 0
    if isinstance(s, SymStr):
        s = concretize_str(s)
    for lit, field, spec, convr in string.Formatter().parse(s):
        out.extend(map(ord, lit))
        if field is None:
            continue
        if spec and "{" in spec:
            raise Unsupported("nested format spec")
        name = field
        rest = ""
        for k, ch in enumerate(field):
            if ch in ".[":
                name, rest = field[:k], field[k:]
                break
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kw[name]
        if rest:
            v, _ = string.Formatter().get_field("0" + rest, (v,), {})
        out.extend(codes(fmt_value(v, convr, spec)))
    return mkstr(out)


def fmt_value(v, convr=None, spec=""):
    if convr == "r":
        v = repr(conc_all(v))
    elif convr == "s":
        v = to_str(v)
    if isinstance(v, SymStr):
        if spec in ("", "s", None):
            return v
        return format(concretize_str(v), spec)
    if isinstance(v, SymNum) and spec in ("", "d", None) and convr != "r":
        w = num_text(v)
        if w is not None:
            return w
    if isinstance(v, (SymNum, SymBool)):
        v = conc_all(v)
    if isinstance(v, (tuple, list)) or (not isinstance(v, (str, int, float)) and hasattr(v, "__sx_conc__")):
        v = conc_all(v)
    return format(v, spec or "")


def conc_all(v):
    """concretise a structure for code that needs plain values (explores the alternatives)"""
    if isinstance(v, SymNum):
        x = core.ENG.concretize(v)
        return float(x) if v.isreal else x
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymStr):
        return concretize_str(v)
    if type(v) is tuple:
        return tuple(conc_all(x) for x in v)
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[conc_all(x) for x in v])
    if isinstance(v, list):
        return [conc_all(x) for x in v]
    f = getattr(v, "__sx_plain__", None)
    if f is not None:
        return f(conc_all)
    return v


def num_text(x):
    """decimal digits of a whole number of many possible values (the number of digits is decided);
    None where fixing the value is as good"""
    if x.isreal or not x.lin:
        return None
    lo, hi = x.bounds()
    if lo is None or hi is None or lo < 0 or hi - lo < 12 or hi >= 10 ** 9:
        return None
    k = 1
    while 10 ** k <= hi and not num_cmp_bool(x, 10 ** k):
        k += 1
    cs = tuple((x // 10 ** i) % 10 + 48 if i < k - 1 else x // 10 ** i + 48 for i in range(k - 1, -1, -1))
    core.ENG.digits[tuple(c.key() if isinstance(c, SymNum) else c for c in cs)] = x
    return mkstr(cs)


def num_cmp_bool(x, k):
    c = num_cmp(x, k, "<")
    return c if isinstance(c, bool) else bool(c)


def text_num(s):
    """the number a text written by num_text holds, if it is one"""
    return core.ENG.digits.get(tuple(c.key() if isinstance(c, SymNum) else c for c in m_strip(s).cs)) if isinstance(m_strip(s), SymStr) else None


def to_str(v):
    if is_str(v):
        return v
    if isinstance(v, SymNum):
        w = num_text(v)
        if w is not None:
            return w
    if isinstance(v, (SymNum, SymBool, list, tuple)) or hasattr(v, "__sx_plain__"):
        return str(conc_all(v))
    return str(v)


def sx_percent(s, args):
    if isinstance(s, SymStr):
        s = concretize_str(s)
    import re
    if not isinstance(args, tuple):
        if hasattr(args, "__sx_plain__") and hasattr(args, "keys"):
            return s % conc_all(args)
        args = (args,)
    out, k, pos = [], 0, 0
    for m in re.finditer(r"%(?:%|([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([sdrifgex]))", s):
        out.extend(map(ord, s[pos:m.start()]))
        pos = m.end()
        if m.group(0) == "%%":
            out.append(37)
            continue
        v = args[k]
        k += 1
        if m.group(4) in "sdi" and isinstance(v, SymNum) and not m.group(1) and not m.group(2) and not m.group(3):
            w = num_text(v)
            out.extend(w.cs if isinstance(w, SymStr) else map(ord, w if w is not None else m.group(0) % (conc_all(v),)))
        elif m.group(4) == "s" and isinstance(v, SymStr) and not m.group(1) and not m.group(2) and not m.group(3):
            out.extend(v.cs)
        else:
            out.extend(map(ord, m.group(0) % (conc_all(v),)))
    out.extend(map(ord, s[pos:]))
    if k != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def m_zfill(s, n):
    return mkstr([48] * max(0, n - len(s)) + list(codes(s)))


def m_ljust(s, n, c=" "):
    return mkstr(list(codes(s)) + list(codes(c)) * max(0, n - len(s)))


def m_rjust(s, n, c=" "):
    return mkstr(list(codes(c)) * max(0, n - len(s)) + list(codes(s)))


class SymBytes:
    def __init__(self, s, enc):
        self.s, self.enc = s, enc

    def decode(self, enc="utf-8", errors="strict"):
        return self.s


def m_encode(s, enc="utf-8", errors="strict"):
    return SymBytes(s, enc)


def m_translate(s, table):
    out = []
    for ch in (s if isinstance(s, SymStr) else s):
        c = codes(ch)[0]
        r = table.get(c, c) if hasattr(table, "get") else table[c]
        if r is None:
            continue
        out.extend(codes(r) if is_str(r) else (r,))
    return mkstr(out)


METHODS = {
    "split": m_split, "rsplit": m_rsplit, "strip": m_strip, "lstrip": m_lstrip, "rstrip": m_rstrip,
    "join": m_join, "startswith": m_startswith, "endswith": m_endswith, "find": m_find, "rfind": m_rfind,
    "index": m_index, "rindex": m_rindex, "count": m_count, "replace": m_replace, "partition": m_partition,
    "rpartition": m_rpartition, "splitlines": m_splitlines, "lower": _case("lower"), "upper": _case("upper"),
    "casefold": _case("casefold"), "format": m_format, "zfill": m_zfill, "ljust": m_ljust, "rjust": m_rjust,
    "encode": m_encode, "translate": m_translate,
    "isspace": lambda s: all_class(s, "isspace"), "isdigit": lambda s: all_class(s, "isdigit"),
    "isalpha": lambda s: all_class(s, "isalpha"), "isalnum": lambda s: all_class(s, "isalnum"),
    "isdecimal": lambda s: all_class(s, "isdecimal"), "isnumeric": lambda s: all_class(s, "isnumeric"),
    "removeprefix": lambda s, p: mkstr(codes(s)[len(p):]) if m_startswith(s, p) else s,
    "removesuffix": lambda s, p: mkstr(codes(s)[:len(s) - len(p)]) if len(p) and m_endswith(s, p) else s,
}


# ------------------------------------------------------------ tables
def elem_codes(items):
    """code points if every item is a concrete one-character string"""
    out = []
    for x in items:
        if not isinstance(x, str) or len(x) != 1:
            return None
        out.append(ord(x))
    return out


def seq_get(seq, idx):
    """seq[idx] with a symbolic index"""
    n = len(seq)
    lo, hi = idx.bounds()
    inr = b_and([num_cmp(idx, -n, ">="), num_cmp(idx, n, "<")])
    if not inr:
        raise IndexError("list index out of range" if isinstance(seq, list) else "index out of range")
    if not isinstance(seq, str) and (lo is None or lo < 0):
        if num_cmp(idx, 0, "<"):
            idx = idx + n
    elif lo is None or lo < 0:
        if num_cmp(idx, 0, "<"):
            idx = idx + n
    if not isinstance(idx, SymNum):
        return seq[idx]
    r = idx.root()
    if r is not None:
        vs = idx.vec(r)
        items = [seq[v] if 0 <= v < n else None for v in vs]
        ok = [x for v, x in zip(vs, items) if 0 <= v < n]
        fill = ok[0]
        items = [x if 0 <= v < n else fill for v, x in zip(vs, items)]
        cs = elem_codes(items)
        if cs is not None:
            c = core.from_vec(r, cs)
            return mkstr((c,))
        if all(isinstance(x, int) and not isinstance(x, bool) for x in items):
            return core.from_vec(r, items)
        if all(isinstance(x, tuple) and len(x) == len(items[0]) for x in items):
            return tuple(seq_get([x[k] for x in seq], idx) if all(isinstance(x, tuple) and len(x) == len(items[0]) for x in seq)
                         else seq_get2(items, r, k) for k in range(len(items[0])))
        if all(x is items[0] for x in items):
            return items[0]
    # a table over a computed index
    lo, hi = idx.path_bounds()
    if lo is not None and 0 <= lo and hi < n and hi - lo <= 128:
        items = [seq[v] for v in range(lo, hi + 1)]
        cs = elem_codes(items)
        if cs is None and all(isinstance(x, int) and not isinstance(x, bool) for x in items):
            return ite_table(idx, lo, items)
        if cs is not None:
            return mkstr((ite_table(idx, lo, cs),))
        good = [isinstance(x, str) and len(x) == 1 for x in items]
        if any(good) and not all(good) and good.count(False) < 10:
            if num_in(idx, rnorm([(lo + k, lo + k) for k, g in enumerate(good) if g])):
                fill = items[good.index(True)]
                return mkstr((ite_table(idx, lo, [ord(x if g else fill) for x, g in zip(items, good)]),))
    return seq[core.ENG.concretize(idx)]


def ite_table(idx, lo, vals):
    import z3
    if all(v == vals[0] for v in vals):
        return vals[0]
    if len(vals) > 1 and all(v == vals[0] + (vals[1] - vals[0]) * k for k, v in enumerate(vals)):
        return (idx - lo) * (vals[1] - vals[0]) + vals[0]
    groups = []
    for k, v in enumerate(vals):
        if groups and groups[-1][1] == v:
            groups[-1][0] = lo + k
        else:
            groups.append([lo + k, v])
    t = z3.IntVal(groups[-1][1])
    for d, v in reversed(groups[:-1]):
        t = z3.If(idx.term <= d, z3.IntVal(v), t)
    return core.mk_atom_num(t, vals[idx.sh - lo], rnorm([(v, v) for v in vals]))


def code_table(code, mapping, default):
    """number mapping[code], default elsewhere; None if too big"""
    r = code.root()
    if r is not None:
        return core.from_vec(r, [mapping.get(v, default) for v in code.vec(r)])
    lo, hi = code.path_bounds()
    if lo is None:
        return None
    segs = []       # [last code, kind, value]: constant ("c", v) or code+v ("l", v)
    pos = lo

    def add(end, kind, v):
        if segs and segs[-1][1:] == [kind, v]:
            segs[-1][0] = end
        elif segs and kind == "c" and len(segs[-1]) == 3 and segs[-1][1] == "l" and end == segs[-1][0] + 1 and end + segs[-1][2] == v:
            segs[-1][0] = end
        elif segs and kind == "c" and segs[-1][1] == "c" and single[0] and end == segs[-1][0] + 1 and v == segs[-1][2] + 1:
            segs[-1][:] = [end, "l", v - end]
        else:
            segs.append([end, kind, v])
            single[0] = True
            return
        single[0] = False
    single = [False]
    for k in sorted(k for k in mapping if lo <= k <= hi):
        if k > pos:
            add(k - 1, "c", default)
            single[0] = single[0] and k - 1 == pos
        add(k, "c", mapping[k])
        pos = k + 1
    if pos <= hi:
        add(hi, "c", default)
    if len(segs) > 200:
        return None
    import z3

    def val(s):
        return z3.IntVal(s[2]) if s[1] == "c" else code.term + s[2]
    t = val(segs[-1])
    for s in reversed(segs[:-1]):
        t = z3.If(code.term <= s[0], val(s), t)
    vs = list(mapping.values()) + [default]
    return core.mk_atom_num(t, mapping.get(code.sh, default), rnorm([(v, v) for v in vs]))


def seq_get2(items, r, k):
    col = [x[k] for x in items]
    cs = elem_codes(col)
    if cs is not None:
        return mkstr((core.from_vec(r, cs),))
    raise Unsupported("table of tuples")


def seq_index(seq, x, err):
    """seq.index(x) for concrete one-char items and a symbolic one-char x: a table"""
    cs = elem_codes(seq)
    if cs is None or not (isinstance(x, SymStr) and len(x) == 1):
        for i, y in enumerate(seq):
            if sx_eq_str_or(y, x):
                return i
        raise err
    first = {}
    for i, c in enumerate(cs):
        first.setdefault(c, i)
    code = x.cs[0]
    if not num_in(code, rnorm([(c, c) for c in first])):
        raise err
    r = code.root()
    if r is not None:
        vs = [first.get(v, 0) for v in code.vec(r)]
        miss = [v not in first for v in code.vec(r)]
        # outside positions cannot occur on this path; make them affine-friendly when possible
        if any(miss):
            good = [(d, v) for d, v, m in zip(riter(r.dom), vs, miss) if not m]
            if len(good) >= 2:
                (d0, v0), (d1, v1) = good[0], good[1]
                if (v1 - v0) % (d1 - d0) == 0:
                    st = (v1 - v0) // (d1 - d0)
                    if all(v == v0 + st * (d - d0) for d, v in good):
                        vs = [v0 + st * (d - d0) for d in riter(r.dom)]
        return core.from_vec(r, vs)
    # general code: contiguous table?
    ks = sorted(first)
    if ks == list(range(ks[0], ks[-1] + 1)) and all(first[k] == k - ks[0] + first[ks[0]] for k in ks):
        return code - ks[0] + first[ks[0]]
    import z3
    t = z3.IntVal(first[ks[-1]])
    for k in reversed(ks[:-1]):
        t = z3.If(code.term <= k, z3.IntVal(first[k]), t)
    return core.mk_atom_num(t, first.get(int(code.sh), 0), rnorm([(v, v) for v in first.values()]))


def sx_eq_str_or(a, b):
    from .ops import sx_eq
    return sx_eq(a, b)
