"""Regular expressions over symbolic strings: a backtracking matcher on the parsed pattern."""
import re as _re
import re._parser as _rp
import re._constants as _rc
from . import core
from .core import b_and, b_or, b_not, num_in, num_cmp, rnorm, rminus, runion, FULL_UNI, Unsupported
from .strs import SymStr, codes, mkstr, c_in, ceq, char_class, concretize_str, SPACE, _mkranges

_UNI = ((0, 0x10FFFF),)
_ASC = {"word": ((48, 57), (65, 90), (95, 95), (97, 122)), "digit": ((48, 57),), "space": ((9, 13), (32, 32))}


def _category(cat, ascii_):
    n = str(cat)
    neg = "NOT" in n
    if "DIGIT" in n:
        r = _ASC["digit"] if ascii_ else char_class("isdecimal")
    elif "SPACE" in n:
        r = _ASC["space"] if ascii_ else SPACE
    elif "WORD" in n:
        r = _ASC["word"] if ascii_ else char_class("word")
    else:
        raise Unsupported("regex category %s" % n)
    return rminus(_UNI, r) if neg else r


def _case_close(rs):
    out = list(rs)
    for a, b in rs:
        if b - a > 5000:
            continue
        for c in range(a, b + 1):
            for d in (chr(c).lower(), chr(c).upper()):
                if len(d) == 1:
                    out.append((ord(d), ord(d)))
    return rnorm(out)


class Prog:
    """compiled pattern"""

    def __init__(self, pattern, flags):
        self.tree = _rp.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.ascii = bool(self.flags & _re.ASCII)
        self.icase = bool(self.flags & _re.IGNORECASE)
        self.ngroups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.code = self._conv(self.tree)

    def _conv(self, sub):
        return [self._one(op, av) for op, av in sub]

    def _set(self, rs):
        rs = rnorm(rs)
        if self.icase:
            rs = _case_close(rs)
        return rs

    def _one(self, op, av):
        n = str(op)
        if n == "LITERAL":
            return ("set", self._set([(av, av)]))
        if n == "NOT_LITERAL":
            return ("set", rminus(_UNI, self._set([(av, av)])))
        if n == "ANY":
            return ("set", _UNI if self.flags & _re.DOTALL else rminus(_UNI, ((10, 10),)))
        if n == "IN":
            neg, rs = False, []
            for o, a in av:
                o = str(o)
                if o == "NEGATE":
                    neg = True
                elif o == "LITERAL":
                    rs.append((a, a))
                elif o == "RANGE":
                    rs.append(tuple(a))
                elif o == "CATEGORY":
                    rs.extend(_category(a, self.ascii))
                else:
                    raise Unsupported("regex set item %s" % o)
            rs = self._set(rs)
            return ("set", rminus(_UNI, rs) if neg else rs)
        if n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, p = av
            hi = None if hi == _rc.MAXREPEAT else int(hi)
            return ({"MAX_REPEAT": "max", "MIN_REPEAT": "min", "POSSESSIVE_REPEAT": "poss"}[n], int(lo), hi, self._conv(p))
        if n == "SUBPATTERN":
            g, add, dele, p = av
            if add or dele:
                raise Unsupported("inline flags")
            return ("group", g, self._conv(p))
        if n == "ATOMIC_GROUP":
            return ("atomic", self._conv(av))
        if n == "GROUPREF":
            return ("ref", av)
        if n == "BRANCH":
            return ("alt", [self._conv(p) for p in av[1]])
        if n == "AT":
            return ("at", str(av))
        if n in ("ASSERT", "ASSERT_NOT"):
            return ("look", n == "ASSERT", av[0], self._conv(av[1]))
        raise Unsupported("regex node %s" % n)

    # ---- matching: generator of (end, groups)
    def m(self, code, k, cs, i, g):
        n = len(code)
        while k < n and code[k][0] == "set":
            if i >= len(cs) or not c_in(cs[i], code[k][1]):
                return
            i += 1
            k += 1
        if k == n:
            yield i, g
            return
        node = code[k]
        t = node[0]
        if t == "max" or t == "min" or t == "poss":
            lo, hi, p = node[1], node[2], node[3]
            if len(p) == 1 and p[0][0] == "set":
                rs = p[0][1]
                lim = len(cs) - i if hi is None else min(hi, len(cs) - i)
                if lim < lo:
                    return
                if t == "min":
                    j = 0
                    while j < lo:
                        if not c_in(cs[i + j], rs):
                            return
                        j += 1
                    while True:
                        yield from self.m(code, k + 1, cs, i + j, g)
                        if j >= lim or not c_in(cs[i + j], rs):
                            return
                        j += 1
                j = 0
                while j < lim and c_in(cs[i + j], rs):
                    j += 1
                if t == "poss":
                    if j >= lo:
                        yield from self.m(code, k + 1, cs, i + j, g)
                    return
                while j >= lo:
                    yield from self.m(code, k + 1, cs, i + j, g)
                    j -= 1
                return
            if t == "poss":
                raise Unsupported("possessive group repeat")
            for j, g2 in self.rep(p, lo, hi, 0, cs, i, g, t == "max", -1):
                yield from self.m(code, k + 1, cs, j, g2)
            return
        if t == "group":
            for j, g2 in self.m(node[2], 0, cs, i, g):
                if node[1] is not None:
                    g2 = dict(g2)
                    g2[node[1]] = (i, j)
                    g2["last"] = node[1]
                yield from self.m(code, k + 1, cs, j, g2)
            return
        if t == "atomic":
            for j, g2 in self.m(node[1], 0, cs, i, g):
                yield from self.m(code, k + 1, cs, j, g2)
                return
            return
        if t == "ref":
            if node[1] not in g:
                return
            a, b = g[node[1]]
            L = b - a
            if i + L > len(cs):
                return
            for x in range(L):
                if not ceq(cs[a + x], cs[i + x]):
                    return
            yield from self.m(code, k + 1, cs, i + L, g)
            return
        if t == "alt":
            for alt in node[1]:
                for j, g2 in self.m(alt, 0, cs, i, g):
                    yield from self.m(code, k + 1, cs, j, g2)
            return
        if t == "at":
            if self.at(node[1], cs, i):
                yield from self.m(code, k + 1, cs, i, g)
            return
        if t == "look":
            pos, direction, p = node[1], node[2], node[3]
            found = None
            if direction > 0:
                for j, g2 in self.m(p, 0, cs, i, g):
                    found = g2
                    break
            else:
                for st in range(i, -1, -1):
                    for j, g2 in self.m(p, 0, cs, st, g):
                        if j == i:
                            found = g2
                            break
                    if found is not None:
                        break
            if (found is not None) == pos:
                yield from self.m(code, k + 1, cs, i, found if pos else g)
            return
        raise Unsupported("regex node %s" % t)

    def rep(self, p, lo, hi, cnt, cs, i, g, greedy, prev):
        if not greedy and cnt >= lo:
            yield i, g
        if (hi is None or cnt < hi) and not (cnt >= lo and i == prev):
            for j, g2 in self.m(p, 0, cs, i, g):
                yield from self.rep(p, lo, hi, cnt + 1, cs, j, g2, greedy, i)
        if greedy and cnt >= lo:
            yield i, g

    def at(self, what, cs, i):
        n = len(cs)
        if what == "AT_BEGINNING_STRING":
            return i == 0
        if what == "AT_BEGINNING":
            if i == 0:
                return True
            return bool(self.flags & _re.MULTILINE and ceq(cs[i - 1], 10))
        if what == "AT_END_STRING":
            return i == n
        if what == "AT_END":
            if i == n:
                return True
            if i == n - 1 and ceq(cs[i], 10):
                return True
            return bool(self.flags & _re.MULTILINE and ceq(cs[i], 10))
        if what in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            w = _ASC["word"] if self.ascii else char_class("word")
            a = i > 0 and bool(c_in(cs[i - 1], w))
            b = i < n and bool(c_in(cs[i], w))
            return (a != b) == (what == "AT_BOUNDARY")
        raise Unsupported("regex %s" % what)

    def first(self, cs, i, g, full=False):
        for j, g2 in self.m(self.code, 0, cs, i, g):
            if full and j != len(cs):
                continue
            return j, g2
        return None


class SMatch:
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups
        self.pos, self.endpos = 0, len(s)
        self.lastindex = groups.get("last")

    def _idx(self, k):
        if isinstance(k, str):
            return self.re.prog.groupindex[k]
        return k

    def span(self, k=0):
        k = self._idx(k)
        if k == 0:
            return (self._s, self._e)
        if k > self.re.prog.ngroups:
            raise IndexError("no such group")
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return mkstr(codes(self.string)[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.prog.ngroups + 1))

    def groupdict(self, default=None):
        from .ops import SymDict
        return SymDict((n, self._one(k, default)) for n, k in self.re.prog.groupindex.items())

    def expand(self, tmpl):
        return expand(self, tmpl)

    def __bool__(self):
        return True


def expand(m, tmpl):
    t = concretize_str(tmpl)
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        d = t[i + 1]
        if d == "g":
            j = t.index(">", i)
            name = t[i + 3:j]
            k = int(name) if name.isdigit() else m.re.prog.groupindex[name]
            out.extend(codes(m._one(k) or ""))
            i = j + 1
        elif d.isdigit() and d != "0":
            j = i + 2
            if j < len(t) and t[j].isdigit():
                j += 1
            out.extend(codes(m._one(int(t[i + 1:j])) or ""))
            i = j
        else:
            esc = {"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a", "b": "\b", "\\": "\\"}
            if d not in esc:
                raise Unsupported("template escape \\" + d)
            out.append(ord(esc[d]))
            i += 2
    return mkstr(out)


class SPattern:
    def __init__(self, pattern, flags=0):
        self.pattern = concretize_str(pattern)
        self.real = _re.compile(self.pattern, flags)
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Prog(self.pattern, self.flags & ~_re.UNICODE & ~_re.ASCII | (self.flags & _re.ASCII))
        return self._prog

    def _iter(self, s):
        """non-overlapping matches, with the semantics of re for empty matches"""
        cs = codes(s)
        i, last_end = 0, -1
        must_advance = False
        while i <= len(cs):
            r = None
            for j, g in self.prog.m(self.prog.code, 0, cs, i, {}):
                if j == i and must_advance:
                    continue
                r = (j, g)
                break
            if r is None:
                i += 1
                must_advance = False
                continue
            j, g = r
            yield SMatch(self, s, i, j, g)
            must_advance = j == i
            i = j

    def finditer(self, s, *a):
        if isinstance(s, str) and not a:
            return self.real.finditer(s)
        return self._iter(s)

    def findall(self, s, *a):
        if isinstance(s, str):
            return self.real.findall(s, *a)
        out = []
        for m in self._iter(s):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m._one(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def subn(self, repl, s, count=0):
        if isinstance(s, str) and (isinstance(repl, str)):
            return self.real.subn(repl, s, count)
        if isinstance(s, str) and callable(repl):
            s2 = SymStr(codes(s))
        else:
            s2 = s
        cs = codes(s)
        out, pos, n = [], 0, 0
        for m in self._iter(s2):
            if count and n >= count:
                break
            out.extend(cs[pos:m._s])
            out.extend(codes(repl(m) if callable(repl) else expand(m, repl) if isinstance(repl, str) else repl))
            pos = m._e
            n += 1
        out.extend(cs[pos:])
        return mkstr(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        cs = codes(s)
        out, pos, n = [], 0, 0
        for m in self._iter(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(cs[pos:m._s]))
            out.extend(m.groups())
            pos = m._e
            n += 1
        out.append(mkstr(cs[pos:]))
        return out

    def match(self, s, pos=0, endpos=None):
        if isinstance(s, str):
            return self.real.match(s, pos) if endpos is None else self.real.match(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        r = self.prog.first(codes(s), pos, {})
        return None if r is None else SMatch(self, s, pos, r[0], r[1])

    def fullmatch(self, s, pos=0):
        if isinstance(s, str):
            return self.real.fullmatch(s, pos)
        r = self.prog.first(codes(s), pos, {}, full=True)
        return None if r is None else SMatch(self, s, pos, r[0], r[1])

    def search(self, s, pos=0, endpos=None):
        if isinstance(s, str):
            return self.real.search(s, pos) if endpos is None else self.real.search(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        cs = codes(s)
        for i in range(pos, len(cs) + 1):
            r = self.prog.first(cs, i, {})
            if r is not None:
                return SMatch(self, s, i, r[0], r[1])
        return None

    def __repr__(self):
        return "SPattern(%r)" % self.pattern

    def __eq__(self, o):
        return isinstance(o, SPattern) and (o.pattern, o.flags) == (self.pattern, self.flags)

    def __hash__(self):
        return hash((self.pattern, self.flags))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SPattern):
        return pattern
    if isinstance(pattern, SymStr):
        pattern = concretize_str(pattern)
    k = (pattern, int(flags))
    p = _cache.get(k)
    if p is None:
        p = _cache[k] = SPattern(pattern, flags)
    return p


class ReModule:
    """stands in for module re"""
    Pattern = SPattern
    Match = SMatch
    error = _re.error
    compile = staticmethod(compile)
    for _n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "U", "UNICODE", "X", "VERBOSE", "A", "ASCII"):
        locals()[_n] = getattr(_re, _n)
    del _n

    @staticmethod
    def escape(s):
        return _re.escape(concretize_str(s))

    @staticmethod
    def sub(p, r, s, count=0, flags=0):
        return compile(p, flags).sub(r, s, count)

    @staticmethod
    def subn(p, r, s, count=0, flags=0):
        return compile(p, flags).subn(r, s, count)

    @staticmethod
    def findall(p, s, flags=0):
        return compile(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return compile(p, flags).finditer(s)

    @staticmethod
    def match(p, s, flags=0):
        return compile(p, flags).match(s)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return compile(p, flags).fullmatch(s)

    @staticmethod
    def search(p, s, flags=0):
        return compile(p, flags).search(s)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return compile(p, flags).split(s, maxsplit)

    @staticmethod
    def purge():
        pass
