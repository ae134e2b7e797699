"""Specifications shared by several harnesses."""


def join(xs):
    out = ""
    for x in xs:
        out = out + x
    return out


def eojeols(s):
    """maximal stretches without white space"""
    out = []
    cur = ""
    for c in s:
        if c.isspace():
            if len(cur) > 0:
                out.append(cur)
            cur = ""
        else:
            cur = cur + c
    if len(cur) > 0:
        out.append(cur)
    return out


def runs(S, spec):
    """a string of runs: each one symbolic character of a domain, repeated one of the given numbers of times"""
    out = ""
    for i, (dom, counts) in enumerate(spec):
        out = out + S.char("run%d" % i, dom) * S.choose("times%d" % i, counts)
    return out


def shaped(S, parts, words, dom="letter"):
    """a sentence of words (by index), new text (by length, in a list) and blanks in a row"""
    out = ""
    for i, x in enumerate(parts):
        if x == " ":
            out = out + " "
        elif isinstance(x, list):
            out = out + S.text("u%d" % i, x[0], dom)
        else:
            out = out + words[x]
    return out


def shape_name(parts):
    return "".join(["_" if x == " " else "u%d" % x[0] if isinstance(x, list) else "w%d" % x for x in parts])


def lookup(S, d, w, default):
    """value of w among (key, value) pairs, default if absent"""
    r = default
    for k, v in d:
        if len(k) == len(w):
            r = S.ite(S.eq(k, w), v, r)
    return r


def member(S, d, w):
    return S.any_of([S.eq(k, w) for k, _ in d if len(k) == len(w)])


def dictionary(S, name, lens, dom="letter", lo=0, hi=1):
    """a dictionary of symbolic words of the given lengths with symbolic real scores"""
    entries = []
    for i, n in enumerate(lens):
        w = S.text("%s%d" % (name, i), n, dom)
        for k, _ in entries:
            if len(k) == n:
                S.assume(S.not_(S.eq(k, w)))
        entries.append((w, S.real("%s%d.score" % (name, i), lo, hi)))
    return entries


def maxscore(S, entries, default, maxlen, t):
    """tokens (word, begin, end, score, length) of one eojeol by the best-first rule"""
    n = len(t)
    spans = []
    if n > 2:
        for b in range(n - 1):
            for r in range(2, min(maxlen, n) + 1):
                if b + r <= n:
                    spans.append((lookup(S, entries, t[b:b + r], default), r, b))
    chosen = []
    while spans:
        best = spans[0]
        for x in spans[1:]:
            # higher score, then longer, then further left
            if x[0] > best[0] or (x[0] == best[0] and (x[1] > best[1] or (x[1] == best[1] and x[2] < best[2]))):
                best = x
        b, e = best[2], best[2] + best[1]
        chosen.append((b, e))
        spans = [x for x in spans if x[2] >= e or x[2] + x[1] <= b]
    chosen = sorted(chosen)
    cuts = []
    pos = 0
    for b, e in chosen:
        if pos < b:
            cuts.append((pos, b))
        cuts.append((b, e))
        pos = e
    if pos < n:
        cuts.append((pos, n))
    return [(t[b:e], b, e, lookup(S, entries, t[b:e], default), e - b) for b, e in cuts]


def splits(e, lmax, rmax):
    """splits of an eojeol with a left part of 1..lmax and a right part of at most rmax characters"""
    return [(e[:k], e[k:]) for k in range(1, min(len(e), lmax) + 1) if len(e) - k <= rmax]


def add_pair(spec, l, r, c):
    """spec: left part -> right part -> positive count"""
    rs = spec.setdefault(l, {})
    v = rs.get(r, 0) + c
    if v > 0:
        rs[r] = v
    else:
        if r in rs:
            rs.pop(r)
        if len(rs) == 0:
            spec.pop(l)


def spec_copy(spec):
    return {l: {r: c for r, c in rs.items()} for l, rs in spec.items()}


def graph_equals(S, g, spec, msg):
    """the graph answers queries in both directions as the specification says, and holds nothing else"""
    rl = {}
    for l, rs in spec.items():
        for r, c in rs.items():
            if len(r) > 0:
                rl.setdefault(r, {})[l] = c
    for side, want, get, raw in (("left", spec, g.get_r, getattr(g, "_lr", None)), ("right", rl, g.get_l, getattr(g, "_rl", None))):
        for k, others in want.items():
            got = get(k, -1)
            S.check(len(got) == len(others), msg + ": other parts of a %s part" % side)
            d = dict(got)
            for o, c in others.items():
                S.check(o in d, msg + ": a pair is missing (%s side)" % side)
                S.check(S.eq(d[o], c), msg + ": count of a pair (%s side)" % side)
        if raw is not None:
            S.check(len(raw) == len(want), msg + ": an entry too many or too few on the %s side" % side)
    whole = {}
    for l, rs in spec.items():
        for r, c in rs.items():
            whole[l + r] = 1
    S.check(len(g.to_EojeolCounter()) == len(whole), msg + ": eojeols of the graph")


def close(S, a, b, tol=1e-9):
    return S.close(a, b, tol)


def side_counts(sents, maxl, maxr):
    """number of multi-character eojeols that start with / properly end with a substring"""
    L, R = {}, {}
    for s in sents:
        for e in eojeols(s):
            n = len(e)
            if n >= 2:
                for k in range(1, min(n, maxl) + 1):
                    L[e[:k]] = L.get(e[:k], 0) + 1
                for k in range(1, min(n - 1, maxr) + 1):
                    R[e[n - k:]] = R.get(e[n - k:], 0) + 1
    return L, R


def neighbours(sents, maxl, maxr, minf):
    """(left neighbours, right neighbours, strings) recorded for every string: string -> {neighbour: count}"""
    L, R = {}, {}
    AL, AR = {}, {}
    for s in sents:
        es = eojeols(s)
        for e in es:
            n = len(e)
            if n >= 2:
                # one more character than the left limit, so that words of that length have right neighbours
                for k in range(1, min(n, maxl + 1) + 1):
                    L[e[:k]] = L.get(e[:k], 0) + 1
                for k in range(1, min(n - 1, maxr) + 1):
                    R[e[n - k:]] = R.get(e[n - k:], 0) + 1
        m = len(es)
        if m >= 2:
            for i in range(m):
                e, after, before = es[i], es[(i + 1) % m], es[(i + m - 1) % m]
                for k in [len(e)] + list(range(1, min(maxr, len(e) - 1) + 1)):
                    x = e[len(e) - k:]
                    a = AL.setdefault(x, {})
                    a[after[0]] = a.get(after[0], 0) + 1
                for k in [len(e)] + list(range(1, min(maxl, len(e) - 1) + 1)):
                    x = e[:k]
                    a = AR.setdefault(x, {})
                    a[before[-1]] = a.get(before[-1], 0) + 1
    left, right, words = {}, {}, {}
    for x, c in L.items():
        if c >= minf:
            words[x] = 1
            if len(x) > 1:
                right.setdefault(x[:-1], {})[x[-1]] = c
    for x, c in R.items():
        if c >= minf:
            words[x] = 1
            if len(x) > 1:
                left.setdefault(x[1:], {})[x[0]] = c
    for table, side in ((AL, right), (AR, left)):
        for x, cs in table.items():
            for y, c in cs.items():
                if c >= 2:
                    words[x] = 1
                    side.setdefault(x, {})[" " + y] = c
    for side in (left, right):
        for x, cs in side.items():
            words[x] = 1
    return left, right, words
