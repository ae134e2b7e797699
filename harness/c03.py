"""C03: levenshtein."""
from soynlp.hangle import levenshtein


def dist(S, s1, s2, sub):
    """cheapest edit script, by the definition (top-down over both strings)"""
    n, m = len(s1), len(s2)
    d = [[None] * (m + 1) for _ in range(n + 1)]
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            best = None
            cands = []
            if i < n:
                cands.append(1 + d[i + 1][j])
            if j < m:
                cands.append(1 + d[i][j + 1])
            if i < n and j < m:
                cands.append(S.ite(S.eq(s1[i], s2[j]), 0, sub(s1[i], s2[j])) + d[i + 1][j + 1])
            if not cands:
                best = 0
            else:
                best = cands[0]
                for c in cands[1:]:
                    best = S.ite(c < best, c, best)
            d[i][j] = best
    return d[0][0]


def plain(S):
    n, m = S.params["n"], S.params["m"]
    s1, s2 = S.text("a", n, "letter"), S.text("b", m, "letter")
    d = levenshtein(s1, s2)
    S.observe(s1, s2, d)
    S.check_eq(d, dist(S, s1, s2, lambda x, y: 1), "levenshtein is the cheapest edit script")
    S.check_eq(d, levenshtein(s2, s1), "symmetric")
    S.check(S.iff(S.eq(d, 0), S.eq(s1, s2)), "zero exactly for equal strings")
    S.check(d >= abs(n - m), "at least the length difference")
    S.check(d <= max(n, m), "at most the longer length")
    S.reach("plain")


def triangle(S):
    n, m, k = S.params["n"], S.params["m"], S.params["k"]
    a, b, c = S.text("a", n, "letter"), S.text("b", m, "letter"), S.text("c", k, "letter")
    x, y, z = levenshtein(a, b), levenshtein(b, c), levenshtein(a, c)
    S.check(z <= x + y, "triangle inequality")
    S.observe(x, y, z)
    S.reach("triangle")


def custom(S):
    n, m, k = S.params["n"], S.params["m"], S.params["k"]
    s1, s2 = S.text("a", n, "letter"), S.text("b", m, "letter")
    cost = {}
    entries = []
    for i in range(k):
        p, q = S.char("p%d" % i, "letter"), S.char("q%d" % i, "letter")
        w = S.real("w%d" % i, 0, 3)
        S.assume(S.not_(S.eq(p, q)))
        cost[(p, q)] = w
        entries.append((p, q, w))
    before = dict(cost)

    def sub(x, y):
        r = 1
        for p, q, w in entries:
            r = S.ite(S.all_of([S.eq(x, p), S.eq(y, q)]), w, r)
        return r
    d = levenshtein(s1, s2, cost)
    S.observe(d)
    S.check(S.close(d, dist(S, s1, s2, sub)), "levenshtein with the caller's costs is the cheapest edit script")
    S.check_eq(cost, before, "the caller's costs are not modified")
    S.reach("custom")


BASE = "가나다라마바사아자차카타파하"


def long(S):
    """longer words that differ in a replaced, a missing and an added character"""
    n = S.params["n"]
    i = S.choose("at", S.params["at"])
    a = BASE[:n]
    c, d = S.char("c", "letter"), S.char("d", "letter")
    b = {"replace": a[:i] + c + a[i + 1:], "add": a[:i] + c + a[i:], "cut": a[:i] + a[i + 1:], "both": a[:i] + c + a[i:-1] + d,
         "swap": a[:i] + c + d + a[i + 2:]}[S.params["how"]]
    x = levenshtein(a, b)
    S.observe(b, x)
    S.check_eq(x, dist(S, a, b, lambda p, q: 1), "levenshtein is the cheapest edit script")
    S.check_eq(x, levenshtein(b, a), "symmetric")
    w = S.real("w", 0, 3)
    if S.params["how"] in ("replace", "both"):
        y = levenshtein(a, b, {(a[i], c): w})
        S.check(S.close(y, dist(S, a, b, lambda p, q: S.ite(S.all_of([S.eq(p, a[i]), S.eq(q, c)]), w, 1))), "levenshtein with the caller's costs is the cheapest edit script")
    S.reach("long")


def pairs(N):
    return [(n, m) for n in range(N + 1) for m in range(N + 1)]


OBLIGATIONS = []
for n, m in pairs(4):
    OBLIGATIONS.append({"name": "plain-%d-%d" % (n, m), "fn": "plain", "params": {"n": n, "m": m}, "bound": "lengths %d and %d" % (n, m),
                        "base": n + m <= 5, "tier": "quick" if n + m <= 6 else "thorough", "expect": ["plain"]})
for n, m, k in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 3, 1), (3, 2, 1), (3, 1, 1), (1, 3, 1), (0, 2, 1), (2, 0, 1)]:
    OBLIGATIONS.append({"name": "custom-%d-%d-%d" % (n, m, k), "fn": "custom", "params": {"n": n, "m": m, "k": k},
                        "bound": "lengths %d and %d, %d custom costs in [0, 3]" % (n, m, k), "base": n + m <= 3, "expect": ["custom"]})
for n, m, k in [(2, 2, 2), (3, 3, 1), (2, 3, 2), (3, 3, 2)]:
    OBLIGATIONS.append({"name": "custom-%d-%d-%d" % (n, m, k), "fn": "custom", "params": {"n": n, "m": m, "k": k}, "tier": "thorough",
                        "bound": "lengths %d and %d, %d custom costs in [0, 3]" % (n, m, k), "expect": ["custom"]})
for t in [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (1, 2, 3)]:
    OBLIGATIONS.append({"name": "triangle-%d-%d-%d" % t, "fn": "triangle", "params": {"n": t[0], "m": t[1], "k": t[2]},
                        "bound": "lengths %d, %d, %d" % t, "base": True, "expect": ["triangle"]})
for t in [(3, 2, 2), (2, 3, 2), (3, 2, 3), (2, 3, 3), (3, 3, 3)]:
    OBLIGATIONS.append({"name": "triangle-%d-%d-%d" % t, "fn": "triangle", "params": {"n": t[0], "m": t[1], "k": t[2]}, "tier": "thorough",
                        "bound": "lengths %d, %d, %d" % t, "expect": ["triangle"]})
for n, how, at in [(6, "replace", [0, 3, 5]), (9, "replace", [4, 8]), (12, "replace", [2, 10]), (6, "add", [0, 2, 6]), (11, "add", [5, 11]), (7, "cut", [0, 3, 6]), (14, "cut", [7, 13]),
                   (5, "both", [0, 2]), (8, "both", [3]), (6, "swap", [0, 4]), (9, "swap", [5])]:
    OBLIGATIONS.append({"name": "long-%s-%d" % (how, n), "fn": "long", "params": {"n": n, "how": how, "at": at},
                        "bound": "a word of %d syllables and one that differs by one or two characters (%s) at %s" % (n, how, at), "expect": ["long"]})
