"""C04: jamo_levenshtein, cosine_distance, jaccard_distance."""
from collections import Counter
from soynlp.hangle import levenshtein, jamo_levenshtein, cosine_distance, jaccard_distance


def kchar(S, label):
    """any character, in one of the four classes; with its components (None: not Korean)"""
    k = S.choose(label + ".class", ["syl", "jaum", "moum", "other"])
    if k == "syl":
        c = S.char(label, "syllable")
        n = ord(c) - 0xAC00
        return c, (n // 588, 100 + (n % 588) // 28, 200 + n % 28)
    if k == "jaum":
        c = S.char(label, "jaum")
        # a lone consonant stands in the initial position; compared as a character code
        return c, (initial(S, c), 99, 200)
    if k == "moum":
        c = S.char(label, "moum")
        return c, (98, 100 + ord(c) - 0x314F, 200)
    return S.char(label, "nonhangul"), None


CHO = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
OTHERS = "ㄳㄵㄶㄺㄻㄼㄽㄾㄿㅀㅄ"


def initial(S, c):
    r = 0
    for i, x in enumerate(CHO):
        r = S.ite(S.eq(c, x), i, r)
    for i, x in enumerate(OTHERS):
        r = S.ite(S.eq(c, x), 30 + i, r)
    return r


def jamo_dist(S, a, b):
    """cheapest edit script in thirds"""
    n, m = len(a), len(b)
    d = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            cands = []
            if i < n:
                cands.append(3 + d[i + 1][j])
            if j < m:
                cands.append(3 + d[i][j + 1])
            if i < n and j < m:
                (x, p), (y, q) = a[i], b[j]
                if p is None or q is None:
                    w = S.ite(S.eq(x, y), 0, 3)
                else:
                    w = sum([S.ite(S.eq(p[k], q[k]), 0, 1) for k in range(3)])
                cands.append(w + d[i + 1][j + 1])
            if cands:
                best = cands[0]
                for c in cands[1:]:
                    best = S.ite(c < best, c, best)
                d[i][j] = best
    return d[0][0]


def jamo(S):
    n, m = S.params["n"], S.params["m"]
    a = [kchar(S, "a%d" % i) for i in range(n)]
    b = [kchar(S, "b%d" % i) for i in range(m)]
    s1 = "".join([x for x, _ in a])
    s2 = "".join([x for x, _ in b])
    d = jamo_levenshtein(s1, s2)
    S.observe(s1, s2, d)
    S.check(S.close(d * 3, jamo_dist(S, a, b), 1e-6), "jamo_levenshtein is the cheapest edit script")
    S.check(S.close(d, jamo_levenshtein(s2, s1)), "symmetric")
    S.check(S.iff(S.close(d, 0, 1e-6), S.eq(s1, s2)), "zero exactly for equal strings")
    S.check(d <= levenshtein(s1, s2) + 1e-9, "never more than the plain edit distance")
    S.reach("jamo")


WORD = "가나다라마바사아자차카타"


def jamo_long(S):
    """longer words that differ in a character"""
    n, i, how = S.params["n"], S.params["at"], S.params["how"]
    a = [(c, parts(c)) for c in WORD[:n]]
    x = kchar(S, "c")
    b = {"replace": a[:i] + [x] + a[i + 1:], "add": a[:i] + [x] + a[i:], "shift": a[:i] + [x] + a[i:-1]}[how]
    s1 = "".join([x for x, _ in a])
    s2 = "".join([x for x, _ in b])
    d = jamo_levenshtein(s1, s2)
    S.observe(s2, d)
    S.check(S.close(d * 3, jamo_dist(S, a, b), 1e-6), "jamo_levenshtein is the cheapest edit script")
    S.check(S.close(d, jamo_levenshtein(s2, s1)), "symmetric")
    S.check(d <= levenshtein(s1, s2) + 1e-9, "never more than the plain edit distance")
    S.reach("jamo_long")


def parts(c):
    n = ord(c) - 0xAC00
    return (n // 588, 100 + (n % 588) // 28, 200 + n % 28)


def sqrt(x):
    return x ** 0.5


def sets(S):
    n, m = S.params["n"], S.params["m"]
    s1, s2 = S.text("a", n, "any"), S.text("b", m, "any")
    if S.params.get("times"):
        s1 = s1 + s1[0] * (S.params["times"] - 1)
    j, c = jaccard_distance(s1, s2), cosine_distance(s1, s2)
    S.observe(j, c)
    S.check_eq(jaccard_distance(s2, s1), j, "jaccard is symmetric")
    S.check(S.close(cosine_distance(s2, s1), c), "cosine is symmetric")
    if n == 0 or m == 0:
        S.check(j == 1, "jaccard with an empty string")
        S.check(c == 2, "cosine with an empty string")
        S.reach("empty")
        return
    # number of distinct characters and dot products, straight from the definition
    u1 = [x for i, x in enumerate(s1) if not any([x == y for y in s1[:i]])]
    u2 = [x for i, x in enumerate(s2) if not any([x == y for y in s2[:i]])]
    both = [x for x in u1 if any([x == y for y in u2])]
    S.check(S.close(j, 1 - len(both) / (len(u1) + len(u2) - len(both))), "jaccard is one minus intersection over union")
    prod = len([1 for x in s1 for y in s2 if x == y])
    q1 = len([1 for x in s1 for y in s1 if x == y])
    q2 = len([1 for x in s2 for y in s2 if x == y])
    S.check(S.close(c, 1 - prod / sqrt(q1 * q2)), "cosine is one minus the cosine of the counts")
    S.check(0 <= j <= 1, "jaccard lies in [0, 1]")
    S.check(-1e-9 <= c <= 1 + 1e-9, "cosine lies in [0, 1]")
    if s1 == s2:
        S.check(S.close(c, 0) and S.close(j, 0), "zero on equal inputs")
        S.reach("equal")
    S.reach("sets")


def units(S):
    """the caller's unit function is used for both sides"""
    n, m = S.params["n"], S.params["m"]
    s1, s2 = S.text("a", n, "letter"), S.text("b", m, "letter")

    def grams(s):
        return [s[i:i + 2] for i in range(len(s) - 1)]
    j = jaccard_distance(s1, s2, unitfy=lambda x: set(grams(x)))
    c = cosine_distance(s1, s2, unitfy=lambda x: Counter(grams(x)))
    S.observe(j, c)
    g1, g2 = grams(s1), grams(s2)
    u1 = [x for i, x in enumerate(g1) if not any([x == y for y in g1[:i]])]
    u2 = [x for i, x in enumerate(g2) if not any([x == y for y in g2[:i]])]
    both = [x for x in u1 if any([x == y for y in u2])]
    S.check(S.close(j, 1 - len(both) / (len(u1) + len(u2) - len(both))), "jaccard over the caller's units")
    prod = len([1 for x in g1 for y in g2 if x == y])
    q1 = len([1 for x in g1 for y in g1 if x == y])
    q2 = len([1 for x in g2 for y in g2 if x == y])
    S.check(S.close(c, 1 - prod / sqrt(q1 * q2)), "cosine over the caller's units")
    S.reach("units")


OBLIGATIONS = []
for n, m in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (0, 2), (2, 2), (1, 3), (3, 1)]:
    OBLIGATIONS.append({"name": "jamo-%d-%d" % (n, m), "fn": "jamo", "params": {"n": n, "m": m}, "base": n + m <= 3,
                        "bound": "lengths %d and %d, every character class" % (n, m), "expect": ["jamo"]})
for n, m in [(2, 3), (3, 2)]:
    OBLIGATIONS.append({"name": "jamo-%d-%d" % (n, m), "fn": "jamo", "params": {"n": n, "m": m}, "tier": "thorough",
                        "bound": "lengths %d and %d, every character class" % (n, m), "expect": ["jamo"]})
for n, m in [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4), (4, 2)]:
    OBLIGATIONS.append({"name": "sets-%d-%d" % (n, m), "fn": "sets", "params": {"n": n, "m": m}, "base": n + m <= 4,
                        "bound": "lengths %d and %d, all of Unicode" % (n, m), "expect": ["sets"] if n and m else ["empty"]})
for n, m in [(3, 4), (4, 3), (4, 4)]:
    OBLIGATIONS.append({"name": "sets-%d-%d" % (n, m), "fn": "sets", "params": {"n": n, "m": m}, "tier": "thorough",
                        "bound": "lengths %d and %d, all of Unicode" % (n, m), "expect": ["sets"]})
OBLIGATIONS.append({"name": "units-3-3", "fn": "units", "params": {"n": 3, "m": 3}, "bound": "character bigrams of two strings of 3 letters", "expect": ["units"]})
for n, m, t in [(1, 2, 7), (2, 2, 12), (2, 3, 5), (2, 2, 40)]:
    OBLIGATIONS.append({"name": "sets-%d-%d-%d" % (n, m, t), "fn": "sets", "params": {"n": n, "m": m, "times": t},
                        "bound": "lengths %d and %d, all of Unicode, the first character %d times more" % (n, m, t - 1), "expect": ["sets"]})
for n, i, how in [(4, 1, "replace"), (6, 5, "replace"), (9, 4, "replace"), (5, 0, "add"), (8, 8, "add"), (5, 1, "shift")]:
    OBLIGATIONS.append({"name": "jamo-long-%s-%d" % (how, n), "fn": "jamo_long", "params": {"n": n, "at": i, "how": how},
                        "bound": "a word of %d syllables and one with a character of any class at %d (%s)" % (n, i, how), "expect": ["jamo_long"]})
