"""C18: WordExtractor frequencies and cohesion."""
from soynlp.word import WordExtractor
from harness.common import eojeols, side_counts, close


def make(S, p):
    return WordExtractor(max_left_length=p["maxl"], max_right_length=p["maxr"], min_frequency=p["min"], verbose_points=0)


def frequencies(S):
    p = S.params
    sents = []
    for i, n in enumerate(p["sents"]):
        sents = sents + [S.text("s%d" % i, n, p["dom"])] * (S.choose("times%d" % i, p["times"]) if "times" in p else 1)
    w = make(S, p)
    cut = p.get("cut", 0)
    if cut:
        # cumulative training
        w.train(sents[:cut])
        w.train(sents[cut:])
    elif p.get("fresh"):
        # training anew forgets what was learned
        w.train(["zz zzz zz", "xz"])
        w.train(sents, cumulate=False)
    elif p.get("init"):
        w = WordExtractor(sents, p["maxl"], p["maxr"], p["min"], 0)
    else:
        w.train(sents)
    L, R = side_counts(sents, p["maxl"], p["maxr"])
    words = {}
    for x, c in L.items():
        words[x] = 1
    for x, c in R.items():
        words[x] = 1
    known = {}
    total = 0
    cps = w.all_cohesion_scores()
    ws = w.words()
    for x in words:
        l, r = L.get(x, 0), R.get(x, 0)
        l = l if l >= p["min"] else 0
        r = r if r >= p["min"] else 0
        f = w.frequency(x)
        n = len(x)
        inside = (n <= p["maxl"], n <= p["maxr"])
        if inside[0]:
            S.check_eq(f[0], l, "left frequency of a substring")
        if inside[1]:
            S.check_eq(f[1], r, "right frequency of a substring")
        if l > 0 or r > 0:
            known[x] = 1
            S.check(x in ws, "a known word is listed")
        want = (0, 0)
        if n >= 2:
            a = L.get(x[0], 0)
            b = R.get(x[-1], 0)
            want = ((l / a) ** (1 / (n - 1)) if l > 0 else 0, (r / b) ** (1 / (n - 1)) if r > 0 else 0)
            if want[0] > 0 and want[0] < 1:
                S.reach("partial")
        got = w.cohesion_score(x)
        every = cps.get(x, (0, 0))
        for i in (0, 1):
            if inside[i]:
                S.check(close(S, got[i], want[i]), "cohesion of a word")
                S.check(close(S, every[i], want[i]), "cohesion of a word among all words")
            S.check(close(S, got[i], every[i]) if x in ws else True, "the single-word and the all-words cohesion")
            S.check(S.all_of([got[i] >= 0, got[i] <= 1]), "cohesion lies in [0, 1]")
        S.observe(f, got)
        total += 1
    S.check(len(ws) == len(known), "no word that does not occur")
    S.check(len([x for x in cps if x in words]) == len(cps), "no cohesion for strings that do not occur")
    q = S.text("q", p.get("probe", 2), "letter")
    if q not in words:
        S.check_eq(w.frequency(q), (0, 0), "frequency of an unseen string")
        S.check_eq(w.cohesion_score(q), (0, 0), "cohesion of an unseen string")
        S.reach("unseen")
    S.check_eq(w.cohesion_score(""), (0, 0), "cohesion of the empty word")
    if known:
        S.reach("known")
    S.reach("done")


def root(S):
    """cohesion of a word with any trained counts"""
    p = S.params
    n = p["n"]
    x = S.text("x", n, "letter")
    one, l, a, r, b = S.text("y", 1, "letter"), S.int("l", 1, p["hi"]), S.int("a", 1, p["hi"]), S.int("r", 1, p["hi"]), S.int("b", 1, p["hi"])
    S.assume(l <= a)
    S.assume(r <= b)
    sents = []
    k = 0
    while k < a:
        sents.append(x if k < l else x[0] + "%")
        k += 1
    k = 0
    while k < b:
        sents.append("%" + x if k < r else "%" + x[-1])
        k += 1
    w = WordExtractor(sents, min_frequency=1, verbose_points=0)
    f = w.frequency(x)
    S.check_eq(f[0], l, "left frequency")
    S.check_eq(f[1], r if n <= 6 else 0, "right frequency")
    got = w.cohesion_score(x)
    S.check(close(S, got[0], (l / w.frequency(x[0])[0]) ** (1 / (n - 1))), "left cohesion")
    S.check(got[1] == 0 if n > 6 else close(S, got[1], (r / w.frequency(x[-1])[1]) ** (1 / (n - 1))), "right cohesion")
    S.check(S.all_of([g >= 0 for g in got] + [g <= 1 for g in got]), "cohesion lies in [0, 1]")
    S.observe(got)
    S.reach("done")


OBLIGATIONS = []


def ob(sents, mn=1, maxl=10, maxr=6, dom="lsp", tier="quick", base=False, **kw):
    name = "%s-f%d-%d-%d%s%s" % ("_".join(map(str, sents)), mn, maxl, maxr, dom[0] if isinstance(dom, str) else "x", "-".join([""] + sorted(kw)))
    ex = ["done"] + (["known", "unseen"] if max(sents) > 1 else [])
    pr = {"sents": list(sents), "min": mn, "maxl": maxl, "maxr": maxr, "dom": dom}
    pr.update(kw)
    OBLIGATIONS.append({"name": name, "fn": "frequencies", "tier": tier, "base": base, "params": pr, "expect": ex,
                        "bound": "sentences of %s characters, minimum frequency %d, length limits %d and %d" % (sents, mn, maxl, maxr)})


ob([1, 2], base=True)
ob([3, 2], base=True)
ob([5], 1, 3, 2)
ob([4], 1, 2, 3, "letter")
ob([2, 2, 2], 2, dom="letter", base=True)
ob([5, 2], 2, 2, 2, dom="letter")
ob([3, 2], 1, cut=1)
ob([2, 2, 2], 1, cut=2, dom="letter")
ob([3, 2], fresh=True)
ob([3, 2], 1, 2, 1, init=True)
ob([4, 2], 1, 3, 2, probe=3, dom="letter")
ob([5, 3], 1, 10, 6, tier="thorough")
ob([3, 3, 2], 2, 3, 2, tier="thorough", dom="letter")
ob([4, 3], 1, 2, 2, cut=1, tier="thorough")
ob([2, 2], 1, dom="letter", times=[1, 9, 10, 31, 101])
ob([3, 2], 10, 2, 2, dom="letter", times=[5, 10, 11])
ob([12], 1, 10, 6, dom=[(97, 97)])
ob([14], 1, 10, 9, dom=[(97, 97)])
for n, hi in ((2, 3), (3, 3), (4, 3), (6, 2), (10, 2)):
    OBLIGATIONS.append({"name": "root-%d" % n, "fn": "root", "params": {"n": n, "hi": hi}, "bound": "a word of %d characters, frequencies 1..%d" % (n, hi), "expect": ["done"], "base": n == 3})
