"""C30: LRNounExtractor, the first-generation noun extractor."""
import math
from soynlp.noun import LRNounExtractor
from soynlp.utils import LRGraph
from harness.common import eojeols


def distinct(S, ws):
    for i in range(len(ws)):
        for j in range(i):
            if len(ws[i]) == len(ws[j]):
                S.assume(S.not_(S.eq(ws[i], ws[j])))
    return ws


def table(S):
    """right parts with symbolic coefficients"""
    p = S.params
    rs = distinct(S, [x if isinstance(x, str) else S.text("r%d" % i, x[0], x[1]) for i, x in enumerate(p["coef"])])
    out = {}
    for i, r in enumerate(rs):
        out[r] = S.real("coef%d" % i, -1, 1)
    return out


def extractor(S, coef, least=1, lmax=10, rmax=7):
    f = S.write_file("coefficients", "")
    ex = LRNounExtractor(max_left_length=lmax, max_right_length=rmax, predictor_fnames=[f], verbose=False, min_num_of_features=least, ensure_normalized=True)
    for r, c in coef.items():
        ex.coefficient[r] = c
    return ex


def mean(word, features, coef):
    """(frequency-weighted mean coefficient, known ratio): a right part counts unless a longer one that reaches into the word is known"""
    total, known, unknown = 0, 0, 0
    for r, n in features:
        if r in coef:
            if not any(word[e:] + r in coef for e in range(len(word))):
                total += n * coef[r]
                known += n
        else:
            unknown += n
    return (total / known if known > 0 else 0), (known / (known + unknown) if known + unknown > 0 else 0)


def compound(word, coef, nouns, minscore):
    """the best of: two nouns (the better of the two), a noun and a right part above the threshold"""
    best = None
    for e in range(1, len(word)):
        l, r = word[:e], word[e:]
        x = None
        if l in nouns and r in nouns:
            # scores are compared first, then known ratios
            a, b = nouns[l], nouns[r]
            x = a if a[0] > b[0] or a[0] == b[0] and a[1] >= b[1] else b
        elif l in nouns and coef.get(r, 0.0) > minscore:
            x = (coef.get(r, 0.0), 0)
        if x is not None and (best is None or x[0] > best[0]):
            best = x
    return (0.0, 0) if best is None else best


def predicting(S):
    p = S.params
    coef = table(S)
    word = S.text("w", p["w"], p["wdom"])
    rs = distinct(S, [S.text("f%d" % i, n, p["rdom"]) for i, n in enumerate(p["features"])])
    ns = [S.int("n%d" % i, 1, 50) for i in range(len(rs))]
    features = list(zip(rs, ns))
    ex = extractor(S, coef, p["least"])
    g = {word: {r: n for r, n in features}}
    if p.get("end"):
        g[word][""] = S.int("end", 1, 50)
    ex.lrgraph = LRGraph(g)
    got = ex.predict(word)
    if len(rs) > p["least"]:
        want = mean(word, features, coef)
        S.reach("mean")
    else:
        want = (0.0, 0)
    S.check(S.close(got[0], want[0]), "the score is the weighted mean of the coefficients of the known right parts")
    S.check(S.close(got[1], want[1]), "the ratio is the known part of the right parts")
    S.check(S.all_of([got[0] >= -1, got[0] <= 1, got[1] >= 0, got[1] <= 1]), "scores and ratios are within limits")
    t = S.real("threshold", -1, 1)
    S.check(S.iff(ex.is_noun(word, t), got[0] >= t), "a noun scores at least the threshold")
    S.observe(got[0], got[1])
    S.reach("done")


def parts(sents, minf, lmax, rmax):
    """{left: {right: count}} of the left and right parts that reach the minimum, and counts of the left parts"""
    L, R = {}, {}
    every = [e for s in sents for e in eojeols(s)]
    for e in every:
        for i in range(1, min(lmax, len(e)) + 1):
            L[e[:i]] = L.get(e[:i], 0) + 1
        for i in range(1, min(rmax, len(e))):
            R[e[len(e) - i:]] = R.get(e[len(e) - i:], 0) + 1
    g = {}
    for e in every:
        for i in range(1, min(lmax, len(e)) + 1):
            l, r = e[:i], e[i:]
            if L[l] >= minf and (len(r) == 0 or R.get(r, 0) >= minf):
                rs = g.setdefault(l, {})
                rs[r] = rs.get(r, 0) + 1
    return g, L


def extracting(S):
    p = S.params
    coef = table(S)
    sents = [x if isinstance(x, str) else S.text("s%d" % i, x[0], x[1]) for i, x in enumerate(p["sents"])]
    minf, minx, mins = p["train"], p.get("extract", p["train"]), S.real("min.score", -1, 1)
    lmax, rmax = p.get("lmax", 10), p.get("rmax", 7)
    ex = extractor(S, coef, p["least"], lmax, rmax)
    if p.get("extract"):
        ex.train(sents, minf)
        got = ex.extract(mins, minx)
    else:
        got = ex.train_extract(sents, mins, minf)
    g, L = parts(sents, minf, lmax, rmax)
    words = [w for w, n in L.items() if n >= minf]
    nouns = {}
    for w in sorted(words, key=lambda w: len(w)):
        if len(w) <= 1:
            continue
        features = [(r, n) for r, n in g.get(w, {}).items() if len(r) > 0]
        score = mean(w, features, coef) if len(features) > p["least"] else compound(w, coef, nouns, mins)
        if score[0] >= mins:
            nouns[w] = score
            if len(features) <= p["least"] and score[0] > 0:
                S.reach("compound")

    def cohesion(w):
        return math.pow(L.get(w, 0) / L[w[0]], 1 / (len(w) - 1)) if len(w) > 1 else 0

    kept = {}
    for w, score in nouns.items():
        if w[-1] == "." or w[-1] == ",":
            continue
        if len(w) > 2 and not cohesion(w) >= cohesion(w[:-1]) and any(w[:e] in nouns and coef.get(w[e:], 0.0) > mins for e in range(2, len(w))):
            S.reach("noun and josa")
            continue
        if L[w] >= minx:
            kept[w] = score
    S.check(len(got) == len(kept), "the nouns that reach the thresholds and no others")
    for w, score in kept.items():
        S.check(w in got, "every noun that reaches the thresholds")
        S.check(S.close(got[w].score, score[0]), "its score")
        S.check(S.close(got[w].known_r_ratio, score[1]), "its ratio of known right parts")
        S.check(got[w].score >= mins, "the score reaches the minimum")
        n = 0
        for r, c in g.get(w, {}).items():
            if not any(w + r[:i] in kept and r[i:] in g.get(w + r[:i], {}) for i in range(1, len(r) + 1)):
                n += c
            else:
                S.reach("longer")
        S.check_eq(got[w].frequency, n, "its frequency counts the eojeols that begin with it and no longer noun")
        S.reach("some")
    now = ex.lrgraph
    for l, rs in g.items():
        d = dict(now.get_r(l, -1))
        S.check(len(d) == len(rs), "the graph is as it was trained")
        for r, n in rs.items():
            S.check(r in d, "the graph is as it was trained")
            S.check_eq(d[r], n, "the graph is as it was trained")
    S.observe(len(got), len(kept))
    S.reach("done")


def loading(S):
    """coefficients of files, the largest of several for one right part"""
    p = S.params
    want = {}
    names = []
    for k, lens in enumerate(p["files"]):
        text = ""
        for i, n in enumerate(lens):
            r = S.text("r%d.%d" % (k, i), n, "letter")
            c = S.choose("c%d.%d" % (k, i), ["-0.5", "0.25", "1"])
            text = text + r + "\t" + c + "\n"
            want[r] = max(want[r], float(c)) if r in want else float(c)
        names.append(S.write_file("f%d" % k, text))
    ex = LRNounExtractor(predictor_fnames=names, verbose=False)
    S.check(len(ex.coefficient) == len(want), "the right parts of the files")
    for r, c in want.items():
        S.check(r in ex.coefficient, "the right parts of the files")
        S.check_eq(ex.coefficient[r], c, "the largest of the coefficients of a right part")
    S.observe(sorted(ex.coefficient.values()))
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


AB = [(97, 98)]
for fs, least in (((1, 1), 1), ((1, 2), 1), ((1,), 1), ((1, 1, 2), 1), ((1, 1), 0), ((1, 1), 2)):
    add("predict-%s-%d" % ("".join(map(str, fs)), least), "predicting", "a word of 2 characters, right parts of %s, two of 1 and 2 in the table, counts up to 50, coefficients in [-1, 1]" % (fs,), w=2, wdom="letter", rdom="letter", features=list(fs), coef=[(1, "letter"), (2, "letter")], least=least, end=1,
        expect=("done", "mean") if len(fs) > least else ("done",))
add("predict-long", "predicting", "a word of 3 characters, right parts of 1, 2 and 3, three in the table", "thorough", w=3, wdom="letter", rdom="letter", features=[1, 2, 3], coef=[(1, "letter"), (2, "letter"), (3, "letter")], least=1, end=1, expect=("done", "mean"))
for w, f, c in ((2, 1, 3), (2, 2, 4), (3, 1, 4), (3, 1, 3), (1, 1, 2), (4, 1, 5), (4, 1, 2)):
    add("predict-reach-%d-%d-%d" % (w, f, c), "predicting", "a word of %d characters, right parts of %d and 1, two of %d and %d in the table" % (w, f, f, c), w=w, wdom="letter", rdom="letter", features=[f, 1], coef=[(f, "letter"), (c, "letter")], least=1, end=1, expect=("done", "mean"))
add("loading", "loading", "two files of 2 and 1 right parts of a character", files=[[1, 1], [1]])
A3 = [(97, 99)]
L3 = [A3] * 3
add("extract-two", "extracting", "two eojeols of 3 of three characters, one right part in the table", sents=[(3, L3), (3, L3)], coef=[(1, A3)], train=1, least=0, expect=("done", "some"))
add("extract-min", "extracting", "two eojeols of 3 of three characters, trained with 1, extracted with 2", sents=[(3, L3), (3, L3)], coef=[(1, A3)], train=1, extract=2, least=0, expect=("done", "some"))
add("extract-train", "extracting", "three eojeols of 2, 3 and 3 of two or three characters, minimum 2", sents=[(2, [AB] * 2), (3, [AB] * 2 + [A3]), (3, [AB] * 2 + [A3])], coef=[(1, AB)], train=2, least=0, expect=("done", "some"))
add("extract-compound", "extracting", "eojeols of 2, 3 and 4 of two or three characters, one right part in the table, two features needed", sents=["aac", (3, [AB, AB, A3]), (4, [AB, AB, [(97, 97)], AB])], coef=["c"], train=1, least=1, expect=("done", "some", "compound"))
add("extract-compound-2", "extracting", "eojeols of 2, 3 and 4 of two or three characters, two right parts in the table, two features needed", "thorough", sents=["aac", (3, [AB, AB, A3]), (4, [AB, AB, [(97, 97)], AB])], coef=["c", (1, AB)], train=1, least=1, expect=("done", "some", "compound"))
add("extract-longer", "extracting", "three eojeols of 2, 3 and 4 of two characters", sents=["ab", (3, [AB] * 3), (4, [AB] * 4)], coef=["b"], train=1, least=0, expect=("done", "some", "longer"))
add("extract-longer-2", "extracting", "three eojeols of 2, 3 and 4 of two characters", "thorough", sents=["ab", (3, [AB] * 3), (4, [AB] * 4)], coef=[(1, AB)], train=1, least=0, expect=("done", "some", "longer"))
add("extract-josa", "extracting", "four eojeols of 2, 2, 3 and 4 of a few characters", sents=["ab", "ab", (3, [[(97, 97)], AB, A3]), (4, [[(97, 97)], [(98, 98)], AB, A3])], coef=["c"], train=1, least=0, expect=("done", "some", "noun and josa"))
add("extract-limits", "extracting", "two eojeols of 4 of two characters, left parts of 3 and right parts of 2 at most", sents=[(4, [AB] * 4), (4, [AB] * 4)], coef=[(1, AB), (2, [AB] * 2)], train=1, least=0, lmax=3, rmax=2, expect=("done", "some"))
A = [(97, 97)]
for n in (5, 6, 7, 8, 9):
    add("extract-long-%d" % n, "extracting", "two eojeols of %d and %d characters" % (n, n + 1), sents=[(n, [A] * (n - 2) + [AB] * 2), (n + 1, [A] * (n - 2) + [AB, AB, AB])], coef=["b"], train=1, least=0, lmax=12, rmax=7, expect=("done", "some"))
add("extract-marks", "extracting", "words that end in a full stop or a comma", sents=[(3, [AB, [(44, 44), (46, 46), (97, 97)], AB]), "a b c"], coef=[(1, AB)], train=1, least=0, expect=("done", "some"))
add("extract-sentences", "extracting", "two sentences of 4 of letters and spaces", "thorough", sents=[(4, [[(32, 32), (97, 98)]] * 4), (4, [[(32, 32), (97, 98)]] * 4)], coef=[(1, AB)], train=1, least=0, expect=("done", "some"))
add("extract-three", "extracting", "three eojeols of 3 of any letters", "thorough", sents=[(3, "letter")] * 3, coef=[(1, "letter")], train=1, least=1, expect=("done", "some"))
