"""C20: WordExtractor.extract, word_scores, save and load."""
from soynlp.word import WordExtractor
from soynlp.word._word import Scores
from harness.common import close

THRESHOLDS = ["min_cohesion_forward", "min_cohesion_backward", "min_left_branching_entropy", "min_right_branching_entropy",
              "min_left_accessor_variety", "min_right_accessor_variety"]
FIELDS = ["cohesion_forward", "cohesion_backward", "left_branching_entropy", "right_branching_entropy",
          "left_accessor_variety", "right_accessor_variety"]


def passes(S, x, sc, th, minf):
    cs = [sc[2] >= th[2], sc[3] >= th[3], sc[4] >= th[4], sc[5] >= th[5], S.any_of([sc[6] >= minf, sc[7] >= minf])]
    if len(x) >= 2:
        cs += [sc[0] >= th[0], sc[1] >= th[1]]
    return S.all_of(cs)


def table(S):
    """extraction from any score table"""
    p = S.params
    base = S.text("x", p["depth"], "letter")
    words = [base[:k] for k in range(1, p["depth"] + 1)]
    if p.get("other"):
        o = S.text("o", p["other"], "letter")
        S.assume(S.not_(S.eq(o, base[:p["other"]])))
        words.append(o)
    th = []
    kw = {}
    for i, name in enumerate(THRESHOLDS):
        if i in p["th"]:
            th.append(S.int(name, 0, 3) if i >= 4 else S.real(name, 0, 1))
            kw[name] = th[-1]
        else:
            th.append(0.05 if i == 0 else 0)
    minf = S.int("minf", 1, 4) if p.get("minf") else 1
    limit = S.real("limit", 0, 1) if p.get("limit") else 0.98
    # left frequencies of the words, by training
    sents = ["%"]
    lf = {}
    for i, w in enumerate(words):
        if len(w) < 2:
            continue
        c = S.choose("copies%d" % i, p["copies"])
        sents = sents + [w] * c
    w = WordExtractor(min_frequency=1, verbose_points=0, remove_subwords=p["sub"], max_droprate_leftside_frequency=limit, **kw)
    w.train(sents)
    w.min_frequency = minf
    scores = {}
    for i, x in enumerate(words):
        vals = []
        for j in range(6):
            vals.append((S.int("v%d.%d" % (i, j), 0, 3) if j >= 4 else S.real("v%d.%d" % (i, j), 0, 1)) if j in p["th"] else 1)
        vals.append(S.int("lf%d" % i, 0, 4) if p.get("minf") or p["sub"] else w.frequency(x)[0])
        vals.append(S.int("rf%d" % i, 0, 4) if p.get("minf") else 1)
        scores[x] = Scores(*vals)
    out = w.extract(scores)
    S.observe(len(out))
    for x in words:
        ok = passes(S, x, scores[x], th, minf)
        if p["sub"]:
            drop = []
            for y in words:
                if len(y) == len(x) + 1 and w.frequency(x)[0] > 0:
                    drop.append(S.all_of([S.eq(y[:-1], x), passes(S, y, scores[y], th, minf), scores[y].leftside_frequency / w.frequency(x)[0] > limit]))
            if S.fork(S.all_of([ok, S.any_of(drop)])):
                S.reach("dropped")
            ok = S.all_of([ok, S.not_(S.any_of(drop))])
        if S.fork(ok):
            S.check(x in out, "a word passing every threshold is extracted")
            S.check_eq(list(out[x]), list(scores[x]), "with its own scores")
            S.reach("in")
        else:
            S.check(x not in out, "a word failing a threshold is not extracted")
            S.reach("out")
    S.check(all([x in scores for x in out]), "only words of the table")


def corpus(S):
    """scores, extraction, saving and loading after training"""
    p = S.params
    sents = [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]
    kw = {"max_left_length": p["maxl"], "max_right_length": p["maxr"], "min_frequency": p["min"], "verbose_points": 0,
          "min_cohesion_forward": p["th"][0], "min_cohesion_backward": p["th"][1], "min_left_branching_entropy": p["th"][2], "min_right_branching_entropy": p["th"][3],
          "min_left_accessor_variety": p["th"][4], "min_right_accessor_variety": p["th"][5], "remove_subwords": p["sub"], "max_droprate_leftside_frequency": p["limit"]}
    w = WordExtractor(**kw)
    w.train(sents)
    scores = w.word_scores()
    words = w.words()
    S.check(len(scores) == len(words), "every known word has scores")
    for x in words:
        S.check(x in scores, "every known word has scores")
        sc = scores[x]
        c, f = w.cohesion_score(x), w.frequency(x)
        S.check(S.all_of([close(S, sc[0], c[0]), close(S, sc[1], c[1])]), "cohesions of the word")
        S.check_eq((sc[6], sc[7]), f, "frequencies of the word")
        if len(x) <= min(p["maxl"], p["maxr"]):
            b, v = w.branching_entropy(x), w.accessor_variety(x)
            S.check(S.all_of([close(S, sc[2], b[0]), close(S, sc[3], b[1])]), "branching entropies of the word")
            S.check_eq((sc[4], sc[5]), v, "accessor varieties of the word")
    out = w.extract()
    S.observe(len(out))
    for x in words:
        if not passes(S, x, scores[x], p["th"], p["min"]):
            S.check(x not in out, "a word failing a threshold is not extracted")
            S.reach("out")
        elif not p["sub"]:
            S.check(x in out, "a word passing every threshold is extracted")
        if x in out:
            S.reach("in")
    for x in out:
        S.check_eq(list(out[x]), list(scores[x]), "with its own scores")
    f = S.path("words.model")
    w.save(f)
    v = WordExtractor(verbose_points=0)
    v.load(f)
    again = v.extract()
    S.check(len(again) == len(out), "the loaded extractor extracts the same words")
    for x in out:
        S.check(x in again, "the loaded extractor extracts the same words")
        S.check_eq(list(again[x]), list(out[x]), "the loaded extractor gives the same scores")
    for x in words:
        S.check_eq(v.frequency(x), w.frequency(x), "the loaded extractor has the same counts")
        S.check_eq(v.accessor_variety(x), w.accessor_variety(x), "the loaded extractor has the same neighbours")
    S.check(len(v.words()) == len(words), "the loaded extractor knows the same words")
    more = ["pq pq", "pqr"]
    w.train(more)
    v.train(more)
    S.check_eq([v.frequency("pq"), v.frequency("pqr")], [w.frequency("pq"), w.frequency("pqr")], "the loaded extractor goes on training alike")
    S.reach("done")


def settings(S):
    """every setting survives saving and loading"""
    kw = {}
    for name in THRESHOLDS:
        kw[name] = S.real(name, 0, 1)
    kw["max_droprate_leftside_frequency"] = S.real("limit", 0, 1)
    kw["max_left_length"] = S.int("maxl", 1, 20)
    kw["max_right_length"] = S.int("maxr", 1, 20)
    kw["min_frequency"] = S.int("minf", 1, 9)
    kw["remove_subwords"] = S.flag("sub")
    kw["verbose_points"] = S.int("verbose", -1, 0)
    w = WordExtractor(**kw)
    f = S.path("empty.model")
    w.save(f)
    v = WordExtractor()
    v.load(f)
    for k, x in kw.items():
        S.check(S.eq(getattr(v, "verbose" if k == "verbose_points" else k), x), "a setting is lost by saving and loading: " + k)
    S.reach("done")


OBLIGATIONS = []


def tab(name, th, depth=1, other=0, sub=False, tier="quick", base=False, expect=("in", "out"), copies=(1,), **kw):
    pr = {"th": th, "depth": depth, "other": other, "sub": sub, "copies": list(copies)}
    pr.update(kw)
    OBLIGATIONS.append({"name": "table-" + name, "fn": "table", "tier": tier, "base": base, "params": pr, "expect": list(expect),
                        "bound": "score tables of the %d prefixes of a word%s with symbolic %s" % (depth, " and another word" if other else "", ", ".join([FIELDS[i] for i in th] + sorted(kw)))})


def cor(sents, th, mn=1, maxl=10, maxr=6, sub=False, dom="letter", tier="quick", base=False, limit=0.98, expect=("in", "out")):
    OBLIGATIONS.append({"name": "corpus-%s-f%d-%d-%d%s-%s" % ("_".join(map(str, sents)), mn, maxl, maxr, "s" if sub else "", "_".join(map(str, th))), "fn": "corpus", "tier": tier, "base": base, "expect": ["done"] + list(expect),
                        "params": {"sents": list(sents), "th": list(th), "min": mn, "maxl": maxl, "maxr": maxr, "sub": sub, "dom": dom, "limit": limit},
                        "bound": "sentences of %s characters, minimum frequency %d, length limits %d and %d, thresholds %s" % (sents, mn, maxl, maxr, th)})


for i in range(6):
    tab(FIELDS[i], [i], 2, base=i == 0)
tab("all", [0, 1, 2, 3, 4, 5], 2)
tab("one-syllable", [0, 1, 2], 1)
tab("frequency", [], 2, minf=True, base=True)
tab("subwords", [2], 3, sub=True, limit=True, base=True, expect=("in", "out", "dropped"))
tab("subwords-cohesion", [0, 1], 3, sub=True, limit=True, expect=("in", "out", "dropped"), copies=[1, 2])
tab("subwords-other", [3], 2, 2, sub=True, limit=True, expect=("in", "out", "dropped"))
tab("subwords-deep", [0, 3], 4, sub=True, limit=True, tier="thorough", expect=("in", "out", "dropped"))
NONE = [0.0, 0.0, 0.0, 0.0, 0, 0]
cor([2, 2], NONE, base=True, expect=("in",))
cor([3, 2], [0.8, 0.0, 0.0, 0.0, 0, 0])
cor([3, 2], [0.0, 0.6, 0.0, 0.0, 0, 0], 1, 2, 2)
cor([3, 2], [0.0, 0.0, 0.0, 0.0, 0, 1])
cor([3, 2], [0.0, 0.0, 0.0, 0.3, 0, 0], 1, 2, 2, sub=True, limit=0.4)
cor([2, 2, 2], [0.05, 0.0, 0.0, 0.0, 0, 0], 2, sub=True, expect=("in",))
cor([5], [0.05, 0.0, 0.0, 0.0, 1, 0], 1, 2, 2, dom="lsp", expect=())
cor([4, 3], [0.05, 0.0, 0.0, 0.0, 0, 0], 1, 3, 2, sub=True, limit=0.5, tier="thorough")
OBLIGATIONS.append({"name": "settings", "fn": "settings", "params": {}, "bound": "every setting", "expect": ["done"]})
cor([3, 3], [0.0, 0.0, 0.0, 0.3, 0, 1], 1, 2, 2, sub=True, limit=0.4, tier="thorough", expect=("in",))
cor([3, 3], [0.0, 0.6, 0.0, 0.0, 0, 1], tier="thorough", expect=("in",))
