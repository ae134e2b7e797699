"""C25: Bigram."""
from math import log
from soynlp.word import Bigram
from harness.common import eojeols, close
from harness.c21 import count, uniq


def corpus(S):
    p = S.params
    kw = {"verbose": False}
    if p.get("tokens"):
        base = [[S.text("t%d.%d" % (i, j), n, p["dom"]) for j, n in enumerate(lens)] * (S.choose("times%d" % i, p["times"]) if "times" in p else 1) for i, lens in enumerate(p["sents"])]
        kw["tokenizer"] = lambda s: s
        toks = base
    else:
        base = [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]
        toks = [eojeols(s) for s in base]
    sents, lists = [], []
    for i in range(len(base)):
        c = S.choose("copies%d" % i, p.get("copies", [1]))
        sents = sents + [base[i]] * c
        lists = lists + [toks[i]] * c
    return sents, lists, kw


def pairs_of(lists):
    return [(a, b) for l in lists for a, b in zip(l, l[1:])]


def score_of(S, kind, x, counts, minf):
    f = counts[x]
    if kind == "frequency":
        return f
    u = {}
    n = 0
    for pair in counts:
        n += 2 * counts[pair]
        for w in pair:
            u[w] = u.get(w, 0) + counts[pair]
    base = u[x[0]] * u[x[1]]
    return log(n * f / base) if kind == "pmi" else (f - minf) / base


def same_pair(x, y):
    return x[0] == y[0] and x[1] == y[1]


def phrases(S):
    p = S.params
    sents, lists, kw = corpus(S)
    kind = p["score"]
    minf = S.int("min", 1, p.get("max_min", 3)) if p.get("min") else p.get("fixed_min", 1)
    kw["min_frequency"] = minf
    if kind != "frequency" or p.get("named"):
        kw["score"] = kind
    if p.get("checkpoint") is not None:
        kw["filtering_checkpoint"] = p["checkpoint"]
    b = Bigram(**kw)
    b.train(sents)
    every = pairs_of(lists)
    counts = {}
    for x in uniq(every):
        n = len([y for y in every if same_pair(x, y)])
        if S.fork(n >= minf):
            counts[x] = n
        else:
            S.reach("rare")
    got = b.extract(threshold=-100)
    S.observe(len(got))
    S.check(len(got) == len(counts), "exactly the pairs that are frequent enough")
    for x in counts:
        S.check(x in got, "every frequent pair")
        S.check(got[x].frequency == counts[x], "number of adjacent pairs")
        s = score_of(S, kind, x, counts, minf)
        S.check(close(S, got[x].score, s), "score of the pair")
        S.reach("pair")
    # selection
    th = S.choose("threshold", p["th"])
    top = S.choose("topk", p["topk"])
    sel = b.extract(top, th) if p.get("positional") else b.extract(topk=top, threshold=th)
    fit = [x for x in counts if S.fork(got[x].score >= th)]
    if top <= 0:
        S.check(len(sel) == len(fit), "every pair that reaches the threshold")
    else:
        S.check(len(sel) == min(top, len(fit)), "as many pairs as requested")
        if len(fit) > top:
            S.reach("cut")
    low = None
    for x in sel:
        S.check(x in got, "selected pairs are pairs")
        S.check(S.all_of([sel[x].frequency == got[x].frequency, close(S, sel[x].score, got[x].score)]), "selection keeps counts and scores")
        S.check(sel[x].score >= th, "selected pairs reach the threshold")
        if top > 0:
            if low is not None:
                S.check(sel[x].score <= low + 1e-9, "in decreasing order")
            low = sel[x].score
    for x in fit:
        if x not in sel:
            S.check(low is not None and got[x].score <= low + 1e-9, "the highest ones are selected")
    again = b.extract(threshold=-100)
    S.check(len(again) == len(got), "selection changes nothing")
    if p.get("retrain"):
        b.train(sents)
        r = b.extract(threshold=-100)
        S.check(len(r) == len(got), "training again replaces the counts")
        for x in counts:
            S.check(r[x].frequency == counts[x], "training again replaces the counts")
    S.reach("done")


def filtered(S):
    """counts under periodic filtering never exceed the true ones"""
    p = S.params
    sents, lists, kw = corpus(S)
    k = S.choose("checkpoint", [1, 2, 3])
    minf = S.int("min", 1, 3)
    b = Bigram(min_frequency=minf, filtering_checkpoint=k, **kw)
    b.train(sents)
    got = b.extract(threshold=-100)
    S.observe(len(got))
    every = pairs_of(lists)
    for x in got:
        n = len([y for y in every if same_pair(x, y)])
        S.check(S.all_of([got[x].frequency >= minf, got[x].frequency <= n]), "at least the minimum and at most the true count")
        S.reach("pair")
    # a pair frequent within one stretch between filterings is found
    for x in uniq(every):
        last = []
        for i in range(len(lists)):
            if i % k == 0:
                last = []
            last = last + pairs_of([lists[i]])
        if S.fork(len([y for y in last if same_pair(x, y)]) >= minf):
            S.check(x in got, "a pair frequent after the last filtering is found")
    if S.fork(minf <= 1):
        for x in uniq(every):
            S.check(got[x].frequency == len([y for y in every if same_pair(x, y)]), "without a minimum nothing is filtered")
    S.reach("done")


OBLIGATIONS = []


def add(name, bound, fn="phrases", tier="quick", expect=("done", "pair"), **params):
    params.setdefault("score", "frequency")
    params.setdefault("th", [-100, 0, 1, 2])
    params.setdefault("topk", [-1, 1, 2, 3])
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


TH = {"frequency": [0, 1, 2], "pmi": [-100, -0.2, 0, 0.5], "mikolov": [0, 0.1, 0.25]}
for k in ("frequency", "pmi", "mikolov"):
    add(k + "-3", "a sentence of 3 words of one letter, once or twice, minimum 1 to 3, three thresholds, top -1 1 2; score " + k, tokens=True, sents=[[1, 1, 1]], dom="letter", score=k, min=True, copies=[1, 2], topk=[-1, 1, 2], th=TH[k])
    add(k + "-4", "a sentence of 4 words, top 1 2; score " + k, tokens=True, sents=[[1, 1, 1, 1]], dom="letter", score=k, topk=[1, 2], th=TH[k][:2], expect=("done", "pair", "cut"))
    add(k + "-3-2", "sentences of 3 and 2 words of lengths 1 and 2, each once or twice, minimum 1 or 2; score " + k, tokens=True, sents=[[1, 2, 1], [1, 2]], dom="letter", score=k, min=True, max_min=2, copies=[1, 2], topk=[-1, 1], th=TH[k][:2], positional=True)
    add(k + "-2-2", "sentences of 2 and 2 words, up to three copies, minimum 2; score " + k, tokens=True, sents=[[1, 1], [1, 1]], dom="letter", score=k, fixed_min=2, copies=[0, 1, 3], topk=[0, 1], th=TH[k], expect=("done", "pair", "rare"))
    add(k + "-text", "a sentence of 5 characters: letters and white space; score " + k, sents=[5], dom="sent", score=k, named=True, topk=[-1, 1], th=TH[k][:2], retrain=True)
add("no-filter", "sentences of 2 and 2 words, filtering switched off, minimum 1 to 3", tokens=True, sents=[[1, 1], [1, 1]], dom="letter", copies=[1, 2], min=True, checkpoint=0, topk=[-1], th=[0])
add("short", "sentences of no, one and two words", tokens=True, sents=[[], [1], [1, 1]], dom="letter", copies=[1, 2], min=True, topk=[-1], th=[0])
add("filtered-2-2", "sentences of 2 and 2 words, up to two copies, filtered every 1 to 3 sentences, minimum 1 to 3", "filtered", tokens=True, sents=[[1, 1], [1, 1]], dom="letter", copies=[1, 2])
add("filtered-3-2", "sentences of 3, 2 and 2 words, filtered every 1 to 3 sentences, minimum 1 to 3", "filtered", tokens=True, sents=[[1, 1, 1], [1, 1]], dom="letter", copies=[1, 2])
for k in ("pmi", "mikolov"):
    add(k + "-5", "a sentence of 5 words, top 1 to 3; score " + k, tier="thorough", tokens=True, sents=[[1, 1, 1, 1, 1]], dom="letter", score=k, topk=[1, 2, 3], th=TH[k][:2])
for k in ("frequency", "pmi", "mikolov"):
    add(k + "-times", "two sentences of two words, each 1, 9, 10, 11 or 31 times, minimum 10; score " + k, tokens=True, sents=[[1, 1], [1, 1]], dom="letter", copies=[1, 9, 10, 11, 31], fixed_min=10, score=k, topk=[-1, 1], th=TH[k][:2])
add("filtered-times", "two sentences of two words, each 1, 5 or 12 times, filtered every 1 to 3 sentences", "filtered", tokens=True, sents=[[1, 1], [1, 1]], dom="letter", copies=[1, 5, 12])
add("frequency-long", "a sentence of the two words up to 31 times in a row", tokens=True, sents=[[1, 1]], dom="letter", copies=[1], times=[1, 6, 15, 31], min=True, topk=[-1, 1], th=[0, 2])
