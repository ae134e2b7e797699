"""C23: word-context matrix."""
from soynlp.vectorizer import sent_to_word_contexts_matrix
from harness.common import eojeols, close
from harness.c21 import count, uniq


def windows(S):
    p = S.params
    kw = {"verbose": False}
    if p.get("times"):
        sents = []
        for j, n in enumerate(p["sents"]):
            t = S.text("t%d" % j, n, p["dom"])
            sents += [[t]] * S.choose("n%d" % j, p["times"])
        toks = sents
        kw["tokenizer"] = lambda s: s
    elif p.get("tokens"):
        sents = [[S.text("t%d.%d" % (i, j), n, p["dom"]) for j, n in enumerate(lens)] for i, lens in enumerate(p["sents"])]
        toks = sents
        kw["tokenizer"] = lambda s: s
    else:
        sents = [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]
        toks = [eojeols(s) for s in sents]
    w = S.choose("windows", p["windows"]) if p["windows"] else 3
    if p["windows"]:
        kw["windows"] = w
    m = S.int("min_tf", 0, 4) if p.get("min") else 10 if p.get("default") else 1
    if not p.get("default"):
        kw["min_tf"] = m
    dyn = S.flag("dynamic") if p.get("dynamic") else False
    if p.get("dynamic"):
        kw["dynamic_weight"] = dyn
    x, voc = sent_to_word_contexts_matrix(sents, **kw)
    S.observe(len(voc))
    every = [t for s in toks for t in s]
    terms = uniq(every)
    held = 0
    for t in terms:
        if count(t, every) >= m:
            S.check(t in voc, "a frequent word is in the vocabulary")
            held += 1
            S.reach("kept")
        else:
            S.check(t not in voc, "a rare word is not in the vocabulary")
            S.reach("rare")
    S.check(held == len(voc), "the vocabulary holds words of the sentences only, once each")
    fs = [count(t, every) for t in voc]
    for a, b in zip(fs, fs[1:]):
        S.check(a >= b, "decreasing frequency")
    n = len(voc)
    S.check(x.shape[0] == n and x.shape[1] == n, "vocabulary by vocabulary")
    a = x.toarray()
    for i in range(n):
        for j in range(n):
            want = 0
            for s in toks:
                for k in range(len(s)):
                    for l in range(len(s)):
                        d = abs(k - l)
                        if 1 <= d and d <= w and s[k] == voc[i] and s[l] == voc[j]:
                            want += (w - d + 1) / w if dyn else 1
            if want > 0:
                S.reach("cell")
            S.check(close(S, a[i, j], want), "co-occurrences within the window")
            S.check(close(S, a[i, j], a[j, i]), "symmetric")
    S.reach("done")


OBLIGATIONS = []


def add(name, bound, tier="quick", expect=("done", "cell"), **params):
    params.setdefault("windows", [1, 2, 3])
    OBLIGATIONS.append({"name": name, "fn": "windows", "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


add("tokens-3", "a sentence of 3 one-letter words, windows 1 to 3, both weightings", tokens=True, sents=[[1, 1, 1]], dom="letter", dynamic=True)
add("tokens-4", "a sentence of 4 one-letter words, windows 1 to 3, both weightings, every minimum frequency", tokens=True, sents=[[1, 1, 1, 1]], dom="letter", dynamic=True, min=True)
add("tokens-2-2", "sentences of 2 and 2 words, windows 1 and 2, every minimum frequency", tokens=True, sents=[[1, 1], [1, 1]], dom="letter", windows=[1, 2], min=True, expect=("done", "cell", "rare"))
add("tokens-3-0-2", "sentences of 3, 0 and 2 words of lengths 1 and 2, window 2, both weightings", tokens=True, sents=[[1, 2, 1], [], [1, 2]], dom="letter", windows=[2], dynamic=True)
add("tokens-default", "a sentence of 5 words with the default window, weighting", tokens=True, sents=[[1, 1, 2, 1, 1]], dom="letter", windows=[])
add("tokens-rare", "sentences of 2 words with the default minimum frequency", tokens=True, sents=[[1, 1], [1]], dom="letter", default=True, expect=("done", "rare"))
add("text-4", "a sentence of 4 characters: letters and white space; windows 1 to 3, both weightings", sents=[4], dom="sent", dynamic=True, min=True)
add("text-2-3", "sentences of 2 and 3 characters: letters and white space", sents=[2, 3], dom="sent", windows=[2], min=True)
add("tokens-5", "a sentence of 5 words, windows 1 to 4, both weightings", "thorough", tokens=True, sents=[[1, 1, 1, 1, 1]], dom="letter", windows=[1, 2, 3, 4], dynamic=True)
add("text-5", "a sentence of 5 characters", "thorough", sents=[5], dom="sent", dynamic=True, min=True)
add("times-2", "two words of one letter, each the sentence of 1, 9, 10, 11, 30 or 400 sentences", times=[1, 9, 10, 11, 30, 400], sents=[1, 1], windows=[1], dom="letter", expect=("done",))
add("times-min", "two words of one letter, each the sentence of 10, 30, 49, 50, 51 or 52 sentences, minimum frequency 10", times=[10, 30, 49, 50, 51, 52], sents=[1, 1], windows=[1], dom="letter", default=True, expect=("done",))
