"""C12: NounLMatchTokenizer and NounMatchTokenizer."""
from soynlp.tokenizer import NounLMatchTokenizer, NounMatchTokenizer
from harness.common import eojeols, join, dictionary, member, maxscore, shaped, shape_name


def lmatch(S):
    p = S.params
    nouns = [(k, v) for k, v in dictionary(S, "w", p["lens"])]
    s = shaped(S, p["shape"], [k for k, v in nouns]) if "shape" in p else S.text("s", p["n"], p["dom"])
    if p["form"] == "dict":
        t = NounLMatchTokenizer({k: v for k, v in nouns})
    else:
        t = NounLMatchTokenizer({k for k, v in nouns})
    got = t.tokenize(s)
    units = t.tokenize(s, compose_compound=False)
    S.observe(s, got, units)
    want = []
    for e in eojeols(s):
        chain = []
        pos = 0
        while pos < len(e):
            step = 0
            for r in range(len(e) - pos, 0, -1):
                if member(S, nouns, e[pos:pos + r]):
                    step = r
                    break
            if step == 0:
                break
            chain.append(e[pos:pos + step])
            pos += step
        want.append(chain)
    flat = [w for c in want for w in c]
    S.check_eq(got, [join(c) for c in want if len(c) > 0], "compounds of the leading nouns")
    S.check_eq(units, flat, "leading nouns one by one")
    S.check_eq(t(s), got, "calling tokenizes")
    if len(flat) > len(got):
        S.reach("compound")
    if len(got) < len(want):
        S.reach("none")
    S.reach("tokens")


def match(S):
    p = S.params
    entries = dictionary(S, "w", p["lens"], lo=p["lo"])
    s = shaped(S, p["shape"], [k for k, v in entries]) if "shape" in p else S.text("s", p["n"], p["dom"])
    t = NounMatchTokenizer({k: v for k, v in entries})
    got = t.tokenize(s, flatten=False)
    single = t.tokenize(s, flatten=False, compose_compound=False)
    S.observe(s, [[list(w) for w in words] for words in got], [[list(w) for w in words] for words in single])
    eo = eojeols(s)
    S.check(len(got) == len(eo), "one list per eojeol")
    S.check(len(single) == len(eo), "one list per eojeol")
    for e, a, b in zip(eo, got, single):
        words = [w for w in maxscore(S, entries, 0.0, 10, e) if w[3] > 0]
        S.check(len(b) == len(words), "the nouns the max-score rule selects")
        for x, y in zip(b, words):
            S.check_eq((x[0], x[1], x[2], x[4]), (y[0], y[1], y[2], y[4]), "noun and its position")
            S.check(S.eq(x[3], y[3]), "noun score")
        groups = []
        for w in words:
            if groups and groups[-1][2] == w[1]:
                g = groups[-1]
                groups[-1] = (g[0], g[1], w[2], g[3] + [w[3]])
            else:
                groups.append((w[0], w[1], w[2], [w[3]]))
        S.check(len(a) == len(groups), "adjacent nouns and only those are joined")
        for x, g in zip(a, groups):
            S.check_eq((x[0], x[1], x[2], x[4]), (e[g[1]:g[2]], g[1], g[2], g[2] - g[1]), "compound and its position")
            S.check(S.all_of([x[3] >= v for v in g[3]]), "compound score is the best of its nouns")
            S.check(S.any_of([S.eq(x[3], v) for v in g[3]]), "compound score is the score of one of its nouns")
            S.check(len(x[0]) > 0, "no empty noun")
            if len(g[3]) > 1:
                S.reach("compound")
        if len(groups) > 1:
            S.reach("separated")
    S.check_eq(t.tokenize(s), [w[0] for words in got for w in words], "flattened form")
    S.check_eq(t(s, True, False), [w[0] for words in single for w in words], "flattened form")
    S.reach("tokens")


OBLIGATIONS = []


def ob(fn, n, lens, dom="letter", lo=0, form="set", tier="quick", base=False, expect=()):
    OBLIGATIONS.append({"name": "%s-n%d-%s%s%s%s" % (fn, n, "".join(map(str, lens)), form[0], dom[0], "-neg" if lo else ""), "fn": fn, "tier": tier, "base": base,
                        "params": {"n": n, "lens": list(lens), "dom": dom, "lo": lo, "form": form},
                        "bound": "sentence of %d characters, nouns of lengths %s" % (n, list(lens)), "expect": ["tokens"] + list(expect)})


ob("lmatch", 0, [1])
ob("lmatch", 2, [1, 2], dom="sent", base=True, expect=["compound", "none"])
ob("lmatch", 4, [1, 2], dom="sent", base=True, expect=["compound", "none"])
ob("lmatch", 4, [1, 2, 3], form="dict", expect=["compound", "none"])
ob("lmatch", 5, [2, 3], dom="sent", expect=["compound", "none"])
ob("lmatch", 5, [2, 2, 1], form="dict", expect=["compound", "none"])
ob("lmatch", 6, [2, 3, 4], expect=["compound", "none"])
ob("lmatch", 6, [2, 3, 1], dom="sent", tier="thorough", expect=["compound", "none"])
ob("match", 0, [1])
ob("match", 2, [1, 2], dom="sent", base=True)
ob("match", 4, [2, 2], dom="sent", base=True, expect=["compound"])
ob("match", 3, [1, 2], lo=-1, expect=["compound"])
ob("match", 5, [2], expect=["compound", "separated"])
ob("match", 5, [2, 3], dom="sent", expect=["compound", "separated"])
ob("match", 6, [2, 1], expect=["compound", "separated"])
ob("match", 7, [2], expect=["compound", "separated"])
ob("match", 6, [2, 2], tier="thorough", dom="sent", expect=["compound", "separated"])


def shape(fn, parts, lens, form="set", lo=0, tier="quick", expect=()):
    OBLIGATIONS.append({"name": "%s-%s-%s%s%s" % (fn, shape_name(parts), "_".join(map(str, lens)), form[0], "-neg" if lo else ""), "fn": fn, "tier": tier,
                        "params": {"shape": parts, "lens": list(lens), "form": form, "lo": lo},
                        "bound": "sentence %s of nouns and other text, nouns of lengths %s" % (shape_name(parts), list(lens)), "expect": ["tokens"] + list(expect)})


shape("lmatch", [0, 1, 0, 1, [2]], [2, 3], expect=["compound"])
shape("lmatch", [0, 0, 0, 0, 0, [1]], [2], "dict", expect=["compound"])
shape("lmatch", [0, [2], " ", 1, 0, " ", [2], 1], [2, 4], expect=["compound", "none"])
shape("lmatch", [0, 1, [2]], [7, 12], expect=["compound"])
shape("lmatch", [1, [1], " ", 0], [2, 13])
shape("match", [0, 0, 0, 0], [2], expect=["compound"])
shape("match", [0, 1, [1], 0], [2, 3], expect=["compound", "separated"])
shape("match", [0, [1], " ", 0, 0, " ", [1], 0], [3], expect=["compound"])
shape("match", [0, [1]], [10])
