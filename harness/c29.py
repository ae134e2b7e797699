"""C29: LRNounExtractor_v2, its post-processing and domain features."""
import math
from soynlp.normalizer import normalize_sent_for_lrgraph
from soynlp.noun import LRNounExtractor_v2, extract_domain_pos_features
from soynlp.noun._noun_postprocessing import detaching_features, ignore_features, check_N_is_NJ, josaset, suffixset
from soynlp.utils import EojeolCounter, LRGraph
from harness.common import eojeols, splits, add_pair, graph_equals, maxscore


def distinct(S, ws):
    for i in range(len(ws)):
        for j in range(i):
            if len(ws[i]) == len(ws[j]):
                S.assume(S.not_(S.eq(ws[i], ws[j])))
    return ws


def words(S, key):
    return distinct(S, [x if isinstance(x, str) else S.text("%s%d" % (key, i), x[0], x[1]) for i, x in enumerate(S.params.get(key, ()))])


def extractor(S, pos, neg, common, **kw):
    """an extractor with the given features, read from files"""
    head = S.path("features")
    S.write_file("features_pos", "".join([w + "\n" for w in pos + common]))
    S.write_file("features_neg", "".join([w + "\n" for w in neg + common]))
    ex = LRNounExtractor_v2(predictor_headers=head if len(pos) == 1 else [head], verbose=bool(S.params.get("verbose")), **kw)
    S.check(ex._pos_features == set(pos) and ex._neg_features == set(neg) and ex._common_features == set(common), "features in both files are common, the others are positive or negative")
    return ex


def features(S):
    pos, neg, common = words(S, "pos"), words(S, "neg"), words(S, "common")
    distinct(S, pos + neg + common)
    return pos, neg, common


def filing(S):
    """features of many lengths, some in both files"""
    pos, neg, common = features(S)
    extractor(S, pos, neg, common)
    S.reach("done")


def reaches(word, r, fs):
    """a longer feature than r that reaches into the word"""
    return any(word[e:] + r in fs for e in range(len(word)))


def judge(S, word, rights, pos, neg, common, least, most, minscore):
    """(support, score) of a word by its right parts {right: count}"""
    P, C, N, U, E = 0, 0, 0, 0, 0
    kinds = 0
    first = set()
    for r, n in rights.items():
        if len(r) == 0:
            E += n
            continue
        lp, ln = reaches(word, r, pos), reaches(word, r, neg)
        if r in pos and not lp or r in neg and not ln:
            kinds += 1
        if not ((r in pos or r in common) and lp):
            first.add(r[0])
        if lp or ln:
            continue
        if r in common:
            C += n
        elif r in pos:
            P += n
        elif r in neg:
            N += n
        else:
            U += n
    score = (P - N) / (P + N) if P + N > 0 else 0
    support = P + E + C if score >= minscore else N + E + C
    if kinds > least:
        S.reach("features")
        return support, score
    total = P + C + N + U + E
    if total == 0:
        return support, 0
    if E > most and P >= N:
        S.reach("frequent")
        return support, score
    if (C > 0 or P > 0) and E / total >= 0.3 and C >= N or len(first) >= 2:
        S.reach("share")
        return P + C + E, (P + C + E) / total
    return support, 0


def predicting(S):
    p = S.params
    pos, neg, common = features(S)
    word = S.text("w", p["w"], p["wdom"])
    rs = words(S, "rights")
    ns = [S.int("n%d" % i, 1, 50) for i in range(len(rs))]
    rights = {r: n for r, n in zip(rs, ns)}
    if p["end"]:
        rights[""] = S.int("end", 1, 50)
    ex = extractor(S, pos, neg, common, min_num_of_features=p["least"])
    ex.train(LRGraph({word: dict(rights)}))
    t = S.real("threshold", -1, 1)
    support, score = ex.predict(word, t)
    want = judge(S, word, rights, pos, neg, common, p["least"], 30, t)
    S.check_eq(support, want[0], "the support")
    S.check(S.close(score, want[1]), "the score")
    S.check(S.all_of([score >= -1, score <= 1]), "the score lies in [-1, 1]")
    total = 0
    for r, n in rights.items():
        total += n
    S.check(S.all_of([support >= 0, support <= total]), "the support counts occurrences of the word")
    again = ex.predict(word, t)
    S.check_eq(again[0], support, "predicting changes nothing")
    S.check(S.close(again[1], score), "predicting changes nothing")
    S.check(len(ex.lrgraph.get_r(word, -1)) == len(rights), "the graph is left alone")
    S.observe(support, score)
    S.reach("done")


def spec_graph(es, lmax=10, rmax=9):
    g = {}
    for w, n in es.items():
        for l, r in splits(w, lmax, rmax):
            add_pair(g, l, r, n)
    return g


def extracting(S):
    p = S.params
    pos, neg, common = features(S)
    ws = words(S, "words")
    cs = [S.int("n%d" % i, 1, p.get("hi", 3)) for i in range(len(ws))]
    es = {w: n for w, n in zip(ws, cs)}
    counter = EojeolCounter()
    for w, n in es.items():
        counter._counter[w] = n
    counter._set_count_sum()
    post = p.get("post")
    ex = extractor(S, pos, neg, common, min_num_of_features=p["least"], extract_compound=p.get("compound", False), max_frequency_when_noun_is_eojeol=p.get("most", 30),
                   postprocessing=post)
    minx, minf = (p["score"] if "score" in p else S.real("min.score", -1, 1)), S.int("min.frequency", 1, p.get("hi", 3) + 1)
    S.assume(minx > 0)
    # the graph itself, or the counter it is made from
    pairs = spec_graph(es)
    if p.get("keep"):
        ex.train(counter)
        got = ex.extract(minx, minf, reset_lrgraph=False)
    else:
        got = ex.train_extract(counter.to_lrgraph(), minx, minf)

    cands = [l for l in pairs if any(r in pos for r in pairs[l])]
    left = dict(es)
    scores = {}
    for w in sorted(cands, key=lambda x: -len(x)):
        rights = spec_graph(left).get(w, {})
        scores[w] = judge(S, w, rights, pos, neg, common, p["least"], p.get("most", 30), minx)
        if scores[w][1] >= minx:
            for r in rights:
                left.pop(w + r)
    compounds = {}
    if p.get("compound"):
        entries = [(w, len(w)) for w, x in scores.items() if x[1] > minx and len(w) > 1]
        longest = max([len(w) for w, _ in entries]) if entries else 0
        for l in pairs:
            if len(l) < 4 or any(l == w for w, _ in entries) or len(entries) == 0:
                continue
            tokens = maxscore(S, entries, 0, longest, l)
            if any(t[3] <= 0 for t in tokens[:-1]):
                continue
            if len(tokens) >= 3 and tokens[-1][0] in pos:
                tokens = tokens[:-1]
            elif tokens[-1][3] <= 0:
                continue
            noun = ""
            score = -1
            for t in tokens:
                noun = noun + t[0]
                score = scores[t[0]][1] if scores[t[0]][1] > score else score
            old = compounds.get(noun, (0, 0))
            compounds[noun] = (old[0] + es.get(l, 0), score if score > old[1] else old[1])
            S.reach("compound")
    nouns = {w: x for w, x in scores.items() if x[1] >= minx}
    nouns.update(compounds)
    nouns = {w: x for w, x in nouns.items() if x[0] >= minf}
    methods = post if post else ["detaching_features", "ignore_features", "ignore_NJ"]
    if "detaching_features" in methods:
        nouns = {w: x for w, x in nouns.items() if not any(w[:e] in nouns and len(w) - e > 1 and w[e:] in pos for e in range(2, len(w)))}
    if "ignore_features" in methods:
        nouns = {w: x for w, x in nouns.items() if not (w in pos or w in common)}
    # at most four kinds of right parts here: ignore_NJ needs five, see joined()
    S.check(len(got) == len(nouns), "the nouns that reach the minima and no others")
    for w, x in nouns.items():
        S.check(w in got, "every noun that reaches the minima")
        S.check_eq(got[w].frequency, x[0], "its frequency")
        S.check(S.close(got[w].score, x[1]), "its score")
        S.check(S.all_of([got[w].frequency >= minf, got[w].score >= minx, got[w].score <= 1]), "frequency and score reach the minima")
        S.check(w in pairs or w in compounds, "a noun is the left part of eojeols")
        S.reach("some")
    S.observe(len(got), len(scores), len(compounds))
    if p.get("keep"):
        now = dict(es)
        for w in sorted(cands, key=lambda x: -len(x)):
            if w in nouns:
                for r in spec_graph(now).get(w, {}):
                    if len(w) > 1 or len(r) == 0 or r in pos or r in common:
                        now.pop(w + r)
        graph_equals(S, ex.lrgraph, spec_graph(now), "what remains are the eojeols without nouns")
        ex.lrgraph.reset_lrgraph()
    graph_equals(S, ex.lrgraph, pairs, "the graph is as it was")
    if p.get("again"):
        again = ex.extract(minx, minf)
        S.check(len(again) == len(got), "extracting again gives the same nouns")
        for w in got:
            S.check(w in again, "extracting again gives the same nouns")
    S.reach("done")


def training(S):
    """sentences are normalized unless they are said to be"""
    p = S.params
    sents = [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]
    ex = extractor(S, ["x"], [], [], ensure_normalized=p["normalized"])
    ex.train(sents, p["min"])
    want = {}
    for s in sents:
        for e in eojeols(s if p["normalized"] else normalize_sent_for_lrgraph(s)):
            want[e] = want.get(e, 0) + 1
    want = {e: n for e, n in want.items() if n >= p["min"]}
    graph_equals(S, ex.lrgraph, spec_graph(want), "the graph of the eojeols")
    if want:
        S.reach("some")
    S.observe(len(want))
    S.reach("done")


def joined(S):
    """nouns that are a more frequent noun and a particle"""
    p = S.params
    ns = words(S, "nouns")
    nouns = {w: (S.int("n%d" % i, 1, 9), 1.0) for i, w in enumerate(ns)}
    rs = words(S, "rights")
    g = {}
    for w in ns[:p["bases"]]:
        for r in rs:
            g.setdefault(w, {})[r] = 1
    kept, gone = check_N_is_NJ(nouns, LRGraph(g), p["least"])
    josas = 0
    for r in rs:
        if r in josaset:
            josas += 1
    for w, x in nouns.items():
        bad = False
        for i in range(2, len(w)):
            l, r = w[:i], w[i:]
            if r in josaset and r not in suffixset and l in nouns and x[0] < nouns[l][0] and l in g and josas >= p["least"]:
                bad = True
        S.check((w in gone) == bad, "what is dropped is a noun with many particles, and a particle, and rarer")
        S.check((w in kept) == (not bad), "everything else is kept")
        if bad:
            S.reach("gone")
        else:
            S.check_eq(kept[w][0], x[0], "as it is")
    S.check(len(kept) + len(gone) == len(nouns), "every noun is kept or dropped")
    S.reach("done")


def detaching(S):
    nouns = {w: (1, 1.0) for w in words(S, "nouns")}
    fs = set(words(S, "features"))
    kept, gone = detaching_features(nouns, fs)
    for w in nouns:
        bad = any(w[:e] in nouns and len(w) - e > 1 and w[e:] in fs for e in range(2, len(w)))
        S.check((w in gone) == bad and (w in kept) == (not bad), "what is dropped is a noun and a feature of more than a syllable")
        if bad:
            S.reach("gone")
    kept, gone = ignore_features(nouns, fs)
    for w in nouns:
        S.check((w in gone) == (w in fs) and (w in kept) == (w not in fs), "what is dropped is a feature")
    S.reach("done")


def domain(S):
    """right parts of many nouns are new features"""
    p = S.params
    ws = words(S, "words")
    cs = [S.choose("n%d" % i, p["counts"]) for i in range(len(ws))]
    es = {w: n for w, n in zip(ws, cs)}
    pairs = spec_graph(es)
    graph = LRGraph({l: dict(rs) for l, rs in pairs.items()})
    known = set(words(S, "known"))
    ignored = words(S, "ignored")
    scores = {}
    for i, w in enumerate(words(S, "nouns")):
        scores[w] = (5, 0.9) if p.get("fixed") else (S.choose("support%d" % i, [1, 5]), S.choose("score%d" % i, [0.2, 0.9]))
    minn, mins, minp, minf, minc, mine, minh = p["noun"], p["score"], p["pos"], p["frequency"], p["lastchars"], p["lastentropy"], p["nounentropy"]
    got = extract_domain_pos_features(scores, graph, known, ignored or None, mins, minn, minp, minf, minc, mine, minh)
    nouns = [w for w, x in scores.items() if x[0] >= minn and x[1] >= mins]

    def entropy(counts):
        total = sum(counts)
        h = 0.0
        for n in counts:
            h -= n / total * math.log(n / total)
        return h

    cands = {}
    for w in nouns:
        for r, n in pairs.get(w, {}).items():
            if r not in known and r not in ignored:
                cands[r] = cands.get(r, 0) + n
    want = {}
    for r in sorted(cands, key=lambda x: len(x)):
        if cands[r] < minf or r in nouns:
            continue
        lefts = [(l, rs[r]) for l, rs in pairs.items() if r in rs and len(l) > 1 and len(r) > 0]
        last = {}
        for l, n in lefts:
            last[l[-1]] = last.get(l[-1], 0) + n
        if len(last) < minc or entropy(list(last.values())) < mine:
            continue
        P, N, U = 0, 0, 0
        joined = False
        for i in range(1, len(r)):
            if r[:i] in nouns:
                joined = r[i:] in known or r[i:] in want
        for l, n in lefts:
            if joined or any(l + r[:i] in nouns for i in range(1, len(r) + 1)):
                N += n
            elif l in nouns:
                P += n
            else:
                U += n
        score = (P - N) / (P + N) if P + N > 0 else 0
        if score >= minp and P >= minf and entropy([n for l, n in lefts if l in nouns]) >= minh:
            want[r] = (score, P)
    S.check(len(got) == len(want), "the right parts that reach the minima and no others")
    for r, x in want.items():
        S.check(r in got, "every right part that reaches the minima")
        S.check(S.close(got[r][0], x[0]), "its score")
        S.check_eq(got[r][1], x[1], "its frequency")
        S.reach("some")
    S.observe(len(got))
    graph_equals(S, graph, pairs, "the graph is as it was")
    S.reach("done")


def predicted(S, es, pos, neg, common, least, most, minx):
    """the (support, score) of every candidate, longest first, each without the eojeols of those before"""
    pairs = spec_graph(es)
    left = dict(es)
    scores = {}
    for w in sorted([l for l in pairs if any(r in pos for r in pairs[l])], key=lambda x: -len(x)):
        rights = spec_graph(left).get(w, {})
        scores[w] = judge(S, w, rights, pos, neg, common, least, most, minx)
        if scores[w][1] >= minx:
            for r in rights:
                left.pop(w + r)
    return scores


def appending(S):
    """features found in the corpus join the given ones"""
    p = S.params
    pos, neg, common = features(S)
    ws = words(S, "words")
    es = {w: S.choose("n%d" % i, p["counts"]) for i, w in enumerate(ws)}
    counter = EojeolCounter()
    for w, n in es.items():
        counter._counter[w] = n
    counter._set_count_sum()
    pairs = spec_graph(es)
    ex = extractor(S, pos, neg, common, min_num_of_features=p["least"], extract_compound=False, extract_pos_feature=bool(p.get("whole")))
    ex.train(counter)
    minx = 0.3
    scores = predicted(S, es, pos, neg, common, p["least"], 30, minx)
    if p.get("whole"):
        args = (minx, 100, 0.3, 1000, 4, 0.5, 1.5)
    else:
        args = (minx, p["noun"], 0.3, p["frequency"], 1, 0, 0)
    want = extract_domain_pos_features(scores, LRGraph({l: dict(rs) for l, rs in pairs.items()}), set(pos), None, *args)
    if p.get("whole"):
        got = ex.extract(minx)
    else:
        ex.extract_domain_pos_features(None, None, p.get("append", True), *args)
        graph_equals(S, ex.lrgraph, pairs, "the graph is as it was")
    more = set(pos) | set(f for f in want if f not in neg) if p.get("append", True) else set(pos)
    S.check(ex._pos_features == more, "the features found join the positive ones")
    for f in common:
        S.check(f in ex._common_features, "common features stay common")
    for f in want:
        S.reach("found")
        if f in neg and p.get("append", True):
            S.check(f in ex._common_features, "a negative feature found to be positive is common")
            S.reach("common")
    if p.get("whole"):
        final = predicted(S, es, sorted(more), neg, sorted(ex._common_features), p["least"], 30, minx)
        # candidates are those of the given features
        before = [l for l in pairs if any(r in pos for r in pairs[l])]
        for w in got:
            S.check(w in before and w in final, "a noun is a candidate")
        S.reach("whole")
    S.observe(len(want))
    S.reach("done")


def decomposing(S):
    """compound nouns and their parts"""
    p = S.params
    counter = EojeolCounter()
    for w in p["words"]:
        counter._counter[w] = 2
    counter._set_count_sum()
    pos = p["pos"]
    ex = extractor(S, pos, [], [], min_num_of_features=1, extract_compound=True)
    ex.train_extract(counter, 0.3)
    scores = predicted(S, {w: 2 for w in p["words"]}, pos, [], [], 1, 30, 0.3)
    entries = [(w, len(w)) for w, x in scores.items() if x[1] > 0.3 and len(w) > 1]
    word = S.text("w", p["w"], p["wdom"])
    got = ex.decompose_compound(word)
    # the tokenizer knows words of up to ten syllables
    tokens = maxscore(S, entries, 0, 10, word)
    parts = [t[0] for t in tokens]
    if any(t[3] <= 0 for t in tokens[:-1]):
        want = [word]
    elif len(tokens) >= 3 and parts[-1] in pos:
        want = parts[:-1]
        S.reach("particle")
    elif tokens[-1][3] > 0:
        want = parts
        S.reach("parts")
    else:
        want = [word]
    S.check(list(got) == want, "the parts of a compound, or the word")
    S.observe(list(got))
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


def chars(cs):
    return [(ord(c), ord(c)) for c in sorted(cs)]


ONE = (1, "letter")
TWO = (2, "letter")
for i, (rs, end, least) in enumerate((([ONE, ONE], 0, 1), ([ONE, ONE], 1, 1), ([ONE, TWO], 1, 1), ([ONE], 1, 0), ([ONE], 1, 1), ([TWO, TWO], 0, 0))):
    add("predict-%d" % i, "predicting", "a word of 2 letters, right parts of %s letters%s, counts up to 50, a positive, a negative and a common feature, %d needed" % ([r[0] for r in rs], " and none" if end else "", least),
        w=2, wdom="letter", rights=rs, end=end, least=least, pos=[ONE], neg=[ONE], common=[ONE], expect=("done",))
add("predict-three", "predicting", "a word of 2 letters, right parts of 1, 1 and 2 letters and none, counts up to 50", "thorough", w=2, wdom="letter", rights=[ONE, ONE, TWO], end=1, least=1, pos=[ONE, TWO], neg=[ONE], common=[ONE], expect=("done", "features", "share", "frequent"))
add("predict-rights", "predicting", "a word of 2 letters, right parts of 1 and 2 letters and none, counts up to 50", w=2, wdom="letter", rights=[ONE, TWO], end=1, least=1, pos=[ONE], neg=[TWO], common=[ONE], expect=("done", "features", "share", "frequent"))
add("predict-long", "predicting", "a word of 2 letters, right parts of 1 and 2 letters, positive and negative features of 1 and 2 letters", w=2, wdom="letter", rights=[ONE, TWO], end=0, least=0, pos=[ONE, TWO], neg=[(2, "letter")], expect=("done", "features"))
for n in (1, 2, 3, 4, 5, 6, 8):
    add("features-%d" % n, "filing", "four positive, negative and common features of %d letters and the like" % n, pos=[(n, "letter"), (n, "letter"), "aa"], neg=[(n, "letter"), (n, "letter")], common=[(n, "letter"), (n, "letter"), "bb"])
AB = [(97, 98)]
A = chars("a")
XY = chars("xy")
XYZ = chars("xyz")
add("extract-two", "extracting", "two eojeols of 3 characters (a or b, a or b, x or y or z), two positive and a negative feature", words=[(3, [AB, AB, XYZ]), (3, [AB, AB, XYZ])], pos=["x", "y"], neg=["z"], least=1, again=True, expect=("done", "some", "features"))
add("extract-one", "extracting", "two eojeols of 2 and 3 characters, a feature of a character, none needed", words=[(2, [AB, AB]), (3, [AB, AB, AB])], pos=[(1, AB)], least=0, again=True, expect=("done", "some", "features"))
add("extract-keep", "extracting", "two eojeols of 2 and 3 characters, the graph of what remains", words=[(2, [AB, AB]), (3, [AB, AB, AB])], pos=[(1, AB)], least=0, keep=True, expect=("done", "some"))
add("extract-common", "extracting", "three eojeols of a word, a positive, a negative and a common feature", words=["aa", (3, [A, A, XYZ]), (3, [AB, A, XYZ])], pos=["x"], neg=["y"], common=["z"], least=1, most=1, expect=("done", "some", "share", "frequent"))
add("extract-longer", "extracting", "three eojeols of 3, 4 and 4 characters", words=[(3, [A, A, XY]), (4, [A, A, AB, XY]), (4, [A, A, AB, XY])], pos=["x", "y"], least=1, expect=("done", "some"))
for n in (6, 8, 10, 12):
    add("extract-wide-%d" % n, "extracting", "eojeols of %d, %d and %d characters" % (n, n + 1, n + 2), hi=2, words=[(n, [A] * (n - 1) + [XY]), (n + 1, [A] * (n - 1) + [AB, XY]), (n + 2, [A] * n + [AB, chars("x")])], pos=["x", "y"], least=0, score=0.3, expect=("done", "some") if n < 12 else ("done",))
for i, post in enumerate((None, ["detaching_features"], ["ignore_features"], "detaching_features")):
    add("extract-post-%d" % i, "extracting", "eojeols that look like a noun and a feature; post-processing %s" % (post,), words=["aax", "aay", (5, [A, A, AB, XY, XY])], pos=["x", "y", (2, [AB, XY])], least=0 if i else 1, post=post, hi=2, score=0.3, expect=("done", "some"))
C = dict(compound=True, pos=["x", "y"], least=1, score=0.3, hi=2)
add("compound-1", "extracting", "the nouns ab and bb, eojeols of 4 characters", words=["abx", "aby", "bbx", "bby", (4, [AB] * 4)], expect=("done", "some", "compound"), **C)
add("compound-2", "extracting", "the nouns ab and bb, an eojeol of 5 characters", words=["abx", "aby", "bbx", "bby", (5, [AB, chars("b"), AB, AB, XYZ])], expect=("done", "some", "compound"), **C)
add("compound-3", "extracting", "the nouns ab and bb, eojeols of 4 and 5 characters", "thorough", words=["abx", "aby", "bbx", "bby", (4, [AB] * 4), (5, [A, AB, AB, AB, XYZ])], expect=("done", "some", "compound"), **C)
add("extract-none", "extracting", "no eojeols, with messages", pos=["x"], least=1, verbose=True)
for i, norm in enumerate((False, True)):
    for mine in (1, 2):
        add("training-%d-%d" % (i, mine), "training", "two sentences of 3 characters, %s, minimum %d" % ("normalized" if norm else "not normalized", mine), sents=[3, 3] if mine == 2 else [3], dom="sent", normalized=norm, min=mine, expect=("done", "some"))
JO = ["은", "는", "이", "가", "을"]
H = chars("가나은이")
add("joined-1", "joined", "nouns of 2 and 3 syllables, right parts of 4 syllables, two particles needed", nouns=["가나", (3, [H] * 3), (3, [H] * 3)], bases=1, rights=[(1, H), (1, H)], least=2, expect=("done", "gone"))
add("joined-2", "joined", "nouns of 2, 3 and 4 syllables, five particles", nouns=[(2, [H] * 2), (3, [H] * 3), (4, [H] * 4)], bases=2, rights=JO[:4] + [(1, H)], least=5, expect=("done", "gone"))
add("detaching", "detaching", "nouns of 2, 3 and 4 characters, features of 1 and 2", nouns=[(2, "letter"), (3, "letter"), (4, "letter")], features=[(1, "letter"), (2, "letter")], expect=("done", "gone"))
D = dict(noun=2, score=0.3, pos=0.3, frequency=2, lastchars=1, lastentropy=0, nounentropy=0, counts=[1, 3], known=["x"])
add("domain-1", "domain", "three eojeols of 3 and 4 characters, two nouns", words=[(3, [A, AB, XY]), (3, [A, AB, XY]), (3, [A, AB, chars("y")])], nouns=["aa", "ab"], expect=("done", "some"), **D)
add("domain-2", "domain", "two eojeols of 4 characters, two nouns", words=[(4, [A, AB, AB, XY]), (4, [A, AB, AB, XY])], nouns=["aa", (3, [A, AB, AB])], expect=("done", "some"), **D)
add("domain-limits", "domain", "three eojeols of 3 characters, two nouns, two last characters and entropies needed", words=[(3, [AB, AB, XY]), (3, [A, AB, XY]), (3, [A, A, chars("y")])], nouns=["aa", "ab"], ignored=[(1, chars("yz"))], expect=("done", "some"), **dict(D, fixed=True, lastchars=2, lastentropy=0.6, nounentropy=0.5))

N4 = ["abx", "aby", "bax", "bay", "bbax", "bbay"]
for n in (2, 3, 4, 5, 6):
    add("decompose-%d" % n, "decomposing", "any word of %d letters beside the nouns ab, ba and bba" % n, words=N4, pos=["x", "y"], w=n, wdom=AB if n > 4 else chars("abx"), expect=("done",) + (("parts",) if n > 1 else ()) + (("particle",) if n == 5 and 0 else ()))
add("decompose-particle", "decomposing", "any word of 4 letters and a last one beside the nouns ab, ba and bba", words=N4, pos=["x", "y"], w=5, wdom=[AB, AB, AB, AB, chars("bxyz")], expect=("done", "particle"))
AP = dict(noun=2, frequency=2, counts=[1, 3], pos=["x"], least=0)
add("append-1", "appending", "three eojeols of 3 characters", words=[(3, [A, AB, XY]), (3, [A, AB, XY]), (3, [A, AB, chars("y")])], neg=[(1, chars("yz"))], expect=("done", "found"), **AP)
add("append-common", "appending", "two nouns with a positive and a negative feature", words=["aax", "abx", "aay", (3, [A, AB, XYZ])], neg=["y"], expect=("done", "found", "common"), **AP)
add("append-not", "appending", "three eojeols of 3 characters, when features are not to be appended", words=[(3, [A, AB, XY]), (3, [A, AB, XY]), (3, [A, AB, chars("y")])], append=False, expect=("done", "found"), **AP)
ENDS = ["%s%sx" % (a, b) for a in "ab" for b in "cdefg"]
add("append-whole", "appending", "ten nouns with a feature and an eojeol each that may be one", words=ENDS + [(3, [chars(w[0]), chars(w[1]), XY if i == 0 else chars("y")]) for i, w in enumerate(ENDS) if w[0] == "a" or i < 6][:6], counts=[2000], pos=["x"], least=0, whole=True, expect=("done", "whole", "found"))
