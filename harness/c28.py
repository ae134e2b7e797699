"""C28: PredicatorExtractor, EomiExtractor, StemExtractor."""
import math
from soynlp.lemmatizer import conjugate, lemma_candidate, _conjugate_stem
from soynlp.predicator import PredicatorExtractor, EomiExtractor, StemExtractor
from soynlp.utils import EojeolCounter, LRGraph
from harness.common import eojeols, splits, add_pair, graph_equals


def distinct(S, ws):
    for i in range(len(ws)):
        for j in range(i):
            if len(ws[i]) == len(ws[j]):
                S.assume(S.not_(S.eq(ws[i], ws[j])))
    return ws


def words(S, key, dom=None):
    """distinct symbolic words; p[key] lists (length, domain) or a constant string"""
    out = []
    for i, x in enumerate(S.params.get(key, ())):
        out.append(x if isinstance(x, str) else S.text("%s%d" % (key, i), x[0], x[1]))
    return distinct(S, out)


def counted(S):
    """eojeols with symbolic counts, and a counter of them"""
    p = S.params
    ws = words(S, "words")
    cs = [S.int("n%d" % i, 1, p.get("hi", 2500)) for i in range(len(ws))]
    c = EojeolCounter()
    for w, n in zip(ws, cs):
        c._counter[w] = n
    c._set_count_sum()
    return ws, cs, c


def analyses(w, stems, endings):
    out = set()
    for i in range(1, len(w) + 1):
        for stem, ending in lemma_candidate(w[:i], w[i:]):
            if stem in stems and ending in endings:
                out.add((stem, ending))
    return out


def hangul(w):
    for c in w:
        if not ("가" <= c and c <= "힣"):
            return False
    return True


def predicates(S):
    p = S.params
    ws, cs, counter = counted(S)
    verbs, adjs, endings = words(S, "verbs"), words(S, "adjs"), words(S, "endings")
    distinct(S, verbs + adjs)
    nouns, josas = words(S, "nouns"), words(S, "josas") or ["\u2603"]
    stems = verbs + adjs
    ex = PredicatorExtractor(set(nouns), set(josas), set(adjs), set(verbs), set(endings), verbose=bool(p.get("verbose")))
    mine = S.int("min.eojeol", 1, p.get("hi", 2500))
    minp = S.int("min.predicator", 1, p.get("hi", 2500))
    if p.get("at") == "once":
        got_a, got_v = ex.train_extract(counter, mine, 100000, None, minp)
    else:
        ex.train(counter, mine)
        got_a, got_v = ex.extract(None, minp)

    # what is a noun and the beginning of a stem is not taken for a noun
    known = [x for x in nouns if not any(x == s[:-1] or x == s[:-2] for s in stems)]
    want = {}
    for w, n in zip(ws, cs):
        if n < mine or n < minp or not hangul(w):
            continue
        if any(w[:i] in known and w[i:] in josas for i in range(1, len(w))):
            continue
        found = analyses(w, stems, endings)
        if len(found) > 0:
            want[w] = (n, found)
    gone = []
    for e in endings:
        if len(e) > 2:
            continue
        ends = [w for w, (n, found) in want.items() if any(x[1] == e for x in found)]
        # the words of an ending are counted once for every analysis
        every = [w for w, (n, found) in want.items() for x in found if x[1] == e]
        two = [w for w in every if len(w) == 2]
        if len(two) == 0 or 2 * len([w for w in two if w in known]) < len(two):
            continue
        if len(two) == len(every):
            gone += [(w, e) for w in ends]
        else:
            gone += [(w, e) for w in ends if len(w) == 2 and w in known or len(w) == 3 and len(e) == 2]
        S.reach("nounlike")
    total = 0
    for w, (n, found) in want.items():
        left = [x for x in found if (w, x[1]) not in gone]
        v = set(x for x in left if x[0] in verbs)
        a = set(x for x in left if x[0] not in verbs)
        for got, part, kind in ((got_v, v, "verb"), (got_a, a, "adjective")):
            if len(part) > 0:
                S.check(w in got, "a %s of the corpus is found" % kind)
                S.check_eq(got[w].frequency, n, "its frequency is its count")
                S.check(got[w].lemma == part, "its lemmas are its analyses by known stems and endings")
                S.reach(kind)
            else:
                S.check(w not in got, "no %s without an analysis" % kind)
    for got in (got_a, got_v):
        for w in got:
            S.check(w in want, "every predicate is an eojeol of the corpus that may be one")
    S.observe(len(got_a), len(got_v))
    S.reach("done")


def training(S):
    """what is counted, from each kind of input"""
    p = S.params
    mine = p["min"]
    kw = dict(josas={"\u2603"}, adjectives=set(), verbs={"\u2603"}, eomis=set(), verbose=False)
    ex = PredicatorExtractor(set(), **kw)
    want = {}
    if p["of"] == "sentences":
        sents = [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]
        for s in sents:
            for e in eojeols(s):
                want[e] = want.get(e, 0) + 1
        ex = PredicatorExtractor(set(), ensure_normalized=True, **kw)
        ex.train(sents, mine)
    else:
        ws, cs, counter = counted(S)
        for w, n in zip(ws, cs):
            want[w] = n
        ex.train(counter if p["of"] == "counter" else counter.to_lrgraph(), mine)
    want = {w: n for w, n in want.items() if n >= mine}
    got = {w: n for w, n in ex.eojeol_counter.items()}
    S.observe(sorted(got.values()))
    S.check(len(got) == len(want), "the eojeols that reach the minimum count")
    for w, n in want.items():
        S.check(w in got, "the eojeols that reach the minimum count")
        S.check_eq(got[w], n, "counts of the eojeols")
        S.reach("counted")
    S.reach("done")


def surfaces_of(stems):
    out = set()
    for s in stems:
        out |= set(_conjugate_stem(s))
    return out


def spec_graph(es):
    """{eojeol: count} -> {left: {right: count}}"""
    g = {}
    for w, n in es.items():
        for l, r in splits(w, 10, 9):
            add_pair(g, l, r, n)
    return g


def longer(l, r, surfaces):
    return any(l + r[:i] in surfaces for i in range(1, len(r) + 1))


def judge(left, r, surfaces, nouns, minscore, minfeatures):
    """(support, score) of an ending by what it is seen with: {left part: count}"""
    pos, neg, unk, features = 0, 0, 0, 0
    for l, n in left.items():
        if l in surfaces and not longer(l, r, surfaces):
            features += 1
        if l + r in nouns or longer(l, r, surfaces):
            continue
        if l in surfaces or l[0] in nouns and l[1:] in surfaces:
            pos += n
        elif any(l[i:] in surfaces for i in range(1, len(l))):
            unk += n
        else:
            neg += n
    if features < minfeatures:
        return 0, 0
    score = 0 if pos + neg == 0 else (pos - neg) / (pos + neg)
    return (pos + unk if score >= minscore else neg + unk), score


def rights(es):
    out = {}
    for w, n in es.items():
        for l, r in splits(w, 10, 9):
            if len(r) > 0:
                out.setdefault(r, {})[l] = n
    return out


def endings(S):
    p = S.params
    ws, cs, counter = counted(S)
    stems, nouns = words(S, "stems"), words(S, "nouns")
    minscore, minfreq, minfeatures = S.real("min.score", 0, 1), S.int("min.frequency", 1, 2 * p.get("hi", 2500)), p["features"]
    S.assume(minscore > 0)
    es = {w: n for w, n in zip(ws, cs)}
    graph = counter.to_lrgraph()
    ex = EomiExtractor(graph, set(stems), set(nouns), minfeatures, verbose=False)
    got = ex.extract(None, minscore, minfreq)

    surfaces = surfaces_of(stems)
    start = rights(es)
    left = dict(es)
    good = {}
    cands = [r for r, ls in start.items() if any(l in surfaces for l in ls)]
    for r in sorted(cands, key=lambda x: -len(x)):
        now = rights(left).get(r, {})
        support, score = judge(now, r, surfaces, nouns, minscore, minfeatures)
        if score >= minscore:
            good[r] = score
            S.reach("surface")
            # what it explains is no evidence for its suffixes
            for l in now:
                if l in surfaces or l[0] in nouns and l[1:] in surfaces:
                    left.pop(l + r)
    want = {}
    for r, score in good.items():
        for l, n in start[r].items():
            for stem, ending in lemma_candidate(l, r):
                if stem in stems:
                    a, b = want.get(ending, (0, 0))
                    want[ending] = (a + n, b + n * score)
    m = 0
    for e, (n, x) in want.items():
        if n >= minfreq:
            m += 1
            S.check(e in got, "every ending of enough occurrences is extracted")
            S.check_eq(got[e].frequency, n, "its frequency is that of its analyses in the corpus")
            S.check(S.close(got[e].score * n, x), "its score is the mean of those of its surfaces")
            S.check(got[e].score >= minscore, "its score reaches the minimum")
            S.reach("some")
    S.check(len(got) == m, "nothing else is extracted")
    S.observe(len(got), len(good))
    graph_equals(S, graph, spec_graph(es), "the graph is as it was")
    S.reach("done")


JOSA = ("거나", "게", "게는", "게도", "고", "고도", "고만", "는", "다", "다가", "서는", "아", "은")


def entropy(counts):
    total = sum(counts)
    h = 0.0
    for n in counts:
        h -= n / total * math.log(n / total)
    return h if len(counts) > 1 else 0


def stems(S):
    p = S.params
    ws = words(S, "words")
    cs = [S.choose("n%d" % i, p["counts"]) for i in range(len(ws))]
    es = {w: n for w, n in zip(ws, cs)}
    counter = EojeolCounter()
    for w, n in es.items():
        counter._counter[w] = n
    graph = counter.to_lrgraph()
    known, eomis = words(S, "stems"), words(S, "endings")
    minscore, minfreq, minchars, minent = p["score"], p["frequency"], p["chars"], p["entropy"]
    ex = StemExtractor(graph, set(known), set(eomis), minchars, minent, verbose=False)
    got = ex.extract(None, minscore, minfreq)

    L, R = set(), set()
    for s in known:
        for e in eomis:
            for w in conjugate(s, e):
                if w in es and len(w) > len(s):
                    L.add(w[:len(s)])
                    R.add(w[len(s):])
    pairs = spec_graph(es)
    cands = []
    for l, rs in pairs.items():
        if l in L or len(l) == 1 or l[-1] == "다" or l in R:
            continue
        n = 0
        for r, c in rs.items():
            if r in R:
                n += c
        if n >= minfreq and n > 0:
            cands.append(l)

    def predicate(r):
        return any(r[:i] in L and r[i:] in R for i in range(1, len(r)))

    def part(l, r):
        return any(l[len(l) - i:] + r in R for i in range(1, len(l) + 1))

    good = {}
    for l in cands:
        pos, neg, unk = 0, 0, 0
        clear = []
        first = set()
        for r, n in pairs[l].items():
            if len(r) > 0:
                first.add(r[0])
            if r in JOSA:
                continue
            if len(r) == 0:
                neg += n
                continue
            if r in R:
                pos += n
                if not predicate(r) and not part(l, r):
                    clear.append(n)
            elif predicate(r) or part(l, r):
                neg += n
            else:
                unk += n
        score = (pos - neg) / (pos + neg) if pos + neg > 0 else 0
        if len(first) < minchars or entropy(clear) < minent:
            continue
        if score >= minscore and pos >= minfreq:
            good[l] = score
            S.reach("surface")

    def compound(l):
        for i in range(1, len(l)):
            if l[:i] in L or l[:i] in good:
                for j in range(i + 1, len(l) + 1):
                    if l[i:j] in R:
                        return True
        return any(l[:i] in good for i in range(2, len(l)))

    want = {}
    for l, score in good.items():
        if compound(l):
            S.reach("compound")
            continue
        for r, n in pairs[l].items():
            for stem, ending in lemma_candidate(l, r):
                if ending in eomis:
                    a, b = want.get(stem, (0, 0))
                    want[stem] = (a + n, b + n * score)
    S.check(len(got) == len(want), "the stems of the surfaces that reach the limits, with a known ending, and no others")
    for s, (n, x) in want.items():
        S.check(s in got, "the stems of the surfaces that reach the limits")
        S.check_eq(got[s][0], n, "the frequency of a stem is that of its analyses in the corpus")
        S.check(S.close(got[s][1] * n, x), "the score of a stem is the mean of those of its surfaces")
        S.reach("some")
    S.observe(len(got))
    graph_equals(S, graph, pairs, "the graph is as it was")
    S.reach("done")


def extended(S):
    """predicates by extracted endings and stems"""
    p = S.params
    if p.get("counts"):
        ws = words(S, "words")
        cs = [S.choose("n%d" % i, p["counts"]) for i in range(len(ws))]
        counter = EojeolCounter()
        for w, n in zip(ws, cs):
            counter._counter[w] = n
        counter._set_count_sum()
    else:
        ws, cs, counter = counted(S)
    verbs, adjs, eomis, nouns = words(S, "verbs"), words(S, "adjs"), words(S, "endings"), words(S, "nouns")
    of = p.get("of", "endings")
    ex = PredicatorExtractor(set(nouns), {"\u2603"}, set(adjs), set(verbs), set(eomis), extract_eomi="endings" in of, extract_stem="stems" in of, verbose=False)
    score = p["score"]
    ex.train(counter, 1, min_num_of_features=p.get("features", 1), min_eomi_score=score, min_eomi_frequency=1,
             min_num_of_unique_R_char=1, min_entropy_of_R_char=0, min_stem_score=score, min_stem_frequency=1)
    start = [(w, n) for w, n in zip(ws, cs)]
    heads = [x for x in nouns if not any(x == s[:-1] or x == s[:-2] for s in verbs + adjs)]
    es = EojeolCounter()
    for w, n in start:
        if len(w) > 1 and not any(w[:i] in heads for i in range(2, len(w) + 1)):
            es._counter[w] = n
    every, roots = set(eomis), set(verbs + adjs)
    if "endings" in of:
        every |= set(EomiExtractor(es.to_lrgraph(), set(verbs + adjs), set(heads), p.get("features", 1), verbose=False).extract(None, score, 1))
    if "stems" in of:
        roots |= set(StemExtractor(es.to_lrgraph(), set(verbs + adjs), every, 1, 0, verbose=False).extract(None, score, 1))
    known = getattr(ex, "_eomis", None)
    if known is not None:
        # the part-of-speech extractors report these
        S.check(len(known) == len(every) and all(e in known for e in every), "endings are given or extracted from eojeols that do not begin with a noun")
    got_a, got_v = ex.extract(None, 1)
    S.observe(len(got_a), len(got_v))
    for got, mine, others in ((got_v, verbs, adjs), (got_a, adjs, verbs)):
        for w, pred in got.items():
            S.check(any(w == x for x in ws), "a predicate is an eojeol of the corpus")
            S.check(len(pred.lemma) > 0, "a predicate has a lemma")
            for x, n in start:
                if w == x:
                    S.check_eq(pred.frequency, n, "its frequency is its count")
            for s, e in pred.lemma:
                S.check(s in mine or s in roots and s not in others, "its stem is given or extracted")
                S.check(e in every, "its ending is given or extracted")
                S.check(w in conjugate(s, e), "it is a form of its stem and ending")
                if e not in eomis or s not in verbs and s not in adjs:
                    S.reach("new")
    for w, n in start:
        found = analyses(w, roots, every) if hangul(w) and len(nouns) == 0 else set()
        if len(found) > 0:
            S.check(w in got_a or w in got_v, "an analysed eojeol is a predicate")
            for got, mine, kind in ((got_v, verbs, "verb"), (got_a, adjs, "adjective")):
                if any(x[0] in mine for x in found):
                    S.check(w in got, "it is listed by the dictionary its stem is in: " + kind)
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


def block(*cs):
    return [[(ord(c), ord(c) + 27)] for c in cs]


def chars(cs):
    return [(ord(c), ord(c)) for c in sorted(cs)]


SYL = (1, "syl")
add("predicates-verb", "predicates", "an eojeol of 2 syllables, a verb, an adjective (갚), an ending", words=[(2, block("가", "아"))], verbs=[SYL], adjs=["갚"], endings=[SYL], expect=("done", "verb", "adjective"))
add("predicates-adj", "predicates", "an eojeol of 2 syllables, an adjective, a verb (간), an ending", words=[(2, block("가", "아"))], verbs=["간"], adjs=[SYL], endings=[SYL], expect=("done", "verb", "adjective"))
add("predicates-nouns", "predicates", "an eojeol of 2 syllables, a noun, a verb, a josa, an ending", words=[(2, block("가", "고"))], verbs=[SYL], endings=[SYL], nouns=[(1, "syl")], josas=[SYL], expect=("done", "verb"))
add("predicates-once", "predicates", "two eojeols of 2 and 3 syllables, a verb, an adjective, an ending; trained and extracted in one", words=[(2, block("가", "고")), (3, [chars("가"), chars("나고"), chars("가고")])], verbs=["가"], adjs=["가나"], endings=[SYL], at="once", expect=("done", "verb"))
add("predicates-none", "predicates", "no eojeols, with messages", verbs=[SYL], endings=[SYL], verbose=True)
FEW = chars("가고곤")
for i, (ws, ns) in enumerate((((2, 2), 1), ((2, 3), 1), ((2, 2, 3), 1))):
    add("predicates-nounlike-%d" % i, "predicates", "eojeols of %s syllables, %d nouns, a verb, two endings" % (ws, ns), "quick" if i < 2 else "thorough", words=[(n, [FEW] * n) for n in ws], verbs=["가"], endings=["고", "고고"], nouns=[(2, [FEW] * 2)] * ns, hi=2, expect=("done", "verb", "nounlike"))
add("predicates-nounlike-two", "predicates", "eojeols of 2 and 3 syllables, a noun, two verbs, one a form of the other", words=[(2, [FEW] * 2), (3, [FEW] * 3)], verbs=["가", "가고"], endings=["고", "고고"], nouns=[(2, [FEW] * 2)], hi=2, expect=("done", "verb", "nounlike"))
add("predicates-nounlike-lemmas", "predicates", "3 eojeols of 2 syllables, two of their analyses, a noun", words=[(2, [chars("가간오"), chars("다")])] * 3, verbs=["가", "간"], endings=["ㄴ다", "다"], nouns=[(2, [chars("가간"), chars("다")])], hi=2, expect=("done", "verb", "nounlike"))
add("predicates-both", "predicates", "an eojeol of 2 syllables that is both a verb and an adjective, an ending", words=[(2, block("가", "다"))], verbs=["가"], adjs=["간"], endings=["ㄴ다", SYL], expect=("done", "verb", "adjective"))
for of in ("counter", "graph"):
    for mine in (1, 3, 12, 1000):
        add("training-%s-%d" % (of, mine), "training", "3 eojeols of 1 to 3 syllables counted up to 2500 times, minimum %d" % mine, of=of, min=mine, hi=2500, words=[(1, "letter"), (2, "letter"), (3, "letter")], expect=("done", "counted"))
for mine in (1, 2, 3):
    add("training-sentences-%d" % mine, "training", "two sentences of 3 characters, minimum %d" % mine, of="sentences", min=mine, dom="sent", sents=[3, 3], expect=("done", "counted") if mine < 3 else ("done",))
SF = chars("가나")
A = [chars("가간고")]
add("endings-1", "endings", "3 eojeols of 2 or 3 of two syllables, a stem, a noun, one feature", "thorough", features=1, words=[(2, [SF] * 2), (2, [SF] * 2), (3, [SF] * 3)], stems=[(1, A)], nouns=[(1, [SF])], hi=3, expect=("done", "surface", "some"))
add("endings-noun", "endings", "2 eojeols of 2 or 3 of two syllables, a stem, a noun, one feature", features=1, words=[(2, [SF] * 2), (3, [SF] * 3)], stems=[(1, A)], nouns=[(1, [SF])], hi=3, expect=("done", "surface", "some"))
add("endings-2", "endings", "3 eojeols of 2 or 3 of few syllables, a stem, two features", features=2, words=[(2, [chars("가간"), SF]), (2, [chars("가간"), SF]), (3, [chars("가간"), SF, chars("나")])], stems=["가"], hi=3, expect=("done", "surface", "some"))
add("endings-two", "endings", "2 eojeols of 2 or 3 of four syllables, two stems", features=1, words=[(2, A + [chars("고나")]), (3, A + [chars("고나")] * 2)], stems=["가", (1, A)], hi=3, expect=("done", "surface", "some"))
T = [chars("고서")]
SP = [chars("가나")]
LAST = [chars("서며다")]
G = dict(score=0.7, frequency=1, chars=1, entropy=0, counts=[1, 2])
KNOWN = dict(words=["가서", (3, SP * 2 + LAST), (3, SP + [chars("나")] + LAST)], stems=["가"], endings=["서", "며"])
add("stems-1", "stems", "a known verb form and an eojeol of 3 syllables (any two, 서 or 며 or 다), one ending", words=["가서", (3, ["syl", "syl"] + LAST)], stems=["가"], endings=["서"], expect=("done", "surface", "some"), **G)
add("stems-2", "stems", "a known verb form and 2 eojeols of 3 of a few syllables, two endings", expect=("done", "surface", "some"), **KNOWN, **G)
add("stems-ending", "stems", "a known verb form and an eojeol of 3 syllables, any ending", words=["가서", (3, ["syl", chars("나다")] + LAST)], stems=["가"], endings=["서", SYL], expect=("done", "surface", "some"), **dict(G, counts=[1]))
for k, v in (("score", 0), ("frequency", 3), ("chars", 2), ("entropy", 0.65)):
    add("stems-" + k, "stems", "one or two known verb forms and 2 eojeols of 3 of a few syllables, minimum %s %s" % (k, v), expect=("done",) if k == "frequency" else ("done", "surface", "some"), **dict(KNOWN, words=["가며"] * (k == "entropy") + KNOWN["words"]), **dict(G, **{"counts": [1] if k == "entropy" else [1, 3], k: v}))
add("stems-compound", "stems", "stems that contain a stem and an ending, or another stem", words=["가서", (3, SP + [chars("나서")] + LAST), (4, [chars("나")] + [chars("나서")] * 2 + LAST)], stems=["가"], endings=["서", "며"], expect=("done", "surface", "compound"), **dict(G, counts=[1]))
add("extended", "extended", "3 eojeols of 2 or 3 of two syllables, a verb, an ending, a noun", "thorough", words=[(2, A + [chars("고나")]), (2, A + [chars("고나")]), (3, A + [chars("고나")] * 2)], verbs=["가"], endings=["고"], nouns=[(2, [chars("가"), chars("고나")])], score=0.3, hi=2, expect=("done", "new"))
add("extended-adj", "extended", "2 eojeols of 2 or 3 of a few syllables, a verb, an adjective", words=[(2, A + [chars("고나")]), (3, A + [chars("고나")] * 2)], verbs=["가"], adjs=[(1, [chars("간나")])], endings=["고"], score=0.3, hi=2, expect=("done", "new"))
add("extended-both", "extended", "2 eojeols of 2 or 3 of a few syllables, a verb and an adjective of common forms", words=[(2, [chars("가간"), chars("다고")]), (3, [chars("가간"), chars("다고"), chars("다고")])], verbs=["가"], adjs=["간"], endings=["고"], score=0.3, hi=2, expect=("done", "new"))
for i, of in enumerate(("stems", "endings, stems")):
    add("extended-%d" % i, "extended", "a known verb form and 2 eojeols of 3 of a few syllables; %s extracted" % of, "quick" if i == 0 else "thorough", of=of, words=["가서", (3, SP * 2 + LAST), (3, SP + [chars("나")] + LAST)], verbs=["가"], endings=["서", "며"], score=0.7, counts=[1], expect=("done", "new"))
add("endings-longer", "endings", "2 eojeols of a stem and an ending, one of them a longer stem's, and one of another left part", features=1, words=["가이고", "나이고", (3, [chars("가나다"), chars("이고"), chars("고")])], stems=["가", "나", "가이"], hi=3, expect=("done", "surface", "some"))
add("extended-noun", "extended", "2 eojeols of 2 of a few syllables, one may be a noun, two stems, two features", words=[(2, [chars("가나"), chars("다고")]), (2, [chars("가나"), chars("다고")])], verbs=["가", "나"], endings=["고"], nouns=[(2, [chars("가나라"), chars("다")])], features=2, score=0.3, hi=2, expect=("done", "new"))
