"""C33: candidates of the part-of-speech taggers, their evaluation and the choice among them."""
from soynlp.postagger import Dictionary, EojeolTemplateMatcher, LRTemplateMatcher, SimpleEojeolEvaluator, LREvaluator, SimpleTagger, UnknowLRPostprocessor
from soynlp.postagger._template import LR
from harness.common import shaped, shape_name, eojeols

SINGLE = ["Noun", "Verb", "Adjective", "Adverb", "Exclamation"]
PAIRS = [("Noun", "Verb"), ("Noun", "Adjective"), ("Noun", "Josa")]


def dictionary(S):
    words = []
    tags = {}
    for i, (tag, n) in enumerate(S.params["words"]):
        w = S.text("w%d" % i, n, "letter") if isinstance(n, int) else n
        words.append((tag, w))
        tags.setdefault(tag, []).append(w)
    return words, tags, Dictionary(tags)


def known(words, w, tag):
    return any(t == tag and x == w for t, x in words)


def compound(words, e, tag):
    """the shortest known word at every place, but not the whole"""
    out, b = [], 0
    while b < len(e):
        for i in range(b + 1, len(e) + 1):
            if not (b == 0 and i == len(e)) and known(words, e[b:i], tag):
                out.append((e[b:i], tag, "", None, b, i, i))
                b = i
                break
        else:
            return None
    return out


def plain(c):
    return [tuple(x) for x in c]


def same_candidates(S, got, want):
    S.check(len(got) == len(want), "as many candidates as there are")
    for c in want:
        S.check(c in got, "every candidate is generated")
    for c in got:
        S.check(c in want, "nothing else is generated")


def eojeol_candidates(S):
    p = S.params
    words, tags, d = dictionary(S)
    single, pairs = p.get("single", SINGLE), p.get("pairs", PAIRS)
    g = EojeolTemplateMatcher(d, single, pairs) if "pairs" in p else EojeolTemplateMatcher(d)
    e = shaped(S, p["shape"], [w for t, w in words])
    n = len(e)
    want = []
    for tag in tags:
        if tag in single and known(words, e, tag):
            want.append([(e, tag, "", None, 0, n, n)])
            S.reach("whole")
    if not want:
        want.append([(e, None, "", None, 0, n, n)])
        S.reach("unknown")
    for b in range(1, n):
        for x, y in pairs:
            if known(words, e[:b], x) and known(words, e[b:], y):
                want.append([(e[:b], x, e[b:], y, 0, b, n)])
                S.reach("pair")
    for tag in ("Noun", "Adverb"):
        c = compound(words, e, tag)
        if c:
            want.append(c)
            S.reach("compound")
    found = g.generate(e)
    same_candidates(S, [plain(c) for c in found], want)
    ev = SimpleEojeolEvaluator()
    best = ev.select_best(found)
    S.check(plain(best) in want, "the best is a candidate")
    for c in found:
        S.check(ev.evaluate(best) >= ev.evaluate(c) - 1e-9, "no candidate is better")
    out = SimpleTagger(g, ev).tag(e)
    flat = []
    for l, lt, r, rt, b, m, x in plain(best):
        flat.append((l, lt))
        if r:
            flat.append((r, rt))
    S.check_eq(out, flat, "the tagger gives the words of the best candidate")
    S.observe(len(want), out)
    S.reach("done")


def weighing(S):
    """the evaluation of a candidate is the sum of the weights of its features"""
    p = S.params
    names = ["num_nouns", "num_words", "has_noun", "has_unknown", "is_adverb_repeat", "is_compound_noun", "is_noun_josa", "is_a_noun"]
    ws = [S.int("weight%d" % i, -100, 100) for i in range(8)]
    ev = SimpleEojeolEvaluator(tuple((k, w) for k, w in zip(names, ws)))
    cand = []
    for i in range(p["n"]):
        lt = S.choose("left%d" % i, ["Noun", "Adverb", "Verb", None])
        rt = S.choose("right%d" % i, [None, "Josa", "Verb"])
        cand.append(LR("가", lt, "" if rt is None else "는", rt, i * 2, i * 2 + 1, i * 2 + (1 if rt is None else 2)))
    nouns = len([c for c in cand if c.l_tag == "Noun"])
    adverbs = len([c for c in cand if c.l_tag == "Adverb"])
    unknown = len([c for c in cand if c.l_tag is None])
    n = len(cand)
    one = cand[0] if n == 1 else None
    want = nouns * ws[0] + n * ws[1] + unknown * ws[3]
    if nouns > 0:
        want = want + ws[2]
    if n > 1 and adverbs == n:
        want = want + ws[4]
        S.reach("adverbs")
    if n > 1 and nouns == n:
        want = want + ws[5]
        S.reach("nouns")
    if one is not None and one.l_tag == "Noun" and one.r_tag == "Josa":
        want = want + ws[6]
        S.reach("josa")
    if one is not None and one.l_tag == "Noun" and one.r == "":
        want = want + ws[7]
        S.reach("noun")
    S.check_eq(ev.evaluate(cand), want, "the sum of the weights of its features")
    S.reach("done")


def lr_candidates(S):
    p = S.params
    words, tags, d = dictionary(S)
    lefts = p.get("lefts", ["Noun", "Adjective", "Verb", "Adverb", "Exclamation"])
    templates = {k: tuple(v) for k, v in p.get("templates", [["Noun", ["Josa", "Verb", "Adjective"]]])}
    g = LRTemplateMatcher(d, set(lefts), templates) if "templates" in p else LRTemplateMatcher(d)
    t = shaped(S, p["shape"], [w for tag, w in words])
    n = len(t)
    want = []
    for b in range(n):
        for m in range(b + 2, n + 1):
            for tag in tags:
                if tag not in lefts or not known(words, t[b:m], tag):
                    continue
                want.append((t[b:m], tag, "", None, b, m, m))
                for e in range(m + 1, n + 1):
                    for right in templates.get(tag, []):
                        if known(words, t[m:e], right):
                            want.append((t[b:m], tag, t[m:e], right, b, m, e))
                            S.reach("pair")
    found = g.generate(t)
    same_candidates(S, plain(found), want)
    for x, y in zip(found, found[1:]):
        S.check(x.b <= y.b, "from left to right")
    ev = LREvaluator()
    score = [ev.evaluate(c) for c in found]
    if p.get("pref"):
        pref = {}
        for i, (tag, w) in enumerate(words):
            pref.setdefault(tag, {})[w] = S.int("pref%d" % i, -8, 8) / 8
        ev = LREvaluator(preference=pref)
        for i, c in enumerate(found):
            more = 0
            for j, (tag, w) in enumerate(words):
                if c.l_tag == tag and c.l == w:
                    more = pref[tag][w]
            S.check(S.close(ev.evaluate(c), score[i] + more + (pref.get(c.r_tag, {}).get(c.r, 0))), "preferences of its words are added")
        score = [ev.evaluate(c) for c in found]
    best = ev.select_best(found)
    chosen = plain(best)
    for x, y in zip(best, best[1:]):
        S.check(x.e <= y.b, "what is selected does not overlap, and is in order")
    for c, x in zip(found, score):
        if tuple(c) in chosen:
            S.reach("selected")
            continue
        S.check(any(c.b < y.e and c.e > y.b and ev.evaluate(y) >= x - 1e-9 for y in best), "what is not selected overlaps something selected that is not worse")
        S.reach("rejected")
    for c in chosen:
        S.check(c in want, "what is selected is a candidate")
    # a longer word of the same kind is better, whatever its tag
    for i, x in enumerate(found):
        for j, y in enumerate(found):
            if not p.get("pref") and x.l_tag == y.l_tag and x.r_tag == y.r_tag and x.e - x.b > y.e - y.b:
                S.check(score[i] > score[j], "a longer one of the same tags is better")
    out = SimpleTagger(g, ev, UnknowLRPostprocessor()).tag(t)
    tagged = [x for x in out if x[1] is not None]
    flat = []
    for l, lt, r, rt, b, m, e in chosen:
        flat.append((l, lt))
        if r:
            flat.append((r, rt))
    S.check_eq(tagged, flat, "the tagger gives the words selected, and the rest is unknown")
    S.observe(len(want), out)
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


def sh(fn, parts, words, expect, tier="quick", tag="", **kw):
    ws = " ".join("%s/%s" % (t, n) for t, n in words)
    add("%s-%s-%s%s" % (fn.split("_")[0], shape_name(parts), "".join("%s%s" % (t[:2], n) for t, n in words), tag), fn,
        "an eojeol %s; a dictionary of symbolic words %s" % (shape_name(parts), ws), tier, ("done",) + tuple(expect), shape=parts, words=[list(x) for x in words], **kw)


N, J, V, A, D, E = "Noun", "Josa", "Verb", "Adjective", "Adverb", "Exclamation"
sh("eojeol_candidates", [[1]], [(N, 1), (V, 1)], ("whole", "unknown"))
sh("eojeol_candidates", [[2]], [(N, 2), (N, 1), (J, 1)], ("whole", "pair", "compound", "unknown"))
sh("eojeol_candidates", [[3]], [(N, 2), (N, 1), (J, 1)], ("unknown", "pair", "compound"))
sh("eojeol_candidates", [[3]], [(N, 2), (V, 1), (A, 1), (V, 3)], ("unknown", "whole", "pair"))
sh("eojeol_candidates", [[3]], [(N, 1), (D, 1), (D, 2), (E, 3)], ("unknown", "whole", "compound"))
sh("eojeol_candidates", [0, 1, [1]], [(N, 2), (N, 1), (J, 2)], ("unknown", "pair", "compound"))
sh("eojeol_candidates", [0, 1, 0], [(N, 1), (N, 2)], ("unknown", "compound"))
sh("eojeol_candidates", [0, 1], [(N, 4), (N, 1)], ("compound",))
sh("eojeol_candidates", [0, 0, 1], [(D, 2), (D, 1)], ("compound",))
sh("eojeol_candidates", [0, 1], [(N, 3), ("X", 2), (E, 5)], ("pair", "whole"), pairs=[["X", "Noun"], ["Noun", "X"]], single=["Exclamation"], tag="-own")
sh("eojeol_candidates", [[4]], [(N, 2), (N, 1), (N, 3), (J, 2)], ("unknown", "pair", "compound"), tier="thorough")
for n in (1, 2, 3):
    add("weighing-%d" % n, "weighing", "a candidate of %d words of any tags, any whole weights" % n, n=n, expect=("done", "noun", "josa") if n == 1 else ("done", "adverbs", "nouns"))
sh("lr_candidates", [[3]], [(N, 2), (J, 1)], ("pair", "selected", "rejected"))
sh("lr_candidates", [[4]], [(N, 2), (N, 3), (V, 1)], ("pair", "selected", "rejected"))
sh("lr_candidates", [[4]], [(N, 2), (D, 2), (A, 2)], ("pair", "selected", "rejected"))
sh("lr_candidates", [0, 1, [2]], [(N, 2), (J, 2)], ("pair", "selected", "rejected"))
sh("lr_candidates", [0, 1, 0], [(N, 2), (V, 2)], ("pair", "selected", "rejected"))
sh("lr_candidates", [0, 1], [(N, 6), (J, 4), (N, 9)], ("pair", "selected", "rejected"))
sh("lr_candidates", [[1], 0, 1], [(N, 2), (J, 1), (E, 2)], ("pair", "selected", "rejected"))
sh("lr_candidates", [[4]], [("X", 2), (N, 2), ("Y", 1)], ("pair", "selected", "rejected"), lefts=["X"], templates=[["X", ["Noun", "Y"]]], tag="-own")
sh("lr_candidates", [[3]], [(N, 2), (V, 2), (J, 1)], ("pair", "selected", "rejected"), pref=True, tag="-preferred")
sh("lr_candidates", [0, 1], [(N, 2), (V, 2)], ("pair", "selected", "rejected"), pref=True, tag="-preferred")
sh("lr_candidates", [[5]], [(N, 2), (N, 3), (J, 1), (V, 2)], ("pair", "selected", "rejected"), tier="thorough")
