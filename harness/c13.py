"""C13: SimpleTagger over eojeol and L-R templates."""
from soynlp.postagger import Dictionary, EojeolTemplateMatcher, LRTemplateMatcher, SimpleEojeolEvaluator, LREvaluator, SimpleTagger, UnknowLRPostprocessor
from harness.common import eojeols, join, shaped, shape_name


def tokens(S):
    p = S.params
    words = []
    tags = {}
    for i, (tag, n) in enumerate(p["words"]):
        w = S.text("w%d" % i, n, p.get("wdom", "letter"))
        words.append((tag, w))
        tags.setdefault(tag, []).append(w)
    d = Dictionary(tags)
    if p["kind"] == "eojeol":
        if p.get("templates"):
            g = EojeolTemplateMatcher(d, p["single"], p["templates"])
        else:
            g = EojeolTemplateMatcher(d)
        t = SimpleTagger(g, SimpleEojeolEvaluator())
        if p.get("post"):
            t = SimpleTagger(g, SimpleEojeolEvaluator(), UnknowLRPostprocessor())
    else:
        g = LRTemplateMatcher(d)
        if p.get("pref"):
            pref = {}
            for i, (tag, w) in enumerate(words):
                pref.setdefault(tag, {})[w] = S.real("pref%d" % i, -1, 1)
            e = LREvaluator(preference=pref)
        else:
            e = LREvaluator()
        t = SimpleTagger(g, e, UnknowLRPostprocessor())
    s = shaped(S, p["shape"], [w for tag, w in words]) if "shape" in p else S.text("s", p["n"], p["dom"])
    out = t.tag(s, flatten=False)
    S.observe(s, [[list(x) for x in ws] for ws in out])
    eo = eojeols(s)
    S.check(len(out) == len(eo), "one list per eojeol")
    for e, ws in zip(eo, out):
        S.check_eq(join([w for w, tag in ws]), e, "the words spell the eojeol")
        for w, tag in ws:
            S.check(len(w) > 0, "no empty word")
            if tag is None:
                S.reach("unknown")
            else:
                S.reach("known")
                S.check(S.any_of([S.eq(x, w) for t2, x in words if t2 == tag and len(x) == len(w)]), "a tagged word is in the dictionary under its tag")
        if len(ws) > 1:
            S.reach("split")
    flat = [x for ws in out for x in ws]
    S.check_eq(t.tag(s), flat, "flattened form")
    if p.get("debug"):
        S.check_eq(t.tag(s, debug=True)[0], flat, "debug form")
    S.reach("tokens")


OBLIGATIONS = []


def ob(kind, n, words, dom="letter", tier="quick", base=False, expect=("known", "unknown"), **kw):
    words = [list(w) for w in words]
    name = "%s-n%d-%s-%s%s" % (kind, n, "".join("%s%d" % (t[0], k) for t, k in words), dom[0], "".join(sorted(k[0] for k in kw)))
    pr = {"kind": kind, "n": n, "words": words, "dom": dom}
    pr.update(kw)
    OBLIGATIONS.append({"name": name, "fn": "tokens", "tier": tier, "base": base, "params": pr,
                        "bound": "sentence of %d characters, dictionary of symbolic words %s%s" % (n, ", ".join("%s/%d" % (t, k) for t, k in words), ", symbolic preferences" if kw.get("pref") else ""),
                        "expect": ["tokens"] + (list(expect) if n > 1 else [])})


N, J, V, A, D, E = "Noun", "Josa", "Verb", "Adjective", "Adverb", "Exclamation"
ob("eojeol", 0, [(N, 1)])
ob("eojeol", 2, [(N, 1), (J, 1), (V, 2)], dom="sent", base=True)
ob("eojeol", 4, [(N, 2), (J, 1), (N, 1)], dom="sent", base=True)
ob("eojeol", 4, [(N, 2), (V, 2), (D, 2)], base=True)
ob("eojeol", 4, [(N, 1), (N, 3), (V, 2), (A, 3)])
ob("eojeol", 5, [(N, 2), (N, 1), (D, 1)], expect=("unknown",))
ob("eojeol", 5, [(N, 2), (N, 3), (J, 2)], dom="sent", expect=("known", "unknown", "split"))
ob("eojeol", 4, [(N, 2), ("X", 2), (E, 4)], templates=[["Noun", "X"], ["X", "Noun"]], single=["Exclamation"], expect=("known", "unknown", "split"))
ob("eojeol", 3, [(N, 2), (J, 1)], post=True, dom="sent")
ob("lr", 0, [(N, 2)])
ob("lr", 2, [(N, 2), (J, 1)], dom="sent", base=True)
ob("lr", 4, [(N, 2), (J, 1)], dom="sent", base=True, expect=("known", "unknown", "split"))
ob("lr", 5, [(N, 2), (J, 2), (V, 2)], expect=("known", "unknown", "split"))
ob("lr", 5, [(N, 2), (D, 2), (J, 1)], dom="sent", expect=("known", "unknown", "split"))
ob("lr", 6, [(N, 2), (J, 1), (V, 3)], expect=("known", "unknown", "split"))
ob("lr", 6, [(N, 2), (A, 2)], expect=("known", "unknown", "split"))
ob("lr", 7, [(N, 2), (J, 1)], expect=("known", "unknown", "split"))
ob("lr", 4, [(N, 2), (J, 1), (V, 2)], pref=True, expect=("known", "unknown", "split"), debug=True)
ob("lr", 5, [(N, 2), (N, 3), (J, 1)], pref=True, tier="thorough", expect=("known", "unknown", "split"))
ob("lr", 7, [(N, 2), (J, 1), (N, 3)], tier="thorough", expect=("known", "unknown", "split"))
ob("eojeol", 6, [(N, 2), (N, 3), (J, 2), (V, 4)], tier="thorough", expect=("known", "unknown", "split"))


def shape(kind, parts, words, tier="quick", expect=("known", "split"), **kw):
    words = [list(w) for w in words]
    pr = {"kind": kind, "shape": parts, "words": words}
    pr.update(kw)
    OBLIGATIONS.append({"name": "%s-%s-%s" % (kind, shape_name(parts), "".join("%s%d" % (t[0], k) for t, k in words)), "fn": "tokens", "tier": tier, "params": pr,
                        "bound": "sentence %s of dictionary words and other text, dictionary of symbolic words %s" % (shape_name(parts), ", ".join("%s/%d" % (t, k) for t, k in words)),
                        "expect": ["tokens"] + list(expect)})


shape("eojeol", [0, 1, 0, 1, 0], [(N, 2), (N, 3)], expect=())
shape("eojeol", [0, 0], [(D, 2), (N, 2)], expect=())
shape("eojeol", [0, 0, 0, 0], [(D, 2), (N, 2)], expect=())
shape("eojeol", [0, 1, " ", 0, [1], 1, " ", 0, 0], [(N, 3), (J, 2)])
shape("eojeol", [0, 1], [(N, 9), (J, 6), (V, 12)])
shape("lr", [0, 1, [1], 0], [(N, 2), (J, 1)])
shape("lr", [0, 1, 0, 1, " ", 0], [(N, 2), (J, 2)])
shape("lr", [[1], 0, 1], [(N, 5), (J, 3), (D, 4)])
shape("lr", [0, 1, [2]], [(N, 8), (J, 5)])
