"""C19: branching entropy and accessor variety of WordExtractor."""
from math import log
from soynlp.word import WordExtractor
from harness.common import eojeols, side_counts, neighbours, close


def entropy(counts):
    if len(counts) == 0:
        return 0
    total = sum(counts)
    return -sum([c / total * log(c / total) for c in counts])


def accessors(S):
    p = S.params
    sents = []
    for i, n in enumerate(p["sents"]):
        sents = sents + [S.text("s%d" % i, n, p["dom"])] * (S.choose("times%d" % i, p["times"]) if "times" in p else 1)
    w = WordExtractor(max_left_length=p["maxl"], max_right_length=p["maxr"], min_frequency=p["min"], verbose_points=0)
    w.train(sents)
    left, right, words = neighbours(sents, p["maxl"], p["maxr"], p["min"])
    be = w.all_branching_entropy()
    av = w.all_accessor_variety()
    for x in words:
        one = w.branching_entropy(x)
        v1 = w.accessor_variety(x)
        lim = min(p["maxl"], p["maxr"])
        want = [left.get(x, {}), right.get(x, {})]
        for i in (0, 1):
            cs = [c for _, c in want[i].items()]
            # beyond the limit of a side its table is not trained
            if len(x) <= (p["maxr"], p["maxl"])[i]:
                S.check_eq(v1[i], len(cs), "accessor variety: the number of distinct neighbours")
                S.check(close(S, one[i], entropy(cs)), "branching entropy: the entropy of the neighbours")
                if len(cs) > 1:
                    S.reach("variety")
            S.check(one[i] >= -1e-12, "branching entropy is not negative")
            if len(x) <= lim:
                S.check(close(S, be.get(x, (0, 0))[i], one[i]), "branching entropy among all words and of one word")
                S.check_eq(av.get(x, (0, 0))[i], v1[i], "accessor variety among all words and of one word")
        S.observe(one, v1)
    for t in (be, av):
        for x in t:
            S.check(x in words, "a value for a string that does not occur")
    q = S.text("q", p.get("probe", 2), "letter")
    if q not in words:
        S.check_eq(w.accessor_variety(q), (0, 0), "accessor variety of an unseen string")
        S.check_eq(w.branching_entropy(q), (0, 0), "branching entropy of an unseen string")
    S.reach("done")


OBLIGATIONS = []


def ob(sents, mn=1, maxl=10, maxr=6, dom="lsp", tier="quick", base=False, expect=("variety",), **kw):
    pr = {"sents": list(sents), "min": mn, "maxl": maxl, "maxr": maxr, "dom": dom}
    pr.update(kw)
    OBLIGATIONS.append({"name": "%s-f%d-%d-%d%s" % ("_".join(map(str, sents)), mn, maxl, maxr, (dom[0] if isinstance(dom, str) else "x") + "-".join([""] + sorted(kw))), "fn": "accessors", "tier": tier, "base": base, "params": pr, "expect": ["done"] + list(expect),
                        "bound": "sentences of %s characters, minimum frequency %d, length limits %d and %d" % (sents, mn, maxl, maxr)})


ob([0, 3], base=True, expect=())
ob([2, 2], dom="letter", base=True)
ob([3, 3], dom="letter", base=True)
ob([3, 3], 1, 2, 1, dom="letter")
ob([3, 2, 2], 1, 2, 2, dom="letter")
ob([2, 2, 2, 2], 2, dom="letter")
ob([5], expect=())
ob([6], dom=[(32, 32), (97, 98)], expect=())
ob([8], dom=[(32, 32), (97, 97)])
ob([5, 3], 1, 2, 1, dom=[(32, 32), (97, 97)], expect=())
ob([4, 2], 1, 2, 2)
ob([2, 2], 1, dom="letter", times=[1, 9, 10, 31, 101])
ob([3, 3], 10, 2, 2, dom="letter", times=[5, 10, 11])
ob([12], dom=[(97, 97)], expect=())
ob([3, 3, 3], 1, 2, 2, dom="letter", tier="thorough")
ob([4, 4], 1, 3, 2, dom="letter", tier="thorough")
ob([9], 1, 2, 2, dom=[(32, 32), (97, 98)], tier="thorough")
ob([5, 4], 2, 2, 2, tier="thorough")
