"""C16: EojeolCounter."""
from soynlp.utils import EojeolCounter, LRGraph
from harness.common import eojeols, splits, add_pair, graph_equals


def sentences(S, p):
    return [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]


def count(sents, max_length, min_count):
    d = {}
    for s in sents:
        for e in eojeols(s):
            if len(e) <= max_length:
                d[e] = d.get(e, 0) + 1
    return {e: c for e, c in d.items() if c >= min_count}


def same(S, counter, want, msg):
    S.check(len(counter) == len(want), msg + ": number of eojeols")
    for e, c in want.items():
        S.check_eq(counter[e], c, msg + ": count of an eojeol")
        S.check_eq(counter.get_eojeol_count(e), c, msg + ": count of an eojeol")
    got = {e: c for e, c in counter.items()}
    S.check(len(got) == len(want), msg + ": items")
    for e, c in got.items():
        S.check(e in want, msg + ": an eojeol that does not occur")
        S.check_eq(c, want[e], msg + ": item count")
    total = 0
    for e, c in want.items():
        total = total + c
    S.check_eq(counter.num_of_uncovered_eojeols, total, msg + ": total count")
    S.check_eq(counter.num_of_unique_uncovered_eojeols, len(want), msg + ": number of uncovered eojeols")


def counting(S):
    p = S.params
    sents = sentences(S, p)
    pre = p.get("preprocess")
    kw = {"preprocess": lambda s: s[1:] + " z"} if pre else {}
    c = EojeolCounter(sents, p["min"], p["max"], **kw)
    want = count([s[1:] + " z" for s in sents] if pre else sents, p["max"], p["min"])
    S.observe(sents, sorted([c[e] for e in want]))
    same(S, c, want, "after counting")
    S.check(c.coverage == 0, "nothing is covered at first")
    q = S.text("q", p.get("probe", 1), "letter")
    S.check_eq(c[q], want.get(q, 0), "count of any string")
    for k in (0, 1, 2):
        u = c.get_uncovered_eojeols(k)
        S.check(len(u) == len([e for e, x in want.items() if x >= k]), "uncovered eojeols of a minimum count")
        for e, x in u.items():
            S.check(x >= k and want.get(e, 0) == x, "uncovered eojeols of a minimum count")
    if want:
        S.reach("counted")
    S.reach("done")


def fill(S, p):
    """a counter holding given symbolic counts (loaded from a file it could have written)"""
    words = []
    for i, n in enumerate(p["words"]):
        w = S.text("w%d" % i, n, "letter")
        for v, _ in words:
            if len(v) == n:
                S.assume(S.not_(S.eq(v, w)))
        words.append((w, S.int("c%d" % i, 1, p["hi"]) if p["hi"] > 1 else 1))
    if p.get("big"):
        # many counts: the counter of a graph
        return words, LRGraph(lrgraph={w: {"": c} for w, c in words}, l_max_length=99).to_EojeolCounter()
    sents = []
    for w, c in words:
        # c is decided by the number of sentences
        k = 0
        while k < c:
            sents.append(w)
            k += 1
    return words, EojeolCounter(sents) if sents else EojeolCounter()


def removing(S):
    p = S.params
    words, c = fill(S, p)
    if p.get("reload"):
        f = S.path("c.txt")
        c.save(f)
        c = EojeolCounter(min_count=p["reload"])
        c.load(f)
    want = {w: n for w, n in words}
    total = 0
    for w, n in words:
        total = total + n
    done = 0
    for i, n in enumerate(p["remove"]):
        r = S.text("r%d" % i, n, "letter")
        q = S.text("q%d" % i, p["words"][0] if p["words"] else 1, "letter")
        form = S.choose("form%d" % i, ["set", "list", "dict"])
        arg = {r, q} if form == "set" else [r, q] if form == "list" else {r: 1, q: 1}
        c.remove_covered_eojeols(arg)
        for x in (r, q):
            if x in want:
                done += want.pop(x)
                S.reach("removed")
        same(S, c, want, "after removing")
        if total:
            S.check(S.close(c.coverage, done / total), "coverage is the covered fraction of the initial total")
        S.check(S.all_of([c.coverage >= 0, c.coverage <= 1]), "coverage lies in [0, 1]")
        S.observe(c.coverage, len(c))
    for bad in (-0.5, 1.5):
        err, _ = S.attempt(setattr, c, "coverage", bad)
        S.check(err == "ValueError", "a coverage outside [0, 1] is refused")
    S.reach("done")


def converting(S):
    p = S.params
    words, c = fill(S, p)
    lmax, rmax, one = p["lmax"], p["rmax"], p["one"]
    g = c.to_lrgraph(lmax, rmax, one) if one else c.to_lrgraph(lmax, rmax)
    spec = {}
    back = {}
    for w, n in words:
        if one and len(w) == 1:
            S.reach("skipped")
            continue
        for l, r in splits(w, lmax, rmax):
            add_pair(spec, l, r, n)
            back[w] = n
    graph_equals(S, g, spec, "graph of the counter")
    for reset in (False, True):
        b = g.to_EojeolCounter(reset)
        same(S, b, back, "counter of the graph")
        b.remove_covered_eojeols(back)
        if back:
            S.check(S.close(b.coverage, 1.0), "everything is covered")
    same(S, c, {w: n for w, n in words}, "the counter is left alone")
    if back:
        S.reach("converted")
    S.reach("done")


def saving(S):
    p = S.params
    words, c = fill(S, p)
    f = S.path("sub/eojeols.txt")
    c.save(f)
    d = EojeolCounter(["x x"], *p.get("kw", []))
    d.remove_covered_eojeols({"x"})
    d.load(f)
    same(S, d, {w: n for w, n in words}, "after loading")
    S.check(d.coverage == 0, "nothing is covered after loading")
    for w, n in words[:1]:
        d.remove_covered_eojeols({w})
        total = 0
        for _, x in words:
            total = total + x
        S.check(S.close(d.coverage, n / total), "coverage after loading")
    S.reach("saved")


OBLIGATIONS = []


def ob(fn, name, bound, expect, tier="quick", base=False, **kw):
    OBLIGATIONS.append({"name": "%s-%s" % (fn, name), "fn": fn, "tier": tier, "base": base, "params": kw, "bound": bound, "expect": expect})


def cnt(sents, mn=1, mx=15, dom="sent", tier="quick", base=False, **kw):
    ob("counting", "%s-%d-%d%s%s" % ("_".join(map(str, sents)), mn, mx, dom[0], "".join(k[0] for k in kw)),
       "sentences of %s characters, minimum count %d, maximum length %d" % (sents, mn, mx), ["done", "counted"], tier, base, sents=list(sents), min=mn, max=mx, dom=dom, **kw)


cnt([4, 1], base=True)
cnt([2, 2, 2], 2, base=True)
cnt([3, 1], 1, 2, preprocess=True)
cnt([5], 1, 2, probe=2)
cnt([3, 3], 1, 3, "lsp", probe=3)
cnt([4, 2], 2, 1)
cnt([3, 1, 1, 2], 2, tier="thorough")
cnt([3, 3, 1], 3, 2, "lsp", tier="thorough", probe=2)
ob("removing", "two", "two words with counts 1..3, two removals", ["done", "removed"], base=True, words=[1, 2], hi=3, remove=[1, 2])
ob("removing", "three", "three words with counts 1..2, one removal", ["done", "removed"], words=[1, 1, 2], hi=2, remove=[1])
ob("removing", "empty", "an empty counter", ["done"], words=[], hi=2, remove=[1])
ob("removing", "deep", "three words with counts 1..3, three removals", ["done", "removed"], tier="thorough", words=[1, 1, 2], hi=3, remove=[1, 2, 1])
for n, words, lmax, rmax, one in [(1, [1, 2, 3], 10, 9, False), (2, [1, 1, 2], 10, 9, True), (3, [4, 2], 2, 2, False), (4, [3, 4], 2, 9, True), (5, [1, 5], 10, 3, True), (6, [12], 10, 9, False), (7, [1], 10, 9, True), (8, [], 10, 9, False)]:
    ob("converting", str(n), "words of lengths %s with counts 1..2, limits %d and %d, one-syllable words %s" % (words, lmax, rmax, "skipped" if one else "kept"),
       ["done"] + (["converted"] if words and words != [1] else []) + (["skipped"] if one and 1 in words else []), base=n < 3, words=words, hi=2, lmax=lmax, rmax=rmax, one=one)
ob("saving", "two", "three words with counts 1..2", ["saved"], base=True, words=[1, 1, 2], hi=2)
ob("saving", "four", "three words with counts 1..3", ["saved"], tier="thorough", words=[2, 2, 1], hi=3)
# counts of any size, carried through graphs and files
ob("removing", "many", "two words with counts 1..2500, one removal", ["done", "removed"], words=[1, 2], hi=2500, big=True, remove=[1])
ob("removing", "loaded", "a counter of minimum count 3, two words with counts 1..2500, one removal", ["done", "removed"], words=[1, 2], hi=2500, big=True, remove=[1], reload=3)
for n, words, one in [(1, [1, 2], True), (2, [2, 12], False)]:
    ob("converting", "many%d" % n, "words of lengths %s with counts 1..2500, one-syllable words %s" % (words, "skipped" if one else "kept"),
       ["done", "converted"] + (["skipped"] if one else []), words=words, hi=2500, big=True, lmax=10, rmax=9, one=one)
ob("saving", "many", "two words with counts 1..2500", ["saved"], words=[1, 2], hi=2500, big=True)
ob("saving", "limits", "three words of up to 20 characters with counts 1..2500, loaded into a counter of minimum count 4 and maximum length 2", ["saved"], words=[1, 3, 20], hi=2500, big=True, kw=[4, 2])
