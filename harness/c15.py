"""C15: LRGraph."""
from soynlp.utils import LRGraph
from harness.common import eojeols, splits, add_pair, graph_equals, spec_copy


def build(S):
    p = S.params
    sents = [S.text("s%d" % i, n, p["dom"]) for i, n in enumerate(p["sents"])]
    g = LRGraph(sents=sents, l_max_length=p["lmax"], r_max_length=p["rmax"])
    spec = {}
    for s in sents:
        for e in eojeols(s):
            for l, r in splits(e, p["lmax"], p["rmax"]):
                add_pair(spec, l, r, 1)
    graph_equals(S, g, spec, "after building")
    if spec:
        S.reach("pairs")
    if p.get("reset"):
        g.reset_lrgraph()
        graph_equals(S, g, spec, "reset right after building")
    if p.get("save"):
        f = S.path("lr.txt")
        g.save(f)
        h = LRGraph(l_max_length=p["lmax"], r_max_length=p["rmax"])
        h.load(f)
        graph_equals(S, h, spec, "after loading")
        h.reset_lrgraph()
        graph_equals(S, h, spec, "reset after loading")
        S.reach("saved")
    S.reach("built")


def pairs(S, prefix, lens, lo, hi):
    out = []
    for i, (a, b) in enumerate(lens):
        l = S.text("%s%d.l" % (prefix, i), a, "letter")
        r = S.text("%s%d.r" % (prefix, i), b, "letter")
        c = S.int("%s%d.c" % (prefix, i), lo, hi) if hi > lo else lo
        out.append((l, r, c))
    return out


def edits(S):
    p = S.params
    base = pairs(S, "p", p["pairs"], 1, p["hi"])
    given = {}
    spec = {}
    for i, (l, r, c) in enumerate(base):
        for l2, r2, _ in base[:i]:
            if len(l) == len(l2) and len(r) == len(r2):
                S.assume(S.not_(S.all_of([S.eq(l, l2), S.eq(r, r2)])))
    for l, r, c in base:
        given.setdefault(l, {})[r] = c
        add_pair(spec, l, r, c)
    g = LRGraph(lrgraph=given)
    origin = spec_copy(spec)
    for i, (a, b) in enumerate(p["ops"]):
        op = S.choose("op%d" % i, p["kinds"])
        if p.get("same"):
            l, r, _ = base[0]
        else:
            l = S.text("e%d.l" % i, a, "letter")
            r = S.text("e%d.r" % i, b, "letter")
        c = S.int("e%d.c" % i, 1, p["hi"])
        if op == "add":
            g.add_lr_pair(l, r, c)
            add_pair(spec, l, r, c)
        elif op == "remove":
            g.remove_lr_pair(l, r, c)
            add_pair(spec, l, r, -c)
        elif op == "add-eojeol":
            g.add_eojeol(l + r, c)
            for x, y in splits(l + r, 99, 99):
                add_pair(spec, x, y, c)
        elif op == "remove-eojeol":
            g.remove_eojeol(l + r, c)
            for x, y in splits(l + r, 99, 99):
                add_pair(spec, x, y, -c)
        elif op == "add1":
            g.add_lr_pair(l, r)
            add_pair(spec, l, r, 1)
        elif op == "remove1":
            g.remove_eojeol(l + r)
            for x, y in splits(l + r, 99, 99):
                add_pair(spec, x, y, -1)
        elif op == "undo":
            before = spec_copy(spec)
            g.add_eojeol(l + r, c)
            g.remove_eojeol(l + r, c)
            g.add_lr_pair(l, r, c)
            g.remove_lr_pair(l, r, c)
            graph_equals(S, g, before, "a removal undoes an addition")
            S.reach("undone")
        elif op == "reset":
            g.reset_lrgraph()
            spec = spec_copy(origin)
    graph_equals(S, g, spec, "after edits")
    h = g.copy_compatified_lrgraph_origin()
    graph_equals(S, h, origin, "copy of the original graph")
    graph_equals(S, g, spec, "after copying")
    if p.get("save"):
        f = S.path("graphs/lr.txt")
        g.save(f)
        k = LRGraph()
        k.load(f)
        k.reset_lrgraph()
        S.reach("saved")
        graph_equals(S, k, origin, "the saved original graph")
    g.reset_lrgraph()
    graph_equals(S, g, origin, "after resetting")
    S.reach("edited")


def topk(S):
    p = S.params
    n = p["n"]
    k = S.choose("k", p["k"] if "k" in p else [-1, 0] + list(range(1, n + 2)))
    given = {}
    counts = []
    for i in range(n):
        c = (i * 7) % n * 100 + 50 if p.get("fixed") and i != p["fixed"] else S.int("c%d" % i, 1, 5000)
        counts.append(c)
        if p["side"] == "r":
            given.setdefault("l", {})["r%d" % i] = c
        else:
            given["l%d" % i] = {"r": c}
    g = LRGraph(lrgraph=given)
    out = g.get_r("l", topk=k) if p["side"] == "r" else g.get_l("r", topk=k)
    S.observe([list(x) for x in out])
    want = n if k <= 0 else min(n, k)
    S.check(len(out) == want, "number of results")
    names = {}
    for name, c in out:
        i = int(name[1:])
        S.check(0 <= i and i < n, "an entry of the graph")
        S.check(name not in names, "no result twice")
        names[name] = True
        S.check(S.eq(c, counts[i]), "count of a result")
    for (_, a), (_, b) in zip(out, out[1:]):
        S.check(a >= b, "results in decreasing order")
    for i in range(n):
        if not ("%s%d" % (p["side"], i) in names) and out:
            S.check(counts[i] <= out[-1][1], "a larger count was left out")
    if k < 0:
        S.check_eq(len(g.get_r("zzz")) + len(g.get_l("zzz")), 0, "nothing for unknown sides")
    S.reach("queried")


OBLIGATIONS = []


def ob(name, fn, bound, tier="quick", base=False, expect=(), **kw):
    OBLIGATIONS.append({"name": name, "fn": fn, "tier": tier, "base": base, "params": kw, "bound": bound, "expect": list(expect)})


def b(sents, lmax=10, rmax=9, dom="sent", tier="quick", base=False, **kw):
    ob("build-%s-%d-%d%s%s" % ("_".join(map(str, sents)), lmax, rmax, dom[0] if isinstance(dom, str) else "x", "".join(sorted(k[0] for k in kw))), "build",
       "sentences of %s characters, left parts up to %d, right parts up to %d characters" % (sents, lmax, rmax), tier, base,
       ["built"] + (["pairs"] if sum(sents) else []), sents=list(sents), lmax=lmax, rmax=rmax, dom=dom, **kw)


def e(name, base_, ops, kinds, tier="quick", base=False, hi=1000, expect=(), **kw):
    ob("edits-" + name, "edits", "graph of pairs with lengths %s and counts 1..%d, %d edits out of %s on pairs of lengths %s" % (base_, hi, len(ops), kinds, ops),
       tier, base, ["edited"] + list(expect), pairs=[list(x) for x in base_], ops=[list(x) for x in ops], kinds=kinds, hi=hi, **kw)


b([0])
b([3, 2], base=True)
b([2, 2, 1], save=True, base=True)
b([4], reset=True, save=True)
b([4], 2, 2, "letter")
b([4], 3, 1, "letter")
b([5], 5, 2, "letter", save=True)
b([3, 3], 2, 1, "letter")
b([12], 10, 9, [(97, 97)])
b([5, 2], 3, 3, tier="thorough")
ALL = ["add", "remove", "add-eojeol", "remove-eojeol", "add1", "remove1", "undo", "reset"]
e("one", [(1, 1), (1, 0)], [(1, 1)], ALL, base=True, expect=["undone"])
e("one-long", [(1, 1), (2, 0)], [(2, 0)], ALL, base=True, expect=["undone"])
e("one-long2", [(2, 1)], [(1, 2)], ["add-eojeol", "remove-eojeol", "undo", "add"], save=True, expect=["undone", "saved"])
e("empty", [], [(1, 1)], ["add", "remove", "add-eojeol", "undo", "reset"], save=True, expect=["undone", "saved"])
e("whole", [(1, 1), (1, 0)], [(1, 0)], ["remove", "remove-eojeol", "add"])
e("two", [(1, 1)], [(1, 1), (1, 0)], ["add", "remove", "add-eojeol", "remove-eojeol"], base=True)
e("saved", [(1, 1), (1, 1), (2, 0)], [(1, 1)], ["add", "remove"], save=True, hi=1, expect=["saved"])
e("counts", [(1, 1)], [(1, 1), (1, 1)], ["add", "remove"], hi=9)
e("many", [(1, 1)], [(1, 1)] * 5, ["add", "remove"], same=True, hi=1000)
e("many-whole", [(2, 0)], [(2, 0)] * 4, ["add-eojeol", "remove-eojeol", "reset"], same=True, hi=1000)
e("wide", [(8, 5)], [(8, 5)], ["add-eojeol", "remove-eojeol", "add", "undo", "reset"], same=True, hi=1000, save=True, expect=["undone", "saved"])
e("wide-2", [(12, 3)], [(12, 3)] * 2, ["add-eojeol", "remove-eojeol"], same=True, hi=1000)
e("three", [(1, 1)], [(1, 1)] * 3, ["add", "remove", "reset"], tier="thorough")
e("two-wide", [(1, 1), (2, 0), (1, 0)], [(2, 0), (1, 1)], ["add", "remove", "add-eojeol", "remove-eojeol"], tier="thorough")
for side in "lr":
    for n in (1, 3):
        ob("topk-%s%d" % (side, n), "topk", "%d entries with counts 1..5000, every k up to %d" % (n, n + 1), base=n == 3, expect=["queried"], side=side, n=n)
    ob("topk-%s4" % side, "topk", "4 entries with counts 1..5000", tier="thorough", expect=["queried"], side=side, n=4)
    for n, f, ks in ((11, 4, [1, 3, 10, 11]), (30, 29, [-1, 5, 10, 29, 40])):
        ob("topk-%s%d" % (side, n), "topk", "%d entries, one with any count 1..5000, k out of %s" % (n, ks), expect=["queried"], side=side, n=n, fixed=f, k=ks)
