"""C17: DoublespaceLineCorpus."""
from soynlp.utils import DoublespaceLineCorpus
from harness.common import join


def sentences(doc):
    """pieces between double spaces, left to right, stripped, empty ones dropped"""
    out = []
    cur = ""
    i = 0
    while i < len(doc):
        if doc[i] == " " and i + 1 < len(doc) and doc[i + 1] == " ":
            out.append(cur)
            cur = ""
            i += 2
        else:
            cur = cur + doc[i]
            i += 1
    out.append(cur)
    return [x.strip() for x in out if len(x.strip()) > 0]


def items(S):
    p = S.params
    lines = []
    for i, n in enumerate(p["docs"]):
        d = S.text("d%d" % i, n, p["dom"])
        for _ in range(S.choose("times%d" % i, p["times"]) if "times" in p else 1):
            lines.append(d)
    content = ""
    for i, l in enumerate(lines):
        content = content + l + ("\n" if i + 1 < len(lines) or p["newline"] else "")
    # a last line without characters and without a newline is no line
    if lines and len(lines[-1]) == 0 and not p["newline"]:
        lines = lines[:-1]
    f = S.write_file("corpus.txt", content)
    kw = {}
    nd, ns, sk = p["num_doc"], p["num_sent"], p["skip"]
    if nd is not None:
        nd = S.choose("num_doc", nd) if isinstance(nd, list) else nd
        kw["num_doc"] = nd
    if ns is not None:
        ns = S.choose("num_sent", ns) if isinstance(ns, list) else ns
        kw["num_sent"] = ns
    if sk:
        kw["skip_header"] = sk
    if p["iter_sent"]:
        kw["iter_sent"] = True
    c = DoublespaceLineCorpus(f, **kw)
    docs = lines[sk:]
    if p["iter_sent"]:
        if nd is not None and nd > 0:
            docs = docs[:nd]
        want = [s for d in docs for s in sentences(d)]
        if ns is not None and ns > 0:
            want = want[:ns]
    else:
        want = [d.strip() for d in docs]
        if nd is not None and nd > 0:
            want = want[:nd]
    if p["len_first"]:
        n = len(c)
    got = [x for x in c]
    S.observe(got)
    if not p["iter_sent"] and ns is not None and ns > 0:
        # the documents that hold the requested sentences come first
        S.check(len(got) <= len(want), "no more documents than there are")
        S.check_eq(got, want[:len(got)], "documents in order")
        held = 0
        for d in docs[:len(got)]:
            held += len(sentences(d))
        every = 0
        for d in docs:
            every += len(sentences(d))
        if nd is None:
            S.check(held >= min(ns, every), "enough documents for the requested sentences")
    else:
        S.check_eq(got, want, "items of the corpus")
    if not p["len_first"]:
        n = len(c)
    S.check_eq(n, len(got), "the length equals the number of items")
    S.check_eq([x for x in c], got, "iterating again yields the same items")
    S.check_eq(len(c), n, "the length stays the same")
    if got:
        S.reach("items")
    S.reach("done")


def missing(S):
    err, _ = S.attempt(DoublespaceLineCorpus, S.path("nothing.txt"))
    S.check(err == "ValueError", "a missing file is refused")
    S.reach("done")


OBLIGATIONS = []
LINE = [(32, 32), (97, 98)]


def ob(docs, iter_sent=False, num_doc=None, num_sent=None, skip=0, newline=True, len_first=False, dom="corpus", tier="quick", base=False, empty=False):
    name = "%s%s-d%s-s%s-h%d%s%s" % ("_".join(map(str, docs)), "s" if iter_sent else "d", num_doc, num_sent, skip, "" if newline else "-nonl", "-len" if len_first else "")
    OBLIGATIONS.append({"name": name, "fn": "items", "tier": tier, "base": base,
                        "params": {"docs": list(docs), "iter_sent": iter_sent, "num_doc": num_doc, "num_sent": num_sent, "skip": skip, "newline": newline, "len_first": len_first, "dom": dom},
                        "bound": "a file of lines of %s characters, %s, num_doc %s, num_sent %s, skip_header %d" % (docs, "sentences" if iter_sent else "documents", num_doc, num_sent, skip),
                        "expect": ["done"] + ([] if empty else ["items"])})


ob([], newline=False, empty=True)
ob([], True, newline=False, empty=True)
ob([], True, num_sent=1, newline=False, empty=True)
ob([], num_doc=2, newline=False, empty=True)
ob([3, 2], base=True)
ob([3, 2], newline=False, len_first=True)
ob([2, 0, 1], base=True)
ob([2, 2, 1], num_doc=2, base=True)
ob([2, 1], num_doc=5, len_first=True)
ob([1, 2, 1], skip=1)
ob([1, 2, 1, 1], skip=1, num_doc=2)
ob([1, 1], skip=2, empty=True)
ob([1, 1], skip=3, num_doc=1, empty=True)
ob([1, 1], True, skip=5, empty=True)
ob([5], True, base=True)
ob([4, 2], True, len_first=True, base=True)
ob([6], True, dom="corpus2")
ob([4, 1], True, num_sent=1)
ob([4, 4], True, num_sent=2)
ob([4, 1, 2], True, num_sent=3, len_first=True)
ob([3, 1, 1], True, num_doc=1)
ob([1, 4, 1], True, num_doc=2, len_first=True)
ob([4, 4, 1], True, num_doc=2, num_sent=2)
ob([1, 4, 1], True, skip=1, num_sent=2)
ob([4, 1, 1], False, num_sent=1)
ob([4, 1, 4, 1], False, num_sent=2, len_first=True)
ob([1, 4, 1], False, num_sent=2, num_doc=2)
ob([2, 1, 1], True, num_doc=0, num_sent=0)
ob([5, 5], True, num_sent=2, tier="thorough")
ob([4, 4, 3], True, num_doc=2, skip=0, tier="thorough")
ob([7], True, tier="thorough")
OBLIGATIONS.append({"name": "missing", "fn": "missing", "params": {}, "bound": "a missing file", "expect": ["done"]})


def many(name, docs, times, **kw):
    pr = {"docs": list(docs), "times": times, "iter_sent": False, "num_doc": None, "num_sent": None, "skip": 0, "newline": True, "len_first": False, "dom": "corpus"}
    pr.update(kw)
    OBLIGATIONS.append({"name": "many-" + name, "fn": "items", "params": pr, "expect": ["done", "items"],
                        "bound": "a file of lines of %s characters, each %s times; %s" % (list(docs), " or ".join(map(str, times)), ", ".join("%s %s" % (k, v) for k, v in sorted(kw.items())))})


many("docs", [1, 2], [1, 10, 101])
many("docs-limit", [1, 1], [9, 30], num_doc=[1, 10, 11, 50])
many("docs-skip", [1], [12, 101], skip=10, num_doc=[5, 100], len_first=True)
many("sents", [4, 1], [1, 10, 31], iter_sent=True)
many("sents-limit", [4], [9, 30], iter_sent=True, num_sent=[1, 10, 25])
many("sents-docs", [4, 1], [3, 11], iter_sent=True, num_doc=[4, 10], len_first=True)
many("docs-sents", [4], [3, 20], num_sent=[4, 10])
