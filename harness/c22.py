"""C22: document-term matrix, Matrix Market file and bags of words."""
from soynlp.vectorizer import BaseVectorizer
from harness.common import eojeols
from harness.c21 import documents, count, uniq


def cells(S, mat):
    """{(row, column): value} of a sparse matrix"""
    n, m = mat.shape
    a = mat.toarray()
    return [[a[i, j] for j in range(m)] for i in range(n)]


def parse(S, text):
    """header and entries of a Matrix Market file"""
    lines = text.split("\n")
    S.check_eq(lines[0], "%%MatrixMarket matrix coordinate integer general", "Matrix Market banner")
    S.check(text.endswith("\n"), "last line ends")
    k = 1
    while lines[k].startswith("%"):
        k += 1
    rows = [[int(x) for x in l.split()] for l in lines[k:] if len(l) > 0]
    for r in rows:
        S.check(len(r) == 3, "three numbers per line")
    return rows[0], rows[1:]


def agree(S):
    p = S.params
    docs, toks, kw = documents(S)
    v = BaseVectorizer(verbose=False, **kw)
    if p.get("vocab") is not None:
        terms = [S.text("v%d" % i, n, p["dom"]) for i, n in enumerate(p["vocab"])]
        for i in range(len(terms)):
            for j in range(i):
                S.assume(S.not_(S.eq(terms[i], terms[j])))
        v._set_vocabulary(terms)
        mat = v.transform(docs)
    elif p.get("limits"):
        v.min_tf = S.int("min_tf", 0, 4)
        v.fit(docs)
        mat = v.transform(docs)
    else:
        mat = v.fit_transform(docs)
    terms = list(v.idx2vocab)
    S.observe(terms)
    S.check(mat.shape[0] == len(docs), "one row per document")
    S.check(mat.shape[1] == len(terms), "one column per term")
    want = [[count(t, ts) for t in terms] for ts in toks]
    got = cells(S, mat)
    S.check_eq(got, want, "cells are term counts")
    for i, d in enumerate(docs):
        bow = v.encode_a_doc_to_bow(d)
        nz = [j for j in range(len(terms)) if want[i][j] > 0]
        S.check(len(bow) == len(nz), "the bag holds the terms of the row")
        for j in nz:
            S.check_eq(bow[j], want[i][j], "the bag equals the row")
            S.reach("cell")
    f = S.path(p.get("file", "x.mm"))
    if p.get("fit_file"):
        w = BaseVectorizer(verbose=False, **kw)
        w.fit_to_file(docs, f)
        S.check_eq(w.idx2vocab, terms, "fitted to the same terms")
    else:
        v.to_file(docs, f)
    head, entries = parse(S, S.read_file(f))
    total = 0
    for row in want:
        for c in row:
            total += 1 if c > 0 else 0
    S.check_eq(head, [len(docs), len(terms), total], "dimensions and number of entries")
    S.check(len(entries) == total, "as many entries as declared")
    seen = []
    for r, c, n in entries:
        S.check(S.all_of([1 <= r, r <= len(docs), 1 <= c, c <= len(terms)]), "one-based indices")
        S.check((r, c) not in seen, "a cell is written once")
        seen.append((r, c))
        S.check_eq(n, want[r - 1][c - 1], "the cell's count")
    S.reach("done")


OBLIGATIONS = []


def add(name, bound, tier="quick", expect=("done", "cell"), **params):
    OBLIGATIONS.append({"name": name, "fn": "agree", "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


add("fit-2-2", "two documents of 2 tokens of one letter; vocabulary fitted", tokens=True, docs=[[1, 1], [1, 1]], dom="letter")
add("fit-3", "documents of 3 tokens of lengths 1 2 1, and of 1 token; vocabulary fitted", tokens=True, docs=[[1, 2, 1], [2]], dom="letter")
add("fit-limits", "documents of 2, 0 and 2 tokens; vocabulary fitted with every minimum frequency", tokens=True, docs=[[1, 1], [], [1, 1]], dom="letter", limits=True)
add("fit-file", "documents of 2 and 2 tokens; fit_to_file", tokens=True, docs=[[1, 1], [1, 1]], dom="letter", fit_file=True)
add("given-2", "documents of 2 and 1 tokens; a vocabulary of any two terms", tokens=True, docs=[[1, 1], [1]], dom="letter", vocab=[1, 1])
add("given-3", "documents of 3 and no tokens; a vocabulary of any two terms", tokens=True, docs=[[1, 1, 1], []], dom="letter", vocab=[1, 1])
add("given-3b", "documents of 2 and 2 tokens of lengths 1 and 2; a vocabulary of terms of lengths 2 1", tokens=True, docs=[[1, 2], [2, 1]], dom="letter", vocab=[2, 1])
add("given-last-empty", "no document holds the last term of a vocabulary", tokens=True, docs=[[1], [1]], dom="letter", vocab=[1, 2])
add("given-0", "documents of 1 and 1 tokens; an empty vocabulary", tokens=True, docs=[[1], [1]], dom="letter", vocab=[], expect=("done",))
add("text-3-2", "documents of 3 and 2 characters: letters and white space", docs=[3, 2], dom="sent")
add("text-4", "a document of 4 characters: letters and white space", docs=[4], dom="sent")
add("text-dir", "a document of 3 characters; the file lies in a directory that does not exist yet", docs=[3], dom="sent", file="new/dir/x.mm")
add("given-4", "documents of 3 and 2 tokens; a vocabulary of any three terms", tokens=True, docs=[[1, 1, 1], [1, 1]], dom="letter", vocab=[1, 1, 1])
add("fit-4", "three documents of 2 tokens; vocabulary fitted", tokens=True, docs=[[1, 1], [1, 1], [1, 1]], dom="letter")
add("text-6", "documents of 3 and 3 characters", "thorough", docs=[3, 3], dom="sent")
add("times-2", "two terms of one letter, each 1, 9, 10, 12 or 101 times in one document", times=[1, 9, 10, 12, 101], docs=[[1, 1]], dom="letter")
add("times-given", "a vocabulary of one term, two documents of 1, 60 or 260 words", times=[1, 60, 260], docs=[[1], [1]], vocab=[1], dom="letter")
