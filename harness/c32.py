"""C32: most_similar, sort_by_alphabet, check_dirs."""
import os
from math import sqrt
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.utils import most_similar, sort_by_alphabet, check_dirs


def similar(S):
    """the items nearest to one of them"""
    p = S.params
    n, m = p["rows"], p["columns"]
    q = S.choose("query", list(range(n)))
    rows = []
    for i in range(n):
        rows.append(list(p["query"]) if i == q else [S.int("v%d.%d" % (i, j), p["lo"], p["hi"]) for j in range(m)])
    items = ["item%d" % i for i in range(n)]
    index = {w: i for i, w in enumerate(items)}
    vector = np.asarray(rows, dtype=float)
    if p.get("sparse"):
        vector = csr_matrix(vector)
    topk = S.choose("topk", p["topk"])
    got = most_similar(items[q], vector, index, items, topk)
    want = {}
    for i in range(n):
        if i == q:
            continue
        d, a, b = 0, 0, 0
        for x, y in zip(rows[q], rows[i]):
            d = d + x * y
            a = a + x * x
            b = b + y * y
        a, b = np.sqrt(a), np.sqrt(b)
        want[items[i]] = d / (a * b) if a > 0 and b > 0 else 0
    S.check(len(got) == (min(topk, n - 1) if topk > 0 else n - 1), "as many items as asked for")
    S.check(len(set(w for w, x in got)) == len(got), "every item once")
    for w, x in got:
        S.check(w in want, "items other than the query")
        S.check(S.close(x, want[w]), "the cosine similarity")
    for (w, x), (v, y) in zip(got, got[1:]):
        S.check(x >= y - 1e-9, "in order of similarity")
    names = [w for w, x in got]
    for w, x in want.items():
        if w not in names and len(got) > 0:
            S.check(x <= got[-1][1] + 1e-9, "no item left out is more similar")
            S.reach("left out")
    S.check(most_similar("none", vector, index, items, topk) == [], "nothing is similar to an unknown item")
    S.observe(len(got))
    S.reach("done")


def sorting(S):
    """a file's lines in order"""
    p = S.params
    lines = [S.text("l%d" % i, n, p["dom"]) for i, n in enumerate(p["lines"])]
    text = ""
    for i, x in enumerate(lines):
        text = text + x + ("\n" if p.get("last", True) or i + 1 < len(lines) else "")
    S.write_file("words.txt", text)
    sort_by_alphabet(S.path("words.txt"))
    after = S.read_file(S.path("words.txt"))
    kept = [x.strip() for x in lines]
    kept = [x for x in kept if len(x) > 0]
    out = after.split("\n")
    S.check(len(after) == 0 if not kept else out[-1] == "", "every line ends")
    out = out[:-1]
    S.check(len(out) == len(kept), "a line for every line that is not blank")
    for x in kept:
        S.check(len([y for y in out if y == x]) == len([y for y in kept if y == x]), "every line as often as before")
    for x, y in zip(out, out[1:]):
        S.check(x <= y, "in order")
    sort_by_alphabet(S.path("words.txt"))
    S.check(S.read_file(S.path("words.txt")) == after, "sorting again changes nothing")
    S.observe(out)
    S.reach("done")


def directories(S):
    """the directory of a file"""
    p = S.params
    word = S.choose("name", p["names"])
    S.write_file("there/other.txt", "text\n")
    check_dirs(S.path(word))
    S.check(S.read_file(S.path("there/other.txt")) == "text\n", "what is there stays")
    with open(S.path(word), "w", encoding="utf-8") as f:
        f.write("more\n")
    S.check(S.read_file(S.path(word)) == "more\n", "the file can be written")
    check_dirs(S.path(word))
    S.check(S.read_file(S.path(word)) == "more\n", "what is there stays")
    S.check(not os.path.exists(S.path(word) + "/none"), "nothing else is made")
    check_dirs("plain.txt")
    S.reach("done")


def exports(S):
    """the names the package lists"""
    import soynlp.utils as utils
    names = list(utils.__all__)
    name = S.choose("name", names)
    S.check(hasattr(utils, name), "every name listed exists")
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


add("similar-2", "similar", "three items of two numbers in 0..2, any of them the query; 1 to 3 or all", rows=3, columns=2, query=(1, 2), lo=0, hi=2, topk=[1, 2, 3, -1, 0], expect=("done", "left out"))
add("similar-signs", "similar", "three items of two numbers in -1..1", rows=3, columns=2, query=(1, 1), lo=-1, hi=1, topk=[1, 2], expect=("done", "left out"))
add("similar-three", "similar", "three items of three numbers in 0..1", rows=3, columns=3, query=(1, 0, 2), lo=0, hi=1, topk=[1, 5], expect=("done", "left out"))
add("similar-zero", "similar", "a query without features", rows=3, columns=2, query=(0, 0), lo=0, hi=2, topk=[1, 2], expect=("done", "left out"))
add("similar-sparse", "similar", "a sparse matrix of three items of two numbers in 0..2", rows=3, columns=2, query=(1, 2), lo=0, hi=2, topk=[1, 2, -1], sparse=True, expect=("done", "left out"))
add("similar-four", "similar", "four items of two numbers in 0..1", rows=4, columns=2, query=(1, 2), lo=0, hi=1, topk=[1, 2, 3], expect=("done", "left out"))
L = [(9, 9), (32, 32), (65, 90), (97, 122), (44032, 55203)]
add("sort-1", "sorting", "a line of 2 characters", lines=[2], dom=L)
add("sort-2", "sorting", "lines of 2 and 1 characters", lines=[2, 1], dom=L)
add("sort-3", "sorting", "lines of 1, 2 and 1 characters, the last without an end", lines=[1, 2, 1], dom=L, last=False)
add("sort-4", "sorting", "four lines of 2 characters", lines=[2, 2, 2, 2], dom=[(97, 122)])
add("sort-0", "sorting", "no lines", lines=[], dom=L)
add("directories", "directories", "a directory that is there, or not, or its parents are not", names=["new.txt", "there/new.txt", "gone/new.txt", "there/gone/new.txt", "gone/gone/gone/new.txt"])
add("exports", "exports", "every name soynlp.utils lists")
