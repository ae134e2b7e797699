"""C24: pmi and pmi_memory_friendly."""
import math
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.word._pmi import pmi, pmi_memory_friendly


def near(S, a, b):
    return S.close(a, b, 1e-6)


def matrix(S):
    """counts: a list of rows, None where the matrix stores nothing"""
    p = S.params
    n, m = p["shape"]
    cells = []
    data, rows, cols = [], [], []
    for i in range(n):
        row = []
        for j in range(m):
            k = p["pattern"][i][j]
            if k == "?":
                k = "x" if S.flag("stored%d.%d" % (i, j)) else "."
            v = None
            if k == "x":
                v = S.int("x%d.%d" % (i, j), 1, p.get("hi", 50))
            elif k == "0":
                v = S.int("x%d.%d" % (i, j), 0, p.get("hi", 50))
            elif k == "e":
                # the same power of two in every such cell
                v = S.choose("e", [1, 4, 32]) if not data else data[0]
            elif k == "r":
                v = S.real("x%d.%d" % (i, j), 0.125, 50)
            elif k != ".":
                v = int(k)
            if v is not None:
                rows.append(i)
                cols.append(j)
                data.append(v)
            row.append(v)
        cells.append(row)
    return csr_matrix((data, (rows, cols)), shape=(n, m)), cells


def total(xs):
    s = 0
    for x in xs:
        if x is not None:
            s = s + x
    return s


def definition(S):
    p = S.params
    n, m = p["shape"]
    x, cells = matrix(S)
    every = total([v for r in cells for v in r])
    if not S.fork(every > 0):
        return
    kw = {}
    alpha = S.choose("alpha", p["alpha"]) if p.get("alpha") else 0
    if p.get("alpha"):
        kw["alpha"] = alpha
    minp = S.choose("min_pmi", p["min"]) if p.get("min") else 0
    if p.get("min"):
        kw["min_pmi"] = minp
    beta = p.get("beta", 1)
    if beta != 1:
        kw["beta"] = beta
    rowsum = [total(r) for r in cells]
    colsum = [total([r[j] for r in cells]) for j in range(m)]
    px = [s / every for s in rowsum]
    given = None
    if p.get("py"):
        given = [S.choose("py%d" % j, p["py"]) for j in range(m)]
        kw["py"] = np.array([given])
        py = given
    else:
        py = [s / every for s in colsum]
    if beta < 1:
        py = [np.power(v, beta) for v in py]
        norm = total(py)
        if not S.fork(norm > 0):
            return
        py = [v / norm for v in py]
    friendly = p.get("friendly")
    out, rx, ry = (pmi_memory_friendly if friendly else pmi)(x, **kw)
    S.check(out.shape[0] == n and out.shape[1] == m, "shape")
    rx, ry = np.asarray(rx).reshape(-1).tolist(), np.asarray(ry).reshape(-1).tolist()
    S.check(len(rx) == n and len(ry) == m, "one probability per row and column")
    for i in range(n):
        S.check(near(S, rx[i], px[i]), "row probabilities")
    for j in range(m):
        S.check(near(S, ry[j], py[j]), "column probabilities")
    bound = math.exp(minp)
    a = out.toarray()
    for i in range(n):
        for j in range(m):
            v = cells[i][j]
            if v is None or S.fork(S.eq(v, 0)) or S.fork(S.eq(px[i], 0)) or S.fork(S.eq(py[j], 0)):
                S.check(S.eq(a[i, j], 0), "no cell without a count")
                continue
            ratio = (v / every) / (px[i] * (py[j] + alpha))
            if S.fork(ratio >= bound):
                S.check(near(S, math.exp(a[i, j]), ratio), "the logarithm of the ratio of probabilities")
                S.reach("kept")
            else:
                S.check(S.eq(a[i, j], 0), "no cell below the minimum")
                S.reach("below")
    y = x.toarray()
    for i in range(n):
        for j in range(m):
            S.check_eq(y[i, j], 0 if cells[i][j] is None else cells[i][j], "the counts are left as they were")
    S.reach("done")


OBLIGATIONS = []


def add(name, shape, pattern, tier="quick", expect=("done", "kept"), **params):
    params.update({"shape": list(shape), "pattern": pattern})
    OBLIGATIONS.append({"name": name, "fn": "definition", "params": params, "base": True, "tier": tier, "expect": list(expect),
                        "bound": "%d by %d counts up to %d, cells %s (x positive, ? any, 0 possibly an explicit zero, r a weight, e equal ones)%s" % (shape[0], shape[1], params.get("hi", 50), " | ".join(pattern),
                                                                                            "".join("; %s in %s" % (k, params[k]) for k in ("alpha", "min", "beta", "py") if k in params))})


for fr in (False, True):
    t = "-friendly" if fr else ""
    add("any-2x2" + t, (2, 2), ["??", "??"], friendly=fr)
    add("any-2x3" + t, (2, 3), ["x?x", "?x?"], friendly=fr)
    add("min" + t, (2, 2), ["xx", "?x"], friendly=fr, hi=12, min=[0, 0.25, 1, -0.5], expect=("done", "kept", "below"))
    add("equal-to-min" + t, (2, 2), ["e.", ".e"], friendly=fr, min=[math.log(2)], hi=64)
    add("alpha" + t, (2, 2), ["x?", "xx"], friendly=fr, alpha=[0.0, 0.125, 1.0], hi=12)
    add("explicit-zeros" + t, (2, 2), ["0x", "00"], friendly=fr, min=[0, -3], hi=9)
    add("zero-column" + t, (3, 2), ["x.", "..", "x."], friendly=fr, min=[0, -3], hi=9)
    add("beta" + t, (2, 2), ["x?", "?x"], friendly=fr, beta=0.75, hi=4)
    add("beta-alpha" + t, (2, 2), ["xx", ".x"], friendly=fr, hi=4, beta=0.5, alpha=[0.25], min=[-1])
    add("given" + t, (2, 3), ["xx.", "?.x"], friendly=fr, py=[0.25, 0.0, 0.5], alpha=[0.0, 0.125], min=[0, -1])
    add("given-beta" + t, (2, 2), ["xx", "?x"], friendly=fr, py=[0.25, 0.0, 0.5], beta=0.75, hi=9, min=[-9])
    add("weights" + t, (2, 2), ["r?", "rr"], friendly=fr)
    add("one" + t, (1, 1), ["x"], friendly=fr)
    add("any-3x3" + t, (3, 3), ["xx?", "?x.", "x.x"], "thorough", friendly=fr, min=[0, -1])
