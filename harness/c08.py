"""C08: LTokenizer."""
from soynlp.tokenizer import LTokenizer
from harness.common import eojeols, lookup, dictionary, shaped, shape_name


def best_cut(S, entries, default, tol, t):
    n = len(t)
    if n <= 2:
        return n
    sc = [(lookup(S, entries, t[:e], default), e) for e in range(2, n + 1)]
    top = sc[0][0]
    for x, _ in sc[1:]:
        top = S.ite(x > top, x, top)
    for x, e in reversed(sc):
        # the longest one that reaches the best score (within the tolerance)
        if S.fork(top - x <= tol):
            return e
    return n


def tokens(S):
    n = S.params.get("n")
    entries = dictionary(S, "w", S.params["lens"])
    if "shape" in S.params:
        s = shaped(S, S.params["shape"], [k for k, v in entries])
    else:
        s = S.text("s", n, S.params["dom"])
    use_default = S.params["default"]
    default = S.real("default", -1, 1) if use_default else 0.0
    tol = S.real("tolerance", 0, 1) if S.params["tol"] else 0.0
    scores = {k: v for k, v in entries}
    if use_default:
        t = LTokenizer(scores, default)
    else:
        t = LTokenizer(scores=scores)
    if S.params["tol"]:
        pairs = t.tokenize(s, tolerance=tol, flatten=False)
    else:
        pairs = t.tokenize(s, flatten=False)
    S.observe(s, [list(p) for p in pairs])
    eo = eojeols(s)
    S.check(len(pairs) == len(eo), "one pair per eojeol")
    for e, p in zip(eo, pairs):
        S.check(len(p) == 2, "a left and a right part")
        S.check_eq(p[0] + p[1], e, "left + right is the eojeol")
        c = best_cut(S, entries, default, tol, e)
        S.check_eq(p[0], e[:c], "the left part is the best prefix")
        if len(p[1]) > 0:
            S.reach("cut")
    S.check_eq(t.tokenize(s, tol, True), [w for p in pairs for w in p if len(w) > 0], "flattened form")
    S.check_eq(t(s, tol), [w for p in pairs for w in p if len(w) > 0], "calling tokenizes")
    lefts = [p[0] for p in pairs]
    S.check_eq(t.tokenize(s, tol, flatten=True, remove_r=True), lefts, "without right parts, flattened")
    S.check_eq(t.tokenize(s, tol, flatten=False, remove_r=True), lefts, "without right parts")
    S.check_eq(scores, {k: v for k, v in entries}, "the caller's scores are not modified")
    if len(eo) > 1:
        S.reach("two")
    S.reach("tokens")


OBLIGATIONS = []


def ob(n, lens, default, tol, dom="sent", tier="quick", base=False, expect=None):
    OBLIGATIONS.append({"name": "n%d-%s%s%s-%s" % (n, "".join([str(x) for x in lens]), "d" if default else "", "t" if tol else "", dom), "fn": "tokens", "tier": tier, "base": base,
                        "params": {"n": n, "lens": lens, "default": default, "tol": tol, "dom": dom},
                        "bound": "sentence of %d characters (domain %s), dictionary of words of lengths %s with scores in [0, 1]%s%s" % (
                            n, dom, lens, ", default score in [-1, 1]" if default else "", ", tolerance in [0, 1]" if tol else ""),
                        "expect": (["tokens", "cut"] if n >= 3 and lens else ["tokens"]) + (["two"] if dom == "sent" and n > 2 else [])})


for n in [0, 1, 2]:
    ob(n, [2], False, False)
ob(3, [2], False, False, base=True)
ob(3, [2, 3], True, True, base=True)
ob(4, [], True, False)
ob(4, [2, 3], False, False, base=True)
ob(4, [2, 3], False, True)
ob(4, [2, 3], True, False)
ob(4, [2, 2, 3], True, True)
ob(5, [2, 3, 4], False, False, "letter")
ob(5, [2, 3, 4], True, True, "letter")
ob(5, [1, 2, 5], False, True, "letter")
ob(5, [2, 3], True, True)
ob(6, [2, 3, 4], False, False, "letter")
ob(6, [2, 4, 5], False, True, "letter", tier="thorough")
ob(6, [2, 3, 3], True, True, tier="thorough")
ob(7, [2, 3], False, True, tier="thorough")


def shape(parts, lens, default, tol, tier="quick"):
    ex = ["tokens", "cut"] + (["two"] if " " in parts else [])
    OBLIGATIONS.append({"name": "shape-%s-%s%s%s" % (shape_name(parts), "_".join([str(x) for x in lens]), "d" if default else "", "t" if tol else ""), "fn": "tokens", "tier": tier,
                        "params": {"shape": parts, "lens": lens, "default": default, "tol": tol, "dom": "letter"}, "expect": ex,
                        "bound": "sentence %s of dictionary words and other text; words of lengths %s with scores in [0, 1]%s%s" % (
                            shape_name(parts), lens, ", default score in [-1, 1]" if default else "", ", tolerance in [0, 1]" if tol else "")})


shape([0, [7]], [2, 5], False, True)
shape([0, [3]], [9, 2, 11], True, True)
shape([0, 1, [2]], [6, 4], False, False)
shape([0, " ", 1, " ", 0, 1, " ", [3]], [2, 3], True, False)
shape([0, [6]], [12, 14, 3], False, True)
shape([0, " ", 0, [2], " ", 0, " ", 0, [1], " ", 0], [4], True, True)
shape([0, [4]], [21, 10, 23], True, False)
