"""C11: MaxLRScoreTokenizer."""
from soynlp.tokenizer import MaxLRScoreTokenizer
from harness.common import eojeols, join, dictionary, member


def tokens(S):
    p = S.params
    Dl = dictionary(S, "l", p["l"])
    Dr = dictionary(S, "r", p["r"])
    Pl = dictionary(S, "pl", p["pl"])
    Pr = dictionary(S, "pr", p["pr"])
    if "shape" in p:
        # dictionary words and other text in a row
        s = ""
        for i, x in enumerate(p["shape"]):
            if isinstance(x, int):
                s = s + S.text("u%d" % i, x, p["dom"])
            else:
                s = s + {"l": Dl, "r": Dr}[x[0]][int(x[1])][0]
    else:
        s = S.text("s", p["n"], p["dom"])
    form = p["form"]
    kw = {}
    if Pl:
        kw["preference_l"] = {k: v for k, v in Pl}
    if Pr:
        kw["preference_r"] = {k: v for k, v in Pr}
    if form == "dict":
        t = MaxLRScoreTokenizer({k: v for k, v in Dl}, {k: v for k, v in Dr}, **kw)
    elif form == "collections":
        t = MaxLRScoreTokenizer(Dl=[k for k, v in Dl], Dr={k for k, v in Dr}, **kw)
    else:
        t = MaxLRScoreTokenizer(tokenizer_builder=lambda g: ({k: v for k, v in Dl}, {k: v for k, v in Dr}), **kw)
    out = t.tokenize(s, flatten=False)
    S.observe(s, [[list(x) for x in words] for words in out])
    eo = eojeols(s)
    S.check(len(out) == len(eo), "one list per eojeol")
    for e, words in zip(eo, out):
        S.check_eq(join([w for w, tag in words]), e, "the words spell the eojeol")
        for w, tag in words:
            S.check(len(w) > 0, "no empty word")
            S.check(tag == "L" or tag == "R", "every word is tagged L or R")
            if tag == "R":
                S.check(member(S, Dr + Pr, w), "an R word is in the R dictionary")
                S.reach("R")
            else:
                S.reach("L")
    flat = [w for words in out for w in words]
    S.check_eq(t.tokenize(s), flat, "flattened form")
    S.check_eq(t(s, debug=False), flat, "calling tokenizes")
    S.reach("tokens")


OBLIGATIONS = []


def ob(n, l, r, pl=(), pr=(), form="dict", dom="letter", tier="quick", base=False):
    ex = ["tokens"]
    if n:
        ex.append("L")
    if n and (r or pr):
        ex.append("R")
    name = "n%d-L%s-R%s-%s%s%s" % (n, "".join(map(str, l)), "".join(map(str, r)), "".join(map(str, pl)), "".join(map(str, pr)), form[0] + dom[0])
    OBLIGATIONS.append({"name": name, "fn": "tokens", "tier": tier, "base": base,
                        "params": {"n": n, "l": list(l), "r": list(r), "pl": list(pl), "pr": list(pr), "form": form, "dom": dom},
                        "bound": "sentence of %d characters, L words of lengths %s, R words of lengths %s, preferences %s / %s (given as %s), scores in [0, 1]" % (
                            n, list(l), list(r), list(pl), list(pr), form), "expect": ex})


ob(0, [1], [1])
ob(2, [1, 2], [1], dom="sent", base=True)
ob(3, [1, 2], [1], dom="sent", base=True)
ob(4, [2], [1, 2], base=True)
ob(4, [1], [2])
ob(4, [2], [1], dom="sent")
ob(3, [], [1, 2])
ob(4, [], [2])
ob(5, [2], [2])
ob(5, [2, 3], [1])
ob(4, [2], [1], [2], [1])
ob(4, [2], [2], form="collections")
ob(4, [2], [2], form="builder")
ob(4, [], [], [1], [2])
ob(6, [2], [1], tier="thorough")
ob(5, [2, 2], [1, 2], tier="thorough")
ob(5, [2], [2], [3], [1], tier="thorough", dom="sent")
ob(7, [2], [])
ob(6, [1], [1])


def shape(l, r, parts, tier="quick"):
    OBLIGATIONS.append({"name": "shape-%s-L%s-R%s" % ("_".join(map(str, parts)), "".join(map(str, l)), "".join(map(str, r))), "fn": "tokens", "tier": tier,
                        "params": {"shape": parts, "l": l, "r": r, "pl": [], "pr": [], "form": "dict", "dom": "letter"},
                        "bound": "sentences made of L words of lengths %s, R words of lengths %s and other text: %s" % (l, r, parts), "expect": ["tokens", "L"]})


shape([1], [2], ["l0", "r0", 1, "l0"])
shape([2], [3], ["l0", "r0", 1, "l0", "r0"])
shape([1], [2], [1, "l0", "r0", 2, "l0"], "thorough")
shape([4], [3], ["l0", "r0", 2])
shape([2, 5], [3], ["l1", "r0", 1, "l0"], "thorough")
