"""C09: MaxScoreTokenizer."""
from soynlp.tokenizer import MaxScoreTokenizer
from harness.common import eojeols, dictionary, maxscore, join, shaped, shape_name


def tokens(S):
    entries = dictionary(S, "w", S.params["lens"], lo=S.params.get("lo", 0))
    if "shape" in S.params:
        s = shaped(S, S.params["shape"], [k for k, v in entries])
    else:
        s = S.text("s", S.params["n"], S.params["dom"])
    default = S.real("default", -1, 1) if S.params["default"] else 0.0
    maxlen = S.params["maxlen"]
    scores = {k: v for k, v in entries}
    if S.params["default"]:
        t = MaxScoreTokenizer(scores, max_length=maxlen, default_score=default)
    elif maxlen != 10:
        t = MaxScoreTokenizer(scores, maxlen)
    else:
        t = MaxScoreTokenizer(scores=scores)
    out = t.tokenize(s, flatten=False)
    S.observe(s, [[list(w) for w in words] for words in out])
    eo = eojeols(s)
    S.check(len(out) == len(eo), "one token list per eojeol")
    for e, words in zip(eo, out):
        want = maxscore(S, entries, default, maxlen, e)
        S.check_eq(join([w[0] for w in words]), e, "the tokens spell the eojeol")
        S.check(len(words) == len(want), "the best-first rule selects other words")
        for w, x in zip(words, want):
            S.check_eq(w[0], x[0], "token word")
            S.check_eq((w[1], w[2], w[4]), (x[1], x[2], x[4]), "token offsets and length")
            S.check(S.eq(w[3], x[3]), "token score")
    flat = [w[0] for words in out for w in words]
    S.check_eq(t.tokenize(s), flat, "flattened form")
    S.check_eq(t(s), flat, "calling tokenizes")
    if len(eo) > 1:
        S.reach("two")
    if len(flat) > len(eo):
        S.reach("split")
    S.reach("tokens")


def long(S):
    """eojeols longer than any fixed number of words"""
    m = S.params["copies"]
    a, b = S.char("a", "letter"), S.char("b", "letter")
    S.assume(S.not_(S.eq(a, b)))
    x = S.real("x", 0, 1)
    y = S.real("y", 0, 1)
    S.assume(x > y)
    S.assume(y > 0)
    unit = a + b
    e = unit * m
    t = MaxScoreTokenizer({unit: x, b + a: y}, max_length=2)
    out = t.tokenize(e, flatten=False)[0]
    S.check(len(out) == m, "an eojeol of many words is cut into all of them")
    for i, w in enumerate(out):
        S.check_eq((w[0], w[1], w[2]), (unit, 2 * i, 2 * i + 2), "token of a long eojeol")
    S.reach("long")


OBLIGATIONS = []


def ob(n, lens, default=False, maxlen=10, dom="letter", tier="quick", base=False, lo=0):
    ex = ["tokens"]
    if n >= 3 and (lens or maxlen < n):
        ex.append("split")
    OBLIGATIONS.append({"name": "n%d-%s%s-m%d-%s%s" % (n, "".join([str(x) for x in lens]), "d" if default else "", maxlen, dom, "-neg" if lo else ""), "fn": "tokens", "tier": tier, "base": base,
                        "params": {"n": n, "lens": lens, "default": default, "maxlen": maxlen, "dom": dom, "lo": lo},
                        "bound": "sentence of %d characters (domain %s), dictionary of words of lengths %s with scores in [%d, 1], maximum length %d%s" % (
                            n, dom, lens, lo, maxlen, ", default score in [-1, 1]" if default else ""), "expect": ex})


for n in [0, 1, 2]:
    ob(n, [1, 2], True, dom="sent")
ob(3, [2], dom="sent", base=True)
ob(3, [1, 2], True, dom="sent", base=True)
ob(3, [2, 2], True, 2, base=True)
ob(4, [2, 3], True, dom="sent")
ob(4, [2, 2], lo=-1)
ob(4, [3], True, 3)
ob(5, [2, 3], True)
ob(5, [2, 2], False, 3)
ob(5, [1, 2, 3], False)
ob(5, [2, 1], True, 2, dom="sent")
ob(6, [2], True, 4)
ob(6, [3, 2], False)
ob(6, [2, 3, 1], True, 3, tier="thorough")
ob(7, [2, 3], False, 4, tier="thorough")
ob(6, [2, 2], True, 10, dom="sent", tier="thorough")
OBLIGATIONS.append({"name": "long", "fn": "long", "params": {"copies": 120}, "bound": "an eojeol of 120 copies of one two-character word", "expect": ["long"]})
OBLIGATIONS.append({"name": "over-maxlen", "fn": "tokens", "params": {"n": 12, "lens": [], "default": False, "maxlen": 10, "dom": "letter"},
                    "bound": "an eojeol of 12 characters, empty dictionary, default maximum length", "expect": ["tokens", "split"]})


def shape(parts, lens, default=False, maxlen=10, tier="quick"):
    ex = ["tokens", "split"] + (["two"] if " " in parts else [])
    OBLIGATIONS.append({"name": "shape-%s-%s%s-m%d" % (shape_name(parts), "_".join([str(x) for x in lens]), "d" if default else "", maxlen), "fn": "tokens", "tier": tier,
                        "params": {"shape": parts, "lens": lens, "default": default, "maxlen": maxlen, "dom": "letter"}, "expect": ex,
                        "bound": "sentence %s of dictionary words and other text; words of lengths %s with scores in [0, 1], maximum length %d%s" % (
                            shape_name(parts), lens, maxlen, ", default score in [-1, 1]" if default else "")})


shape([0, 1, 0], [2, 3])
shape([0, [1], 0, [1]], [3])
shape([0, 1, " ", 1, 0, " ", 0], [2, 2], True)
shape([0, [2]], [9, 10])
shape([[1], 0, 1], [7, 2], False, 7)
shape([0, 1, 0, 1], [2, 2], False, 3, tier="thorough")
