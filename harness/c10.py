"""C10: RegexTokenizer."""
from soynlp.tokenizer import RegexTokenizer
from harness.common import eojeols, join, runs

SYL = [(0xAC00, 0xD7A3)]
JAUM = [(0x3131, 0x314E)]
MOUM = [(0x314F, 0x3163)]
LATIN = [(65, 90), (97, 122), (0xC0, 0xFF)]
KINDS = [SYL, JAUM, MOUM, LATIN]


def tokens(S):
    s = runs(S, S.params["runs"]) if S.params.get("runs") else S.text("s", S.params["n"], S.params["dom"])
    t = RegexTokenizer()
    out = t.tokenize(s, flatten=False)
    S.observe(s, out)
    eo = eojeols(s)
    S.check(len(out) == len(eo), "one token list per eojeol")
    for e, words in zip(eo, out):
        S.check_eq(join(words), e, "the tokens spell the eojeol")
        for w in words:
            S.check(len(w) > 0, "no empty token")
            # classes of the token's characters
            kinds = [S.any_of([S.is_in(c, k) for c in w]) for k in KINDS]
            for i in range(4):
                for j in range(i):
                    S.check(S.not_(S.all_of([kinds[i], kinds[j]])), "a token mixes character types")
        for a, b in zip(words, words[1:]):
            for k in (SYL, JAUM, MOUM):
                S.check(S.not_(S.all_of([S.is_in(a[-1], k), S.is_in(b[0], k)])), "a stretch of one type is cut")
    flat = [w for words in out for w in words]
    S.check_eq(t.tokenize(s), flat, "flattened form")
    S.check_eq(t(s, debug=False), flat, "calling tokenizes")
    S.reach("tokens")
    if len(eo) > 1:
        S.reach("two")
    if len(flat) > len(eo):
        S.reach("split")


OBLIGATIONS = []
NUM = [(32, 32), (43, 43), (45, 46), (49, 50)]
LAT = [(32, 32), (39, 39), (93, 93), (96, 96), (97, 98), (115, 115)]
HAN = SYL + JAUM + MOUM
MIX = sorted(NUM + LAT[1:] + HAN)


def ob(name, doms, tier="quick", base=False):
    n = len(doms)
    ex = ["tokens"]
    if n >= 2:
        ex.append("split")
    OBLIGATIONS.append({"name": "n%d-%s" % (n, name), "fn": "tokens", "params": {"n": n, "dom": doms}, "tier": tier, "base": base,
                        "bound": "sentences of %d characters, domain %s" % (n, name), "expect": ex})


ob("any", [])
ob("any", ["any"], base=True)
ob("any", ["any"] * 2)
ob("any-0", [[(0, 47), (58, 64), (91, 96)]] + ["any"] * 2)
ob("any-1", [[(48, 57), (65, 90), (97, 0x3130)]] + ["any"] * 2)
ob("any-2", [[(0x3131, 0xABFF)]] + ["any"] * 2)
ob("any-3", [[(0xAC00, 0xD7FF), (0xE000, 0x10FFFF)]] + ["any"] * 2, base=True)
ob("mixed-number", [NUM] + [MIX] * 3)
ob("mixed-latin", [LAT] + [MIX] * 3)
ob("mixed-hangul", [HAN] + [MIX] * 3, base=True)
ob("number", [NUM] * 5)
ob("latin", [LAT] * 5)
ob("hangul", [HAN + [(32, 32)]] * 5)
for i, d in enumerate([NUM[:2], NUM[2:], LAT[:3], LAT[3:], SYL, JAUM, MOUM]):
    ob("mixed%d" % i, [d] + [MIX] * 4, tier="thorough")
    ob("any4-%d" % i, [d] + ["any"] * 3, tier="thorough")
for i, rs in enumerate([[[SYL, [1, 12]], [JAUM, [1, 9]], [MIX, [1, 8]]], [[MIX, [1, 10]], [LAT, [1, 11]], [SYL, [9]]], [[NUM, [1, 9]], [MIX, [2, 7]], [NUM, [1, 10]]],
                        [[MOUM, [12]], [HAN, [1, 7]], [LAT, [2, 9]], [SYL, [7]]]]):
    OBLIGATIONS.append({"name": "runs-%d" % i, "fn": "tokens", "params": {"n": None, "runs": rs}, "bound": "runs of characters, up to %s times" % [r[1][-1] for r in rs], "expect": ["tokens", "split"]})
