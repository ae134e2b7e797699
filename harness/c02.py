"""C02: ConvolutionHangleEncoder round trip."""
from soynlp.hangle import ConvolutionHangleEncoder
from harness.common import runs

CHO = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
JUNG = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
JONG = " ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"


def expected_text(S, chars):
    """kept characters, blanks for the others, collapsed and trimmed"""
    out = ""
    gap = False
    for c in chars:
        if S.fork(S.any_of([S.is_in(c, "hangul"), S.is_in(c, "digit")])):
            if gap and len(out) > 0:
                out = out + " "
            gap = False
            out = out + c
        else:
            gap = True
    return out


def encode(S):
    n = S.params.get("n")
    doms = S.params.get("doms")
    s = runs(S, S.params["runs"]) if "runs" in S.params else S.text("s", n, doms if doms else S.params["dom"])
    enc = ConvolutionHangleEncoder()
    want = expected_text(S, [c for c in s])
    idx = enc.sent_to_onehot(s)
    S.observe(s, idx)
    S.check(len(idx) == len(want), "one entry per remaining character")
    for c, e in zip(want, idx):
        o = ord(c)
        if S.fork(S.is_in(c, "space")):
            S.check_eq(e, (78,), "index of a blank")
            S.reach("blank")
        elif S.fork(S.is_in(c, "digit")):
            S.check_eq(e, (68 + o - 48,), "index of a digit")
            S.reach("digit")
        elif S.fork(S.is_in(c, "syl")):
            S.check(len(e) == 3, "three indices for a syllable")
            k = o - 0xAC00
            S.check_eq(e[0], k // 588, "initial segment")
            S.check_eq(e[1], 19 + (k % 588) // 28, "vowel segment")
            S.check_eq(e[2], 40 + k % 28, "final segment")
            S.reach("syl")
        else:
            S.check(len(e) == 1, "one index for a letter")
            if S.fork(S.is_in(c, "moum")):
                S.check_eq(e[0], 19 + o - 0x314F, "vowel letter")
                S.reach("moum")
            else:
                if c in CHO:
                    S.check_eq(e[0], CHO.index(c), "consonant letter that can be an initial")
                else:
                    S.check_eq(e[0], 40 + JONG.index(c), "consonant cluster")
                S.reach("jaum")
    S.check_eq(enc.onehot_to_sent(idx), want, "decoding gives the normalised sentence")
    if S.params.get("matrix"):
        x = enc.encode(s)
        S.check(x.shape[0] == len(want) and x.shape[1] == 80, "matrix shape")
        for i in range(len(want)):
            e = idx[i]
            row = []
            for j in range(80):
                hot = S.any_of([S.eq(q, j) for q in e])
                row.append(S.eq(x[i, j], S.ite(hot, 1, 0)))
            S.check(S.all_of(row), "matrix cells are one exactly at the indices, zero elsewhere")
        S.reach("matrix")


ALL = ["blank", "digit", "syl", "moum", "jaum"]
OBLIGATIONS = [
    {"name": "n0", "fn": "encode", "params": {"n": 0, "dom": "text", "matrix": True}, "bound": "the empty sentence"},
    {"name": "n1", "fn": "encode", "params": {"n": 1, "dom": "any", "matrix": True}, "bound": "1 character, all of Unicode", "base": True, "expect": ["digit", "syl", "moum", "jaum", "matrix"]},
    {"name": "n2", "fn": "encode", "params": {"n": 2, "dom": "any", "matrix": True}, "bound": "2 characters, all of Unicode", "base": True},
    {"name": "n3", "fn": "encode", "params": {"n": 3, "dom": "text"}, "bound": "3 characters (domain text)", "base": True, "expect": ALL},
    {"name": "n3m", "fn": "encode", "params": {"n": 3, "dom": "text", "matrix": True}, "bound": "3 characters (domain text), with the matrix form", "tier": "thorough"},
    {"name": "n5", "fn": "encode", "params": {"n": 5, "dom": "text"}, "bound": "5 characters (domain text)", "tier": "thorough"},
]
for first in ["syl", "jaum", "moum", "nonhangul"]:
    OBLIGATIONS.append({"name": "n4-" + first, "fn": "encode", "params": {"n": 4, "dom": "text", "doms": [first, "text", "text", "text"]},
                        "bound": "4 characters (domain text), the first in domain " + first})
    OBLIGATIONS.append({"name": "n6-" + first, "fn": "encode", "tier": "thorough", "budget": 1500,
                        "params": {"n": 6, "dom": "text", "doms": [first, "text", "text", "text", "text", "text"]},
                        "bound": "6 characters (domain text), the first in domain " + first})
for i, (spec, matrix) in enumerate([([("text", [1, 12]), ("syl", [1]), ("text", [9])], False), ([("syl", [11]), ("nonhangul", [1, 25]), ("text", [7])], False),
                                    ([("nonhangul", [10, 20]), ("jaum", [1, 8]), ("nonhangul", [1, 11])], False), ([("text", [1, 9]), ("syl", [3])], True)]):
    OBLIGATIONS.append({"name": "runs-%d" % i, "fn": "encode", "params": {"runs": spec, "matrix": matrix},
                        "bound": "runs of characters of domains and lengths %s%s" % (spec, ", with the matrix form" if matrix else "")})
