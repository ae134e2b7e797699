"""C07: soynlp.tokenizer.normalize."""
from soynlp.tokenizer import normalize
from harness.common import eojeols

CHO = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
JUNG = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
JONG = " ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"


def wordchars(u):
    for c in u:
        if not (c.isalnum() or c == "_"):
            return False
    return True


def shorten(s, k):
    """units of 4, 3, 2, 1 word characters repeated four or more times become k copies"""
    for w in [4, 3, 2, 1]:
        out = ""
        i = 0
        while i < len(s):
            u = s[i:i + w]
            m = 1
            if i + 4 * w <= len(s):
                while len(u) == w and s[i + m * w:i + (m + 1) * w] == u:
                    m += 1
            if m >= 4 and wordchars(u):
                out = out + u * k
                i += m * w
            else:
                out = out + s[i]
                i += 1
        s = out
    return s


def walk(S, t, r):
    """every character of t appears in r unchanged or as its own letters"""
    p = 0
    for i, c in enumerate(t):
        S.check(p < len(r), "letters were lost")
        if r[p] == c:
            p += 1
            continue
        near = (i > 0 and S.fork(S.is_in(t[i - 1], "jamo"))) or (i + 1 < len(t) and S.fork(S.is_in(t[i + 1], "jamo")))
        S.check(near, "only a syllable next to a lone jamo is split")
        S.check(S.is_in(c, "syl"), "only syllables are split")
        x = ord(c) - 0xAC00
        cho, jung, jong = CHO[x // 588], JUNG[(x % 588) // 28], JONG[x % 28]
        if S.fork(S.eq(x % 28, 0)):
            forms = [cho + jung]
        else:
            forms = [cho + jung + jong, chr(ord(c) - x % 28) + jong]
        done = False
        for f in forms:
            if r[p:p + len(f)] == f:
                p += len(f)
                done = True
                S.reach("split")
                break
        S.check(done, "a split syllable gives its own letters")
    S.check(p == len(r), "letters were added")


def sentence(S):
    n, k = S.params["n"], S.params["k"]
    doms = S.params.get("doms")
    s = S.text("s", n, doms if doms else S.params["dom"])
    r = normalize(s, 0)
    S.observe(s, r)
    toks = eojeols(s)
    out = eojeols(r)
    S.check(len(toks) == len(out), "the number of tokens is kept")
    S.check_eq(r, " ".join(out), "tokens are separated by one blank")
    for a, b in zip(toks, out):
        walk(S, a, b)
    if k:
        rk = normalize(s, k) if k != 2 else normalize(s)
        S.observe(rk)
        S.check_eq(rk, " ".join([shorten(x, k) for x in out]), "repeats of four or more are shortened")
    S.reach("sentence")


def units(S):
    """repeated units: prefix + unit * copies + suffix"""
    k = S.params["k"]
    u = S.text("u", S.params["w"], S.params["dom"])
    p = S.text("p", S.params["pre"], S.params["dom"])
    q = S.text("q", S.params["post"], S.params["dom"])
    s = p + u * S.params["m"] + q
    r = normalize(s, 0)
    rk = normalize(s, k)
    S.observe(s, r, rk)
    S.check_eq(r, " ".join(eojeols(r)), "tokens are separated by one blank")
    S.check_eq(rk, " ".join([shorten(x, k) for x in eojeols(r)]), "repeated units are shortened")
    S.reach("units")


OBLIGATIONS = []
for n, dom, k, tier in [(0, "any", 2, "quick"), (1, "any", 2, "quick"), (2, "any", 0, "quick"), (2, "text", 2, "quick"), (3, "text", 2, "quick"), (3, "hangul", 1, "quick"), (4, "hangul", 0, "thorough"),
                        (4, "jamo", 2, "quick"), (5, "letter", 2, "quick"), (4, "text", 0, "thorough"), (6, "letter", 1, "quick"), (7, "letter", 3, "thorough")]:
    OBLIGATIONS.append({"name": "sentence-%s-%d-%d" % (dom, n, k), "fn": "sentence", "params": {"n": n, "dom": dom, "k": k}, "tier": tier, "base": n in (2, 3),
                        "bound": "%d characters, domain %s, %d repeats" % (n, dom, k), "expect": ["sentence"]})
for i, doms in enumerate([["syllable", "jaum", "jaum", "jaum", "jaum"], ["jaum", "open_syllable", "moum", "moum"], ["syllable", "jamo", "space", "jamo", "syllable"],
                          ["syllable", "syllable", "jaum", "space", "syllable"], ["open_syllable", "moum", "open_syllable", "moum"], ["latin", "syllable", "jaum", "latin"]]):
    OBLIGATIONS.append({"name": "mix-%d" % i, "fn": "sentence", "params": {"n": len(doms), "k": 2, "doms": doms},
                        "bound": "strings with characters of kinds %s" % (doms,), "expect": ["sentence"]})
for w, m, pre, post, k, tier in [(1, 4, 1, 1, 2, "quick"), (1, 5, 1, 1, 3, "quick"), (1, 3, 1, 1, 2, "quick"), (2, 4, 1, 1, 2, "quick"), (2, 4, 0, 1, 1, "quick"), (2, 3, 1, 2, 2, "quick"), (2, 5, 1, 0, 2, "quick"),
                                 (3, 4, 1, 1, 2, "quick"), (3, 4, 0, 0, 1, "quick"), (4, 4, 1, 0, 2, "quick"), (4, 4, 0, 1, 1, "quick"), (4, 3, 1, 0, 2, "quick"), (5, 4, 0, 0, 2, "quick"),
                                 (4, 5, 1, 1, 3, "thorough"), (3, 5, 1, 2, 2, "thorough"), (2, 5, 2, 2, 2, "thorough")]:
    OBLIGATIONS.append({"name": "units-%d-%d-%d%d-%d" % (w, m, pre, post, k), "fn": "units", "tier": tier,
                        "params": {"w": w, "m": m, "pre": pre, "post": post, "k": k, "dom": "word"},
                        "bound": "%d characters + %d copies of a unit of %d characters + %d characters, %d repeats" % (pre, m, w, post, k), "expect": ["units"]})
OBLIGATIONS.append({"name": "units-text-1-4", "fn": "units", "params": {"w": 1, "m": 4, "pre": 1, "post": 1, "k": 2, "dom": "text"},
                    "bound": "1 + 4 copies of one character + 1, domain text", "expect": ["units"]})
for w, ms, pre, post, k in [(1, [6, 9, 12, 20], 1, 1, 2), (2, [6, 8, 11], 0, 1, 2), (3, [6, 9], 0, 0, 3), (1, [7, 10], 0, 2, 5), (4, [6, 7], 0, 0, 1)]:
    for m in ms:
        OBLIGATIONS.append({"name": "units-%d-%d-%d%d-%d" % (w, m, pre, post, k), "fn": "units",
                            "params": {"w": w, "m": m, "pre": pre, "post": post, "k": k, "dom": "word"},
                            "bound": "%d characters + %d copies of a unit of %d characters + %d characters, %d repeats" % (pre, m, w, post, k), "expect": ["units"]})
