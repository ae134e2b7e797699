"""C06: repeat_normalize, emoticon_normalize (and the repeat option of the normalisers)."""
from soynlp.normalizer import repeat_normalize, emoticon_normalize, normalize
from soynlp.hangle import normalize as legacy
from harness.common import runs as runs_of

CHO = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
JUNG = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
JONG = " ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"


def wordchar(c):
    return c.isalnum() or c == "_"


def shorten(s, k, least=3):
    """runs of at least `least` equal word characters become k copies"""
    out = ""
    i = 0
    while i < len(s):
        j = i + 1
        while j < len(s) and s[j] == s[i]:
            j += 1
        n = j - i
        if n >= least and k > 0 and wordchar(s[i]):
            n = k
        out = out + s[i] * n
        i = j
    return out


def collapse(s):
    """white space collapsed and trimmed"""
    out = ""
    gap = False
    for c in s:
        if c.isspace():
            gap = True
        else:
            if gap and len(out) > 0:
                out = out + " "
            gap = False
            out = out + c
    return out


def repeat(S):
    n, k = S.params["n"], S.params["k"]
    s = S.text("s", n, S.params["dom"])
    r = repeat_normalize(s, k) if k != 2 else repeat_normalize(s)
    S.observe(s, r)
    S.check_eq(r, collapse(shorten(s, k)), "repeat_normalize shortens exactly the runs of three or more")
    if len(r) < n:
        S.reach("shorter")
    S.reach("repeat")


def runs(S):
    """longer strings: runs of characters"""
    s = runs_of(S, S.params["runs"])
    k = S.choose("k", S.params["ks"])
    r = repeat_normalize(s, k)
    S.observe(s, r)
    S.check_eq(r, collapse(shorten(s, k)), "repeat_normalize shortens exactly the runs of three or more")
    S.reach("runs")


def emoticon(S):
    n, k = S.params["n"], S.params["k"]
    doms = S.params.get("doms")
    s = runs_of(S, S.params["runs"]) if S.params.get("runs") else S.text("s", n, doms if doms else S.params["dom"])
    r = emoticon_normalize(s, 0)
    S.observe(s, r)
    # walk: every character of the (white space collapsed) input is consumed by r unchanged,
    # or, if it is a syllable next to a lone jamo, by its own letters
    t = collapse(s)
    p = 0
    for i, c in enumerate(t):
        S.check(p < len(r), "letters were lost")
        if r[p] == c:
            p += 1
            continue
        near = (i > 0 and S.fork(S.is_in(t[i - 1], "jamo"))) or (i + 1 < len(t) and S.fork(S.is_in(t[i + 1], "jamo")))
        S.check(near, "only a syllable next to a lone jamo is split")
        S.check(S.is_in(c, "syl"), "only syllables are split")
        x = ord(c) - 0xAC00
        cho, jung, jong = CHO[x // 588], JUNG[(x % 588) // 28], JONG[x % 28]
        if S.fork(S.eq(x % 28, 0)):
            forms = [cho + jung]
        else:
            forms = [cho + jung + jong, chr(ord(c) - x % 28) + jong]
        done = False
        for f in forms:
            if r[p:p + len(f)] == f:
                p += len(f)
                done = True
                S.reach("split")
                break
        S.check(done, "a split syllable gives its own letters")
    S.check(p == len(r), "letters were added")
    if k > 0:
        rk = emoticon_normalize(s, k) if k != 2 else emoticon_normalize(s)
        S.check_eq(rk, collapse(shorten(r, k)), "with repeats requested, runs of three or more are shortened")
        S.observe(rk)
    S.reach("emoticon")


def normalizers(S):
    """the repeat option of the normalisers is repeat shortening of their output"""
    n, k = S.params["n"], S.params["k"]
    s = S.text("s", n, S.params["dom"])
    r = normalize(s, alphabet=True, number=True, remove_repeat=k)
    S.check_eq(r, collapse(shorten(normalize(s, alphabet=True, number=True), k)), "normalize(remove_repeat)")
    q = legacy(s, english=True, number=True, remove_repeat=k)
    S.check_eq(q, legacy(shorten(s, k, 4), english=True, number=True), "hangle.normalize(remove_repeat)")
    S.observe(r, q)
    S.reach("normalizers")


OBLIGATIONS = []
for k in [0, 1, 2, 3]:
    for n, dom, tier in [(0, "any", "quick"), (1, "any", "quick"), (2, "any", "quick"), (3, "text", "quick"), (4, "text", "quick"), (5, "text", "quick"), (6, "text", "thorough"), (7, "letter", "thorough")]:
        if k not in (0, 2) and n in (0, 1, 2):
            continue
        OBLIGATIONS.append({"name": "repeat-%d-%d" % (k, n), "fn": "repeat", "params": {"n": n, "k": k, "dom": dom}, "tier": tier, "base": n == 3,
                            "bound": "%d characters, domain %s, %d repeats" % (n, dom, k), "expect": ["repeat"] + (["shorter"] if n >= 3 else [])})
for n, dom, k, tier in [(0, "text", 2, "quick"), (1, "text", 2, "quick"), (2, "text", 2, "quick"), (3, "text", 2, "quick"), (3, "hangul", 0, "quick"), (4, "hangul", 1, "thorough"),
                        (4, "hangul", 2, "thorough")]:
    OBLIGATIONS.append({"name": "emoticon-%s-%d-%d" % (dom, k, n), "fn": "emoticon", "params": {"n": n, "k": k, "dom": dom}, "tier": tier, "base": n == 2,
                        "bound": "%d characters, domain %s, %d repeats" % (n, dom, k), "expect": ["emoticon"] + (["split"] if n >= 2 else [])})
for i, doms in enumerate([["jaum", "syllable", "moum", "hangul"], ["hangul", "jaum", "syllable", "jaum"], ["syllable", "syllable", "jamo", "jamo"], ["jamo", "syllable", "syllable", "jamo"],
                          ["syllable", "jaum", "jaum", "jaum"], ["jaum", "jaum", "syllable", "moum", "moum"], ["jaum", "syllable", "jaum", "syllable"],
                          ["jaum", "open_syllable", "moum", "moum", "moum"], ["syllable", "jaum", "space", "syllable", "moum"]]):
    OBLIGATIONS.append({"name": "emoticon-mix-%d" % i, "fn": "emoticon", "params": {"n": len(doms), "k": 2, "doms": doms}, "base": False,
                        "bound": "strings with characters of kinds %s" % (doms,), "expect": ["emoticon", "split"]})
for n, dom, k, tier in [(2, "text", 1, "quick"), (3, "text", 1, "quick"), (4, "word", 2, "quick"), (5, "word", 3, "thorough"), (5, "word", 2, "thorough"), (4, "text", 2, "thorough")]:
    OBLIGATIONS.append({"name": "normalizers-%d-%d" % (n, k), "fn": "normalizers", "params": {"n": n, "dom": dom, "k": k}, "tier": tier,
                        "bound": "%d characters, domain %s, %d repeats" % (n, dom, k), "expect": ["normalizers"]})
for i, (rs, ks) in enumerate([([["word", [1]], ["text", [4, 5, 6, 7, 8, 9, 10, 11, 12, 20]], ["word", [1]]], [0, 1, 2, 3]),
                              ([["word", [2, 3, 9]], ["word", [2, 3, 13]], ["word", [2, 3, 6]], ["word", [1, 3]]], [1, 2]),
                              ([["word", [2, 7]], ["blank", [1, 2, 8]], ["word", [2, 3, 6]]], [0, 1, 2, 3])]):
    OBLIGATIONS.append({"name": "runs-%d" % i, "fn": "runs", "params": {"runs": rs, "ks": ks},
                        "bound": "runs of characters of domains and lengths %s, %s repeats" % (rs, ks), "expect": ["runs"]})
for i, (rs, k) in enumerate([([["jaum", [4, 9]], ["syllable", [1, 2]], ["jamo", [1, 7]]], 2), ([["syllable", [3, 8]], ["jaum", [1, 6]], ["syllable", [1, 3]]], 3),
                             ([["jaum", [1, 5]], ["open_syllable", [1]], ["moum", [1, 8]]], 1)]):
    OBLIGATIONS.append({"name": "emoticon-runs-%d" % i, "fn": "emoticon", "params": {"n": None, "k": k, "runs": rs},
                        "bound": "runs of characters of domains and lengths %s, %d repeats" % (rs, k), "expect": ["emoticon", "split"]})
