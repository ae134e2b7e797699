"""C05: text filters."""
import warnings
from soynlp.normalizer import normalize, only_hangle, only_hangle_number, only_text, remain_hangle_on_last, normalize_sent_for_lrgraph
from soynlp.normalizer import remove_doublespace
from soynlp.hangle import normalize as legacy
from harness.common import runs

LATIN = [(65, 90), (97, 122)]
DIGIT = [(48, 57)]
HANGUL = [(0x3131, 0x314E), (0x314F, 0x3163), (0xAC00, 0xD7A3)]
QUOTES = [(0x22, 0x22), (0x27, 0x27)]
PUNCT = [(0x21, 0x21), (0x2C, 0x2C), (0x2E, 0x2E), (0x3F, 0x3F)]
BRACKETS = [(0x28, 0x29), (0x5B, 0x5B), (0x5D, 0x5D), (0x7B, 0x7B), (0x7D, 0x7D)]
LEGACY_PUNCT = [(33, 34), (39, 39), (44, 44), (46, 46), (63, 63), (96, 96)]


def kept(S, chars, allowed):
    """exactly the allowed characters, one blank for every stretch of others between two of them"""
    out = ""
    gap = False
    for c in chars:
        if S.fork(S.is_in(c, allowed)):
            if gap and len(out) > 0:
                out = out + " "
            gap = False
            out = out + c
        else:
            gap = True
    return out


def run(S, f, allowed):
    n = S.params["n"]
    s = runs(S, S.params["runs"]) if S.params.get("runs") else S.text("s", n, S.params["dom"])
    n = len(s)
    r = f(s)
    S.observe(s, r)
    S.check_eq(r, kept(S, [c for c in s], allowed), "the filter keeps exactly the allowed characters")
    S.check_eq(f(r), r, "the filter is idempotent")
    if len(r) > 0:
        S.reach("kept")
    if len(r) < n:
        S.reach("dropped")


def hangle(S):
    run(S, only_hangle, HANGUL)


def hangle_number(S):
    run(S, only_hangle_number, HANGUL + DIGIT)


def text(S):
    run(S, only_text, HANGUL + LATIN + DIGIT + QUOTES + PUNCT + BRACKETS)


def flagged(S):
    a, d, p, y = S.params["flags"]
    allowed = HANGUL + QUOTES
    if a:
        allowed = allowed + LATIN
    if d:
        allowed = allowed + DIGIT
    if p:
        allowed = allowed + PUNCT
    if y:
        allowed = allowed + BRACKETS
    run(S, lambda x: normalize(x, alphabet=a, number=d, punctuation=p, symbol=y), allowed)


def legacy_flags(S):
    e, d, p = S.params["flags"]
    allowed = HANGUL
    if e:
        allowed = allowed + LATIN
    if d:
        allowed = allowed + DIGIT
    if p:
        allowed = allowed + LEGACY_PUNCT
    remains = S.params["remains"]
    if remains:
        allowed = allowed + [(ord(c), ord(c)) for c in remains]
        run(S, lambda x: legacy(x, english=e, number=d, punctuation=p, remains=remains), allowed)
    else:
        run(S, lambda x: legacy(x, english=e, number=d, punctuation=p), allowed)


def trim_last(S, e):
    """cut right after the last Hangul character"""
    for k in range(len(e) - 1, -1, -1):
        if S.fork(S.is_in(e[k], HANGUL)):
            return e[:k + 1]
    return ""


def trim(S):
    e = runs(S, S.params["runs"]) if S.params.get("runs") else S.text("e", S.params["n"], "nonws")
    r = remain_hangle_on_last(e)
    S.observe(e, r)
    S.check_eq(r, trim_last(S, e), "the trimmer cuts right after the last Hangul character")
    S.reach("trim")


def lrgraph(S):
    n = S.params["n"]
    s = runs(S, S.params["runs"]) if S.params.get("runs") else S.text("s", n, S.params["dom"])
    r = normalize_sent_for_lrgraph(s)
    S.observe(s, r)
    words = []
    for w in kept(S, [c for c in s], HANGUL + LATIN + DIGIT + QUOTES + PUNCT).split(" "):
        w = trim_last(S, w)
        if len(w) > 0:
            words.append(w)
    S.check_eq(r, " ".join(words), "every eojeol is trimmed, those without Hangul are dropped")
    if len(words) > 1:
        S.reach("two")
    S.reach("lrgraph")


def blanks(S):
    """remove_doublespace: every stretch of white space becomes one blank"""
    s = S.text("s", S.params["n"], "text")
    r = remove_doublespace(s)
    out = ""
    prev = False
    for c in s:
        if c.isspace():
            if not prev:
                out = out + " "
            prev = True
        else:
            out = out + c
            prev = False
    S.check_eq(r, out, "white space is collapsed")
    S.observe(s, r)
    S.reach("blanks")


OBLIGATIONS = []
for fn in ["hangle", "hangle_number", "text"]:
    for n, dom, tier in [(0, "any", "quick"), (2, "any", "quick"), (3, "text", "quick"), (4, "text", "quick"), (5, "text", "quick"), (6, "text", "thorough"), (7, "text", "thorough")]:
        OBLIGATIONS.append({"name": "%s-%d" % (fn, n), "fn": fn, "params": {"n": n, "dom": dom}, "tier": tier, "base": n == 2,
                            "bound": "%d characters, domain %s" % (n, dom), "expect": ["kept", "dropped"] if n else []})
for i in range(16):
    fl = [bool(i & 8), bool(i & 4), bool(i & 2), bool(i & 1)]
    for n, dom, tier in [(2, "any", "quick"), (3, "text", "quick"), (5, "text", "thorough")]:
        OBLIGATIONS.append({"name": "normalize-%s-%d" % ("".join("andpsy"[2 * 0 + k] if f else "-" for k, f in enumerate(fl)), n), "fn": "flagged",
                            "params": {"n": n, "dom": dom, "flags": fl}, "tier": tier, "base": n == 2, "expect": ["kept", "dropped"],
                            "bound": "%d characters, domain %s, flags alphabet/number/punctuation/symbol=%s" % (n, dom, fl)})
for i in range(8):
    fl = [bool(i & 4), bool(i & 2), bool(i & 1)]
    for n, dom, tier in [(2, "any", "quick"), (3, "text", "quick"), (5, "text", "thorough")]:
        for rem in ["", "a-"]:
            if n == 3 and rem and i not in (0, 7):
                continue
            OBLIGATIONS.append({"name": "legacy-%d-%d%s" % (i, n, "r" if rem else ""), "fn": "legacy_flags", "tier": tier, "base": n == 2,
                                "params": {"n": n, "dom": dom, "flags": fl, "remains": rem}, "expect": ["kept", "dropped"],
                                "bound": "%d characters, domain %s, flags english/number/punctuation=%s remains=%r" % (n, dom, fl, rem)})
for n in range(0, 7):
    OBLIGATIONS.append({"name": "trim-%d" % n, "fn": "trim", "params": {"n": n}, "bound": "eojeols of %d characters without white space" % n, "expect": ["trim"]})
for n, dom, tier in [(0, "any", "quick"), (2, "any", "quick"), (3, "text", "quick"), (4, "text", "quick"), (5, "text", "thorough"), (6, "text", "thorough")]:
    OBLIGATIONS.append({"name": "lrgraph-%d" % n, "fn": "lrgraph", "params": {"n": n, "dom": dom}, "tier": tier, "base": n == 2,
                        "bound": "sentences of %d characters, domain %s" % (n, dom), "expect": ["lrgraph"] + (["two"] if n > 2 else [])})
for n in [1, 2, 3, 4]:
    OBLIGATIONS.append({"name": "blanks-%d" % n, "fn": "blanks", "params": {"n": n}, "bound": "%d characters, domain text" % n, "expect": ["blanks"]})
# longer strings: runs of characters
for fn in ["hangle", "hangle_number", "text"]:
    OBLIGATIONS.append({"name": fn + "-runs", "fn": fn, "params": {"n": None, "runs": [["text", [1, 9]], ["text", [1, 2, 12]], ["text", [1, 5]]]},
                        "bound": "three runs of any characters, up to 9, 12 and 5 times", "expect": ["kept", "dropped"]})
OBLIGATIONS.append({"name": "normalize-runs", "fn": "flagged", "params": {"n": None, "flags": [True, True, False, False], "runs": [["text", [1, 8]], ["text", [1, 3, 11]], ["text", [1, 6]]]},
                    "bound": "three runs of any characters, up to 8, 11 and 6 times, letters and digits kept", "expect": ["kept", "dropped"]})
OBLIGATIONS.append({"name": "legacy-runs", "fn": "legacy_flags", "params": {"n": None, "remains": "", "flags": [False, True, True], "runs": [["text", [1]], ["text", [3]], ["text", [1, 3]]]},
                    "bound": "three runs of any characters, up to three times, digits and punctuation kept", "expect": ["kept", "dropped"]})
OBLIGATIONS.append({"name": "trim-runs", "fn": "trim", "params": {"n": None, "runs": [["nonws", [1, 7]], ["nonws", [1, 8]], ["nonws", [1, 2, 9]]]},
                    "bound": "eojeols of three runs of any characters, up to 7, 8 and 9 times", "expect": ["trim"]})
OBLIGATIONS.append({"name": "lrgraph-runs", "fn": "lrgraph", "params": {"n": None, "runs": [["hangul", [1, 9]], ["text", [1, 7]], ["hangul", [1, 3]], ["text", [1, 8]]]},
                    "bound": "sentences of four runs of any characters, up to 9 times", "expect": ["lrgraph", "two"]})
