"""C26: conjugate and conjugate_chat."""
from soynlp.hangle import compose, decompose
from soynlp.lemmatizer import conjugate, conjugate_chat
from harness.common import join

BRIGHT = {"ㅏ": "ㅓ", "ㅑ": "ㅕ", "ㅗ": "ㅜ", "ㅛ": "ㅠ"}
DARK = {"ㅓ": "ㅏ", "ㅕ": "ㅑ", "ㅜ": "ㅗ", "ㅠ": "ㅛ"}
FINALS = "ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"


def syllable(c):
    return "가" <= c and c <= "힣"


def words(S):
    """stem and ending"""
    p = S.params
    stem = S.text("s", p["stem"], p.get("sdom", "syl"))
    ending = S.text("e", p["ending"], p.get("edom", ["syl"] * p["ending"]))
    return stem, ending


def forms(stem, ending):
    """the conjugations of regular and irregular predicates"""
    n = len(stem)
    front, last, rest = stem[:-1], stem[-1], ending[1:]
    a, b, f = decompose(last)
    plain = stem + ending
    if not syllable(ending[0]):
        # -ㄴ, -ㄹ, -ㅁ, -ㅂ, -ㅆ close the last syllable
        return [front + compose(a, b, ending[0]) + rest]
    x, y, z = decompose(ending[0])
    vowel = x == "ㅇ"
    open_ = f == " "
    bare = front + compose(a, b, " ")
    out = []
    if ending[0] == "다":
        out.append(plain)
    if vowel and f == "ㄷ":
        out.append(front + compose(a, b, "ㄹ") + ending)
        out.append(plain)
    if last == "르" and vowel and n >= 2 and stem[-2] != "푸" and (y == "ㅏ" or y == "ㅓ"):
        c = decompose(stem[-2])
        out.append(stem[:-2] + compose(c[0], c[1], "ㄹ") + compose("ㄹ", y, z) + rest)
    if vowel and f == "ㅂ":
        if y == "ㅓ" or y == "ㅏ":
            dark = y == "ㅓ" or n >= 2 and (last == "답" or last == "곱" or last == "깝" or last == "롭")
            out.append(bare + compose("ㅇ", "ㅝ" if dark else "ㅘ", z) + rest)
        else:
            out.append(bare + ending)
    if vowel and f == "ㅅ":
        out.append(plain if last == "벗" else bare + ending)
    if open_ and vowel and b == "ㅜ" and y == "ㅓ":
        out.append(front + compose(a, "ㅓ" if last == "푸" else "ㅝ", z) + rest)
    if open_ and vowel and b == "ㅗ" and y == "ㅏ":
        out.append(front + compose(a, "ㅘ", z) + rest)
    if open_ and vowel and b == "ㅡ" and a != "ㄹ":
        out.append(front + compose(a, y, z) + rest)
    if len(ending) >= 2 and (ending[0] == "어" or ending[0] == "아") and ending[1] == "라":
        if last == "오":
            out.append(front + "와" + rest)
        elif last == "우":
            out.append(front + "워" + rest)
        elif last == "가":
            out.append(stem + rest)
        elif b in DARK:
            out.append(stem + "어" + rest)
        else:
            out.append(stem + "아" + rest)
    if last == "르" and vowel and y == "ㅓ" and not (n >= 2 and stem[-2] == "구"):
        out.append(stem + compose("ㄹ", "ㅓ", z) + rest)
    if last == "하" and vowel and (y == "ㅏ" or y == "ㅓ"):
        out.append(stem + compose("ㅇ", "ㅕ", z) + rest)
        out.append(front + compose("ㅎ", "ㅐ", z) + rest)
    if f == "ㅎ":
        out.append(plain if last == "좋" or last == "놓" else bare + ending)
        if last != "좋" and vowel and (y == "ㅏ" or y == "ㅓ"):
            out.append(front + compose(a, "ㅐ" if y == "ㅏ" else "ㅔ", z) + rest)
        if x == "ㄴ":
            out.append(plain)
    if open_ and vowel and b == "ㅣ" and y == "ㅓ":
        out.append(front + compose(a, "ㅕ", z) + rest)
        out.append(plain)
    if not out:
        if open_ and vowel and y == b:
            out.append(front + compose(a, b, z) + rest)
        else:
            out.append(plain)
    return out


def exactly(S, got, want, msg):
    for w in want:
        S.check(w in got, msg + ": a form is missing")
    for g in got:
        S.check(S.any_of([S.eq(g, w) for w in want if len(w) == len(g)]), msg + ": a form too many")


def conjugation(S):
    stem, ending = words(S)
    got = conjugate(stem, ending)
    S.observe(len(got))
    S.check(len(got) >= 1, "at least one form")
    exactly(S, got, forms(stem, ending), "forms of the conjugation")
    S.reach("done")
    if len(got) >= 2:
        S.reach("several")


def laws(S):
    """what every conjugation keeps of the stem and of the ending"""
    stem, ending = words(S)
    got = conjugate(stem, ending)
    n, m = len(stem), len(ending)
    a, b, f = decompose(stem[-1])
    S.check(len(got) >= 1, "at least one form")
    start = syllable(ending[0])
    x, y, z = decompose(ending[0]) if start else ("", "", ending[0])
    plain = stem + ending
    for g in got:
        S.check(len(g) == n + m or len(g) == n + m - 1, "length of a form")
        S.check(S.all_of([S.is_in(c, "syl") for c in g]), "a form consists of syllables")
        if m > 1:
            S.check_eq(g[len(g) - m + 1:], ending[1:], "the ending's later syllables are kept")
        if n >= 2:
            S.check_eq(g[:n - 2], stem[:n - 2], "the stem's earlier syllables are kept")
            if not S.fork(S.eq(stem[-1], "르")):
                S.check_eq(g[n - 2], stem[-2], "the stem's last syllable but one is kept")
            else:
                c, d = decompose(g[n - 2]), decompose(stem[-2])
                S.check(S.any_of([S.eq(g[n - 2], stem[-2]), S.all_of([c[0] == d[0], c[1] == d[1], c[2] == "ㄹ"])]), "르 closes the syllable before at most")
        S.check(decompose(g[n - 1])[0] == a, "the first consonant of the stem's last syllable is kept")
        k = len(g) - m
        if not start:
            h = decompose(g[k])
            S.check(len(g) == n + m - 1 and h[0] == a and h[1] == b and h[2] == z, "a consonant ending closes the stem")
            S.reach("consonant")
        else:
            h = decompose(g[k])
            S.check(h[2] == z, "the last consonant of the ending's first syllable is kept")
            if x != "ㅇ":
                S.check_eq(g[k:], ending, "an ending that begins with a consonant is kept")
                S.reach("kept")
    if start and x != "ㅇ" and f != "ㅎ":
        S.check(len(got) == 1, "one form before a consonant")
        S.check(plain in got, "the plain concatenation before a consonant")
    if start and x == "ㅇ" and f != " " and f != "ㄷ" and f != "ㅂ" and f != "ㅅ" and f != "ㅎ" and not (m >= 2 and (ending[0] == "아" or ending[0] == "어") and ending[1] == "라"):
        S.check(len(got) == 1, "one form of a regular stem that ends in a consonant")
        S.check(plain in got, "the plain concatenation after a consonant")
        S.reach("regular")
    S.reach("done")


def harmony(S):
    """vowel harmony enforced"""
    stem, ending = words(S)
    a, b, f = decompose(stem[-1])
    got = conjugate(stem, ending, enforce_moum_harmoney=True)
    h = ending
    if syllable(ending[0]):
        x, y, z = decompose(ending[0])
        if x == "ㅇ":
            if b in BRIGHT and f != "ㅂ" and y in DARK:
                h = compose(x, DARK[y], z) + ending[1:]
                S.reach("brightened")
            elif (b in DARK and f != "ㅂ" or b == "ㅡ" or b == "ㅣ") and y in BRIGHT:
                h = compose(x, BRIGHT[y], z) + ending[1:]
                S.reach("darkened")
    exactly(S, got, forms(stem, h), "harmony enforced")
    S.reach("done")


def chat(S):
    """endings of chat: any consonant may close the stem"""
    stem, ending = words(S)
    got = conjugate_chat(stem, ending)
    S.observe(len(got))
    if len(ending) == 0:
        S.check(len(got) == 1, "without an ending the stem")
        S.check(stem in got, "without an ending the stem")
    elif syllable(ending[0]):
        exactly(S, got, forms(stem, ending), "as in plain conjugation")
    else:
        exactly(S, got, forms(stem, ending), "the consonant closes the stem")
        S.reach("consonant")
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


FIVE = [(0x3134, 0x3134), (0x3139, 0x3139), (0x3141, 0x3142), (0x3146, 0x3146)]
ANY = [(ord(c), ord(c)) for c in FINALS]
IEUNG = [(0xAC00 + 11 * 588, 0xAC00 + 12 * 588 - 1)]
OTHER = [(0xAC00, 0xAC00 + 11 * 588 - 1), (0xAC00 + 12 * 588, 0xD7A3)]
QUICK = [(1, 1), (1, 2), (2, 1), (2, 2), (4, 3)]
for n, m in QUICK + [(3, 1), (3, 2), (1, 5), (7, 1)]:
    for fn in ("conjugation", "laws", "harmony"):
        for tag, dom in (("v", IEUNG), ("c", OTHER), ("j", FIVE)):
            what = {"v": "a vowel", "c": "a consonant syllable", "j": "a closing consonant"}[tag]
            ex = ["done"] + (["several"] if fn == "conjugation" and tag == "v" else []) + (["brightened", "darkened"] if fn == "harmony" and tag == "v" else [])
            add("%s-%d-%s%d" % (fn, n, tag, m), fn, "every stem of %d syllables and ending of %d syllables that begins with %s" % (n, m, what),
                "quick" if (n, m) in QUICK else "thorough", ex, stem=n, ending=m, edom=[list(dom)] + ["syl"] * (m - 1))
for tag, dom in (("v", IEUNG), ("c", OTHER), ("j", ANY)):
    add("chat-2-" + tag, "chat", "every stem of 2 syllables and ending of 2 characters (first: %s)" % {"v": "vowel", "c": "consonant syllable", "j": "any consonant that can close a syllable"}[tag], expect=["done"] + (["consonant"] if tag == "j" else []), stem=2, ending=2, edom=[list(dom), "syl"])
add("chat-0", "chat", "every stem of 2 syllables without an ending", stem=2, ending=0, edom=[])
add("chat-1-jj", "chat", "every stem of 1 syllable and ending of 3 characters: any two consonants that can close a syllable and a syllable", expect=["done", "consonant"], stem=1, ending=3, edom=[ANY, ANY, "syl"])
