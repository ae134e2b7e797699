"""C27: Lemmatizer, lemma_candidate, lemma_candidate_chat."""
from soynlp.hangle import compose, decompose
from soynlp.lemmatizer import Lemmatizer, lemma_candidate, lemma_candidate_chat, conjugate
from harness.c26 import syllable, FIVE, IEUNG, OTHER


def sound(S):
    """every analysis of a split conjugates back"""
    p = S.params
    l = S.text("l", p["l"], p["ldom"])
    r = S.text("r", p["r"], p["rdom"])
    word = l + r
    got = lemma_candidate(l, r)
    S.observe(len(got))
    for stem, ending in got:
        S.check(len(ending) >= 1 and len(stem) >= 1, "a stem and an ending")
        S.check(word in conjugate(stem, ending), "the analysis conjugates back to the word")
        S.reach("some")
    S.reach("done")


def merged(kind, stem, ending):
    """the surface a class of conjugation forms, None where the class does not apply"""
    front, last, rest = stem[:-1], stem[-1], ending[1:]
    n = len(stem)
    a, b, f = decompose(last)
    if not syllable(ending[0]):
        if kind != "consonant" or not (f == " " or f == "ㄹ" or f == "ㅂ" or f == "ㅎ") or f == ending[0]:
            return None
        return front + compose(a, b, ending[0]) + rest
    x, y, z = decompose(ending[0])
    if kind == "plain":
        return stem + ending
    if x != "ㅇ":
        return front + compose(a, b, " ") + ending if kind == "ㅎ" and f == "ㅎ" and (b == "ㅏ" or b == "ㅓ") and not (last == "좋" or last == "놓") else None
    af = y == "ㅏ" or y == "ㅓ"
    if kind == "ㄷ" and f == "ㄷ":
        return front + compose(a, b, "ㄹ") + ending
    if kind == "르" and last == "르" and n >= 2 and af and decompose(stem[-2])[2] == " " and stem[-2] != "푸":
        c = decompose(stem[-2])
        return stem[:-2] + compose(c[0], c[1], "ㄹ") + compose("ㄹ", y, z) + rest
    if kind == "ㅂ" and f == "ㅂ":
        bare = front + compose(a, b, " ")
        if y == "ㅓ":
            return bare + compose("ㅇ", "ㅝ", z) + rest
        if y == "ㅏ":
            # -답, -곱, -깝, -롭 take 워 for 아 as well, which is read as 어
            if n >= 2 and (last == "답" or last == "곱" or last == "깝" or last == "롭"):
                return None
            return bare + compose("ㅇ", "ㅘ", z) + rest
        if y == "ㅝ" or y == "ㅘ" or len(rest) > 0 and rest[0] == "려":
            return None
        return bare + ending
    if kind == "ㅅ" and f == "ㅅ" and last != "벗":
        return front + compose(a, b, " ") + ending
    if f == " ":
        if kind == "우" and b == "ㅜ" and y == "ㅓ":
            return front + compose(a, "ㅓ" if last == "푸" else "ㅝ", z) + rest
        if kind == "오" and b == "ㅗ" and y == "ㅏ":
            return front + compose(a, "ㅘ", z) + rest
        if kind == "ㅡ" and b == "ㅡ" and a != "ㄹ" and af:
            return front + compose(a, y, z) + rest
        if kind == "하" and last == "하" and y == "ㅏ":
            return front + compose("ㅎ", "ㅐ", z) + rest
        if kind == "이" and b == "ㅣ" and y == "ㅓ" and (z == " " or z == "ㅆ" or z == "ㅅ"):
            return front + compose(a, "ㅕ", z) + rest
    if kind == "ㅎ" and f == "ㅎ" and (b == "ㅏ" or b == "ㅓ"):
        if last == "좋" or last == "놓":
            return None
        return front + compose(a, b, " ") + ending
    if kind == "ㅎ+" and f == "ㅎ" and af and (z == " " or z == "ㄴ" or z == "ㄹ" or z == "ㅂ" or z == "ㅆ"):
        # the vowel of the stem is not seen in the surface: 그렇 after 그, otherwise that of the ending
        if n >= 2 and stem[-2] == "그" and a == "ㄹ":
            if b != "ㅓ":
                return None
        elif b != y:
            return None
        return front + compose(a, "ㅐ" if y == "ㅏ" else "ㅔ", z) + rest
    return None


def recover(S):
    """the conjugations of a dictionary's stem and ending are recovered"""
    p = S.params
    stem = S.text("s", p["s"], p.get("sdom", "syl"))
    ending = S.text("e", p["e"], p["edom"])
    if syllable(ending[0]):
        # no ending begins with such a syllable
        S.assume(S.not_(S.eq(decompose(ending[0])[2], "ㅎ")))
    surface = merged(p["kind"], stem, ending)
    if surface is None:
        return
    if p["kind"] == "plain" and surface not in conjugate(stem, ending):
        return
    if p.get("whole"):
        lem = Lemmatizer({stem}, {ending})
        got = lem.lemmatize(surface)
        S.observe(len(got))
        S.check((stem, ending) in got, "stem and ending are recovered")
        S.check(len(got) == 1, "nothing else is in the dictionaries")
    else:
        k = len(stem)
        found = False
        for i in [k] + [i for i in range(1, len(surface) + 1) if i != k]:
            if (stem, ending) in lemma_candidate(surface[:i], surface[i:]):
                found = True
                break
        S.check(found, "stem and ending are an analysis of a split")
    S.reach("done")


def distinct(S, ws):
    for i in range(len(ws)):
        for j in range(i):
            if len(ws[i]) == len(ws[j]):
                S.assume(S.not_(S.eq(ws[i], ws[j])))


def lemmatize(S):
    """any word, any dictionaries"""
    p = S.params
    word = S.text("w", p["w"], p["wdom"])
    stems = [S.text("s%d" % i, n, p["sdom"]) for i, n in enumerate(p["stems"])]
    endings = [S.text("e%d" % i, n, p["edom"]) for i, n in enumerate(p["endings"])]
    distinct(S, stems)
    distinct(S, endings)
    lem = Lemmatizer(set(stems), set(endings))
    every = set()
    for i in range(1, len(word) + 1):
        every |= lemma_candidate(word[:i], word[i:])
    if p["of"] == "candidates":
        got = lem.candidates(word)
        S.observe(len(got))
        S.check(got == every, "the candidates of every split")
    else:
        only = p["of"] == "stem"
        got = lem.lemmatize(word, check_only_stem=only)
        S.observe(len(got))
        for x in every:
            if x[0] in stems and (only or x[1] in endings):
                S.check(x in got, "every analysis the dictionaries have is found")
                S.reach("some")
        for stem, ending in got:
            S.check(stem in stems, "the stem is in the dictionary")
            if not only:
                S.check(ending in endings, "the ending is in the dictionary")
            S.check((stem, ending) in every, "the analysis is a candidate of a split")
    S.reach("done")


def chat(S):
    """analyses of a split with an emotive last consonant"""
    p = S.params
    l = S.text("l", p["l"], "syl")
    r = S.text("r", p["r"], "syl")
    word = l + r
    got = lemma_candidate_chat(l, r)
    base = lemma_candidate(l, r)
    S.observe(len(got))
    a, b, f = decompose(l[-1])
    cut = len(r) == 0 and (f == "ㄷ" or f == "ㅂ" or f == "ㅅ" or f == "ㅇ" or f == "ㅋ" or f == "ㅎ")
    bare = l[:-1] + compose(a, b, " ")
    more = lemma_candidate(bare, r) if cut else set()
    for x in base:
        S.check(x in got, "the plain analyses")
    for x in more:
        S.check(x in got, "the analyses without the last consonant")
        S.reach("more")
    for x in got:
        S.check(x in base or x in more, "no other analyses")
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


DOMS = {"v": IEUNG, "c": OTHER, "j": FIVE}
KINDS = {"plain": "vc", "consonant": "j", "ㄷ": "v", "르": "v", "ㅂ": "v", "ㅅ": "v", "우": "v", "오": "v", "ㅡ": "v", "하": "v", "ㅎ": "vc", "ㅎ+": "v", "이": "v"}
for k, ts in KINDS.items():
    for t in ts:
        for s, e in ((1, 1), (1, 2), (2, 1), (2, 2)):
            if k == "르" and s == 1:
                continue
            slow = s + e == 4 and k in ("plain", "consonant", "ㅎ")
            add("recover-%s-%d-%s%d" % (k, s, t, e), "recover", "stems of %d and endings of %d syllables (the ending's first: %s); conjugation of class %s" % (s, e, {"v": "begins with a vowel", "c": "begins with a consonant", "j": "a closing consonant"}[t], k),
                "thorough" if slow else "quick", kind=k, s=s, e=e, edom=[list(DOMS[t])] + ["syl"] * (e - 1))
for l, r in ((1, 0), (1, 1), (2, 0), (2, 1), (1, 2)):
    add("sound-%d-%d" % (l, r), "sound", "every split of %d and %d syllables" % (l, r), l=l, r=r, ldom="syl", rdom="syl", expect=("done", "some"))
add("chat-1-0", "chat", "every syllable", l=1, r=0, expect=("done", "more"))
add("chat-2-0", "chat", "every word of 2 syllables", l=2, r=0, expect=("done", "more"))
add("chat-1-1", "chat", "every split of 1 and 1 syllables", l=1, r=1)


def block(c):
    """the syllables that differ from an open one in the closing consonant only"""
    return [(ord(c), ord(c) + 27)]


for i, w in enumerate(("도아", "퍼러", "추워", "하려", "그래", "지어", "가다", "혀서")):
    for of in ("lemma", "stem", "candidates"):
        add("word-%s-%s" % (of, w), "lemmatize", "words of 2 syllables like %s, with any closing consonants; all stems of %d and endings of %d syllables" % (w, 1 + i % 2, 1 + (i // 2) % 2), 
            w=2, wdom=[block(c) for c in w], sdom="syl", edom="syl", stems=[1 + i % 2], endings=[1 + (i // 2) % 2], of=of,
            expect=("done", "some") if of != "candidates" and (of == "stem" or w not in ("추워", "하려", "혀서")) else ("done",))
for w in ("굴러서", "이르러", "더러워", "하였다", "아니야"):
    for of in ("lemma", "stem", "candidates"):
        add("word-%s-%s" % (of, w), "lemmatize", "words of 3 syllables like %s, with any closing consonants; all stems of 2 and endings of 2 syllables" % w, "thorough",
            w=3, wdom=[block(c) for c in w], sdom="syl", edom="syl", stems=[2], endings=[2], of=of, expect=("done",))
for w, s, e in (("내다봐", 3, 1), ("자라나", 3, 1), ("구워져서", 3, 2)):
    for of in ("lemma", "stem"):
        add("long-%s-%s" % (of, w), "lemmatize", "words of %d syllables like %s whose last syllable has any closing consonant; all stems of %d and endings of %d syllables" % (len(w), w, s, e),
            w=len(w), wdom=[[(ord(c), ord(c))] for c in w[:-1]] + [block(w[-1])], sdom="syl", edom="syl", stems=[s], endings=[e], of=of, expect=("done", "some"))
for k, ts in KINDS.items():
    for t in ts:
        if k != "르":
            add("whole-%s-%s" % (k, t), "recover", "Lemmatizer on what stems and endings of a syllable form in class %s" % k, "thorough", kind=k, s=1, e=1, edom=[list(DOMS[t])], whole=True)
