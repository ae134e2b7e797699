"""C31: NewsPOSExtractor, ChatPOSExtractor and the adverb dictionary."""
from soynlp.hangle import decompose
from soynlp.lemmatizer import lemma_candidate
from soynlp.pos import NewsPOSExtractor, ChatPOSExtractor, load_default_adverbs, stem_to_adverb
from soynlp.predicator import Predicator
from soynlp.utils.utils import installpath
from harness.common import eojeols, maxscore


def distinct(S, ws):
    for i in range(len(ws)):
        for j in range(i):
            if len(ws[i]) == len(ws[j]):
                S.assume(S.not_(S.eq(ws[i], ws[j])))
    return ws


def words(S, key):
    return distinct(S, [x if isinstance(x, str) else S.text("%s%d" % (key, i), x[0], x[1]) for i, x in enumerate(S.params.get(key, ()))])


def plus(d, w, n):
    d[w] = d.get(w, 0) + n


def cut(w, lefts, rights):
    """the first split into a left part of two or more syllables and a right part"""
    for i in range(2, len(w)):
        if w[:i] in lefts and w[i:] in rights:
            return w[:i], w[i:]
    return None


def contracts(stem, ending):
    """the stem and the ending would not stay apart"""
    a, b, f = decompose(stem[-1])
    x, y, z = decompose(ending[0])
    if (f == "ㄹ" or f == "ㅂ") and (x == "ㄴ" or x == "ㄹ" or x == "ㅁ" or x == "ㅂ"):
        return True
    return b == "ㅡ" and f == " " and x == "ㅇ" and (y == "ㅓ" or y == "ㅏ")


def analysis(w, stems, endings):
    """known analyses of the latest split that has any"""
    for i in range(len(w), 0, -1):
        if decompose(w[i - 1]) is None or i < len(w) and decompose(w[i]) is None:
            continue
        found = set(x for x in lemma_candidate(w[:i], w[i:]) if x[0] in stems and x[1] in endings)
        if len(found) > 0:
            return found
    return set()


CONSONANTS = "ㄱㄲㄳㄴㄵㄶㄷㄸㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅃㅄㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"


class Spec(object):
    """what the extractor reports of counted eojeols, by the order of its rules"""

    def __init__(self, S, es, nouns, adjs, verbs, adverbs, josas, astems, vstems, endings, chat):
        self.S = S
        self.es, self.chat = dict(es), chat
        self.known = {"a": dict(adjs), "v": dict(verbs)}
        self.stems = {"a": set(astems), "v": set(vstems)}
        self.adverbs_known, self.josas_known, self.endings = adverbs, josas, set(endings)
        self.noun, self.josa, self.adverb = {}, {}, {}
        self.found = {"a": {}, "v": {}}
        self.whole(nouns)
        self.noun_and_word()
        self.compounds()
        self.conjugated()
        self.syllable_and_word()
        self.es = {w: n for w, n in self.es.items() if not (w in self.josas_known or w in self.endings or len(w) == 1)}
        if not chat:
            self.noun_compounds()
        self.confused = {}
        for w, n in self.noun.items():
            if w in self.found["a"] or w in self.found["v"] or w in self.adverb or chat and self.phrase(w):
                self.confused[w] = n
        self.noun = {w: n for w, n in self.noun.items() if w not in self.confused}

    def drop(self, gone):
        self.es = {w: n for w, n in self.es.items() if w not in gone}

    def whole(self, nouns):
        gone = set()
        for w, n in self.es.items():
            for ref, out in ((nouns, self.noun), (self.known["a"], self.found["a"]), (self.known["v"], self.found["v"]), (self.adverbs_known, self.adverb)):
                if w in ref:
                    out[w] = n
                    gone.add(w)
                    self.S.reach("whole")
        self.drop(gone)

    def noun_and_word(self):
        gone, hits = set(), []
        for w, n in self.es.items():
            for rights, out in ((self.josas_known, self.josa), (self.found["a"], self.found["a"]), (self.found["v"], self.found["v"])):
                lr = cut(w, self.noun, rights)
                if lr is not None:
                    hits.append((lr[0], lr[1], out, n))
                    gone.add(w)
                    self.S.reach("noun and word")
        for l, r, out, n in hits:
            plus(self.noun, l, n)
            plus(out, r, n)
        self.drop(gone)

    def compounds(self):
        S = self.S
        lefts = set(self.known["a"]) | set(self.known["v"])
        wrong = set()
        for k in ("a", "v"):
            new = {}
            for w, n in self.es.items():
                lr = cut(w, lefts, self.known[k])
                if lr is None:
                    continue
                lemmas = set()
                for stem, ending in self.known[k][lr[1]][1]:
                    stem = lr[0] + stem
                    if self.chat and (stem[-1] == "업" or stem[-1] == "닿" or stem[-1] == "땋"):
                        continue
                    if contracts(stem, ending) or stem in self.stems["a"] or stem in self.stems["v"]:
                        continue
                    lemmas.add((stem, ending))
                if self.chat and w in self.known[k]:
                    most = max(len(x[0]) for x in self.known[k][w][1])
                    lemmas = set(x for x in lemmas if len(x[0]) > most)
                if len(lemmas) > 0:
                    new[w] = (n, lemmas)
            if self.chat:
                # a stem mostly followed by bare consonants is none
                follow = {}
                for w, (n, lemmas) in new.items():
                    for stem, ending in lemmas:
                        t = follow.setdefault(stem, [0, 0])
                        t[1] += n
                        if ending[0] in CONSONANTS:
                            t[0] += n
                bad = set(stem for stem, t in follow.items() if t[0] >= 0.9 * t[1])
                new = {w: (n, set(x for x in lemmas if x[0] not in bad)) for w, (n, lemmas) in new.items()}
                new = {w: x for w, x in new.items() if len(x[1]) > 0}
            for w, x in new.items():
                self.known[k][w] = x
                for stem, ending in x[1]:
                    self.stems[k].add(stem)
                plus(self.found[k], w, x[0])
                S.reach("compound")
            if self.chat:
                # an ending of more new compounds than other words is none
                more = {}
                for w, x in self.known[k].items():
                    for stem, ending in x[1]:
                        plus(more, ending, 1 if w in new else -1)
                wrong |= set(e for e, n in more.items() if n > 0)
        self.drop(set(self.found["a"]) | set(self.found["v"]))
        self.endings = set(e for e in self.endings if e not in wrong)

    def conjugated(self):
        gone = set()
        for k in ("a", "v"):
            for w, n in self.es.items():
                lemmas = analysis(w, self.stems[k], self.endings)
                if len(lemmas) > 0:
                    self.known[k][w] = (n, lemmas)
                    plus(self.found[k], w, n)
                    gone.add(w)
                    self.S.reach("conjugated")
        self.drop(gone)

    def syllable_and_word(self):
        gone, hits = set(), []
        for w, n in self.es.items():
            for out in (self.found["a"], self.found["v"], self.josa):
                if w[1:] in out:
                    hits.append((w[:1], w[1:], out, n))
                    gone.add(w)
                    self.S.reach("syllable and word")
        for l, r, out, n in hits:
            plus(self.noun, l, n)
            plus(out, r, n)
        self.drop(gone)

    def noun_compounds(self):
        scores = [(w, 1) for w in self.noun if len(w) > 1]
        ends = set(self.noun) | set(self.found["a"]) | set(self.found["v"]) | set(self.josa)
        new, gone = {}, set()
        for w, n in self.es.items():
            tokens = maxscore(self.S, scores, 0, 10, w)
            if any(t[3] <= 0 for t in tokens[:-1]):
                continue
            if len(tokens) >= 3 and tokens[-1][0] in ends:
                name = w[:len(w) - len(tokens[-1][0])]
            elif tokens[-1][3] > 0:
                name = w
            else:
                continue
            plus(new, name, n)
            gone.add(w)
            self.S.reach("noun compound")
        for w, n in new.items():
            plus(self.noun, w, n)
        self.drop(gone)

    def phrase(self, w):
        """a noun of three or more syllables that ends in a word of another tag"""
        return len(w) > 2 and any(w[i:] in self.josa or w[i:] in self.found["a"] or w[i:] in self.found["v"] for i in range(1, len(w)))


def same(S, got, want, what):
    S.check(len(got) == len(want), what + ": no word too many or missing")
    for w, n in want.items():
        S.check(w in got, what + ": a word is missing")
        S.check_eq(got[w], n, what + ": frequency")


def judge(S, tags, want, every):
    for tag, d in (("Noun", want.noun), ("Adverb", want.adverb), ("Irrecognizable", want.es), ("ConfusedNouns", want.confused)):
        same(S, tags[tag], d, tag)
    for tag, k in (("Adjective", "a"), ("Verb", "v")):
        got = tags[tag]
        S.check(len(got) == len(want.found[k]), tag + ": no word too many or missing")
        for w, n in want.found[k].items():
            S.check(w in got, tag + ": a word is missing")
            S.check_eq(got[w].frequency, n, tag + ": frequency")
            S.check(set(got[w].lemma) == want.known[k][w][1], tag + ": lemmas")
        S.check(tags[tag + "Stem"] == want.stems[k], tag + ": stems")
    S.check(tags["Eomi"] == want.endings, "endings")
    S.check(tags["Josa"] == want.josas_known, "particles")
    for w, n in tags["Irrecognizable"].items():
        S.check(w in every, "what is not recognized is an eojeol")
    S.observe(sorted((t, len(d)) for t, d in tags.items() if t not in ("Eomi", "Josa", "AdjectiveStem", "VerbStem")))


def extracting(S):
    """from given dictionaries"""
    p = S.params
    chat = p.get("chat", False)
    nouns, adverbs, endings = words(S, "nouns"), words(S, "adverbs"), words(S, "endings")
    adjs, verbs, josas = words(S, "adjs"), words(S, "verbs"), words(S, "josas")
    astems, vstems = words(S, "astems"), words(S, "vstems")
    lemmas = []
    for key, n in (("adjs", len(adjs)), ("verbs", len(verbs))):
        table = []
        for i in range(n):
            row = p.get(key + ".lemmas", [])
            row = row[i] if i < len(row) else [(1, 1)]
            table.append(set((S.text("%s%d.stem%d" % (key, i, j), a, p["ldom"]) if isinstance(a, int) else a, S.text("%s%d.eomi%d" % (key, i, j), b, p["edom"]) if isinstance(b, int) else b) for j, (a, b) in enumerate(row)))
        lemmas.append(table)
    pool = nouns + adjs + verbs + josas + adverbs
    ws = distinct(S, [word(S, i, parts, pool) for i, parts in enumerate(p["words"])])
    cs = [S.int("n%d" % i, 1, 1000) for i in range(len(ws))]
    ex = (ChatPOSExtractor if chat else NewsPOSExtractor)(verbose=bool(p.get("verbose")))
    ex.nouns = {w: 1 for w in nouns}
    ex.adjectives = {w: Predicator(1, lemmas[0][i]) for i, w in enumerate(adjs)}
    ex.verbs = {w: Predicator(1, lemmas[1][i]) for i, w in enumerate(verbs)}
    ex.adverbs, ex.josas, ex.eomis = set(adverbs), set(josas), set(endings)
    ex.adjective_stems, ex.verb_stems = set(astems), set(vstems)
    ex.eojeols = {w: n for w, n in zip(ws, cs)}
    if chat:
        with open(installpath + "/postagger/dictionary/default/Josa/josa_chat.txt", encoding="utf-8") as f:
            particles = set(x.strip() for x in f)
    else:
        particles = set(josas)
    want = Spec(S, zip(ws, cs), set(nouns), {w: (1, lemmas[0][i]) for i, w in enumerate(adjs)}, {w: (1, lemmas[1][i]) for i, w in enumerate(verbs)}, set(adverbs), particles,
                astems, vstems, endings, chat)
    tags = ex.extract()
    judge(S, tags, want, ws)
    S.reach("done")


def pipeline(S):
    """from sentences, with the package's dictionaries"""
    p = S.params
    chat = p.get("chat", False)
    sents, count = [], {}
    for i, parts in enumerate(p["sents"]):
        n = S.choose("times%d" % i, p.get("times", [1, 3]))
        s = word(S, i, parts, ())
        for k in range(n):
            sents.append(s)
        for e in eojeols(s):
            plus(count, e, n)
    ex = (ChatPOSExtractor if chat else NewsPOSExtractor)(verbose=False, ensure_normalized=p.get("normalized", True), extract_eomi=p.get("eomi", True))
    least = p.get("least", 1)
    ex.train(sents, min_eojeol_frequency=least, **p.get("kw", {}))
    same(S, ex.eojeols, {w: n for w, n in count.items() if n >= least}, "eojeols")
    for stems in (ex.adjective_stems, ex.verb_stems):
        for w in stems:
            if w[-1] == "하":
                S.check(w[:-1] + "히" in ex.adverbs, "stems in -하 give adverbs")
    for w in ex.nouns:
        S.check(any(w == e[:len(w)] for e in count), "a noun begins an eojeol")
        S.reach("noun")
    if chat:
        with open(installpath + "/postagger/dictionary/default/Josa/josa_chat.txt", encoding="utf-8") as f:
            josas = set(x.strip() for x in f)
    else:
        josas = set(ex.josas)
    known = [{w: (x.frequency, set(x.lemma)) for w, x in d.items()} for d in (ex.adjectives, ex.verbs)]
    want = Spec(S, ex.eojeols.items(), set(ex.nouns), known[0], known[1], set(ex.adverbs), josas, ex.adjective_stems, ex.verb_stems, ex.eomis, chat)
    judge(S, ex.extract(), want, count)
    S.reach("done")


def word(S, i, parts, pool):
    """an eojeol: pool words by index, new text by (length, domain), constants"""
    if isinstance(parts, str):
        return parts
    out = ""
    for j, x in enumerate(parts):
        if isinstance(x, str):
            out = out + x
        elif isinstance(x, (list, tuple)):
            out = out + S.text("w%d.%d" % (i, j), x[0], x[1])
        else:
            out = out + pool[x]
    return out


def adverbs(S):
    """stems in -하 give adverbs in -히"""
    p = S.params
    stems = [S.text("s%d" % i, n, "syl") for i, n in enumerate(p["stems"])]
    want = set(s[:-1] + "히" for s in stems if s[-1] == "하")
    S.check(stem_to_adverb(set(stems)) == want, "adverbs of a set of stems")
    S.check(stem_to_adverb(stems) == want, "adverbs of a list of stems")
    for s in stems:
        S.check(stem_to_adverb(s) == set([s[:-1] + "히"] if s[-1] == "하" else []), "adverbs of a stem")
    S.observe(len(want))
    S.reach("done")


def read_adverbs(S):
    """a file of adverbs, one on a line, followed by other columns"""
    ws = [S.text("w%d" % i, n, "letter") for i, n in enumerate(S.params["lens"])]
    path = S.path("adverbs.txt")
    S.write_file("adverbs.txt", "".join([w + rest + "\n" for w, rest in zip(ws, S.params["rests"])]))
    got = load_default_adverbs(path)
    S.check(got == set(ws), "the adverbs of the file")
    S.observe(len(got))
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("done",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn, "params": params, "bound": bound, "base": True, "tier": tier, "expect": list(expect)})


def of(cs):
    """the domain of the given characters"""
    return [(ord(c), ord(c)) for c in cs]



AB, ABC = of("ab"), of("abc")


def block(c):
    """the syllables with the same initial and vowel"""
    k = (ord(c) - 44032) // 28 * 28 + 44032
    return [(k, k + 27)]


GA, GAHA = of("가나"), of("가하나")
HOLD = dict(ldom="syl", edom="syl")

# whole eojeols and nouns joined with words of other tags; Latin letters, which have no conjugations
add("whole", "extracting", "an eojeol and dictionaries of a noun, adjective, verb and adverb of 2 letters, any of them equal", nouns=[(2, "lower")], adjs=[(2, "lower")], verbs=[(2, "lower")], adverbs=[(2, "lower")], words=[([2, "lower"],)],
    expect=("done", "whole"), **HOLD)
add("confused", "extracting", "two eojeols, dictionaries of two nouns, an adjective, a verb and an adverb of 2 letters", nouns=[(2, AB), (2, ABC)], adjs=[(2, AB)], verbs=[(2, AB)], adverbs=[(2, AB)], words=[([2, AB],), ([2, AB],)],
    expect=("done", "whole"), **HOLD)
add("noun-josa", "extracting", "two nouns with a particle each, and themselves", nouns=[(2, "lower"), (3, "lower")], josas=[(1, "lower"), (2, "lower")], words=[(0,), (1,), (0, 2), (1, 3)], expect=("done", "whole", "noun and word"), **HOLD)
add("noun-free", "extracting", "any eojeol of 4 letters beside two nouns and a verb, which occur", nouns=[(2, ABC), (3, ABC)], josas=[(1, ABC), (2, ABC)], verbs=[(2, AB)], words=[(0,), (1,), (4,), ([4, AB],)], expect=("done", "whole", "noun and word"), **HOLD)
add("noun-pred", "extracting", "a noun with an adjective and with a verb, that occur themselves", nouns=[(2, "lower")], adjs=[(2, "lower")], verbs=[(2, "lower")], josas=[(2, ABC)], words=[(0,), (1,), (2,), (0, 1), (0, 2)], expect=("done", "whole", "noun and word"), **HOLD)
add("noun-absent", "extracting", "a noun that does not occur by itself", nouns=[(2, ABC)], josas=[(1, ABC)], words=[(0, 1), ([2, ABC],)], expect=("done", "noun and word"), **HOLD)
add("noun-long", "extracting", "long nouns, of which one begins the other, with long particles", nouns=[(4, AB), (6, AB)], josas=[(1, AB), (3, AB)], words=[(0,), (1,), (1, 3), (0, 2)], expect=("done", "whole", "noun and word"), **HOLD)
add("noun-both", "extracting", "an eojeol that splits into a noun and a particle, an adjective and a verb", nouns=[(2, AB), (3, AB), (4, AB)], josas=[(1, AB)], adjs=[(2, AB)], verbs=[(3, AB)], words=[(0,), (1,), (2,), (4,), (5,), (0, 5)], expect=("done", "whole", "noun and word"), **HOLD)

# one-syllable nouns, words that are dropped
add("syllable", "extracting", "one letter before an adjective, a verb and a particle that are in use", nouns=[(2, ABC)], adjs=[(2, AB)], verbs=[(2, AB)], josas=[(2, AB)], words=[(0,), (1,), (2,), (0, 3), ([1, AB], 1), ([1, AB], 2), ([1, AB], 3)],
    expect=("done", "syllable and word"), **HOLD)
add("syllable-free", "extracting", "any eojeol of 3 letters beside an adjective, a verb and a particle that are in use", nouns=[(2, ABC)], adjs=[(2, AB)], verbs=[(2, ABC)], josas=[(2, ABC)], words=[(0,), (1,), (2,), (0, 3), ([3, ABC],)], expect=("done", "syllable and word"), **HOLD)
add("dropped", "extracting", "eojeols that are particles, endings or one letter, and others", josas=[(1, AB), (2, ABC)], endings=[(2, AB), (3, ABC)], words=[([1, ABC],), ([2, ABC],), ([3, ABC],)], **HOLD)

# compound nouns
add("compound-2", "extracting", "eojeols of two nouns, and any of 4 letters", nouns=[(2, AB), (2, ABC), (3, AB)], words=[(0,), (1,), (2,), (0, 1), ([4, AB],)], expect=("done", "noun compound"), **HOLD)
add("compound-3", "extracting", "eojeols of three nouns, and of two nouns and a particle", nouns=[(2, ABC), (2, ABC)], josas=[(1, ABC)], words=[(0,), (1,), (0, 2), (0, 1, 0), (1, 0, 2)], expect=("done", "noun compound"), **HOLD)
add("compound-single", "extracting", "nouns and single letters", nouns=[(2, AB), (1, AB)], josas=[(1, ABC), (2, ABC)], verbs=[(2, AB)], words=[(0,), (1,), (0, 0, 2), (0, 1), (0, 3), (0, 0, 3)], expect=("done",), **HOLD)
add("compound-free", "extracting", "any eojeol of 6 letters beside two nouns", nouns=[(2, AB), (3, AB)], josas=[(1, AB)], words=[(0,), (1,), (0, 2), ([6, AB],)], expect=("done", "noun compound"), **HOLD)

# predicates joined with predicates; conjugated forms
add("pred-1", "extracting", "an adjective joined with itself and with a verb; any known stem", adjs=["가까"], verbs=["나는"], **{"adjs.lemmas": [[("가", "까")]], "verbs.lemmas": [[("나", "는"), ("날", "는")]]}, words=[(0, 0), (0, 1), (1, 0), (1, 1)], vstems=[(3, of("가나까는날"))], expect=("done", "compound"), **HOLD)
add("pred-2", "extracting", "any eojeol of 5 syllables beside an adjective and a verb that do not occur", adjs=[(2, GA)], verbs=[(3, GA)], words=[([5, GA],)], expect=("done", "compound"), ldom=GA, edom=GA)
add("pred-edge", "extracting", "an adjective joined with a verb of any lemma of one syllable and an ending of one letter", adjs=["가까"], verbs=["나는"], **{"verbs.lemmas": [[(1, 1)]]}, words=["가까나는"], expect=("done", "compound"), ldom="syl", edom="hangul")
add("pred-known", "extracting", "stems of joined predicates that may be known", adjs=["가까"], verbs=["나는"], **{"verbs.lemmas": [[(1, "는"), ("나는", 1)]]}, words=["가까나는"], astems=["가까나"], vstems=[(4, GAHA), "하"], expect=("done", "compound"), ldom=GAHA, edom=GAHA)

for i, (w, st, en) in enumerate((("먹었다", "먹", "었다"), ("갔다", "가", "ㅆ다"), ("예뻐", "예쁘", "어"), ("고와서", "곱", "아서"), ("했다", "하", "았다"), ("흘러", "흐르", "어"), ("파래", "파랗", "아"))):
    for tag in ("astems", "vstems"):
        add("conjugated-%s-%s" % (w, tag[0]), "extracting", "words like %s with any closing consonant at the end of the stem, of a known stem and ending or others" % w, words=[([1, block(w[0])],) + ((w[1:],) if len(w) > 1 else ())], endings=[en, (1, block("어"))],
            expect=("done", "conjugated"), **dict(HOLD, **{tag: [st, (1, block(w[0]))]}))
add("conjugated-both", "extracting", "words of a stem that is an adjective's and a verb's", words=["밝았다", "밝은"], astems=["밝"], vstems=["밝"], endings=["았다", (1, block("으"))], expect=("done", "conjugated"), **HOLD)
add("conjugated-latest", "extracting", "a word with analyses at two splits", words=["좋아하는"], astems=["좋", "좋아하"], endings=["아하는", "는", (1, block("느"))], expect=("done", "conjugated"), **HOLD)
add("conjugated-after", "extracting", "a noun, and one syllable, before a word that is recognized by its stem", nouns=[(2, GA)], words=[(0,), (0, "먹었다"), ("가", "먹었다"), "먹었다"], vstems=["먹"], endings=["었다"], expect=("done", "conjugated", "syllable and word"), **HOLD)

# the conversational extractor, whose particles are those of its file
add("chat-nouns", "extracting", "nouns with particles of the file and themselves", chat=True, nouns=[(2, AB)], words=[(0,), (0, "가"), (0, "까지"), (0, "다"), ([3, AB],)], expect=("done", "whole", "noun and word"), **HOLD)
add("chat-phrase", "extracting", "nouns of 3 letters that end in a word in use", chat=True, nouns=[(3, AB), (2, AB)], verbs=[(2, AB)], words=[(0,), (1,), (2,)], expect=("done", "whole"), **HOLD)
add("chat-pred", "extracting", "joined predicates, of any lemma of one syllable and an ending of one letter", chat=True, adjs=["가까"], verbs=["나는"], **{"verbs.lemmas": [[(1, 1)]]}, words=["가까나는"], endings=[(1, "hangul")], expect=("done", "compound"), ldom="syl", edom="hangul")
add("chat-stems", "extracting", "two joined predicates and lemmas of the verbs with endings of one letter", chat=True, adjs=["가까"], verbs=["나는", "나지"], **{"verbs.lemmas": [[("나", 1)], [("나", 1), ("는", "지")]]}, words=["가까나는", "가까나지"], endings=[(1, of("ㄱㄴ지"))], expect=("done", "compound"), ldom="syl", edom=of("ㄱ느지ㄴ"))
add("chat-endings", "extracting", "endings of joined and of given predicates", chat=True, adjs=["가까", "다지"], verbs=["나는"], **{"adjs.lemmas": [[("가", 1)], [("다", 1)]], "verbs.lemmas": [[("나", 1), ("노", 1)]]}, words=["가까나는", "다지나는", "가까다지"], endings=[(1, of("까지는"))], expect=("done", "compound"), ldom="syl", edom=of("까지는"))

add("adverbs-1", "adverbs", "a stem of 1 syllable", stems=[1])
add("adverbs-3", "adverbs", "stems of 1 to 3 syllables", stems=[2, 3, 2])
add("adverbs-file", "read_adverbs", "three adverbs, the same or not, with and without further columns", lens=[2, 2, 3], rests=["", " 12", "\t3 x"])

# the whole way
add("pipeline", "pipeline", "sentences of real words, with a syllable that varies", sents=[("사과 사과를 사과는 사과에 사과", [1, of("로도")]), ("먹었다 예쁘다 조용히 사과먹었다",)], expect=("done", "noun", "whole"))
NOUNS = "사과 사과를 사과는 사과에 사과도 학교 학교에 학교로 학교는 학교가"
add("pipeline-names", "pipeline", "two nouns, what is joined with them, with two syllables that vary", sents=[(NOUNS,), ("학교", [1, of("에로")], "서 사과학교 사과학교를 학교사과", [1, of("는까")])], times=[1, 2], expect=("done", "noun", "whole", "noun and word"))
add("pipeline-predicates", "pipeline", "predicates by themselves, joined and after nouns", sents=[(NOUNS,), ("먹었다 보고 보고먹었다 예쁘다", [1, of("가사")], "먹었다 사과예쁘다 예쁘게보", [1, of("았는")], "다")], times=[1, 2], expect=("done", "noun", "whole"))
add("pipeline-least", "pipeline", "words below the least count", sents=[(NOUNS,), ("먹었다 조용히 예쁘다 사과처럼 ", [1, of("가먹")], "었다")], times=[1, 2], least=2, expect=("done", "noun", "whole"))
add("pipeline-chat", "pipeline", "the conversational extractor", chat=True, sents=[(NOUNS,), ("먹었다 조용히 예쁘다 사과처럼 보고먹었다 사과", [1, of("가랑")], " 가먹었다")], times=[1, 2], expect=("done", "noun", "whole"))
add("pipeline-plain", "pipeline", "with the endings of the dictionary", sents=[(NOUNS,), ("먹었다 조용히 예쁘다 사과처럼 보고먹었다 사과", [1, of("가랑")], " 가먹었다")], times=[1, 2], eomi=False, normalized=False, expect=("done", "noun", "whole"))
