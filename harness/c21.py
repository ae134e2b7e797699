"""C21: BaseVectorizer vocabulary, encoding, decoding, save and load."""
from soynlp.vectorizer import BaseVectorizer
from harness.common import eojeols


def documents(S):
    """(documents, token lists, tokenizer arguments)"""
    p = S.params
    if p.get("times"):
        # few terms, many times each
        docs = []
        for i, lens in enumerate(p["docs"]):
            d = []
            for j, n in enumerate(lens):
                d.extend([S.text("t%d.%d" % (i, j), n, p["dom"])] * S.choose("n%d.%d" % (i, j), p["times"]))
            docs.append(d)
        return docs, docs, {"tokenizer": lambda d: d}
    if p.get("tokens"):
        docs = []
        for i, lens in enumerate(p["docs"]):
            docs.append([S.text("t%d.%d" % (i, j), n, p["dom"]) for j, n in enumerate(lens)])
        return docs, docs, {"tokenizer": lambda d: d}
    docs = [S.text("d%d" % i, n, p["dom"]) for i, n in enumerate(p["docs"])]
    return docs, [eojeols(d) for d in docs], {}


def count(x, xs):
    n = 0
    for y in xs:
        if y == x:
            n += 1
    return n


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def fitted(S, toks, v, mintf, maxtf, mindf, maxdf):
    """the vocabulary against the collection"""
    every = [t for d in toks for t in d]
    n = len(toks)
    terms = uniq(every)
    voc = v.idx2vocab
    S.check(len(voc) == len(v.vocabulary_), "one number per term")
    S.check(len(v) == len(voc), "the length is the number of terms")
    S.check_eq(v.vocabs(), voc, "terms in the order of their numbers")
    held = 0
    for t in terms:
        tf = count(t, every)
        df = 0
        for d in toks:
            if t in d:
                df += 1
        ok = S.all_of([mintf <= tf, tf <= maxtf, int(n * mindf) <= df, df <= int(n * maxdf)])
        if S.fork(ok):
            S.reach("kept")
            S.check(t in v.vocabulary_, "a term within the limits is in the vocabulary")
            held += 1
            k = v.vocabulary_[t]
            S.check(S.all_of([0 <= k, k < len(voc)]), "numbers from 0 to n-1")
            S.check_eq(voc[k], t, "the two maps are inverse")
        else:
            S.reach("left out")
            S.check(t not in v.vocabulary_, "a term outside the limits is not in the vocabulary")
    S.check(held == len(voc), "the vocabulary holds terms of the collection only")
    freqs = [count(t, every) for t in voc]
    for a, b in zip(freqs, freqs[1:]):
        S.check(a >= b, "numbered by decreasing frequency")


def coding(S, toks, docs, v):
    for d, ts in zip(docs, toks):
        known = [t for t in ts if t in v.vocabulary_]
        lst = v.encode_a_doc_to_list(d)
        S.check_eq(lst, [v.vocabulary_[t] for t in known], "list form")
        S.check_eq(v.decode_from_list(lst), known, "decoding the list form gives the known tokens in order")
        bow = v.encode_a_doc_to_bow(d)
        ks = uniq(known)
        S.check(len(bow) == len(ks), "one entry of the bag per known term")
        back = v.decode_from_bow(bow)
        S.check(len(back) == len(ks), "decoding the bag form gives the known tokens")
        for t in ks:
            S.check_eq(bow[v.vocabulary_[t]], count(t, known), "count in the bag")
            S.check_eq(back[t], count(t, known), "count in the decoded bag")


def limits(S):
    p = S.params
    docs, toks, kw = documents(S)
    mintf = S.int("min_tf", 0, 4) if p.get("tf") else 0
    maxtf = S.int("max_tf", 0, 5) if p.get("tf") else 99999999
    mindf = S.choose("min_df", p.get("mindf", [0]))
    maxdf = S.choose("max_df", p.get("maxdf", [1.0]))
    if p.get("tf"):
        kw["min_tf"], kw["max_tf"] = mintf, maxtf
    if p.get("mindf"):
        kw["min_df"] = mindf
    if p.get("maxdf"):
        kw["max_df"] = maxdf
    v = BaseVectorizer(verbose=False, **kw)
    r = v.fit(docs)
    S.check(r is v, "fit returns the vectorizer")
    S.observe(v.idx2vocab)
    fitted(S, toks, v, mintf, maxtf, mindf, maxdf)
    coding(S, toks, docs, v)
    if p.get("refit"):
        # a second collection replaces the first
        more = [[S.text("u%d.%d" % (i, j), n, p["dom"]) for j, n in enumerate(lens)] for i, lens in enumerate(p["refit"])]
        v.fit(more)
        fitted(S, more, v, mintf, maxtf, mindf, maxdf)
        coding(S, toks, docs, v)


def decode(S):
    """any vocabulary, any index"""
    p = S.params
    terms = [S.text("v%d" % i, n, p["dom"]) for i, n in enumerate(p["vocab"])]
    for i in range(len(terms)):
        for j in range(i):
            S.assume(S.not_(S.eq(terms[i], terms[j])))
    v = BaseVectorizer(verbose=False)
    v._set_vocabulary(terms)
    idx = [S.int("i%d" % k, -3, len(terms) + 2) for k in range(p["idx"])]
    got = v.decode_from_list(idx)
    S.observe(got)
    want = []
    for k in idx:
        if 0 <= k and k < len(terms):
            want.append(terms[k])
            S.reach("known")
        else:
            S.reach("ignored")
    S.check_eq(got, want, "out-of-range numbers are ignored")
    if p["idx"] >= 1:
        c = S.int("c", 1, 9)
        bag = v.decode_from_bow({idx[0]: c})
        inside = 0 <= idx[0] and idx[0] < len(terms)
        S.check(len(bag) == (1 if inside else 0), "out-of-range numbers are ignored in bags")
        if inside:
            S.check_eq(bag[terms[idx[0]]], c, "count of the decoded bag")
    S.check_eq(v.vocabs(), terms, "terms in the order of their numbers")
    # a document in words of the vocabulary and others
    doc = S.text("doc", p["doc"], p["ddom"])
    coding(S, [eojeols(doc)], [doc], v)
    f = S.path("m" + S.choose("suffix", ["", ".vocab", ".txt"]))
    v.save(f)
    w = BaseVectorizer(verbose=False)
    w.load(f)
    S.check_eq(w.idx2vocab, terms, "saved and loaded vocabulary")
    S.check(len(w) == len(terms), "number of terms of the loaded vocabulary")
    S.check(len(w.vocabulary_) == len(terms), "numbers of the loaded vocabulary")
    for i, t in enumerate(terms):
        S.check_eq(w.vocabulary_[t], i, "numbers of the loaded vocabulary")
    S.check_eq(w.encode_a_doc_to_list(doc), v.encode_a_doc_to_list(doc), "the loaded vectorizer encodes the same")
    S.reach("done")


OBLIGATIONS = []


def add(name, fn, bound, tier="quick", expect=("kept",), **params):
    OBLIGATIONS.append({"name": name, "fn": fn.__name__, "params": params, "bound": bound, "base": "any", "tier": tier, "expect": list(expect)})


B = "token lists of %s tokens (lengths %s), every letter; %s"
DF = dict(mindf=[0, 0.3, 0.5, 0.9], maxdf=[1.0, 0.7, 0.5, 0.3])
add("plain-2-2", limits, "two documents of 2 tokens of one letter; all tf limits", tokens=True, docs=[[1, 1], [1, 1]], dom="letter", tf=True)
add("plain-mixed", limits, "documents of tokens of lengths 1 2 | 2; all tf limits", tokens=True, docs=[[1, 2], [2]], dom="letter", tf=True)
add("df-3", limits, "three documents of 1, 2 and 1 tokens; four minimum and four maximum document ratios", tokens=True, docs=[[1], [1, 1], [1]], dom="letter", **DF)
add("df-4", limits, "four documents of one token; four minimum and four maximum document ratios", tokens=True, docs=[[1], [1], [1], [1]], dom="letter", **DF)
add("both-3", limits, "three documents of 1, 1 and 2 tokens; all tf limits, two document limits each", tokens=True, docs=[[1], [1], [1, 1]], dom="letter", tf=True, mindf=[0, 0.5], maxdf=[1.0, 0.7])
add("empty-doc", limits, "an empty document between two; all tf limits, document ratios", tokens=True, docs=[[1], [], [1]], dom="letter", tf=True, **DF)
add("refit", limits, "fitted on two documents and again on others", tokens=True, docs=[[1], [1]], refit=[[1, 1]], dom="letter", tf=True)
add("text-2", limits, "two documents of 2 and 3 characters: letters and white space; all tf limits", docs=[3, 2], dom="sent", tf=True)
add("text-1", limits, "one document of 4 characters: letters and white space; all tf limits", docs=[4], dom="sent", tf=True)
add("decode-3", decode, "vocabulary of lengths 1 2 1, two numbers from -3 to n+2, document of 3 characters", expect=("done", "known", "ignored"), vocab=[1, 2, 1], idx=2, dom="nonws", doc=3, ddom="sent")
add("decode-2", decode, "vocabulary of lengths 2 1, one number, document of 4 characters", expect=("done", "known", "ignored"), vocab=[2, 1], idx=1, dom="letter", doc=4, ddom="sent")
add("decode-0", decode, "empty vocabulary, document of 2 characters", expect=("done",), vocab=[], idx=2, dom="letter", doc=2, ddom="sent")
add("plain-3-2", limits, "documents of 3 and 2 tokens; all tf limits", "thorough", tokens=True, docs=[[1, 1, 1], [1, 1]], dom="letter", tf=True)
add("df-5", limits, "five documents; document ratios", "thorough", tokens=True, docs=[[1], [1], [1], [1], [1]], dom="letter", **DF)
add("text-3", limits, "three documents of 2 characters; all tf limits", "thorough", docs=[2, 2, 2], dom="sent", tf=True)
add("text-6", limits, "one document of 6 characters; all tf limits", "thorough", docs=[6], dom="sent", tf=True)
add("times-2", limits, "two terms of one letter, each 1, 11, 30 or 120 times in one document", times=[1, 11, 30, 120], docs=[[1, 1]], dom="letter")
add("times-many", limits, "two terms of one letter, each 2, 1002 or 1500 times in two documents", times=[2, 1002, 1500], docs=[[1], [1]], dom="letter")
