"""C14: postagger.Dictionary."""
from soynlp.postagger import Dictionary
from soynlp.postagger import LRTemplateMatcher
from harness.common import join

TAGS = ["A", "B", "C"]


def holds(S, hist, tag, q):
    """membership of q under tag according to the history (tag -> list of (word, present))"""
    v = False
    for w, present in hist.get(tag, []):
        if len(w) == len(q):
            hit = S.eq(w, q)
            v = S.any_of([S.all_of([hit, present]), S.all_of([S.not_(hit), v])])
    return v


def agree(S, d, hist, probes, msg):
    for q in probes:
        tags = d.get_pos(q)
        S.check(len(set(tags)) == len(tags), "every tag listed once")
        for t in TAGS:
            has = holds(S, hist, t, q)
            S.check(S.iff(d.word_is_tag(q, t), has), msg + ": membership under a tag")
            S.check(S.iff(t in tags, has), msg + ": tags of a word")
            if t in hist:
                S.check(S.implies(has, d.max_length >= len(q)), msg + ": maximum length covers every word")
    for t in TAGS:
        for w, present in hist.get(t, []):
            S.check(S.implies(holds(S, hist, t, w), d.max_length >= len(w)), msg + ": maximum length covers every word")
    for t in TAGS:
        S.check((t in d.pos_dict) == (t in hist), msg + ": known tags")


def history(S):
    p = S.params
    a = S.text("a", 2, "letter")
    b = S.text("b", p["lens"][0], "letter")
    given = {"A": [a], "B": {b}}
    if p.get("empty"):
        given = {"A": [], "B": set()}
    d = Dictionary(given)
    hist = {"A": [(a, True)], "B": [(b, True)]}
    if p.get("empty"):
        hist = {"A": [], "B": []}
    S.check(isinstance(given["A"], list) and len(given["A"]) == len(hist["A"]), "the caller's mapping is left alone")
    owned = []
    words = [a, b]
    for i in range(p["steps"]):
        op = S.choose("op%d" % i, p["first"] if i == 0 and p.get("first") else p["ops"])
        tag = S.choose("tag%d" % i, p.get("tags", TAGS))
        w = [a, b][i % 2] if p.get("same") else S.text("w%d" % i, p["lens"][i + 1], "letter")
        words.append(w)
        form, kind = op.split("-")
        two = S.text("v%d" % i, 1, "letter") if form == "two" else ""
        events = [w]
        if form == "str":
            arg = w
        elif form == "list":
            arg = [w]
        elif form == "two":
            arg = w + " " + two
            events = [w, two]
        elif form == "none":
            arg, events = [], []
        else:
            arg = {w}
        if isinstance(arg, (list, set)):
            owned.append((arg, len(arg), events))
        if kind == "add":
            err, _ = S.attempt(d.add_words, tag, arg)
            if tag in hist:
                S.check(err is None, "adding words under a known tag succeeds")
                hist[tag] = hist[tag] + [(x, True) for x in events]
            else:
                S.check(err == "ValueError", "adding under an unknown tag is refused")
                S.reach("refused")
        elif kind == "force":
            d.add_words(tag, arg, force=True)
            hist[tag] = hist.get(tag, []) + [(x, True) for x in events]
        elif kind == "remove":
            err, _ = S.attempt(d.remove_words, tag, arg)
            if tag in hist:
                S.check(err is None, "removing words of a known tag succeeds")
                hist[tag] = hist[tag] + [(x, False) for x in events]
            else:
                S.check(err == "ValueError", "removing under an unknown tag is refused")
        else:
            err, _ = S.attempt(d.remove_words, tag)
            if tag in hist:
                S.check(err is None, "removing a known tag succeeds")
                hist.pop(tag)
            else:
                S.check(err == "ValueError", "removing an unknown tag is refused")
    probes = [S.text("q", 2, "letter"), S.text("r", 1, "letter")]
    agree(S, d, hist, probes, "after edits")
    for arg, n, events in owned:
        S.check(len(arg) == n, "the caller's collection is left alone")
        for x in events:
            S.check(x in arg, "the caller's collection is left alone")
    S.check(len(given["A"]) == (0 if p.get("empty") else 1) and len(given["B"]) == (0 if p.get("empty") else 1), "the caller's mapping is left alone")
    if not p.get("empty"):
        S.check(S.all_of([S.eq(given["A"][0], a), b in given["B"]]), "the caller's mapping is left alone")
    S.observe(d.max_length, [sorted(d.get_pos(q)) for q in probes])
    if p.get("save"):
        f = S.path("dict.json")
        d.save(f)
        e = Dictionary.__new__(Dictionary)
        e.load(f)
        agree(S, e, hist, probes, "after loading")
        S.check_eq(e.max_length, d.max_length, "maximum length is kept by saving")
        g = Dictionary(f)
        agree(S, g, hist, probes, "built from the file")
        S.reach("saved")
    S.reach("edited")


def lookup(S):
    """length-bounded lookups find words added after construction"""
    p = S.params
    a = S.text("a", 2, "letter") if p["n"] < 9 else "%%"
    d = Dictionary({"Noun": {a}})
    w = S.text("w", p["n"], "letter")
    d.add_words("Noun", p["form"] == "str" and w or [w])
    found = LRTemplateMatcher(d).generate(w)
    S.check(S.any_of([S.all_of([S.eq(c.l, w), c.l_tag == "Noun"]) for c in found if len(c.l) == p["n"]]), "a word added later is found by length-bounded lookup")
    S.reach("found")


def missing(S):
    err, _ = S.attempt(Dictionary, S.path("nothing.json"))
    S.check(err == "ValueError", "a missing file is refused")
    S.reach("refused")


OBLIGATIONS = []


def ob(name, ops, lens, tier="quick", base=False, expect=(), **kw):
    pr = {"ops": ops, "lens": lens, "steps": len(lens) - 1}
    pr.update(kw)
    OBLIGATIONS.append({"name": name, "fn": "history", "tier": tier, "base": base, "params": pr, "expect": ["edited"] + list(expect),
                        "bound": "histories of %d operations out of %s on tags A, B, C with symbolic words of lengths %s" % (len(lens) - 1, ops, lens)})


ALL = ["str-add", "list-add", "set-add", "str-force", "list-force", "set-force", "str-remove", "list-remove", "set-remove", "none-tag"]
ob("one", ALL + ["two-add", "two-remove", "none-add", "none-remove", "two-force", "none-force"], [2, 2], base=True, save=True, expect=["refused", "saved"])
ob("longer", ALL + ["two-add"], [1, 3], base=True, save=True, expect=["refused", "saved"])
ob("two-saved", ["list-force", "str-add", "set-remove", "none-tag"], [1, 2, 2], save=True, expect=["saved"])
ob("two", ALL, [2, 2, 2], expect=["refused"], base=True, tags=["A", "C"])
ob("two-mixed", ALL[2:4] + ALL[5:8], [2, 1, 2], expect=["refused"])
THREE = ["str-add", "list-force", "set-remove", "none-tag"]
for op in THREE:
    ob("three-" + op, THREE, [1, 2, 2, 2], expect=["refused"], tags=["A", "C"], first=[op])
ob("empty", ALL + ["none-add", "none-force"], [1, 2], empty=True, save=True, expect=["refused", "saved"])
ob("many", ["list-force", "set-remove"], [2, 2, 2, 2, 2], tags=["A", "C"], same=True, expect=["saved"], save=True)
ob("many-tags", ["str-add", "none-tag", "str-remove"], [1, 1, 1, 1], same=True, expect=["refused"])
ob("three-all", ["list-add", "set-force", "list-force", "set-remove", "str-remove", "none-tag"], [1, 2, 2, 2], tier="thorough", save=True)
for n in (2, 3, 5, 9, 17, 40):
    for form in ("str", "list"):
        OBLIGATIONS.append({"name": "lookup-%d-%s" % (n, form), "fn": "lookup", "params": {"n": n, "form": form}, "bound": "an added word of %d characters" % n, "expect": ["found"]})
OBLIGATIONS.append({"name": "missing", "fn": "missing", "params": {}, "bound": "a missing file", "expect": ["refused"]})
