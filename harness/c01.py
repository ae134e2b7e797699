"""C01: Hangul composition and decomposition."""
from soynlp.hangle import compose, decompose, character_is_korean, character_is_complete_korean
from soynlp.hangle import character_is_jaum, character_is_moum, character_is_number, character_is_english
from soynlp.hangle._hangle import character_is_punctuation, to_base

CHO = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
JUNG = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
JONG = " ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"


def syllable(S):
    c = S.char("c", "syllable")
    d = decompose(c)
    S.check(d is not None, "a syllable decomposes")
    S.check(len(d) == 3, "three components")
    n = ord(c) - 0xAC00
    S.check_eq(d[0], CHO[n // 588], "initial of a syllable")
    S.check_eq(d[1], JUNG[(n % 588) // 28], "vowel of a syllable")
    S.check_eq(d[2], JONG[n % 28], "final of a syllable")
    S.check_eq(compose(d[0], d[1], d[2]), c, "compose(decompose(c)) == c")
    S.observe(c, d)
    S.reach("syllable")


def triple(S):
    a = S.int("cho", 0, 18)
    b = S.int("jung", 0, 20)
    k = S.int("jong", 0, 27)
    cho, jung, jong = CHO[a], JUNG[b], JONG[k]
    c = compose(cho, jung, jong)
    S.check_eq(ord(c), 0xAC00 + 588 * a + 28 * b + k, "code point of the composed syllable")
    S.check_eq(decompose(c), (cho, jung, jong), "decompose(compose(t)) == t")
    S.observe(c)
    S.reach("triple")


def other(S):
    c = S.char("c", "any")
    d = decompose(c)
    if S.fork(S.is_in(c, "syl")):
        S.check(d is not None, "a syllable decomposes")
        S.reach("syl")
    elif S.fork(S.is_in(c, "jaum")):
        S.check_eq(d, (c, " ", " "), "a lone consonant decomposes to itself")
        S.reach("jaum")
    elif S.fork(S.is_in(c, "moum")):
        S.check_eq(d, (" ", c, " "), "a lone vowel decomposes to itself")
        S.reach("moum")
    else:
        S.check(d is None, "any other character decomposes to None")
        S.reach("other")
    S.observe(c, d)


def tests(S):
    c = S.char("c", "any")
    S.check_eq(to_base(c), ord(c), "to_base is the code point")
    S.check(S.iff(character_is_korean(c), S.is_in(c, "hangul")), "character_is_korean range")
    S.check(S.iff(character_is_complete_korean(c), S.is_in(c, "syl")), "character_is_complete_korean range")
    S.check(S.iff(character_is_jaum(c), S.is_in(c, "jaum")), "character_is_jaum range")
    S.check(S.iff(character_is_moum(c), S.is_in(c, "moum")), "character_is_moum range")
    S.check(S.iff(character_is_number(c), S.is_in(c, "digit")), "character_is_number range")
    S.check(S.iff(character_is_english(c), S.is_in(c, "latin")), "character_is_english range")
    punct = [(33, 34), (39, 39), (44, 44), (46, 46), (63, 63), (96, 96)]
    S.check(S.iff(character_is_punctuation(c), S.is_in(c, punct)), "character_is_punctuation set")
    S.observe(c, character_is_korean(c), character_is_punctuation(c))
    S.reach("tests")


OBLIGATIONS = [
    {"name": "syllable", "fn": "syllable", "bound": "all 11172 syllables", "base": True, "expect": ["syllable"]},
    {"name": "triple", "fn": "triple", "bound": "all 19*21*28 component triples", "base": True, "expect": ["triple"]},
    {"name": "other", "fn": "other", "bound": "every Unicode character", "base": True, "expect": ["syl", "jaum", "moum", "other"]},
    {"name": "tests", "fn": "tests", "bound": "every Unicode character", "base": True, "expect": ["tests"]},
]
