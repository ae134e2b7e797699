"""Named character domains (ranges of code points)."""


def _n(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


SYL = [(0xAC00, 0xD7A3)]
JAUM = [(0x3131, 0x314E)]
MOUM = [(0x314F, 0x3163)]
DOM = {
    # every Unicode scalar value
    "any": _n([(0, 0xD7FF), (0xE000, 0x10FFFF)]),
    # Latin (with controls), general punctuation and unicode blanks, CJK punctuation,
    # compatibility jamo, some ideographs, all syllables, half/full-width forms
    "text": _n([(0, 0x24F), (0x2000, 0x206F), (0x3000, 0x303F), (0x3130, 0x318F), (0x4E00, 0x4E0F)] + SYL + [(0xD7A4, 0xD7AF), (0xFF00, 0xFFEF)]),
    "syl": _n(SYL),
    "jaum": _n(JAUM),
    "moum": _n(MOUM),
    "jamo": _n(JAUM + MOUM),
    "hangul": _n(SYL + JAUM + MOUM),
    "space": ((32, 32),),
    "blank": ((9, 10), (32, 32)),
    "latin": _n([(65, 90), (97, 122)]),
    "lower": ((97, 122),),
    "digit": ((48, 57),),
    "ascii": ((32, 126),),
    "word": _n([(48, 57), (65, 90), (97, 122)] + SYL),
    # characters of a token: no white space
    "tok": _n([(33, 126), (0xC0, 0xD6)] + JAUM + MOUM + SYL),
    # letters for structures where only equality of characters matters
    "letter": _n([(97, 122)] + SYL),
    "nonhangul": _n([(0, 0x24F), (0x2000, 0x206F), (0x3000, 0x303F), (0x4E00, 0x4E0F), (0xFF00, 0xFFEF)]),
    # letters and white space: for code that only compares characters and splits on white space
    "sent": _n([(9, 10), (32, 32), (97, 122), (0x3000, 0x3000)] + SYL),
    "lsp": _n([(32, 32), (97, 122)] + SYL),
    # no white space
    "nonws": _n([(33, 126), (0xA1, 0x24F), (0x3001, 0x303F), (0x3130, 0x318F)] + SYL + [(0xFF01, 0xFFEF)]),
    # number signs, digits, Latin with the possessive forms, Hangul, blank
    "tok4": _n([(32, 32), (39, 39), (43, 46), (49, 50), (91, 91), (93, 93), (96, 97), (115, 115), (0xFF, 0xFF)] + JAUM + MOUM + SYL),
    # a line of a corpus file
    "corpus": _n([(9, 9), (32, 32), (97, 99), (0x3000, 0x3000)] + SYL),
    "corpus2": _n([(32, 32), (97, 97)]),
    "fileline": _n([(9, 9), (32, 126)] + SYL),
}
