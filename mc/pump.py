"""Long texts: short token patterns repeated, every number of repetitions up to a bound.

A state is (pattern, repetitions); the next state appends one more repetition.  What is found here and not by
the trees: counters, caps, caches, buffers, anything that needs many numbers, words or tokens in one text.
"""
from mc import lang as L
from mc.alpha import RUN, CONN, TEXT


def tok(w, lang):
    if w in L.SKIP[lang]:
        return L.conn_tok(w)
    if w in L.VOCAB[lang]:
        return L.num_tok(w, lang)
    if lang == "en" and w in L.EN_ORDINALS:
        return L.ord_tok(w)
    if w in (".", ","):
        return L.sep_tok(w)
    if w.isspace():
        return L.ws_tok(w)
    return L.oth_tok(w)


def toks(pieces, lang):
    """pieces: words; a piece that starts with '+' is glued to what precedes it."""
    out = []
    for p in pieces:
        glued = p.startswith("+") and len(p) > 1
        if glued:
            p = p[1:]
        if out and not glued:
            out.append(L.ws_tok())
        out.append(tok(p, lang))
    return out


def number_units(lang):
    """Patterns of number words and connectors only."""
    r = RUN[lang]
    units = [(r[0],), (r[1],), (r[2],), (r[3],), (r[4],), (r[5],), (r[1], r[0]), (r[0], r[2]), (r[0], r[3]), (r[3], r[0]),
             (r[0], r[4], r[1], r[3]), (r[8],), (r[4], r[3])]
    for k in CONN[lang]:
        units += [(k, r[0]), (r[1], k, r[0])]
    return list(dict.fromkeys(units))


def text_units(lang):
    """Patterns of a running text."""
    r, t = RUN[lang], TEXT[lang]
    units = [(r[0], t[0]), (t[1],), (t[0], r[1], r[0]), (r[0], "+,"), (r[0], "+."), (t[1], "+,", r[3]), ("12",), (r[5], "12"),
             (r[0], "+!"), ("(", "+" + r[1], "+)"), (t[1], "\n"), ("!",), (".",), ("+;",), (r[1], "+;")]
    for k in CONN[lang][:1]:
        units += [(r[0], k, t[1]), (t[0], k)]
    if lang == "en":
        units += [("third",), ("third", "place"), ("twenty", "+-", "+first", "+,")]
    return units


def lengths(top, extra=()):
    return list(range(1, top + 1)) + [e for e in extra if e > top]


def patterns(lang, n, unit, others):
    """Token lists around n repetitions of a unit: alone, and framed by other units."""
    yield unit * n
    for o in others:
        yield unit * n + o
        yield o + unit * n
    if others:
        yield unit * (n // 2) + others[0] + unit * (n - n // 2)
