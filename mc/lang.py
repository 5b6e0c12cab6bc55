"""Reference knowledge about the five languages, independent of the library's tables.

* SPELL: hand-written standard spellings (the oracle for "what does this numeral mean").
* VOCAB: every accepted form of every number word and its value (reviewed snapshot).
* Num: the reference numeral machine (how number words combine, when a number ends).
* ref_parse / ref_parse_number / ...: the reference meaning of the entry points on texts
  given as token lists (the text is made from the tokens, so no tokenizer is needed here).
"""
import json
import os
import unicodedata

LANGS = ("en", "es", "hi", "ru", "uk")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.json"), encoding="utf8") as _f:
    _RAW = json.load(_f)

CATS = ("unit", "direct", "tens", "hundreds", "scale")


def fold(word):
    """Lower case, no combining accents, no apostrophes."""
    return "".join(c for c in unicodedata.normalize("NFD", word.lower())
                   if unicodedata.category(c) != "Mn" and c not in "'’ʼ")


# VOCAB[lang][form] = (category, value); FOLDED the same by folded form
VOCAB, FOLDED, SKIP, LONG = {}, {}, {}, {}
for _l in LANGS:
    VOCAB[_l] = {}
    for _c in CATS:
        for _w, _n in _RAW[_l][_c].items():
            VOCAB[_l][_w] = (_c, 10 ** _n if _c == "scale" else _n)
    FOLDED[_l] = {fold(w): cv for w, cv in VOCAB[_l].items()}
    SKIP[_l] = _RAW[_l]["skip"]
    LONG[_l] = _l == "es"

IRREGULAR = {"first": "one", "second": "two", "third": "three", "fifth": "five",
             "eighth": "eight", "ninth": "nine", "twelfth": "twelve"}


def en_ordinal(cardinal_word):
    """The standard ordinal of an English cardinal word."""
    for o, c in IRREGULAR.items():
        if c == cardinal_word:
            return o
    if cardinal_word.endswith("y"):
        return cardinal_word[:-1] + "ieth"
    return cardinal_word + "th"


EN_ORDINALS = {en_ordinal(w): w for w in VOCAB["en"]}


def is_recognised(word, lang):
    """Does this word count for `lang` in language detection?"""
    if lang != "uk" and ("'" in word or "’" in word):
        return False  # an apostrophe is part of a word in Ukrainian only
    f = fold(word)
    if f in FOLDED[lang] or f in SKIP[lang]:
        return True
    return lang == "en" and f in EN_ORDINALS


def ref_detect(words):
    best, count = "en", 0
    for lang in LANGS:
        n = sum(is_recognised(w, lang) for w in words)
        if n > count:
            best, count = lang, n
    return best


# ------------------------------------------------------------------ numerals
class Num:
    """A number being read.  Immutable.

    done   value closed by the last scale word larger than the group limit
    group  value still open
    scale  the last such scale word's value, or None
    last   category of the last word
    """
    __slots__ = ("done", "group", "scale", "last")

    def __init__(self, done, group, scale, last):
        self.done, self.group, self.scale, self.last = done, group, scale, last

    def key(self):
        return (self.done, self.group, self.scale, self.last)

    @property
    def value(self):
        return self.done + self.group


def start(word, long_scale):
    cat, val = word
    if cat == "scale":
        if val > (10000 if long_scale else 100):
            return Num(val, 0, val, cat)
        return Num(0, val, None, cat)
    return Num(0, val, None, cat)


# which category may follow which inside one number (scale words are decided by size)
_MAY_FOLLOW = {
    "unit": ("tens", "hundreds", "scale"),
    "direct": ("hundreds", "scale"),
    "tens": ("hundreds", "scale"),
    "hundreds": ("scale",),
}


def extend(num, word, long_scale):
    """The number continued by word, or None when word starts a new number."""
    cat, val = word
    if cat != "scale":
        if num.last not in _MAY_FOLLOW[cat]:
            return None
        return Num(num.done, num.group + val, num.scale, cat)
    if val != 100 and val > num.value > 0:
        # a scale word larger than everything read so far multiplies all of it
        return Num(num.value * val, 0, val, cat)
    if val < num.group:
        return None
    if num.done and num.scale and val >= num.scale:
        return None
    group = (num.group or 1) * val
    if val > (10000 if long_scale else 100):
        return Num(num.done + group, 0, val, cat)
    return Num(num.done, group, num.scale, cat)


# ------------------------------------------------------------------ token lists
# A token is (kind, text, word) with kind one of
#   num   number word, word=(category, value)
#   ord   English ordinal, word=(category, value) of its cardinal
#   conn  connector of the language
#   sep   '.' or ','
#   ws    white space
#   oth   anything else (words, punctuation, digits)
def num_tok(form, lang):
    return ("num", form, VOCAB[lang].get(form) or FOLDED[lang][fold(form)])


def ord_tok(form):
    return ("ord", form, VOCAB["en"][EN_ORDINALS[form.lower()]])


def conn_tok(form):
    return ("conn", form, None)


def oth_tok(text):
    return ("oth", text, None)


def sep_tok(text):
    return ("sep", text, None)


def ws_tok(text=" "):
    return ("ws", text, None)


def text_of(tokens):
    return "".join(t[1] for t in tokens)


class Sentence:
    """Reference state machine of parse(); immutable, one step per token."""
    __slots__ = ("out", "num", "pend", "long", "fresh")

    def __init__(self, long_scale, out="", num=None, pend="", fresh=None):
        self.long, self.out, self.num, self.pend = long_scale, out, num, pend

    def _new(self, out, num, pend):
        s = Sentence(self.long)
        s.out, s.num, s.pend = out, num, pend
        return s

    def flushed(self):
        return self.out + (str(self.num.value) + self.pend if self.num else "")

    def step(self, tok):
        kind, text, word = tok
        if kind in ("num", "ord"):
            out, num = self.out, None
            if self.num:
                num = extend(self.num, word, self.long)
                if num is None:
                    # connectors between two numbers are kept, single spaces around them
                    out += " ".join([str(self.num.value)] + conns(self.pend)) + " "
            if num is None:
                num = start(word, self.long)
            if kind == "ord":
                return self._new(out + str(num.value), None, "")
            return self._new(out, num, "")
        if kind == "ws":
            if self.num:
                return self._new(self.out, self.num, self.pend if self.pend.endswith(" ") else self.pend + " ")
            return self._new(self.out + text, None, "")
        if kind == "conn" and self.num:
            return self._new(self.out, self.num, self.pend + text)
        return self._new(self.flushed() + text, None, "")

    def key(self):
        """What the future depends on (the text already emitted does not matter)."""
        return (self.num.key() if self.num else None, self.pend)

    def result(self):
        return self.flushed().strip()


def conns(pend):
    """Connectors in pending text; '-' needs no spaces around it."""
    out = []
    for part in pend.split():
        cur = ""
        for ch in part:
            if ch == "-":
                if cur:
                    out.append(cur)
                out.append("-")
                cur = ""
            else:
                cur += ch
        if cur:
            out.append(cur)
    return out


def ref_parse(tokens, lang):
    s = Sentence(LONG[lang])
    for t in tokens:
        s = s.step(t)
    return s.result()


def ref_parse_number(tokens, lang, ordinals=False):
    """Value of the single number the tokens spell, or None."""
    body = [t for t in tokens if t[0] != "ws"]
    if len(body) == 1 and body[0][0] == "oth" and body[0][1].isdecimal():
        return int(body[0][1])
    num = None
    for kind, text, word in body:
        if kind == "num" or (ordinals and kind == "ord"):
            if num is None:
                num = start(word, LONG[lang])
            else:
                num = extend(num, word, LONG[lang])
                if num is None:
                    return None
        elif kind == "conn" and num is not None:
            continue
        else:
            return None
    return num.value if num else None


# ------------------------------------------------------------------ spellings
EN_ONES = ("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen "
           "fifteen sixteen seventeen eighteen nineteen").split()
EN_TENS = "- - twenty thirty forty fifty sixty seventy eighty ninety".split()
EN_SCALES = ["", "thousand", "million", "billion", "trillion", "quadrillion", "quintillion", "sextillion"]

ES_ONES = ("cero uno dos tres cuatro cinco seis siete ocho nueve diez once doce trece catorce quince "
           "dieciséis diecisiete dieciocho diecinueve veinte veintiuno veintidós veintitrés veinticuatro "
           "veinticinco veintiséis veintisiete veintiocho veintinueve").split()
ES_TENS = "- - - treinta cuarenta cincuenta sesenta setenta ochenta noventa".split()
ES_HUNDREDS = ("- ciento doscientos trescientos cuatrocientos quinientos seiscientos setecientos "
               "ochocientos novecientos").split()
ES_SCALES = [("millón", "millones"), ("billón", "billones"), ("trillón", "trillones"),
             ("cuatrillón", "cuatrillones"), ("quintillón", "quintillones"), ("sextillón", "sextillones"),
             ("septillón", "septillones"), ("octillón", "octillones"), ("nonillón", "nonillones"),
             ("decillón", "decillones"), ("undecillón", "undecillones"), ("duodecillón", "duodecillones"),
             ("tredecillón", "tredecillones")]
# isolated larger scale words: power of ten -> (singular, plural or None)
ES_FAR = {120: ("vigintillón", "vigintillones"), 600: ("centillón", None), 100: ("gúgol", None)}

HI_ONES = """शून्य एक दो तीन चार पाँच छह सात आठ नौ दस ग्यारह बारह तेरह चौदह पन्द्रह सोलह सत्रह अठारह उन्नीस बीस
इक्कीस बाईस तेईस चौबीस पच्चीस छब्बीस सत्ताईस अट्ठाईस उनतीस तीस इकतीस बत्तीस तैंतीस चौंतीस पैंतीस छत्तीस सैंतीस अड़तीस उनतालीस
चालीस इकतालीस बयालीस तैंतालीस चौवालीस पैंतालीस छियालीस सैंतालीस अड़तालीस उनचास पचास इक्यावन बावन तिरेपन चौवन पचपन छप्पन सत्तावन
अट्ठावन उनसठ साठ इकसठ बासठ तिरेसठ चौंसठ पैंसठ छियासठ सड़सठ अड़सठ उनहत्तर सत्तर इकहत्तर बहत्तर तिहत्तर चौहत्तर पचहत्तर छिहत्तर
सतहत्तर अठहत्तर उनासी अस्सी इक्यासी बयासी तिरासी चौरासी पचासी छियासी सत्तासी अट्ठासी नवासी नब्बे इक्यानबे बानबे तिरानबे चौरानबे
पंचानबे छियानबे सत्तानबे अट्ठानबे निन्यानबे""".split()
HI_SCALES = [(11, "खरब"), (9, "अरब"), (7, "करोड़"), (5, "लाख"), (3, "हज़ार"), (2, "सौ")]

RU_ONES = ("ноль один два три четыре пять шесть семь восемь девять десять одиннадцать двенадцать тринадцать "
           "четырнадцать пятнадцать шестнадцать семнадцать восемнадцать девятнадцать").split()
RU_TENS = "- - двадцать тридцать сорок пятьдесят шестьдесят семьдесят восемьдесят девяносто".split()
RU_HUNDREDS = "- сто двести триста четыреста пятьсот шестьсот семьсот восемьсот девятьсот".split()
RU_SCALES = [None, ("тысяча", "тысячи", "тысяч")] + [
    (w, w + "а", w + "ов") for w in ("миллион", "миллиард", "триллион", "квадриллион", "квинтиллион", "секстиллион")]

UK_ONES = ("нуль один два три чотири пʼять шість сім вісім девʼять десять одинадцять дванадцять тринадцять "
           "чотирнадцять пʼятнадцять шістнадцять сімнадцять вісімнадцять девʼятнадцять").split()
UK_TENS = "- - двадцять тридцять сорок пʼятдесят шістдесят сімдесят вісімдесят девʼяносто".split()
UK_HUNDREDS = "- сто двісті триста чотириста пʼятсот шістсот сімсот вісімсот девʼятсот".split()
_UK_FAR = ("трильйон квадрильйон квінтильйон секстильйон септильйон октильйон нонільйон децільйон ундецільйон "
           "дуодецільйон тредецільйон кваттуордецильйон квіндецильйон сексдецильйон септендецильйон октодецильйон "
           "новемдецильйон вігінтільйон унвігінтільйон дуовігінтільйон тревігінтільйон кваттуорвігінтільйон "
           "квінвігінтільйон сексвігінтільйон септемвігінтільйон октовігінтільйон новемвігінтільйон тригінтільйон "
           "унтригінтільйон дуотригінтільйон третригінтільйон кваттуортригінтільйон квінтригінтільйон "
           "секстригінтільйон септентригінтільйон октотригінтільйон новемтригінтільйон квадрагінтільйон "
           "унквадрагінтільйон дуоквадрагінтільйон").split()
# beyond 10**9 the library knows the nominative singular only
UK_SCALES = [None, ("тисяча", "тисячі", "тисяч"), ("мільйон", "мільйони", "мільйонів"),
             ("мільярд", "мільярди", "мільярдів")] + [(w, w, w) for w in _UK_FAR]


def _en_below_100(n):
    if n < 20:
        return [EN_ONES[n]]
    return [EN_TENS[n // 10]] + ([EN_ONES[n % 10]] if n % 10 else [])


def _groups(n, size):
    out = []
    while n:
        out.append(n % size)
        n //= size
    return out


# Variants: en: 'plain' 'and' 'hyphen' 'and-hyphen'; es: 'y' (standard) 'no-y'; others one.
VARIANTS = {"en": ("plain", "and", "hyphen", "andhyphen"), "es": ("y", "plain"), "hi": ("plain",),
            "ru": ("plain",), "uk": ("plain",)}


def _en_words(n, variant):
    """List of chunks to be joined by spaces."""
    conj = ["and"] if variant.startswith("and") else []
    hyph = variant.endswith("hyphen")

    def small(m):
        w = _en_below_100(m)
        return ["-".join(w)] if hyph and len(w) == 2 else w

    if n == 0:
        return ["zero"]
    out = []
    groups = _groups(n, 1000)
    for i in reversed(range(len(groups))):
        g = groups[i]
        if not g:
            continue
        if g >= 100:
            out += [EN_ONES[g // 100], "hundred"]
        if g % 100:
            if conj and (g >= 100 or (i == 0 and len(groups) > 1)):
                out += conj
            out += small(g % 100)
        if i:
            out.append(EN_SCALES[i])
    return out


def _es_below_1000(n, y, short):
    """short: before a noun-like scale word ('un', 'veintiún')."""
    if n == 100:
        return ["cien"]
    out = []
    if n >= 100:
        out.append(ES_HUNDREDS[n // 100])
        n %= 100
    if 0 < n < 30:
        w = ES_ONES[n]
        if short and n == 1:
            w = "un"
        if short and n == 21:
            w = "veintiún"
        out.append(w)
    elif n:
        out.append(ES_TENS[n // 10])
        if n % 10:
            if y:
                out.append("y")
            out.append("un" if short and n % 10 == 1 else ES_ONES[n % 10])
    return out


def _es_below_million(n, y, short):
    out = []
    if n >= 1000:
        if n // 1000 > 1:
            out += _es_below_1000(n // 1000, y, True)
        out.append("mil")
    if n % 1000:
        out += _es_below_1000(n % 1000, y, short)
    return out


def _es_words(n, variant):
    y = variant == "y"
    if n == 0:
        return ["cero"]
    out = []
    far = max([p for p in ES_FAR if p != 100 and n >= 10 ** p], default=None)
    if far:
        m, n = divmod(n, 10 ** far)
        assert m < 10 ** 6
        out += _es_below_million(m, y, True) + [ES_FAR[far][0 if m == 1 else 1]]
    groups = _groups(n, 10 ** 6)
    for i in reversed(range(len(groups))):
        g = groups[i]
        if g:
            out += _es_below_million(g, y, i > 0)
            if i:
                out.append(ES_SCALES[i - 1][0 if g == 1 else 1])
    return out


def _hi_words(n, variant):
    if n < 100:
        return [HI_ONES[n]]
    out = []
    for p, w in HI_SCALES:
        m, n = divmod(n, 10 ** p)
        if m:
            assert m < 100
            out += [HI_ONES[m], w]
    if n:
        out.append(HI_ONES[n])
    return out


def _slavic_words(n, ones, tens, hundreds, scales, feminine):
    if n == 0:
        return [ones[0]]
    out = []
    groups = _groups(n, 1000)
    for i in reversed(range(len(groups))):
        g = groups[i]
        if not g:
            continue
        if g >= 100:
            out.append(hundreds[g // 100])
        m = g % 100
        if m >= 20:
            out.append(tens[m // 10])
            m %= 10
        if m:
            out.append(feminine[m] if i == 1 and m in feminine else ones[m])
        if i:
            m = g % 100
            one, few, many = scales[i]
            if 10 < m < 20:
                out.append(many)
            elif m % 10 == 1:
                out.append(one)
            elif 2 <= m % 10 <= 4:
                out.append(few)
            else:
                out.append(many)
    return out


def _ru_words(n, variant):
    return _slavic_words(n, RU_ONES, RU_TENS, RU_HUNDREDS, RU_SCALES, {1: "одна", 2: "две"})


def _uk_words(n, variant):
    return _slavic_words(n, UK_ONES, UK_TENS, UK_HUNDREDS, UK_SCALES, {1: "одна", 2: "дві"})


_SPELL = {"en": _en_words, "es": _es_words, "hi": _hi_words, "ru": _ru_words, "uk": _uk_words}
MAX_POWER = {"en": 24, "es": 84, "hi": 13, "ru": 24, "uk": 132}


def spell_words(n, lang, variant=None):
    return _SPELL[lang](n, variant or VARIANTS[lang][0])


def spell(n, lang, variant=None):
    return " ".join(spell_words(n, lang, variant))


def en_ordinal_words(n, variant="plain"):
    """Standard ordinal spelling of n >= 1: the last word becomes ordinal."""
    w = _en_words(n, variant)
    last = w[-1]
    if "-" in last:
        a, b = last.split("-")
        w[-1] = a + "-" + en_ordinal(b)
    else:
        w[-1] = en_ordinal(last)
    return w
