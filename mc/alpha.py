"""Small representative alphabets per language, shared by the checks.

RUN[lang]   number words covering every category and every size class of scale words
            (ordered: the first ones matter most)
TEXT[lang]  ordinary words, with capitals and accents
"""
RUN = {
    "en": "one twenty hundred thousand million eleven five ninety zero billion ten sextillion".split(),
    "es": "uno treinta cien mil millón once doscientos dos billón cero veintidós millardo quinientas sextillón".split(),
    "hi": "एक सौ हज़ार लाख ग्यारह दो पचास करोड़ शून्य अरब दस खरब".split(),
    "ru": "один двадцать сто тысяча миллион одиннадцать двести две ноль миллиард пятьдесят десять секстиллион".split(),
    "uk": "один двадцять сто тисяча мільйон одинадцять двісті дві нуль мільярд пʼятдесят десять трильйон".split(),
}
CONN = {"en": ["and", "-"], "es": ["y"], "hi": [], "ru": [], "uk": []}
TEXT = {
    "en": ["Café", "someone", "OF"],
    "es": ["Años", "ella", "DE"],
    "hi": ["लोग", "Café", "और"],
    "ru": ["Ещё", "людей", "И"],
    "uk": ["Їжак", "людей", "ЇЇ"],
}
