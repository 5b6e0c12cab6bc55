#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = "number_parser/parser.py"
D = "number_parser/data/"
S = "number_parser_scripts/write_complete_language_data.py"
J = "number_parser_data/"

def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

props = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": mechanism, "hook_needed": None}
    if state: a["state"] = state
    a["observe_at"] = observe or []
    assert len(title) <= 80, (id, len(title))
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

prop("C01", "Spelled-out cardinals parse to their exact value",
 "In each of the five supported languages (English, Spanish, Hindi, Russian, Ukrainian), parsing the standard spelling of a non-negative integer as a single number returns exactly that integer. This holds for every magnitude the language's scale words can express, whichever groups are zero, and with or without the optional connectors (English 'and' and hyphens, Spanish 'y').",
 ["inputs"], "every non-negative integer whose standard spelling uses the language's own number words, every optional-connector variant",
 "The suite checks 0..100 and about twenty larger values per language (Ukrainian: isolated words only), and only through the ordinal entry point; the space of magnitudes and zero-group patterns is unbounded.",
 [P, D+"en.py", D+"es.py", D+"hi.py", D+"ru.py", D+"uk.py"],
 mech(("incremental group/scale accumulation", P+": _build_number, _check_validity, _check_large_multiplier"), ("vocabulary tables", D+"<lang>.py")),
 [{"name": "running total, current group, previous scale", "meaning": "value of the numeral read so far", "where": P+": _build_number"}],
 ["parse_number"])

prop("C02", "All forms of a number word are interchangeable",
 "Every inflected, gendered, plural or alternative form of a supported language's number word stands for one fixed value: alone it parses to that value, and substituting one form for another of the same value inside a longer number (or inside a sentence) leaves the result unchanged.",
 ["inputs"], "every number word form of the five vocabularies, in every syntactic position in which that value can occur",
 "Tests sample about 40 Russian and 100 Ukrainian forms, nearly all in isolation; they do not reach most forms inside longer numbers, and no rule ties the forms of one value together.",
 [P, D+"en.py", D+"es.py", D+"hi.py", D+"ru.py", D+"uk.py", J+"supplementary_translation_data/"],
 mech(("category tables", P+": LanguageData.__init__"), ("accent folding of keys", P+": _normalize_dict")),
 None, ["parse_number", "parse"])

prop("C03", "English ordinals parse to the value of their cardinal",
 "In English, the ordinal spelling of every positive integer ('forty-second', 'two thousandth') parses with the ordinal entry point to that integer, as does its cardinal spelling. Inside running text an ordinal is replaced by its digits and always ends the number it closes, so the following number word starts a new number.",
 ["inputs"], "every positive integer with an English spelling; every ordinal position in a sentence",
 "The suite checks ordinals 1..99 and 22 larger ones, and eight sentences; it does not cover every final word with every preceding scale or what follows an ordinal.",
 [P],
 mech(("ordinal to cardinal conversion", P+": _apply_cardinal_conversion, _is_ordinal_token"), ("ordinal closes the number", P+": parse")),
 None, ["parse_ordinal", "parse"])

prop("C04", "Runs of number words split into maximal numbers, nothing lost",
 "A run of number words and connectors that is not a single well-formed number is rewritten by parse() as the left-to-right sequence of numbers obtained by reading each number as far as it can be continued ('two thousand thousand' is '2000 1000', 'one two three' is '1 2 3', 'two thousand two million' is 2002000000). Every number word contributes to exactly one output number, and connectors standing between two numbers or after the last one are kept.",
 ["inputs"], "all sequences of number words and connectors, in all five languages",
 "About twenty ambiguous sequences are tested, English and Spanish only; the reachable combinations of running total, group, last word and last scale are never enumerated.",
 [P],
 mech(("token compatibility rules", P+": _check_validity"), ("large multiplier rule", P+": _check_large_multiplier"), ("flush and restart", P+": _build_number"), ("token collection", P+": parse")),
 [{"name": "numeral builder state", "meaning": "total, group, previous word, previous scale, pending connectors", "where": P+": _build_number"}],
 ["parse"])

prop("C05", "Sentence rewriting changes nothing but the numbers",
 "parse() replaces number phrases by digits and leaves every other word and punctuation mark exactly as written (case, accents, order, none dropped or duplicated), and text without number words comes back unchanged except for trimmed outer whitespace. Whitespace between unaffected tokens is kept; after a number, whitespace collapses to one space (kept before a sentence separator only if it was there) and none is inserted before punctuation that directly follows the number.",
 ["inputs"], "all texts that interleave number phrases with other words, punctuation and whitespace, in all five languages",
 "About 30 sentences are tested; combinations of number phrase, connector, punctuation and spacing at each position are not.",
 [P],
 mech(("token loop with verbatim copy of other tokens", P+": parse"), ("lossless tokenization", P+": _tokenize")),
 [{"name": "tokens_taken / current_sentence", "meaning": "pending number words and text already emitted", "where": P+": parse"}],
 ["parse"])

prop("C06", "Sentence separators and ordinary words isolate numbers",
 "With a given language, a full stop, a comma or an ordinary word always ends a number: for texts a and b and a separator s, parse(a + s + b) is parse(a), s, parse(b) put together. What stands on one side of the separator never changes how the other side is read.",
 ["inputs", "histories"], "all pairs (and longer chains) of text fragments and separators, in all five languages",
 "A handful of separator sentences are tested; independence of the two sides is a relation over all pairs of fragments.",
 [P],
 mech(("flush at separators and at non-number words", P+": parse._build_and_add_number, SENTENCE_SEPARATORS")),
 [{"name": "tokens_taken", "meaning": "must be empty after every separator", "where": P+": parse"}],
 ["parse"])

prop("C07", "parse_number accepts exactly one complete number and nothing else",
 "parse_number returns an integer only when the whole text is one number; it returns None when the text contains any word or symbol (apostrophes aside) that is not part of a number, when it begins with a connector, when it holds two or more separate numbers, or when it contains no number word at all. It never answers with the value of only a part of the text (connectors after the first number word are tolerated).",
 ["inputs"], "all token sequences over number words, connectors, other words, digits and punctuation, with any leading or trailing whitespace",
 "Six negative examples are tested; every mixture of valid and invalid tokens and its position matters.",
 [P],
 mech(("token screening", P+": parse_number"), ("single-result test", P+": parse_number (len(number_built) == 1)")),
 None, ["parse_number", "parse_ordinal"])

prop("C08", "Every entry point is total on text",
 "For every text (digit strings beyond Python's integer conversion limit aside) and every supported language (or none given), parse, parse_number, parse_ordinal and parse_fraction return normally, without raising: a string, an integer or None, an integer or None, and an 'integer/integer' string or None respectively. Integers returned are non-negative.",
 ["inputs"], "all strings (including unusual Unicode: numeric characters that are not digits, combining marks, format characters, every kind of whitespace) x all entry points x all supported languages and none",
 "The tests feed well-formed ASCII and ordinary native text; odd characters and their position relative to number words are not covered.",
 [P],
 mech(("guards for empty and numeric input", P+": parse_number, parse_fraction"), ("dictionary membership before lookup", P+": _build_number")),
 None, ["parse", "parse_number", "parse_ordinal", "parse_fraction"])

prop("C09", "Case, accents, spacing and apostrophe style do not change a number",
 "A number keeps its value when its words are written in any letter case, with or without accents, with accents composed or decomposed, with soft hyphens inserted, with any kind and amount of whitespace between and around the words, or (Ukrainian) with any of the usual apostrophe characters or none.",
 ["inputs"], "every number word of the five vocabularies and every composed number, under every combination of these spelling variations",
 "Tests contain two mixed-case sentences and two unaccented Spanish words; the product of vocabulary and variation is not covered.",
 [P],
 mech(("lower-casing and accent removal on both sides", P+": _normalize_tokens, _normalize_dict, _strip_accents"), ("soft hyphen removal", P+": _tokenize"), ("apostrophe removal", P+": parse_number")),
 None, ["parse_number", "parse", "parse_ordinal"])

prop("C10", "Language detection picks the language with most recognised words",
 "When no language is given, every entry point behaves exactly as if it had been given the supported language in which the text has the largest number of recognised words (number words, English-style ordinals, connectors), ties resolved in the order English, Spanish, Hindi, Russian, Ukrainian, and English when no word is recognised.",
 ["inputs"], "all texts mixing words of the five languages with unknown words",
 "Ten texts are tested; the choice depends on counts over all mixtures of words.",
 [P],
 mech(("per-language count and first maximum", P+": _valid_tokens_by_language")),
 [{"name": "language_matches", "meaning": "recognised words per language", "where": P+": _valid_tokens_by_language"}],
 ["parse", "parse_number", "parse_ordinal", "parse_fraction"])

prop("C11", "Unsupported languages are refused",
 "A language code other than the five supported ones (including codes for which vocabulary files are shipped, wrong case, regional variants, blank or padded codes) makes every entry point raise ValueError as soon as the text has words to interpret (for parse_fraction: in a text with a separator); no result is ever computed with another language's rules or with an unsupported vocabulary. All five supported codes are accepted.",
 ["configurations", "inputs"], "all language codes x all entry points x texts containing at least one word",
 "One invalid code is tested, on an internal class; the shipped but unsupported vocabularies and near-miss codes are not.",
 [P],
 mech(("whitelist check", P+": LanguageData.__init__, SUPPORTED_LANGUAGES")),
 None, ["parse", "parse_number", "parse_ordinal", "parse_fraction"])

prop("C12", "A fraction is returned iff both sides are numbers",
 "parse_fraction of 'A divided by B', 'A over B', 'A by B' or 'A / B' returns 'a/b' where a and b are exactly what parse_number gives for A and B, in any letter case and with any spacing around the separator; it returns None when a side is missing or not a single number, or when there is no separator.",
 ["inputs"], "all pairs of left and right texts x all separators x spacing and case",
 "Eight positive and six negative examples are tested, English only; pairs of sides, repeated separators and digit operands are not.",
 [P],
 mech(("separator search and split", P+": parse_fraction")),
 None, ["parse_fraction"])

prop("C13", "Digits pass through unchanged",
 "A text that is a string of decimal digits (any script, surrounding whitespace allowed) parses as a single number to its integer value in every language, while parse() leaves digits, decimal numbers, times and dates already present in a text as they are. With a given language, applying parse() to its own output changes nothing.",
 ["inputs"], "all digit strings up to a length, all placements of digit tokens among words and numbers, all texts for idempotence",
 "Four digit strings are tested, and no test re-parses an output.",
 [P],
 mech(("numeric shortcut", P+": parse_number"), ("non-number tokens are copied", P+": parse")),
 None, ["parse", "parse_number"])

prop("C14", "Results do not depend on earlier calls",
 "Each entry point is a pure function of its arguments: whatever calls were made before in the same process, in whatever languages, successful or refused, a call returns exactly what it returns as the first call of a fresh process.",
 ["histories"], "all sequences of calls over the entry points and languages, including failing calls and repetition",
 "Tests check each call once in one fixed order; they cannot show that no order of calls interferes.",
 [P],
 mech(("per-call language objects and local buffers", P+": LanguageData, parse, _build_number"), ("shared mutable class attributes never written", P+": LanguageData class body")),
 [{"name": "module and class level state", "meaning": "must never carry results between calls", "where": P}],
 ["parse", "parse_number", "parse_ordinal", "parse_fraction"])

prop("C15", "Concurrent calls do not interfere",
 "Calls made from several threads at the same time return exactly what the same calls return one after another, under every interleaving, including the very first calls after import.",
 ["schedules"], "all interleavings of two or three threads (up to a preemption bound), same and different languages, from a freshly imported library",
 "No test uses threads; interleavings are not under a test's control.",
 [P],
 mech(("no shared mutable state between calls", P+": all working state is local"), ("import of language data on first use", P+": LanguageData.__init__")),
 [{"name": "module level state", "meaning": "constants only", "where": P}],
 ["parse", "parse_number", "parse_ordinal", "parse_fraction"])

prop("C16", "Regenerating the language data reproduces the shipped files",
 "Running the data generation script on the shipped CLDR and supplementary sources reproduces every shipped language file byte for byte, whatever the order in which the directory is listed, whatever the previous content of the target files, whatever the working directory or locale, and however often it is run; it changes no other file.",
 ["configurations", "histories"], "all listing orders (bounded), initial target contents, locales, working directories, repeated runs",
 "The script has no tests at all; nothing ties the shipped vocabularies to their sources.",
 [S, J, D],
 mech(("merge, sort and overwrite", S+": write_complete_data"), ("shipped vocabularies", D)),
 [{"name": "target files", "meaning": "function of the sources only", "where": D}],
 ["files under number_parser/data"])

prop("C17", "An interrupted regeneration is repaired by running it again",
 "If the data generation script is stopped at any point (crash, failed or partial write), running it again to completion yields exactly the files an uninterrupted run produces; the source files and every file other than the generated ones are never modified, and a failed write is not reported as success.",
 ["crash_points", "fault_sequences"], "every write-path operation of a run, each either cut off, torn or failing; then a rerun",
 "No test runs the script, let alone interrupts it.",
 [S],
 mech(("targets rebuilt from sources only", S+": write_complete_data"), ("truncating open of each target", S+": write_complete_data")),
 [{"name": "target files", "meaning": "old, torn or complete after a crash", "where": D}],
 ["files under number_parser/data and number_parser_data", "exit status of the script"])

prop("C18", "Vocabulary extraction from rule sources follows the rule forms",
 "For every source rule, the generated vocabulary contains exactly the word the rule defines: plain words below 100 as units or direct numbers, '>>' words as tens or hundreds, '<<..>>' words (every plural variant) as powers of ten; rules that are references, non-numeric keys, ordinals or cents contribute nothing. Supplementary entries override extracted ones, and each table is sorted by value then word.",
 ["inputs", "programs"], "all rule keys x rule body forms x section names x supplementary overlays, within small bounds",
 "The script has no tests; the 80 shipped sources exercise only the forms they happen to contain.",
 [S],
 mech(("section filter", S+": _is_valid"), ("rule classification", S+": _extract_information, _add_base_words, _add_compound_words, _add_multiplier_words"), ("merge and sort", S+": write_complete_data")),
 None, ["generated files"])

prop("C19", "Number words inside longer words are never touched",
 "A number word, ordinal or connector is recognised only as a whole word: a longer word that merely contains, begins or ends with one ('someone', 'tent', 'seconds', 'oncen') is not a number for any entry point and is left unchanged by parse(), unless that longer word is itself a number word or a number word with an English ordinal ending.",
 ["inputs"], "every vocabulary word of the five languages x every letter or digit prefixed, suffixed or both, and joined vocabulary words",
 "Four such words are tested ('goldsmith', 'robust', 'crieth', 'path').",
 [P],
 mech(("split on non-word characters and dictionary lookup of whole tokens", P+": _tokenize, _is_cardinal_token"), ("ordinal suffix removal", P+": _apply_cardinal_conversion")),
 None, ["parse", "parse_number", "parse_ordinal"])

prop("C20", "The entry points agree with each other",
 "For a text of number words and connectors in a given language that begins with a number word: parse_number returns n exactly when parse rewrites the text to the digits of n (plus any trailing connectors), and parse_ordinal returns the same as parse_number on every text (whatever its words, apostrophes aside) that contains no ordinal word. Replacing the last word of an English cardinal by its ordinal changes neither parse's result nor parse_ordinal's.",
 ["inputs"], "all sequences of number words and connectors up to a length, in all five languages",
 "Each entry point is tested on its own examples; no test compares them on the same input.",
 [P],
 mech(("shared numeral builder", P+": _build_number"), ("three separate front ends", P+": parse, parse_number, parse_ordinal")),
 None, ["parse", "parse_number", "parse_ordinal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w", encoding="utf8") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
