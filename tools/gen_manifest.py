#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ENUM = "bounded exhaustive exploration of the real code against a reference model"
T = {
 "C01": (ENUM + " (spelling generator)", "Every trace of the numeral generator within the bounds is parsed by the real code and compared with the integer it was generated from. Trusted: the spelling generator (mc/lang.py) and the frozen vocabulary; assumes nothing about the implementation."),
 "C02": (ENUM + " (form substitution)", "Every frozen vocabulary form alone, in every syntactic slot and against every other form of its value. Trusted: the frozen table of forms and values."),
 "C03": (ENUM + " (ordinal generator)", "Every ordinal spelling the generator produces within the bounds, in all positions. Trusted: the English ordinal speller."),
 "C04": ("explicit-state model checking of the numeral automaton: closed control-state graph, every transition replayed on the real code", "Reference automaton explored to a fixed point of its control states per language, each transition replayed with several contexts; plus all word sequences up to a depth. Trusted: the reference automaton; values abstracted by comparison outcomes."),
 "C05": (ENUM + " (lossless rewriting model)", "All texts of fragment sequences up to a length over number, connector, word, punctuation and spacing fragments. Trusted: the reference rewriter, and characters outside the alphabet behave like those in it (all code points are tried alone in C08/C05)."),
 "C06": (ENUM + " (relation between runs: isolation)", "All pairs and chains of fragments around separators: the real code is compared with itself on the parts, so no value oracle is trusted."),
 "C07": (ENUM + " (acceptance model)", "All token sequences up to a depth over an alphabet with every token class. Trusted: the reference acceptance rule."),
 "C08": ("bounded exhaustive exploration of texts over an adversarial alphabet, plus every Unicode code point, monitoring totality", "Every call must return a value of the right type; no oracle beyond that. Digit strings beyond Python's integer conversion limit are excluded."),
 "C09": (ENUM + " (relation between runs: spelling variants)", "Every vocabulary form and composed numbers under every combination of the listed variations; compared with the plain spelling and with the reference value."),
 "C10": (ENUM + " (detection model)", "All token sequences over words of all languages up to a depth: the call without language must equal the call with the language the model picks."),
 "C11": ("exhaustive enumeration of language codes x entry points x texts on the real code", "All codes of up to three letters, all shipped vocabulary names and their variants, separators and blanks."),
 "C12": (ENUM + " (relation between runs: fraction vs its sides)", "All pairs of sides, separators, spacing and case variants within the bounds; sides are judged by the real parse_number."),
 "C13": (ENUM + " (digits, and idempotence as a relation between runs)", "All digit strings up to a length in every decimal script, all placements among words up to a depth, and re-parsing of outputs."),
 "C14": ("explicit-state exploration of call histories: state graph of the library's module-level state to a fixed point, plus all histories up to a depth", "Oracle: the same call as the first of its own fresh process. State outside the library's modules is seen only through results."),
 "C15": ("stateless model checking of real threads under a controlled scheduler, preemption-bounded", "All schedules within the stated preemption bounds at the granularity of calls, lines or instructions. Assumes switches inside one bytecode instruction or inside the import of a module do not matter."),
 "C16": ("exhaustive enumeration of environment answers (listing orders, initial files, locales, directories, repetition) for the real script", "Files must come out byte-identical to the working tree's. Listing orders: walks containing every ordered pair of files, all permutations of small subsets."),
 "C17": ("exhaustive fault enumeration: every file-changing system call of the real script x crash, torn write and error, then rerun", "Faults are injected by a preloaded library at the system-call level; a crash keeps what was handed to the kernel."),
 "C18": (ENUM + " (rule-form model over all small rule files)", "Every combination of rule form, key and section, pairs and triples of rules, and overlays, run through the real script. Trusted: the rule-form model."),
 "C19": (ENUM + " (whole-word recognition model)", "Every vocabulary word with every letter or digit attached on either side, and joined pairs of words. Trusted: the recognition rule of the reference."),
 "C20": (ENUM + " (relation between entry points)", "All word sequences up to a depth in all languages: the entry points are compared with each other, no value oracle is trusted."),
}
checks = []
for pid, (tech, note) in T.items():
    m = pid.lower()
    checks.append({"property": pid, "quick_cmd": "python3 -m mc.checks.%s quick" % m,
                   "thorough_cmd": "python3 -m mc.checks.%s thorough" % m, "evidence_file": "evidence/%s.json" % pid,
                   "technique": tech, "level": "fault_enumeration" if pid == "C17" else "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import mc.core, mc.lang, mc.gen, mc.sched'", "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed in /repo. Bounds, oracles and costs of every check: DESIGN.md. Replay a violation with: python3 -m mc.replay <path>"},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
F = [
 ("C08", "b66fe79", "parse_number and parse_ordinal raised ValueError on numeric characters that are not digits ('½', '²', '一')"),
 ("C07", "c76b360", "parse_number returned 0 for text without any number word ('-', \"'\", a soft hyphen, ' and'), and accepted a leading connector depending on whitespace"),
 ("C19", "03a6d3a", "words that merely contain an irregular ordinal were read as numbers ('eighthy' as 80, 'ninthteen' as 19)"),
 ("C12", "ba013c0", "parse_fraction did not recognise separators in capital letters ('one OVER two')"),
 ("C05", "82ca0d9", "parse lost or rewrote connectors after a number, changed their case, inserted a space before punctuation and dropped lone combining marks"),
 ("C05", "f605afe", "parse dropped soft hyphens from words that are not numbers"),
 ("C13", "8cfb082", "digits next to a separator control character (U+001C..U+001F), which is white space, made parse_number raise ValueError"),
 ("C20", "2233c40", "parse_ordinal read digits with a combining mark or a soft hyphen among them ('12\u0300'), which parse_number refuses"),
 ("C09", "ed83830", "numbers with decomposed accents, or directly next to Hindi punctuation, were not recognised"),
 ("C09", "2de0933", "Ukrainian numbers were recognised or missed depending on the apostrophe character used"),
 ("C02", "38aaf4a", "Spanish 'decillones' had the value 10**66 while 'decillon' has 10**60"),
 ("C16", "ac5927c", "regenerating the language data lost five Ukrainian words that only the shipped file had"),
 ("C16", "4778986", "the generation script depended on the locale's encoding"),
 ("C18", "8524053", "zeros of rule keys from 10**24 on were miscounted (floating point division)"),
 ("C18", "42607ea", "a multiplier rule without a word added an empty number word"),
]
json.dump([{"property": p, "status": "fixed", "commit": k, "what": w, "record": "fixed: property=%s %s %s" % (p, k, w)} for p, k, w in F],
          open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
