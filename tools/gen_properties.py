"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib

P = "number_parser/parser.py"
D = "number_parser/data/"
G = "number_parser_scripts/write_complete_language_data.py"
out = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    out.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


build_state = [("total / current group / last scale", "value of the finished groups, of the group being read, and the last scale word seen", P + ":_build_number")]
build = [("number building loop", P + ":_build_number"), ("adjacency rules", P + ":_check_validity"),
         ("scale over everything so far", P + ":_check_large_multiplier"), ("tokenising and normalising", P + ":_tokenize,_normalize_tokens")]

prop("C01", "English cardinals convert to their exact value",
     "parse_number (language 'en') returns exactly n for every English spelling of a whole number 0 <= n < 10**24: units, teens, tens, hundreds and the scale words thousand to sextillion in decreasing order, a group being one to three digits, a leading scale or 'hundred' possibly without its 'one', the first group possibly in 'nineteen hundred' style. It does so with or without 'and' and hyphens between the words.",
     ["inputs"], "every number below 10**24 and every spelling of it by the grammar in the statement (10**24 numbers, several spellings each)",
     "The tests check the numbers up to some thousands exhaustively from fixtures plus a few dozen large ones; the interaction of scales, groups and 'and' is unbounded and is decided by comparisons between running totals.",
     [P, D + "en.py"], build, ["parse_number"], build_state)
prop("C02", "Spanish cardinals convert to their exact value",
     "parse_number (language 'es') returns exactly the value of every Spanish cardinal built from the shipped vocabulary by the long-scale grammar: groups of one to three digits, at most one 'mil' inside each six-digit period, and period words (millon, billon, ... decreasing) that multiply the whole period before them, with masculine/feminine/apocopated forms, with or without 'y'. A bare 'mil' counts as one thousand.",
     ["inputs"], "every Spanish cardinal below 10**84 by that grammar, plus periods of googol, vigintillon and centillon size",
     "Tests sample a few fixtures below one million and a handful of larger numbers; the long-scale rule (mil inside a period) depends on a threshold compared with running values that samples do not pin down.",
     [P, D + "es.py"], build, ["parse_number"], build_state)
prop("C03", "Hindi cardinals convert to their exact value",
     "parse_number (language 'hi') returns exactly the value of every Hindi cardinal 0 <= n < 10**13 in the Indian system: 0-99 as single words, sau (hundred), and hazar, lakh, karod, arab, kharab each multiplying a group of 1-99, in decreasing order, a leading hundred or scale possibly without its 'one'.",
     ["inputs"], "every number below 10**13 in the Indian grouping",
     "Tests use fixtures of a few hundred numbers; the two-digit groups with hundred doubling as a scale word are only sampled.",
     [P, D + "hi.py"], build, ["parse_number"], build_state)
prop("C04", "Russian cardinals convert to their exact value in every declension",
     "parse_number (language 'ru') returns exactly the value of every Russian cardinal 0 <= n < 10**24 written as hundreds, tens or teens, units and scale words tysyacha to sekstillion in decreasing order, whatever grammatical case form of the shipped vocabulary each word is in. A scale word without a number before it counts as one of it.",
     ["inputs"], "every number below 10**24 and every combination of inflected forms",
     "Three fixtures of one case each are tested; the combinations of inflected forms across classes and scales are exponentially many.",
     [P, D + "ru.py"], build, ["parse_number"], build_state)
prop("C05", "Ukrainian cardinals convert to their exact value",
     "parse_number (language 'uk') returns exactly the value of every Ukrainian cardinal written as hundreds, tens or teens, units and scale words tysyacha up to the 10**129 scale in decreasing order, whatever shipped form each word is in; a scale word without a number before it counts as one of it. The citation forms of 5, 9, 15, 19, 50, 90, 500 and 900 give the same value when their apostrophe is written ' or \u2019 or is left out.",
     ["inputs"], "every Ukrainian cardinal below 10**132 and every combination of shipped forms and apostrophe variants",
     "Tests cover a few dozen numbers; the 43 scale words and their synonyms in every order and the apostrophe handling are only sampled.",
     [P, D + "uk.py"], build + [("apostrophes dropped before reading", P + ":parse_number")], ["parse_number"], build_state)
prop("C06", "English ordinals convert to the value of their cardinal",
     "For every English ordinal of a number 1 <= n < 10**24 (a cardinal whose last word is put in ordinal form, e.g. 'two hundred and twenty-first'), parse_ordinal (language 'en') returns n, and parse replaces the phrase in a sentence by n, ending the number there. For cardinals parse_ordinal returns the same as parse_number.",
     ["inputs"], "every English ordinal below 10**24, alone or inside a sentence; every cardinal for the agreement",
     "The tests list some ordinals up to a few hundreds; that irregular stems and -th/-ieth endings combine correctly with every cardinal prefix is not sampled away.",
     [P], [("ordinal to cardinal rewriting", P + ":_apply_cardinal_conversion"), ("ordinals close the number", P + ":parse")], ["parse_ordinal", "parse"], build_state)
prop("C07", "Fractions are numerator and denominator of the two numbers",
     "parse_fraction on text '<A> <sep> <B>' where <sep> is 'divided by', 'over', 'by' or '/' and A and B are cardinals of the given language (or numerals) returns, in every supported language, the string 'a/b' with exactly their two values; it returns None when either side is not a number, when no separator is present, and for blank text.",
     ["inputs"], "every pair of well-formed cardinals of every language and every separator, every text without a separator",
     "Eight examples are tested; which separator wins, where the text is cut and what reaches each side are decided for all pairs only by reasoning about the search.",
     [P], [("separator search and cut", P + ":parse_fraction")], ["parse_fraction"])
prop("C08", "parse replaces numbers in place and keeps the rest of the sentence",
     "In a sentence of non-number words, punctuation, spaces and well-formed cardinals (each cardinal followed by a non-number word, a symbol, ',' or '.', or the end), parse replaces every cardinal by exactly the digits of its value and keeps everything else, exactly and in order. The only other change allowed is spacing next to a number: what separates it, and connectives right after it, from the following word or symbol becomes one space (none is added before ',' or '.' or at the end), and outer whitespace and soft hyphens are removed.",
     ["inputs"], "every sentence with any number of cardinals, in each supported language, for any non-number words between them",
     "Tests check about a hundred sentences; the loop keeps pending words, output pieces and connectives in several lists whose contents for arbitrary interleavings no sample settles.",
     [P], [("sentence loop", P + ":parse"), ("number flush", P + ":_build_and_add_number")], ["parse"],
     [("pending tokens", "number words read but not yet converted", P + ":parse"), ("output pieces", "sentence parts already decided", P + ":parse")])
prop("C09", "Text without number words is returned unchanged",
     "parse returns any text that contains no number word of the language (cardinal or ordinal) exactly as it was, including letter case, accents, punctuation, connectives, digits, line breaks and inner spacing; only leading and trailing whitespace and soft hyphens are removed.",
     ["inputs"], "every Unicode text without number words, in every supported language",
     "Tests have a few texts without numbers; preservation must hold for every Unicode text including odd punctuation and connectives at either end.",
     [P], [("sentence loop", P + ":parse"), ("splitting keeps separators", P + ":_tokenize")], ["parse"])
prop("C10", "No non-number word or symbol is ever lost, altered or reordered",
     "For every text whatsoever, the words, digits and symbols of the text that are neither number words nor connectives appear in the output of parse unchanged and in the same order, and nothing else but numbers, spaces and connectives appears there. A connective disappears only between two number words.",
     ["inputs"], "every text in every supported language, well-formed or not, including texts with several adjacent numbers",
     "Loss of a word needs particular interleavings of numbers, connectives and punctuation; tests sample a few and missed two such losses.",
     [P], [("sentence loop", P + ":parse"), ("number flush", P + ":_build_and_add_number")], ["parse"])
prop("C11", "No number word survives parse, and parse is idempotent",
     "For every text and explicitly given language the output of parse contains no cardinal or ordinal number word of that language, and parsing the output again in that language returns it unchanged. Neither a number nor a word is glued to a neighbouring word.",
     ["inputs"], "every text in every supported language, well-formed or not",
     "Universal over texts; the tests never parse an output again nor look for leftovers.",
     [P], [("sentence loop", P + ":parse"), ("number flush", P + ":_build_and_add_number")], ["parse"])
prop("C12", "No text makes any of the four functions raise or hang",
     "For every text (of fewer than 4300 digits in a row) and every supported language, parse, parse_number, parse_ordinal and parse_fraction return normally; the same holds when the language is left out.",
     ["inputs"], "every Unicode text: empty, blank, connectives only, unusual digits, control characters, arbitrary mixtures",
     "Crashes need unusual inputs (a superscript two crashed parse_number); tests use ordinary ones.",
     [P], [("guards before int() and list access", P + ":parse_number,parse,_build_number")], ["parse", "parse_number", "parse_ordinal", "parse_fraction"])
prop("C13", "Result types and shapes are fixed",
     "For every text and supported language: parse_number and parse_ordinal return None or a non-negative integer; parse_fraction returns None or a string of two non-negative decimal integers joined by '/', parse returns a string without outer whitespace. Blank text gives None from parse_number, parse_ordinal and parse_fraction, and an empty string from parse.",
     ["inputs"], "every Unicode text and supported language",
     "A universal statement over results; tests compare a finite list of results.",
     [P], [("single value or nothing", P + ":parse_number"), ("fraction formatting", P + ":parse_fraction")], ["parse", "parse_number", "parse_ordinal", "parse_fraction"])
prop("C14", "A text with a foreign word or leading connective is not a number",
     "parse_number returns None for every text (apostrophes aside) that contains any word or symbol that is neither a cardinal word of the language nor one of its connectives, wherever it stands, unless the whole text is a numeral; for every text that starts with a connective; and for every other text without a number word. parse_ordinal returns None for every such text without apostrophes too, where ordinal words count as number words.",
     ["inputs"], "every text with at least one foreign word or symbol at any position, every supported language",
     "Tests reject half a dozen texts; the position and nature of the foreign word is unbounded.",
     [P], [("every token is checked", P + ":parse_number")], ["parse_number", "parse_ordinal"])
prop("C15", "Number words that cannot form one number are never merged",
     "When a well-formed cardinal is directly followed by a number word that cannot continue it (a unit or teen after a unit or teen, a teen or tens after tens or units, a Spanish/Russian/Ukrainian hundreds word after anything but a scale word), parse_number returns None and parse writes two separate numbers: exactly the value of the first, then (where the rest is a well-formed cardinal) that of the rest, with a connective between them kept.",
     ["inputs"], "every well-formed cardinal, every incompatible next word, and every cardinal starting with that word; all languages",
     "Adjacency is decided by pairwise class rules over running state; tests sample some pairs in English mostly.",
     [P], [("adjacency rules", P + ":_check_validity"), ("split of separate numbers", P + ":_build_number")], ["parse_number", "parse"], build_state)
prop("C16", "Connectives and spacing inside a number do not change its value",
     "Inserting or removing the language's connectives ('and' and '-' in English, 'y' in Spanish) and any amount of whitespace between the words of a well-formed cardinal does not change what parse_number returns; in parse such connectives between two words of one number disappear into it.",
     ["inputs"], "every well-formed cardinal and every placement of connectives and whitespace runs between its words",
     "Tests use the customary positions only; the placements are unbounded.",
     [P], [("connectives and blanks skipped", P + ":_build_number,parse_number")], ["parse_number", "parse"])
prop("C17", "Letter case and accents do not matter for number words",
     "The values found by parse_number, parse_ordinal and parse do not change when the letters of number words and connectives are changed to upper or lower case in any pattern, or when the acute accents of Spanish words are left out.",
     ["inputs"], "every casing pattern and accent omission of every number word, in every position",
     "Tests have a few capitalised words; casing patterns are exponentially many and reach different branches (connectives kept or dropped, ordinals).",
     [P], [("normalisation of tokens", P + ":_normalize_tokens,_strip_accents"), ("normalised tables", P + ":_normalize_dict")], ["parse_number", "parse_ordinal", "parse"])
prop("C18", "Numerals are understood as they are",
     "For every text that is, apart from outer whitespace, a run of fewer than 4300 decimal digits of any script, parse_number and parse_ordinal return its integer value, in every language and without one; parse leaves numerals in a text untouched, and parse_fraction accepts them on either side.",
     ["inputs"], "every decimal numeral, with any surrounding whitespace",
     "Tests use a few short ASCII numerals; other scripts and numeric-but-not-decimal characters behave differently.",
     [P], [("numeral shortcut", P + ":parse_number")], ["parse_number", "parse_ordinal", "parse", "parse_fraction"])
prop("C19", "Commas and full stops separate numbers",
     "Number words on two sides of a ',' or '.' never combine: in languages other than Hindi parse of 'A, B' (or 'A. B') gives what A and B give separately, joined by that separator and the original spacing after it, for all texts A and B without outer whitespace; parse_number returns None for such a text.",
     ["inputs"], "every pair of texts A and B on the two sides of a separator, repeated any number of times",
     "State carried across a separator would need a particular number before and after; tests check a few pairs.",
     [P], [("flush at separators", P + ":parse")], ["parse", "parse_number"])
prop("C20", "Language detection picks the language with most number words",
     "Without a language, the functions behave exactly as with the supported language in whose vocabulary (cardinals, ordinals, connectives) most words of the text are found; ties go to the earliest of en, es, hi, ru, uk, and English is used when no word is found.",
     ["inputs"], "every text, including mixed-language ones and ties",
     "A dozen texts are tested; the count over all words, the tie order and the default are universal statements.",
     [P], [("counting and arg max", P + ":_valid_tokens_by_language")], ["parse", "parse_number", "parse_ordinal", "parse_fraction"])
prop("C21", "Unsupported languages are refused",
     "For every language code other than en, es, hi, ru, uk, parse and parse_ordinal raise ValueError on every text, and parse_number raises ValueError on every text that is neither blank nor a numeral; they never silently use another language.",
     ["inputs"], "every string used as language code (including codes with shipped data that is not supported, other casings, path-like strings) and every text",
     "One wrong code is tested; data files exist for some 80 codes that must not be accepted by accident.",
     [P], [("language gate", P + ":LanguageData.__init__")], ["parse", "parse_number", "parse_ordinal"])
prop("C22", "Results do not depend on earlier calls",
     "Every call's result depends only on its arguments: no sequence of earlier calls of the four functions, with any texts and languages and including ones that raised, changes the result of a later call, and no call changes its arguments or the vocabularies.",
     ["histories", "inputs"], "every sequence of calls",
     "A leak shows only in particular call orders; tests compare single calls.",
     [P], [("no module or class level state is written", P), ("vocabulary built per call", P + ":LanguageData.__init__")], ["parse", "parse_number", "parse_ordinal", "parse_fraction"],
     [("class level defaults", "must stay as they are at import", P + ":LanguageData")])
prop("C23", "Regenerating the language data reproduces what is shipped",
     "Running the data generation script on the repository's raw CLDR and supplementary files produces, for every language file, a module with the same tables as the shipped one, whatever the order in which the files are listed.",
     ["configurations", "inputs"], "every shipped language file and every table in it; every listing order of the source directory",
     "No test runs the generator.",
     [G, "number_parser_data", D], [("generator", G + ":write_complete_data")], ["generated data modules"])
prop("C24", "The data generator files each spelling under its correct value",
     "For every CLDR spell-out rule (n, text) of cardinal kind: a text without substitutions is stored with value n under units (n <= 9) or direct numbers (10 <= n <= 99) and otherwise nowhere; a text with only a remainder part stores its leading word with value n under tens or hundreds when n is a multiple of ten or hundred with first digit above 1; a text with multiplier and remainder parts stores its scale words with the power of ten n stands for; nothing else is stored.",
     ["inputs"], "every rule number and every rule text",
     "No test touches the generator; a misfiled rule shows only for languages whose files use that rule shape.",
     [G], [("classification of rules", G + ":_extract_information"), ("filing", G + ":_add_base_words,_add_compound_words,_add_multiplier_words"), ("zero count", G + ":_count_zero")], ["generated data modules"])
prop("C25", "Every vocabulary word has its right value, alone and as a table entry",
     "For each supported language the library recognises exactly its documented vocabulary: every single number word, in any of its shipped spellings, parses alone to its correct value, words of one value never collide with another after removal of case and accents, and words outside the vocabulary are not numbers.",
     ["inputs"], "every word of the five vocabularies, and every other string as a non-number",
     "Tests sample words; that no table entry is wrong, missing or shadowed needs the whole table, and non-membership ranges over all strings.",
     [D + "en.py", D + "es.py", D + "hi.py", D + "ru.py", D + "uk.py", P], [("tables", D), ("loading and normalising", P + ":LanguageData.__init__,_normalize_dict")], ["parse_number", "parse"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(o, ensure_ascii=False) + "\n" for o in out))
print(len(out))
