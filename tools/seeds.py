P = "number_parser/parser.py"
G = "number_parser_scripts/write_complete_language_data.py"
SEEDS = [
 dict(id="s01", property="C25", needs="a compatibility character (ligature, full-width letter) inside a word",
      breaks="strings outside the vocabulary such as 'ﬁve' are taken for number words",
      edits=[(P, 'unicodedata.normalize("NFD", word)', 'unicodedata.normalize("NFKD", word)')],
      demo='eq(parse_number("\\ufb01ve", "en"), None)\neq(parse("\\ufb01ve cows", "en"), "\\ufb01ve cows")\n'),
 dict(id="s02", property="C20", needs="a text of more than 40 tokens whose second half is in another language",
      breaks="only the first tokens of the text take part in language detection",
      edits=[(P, "            for token in normalized_tokens\n        ]\n        cnt_valid_words", "            for token in normalized_tokens[:80]\n        ]\n        cnt_valid_words")],
      demo='t = "two and " + "x " * 60 + "uno dos tres cuatro cinco y seis"\neq(parse(t), parse(t, "es"))\n'),
 dict(id="s03", property="C21", needs="a regional code of a supported language",
      breaks="'en-IN' or 'es-419' silently use another language",
      edits=[(P, "        if language not in SUPPORTED_LANGUAGES:\n", "        language = language.replace(\"_\", \"-\")\n        if language.split(\"-\")[0] not in SUPPORTED_LANGUAGES:\n"),
             (P, 'import_module("number_parser.data." + language)', 'import_module("number_parser.data." + language.split("-")[0])')],
      demo='for c in ("en-IN", "es-419", "en_US"):\n    try:\n        parse("two", c)\n    except ValueError:\n        continue\n    eq(c, "refused")\n'),
 dict(id="s04", property="C22", needs="two texts without language sharing their first 30 characters",
      breaks="language detection is remembered by the beginning of the text",
      edits=[(P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
              "_DETECTED = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    key = input_string[:30]\n    if key not in _DETECTED:\n        _DETECTED[key] = _detect_language(input_string)\n    return _DETECTED[key]\n\n\ndef _detect_language(input_string):\n    language_matches = {}\n")],
      demo='a = "In the year of our king Ferdinand two and three and four"\nb = "In the year of our king Ferdinand dos y tres y cuatro"\nparse(a)\neq(parse(b), parse(b, "es"))\n'),
 dict(id="s05", property="C24", needs="a rule number of the form d5 (95) or 99",
      breaks="direct numbers above 90 are not stored",
      edits=[(G, "    elif number <= 99:\n", "    elif number < 99:\n")], raw=True,
      demo='''import os, shutil, subprocess, sys, tempfile, json
d = tempfile.mkdtemp()
try:
    shutil.copytree("number_parser_scripts", d + "/number_parser_scripts")
    for s in ("raw_cldr_translation_data", "supplementary_translation_data"):
        os.makedirs(d + "/number_parser_data/" + s)
    os.makedirs(d + "/number_parser/data")
    json.dump({"rbnf": {"rbnf": {"SpelloutRules": {"%spellout-cardinal": {"9": "nine;", "98": "foo;", "99": "bar;", "100": "no;"}}}}}, open(d + "/number_parser_data/raw_cldr_translation_data/l.json", "w"))
    json.dump({"UNIT_NUMBERS": {}, "DIRECT_NUMBERS": {}, "TENS": {}, "HUNDREDS": {}, "BIG_POWERS_OF_TEN": {}, "SKIP_TOKENS": [], "USE_LONG_SCALE": False}, open(d + "/number_parser_data/supplementary_translation_data/l.json", "w"))
    subprocess.run([sys.executable, "-B", d + "/number_parser_scripts/write_complete_language_data.py"], check=True)
    ns = {}
    exec(open(d + "/number_parser/data/l.py").read(), ns)
    sys.exit(0 if ns["info"]["DIRECT_NUMBERS"] == {"foo": 98, "bar": 99} else 1)
finally:
    shutil.rmtree(d)
'''),
 dict(id="s06", property="C09", needs="an underscore next to a number word",
      breaks="words with underscores are taken apart",
      edits=[(P, 'return re.split(r"(\\W)", input_string)', 'return re.split(r"([\\W_])", input_string)')],
      demo='eq(parse("the file two_cows.txt and _one_", "en"), "the file two_cows.txt and _one_")\n'),
 dict(id="s07", property="C15", needs="a hundreds word directly after another hundreds word",
      breaks="'trescientos doscientos' becomes one number 500",
      edits=[(P, "        and previous_token not in lang_data.big_powers_of_ten\n", "        and (\n            previous_token in lang_data.unit_and_direct_numbers\n            or previous_token in lang_data.tens\n        )\n")],
      demo='eq(parse_number("trescientos doscientos", "es"), None)\neq(parse("mil trescientos doscientos", "es"), "1300 200")\n'),
 dict(id="s08", property="C07", needs="a second occurrence of the separator in the text",
      breaks="'one over two over three' gives 1/2",
      edits=[(P, "        string_before_separator = input_string[:position_of_separator]\n        string_after_separator = input_string[position_of_separator + len(separator) :]\n",
              "        string_before_separator, string_after_separator = input_string.split(separator)[:2]\n")],
      demo='eq(parse_fraction("one over two", "en"), "1/2")\neq(parse_fraction("one over two over cows", "en"), None)\n'),
 dict(id="s09", property="C13", needs="a line break or tab at the end of the text",
      breaks="parse returns outer whitespace",
      edits=[(P, 'return "".join(final_sentence).strip()', 'return "".join(final_sentence).strip(" ")')],
      demo='eq(parse("cows\\n", "en"), "cows")\neq(parse("\\n", "en"), "")\n'),
 dict(id="s10", property="C16", needs="a line break or tab between two words of one number",
      breaks="whitespace other than a blank ends a number in a sentence",
      edits=[(P, "        if not compare_token.strip():\n            if not tokens_taken", "        if compare_token in (\"\", \" \") or not tokens_taken and not compare_token.strip():\n            if not tokens_taken")],
      demo='eq(parse("two\\nhundred cows", "en"), "200 cows")\n'),
 dict(id="s11", property="C05", needs="the word for 10**27 in one of its forms",
      breaks="one Ukrainian scale form has a wrong value",
      edits=[("number_parser/data/uk.py", '"октиліон": 1000000000000000000000000000,', '"октиліон": 100000000000000000000000000,')],
      demo='eq(parse_number("два октиліон", "uk"), 2 * 10**27)\n'),

 dict(id="s12", property="C12", needs="a word of more than about 1000 letters",
      breaks="every function raises RecursionError on a long word",
      edits=[(P, """    return "".join(
        char
        for char in unicodedata.normalize("NFD", word)
        if unicodedata.category(char) != "Mn"
    )
""", """    return _without_marks(unicodedata.normalize("NFD", word))


def _without_marks(word):
    if not word:
        return word
    rest = _without_marks(word[1:])
    return rest if unicodedata.category(word[0]) == "Mn" else word[0] + rest
""")],
      demo='eq(parse("ab" * 3000, "en"), "ab" * 3000)\n'),
 dict(id="s13", property="C10", needs="a byte order mark in the text",
      breaks="a format character that is not a soft hyphen is lost and the words around it are glued",
      edits=[(P, 'input_string = input_string.replace("\\xad", "")', 'input_string = re.sub("[\\xad\\ufeff]", "", input_string)')],
      demo='eq(parse("cows\\ufeffbulls two", "en"), "cows\\ufeffbulls 2")\n'),
 dict(id="s14", property="C09", needs="a numeral with leading zeros, or of another script",
      breaks="'007' becomes '7', '٣' becomes '3'",
      edits=[(P, "            _build_and_add_number()\n            current_sentence.append(token)\n",
                 "            _build_and_add_number()\n            if token.isdecimal():\n                token = str(int(token))\n            current_sentence.append(token)\n")],
      demo='eq(parse("agent 007", "en"), "agent 007")\n'),
 dict(id="s15", property="C19", needs="a comma directly after a scale word",
      breaks="'two thousand, three' becomes one number",
      edits=[(P, "        if compare_token in SENTENCE_SEPARATORS:\n",
                 "        if (\n            compare_token == \",\"\n            and tokens_taken\n            and lang_data.big_powers_of_ten.get(tokens_taken[-1], 0) > 10**6\n        ):\n            # separator of groups\n            continue\n\n        if compare_token in SENTENCE_SEPARATORS:\n")],
      demo='eq(parse("two billion, three", "en"), "2000000000, 3")\n'),
 dict(id="s16", property="C22", needs="the same ordinal word in a call in another language before",
      breaks="what an ordinal word stands for is remembered without the language",
      edits=[(P, '    """Converts ordinal tokens to cardinal while leaving other tokens unchanged."""\n',
                 '    """Converts ordinal tokens to cardinal while leaving other tokens unchanged."""\n    if token not in _CARDINAL_FORMS:\n        _CARDINAL_FORMS[token] = _find_cardinal_form(token, lang_data)\n    return _CARDINAL_FORMS[token]\n\n\n_CARDINAL_FORMS = {}\n\n\ndef _find_cardinal_form(token, lang_data):\n'),
             (P, '    token_cardinal_form_2 = re.sub(r"th$", "", token)\n    if _is_cardinal_token(token_cardinal_form_2, lang_data) is not None:\n        return token_cardinal_form_2\n',
                 '    cardinal_form = re.sub(r"th$", "", token)\n    if _is_cardinal_token(cardinal_form, lang_data) is not None:\n        return cardinal_form\n')],
      demo='parse("the twentieth", "es")\neq(parse("the twentieth", "en"), "the 20")\n'),
 dict(id="s17", property="C24", needs="a rule number such as 110 or 120 with a remainder part",
      breaks="a word of a multiple of ten whose first digit is 1 is stored as tens",
      edits=[(G, '    if power_of_10 == 0 or first_dig == "1":\n', '    if power_of_10 == 0 or number == 10**power_of_10:\n')], raw=True,
      demo="""import os, shutil, subprocess, sys, tempfile, json
d = tempfile.mkdtemp()
try:
    shutil.copytree("number_parser_scripts", d + "/number_parser_scripts")
    for s in ("raw_cldr_translation_data", "supplementary_translation_data"):
        os.makedirs(d + "/number_parser_data/" + s)
    os.makedirs(d + "/number_parser/data")
    json.dump({"rbnf": {"rbnf": {"SpelloutRules": {"%spellout-cardinal": {"20": "twenty[->>];", "120": "long hundred[ >>];", "200": "two hundred[ >>];"}}}}}, open(d + "/number_parser_data/raw_cldr_translation_data/l.json", "w"))
    json.dump({"UNIT_NUMBERS": {}, "DIRECT_NUMBERS": {}, "TENS": {}, "HUNDREDS": {}, "BIG_POWERS_OF_TEN": {}, "SKIP_TOKENS": [], "USE_LONG_SCALE": False}, open(d + "/number_parser_data/supplementary_translation_data/l.json", "w"))
    subprocess.run([sys.executable, "-B", d + "/number_parser_scripts/write_complete_language_data.py"], check=True)
    ns = {}
    exec(open(d + "/number_parser/data/l.py").read(), ns)
    i = ns["info"]
    sys.exit(0 if (i["TENS"], i["HUNDREDS"]) == ({"twenty": 20}, {"two hundred": 200}) else 1)
finally:
    shutil.rmtree(d)
"""),
 dict(id="s18", property="C20", needs="a text whose English number words are ordinals, with a word of another language",
      breaks="ordinals do not count in language detection",
      edits=[(P, "            _is_number_token(token, lang_data) is not None\n            or", "            _is_cardinal_token(token, lang_data) is not None\n            or")],
      demo='t = "first second third uno"\neq(parse(t), parse(t, "en"))\n'),
 dict(id="s19", property="C25", needs="a number word with another ordinal ending",
      breaks="'onest', 'fifthnd', 'tenst' are taken for number words",
      edits=[(P, 're.sub(r"th$", "", token)', 're.sub(r"(st|nd|rd|th)$", "", token)')],
      demo='eq(parse("the tenst", "en"), "the tenst")\n'),
 dict(id="s21", property="C07", needs="'out of' between two numbers",
      breaks="a text without any of the separators is taken for a fraction",
      edits=[(P, 'FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]', 'FRACTION_SEPARATORS = ["divided by", "out of", "over", "by", "/"]')],
      demo='eq(parse_fraction("two out of three", "en"), None)\n'),
 dict(id="s22", property="C21", needs="the empty string as language",
      breaks="parse_ordinal silently detects the language for ''",
      edits=[(P, "equivalent\"\"\"\n    if language is None:\n", "equivalent\"\"\"\n    if not language:\n")],
      demo='try:\n    parse_ordinal("two", "")\nexcept ValueError:\n    sys.exit(0)\nsys.exit(1)\n'),
 dict(id="s23", property="C14", needs="the word 'minus' at the beginning",
      breaks="a text with a word that is no number word gives a (negative) number",
      edits=[(P, "    tokens = _tokenize(input_string, language)\n    normalized_tokens = _normalize_tokens(tokens)\n    number_found = False\n",
                 "    sign = 1\n    if language == \"en\" and input_string.lower().startswith(\"minus \"):\n        sign, input_string = -1, input_string[6:]\n\n    tokens = _tokenize(input_string, language)\n    normalized_tokens = _normalize_tokens(tokens)\n    number_found = False\n"),
             (P, "        return int(number_built[0])\n", "        return sign * int(number_built[0])\n")],
      demo='eq(parse_number("minus two", "en"), None)\n'),
 dict(id="s24", property="C23", needs="running the generator on more than one file",
      breaks="words of one language end up in the tables of the next",
      edits=[(G, "        language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}\n        ordered", "        language_data = dict(EMPTY_TABLES)\n        ordered"),
             (G, "\n\ndef _is_valid(key):", "\nEMPTY_TABLES = {key: {} for key in REQUIRED_NUMBERS_DATA}\n\n\ndef _is_valid(key):")], raw=True,
      demo="""import os, shutil, subprocess, sys, tempfile, filecmp
d = tempfile.mkdtemp()
try:
    for s in ("number_parser_scripts", "number_parser_data", "number_parser"):
        shutil.copytree(s, d + "/" + s)
    subprocess.run([sys.executable, "-B", d + "/number_parser_scripts/write_complete_language_data.py"], check=True)
    def info(root, l):
        ns = {}
        exec(open(root + "/number_parser/data/" + l).read(), ns)
        return ns["info"]
    for l in ("en.py", "es.py", "hi.py", "ru.py", "uk.py"):
        if info(".", l) != info(d, l):
            print(l)
            sys.exit(1)
finally:
    shutil.rmtree(d)
"""),
]
