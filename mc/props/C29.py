"""String operators work character by character on any text."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
CH = ["a", "B", " ", "1", "\n", "-", "é", "ß"]
STR = ['""', '"a"', '"ab"', '"aab"', '"aBc dE"', '"hello, World 2x"', '" x "',
       '"a\nb"', '"12"', '"ÀéßŉΣς"', '"  "', '"xx--xx"', '"\t z"', '"a-b_c\'d"',
       '"ǆ"', '"0.50"']
ARGS = ['""', '"a"', '"ab"', '" "', '"b"', '"x-"', '0', '1', '2', '5', '-1',
        '"é"', '[]', '["a";"b"]', '[1;2]', '0,2', '()', '`a`', '`[a-c]`',
        '{a}', '["a";["B"]]', '(1,())', '"Ab"', '-`A`']
ONE = ["ASC", "CHR", "LOWERCASE", "UPPERCASE", "SWAPCASE", "TITLECASE",
       "INITIALCAPS", "STRIP", "LSTRIP", "RSTRIP", "TRIM", "LEN", "REVERSE",
       "SPLIT", "JOIN", "STR", "PREFIX", "SUFFIX", "LEFTOF", "RIGHTOF",
       "REPR", "UNIQUE", "ENUMERATE", "SORTSTRING", "GROUP", "CHOP"]
TWO = ["CAT", "STRMUL", "JOIN", "JOINWRAP", "SPLIT", "SPLITAT", "WRAP",
       "STRIP", "LSTRIP", "RSTRIP", "TRIM", "DELETECHARS", "REMOVE",
       "PREFIX", "SUFFIX", "IN", "NOTIN", "FIND", "FINDALL", "LENEQUAL",
       "LENGREATER", "LENLESS", "GROUP", "CHOP"]


def judge_law(s):
    """Laws against Python's strings, on the real code alone."""
    v = drv.build_real(s)
    q = drv.V.rep
    want = {"LC a": s.lower(), "UC a": s.upper(), "SC a": s.swapcase(),
            "#a": str(len(s)), "RV a": s[::-1], "a.a": s + s, "aX3": s * 3,
            "||a": s.strip(), "|>a": s.lstrip(), "<|a": s.rstrip(),
            "H a": s[:-1], "S a": s[1:], "@<a": s[:-1],
            "@>a": s[1:], "TM a": s[1:-1],
            "@a": s[:1] if s else None,
            "aJ\"-\"": "-".join(s), "J^a": s, "J R^a": s[::-1],
            "a^@1": (s[:1], s[1:]) if len(s) > 1 else (s,),
            "a DC \"a-\"": s.replace("a", "").replace("-", ""),
            "a RM \"a\"": s.replace("a", ""),
            "a^\"a\"": tuple(s.split("a")), "^a": tuple(s),
            "a R \"a\" \"xy\"": s.replace("a", "xy"),
            "a TR \"aB\" \"Ba\"": s.translate({97: 66, 66: 97}),
            "\"a\"N a": str(s.count("a")),
            "A*^a": tuple(str(ord(c)) for c in s),
            "J C*A*^a": s, "A a": str(ord(s[0])) if s else None,
            "a WR \"(\"": "(" + s + "(",
            "a@?\"a\"": str(s.find("a")) if "a" in s else None,
            "a@*\"a\"": tuple(str(k) for k, c in enumerate(s) if c == "a"),
            "UQ a": "".join(dict.fromkeys(s)),
            "SS a": "".join(sorted(s)),
            "a JW \"-\"": "-" + "".join(c + "-" for c in s),
            }
    for src, w in want.items():
        drv.STEPS[0] += 1
        o = drv.run_real("RP(" + src + ")", [v], "p", cache=True)
        if o.key != ("ok", q(w) + "\n"):
            return f"{src!r} of {s!r} should be {q(w)}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    one, two = texts(1, *ONE), texts(2, *TWO)

    def laws():
        for t in seqs(CH, 0, 4 if deep else 3):
            yield "".join(t)

    def unaries():
        yield from unary(one, STR + VALUES)
        for t in seqs(CH[:6], 0, 4 if deep else 3):
            for op in one:
                yield (f"RP({op} a)", (lit("".join(t)),))
        yield from unary(texts(1, "CHR"), [
            "0", "9", "65", "127", "128", "233", "8364", "128512", "55296",
            "1114111", "1114112", "-1", "97.9", "1e9", '"97x"',
            "[72;105]", "97,101"])
        yield from unary(one, ['["aB";["c D";1]]', '[" x ";`a`]'])

    def binaries():
        for t in two:
            for a in STR + ['["aab";"b a"]', '[["xa"];1,3]', '`ab`', '{a}',
                            '()', '[]', '12,14', '5']:
                for b in ARGS:
                    yield (f"RP(a {t} b)", (a, b))
                    yield (f"RP(b {t} a)", (a, b))

    def every():
        # every string and every argument over two characters
        ss = ["".join(t) for t in seqs("ab", 0, 5 if deep else 4)]
        for t in two:
            for s in ss:
                for b in ss[:15]:
                    yield (f"RP(a {t} b)", (lit(s), lit(b)))
                for n in range(-2, 6):
                    yield (f"RP(a {t} b)", (lit(s), str(n)))
        for s in ss:
            for b in ss[:15]:
                for c in ('""', '"b"', '"ab"', '"xyz"', '["x";"y"]', '`b`',
                          '{a.a}', "()", "5"):
                    yield ("RP(a R b c)", (lit(s), lit(b), c))
                    yield ("RP(a TR b c)", (lit(s), lit(b), c))

    def replace():
        olds = ['"a"', '""', '"ab"', '["a";"b"]', '["a";["b"]]', '0,2',
                '`a`', '`a|b`', '[`a`;"b"]', '()', '{a}', '1', '[]']
        news = ['"x"', '""', '"ab"', '["x";"y"]', '["x"]', '{a.a}', '{b}',
                '()', '5', '`q`', '[{a};"y"]', '0,2', '["b";"a"]', '[]']
        for s in ['"abab"', '""', '"xaby"', '["ab";"ba"]', '10,13', '()',
                  '`ab`', '[["a"];5]', '"0110"', '{a}']:
            for o in olds:
                for n in news:
                    yield ("RP(a R b c)", (s, o, n))
                    yield ("RP(a TR b c)", (s, o, n))
                    yield ("RP(a RA b c)", (s, o, n))
        for s in ['"abcd"', '[1;2;3]', '""', '[]', '0,4', '["ab";[1]]']:
            for i in ["0", "1", "-1", "9", "(0,2)", "(1,())", "(-2,9)",
                      "[0;2]", "[0;[1;-1]]", "()", '"x"', "[]", "(2,2)",
                      "[(0,1);2]", "`a`", "1.5", "{a}", "[[]]"]:
                for n in ['"Q"', '"XYZ"', '""', "[7;8]", "[]", "()", "9",
                          "1,3", "`p`", "{a}", "[[5];6]"]:
                    yield ("RP(a RA b c)", (s, i, n))
                    yield ("RP([a]@0 RA b c)", (s, i, n))

    def joins():
        # every list of up to three items, some of them empty
        items = ['""', '"a"', '5', '[]', '["";"b"]', '`c`', '()']
        for l in seqs(items, 0, 3):
            for sep in ('""', '","', '"--"', '[""; ","]', '`,`', '0', '()'):
                for t in ("J", "JW", "JE") if "JE" in OPS[2] else ("J", "JW"):
                    yield (f"RP(a {t} b)", ("[" + ";".join(l) + "]", sep))
            yield ("RP(J a)", ("[" + ";".join(l) + "]",))

    def cycles():
        # replacing at several places with more or fewer values
        for i in seqs(["0", "2", "-1", "[1;5]", "(1,3)"], 1, 4 if deep else 3):
            for n in seqs(["7", '"xy"', "[8]"], 1, 3):
                for s in ("[1;2;3;4]", '"abcd"', "2,6"):
                    yield ("RP(a RA b c)", (s, "[" + ";".join(i) + "]",
                                            "[" + ";".join(n) + "]"))

    def translit():
        for s in ['"hello"', '""', '"aAbB"', '["ab";["c"]]', '97,100']:
            for o in ['"lo"', '""', '"ll"', '[104;108]', '104,109', '"abc"',
                      '["l";"e"]', '[();"l"]', '(97,())', '[[1];"h"]', '"A"']:
                for n in ['"01"', '"x"', '""', '"xyzw"', '[48;49]', '48,52',
                          '[();"x"]', '(48,())', '["ab";"c"]', '[120.5;1]',
                          '()', '`a`', '{a}', '[(0,1);"x"]', '[-5;98.9]', '[1e7]']:
                    yield ("RP(a TR b c)", (s, o, n))

    def case():
        # every character of the basic plane, alone and between letters
        top = 0x20000 if deep else 0x10000
        cs = [c for c in map(chr, range(0x80, top))
              if c.isalpha() and (c.lower() != c or c.upper() != c
                                  or c.title() != c or c.swapcase() != c)]
        cs += [chr(k) for k in range(0x80)] + list("\u0345\u0130\u02bc\u00ba")
        for k in range(0, len(cs), 16):
            part = cs[k:k + 16]
            for s in ("".join(part), "".join(f"a{c}b {c}c " for c in part)):
                yield ("RP[LC a UC a SC a LC UC a SC SC a UC LC a]", (lit(s),))
                for t in texts(1, "TITLECASE", "INITIALCAPS"):
                    yield (f"RP {t} a", (lit(s),))
            yield ("RP[A*a LC*a SC*a #*UC*a]", ("^" + lit("".join(part)),))

    def trims():
        # ends cut off and kept by every kind of number and range
        by = [f"({lo},{hi})" for lo in ("()", "-3", "-1", "0", "1", "2", "4", "7")
              for hi in ("()", "-3", "-1", "0", "1", "2", "4", "7")]
        by += ["[" + ";".join(t) + "]" for t in seqs(["-1", "0", "1", "3", "9"],
                                                     0, 3)]
        by += ["0", "1", "2", "3", "5", "-1", "2.5", '"2x"', '""', "()", '"b"']
        for t in texts(2, "TRIM", "PREFIX", "SUFFIX", "LEFTOF", "RIGHTOF",
                       "STRIP", "LSTRIP", "RSTRIP"):
            for s in ('""', '"a"', '"abcde"', '[1;2;3;4]', '0,5', '["abc";[1]]',
                      '12345', '[]', '"  ab "', '()', '`abc`'):
                for b in by:
                    yield (f"RP(a {t} b)", (s, b))

    def escapes():
        # what means something to a regular expression or a template
        parts = ["\\", "1", "g<0>", "&", "$", "a", ".", "(", "^", "[", "\n"]
        for t in seqs(parts, 0, 3 if deep else 2):
            new = lit("".join(t))
            for s in ('"bab"', lit("b" + "".join(t) + "b"), '["b";"aba"]'):
                for o in ('"b"', '`b`', '`(b)`', '`b|a`', '["b";"a"]',
                          '[`b`;"a"]', new):
                    for n in (new, f"[{new}]"):
                        yield ("RP(a R b c)", (s, o, n))
                yield ("RP[(a^b)(a RM b)(a@?b)(b N a)(a TR b \"xyz\")]",
                       (s, new))
                yield ("RP[(a J b)(b X 2)]", (s, new))

    return [tree_sweep(*ONE, *TWO, "REPLACE", "TRANSLITERATE", deep=deep,
                       every=1 if deep else 4),
            large_sweep(*ONE, *TWO, "REPLACE", "TRANSLITERATE"),
            Sweep("laws", laws, judge_law, f"30 laws, all strings over "
                  f"{len(CH)} characters"),
            differential("unary", unaries, f"{len(one)} operators"),
            differential("binary", binaries, f"{len(two)} operators"),
            differential("every", every, "all pairs of short ab strings"),
            differential("replace", replace, "replacements by all kinds"),
            differential("case", case, "every cased character of the basic "
                         "plane"),
            differential("trims", trims, "ends cut by numbers, ranges, lists"),
            differential("escapes", escapes, "texts with special characters"),
            differential("joins", joins, "all lists of <= 3 items, some empty"),
            differential("cycles", cycles, "all replacements at <= "
                         f"{4 if deep else 3} places by <= 3 values"),
            differential("translit", translit, "transliterations")]
