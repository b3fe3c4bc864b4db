"""Patterns: composition, flags and matching operators."""
import re
import warnings

from ..lib import *
from .. import drv

LEVEL = "model_checking"
warnings.filterwarnings("ignore", category=FutureWarning)
# regex source -> the set of strings over ab (up to length 4) it fully matches
UNIV = ["".join(t) for n in range(5) for t in product("ab", repeat=n)]
ATOM = {"|": {""}, "a": {"a"}, "ab": {"ab"}, "a|b": {"a", "b"}, "": {""},
        "a|bb": {"a", "bb"}, "(a)": {"a"}, "b?": {"", "b"}, "[ab]": {"a", "b"},
        "(a|b)b": {"ab", "bb"}, "a*": {"", "a", "aa", "aaa", "aaaa"},
        "(.)\\1": {"aa", "bb"}, "(.)\\1|b": {"aa", "bb", "b"}}


def cat(x, y):
    return {s + t for s in x for t in y if len(s + t) < 5}


def star(x):
    r, new = {""}, {""}
    while new:
        new = cat(new, x) - r
        r |= new
    return r


def judge_compose(case):
    """The language of a composed pattern, from its parts' languages."""
    form, p, q = case
    P, Q = ATOM[p], ATOM[q]
    a, b = drv.build_real(drv.V.P(p)), drv.build_real(drv.V.P(q))
    if "\\1" in p and form in ("(C a).b", "b.a", "b.a.b", "b+a") or \
            "\\1" in q or form in ("a.a", "aX2", "a*2", "a X 3", "a+b+a") \
            and "\\1" in p:
        return None         # renumbered groups: judged by the reference
    if "|" in (p + q) and form in ("a.b", "b.a", "a.a", "b.a.b", "aX2",
                                   "a X 3"):
        return None         # plain concatenation of texts
    want = {"a.b": cat(P, Q), "b.a": cat(Q, P), "a.a": cat(P, P),
            "aX2": cat(P, P), "a X 3": cat(cat(P, P), P),
            "a,b": P | Q, "a+b": cat(P, Q), "b+a": cat(Q, P),
            "a+b+a": cat(cat(P, Q), P),
            "Ka": star(P), "+a": cat(P, star(P)), "a*2": cat(P, P),
            "(C a).b": cat(P, Q), "b.a.b": cat(cat(Q, P), Q),
            "K(a,b)": star(P | Q), "(a,b)*2": cat(P | Q, P | Q),
            "(K a),b": star(P) | Q, "(+a).b": cat(cat(P, star(P)), Q)}[form]
    if want is None:
        return None
    if "|" in q and form in ("(C a).b", "(+a).b"):
        return None
    o = drv.run_real(f"x:({form}) RP(c FI{{a~=x}})",
                     [a, b, drv.build_real(tuple(UNIV))], "p", cache=True)
    drv.STEPS[0] += len(UNIV)
    exp = drv.V.rep(tuple(s for s in UNIV if s in want)) + "\n"
    if o.key != ("ok", exp):
        return f"{form} with a=`{p}` b=`{q}` should match {exp}: {o!r}"


TOKENS = ["a", "b", "(", ")", "|", "*", "?", ".", "\\1", "\\2", "(?:", "(?=",
          "(?(1)", "[", "^", "]", "$", "\\141", "\\", "(?!", "{2}", "\\b",
          "-", "(?<=", "+"]
PARTS = ["a", "b", ".", "(a)", "(b)", "(a|b)", "(a)?", "(.)", "|", "*", "?",
         "(?(1)b|a)", "(?(2)a)", "\\1", "\\2", "[\\1ab]", "[^]a]", "\\141",
         "[[a]", "\\\\", "\\(", "(?:a)", "(?=b)", "(?!a)", "(?<=a)", "{2}", "^",
         "$", "\\b", "[a-", "(?P<n>a)", "(?P=n)", "(?(n)b)", "(", ")", "*?"]
STRS = ["".join(t) for n in range(4) for t in product("ab", repeat=n)] + [
    "aabb", "]a^", "\x01\x02", "a-b", "-\\a", "(a)", "abab", "5", "a{2}"]


def judge_regex(case):
    """A pattern means what this text means as a (Python) regular expression:
    every match with its groups and position."""
    raw = "".join(case)
    try:
        rx = re.compile(raw)
    except re.error:
        return None
    V = drv.V
    w = []
    for t in STRS:
        ms = list(rx.finditer(t))
        w.append((tuple((m.group(),) + (m.groups(),)
                        + (str(m.start()), str(m.end())) for m in ms),
                  V.sc(bool(rx.fullmatch(t))), V.sc(len(ms)),
                  ms[0].group() if ms else None, rx.sub("", t)))
    drv.STEPS[0] += len(STRS)
    o = drv.run_real("y:b RP({[{[a $$ $( $)]}MRya a~=y yNa a~y a RM y]}M a)",
                     [drv.build_real(tuple(STRS)), drv.build_real(V.P(raw))],
                     "p", cache=True)
    exp = V.rep(tuple(w)) + "\n"
    if o.key != ("ok", exp):
        for t, one in zip(STRS, w):
            r = drv.run_real("y:b RP[{[a $$ $( $)]}MRya a~=y yNa a~y a RM y]",
                             [drv.build_real(t), drv.build_real(V.P(raw))],
                             "p", cache=True)
            if r.key != ("ok", V.rep(one) + "\n"):
                return (f"`{raw}` on {t!r}: expected {V.rep(one)}, "
                        f"observed {r!r}")
        return f"`{raw}`: expected {exp}, observed {o!r}"


REPL = ["\\1", "&", "x", "\\2", "\\141", "\\\\", "\\&", "\\g<1>", "1", "\\n"]


def judge_template(case):
    """A replacement pattern means the same text as a (Python) template, in
    which & is the match."""
    text = "".join(case)
    rx, t = re.compile("(a|b)(b)?"), "abba.b"
    py = "".join({"&": "\\g<0>", "\\&": "&"}.get(c, c) for c in case)
    try:
        want = rx.sub(py, t)
    except re.error:
        return None
    o = drv.run_real("RP(a R b c)", [drv.build_real(v) for v in
                                     (t, drv.V.P(rx.pattern), drv.V.P(text))],
                     "p", cache=True)
    if o.key != ("ok", drv.V.rep(want) + "\n"):
        return f"replacement `{text}`: should give {want!r}, observed {o!r}"


def judge_literal(s):
    """X makes a pattern that matches exactly this text."""
    v = drv.build_real(s)
    n = str((s + "-" + s).count(s)) if s else None
    for src, want in {
            "a~=X a": "1", "(a.\"q\")@?X a": "0" if s else None,
            "#((a.\"-\".a)@*X a)": n,
            "a R X a \"Z\"": '"Z"' if s else None,
            "(\"p\".a.\"p\")^X a": '["p";"p"]' if s else None,
            "(X a)N(a.\"-\".a)": n, "a~=X[\"zz\" a]": "1",
            "a~=X[a a]": "1", "(\"x\".a)~=(`x`.X a)": "1",
            "(a.a)~=+X a": "1", "(a.a.a)~=((X a)*3)": "1",
            "a~=K X a": "1", "\"\"~=K X a": "1",
            "a~=(X a),`zz`": "1", "(a.\"b\")~=((X a)+`b`)": "1"}.items():
        if want is None:
            continue
        drv.STEPS[0] += 1
        o = drv.run_real(f"RP({src})", [v], "p", cache=True)
        if o.key != ("ok", want + "\n"):
            return f"{src!r} for {s!r} should be {want}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    RX = ['`a`', '`|`', '`$`', '`^`', '`ab`', '`a|b`', '``', '`(a)(b)?`', '`.`', '`^a`', '`b$`',
          '-`A`', '.`a.b`', ',`^a`', '`a+`', '`(.)\\1`', '`\\n`', '`(a)|(b)`',
          'A`\\w`', '`a{2}`', '`\\``', '`[^a]`', '`a+?b`', '`(?=b)`',
          '`(?P<n>a)`', '`\\\\`', '`(((a)))\\3`']
    ST = ['"abc"', '""', '"aab"', '"a\nb"', '"b\na"', '"ABab"', '"é"',
          '"a`b\\c"', '"bab"', '"aaaa"', '["ab";["a";5]]', '[]', '0,3', '()',
          '`a`', '{a}', '101', '"a"', '"|"', '"."', '["a";"b"]', '"a|b"']
    match2 = texts(2, "FIRSTMATCH", "FULLMATCH", "AT", "FIND", "FINDALL", "IN",
                   "NOTIN", "REMOVE", "SPLIT", "STRIP", "LSTRIP", "RSTRIP")
    pat1 = texts(1, "NEG", "POS", "KLEENESTAR", "ASC", "CHR", "DOT", "RANGETO",
                 "REGEX", "LEN", "NOT", "REPR", "STR", "JOIN", "REVERSE",
                 "SPLIT")
    pat2 = texts(2, "ADD", "CAT", "MUL", "STRMUL", "RANGE", "WRAP", "STREQUAL",
                 "STRNOTEQUAL", "OBJEQUAL", "JOIN", "JOINWRAP", "REPEATLIST",
                 "APPENDELEM", "APPENDLIST", "AND", "OR", "SPLIT")

    def regexes():
        yield from seqs(TOKENS, 0, 4 if deep else 3)
        yield from seqs(PARTS, 1, 4 if deep else 3)
        for k in range(1, 13):
            g = "".join(f"({c})" for c in "aabbabab]a^\\"[:k])
            for end in (f"\\{k}", f"(?({k})b|a)", f"\\{k}1", f"(?({k})b)a"):
                yield (g, end)
                yield (g, "?", end)
                yield (f"((a)|(b)){{{k}}}", end)

    def compose():
        for form in ("a.b", "b.a", "a.a", "aX2", "a X 3", "a,b", "Ka", "+a",
                     "a*2", "(C a).b", "b.a.b", "a+b", "b+a", "a+b+a", "K(a,b)", "(a,b)*2",
                     "(K a),b", "(+a).b"):
            for p in ATOM:
                for q in ATOM:
                    yield (form, p, q)

    def literals():
        cs = "a.*+?()[]{}|^$\\`-/&#\" \n"
        for t in seqs(cs, 0, 3 if deep else 2):
            yield "".join(t)

    def building():
        for t in pat1:
            yield from unary([t], RX + VALUES)
            for r in RX:
                yield (f"x:({t} a) RP[x x=x x==a -x]", (r,))
                for u in pat1:
                    yield (f"RP({t} {u} a)", (r,))
                    yield (f"x:({t} {u} a) RP[\"aAb\"@x \"ab\n\"@x]", (r,))
        for t in pat2:
            for p in RX:
                for q in RX + ['"a"', '"."', '2', '0', '-1', '"x"', '()',
                               '["a";"b"]', '1,3', '{a}', '[`a`;2]', '3.7']:
                    yield (f"RP(a {t} b)", (p, q))
                    yield (f"RP(b {t} a)", (p, q))

    def matching():
        for t in match2:
            for s in ST:
                for r in RX:
                    yield (f"RP[(a {t} b)$0 $1 $2 $` $( $) $$]", (s, r))
                    yield (f"RP[(b {t} a)$0 $1 $2 $` $( $) $$]", (s, r))
                    yield (f"RP([a]@0 {t} [b]@0)", (s, r))
        for f in ("-", ".", ",", "A", "-.", "-,", ".,", "-.,", "A-", "--"):
            for body in ("a.b", "^b", "a$", "\\w", "A.B", "^A$", "[b-c]"):
                for s in ('"a\nb"', '"ab"', '"A\nB"', '"éa"', '"xa\nb"'):
                    yield (f"x:{f}`{body}` RP[a@x a@*x a^x a R x 'z a~x x]",
                           (s,))

    def runs():
        # long runs of matches at either end
        for n in list(range(0, 24)) + [31, 32, 33, 64, 65, 100, 300]:
            for p in ("`a`", "`aa`", "`ab?`", "`a|b`", "`[ab]`", "`a+`",
                      '"a"', '"aa"', '"ab"', "-`A`", "`a`+`b`", "`(a)`"):
                for s in ('("c".b)', '(b."c")', '(b."c".b)', "b"):
                    yield (f"b:\"a\"X b x:{s} RP[x|>a x<|a x||a x^a x RM a"
                           " x R a 'z #(x@a) #(x@*a) x~a a N x]",
                           (p, str(n)))

    def replace():
        news = ['"x"', '`x`', '`<&>`', '`\\1\\1`', '`[\\1]`', '`\\&`', '`\\\\`',
                '{a}', '{[a b]}', '{b.a}', '{$0}', '{a R `a` `b`}', '()',
                '["x";"y"]', '""', '"&"', '"\\1"', '5', '{g}', '{()}', '{}',
                '`\\2`', '`\\0`', '`&&`', '`\\\\&`', '`\\\\1`', '0,3']
        for s in ST:
            for r in RX:
                for n in news:
                    yield ("RP(a R b c)", (s, r, n))
            for o in ('"a"', '"."', '["a";`b`]', '[`a`;`b`]', '()', '{a}',
                      '0,2', '["a";["b"]]'):
                for n in news:
                    yield ("RP(a R b c)", (s, o, n))

    def backrefs():
        for n in (1, 2, 8, 9, 10, 11, 12):
            g = "".join(f"({c})" for c in "abcdefghijkl"[:n])
            for k in range(1, n + 1):
                yield (f"RP[\"abcdefghijklabcdefghijkl\"@`{g}`"
                       f" \"aabbccddeeffgghhiijjkkll\"R`(.)\\1`'z]", ())
                yield (f"RP(\"abcdefghijkl\"R`{g}``\\{k}`)", ())
                yield (f"RP(\"abcdefghijkl\"R`{g}``<\\{k}&\\{k}>`)", ())
                yield (f"x:\"abcdefghijkl\".a RP(x~=`{g}.*\\{k}`)",
                       (lit("abcdefghijkl"[k - 1]),))
        for s in ("aa", "ab", "aab", "abab", "a1", "a\\1", "\\\\"):
            for r in ("(.)\\1", "(.)(.)\\1\\2", "(.)\\\\1", "\\\\", "((.)\\2)",
                      "(.)\\\\\\1", "(a)|(b)\\1", "(.)\\1+"):
                yield (f"RP[a@`{r}` a@*`{r}` a R`{r}`'z a^`{r}` a~=`{r}`"
                       f" a||`{r}`]", (lit(s),))

    def composed():
        # sums, products and products of patterns in one expression
        es = ["a,b", "a+b", "a.b", "aX2", "a+b+a", "b+a", "a*2", "Ka", "+a", "Ca", "-a", ".a",
              ",a", "Aa", "Xa", "K-a", "-Ka", "(a,b)*2", "-(a,b)", "C(a,b)",
              "a J\"x\"", "$,[a b]", "$+[a b a]", "$.[a b]", "a WR b",
              "X[a b]", "X[a;\"c.\"]", "-a,b", "a.-b", "a.\"+\"", "\"+\".a"]
        for e in es:
            for p in RX[:12]:
                for q in RX[:12]:
                    yield (f"x:({e}) RP[x \"abAB\na\"@x \"baab\"^x \"abc\"~x]",
                           (p, q))

    return [large_sweep("FIRSTMATCH", "FULLMATCH", "FIND", "FINDALL", "IN",
                        "REMOVE", "SPLIT", "KLEENESTAR", "CAT", "STRMUL",
                        "REPLACE", "MAPREGEX"),
            Sweep("compose", compose, judge_compose,
                  "languages of composed patterns"),
            Sweep("literal", literals, judge_literal, "all short texts"),
            Sweep("regexes", regexes,
                  judge_regex, f"sequences of {len(TOKENS)} symbols and of "
                  f"{len(PARTS)} parts of regular expressions, on "
                  f"{len(STRS)} texts"),
            Sweep("templates", lambda: seqs(REPL, 0, 5 if deep else 4),
                  judge_template, f"sequences of {len(REPL)} parts"),
            differential("building", building, "operators that make patterns"),
            differential("matching", matching, f"{len(match2)} operators x "
                         f"{len(RX)} patterns x {len(ST)} values"),
            differential("runs", runs, "runs of up to 300 matches"),
            differential("replace", replace, "replacement by all kinds"),
            differential("backrefs", backrefs, "all groups <= 12"),
            differential("composed", composed, "built patterns, matched")]
