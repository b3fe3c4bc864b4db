"""Literals have exactly the written value; escaped strings insert values."""
import re

from ..lib import *
from .. import drv

LEVEL = "model_checking"
CHARS = ["a", "\\", " ", "'", "`", '"', ";", "x", "1", "&", "\n", "\t", "{",
         "(", "é", "A", "_", "$"]
PARTS = ["\\x", "\\y", "\\a", "\\QZ", "\\QZC", "\\Ax", "\\_", "\\\\", "x", " ",
         "\\1", "\\", "\n", "a", "'", "`", "A", "\\g", "\\i", "&", "\\o"]
SHOWN = {"x": "<X>", "y": "7", "a": "arg", "QZ": "ab!", "A": "", "_": "{a}",
         "g": None, "i": "0", "o": "1"}
VALUES43 = ["5", '"s t"', '""', "[1;2]", '[1;["b";3]]', "(1,4)", "()", "`p.`",
            "{a+1}", "[]", "(0,())", "2.50", "-3", '"\\\\"', '"\\y"', "[[]]",
            '"\\\\\\\\"']


def inserted(body, names):
    """The text that an escaped string stands for."""
    out, i = "", 0
    while i < len(body):
        if body[i] == "\\":
            if body[i + 1:i + 2] == "\\":
                out, i = out + "\\", i + 2
                continue
            m = re.compile(r"[A-Z]{2}|[A-Z]|[a-z_]").match(body, i + 1)
            if m:
                out, i = out + names.get(m.group(), ""), m.end()
                continue
        out, i = out + body[i], i + 1
    return out


def judge_plain(case):
    src, want, args = case
    o = drv.run_real(src, [val(a).real for a in args], "p")
    if o.key != ("ok", want):
        return f"{src!r} should print {want!r}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"

    def plain():
        # printed (without the list format) a literal is its body
        for t in seqs(CHARS, 0, 4 if deep else 3):
            t = "".join(t)
            if '"' not in t:
                yield (f'"{t}"', t + "\n", ())
                yield (f'x:"{t}"#x', f"{len(t)}\n", ())
            if "`" not in t and "\\" not in t:
                yield (f"ST`{t}`", t + "\n", ())
            if len(t) == 1:
                yield (f"'{t}", t + "\n", ())
                yield (f"['{t} '{t}]J'{t}", t * 3 + "\n", ())
                yield (f"'{t}.'b.'{t}", t + "b" + t + "\n", ())
        for t in seqs(list("0125.9"), 1, 6 if deep else 5):
            t = "".join(t)
            if re.fullmatch(r"\d+(\.\d+)?", t):
                yield (f"{t}", t + "\n", ())
                yield (f"#{t}", f"{len(t)}\n", ())
                yield (f"x:{t} x.\"/\".{t}", t + "/" + t + "\n", ())

    def patterns():
        # escaped delimiters and escapes of the pattern language
        parts = ["\\`", "\\\\", "a", "\\d", ".", "&", "\\&", "b*", "\n",
                 "\\.", '"', "'", " "]
        for t in seqs(parts, 0, 5 if deep else 4):
            t = "".join(t)
            want = t.replace("\\`", "`")
            yield (f"ST`{t}`", want + "\n", ())
            if t.count("\\`") > 1:
                yield (f"x:`{t}`y:[x x]ST y@1", want + "\n", ())

    def matching():
        parts = ["\\`", "\\\\", "a", "\\d", ".", "\\.", " "]
        for t in seqs(parts, 1, 4 if deep else 3):
            t = "".join(t)
            for s in ('"`"', '"``a`"', lit("\\"), lit("a`\\`3. "),
                      '"a a`3`"', lit("\\\\`")):
                yield (f"RP[a~`{t}` a~=`{t}` aR`{t}`'! a^`{t}` `{t}`N a]", (s,))
                if "&" not in t:
                    yield (f'RP[aR"`"`{t}`]', (s,))

    def escaped():
        names = {k: v for k, v in SHOWN.items() if v is not None}
        names["g"] = '["arg";4]'
        for t in seqs(PARTS, 0, 4 if deep else 3):
            body = "".join(t)
            if '\\"' in body or re.search(r"(^|[^\\])(\\\\)*\\$", body):
                continue
            want = inserted(body, names)
            yield ('x:"<X>"y:7 QZ:"ab!" \\"' + body + '\\"',
                   want + "\n", ('"arg"', "4"))

    def values():
        # values of all types, in all formats, before and after changes
        for v in VALUES43:
            for body in ("\\x", "<\\x>", "\\x\\x", "\\x\\y", "\\y\\x\\y",
                         "\\\\\\x", "\\\\x\\x", "\\x\\\\", "\\x \\ZZ.",
                         "\\x\n\\x", "\\xx\\XX\\X", "\\x\\x\\x\\x\\x",
                         "\\y\\y\\x\\z\\y", "\\l\\o\\x\\n\\z"):
                for p in ("P @@", "@@", "RP @@", "[@@]", "RP[@@ @@]",
                          "y:@@ x:0 P y", "P #@@", "P @@.@@", "P @@@0",
                          "RP{@@}", "f:{@@} x:5 P(f 1)", "P(@@?1 2)",
                          "P @@=@@", "L 2{P @@ x:x.1}", "P V@@",
                          "RP(@@^\"\")", "P {@@}M[1;2]", "x:@@ P @@",
                          "P(@@ 0 1)", "P-@@", "@@X2", "P @@R@@\"k\""):
                    p = "x:a y:3 " + p.replace("@@", '\\"' + body + '\\"')
                    for fmt in (None, "p", "s", "n", "l", "S", "P"):
                        if fmt in (None, "p") or deep or len(body) < 5:
                            yield (p, (v,), fmt)

    def names():
        # every name, alone and next to every other
        ns = list("abcdefghiklmnopstuvwxyz_") + [
            "A", "B", "G", "AZ", "CZ", "PI", "QQ", "VW", "VY", "XA", "XX",
            "XI", "ZZ", "I", "F", "PU", "RP", "P", "EL", "EI", "PIP", "j"]
        for n in ns:
            for body in (f"\\{n}", f"\\{n}!", f"a\\{n}", f"\\{n}\\{n}",
                         f"\\\\{n}", f"\\\\\\{n}", f"\\{n}x", f"\\{n}X",
                         f"\\{n}1", f" \\{n} "):
                if "PIP" in body:
                    continue
                yield (f'P\\"{body}\\"', ("4", '"q"'))
                yield (f'{n}:"v" P\\"{body}\\"' if n.islower() or n == "_"
                       else f'P({{\\"{body}\\"}} 3)', ("4", '"q"'))
            for m in ns:
                if "PIP" in (n, m):
                    continue
                yield (f'P\\"\\{n}\\{m}\\"', ("4", '"q"'))
                if deep:
                    yield (f'P({{\\"\\{n}\\{m}\\"}} 5 6)', ("4", '"q"'))

    def special():
        # reads input or draws numbers once per insertion
        for body in ("\\q", "\\q\\q", "\\q-\\a", "\\q\\q\\q\\q", "\\q\\x\\q"):
            for p in ("P @@", "@@", "P @@.q", "x:@@ P x.q", "L 2 P @@",
                      "f:{@@} P(f 1) P(f 2)", "P q.@@"):
                yield (p.replace("@@", '\\"' + body + '\\"'), ("4",), "p",
                       "one\ntwo\n\nfour\n")

    def operands():
        # as an operand of every operator
        for t in deterministic(1):
            if t == "RE":
                continue
            for b in ("\\x", "2", "\\x\\y", "a\\\\b", "\\y "):
                yield (f'x:"3"y:"b" RP({t} \\"{b}\\")', ())
                yield (f'x:"3"y:"b" {t}\\"{b}\\"', ())
        for t in deterministic(2):
            for b in ("\\x", "2", "\\x\\y", "a\\\\b"):
                for w in ("2", '"ab"', "[1;2]", "`3`"):
                    yield (f'x:"3"y:"b" RP(\\"{b}\\" {t} {w})', ())
                    yield (f'x:"3"y:"b" RP({w} {t} \\"{b}\\")', ())
        for t in OPS[3]:
            for b in ("\\x", "2", "\\x\\y"):
                for s in (f'\\"{b}\\" {t} 0 1', f'"a3b2" {t} \\"{b}\\" 1',
                          f'"a3b2" {t} 0 \\"{b}\\"'):
                    yield (f'x:"3"y:"b" RP({s})', ())

    return [Sweep("plain", plain, judge_plain, "strings, characters, patterns"
                  f" of <= {4 if deep else 3} characters, numerals"),
            Sweep("patterns", patterns, judge_plain, "patterns of <= "
                  f"{5 if deep else 4} of 13 parts"),
            differential("matching", matching, "patterns with escapes"),
            Sweep("escaped", escaped, judge_plain, "escaped strings of <= "
                  f"{4 if deep else 3} of {len(PARTS)} parts"),
            differential("values", values, "inserted values of all types in "
                         "all formats"),
            differential("names", names, "all pairs of names"),
            Sweep("special", special, lambda c: diff(*c), "insertions with effects"),
            differential("operands", operands, "operands of all operators")]
