"""Printing: what is printed for every value under every list format."""
from ..lib import *
from .. import long
from .. import drv

LEVEL = "model_checking"
FMTS = [None, "n", "l", "p", "P", "s", "S"]
V = drv.V


def text(v, fmt):
    """What printing v shows, from the documentation of the flags."""
    if isinstance(v, str):
        return v
    if v is None:
        return ""
    if isinstance(v, V.R):
        if v.hi is None:
            return V.rep(v)
        v = tuple(str(i) for i in range(v.lo or 0, v.hi))
    if not isinstance(v, tuple):
        return v.raw if isinstance(v, V.P) else V.rep(v)
    if fmt == "p":
        return V.rep(v)
    if fmt == "P":
        return "\n".join(V.rep(i) for i in v)
    if fmt in ("l", "S"):
        return "\n".join(flat(i, "" if fmt == "l" else " ") for i in v)
    sep = {None: "", "n": "\n", "s": " "}[fmt]
    return sep.join(text(i, fmt) for i in v)


def flat(v, sep):
    if isinstance(v, V.R) and v.hi is not None:
        v = tuple(str(i) for i in range(v.lo or 0, v.hi))
    if isinstance(v, tuple):
        return sep.join(flat(i, sep) for i in v)
    return text(v, None)


def judge_law(case):
    src, fmt = case
    v = val(src)
    t = text(v.ref, fmt)
    line = t + "\n" if v.ref is not None else ""
    part = t if v.ref is not None else ""
    for prog, want in (
            ("a", line), ("P a;()", line), ("P a", line * 2),
            ("O a", part + line), ("O a P 5;()", part + "5\n"),
            ("YP a", line + line), ("YO a", part + line),
            ("YP a P y;()", line * 2),
            ("x:a P x O x 7", line + part + "7\n"),
            ("({P a} a);6", line + "6\n"), ("{P a}M[a];6", line + "6\n"),
            ("P P a;()", line * 2), ("F x[a]{P x}", line),
            ("I 1{P a}EL{P 1}", line), ("L 2{P a}", line * 2),
            ("P a;P a;3", line * 2 + "3\n"), ("O O a 4", part * 2 + "4\n"),
            ("V\"P a\";8", line + "8\n"), ("({a} a)", line),
            ("x:[a] x@0", line), ("[a]@0", line), ("P 1;a", "1\n" + line),
            ("a;()", ""), ("a;5", "5\n"), ("P(a);()", line),
            ("x:P a;()", line), ("[(P a)(O a)];()", line + part)):
        drv.STEPS[0] += 1
        o = drv.run_real(prog, [v.real], fmt, cache=True)
        if o.key != ("ok", want):
            return f"{prog!r} with a = {src}, format {fmt}, should print " \
                   f"{want!r}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    nested = ["1", '"a b"', "[]", "[2;3]", "0,2", "()", "[[4;5];[6;[7;8]]]",
              "`p`", "[(1,3);\"x\"]", '""', "[[];[[]]]", "-`q`", "{a}",
              '["\n";"z"]', "(2,())"]

    def values():
        pool = list(VALUES)
        for t in seqs(nested, 1, 2):
            pool.append("[" + ";".join(t) + "]")
        for t in seqs(["1", "[2;3]", "0,2", "()", '""'], 3, 4 if deep else 3):
            pool.append("[" + ";".join(t) + "]")
            pool.append("[[" + ";".join(t) + "];[" + ";".join(t[::-1]) + "]]")
        for d in range(1, 7):
            pool.append("[" * d + "1;2" + "]" * d)
            pool.append("[1;" * d + "2" + "]" * d)
        for v in pool:
            for f in FMTS:
                yield (v, f)

    def sequences():
        acts = ["P a", "O a", "P b", "O b", "YP a", "a", "P ()", "O ()",
                "P y", "x:a", "P[a b]", "O[b;a]"]
        for t in seqs(acts, 1, 3 if deep else 2):
            for a in ("[1;[2;3]]", '"s"', "()", "0,3", "`p`"):
                for f in FMTS:
                    yield (";".join(t), (a, "[[];[4]]"), f)

    def casts():
        # operators whose result depends on how a list looks as text
        progs = ["ST a", "[ST a]", "a.\"\"", "#ST a", "ST*a", "RP a", "J a",
                 "a J \"-\"", "\\\"<\\a>\\\"", "\"x\"R\"x\"a",
                 "\"axb\"R`x`a", "\"axb\"R`x`{b}", "SS a", "\"a1b\"R`\\d`{[a;a]}",
                 "x:\"abc\" x@1:a x", "\"abc\"RA 1 a", "V RP a", "V ST a",
                 "a WR \"|\"", "P a.1", "a JW 0", "SS[a;\"a\";[1]]", "$.a",
                 "ST a=ST a", "`[a b]`.a", "r:a;9", "(a X 2)", "a#=a", "ZJ a", "TC a", "\"12\"TR\"1\"a",
                 "\"123\"~a", "a^\"\"", "ST a^n", "O a^@1"]
        pool = SMALL + nested + ["[[1;2];[3;4]]", "[\"ab\";\"cd\"]", "[1;(2,4)]"]
        for p in progs:
            for v in pool:
                for f in FMTS:
                    yield (p, (v,), f)

    def both():
        # the format of one run does not matter for the next one
        for v in ("[1;[2;3]]", "0,2", "[]"):
            for f, g in product(FMTS, repeat=2):
                yield (v, f, g)

    def judge_both(case):
        src, f, g = case
        for fmt in (f, g, f, None, g):
            bad = judge_law((src, fmt))
            if bad:
                return f"after {f} and {g}: {bad}"

    return [Sweep("large", long.c33, judge_law, "long and deep lists"),
            Sweep("values", values, judge_law, "26 programs x all nested "
                  "values x 7 formats"),
            differential("sequences", sequences, "all sequences of output "
                         "statements"),
            differential("casts", casts, "text made of lists"),
            Sweep("both", both, judge_both, "all pairs of formats")]
