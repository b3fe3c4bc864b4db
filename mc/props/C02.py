"""Layout: whitespace and comments never change what a program means."""
from ..lib import *
from ..env import scanning, errors
from .C01 import real_scan, judge as judge_scan
from .. import drv

LEVEL = "model_checking"

SEPS = [" ", "\n", "\t", "\n\n", " \n ", "  trailing + comment\n",
        "\n; whole line \"comment\n", "{; block 1+ comment ;}",
        "{;\nmulti\nline;}", "\n  ;indented\n", "\r\n", " {;;} ",
        " \n;after a blank\n", "\t\n\t; x \n\n"]
TOKENS = (sorted(ALLOPS) + sorted(COMMANDS) +
          ["a", "z", "_", "$a", "$_", "$1", "$(", "\\a", "AZ", "1", "12",
           "3.5", '"s"', "'x", "`p`", '\\"e\\"', "[", "]", "(", ")", "{",
           "}", ";", "$", "\\$"])
FEW = ["a", "1", "3.5", '"s"', "'x", "`p`", '\\"e\\"', "(", "]", "{", "}",
       ";", "+", "*", "@", "@<", "-", "--", "L", "LR", "I", "EL", "AZ", "$",
       "\\$", ":", "?", "F", ".", ",", "\\,"]


def judge_tokens(case):
    """tok1 sep tok2 sep ... scans as the tokens one by one."""
    toks, sep = case
    if ";" in toks and sep.rpartition("\n")[1] and \
            not sep.rpartition("\n")[2].strip():
        raise Skip              # a line that begins with ; is a comment
    want = real_scan("0")[:-1]
    for t in toks:
        want += real_scan("0 " + t)[1:-1]
    want.append(None)
    s = sep.join(("0",) + toks)
    got = real_scan(s)
    drv.STEPS[0] += len(want)
    drv.LAST[0] = hash(str(got))
    if got != want:
        return f"tokens {toks} separated by {sep!r}\n" \
               f"expected {want}\nobserved {got}"


PROGRAMS = [
    (["x", ":", "5", "P", "x", "*", "2"], ""),
    (["F", "i", ",", "3", "{", "P", "i", "}", '"done"'], ""),
    (["I", "a", ">", "2", "P", "'y", "EL", "P", "'n"], ""),
    (["{", "a", "+", "1", "}", "M", "[", "1", "2", "]"], ""),
    (["$", "+", ",", "5", ".", "'z"], ""),
    (["W", "i", "<", "3", "{", "O", "i", "++", "i", "}"], ""),
    (["(", "f", ":", "{", "a", ".", "b", "}", "\"q\"", "`r`", ")"], ""),
    (["x", ":", "[", "1", "2", "]", "x", "@", "0", ":", "7", "RP", "x"], ""),
    (["1", "?", "2", "3"], ""),
    (["-", "1", "-", "-", "2", "R", "R", "12"], ""),
]


def judge_programs(case):
    k, sep, at = case
    toks = PROGRAMS[k][0]
    base = run_real(" ".join(toks), [val("4").real], "p")
    s = ""
    for i, t in enumerate(toks):
        s += t + (sep if at in (-1, i) else " ")
    got = run_real(s, [val("4").real], "p")
    drv.STEPS[0] += len(toks)
    if base.key != got.key or base.kind == "crash":
        return (f"program {s!r}\nexpected {base!r} as for single spaces\n"
                f"observed {got!r}")


def judge_respace(s):
    """The spaced form shown by the verbose option scans to the same
    tokens."""
    first = real_scan(s)
    if first == "incomplete":
        raise Skip
    spaced = " ".join(t[1] for t in first[:-1])
    again = real_scan(spaced)
    drv.STEPS[0] += len(first)
    drv.LAST[0] = hash(str(again))
    if again != first:
        return f"source {s!r} -> {spaced!r}\n{first}\n{again}"


def sweeps(tier):
    deep = tier == "thorough"

    def pairs():
        for sep in SEPS:
            for a in TOKENS:
                for b in (TOKENS if deep or sep in SEPS[:2] else FEW):
                    yield ((a, b), sep)
                    if not (deep or sep in SEPS[:2]):
                        yield ((b, a), sep)

    def triples():
        for sep in SEPS:
            for t in product(FEW, repeat=3):
                if deep or sep in (" ", "\n; whole line \"comment\n"):
                    yield (t, sep)

    def programs():
        for k, (toks, _) in enumerate(PROGRAMS):
            for sep in SEPS:
                for at in range(-1, len(toks)):
                    yield (k, sep, at)

    def comments():
        for t in seqs(("a", " ", "\t", "\n", ";", "{", "}", "+"), 1,
                      7 if deep else 6):
            yield "".join(t)

    def respace():
        for t in seqs("Aa1+*:.$[", 1, 5 if deep else 4):
            yield "".join(t)

    return [
        Sweep("pairs", pairs, judge_tokens,
              "all token pairs x separators"),
        Sweep("triples", triples, judge_tokens,
              "all triples of 31 tokens x separators"),
        Sweep("programs", programs, judge_programs,
              "10 programs, every separator at every position"),
        Sweep("comments", comments, judge_scan,
              f"all texts of <= {7 if deep else 6} of 8 characters of layout"
              " against the reference scanner"),
        Sweep("respace", respace, judge_respace,
              "all short texts over 9 chars"),
    ]
