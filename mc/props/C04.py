"""Syntax errors: complete, incomplete and bad programs are told apart."""
from ..lib import *
from .. import long
from ..env import scanning, parsing, errors
from ..ref.parse import parse as ref_parse, Incomplete, Bad
from .. import drv

LEVEL = "model_checking"


def real_class(src):
    drv.IMPL[0] += 1
    with drv.Console():
        try:
            parsing.parse(scanning.scan(src))
        except errors.IncompleteSyntax:
            return "incomplete"
        except errors.BadSyntax:
            return "bad"
    return "complete"


def ref_class(src):
    try:
        ref_parse(src)
    except Incomplete:
        return "incomplete"
    except Bad:
        return "bad"
    return "complete"


def judge(toks):
    src = " ".join(toks)
    want, got = ref_class(src), real_class(src)
    drv.STEPS[0] += len(toks)
    drv.LAST[0] = hash((got, len(toks), toks[-1:]))
    if want != got:
        return f"source {src!r} is {want}, but reported as {got}"
    if got == "complete":
        for k in range(len(toks)):
            p = " ".join(toks[:k])
            if real_class(p) == "bad":
                return (f"source {src!r} is complete, but its beginning "
                        f"{p!r} is reported as bad (not incomplete)")
    return None


def judge_text(src):
    want, got = ref_class(src), real_class(src)
    drv.STEPS[0] += len(src)
    drv.LAST[0] = hash((got, src[-1:], len(src)))
    if want != got:
        return f"source {src!r} is {want}, but reported as {got}"


BASIC = ["a", "1", "+", "-", "(", ")", "[", "]", "{", "}", ";", "$", ":",
         "?", "F", "EL"]
CMDS = ["I", "W", "F", "L", "T", "LR", "WG", "EL", "x", "{", "}", "[", "]",
        "1", ";", "P", "("]
OPSY = ["$", "\\$", "+", "*", ":", "@", "R", "?", "a", "<", "!", "(", ")",
        "'x", "`p`", '"s"']
PROGS = ["I a>2{P a}EL{P 3}", "F[a b]Z[c d]{P a.b}", "\\\"q\\x\\\".'z.`r\\``",
         "W i<3{U i};x:{a+b}M[1;2]", "(f;2;[3 4])?5 6", "{;c;}x ;y\n;z",
         "$+*[1 2]\\$.\"ab\"@0:7", "L 3 I a P b EL W c T d WG LR `x`q P $0"]


def sweeps(tier):
    deep = tier == "thorough"

    def basic():
        yield from seqs(BASIC, 0, 5 if deep else 4)
        if not deep:
            yield from seqs(["a", "+", "(", ")", "{", "}", "[", "]", "$",
                             ";"], 5, 5)

    def cmds():
        yield from seqs(CMDS, 1, 5 if deep else 4)

    def ops():
        yield from seqs(OPSY, 1, 5 if deep else 4)

    def edits():
        # every prefix, deletion and duplication of whole programs
        for p in PROGS:
            for k in range(len(p) + 1):
                yield p[:k]
                yield p[k:]
                yield p[:k] + p[k + 1:]
                yield p[:k] + p[k:k + 1] * 2 + p[k + 1:]
                for j in range(k, len(p) + 1):
                    yield p[:k] + p[j:]
                for ins in "}{)(][;:$\"`'\\a+?":
                    yield p[:k] + ins + p[k:]
                    yield p[:k] + ins

    def all_ops():
        for t in sorted(ALLOPS):
            for pre in ("", "a ", "$", "\\$", "( ", "$ ( ", "[ ", "I "):
                for post in ("", " a", ":", "*", " )", " }", "; a", " b c"):
                    yield pre + t + post

    return [Sweep("long", long.c04, judge_text, "long and deep programs"),
            Sweep("basic", basic, judge, "all token sequences over 16 tokens"),
            Sweep("commands", cmds, judge,
                  "all token sequences over 17 command tokens"),
            Sweep("operators", ops, judge,
                  "all token sequences over 16 operator tokens"),
            Sweep("edits", edits, judge_text,
                  "all cuts, deletions, insertions of 8 programs"),
            Sweep("every-operator", all_ops, judge_text,
                  "every operator in 64 contexts")]
