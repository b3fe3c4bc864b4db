"""The REPL: transcripts agree with a reference loop."""
import io

from ..lib import *
from .. import drv
from ..env import pip_main, version
from ..ref.repl import Repl

LEVEL = "model_checking"


class Interrupting(io.StringIO):
    """Standard output; the user presses Ctrl-C just before a line of output
    is written when `at` lines have been written."""
    at = None

    def write(self, s):
        if s and self.at is not None and s not in (">> ", ".. ") \
                and "Bye!" not in s and not self.getvalue().endswith("Bye!") \
                and self.getvalue().count("\n") == self.at:
            self.at = None
            raise KeyboardInterrupt
        return super().write(s)


def transcript(lines, fmt=None, warn=False, interrupt=None, end="\n"):
    stdin = "\n".join(lines) + (end if lines else "")
    with drv.Console(stdin) as c:
        c.out = Interrupting()
        c.out.at = interrupt
        drv.sys.stdout = c.out
        try:
            argv = ["-R"] + ([f"-{fmt}"] if fmt else []) + ["-w"] * warn
            pip_main.pip(None, argv)
            st = "ok"
        except drv.Timeout:
            raise
        except BaseException as e:
            st = "escaped " + drv.detail(e)
    drv.IMPL[0] += 1
    drv.KINDS[st] = drv.KINDS.get(st, 0) + 1
    drv.LAST[0] = hash(c.out.getvalue())
    return st, c.out.getvalue(), c.err.getvalue()


NOTES = ("Syntax error:", "Fatal error:", "Warnings o",
         "Execution interrupted by user.")


def judge(case):
    if not case or not isinstance(case[0], tuple):
        case = (case,)
    lines, fmt, warn, interrupt = case + (None, None, False, None)[len(case):]
    ref = Repl(lines, fmt, warn, 8000, interrupt)
    try:
        ref.run(f"Pip {version.VERSION}\nType ;help for more information.\n",
                pip_main.REPL_HELP_TEXT)
    except (drv.Infinite, drv.Timeout, RecursionError, MemoryError):
        raise Skip
    finally:
        drv.STEPS[0] += 8000 - ref.budget
    st, out, err = transcript(lines, fmt, warn, interrupt)
    what = (f"REPL lines {list(lines)!r}" + (f" -{fmt}" if fmt else "")
            + " -w" * warn
            + (f" interrupted after {interrupt} lines"
               if interrupt is not None else ""))
    if st != "ok":
        return f"{what}: {st}"
    if out != ref.output():
        return f"{what}:\nprinted  {out!r}\nexpected {ref.output()!r}"
    notes = [l for l in err.split("\n") if l.startswith(NOTES)]
    if len(notes) != len(ref.notes) or not all(
            n.startswith(r) for n, r in zip(notes, ref.notes)):
        return f"{what}: stderr {err!r}, expected {ref.notes}"
    if "Traceback" in err or "Implementation error" in err:
        return f"{what}: {err!r}"
    on = warn or any("arnings" in n for n in ref.notes)
    rest = [l for l in err.split("\n") if l and not l.startswith(NOTES)]
    if not on and rest and not any(n.startswith(("Fatal", "Syntax"))
                                   for n in ref.notes):
        if rest != ["Iterating over an infinite Range"] * len(rest):
            return f"{what}: warnings although they are off: {err!r}"


def judge_warnings(case):
    """A nonfatal error warns exactly while warnings are on."""
    lines, warn = case
    ref = Repl(lines, None, warn)
    ref.run("", "")
    drv.STEPS[0] += 1
    st, out, err = transcript(lines, None, warn)
    got, want, on = [], [], warn
    for l in err.split("\n"):
        if l.startswith("Warnings o"):
            got.append(l)
        elif l and (not got or got[-1] != "warned"):
            got.append("warned")
    notes = list(ref.notes)
    for l in lines:
        if l == "0/0":
            if on:
                want.append("warned")
        elif l.startswith(";w") and l != ";w x":
            n = notes.pop(0)
            want.append(n)
            on = n.endswith("on")
    squeezed = [w for i, w in enumerate(want)
                if w != "warned" or not i or want[i - 1] != "warned"]
    if st != "ok" or got != squeezed:
        return f"REPL {lines} -w {warn}: stderr {err!r}, expected {squeezed}"


def sweeps(tier):
    deep = tier == "thorough"
    lines = ["x:5", "x", "U x", "$_", "$__", "[$_ $__ $___]", "f:{x+:a}", "(f 2)",
             "a:3", "a", "[1;", "2]", "\"q", "r\"", "1 2 (", ")", "P 7",
             "Fi,3Pi", "Fi,2{", "}", "#(1,())", "ZQ", "ZQ@1", "", ";", ";x",
             ";h", ";w", "{P 1 #(1,())}", "({$_:a P$_ $_}4)", "q", "WG", "I x",
             "5 6;7", "l:[x;[x]]", "l@1@0:8"]

    def sequences():
        for s in seqs(lines, 0, 3):
            yield s
        if deep:
            core = ["x:5", "$_", "U x", "[1;", "2]", "\"q", ")", "#(1,())",
                    "({$_:a P$_ $_}4)", "q", "WG", "(x,", "5 6;7", "{x:a}",
                    "[$_ $__ $___]", "Fi,2{", "}", "", ";w"]
            yield from seqs(core, 4, 4)

    def history():
        """Which values the history variables hold, after any lines."""
        core = ["1", "\"b\"", "x:9", "P 2", "I 1{3}", "()", "[4;$_]", "$__:6",
                "5 $_", "({$_})", "({8;$_})", "#(1,())", "7;#(1,())", ")", "",
                ";w"]
        for s in seqs(core, 0, 4 if deep else 3):
            yield s + ("[$_ $__ $___]", "$___")

    def commands():
        words = {"quit", "exit", "help", "warnings", "x", "quits", "hello",
                 "wx", "xx", "warning", "none", "e x", "warnings on",
                 "warnings off", "w on", "w off", "w no", "w on off", "h on",
                 "warnings  on", " w", "q 1", "W ON", "Quit", "HeLp", "wa\ton"}
        for w in ("quit", "exit", "help", "warnings"):
            words |= {w[:n] for n in range(1, len(w))}
        for w in sorted(words):
            for pre in ((), ("5",), ("ZQ@0",), ("[1;",), ("\"",)):
                for post in (("$_", "ZQ@0"), ("]",), ("\"", "6")):
                    for warn in (False, True):
                        for c in (";", " ;", "5;", "; "):
                            yield (pre + (c + w,) + post, None, warn)

    def warnings():
        for s in seqs(("0/0", ";w", ";w on", ";w off", ";w x", "1"), 0,
                      5 if deep else 4):
            for w in (False, True):
                yield (s, w)

    def splits():
        """A program typed on several lines, split anywhere."""
        for toks in (["x", ":", "[", "1", ";", "\"a\"", "]", "x"],
                     ["{", "a", "+", "1", "}", "M", "[", "1", "2", "]"],
                     ["I", "1", "{", "P", "2", "}", "EL", "{", "3", "}"],
                     ["F", "i", ",", "2", "{", "i", "}"],
                     ["(", "{", "a", "}", "4", ")"],
                     ["W", "x", "<", "2", "U", "x"],
                     ["\"a", "b\"", ".", "'", "c"],
                     ["`a", "b`", "~", "\\\"", "$z", "\\\""],
                     ["1", "RA", "2", ";", "3"],
                     ["{;", " z", ";}", "5", "-", "1"],
                     ["1", "?", "2", "[", "3", "]"],
                     ["x", "@", "0", "+:", "$_"]):
            n = len(toks)
            for cut in product((" ", "\n"), repeat=n - 1):
                if deep or sum(c == "\n" for c in cut) <= 3:
                    t = "".join(a + b for a, b in zip(toks, cut + ("",)))
                    yield ("9",) + tuple(t.split("\n")) + ("$_", "x")

    def characters():
        for t in map("".join, seqs("x1[](){}\"';`@:UI$_", 0, 4 if deep else 3)):
            yield (t, "\"2", "5]\"", ")", "}", "x")

    def formats():
        for s in seqs(["[1;[2;3]]", "P l:[1;[2;3]]", "l", "$_.\"\"", "1,4",
                       "P{a}", "$__"], 1, 3):
            for f in (None, "p", "P", "n", "l", "s", "S"):
                yield (s, f)

    def failing():
        """Lines with a fatal error at any place."""
        stmts = ["V\"(\"", "\"a\"~`(`", "#(1,())", "x:1", "x:x.2", "P 3", "$_",
                 "U x", "ZQ@0", "(x,0)", "{P 4;#(1,())}", "({x:6 #(1,())})",
                 "Fi,2#(1,())"]
        for s in seqs(stmts, 1, 3 if deep else 2):
            yield (" ".join(s), "x", "[$_ $__]")
            yield ("x:0 " + ";".join(s) + ";P 8", "[x $_]")
        for s in seqs(stmts[:7], 3, 3):
            yield (" ".join(s), "[x $_]")
        for s in seqs(stmts[:8], 2, 2):
            for t in stmts:
                yield (" ".join(s), t, "[$_ $__ x]")

    def interrupts():
        """Ctrl-C just before any line of output."""
        progs = ["P 1 P 2", "({P a x:a P b}5 6)", "Fi,3{P i x:i}", "5 x:7 8",
                 "{P a U x a}M,3", "({P 3 (f)})", "P \"a\".P 2", "x", "$_",
                 "({a:3 P a P a})", "[a x]", "V\"P 4 x:4 P 5\"", "U x",
                 "W 1{P x U x}"]
        for s in seqs(progs, 1, 3 if deep else 2):
            for k in range(2, 10):
                yield (s + ("[a x i $_]", "U x"), None, False, k)

    def sessions():
        """Transcripts of up to 200 lines."""
        for n in (20, 80, 200):
            for step in (("U i",), ("x:x.1", ")"), ("[i;", "U i]"), ("$_.i",),
                         ("f:{i+:a}", "(f 2)", "#(1,())"), ("\"a", "b\"", ";w"),
                         ("l PB i", "l@-1"), ("({a:U i a $_}4)", "$__"),
                         ("[$_ $__ $___]", "i", "U i"), (";x", "i+:1", "", "("
                                                         , "x)"),
                         ("q", "5")):
                yield (step * (n // len(step)) + ("[$_ $__ $___]", "[x i #l]"),)

    return [Sweep("sessions", sessions, judge, "33 sessions of <= 200 lines"),
            Sweep("sequences", sequences, judge, "all transcripts of <= 3 "
                  "of 36 lines" + ", of 4 of 19 lines" * deep),
            Sweep("history", history, judge, "all transcripts of <= "
                  f"{4 if deep else 3} of 16 lines, then history variables"),
            Sweep("commands", commands, judge, "all abbreviations of commands "
                  "and words like them in 15 contexts"),
            Sweep("warnings", warnings, judge_warnings, "all transcripts of "
                  "switching warnings and warning"),
            Sweep("splits", splits, judge, "12 programs split into lines at "
                  "token boundaries"),
            Sweep("characters", characters, judge, "all short lines and what "
                  "completes them"),
            Sweep("formats", formats, judge, "all list formats"),
            Sweep("failing", failing, judge, "all lines of <= 3 of 13 "
                  "statements, some of them fatal"),
            Sweep("interrupts", interrupts, judge, "an interrupt before each "
                  "line of output of programs")]
