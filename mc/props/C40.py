"""Whole programs: every short sequence of tokens."""
from ..lib import *

LEVEL = "model_checking"
THEMES = {
    "general": ["a", "b", "x", "1", "2", "\"ab\"", "[", "]", "(", ")", "{",
                "}", ";", "+", "-", "@", ":", ",", "P", "U", ".", "?"],
    "lists": ["g", "x", "1", "-1", "[", "]", "(", ")", "@", ":", ",", "PU",
              "PO", "#", "RV", "AL", "J", "++", "@<"],
    "functions": ["{", "}", "(", ")", "a", "b", "g", "f", "x", "5", "+", ":",
                  "M", "J", "$_", "\\a", "_", "?", ";"],
    "control": ["I", "EL", "F", "W", "T", "L", "i", "x", "3", ",", "{", "}",
                "P", "U", "<", "a", ";"],
    "strings": ["a", "'q", "\"x y\"", "`.`", ".", "X", "^", "J", "RM", "UC",
                "R", "~", "$0", "#", "@?", "s", "2", "\\\"$a\\\""],
    "meta": ["$", "\\$", "*", "+", "-", "<", ".", "M", "g", "[", "]", "1",
             "2", ",", "3", ":", "AE", "**", "("],
    "logic": ["a", "x", "0", "1", "&", "|", "!", "?", "<", "=", "~", "Q",
              "NE", "()", ":", "P", ";", "N"],
}
ARGS = ("5", "[3;1;2]")

# Grammars: leaves, unary, binary, targets of assignment, commands
GRAMMARS = {
    "values": (["a", "b", "1", "\"ab\""], ["#", "-", "RV"], ["+", "@", ","],
               [], []),
    "state": (["x", "a", "1"], ["P", "Y"], [".", "-"],
              ["x", "a", "b@1", "[x a]"], []),
    "functions": (["a", "x", "2"], ["{", "U"], ["+", "M", "call", "list"],
                  ["x", "a"], []),
    "commands": (["a", "x", "$_"], ["P"], ["<"], ["x", "i"],
                 ["I", "F", "W", "L", "EL"]),
    "meta": (["b", "a", "2"], ["$+", "\\$-", "-*", "{"], ["AL", "+", "-@"],
             ["x"], []),
    "lists": (["b", "x", "0"], ["[", "PO", "@>"], ["@", "AL", "PU", "list"],
              ["x", "b@0"], []),
    "patterns": (["\"aab\"", "`a`", "`(.)b`", "$1"], ["$0", "K", "RV"],
                 ["~", "@?", "^", "."], [], []),
}
SIZES = {"values": 6, "state": 5, "functions": 5, "commands": 6, "meta": 5,
         "lists": 5, "patterns": 6}


class Gen:
    """All programs of a grammar, by number of nodes."""

    def __init__(self, g):
        self.leaves, self.un, self.bi, self.lv, self.cmd = g
        self.memo = {}

    def expr(self, n):
        if n in self.memo:
            return self.memo[n]
        out = []
        if n == 1:
            out += self.leaves
        else:
            for u in self.un:
                for e in self.expr(n - 1):
                    if u == "{":
                        out.append("{" + e + "}")
                    elif u == "[":
                        out.append("[" + e + "]")
                    elif u == "-*":
                        out.append(f"(-*({e}))")
                    elif u == "$0":
                        out.append(f"[{e};$0]")
                    else:
                        out.append(f"({u} {e})")
            for b in self.bi:
                for k in range(1, n - 1):
                    for x in self.expr(k):
                        for y in self.expr(n - 1 - k):
                            if b == "call":
                                out.append(f"({x} {y})" if x[0] != "("
                                           else f"({x}{y})")
                            elif b == "list":
                                out.append(f"[{x} {y}]" if y[0] != "("
                                           else f"[{x};{y}]")
                            else:
                                out.append(f"({x} {b} {y})")
            for v in self.lv:
                for e in self.expr(n - 1):
                    out.append(f"({v}:{e})")
                    out.append(f"({v}+:{e})")
        self.memo[n] = out
        return out

    def block(self, n):
        """One or two statements."""
        yield from self.statement(n)
        for k in range(1, n):
            for s in self.statement(k):
                for t in self.statement(n - k):
                    yield s + ";" + t

    def statement(self, n):
        yield from self.expr(n)
        for c in self.cmd:
            for k in range(1, n - 1):
                if c == "EL":
                    for j in range(1, n - k):
                        for e in self.expr(k):
                            for s in self.statement(j):
                                for t in self.statement(n - k - j):
                                    yield f"I {e}{{{s}}}EL{{{t}}}"
                    continue
                for e in self.expr(k):
                    head = f"{c} {'i ' if c == 'F' else ''}{e}"
                    for s in self.block(n - 1 - k):
                        yield head + "{" + s + "}"

    def programs(self, n):
        for k in range(1, n + 1):
            for p in self.block(k):
                # the last value and the state at the end
                yield (p + ";[$_ x a b i]", ARGS)


def sweeps(tier):
    deep = tier == "thorough"
    out = []
    for name, toks in THEMES.items():
        def cases(toks=toks):
            for s in seqs(toks, 1, 4):
                yield (" ".join(s), ARGS)
        if deep:
            def cases(toks=toks):
                for s in seqs(toks, 1, 5):
                    yield (" ".join(s), ARGS)
        out.append(differential(
            name, cases, f"all sequences of <= {5 if deep else 4} of "
            f"{len(toks)} tokens, with two arguments", budget=2000))

    for name, g in GRAMMARS.items():
        n = SIZES[name] + deep

        def progs(g=g, n=n):
            return Gen(g).programs(n)
        out.append(differential(
            name + " grammar", progs, f"all programs of <= {n} nodes of a "
            "grammar", budget=1000))

    def glued():
        toks = ["a", "x", "1", ".", "\"", "'", "-", "+", ":", "@", "P", "R",
                "[", "]", "{", "}", ";", "$", "_", "\n"]
        for s in seqs(toks, 1, 5 if deep else 4):
            yield ("".join(s), ARGS)
    out.append(differential("glued", glued, "all texts of <= "
                            f"{5 if deep else 4} of 20 characters",
                            budget=2000))
    return out
