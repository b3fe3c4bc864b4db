"""Parsing: the expression tree is the one the operator table prescribes."""
from ..lib import *
from .. import long
from ..env import scanning, parsing, errors
from ..ref.parse import parse as ref_parse, Incomplete, Bad, unparse
from .. import drv

LEVEL = "model_checking"

BIN = sorted(OPS[2])
UN = sorted(OPS[1])
TER = sorted(OPS[3])


def judge(src):
    """RP of the block shows the tree with every operation in parentheses."""
    return diff("RP{" + src + "}")


def judge_value(src):
    return diff(src, ("3", "2", "4"))


def levels(table):
    """One operator per (precedence, associativity) level."""
    seen = {}
    for t in sorted(table, key=lambda t: (len(t), t)):
        seen.setdefault((table[t].prec, table[t].assoc), t)
    return list(seen.values())


def sweeps(tier):
    deep = tier == "thorough"
    lb, lu, lt = levels(OPS[2]), levels(OPS[1]), levels(OPS[3])

    def pairs():
        for x in BIN + TER:
            for y in BIN + TER:
                yield (f"a {x} b c {y} d e" if x in TER
                       else f"a {x} b {y} c d")

    def unary():
        for u in UN:
            for b in BIN + TER:
                yield f"{u} a {b} b c"
                yield f"a {b} {u} b c"
            for w in UN:
                yield f"{u} {w} a"
                yield f"a + {u} {w} b"

    def assign():
        for x in BIN:
            yield f"a {x}: b"
            yield f"a {x}: b {x}: c"
            for y in lb + lt:
                yield f"a {x}: b {y} c d"
                yield f"a {y} b {x}: c d"
        for u in UN:
            for x in BIN:
                yield f"{u} a {x}: b"
                yield f"{u}: a {x}: b"
            for x in lb:
                for y in lb:
                    yield f"a {y} {u} b {x}: c"
                    yield f"{u} a {y} b {x}: c"
        for m in ("$", "\\$"):
            for x in lb:
                for y in BIN:
                    yield f"{m} {x} a {y}: b"
        for u in UN:
            yield f"{u}: a"
            yield f"{u}* a"
            yield f"{u}*: a"
            for y in lb + lt:
                yield f"{u}: a {y} b c"
                yield f"{u}* a {y} b c"
                yield f"a {y} {u}: b c"
                yield f"a {y} {u}* b c"

    def meta():
        for m in ("$", "\\$"):
            for x in BIN:
                for suffix in ("", "*", ":", "*:"):
                    yield f"{m} {x}{suffix} a"
                    for y in lb + lt:
                        yield f"{m} {x}{suffix} a {y} b c"
                        yield f"c {y} {m} {x}{suffix} a b"

    def triples():
        tern = lt
        for x in lb + tern:
            for y in lb + tern:
                for z in lb + tern:
                    yield f"a {x} b {y} c {z} d; e; a"

    def mixed():
        for u in lu:
            for x in lb:
                for y in lb:
                    yield f"{u} a {x} b {y} c"
                    yield f"a {x} {u} b {y} c"
                    yield f"a {x} b {y} {u} c"

    def ternary():
        for t in TER:
            for u in TER:
                yield f"a {t} b {u} c d e"
                yield f"a {t} b; c {u} d; e"
                yield f"a {t} (b {u} c d) e"
            for x in BIN:
                yield f"a {t} b {x} c d"
                yield f"a {t} b; c {x} d"
                yield f"a {t}: b; c {x} d"
                yield f"a {x}: b {t} c d"

    def parens():
        # parentheses around any of the operands
        def wrap(m):
            return [f"({v})" if m >> k & 1 else v
                    for k, v in enumerate("abcd")]
        for x in lb + lt:
            for y in lb + lt:
                for m in range(1, 16):
                    p, q, r, s = wrap(m)
                    z = f"; {s}"
                    yield (f"{p} {x} {q} {y} {r}" + z * ((x in lt) + (y in lt)))
        for x in lb:
            for y in lb:
                yield f"(a {x} b) {y} c"
                yield f"a {x} (b {y} c)"
                yield f"(a {x} b) {x} c {y} d"
                yield f"(a {x} b) {y} (c {x} d)"
                yield f"((a) {x} b {y} (c))"
                yield f"[a] {x} b {y} [c]"
                yield f"{{a}} {x} {{b}} {y} {{c}}"
                yield f"(a b) {x} (b c) {y} (c d)"
                yield f"(a) {x}: (b) {y} c"

    def groups():
        parts = ["a", "+ b", "- c", "(", ")", "[", "]", "{", "}", ";", "@ 1",
                 "P", "2"]
        for t in seqs(parts, 1, 5 if deep else 4):
            yield " ".join(t)

    def commands():
        pieces = ["I a", "EL", "F i b", "W c", "L 2", "T d", "LR e f", "WG",
                  "{", "}", "P 1", "x", ";", "F [a b] c", "U x"]
        for t in seqs(pieces, 1, 4 if deep else 3):
            yield " ".join(t)
        for h in ("I a", "F i b", "W c", "L 2", "T d", "LR e f"):
            for b in ("x", "{}", "{x}", "{x y}", "{x;y}", "P x", "x;"):
                for el in ("", " EL y", " EL{y z}", " EI z y", " EI z{y} EL w",
                           " EL I z y"):
                    for rest in ("", " q", " EL r"):
                        yield h + " " + b + el + rest

    def values():
        ops = [o for o in BIN if o in
               ("+", "-", "*", "/", "%", "**", "//", "<", ">", "=", ".", "X",
                ",", "&", "|", "Q", "BA", "BO", "E", "RL", "M", "J", "@")]
        for x in ops:
            for y in ops:
                yield f"a {x} b {y} c"
                yield f"- a {x} b {y} c"
                yield f"a {x} ! b {y} c"
                for z in ops if deep else ("+", "*", "-", "<", "."):
                    yield f"a {x} b {y} c {z} 1"
                    yield f"a {x} b {y} (c {z} 1)"

    return [Sweep("long", long.c03, judge, "long and deep expressions"),
            Sweep("binary-pairs", pairs, judge, "all pairs of binary/ternary"),
        Sweep("unary-binary", unary, judge, "all unary x all binary/unary"),
        Sweep("compute-assign", assign, judge,
              "all op: x one operator of every precedence level"),
        Sweep("fold-scan-map", meta, judge,
              "all metas x one operator of every precedence level"),
        Sweep("triples", triples, judge, "all triples of precedence levels"),
        Sweep("mixed", mixed, judge, "unary x two binary levels"),
        Sweep("ternary", ternary, judge, "all ternary combinations"),
        Sweep("parens", parens, judge,
              "parentheses around operands of all pairs of levels"),
        Sweep("groups", groups, judge, "all sequences of 13 fragments"),
        Sweep("commands", commands, judge, "command shapes"),
        Sweep("values", values, judge_value,
              "values of all small arithmetic expressions"),
    ]
