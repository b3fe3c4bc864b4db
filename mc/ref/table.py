"""Frozen operator/command table of the Pip language (version 1.2.0).

The table is a specification: it was transcribed once and is NOT read from
the code under test.
"""
import json
import os

VALS, RVALS, LIST_EACH, RANGE_EACH, IN_LAMBDA = 1, 2, 4, 8, 16

_raw = json.load(open(os.path.join(os.path.dirname(__file__), "optable.json")))


class Op:
    __slots__ = ("text", "fn", "arity", "prec", "assoc", "default", "flags",
                 "assign", "map", "fold", "scan")

    def __init__(self, text, fn, arity, prec, assoc, default, flags):
        self.text, self.fn, self.arity = text, fn, arity
        self.prec, self.assoc = prec, assoc
        self.default, self.flags = default, flags
        self.assign = self.map = self.fold = self.scan = False

    def but(self, **kw):
        new = Op(self.text, self.fn, self.arity, self.prec, self.assoc,
                 self.default, self.flags)
        new.assign, new.map = self.assign, self.map
        new.fold, new.scan = self.fold, self.scan
        for k, v in kw.items():
            setattr(new, k, v)
        return new

    def show(self):
        s = self.text
        if self.fold:
            s = "$" + s
        elif self.scan:
            s = "\\$" + s
        if self.map:
            s += " *" if self.text + "*" in ALLOPS else "*"
        if self.assign:
            s += ":"
        return s

    def key(self):
        return ("op", self.text, self.arity, self.assign, self.map,
                self.fold, self.scan)

    def __repr__(self):
        return f"<{self.show()}/{self.arity}>"


OPS = {1: {}, 2: {}, 3: {}}
for ar, t, fn, prec, assoc, default, flags in _raw["ops"]:
    OPS[ar][t] = Op(t, fn, ar, prec, assoc, default, flags)
ALLOPS = set(OPS[1]) | set(OPS[2]) | set(OPS[3])
COMMANDS = {t: (fn, args) for t, fn, args in _raw["commands"]}
TOP = 44
PAREN = Op("PAREN", "PARENTHESIZE", 1, TOP, "L", None, VALS)
LIST = Op("LIST", "LIST", 1, TOP, "L", None, VALS)
BLOCK = Op("BLOCK", "BLOCK", 1, TOP, "L", None, 0)
SEND = Op("SEND", "SEND", 1, TOP, "L", None, VALS)
CHAIN = Op("CHAIN", "CHAIN", 2, 14, "C", None, RVALS | IN_LAMBDA)
ASSIGN_PREC = OPS[2][":"].prec
