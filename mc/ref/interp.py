"""Reference interpreter: big-step evaluator over immutable values."""
import math
import re

from . import values as V
from .values import R, P, B, num, toint, sc, iterable, listy, elems, length
from .parse import parse, Incomplete, Bad
from .table import (OPS, CHAIN, PAREN, LIST, BLOCK, SEND, VALS, RVALS,
                    LIST_EACH, RANGE_EACH, IN_LAMBDA)


class Fatal(Exception):
    """The program ends with a fatal error."""


class Diverge(V.Infinite):
    """Step budget exhausted (the case is skipped, not judged)."""


class L:
    """An lvalue: a name (or tuple of lvalues) plus an index path."""
    __slots__ = ("base", "path", "cached")

    def __init__(self, base, path=(), cached=None):
        self.base, self.path, self.cached = base, tuple(path), cached

    def at(self, ix):
        return L(self.base, self.path + (ix,), self.cached)


NOVAL = object()
DEFAULTS = {
    "_": B((), ("tok", "Name", "a")),
    "h": "100", "i": "0", "k": ", ", "l": (), "m": "1000", "n": "\n",
    "o": "1", "p": "()", "s": " ", "t": "10", "u": None, "v": "-1",
    "w": P(r"\s+"), "x": "", "y": "", "z": "abcdefghijklmnopqrstuvwxyz",
    "B": B((), ("tok", "Name", "b")), "G": B((), ("tok", "Name", "g")),
    "AZ": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "CZ": "bcdfghjklmnpqrstvwxyz",
    "PA": "".join(map(chr, range(32, 127))), "PI": "3.141592653589793",
    "VD": "2024-03-30", "VN": "1.2.0", "VW": "aeiou", "VY": "aeiouy",
    "XA": P("[a-z]", re.IGNORECASE), "XC": P("[bcdfghjklmnpqrstvwxyz]"),
    "XD": P(r"\d"), "XI": P(r"-?\d+"), "XL": P("[a-z]"),
    "XN": P(r"-?\d+(?:\.\d+)?"), "XU": P("[A-Z]"), "XV": P("[aeiou]"),
    "XW": P(r"\w"), "XX": P("."), "XY": P("[aeiouy]"),
}
LOCALS = set("abcdefg")


def is_expr(s):
    return s[0] != "cmd"


def make_block(stmts):
    stmts = tuple(stmts)
    if stmts and is_expr(stmts[-1]):
        return B(stmts[:-1], stmts[-1])
    return B(stmts, None)


def literal(kind, text):
    if kind == "Number":
        return text
    if kind == "String":
        return text[1:-1]
    if kind == "Pattern":
        return P(text[1:-1].replace("\\`", "`"))
    if kind == "Char":
        return text[1]
    if kind == "EscapedString":
        return text[2:-2].replace("\\\\", "\\")
    if kind == "Nil":
        return None
    raise Fatal(kind)


class Interp:
    def __init__(self, fmt=None, stdin=(), budget=20000):
        self.fmt = fmt
        self.stdin = list(stdin)
        self.out = []
        self.budget = budget
        self.args = []
        self.main = None
        self.frames = [({}, None)]      # (locals, function)
        self.wipe()
        from . import ops
        self.fns = ops.TABLE
        self.chooser = None

    def randrange(self, lo, hi):
        if self.chooser is None:
            raise Diverge       # not judged
        return lo + self.chooser(hi - lo)

    # -- program level -----------------------------------------------
    def wipe(self):
        self.globals = dict(DEFAULTS)
        self.globals["\\g"] = tuple(self.args)
        for name, arg in zip("abcde", self.args):
            self.globals["\\" + name] = arg
        self.globals["\\f"] = self.main

    def run_program(self, stmts, args=()):
        if not stmts:
            return
        self.args = list(args)
        self.main = make_block(stmts)
        self.wipe()
        self.print(self.call(self.main, self.args))

    def print(self, v, end="\n"):
        if v is not None:
            self.out.append(V.show(v, self.fmt) + end)

    def output(self):
        return "".join(self.out)

    # -- scopes ------------------------------------------------------
    @property
    def locals(self):
        return self.frames[-1][0]

    def table(self, name):
        if name in LOCALS or re.fullmatch(r"\$_+", name):
            return self.locals
        return self.globals

    def call(self, fn, args):
        if len(self.frames) > 40:
            raise Diverge
        args = [self.rval(a) if isinstance(a, L) else a for a in args]
        scope = dict(zip("abcde", args))
        scope["f"] = fn
        scope["g"] = tuple(args)
        self.frames.append((scope, fn))
        try:
            for s in fn.stmts:
                v = self.statement(s)
                if v is not NOVAL:
                    self.remember(v)
            return None if fn.ret is None else self.rval(fn.ret)
        finally:
            self.frames.pop()

    def remember(self, v):
        sc_ = self.locals
        if "$_" in sc_:
            if "$__" in sc_:
                sc_["$___"] = sc_["$__"]
            sc_["$__"] = sc_["$_"]
        sc_["$_"] = v

    # -- statements --------------------------------------------------
    def body(self, stmts):
        for s in stmts:
            self.statement(s)

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Diverge

    def statement(self, s):
        if s[0] != "cmd":
            return self.rval(s)
        name = s[1]
        if name == "WG":
            self.wipe()
        elif name == "I":
            self.body(s[3] if V.truthy(self.rval(s[2])) else s[4])
        elif name == "W":
            while V.truthy(self.rval(s[2])):
                self.tick()
                self.body(s[3])
        elif name == "T":
            while not V.truthy(self.rval(s[2])):
                self.tick()
                self.body(s[3])
        elif name == "L":
            c = self.rval(s[2])
            if isinstance(c, str):
                n = toint(c)
            elif listy(c):
                n = length(c)
            else:
                n = 0
            for _ in range(n):
                self.tick()
                self.body(s[3])
        elif name == "F":
            var = self.ev(s[2])
            it = self.rval(s[3])
            if isinstance(it, R) and not it.finite():
                k = it.low
                while True:
                    self.tick()
                    self.assign(var, str(k))
                    self.body(s[4])
                    k += 1
            if not isinstance(it, B):
                for item in elems(it):
                    self.tick()
                    self.assign(var, item)
                    self.body(s[4])
        elif name == "LR":
            rx, st = self.rval(s[2]), self.rval(s[3])
            if isinstance(rx, str):
                if isinstance(st, P):
                    rx, st = st, rx
                else:
                    rx = self.regex_of(rx)
            if isinstance(rx, P) and isinstance(st, str):
                for m in rx.regex().finditer(st):
                    self.tick()
                    self.set_match(m)
                    self.body(s[4])
        return NOVAL

    # -- lvalues -----------------------------------------------------
    def special_get(self, name):
        if name == "q":
            return self.stdin.pop(0) if self.stdin else None
        raise Diverge           # r: random

    def rval(self, e):
        if isinstance(e, tuple) and e and (e[0] == "tok" or e[0] == "val"
                                           or hasattr(e[0], "prec")):
            e = self.ev(e)
        if not isinstance(e, L):
            return e
        if isinstance(e.base, tuple):
            v = tuple(self.rval(b) for b in e.base)
        elif e.base in ("q", "r"):
            if e.cached is None:
                e.cached = (self.special_get(e.base),)
            v = e.cached[0]
        else:
            t = self.table(e.base)
            if e.base not in t:
                return None
            v = t[e.base]
        for ix in e.path:
            if not iterable(v):
                return None
            try:
                v = V.index(v, ix)
            except IndexError:
                return None
        return v

    def assign(self, lv, v):
        if isinstance(lv.base, tuple):
            if isinstance(v, B):
                return
            vals = self.lazy_elems(v, len(lv.base))
            for k, target in enumerate(lv.base):
                self.assign(target, vals[k] if k < len(vals) else None)
            return
        if lv.base == "q":
            return
        if lv.base == "r":
            if lv.path:
                return
            raise Diverge
        t = self.table(lv.base)
        if not lv.path:
            t[lv.base] = v
            return
        if lv.base not in t:
            return
        cur = t[lv.base]
        if isinstance(cur, R):
            cur = tuple(cur.items())
            t[lv.base] = cur
        if isinstance(cur, (str, tuple)):
            t[lv.base] = self.updated(cur, lv.path, v)

    @staticmethod
    def lazy_elems(v, n):
        if isinstance(v, R) and not v.finite():
            return [str(v.low + k) for k in range(n + 1)]
        return elems(v)

    def updated(self, cur, path, v):
        """cur with the item at path replaced by v.  Only Lists (at every
        level but the last) indexed by single numbers reach stored items;
        anything else leaves the value unchanged."""
        ix = path[0]
        if len(path) == 1:
            try:
                return set_item(cur, ix, v, self.fmt)
            except (IndexError, ZeroDivisionError, TypeError):
                return cur
        if not isinstance(cur, tuple) or not isinstance(ix, int) or not cur:
            return cur
        k = ix % len(cur)
        return cur[:k] + (self.updated(cur[k], path[1:], v),) + cur[k + 1:]

    # -- regex state -------------------------------------------------
    def set_match(self, m):
        groups = [m.group(), *m.groups()]
        g = self.globals
        g["$$"] = tuple(groups[1:])
        for k in range(10):
            g[f"${k}"] = groups[k] if k < len(groups) else None
        g["$("] = str(m.start())
        g["$)"] = str(m.end())
        g["$`"] = m.string[:m.start()]
        g["$'"] = m.string[m.end():]
        g["$["] = tuple(str(a) for a, b in m.regs[1:])
        g["$]"] = tuple(str(b) for a, b in m.regs[1:])
        return groups

    def regex_of(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, str):
            return P(re.escape(v)).wrap()
        if isinstance(v, R):
            return P("|".join(re.escape(i) for i in v.items())).wrap()
        if isinstance(v, tuple):
            return P("|".join(V.show(self.regex_of(i), None)
                              for i in v)).wrap()
        return None

    # -- expressions -------------------------------------------------
    def ev(self, e):
        """Evaluate to a value or an lvalue."""
        if isinstance(e, L) or not isinstance(e, tuple) or not e:
            return e
        head = e[0]
        if head == "tok":
            return L(e[2]) if e[1] == "Name" else literal(e[1], e[2])
        if head == "val":
            return e[1]
        if not hasattr(head, "prec"):
            return e            # a List value
        self.tick()
        op, args = head, list(e[1:])
        if op.assign:
            lv = self.ev(args[0])
            plain = op.but(assign=False)
            res = self.apply_tree(plain, [lv] + args[1:])
            return self.do_assign(lv, res)
        return self.apply_tree(op, args)

    def do_assign(self, lv, v):
        if not isinstance(lv, L):
            return v
        if isinstance(v, L):
            v = self.rval(v)
        self.assign(lv, v)
        return lv

    def apply_tree(self, op, args):
        """op with unevaluated (or already evaluated) args."""
        self.tick()
        if op.map:
            return self.map_meta(op, args[0])
        if op.fold or op.scan:
            return self.fold_meta(op, args[0])
        fn = op.fn
        if op.flags & RVALS:
            args = [a if hasattr(a, "prec") else self.rval(a) for a in args]
        elif op.flags & VALS:
            args = [self.ev(a) for a in args]
        else:
            # lazily evaluated operators
            if fn == "BLOCK":
                return make_block(args[0])
            if fn == "IFTE":
                t = V.truthy(self.rval(args[0]))
                return self.ev(args[1] if t else args[2])
            v = self.rval(args[0])
            if V.truthy(v) == (fn == "AND"):
                v = self.rval(args[1])
            return v
        if fn == "LIST":
            if args and all(isinstance(a, L) for a in args):
                return L(tuple(args))
            return tuple(self.rval(a) for a in args)
        if fn == "PARENTHESIZE":
            return args[0]
        return self.apply(op, args)

    def apply(self, op, args):
        """op applied to evaluated args (values; lvalues for VALS ops)."""
        expand, blocks = [], []
        for k, a in enumerate(args):
            if isinstance(a, R) and op.flags & RANGE_EACH:
                expand.append(k)
            elif isinstance(a, tuple) and op.flags & LIST_EACH:
                expand.append(k)
            elif op.flags & IN_LAMBDA and (
                    isinstance(a, B)
                    or isinstance(a, L) and isinstance(self.rval(a), B)):
                blocks.append(k)
        if blocks:
            vals = [a if hasattr(a, "prec") else self.rval(a) for a in args]
            stmts = ()
            new = [op]
            for k, a in enumerate(vals):
                if isinstance(a, B):
                    stmts += a.stmts
                    new.append(("val", None) if a.ret is None else a.ret)
                elif hasattr(a, "prec"):
                    new.append(a)
                else:
                    new.append(("val", a))
            return B(stmts, tuple(new))
        if expand:
            if len(args) == 1:
                return tuple(self.apply(op, [x]) for x in elems(args[0]))
            x, y = args
            if len(expand) == 2:
                if all(isinstance(a, R) and not a.finite() for a in args):
                    raise V.Infinite
                n = min(self.maybe_len(x), self.maybe_len(y))
                ex, ey = self.lazy_elems(x, n)[:n], self.lazy_elems(y, n)[:n]
                res = [self.apply(op, [i, j]) for i, j in zip(ex, ey)]
                if length(x) > length(y):
                    res += elems(x)[n:]
                else:
                    res += elems(y)[n:]
                return tuple(res)
            if expand == [0]:
                return tuple(self.apply(op, [i, y]) for i in elems(x))
            return tuple(self.apply(op, [x, j]) for j in elems(y))
        return self.fns[op.fn](self, *args)

    @staticmethod
    def maybe_len(v):
        if isinstance(v, R) and not v.finite():
            return 10 ** 6
        return length(v)

    # -- meta-operators ----------------------------------------------
    def lift(self, op, blk):
        return B(blk.stmts, (op, ("val", None) if blk.ret is None
                             else blk.ret))

    def map_meta(self, op, arg):
        v = self.rval(arg)
        if isinstance(v, B):
            return self.lift(op, v)
        if iterable(v):
            plain = op.but(map=False)
            return tuple(self.rval(self.apply_tree(plain, [valnode(i)]))
                         for i in elems(v))
        return None

    def fold_meta(self, op, arg):
        v = self.rval(arg)
        if isinstance(v, B):
            return self.lift(op, v)
        if not iterable(v) or isinstance(v, R) and not v.finite():
            return None
        items = [valnode(i) for i in elems(v)]
        plain = op.but(fold=False, scan=False)
        if not items:
            if op.scan:
                return ()
            d = op.default
            return tuple(d) if isinstance(d, list) else (
                None if d is None else sc(d))
        if op.assoc == "C":
            def chain(n):
                if n == 1:
                    return "1"
                t = [CHAIN, items[0]]
                for i in items[1:n]:
                    t += [plain, i]
                return self.rval(tuple(t))
            if op.scan:
                return tuple(chain(n + 1) for n in range(len(items)))
            return chain(len(items))
        if op.assoc == "L":
            acc = items[0]
            res = [acc]
            for i in items[1:]:
                acc = valnode(self.rval(self.apply_tree(plain, [acc, i])))
                res.append(acc)
        else:
            acc = items[-1]
            res = [acc]
            for i in reversed(items[:-1]):
                acc = valnode(self.rval(self.apply_tree(plain, [i, acc])))
                res.insert(0, acc)
        if op.scan:
            return tuple(r[1] for r in res)
        return acc[1]


def valnode(v):
    return ("val", v)


def set_item(cur, ix, v, fmt):
    if isinstance(cur, str):
        items, new = list(cur), V.show(v, fmt)
    elif isinstance(cur, tuple):
        items, new = list(cur), v
    else:
        raise TypeError("item assignment")
    if isinstance(ix, int):
        items[ix % len(items)] = new
    else:
        items[ix] = elems(new)
    return "".join(items) if isinstance(cur, str) else tuple(items)
