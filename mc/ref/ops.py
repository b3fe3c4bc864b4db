"""Reference semantics of every Pip operator, over immutable values.

Each function takes the interpreter and evaluated arguments (values, or
lvalues for the operators that take lvalues).  `None` is nil; operand type
combinations that have no meaning give nil.
"""
import itertools
import math
import re
from fractions import Fraction

from . import values as V
from .values import (R, P, B, num, toint, sc, iterable, listy, elems, length,
                     index, truthy, Infinite)
from .interp import L, Fatal, Diverge
from .parse import parse, Incomplete, Bad
from .table import OPS

NA = object()
TABLE = {}


def op(f):
    TABLE[f.__name__] = f
    return f


def S(*vs):
    return all(isinstance(v, str) for v in vs)


def tup(v):
    """Python tuple of the items of an iterable value."""
    return tuple(elems(v))


def too_big(n):
    if n > 10 ** 6:
        raise V.Infinite


def power(x, y):
    if isinstance(x, int) and isinstance(y, int) and abs(x) > 1:
        too_big(abs(y) * x.bit_length())
    return x ** y


# arithmetic -------------------------------------------------------------
def arith1(name, f):
    def g(I, x):
        try:
            return sc(f(num(x))) if S(x) else None
        except ZeroDivisionError:
            return None
    TABLE[name] = g


def arith2(name, f):
    def g(I, x, y):
        return sc(f(num(x), num(y))) if S(x, y) else None
    TABLE[name] = g


arith1("ABS", abs)
arith2("ABSOLUTEDIFF", lambda x, y: abs(x - y))
arith1("COSEC", lambda x: 1 / math.sin(x))
arith1("COSINE", math.cos)
arith1("COTAN", lambda x: 1 / math.tan(x))
arith1("SECANT", lambda x: 1 / math.cos(x))
arith1("SINE", math.sin)
arith1("TANGENT", math.tan)
arith1("DEGREES", lambda x: x / math.pi * 180)
arith1("RADIANS", lambda x: x / 180 * math.pi)
arith1("DOUBLE", lambda x: x * 2)
arith1("EXPONENTIAL", math.exp)
arith1("SQUARE", lambda x: x * x)


def intop1(name, f):
    def g(I, x):
        return sc(f(toint(x))) if S(x) else None
    TABLE[name] = g


def intop2(name, f):
    def g(I, x, y):
        return sc(f(toint(x), toint(y))) if S(x, y) else None
    TABLE[name] = g


intop1("BITLENGTH", int.bit_length)
intop1("BITWISENOT", lambda x: ~x)
intop2("BITWISEAND", lambda x, y: x & y)
intop2("BITWISEOR", lambda x, y: x | y)
intop2("BITWISEXOR", lambda x, y: x ^ y)


def logop(name, f):
    def g(I, x):
        return sc(f(num(x))) if S(x) and num(x) > 0 else None
    TABLE[name] = g


logop("BINARYLOG", math.log2)
logop("DECIMALLOG", math.log10)
logop("NATURALLOG", math.log)


def shift_range(r, k):
    return R(r.low + k, None if r.hi is None else r.hi + k)


@op
def ADD(I, x, y):
    if isinstance(x, R) and S(y):
        x, y = y, x
    if S(x, y):
        return sc(num(x) + num(y))
    if S(x) and isinstance(y, R):
        if num(x) == toint(x):
            return shift_range(y, toint(x))
        return tuple(ADD(I, x, i) for i in elems(y))
    if isinstance(x, P) and isinstance(y, P):
        x, y = x.wrap(), y.wrap()
        return P(x.raw + y.raw, x.flags | y.flags)
    return None


def as_items(v, also=()):
    """Operand of the list-building operators."""
    if v is None or isinstance(v, (str, P)):
        return (v,)
    if listy(v):
        return tup(v)
    return NA


@op
def APPENDELEM(I, x, y):
    x = as_items(x)
    return None if x is NA else x + (y,)


@op
def APPENDLIST(I, x, y):
    x, y = as_items(x), as_items(y)
    return None if x is NA or y is NA else x + y


@op
def PREPENDELEM(I, x, y):
    x = as_items(x)
    return None if x is NA else (y,) + x


@op
def ARCTAN(I, x, y=NA):
    if y is NA:
        return sc(math.atan(num(x))) if S(x) else None
    return sc(math.atan2(num(x), num(y))) if S(x, y) else None


@op
def ASC(I, x):
    if S(x):
        return str(ord(x[0])) if x else None
    if isinstance(x, P):
        return P(x.raw, x.flags ^ re.ASCII)
    return None


@op
def ASSIGN(I, x, y):
    if isinstance(y, L):
        y = I.rval(y)
    if not isinstance(x, L):
        return y
    I.assign(x, y)
    return x


@op
def AT(I, x, y=NA):
    if isinstance(y, L):
        y = I.rval(y)
    if y is NA:
        ix = 0
    elif S(y):
        ix = toint(y)
    elif isinstance(y, R):
        ix = slice(y.lo, y.hi)
    elif isinstance(y, (tuple, P)):
        ix = None
    else:
        return None
    if isinstance(x, L):
        if ix is not None:
            if isinstance(x.base, tuple):
                try:
                    r = index(x.base, ix)
                except IndexError:
                    return None
                return r if isinstance(r, L) else L(r)
            return x.at(ix)
        x = I.rval(x)
    if isinstance(y, P):
        if S(x):
            return tuple(I.set_match(m)[0] for m in y.regex().finditer(x))
        if listy(x):
            return tuple(AT(I, i, y) for i in elems(x))
        return None
    if isinstance(y, tuple):
        return tuple(AT(I, x, i) for i in y) if iterable(x) else None
    if not iterable(x):
        return None
    try:
        return index(x, ix)
    except IndexError:
        return None


@op
def CARTESIANPRODUCT(I, x, y=NA):
    if y is NA:
        if not iterable(x):
            return None
        lists = elems(x)
    else:
        lists = [x, y]
    if not all(iterable(i) for i in lists):
        return None
    return tuple(itertools.product(*[elems(i) for i in lists]))


@op
def CAT(I, x, y):
    if S(x, y):
        return x + y
    if isinstance(x, (str, P)) and isinstance(y, (str, P)):
        x = P(x) if S(x) else x
        y = P(y) if S(y) else y
        return P(x.raw + y.raw, x.flags | y.flags)
    return None


def rounder(f):
    def g(I, x, y=NA):
        p = 1 if y is NA else abs(num(y)) if S(y) else None
        if not S(x) or p is None:
            return None
        if p == 0:
            return x
        v = num(x)
        if p == 1:
            return sc(f(v))
        if isinstance(v, int) and isinstance(p, int):
            return sc(f(Fraction(v, p)) * p)
        return sc(f(v / p) * p)
    return g


TABLE["CEIL"] = rounder(math.ceil)
TABLE["FLOOR"] = rounder(math.floor)


@op
def CHAIN(I, *c):
    r = True
    i = 1
    while truthy_py(r) and i < len(c):
        r = I.rval(I.apply_tree(c[i], [("val", c[i - 1]),
                                       ("val", c[i + 1])]))
        i += 2
    return "1" if r is True else r


def truthy_py(r):
    return r is True or truthy(r)


@op
def CHOP(I, x, y="2"):
    if listy(y):
        return tuple(CHOP(I, x, i) for i in elems(y))
    if not iterable(x) or not S(y):
        return None
    n = num(y)
    if n == 0:
        return None
    size = length(x)
    out = []
    jump = Fraction(size) / Fraction(n)
    if n > 0:
        at = Fraction(0)
        while at < size:
            end = min(at + jump, size)
            out.append(index(x, slice(math.floor(at), math.floor(end))))
            at += jump
    else:
        at = Fraction(size)
        while at > 0:
            start = max(at + jump, 0)
            out.append(index(x, slice(math.ceil(start), math.ceil(at))))
            at += jump
    return tuple(out)


@op
def CHR(I, x):
    if S(x):
        k = toint(x)
        return chr(k) if 0 <= k <= 0x10ffff else None
    if isinstance(x, P):
        return P(f"({x.raw})", x.flags)
    return None


@op
def COMBINATIONS(I, x, y):
    if not iterable(x) or not S(y):
        return None
    if toint(y) < 0:
        return None
    r = itertools.combinations(elems(x), toint(y))
    if S(x):
        return tuple("".join(c) for c in r)
    return tuple(r)


def grid(f):
    def g(I, x, y=NA):
        if y is NA:
            y = x
        if not S(x, y):
            return None
        return tuple(tuple(f(r, c) for c in range(toint(y)))
                     for r in range(toint(x)))
    return g


TABLE["COORDINATEGRID"] = grid(lambda r, c: (str(r), str(c)))


def stepper(sign):
    def g(I, x):
        r = I.rval(I.apply(OPS[2][sign], [I.rval(x), "1"]))
        if isinstance(x, L):
            I.assign(x, r)
            return x
        return r
    return g


TABLE["INC"] = stepper("+")
TABLE["DEC"] = stepper("-")


@op
def DELETECHARS(I, x, y):
    if S(x, y):
        return "".join(c for c in x if c not in y)
    return x


def store(I, lv, v):
    """Write back to an lvalue that is not a list of lvalues."""
    if isinstance(lv, L) and not isinstance(lv.base, tuple):
        I.assign(lv, v)


@op
def DEQUEUE(I, x):
    v = I.rval(x)
    if isinstance(v, R):
        if not v.finite() or v.size() == 0:
            return None
        item, rest = str(v.hi - 1), R(v.lo, v.hi - 1)
    elif isinstance(v, (str, tuple)):
        if not v:
            return None
        item, rest = v[-1], v[:-1]
    else:
        return None
    store(I, x, rest)
    return item


def sort_key(v):
    if v is None or isinstance(v, (P, B)):
        return 0
    if isinstance(v, R) and not v.finite():
        return []
    return V.tonum(v)


def keyed_sort(rev):
    def g(I, f, x):
        if not isinstance(f, B) and isinstance(x, B):
            f, x = x, f
        if not isinstance(f, B) or not iterable(x):
            return None
        try:
            return tuple(sorted(elems(x), reverse=rev, key=lambda i:
                                sort_key(I.call(f, [i]))))
        except TypeError:
            return None
    return g


def num_sort(rev):
    def g(I, x):
        if not iterable(x):
            return None
        try:
            return tuple(sorted(elems(x), key=sort_key, reverse=rev))
        except TypeError:
            return None
    return g


def str_sort(rev):
    def g(I, x):
        if S(x):
            return "".join(sorted(x, reverse=rev))
        if iterable(x):
            return tuple(sorted(elems(x), reverse=rev,
                                key=lambda i: V.show(i, I.fmt)))
        return None
    return g


TABLE["DESCENDINGKEYED"] = keyed_sort(True)
TABLE["SORTKEYED"] = keyed_sort(False)
TABLE["DESCENDINGNUM"] = num_sort(True)
TABLE["SORTNUM"] = num_sort(False)
TABLE["DESCENDINGSTRING"] = str_sort(True)
TABLE["SORTSTRING"] = str_sort(False)


@op
def DIV(I, x, y):
    if not S(x, y) or num(y) == 0:
        return None
    return sc(num(x) / num(y))


@op
def DOT(I, x):
    return P(x.raw, x.flags ^ re.DOTALL) if isinstance(x, P) else x


@op
def ENUMERATE(I, x):
    if not iterable(x) or isinstance(x, R) and not x.finite():
        return None
    return tuple((str(k), i) for k, i in enumerate(elems(x)))


@op
def EVAL(I, code, args=NA):
    if isinstance(args, B):
        code, args = args, code
    if S(code):
        try:
            stmts = parse(code)
        except (Incomplete, Bad):
            raise Fatal
        from .interp import make_block
        code = make_block(stmts)
    if not isinstance(code, B) or isinstance(args, B):
        return None
    if args is not NA:
        return I.call(code, elems(args))
    for s in code.stmts:
        I.statement(s)
    return None if code.ret is None else I.ev(code.ret)


# filters ------------------------------------------------------------------
def fn_iter(f, x):
    """Order (function, iterable) arguments given in either order."""
    if isinstance(x, B) and iterable(f):
        f, x = x, f
    return (f, x) if isinstance(f, B) and iterable(x) else None


@op
def FILTER(I, f, x=NA):
    if x is NA:
        return tuple(i for i in elems(f) if truthy(i)) if iterable(f) else None
    a = fn_iter(f, x)
    return a and tuple(i for i in elems(a[1]) if truthy(I.call(a[0], [i])))


@op
def FILTERENUMERATE(I, f, x):
    a = fn_iter(f, x)
    return a and tuple(i for k, i in enumerate(elems(a[1]))
                       if truthy(I.call(a[0], [str(k), i])))


@op
def FILTERINDEXES(I, f, x=NA):
    if x is NA:
        return (tuple(str(k) for k, i in enumerate(elems(f)) if truthy(i))
                if iterable(f) else None)
    a = fn_iter(f, x)
    return a and tuple(str(k) for k, i in enumerate(elems(a[1]))
                       if truthy(I.call(a[0], [str(k), i])))


@op
def FILTERJOIN(I, f, x=NA):
    return JOIN(I, FILTER(I, f, x))


@op
def FILTERNOT(I, f, x=NA):
    if x is NA:
        return (tuple(i for i in elems(f) if not truthy(i))
                if iterable(f) else None)
    a = fn_iter(f, x)
    return a and tuple(i for i in elems(a[1])
                       if not truthy(I.call(a[0], [i])))


def unpack(i):
    if iterable(i) and not (isinstance(i, R) and not i.finite()):
        return elems(i)
    return []


@op
def FILTERUNPACK(I, f, x=NA):
    if x is NA:
        if not iterable(f):
            return None
        out = []
        for i in elems(f):
            if iterable(i):
                try:
                    if truthy(index(i, 0)):
                        out.append(i)
                except IndexError:
                    pass
        return tuple(out)
    a = fn_iter(f, x)
    return a and tuple(i for i in elems(a[1])
                       if truthy(I.call(a[0], unpack(i))))


def occurrences(x, item, limit=None):
    """Indices of item in iterable x (substring positions for Scalars)."""
    if isinstance(x, str):
        return [k for k in range(len(x) + 1) if x.startswith(item, k)
                and k + len(item) <= len(x)]
    if isinstance(x, tuple):
        return [k for k, i in enumerate(x) if i == item]
    n = num(item)
    if n == toint(item) and x.low <= n and (x.hi is None or n < x.hi):
        return [int(n) - x.low]
    return []


@op
def FIND(I, x, item):
    if listy(item) and isinstance(x, (str, R)):
        if isinstance(item, R) and not item.finite():
            return None
        return tuple(FIND(I, x, i) for i in elems(item))
    if isinstance(item, P) and S(x):
        m = item.regex().search(x)
        if not m:
            return None
        I.set_match(m)
        return str(m.start())
    if S(item) and iterable(x) or isinstance(x, tuple):
        r = occurrences(x, item)
        return str(r[0]) if r else None
    return None


@op
def FINDALL(I, x, item):
    if listy(item) and isinstance(x, (str, R)):
        if isinstance(item, R) and not item.finite():
            return None
        return tuple(FINDALL(I, x, i) for i in elems(item))
    if isinstance(item, P) and S(x):
        out = []
        for m in item.regex().finditer(x):
            I.set_match(m)
            out.append(str(m.start()))
        return tuple(out)
    if S(item) and iterable(x) or isinstance(x, tuple):
        return tuple(map(str, occurrences(x, item)))
    return None


@op
def FIRSTMATCH(I, x, rx):
    if isinstance(x, P) and S(rx):
        x, rx = rx, x
    elif S(rx):
        rx = I.regex_of(rx)
    if not S(x) or not isinstance(rx, P):
        return None
    m = rx.regex().search(x)
    if not m:
        return None
    I.set_match(m)
    return m.group()


@op
def FLATTEN(I, x):
    if not listy(x):
        return x
    out = []
    for i in elems(x):
        out += elems(i) if listy(i) else [i]
    return tuple(out)


@op
def FLATTENALL(I, x):
    if not listy(x):
        return x
    out = []
    for i in elems(x):
        out += FLATTENALL(I, i) if listy(i) else [i]
    return tuple(out)


# bases --------------------------------------------------------------------
@op
def FROMBASE(I, x, y="2"):
    if not S(x, y):
        return None
    b = toint(y)
    if b < 2 or b > 36:
        return None
    try:
        return sc(int(x.replace("_", " "), b) if x else 0)
    except ValueError:
        return None


@op
def FROMDIGITS(I, x, y="2"):
    if not S(y) or not iterable(x):
        return None
    b = num(y)
    length(x)
    r = 0
    for k, d in enumerate(reversed(elems(x))):
        if not S(d):
            return None
        r += num(d) * b ** k
    return sc(r)


@op
def FULLMATCH(I, x, rx):
    if isinstance(x, P) and S(rx):
        x, rx = rx, x
    elif S(rx):
        rx = I.regex_of(rx)
    if not isinstance(rx, P):
        return "0"
    if listy(x):
        for i in elems(x):
            if not S(i) or FULLMATCH(I, i, rx) == "0":
                return "0"
        return "1"
    if not S(x):
        return "0"
    m = rx.regex().fullmatch(x)
    if m:
        I.set_match(m)
    return sc(bool(m))


@op
def GROUP(I, x, y="2"):
    if listy(y):
        return tuple(GROUP(I, x, i) for i in elems(y))
    if not iterable(x) or not S(y):
        return None
    jump = num(y)
    if jump == 0:
        return None
    size = length(x)
    out = []
    if jump > 0:
        at = 0
        while at < size:
            end = min(at + jump, size)
            out.append(index(x, slice(math.floor(at), math.floor(end))))
            at += jump
    else:
        at = size
        while at > 0:
            start = max(at + jump, 0)
            out.append(index(x, slice(math.ceil(start), math.ceil(at))))
            at += jump
    return tuple(out)


@op
def HALVE(I, x):
    if not S(x):
        return None
    v = num(x)
    return sc(v // 2 if isinstance(v, int) else math.floor(v / 2))


@op
def HALVEUP(I, x):
    if not S(x):
        return None
    v = num(x)
    return sc(-(-v // 2) if isinstance(v, int) else math.ceil(v / 2))


@op
def IDENTITYMATRIX(I, x):
    if not S(x):
        return None
    n = toint(x)
    return tuple(tuple("1" if i == j else "0" for j in range(n))
                 for i in range(n))


@op
def IN(I, x, y):
    if listy(x) and S(y):
        return tuple(IN(I, i, y) for i in elems(x))
    if isinstance(x, P) and S(y):
        n = 0
        for m in x.regex().finditer(y):
            I.set_match(m)
            n += 1
        return str(n)
    if x is None and isinstance(y, (str, R)):
        return None
    if S(y):
        return str(y.count(x)) if S(x) else ""
    if isinstance(y, R):
        return sc(S(x) and y.low <= num(x)
                  and (y.hi is None or num(x) < y.hi))
    if isinstance(y, tuple):
        return str(sum(i == x for i in y))
    return "0"


def bounds(x, y, k):
    for v in (x, y):
        if v is not None and not S(v):
            return None
    return R(None if x is None else toint(x),
             None if y is None else toint(y) + k)


@op
def RANGE(I, x, y):
    if isinstance(x, P) and isinstance(y, P):
        x, y = x.wrap(), y.wrap()
        return P(x.raw + "|" + y.raw, x.flags | y.flags)
    return bounds(x, y, 0)


@op
def INCLRANGE(I, x, y):
    return bounds(x, y, 1)


@op
def RANGETO(I, x):
    if isinstance(x, P):
        return P(x.raw, x.flags ^ re.MULTILINE)
    return bounds(None, x, 0)


@op
def INCLRANGETO(I, x):
    return bounds("1", x, 1)


def casing(name, f):
    def g(I, x):
        if S(x):
            return f(x)
        return x if isinstance(x, R) else None
    TABLE[name] = g


casing("INITIALCAPS", lambda s: s[:1].title() + s[1:].lower())
casing("LOWERCASE", str.lower)
casing("UPPERCASE", str.upper)
casing("SWAPCASE", str.swapcase)
casing("TITLECASE", str.title)


@op
def INTDIV(I, x, y):
    if not S(x, y) or num(y) == 0:
        return None
    return sc(num(x) // num(y))


@op
def INVERT(I, x):
    if not S(x) or num(x) == 0:
        return None
    return sc(1 / num(x))


@op
def JOIN(I, x, sep=NA):
    if listy(sep):
        return tuple(JOIN(I, x, s) for s in elems(sep))
    if sep is not NA and not isinstance(sep, (str, P)):
        return None
    if not iterable(x):
        return None
    items = [JOIN(I, i, sep) if listy(i) else i for i in elems(x)]
    if not items:
        return ""
    r = items[0]
    for i in items[1:]:
        if sep is not NA:
            r = CAT(I, r, sep)
        r = CAT(I, r, i)
    return r


@op
def JOINWRAP(I, x, sep):
    if listy(sep):
        return tuple(JOINWRAP(I, x, s) for s in elems(sep))
    if not isinstance(sep, (str, P)) or not iterable(x):
        return None
    r = sep
    for i in elems(x):
        if listy(i):
            i = JOIN(I, i, sep)
        r = CAT(I, CAT(I, r, i), sep)
    return r


@op
def REGEX(I, x):
    return I.regex_of(x)


@op
def KLEENESTAR(I, x):
    if isinstance(x, P):
        x = x.wrap()
    elif isinstance(x, (str, R)):
        x = I.regex_of(x)
    else:
        return None
    return x.suffixed("*")


def slicer(mk):
    def g(I, x, y=NA):
        if isinstance(y, L):
            y = I.rval(y)
        if S(y) or y is NA:
            sl = mk(y)
            if isinstance(x, L):
                if isinstance(x.base, tuple):
                    return L(index(x.base, sl))
                return x.at(sl)
            return index(x, sl) if iterable(x) else None
        if listy(y):
            x = I.rval(x)
            return tuple(g(I, x, i) for i in elems(y))
        return None
    return g


TABLE["LEFTOF"] = slicer(lambda y: slice(None, -1 if y is NA else toint(y)))
TABLE["RIGHTOF"] = slicer(lambda y: slice(1 if y is NA else toint(y), None))


def size(v):
    return math.inf if isinstance(v, R) and not v.finite() else length(v)


@op
def LEN(I, x):
    if not iterable(x) or size(x) == math.inf:
        return None
    return str(length(x))


def lencmp(name, f):
    def g(I, x, y):
        if not iterable(x) or not iterable(y):
            return None
        return sc(f(size(x), size(y)))
    TABLE[name] = g


lencmp("LENEQUAL", lambda a, b: a == b)
lencmp("LENGREATER", lambda a, b: a > b)
lencmp("LENLESS", lambda a, b: a < b)


# stripping ----------------------------------------------------------------
def lstrip1(s, x):
    if x is NA:
        return s.lstrip()
    if S(x):
        k = 0
        while k < len(s) and s[k] in x:
            k += 1
        return s[k:]
    rx = re.compile(x.raw, x.flags)
    while True:
        m = rx.match(s)
        if not m or m.end() == 0:
            return s
        s = s[m.end():]


def rstrip1(s, x):
    if x is NA:
        return s.rstrip()
    if S(x):
        k = len(s)
        while k > 0 and s[k - 1] in x:
            k -= 1
        return s[:k]
    rx = re.compile("(?:" + x.raw + r")\Z", x.flags)
    while True:
        m = rx.search(s)
        if not m or m.start() == len(s):
            return s
        s = s[:m.start()]


def stripper(f):
    def g(I, s, x=NA):
        if x is None:
            return s
        if x is not NA and not iterable(x) and not isinstance(x, P):
            return None
        if listy(s):
            return tuple(g(I, i, x) for i in elems(s))
        if not S(s):
            return None
        if x is not NA and listy(x):
            for i in elems(x):
                s = g(I, s, i)
            return s
        if isinstance(x, P) and x.raw == "":
            return s
        return f(s, x)
    return g


TABLE["LSTRIP"] = stripper(lstrip1)
TABLE["RSTRIP"] = stripper(rstrip1)


# maps ---------------------------------------------------------------------
@op
def MAP(I, f, x):
    if isinstance(x, B) and iterable(f):
        f, x = x, f
    if not iterable(x):
        return None
    if isinstance(f, B):
        return tuple(I.call(f, [i]) for i in elems(x))
    if isinstance(f, tuple):
        return tuple(MAP(I, i, x) for i in f)
    return tuple(f for i in elems(x))


@op
def MAPCOORDS(I, f, x):
    if S(x):
        n, m = toint(x), toint(x)
    elif listy(x):
        if size(x) == 0:
            return None
        n, m = index(x, 0), index(x, 1)
        if not S(n, m):
            return None
        n, m = toint(n), toint(m)
    else:
        return None
    return tuple(tuple(I.call(f, [str(i), str(j)]) if isinstance(f, B) else f
                       for j in range(m)) for i in range(n))


@op
def MAPENUMERATE(I, f, x):
    a = fn_iter(f, x)
    return a and tuple(I.call(a[0], [str(k), i])
                       for k, i in enumerate(elems(a[1])))


@op
def MAPFLATTEN(I, f, x):
    return FLATTEN(I, MAP(I, f, x))


@op
def MAPJOIN(I, f, x):
    return JOIN(I, MAP(I, f, x))


@op
def MAPMAP(I, f, x):
    if isinstance(x, B) and iterable(f):
        f, x = x, f
    if not iterable(x):
        return None
    return tuple(MAP(I, f, i) for i in elems(x))


@op
def MAPPAIRS(I, f, x):
    a = fn_iter(f, x)
    if not a:
        return None
    items = elems(a[1])
    return tuple(I.call(a[0], [i, j]) for i, j in zip(items, items[1:]))


@op
def MAPREGEX(I, f, rx, s):
    if isinstance(rx, B):
        f, rx = rx, f
    elif isinstance(s, B):
        f, s = s, f
    if S(rx) and isinstance(s, P):
        rx, s = s, rx
    elif S(rx):
        rx = I.regex_of(rx)
    if not (isinstance(f, B) and isinstance(rx, P) and S(s)):
        return None
    return tuple(I.call(f, I.set_match(m)) for m in rx.regex().finditer(s))


@op
def MAPSUM(I, f, x):
    r = "0"
    for i in MAP(I, f, x) or ():
        r = I.rval(I.apply(OPS[2]["+"], [r, i]))
    return r


@op
def MAPUNPACK(I, f, x):
    a = fn_iter(f, x)

    def args(i):
        if isinstance(i, B) or isinstance(i, R) and not i.finite():
            return []
        return elems(i)
    return a and tuple(I.call(a[0], args(i)) for i in elems(a[1]))


@op
def MAPZIP(I, f, x, y):
    if isinstance(x, B) and iterable(f):
        f, x = x, f
    if not (iterable(x) and iterable(y) and isinstance(f, B)):
        return None
    n = min(size(x), size(y))
    if n == math.inf:
        raise Infinite
    return tuple(I.call(f, [i, j]) for i, j in
                 zip(I.lazy_elems(x, n), I.lazy_elems(y, n)))


def extreme(f):
    def g(I, x):
        if not iterable(x):
            return None
        items = elems(x)
        try:
            return f(items, key=V.tonum) if items else None
        except TypeError:
            return None
    return g


TABLE["MAX"] = extreme(max)
TABLE["MIN"] = extreme(min)


@op
def MOD(I, x, y="2"):
    if not S(x, y) or num(y) == 0:
        return None
    return sc(num(x) % num(y))


@op
def MUL(I, x, y):
    if S(x) and isinstance(y, P):
        x, y = y, x
    if S(x, y):
        return sc(num(x) * num(y))
    if isinstance(x, P) and S(y):
        return x.wrap().suffixed(f"{{{toint(y)}}}")
    return None


@op
def NEG(I, x):
    if S(x):
        return sc(-num(x))
    if isinstance(x, P):
        return P(x.raw, x.flags ^ re.IGNORECASE)
    return None


@op
def NOT(I, x):
    return sc(not truthy(x))


@op
def NOTIN(I, x, y):
    if listy(x) and S(y):
        return tuple(NOTIN(I, i, y) for i in elems(x))
    if isinstance(x, P) and S(y):
        return sc(not x.regex().search(y))
    if not S(x) and isinstance(y, (str, R)):
        return "1"
    return sc(IN(I, x, y) == "0")


# comparisons --------------------------------------------------------------
def span(r):
    return (r.low, math.inf if r.hi is None else r.hi)


def num_eq(x, y):
    if S(x, y):
        return num(x) == num(y)
    if isinstance(x, R) and isinstance(y, R):
        return span(x) == span(y)
    if listy(x) and listy(y):
        return size(x) == size(y) and all(map(num_eq, elems(x), elems(y)))
    return x == y


def num_lt(x, y):
    if S(x, y):
        return num(x) < num(y)
    if isinstance(x, R) and isinstance(y, R):
        return span(x) < span(y)
    if listy(x) and listy(y):
        n = min(size(x), size(y))
        for i, j in zip(lazy(x, n), lazy(y, n)):
            if num_lt(i, j):
                return True
            if num_lt(j, i):
                return False
        return size(x) < size(y)
    return False


def lazy(v, n):
    if isinstance(v, R) and not v.finite():
        return [str(v.low + k) for k in range(n)]
    return elems(v)


TABLE["NUMEQUAL"] = lambda I, x, y: sc(num_eq(x, y))
TABLE["NUMNOTEQUAL"] = lambda I, x, y: sc(not num_eq(x, y))
TABLE["NUMLESS"] = lambda I, x, y: sc(num_lt(x, y))
TABLE["NUMGREATER"] = lambda I, x, y: sc(num_lt(y, x))
TABLE["NUMCMP"] = lambda I, x, y: ("1" if num_lt(y, x)
                                   else "-1" if num_lt(x, y) else "0")
TABLE["OBJEQUAL"] = lambda I, x, y: sc(same(x, y))


def same(x, y):
    return type(x) is type(y) and x == y


TABLE["ONEGRID"] = grid(lambda r, c: "1")
TABLE["ZEROGRID"] = grid(lambda r, c: "0")


@op
def OUTPUT(I, x):
    x = I.rval(x)
    I.print(x, "")
    return x


@op
def PRINT(I, x):
    I.print(x)
    return x


def mirror(k):
    def g(I, x):
        if not iterable(x) or isinstance(x, R) and not x.finite():
            return None
        back = list(reversed(elems(x)))[k:]
        if S(x):
            return x + "".join(back)
        return tup(x) + tuple(back)
    return g


PALINDROMIZE = TABLE["PALINDROMIZE"] = mirror(1)


@op
def PERMUTATIONS(I, x):
    if not iterable(x):
        return None
    r = itertools.permutations(elems(x))
    return tuple("".join(p) for p in r) if S(x) else tuple(r)


@op
def PICK(I, x, k):
    k = I.rval(k)
    if not S(k):
        return None
    k = toint(k)
    v = I.rval(x)
    if not iterable(v) or size(v) == 0:
        return None
    if isinstance(v, R):
        if not v.finite() and k != 0:
            return None
        if not v.finite() or k % v.size() == 0:
            item, rest = str(v.low), R(v.low + 1, v.hi)
            store(I, x, rest)
            return item
        v = tup(v)
    k %= len(v)
    store(I, x, v[:k] + v[k + 1:])
    return v[k]


@op
def POP(I, x):
    v = I.rval(x)
    if not iterable(v) or size(v) == 0:
        return None
    if isinstance(v, R):
        item, rest = str(v.low), R(v.low + 1, v.hi)
    else:
        item, rest = v[0], v[1:]
    store(I, x, rest)
    return item


@op
def POS(I, x):
    if S(x):
        return sc(num(x))
    if isinstance(x, P):
        return x.wrap().suffixed("+")
    return x if isinstance(x, R) else None


@op
def POW(I, x, y=NA):
    if y is NA:
        x, y = "2", x
    if not S(x, y):
        return None
    x, y = num(x), num(y)
    try:
        r = power(x, y)
    except ZeroDivisionError:
        return None
    if x < 0 and int(y) != y:
        return None
    return sc(r)


@op
def POWEROFTEN(I, x, y=NA):
    if y is NA:
        x, y = "1", x
    return sc(num(x) * power(10, num(y))) if S(x, y) else None


def prefixer(mk):
    def g(I, x, y=NA):
        if isinstance(y, L):
            y = I.rval(y)
        if y is not NA and listy(y):
            x = I.rval(x)
            return tuple(g(I, x, i) for i in elems(y))
        if y is not NA and not S(y):
            return None
        sl = mk(y)
        if isinstance(x, L):
            if isinstance(x.base, tuple):
                return L(index(x.base, sl))
            return x.at(sl)
        return index(x, sl) if iterable(x) else None
    return g


PREFIX = TABLE["PREFIX"] = prefixer(
    lambda y: slice(None, -1 if y is NA else toint(y)))


def pusher(front):
    def g(I, x, item):
        item = I.rval(item)
        v = I.rval(x)
        if listy(v):
            v = (item,) + tup(v) if front else tup(v) + (item,)
        elif v is None:
            v = (item,)
        elif isinstance(v, (str, P)):
            t = V.show(item, I.fmt)
            v = CAT(I, t, v) if front else CAT(I, v, t)
        if isinstance(x, L) and not isinstance(x.base, tuple):
            I.assign(x, v)
            return x
        return v
    return g


TABLE["PUSH"] = pusher(True)
TABLE["PUSHBACK"] = pusher(False)


@op
def QUADPALINDROMIZE(I, x):
    r = PALINDROMIZE(I, x)
    return r if r is None else tuple(PALINDROMIZE(I, i) for i in elems(r))


@op
def QUADREFLECT(I, x):
    r = TABLE["REFLECT"](I, x)
    return r if r is None else tuple(TABLE["REFLECT"](I, i)
                                     for i in elems(r))


# randomness ---------------------------------------------------------------
@op
def RANDCHOICE(I, x):
    if not iterable(x):
        return None
    n = length(x)
    return index(x, I.randrange(0, n)) if n else None


@op
def RANDRANGE(I, x, y):
    if not S(y) or x is not None and not S(x):
        return None
    lo, hi = 0 if x is None else toint(x), toint(y)
    return str(I.randrange(lo, hi)) if lo < hi else None


@op
def RANDRANGETO(I, x):
    return RANDRANGE(I, "0", x) if S(x) else None


@op
def RECURSE(I, x):
    return I.call(I.frames[-1][1], [x])


def num_ge(x, y):
    if S(x, y):
        return num(x) >= num(y)
    if isinstance(x, R) and isinstance(y, R):
        return span(x) >= span(y)
    if listy(x) and listy(y):
        return not num_lt(x, y)
    return same(x, y)


TABLE["NUMGREATEREQ"] = lambda I, x, y: sc(num_ge(x, y))
TABLE["NUMLESSEQ"] = lambda I, x, y: sc(num_ge(y, x))


def str_eq(x, y):
    if isinstance(x, (str, P)) and isinstance(y, (str, P)):
        return V.show(x, None) == V.show(y, None)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(map(str_eq, x, y))
    return same(x, y)


def str_lt(x, y):
    if S(x, y):
        return x < y
    if isinstance(x, tuple) and isinstance(y, tuple):
        for i, j in zip(x, y):
            if str_lt(i, j):
                return True
            if str_lt(j, i):
                return False
        return len(x) < len(y)
    return False


def str_ge(x, y):
    if S(x, y):
        return x >= y
    if isinstance(x, tuple) and isinstance(y, tuple):
        return not str_lt(x, y)
    return same(x, y)


TABLE["STREQUAL"] = lambda I, x, y: sc(str_eq(x, y))
TABLE["STRNOTEQUAL"] = lambda I, x, y: sc(not str_eq(x, y))
TABLE["STRLESS"] = lambda I, x, y: sc(str_lt(x, y))
TABLE["STRGREATER"] = lambda I, x, y: sc(str_lt(y, x))
TABLE["STRGREATEREQ"] = lambda I, x, y: sc(str_ge(x, y))
TABLE["STRLESSEQ"] = lambda I, x, y: sc(str_ge(y, x))
TABLE["REFLECT"] = mirror(0)


@op
def REPEATLIST(I, x, y):
    x = as_items(x)
    if x is NA or not S(y):
        return None
    too_big(len(x) * toint(y))
    return x * toint(y)


def as_list(v):
    return tup(v) if isinstance(v, R) else v


@op
def REPLACE(I, x, old, new):
    x, old, new = as_list(x), as_list(old), as_list(new)
    if S(old) and isinstance(new, (P, B)):
        old = I.regex_of(old)
    if not iterable(x) or not (iterable(old) or isinstance(old, P)):
        return None
    if isinstance(x, tuple):
        return tuple(REPLACE(I, i, old, new) for i in x)
    if isinstance(old, tuple):
        for k, o in enumerate(old):
            if isinstance(new, tuple):
                n = new[k] if k < len(new) else None
            else:
                n = new
            x = REPLACE(I, x, o, n)
        return x
    if isinstance(old, P):
        if isinstance(new, P):
            return old.regex().sub(new.replacement(), x)
        if isinstance(new, B):
            def by(m):
                return V.show(I.call(new, I.set_match(m)), I.fmt)
        else:
            text = V.show(new, I.fmt)

            def by(m):
                return text
        return old.regex().sub(by, x)
    return x.replace(old, V.show(new, I.fmt))


@op
def REPLACEAT(I, x, k, new):
    from .interp import set_item
    if iterable(x) and iterable(k):
        x = as_list(x)
        if isinstance(k, tuple):
            if new == ():
                return x
            for n, i in enumerate(k):
                x = REPLACEAT(I, x, i, new[n % len(new)]
                              if isinstance(new, tuple) else new)
            return x
        k = toint(k) if S(k) else slice(k.lo, k.hi)
        try:
            return set_item(x, k, new, I.fmt)
        except (IndexError, ZeroDivisionError):
            return x
    return x if k is None else None


@op
def REMOVE(I, x, y):
    if S(x):
        if S(y):
            return x.replace(y, "")
        if isinstance(y, P):
            return y.regex().sub("", x)
        if listy(y):
            for i in elems(y):
                x = REMOVE(I, x, i)
            return V.show(x, None)
        return x if y is None else None
    if listy(x):
        return tuple(i for i in elems(x) if not same(i, y))
    return None


@op
def REPR(I, x):
    return V.rep(x)


@op
def STR(I, x):
    return V.show(x, I.fmt)


@op
def REVERSE(I, x):
    if S(x):
        return x[::-1]
    if listy(x) and size(x) != math.inf:
        return tup(x)[::-1]
    return None


@op
def ROOT(I, x, y):
    if not S(x, y):
        return None
    x, y = num(x), num(y)
    if x == 0 or y < 0 and int(1 / x) != 1 / x:
        return None
    try:
        return sc(y ** (1 / x))
    except ZeroDivisionError:
        return None


def nearest(v, p):
    if isinstance(v, int) and isinstance(p, int):
        return round(Fraction(v, p)) * p
    if p == 1:
        return math.floor(v) if math.remainder(v, 1) > 0 else math.ceil(v)
    return v - math.remainder(v, p)


@op
def ROUNDNEAREST(I, x, y=NA):
    if not S(x) or y is not NA and not S(y):
        return None
    p = 1 if y is NA else abs(num(y))
    return x if p == 0 else sc(nearest(num(x), p))


TABLE["ROUNDZERO"] = rounder(math.trunc)


@op
def RVALAND(I, x, y):
    return y if truthy(x) else x


@op
def RVALOR(I, x, y):
    return x if truthy(x) else y


@op
def RVALIFTE(I, t, x, y):
    return x if truthy(t) else y


@op
def SEND(I, head, *tail):
    h = I.rval(head) if isinstance(head, L) else head
    if isinstance(h, B):
        return I.call(h, tail)
    if isinstance(head, L):
        h = head
    elif not iterable(h):
        return None
    for k in tail:
        h = AT(I, h, k)
    return h


@op
def SHUFFLE(I, x):
    if not iterable(x):
        return None
    items = list(elems(x))
    for k in range(len(items) - 1, 0, -1):
        j = I.randrange(0, k + 1)
        items[k], items[j] = items[j], items[k]
    return "".join(items) if S(x) else tuple(items)


@op
def SIGN(I, x):
    if not S(x):
        return None
    v = num(x)
    return str((v > 0) - (v < 0))


@op
def SPLIT(I, x, sep=NA):
    if sep is not NA and not isinstance(sep, (str, P)) or not S(x):
        return None
    if sep is NA or sep == "" or isinstance(sep, P) and sep.raw == "":
        return tuple(x)
    if isinstance(sep, P):
        return tuple(re.compile(sep.raw, sep.flags).split(x))
    return tuple(x.split(sep))


@op
def SPLITAT(I, x, at):
    if S(at):
        at = [toint(at)]
    elif isinstance(at, R):
        at = [int(i) for i in elems(at)]
    elif isinstance(at, tuple):
        if not all(map(S, at)):
            return None
        at = [toint(i) for i in at]
    else:
        return None
    if not iterable(x):
        return None
    n = length(x)
    cuts = [0] + [i for i in range(n) if i in at or i - n in at] + [n]
    return tuple(index(x, slice(a, b)) for a, b in zip(cuts, cuts[1:]))


@op
def SQRT(I, x):
    return sc(num(x) ** 0.5) if S(x) and num(x) >= 0 else None


@op
def STRMUL(I, x, y):
    if not S(y):
        return None
    if S(x):
        too_big(len(x) * toint(y))
        return x * toint(y)
    return P(x.raw * toint(y), x.flags) if isinstance(x, P) else None


@op
def SUB(I, x, y):
    if S(x, y):
        return sc(num(x) - num(y))
    if isinstance(x, R) and S(y):
        if num(y) == toint(y):
            return shift_range(x, -toint(y))
        return tuple(SUB(I, i, y) for i in elems(x))
    if S(x) and isinstance(y, R):
        return tuple(SUB(I, x, i) for i in elems(y))
    return None


def suffix_slice(y):
    n = -1 if y is NA else toint(y)
    return slice(0, 0) if n == 0 else slice(-n, None)


TABLE["SUFFIX"] = prefixer(suffix_slice)
TABLE["STRIP"] = stripper(lambda s, x: rstrip1(lstrip1(s, x), x))


@op
def SWAP(I, x, y):
    a, b = I.rval(x), I.rval(y)
    if isinstance(x, L):
        I.assign(x, b)
    if isinstance(y, L):
        I.assign(y, a)
    return x


DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def digits(n, b):
    out = []
    while n:
        n, d = divmod(n, b)
        out.append(d)
    return out[::-1]


@op
def TOBASE(I, x, y="2"):
    if not S(x, y) or not 2 <= toint(y) <= 36:
        return None
    n = toint(x)
    if n == 0:
        return "0"
    return ("-" * (n < 0)
            + "".join(DIGITS[d] for d in digits(abs(n), toint(y))))


@op
def TODIGITS(I, x, y="2"):
    if listy(x):
        return tuple(TODIGITS(I, i, y) for i in elems(x))
    if not S(x, y) or toint(y) < 2:
        return None
    n = toint(x)
    return tuple(str(-d if n < 0 else d) for d in digits(abs(n), toint(y)))


@op
def TRANSLITERATE(I, x, old, new):
    if listy(x):
        return tuple(TRANSLITERATE(I, i, old, new) for i in elems(x))
    if not (S(x) and iterable(old) and iterable(new)):
        return None
    n = min(size(old), size(new))
    if n == math.inf:
        return None
    table = {}
    for a, b in zip(lazy(old, n), lazy(new, n)):
        if not S(a) or b is not None and not S(b):
            continue
        a = ord(a) if S(old) else num(a)
        if b is not None:
            b = ord(b) if S(new) else toint(b)
            if not 0 <= b <= 0x10ffff:
                continue
        table[a] = b
    out = ""
    for c in x:
        to = table.get(ord(c), ord(c))
        out += "" if to is None else chr(to)
    return out


@op
def TRIM(I, x, y=NA):
    if isinstance(x, R):
        return tuple(TRIM(I, i, y) for i in elems(x))
    if y is None:
        return x
    if y is NA:
        a = b = 1
    elif S(y):
        a = b = toint(y)
    elif isinstance(y, R):
        a, b = y.low, y.hi or 0
    else:
        return None
    if not S(x):
        return None
    a, b = max(a, 0), max(b, 0)
    return x[a:max(len(x) - b, 0)]


@op
def UNIQUE(I, x):
    if x is None or isinstance(x, R):
        return x
    if not iterable(x):
        return None
    out = []
    for i in elems(x):
        if not any(same(i, j) for j in out):
            out.append(i)
    return "".join(out) if S(x) else tuple(out)


@op
def UNWEAVE(I, x, n="2"):
    if not iterable(x) or size(x) == math.inf or not S(n) or toint(n) < 1:
        return None
    items, n = elems(x), toint(n)
    out = [items[k::n] for k in range(n)]
    return tuple("".join(i) if S(x) else tuple(i) for i in out)


@op
def WEAVE(I, x, y=NA):
    if y is NA:
        if S(x):
            return x
        if not listy(x):
            return None
        its = elems(x)
    else:
        its = [x, y]
    its = ["" if i is None else i for i in its]
    if not all(map(iterable, its)):
        return None
    n = max(map(length, its), default=0)
    out = [index(i, k) for k in range(n) for i in its if k < length(i)]
    return "".join(out) if all(map(S, its)) else tuple(out)


@op
def WRAP(I, x, y):
    if isinstance(x, (str, P)) and isinstance(y, (str, P)):
        return CAT(I, CAT(I, y, x), y)
    return None


@op
def YANK(I, x):
    lv = L("y")
    I.assign(lv, x)
    return lv


@op
def YANKOUTPUT(I, x):
    OUTPUT(I, x)
    return YANK(I, x)


@op
def YANKPRINT(I, x):
    PRINT(I, x)
    return YANK(I, x)


@op
def ZIP(I, x, y=NA):
    if y is NA and not iterable(x):
        return None
    lists = elems(x) if y is NA else [x, y]
    if not all(map(iterable, lists)):
        return None
    n = min(map(size, lists), default=0)
    if n == math.inf:
        raise Infinite
    return tuple(zip(*[lazy(i, n) for i in lists]))


@op
def ZIPDEFAULT(I, x, fill=""):
    if not iterable(x):
        return None
    lists = elems(x)
    if not all(map(iterable, lists)):
        return None
    return tuple(itertools.zip_longest(*map(elems, lists), fillvalue=fill))


@op
def ZIPJOIN(I, x, y=NA):
    if y is NA and not iterable(x):
        return None
    if y is NA:
        lines = x.split("\n") if S(x) else elems(x)
    else:
        lines = [x, y]
    lines = [i if iterable(i) else V.show(i, None) for i in lines]
    cols = [JOIN(I, c) for c in
            itertools.zip_longest(*map(elems, lines), fillvalue=" ")]
    if y is NA and S(x):
        return JOIN(I, tuple(cols), "\n")
    return tuple(cols)
