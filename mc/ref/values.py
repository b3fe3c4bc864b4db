"""Reference value domain: immutable Python values.

Scalar -> str,  List -> tuple,  nil -> None,
Range -> R(lo, hi),  Pattern -> P(raw, flags),  Block -> B(stmts, ret).
"""
import re


class Infinite(Exception):
    """Iterating over an infinite Range: the case is not judged."""


class R:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return type(o) is R and (self.lo, self.hi) == (o.lo, o.hi)

    def __hash__(self):
        return hash(("R", self.lo, self.hi))

    def __repr__(self):
        return f"R({self.lo},{self.hi})"

    @property
    def low(self):
        return self.lo or 0

    def finite(self):
        return self.hi is not None

    def size(self):
        if self.hi is None:
            raise ValueError("infinite")
        return max(0, self.hi - self.low)

    def items(self):
        if self.hi is None:
            raise Infinite
        return [str(i) for i in range(self.low, self.hi)]


class P:
    __slots__ = ("raw", "flags")

    def __init__(self, raw, flags=0):
        self.raw, self.flags = raw, int(flags)

    def __eq__(self, o):
        return type(o) is P and (self.raw, self.flags) == (o.raw, o.flags)

    def __hash__(self):
        return hash(("P", self.raw, self.flags))

    def __repr__(self):
        return f"P({self.raw!r},{self.flags})"

    def wrap(self):
        if len(self.raw) > 1 or self.raw in ("^", "$", "|"):
            return P(f"(?:{self.raw})", self.flags)
        return self

    def suffixed(self, text):
        return P(self.raw + text, self.flags) if self.raw else self

    def regex(self):
        return re.compile(self.raw, self.flags)

    def replacement(self):
        out = ""
        s = self.raw
        i = 0
        while i < len(s):
            if s[i] == "\\" and i + 1 < len(s):
                d = s[i + 1]
                if d == "&":
                    out += "&"
                    i += 2
                else:
                    out += s[i:i + 2]
                    i += 2
            elif s[i] == "&":
                out += "\\g<0>"
                i += 1
            else:
                out += s[i]
                i += 1
        return out


class B:
    __slots__ = ("stmts", "ret")

    def __init__(self, stmts, ret):
        self.stmts, self.ret = tuple(stmts), ret

    def __eq__(self, o):
        return (type(o) is B and akey(self.stmts) == akey(o.stmts)
                and akey(self.ret) == akey(o.ret))

    def __hash__(self):
        return hash(rep(self))

    def __repr__(self):
        return rep(self)


def akey(x):
    """Hashable comparison key of an AST."""
    if hasattr(x, "key") and not isinstance(x, tuple):
        return x.key()
    if isinstance(x, tuple):
        return tuple(akey(i) for i in x)
    return x


def iterable(v):
    return isinstance(v, (str, tuple, R))


def listy(v):
    return isinstance(v, (tuple, R))


# numbers ---------------------------------------------------------------
_EXP = r"(?:e[+-]\d+)"
_FLOAT = re.compile(rf"-?(?:\d+\.\d*{_EXP}?|\d+{_EXP}|\.\d+{_EXP}?)")
_INT = re.compile(r"-?\d+")


def num(s):
    """Numeric value of a Scalar."""
    t = s.lstrip()
    m = _FLOAT.match(t)
    if m:
        return float(m.group())
    m = _INT.match(t)
    return int(m.group()) if m else 0


def toint(v):
    """Integer value of a Scalar (prefix)."""
    if not isinstance(v, str):
        raise TypeError("int()")
    m = _INT.match(v.lstrip())
    return int(m.group()) if m else 0


def sc(x):
    """Python number/bool/str -> Scalar."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, complex):
        raise TypeError("complex")
    if isinstance(x, float) and str(x).endswith(".0"):
        return str(int(x))
    return str(x)


def tonum(v):
    """toNumber() of any value."""
    if isinstance(v, str):
        return num(v)
    if isinstance(v, tuple):
        return [tonum(i) for i in v]
    if isinstance(v, R):
        return [int(i) for i in v.items()] if v.finite() else []
    return 0


def truthy(v):
    if isinstance(v, str):
        if v == "":
            return False
        # some form of zero: zeros with at most one dot, at least one zero
        if v.strip("0.") == "" and v.count(".") <= 1 and "0" in v:
            return False
        return True
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, R):
        return not v.finite() or v.size() > 0
    if isinstance(v, P):
        return v.raw != ""
    if v is None:
        return False
    return bool(v.stmts) or v.ret is not None


# representation --------------------------------------------------------
def rep(v):
    if isinstance(v, str):
        m = re.fullmatch(r"(-?)(\d+(?:\.\d+)?)", v)
        if m and (not m.group(1) or sc(-num(m.group(2))) == v):
            return v
        if '"' in v:
            return '\\"' + v.replace("\\", "\\\\") + '\\"'
        return '"' + v + '"'
    if isinstance(v, tuple):
        return "[" + ";".join(map(rep, v)) + "]"
    if isinstance(v, R):
        return (f"({'()' if v.lo is None else v.lo},"
                f"{'()' if v.hi is None else v.hi})")
    if isinstance(v, P):
        f = ""
        for bit, ch in ((re.ASCII, "A"), (re.IGNORECASE, "-"),
                        (re.MULTILINE, ","), (re.DOTALL, ".")):
            if v.flags & bit:
                f += ch
        return f + "`" + v.raw.replace("`", "\\`") + "`"
    if v is None:
        return "()"
    from .parse import unparse
    stmts = v.stmts + (() if v.ret is None else (v.ret,))
    return "{" + unparse(stmts) + "}"


def joined(v, sep):
    if isinstance(v, R) and v.finite():
        v = tuple(v.items())
    if isinstance(v, tuple):
        return sep.join(joined(i, sep) for i in v)
    return show(v, None)


def show(v, fmt):
    """str() of a value under output format fmt."""
    if isinstance(v, R) and v.finite():
        v = tuple(v.items())
    if isinstance(v, tuple):
        if not fmt:
            return "".join(show(i, fmt) for i in v)
        if fmt == "p":
            return rep(v)
        if fmt == "n":
            return "\n".join(show(i, fmt) for i in v)
        if fmt == "s":
            return " ".join(show(i, fmt) for i in v)
        if fmt == "P":
            return "\n".join(rep(i) for i in v)
        return "\n".join(joined(i, "" if fmt == "l" else " ") for i in v)
    if isinstance(v, str):
        return v
    if v is None:
        return ""
    if isinstance(v, P):
        return v.raw
    return rep(v)


# indexing --------------------------------------------------------------
def cyclic_slice(seq, start, stop):
    """Slice an indexable sequence that repeats forever in both
    directions."""
    n = len(seq)
    if n == 0:
        return seq
    start = 0 if start is None else start
    stop = n if stop is None else stop
    if start < 0:
        start += n
    if stop < 0:
        stop += n
    if start >= stop:
        return seq[:0]
    idx = [seq[i % n] for i in range(start, stop)]
    return "".join(idx) if isinstance(seq, str) else tuple(idx)


def index(v, ix):
    """v @ ix where ix is an int or a slice.  IndexError if empty."""
    if isinstance(v, (str, tuple)):
        if isinstance(ix, slice):
            return cyclic_slice(v, ix.start, ix.stop)
        if isinstance(ix, int):
            if len(v) == 0:
                raise IndexError
            return v[ix % len(v)]
        raise TypeError("index")
    if isinstance(v, R):
        if isinstance(ix, int):
            if v.finite():
                if v.size() == 0:
                    raise IndexError
                return str(v.low + ix % v.size())
            return None if ix < 0 else str(v.low + ix)
        if isinstance(ix, slice):
            if v.finite():
                n = v.size()
                if n == 0:
                    return v
                start = 0 if ix.start is None else ix.start
                stop = n if ix.stop is None else ix.stop
                if start >= -n and stop <= n:
                    r = range(v.low, v.hi)[start:stop]
                    return R(r.start, r.stop)
                return cyclic_slice(tuple(v.items()), start, stop)
            if (ix.start or 0) < 0 or (ix.stop or 0) < 0:
                return None
            lo = v.lo if ix.start is None else v.low + ix.start
            hi = None if ix.stop is None else v.low + ix.stop
            return R(lo, hi)
        raise TypeError("index")
    raise TypeError("not indexable")


def mkrange(lo, hi):
    """The `,` operator on Scalars / nil."""
    lo = toint(lo) if isinstance(lo, str) else lo
    hi = toint(hi) if isinstance(hi, str) else hi
    return R(lo, hi)


def elems(v):
    """Iterate a value (Python iter() on the Pip value)."""
    if isinstance(v, str):
        return list(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, R):
        return v.items()
    if isinstance(v, P):
        return list(v.raw)
    if v is None:
        return []
    raise TypeError("not iterable")


def length(v):
    if isinstance(v, R):
        return v.size()
    if isinstance(v, P):
        return len(v.raw)
    if isinstance(v, (str, tuple)):
        return len(v)
    raise TypeError("no len")
