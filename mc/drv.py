"""Driver: run programs on the real interpreter and on the reference."""
import builtins
import io
import random
import signal
import sys

from . import env
from .env import ptypes, scanning, parsing, execution, errors
from .ref import values as V
from .ref.interp import Interp, Fatal, Diverge, make_block
from .ref.parse import parse as ref_parse, Incomplete, Bad
from .ref.values import Infinite, R, P, B

OK, FATAL, CRASH, SYNTAX = "ok", "fatal", "crash", "syntax"


class Timeout(BaseException):
    pass


class Skip(Exception):
    """The reference does not judge this case."""


class Outcome:
    __slots__ = ("kind", "out", "err", "detail")

    def __init__(self, kind, out, err="", detail=""):
        self.kind, self.out, self.err, self.detail = kind, out, err, detail

    @property
    def key(self):
        """What is compared: the outcome class and everything printed."""
        k = FATAL if self.kind == CRASH else self.kind
        return (k, self.out)

    def __repr__(self):
        s = f"{self.kind}: stdout={self.out!r}"
        if self.detail:
            s += f" ({self.detail})"
        return s


class Console:
    """Replaces sys.stdin/stdout/stderr while the real code runs."""

    def __init__(self, stdin=""):
        self.inp = io.StringIO(stdin)
        self.out = io.StringIO()
        self.err = io.StringIO()

    def __enter__(self):
        self.saved = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout, sys.stderr = self.inp, self.out, self.err
        return self

    def __exit__(self, *exc):
        sys.stdin, sys.stdout, sys.stderr = self.saved


def detail(e):
    return f"{type(e).__name__}: {e}"[:300]


_tree_cache = {}


def real_tree(src):
    t = _tree_cache.get(src)
    if t is None:
        if len(_tree_cache) > 20000:
            _tree_cache.clear()
        t = _tree_cache[src] = parsing.parse(scanning.scan(src))
    return t


IMPL = [0]           # executions of the implementation
LAST = [0]           # hash of the last outcome
KINDS = {}           # outcome kind -> number of executions


def run_real(src, args=(), fmt=None, stdin="", warn=False, cache=False):
    """Run a program (source text) with Pip values as arguments."""
    IMPL[0] += 1
    o = _run_real(src, args, fmt, stdin, warn, cache)
    LAST[0] = hash(o.key)
    KINDS[o.key[0]] = KINDS.get(o.key[0], 0) + 1
    return o


def _run_real(src, args, fmt, stdin, warn, cache):
    with Console(stdin) as c:
        try:
            tree = (real_tree(src) if cache
                    else parsing.parse(scanning.scan(src)))
        except errors.FatalError as e:
            return Outcome(SYNTAX, "", c.err.getvalue(), detail(e))
        try:
            execution.ProgramState(fmt, warn).executeProgram(tree, list(args))
            kind, d = OK, ""
        except errors.FatalError as e:
            kind, d = FATAL, detail(e)
        except Timeout:
            raise
        except RecursionError as e:
            kind, d = FATAL, detail(e)
        except Exception as e:
            kind, d = CRASH, detail(e)
    return Outcome(kind, c.out.getvalue(), c.err.getvalue(), d)


_ref_cache = {}


def ref_tree(src):
    t = _ref_cache.get(src)
    if t is None:
        if len(_ref_cache) > 20000:
            _ref_cache.clear()
        t = _ref_cache[src] = ref_parse(src)
    return t


IN_REF = [False]
REF_CPU = 1.0        # the reference gives up (the case is not judged)
GUARD = [0.0]        # CPU limit of the current case, if there is one
STEPS = [0]          # reference evaluation steps taken by this process


def run_ref(src, args=(), fmt=None, stdin="", budget=20000, chooser=None):
    """Run a program on the reference.  Raises Skip if it is not judged."""
    try:
        tree = ref_tree(src)
    except (Incomplete, Bad) as e:
        return Outcome(SYNTAX, "", "", repr(e))
    lines = stdin.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    it = Interp(fmt, lines, budget)
    it.chooser = chooser
    IN_REF[0] = True
    # the reference has no limit on integers, whatever the program set
    digits = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    if GUARD[0]:
        signal.setitimer(signal.ITIMER_PROF, REF_CPU)
    try:
        it.run_program(tree, args)
        kind, d = OK, ""
    except Infinite:
        raise Skip
    except (RecursionError, Timeout):
        raise Skip
    except Fatal as e:
        kind, d = FATAL, detail(e)
    except MemoryError:
        raise Skip
    except Exception as e:
        kind, d = FATAL, detail(e)
    finally:
        if GUARD[0]:
            signal.setitimer(signal.ITIMER_PROF, GUARD[0])
        STEPS[0] += budget - it.budget
        IN_REF[0] = False
        sys.set_int_max_str_digits(digits)
    return Outcome(kind, it.output(), "", d)


# values ---------------------------------------------------------------
class Val:
    """A Pip value given by source text, built on both sides."""
    __slots__ = ("src", "ref")
    cache = {}

    def __init__(self, src):
        self.src = src
        it = Interp()
        from .ref.parse import parse
        self.ref = it.rval(parse(src)[0])

    @property
    def real(self):
        return build_real(self.ref)

    def __repr__(self):
        return f"<{self.src}>"


def val(src):
    v = Val.cache.get(src)
    if v is None:
        v = Val.cache[src] = Val(src)
    return v


def build_real(v):
    """A real Pip value equal to a reference value (fresh objects)."""
    if isinstance(v, str):
        return ptypes.Scalar(v)
    if isinstance(v, tuple):
        return ptypes.List([build_real(i) for i in v])
    if v is None:
        return ptypes.nil
    if isinstance(v, R):
        return ptypes.Range(v.lo, ptypes.nil if v.hi is None else v.hi)
    if isinstance(v, P):
        return ptypes.Pattern(v.raw, v.flags)
    tree = parsing.parse(scanning.scan(V.rep(v)))
    return execution.ProgramState().evaluate(tree[0])
