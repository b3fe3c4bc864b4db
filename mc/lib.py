"""Building blocks shared by the property modules."""
import itertools

from . import drv
from .drv import Skip, run_real, run_ref, val
from .explore import Sweep, Violation  # noqa: F401
from .ref.table import OPS, ALLOPS, COMMANDS  # noqa: F401

RANDOM_FNS = {"RANDCHOICE", "SHUFFLE", "RANDRANGE", "RANDRANGETO"}

# One representative per behaviourally different kind of value.
SCALARS = ['0', '1', '-1', '2', '3.5', '""', '"a"', '"abc"', '" "',
           '"a b"', '-2', '10', '"12"']
LISTS = ['[]', '[1;2;3]', '[3;"b"]', '["ab";[1;2]]', '[0;1]',
         '[[1;2];[3;4]]']
RANGES = ['0,3', '2,5', '(1,())', '3,1']
OTHERS = ['()', '`a`', '`b+`', '{a+1}', '{_}']
VALUES = SCALARS + LISTS + RANGES + OTHERS
SMALL = ['0', '2', '-1', '3.5', '""', '"ab"', '[]', '[1;2]', '["b";[3]]',
         '1,4', '()', '`a`', '{a+1}']


def diff(src, args=(), fmt="p", stdin="", budget=20000, argv=None):
    """Implementation vs reference on one program.  None if they agree."""
    r = run_ref(src, [val(a).ref for a in args], fmt, stdin, budget)
    o = run_real(src, [val(a).real for a in args], fmt, stdin)
    if o.key != r.key:
        a = f" args {list(args)}" if args else ""
        i = f" stdin {stdin!r}" if stdin else ""
        return (f"program {src!r}{a}{i} (list format {fmt})\n"
                f"expected {r!r}\nobserved {o!r}")
    return None


def differential(name, cases, bound, fmt="p", stdin="", budget=20000):
    """Sweep of (program, args) or program cases against the reference."""
    def judge(case):
        if isinstance(case, str):
            return diff(case, (), fmt, stdin, budget)
        return diff(case[0], case[1], *(case[2:] or (fmt,)), stdin=stdin,
                    budget=budget)
    return Sweep(name, cases, judge, bound)


def product(*its, repeat=1):
    return itertools.product(*its, repeat=repeat)


def seqs(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def ops_by_fn(*fns):
    """(arity, operator text) of the operators with these functions."""
    return [(ar, t) for ar in (1, 2, 3) for t, o in OPS[ar].items()
            if o.fn in fns]


def diffv(src, args, fmt="p", stdin="", budget=20000, cache=True):
    """diff() with reference values as arguments."""
    r = run_ref(src, args, fmt, stdin, budget)
    o = run_real(src, [drv.build_real(a) for a in args], fmt, stdin,
                 cache=cache)
    if o.key != r.key:
        return (f"program {src!r} args {[drv.V.rep(a) for a in args]} "
                f"(list format {fmt})\nexpected {r!r}\nobserved {o!r}")
    return None


def deterministic(arity, *fns):
    """Operator texts of an arity, without random and I/O ones."""
    return [t for t, o in sorted(OPS[arity].items())
            if o.fn not in RANDOM_FNS and (not fns or o.fn in fns)]


def texts(arity, *fns):
    found = {o.fn for o in OPS[arity].values()}
    assert set(fns) <= found, set(fns) - found
    return [t for t, o in sorted(OPS[arity].items()) if o.fn in fns]


def unary(ts, pool, form="RP({} a)"):
    for t in ts:
        src = form.format(t)
        for v in pool:
            yield (src, (v,))


def binary(ts, p1, p2=None, form="RP(a {} b)"):
    for t in ts:
        src = form.format(t)
        for v in p1:
            for w in (p1 if p2 is None else p2):
                yield (src, (v, w))


def ternary(ts, p1, p2, p3, form="RP(a {} b c)"):
    for t in ts:
        src = form.format(t)
        for v in p1:
            for w in p2:
                for x in p3:
                    yield (src, (v, w, x))


def chain(*gens):
    """A case generator that concatenates generators."""
    def g():
        for x in gens:
            yield from (x() if callable(x) else x)
    return g


def lit(s):
    """Pip source for a Scalar with these characters."""
    if '"' not in s:
        return '"' + s + '"'
    return '\\"' + s.replace("\\", "\\\\") + '\\"'


# Operands of a size that small enumerations do not reach.
LARGE = ['"ab"X150', '("ab1 -"X80)."z"', '^("ab1"X100)', '0,300',
         '(0,300)AE 7', '-150,150', '(0,40)RL 8', '[[1;2];"ab"]RL 150',
         '[[[[[[[[[[[[[5];6]]]]]]]]]]]]', '2E70', '1-2E70', '[0,20]RL 20',
         '12345.0625', '0.0009765625', '"é😀\r\n\t\x00\u2028\x85"',
         '1X300', '"1.5,"X90', '(1,200).".5"', '("b"X300)AE("a"X300)',
         '^("9,10,"X80)', '"x\ny"X100', '(0,65)RL 4', '`ab`X20',
         '(1,20)M{a.""}', '("xyz"X9).^"abcdef"']
WITH = ['2', '"a"', '-1', '[1;2]', '{a}', '257', '()', '`b`', '0,300',
        '"ab"X150', '""', '^("ab1"X100)', '2E70', '0.5', '_', '63,66', '-1E19',
        '[255;256]', '299']
HEAVY = {"PERMUTATIONS", "CARTESIANPRODUCT", "COMBINATIONS",
         "COORDINATEGRID", "ONEGRID", "ZEROGRID", "MAPSUM", "IDENTITYMATRIX",
         "MAPCOORDS", "POW", "POWEROFTEN", "EXPONENTIAL"}


def large(*fns, both=True):
    """Cases: the deterministic operators with these functions (all, if
    none is given) on operands of several hundred items or characters."""
    def ok(o):
        return (o.fn not in RANDOM_FNS and o.fn not in HEAVY
                and o.fn not in ("RECURSE",) and (not fns or o.fn in fns))
    for t, o in sorted(OPS[1].items()):
        if ok(o):
            for v in LARGE:
                yield (f"RP({t} a)", (v,))
    for t, o in sorted(OPS[2].items()):
        if ok(o):
            sized = o.fn in ("LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX", "CHOP",
                             "UNWEAVE")
            for v in LARGE:
                for w in WITH:
                    if not (sized and w == "2E70"):
                        yield (f"RP(a {t} b)", (v, w))
                    if (both and w not in LARGE and not
                            (sized and v in ("2E70", "1-2E70", "1X300"))):
                        yield (f"RP(b {t} a)", (v, w))
    for t, o in sorted(OPS[3].items()):
        if ok(o):
            for v in LARGE:
                for w in ("2", '"a"', "`b`", "[1;2]", "0,300", '"ab"', "()"):
                    for x in ('"x"', "{a}", "0,300", '["p";"q"]', "()"):
                        yield (f"RP(a {t} b c)", (v, w, x))


def large_sweep(*fns, both=True):
    return differential("large", lambda: large(*fns, both=both),
                        f"operands of {len(LARGE)} large kinds x {len(WITH)}")


# Small trees: every kind of atom in every small arrangement of lists.
def trees(deep=False):
    atoms = ['1', '-2', '"a"', '"ab c"', '""', '()', '1,3', '2,2', '0.5',
             '{a}', '`a`', '"10"']
    subs = ["[]", "[1]", "[2;3]", "[1;2;3;4]", '"abcd"', "(0,5)", "2,2", "()",
            "[[4;5];6]", "[[]]", '["";"b"]', '"a b"']
    out = atoms + ["[" + ";".join(t) + "]" for t in
                   itertools.chain(seqs(atoms, 0, 1), seqs(atoms[:9], 2, 2),
                                   seqs(['1', '"b"', '""', '[]', '1,3'], 3,
                                        4 if deep else 3),
                                   seqs(subs, 1, 2),
                                   seqs(subs if deep else subs[:6], 3, 3))]
    for n in range(3, 9):
        out += ["[" + ";".join("51423687"[:n]) + "]", f"0,{n}", f"-1,{n}",
                '"' + "abcdabce"[:n] + '"', '"' + "1204"[:n] + '"',
                "[" + ";".join(["[1;2]", '"ab"', "3", "[]", "()", "0,2",
                                '"c"', "[4]"][:n]) + "]",
                "[" + ";".join(["[1;2;0;4]", "[1;2;0;3]", "[1;1;9]",
                                "[1;2;0]", "[]", "[1]", "[0;9]",
                                "[1;2;0;3]"][:n]) + "]",
                '"' + "a b  c \t"[:n] + '"', '"' + ",a,,b,c,"[:n] + '"']
    return list(dict.fromkeys(out))


def grouped(name, cases, desc):
    """Cases (expressions, args): the expressions are run in one program, and
    each on its own if that differs."""
    def judge(case):
        exprs, args = case
        whole = "RP[" + ";".join(f"({e})" for e in exprs) + "]"
        try:
            if diff(whole, args) is None:
                return None
        except Skip:
            pass
        for e in exprs:
            try:
                bad = diff(f"RP({e})", args)
            except Skip:
                continue
            if bad:
                return bad
        return diff(whole, args)
    return Sweep(name, cases, judge, desc)


TREEWITH = ['2', '-1', '"a"', '[]', '[1;0]', '()', '0,3', '[[1];2]', '3.5',
            '[4;3;2;1]', '{a}', '`b`', '5', '["b";""]']


def tree_sweep(*fns, deep=False, every=1, ternary=8):
    """The deterministic operators with these functions on all small trees,
    several operators in one program."""
    def ok(o):
        return (o.fn not in RANDOM_FNS and not (o.fn == "RECURSE")
                and (not fns or o.fn in fns))
    ts = {n: [t for t, o in sorted(OPS[n].items()) if ok(o)] for n in (1, 2, 3)}
    vals = trees(deep)[::every]
    slow = {t for n in (1, 2) for t in ts[n] if OPS[n][t].fn in HEAVY}

    def groups(n, big):
        g = [t for t in ts[n] if not (big and t in slow)]
        return [tuple(g[i:i + 8]) for i in range(0, len(g), 8)]

    def cases():
        for v in vals:
            big = len(v) > 20 or v[:2] in ("0,", "-1") or len(v) > 7 and \
                v[0] == '"'
            for g in groups(1, big):
                yield (g, "{} a", (v,))
            for g in groups(2, big):
                for w in TREEWITH:
                    yield (g, "a {} b", (v, w))
                    yield (g, "b {} a", (v, w))
        for v in vals[::ternary] if ts[3] else ():
            for w, x in itertools.product(TREEWITH[:9], repeat=2):
                for form in ("a {} b c", "b {} a c", "b {} c a"):
                    yield (tuple(ts[3]), form, (v, w, x))

    def judge(case):
        g, form, args = case
        try:
            if diff("RP[" + ";".join("(" + form.format(t) + ")"
                                     for t in g) + "]", args) is None:
                return None
        except Skip:
            pass
        for t in g:
            try:
                bad = diff("RP(" + form.format(t) + ")", args)
            except Skip:
                continue
            if bad:
                return bad
        # only together: report the whole program
        return diff("RP[" + ";".join("(" + form.format(t) + ")"
                                     for t in g) + "]", args)
    return Sweep("trees", cases, judge, f"{sum(map(len, ts.values()))} "
                 f"operators on all {len(vals)} small trees")
