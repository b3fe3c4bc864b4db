"""Random operators: every documented outcome is possible, equally likely.

The generator's choices are enumerated: each run is repeated for every
sequence of answers that the generator could give, on the implementation
and on the reference, and the exact distributions over what is printed are
compared.  (So an implementation may ask for its random numbers in a
different way.)
"""
import random
from fractions import Fraction

from ..lib import *
from .. import drv

LEVEL = "model_checking"
INST = random._inst
LIMIT = 3000


class Choices:
    """Enumerates all sequences of answers of a chooser, depth first."""

    def __init__(self):
        self.plan = []          # [answer, number of answers]
        self.at = 0

    def choose(self, n):
        if self.at == len(self.plan):
            self.plan.append([0, n])
        k, m = self.plan[self.at]
        assert m == n, "not deterministic"
        self.at += 1
        return k

    def weight(self):
        w = Fraction(1)
        for _, n in self.plan:
            w /= n
        return w

    def advance(self):
        while self.plan and self.plan[-1][0] + 1 == self.plan[-1][1]:
            self.plan.pop()
        if not self.plan:
            return False
        self.plan[-1][0] += 1
        return True


def distribution(run):
    c, dist, n = Choices(), {}, 0
    while True:
        c.at = 0
        key = run(c.choose).key
        dist[key] = dist.get(key, 0) + c.weight()
        n += 1
        if n > LIMIT:
            raise Skip
        if not c.advance():
            return dist


GRID = 2520
SCALED = [False]


def scaled(choose):
    SCALED[0] = True
    return (choose(GRID) + 0.5) / GRID


def same(o, r):
    """Equal distributions (within the grid, if random() is scaled)."""
    if not SCALED[0] or o == r:
        return o == r
    return set(o) == set(r) and all(abs(o[k] - r[k]) <= Fraction(1, GRID)
                                    for k in r)


def real_runner(src, args):
    uses_r = "r" in src
    SCALED[0] = False

    def run(choose):
        INST._randbelow = choose
        if not uses_r:
            # an implementation may also scale a number from [0, 1)
            saved = random.random
            random.random = INST.random = lambda: scaled(choose)
        try:
            return drv.run_real(src, [val(a).real for a in args], "p",
                                cache=True)
        finally:
            del INST._randbelow
            if not uses_r:
                random.random = saved
                del INST.random
    return run


def judge(case):
    src, args = case
    r = distribution(lambda ch: drv.run_ref(
        src, [val(a).ref for a in args], "p", chooser=ch))
    o = distribution(real_runner(src, args))
    if not same(o, r):
        diff = [k for k in set(o) | set(r) if o.get(k) != r.get(k)][:4]
        return (f"{src!r} args {list(args)}: " + "; ".join(
            f"{k!r} should have probability {r.get(k, 0)}, has {o.get(k, 0)}"
            for k in diff))


def judge_law(case):
    """Distributions stated independently of the reference."""
    src, items, want = case
    o = distribution(real_runner(src, items))
    exp = {("ok", k + "\n"): Fraction(1, n) for k, n in want}
    if not same(o, exp):
        return f"{src!r} args {list(items)}: {o} should be {exp}"


def judge_r(case):
    """r gives the generator's number, once per use."""
    src, values, want = case
    it = iter(values)
    saved = random.random
    random.random = lambda: next(it)
    try:
        o = drv.run_real(src, [], "p")
    finally:
        random.random = saved
    drv.STEPS[0] += 1
    if o.key != ("ok", want):
        return f"{src!r} with numbers {values} should print {want!r}: {o!r}"


def judge_seed(case):
    """The same seed gives the same sequence; runs are otherwise free."""
    body, seed = case
    src = f"r:{seed};x:[{body}];r:{seed};y:[{body}];P x;P y;P x==y"
    a, b = (drv.run_real(src, [], "p") for _ in "ab")
    drv.STEPS[0] += 2
    lines = a.out.split("\n")
    if a.kind != "ok" or lines[2] != "1" or lines[0] != lines[1]:
        return f"{src!r}: {a!r}"
    if a.key != b.key:
        return f"{src!r} gave {a!r} and then {b!r}"
    c = drv.run_real(f"r:{seed};[{body}]", [], "p")
    if c.out != lines[0] + "\n":
        return f"seed {seed}: {c!r} differs from {a!r}"


def judge_vary(body):
    """Different seeds give different sequences (not all the same)."""
    outs = {drv.run_real(f"r:{s};[{body}]", [], "p").key for s in range(40)}
    drv.STEPS[0] += 40
    if len(outs) < 4:
        return f"40 seeds give only {len(outs)} results of [{body}]: {outs}"


def judge_distinct(case):
    """Seeds that are different texts give different sequences, seeds that
    are the same text the same."""
    a, b, same = case
    x, y = (drv.run_real(f"r:{s};[r;r;r]", [], "p").key for s in (a, b))
    drv.STEPS[0] += 2
    if x[0] != "ok" or (x == y) != same:
        return (f"seeds {a} and {b} give {x} and {y}, should "
                + ("agree" if same else "differ"))


SEEDS = [('""', ""), ('"abc"', "abc"), ('"xyz"', "xyz"), ("0", "0"),
         ("1", "1"), ('"1"', "1"), ('"1.0"', "1.0"), ('"01"', "01"),
         ('" 1"', " 1"), ('"1x"', "1x"), ("-1", "-1"), ("1.5", "1.5"),
         ("[1;5]", "[1;5]"), ("15", "15"), ('"a"', "a"), ('"A"', "A"),
         ('"a "', "a "), ("0,3", "[0;1;2]"), ('"[1;5]"', "[1;5]"), ('"012"', "012"), ("12", "12"),
         ("-0", "0"), ('"-0"', "-0"), ("()", ""), ("[]", "[]"), ("`abc`", "abc"),
         ("10**30", "1" + "0" * 30), ("10**30+1", "1" + "0" * 29 + "1"),
         ('"abcdefghij"', "abcdefghij"), ('"abcdefghik"', "abcdefghik")]


def sweeps(tier):
    deep = tier == "thorough"
    rc, sh = texts(1, "RANDCHOICE")[0], texts(1, "SHUFFLE")[0]
    rr = texts(1, "RANDRANGETO")[0]

    def laws():
        from itertools import permutations
        L = lambda xs: "[" + ";".join(xs) + "]"

        def uniform(outs):
            outs = tuple(outs)
            return tuple((k, len(outs)) for k in outs)

        for n in range(1, 8):
            seq = [str(k + 1) for k in range(n)]
            v = L(seq)
            s = lit("".join(seq))
            yield (f"{rc} a", (v,), uniform(seq))
            yield (f"{rc} a", (s,), uniform(seq))
            yield (f"{rc} a", (f"1,{n + 1}",), uniform(seq))
            yield (f"{rr} a", (str(n),), uniform(map(str, range(n))))
            for lo in (-3, 0, 5):
                yield (f"a {rr} b", (str(lo), str(lo + n)),
                       uniform(str(lo + k) for k in range(n)))
            if n < 6 + deep:
                p = list(permutations(seq))
                yield (f"{sh} a", (v,), uniform(map(L, p)))
                yield (f"{sh} a", (s,), uniform(map("".join, p)))
                yield (f"{sh} a", (f"1,{n + 1}",), uniform(map(L, p)))
            if n < 5:
                yield (f"[({rc} a)({rr} b)]", (v, str(n)), uniform(
                    f"[{x};{y}]" for x in seq for y in range(n)))

    def values():
        for t in (rc, sh, rr):
            for v in VALUES + ['[1;1;2]', '"aab"', '[[];()]', '0,5', '7.9',
                               '(0,())', '["ab";[1;2;3]]']:
                yield (f"RP {t} a", (v,))
                yield (f"RP {t} [a]@0", (v,))
                yield (f"x:a y:{t} x P RP[x y] y@0:9 RP[x a]", (v,))
            for m in ("$", "\\$"):
                yield (f"RP({m}+ {t} a)", ("[1;2;3]",))
            yield (f"RP({t}*a)", ("[[1;2];3;\"ab\"]",))
            yield (f"RP({{{t} a}} M a)", ("[[1;2];3;\"ab\"]",))
            yield (f"f:{t}_ RP[(f a)(f a)]", ("[1;2;3]",))
        for v in VALUES:
            for w in ("0", "1", "3", "-2", '"4x"', '""', "2.9", "()", "[3;4]",
                      "0,2", "`a`", "{a}"):
                yield (f"RP(a {rr} b)", (v, w))

    def programs():
        acts = [f"x:{rc} l", f"x:{sh} l", f"x:{rr} 3", f"U l@{rr} 2",
                f"l PB {rr} 2", f"I {rr} 2{{P 1}}EL{{P 2}}",
                f"y:{rc} \"ab\"", f"l:{sh} l", f"L {rr} 3{{y.:\"k\"}}",
                f"y:(l {rr} 2)"]
        for t in seqs(acts, 1, 4 if deep else 3):
            yield ("l:[1;2;3];" + ";".join(t) + ";RP[x y l]", ())
        for p in (f"({{a<2?a (f {rr} a)+1}} 4)", f"({{a?(f a-1).{rr} 2 \"\"}} 3)",
                  f"W {rr} 2 & #y<4 {{y.:1}} y", f"{rc}{sh} \"abc\"",
                  f"x:{sh},4 {sh} x", f"\"abc\"@{rr} 3", f"{rr} {rr} 4",
                  f"{{{rr} a}} M ,4", f"{{{rr} 2}} FI \"abc\"",
                  f"{{{rr} 2}}SK\"abc\"", f"\"aba\" R \"a\" {{{rr} 2}}",
                  f"\"aba\" R `a` {{{rc} \"xy\"}}", f"({rr} 2)?({rr} 3) 7",
                  f"({rr} 2)&{rr} 3", f"({rr} 2)|{rr} 3", f"V\"{rr} 3\"",
                  f"x:{rr} 3 [x x]", f"{rr} 2 ; {rr} 3", f"F i {sh},3{{P i}}",
                  f"({rr} 3)X 2", f"x@{rr} 2:5", f"l:,3 l@{rr} 3:9 l",
                  f"l:,3 l@{rr} 3+:9 l", f"l:,3 (l {rr} 3)::(l {rr} 3) l",
                  f"x:{rc}[{{a+1}};{{a*3}}] (x 5)", f"{rr} 2,{rr} 3"):
            yield (p, ())

    def number():
        for v in (0.0, 0.5, 0.25, 0.999, 0.123456):
            t = f"{v:g}"
            yield ("r", (v,), f"{t}\n")
            yield ("RP[r r]", (v, 0.75), f"[{t};0.75]\n")
            yield ("x:r [x x]", (v,), f"[{t};{t}]\n")
            yield ("{r}M,3", (v, 0.5, 0.25), f"[{t};0.5;0.25]\n")
            yield ("({r} 5)", (v,), f"{t}\n")
            yield ("r<0.6?r 2", (v, 0.1), f"{0.1 if v < 0.6 else 2}\n")
            yield ("P r r", (v, 0.5), f"{t}\n0.5\n")
            yield ("r//0.1 r", (v, 0.5), "0.5\n")

    def folded():
        # folds, scans, chains and maps of the random operators
        for v in ("[]", "[5]", "[1;3]", "[1;3;6]", "[3;1]", "[2;2]", '""', '"3"',
                  '"14"', '"149"', "0,0", "0,2", "1,4", "()", "[[1;2];[3;4]]",
                  "[();2]", "[();2;4]", '["a";2]', "{a}", "`a`", "[0;[2;3]]"):
            for e in (f"${rr} a", f"\\${rr} a", f"{rr}*a", f"{rc}*a",
                      f"{sh}*a", f"{rr} a", f"{rc} a", f"{sh} a",
                      f"${rr} 0,3", f"{rr}*{rr}*a", f"x:a {rr}:x x",
                      f"x:a {sh}:x x", f"x:a {rc}:x x", f"x:a x {rr}:3 x",
                      f"z:{rr} _ (z a)", f"z:_{rr} 3 (z a)", f"{rc} {sh} a",
                      f"z:{sh} _ (z a)", f"z:{rc} _ (z a)", f"-{rr} a",
                      f"a {rr} 2", f"1 {rr} a", f"a {rr} a"):
                yield ("RP(" + e + ")" if " x" not in e and ":" not in e
                       else e, (v,))
        for a, b, c in product("0123", repeat=3):
            yield (f"{a} {rr} {b} {rr} {c}", ())
            yield (f"{a}+{b} {rr} {c}*2", ())
            yield (f"{a} {rr} {b}+{c}", ())

    def seeds():
        bodies = ["r", "r;r;r", f"{rr} 100", f"{sh} ,9", f"{rc},50",
                  f"5 {rr} 1000", f"r;{rr} 9;{sh} \"abcdef\"",
                  f"{{{rr} 9}} M ,5"]
        for b in bodies:
            for s in ("0", "1", "42", "\"x\"", "\"\"", "-1", "3.5", "[1;2]",
                      "()", "\"42\"", "0,3", "{a}", "`p`"):
                yield (b, s)

    def vary():
        yield from ["r", f"{rr} 100", f"{sh} ,9", f"{rc},50", f"{{r}}M,3"]

    def distinct():
        for x, y in product(SEEDS, repeat=2):
            yield (x[0], y[0], x[1] == y[1])

    return [Sweep("distinct", distinct, judge_distinct,
                  "all pairs of 30 seeds"),
            Sweep("laws", laws, judge_law, "exact distributions, by law"),
            Sweep("values", values, judge, "exact distributions on all kinds "
                  "of values"),
            Sweep("programs", programs, judge, "exact distributions of all "
                  f"sequences of <= {4 if deep else 3} of 10 statements"),
            Sweep("folded", folded, judge, "folds, maps, chains"),
            Sweep("number", number, judge_r, "uses of r"),
            Sweep("seeds", seeds, judge_seed, "seeding"),
            Sweep("vary", vary, judge_vary, "40 seeds")]
