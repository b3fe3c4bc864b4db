"""What number, integer and truth value a Scalar stands for."""
from ..lib import *

LEVEL = "model_checking"
PROG = ("RP[+a -a a+1 a*2 !a a?1 2 a=0 a<1 a=b (0,a) \"pqr\"X a BN a a Q b"
        " a&3 a|4 (\"abc\"@a)]")


def judge(s):
    return diffv(PROG, [s, "1"])


def judge_pair(case):
    return diffv("RP[a=b a<b a>b a<=b a!=b a+b a Q b a==b a CM b]", case)


def judge_value(src):
    return diff("RP[!a a?1 2 a&3 a|4]", (src,))


def judge_cmd(src):
    return diff("x:0 I a{x+:1}EL{x+:2} W a&x<5{x+:10} T a|x>40{x+:20} x",
                (src,))


def sweeps(tier):
    deep = tier == "thorough"

    def short():
        for t in seqs("015-.e+ \na", 0, 5 if deep else 4):
            yield "".join(t)

    def longer():
        for t in seqs("01-.e", 5, 7 if deep else 6):
            yield "".join(t)

    def zeros():
        for t in seqs("0.", 0, 8):
            for pre in ("", "-", " ", "\n"):
                for post in ("", "\n", " ", "1", "-", "e0"):
                    yield pre + "".join(t) + post

    def odd():
        for t in seqs(["٣", "²", "1", ".", "-", "\t", "\v", "\xa0", "_", "x",
                       "E", "inf", "nan", "0b1", ","], 1, 3):
            yield "".join(t)

    def pairs():
        pool = ["", "0", "00", "0.0", "-0", "-0.0", "1", "01", "1.0", "1.",
                "1.5", "1e", "1.e0", "1.e1", "10", "a", "1a", "-1", "-a", " 1",
                "-", ".", ".5", "0.5", "+1", "99999999999999999999",
                "99999999999999999998", "9007199254740993",
                "9007199254740992.0", "2", "1e+2", "1e2", "100", "\n1"]
        yield from product(pool, repeat=2)

    def values():
        yield from VALUES
        yield from ["``", "{}", "{()}", "{0}", "3,3", "(),0", "0,()", "[0]",
                    "[()]", "[[]]", "5,1", "(),()", '"."', '"0."', '".0"',
                    '"0.0.0"', '"\n0"', '"0\n"']

    return [Sweep("large", lambda: iter(LARGE), judge_value,
                  "large values"),
            Sweep("short", short, judge,
                  f"all strings of <= {5 if deep else 4} of 10 chars"),
            Sweep("longer", longer, judge,
                  "all strings of 5-6 chars over 01-.e"),
            Sweep("zeros", zeros, judge, "all strings of dots and zeros"),
            Sweep("odd", odd, judge, "odd digits, signs and white space"),
            Sweep("pairs", pairs, judge_pair, "all pairs of 34 numerals"),
            Sweep("truth", values, judge_value, "truth of every value"),
            Sweep("branching", values, judge_cmd,
                  "truth of every value, in commands")]
