"""Push, pop and pick at both ends keep the sequence and its order."""
from ..lib import *
from .. import long

LEVEL = "model_checking"
INIT = ['[]', '[1;2]', '"ab"', '""', '0,3', '()', '5', '(2,())', '`a`',
        '[[1];"b"]', '{a}', '1,2', '-2,0', '(0,())', '((),())', '(-1,())',
        '((),2)']
STEPS = ["x PU {}", "x PB {}", "z PB PO x", "z PB DQ x", "z PB x PK 1",
         "z PB(x PK -1)", "x PU y", "z PB x PK 0", "x PB x"]
DEQ = ["PU", "PB", "PO", "DQ"]


def model(seq):
    """Deque contents and popped items of an operation sequence."""
    d, out = [], []
    for k, t in enumerate(seq):
        if t == "PU":
            d.insert(0, str(k))
        elif t == "PB":
            d.append(str(k))
        elif d:
            out.append(d.pop(0 if t == "PO" else -1))
        else:
            out.append("()")
    return "[[" + ";".join(d) + "];[" + ";".join(out) + "]]\n"


def judge_deque(seq):
    from .. import drv
    prog = "x:[] z:[]"
    for k, t in enumerate(seq):
        prog += f";x {t} {k}" if t[0] == "P" and t != "PO" else \
            f";z PB {t} x"
    prog += ";RP[x z]"
    drv.STEPS[0] += len(seq)
    o = drv.run_real(prog)
    if o.key != ("ok", model(seq)):
        return f"{prog!r} should give {model(seq)!r}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"

    def deque():
        yield from seqs(DEQ, 0, 9 if deep else 7)

    def sequences():
        for v in INIT:
            for t in seqs(STEPS, 1, 4 if deep else 3):
                s = ";".join(x.format(k + 5) for k, x in enumerate(t))
                yield (f"x:a z:[] y:[8;9] {s};RP[x z y]", (v,))

    def places():
        # every position in sequences of every small length
        for n in range(7):
            for v in (f"[{';'.join('10 11 12 13 14 15 16'.split()[:n])}]",
                      '"' + "abcdefg"[:n] + '"', f"0,{n}", f"3,{n + 3}",
                      f"[[1;2];\"cd\"]RL {n}"):
                for k in range(-2 * n - 3, 2 * n + 4):
                    yield ("x:a y:x z:(x PK b) RP[x y z]", (v, str(k)))
                    yield (f"x:a y:x z:(x PK({k})) RP[x y z]", (v,))
                    yield (f"x:a RP[x PK {k} x]" if k >= 0 else
                           f"x:{v} x PK(b+{k}) RP x", (v, "0"))
                    if n < 4:
                        yield ("x:[a;3] z:(x@0 PK b) RP[x z]", (v, str(k)))
                        yield ("x:a z:(x PK b) z:[z;x PK b] RP[x z]",
                               (v, str(k)))
                        yield ("x:a y:(x PK b) x PU y x PB b RP[x PK b x]",
                               (v, str(k)))

    def single():
        for op in ("PU", "PB", "PK"):
            for v in VALUES + INIT:
                for w in VALUES:
                    yield (f"x:a RP[x {op} b x]", (v, w))
            for v in INIT:
                for w in ("0", "1", "7", "-1", "-2", '""', "[0]", "1.5"):
                    yield (f"RP([a]@0 {op} b)", (v, w))
                    yield (f"x:[a;3] RP[x@0 {op} b x]", (v, w))
                    yield (f"x:a RP[(x@0) {op} b x]", (v, w))
                    yield (f"RP[@[a] {op} b]", (v, w))
                    yield (f"x:a y:b RP[[x y] {op} 9 x y]", (v, w))
                    yield (f"x:a y:(x {op} b) y@0:\"q\" RP[x y]", (v, w))
        for op in ("PO", "DQ", "PK"):
            if op not in OPS[1]:
                continue
            for v in VALUES + INIT:
                yield (f"x:a RP[{op} x x]", (v,))
                yield (f"x:[a;3] RP[{op} x@0 x]", (v,))
                yield (f"RP[{op} [a]@0]", (v,))
                yield (f"x:a RP[{op} (x@0) x]", (v,))
                yield (f"x:a RP[{op} x {op} x {op} x x]", (v,))
                yield (f"x:a y:5 RP[{op}[x y] x y]", (v,))
                yield (f"x:a W x {{y.:(RP {op} x).\",\" I #y>30{{x:()}}}} RP y",
                       (v,))

    return [differential("long", long.c21, "hundreds of operations", budget=100000),
            Sweep("deque", deque, judge_deque,
                  f"all sequences of <= {9 if deep else 7} operations,"
                  " against a deque"),
            differential("sequences", sequences, f"all sequences of <= "
                         f"{4 if deep else 3} of {len(STEPS)} steps x "
                         f"{len(INIT)} values"),
            differential("places", places, "every position to pick from"),
            differential("single", single, "each operation on every value")]
