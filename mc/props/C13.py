"""Compute-and-assign is assign-the-computed-value, to any target."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
INIT = ['3', '"ab"', '[1;2;3]', '0,3', '()', '[[1;2];"b"]', '`a`', '{a+1}']
RHS = ['2', '"b"', '[4;5]', '()', '1,3', '`b`']
TARGETS = ["x", "b", "(x 1)", "(x 0 1)", "x@1", "x@0@1", "x@(y)", "x@<2",
           "x@>1", "(x -1)", "[x y]", "x@(0,2)", "l", "$1", "$_", "(x 9)"]


def judge_law(case):
    """x op: v stores and yields what x op v computes."""
    t, form, v, w = case
    if form == "x":
        one = f"x:a RP[(x {t}: b) x]"
        two = f"x:a y:(x {t} b) x:y RP[x x]"
    else:
        one = f"x:[7 a 8] RP[(x@1 {t}: b) x]"
        two = f"x:[7 a 8] y:((x 1) {t} b) (x 1):y RP[(x 1) x]"
    vals = [val(v).real, val(w).real]
    r = drv.run_ref(one, [val(v).ref, val(w).ref], "p", "", 4000)
    o = drv.run_real(one, vals, "p")
    p = drv.run_real(two, vals, "p")
    if o.key != p.key:
        return (f"{one!r} and {two!r} differ for a={v} b={w}\n"
                f"first:  {o!r}\nsecond: {p!r}")
    if o.key != r.key:
        return f"{one!r} a={v} b={w}: expected {r!r}, observed {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    vals_ops = {t for t in OPS[2] if OPS[2][t].flags & 1}
    bi = [t for t in deterministic(2) if t not in vals_ops]
    un = [t for t in deterministic(1)
          if OPS[1][t].fn not in ("RECURSE",)]

    def laws():
        for t in bi:
            for v in INIT + (['"12"', '[]', '""'] if deep else []):
                for w in RHS:
                    yield (t, "x", v, w)
            for v in INIT[:4]:
                for w in RHS[:3]:
                    yield (t, "ix", v, w)

    def unary_():
        for t in un:
            for v in INIT:
                yield (f"x:a RP[({t}: x) x]", (v,))
                yield (f"x:[7 a 8] RP[({t}: x@1) x]", (v,))
        for t in deterministic(2):
            for v in ['[1;2;3]', '"ab"', '1,4', '[]']:
                yield (f"x:a RP[($ {t}: x) x]", (v,))
                yield (f"x:a RP[(\\$ {t}: x) x]", (v,))
        for t in un:
            if t + "*" in ALLOPS:
                continue
            for v in ['[1;2;3]', '["ab";[3]]']:
                yield (f"x:a RP[({t}*: x) x]", (v,))

    def targets():
        for t in ["+", ".", "-", "AL", "PE", "X", "*", "^", ",", "R", "@",
                  "&", "|", "//", "Q", "J", "CM", "%", "AE", "Z", "M"]:
            if t not in OPS[2] or t in vals_ops - {"@"}:
                continue
            for g in TARGETS:
                for v in INIT:
                    for w in RHS[:4]:
                        yield (f"x:a y:1 {g} {t}: b RP[x y b l $1]", (v, w))
                        yield (f"x:a y:1 RP[{g} {t}: b]", (v, w))

    def effects():
        # target and operand are evaluated once, in order
        for t in bi:
            yield (f"x:[5 6 7] i:0 ((U i) {t}: 2) RP[x i]", ())
            yield (f"x:[5 6 7] i:0 (x U i) {t}: 2 RP[x i]", ())
            yield (f"x:[5 6 7] i:0 (x {t}: U i) RP[x i]", ())
            yield (f"l:[] x:[5 6] x@(l PB 1 0) {t}: (l PB 2 3) RP[x l]", ())
            yield (f"x:[5 6 7] i:0 (x@U i) {t}: U i RP[x i]", ())
            yield (f"x:y:4 (x {t}: y) {t}: 3 RP[x y]", ())
            yield (f"x:y:4 x {t}: y {t}: 3 RP[x y]", ())
            yield (f"x:4 F i 3 {{x {t}: i}} RP x", ())
            yield (f"x:[4;5] F i x {{i {t}: 2}} RP[x i]", ())
            yield (f"f:{{a {t}: 2 a}} x:5 RP[(f x) x]", ())
            yield (f"RP[5 {t}: 2 x]", ())
            yield (f"x:[1;[2;3]] y:x (x 1 0) {t}: 2 RP[x y]", ())
        for t in un:
            yield (f"x:[5 6 7] i:0 {t}: (x U i) RP[x i]", ())
            yield (f"x:[1;[2;3]] y:x {t}: (x 1 0) RP[x y]", ())
            yield (f"RP {t}: 5", ())

    return [Sweep("laws", laws, judge_law,
                  f"{len(bi)} operators x values, plain and indexed target"),
            differential("unary", unary_, "unary, fold, scan, map operators"),
            differential("targets", targets,
                         f"{len(TARGETS)} kinds of targets"),
            differential("effects", effects, "evaluated exactly once")]
