"""Fold, scan and map meta-operators mean repeated application."""
from ..lib import *

LEVEL = "model_checking"
POOL = ['[]', '[5]', '[1;2]', '[2;3;4]', '[2;0;1;2]', '["a";"b";"c"]', '""',
        '"7"', '"123"', '"ab"', '0,4', '2,2', '[[1;2];[3]]', '[1,3;2,4]',
        '[3;2;1]', '[1;1;1]', '[();1]', '[`a`;`b`]', '[{a};2]', '()', '`a`',
        '(0,())', '(),3', '[1;"";0]', '[[];[1]]', '["";"a"]']
UPOOL = POOL + ['[-1;-2.5]', '[[3;1];[];[2]]', '["ab";"c d";""]', '1,5']


def sweeps(tier):
    deep = tier == "thorough"
    bi = [t for t in deterministic(2)]
    un = [t for t in deterministic(1)]
    skip = {":", "::", "PU", "PB", "PK"}

    def folds():
        for t in bi:
            if t in skip:
                continue
            for v in POOL:
                yield (f"RP($ {t} a)", (v,))
                yield (f"RP(\\$ {t} a)", (v,))

    def spelled():
        # the fold written out
        ls = ["[" + ";".join(i) + "]"
              for i in seqs(['1', '2', '-3', '"b"', '[4]'], 1, 3)]
        for t in bi:
            if t in skip:
                continue
            for v in ls if deep else ls[5::2]:
                yield (f"RP[$ {t} a \\$ {t} a]", (v,))

    def maps():
        for t in un:
            star = f"{t} *" if t + "*" in ALLOPS else f"{t}*"
            if OPS[1][t].fn == "RECURSE" or t + "*" in ALLOPS:
                continue
            for v in UPOOL:
                yield (f"RP({star} a)", (v,))
                yield (f"RP({star}{star} a)", (v,))

    def combined():
        some_b = ["+", "-", "*", ".", ",", "**", "<", "@", "PE", "&", "CM",
                  "MX" if "MX" in bi else "%", "R", "J", "M", "Z"]
        some_b = [t for t in some_b if t in bi]
        some_u = ["-", "#", "!", "R", "^", "J", "+", "\\!"]
        for s in some_b:
            for u in some_u:
                if u not in un:
                    continue
                for v in POOL:
                    yield (f"RP($ {s} {u}* a)", (v,))
                    yield (f"RP({u} $ {s} a)", (v,))
            for t in some_b:
                for v in POOL:
                    yield (f"RP($ {s} \\$ {t} a)", (v,))
                    yield (f"RP($ {s} $ {t} a)", (v,))
            for v in ["[[1;2];[3;4]]", "[[];[1]]", "[1,4;\"567\"]"]:
                yield (f"RP($ {s}*a)", (v,))
                yield (f"RP(\\$ {s}*a)", (v,))

    def lambdas():
        for t in bi:
            if t in skip:
                continue
            for v in ['[1;2;3]', '[]', '"45"', '3']:
                yield (f"RP(($ {t} _) a)", (v,))
                yield (f"RP((\\$ {t} _) a)", (v,))
        for t in un:
            if OPS[1][t].fn == "RECURSE" or t + "*" in ALLOPS:
                continue
            for v in ['[1;2;3]', '[]', '"45"', '3']:
                yield (f"RP(({t}* _) a)", (v,))

    def assigned():
        for t in bi:
            if t in skip:
                continue
            for v in ['[1;2;3]', '[]', '"45"']:
                yield (f"x:$ {t} a RP[x a]", (v,))

    def longer():
        # lists of up to six items, few different ones
        ls = ["[" + ";".join(i) + "]" for i in itertools.chain(
            seqs(["1", "2"], 4, 6 if deep else 5),
            seqs(["1", '"b"', "[4]"], 4, 5 if deep else 4),
            seqs(["0", "()", "-3"], 4, 4))]
        if not deep:
            ls += ["[" + ";".join(i) + "]" for i in seqs("12", 6, 6)][::5]
        ls += [lit("".join(i)) for i in seqs("12a", 4, 4)][::1 if deep else 4]
        bs = [t for t in bi if t not in skip and OPS[2][t].fn not in HEAVY
              | {"POW", "MUL", "STRMUL", "REPEATLIST"}]
        es = [f"{m} {t} a" for m in ("$", "\\$") for t in bs]
        es += [f"{t} * a" for t in un if OPS[1][t].fn not in HEAVY
               | {"RECURSE"} and t + "*" not in ALLOPS]
        gs = [tuple(es[i:i + 8]) for i in range(0, len(es), 8)]
        for v in ls:
            for g in gs:
                yield (g, (v,))

    def large_():
        heavy = HEAVY | {"MUL", "STRMUL", "REPEATLIST", "UNWEAVE", "CHOP",
                         "TOBASE", "TODIGITS", "FROMBASE", "WRAP"}
        for t in bi:
            if t in skip or OPS[2][t].fn in heavy:
                continue
            for v in ("0,65", "(1,40)AE 7", '"ab1"X30', "[1;2]RL 30",
                      "-30,30", '("b"X9)AE("a"X9)'):
                yield (f"RP($ {t} a)", (v,))
                yield (f"RP(\\$ {t} a)@(-3,())", (v,))
        for t in un:
            if OPS[1][t].fn not in HEAVY and t + "*" not in ALLOPS:
                for v in ("0,300", '["ab";"c"]RL 150', '"ab1"X90'):
                    yield (f"RP({t}*a)", (v,))

    return [differential("large", large_, "folds, scans and maps of up to "
                         "300 items", budget=60000),
            grouped("longer", longer, "lists of 4 to 6 items"),
            differential("folds", folds,
                         f"{len(bi)} operators x {len(POOL)} iterables"),
            differential("spelled", spelled, "all lists of <= 3 items"),
            differential("maps", maps,
                         f"{len(un)} operators x {len(UPOOL)} values"),
            differential("combined", combined, "pairs of meta-operators"),
            differential("lambdas", lambdas, "meta-operators on functions"),
            differential("assigned", assigned,
                         "folding leaves the operand alone")]
