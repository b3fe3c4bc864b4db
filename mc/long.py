"""Long programs: sizes that enumeration of small programs does not reach.

Each function yields cases for the named property's judge function.
"""
from .lib import OPS, ALLOPS, COMMANDS, lit

SIZES = (10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)


def c01():
    toks = sorted(ALLOPS) + sorted(COMMANDS) + [
        "a", "z", "_", "$a", "$_", "$1", "$(", "\\a", "AZ", "A", "12", "3.5",
        '"s"', "'x", "`p`", '\\"e\\"', "[", ")", "{", ";", "$", "\\$"]
    for n in (5, 16, 17, 40, 150):
        for t in toks:
            yield t * n
            yield (t + " ") * n
    for n in SIZES + (1000, 4096):
        yield '"' + "ab\n;" * n + '"'
        yield '"' + "a" * n
        yield "`" + "a\\`" * n + "`"
        yield '\\"' + "x\\" * n + 'y\\"'
        yield "1" * n + "." + "2" * n + "." + "3"
        yield "A" * n
        yield "AbC" * n
        yield "a\n" * n + ";comment\n" * n + "b"
        yield "a{;" + "c;\n" * n + ";}b"
        yield "{;a;}" * n + "x"
        yield "a  " + "+" * n + "\nb"
        yield " \t\n" * n + "a"
        yield "'" * n
        yield "$" * n + "x"
        yield "\\" * n + "a"
        yield "." * n
        yield "a" + chr(0xe9) * n + "b"


def c03():
    for n in (8, 20, 40):
        for x in sorted(OPS[2]):
            yield f" {x} ".join("abcde"[i % 5] for i in range(n))
        for u in sorted(OPS[1]):
            yield f"{u} " * n + "a"
            yield f"a + {u} b " * 1 + f"- {u} c " * n
        for x in ("+", "-", "*", "**", "<", "=", ".", "&", "?"):
            yield ("(a " + x + " ") * n + "b" + " 1)" * n
            yield "[a " * n + x + " b" + "]" * n
        yield "a?b " * n + "c"
        yield "a?" * n + "b" + " c" * n
        yield "(a b?" * n + "1 2" + ")" * n
        yield "{a+" * n + "1" + "}" * n
        yield "a:b+:" * n + "c"
        yield "$+\\$-" * n + "a"
        yield "I a{" * n + "P b" + "}EL{c}" * n
        yield "I a P b EI " + "c P d EI " * n + "e P f EL g"
        yield "F i a " * n + "P i"
        yield "a@" * n + "b"
        yield "P a;" * n
        yield "a < b " + "<= c " * n


def c04():
    for n in (10, 30):
        for o, c in ("()", "[]", "{}", ("{;x", ";}"), ("$(", ")"),
                     ("I a{", "}"), ("F i a{", "}EL"), ("(a+", ")"),
                     ("[a;", "]")):
            for k in (n - 1, n, n + 1):
                yield o * n + "b" + c * k
                yield o * n + "b" + c * k + " x"
                yield o * n + c * k
        yield '"a" ' * n + '"'
        yield "a+" * n
        yield "I a P " * n + "1 EL 2"
        yield "a?b " * n
        yield "x:" * n + "1"


def c19():
    for n in (20, 100):
        for act in ("x:[x x]@0", "x:x.0", "x PU x@0", "x@i:i", "y:x", "x:y",
                    "y PB x@0", "x:RV x", "(x 0):y@0"):
            for s in ("y:x", "x:y", "x@1:7", "y@0:\"q\"", "z:[x y]", "x::y"):
                yield (f"x:[1;2;3] y:[[4];5] L {n}{{U i {act} {s} "
                       "I #y>40{y:[[4];5]}}RP[#x x@<3 #y @y z]")


def c20():
    for n in (64, 300):
        for v in (f"0,{n}", f"(0,{n})AE 5", f'"ab"X{n}', f"[[1;2]]RL {n}"):
            for i in (0, 1, n - 1, n, -1, -n, n // 2, 2 * n + 1):
                for w in ("9", '"XY"', "[7;8]", "()"):
                    yield (f"x:a y:x x@{i}:b RP[#x x@{i} x@>-3 x@<3 y=a]",
                           (v, w))
                    yield (f"x:a (x {i} 1):b RP[x@{i} #x]", (v, w))
                    for j in (0, 3, n - 1, n, n + 5):
                        yield (f"x:a x@({i},{j}):b RP x", (v, w))
        names = "[" + " ".join(f"{c}{d}" for c in "abcdefghij"
                               for d in ("",)) + "]"
        yield (f"{names}:a RP {names}", (f"0,{n}",))
    for d in (5, 20, 60):
        idx = "@0" * d
        yield (f"x:[]L {d}{{x:[x 1]}} x{idx}:7 RP[x x{idx}]", ())
        yield (f"x:9 L {d}{{x:[x 1]}} (x" + " 0" * d + "):8 RP x", ())


def c21():
    for n in (30, 120, 400):
        for k in range(1, 8):
            for ops in (("x PU i", "x PB i"), ("x PB i", "z PB PO x"),
                        ("x PU i", "z PB DQ x"), ("z PB x PK i", "x PB i"),
                        ("z PB PO x", "x PU i i"), ("x PB x@0", "DQ x")):
                yield (f"x:0,{k} x:x AE 9 z:[] L {n}{{U i;I i%{k}{{{ops[0]}}}"
                       f"EL{{{ops[1]}}}}}RP[#x x@<50 x@-1 #z z]", ())


def c22():
    for n in (10, 30, 60):
        for p in ("f:{a<1?0 1+(f a-1)}(f N)", "f:{I a{(f a-1)}b:a x.:b;b}(f N)x",
                  "f:{a?(f a-1 b+a)b}(f N 0)", "z:{a?(y a-1).\"b\" \"\"}"
                  "y:{a?(z a-1).\"c\" \"\"}(z N)", "({a?[a;RE(a-1)]g} N)",
                  "({a?(f a-1)AE g@0 l} N)", "f:{c:a;I a{(f a-1)}x AE:c c}(f N)x",
                  "x:{a+1}L N{x:x+1}(x 0)", "x:{a}L N{x:x.\"-\"}(x 7)",
                  "f:{F i,a{i>1?(f i-1)i}h+:1}(f 4)h",
                  "x:\"a+1\"({a:V x}N)", "x:5 L N{x:({x:a x+1}x)}x"):
            yield (p.replace("N", str(n)), ("1", "2"))
        args = " ".join(str(i) for i in range(n))
        yield (f"RP({{g}} {args})", ())
        yield (f"RP({{[a b c d e #g g@-1]}} {args})", ())
        yield (f"RP({{$+g}}V 0,{n})", ())
        yield (f"({{f:{{g}} (f {args})}} 1)", ())
        # distinct user variables
        nm = [x + y for x in "ABQZ" for y in "BCDEJKQVWYZ"
              if x + y not in ALLOPS and x + y not in COMMANDS][:n]
        yield (";".join(f"{v}:{i}" for i, v in enumerate(nm)) + ";RP["
               + " ".join(nm) + "]", ())


def c23():
    for n in (50, 257, 1000):
        for p in ("L N{U i}i", "F i,N{x+:i}x", "W i<N{U i}i", "T i=N{U i}i",
                  "F i R,N{x:i}x", "LR`.` \"ab\"XN{U i x:$0}[i x]",
                  "F c \"ab\"XN{I c=\"a\"{U i}EL{U x}}[i x]",
                  "F[p k]EN,N{x+:p=k}x", "i:N W i{D i U x}x",
                  "L N{I i%2{U x}EI i%3{U y}EL{U z}U i}[x y z]",
                  "F i,N I i%7 x+:i EL y+:i [x y]",
                  "x:0,N L x{U i}i", "x:[N]W x{PO x U i}i",
                  "x:,N W#x{PO x U i}i", "$+({a%2?1 0}M,N)"):
            yield ("i:0 x:0 y:0 z:0 " + p.replace("N", str(n)), ())
    for d in (4, 8, 16):
        yield ("I 1{" * d + "P i" + "}EL{P 9}" * d, ())
    # bodies of many statements
    for n in list(range(1, 25)) + [40, 100]:
        b = ";".join(f"x.:{k}" if k % 3 else "U y" for k in range(n))
        for h in ("I 1{%s}EL{x.:\"n\"}", "I 0{x.:\"n\"}EL{%s}",
                  "I 0{x.:\"n\"}EI 1{%s}EL{x.:\"n\"}", "L 2{%s}",
                  "F i,2{%s}", "F[i j][[1;2]]{%s}", "W i<2{%s;U i}",
                  "T i>1{%s;U i}", "LR`.`\"pq\"{%s}", "f:{%s}(f 1)",
                  "%s", "{%s}M[1;2]", "V\"%s\"" if '"' not in b else "%s",
                  "I 1{I 0{x.:\"n\"}EL{%s}}"):
            yield (f"x:\"\" y:0 i:0 {h % b};RP[x y i]", ())
    # chains of many else-ifs
    for n in range(1, 25):
        for k in (0, 1, n // 2, n - 1, n, n + 1):
            yield ("I a=0{P \"n0\"}" + "".join(f"EI a={j}{{P \"n{j}\"}}"
                                            for j in range(1, n))
                   + "EL{P \"else\"}P \"end\"", (str(k),))
        yield ("I 1{" * d + "I 0 P i" + "}EL{P 9}" * d, ())
        yield ("F i,1{" * d + "U x P i" + "}" * d + "x", ())
        yield ("L 2{" * min(d, 9) + "U i" + "}" * min(d, 9) + "i", ())
        for k in range(0, d + 1, max(1, d // 4)):
            yield (f"i:{k} I i=0 P \"c0\" " + " ".join(
                f"EI i={j} P \"c{j}\"" for j in range(1, d))
                + " EL P \"none\"", ())


def c24():
    for n in (3, 12, 40, 300):
        yield (";".join(str(i) for i in range(n)) + ";RP[$_ $__ $___]", ())
        yield (f"L {n}{{5;6;7}}RP[$_ $__ $___]", ())
        yield (f"F i,{n}{{i}}RP[$_ $__]", ())
        yield (f"F i,{n}{{i~`.`}}RP[$0 $( $) $_]", ())
        yield (f"LR`(.)(.)?`\"abc\"X{n}{{x:$1.$2}}RP[x $0 $1 $2 $( $)]", ())
        yield (f"RP[(\"abc\"X{n})R`b(c)`{{b.$1}} $0 $1 $` $' $( $)]", ())
        yield (f"(\"ab\"X{n}.\"c\")~`c`;RP[#$` $' $( $)]", ())
        yield (f"(\"x\"X{n})~`" + "(.)" * min(n, 14) + "`;RP[$1 $2 $9 $$ #$'"
               " $( $) $[ $]]", ())


def c25(n=200):
    text = "".join(f"line {i}\n" for i in range(n))
    for p in ("L N{x AE:q}RP x", "L N{q}RP q", "W x:q{y.:x}y", "N:0 W q{U i}i",
              "RP q M,N", "F i,N{y:q}y", "x:0,N x:{q}M x J x"):
        for k in (10, n - 1, n, n + 1):
            yield (p.replace("N:0", "").replace("N", str(k)), (), "p", text)


def c33():
    from .props.C33 import FMTS
    for n in (64, 300):
        for v in (f"0,{n}", f"(0,{n})AE 1", f"[[1;2]]RL {n}", f'["ab"]RL {n}',
                  f'"ab"X{n}', f"[0,3]RL {n}", f"[();1]RL {n}"):
            for f in FMTS:
                yield (v, f)
    for d in (8, 12, 25):
        for v in ("[" * d + "1;2" + "]" * d, "[1;" * d + "2" + "]" * d,
                  "[[3];" * d + '"x"' + "]" * d, "[" * d + "0,2" + "]" * d):
            for f in FMTS:
                yield (v, f)
